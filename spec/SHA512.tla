------------------------------- MODULE SHA512 -------------------------------
(***************************************************************************)
(* SHA-512/256 of byte sequences (FIPS 180-4).  A 64-bit word is the       *)
(* sequence of its four 16-bit parts, the lowest first.                    *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE SequencesExt

LOCAL K == <<
  <<44578, 55080, 12184, 17034>>, <<26061, 9199, 17553, 28983>>, <<15151, 60493, 64463, 46528>>, <<56252, 33161, 56229, 59829>>,
  <<46392, 62280, 49755, 14678>>, <<53273, 46597, 4593, 23025>>, <<20379, 44825, 33444, 37439>>, <<33048, 55917, 24277, 43804>>,
  <<578, 41731, 43672, 55303>>, <<28606, 17776, 23297, 4739>>, <<45708, 20196, 34238, 9265>>, <<46306, 54783, 32195, 21772>>,
  <<35183, 62075, 23924, 29374>>, <<38577, 15126, 45566, 32990>>, <<4661, 9671, 1703, 39900>>, <<9876, 53097, 61812, 49563>>,
  <<19154, 40689, 27073, 58523>>, <<9699, 14415, 18310, 61374>>, <<54709, 35724, 40390, 4033>>, <<40037, 30636, 41420, 9228>>,
  <<629, 22827, 11375, 11753>>, <<58499, 28326, 33962, 19060>>, <<64468, 48449, 43484, 23728>>, <<21429, 33553, 35034, 30457>>,
  <<57259, 61030, 20818, 38974>>, <<12816, 11700, 50797, 43057>>, <<8511, 39163, 10184, 45059>>, <<3812, 48879, 32711, 48985>>,
  <<36802, 15784, 3059, 50912>>, <<42789, 37642, 37191, 54695>>, <<33391, 57347, 25425, 1738>>, <<28272, 2574, 10599, 5161>>,
  <<12284, 18130, 2693, 10167>>, <<51494, 23590, 8504, 11803>>, <<10989, 23236, 28156, 19756>>, <<46047, 40341, 3347, 21304>>,
  <<25566, 35759, 29524, 25866>>, <<45736, 15479, 2747, 30314>>, <<44774, 18413, 51502, 33218>>, <<13627, 5250, 11397, 37490>>,
  <<868, 19697, 59553, 41663>>, <<12289, 48194, 26187, 43034>>, <<38801, 53496, 35696, 49739>>, <<48688, 1620, 20899, 51052>>,
  <<21016, 55023, 59417, 53650>>, <<43280, 21861, 1572, 54937>>, <<8234, 22385, 13701, 62478>>, <<53688, 12987, 41072, 4202>>,
  <<53448, 47314, 49430, 6564>>, <<43859, 20801, 27656, 7735>>, <<60313, 57230, 30540, 10056>>, <<18600, 57755, 48309, 13488>>,
  <<23139, 50633, 3251, 14620>>, <<35531, 58177, 43594, 20184>>, <<58227, 30563, 51791, 23452>>, <<47267, 54962, 28659, 26670>>,
  <<45820, 24047, 33518, 29839>>, <<12128, 17175, 25455, 30885>>, <<43890, 41456, 30740, 33992>>, <<14828, 6756, 520, 36039>>,
  <<7720, 9059, 65530, 37054>>, <<48617, 56962, 27883, 42064>>, <<30997, 45766, 41975, 48889>>, <<21291, 58226, 30962, 50801>>,
  <<24988, 59942, 16078, 51751>>, <<49671, 8640, 47303, 53638>>, <<60190, 52704, 32214, 60122>>, <<53624, 61038, 20351, 62845>>,
  <<28602, 29207, 26538, 1776>>, <<39078, 41672, 32197, 2659>>, <<3502, 48889, 38916, 4415>>, <<18203, 4892, 2869, 7025>>,
  <<32132, 8964, 30709, 10459>>, <<9363, 16583, 43899, 13002>>, <<48828, 5577, 48650, 15518>>, <<3404, 39952, 26564, 17181>>,
  <<17078, 52030, 54462, 19653>>, <<32298, 64613, 10652, 22911>>, <<64236, 15062, 28587, 24523>>, <<22551, 19015, 6540, 27716>> >>
LOCAL IV == <<
  <<63276, 64555, 8596, 8753>>, <<25794, 51276, 24483, 40789>>, <<45393, 28499, 47211, 9107>>, <<60093, 22848, 30489, 38456>>,
  <<65507, 43150, 16098, 38440>>, <<14738, 21382, 7717, 48734>>, <<47274, 11397, 39420, 11009>>, <<11426, 33221, 11740, 3767>> >>

LOCAL P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
LOCAL Part(w, i) == w[(i % 4) + 1]
LOCAL Rot(w, q, r, i) == (Part(w, i + q) \div P2[r + 1]) + (Part(w, i + q + 1) % P2[r + 1]) * P2[17 - r]
LOCAL Shift(w, r, i) == (Part(w, i) \div P2[r + 1]) + (IF i = 3 THEN 0 ELSE (Part(w, i + 1) % P2[r + 1]) * P2[17 - r])
LOCAL X3(a, b, c) == (a ^^ b) ^^ c
LOCAL Word(f(_)) == <<f(0), f(1), f(2), f(3)>>
(* rotations by n = 16 q + r *)
LOCAL BigSigma0(w) == Word(LAMBDA i : X3(Rot(w, 1, 12, i), Rot(w, 2, 2, i), Rot(w, 2, 7, i)))      \* 28 34 39
LOCAL BigSigma1(w) == Word(LAMBDA i : X3(Rot(w, 0, 14, i), Rot(w, 1, 2, i), Rot(w, 2, 9, i)))      \* 14 18 41
LOCAL Sigma0(w) == Word(LAMBDA i : X3(Rot(w, 0, 1, i), Rot(w, 0, 8, i), Shift(w, 7, i)))           \*  1  8  7
LOCAL Sigma1(w) == Word(LAMBDA i : X3(Rot(w, 1, 3, i), Rot(w, 3, 13, i), Shift(w, 6, i)))          \* 19 61  6
LOCAL Ch(e, f, g) == Word(LAMBDA i : (e[i + 1] & f[i + 1]) ^^ ((65535 - e[i + 1]) & g[i + 1]))
LOCAL Maj(a, b, c) == Word(LAMBDA i : X3(a[i + 1] & b[i + 1], a[i + 1] & c[i + 1], b[i + 1] & c[i + 1]))
LOCAL Carry(s1, s2, s3, s4) ==
    LET c2 == s2 + (s1 \div 65536)
        c3 == s3 + (c2 \div 65536)
        c4 == s4 + (c3 \div 65536)
    IN  <<s1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>
LOCAL Plus(a, b) == Carry(a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4])
LOCAL Plus5(a, b, c, d, e) == Carry(a[1] + b[1] + c[1] + d[1] + e[1], a[2] + b[2] + c[2] + d[2] + e[2],
                                    a[3] + b[3] + c[3] + d[3] + e[3], a[4] + b[4] + c[4] + d[4] + e[4])
LOCAL None == <<0, 0, 0, 0>>
LOCAL To(n) == [ i \in 1 .. n |-> i ]

LOCAL Schedule(w16) ==
    FoldLeft(LAMBDA w, i : Append(w, Plus5(w[i], Sigma0(w[i + 1]), w[i + 9], Sigma1(w[i + 14]), None)), w16, To(64))
LOCAL Round(s, k, w) ==
    LET t1 == Plus5(s[8], BigSigma1(s[5]), Ch(s[5], s[6], s[7]), k, w)
    IN  <<Plus5(t1, BigSigma0(s[1]), Maj(s[1], s[2], s[3]), None, None), s[1], s[2], s[3], Plus(s[4], t1), s[5], s[6], s[7]>>
LOCAL Compress(h, w16) ==
    LET z == FoldLeft(LAMBDA q, w : [n |-> q.n + 1, s |-> Round(q.s, K[q.n], w)], [n |-> 1, s |-> h], Schedule(w16)).s
    IN  [ i \in 1 .. 8 |-> Plus(h[i], z[i]) ]

LOCAL Rep(b, n) == [ i \in 1 .. n |-> b ]
LOCAL Pad(m) == m \o <<128>> \o Rep(0, ((1280111 - Len(m)) % 128) + 12)
                \o <<0, ((8 * Len(m)) \div 65536) % 256, ((8 * Len(m)) \div 256) % 256, (8 * Len(m)) % 256>>
LOCAL Block(p, n) == [ i \in 1 .. 16 |-> LET o == 128 * n + 8 * (i - 1)
                         IN <<p[o + 7] * 256 + p[o + 8], p[o + 5] * 256 + p[o + 6], p[o + 3] * 256 + p[o + 4], p[o + 1] * 256 + p[o + 2]>> ]
LOCAL Bytes(w) == <<w[4] \div 256, w[4] % 256, w[3] \div 256, w[3] % 256, w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>

(* the digest of a sequence of fewer than 2^20 bytes *)
Digest(m) ==
    LET p == Pad(m)
        h == FoldLeft(LAMBDA q, n : Compress(q, Block(p, n - 1)), IV, To(Len(p) \div 128))
    IN  Bytes(h[1]) \o Bytes(h[2]) \o Bytes(h[3]) \o Bytes(h[4])

ASSUME Digest(<<>>) = <<198, 114, 184, 209, 239, 86, 237, 40, 171, 135, 195, 98, 44, 81, 20, 6, 155, 221, 58, 215, 184, 249, 115, 116, 152, 208, 192, 30, 206, 240, 150, 122>>
ASSUME Digest(<<97, 98, 99>>) = <<83, 4, 142, 38, 129, 148, 30, 249, 155, 46, 41, 183, 107, 76, 125, 171, 228, 194, 208, 198, 52, 252, 109, 70, 224, 226, 241, 49, 7, 231, 175, 35>>
ASSUME Digest(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110>>) = <<189, 32, 159, 96, 176, 208, 65, 2, 160, 145, 117, 41, 127, 210, 85, 54, 126, 84, 181, 165, 96, 91, 146, 134, 53, 198, 6, 48, 105, 20, 54, 63>>
ASSUME Digest(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111>>) = <<44, 175, 235, 8, 130, 204, 64, 81, 103, 233, 162, 85, 184, 88, 26, 102, 220, 104, 50, 18, 71, 73, 2, 221, 69, 61, 188, 162, 10, 148, 230, 26>>
ASSUME Digest(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239>>) = <<110, 246, 195, 65, 155, 121, 73, 83, 56, 175, 114, 7, 114, 131, 29, 43, 175, 17, 220, 253, 73, 89, 119, 235, 75, 229, 103, 97, 162, 163, 32, 56>>
=============================================================================
