-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text forms of addresses, hashes and keys, down to the character:    *)
(* base-32 (RFC 4648, without padding) of 32 bytes, followed for addresses *)
(* by the last four bytes of their SHA-512/256 digest; and, for keys, 25   *)
(* words of a list of 2048, 11 bits each, least significant bits first,    *)
(* the last word from the digest's first bytes.                            *)
(* A text is the sequence of its code points, a word its place in the list *)
(* (0 ..), negative for anything not in it.                                *)
(***************************************************************************)
EXTENDS SM, SHA512, Integers

P(n) == 2 ^ n
At(q, i) == IF i < Len(q) THEN q[i + 1] ELSE 0      \* counted from 0, zeros beyond the end

(* base-32 *)
Letter(v) == IF v < 26 THEN 65 + v ELSE 24 + v
ValueOf(c) == IF c \in 65 .. 90 THEN c - 65 ELSE IF c \in 50 .. 55 THEN c - 24 ELSE 99
Sym5(b, k) == LET i == (5 * k) \div 8  off == (5 * k) % 8
              IN  ((At(b, i) * 256 + At(b, i + 1)) \div P(11 - off)) % 32
Base32(b) == [ k \in 1 .. (8 * Len(b) + 4) \div 5 |-> Letter(Sym5(b, k - 1)) ]
Byte5(v, k) == LET i == (8 * k) \div 5  off == (8 * k) % 5
               IN  ((At(v, i) * 1024 + At(v, i + 1) * 32 + At(v, i + 2)) \div P(7 - off)) % 256
From32(t) == LET v == [ i \in DOMAIN t |-> ValueOf(t[i]) ] IN [ k \in 1 .. (5 * Len(t)) \div 8 |-> Byte5(v, k - 1) ]
Bad == [ok |-> FALSE]
Good(b) == [ok |-> TRUE, b |-> b]
AlphabetOnly(t) == \A i \in DOMAIN t : ValueOf(t[i]) < 32

CheckSum(b) == SubSeq(Digest(b), 29, 32)
AddressText(b) == Base32(b \o CheckSum(b))
ParseAddress(t) ==
    IF ~ AlphabetOnly(t) \/ Len(t) # 58 THEN Bad
    ELSE LET d == From32(t)
             b == SubSeq(d, 1, 32)
         IN  IF SubSeq(d, 33, 36) = CheckSum(b) /\ Base32(d) = t THEN Good(b) ELSE Bad
ParseHash(t) ==
    IF ~ AlphabetOnly(t) \/ Len(t) # 52 THEN Bad
    ELSE LET d == From32(t) IN IF Base32(d) = t THEN Good(d) ELSE Bad

(* base-64, for public keys, which only print *)
Letter64(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
Sym6(b, k) == LET i == (6 * k) \div 8  off == (6 * k) % 8
              IN  ((At(b, i) * 256 + At(b, i + 1)) \div P(10 - off)) % 64
Base64(b) == [ k \in 1 .. 4 * ((Len(b) + 2) \div 3) |-> IF k > (8 * Len(b) + 5) \div 6 THEN 61 ELSE Letter64(Sym6(b, k - 1)) ]

(* words *)
Sym11(b, k) == LET i == (11 * k) \div 8  off == (11 * k) % 8
               IN  ((At(b, i) + 256 * At(b, i + 1) + 65536 * At(b, i + 2)) \div P(off)) % 2048
Byte11(w, k) == LET i == (8 * k) \div 11  off == (8 * k) % 11
                IN  ((At(w, i) + 2048 * At(w, i + 1)) \div P(off)) % 256
CheckWord(b) == Sym11(SubSeq(Digest(b), 1, 2), 0)
Words(b) == [ k \in 1 .. 25 |-> IF k = 25 THEN CheckWord(b) ELSE Sym11(b, k - 1) ]
ParseWords(w) ==
    IF Len(w) # 25 \/ \E i \in DOMAIN w : w[i] < 0 THEN Bad
    ELSE LET d == [ k \in 1 .. 33 |-> Byte11(w, k - 1) ]
             b == SubSeq(d, 1, 32)
         IN  IF d[33] = 0 /\ w[25] = CheckWord(b) THEN Good(b) ELSE Bad

Show(kind, b) == CASE kind = "address" -> AddressText(b)
                    [] kind \in {"hash", "txid"} -> Base32(b)
                    [] kind = "vrf" -> Base64(b)
Parse(kind, t) == IF kind = "address" THEN ParseAddress(t) ELSE ParseHash(t)
StatusNames == {"Offline", "Online", "Not Participating"}

Outcomes(s, o) ==
    CASE o.a = "print" -> Out(s, Show(o.kind, o.b))
      [] o.a = "parse" -> Out(s, Parse(o.kind, o.text))
      [] o.a = "words" -> Out(s, Words(o.b))
      [] o.a = "key" -> Out(s, ParseWords(o.words))
      [] o.a = "status" -> Out(s, IF o.text \in StatusNames THEN [ok |-> TRUE, b |-> o.text] ELSE Bad)

Start(o) == << >>
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
