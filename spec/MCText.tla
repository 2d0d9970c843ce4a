------------------------------- MODULE MCText -------------------------------
EXTENDS Text, Integers

CONSTANT What, Bases, Alts

Const(n) == [ i \in 1 .. 32 |-> n ]
BaseOf(i) == CASE i = 1 -> [ k \in 1 .. 32 |-> (37 * k + 11 * k * k) % 256 ]
               [] i = 2 -> Const(0)
               [] i = 3 -> Const(255)
               [] i = 4 -> [ k \in 1 .. 32 |-> IF k = 32 THEN 1 ELSE 0 ]
               [] i = 5 -> [ k \in 1 .. 32 |-> IF k = 1 THEN 128 ELSE 170 ]
B == { BaseOf(i) : i \in 1 .. Bases }
(* every byte sequence with a single bit set, and its complement *)
OneBit == { [ k \in 1 .. 32 |-> IF k = i THEN 2 ^ j ELSE 0 ] : i \in 1 .. 32, j \in 0 .. 7 }

Kinds == {"address", "hash", "txid"}
Strange == {0, 32, 46, 48, 49, 56, 57, 61, 97, 122, 233, 8364}    \* controls, digits and letters not in the alphabet, padding, not ASCII
SubstAt(t, i) == LET v == ValueOf(t[i])
                 IN  { Letter(x) : x \in { (v + d) % 32 : d \in {1, 2, 3, 4, 8, 16, 31} \cup 1 .. Alts } } \cup (IF i \in {1, 2, 30, Len(t)} THEN Strange \cup {t[i] + 32} ELSE {61, 97})
Subst(t) == UNION { { [t EXCEPT ![i] = c] : c \in SubstAt(t, i) } : i \in DOMAIN t }
InsertAt(t, i, c) == SubSeq(t, 1, i - 1) \o <<c>> \o SubSeq(t, i, Len(t))
Insert(t) == { InsertAt(t, i, c) : i \in {1, 2, 26, 52, Len(t), Len(t) + 1}, c \in {65, 55, 32, 61} }
Delete(t) == { SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)) : i \in DOMAIN t }
Cut(t) == { SubSeq(t, 1, i) : i \in 0 .. Len(t) } \cup { SubSeq(t, i, Len(t)) : i \in 1 .. Len(t) }
Swap(t) == { [t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]] : i \in 1 .. Len(t) - 1 }
(* longer and shorter contents with checksums that fit some part of them *)
Extra == { << >>, <<0>>, <<255>>, <<0, 0, 0, 0>>, <<1, 2, 3, 4, 5>> }
Long(b) == { Base32(b \o x \o CheckSum(b) \o y) : x, y \in Extra } \cup { Base32(b \o x \o CheckSum(b \o x)) : x \in Extra }
Short(b) == { Base32(SubSeq(b, 1, n) \o CheckSum(SubSeq(b, 1, n))) : n \in {0, 1, 27, 28, 31} }
Lower(t) == { [ i \in DOMAIN t |-> IF t[i] \in 65 .. 90 THEN t[i] + 32 ELSE t[i] ], t \o <<61>>, t \o <<61, 61, 61, 61, 61, 61>>, <<32>> \o t, t \o <<10>> }

Texts(kind, b) == LET t == Show(kind, b) IN {t} \cup Subst(t) \cup Insert(t) \cup Delete(t) \cup Cut(t) \cup Swap(t) \cup Lower(t) \cup Long(b) \cup Short(b)
Prints == \E b \in B \cup OneBit, kind \in Kinds \cup {"vrf"} : Do([a |-> "print", kind |-> kind, b |-> b])
Back == \E b \in OneBit, kind \in Kinds : Do([a |-> "parse", kind |-> kind, text |-> Show(kind, b)])
Parses == \E b \in B, kind \in Kinds : \E t \in Texts(kind, b) : Do([a |-> "parse", kind |-> kind, text |-> t])

(* mnemonics *)
Near(w) == { (w + d) % 2048 : d \in {1, 2, 1024, 2047, 7, 256} } \cup {0, 2047}
SubstW(w) == UNION { { [w EXCEPT ![i] = x] : x \in Near(w[i]) \cup {-1, -3, -4, -6} } : i \in DOMAIN w }
             \cup { [w EXCEPT ![24] = x] : x \in { (w[24] % 8) + 8 * y : y \in 0 .. 255 } \cap 0 .. 8 * Alts }   \* the bits beyond the key
             \cup { [w EXCEPT ![25] = x] : x \in 0 .. 8 * Alts }
Rechecked(w, b) == { Words(SubSeq(b, 1, i - 1) \o <<(b[i] + d) % 256>> \o SubSeq(b, i + 1, 32)) : i \in {1, 17, 32}, d \in {1, 128} }
LenW(w) == { SubSeq(w, 1, n) : n \in 0 .. Len(w) - 1 } \cup { w \o <<0>>, <<0>> \o w, w \o w, Tail(w), Tail(w) \o <<w[25]>> }
SwapW(w) == { [w EXCEPT ![i] = w[i + 1], ![i + 1] = w[i]] : i \in 1 .. Len(w) - 1 }
WordLists(b) == LET w == Words(b) IN {w} \cup SubstW(w) \cup LenW(w) \cup SwapW(w) \cup Rechecked(w, b)
Says == \E b \in B \cup OneBit : Do([a |-> "words", b |-> b])
Hears == \/ \E b \in B : \E w \in WordLists(b), how \in {"list", "phrase"} : Do([a |-> "key", words |-> w, how |-> how])
         \/ \E b \in OneBit, how \in {"list", "lines"} : Do([a |-> "key", words |-> Words(b), how |-> how])
Statuses == \E t \in StatusNames \cup {"", "online", "ONLINE", "Online ", " Online", "Offline\n", "NotParticipating", "Not participating", "Off"} : Do([a |-> "status", text |-> t])

Init == op = << >> /\ res = << >> /\ st = << >>
Next == IF What = "text" THEN Prints \/ Back \/ Parses ELSE Says \/ Hears \/ Statuses
Spec == Init /\ [][Next]_<<st, op>>

(* a text that parses is the one text of what it parses to *)
Strict == [][/\ op'.a = "parse" /\ res'.ok => Show(op'.kind, res'.b) = op'.text
             /\ op'.a = "key" /\ res'.ok => Words(res'.b) = op'.words]_vars
(* and every value parses back from its text *)
Lossless == [][/\ (op'.a = "print" /\ op'.kind # "vrf") => Parse(op'.kind, res') = Good(op'.b)
               /\ op'.a = "words" => ParseWords(res') = Good(op'.b)]_vars
=============================================================================
