------------------------------ MODULE MCCodec ------------------------------
EXTENDS Codec, SequencesExt

CONSTANTS What, Bases

D(t, b, d, o) == [w |-> t[1], k |-> t[2], base |-> b, d |-> d, ord |-> o]
(* an object, built in several orders, and every change of one field *)
Near(t, b) == LET C == Cards(t[1], t[2]) IN
    { D(t, b, << >>, o) : o \in 0 .. 3 }
    \cup UNION { { D(t, b, << <<f, v>> >>, v % 4) : v \in 0 .. (C[f] - 1) } : f \in DOMAIN C }
Singles == \E t \in Types : Do([a |-> "list", x |-> SetToSeq(UNION { Near(t, b) : b \in Bases })])
Across == (\E t \in Types : Do([a |-> "fields", w |-> t[1], k |-> t[2]])) \/ Do([a |-> "list", x |-> SetToSeq(UNION { { D(t, b, << >>, b) : b \in 0 .. 2 } : t \in Types })])
Squares == \E t \in Types, b \in Bases : Do([a |-> "square", w |-> t[1], k |-> t[2], base |-> b])
Cuts == \/ \E t \in Types, b \in Bases : (Encoded(t[1]) /\ Do([a |-> "cut", x |-> D(t, b, << >>, 0)]))
        \/ \E s \in {0, 5}, n \in 1 .. 3, m \in {1, 4} : \E i \in 0 .. (n + 1), j \in 0 .. m :
               Do([a |-> "ots", start |-> s, n |-> n, dil |-> m, batch |-> s + i, offset |-> j])

Init == op = << >> /\ res = << >> /\ st = 0
Next == CASE What = "singles" -> Singles
          [] What = "across" -> Across
          [] What = "squares" -> Squares
          [] What = "cuts" -> Cuts
Spec == Init /\ [][Next]_vars

(* the count of objects is right *)
Subsets2(S) == { X \in SUBSET S : Cardinality(X) <= 2 }
Counted(w, k) == LET C == Cards(w, k) IN
    UpToTwo(C, DOMAIN C) = Cardinality(UNION { { [ f \in DOMAIN C |-> IF f \in DOMAIN g THEN g[f] ELSE 0 ] : g \in [X -> 0 .. 2] } : X \in Subsets2(DOMAIN C) })
ASSUME What = "squares" => Counted("seed", "") /\ Counted("node", "") /\ Counted("ots2", "")
(* an object is as it was read back; signing does not change what is identified *)
Signed == [][op'.a = "list" => \A i, j \in DOMAIN op'.x :
    (op'.x[i].w = "tx" /\ op'.x[j].w = "stx" /\ op'.x[i].k = op'.x[j].k /\ op'.x[i].base = op'.x[j].base
     /\ op'.x[i].d = op'.x[j].d /\ op'.x[i].d = << >>) => res'[i].id = res'[j].id]_vars
=============================================================================
