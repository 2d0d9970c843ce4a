-------------------------------- MODULE MCVrf --------------------------------
EXTENDS Vrf

CONSTANTS What, Masks

Raw(d) == [t |-> "raw", p |-> "", d |-> d]
Obj(p, d) == [t |-> "obj", p |-> p, d |-> d]
Digest(p, d) == [t |-> "digest", p |-> p, d |-> d]
Msgs == { Raw(<< >>), Raw(<<0>>), Raw(<<0, 0>>), Raw(<<1>>), Obj("TX", << >>), Obj("TX", <<1>>), Obj("MX", <<1>>), Digest("TX", <<1>>) }
Keys == {"k1", "~k1", "k2", "zero", "ff"}
Of(k, a) == [key |-> k, alt |-> a]
Made(k, m, a) == [key |-> k, msg |-> m, alt |-> a]
Check(pk, p, m) == Do([a |-> "verify", pk |-> pk, proof |-> p, msg |-> m])

Alone == st = << >>
Pairs == /\ Alone
         /\ \/ \E k, l \in Keys, m, n \in Msgs : Check(Of(k, Plain), Made(l, m, Plain), n)
            \/ \E k \in Keys, m \in Msgs : Do([a |-> "prove", key |-> k, msg |-> m])
(* one byte changed by these masks in a proof (80 bytes) or public key (32) *)
Altered == /\ Alone
           /\ \E k \in {"k1", "k2"}, m \in { Raw(<<1>>) }, x \in Masks :
                 \/ \E i \in 1 .. 80 : Check(Of(k, Plain), Made(k, m, [k |-> "byte", i |-> i, m |-> x]), m)
                 \/ \E i \in 1 .. 32 : Check(Of(k, [k |-> "byte", i |-> i, m |-> x]), Made(k, m, Plain), m)
Whole == { [k |-> x] : x \in {"order", "zero", "ff", "zeros", "zeroc", "identity", "negate"} }
         \cup { [k |-> "torsion", i |-> i] : i \in 1 .. 7 } \cup { [k |-> x, msg |-> Raw(<<7>>)] : x \in {"gammaof", "csof", "sof"} }
BadKeys == { [k |-> "small", i |-> i] : i \in 0 .. 13 } \cup { [k |-> "nopoint", i |-> i] : i \in 0 .. 9 } \cup { [k |-> "ff"] }
Strange == /\ Alone
           /\ \E k \in Keys, m \in { Raw(<< >>), Raw(<<1>>), Obj("TX", <<1>>) } :
                 \/ \E a \in Whole : Check(Of(k, Plain), Made(k, m, a), m)
                 \/ \E a \in BadKeys : Check(Of(k, a), Made(k, m, Plain), m)
                 \/ \E i \in 0 .. 13, j \in 0 .. 7 :
                       LET pk == Of(k, [k |-> "small", i |-> i]) IN Check(pk, Made(k, m, [k |-> "forged", pk |-> pk, i |-> j]), m)
                 \/ \E a \in Whole, b \in BadKeys : Check(Of(k, b), Made(k, m, a), m)
(* outputs of several proofs compared: the same subject again, by other proofs, and other subjects *)
Outputs == /\ Len(st) < 3
           /\ \E k \in {"k1", "~k1"}, m \in { Raw(<< >>), Raw(<<0>>), Obj("TX", <<1>>), Digest("TX", <<1>>) },
                 a \in { Plain, [k |-> "nonce"], [k |-> "twist", i |-> 1], [k |-> "twist", i |-> 4] } :
                 Check(Of(k, Plain), Made(k, m, a), m)

Init == op = << >> /\ res = << >> /\ st = << >>
Next == CASE What = "pairs" -> Pairs [] What = "altered" -> Altered [] What = "strange" -> Strange [] What = "outputs" -> Outputs
Spec == Init /\ [][Next]_<<st, op>>

(* what is accepted was made with that key for that message; equal outputs mean equal subjects *)
Genuine == [][(op'.a = "verify" /\ res'.ok) => op'.pk = Of(op'.proof.key, Plain) /\ Bytes(op'.msg) = Bytes(op'.proof.msg)]_vars
Unique == [][(op'.a = "verify" /\ res'.ok) => \A i \in DOMAIN st : (i = res'.out) <=> (st[i] = Subject(op'))]_vars
=============================================================================
