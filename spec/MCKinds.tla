------------------------------ MODULE MCKinds ------------------------------
EXTENDS Kinds

Objs == [kind : Kinds, n : 0 .. 1]
Rep == st = << >> /\ \E x \in [kind : Kinds, n : 0 .. 7] : Do([a |-> "rep", o |-> x])
Address == st = << >> /\ \E x \in {[kind |-> "app", n |-> n] : n \in 0 .. 7} \cup {[kind |-> "special", n |-> 99]} : Do([a |-> "address", o |-> x])
Forge == st = << >> /\ \E f \in Free, x \in [kind : Kinds, n : 0 .. 7] : f # x.kind /\ Do([a |-> "forge", free |-> f, o |-> x])
Sign == Len(st) < 1 /\ \E by \in Signers, x \in Objs : (by = "tx" => x.kind = "tx") /\ Do([a |-> "sign", by |-> by, o |-> x])
Check == \E i \in DOMAIN st, x \in Objs : Do([a |-> "check", i |-> i, o |-> x])

Init == op = << >> /\ res = << >> /\ st = << >>
Next == Rep \/ Address \/ Forge \/ Sign \/ Check
Spec == Init /\ [][Next]_<<st, op>>

(* no mark begins another *)
PrefixFree == \A a, b \in Kinds : a # b => ~ Begins(Mark[a], Mark[b])
NoForgery == [][op'.a = "forge" => ~ res'.same]_vars
=============================================================================
