------------------------------ MODULE MCRounds ------------------------------
EXTENDS Rounds

CONSTANT Top
Near == { BigOfNat(n) : n \in 0 .. Top } \cup { Sub(U64MAX, BigOfNat(n)) : n \in 0 .. Top }
        \cup { Add(BigOfNat(65535), BigOfNat(n)) : n \in 0 .. 2 } \cup { Div(U64MAX, BigOfNat(n)) : n \in 2 .. 6 }
Ops == \E x, y \in Near, k \in {"monus", "up", "plus", "key", "order"} : Do([a |-> k, x |-> x, y |-> y])
Bytes == { [ [i \in 1 .. 32 |-> z] EXCEPT ![j] = b ] : z \in {0, 255}, j \in {1, 2, 7, 8, 9, 32}, b \in {0, 1, 128, 255} }
Trim == \E q \in Bytes : Do([a |-> "trim", bytes |-> q])

Init == op = << >> /\ res = << >> /\ st = << >>
Next == Ops \/ Trim
Spec == Init /\ [][Next]_<<st, op>>

(* rounding up gives the least multiple that is not below *)
Rounding == [][op'.a = "up" => /\ Mod(res', op'.y) = Zero /\ Ge(res', op'.x)
                               /\ Lt(MonusB(res', op'.x), op'.y)]_vars
Undone == [][op'.a = "plus" => MonusB(res'.round, op'.y) = op'.x]_vars
Split == [][op'.a = "key" => /\ Add(Mul(res'.batch, op'.y), res'.offset) = op'.x /\ Lt(res'.offset, op'.y)]_vars
=============================================================================
