------------------------------ MODULE MCMinBal ------------------------------
(***************************************************************************)
(* The required minimum balance of accounts of every small composition,    *)
(* also where its parts exceed 64 bits.                                    *)
(***************************************************************************)
EXTENDS Account

N(n) == BigOfNat(n)
Hi(n) == Sub(U64MAX, N(n))
Half == Div(U64MAX, N(2))

Init == /\ op = << >> /\ res = << >>
        /\ st = [status |-> "offline", algos |-> N(5), base |-> Zero, rewarded |-> Zero]

(* base, perApp, perOptIn, perEntry, perUint, perBytes *)
Prices == { <<N(100), N(30), N(20), N(7), N(3), N(5)>>, <<N(100), Half, N(20), N(7), N(3), Half>>,
            <<Half, N(30), Half, N(7), Half, N(5)>>, <<N(1), N(1), N(1), Half, N(1), N(1)>>, <<Zero, Zero, Zero, Zero, Zero, Zero>> }
Counts == {0, 1, 2, 5}
Ask ==
    \E p \in Prices, as \in Counts, ap \in {0, 1, 3}, oi \in {0, 2}, pg \in {0, 1, 3},
       sc \in { [uint |-> Zero, bytes |-> Zero], [uint |-> N(1), bytes |-> Zero], [uint |-> Zero, bytes |-> One],
                [uint |-> N(4), bytes |-> N(9)], [uint |-> Hi(0), bytes |-> One], [uint |-> Half, bytes |-> Half] } :
       Do([a |-> "minbal", base |-> p[1], perApp |-> p[2], perOptIn |-> p[3], perEntry |-> p[4], perUint |-> p[5],
           perBytes |-> p[6], assets |-> N(as), apps |-> N(ap), optIns |-> N(oi), pages |-> N(pg), schema |-> sc])
Next == Ask
Spec == Init /\ [][Next]_vars

(* the sum of all charges, or the largest number *)
Exact == [][LET o == op'
                sum == Add(Mul(o.base, Add(One, o.assets)),
                       Add(Mul(o.perApp, Add(o.apps, o.pages)),
                       Add(Mul(o.perOptIn, o.optIns),
                       Add(Add(Mul(o.perUint, o.schema.uint), Mul(o.perBytes, o.schema.bytes)),
                           Mul(o.perEntry, MinB(Add(o.schema.uint, o.schema.bytes), U64MAX))))))
            IN res'.min = MinB(sum, U64MAX)]_vars
=============================================================================
