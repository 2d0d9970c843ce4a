------------------------------ MODULE MCRewards ------------------------------
(***************************************************************************)
(* Rounds from several starting points (also next to the largest numbers   *)
(* that fit), with any pool balance and number of reward units of a few.   *)
(***************************************************************************)
EXTENDS Rewards

CONSTANTS MaxSteps

N(n) == BigOfNat(n)
Hi(n) == Sub(U64MAX, N(n))

Starts ==
    { [level |-> l, rate |-> r, residue |-> d, recalc |-> N(c)] :
        l \in {Zero, Hi(4)}, r \in {Zero, N(5)}, d \in {Zero, N(2)}, c \in {1, 2} }
    \cup { [level |-> N(3), rate |-> Hi(1), residue |-> d, recalc |-> N(2)] : d \in {One, N(2)} }
    \cup { [level |-> Zero, rate |-> N(2), residue |-> Hi(0), recalc |-> One] }


VARIABLES rnd, pr                 \* the round, and the parameters of the protocol
mcvars == <<st, op, res, rnd, pr>>
MCView == <<st, rnd, pr>>

Protos == { [interval |-> N(iv), pending |-> pd, minBal |-> mb] :
              iv \in {1, 3}, pd \in BOOLEAN, mb \in {N(3), Hi(1)} } \ { [interval |-> N(1), pending |-> FALSE, minBal |-> Hi(1)] }
Init == /\ st \in Starts /\ op = << >> /\ res = << >> /\ rnd = 0
        /\ pr \in Protos

Pools == { N(3), N(5), N(23), U64MAX }
Next ==
    /\ rnd < MaxSteps
    /\ rnd' = rnd + 1
    /\ UNCHANGED pr
    /\ \E pool \in IF N(rnd + 1) = st.recalc THEN Pools ELSE {N(23)}, u \in {Zero, One, N(3), U64MAX} :
         /\ Do([a |-> "next", round |-> N(rnd + 1), pool |-> pool, units |-> u,
                interval |-> pr.interval, pending |-> pr.pending, minBal |-> pr.minBal])
Spec == Init /\ [][Next]_mcvars

TypeOK == /\ IsBig(st.level) /\ IsBig(st.rate) /\ IsBig(st.residue)
          /\ IsU64(st.level) /\ IsU64(st.rate) /\ IsU64(st.residue)

(* the property, stated without the definitions above *)
Monotone == [][Ge(st'.level, st.level)]_mcvars
Conservation ==
    [][LET o == op' IN
       \/ st'.level = st.level /\ st'.residue = st.residue
       \/ /\ Add(Mul(Sub(st'.level, st.level), o.units), st'.residue) = Add(st.rate, st.residue)
          /\ Lt(st'.residue, o.units)]_mcvars
Stuck ==          \* the level stands still only for one of the stated reasons
    [][(st'.level = st.level /\ st'.residue = st.residue) =>
         LET o == op'  out == Add(st.rate, st.residue) IN
         \/ o.units = Zero
         \/ out = st.residue /\ Lt(out, o.units)
         \/ st.rate = Zero
         \/ Gt(out, U64MAX)
         \/ Gt(Add(Mul(st.level, o.units), out), Mul(U64MAX, o.units))]_mcvars
Promise ==
    [][LET o == op' IN
       IF o.round = st.recalc
       THEN /\ st'.recalc = Add(o.round, o.interval)
            /\ \/ st'.rate = Zero
               \/ Le(Add(Mul(st'.rate, o.interval), Add(o.minBal, IF o.pending THEN st.residue ELSE Zero)), o.pool)
            /\ Gt(Add(Mul(Add(st'.rate, One), o.interval), Add(o.minBal, IF o.pending THEN st.residue ELSE Zero)), o.pool)
       ELSE st'.rate = st.rate /\ st'.recalc = st.recalc]_mcvars
EmitR == Emit
=============================================================================
