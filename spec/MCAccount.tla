------------------------------ MODULE MCAccount ------------------------------
EXTENDS Account

CONSTANTS MaxLevel, Unit

N(n) == BigOfNat(n)
Hi(n) == Sub(U64MAX, N(n))

(* gain: what independent bookkeeping says the account was paid, per update,
   for the whole units it held *)
VARIABLES lvl, paid
mcvars == <<st, op, res, lvl, paid>>
MCView == <<st, lvl, paid>>

Balances == { Zero, N(Unit - 1), N(Unit), N(3 * Unit + 1) }

Init == /\ op = << >> /\ res = << >> /\ lvl = 0 /\ paid = Zero
        /\ st \in { [status |-> x, algos |-> b, base |-> Zero, rewarded |-> w] :
                      x \in Statuses, b \in Balances \cup {Hi(100)}, w \in {Zero, Hi(1)} }

Level == /\ lvl < MaxLevel /\ lvl' = lvl + 1 /\ op' = [a |-> "level"] /\ UNCHANGED <<st, res, paid>>
Update ==
    LET o == [a |-> "update", level |-> N(lvl), unit |-> N(Unit)] IN
    /\ Specified(st, o)
    /\ Do(o)
    /\ paid' = IF st.status = "notpart" THEN paid
               ELSE Add(paid, Mul(Sub(N(lvl), st.base), Div(st.algos, N(Unit))))
    /\ UNCHANGED lvl
Set ==
    /\ st.base = N(lvl)          \* the ledger touches an account only after updating it
    /\ \E b \in Balances, x \in Statuses : Do([a |-> "set", algos |-> b, status |-> x])
    /\ st.status = "notpart" => st'.status = "notpart"
    /\ UNCHANGED <<lvl, paid>>
StakeQ ==
    /\ \E un \in {N(Unit), Hi(0)}, d \in {Zero, N(7)} :
          Do([a |-> "stake", unit |-> un, dilution |-> d, default |-> N(10000)])
    /\ UNCHANGED <<lvl, paid>>
Next == Level \/ Update \/ Set \/ StakeQ
Spec == Init /\ [][Next]_mcvars

(* the lifetime total is what was paid, modulo 2^64 *)
Lifetime == \E w \in {Zero, Hi(1)} : st.rewarded = Mod(Add(w, paid), U64MOD)
NoStakeOffline == [][op'.a = "stake" /\ st.status # "online" => res'.stake = Zero /\ res'.norm = Zero]_mcvars
NormBound == [][op'.a = "stake" => Le(res'.norm, st.algos)]_mcvars
(* updating twice to one level adds nothing *)
Idempotent == LET o == [a |-> "update", level |-> N(lvl), unit |-> N(Unit)] IN
              (st.base = N(lvl)) => Updated(st, o) = st

EmitOnly == (lvl' # lvl) \/ Emit
=============================================================================
