------------------------------- MODULE Account -------------------------------
(***************************************************************************)
(* One account: pending rewards, required minimum balance, stake.          *)
(* st = [status, algos, base, rewarded]; numbers are Big.                  *)
(* Levels never fall and balances never exceed 64 bits (the ledger's       *)
(* total supply is bounded); operations outside that are not specified.    *)
(* Updating rewards touches nothing else of the account (rest).            *)
(***************************************************************************)
EXTENDS SM, Big

Statuses == {"offline", "online", "notpart"}

Pending(s, o) == Mul(Div(s.algos, o.unit), Sub(o.level, s.base))
Specified(s, o) == Ge(o.level, s.base) /\ IsU64(Add(s.algos, Pending(s, o)))

Updated(s, o) ==
    IF s.status = "notpart" THEN s
    ELSE [s EXCEPT !.algos = Add(@, Pending(s, o)), !.base = o.level,
                   !.rewarded = WrapAdd(@, Pending(s, o))]

Stake(s) == IF s.status = "online" THEN s.algos ELSE Zero
Norm1(s, unit) == IF s.status = "online" THEN Div(Mul(s.algos, unit), Add(s.base, unit)) ELSE Zero

SchemaMin(o) ==
    SatAdd(SatAdd(SatMul(o.perEntry, SatAdd(o.schema.uint, o.schema.bytes)), SatMul(o.perUint, o.schema.uint)),
           SatMul(o.perBytes, o.schema.bytes))
MinBal(o) ==
    LET plus(a, b) == SatAdd(a, b) IN
    plus(plus(plus(plus(plus(o.base, SatMul(o.base, o.assets)), SatMul(o.perApp, o.apps)),
                   SatMul(o.perOptIn, o.optIns)), SchemaMin(o)), SatMul(o.perApp, o.pages))

Outcomes(s, o) ==
    CASE o.a = "update" ->
           LET n == Updated(s, o) IN
           Out(n, [algos |-> n.algos, base |-> n.base, rewarded |-> n.rewarded, money |-> n.algos,
                   total |-> n.rewarded, pending |-> Pending(s, o), pure |-> TRUE, rest |-> TRUE])
      [] o.a = "set" -> Out([s EXCEPT !.algos = o.algos, !.status = o.status], "done")
      [] o.a = "stake" ->
           Out(s, [stake |-> Stake(s), norm |-> Norm1(s, o.unit),
                   dilution |-> IF o.dilution = Zero THEN o.default ELSE o.dilution])
      [] o.a = "minbal" -> Out(s, [min |-> MinBal(o), schema |-> SchemaMin(o)])

Start(o) == o.st
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
