------------------------------- MODULE Rewards -------------------------------
(***************************************************************************)
(* The distribution of rewards from round to round.                        *)
(* st = [level, rate, residue, recalc], all Big.                           *)
(***************************************************************************)
EXTENDS SM, Big

(* what must stay in the pool *)
Reserve(s, o) == IF o.pending THEN Add(o.minBal, s.residue) ELSE o.minBal

NewRate(s, o) ==
    LET keep == Reserve(s, o) IN
    IF Le(keep, o.pool) THEN Div(Sub(o.pool, keep), o.interval) ELSE Zero

Next1(s, o) ==
    LET due == o.round = s.recalc
        s1  == IF due THEN [s EXCEPT !.rate = NewRate(s, o), !.recalc = Add(o.round, o.interval)] ELSE s
        out == Add(s.rate, s.residue)            \* released this round, at the old rate
    IN  IF o.units = Zero \/ ~IsU64(out) THEN s1
        ELSE LET dm == DivMod(out, o.units)
                 lv == Add(s.level, dm.q)
             IN  IF ~IsU64(lv) THEN s1 ELSE [s1 EXCEPT !.level = lv, !.residue = dm.r]

Outcomes(s, o) ==
    LET n == Next1(s, o) IN
    Out(n, [level |-> n.level, rate |-> n.rate, residue |-> n.residue, recalc |-> n.recalc, special |-> TRUE])

Start(o) == o.st
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
