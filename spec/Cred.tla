-------------------------------- MODULE Cred --------------------------------
(***************************************************************************)
(* Committee credentials.  The random output of a credential is a function *)
(* of the selection key and the selector; its selection hash is the term   *)
(*   [sep, key, sel, addr]                                                 *)
(* (sep: hashed with domain separation), and sub-ticket i of it adds i.    *)
(* Answers name a hash by the place of its term in the order of first      *)
(* appearance; equal terms have equal hashes and others different ones.    *)
(* Where the number a hash stands for matters, the recorded operation      *)
(* brings it along (t, tk).                                                *)
(*                                                                         *)
(* st: the terms seen, and the credentials verified so far.                *)
(***************************************************************************)
EXTENDS SM, Sortition

Empty == [known |-> << >>, creds |-> << >>]
Term(o) == [sep |-> o.sep, key |-> o.key, sel |-> o.sel, addr |-> o.addr]
Place(known, x) == IF \E i \in DOMAIN known : known[i] = x THEN CHOOSE i \in DOMAIN known : known[i] = x ELSE Len(known) + 1
Learn(known, x) == IF Place(known, x) > Len(known) THEN Append(known, x) ELSE known

Stake(o) == IF o.status = "Online" THEN o.stake ELSE Zero
(* the weights the account may have *)
Weights(o) ==
    IF Stake(o) = Zero THEN {0}
    ELSE IF "w" \in DOMAIN o THEN (IF Right(o.stake, o.total, o.size, <<o.t>>, <<o.w>>) THEN {o.w} ELSE {})
    ELSE { w \in 0 .. 100 : BigOfNat(w) = o.stake }          \* a certain selection
Verified(s, o) == o.by = o.key /\ o.on = o.sel
Answer(s, o, w) == [ok |-> TRUE, w |-> w, h |-> Place(s.known, Term(o))]
Keep(s, o, w) == [known |-> Learn(s.known, Term(o)), creds |-> Append(s.creds, [term |-> Term(o), w |-> w, tk |-> << >>])]
No == [ok |-> FALSE]

RECURSIVE Least(_)
Least(q) == IF Len(q) = 1 THEN q[1] ELSE MinB(q[1], Least(Tail(q)))
Low(s, i) == Least(s.creds[i].tk)
Rng(q) == { q[i] : i \in DOMAIN q }
(* sub-tickets are functions of term and number, and all different *)
Fresh(s, i, tk) ==
    /\ Cardinality(Rng(tk)) = Len(tk) /\ Len(tk) = s.creds[i].w
    /\ \A j \in DOMAIN s.creds : s.creds[j].tk # << >> =>
         (IF s.creds[j].term = s.creds[i].term
          THEN \A k \in 1 .. (IF Len(tk) < s.creds[j].w THEN Len(tk) ELSE s.creds[j].w) : tk[k] = s.creds[j].tk[k]
          ELSE Rng(tk) \cap Rng(s.creds[j].tk) = {})

Counts(o) == IF "got" \in DOMAIN o THEN (IF Right(o.money, o.total, o.size, o.ts, o.got) THEN {o.got} ELSE {})
             ELSE { <<k>> : k \in Rights(o.money, o.total, o.size, o.ts[1]) }

Outcomes(s, o) ==
    CASE o.a = "select" -> { [st |-> s, res |-> [counts |-> ks]] : ks \in Counts(o) }
      [] o.a = "verify" ->
           IF ~ Verified(s, o) THEN Out(s, No)
           ELSE { IF w = 0 THEN [st |-> s, res |-> No] ELSE [st |-> Keep(s, o, w), res |-> Answer(s, o, w)] : w \in Weights(o) }
      [] o.a = "tickets" -> IF Fresh(s, o.i, o.tk) THEN Out([s EXCEPT !.creds[o.i].tk = o.tk], TRUE) ELSE {}
      [] o.a = "low" -> Out(s, [low |-> Low(s, o.i), digest |-> Low(s, o.i)])
      [] o.a = "lt" -> Out(s, Lt(Low(s, o.i), Low(s, o.j)))
      [] o.a = "eq" -> Out(s, s.creds[o.i].term = s.creds[o.j].term)
      [] o.a = "selected" -> Out(s, TRUE)

Start(o) == Empty
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
