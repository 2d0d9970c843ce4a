-------------------------------- MODULE Part --------------------------------
(***************************************************************************)
(* Participation keys, the store that keeps one of them across restarts,   *)
(* and the account manager that holds several.                             *)
(*                                                                         *)
(* st = [store, live, mgr, cnt, roots, root]                               *)
(*   a key is [id, sid, parent, fv, lv, dil, k]: id names its voting keys  *)
(*   and sid its selection key by the order of their making, k is its      *)
(*   voting key set (module Ots), dil = Zero stands for the protocol's default dilution.  *)
(*   store: the key last saved, or none;  live: slot -> key or none;       *)
(*   mgr: the registered keys;  root: number of the saved root key, or 0.  *)
(***************************************************************************)
EXTENDS Ots, SequencesExt

None == [id |-> 0]

Dil(p, d) == IF p.dil = Zero THEN d ELSE p.dil
OtsId(r, d) == LET q == DivMod(r, d) IN [b |-> q.q, o |-> q.r]
Votes(p, r, d) == Covers(p.k, OtsId(r, Dil(p, d)))
VoteList(p, rs, d) == [ i \in DOMAIN rs |-> Votes(p, rs[i], d) ]

(* what a key shows: identity, range, and which of the rounds rs it can vote in *)
Look(p, rs, d) == [parent |-> p.parent, sel |-> p.sid, vote |-> p.id, fv |-> p.fv, lv |-> p.lv, dil |-> p.dil, votes |-> VoteList(p, rs, d)]

Batches(fv, lv, d) == ToNat(Sub(Div(lv, d), Div(fv, d))) + 1
NewKey(n, parent, fv, lv, d) ==
    [id |-> n, sid |-> n, parent |-> parent, fv |-> fv, lv |-> lv, dil |-> d, k |-> Gen(Div(fv, d), Batches(fv, lv, d))]

(* keys for rounds before r go *)
DelKeys(p, r, d) == [p EXCEPT !.k = Del(p.k, OtsId(r, Dil(p, d)), ToNat(Dil(p, d)))]
Overlap(p, a, z) == Ge(z, p.fv) /\ Le(a, p.lv)
SameKey(p, q) == p.id = q.id /\ p.sid = q.sid /\ p.parent = q.parent /\ p.fv = q.fv /\ p.lv = q.lv

(* the first round a key may still be needed for after a block h *)
(*   h = [rnd, cc]: its round and the next certificate's round (zero: none) *)
(*   signed: the last certificate round signed for (zero: none)            *)
Needed(h, signed, rounds) ==
    LET next == Add(h.rnd, One)
        cc   == Add(h.cc, One)
        cc2  == IF Ge(signed, cc) THEN Add(signed, Add(rounds, One)) ELSE cc
    IN  IF h.cc = Zero THEN next ELSE MinB(next, cc2)

Signed(sigs, a) == IF a \in DOMAIN sigs THEN sigs[a] ELSE Zero

(* registered keys, in an order of our own *)
Rank(a) == CASE a = "p" -> 1 [] a = "q" -> 2 [] OTHER -> 3
Less(p, q) ==
    IF p.sid # q.sid THEN p.sid < q.sid
    ELSE IF p.id # q.id THEN p.id < q.id
    ELSE IF p.fv # q.fv THEN Lt(p.fv, q.fv)
    ELSE IF p.lv # q.lv THEN Lt(p.lv, q.lv)
    ELSE Rank(p.parent) < Rank(q.parent)
List(ps, rs, d) == LET q == SetToSortSeq(ps, Less) IN [ i \in DOMAIN q |-> Look(q[i], rs, d) ]

RECURSIVE Outcomes(_, _)
Outcomes(s, o) ==
    CASE o.a = "gen" ->
           IF Lt(o.lv, o.fv) THEN Out(s, [ok |-> FALSE])
           ELSE LET p == NewKey(s.cnt + 1, o.parent, o.fv, o.lv, o.dil)
                IN  Out([s EXCEPT !.cnt = @ + 1, !.store = p, !.live[o.slot] = p], [ok |-> TRUE, key |-> Look(p, o.rs, o.d)])
      (* as if it had been made with the default dilution, which is the one it has *)
      [] o.a = "default" ->
           LET p == [s.live[o.slot] EXCEPT !.dil = Zero]
           IN  Out([s EXCEPT !.live[o.slot] = p, !.store = p], [key |-> Look(p, o.rs, o.d)])
      (* the process ends; what was live is gone *)
      [] o.a = "restart" -> Out([s EXCEPT !.live = [x \in DOMAIN s.live |-> None], !.mgr = {}], [done |-> TRUE])
      (* the process may end anywhere in the operation o.do; a new one does o.then, and finds what  *)
      (* was stored before the operation or after it                                              *)
      [] o.a = "crash" ->
           LET done    == Outcomes(s, o.do)
               Ends(t) == CHOOSE x \in Outcomes(t, [a |-> "restart"]) : TRUE
               Back(t) == CHOOSE x \in Outcomes(Ends(t).st, o.then) : TRUE
               Dead(t) == [st |-> Back(t).st, res |-> [died |-> TRUE, res |-> Back(t).res]]
           IN  { Dead(s) } \cup { Dead(x.st) : x \in done } \cup { [st |-> x.st, res |-> [died |-> FALSE, res |-> x.res]] : x \in done }
      [] o.a = "restore" ->
           IF s.store.id = 0 THEN Out(s, [ok |-> FALSE])
           ELSE Out([s EXCEPT !.live[o.slot] = s.store], [ok |-> TRUE, key |-> Look(s.store, o.rs, o.d)])
      [] o.a = "persist" -> LET p == s.live[o.slot] IN Out([s EXCEPT !.store = p], [key |-> Look(p, o.rs, o.d)])
      [] o.a = "parent" ->
           LET p == [s.live[o.slot] EXCEPT !.parent = o.parent]
           IN  Out([s EXCEPT !.live[o.slot] = p, !.store = IF @.id = p.id THEN [@ EXCEPT !.parent = o.parent] ELSE @],
                   [key |-> Look(p, o.rs, o.d)])
      [] o.a = "del" ->
           LET p == DelKeys(s.live[o.slot], o.r, o.d)
           IN  Out([s EXCEPT !.live[o.slot] = p, !.store = IF @.id = p.id THEN [@ EXCEPT !.k = p.k] ELSE @],
                   [key |-> Look(p, o.rs, o.d)])
      [] o.a = "look" -> LET p == s.live[o.slot] IN
           Out(s, [key |-> Look(p, o.rs, o.d), interval |-> <<p.fv, p.lv>>, address |-> p.parent, overlaps |-> Overlap(p, o.from, o.to)])
      [] o.a = "register" -> LET p == s.live[o.slot] IN
           Out(s, [snd |-> p.parent, fee |-> o.fee, fv |-> o.fv, lv |-> o.lv, lx |-> o.lx, rest |-> TRUE,
                   sel |-> p.sid, vote |-> p.id, vfv |-> p.fv, vlv |-> p.lv, vdil |-> p.dil, nonpart |-> FALSE])
      (* a root key *)
      [] o.a = "rootgen" -> Out([s EXCEPT !.roots = @ + 1, !.root = s.roots + 1], [ok |-> TRUE, root |-> s.roots + 1, signs |-> TRUE])
      [] o.a = "rootget" -> Out(s, IF s.root = 0 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, root |-> s.root, signs |-> TRUE])
      (* the manager takes the key of a slot, or a copy of it with another range, parent, dilution or *)
      (* selection key                                                                            *)
      [] o.a = "add" ->
           LET p == s.live[o.slot]
               q == [p EXCEPT !.parent = o.parent, !.fv = o.fv, !.lv = o.lv, !.dil = IF o.dflt THEN Zero ELSE @, !.sid = s.live[o.sel].sid]
           IN  IF \E x \in s.mgr : SameKey(x, q) THEN Out(s, [added |-> FALSE])
               ELSE Out([s EXCEPT !.mgr = @ \cup {q}], [added |-> TRUE])
      [] o.a = "keys"  -> Out(s, [keys |-> List({ p \in s.mgr : Overlap(p, o.r, o.r) }, o.rs, o.d)])
      [] o.a = "alive" -> Out(s, [alive |-> \E p \in s.mgr : Overlap(p, o.from, o.to)])
      [] o.a = "block" ->
           LET Cut(p) == DelKeys(p, Needed(o.h, Signed(o.sigs, p.parent), o.rounds), o.d)
               cut == { Cut(p) : p \in s.mgr }
               (* the store follows the registered copy of its key, where there is just one *)
               same == { p \in cut : p.id = s.store.id /\ p.sid = p.id }
           IN  Out([s EXCEPT !.mgr = cut, !.store = IF Cardinality(same) = 1 THEN [@ EXCEPT !.k = (CHOOSE p \in same : TRUE).k] ELSE @],
                   [keys |-> List(cut, o.rs, o.d)])

Fresh == [store |-> None, live |-> [x \in {"a", "b"} |-> None], mgr |-> {}, cnt |-> 0, roots |-> 0, root |-> 0]
Start(o) == Fresh
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
