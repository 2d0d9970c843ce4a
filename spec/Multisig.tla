------------------------------ MODULE Multisig ------------------------------
(***************************************************************************)
(* Multisignatures.  Keys and messages are names; a signature is a term    *)
(*   "none"            no signature,                                       *)
(*   [k, m]            the signature of key k over message m,              *)
(*   [k, m, bad]       such a signature with bit number `bad' inverted.    *)
(* A multisignature is [v, t, subs], subs a sequence of [key, sig]; an     *)
(* address is the term [v, t, keys] it is the hash of, or [v, t, keys,     *)
(* flip], which differs from that in one bit.                              *)
(*                                                                         *)
(* st: the multisignature at hand, or NoMs.                                *)
(***************************************************************************)
EXTENDS SM

NoMs == [v |-> 0, t |-> 0, subs |-> << >>]
None == [k |-> "none"]
Sig(k, m) == [k |-> k, m |-> m]
Genuine(s, key, m) == s = Sig(key, m)

Keys(ms) == [ i \in DOMAIN ms.subs |-> ms.subs[i].key ]
HasAddr(v, t, ks) == v = 1 /\ t >= 1 /\ t <= Len(ks)
Address(ms) == [v |-> ms.v, t |-> ms.t, keys |-> Keys(ms)]
Present(ms) == { i \in DOMAIN ms.subs : ms.subs[i].sig # None }

(* the signatures a multisignature puts up for verification, or a refusal *)
Accepts(ms, addr) ==
    /\ HasAddr(ms.v, ms.t, Keys(ms)) /\ addr = Address(ms)
    /\ Len(ms.subs) <= 255
    /\ Cardinality(Present(ms)) >= ms.t
AllGood(ms, m) == \A i \in Present(ms) : Genuine(ms.subs[i].sig, ms.subs[i].key, m)
Verifies(ms, m, addr) == Accepts(ms, addr) /\ AllGood(ms, m)

Matches(x, y) == x.v = y.v /\ x.t = y.t /\ Keys(x) = Keys(y)
At(ms, i) == ms.subs[i].sig
(* signatures contributed for place i *)
Given(q, i) == { At(q[j], i) : j \in DOMAIN q } \ {None}
Conflict(q) == \E i \in DOMAIN q[1].subs : Cardinality(Given(q, i)) > 1
(* the last contribution for a place counts (there is only one, unless they conflict) *)
RECURSIVE LastGiven(_, _)
LastGiven(q, i) == IF q = << >> THEN None ELSE IF At(q[Len(q)], i) # None THEN At(q[Len(q)], i) ELSE LastGiven(SubSeq(q, 1, Len(q) - 1), i)
Union(q) == [q[1] EXCEPT !.subs = [ i \in DOMAIN @ |-> [key |-> @[i].key, sig |-> LastGiven(q, i)] ]]
AllMatch(q) == \A j \in DOMAIN q : Matches(q[1], q[j])

Ok(ms) == [ok |-> TRUE, ms |-> ms]
No == [ok |-> FALSE]

Signed(o) == [v |-> o.v, t |-> o.t, subs |-> [ i \in DOMAIN o.keys |-> [key |-> o.keys[i], sig |-> IF o.keys[i] = o.key THEN Sig(o.key, o.m) ELSE None] ]]

Outcomes(s, o) ==
    CASE o.a = "set"  -> Out(o.ms, Ok(o.ms))
      [] o.a = "addr" -> Out(s, IF HasAddr(o.v, o.t, o.keys) THEN [ok |-> TRUE, right |-> TRUE] ELSE No)
      [] o.a = "sign" ->
           IF HasAddr(o.v, o.t, o.keys) /\ o.addr = [v |-> o.v, t |-> o.t, keys |-> o.keys] /\ \E i \in DOMAIN o.keys : o.keys[i] = o.key
           THEN Out(Signed(o), Ok(Signed(o))) ELSE Out(s, No)
      [] o.a = "assemble" ->
           LET q == IF o.self = 0 THEN o.with ELSE SubSeq(o.with, 1, o.self - 1) \o <<s>> \o SubSeq(o.with, o.self, Len(o.with))
           IN  IF Len(q) < 2 \/ ~ AllMatch(q) THEN Out(s, No) ELSE Out(Union(q), Ok(Union(q)))
      (* a refused addition leaves the signature at hand in an unspecified state: it is dropped *)
      [] o.a = "add" ->
           LET q == <<s>> \o o.with
           IN  IF o.with = << >> \/ ~ AllMatch(q) \/ Conflict(q) THEN Out(NoMs, No) ELSE Out(Union(q), Ok(Union(q)))
      [] o.a = "merge" ->
           LET q == IF o.first THEN <<s, o.ms>> ELSE <<o.ms, s>>
           IN  IF ~ AllMatch(q) \/ Conflict(q) THEN Out(s, No) ELSE Out(Union(q), Ok(Union(q)))
      [] o.a = "verify" -> Out(s, [ok |-> Verifies(s, o.m, o.addr)])

Start(o) == NoMs
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
