------------------------------- MODULE Algokey -------------------------------
(***************************************************************************)
(* The key tool, run again and again over a directory.                     *)
(*                                                                         *)
(* st.fs: what every name of the directory holds:                          *)
(*   [k |-> "none" | "junk" | "dir", n]                                    *)
(*   [k |-> "key", i, priv]        the key named i; for its owner only?    *)
(*   [k |-> "addr", i]             the address of key i                    *)
(*   [k |-> "tx", t]               a transaction [kind, id, sender]        *)
(*   [k |-> "stx", t, by, auth]    the same signed by a key, and the       *)
(*                                 authorizer it names                     *)
(*   [k |-> "store", part]         a participation key                     *)
(* st.n, st.m: how many keys and participation keys were made so far; made *)
(* keys are named g1, g2, .. and given ones x1, x2, ...                    *)
(***************************************************************************)
EXTENDS SM

Nothing == [k |-> "none"]
KeyOf(i) == [k |-> "key", i |-> i, priv |-> TRUE]
AddrOf(i) == [k |-> "addr", i |-> i]
Put(fs, f, x) == IF f = "" THEN fs ELSE [fs EXCEPT ![f] = x]
Kind(s, f) == s.fs[f].k
Writable(s, f) == IF f = "" THEN TRUE ELSE Kind(s, f) \notin {"store", "dir"}

(* what can be seen of the directory *)
Seen(x) == IF x.k = "store" THEN [k |-> "store"] ELSE x
Dir(fs) == [ f \in DOMAIN fs |-> Seen(fs[f]) ]
Fail(s) == Out(s, [ok |-> FALSE, fs |-> Dir(s.fs)])
Show(s, i) == Out(s, [ok |-> TRUE, key |-> i, addr |-> i, fs |-> Dir(s.fs)])

(* a mnemonic is given as [i, how]: that of key i, spoilt in some way *)
Given(m) == m.i # ""
Good(m) == m.how \in {"ok", "spaces"}

Generate(s, o) ==
    LET i == "g" \o ToString(s.n + 1)
        fs == Put(Put(s.fs, o.f, KeyOf(i)), o.p, AddrOf(i))
    IN  IF Writable(s, o.f) /\ Writable(s, o.p) THEN Show([s EXCEPT !.fs = fs, !.n = @ + 1], i) ELSE Fail(s)
Export(s, o) ==
    IF Kind(s, o.f) = "key" /\ Writable(s, o.p)
    THEN Show([s EXCEPT !.fs = Put(@, o.p, AddrOf(s.fs[o.f].i))], s.fs[o.f].i)
    ELSE Fail(s)
Import(s, o) ==
    IF Good(o.m) /\ Writable(s, o.f) /\ Writable(s, o.p)
    THEN Show([s EXCEPT !.fs = Put(Put(@, o.f, KeyOf(o.m.i)), o.p, AddrOf(o.m.i))], o.m.i)
    ELSE Fail(s)
Signed(t, i) == [k |-> "stx", t |-> t, by |-> i, auth |-> IF t.sender = i THEN "none" ELSE i]
Sign(s, o) ==
    LET i == IF o.f # "" THEN (IF Kind(s, o.f) = "key" THEN s.fs[o.f].i ELSE "") ELSE IF Good(o.m) THEN o.m.i ELSE ""
    IN  IF (o.f # "") # Given(o.m) /\ i # "" /\ Kind(s, o.t) = "tx" /\ Writable(s, o.o)
        THEN LET t == [s EXCEPT !.fs = Put(@, o.o, Signed(s.fs[o.t].t, i))] IN Out(t, [ok |-> TRUE, fs |-> Dir(t.fs)])
        ELSE Fail(s)

RECURSIVE RootFrom(_, _)
RootFrom(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE RootFrom(n, r + 1)
Root(n) == RootFrom(n, 0)
Info(p) == [parent |-> p.parent, first |-> p.first, last |-> p.last, dil |-> p.dil, batch |-> p.first \div p.dil,
            offset |-> 0, vrf |-> p.id, vote |-> p.id]
Tell(s, f) == Out(s, [ok |-> TRUE, info |-> Info(s.fs[f].part), fs |-> Dir(s.fs)])
PartGenerate(s, o) ==
    LET p == [parent |-> IF o.parent = "" THEN "zero" ELSE o.parent, first |-> o.first, last |-> o.last,
              dil |-> IF o.dil = 0 THEN 1 + Root(o.last - o.first) ELSE o.dil, id |-> s.m + 1]
    IN  IF o.first <= o.last /\ o.parent # "bad" /\ Kind(s, o.f) \in {"none", "store"}
        THEN Tell([s EXCEPT !.fs[o.f] = [k |-> "store", part |-> p], !.m = @ + 1], o.f)
        ELSE Fail(s)
PartInfo(s, o) == IF Kind(s, o.f) = "store" THEN Tell(s, o.f) ELSE Fail(s)
Reparent(s, o) ==
    IF Kind(s, o.f) = "store" /\ o.parent # "bad" THEN Tell([s EXCEPT !.fs[o.f].part.parent = o.parent], o.f) ELSE Fail(s)

Outcomes(s, o) ==
    CASE o.a = "generate" -> Generate(s, o)
      [] o.a = "export" -> Export(s, o)
      [] o.a = "import" -> Import(s, o)
      [] o.a = "sign" -> Sign(s, o)
      [] o.a = "partgen" -> PartGenerate(s, o)
      [] o.a = "partinfo" -> PartInfo(s, o)
      [] o.a = "reparent" -> Reparent(s, o)
      [] o.a = "usage" -> Fail(s)                           \* arguments missing, unknown or malformed
      (* whose signature a signed transaction calls for *)
      [] o.a = "authorizer" -> Out(s, [who |-> IF o.auth = "zero" THEN o.sender ELSE o.auth])
      (* signing names the key exactly when it is not the sender *)
      [] o.a = "signlib" -> Out(s, [auth |-> IF o.sender = "own" THEN "none" ELSE "key", valid |-> TRUE, same |-> TRUE, who |-> TRUE])
      [] o.a = "place" -> Out([s EXCEPT !.fs[o.f] = o.x], TRUE)   \* someone puts a file there

Start(o) == [fs |-> [ f \in { o.slots[i] : i \in DOMAIN o.slots } |-> Nothing ], n |-> 0, m |-> 0]
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
