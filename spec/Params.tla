------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Tables of consensus parameters.  A table is a set of entries            *)
(* [v, tag, up]: the version, a name for the parameters themselves, and    *)
(* the upgrades approved from it, a set of [to, wait].  An entry without   *)
(* upgrades, given to a merge, marks its version as deleted.               *)
(*                                                                         *)
(* st: the table in use (live), the file in the data directory, and the    *)
(* table it had before (the defaults of a load).                           *)
(***************************************************************************)
EXTENDS SM

Vs(t) == { e.v : e \in t }
At(t, v) == CHOOSE e \in t : e.v = v
Deleted(m) == { e.v : e \in { x \in m : x.up = {} } }
Prune(e, gone) == [e EXCEPT !.up = { u \in e.up : u.to \notin gone }]

Merge(t, m) ==
    LET gone == Deleted(m)
        put == { e \in m : e.up # {} }
        kept == { e \in t : e.v \notin Vs(m) }
    IN  { Prune(e, gone) : e \in put \cup kept }

(* scripts give tables as lists, in any order *)
ListSet(q) == { q[i] : i \in DOMAIN q }
Entry(x) == [v |-> x.v, tag |-> x.tag, up |-> ListSet(x.up)]
Table(q) == { Entry(x) : x \in ListSet(q) }

(* and are given tables in the order of Names *)
Names == <<"V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23",
           "V24", "V25", "V26", "V27", "V28", "V29", "V30", "Future">>
Ups(up) == LET q == SelectSeq(Names, LAMBDA n : \E u \in up : u.to = n) IN [ i \in DOMAIN q |-> CHOOSE u \in up : u.to = q[i] ]
Listed(t) == LET q == SelectSeq(Names, LAMBDA n : n \in Vs(t))
             IN  [ i \in DOMAIN q |-> [v |-> q[i], tag |-> At(t, q[i]).tag, up |-> Ups(At(t, q[i]).up)] ]

Missing == [k |-> "none", t |-> {}]
Broken == [k |-> "broken", t |-> {}]
Holding(t) == [k |-> "table", t |-> t]
Saved(t) == IF t = {} THEN Missing ELSE Holding(t)
Read(s) == CASE s.file.k = "none" -> s.live
             [] s.file.k = "table" -> Merge(s.live, s.file.t)

(* what keeps the network together in a table of versions *)
Window(p, w) == IF p.min = 0 /\ p.max = 0 THEN w = 0 ELSE p.min <= w /\ w <= p.max /\ w > 0
Wait(p, u) == IF u.wait = 0 THEN p.wait ELSE u.wait
Sane(t) ==
    /\ \A i \in DOMAIN t : LET p == t[i] IN
         /\ p.min <= p.max
         /\ \A j \in DOMAIN p.up : /\ \E k \in DOMAIN t : t[k].v = p.up[j].to
                                   /\ Window(p, p.up[j].wait) /\ Wait(p, p.up[j]) > 0
         /\ \A j \in DOMAIN p.com : 2 * p.com[j].thr > p.com[j].size /\ p.com[j].thr <= p.com[j].size
         /\ 2 * p.need > p.votes /\ p.need <= p.votes
    /\ \A i, j \in DOMAIN t : t[i].v = t[j].v => i = j

Outcomes(s, o) ==
    CASE o.a = "merge" -> Out(s, [ok |-> <<Listed(Merge(Table(o.t), Table(o.m)))>>])
      [] o.a = "use" -> Out([s EXCEPT !.live = Table(o.t)], TRUE)
      [] o.a = "save" -> Out([s EXCEPT !.file = Saved(Table(o.t))], [ok |-> TRUE, file |-> Table(o.t) # {}])
      [] o.a = "preload" -> IF s.file.k = "broken" THEN Out(s, [ok |-> FALSE, live |-> Listed(s.live)])
                            ELSE Out(s, [ok |-> TRUE, got |-> Listed(Read(s)), live |-> Listed(s.live)])
      [] o.a = "load" -> IF s.file.k = "broken" THEN Out(s, [ok |-> FALSE, live |-> Listed(s.live)])
                         ELSE LET t == IF Read(s) = {} THEN s.live ELSE Read(s)      \* never left without any version
                              IN  Out([s EXCEPT !.live = t], [ok |-> TRUE, live |-> Listed(t)])
      [] o.a = "spoil" -> Out([s EXCEPT !.file = Broken], TRUE)
      [] o.a = "remove" -> Out([s EXCEPT !.file = Missing], TRUE)
      [] o.a = "builtin" -> IF Sane(o.t) THEN Out(s, TRUE) ELSE {}

Start(o) == [live |-> {}, file |-> Missing]
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
