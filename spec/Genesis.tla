------------------------------- MODULE Genesis -------------------------------
(***************************************************************************)
(* The first block of a chain and the configuration file it comes from.    *)
(*                                                                         *)
(* st.h: the header of the block last made (reduced as in module Chain),   *)
(* or Nothing; st.file: what the configuration file holds; st.seen: the    *)
(* configurations loaded so far, each of which has a hash of its own.      *)
(* Of every protocol the table P gives what module Chain needs and         *)
(*   min, interval (Bigs), keep (whether the pool keeps its minimum)       *)
(***************************************************************************)
EXTENDS SM, Integers, Big, ChainParams
C == INSTANCE Chain

Nothing == [k |-> "none"]
Missing == [k |-> "none"]
Broken == [k |-> "broken"]
Fresh == [h |-> Nothing, file |-> Missing, seen |-> << >>]

(* what the pool may give out over the first interval *)
Available(p, pool) == IF p.keep THEN MonusB(pool, p.min) ELSE pool
Rate(p, pool) == Div(Available(p, pool), p.interval)

FirstHeader(o) == [round |-> 0, ts |-> o.ts, gid |-> o.gid, gh |-> IF P[o.proto].supGH THEN o.gh ELSE "zero",
                   ups |-> C!NoUpgrade(o.proto)]
Made(o) ==
    LET p == P[o.proto]  h == FirstHeader(o) IN
    [ok |-> TRUE, round |-> 0, branch |-> "zero", seed |-> o.gh, gid |-> h.gid, gh |-> h.gh, ts |-> o.ts,
     ups |-> h.ups, sink |-> o.sink, pool |-> o.rp, level |-> Zero, residue |-> Zero, recalc |-> p.interval,
     rate |-> Rate(p, IF o.pool.k = "none" THEN Zero ELSE o.pool.b), txs |-> 0,
     asked |-> [round |-> 0, gid |-> h.gid, gh |-> h.gh, seed |-> o.gh, min |-> p.min, digest |-> TRUE, reseeded |-> TRUE], root |-> TRUE, counter |-> 0]

(* the number of a configuration among those loaded, in the order they first were *)
Place(q, x) == IF \E i \in DOMAIN q : q[i] = x THEN CHOOSE i \in DOMAIN q : q[i] = x ELSE Len(q) + 1
Seen(q, x) == IF \E i \in DOMAIN q : q[i] = x THEN q ELSE Append(q, x)
Identity(g) == g.network \o "-" \o g.schema

Outcomes(s, o) ==
    CASE o.a = "create" -> IF o.proto \in DOMAIN P
                           THEN Out([s EXCEPT !.h = [k |-> "ok", h |-> FirstHeader(o)]], Made(o))
                           ELSE Out(s, [ok |-> FALSE])
      [] o.a = "assemble" -> { [st |-> IF o.advance THEN [s EXCEPT !.h.h = C!AssembleNext(@, x).st] ELSE s, res |-> x.res]
                               : x \in C!AssembleOut(s.h.h, o) }
      [] o.a = "write" -> Out([s EXCEPT !.file = [k |-> "ok", g |-> o.g]], TRUE)
      [] o.a = "spoil" -> Out([s EXCEPT !.file = Broken], TRUE)
      [] o.a = "remove" -> Out([s EXCEPT !.file = Missing], TRUE)
      [] o.a = "load" -> IF s.file.k # "ok" THEN Out(s, [ok |-> FALSE])
                         ELSE LET g == s.file.g IN
                              Out([s EXCEPT !.seen = Seen(@, g)],
                                  [ok |-> TRUE, same |-> TRUE, id |-> Identity(g), hash |-> Place(s.seen, g)])

Start(o) == Fresh
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
