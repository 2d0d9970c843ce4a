------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Signatures queued for verification together.  st: the sequence of       *)
(* queued entries [key, m, sig] (terms as in Multisig).                    *)
(***************************************************************************)
EXTENDS Multisig

Good(e) == Genuine(e.sig, e.key, e.m)
Enter(ms, m) == LET RECURSIVE From(_)
                    From(i) == IF i > Len(ms.subs) THEN << >>
                               ELSE IF ms.subs[i].sig = None THEN From(i + 1)
                               ELSE <<[key |-> ms.subs[i].key, m |-> m, sig |-> ms.subs[i].sig]>> \o From(i + 1)
                IN  From(1)

BOutcomes(s, o) ==
    CASE o.a = "new"    -> Out(<< >>, [n |-> 0])
      [] o.a = "queue"  -> Out(Append(s, o.e), [n |-> Len(s) + 1])
      [] o.a = "many"   -> Out(s \o [ i \in 1 .. o.n |-> o.e ], [n |-> Len(s) + o.n])
      [] o.a = "msig"   -> IF Accepts(o.ms, o.addr) THEN LET q == s \o Enter(o.ms, o.m) IN Out(q, [ok |-> TRUE, n |-> Len(q)])
                           ELSE Out(s, [ok |-> FALSE, n |-> Len(s)])
      [] o.a = "verify" -> Out(s, [ok |-> s # << >> /\ \A i \in DOMAIN s : Good(s[i]), n |-> Len(s)])

BStart(o) == << >>
BDo(o) == \E x \in BOutcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
