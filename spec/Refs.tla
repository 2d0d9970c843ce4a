-------------------------------- MODULE Refs --------------------------------
(***************************************************************************)
(* When a transaction is live, which addresses it touches, and what the    *)
(* references of an application call denote.                               *)
(***************************************************************************)
EXTENDS SM, Big

Alive(o) ==
    LET t == o.tx IN
    /\ Le(t.fv, o.round) /\ Le(o.round, t.lv)
    /\ t.gid # "" => t.gid = o.gid
    /\ IF o.supGH THEN /\ t.gh # "zero" => t.gh = o.gh
                       /\ o.reqGH => t.gh # "zero"
       ELSE t.gh = "zero"

Touched(t, sink) ==
    {t.sender, sink}
    \cup (CASE t.kind = "pay"   -> {t.rcv} \cup ({t.close} \ {"none"})
            [] t.kind = "axfer" -> {t.rcv} \cup ({t.closeTo, t.asnd} \ {"zero"})
            [] OTHER            -> {})
Receiver(t) == IF t.kind \in {"pay", "axfer"} THEN <<t.rcv>> ELSE << >>
Amount(t) == IF t.kind = "pay" THEN t.amt ELSE Zero

(* the list an index points into: entry 0 is given by the transaction itself *)
Entry(zeroth, list, i) ==        \* i: Big
    IF i = Zero THEN <<zeroth>>
    ELSE IF Gt(i, BigOfNat(Len(list))) THEN << >>
    ELSE <<list[CHOOSE n \in 1 .. Len(list) : BigOfNat(n) = i]>>
(* the first index of an entry *)
Index(zeroth, list, e) ==
    IF e = zeroth THEN <<Zero>>
    ELSE LET at == { n \in 1 .. Len(list) : list[n] = e } IN
         IF at = {} THEN << >> ELSE <<BigOfNat(CHOOSE n \in at : \A m \in at : n <= m)>>
May(v) == [ok |-> v # << >>, v |-> v]

Outcomes(s, o) ==
    CASE o.a = "alive"   -> Out(s, [ok |-> IF Alive(o) THEN "ok" ELSE "err"])
      [] o.a = "addrs"   -> LET T == Touched(o.tx, o.sink)
                                In(n) == n \in T
                                list == SelectSeq(o.names, In)
                            IN  Out(s, [addrs |-> list, matched |-> list, rcv |-> Receiver(o.tx), amt |-> Amount(o.tx)])
      [] o.a = "acct_at" -> Out(s, May(Entry(o.sender, o.tx.accts, o.i)))
      [] o.a = "acct_ix" -> Out(s, May(Index(o.sender, o.tx.accts, o.addr)))
      [] o.a = "app_at"  -> Out(s, May(Entry(o.tx.app, o.tx.fapps, o.i)))
      [] o.a = "app_ix"  -> Out(s, May(Index(o.tx.app, o.tx.fapps, o.id)))

Start(o) == "ready"
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
