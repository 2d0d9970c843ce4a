------------------------------ MODULE OtsKeys ------------------------------
(***************************************************************************)
(* Operations on a key set and a copy of it.  st: slot -> key set.         *)
(***************************************************************************)
EXTENDS Ots

(***************************************************************************)
(* Signatures as terms.  Two signatures are made from one key set:         *)
(* for (id1, m1) and (id2, m2).  Each has five parts; the one presented    *)
(* takes each part from one of the two (from[part] in {1, 2}), and is      *)
(* presented for (vid, vm) under the key set's own master key or another.  *)
(* A signature has the key of its batch, and a key of its own, which is    *)
(* the same for both if the offsets of the batch are broken up and the     *)
(* identifiers are equal.                                                  *)
(***************************************************************************)
Valid(k, o) ==
    LET id == <<o.id1, o.id2>>
        m  == <<o.m1, o.m2>>
        f  == o.from
        bk(i) == id[i].b
        ok(i) == <<id[i], IF Broken(k, id[i]) THEN 0 ELSE i>>
    IN  /\ \A i \in { f.sig, f.pk, f.pk1, f.pk2, f.pk2s } : Covers(k, id[i])
        /\ o.own
        /\ id[f.pk2s].b = o.vid.b /\ bk(f.pk2s) = bk(f.pk2)
        /\ bk(f.pk1) = bk(f.pk2) /\ id[f.pk1] = o.vid /\ ok(f.pk1) = ok(f.pk)
        /\ ok(f.sig) = ok(f.pk) /\ m[f.sig] = o.vm

(***************************************************************************)
(* A chain put together by someone who knows some secret keys: each        *)
(* signature is by one key of one statement.  "M" is the master key.       *)
(***************************************************************************)
NoId == [b |-> Zero, o |-> Zero]
Msg(m) == [t |-> "msg", key |-> "", id |-> NoId, m |-> m]
OffOf(k, id) == [t |-> "off", key |-> k, id |-> id, m |-> ""]
BatOf(k, b) == [t |-> "bat", key |-> k, id |-> [b |-> b, o |-> Zero], m |-> ""]
By(k, x) == [by |-> k, of |-> x]
Chain(o) == /\ o.sig = By(o.pk, Msg(o.vm))
            /\ o.pk1 = By(o.pk2, OffOf(o.pk, o.vid))
            /\ o.pk2s = By("M", BatOf(o.pk2, o.vid.b))

Which(k, ids) == [ i \in DOMAIN ids |-> Covers(k, ids[i]) ]

Outcomes(s, o) ==
    CASE o.a = "gen"   -> Out([s EXCEPT ![o.slot] = Gen(o.start, o.n)], [secrets |-> o.n])
      [] o.a = "cover" -> Out(s, [ok |-> Which(s[o.slot], o.ids)])
      [] o.a = "del"   -> LET k == s[o.slot]
                              k2 == Del(k, o.id, o.d)
                          IN  Out([s EXCEPT ![o.slot] = k2], [secrets |-> Secrets(k2), kept |-> Kept(k, k2), ok |-> Which(k2, o.ids)])
      (* through a snapshot or its saved form *)
      [] o.a = "copy"  -> Out([s EXCEPT ![o.to] = s[o.from]], [secrets |-> Secrets(s[o.from]), ok |-> Which(s[o.from], o.ids)])
      [] o.a = "check" -> Out(s, [ok |-> Valid(s[o.slot], o)])
      [] o.a = "chain" -> Out(s, [ok |-> Chain(o)])
      (* one changed bit in one part *)
      [] o.a = "flip"  -> Out(s, [ok |-> FALSE])

Start(o) == [x \in {"L", "C"} |-> Gen(o.start, o.n)]
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
