-------------------------------- MODULE Teal --------------------------------
(***************************************************************************)
(* State deltas, stored values and schemas.                                *)
(* st = [uint, bytes]: an account's total schema (Big).                    *)
(* A key [id, n, w] is n characters of w bytes each.                       *)
(***************************************************************************)
EXTENDS SM, Big

KeyLen(k) == k.n * k.w

EntryOk(e, o) ==
    /\ KeyLen(e.key) <= o.maxKey
    /\ e.val.action = "bytes" => /\ e.val.len <= o.maxVal
                                 /\ KeyLen(e.key) + e.val.len <= o.maxSum
Valid(o) == /\ o.delta # << >> => o.maxKey # 0
            /\ \A i \in 1 .. Len(o.delta) : EntryOk(o.delta[i], o)

ValJ(t, n, x) == [type |-> t, len |-> n, uint |-> x, good |-> TRUE]
DeltaOf(v) == IF v.type = "bytes" THEN [action |-> "bytes", len |-> v.len, uint |-> Zero, good |-> TRUE]
              ELSE [action |-> "uint", len |-> 0, uint |-> v.uint, good |-> TRUE]
ValueOf(d) == CASE d.action = "bytes"  -> << ValJ("bytes", d.len, Zero) >>
                [] d.action = "uint"   -> << ValJ("uint", 0, d.uint) >>
                [] d.action = "delete" -> << >>
Stored(v) == IF v.type = "bytes" THEN ValJ("bytes", v.len, Zero) ELSE ValJ("uint", 0, v.uint)

SchemaOf(kv) ==
    [uint  |-> BigOfNat(Cardinality({ i \in 1 .. Len(kv) : kv[i].val.type = "uint" })),
     bytes |-> BigOfNat(Cardinality({ i \in 1 .. Len(kv) : kv[i].val.type = "bytes" }))]
AddS(a, b) == [uint |-> SatAdd(a.uint, b.uint), bytes |-> SatAdd(a.bytes, b.bytes)]
SubS(a, b) == [uint |-> MonusB(a.uint, b.uint), bytes |-> MonusB(a.bytes, b.bytes)]
Entries(s) == SatAdd(s.uint, s.bytes)

Outcomes(s, o) ==
    CASE o.a = "valid"   -> Out(s, [valid |-> Valid(o)])
      [] o.a = "todelta" -> Out(s, [delta |-> DeltaOf(o.val), back |-> << Stored(o.val) >>])
      [] o.a = "toval"   -> Out(s, [val |-> ValueOf(o.val)])
      [] o.a = "schema"  -> LET sc == SchemaOf(o.kv)
                                n  == IF o.add THEN AddS(s, sc) ELSE s
                            IN  Out(n, [schema |-> sc, total |-> n])
      [] o.a = "add" -> LET n == AddS(s, o.schema) IN Out(n, [total |-> n, entries |-> Entries(n)])
      [] o.a = "sub" -> LET n == SubS(s, o.schema) IN Out(n, [total |-> n, entries |-> Entries(n)])

Start(o) == o.total
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
