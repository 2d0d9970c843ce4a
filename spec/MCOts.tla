------------------------------- MODULE MCOts -------------------------------
EXTENDS OtsKeys

CONSTANTS Batches, Dil, Copies

Ids == { [b |-> NB(b), o |-> NB(x)] : b \in 0 .. Batches + 2, x \in 0 .. Dil + 1 }
IdSeq == [ i \in 1 .. (Batches + 3) * (Dil + 2) |-> [b |-> NB((i - 1) \div (Dil + 2)), o |-> NB((i - 1) % (Dil + 2))] ]
Far == { [b |-> NB(9), o |-> Zero], [b |-> NB(1), o |-> U64MAX], [b |-> U64MAX, o |-> Zero], [b |-> U64MAX, o |-> U64MAX] }
Probe == IF Copies THEN << [b |-> NB(0), o |-> NB(1)], [b |-> NB(1), o |-> NB(0)], [b |-> NB(1), o |-> NB(1)], [b |-> NB(2), o |-> NB(0)],
                           [b |-> NB(2), o |-> NB(1)], [b |-> NB(2), o |-> NB(3)], [b |-> NB(3), o |-> NB(0)] >> ELSE IdSeq
Points == IF Copies THEN { x \in Ids : Lt(x.o, NB(Dil)) } ELSE Ids \cup Far
Slots == IF Copies THEN {"L", "C"} ELSE {"L"}

Cover == ~ Copies /\ \E s \in Slots : Do([a |-> "cover", slot |-> s, ids |-> IdSeq \o <<[b |-> U64MAX, o |-> Zero], [b |-> NB(1), o |-> U64MAX], [b |-> NB(65537), o |-> Zero]>>])
Delete == \E s \in Slots, id \in Points : Do([a |-> "del", slot |-> s, id |-> id, d |-> Dil, ids |-> Probe])
Copy == Copies /\ \E h \in {"snapshot", "saved"}, f \in Slots, t \in Slots : Do([a |-> "copy", from |-> f, to |-> t, how |-> h, ids |-> Probe])

Same == [sig |-> 1, pk |-> 1, pk1 |-> 1, pk2 |-> 1, pk2s |-> 1]
Froms == [sig : {1, 2}, pk : {1, 2}, pk1 : {1, 2}, pk2 : {1, 2}, pk2s : {1, 2}]
(* one key set with whole and broken batches *)
Fixed == st["L"] \in { Gen(One, Batches), Del(Gen(One, Batches), [b |-> One, o |-> Zero], Dil) }
X == [b |-> NB(1), o |-> NB(0)]
Near == { X, [b |-> NB(1), o |-> NB(1)], [b |-> NB(2), o |-> NB(0)] }
Chk(id1, m1, id2, m2, f, vid, vm, own) ==
    Do([a |-> "check", slot |-> "L", id1 |-> id1, m1 |-> m1, id2 |-> id2, m2 |-> m2, from |-> f, vid |-> vid, vm |-> vm, own |-> own])
Check == ~ Copies /\ Fixed /\
    \/ \E x \in Near, v \in Ids, vm \in {"m", "n"}, own \in BOOLEAN : Chk(x, "m", x, "m", Same, v, vm, own)
    \/ \E y \in Near \cup {[b |-> NB(0), o |-> NB(0)]}, n \in {"m", "n"}, f \in Froms : f # Same /\ Chk(X, "m", y, n, f, X, "m", TRUE)
    \/ \E n \in {"m", "n"}, f \in Froms : \E x, y \in Near : f.sig = 2 /\ f.pk = 2 /\ Chk(x, "m", y, n, f, y, n, TRUE)
Flip == ~ Copies /\ Fixed /\ \E x \in Near, p \in {"sig", "pk", "pk1", "pk2", "pk2s"}, n \in {0, 31, 32, 62} :
          (p \in {"pk", "pk2"} => n < 32) /\ Do([a |-> "flip", slot |-> "L", id |-> x, m |-> "m", part |-> p, byte |-> n])

Ks == {"M", "B", "A"}
Next_(id) == { id, [id EXCEPT !.o = NB(1)], [id EXCEPT !.b = NB(2)] }
Said == { Msg(m) : m \in {"m", "n"} } \cup { OffOf(k, i) : k \in Ks, i \in Next_(X) } \cup { BatOf(k, b) : k \in Ks, b \in {NB(1), NB(2)} }
AnySig == { By(k, x) : k \in Ks, x \in Said }
Put(pk, pk2, sig, pk1, pk2s) ==
    Do([a |-> "chain", slot |-> "L", pk |-> pk, pk2 |-> pk2, sig |-> sig, pk1 |-> pk1, pk2s |-> pk2s, vid |-> X, vm |-> "m"])
Chained == ~ Copies /\ st["L"] = Gen(One, Batches) /\ \E pk, pk2 \in Ks :
    LET a == By(pk, Msg("m"))
        b == By(pk2, OffOf(pk, X))
        d == By("M", BatOf(pk2, X.b))
    IN  \/ \E x \in AnySig : Put(pk, pk2, x, b, d) \/ Put(pk, pk2, a, x, d) \/ Put(pk, pk2, a, b, x)
        \/ \E x, y, z \in Ks : Put(pk, pk2, [a EXCEPT !.by = x], [b EXCEPT !.by = y], [d EXCEPT !.by = z])

Init == op = << >> /\ res = << >> /\ st = [x \in {"L", "C"} |-> Gen(One, Batches)]
Next == Cover \/ Delete \/ Copy \/ Check \/ Flip \/ Chained
Spec == Init /\ [][Next]_<<st, op>>

All == Ids \cup Far
(* after deleting up to a point: what was covered and is not before it, as far as the batch was broken up *)
Exactly == [][op'.a = "del" =>
    \A x \in All : Covers(st'[op'.slot], x) <=>
        /\ Covers(st[op'.slot], x)
        /\ ~ Before(x, op'.id)
        /\ ((x.b = op'.id.b /\ Whole(st[op'.slot], x)) => Lt(x.o, NB(Dil)))]_vars
(* a copy can do what the original can, and is not affected by it afterwards *)
Copied == [][op'.a = "copy" => st'[op'.to] = st[op'.from]]_vars
Apart == [][op'.a = "del" => \A s \in {"L", "C"} \ {op'.slot} : st'[s] = st[s]]_vars
Unforgeable == [][op'.a = "check" => (res'.ok => (\/ (op'.vid = op'.id1 /\ op'.vm = op'.m1)
                                                  \/ (op'.vid = op'.id2 /\ op'.vm = op'.m2)))]_vars
=============================================================================
