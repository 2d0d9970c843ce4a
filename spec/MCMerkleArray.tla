--------------------------- MODULE MCMerkleArray ---------------------------
EXTENDS MerkleArray

CONSTANTS MaxLen_, MaxProof_

N(n) == BigOfNat(n)
Hi(n) == Sub(U64MAX, N(n))
Letters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j">>
(* arrays of distinct elements, and some with equal ones *)
Arr(n) == SubSeq(Letters, 1, n)
Arrays == { Arr(n) : n \in 0 .. MaxLen_ } \cup { <<"a", "a">>, <<"a", "a", "b">>, <<"a", "b", "a", "b">>, <<"a", "b", "a">> }

Build == \E n \in 0 .. MaxLen_ + 4 : Do([a |-> "build", arr |-> Arr(IF n > 10 THEN 10 ELSE n)])
         \/ \E x \in Arrays : Do([a |-> "build", arr |-> x])

Sorted(P) == LET q == SetToSorted(P) IN [ i \in 1 .. Len(q) |-> N(q[i]) ]
Rev(q) == [ i \in 1 .. Len(q) |-> q[Len(q) + 1 - i] ]
Prove == \E x \in Arrays : \E P \in SUBSET (0 .. Len(x) - 1) :
           LET q == Sorted(P) IN
           \/ \E i \in {q, Rev(q), q \o q} : Do([a |-> "prove", arr |-> x, idxs |-> i])
           \/ \E far \in { N(Len(x)), N(Len(x) + 1), N(Len(x) * 2 + 2), N(65536), U32MAX, Add(U32MAX, One), Hi(0) } :
                Do([a |-> "prove", arr |-> x, idxs |-> q \o <<far>>])

Claims(x, P) == LET q == SetToSorted(P) IN [ i \in 1 .. Len(q) |-> [pos |-> N(q[i]), v |-> x[q[i] + 1]] ]
RECURSIVE Insert(_, _)
Insert(c, e) == IF c = << >> THEN <<e>> ELSE IF Lt(e.pos, Head(c).pos) THEN <<e>> \o c ELSE <<Head(c)>> \o Insert(Tail(c), e)
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Put(q, i, e) == SubSeq(q, 1, i - 1) \o <<e>> \o SubSeq(q, i, Len(q))
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
V(r, c, p) == Do([a |-> "verify", root |-> r, claims |-> c, proof |-> p])

(* terms a forger might use *)
Tm(x) == LET L == Levels(x) IN {"0", "z", "a", "b", Node("a", "b")} \cup UNION { { L[k][i] : i \in DOMAIN L[k] } : k \in 2 .. Len(L) }
Pos(x) == { N(n) : n \in 0 .. Len(x) + 2 } \cup { Add(U32MAX, One), Hi(0) }
Verify ==
  \E x \in Arrays : \E P \in SUBSET (0 .. Len(x) - 1) :
    LET c == Claims(x, P)
        p == Proof(x, P)
        r == Root(x)
    IN  \/ V(r, c, p)
        \/ \E i \in DOMAIN c : \E v \in ({ x[k] : k \in DOMAIN x } \cup {"z"}) \ {c[i].v} : V(r, [c EXCEPT ![i].v = v], p)
        \/ \E i \in DOMAIN c : \E y \in Pos(x) : (\A k \in DOMAIN c : c[k].pos # y) /\ V(r, Insert(Drop(c, i), [c[i] EXCEPT !.pos = y]), p)
        \/ \E i \in DOMAIN c : V(r, Drop(c, i), p)
        \/ \E i \in DOMAIN c : \E j \in DOMAIN c : i < j /\ V(r, [c EXCEPT ![i].v = c[j].v, ![j].v = c[i].v], p)
        \/ \E y \in Pos(x), v \in {"a", "z"} : (\A k \in DOMAIN c : c[k].pos # y) /\ V(r, Insert(c, [pos |-> y, v |-> v]), p)
        \/ \E t \in Tm(x) : \/ \E i \in DOMAIN p : V(r, c, [p EXCEPT ![i] = t])
                            \/ \E i \in 1 .. Len(p) + 1 : V(r, c, Put(p, i, t))
                            \/ V(t, c, p)
        \/ \E i \in DOMAIN p : V(r, c, Drop(p, i)) \/ \E j \in DOMAIN p : i < j /\ V(r, c, Swap(p, i, j))
        \/ V(r, c, Rev(p)) \/ V(r, c, << >>) \/ V(r, << >>, p)
        \/ \E n \in 0 .. MaxProof_ : V(Root(Arr(n)), c, p)

Init == op = << >> /\ res = << >> /\ st = "ready"
Next == Build \/ Prove \/ Verify
Spec == Init /\ [][Next]_vars

(* two arrays without common root, unless they are equal *)
Binding == [][op'.a = "build" => \A x \in Arrays : Root(x) = res'.root => x = op'.arr]_vars
(* Accepted claims, for the root of any array considered: each is an entry of that array and the proof
   is the one that belongs to their positions; and those are accepted *)
Sound == [][op'.a = "verify" =>
            \A x \in Arrays :
              (op'.root = Root(x) /\ x # << >>) =>
                LET P == { n \in 0 .. Len(x) - 1 : \E i \in DOMAIN op'.claims : op'.claims[i].pos = N(n) }
                IN  (res'.ok = "ok") <=> (op'.claims = Claims(x, P) /\ op'.proof = Proof(x, P))]_vars
EmptySound == [][op'.a = "verify" /\ op'.root = "0" => (res'.ok = "ok" <=> op'.claims = << >> /\ op'.proof = << >>)]_vars
=============================================================================
