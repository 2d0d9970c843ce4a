----------------------------- MODULE MerkleArray -----------------------------
(***************************************************************************)
(* Commitments to arrays.  Hashes are terms: "0" is the zero hash, a name  *)
(* is the hash of an element, "(x y)" the hash of a pair.  The driver      *)
(* computes the hash every term stands for on its own and reads the        *)
(* hashes the code produces back as terms.                                 *)
(***************************************************************************)
EXTENDS SM, Big

Node(x, y) == "(" \o x \o " " \o y \o ")"
At(l, i) == IF i \in DOMAIN l THEN l[i] ELSE "0"
Up(l) == [ i \in 1 .. (Len(l) + 1) \div 2 |-> Node(l[2 * i - 1], At(l, 2 * i)) ]
RECURSIVE Levels(_)
Levels(l) == IF Len(l) <= 1 THEN <<l>> ELSE <<l>> \o Levels(Up(l))
Root(arr) == IF arr = << >> THEN "0" ELSE LET L == Levels(arr) IN L[Len(L)][1]

(* the proof for a set of positions (counted from 0): the hashes next to the paths to the root *)
RECURSIVE SetToSorted(_)
SetToSorted(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetToSorted(S \ {m})
Sib(p) == IF p % 2 = 0 THEN p + 1 ELSE p - 1
RECURSIVE ProofFrom(_, _, _)
ProofFrom(L, k, P) ==
    IF k >= Len(L) THEN << >>
    ELSE LET alone == SetToSorted({ p \in P : Sib(p) \notin P })
         IN  [ i \in 1 .. Len(alone) |-> At(L[k], Sib(alone[i]) + 1) ] \o ProofFrom(L, k + 1, { p \div 2 : p \in P })
Proof(arr, P) == IF P = {} THEN << >> ELSE ProofFrom(Levels(arr), 1, P)

(***************************************************************************)
(* Verification: the paths are walked up, taking hashes of the proof where *)
(* a neighbour is not known, until the proof is used up and one node is    *)
(* left; it must be the root, at position 0.  Claims: [pos: Big, v: term], *)
(* sorted by position.                                                     *)
(***************************************************************************)
Even(p) == p = Zero \/ p[1] % 2 = 0
BSib(p) == IF Even(p) THEN Add(p, One) ELSE Sub(p, One)
Half(p) == Div(p, BigOfNat(2))
RECURSIVE Walk(_, _)
(* the next level, or << >> if the proof has too few hashes; [c |-> claims, h |-> hashes left] *)
Walk(c, h) ==
    IF c = << >> THEN [ok |-> TRUE, c |-> << >>, h |-> h]
    ELSE LET p == Head(c)
             both == Len(c) > 1 /\ c[2].pos = BSib(p.pos)
         IN  IF ~ both /\ h = << >> THEN [ok |-> FALSE, c |-> << >>, h |-> << >>]
             ELSE LET s == IF both THEN c[2].v ELSE Head(h)
                      r == Walk(IF both THEN Tail(Tail(c)) ELSE Tail(c), IF both THEN h ELSE Tail(h))
                      n == IF Even(p.pos) THEN Node(p.v, s) ELSE Node(s, p.v)
                  IN  [ok |-> r.ok, c |-> <<[pos |-> Half(p.pos), v |-> n]>> \o r.c, h |-> r.h]
RECURSIVE Climb(_, _, _)
Climb(c, h, l) ==
    IF h = << >> /\ Len(c) = 1 THEN [ok |-> TRUE, c |-> c]
    ELSE IF l = 64 THEN [ok |-> FALSE, c |-> c]         \* no array is that large
    ELSE LET w == Walk(c, h) IN IF w.ok THEN Climb(w.c, w.h, l + 1) ELSE [ok |-> FALSE, c |-> c]
Accepts(root, claims, proof) ==
    IF claims = << >> THEN proof = << >>
    ELSE LET z == Climb(claims, proof, 0) IN z.ok /\ z.c[1] = [pos |-> Zero, v |-> root]

Outcomes(s, o) ==
    CASE o.a = "build"  -> Out(s, [root |-> Root(o.arr), size |-> Len(o.arr)])
      [] o.a = "prove"  -> LET P == { o.idxs[i] : i \in DOMAIN o.idxs } IN
                           IF \E p \in P : Ge(p, BigOfNat(Len(o.arr))) THEN Out(s, [ok |-> "err", proof |-> << >>, accept |-> FALSE])
                           ELSE Out(s, [ok |-> "ok", proof |-> Proof(o.arr, { n \in 0 .. Len(o.arr) : BigOfNat(n) \in P }), accept |-> TRUE])
      [] o.a = "verify" -> Out(s, [ok |-> IF Accepts(o.root, o.claims, o.proof) THEN "ok" ELSE "err"])

Start(o) == "ready"
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
