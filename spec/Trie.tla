-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* The Merkle trie: a set of byte strings of one length.  Inner nodes are  *)
(* the proper prefixes shared by at least two elements; `stale' are those  *)
(* on the path of a change since the root was last computed (not visible   *)
(* from outside, but what the code's behaviour could depend on).           *)
(***************************************************************************)
EXTENDS SM, Sequences

Prefix(e, k) == SubSeq(e, 1, k)
Path(e) == { Prefix(e, k) : k \in 0 .. Len(e) - 1 }
Has(S, p) == { e \in S : Len(p) < Len(e) /\ Prefix(e, Len(p)) = p }
Inner(S) == { p \in UNION { Path(e) : e \in S } : Cardinality(Has(S, p)) >= 2 }
Nodes(S) == Cardinality(S) + Cardinality(Inner(S))
Changed(s, S, e) == [s |-> S, stale |-> (s.stale \cup Path(e)) \cap Inner(S)]

FitsLen(S, e) == S = {} \/ \A x \in S : Len(x) = Len(e)
Ans(ok, did, S) == [ok |-> ok, did |-> did, nodes |-> Nodes(S)]
Empty == [s |-> {}, stale |-> {}]

(* an operation during which the storage fails once, in a load or a store: what could not be written is not   *)
(* reported as done.  Whatever follows a change that failed is not defined; what only looked is as it was.    *)
Struck(S, o) ==
    LET did == CASE o.what = "add" -> FitsLen(S, o.e) /\ o.e \notin S
                 [] o.what = "del" -> FitsLen(S, o.e) /\ o.e \in S
                 [] o.what = "root" -> TRUE
        fits == o.what = "root" \/ FitsLen(S, o.e)
        usual == [ok |-> IF fits THEN "ok" ELSE "err", did |-> did]
    IN { [usual |-> TRUE, r |-> [ok |-> usual.ok, did |-> usual.did, hit |-> h]] : h \in {"no", "load"} }
       \cup { [usual |-> FALSE, r |-> [ok |-> "err", did |-> FALSE, hit |-> h]] : h \in {"load", "store"} }

(* lexicographic order, for naming sets *)
RECURSIVE Less(_, _)
Less(a, b) == IF a = << >> THEN b # << >>
              ELSE IF b = << >> THEN FALSE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
RECURSIVE Sort(_)
Sort(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Less(x, y) IN <<m>> \o Sort(S \ {m})

RECURSIVE Bits(_, _)
Bits(B, q) == IF q = << >> THEN B ELSE Bits(IF Head(q).set THEN B \cup {Head(q).bit} ELSE B \ {Head(q).bit}, Tail(q))
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})

Outcomes(s, o) ==
    CASE o.a = "add" ->
            IF ~ FitsLen(s.s, o.e) THEN Out(s, Ans("err", FALSE, s.s))
            ELSE IF o.e \in s.s THEN Out(s, Ans("ok", FALSE, s.s))
            ELSE LET S == s.s \cup {o.e} IN Out(Changed(s, S, o.e), Ans("ok", TRUE, S))
      [] o.a = "del" ->
            IF ~ FitsLen(s.s, o.e) THEN Out(s, Ans("err", FALSE, s.s))
            ELSE IF o.e \notin s.s THEN Out(s, Ans("ok", FALSE, s.s))
            ELSE LET S == s.s \ {o.e} IN Out(Changed(s, S, o.e), Ans("ok", TRUE, S))
      (* kept: the elements spelled by the nodes in storage *)
      (* the driver names the root by the set of which a new trie has that root *)
      [] o.a = "root" -> LET q == Sort(s.s) IN Out([s EXCEPT !.stale = {}], [root |-> q, nodes |-> Nodes(s.s), kept |-> q])
      [] o.a = "fault" ->
            { [st |-> IF x.usual /\ o.what = "add" /\ x.r.did THEN Changed(s, s.s \cup {o.e}, o.e)
                      ELSE IF x.usual /\ o.what = "del" /\ x.r.did THEN Changed(s, s.s \ {o.e}, o.e)
                      ELSE IF x.usual /\ o.what = "root" THEN [s EXCEPT !.stale = {}] ELSE s,
               res |-> x.r] : x \in Struck(s.s, o) }
      [] o.a = "node" -> Out(s, [back |-> [k |-> "ok", hash |-> o.hash, inner |-> o.inner, kids |-> o.kids], cut |-> FALSE])
      [] o.a = "raw" -> Out(s, [panic |-> FALSE])
      [] o.a = "bits" -> LET B == Bits({}, o.ops) IN Out(s, [bits |-> Ascending(B), zero |-> B = {}, same |-> B = Bits({}, o.other)])

Start(o) == Empty
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
