------------------------------- MODULE Payset -------------------------------
(***************************************************************************)
(* The transactions of a block: fee credit of a group, splitting into      *)
(* groups, storing and reading entries, committing to the list and proving *)
(* single entries against the commitment.                                  *)
(*                                                                         *)
(* Protocols by what they do with entries: whether genesis fields are      *)
(* stripped from entries, whether every transaction needs a genesis hash,  *)
(* and how the list is committed to.                                       *)
(***************************************************************************)
EXTENDS MerkleArray

Protocols ==
    [V10 |-> [strip |-> FALSE, req |-> FALSE, commit |-> "none"],
     V11 |-> [strip |-> TRUE, req |-> FALSE, commit |-> "flat"],
     V16 |-> [strip |-> TRUE, req |-> TRUE, commit |-> "flat"],
     V26 |-> [strip |-> TRUE, req |-> TRUE, commit |-> "merkle"]]
Known(h) == h.proto \in DOMAIN Protocols
P(h) == Protocols[h.proto]

------------------------------------------------------------------ (* fees *)
RECURSIVE SumFees(_)
SumFees(g) == IF g = << >> THEN Zero ELSE SatAdd(SumFees(SubSeq(g, 1, Len(g) - 1)), g[Len(g)].fee)
Pays(x) == x.kind # "cert"
Required(g, minFee) == Mul(minFee, BigOfNat(Len(SelectSeq(g, Pays))))
Credit(g, minFee) ==
    IF IsU64(Required(g, minFee)) /\ Ge(SumFees(g), Required(g, minFee))
    THEN [ok |-> "ok", v |-> <<Sub(SumFees(g), Required(g, minFee))>>]
    ELSE [ok |-> "err", v |-> << >>]

---------------------------------------------------------------- (* groups *)
(* groups, as lists of positions *)
RECURSIVE SplitFrom(_, _)
SplitFrom(ids, i) ==
    IF i > Len(ids) THEN << >>
    ELSE LET n == IF ids[i] = "zero" THEN i
                  ELSE CHOOSE k \in i .. Len(ids) : /\ \A m \in i .. k : ids[m] = ids[i]
                                                    /\ k = Len(ids) \/ ids[k + 1] # ids[i]
         IN  <<[ k \in 1 .. n - i + 1 |-> i + k - 1 ]>> \o SplitFrom(ids, n + 1)
Split(ids) == SplitFrom(ids, 1)
Iota(n) == [ i \in 1 .. n |-> i ]

--------------------------------------------------------------- (* entries *)
(* e: [kind, id, v] tell the transaction, [gid, gh] its genesis fields, [fGid, fGh] the flags of the entry *)
Store(h, e) ==
    IF ~ Known(h) THEN << >>
    ELSE IF ~ P(h).strip THEN <<[e EXCEPT !.fGid = FALSE, !.fGh = FALSE]>>
    ELSE IF \/ e.gid \notin {"", h.gid}
            \/ e.gh \notin {"zero", h.gh}
            \/ P(h).req /\ e.gh = "zero" THEN << >>
    ELSE <<[e EXCEPT !.gid = "", !.gh = "zero", !.fGid = e.gid # "", !.fGh = e.gh # "zero" /\ ~ P(h).req]>>
(* the genesis fields read back *)
Read(h, e) ==
    IF ~ Known(h) THEN << >>
    ELSE IF ~ P(h).strip THEN <<[gid |-> e.gid, gh |-> e.gh]>>
    ELSE IF e.gid # "" \/ e.gh # "zero" \/ (P(h).req /\ e.fGh) THEN << >>
    ELSE <<[gid |-> IF e.fGid THEN h.gid ELSE "", gh |-> IF P(h).req \/ e.fGh THEN h.gh ELSE "zero"]>>
Readable(h, list) == \A i \in DOMAIN list : Read(h, list[i]) # << >>

------------------------------------------------------------- (* commitment *)
Leaf(h, e) == <<Read(h, e)[1], e>>
Leaves(h, list) == [ i \in DOMAIN list |-> Leaf(h, list[i]) ]
Commit(h, list) ==
    IF ~ Known(h) \/ P(h).commit = "none" THEN << >>
    ELSE IF P(h).commit = "flat" THEN <<[flat |-> list]>>
    ELSE IF ~ Readable(h, list) THEN << >>
    ELSE <<[tree |-> Leaves(h, list)]>>
(* names for the leaves: equal ones share one *)
Named(h, list) == LET L == Leaves(h, list) IN
    [ i \in DOMAIN list |-> "l" \o ToString(CHOOSE k \in DOMAIN list : L[k] = L[i] /\ \A m \in 1 .. k - 1 : L[m] # L[i]) ]

Sizes(q) == [ i \in DOMAIN q |-> Len(q[i]) ]

Outcomes2(s, o) ==
    CASE o.a = "credit" -> Out(s, Credit(o.group, o.minFee))
      [] o.a = "split"  -> LET x == Split(o.groups) IN
                           Out(s, [split |-> x, flat |-> Iota(Len(o.groups)), bsplit |-> x, bflat |-> Iota(Len(o.groups))])
      [] o.a = "store"  -> LET x == Store(o.hdr, o.tx) IN
                           IF x = << >> THEN Out(s, [ok |-> "err", entry |-> << >>, back |-> << >>])
                           ELSE Out(s, [ok |-> "ok", entry |-> <<[gid |-> x[1].gid, gh |-> x[1].gh, fGid |-> x[1].fGid, fGh |-> x[1].fGh]>>,
                                        back |-> <<[same |-> TRUE]>>])
      [] o.a = "read"   -> LET x == Read(o.hdr, o.entry) IN
                           IF x = << >> THEN Out(s, [ok |-> "err", v |-> << >>])
                           ELSE Out(s, [ok |-> "ok", v |-> <<[gid |-> x[1].gid, gh |-> x[1].gh, rest |-> TRUE]>>])
      [] o.a = "readall" ->
            LET L == o.list
                G == [ i \in DOMAIN L |-> L[i].grp ]
            IN  IF ~ Readable(o.hdr, L) THEN Out(s, [flat |-> [ok |-> "err", v |-> << >>, n |-> 0], groups |-> [ok |-> "err", v |-> << >>, same |-> FALSE]])
                ELSE Out(s, [flat |-> [ok |-> "ok", n |-> Len(L), v |-> [ i \in DOMAIN L |-> Read(o.hdr, L[i])[1] @@ [rest |-> TRUE] ]],
                             groups |-> [ok |-> "ok", v |-> Sizes(Split(G)), same |-> TRUE]])
      [] o.a = "match"  -> LET x == Commit(o.hdr, o.list)
                               y == Commit(o.hdr2, o.stored)
                           IN  IF x = << >> THEN Out(s, [commit |-> "err", match |-> << >>])
                               ELSE Out(s, [commit |-> "ok", match |-> <<x = y>>])
      [] o.a = "prove"  -> IF P(o.hdr).commit # "merkle" \/ ~ Readable(o.hdr, o.list) THEN Out(s, [ok |-> "err", accept |-> << >>])
                           ELSE LET N == Named(o.hdr, o.list) IN
                                Out(s, [ok |-> "ok", accept |-> <<Accepts(Root(N), <<[pos |-> BigOfNat(o.j - 1), v |-> N[o.k]]>>, Proof(N, {o.i - 1}))>>])

Do2(o) == \E x \in Outcomes2(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
