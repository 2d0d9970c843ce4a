------------------------------ MODULE MCHistory ------------------------------
(***************************************************************************)
(* C30: short chains with contents, across upgrades; every way of telling  *)
(* a different history, and every receipt.                                 *)
(***************************************************************************)
EXTENDS History

CONSTANTS Cur0, MaxBlocks

T(k, id, g, own) == [kind |-> k, id |-> id, grp |-> g, own |-> own]
Contents == { << >>,
              <<T("axfer", 2, "x", FALSE), T("appl", 3, "x", TRUE), T("pay", 4, "zero", FALSE)>> }

Init == st = << [h |-> Header(0, <<1000>>, "g", IF Flat(Cur0) THEN "zero" ELSE "h", NoUpgrade(Cur0), NoVote(Cur0)), txs |-> << >>] >>
        /\ op = << >> /\ res = << >>

N == Len(st)
Cand(v, q) ==
    LET p == Tip(st).h  u == Voted(p.ups, p.round + 1, v) IN
    [a |-> "given", txs |-> q,
     hdr |-> [round |-> p.round + 1, ts |-> Add(p.ts, One), gid |-> "g",
              gh |-> IF Flat(u.cur) THEN "zero" ELSE "h", ups |-> u, vote |-> v]]
Peer == /\ N < MaxBlocks
        /\ \E p \in { "none", IF Cur0 = "V13" THEN "V20" ELSE "V22" } \ {Tip(st).h.ups.cur}, y \in BOOLEAN, q \in Contents :
             /\ y = (p # "none" \/ (N = 2 /\ Tip(st).h.ups.next # "none"))
             /\ LET v == [propose |-> p, delay |-> 0, approve |-> y] IN
                ~ VoteErr(Tip(st).h.ups, N, v) /\ Do3(Cand(v, q))
Mine == N < MaxBlocks /\ \E q \in Contents \ {<< >>} : Do3([a |-> "own", txs |-> q])

Tell(i, w, j, f) == Do3([a |-> "audit", at |-> i, what |-> w, j |-> j, fix |-> f])
Honest == Tell(0, "nothing", 0, "none")
Forge ==
    \/ \E i \in 1 .. N, w \in Fields, f \in {"none", "all"} : Tell(i, w, 0, f)
    \/ \E i \in 2 .. N, w \in Edits, f \in {"none", "root", "all"} :
         \E j \in DOMAIN st[i].txs : (w = "swap" => j < Len(st[i].txs)) /\ Tell(i, w, j, f)
    \/ \E i \in 2 .. N, f \in {"none", "all"} : Tell(i, "cut", 0, f)
    \/ \E i \in 1 .. N, f \in {"none", "all"} : Tell(i, "again", 0, f)
    \/ \E i \in 2 .. N - 1, f \in {"none", "all"} : Tell(i, "exchange", 0, f)
    \/ \E i \in 1 .. N - 1 : Tell(i, "stop", 0, "none")
Claim == \E i \in 2 .. N : \E j, k, p \in DOMAIN st[i].txs, b \in 2 .. N :
            ~ Flat(st[i].h.ups.cur) /\ Do3([a |-> "receipt", i |-> i, j |-> j, k |-> k, p |-> p, b |-> b])
Next == Peer \/ Mine \/ Honest \/ Forge \/ Claim
Spec == Init /\ [][Next]_vars

(* another history is always found out, and the real one never accused *)
FoundOut == [][op'.a = "audit" => (res'.why = "none" <=> op'.what = "nothing")]_vars
(* by the very next block, unless everything after it was forged as well *)
Soon == [][(op'.a = "audit" /\ op'.fix # "all" /\ op'.what \in Fields \cup Edits) => res'.at \in {op'.at, op'.at + 1}]_vars
(* contents are told from what their own header says *)
OwnBlock == [][(op'.a = "audit" /\ op'.what \in Edits /\ op'.fix = "none") => res' = [at |-> op'.at, why |-> "contents"]]_vars
(* a receipt holds for its own entry, in its own place, in blocks with the same contents *)
Receipts == [][(op'.a = "receipt" /\ res'.accept) => /\ op'.p = op'.j /\ op'.k = op'.j
                                                    /\ st[op'.b].txs = st[op'.i].txs]_vars
Honored == [][(op'.a = "receipt" /\ op'.i = op'.b /\ op'.p = op'.j /\ op'.k = op'.j) => res'.accept]_vars
Grows == [][(op'.a \in {"own", "given"} /\ res'.ok) => /\ SubSeq(st', 1, N) = st
                                                       /\ Len(st') = N + 1 /\ Tip(st').txs = op'.txs]_vars
==============================================================================
