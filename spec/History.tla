------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* A chain of whole blocks, from genesis, and what somebody who trusts     *)
(* only the digest of its last block can be told about it.                 *)
(*                                                                         *)
(* st is the chain: a list of [h, txs].  h is a header: round, ts, gid,    *)
(* gh, ups, vote, root (what the contents were committed to) and misc (the *)
(* fields no rule of this module looks at).  The digest of a block stands  *)
(* for all headers up to and including its own: it is modelled as the      *)
(* list of them.                                                           *)
(*                                                                         *)
(* A transaction is [kind, id, grp, own]; own: it names its genesis.       *)
(***************************************************************************)
EXTENDS Chain

Flat(v) == v = "V13"                          \* how contents are committed to
Req(v) == ~ Flat(v)                           \* whether every transaction is tied to the genesis hash

(* what a header commits to when its block contains txs: the entries, and, in a tree, what they mean in this chain *)
Root(h, txs) ==
    IF Flat(h.ups.cur) THEN [entries |-> txs, gid |-> "", gh |-> ""]
    ELSE [entries |-> txs,
          gid |-> IF \E i \in DOMAIN txs : txs[i].own THEN h.gid ELSE "",
          gh |-> IF txs # << >> THEN h.gh ELSE ""]

(* groups, as lists of ids *)
RECURSIVE GroupFrom(_, _)
GroupFrom(txs, i) ==
    IF i > Len(txs) THEN << >>
    ELSE LET n == IF txs[i].grp = "zero" THEN i
                  ELSE CHOOSE k \in i .. Len(txs) : /\ \A m \in i .. k : txs[m].grp = txs[i].grp
                                                    /\ k = Len(txs) \/ txs[k + 1].grp # txs[i].grp
         IN  <<[ k \in 1 .. n - i + 1 |-> txs[i + k - 1].id ]>> \o GroupFrom(txs, n + 1)

Header(round, ts, gid, gh, ups, vote) ==
    [round |-> round, ts |-> ts, gid |-> gid, gh |-> gh, ups |-> ups, vote |-> vote, misc |-> "", root |-> [entries |-> << >>, gid |-> "", gh |-> ""]]
Block(h, txs) == [h |-> [h EXCEPT !.root = Root(h, txs)], txs |-> txs]

NoVote(cur) == [propose |-> cur, delay |-> 0, approve |-> FALSE]
(* in a header, a vote for the protocol in force is no proposal *)
AsVote(v, cur) == IF v.propose = cur THEN [v EXCEPT !.propose = "none"] ELSE v
Raw(v, cur) == IF v.propose = "none" THEN [v EXCEPT !.propose = cur] ELSE v

(* the rules for successors, apart from the link *)
Follows(p, h) == HeaderOk(p, [round |-> h.round, branch |-> "ok", ts |-> h.ts, gid |-> h.gid, gh |-> h.gh,
                              vote |-> AsVote(h.vote, p.ups.cur), ups |-> h.ups])

Tip(s) == s[Len(s)]

----------------------------------------------------------- (* adding blocks *)
(* a block some other node made: accepted if it follows *)
Given(s, o) ==
    LET p == Tip(s).h
        h == Header(o.hdr.round, o.hdr.ts, o.hdr.gid, o.hdr.gh, o.hdr.ups, Raw(o.hdr.vote, p.ups.cur))
        ok == Follows(p, h)
    IN  Out(IF ok THEN Append(s, Block(h, o.txs)) ELSE s,
            [ok |-> ok, groups |-> GroupFrom(o.txs, 1), round |-> h.round, cur |-> h.ups.cur])
(* a block this node makes, long after the last one *)
Own(s, o) ==
    LET p == Tip(s).h IN
    { LET u == Voted(p.ups, p.round + 1, v)
          h == Header(p.round + 1, Add(p.ts, P[u.cur].inc), p.gid, p.gh, u, Raw(v, p.ups.cur))
          ok == Follows(p, h)        \* not when genesis hashes come into use: somebody has to name one first
      IN  [st |-> IF ok THEN Append(s, Block(h, o.txs)) ELSE s,
           res |-> [ok |-> ok, groups |-> GroupFrom(o.txs, 1), round |-> h.round, cur |-> u.cur]] : v \in OwnVotes(p) }

------------------------------------------------------------------ (* audit *)
(* T: a claimed chain, a list of [h, txs, br] where br is the digest named as the previous one *)
Claimed(s) == [ i \in DOMAIN s |-> [h |-> s[i].h, txs |-> s[i].txs, br |-> [ k \in 1 .. i - 1 |-> s[k].h ]] ]
DigestAt(T, i) == Append(T[i].br, T[i].h)
Relinked(T, from) ==
    LET f[i \in 1 .. Len(T)] == IF i <= from \/ i = 1 THEN T[i] ELSE [T[i] EXCEPT !.br = Append(f[i - 1].br, f[i - 1].h)]
    IN  [ i \in 1 .. Len(T) |-> f[i] ]

Flip(n) == IF n % 2 = 0 THEN n + 1 ELSE n - 1
FlipB(x) == IF Mod(x, BigOfNat(2)) = Zero THEN Add(x, One) ELSE Sub(x, One)
Other(v) == IF v = "V22" THEN "V21" ELSE "V22"
Alter(b, f) ==
    LET h == b.h IN
    CASE f = "branch"       -> [b EXCEPT !.br = IF b.br = << >> THEN <<h>> ELSE << >>]
      [] f = "round"        -> [b EXCEPT !.h.round = Flip(@)]
      [] f = "timestamp"    -> [b EXCEPT !.h.ts = FlipB(@)]
      [] f = "genesis_id"   -> [b EXCEPT !.h.gid = @ \o "x"]
      [] f = "genesis_hash" -> [b EXCEPT !.h.gh = @ \o "x"]
      [] f = "ups_cur"      -> [b EXCEPT !.h.ups.cur = Other(@)]
      [] f = "ups_next"     -> [b EXCEPT !.h.ups.next = IF @ = "none" THEN "V21" ELSE "none"]
      [] f = "ups_appr"     -> [b EXCEPT !.h.ups.appr = Flip(@)]
      [] f = "ups_before"   -> [b EXCEPT !.h.ups.before = Flip(@)]
      [] f = "ups_switch"   -> [b EXCEPT !.h.ups.switch = Flip(@)]
      [] f = "vote_propose" -> [b EXCEPT !.h.vote.propose = Other(@)]
      [] f = "vote_delay"   -> [b EXCEPT !.h.vote.delay = Flip(@)]
      [] f = "vote_approve" -> [b EXCEPT !.h.vote.approve = ~ @]
      [] f = "tx_root"      -> [b EXCEPT !.h.root.gid = @ \o "x"]
      [] OTHER              -> [b EXCEPT !.h.misc = f]
Fields == {"branch", "round", "timestamp", "genesis_id", "genesis_hash", "ups_cur", "ups_next", "ups_appr", "ups_before",
           "ups_switch", "vote_propose", "vote_delay", "vote_approve", "tx_root",
           "seed", "fee_sink", "rewards_pool", "rewards_level", "rewards_rate", "rewards_residue", "rewards_recalc",
           "tx_counter", "compact_certs"}

(* contents: the j-th transaction is dropped, repeated, swapped with the next, or altered in one way *)
Ways == {"amount", "signature", "applied", "flag"}
Entry(x, w) == [x EXCEPT !.kind = @ \o "/" \o w]
Edit(q, j, w) ==
    CASE w = "drop"   -> SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
      [] w = "repeat" -> SubSeq(q, 1, j) \o SubSeq(q, j, Len(q))
      [] w = "swap"   -> [q EXCEPT ![j] = q[j + 1], ![j + 1] = q[j]]
      [] OTHER        -> [q EXCEPT ![j] = Entry(@, w)]
Edits == {"drop", "repeat", "swap"} \cup Ways
(* a header cannot commit to entries that cannot be read *)
Unreadable(b, w) == w = "flag" /\ Req(b.h.ups.cur)

(* whole blocks: one left out, one twice, two in the other order, all after one left out *)
Blocks == {"cut", "again", "exchange", "stop"}

Tampered(s, o) ==
    LET T == Claimed(s)  i == o.at  n == Len(T) IN
    CASE o.what = "nothing"   -> T
      [] o.what = "cut"       -> SubSeq(T, 1, i - 1) \o SubSeq(T, i + 1, n)
      [] o.what = "again"     -> SubSeq(T, 1, i) \o SubSeq(T, i, n)
      [] o.what = "exchange"  -> [T EXCEPT ![i] = T[i + 1], ![i + 1] = T[i]]
      [] o.what = "stop"      -> SubSeq(T, 1, i)
      [] o.what \in Edits     ->
            LET q == Edit(T[i].txs, o.j, o.what) IN
            [T EXCEPT ![i] = [h |-> IF o.fix = "none" \/ Unreadable(T[i], o.what) THEN T[i].h ELSE [T[i].h EXCEPT !.root = Root(T[i].h, q)],
                              txs |-> q, br |-> T[i].br]]
      [] OTHER                -> [T EXCEPT ![i] = Alter(@, o.what)]
(* with fix = "all" everything later is made to point to what now precedes it *)
Story(s, o) == IF o.fix = "all" THEN Relinked(Tampered(s, o), IF o.what \in Blocks THEN 1 ELSE o.at) ELSE Tampered(s, o)

(* what an auditor who trusts the digest d finds first *)
Wrong(T, i) ==
    IF i > 1 /\ ~ (T[i].br = DigestAt(T, i - 1) /\ Follows(T[i - 1].h, T[i].h)) THEN "link"
    ELSE IF i > 1 /\ T[i].h.root # Root(T[i].h, T[i].txs) THEN "contents"
    ELSE "none"
Audit(T, d) ==
    LET bad == { i \in DOMAIN T : Wrong(T, i) # "none" } IN
    IF bad # {} THEN LET i == CHOOSE x \in bad : \A y \in bad : x <= y IN [at |-> i, why |-> Wrong(T, i)]
    ELSE IF DigestAt(T, Len(T)) # d THEN [at |-> Len(T), why |-> "digest"]
    ELSE [at |-> 0, why |-> "none"]
Trusted(s) == [ i \in DOMAIN s |-> s[i].h ]

----------------------------------------------------------------- (* receipts *)
(* the proof for entry j of block i, to claim that entry k of block i is at position p of block b *)
Receipt(s, o) ==
    /\ ~ Flat(s[o.b].h.ups.cur)
    /\ s[o.b].h.root = s[o.i].h.root
    /\ o.p = o.j
    /\ s[o.i].txs[o.k] = s[o.i].txs[o.j]

Outcomes3(s, o) ==
    CASE o.a = "given"   -> Given(s, o)
      [] o.a = "own"     -> Own(s, o)
      [] o.a = "audit"   -> Out(s, Audit(Story(s, o), Trusted(s)))
      [] o.a = "receipt" -> Out(s, [accept |-> Receipt(s, o)])

Start3(o) == << [h |-> Header(0, o.hdr.ts, o.hdr.gid, o.hdr.gh, NoUpgrade(o.hdr.ups.cur), NoVote(o.hdr.ups.cur)), txs |-> << >>] >>

Do3(o) == \E x \in Outcomes3(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
