-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* A chain of block headers: protocol upgrade voting, the rules a          *)
(* successor must satisfy, and the block a node assembles itself.          *)
(*                                                                         *)
(* st is the last accepted header, reduced to what the rules look at:      *)
(*   round, ts (a Big), gid, gh ("zero": unset),                           *)
(*   ups = [cur, next, appr, before, switch]                               *)
(* In a vote, propose = "none" means no proposal.                          *)
(***************************************************************************)
EXTENDS SM, Integers, Big, ChainParams

Versions == DOMAIN P                 \* the versions this node supports
NoUpgrade(c) == [cur |-> c, next |-> "none", appr |-> 0, before |-> 0, switch |-> 0]

---------------------------------------------------------------------------
(* Voting *)

Wait(p, d) == IF d = 0 THEN p.defWait ELSE d

VoteErr(u, r, v) ==
    LET p == P[u.cur] IN
    \/ v.propose # "none" /\ (u.next # "none" \/ v.delay < p.minWait \/ v.delay > p.maxWait)
    \/ v.propose = "none" /\ v.delay # 0
    \/ v.approve /\ v.propose = "none" /\ u.next = "none"
    \/ v.approve /\ v.propose = "none" /\ u.next # "none" /\ r >= u.before
    \/ v.approve /\ v.propose # "none" /\ p.voteRounds = 0
    \* a header that follows nothing may announce a switch to no protocol
    \/ v.propose = "none" /\ u.next = "none" /\ r = u.switch /\ ~(r = u.before /\ u.appr < p.threshold)

Proposed(u, r, v) ==
    LET p == P[u.cur] IN
    IF v.propose = "none" THEN u
    ELSE [u EXCEPT !.next = v.propose, !.appr = 0, !.before = r + p.voteRounds,
                   !.switch = r + p.voteRounds + Wait(p, v.delay)]
Approved(u, v) == IF v.approve THEN [u EXCEPT !.appr = @ + 1] ELSE u
Expired(u, r, thr) == IF r = u.before /\ u.appr < thr THEN NoUpgrade(u.cur) ELSE u
Switched(u, r) == IF r = u.switch /\ u.next # "none" THEN NoUpgrade(u.next) ELSE u

(* the upgrade state after a block at round r carrying vote v *)
Voted(u, r, v) == Switched(Expired(Approved(Proposed(u, r, v), v), r, P[u.cur].threshold), r)

---------------------------------------------------------------------------
(* Successor headers *)

HeaderOk(s, h) ==
    /\ h.ups.cur \in Versions /\ s.ups.cur \in Versions
    /\ h.round = s.round + 1
    /\ h.branch = "ok"
    /\ ~VoteErr(s.ups, h.round, h.vote)
    /\ h.ups = Voted(s.ups, h.round, h.vote)
    /\ s.ts # Zero => /\ Ge(h.ts, s.ts)
                      /\ Le(h.ts, Add(s.ts, P[h.ups.cur].inc))
    /\ h.gid # ""
    /\ s.gid # "" => h.gid = s.gid
    /\ IF P[h.ups.cur].supGH
       THEN h.gh # "zero" /\ (s.gh # "zero" => h.gh = s.gh)
       ELSE h.gh = "zero"

HeaderState(h) == [round |-> h.round, ts |-> h.ts, gid |-> h.gid, gh |-> h.gh, ups |-> h.ups]

(* far: a number of the header is off by a power of two on top of h (numbers  *)
(* here are small); no such header extends the chain                       *)
Far(o) == "far" \in DOMAIN o /\ o.far.f # "none"
CheckOut(s, h, far) ==
    LET ok == ~far /\ HeaderOk(s, h)
        v  == IF ok THEN "ok" ELSE "err"
    IN  Out(IF ok THEN HeaderState(h) ELSE s, [ok |-> v, again |-> v, pure |-> TRUE])

---------------------------------------------------------------------------
(* The announced next version *)

NextVer(s) ==
    IF s.round >= s.ups.before /\ s.round < s.ups.switch
    THEN [ver |-> s.ups.next, round |-> s.ups.switch, sup |-> s.ups.next \in Versions]
    ELSE [ver |-> s.ups.cur, round |-> s.round + 1, sup |-> s.ups.cur \in Versions]

---------------------------------------------------------------------------
(* Self-assembled blocks.  o.d is the parent's timestamp minus the wall     *)
(* clock, in seconds, or "zero"; td is the same of the assembled block.    *)

OwnVotes(s) ==
    LET u == s.ups  r == s.round + 1  ap == P[u.cur].approved IN
    IF u.next = "none"
    THEN IF DOMAIN ap = {} THEN { [propose |-> "none", delay |-> 0, approve |-> FALSE] }
         ELSE { [propose |-> v, delay |-> ap[v], approve |-> TRUE] : v \in DOMAIN ap }
    ELSE { [propose |-> "none", delay |-> 0, approve |-> (r < u.before /\ u.next \in DOMAIN ap)] }

Clamp(d, lo, hi) == IF d < lo THEN lo ELSE IF d > hi THEN hi ELSE d

AssembleOut(s, o) ==
    { LET u  == Voted(s.ups, s.round + 1, v)
          td == IF o.d.zero THEN 0
                ELSE IF o.d.neg THEN -(IF o.d.by <= P[u.cur].incN THEN 0 ELSE o.d.by - P[u.cur].incN)
                ELSE o.d.by
      IN [st  |-> s,
          res |-> [round |-> s.round + 1, vote |-> v, ups |-> u, td |-> td,
                   gen |-> TRUE, special |-> TRUE, empty |-> TRUE, pure |-> TRUE,
                   chk |-> [ok |-> "ok", again |-> "ok", pure |-> TRUE]]] : v \in OwnVotes(s) }
(* with o.advance, the assembled block becomes the last accepted one *)
AssembleNext(s, x) == [x EXCEPT !.st = [s EXCEPT !.round = @ + 1, !.ups = x.res.ups]]

---------------------------------------------------------------------------
Outcomes(s, o) ==
    CASE o.a = "check"    -> CheckOut(s, o.hdr, Far(o))
      [] o.a = "nextver"  -> Out(s, NextVer(s))
      [] o.a = "assemble" -> IF o.advance THEN { AssembleNext(s, x) : x \in AssembleOut(s, o) }
                                          ELSE AssembleOut(s, o)

Start(o) == HeaderState(o.hdr)

Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
