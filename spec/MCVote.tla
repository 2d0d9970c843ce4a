------------------------------- MODULE MCVote -------------------------------
(***************************************************************************)
(* C01: every chain of accepted blocks up to a length, with every vote a   *)
(* proposer can cast, the history of the pending proposal kept on the side.*)
(***************************************************************************)
EXTENDS Chain

CONSTANTS Cur0, Proposals, MaxDelay, MaxRound

(* hist: when the pending proposal was made, with which delay, and who     *)
(* approved it -- independent of the bookkeeping in st.ups                 *)
VARIABLE hist
NoHist == [at |-> 0, delay |-> 0, over |-> "none", yes |-> {}]

Hdr0 == [round |-> 0, ts |-> <<100>>, gid |-> "g", gh |-> "h", ups |-> NoUpgrade(Cur0)]

Init == st = Hdr0 /\ op = << >> /\ res = << >> /\ hist = NoHist

Cand(v) == [a |-> "check",
            hdr |-> [round |-> st.round + 1, branch |-> "ok", ts |-> st.ts, gid |-> "g", gh |-> "h",
                     vote |-> v, ups |-> Voted(st.ups, st.round + 1, v)]]

Vote(v) ==
    /\ st.round < MaxRound
    /\ Do(Cand(v))
    /\ hist' = IF res'.ok # "ok" THEN hist
               ELSE IF v.propose # "none"
               THEN (IF st'.ups.next = "none" THEN NoHist
                     ELSE [at |-> st'.round, delay |-> v.delay, over |-> st.ups.cur,
                           yes |-> IF v.approve THEN {st'.round} ELSE {}])
               ELSE IF st'.ups.next = "none" THEN NoHist
               ELSE IF v.approve THEN [hist EXCEPT !.yes = @ \cup {st'.round}] ELSE hist

Propose == \E p \in Proposals \ {st.ups.cur}, d \in 0 .. MaxDelay, y \in BOOLEAN :
              Vote([propose |-> p, delay |-> d, approve |-> y])
Approve == \E d \in 0 .. 1 : Vote([propose |-> "none", delay |-> d, approve |-> TRUE])
Abstain == \E d \in 0 .. 1 : Vote([propose |-> "none", delay |-> d, approve |-> FALSE])
Announce == Do([a |-> "nextver"]) /\ UNCHANGED hist

Next == Propose \/ Approve \/ Abstain \/ Announce
Spec == Init /\ [][Next]_<<st, op, res, hist>>

HView == <<st, hist>>

U == st.ups
Pending == U.next # "none"
(* the bookkeeping agrees with what really happened *)
Bookkeeping ==
    /\ (Pending <=> hist.at # 0)
    /\ Pending => /\ U.appr = Cardinality(hist.yes)
                  /\ \A r \in hist.yes : hist.at <= r /\ r < U.before
                  /\ hist.over = U.cur
                  /\ U.before = hist.at + P[U.cur].voteRounds
                  /\ U.switch = U.before + Wait(P[U.cur], hist.delay)
                  /\ P[U.cur].minWait <= hist.delay /\ hist.delay <= P[U.cur].maxWait
                  /\ st.round < U.switch
                  /\ (st.round >= U.before => Cardinality(hist.yes) >= P[U.cur].threshold)
    /\ ~Pending => U = NoUpgrade(U.cur)

(* the protocol changes only to the pending proposal, at the round fixed   *)
(* when it was proposed, with enough approvals from before the deadline    *)
SwitchRule ==
    [][st'.ups.cur # st.ups.cur =>
         LET v == op'.hdr.vote
             own == v.propose # "none"       \* proposed and (with empty windows) adopted at once
             at == IF own THEN st'.round ELSE hist.at
             d  == IF own THEN v.delay ELSE hist.delay
             yes == (IF own THEN {} ELSE hist.yes) \cup (IF v.approve THEN {st'.round} ELSE {})
         IN  /\ st'.ups.cur = IF own THEN v.propose ELSE st.ups.next
             /\ own => ~Pending
             /\ st'.round = at + P[st.ups.cur].voteRounds + Wait(P[st.ups.cur], d)
             /\ Cardinality({ r \in yes : r < at + P[st.ups.cur].voteRounds }) >= P[st.ups.cur].threshold
             /\ st'.ups = NoUpgrade(st'.ups.cur)]_<<st, hist>>

(* a proposal disappears only by being adopted, or short of votes at its deadline *)
DropRule ==
    [][(Pending /\ st'.ups.next # st.ups.next) =>
         \/ st'.ups.cur = st.ups.next /\ st'.round = st.ups.switch
         \/ st'.round = st.ups.before /\ Cardinality(hist.yes) < P[st.ups.cur].threshold]_<<st, hist>>

Agreed == LET n == NextVer(st) IN
    /\ n.ver # "none"
    /\ n.ver # U.cur => Pending /\ n.ver = U.next /\ U.appr >= P[U.cur].threshold /\ n.round = U.switch
    /\ n.ver = U.cur => n.round = st.round + 1
=============================================================================
