------------------------------- MODULE MCAsm -------------------------------
(***************************************************************************)
(* C03: in every upgrade state a chain can reach, the block a node         *)
(* assembles, and that it is acceptable.                                   *)
(***************************************************************************)
EXTENDS Chain

CONSTANTS Cur0, MaxRound

Ds == LET inc == P[st.ups.cur].incN IN
      { [zero |-> TRUE, neg |-> FALSE, by |-> 0] }
      \cup { [zero |-> FALSE, neg |-> FALSE, by |-> x] : x \in {0, 3, 1000} }
      \cup { [zero |-> FALSE, neg |-> TRUE, by |-> x] : x \in {1, inc, inc + 1, inc + 50, 1000000} \ {0} }

Hdr0 == [round |-> 0, ts |-> <<100>>, gid |-> "g", gh |-> "h", ups |-> NoUpgrade(Cur0)]
Init == st = Hdr0 /\ op = << >> /\ res = << >>

Cand(v) == [a |-> "check",
            hdr |-> [round |-> st.round + 1, branch |-> "ok", ts |-> st.ts, gid |-> "g", gh |-> "h",
                     vote |-> v, ups |-> Voted(st.ups, st.round + 1, v)]]
Peer == /\ st.round < MaxRound
        /\ \E p \in {"none", "V20", "V21", "V22"} \ {st.ups.cur}, d \in {0, 1, 2}, y \in BOOLEAN :
             LET v == [propose |-> p, delay |-> d, approve |-> y] IN
             ~VoteErr(st.ups, st.round + 1, v) /\ Do(Cand(v))
Assemble == \E d \in Ds : Do([a |-> "assemble", d |-> d, advance |-> FALSE])
Next == Peer \/ Assemble
Spec == Init /\ [][Next]_vars

(* what is assembled is what the successor rule accepts *)
Acceptable ==
    [][op'.a = "assemble" =>
         LET v == res'.vote IN
         /\ HeaderOk(st, [round |-> res'.round, branch |-> "ok", ts |-> st.ts, gid |-> st.gid, gh |-> st.gh,
                          vote |-> v, ups |-> res'.ups])
         /\ (v.propose # "none" => st.ups.next = "none" /\ v.propose \in DOMAIN P[st.ups.cur].approved)]_vars
=============================================================================
