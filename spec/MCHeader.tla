------------------------------ MODULE MCHeader ------------------------------
(***************************************************************************)
(* C02: for a set of previous headers, the valid successors and everything *)
(* that differs from one of them in one respect (any respect of the rules).*)
(***************************************************************************)
EXTENDS Chain

U64 == U64MAX
UpsOf(c) == { NoUpgrade(c),
              [cur |-> c, next |-> "V21", appr |-> 1, before |-> 9, switch |-> 12],
              [cur |-> c, next |-> "V22", appr |-> 5, before |-> 5, switch |-> 8],
              [cur |-> c, next |-> "V22", appr |-> 4, before |-> 7, switch |-> 9] }
Timestamps == { Zero, <<100>>, Sub(U64, <<10>>), U64 }

Prevs ==
    [round : {7}, ts : Timestamps, gid : {"", "g"}, gh : {"zero", "h"},
     ups : UNION { UpsOf(c) : c \in {"V20", "V22"} }]
    \cup [round : {0}, ts : {<<100>>}, gid : {"g"}, gh : {"h", "zero"}, ups : { NoUpgrade("V13"), NoUpgrade("V20") }]
    \cup [round : {7}, ts : {<<100>>}, gid : {"g"}, gh : {"zero"}, ups : UpsOf("V13")]
    \cup [round : {7}, ts : {Zero, U64}, gid : {"g"}, gh : {"h"}, ups : UpsOf("V19")]
    \cup [round : {7}, ts : {<<100>>}, gid : {"g"}, gh : {"h"}, ups : UpsOf("DeprecatedV3")]

Votes(s) ==
    { [propose |-> "none", delay |-> 0, approve |-> FALSE],
      [propose |-> "none", delay |-> 0, approve |-> TRUE],
      [propose |-> "none", delay |-> 1, approve |-> FALSE],
      [propose |-> "V21", delay |-> 1, approve |-> TRUE],
      [propose |-> "V21", delay |-> 0, approve |-> FALSE],
      [propose |-> "DeprecatedV3", delay |-> 2, approve |-> TRUE],
      [propose |-> "V21", delay |-> 99, approve |-> TRUE] }

Known(u) == u.cur \in Versions
UpsAfter(s, v) == IF Known(s.ups) THEN Voted(s.ups, s.round + 1, v) ELSE s.ups
Inc(u) == IF Known(u) THEN P[u.cur].inc ELSE Zero
CapB(b) == MinB(b, U64)

Good(s, v) ==
    LET u == UpsAfter(s, v) IN
    [round |-> s.round + 1, branch |-> "ok",
     ts |-> IF s.ts = Zero THEN <<7>> ELSE s.ts,
     gid |-> IF s.gid = "" THEN "g" ELSE s.gid,
     gh |-> IF Known(u) /\ ~P[u.cur].supGH THEN "zero" ELSE IF s.gh = "zero" THEN "h" ELSE s.gh,
     vote |-> v, ups |-> u]

Branches == { "zero", "grandparent", "round", "branch", "seed", "tx_root", "timestamp", "genesis_id",
  "genesis_hash", "fee_sink", "rewards_pool", "rewards_level", "rewards_rate", "rewards_residue",
  "rewards_recalc", "ups_cur", "ups_next", "ups_appr", "ups_before", "ups_switch", "vote_propose",
  "vote_delay", "vote_approve", "tx_counter", "compact_certs" }

OtherUps(u) ==
    { [u EXCEPT !.cur = c] : c \in {"V21", "V22", "V20", "DeprecatedV3"} }
    \cup { [u EXCEPT !.next = c] : c \in {"none", "V20", "V21"} }
    \cup { [u EXCEPT !.appr = @ + 1], [u EXCEPT !.before = @ + 1], [u EXCEPT !.switch = @ + 1], NoUpgrade(u.cur) }

Deviations(s, g) ==
    {g}
    \cup { [g EXCEPT !.round = r] : r \in {s.round, s.round + 2, 0, 1000000} }
    \cup { [g EXCEPT !.branch = b] : b \in Branches }
    \cup { [g EXCEPT !.ts = t] : t \in { Zero, CapB(Add(s.ts, One)), MonusB(s.ts, One), CapB(Add(s.ts, Inc(g.ups))),
                                         CapB(Add(Add(s.ts, Inc(g.ups)), One)), CapB(Add(s.ts, Inc(s.ups))),
                                         CapB(Add(Add(s.ts, Inc(s.ups)), One)), U64 } }
    \cup { [g EXCEPT !.gid = x] : x \in {"", "g", "other", "G", "gg", "g ", " "} }
    \cup { [g EXCEPT !.gh = x] : x \in {"zero", "h", "other"} }
    \cup { [g EXCEPT !.ups = x] : x \in OtherUps(g.ups) }

Init == st \in Prevs /\ op = << >> /\ res = << >>
First == op = << >>
Check == /\ First
         /\ \E v \in Votes(st) : \E h \in Deviations(st, Good(st, v)) : Do([a |-> "check", hdr |-> h])
Next == Check
Spec == Init /\ [][Next]_vars
FullView == IF First THEN <<st, 0>> ELSE <<st, 1>>

(* accepted headers extend the chain by one round, never turn time back, keep the identity *)
Extends ==
    [][res'.ok = "ok" =>
         /\ st'.round = st.round + 1
         /\ (st.ts # Zero => Le(st.ts, st'.ts))
         /\ (st.gid # "" => st'.gid = st.gid)
         /\ (st.gh # "zero" /\ st'.gh # "zero" => st'.gh = st.gh)
         /\ op'.hdr.branch = "ok"]_vars
Refused == [][res'.ok # "ok" => st' = st]_vars
=============================================================================
