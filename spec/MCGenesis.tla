------------------------------ MODULE MCGenesis ------------------------------
EXTENDS Genesis

CONSTANTS What, MaxRound

Around(p) ==
    LET up(x) == { x, SatAdd(x, One) } \cup (IF x = Zero THEN {} ELSE { Sub(x, One) })
    IN  { x \in up(Zero) \cup up(p.min) \cup up(p.interval) \cup up(SatMul(p.interval, <<2>>)) \cup up(SatAdd(p.min, p.interval))
          \cup up(SatAdd(p.min, SatMul(p.interval, <<7>>))) \cup up(U64MAX) : IsU64(x) }
Pools(v) == IF v \in DOMAIN P THEN { [k |-> "none"] } \cup { [k |-> "ok", b |-> x] : x \in Around(P[v]) } ELSE { [k |-> "ok", b |-> One] }
Vs == DOMAIN P \cup {"DeprecatedV2"}
Plain == \E v \in Vs, n \in {0, 3} : \E b \in Pools(v), ts \in { Zero, One, U64MAX }, h \in { "g1", "g2" } :
             Do([a |-> "create", proto |-> v, pool |-> b, others |-> n, ts |-> ts, gid |-> "net-" \o v, gh |-> h, sink |-> "sink", rp |-> "pool"])
Shared == \E v \in DOMAIN P : \E x \in {"sink", "zero"} :
             Do([a |-> "create", proto |-> v, pool |-> [k |-> "ok", b |-> U64MAX], others |-> 1, ts |-> One, gid |-> "x", gh |-> "g1", sink |-> x, rp |-> "sink"])
Rates == st = Fresh /\ (Plain \/ Shared)

Ds == { [zero |-> TRUE, neg |-> FALSE, by |-> 0] } \cup { [zero |-> FALSE, neg |-> n, by |-> k] : n \in BOOLEAN, k \in {0, 1, 25, 26, 100} }
Grow == \/ st.h = Nothing /\ \E v \in DOMAIN P :
               Do([a |-> "create", proto |-> v, pool |-> [k |-> "ok", b |-> <<0, 0, 1>>], others |-> 2, ts |-> Zero, gid |-> "net-v1", gh |-> "g1", sink |-> "sink", rp |-> "pool"])
        \/ st.h # Nothing /\ st.h.h.round < MaxRound /\ \E d \in Ds, adv \in BOOLEAN : Do([a |-> "assemble", d |-> d, advance |-> adv])

Gs == { [schema |-> "v1", network |-> "testnet", comment |-> "", proto |-> "V20", allocs |-> 0, rp |-> "pool", sink |-> "sink", ts |-> 0, dev |-> FALSE],
        [schema |-> "v1", network |-> "testnet", comment |-> "c", proto |-> "V20", allocs |-> 0, rp |-> "pool", sink |-> "sink", ts |-> 0, dev |-> FALSE],
        [schema |-> "", network |-> "testnet", comment |-> "", proto |-> "V20", allocs |-> 0, rp |-> "pool", sink |-> "sink", ts |-> 0, dev |-> FALSE],
        [schema |-> "v1", network |-> "", comment |-> "", proto |-> "V20", allocs |-> 0, rp |-> "pool", sink |-> "sink", ts |-> 0, dev |-> FALSE],
        [schema |-> "v1", network |-> "testnet", comment |-> "", proto |-> "V21", allocs |-> 0, rp |-> "pool", sink |-> "sink", ts |-> 0, dev |-> FALSE],
        [schema |-> "v1", network |-> "testnet", comment |-> "", proto |-> "V20", allocs |-> 1, rp |-> "pool", sink |-> "sink", ts |-> 0, dev |-> FALSE],
        [schema |-> "v1", network |-> "testnet", comment |-> "", proto |-> "V20", allocs |-> 5, rp |-> "pool", sink |-> "sink", ts |-> 0, dev |-> FALSE],
        [schema |-> "v1", network |-> "testnet", comment |-> "", proto |-> "V20", allocs |-> 0, rp |-> "sink", sink |-> "pool", ts |-> 0, dev |-> FALSE],
        [schema |-> "v1", network |-> "testnet", comment |-> "", proto |-> "V20", allocs |-> 0, rp |-> "pool", sink |-> "sink", ts |-> 1, dev |-> FALSE],
        [schema |-> "v1", network |-> "testnet", comment |-> "", proto |-> "V20", allocs |-> 0, rp |-> "pool", sink |-> "sink", ts |-> 0, dev |-> TRUE] }
Files == \/ \E g \in Gs : Len(st.seen) < 2 /\ Do([a |-> "write", g |-> g])
         \/ \E k \in 0 .. 7 : Do([a |-> "spoil", k |-> k])
         \/ \E x \in {"remove", "load"} : Do([a |-> x])

Init == op = << >> /\ res = << >> /\ st = Fresh
Next == CASE What = "rates" -> Rates [] What = "grow" -> Grow [] What = "files" -> Files
Spec == Init /\ [][Next]_<<st, op>>

(* the pool is neither overspent nor left idle over the first interval, and keeps its minimum where it must *)
Sound == [][(op'.a = "create" /\ res'.ok) =>
    LET p == P[op'.proto]
        pool == IF op'.pool.k = "none" THEN Zero ELSE op'.pool.b
        spent == Mul(res'.rate, p.interval)
    IN  /\ Le(spent, pool)
        /\ (p.keep /\ spent # Zero => Le(Add(spent, p.min), pool))
        /\ Gt(Add(spent, p.interval), Available(p, pool))]_vars
(* the block a node assembles on it is acceptable *)
Accepted == [][op'.a = "assemble" => res'.chk.ok = "ok" /\ res'.round = st.h.h.round + 1]_vars
(* configurations that differ have different hashes *)
Apart == [][(op'.a = "load" /\ res'.ok) => \A i \in DOMAIN st.seen : (i = res'.hash) <=> (st.seen[i] = st.file.g)]_vars
=============================================================================
