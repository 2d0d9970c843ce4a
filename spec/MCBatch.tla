------------------------------ MODULE MCBatch ------------------------------
EXTENDS Batch

CONSTANT Length

E(k, m, s) == [key |-> k, m |-> m, sig |-> s]
Entries == { E("k", "m", Sig("k", "m")), E("l", "n", Sig("l", "n")), E("k", "m", Sig("l", "m")), E("k", "m", Sig("k", "n")),
             E("l", "m", [k |-> "l", m |-> "m", bad |-> 5]) }
Ms(t, f) == [v |-> 1, t |-> t, subs |-> << [key |-> "k", sig |-> f[1]], [key |-> "l", sig |-> f[2]] >>]
Mss == { Ms(t, f) : t \in 1 .. 2, f \in { <<Sig("k", "m"), None>>, <<None, Sig("l", "m")>>, <<Sig("k", "m"), Sig("l", "m")>>, <<Sig("k", "m"), Sig("k", "m")>>, <<None, None>> } }

New == st # << >> /\ \E c \in {0, 1} : BDo([a |-> "new", cap |-> c])
Queue == Len(st) < Length /\ \E e \in Entries : BDo([a |-> "queue", e |-> e])
Multi == Len(st) < 2 /\ \E ms \in Mss, t \in 1 .. 2 : BDo([a |-> "msig", ms |-> ms, m |-> "m", addr |-> [v |-> 1, t |-> t, keys |-> <<"k", "l">>]])
Verify == BDo([a |-> "verify"])

Init == op = << >> /\ res = << >> /\ st = << >>
Next == New \/ Queue \/ Multi \/ Verify
Spec == Init /\ [][Next]_<<st, op>>

Exactly == [][op'.a = "verify" => (res'.ok <=> (Len(st) > 0 /\ Cardinality({ i \in DOMAIN st : Good(st[i]) }) = Len(st)))]_vars
Grows == [][op'.a \in {"queue", "msig"} => SubSeq(st', 1, Len(st)) = st]_vars
=============================================================================
