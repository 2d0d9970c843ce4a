----------------------------- MODULE MCMultisig -----------------------------
EXTENDS Multisig

CONSTANT What, Size

K == {"k", "l"}
Lists(n) == UNION { [1 .. i -> K] : i \in 0 .. n }
Bad(k) == [k |-> k, m |-> "m", bad |-> 300]
OtherKey(k) == IF k = "k" THEN "l" ELSE "k"
SigsOf(k) == { None, Sig(k, "m"), Sig(OtherKey(k), "m"), Sig(k, "n"), Bad(k) }
FewOf(k) == { None, Sig(k, "m"), Bad(k) }
Combos(ks, F(_)) == { f \in [DOMAIN ks -> UNION { F(k) : k \in K }] : \A i \in DOMAIN ks : f[i] \in F(ks[i]) }
Make(v, t, ks, f) == [v |-> v, t |-> t, subs |-> [ i \in DOMAIN ks |-> [key |-> ks[i], sig |-> f[i]] ]]

Full == { Make(v, t, ks, f) : v \in {1}, t \in 1 .. 2, ks \in {<<"k", "l">>}, f \in Combos(<<"k", "l">>, SigsOf) }
Small == UNION { { Make(1, t, ks, f) : t \in 1 .. Size, f \in Combos(ks, FewOf) } : ks \in [1 .. Size -> K] }
Odd == UNION { { Make(v, t, ks, [ i \in DOMAIN ks |-> Sig(ks[i], "m") ]) : v \in 0 .. 2, t \in 0 .. 4 } : ks \in Lists(3) }

Pool == { Make(v, t, ks, f) : v \in {1}, t \in {2}, ks \in {<<"k", "l">>, <<"k", "k">>}, f \in [1 .. 2 -> {None, Sig("k", "m"), Sig("l", "m"), Bad("k")}] }
        \cup { Make(2, 2, <<"k", "l">>, <<None, Sig("l", "m")>>), Make(1, 1, <<"k", "l">>, <<None, Sig("l", "m")>>), Make(1, 2, <<"k">>, <<None>>),
               Make(1, 2, <<"k", "l", "l">>, <<None, Sig("l", "m"), None>>), Make(1, 2, <<"l", "k">>, <<None, Sig("k", "m")>>), NoMs }
Mid == { x \in Pool : Keys(x) # <<"k", "k">> /\ (Len(x.subs) = 2 => (x.subs[1].sig # Sig("l", "m") /\ x.subs[2].sig # Sig("k", "m"))) }

SetTo == \E ms \in (IF What = "verify" THEN Full \cup Small \cup Odd ELSE Pool) : st = NoMs /\ ms # NoMs /\ Do([a |-> "set", ms |-> ms])
Verify == st # NoMs /\ \E m \in {"m", "n"} :
    \/ Do([a |-> "verify", m |-> m, addr |-> Address(st)])
    \/ st \in Full /\ \E ad \in { [v |-> 1, t |-> t, keys |-> ks] : t \in 1 .. 2, ks \in { <<"k", "l">>, <<"l", "k">>, <<"k", "l", "l">>, <<"k", "k">> } } \cup { [v |-> 2, t |-> 1, keys |-> <<"k", "l">>] } :
          ad # Address(st) /\ Do([a |-> "verify", m |-> m, addr |-> ad])
Addr == st = NoMs /\ \E v \in {0, 1, 2, 255}, t \in {0, 1, 2, 3, 4, 255}, ks \in Lists(3) : Do([a |-> "addr", v |-> v, t |-> t, keys |-> ks])
Sign == st = NoMs /\ \E v \in {1, 2}, t \in 1 .. 3, ks \in { <<"k">>, <<"k", "l">>, <<"l", "k">>, <<"k", "k">>, <<"l", "l">>, <<"k", "l", "k">> }, key \in K, m \in {"m", "n"} :
    \E ad \in { [v |-> v, t |-> t, keys |-> ks], [v |-> 1, t |-> 1, keys |-> <<"k", "l">>] } :
    Do([a |-> "sign", v |-> v, t |-> t, keys |-> ks, key |-> key, m |-> m, addr |-> ad])

Merge == \E ms \in Pool, f \in BOOLEAN : Do([a |-> "merge", ms |-> ms, first |-> f])
Add == Do([a |-> "add", with |-> << >>]) \/ \E x \in Pool : Do([a |-> "add", with |-> <<x>>]) \/ (st \in Mid /\ x \in Mid /\ \E y \in Mid : Do([a |-> "add", with |-> <<x, y>>]))
Assemble == \/ Do([a |-> "assemble", with |-> << >>, self |-> 1])
            \/ \E x \in Pool, n \in 1 .. 2 : Do([a |-> "assemble", with |-> <<x>>, self |-> n])
            \/ st \in Mid /\ \E x, y \in Mid : Do([a |-> "assemble", with |-> <<x, y>>, self |-> 2])
            \/ st = NoMs /\ (Do([a |-> "assemble", with |-> << >>, self |-> 0]) \/ \E x \in Mid : Do([a |-> "assemble", with |-> <<x>>, self |-> 0]))

Init == op = << >> /\ res = << >> /\ st = NoMs
Next == IF What = "verify" THEN SetTo \/ Verify \/ Addr \/ Sign
        ELSE SetTo \/ (st # NoMs /\ (Merge \/ Add \/ Assemble)) \/ (st = NoMs /\ Assemble /\ op'.self = 0)
Spec == Init /\ [][Next]_<<st, op>>

(***************************************************************************)
(* An accepted multisignature has at least threshold keys' places signed   *)
(***************************************************************************)
Sound == [][op'.a = "verify" => (res'.ok => \E P \in SUBSET DOMAIN st.subs :
             /\ Cardinality(P) >= st.t /\ st.t >= 1 /\ st.v = 1
             /\ \A i \in P : st.subs[i].sig = Sig(st.subs[i].key, op'.m)
             /\ \A i \in DOMAIN st.subs \ P : st.subs[i].sig = None)]_vars
(* contributions keep everything and add nothing *)
Exact == [][op'.a \in {"add", "merge", "assemble"} /\ res'.ok =>
             LET q == IF op'.a = "add" THEN <<st>> \o op'.with ELSE IF op'.a = "merge" THEN <<st, op'.ms>> ELSE IF op'.self = 0 THEN op'.with ELSE op'.with \o <<st>>
             IN  /\ Keys(st') = Keys(q[1]) /\ st'.t = q[1].t /\ st'.v = q[1].v
                 /\ \A i \in DOMAIN st'.subs : IF Given(q, i) = {} THEN At(st', i) = None ELSE At(st', i) \in Given(q, i)
                 /\ op'.a # "assemble" => \A i \in DOMAIN st'.subs : Given(q, i) \subseteq {At(st', i)}]_vars
(* without conflicts the order of contributions does not matter *)
AnyOrder == \A x, y \in Mid : st \in Mid /\ AllMatch(<<st, x, y>>) /\ ~ Conflict(<<st, x, y>>) =>
             Union(<<st, x, y>>) = Union(<<y, st, x>>) /\ Union(<<st, x, y>>) = Union(<<Union(<<y, x>>), st>>)
(* addresses are distinct for distinct descriptions: what is hashed is unambiguous *)
RECURSIVE Flat(_)
Flat(ks) == IF ks = << >> THEN << >> ELSE (IF Head(ks) = "k" THEN <<1, 2, 3>> ELSE <<2, 2, 3>>) \o Flat(Tail(ks))
Inj == \A x, y \in [v : {0, 1}, t : {1, 2}, ks : Lists(3)] : (<<x.v, x.t>> \o Flat(x.ks) = <<y.v, y.t>> \o Flat(y.ks)) => x = y
Injective == st = NoMs => Inj
=============================================================================
