------------------------------- MODULE MCRefs -------------------------------
EXTENDS Refs

CONSTANTS MaxList, What

N(n) == BigOfNat(n)
Hi(n) == Sub(U64MAX, N(n))
Head0 == [sender |-> "A", fee |-> N(1000), fv |-> N(5), lv |-> N(25), note |-> 0, gid |-> "g", gh |-> "h",
          grp |-> "zero", lease |-> "zero", rekey |-> "zero"]
Pay == [kind |-> "pay", rcv |-> "B", amt |-> N(7), close |-> "none"]
Kinds(X, Y, Z) ==
    { [kind |-> "pay", rcv |-> x, amt |-> n, close |-> y] : x \in X, y \in Y \cup {"none"}, n \in {Zero, Hi(0)} }
    \cup { [kind |-> "axfer", asnd |-> z, rcv |-> x, closeTo |-> y] : x \in X, y \in Y, z \in Z }
    \cup { [kind |-> "afrz", acct |-> "B"],
           [kind |-> "acfg", name |-> [n |-> 1, w |-> 1], unit |-> [n |-> 1, w |-> 1], url |-> [n |-> 1, w |-> 1], dec |-> 1],
           [kind |-> "keyreg", votePk |-> TRUE, selPk |-> TRUE, vf |-> N(9), vl |-> N(30), dil |-> N(2), nonpart |-> FALSE],
           [kind |-> "appl", app |-> N(3), oc |-> "noop", args |-> << >>, accts |-> <<"B", "C">>, fapps |-> <<N(1)>>, fassets |-> <<1>>,
            ls |-> [uint |-> Zero, bytes |-> Zero], gs |-> [uint |-> Zero, bytes |-> Zero], ap |-> 1, cs |-> 1, epp |-> 0],
           [kind |-> "cert"] }

Rounds == { Zero, N(4), N(5), N(6), N(24), N(25), N(26), Hi(1), Hi(0) }
Windows == { <<N(5), N(25)>>, <<Zero, Zero>>, <<N(5), N(5)>>, <<N(25), N(5)>>, <<Zero, Hi(0)>>, <<Hi(0), Hi(0)>>, <<N(5), Hi(1)>> }
Live == \E w \in Windows, r \in Rounds, x \in {"", "g", "other", "G", "gg", " "}, y \in {"", "g"}, h \in {"zero", "h", "other"}, k \in {"zero", "h"},
           s \in BOOLEAN, q \in BOOLEAN :
          Do([a |-> "alive", tx |-> [Head0 EXCEPT !.fv = w[1], !.lv = w[2], !.gid = x, !.gh = h], round |-> r, gid |-> y, gh |-> k,
              supGH |-> s, reqGH |-> q])

Names == <<"A", "B", "C", "zero", "sink", "pool", "cert">>
Addrs == { "A", "B", "C", "zero", "sink" }
Touch == \E s \in {"A", "sink", "cert"}, f \in Kinds({"A", "B", "zero"}, Addrs, Addrs), k \in {"sink", "A", "zero"}, n \in 0 .. 2 :
           Do([a |-> "addrs", tx |-> [Head0 EXCEPT !.sender = s] @@ f @@ [free |-> n], sink |-> k, names |-> Names])

Lists(S) == UNION { [1 .. n -> S] : n \in 0 .. MaxList }
Call(l, m, app) == [app |-> app, oc |-> "noop", args |-> << >>, accts |-> l, fapps |-> m, fassets |-> << >>,
            ls |-> [uint |-> Zero, bytes |-> Zero], gs |-> [uint |-> Zero, bytes |-> Zero], ap |-> 0, cs |-> 0, epp |-> 0]
Ix == { N(n) : n \in 0 .. MaxList + 2 } \cup { Hi(0), N(65536), U32MAX, Add(U32MAX, One), Add(U32MAX, N(2)) }
Lookup ==
    \/ \E l \in Lists({"A", "B", "zero"}) :
         \/ \E i \in Ix : Do([a |-> "acct_at", tx |-> Call(l, << >>, Zero), sender |-> "A", i |-> i, names |-> Names])
         \/ \E x \in {"A", "B", "C", "zero"} : Do([a |-> "acct_ix", tx |-> Call(l, << >>, Zero), sender |-> "A", addr |-> x])
    \/ \E l \in Lists({Zero, N(7), Hi(0)}), app \in {Zero, N(7)} :
         \/ \E i \in Ix : Do([a |-> "app_at", tx |-> Call(<<"B">>, l, app), i |-> i])
         \/ \E x \in {Zero, N(7), Hi(0), N(1)} : Do([a |-> "app_ix", tx |-> Call(<<"B">>, l, app), id |-> x])

Init == op = << >> /\ res = << >> /\ st = "ready"
Next == IF What = "live" THEN Live ELSE Touch \/ Lookup
Spec == Init /\ [][Next]_vars

(* every entry has an index and that index denotes it; no index denotes anything else *)
Inverse ==
    [][/\ op'.a = "acct_ix" => (res'.ok <=> op'.addr \in {op'.sender} \cup { op'.tx.accts[i] : i \in DOMAIN op'.tx.accts })
                               /\ (res'.ok => Entry(op'.sender, op'.tx.accts, res'.v[1]) = <<op'.addr>>)
       /\ op'.a = "app_ix" => (res'.ok => Entry(op'.tx.app, op'.tx.fapps, res'.v[1]) = <<op'.id>>)
       /\ op'.a = "acct_at" => (res'.ok => Index(op'.sender, op'.tx.accts, res'.v[1]) # << >>)]_vars
OwnChain == [][op'.a = "alive" /\ res'.ok = "ok" => /\ op'.tx.gid \in {"", op'.gid} /\ op'.tx.gh \in {"zero", op'.gh}
                                                    /\ Le(op'.tx.fv, op'.tx.lv)]_vars
=============================================================================
