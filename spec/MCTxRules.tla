------------------------------ MODULE MCTxRules ------------------------------
(***************************************************************************)
(* C06: for every kind, a well-formed transaction, everything differing    *)
(* from it in one or two fields, under protocols with the features on,     *)
(* off, and mixed.                                                         *)
(***************************************************************************)
EXTENDS TxRules

CONSTANTS Pairs          \* protocols under which pairs of deviations are tried

N(n) == BigOfNat(n)
Hi(n) == Sub(U64MAX, N(n))

Full ==
    [pooling |-> FALSE, minFee |-> N(1000), maxLife |-> N(20), maxNote |-> 4, leases |-> TRUE, groups |-> TRUE,
     rekeying |-> TRUE, coherency |-> TRUE, nonpart |-> TRUE, asset |-> TRUE, maxName |-> 6, maxUnit |-> 4,
     maxUrl |-> 8, maxDec |-> 3, app |-> TRUE, maxArgs |-> 3, maxArgLen |-> 10, maxProg |-> 8, maxProgSum |-> 10,
     maxPages |-> 2, maxAccts |-> 2, maxApps |-> 2, maxAssets |-> 3, maxRefs |-> 4, maxLocal |-> 5, maxGlobal |-> 9,
     pagesOnUpdate |-> TRUE, certRounds |-> 4]
Old == [Full EXCEPT !.leases = FALSE, !.groups = FALSE, !.rekeying = FALSE, !.coherency = FALSE, !.nonpart = FALSE,
                    !.asset = FALSE, !.app = FALSE, !.certRounds = 0]
Pooled == [Full EXCEPT !.pooling = TRUE, !.pagesOnUpdate = FALSE, !.coherency = FALSE, !.maxPages = 0, !.maxRefs = 7]
Strict == [Full EXCEPT !.maxNote = 0, !.maxLife = Zero, !.maxDec = 0, !.maxArgs = 0, !.maxArgLen = 0, !.maxAccts = 0,
                       !.maxApps = 0, !.maxAssets = 0, !.maxRefs = 0, !.maxLocal = 0, !.maxGlobal = 0,
                       !.minFee = Zero, !.maxLife = Hi(0), !.rekeying = FALSE]
Protos == [full |-> Full, old |-> Old, pooled |-> Pooled, strict |-> Strict]

Head0 == [sender |-> "A", fee |-> N(1000), fv |-> N(5), lv |-> N(25), note |-> 4, gid |-> "g", gh |-> "h",
          grp |-> "zero", lease |-> "zero", rekey |-> "zero", free |-> 0]
HeadDevs ==
    [sender |-> {"zero", "pool", "sink", "cert"}, fee |-> {Zero, N(999), N(1001), Hi(0)},
     fv |-> {Zero, N(4), N(6), N(25), N(26), Hi(0)}, lv |-> {Zero, N(4), N(5), N(24), N(26), Hi(0), Hi(1)},
     note |-> {0, 3, 5}, grp |-> {"x"}, lease |-> {"x"}, rekey |-> {"A", "B"},
     free |-> 0 .. 3]     \* other values of the fields no rule looks at

S(u, b) == [uint |-> N(u), bytes |-> N(b)]
T(n, w) == [n |-> n, w |-> w]
Base ==
    [pay    |-> Head0 @@ [kind |-> "pay", rcv |-> "B", amt |-> N(7), close |-> "none"],
     keyreg |-> Head0 @@ [kind |-> "keyreg", votePk |-> TRUE, selPk |-> TRUE, vf |-> N(9), vl |-> N(30), dil |-> N(2), nonpart |-> FALSE],
     offline |-> Head0 @@ [kind |-> "keyreg", votePk |-> FALSE, selPk |-> FALSE, vf |-> Zero, vl |-> Zero, dil |-> Zero, nonpart |-> TRUE],
     acfg   |-> Head0 @@ [kind |-> "acfg", name |-> T(6, 1), unit |-> T(4, 1), url |-> T(8, 1), dec |-> 3],
     axfer  |-> Head0 @@ [kind |-> "axfer", asnd |-> "zero", rcv |-> "B", closeTo |-> "zero"],
     afrz   |-> Head0 @@ [kind |-> "afrz", acct |-> "B"],
     create |-> Head0 @@ [kind |-> "appl", app |-> 0, oc |-> "noop", args |-> <<4, 6>>, accts |-> <<"B">>, fapps |-> <<1>>,
                          fassets |-> <<1, 2>>, ls |-> S(2, 3), gs |-> S(4, 5), ap |-> 8, cs |-> 2, epp |-> 0],
     paged  |-> Head0 @@ [kind |-> "appl", app |-> 0, oc |-> "optin", args |-> << >>, accts |-> << >>, fapps |-> << >>,
                          fassets |-> << >>, ls |-> S(0, 5), gs |-> S(9, 0), ap |-> 24, cs |-> 6, epp |-> 2],
     update |-> Head0 @@ [kind |-> "appl", app |-> 7, oc |-> "update", args |-> <<1, 1, 1>>, accts |-> <<"B", "C">>, fapps |-> <<7>>,
                          fassets |-> <<1>>, ls |-> NoSchema, gs |-> NoSchema, ap |-> 6, cs |-> 24, epp |-> 0],
     call   |-> Head0 @@ [kind |-> "appl", app |-> 7, oc |-> "noop", args |-> <<10>>, accts |-> << >>, fapps |-> <<1, 2>>,
                          fassets |-> <<1, 2>>, ls |-> NoSchema, gs |-> NoSchema, ap |-> 0, cs |-> 0, epp |-> 0],
     cert   |-> [Head0 EXCEPT !.sender = "cert", !.fee = Zero, !.note = 0] @@ [kind |-> "cert"]]

KeyDevs == [votePk |-> BOOLEAN, selPk |-> BOOLEAN, vf |-> {Zero, N(9), N(26), N(27), N(30), N(31), Hi(0)},
            vl |-> {Zero, N(8), N(9), N(31), Hi(0)}, dil |-> {Zero, N(1), Hi(0)}, nonpart |-> BOOLEAN]
AppDevs ==
    [app |-> {0, 7}, oc |-> {"noop", "optin", "closeout", "clear", "update", "delete"},
     args |-> {<< >>, <<10>>, <<11>>, <<0, 0, 0>>, <<0, 0, 0, 0>>, <<4, 7>>},
     accts |-> {<< >>, <<"B", "C">>, <<"B", "B", "C">>}, fapps |-> {<< >>, <<1, 2>>, <<1, 1, 1>>},
     fassets |-> {<< >>, <<1, 2, 3>>, <<1, 2, 3, 4>>}, ls |-> {NoSchema, S(0, 5), S(6, 0), S(3, 3), [uint |-> Hi(0), bytes |-> N(6)]},
     gs |-> {NoSchema, S(9, 0), S(0, 10), S(5, 5), [uint |-> N(3), bytes |-> Hi(0)]},
     ap |-> {0, 1, 8, 9, 24, 25}, cs |-> {0, 2, 3, 8, 9, 10, 22}, epp |-> {0, 1, 2, 3}]
KindDevs ==
    [pay |-> [rcv |-> {"zero", "A", "pool"}, amt |-> {Zero, Hi(0)}, close |-> {"A", "B", "pool", "sink", "zero"}],
     keyreg |-> KeyDevs, offline |-> KeyDevs,
     acfg |-> [name |-> {T(0, 1), T(7, 1), T(2, 3), T(2, 4), T(3, 3)}, unit |-> {T(5, 1), T(2, 2), T(3, 2), T(1, 4)},
               url |-> {T(9, 1), T(4, 2), T(3, 3), T(2, 4)}, dec |-> {0, 2, 4}],
     axfer |-> [asnd |-> {"A", "B", "sink"}, rcv |-> {"zero", "A"}, closeTo |-> {"A", "B"}],
     afrz |-> [acct |-> {"zero", "A"}],
     create |-> AppDevs, paged |-> AppDevs, update |-> AppDevs, call |-> AppDevs, cert |-> [kind |-> {"cert"}]]
Devs(k) == HeadDevs @@ KindDevs[k]
(* fee sink payments have rules of their own *)
Bases(k) == {Base[k]} \cup IF k = "pay" THEN { [Base[k] EXCEPT !.sender = "sink", !.rcv = "pool"] } ELSE {}

Init == op = << >> /\ res = << >> /\ st = "ready"

Check(t, n) == Do([a |-> "wf", tx |-> t, p |-> Protos[n]])
One1 == \E k \in DOMAIN Base, n \in DOMAIN Protos : \E t \in Bases(k) :
          \/ Check(t, n)
          \/ LET DD == Devs(k) IN \E f \in DOMAIN DD : \E v \in DD[f] : Check([t EXCEPT ![f] = v], n)
Two == \E k \in DOMAIN Base, n \in Pairs : \E t \in Bases(k) : LET DD == Devs(k) IN
          \E f \in DOMAIN DD : \E v \in DD[f] : \E g \in DOMAIN DD : \E w \in DD[g] :
             Check([t EXCEPT ![f] = v, ![g] = w], n)
Next == One1 \/ Two
Spec == Init /\ [][Next]_vars

(* relaxing every limit and supporting every feature never makes a transaction unacceptable *)
Loose(p) == [p EXCEPT !.minFee = MonusB(@, One), !.maxLife = Add(@, One), !.maxNote = @ + 1, !.leases = TRUE, !.groups = TRUE,
     !.rekeying = TRUE, !.coherency = FALSE, !.nonpart = TRUE, !.asset = TRUE, !.maxName = @ + 1, !.maxUnit = @ + 1,
     !.maxUrl = @ + 1, !.maxDec = @ + 1, !.app = TRUE, !.maxArgs = @ + 1, !.maxArgLen = @ + 1, !.maxProg = @ + 1,
     !.maxProgSum = @ + 1, !.maxPages = @ + 1, !.maxAccts = @ + 1, !.maxApps = @ + 1, !.maxAssets = @ + 1, !.maxRefs = @ + 1,
     !.maxLocal = @ + 1, !.maxGlobal = @ + 1, !.pagesOnUpdate = TRUE, !.certRounds = @ + 1]
Monotone == [][res'.ok = "ok" => WellFormed(op'.tx, Loose(op'.p))]_vars
(* what was accepted has none of the forbidden shapes *)
Safe == [][res'.ok = "ok" =>
              /\ op'.tx.sender \notin {"zero", "pool"}
              /\ Le(op'.tx.fv, op'.tx.lv)
              /\ (op'.tx.kind = "pay" /\ op'.tx.sender = "sink" => op'.tx.rcv = "pool" /\ op'.tx.close = "none")
              /\ (op'.tx.kind = "appl" /\ op'.tx.app # 0 /\ op'.tx.oc # "update" => op'.tx.ap + op'.tx.cs = 0)]_vars
(* each base transaction is accepted where everything is supported *)
ASSUME \A k \in DOMAIN Base : \A t \in Bases(k) : WellFormed(t, Full)
=============================================================================
