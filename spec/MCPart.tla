------------------------------- MODULE MCPart -------------------------------
EXTENDS Part

CONSTANTS Gens, Top, What   \* What: one key thoroughly, several keys, or the manager

R(n) == NB(n)
D1 == R(2)
Rs == [ i \in 1 .. Top + 3 |-> R(i - 1) ]
Rounds == { R(i) : i \in 0 .. Top + 2 }
Slots == {"a", "b"}
Ranges == { <<R(0), R(1)>>, <<R(1), R(Top)>>, <<R(2), R(2)>>, <<R(2), R(Top + 1)>> }

Untouched(p) == p.k.no = 0 /\ p.k.fb = Div(p.fv, Dil(p, D1))
Live(x) == st.live[x].id # 0
Other(x) == IF x = "a" THEN "b" ELSE "a"

(* keys and the store *)
One1 == What = "one"
Generate == st.cnt < Gens /\ \E x \in IF One1 THEN {"a"} ELSE Slots, f \in Ranges, d \in {R(1), R(2), R(3)} : (st.roots = 0 \/ (st.roots = 1 /\ d = R(2) /\ f[1] = R(2) /\ f[2] = R(2))) /\ (One1 \/ (d = R(2) /\ f[1] = R(2) /\ f[2] # R(2))) /\
    Do([a |-> "gen", slot |-> x, parent |-> "p", fv |-> f[1], lv |-> f[2], dil |-> d, rs |-> Rs, d |-> D1])
Inverted == One1 /\ \E f \in { <<R(1), R(0)>>, <<R(3), R(1)>> } :
    Do([a |-> "gen", slot |-> "a", parent |-> "p", fv |-> f[1], lv |-> f[2], dil |-> R(2), rs |-> Rs, d |-> D1])
Default == One1 /\ \E x \in Slots : Live(x) /\ st.live[x].dil = D1 /\ Do([a |-> "default", slot |-> x, rs |-> Rs, d |-> D1])
Restart == Do([a |-> "restart"])
(* one live copy of a key *)
Restore == \E x \in Slots : (st.store.id # 0 => st.live[Other(x)].id # st.store.id) /\ Do([a |-> "restore", slot |-> x, rs |-> Rs, d |-> D1])
Persist == \E x \in Slots : Live(x) /\ Do([a |-> "persist", slot |-> x, rs |-> Rs, d |-> D1])
Parent == \E x \in Slots, p \in {"p", "q"} : Live(x) /\ (One1 => Untouched(st.live[x])) /\ (~ One1 => p = "q") /\ Do([a |-> "parent", slot |-> x, parent |-> p, rs |-> Rs, d |-> D1])
Delete == \E x \in Slots, r \in IF One1 THEN Rounds \cup {R(2000000)} ELSE {R(3), R(4)} : Live(x) /\ Do([a |-> "del", slot |-> x, r |-> r, rs |-> Rs, d |-> D1])
Looking == \E x \in Slots, f, t \in { r \in Rounds : Le(r, R(Top + 2)) } : Live(x) /\ One1 /\ st.live[x].dil = R(3) /\ Le(f, t) /\ Untouched(st.live[x]) /\
    Do([a |-> "look", slot |-> x, from |-> f, to |-> t, rs |-> Rs, d |-> D1])
Register == \E x \in Slots, lx \in {"zero", "one"} : Live(x) /\ One1 /\ Untouched(st.live[x]) /\
    Do([a |-> "register", slot |-> x, fee |-> R(1000), fv |-> R(5), lv |-> R(1005), lx |-> lx])
RootGen == One1 /\ st.roots < 2 /\ st.cnt = 0 /\ Do([a |-> "rootgen"])
RootGet == One1 /\ (st.cnt = 0 \/ st.live["a"].id = 0) /\ Do([a |-> "rootget"])

(* the manager *)
K(f, z) == [fv |-> f, lv |-> z]
Plain(p) == p.k.no = 0 /\ p.k.fb = Div(R(1), Dil(p, D1))
New == \A p \in st.mgr : Plain(p)
Add1 == \E x \in Slots, p \in {"p", "q"}, f \in { K(R(1), R(Top)), K(R(2), R(Top)), K(R(1), R(2)) }, dflt \in BOOLEAN, y \in Slots :
    Live(x) /\ Live(y) /\ (y # x => (p = "p" /\ f.fv = R(1) /\ f.lv = R(Top) /\ ~ dflt)) /\ New /\ Cardinality(st.mgr) < 3 /\ (dflt => st.live[x].dil = D1 /\ p = "p") /\
    (Cardinality(st.mgr) = 2 => (p = "p" /\ f.fv = R(1) /\ ~ dflt)) /\
    Do([a |-> "add", slot |-> x, sel |-> y, parent |-> p, fv |-> f.fv, lv |-> f.lv, dflt |-> dflt])
Keys == \E r \in Rounds : New /\ Cardinality(st.mgr) < 3 /\ Do([a |-> "keys", r |-> r, rs |-> Rs, d |-> D1])
Alive == \E f, t \in Rounds : New /\ Cardinality(st.mgr) < 2 /\ Le(f, t) /\ Do([a |-> "alive", from |-> f, to |-> t])
Sigs == { [ a \in {} |-> Zero ] } \cup { [ a \in {"p"} |-> R(n) ] : n \in {0, 1, 2, 3} } \cup { [ a \in {"p", "q"} |-> IF a = "p" THEN R(1) ELSE R(3) ] }
Block == \E r \in {0, 1, 2, Top, Top + 2}, cc \in {-1, 0, 1, 2, Top}, s \in Sigs :
    /\ st.mgr # {} /\ Cardinality(st.mgr) < 3
    /\ \/ New
       \/ r = 2 /\ cc \in {-1, 1} /\ DOMAIN s = {} /\ Cardinality(st.mgr) = 1
    /\ Cardinality(st.mgr) = 2 => DOMAIN s # {"p"} /\ r = 2 /\ cc \in {-1, 1, Top} /\ (\A p \in st.mgr : p.fv = R(1))
    /\ Do([a |-> "block", h |-> [rnd |-> R(r), cc |-> R(IF cc < 0 THEN 0 ELSE cc)], state |-> cc >= 0, sigs |-> s, rounds |-> R(1), all |-> Rs, rs |-> Rs, d |-> D1])
Two == \/ st.cnt = 0 /\ Do([a |-> "gen", slot |-> "a", parent |-> "p", fv |-> R(1), lv |-> R(Top + 2), dil |-> R(2), rs |-> Rs, d |-> D1])
       \/ st.cnt = 1 /\ Do([a |-> "gen", slot |-> "b", parent |-> "q", fv |-> R(1), lv |-> R(Top + 2), dil |-> R(1), rs |-> Rs, d |-> D1])

Init == op = << >> /\ res = << >> /\ st = Fresh
Next == IF What # "manager"
        THEN Generate \/ Inverted \/ Default \/ Restart \/ Restore \/ Persist \/ Parent \/ Delete \/ Looking \/ Register \/ RootGen \/ RootGet
        ELSE Two \/ (st.cnt = 2 /\ (Add1 \/ Keys \/ Alive \/ Block))
Spec == Init /\ [][Next]_<<st, op>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Can(p) == { r \in Rounds : Votes(p, r, D1) }
(* the store never lags behind the key in use: nothing deleted comes back *)
NoStale == What # "manager" => \A x \in Slots : (Live(x) /\ st.live[x].id = st.store.id) => st.live[x] = st.store
OneCopy == What # "manager" => (Live("a") /\ Live("b") => st.live["a"].id # st.live["b"].id)
(* a key can vote throughout its range when made *)
Useful == [][op'.a = "gen" /\ res'.ok => \A r \in Rounds : (Ge(r, op'.fv) /\ Le(r, op'.lv)) => Votes(st'.live[op'.slot], r, D1)]_vars
(* nothing earlier, everything from there on *)
Forward == [][op'.a = "del" => Can(st'.live[op'.slot]) = { r \in Can(st.live[op'.slot]) : Ge(r, op'.r) }]_vars
Durable == [][op'.a = "restart" => (st'.store = st.store /\ st'.root = st.root)]_vars
Only == [][op'.a = "parent" => st'.live[op'.slot] = [st.live[op'.slot] EXCEPT !.parent = op'.parent]]_vars

(* a registry *)
Unique == \A p, q \in st.mgr : SameKey(p, q) => p = q
(* what may still be needed is kept; what may not is gone *)
NextNeeded(p) == LET s == Signed(op'.sigs, p.parent)
                     due == IF op'.h.cc = Zero THEN {} ELSE { r \in Rounds : Ge(r, Add(op'.h.cc, One)) /\ Gt(r, s) }
                 IN  due
Retained == [][op'.a = "block" => \A p \in st.mgr : \E q \in st'.mgr :
                 /\ SameKey(p, q)
                 /\ \A r \in Can(p) : Gt(r, op'.h.rnd) => r \in Can(q)
                 /\ (op'.h.cc # Zero /\ Ge(op'.h.cc, Signed(op'.sigs, p.parent)) /\ Add(op'.h.cc, One) \in Can(p)) => Add(op'.h.cc, One) \in Can(q)]_vars
Spent == [][op'.a = "block" => \A q \in st'.mgr : \A r \in Can(q) :
                 \/ Gt(r, op'.h.rnd)
                 \/ op'.h.cc # Zero /\ Gt(r, op'.h.cc)]_vars
=============================================================================
