----------------------------- MODULE MCAlgokey -----------------------------
EXTENDS Algokey

CONSTANTS What, Deep

Names == CASE What = "keys" -> <<"a", "b">> [] What = "sign" -> <<"a", "t", "o">> [] What = "part" -> <<"s", "r">>
Slots == { Names[i] : i \in DOMAIN Names }
Some == Slots \cup {""}
No == [i |-> "", how |-> ""]
Wrong == {"w24", "word", "sum"} \cup (IF Deep THEN {"empty", "w26", "case"} ELSE {})
Phrases(i) == { [i |-> i, how |-> h] : h \in {"ok", "spaces"} \cup Wrong }
Open(i) == [k |-> "key", i |-> i, priv |-> FALSE]
Junk(n) == [k |-> "junk", n |-> n]
Place(f, x) == Do([a |-> "place", f |-> f, x |-> x])

(* of two outputs only the first may be in the way of the command *)
Ways(f, p) == IF f = "" THEN TRUE ELSE Writable(st, p) \/ ~ Writable(st, f)
Keys == \/ \E f \in Slots, x \in { Nothing, Open("x1"), Junk(8), [k |-> "dir", n |-> 0] } \cup (IF Deep THEN {Junk(0), Junk(1), Junk(2), Junk(4)} ELSE {}) : Place(f, x)
        \/ st.n < 1 /\ \E f, p \in Some : (f \o p # "" /\ Ways(f, p) /\ Do([a |-> "generate", f |-> f, p |-> p]))
        \/ \E f \in Slots, p \in Some : Do([a |-> "export", f |-> f, p |-> p])
        \/ \E f \in Slots, p \in Some, m \in Phrases("x1") \cup (IF st.n > 0 THEN { [i |-> "g1", how |-> "ok"] } ELSE {}) :
               (Ways(f, p) /\ (Good(m) \/ p # f) /\ Do([a |-> "import", m |-> m, f |-> f, p |-> p]))
        \/ \E k \in 0 .. 6 : Do([a |-> "usage", k |-> k])

Tx(k, n, x) == [kind |-> k, id |-> n, sender |-> x]
Txs == { Tx("pay", 1, "x1"), Tx("pay", 1, "x2"), Tx("keyreg", 2, "x1"), Tx("appl", 3, "zero") } \cup
       (IF Deep THEN { Tx(k, 4, x) : k \in {"acfg", "axfer", "afrz", "cert", "appl"}, x \in {"x1", "x2"} } ELSE {})
Signing == \/ \E x \in { Nothing, Open("x1"), Junk(1) } \cup (IF Deep THEN { Open("x2") } ELSE {}) : Place("a", x)
           \/ \E x \in { Nothing, Junk(3) } \cup (IF Deep THEN {Junk(0), Junk(6)} ELSE {}) \cup { [k |-> "tx", t |-> t] : t \in Txs } : Place("t", x)
           \/ \E x \in { Nothing, Junk(5), [k |-> "dir", n |-> 0] } : Place("o", x)
           \/ \E f \in {"", "a"}, m \in { No, [i |-> "x2", how |-> "ok"], [i |-> "x1", how |-> "sum"] }, t \in {"t", "o"}, o \in {"t", "o"} :
                  Do([a |-> "sign", f |-> f, m |-> m, t |-> t, o |-> o])
           \/ \E k \in 7 .. 9 : Do([a |-> "usage", k |-> k])

Parts == \/ \E f \in Slots, x \in { Nothing, Open("x1"), Junk(0) } : Place(f, x)
         \/ /\ st.m < 2
            /\ \E f \in Slots, r \in { <<1, 17>>, <<5, 4>> } \cup (IF Deep THEN { <<0, 0>>, <<100, 120>> } ELSE {}), d \in {0, 7}, p \in {"", "x1", "bad"} :
                  (f = "s" \/ (d = 0 /\ p # "")) /\
                  Do([a |-> "partgen", f |-> f, first |-> r[1], last |-> r[2], dil |-> d, parent |-> p])
         \/ \E f \in Slots : Do([a |-> "partinfo", f |-> f])
         \/ \E f \in Slots, p \in {"x2", "bad"} \cup (IF Deep THEN {"zero"} ELSE {}) : Do([a |-> "reparent", f |-> f, parent |-> p])
         \/ \E k \in 10 .. 15 : Do([a |-> "usage", k |-> k])

Init == op = << >> /\ res = << >> /\ st = Start([slots |-> Names])
Next == CASE What = "keys" -> Keys [] What = "sign" -> Signing [] What = "part" -> Parts
Spec == Init /\ [][Next]_<<st, op>>

Tool == op'.a \notin {"place", "authorizer"}
(* a failing command changes nothing *)
Harmless == [][(Tool /\ ~ res'.ok) => st' = st]_vars
(* a key the tool writes is private, and written only where it was told to *)
Private == [][Tool => \A f \in DOMAIN st.fs : (st'.fs[f].k = "key" /\ st'.fs[f] # st.fs[f]) => st'.fs[f].priv /\ op'.f = f]_vars
(* all outputs of a command are about the same key *)
OneKey == [][(op'.a \in {"generate", "export", "import"} /\ res'.ok) =>
    /\ res'.key = res'.addr
    /\ (op'.p # "" => st'.fs[op'.p] = AddrOf(res'.key))
    /\ (op'.f # "" /\ op'.f # op'.p => st'.fs[op'.f].i = res'.key)]_vars
(* exporting and importing again changes nothing but the mode *)
Back == [][(op'.a = "import" /\ res'.ok /\ st.fs[op'.f].k = "key" /\ st.fs[op'.f].i = op'.m.i /\ op'.p # op'.f) => st'.fs[op'.f].i = st.fs[op'.f].i]_vars
=============================================================================
