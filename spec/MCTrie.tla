------------------------------- MODULE MCTrie -------------------------------
EXTENDS Trie

CONSTANTS Big_

Elems == { <<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<255, 0, 0>>, <<0, 0, 255>> }
         \cup (IF Big_ THEN { <<0, 1, 1>>, <<255, 0, 1>> } ELSE {})
Odd == { << >>, <<0>>, <<0, 0>>, <<0, 0, 0, 0>>, <<9, 9>>, <<255>> }

Adds == \E e \in Elems : Do([a |-> "add", e |-> e])
Dels == \E e \in Elems : Do([a |-> "del", e |-> e])
Odds == \E e \in Odd : \/ Do([a |-> "del", e |-> e])
                       \/ (st.s # {} \/ e \in {<<0>>, << >>}) /\ Do([a |-> "add", e |-> e])
Root == Do([a |-> "root", as |-> Sort(st.s)])
B == { [set |-> x, bit |-> n] : x \in BOOLEAN, n \in {0, 63, 64, 255} }
BitOps == st = Empty /\ \E k \in 0 .. 3 : \E q \in [1 .. k -> B] : Do([a |-> "bits", ops |-> q, other |-> IF k = 0 THEN << >> ELSE Tail(q)])

Init == op = << >> /\ res = << >> /\ st = Empty
Next == Adds \/ Dels \/ Odds \/ Root \/ BitOps
Spec == Init /\ [][Next]_<<st, op>>

OneLength == \A x, y \in st.s : Len(x) = Len(y)
Refused == [][op'.a \in {"add", "del"} /\ ~ res'.did => st'.s = st.s]_vars
NoLeak == [][op'.a \in {"add", "del"} /\ st'.s = {} => res'.nodes = 0]_vars
=============================================================================
