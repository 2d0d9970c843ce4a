------------------------------ MODULE MCParams ------------------------------
EXTENDS Params

CONSTANTS What, Size

V == {"V27", "V28", "V29"} \cup (IF Size > 3 THEN {"V30"} ELSE {})
Waits == {3}
(* all tables over some versions with all ways to link them (to any version but themselves) *)
UpSets(v, to) == { { [to |-> w, wait |-> 3] : w \in W } : W \in SUBSET (to \ {v}) }
Tables(vs, to, tag) ==
    UNION { { { [v |-> v, tag |-> tag, up |-> f[v]] : v \in D } :
              f \in { g \in [D -> UNION { UpSets(v, to) : v \in D }] : \A v \in D : g[v] \in UpSets(v, to) } } : D \in SUBSET vs }
Del(W) == { [v |-> v, tag |-> "V7", up |-> {}] : v \in W }
OneUp(v) == { { [to |-> w, wait |-> 5] } : w \in V \ {v} }
(* merged in: any choice of versions to delete, add or replace *)
Changes == UNION { { Del(W) \cup { [v |-> v, tag |-> "V20", up |-> f[v]] : v \in D } :
                     f \in { g \in [D -> UNION { OneUp(v) : v \in D }] : \A v \in D : g[v] \in OneUp(v) } } :
                   <<D, W>> \in { <<X, Y>> \in (SUBSET V) \X (SUBSET V) : X \cap Y = {} /\ Cardinality(X) <= 2 } }
Old == Tables(V, V, "V10")

Merges == st = Start(<< >>) /\ What = "merge" /\ \E t \in Old, m \in Changes : Do([a |-> "merge", t |-> Listed(t), m |-> Listed(m)])

(* histories of the file *)
E(v, tag, W) == [v |-> v, tag |-> tag, up |-> { [to |-> w, wait |-> 3] : w \in W }]
Few == { {}, { E("V27", "V10", {"V28"}), E("V28", "V10", {}) }, { E("V28", "V20", {"V27", "V29"}), E("V27", "V7", {}) },
         { E("V29", "V20", {"V27"}) }, Del({"V27", "V28"}), Del({"V27", "V28", "V29"}) }
Uses == \E t \in Few : Do([a |-> "use", t |-> Listed(t)])
Saves == \E t \in Few : Do([a |-> "save", t |-> Listed(t)])
Others == Do([a |-> "preload"]) \/ Do([a |-> "load"]) \/ Do([a |-> "remove"]) \/ \E k \in 0 .. 4 : Do([a |-> "spoil", k |-> k])

Init == op = << >> /\ res = << >> /\ st = Start(<< >>)
Next == IF What = "merge" THEN Merges ELSE Uses \/ Saves \/ Others
Spec == Init /\ [][Next]_<<st, op>>

(***************************************************************************)
(* What a merge must do, told version by version                           *)
(***************************************************************************)
Merged == [][op'.a = "merge" => LET t == Table(op'.t)  m == Table(op'.m)  r == Table(res'.ok[1])  gone == Deleted(m) IN
    /\ Vs(r) = (Vs(t) \cup Vs(m)) \ gone
    /\ \A e \in r : /\ \A u \in e.up : u.to \notin gone
                    /\ LET b == IF e.v \in Vs(m) THEN At(m, e.v) ELSE At(t, e.v) IN
                       b.tag = e.tag /\ e.up \subseteq b.up /\ \A u \in b.up \ e.up : u.to \in gone
    /\ gone = {} => Merge(r, m) = r]_vars
(* saving and loading at once adds the saved table to the one in use, and repeating the load changes nothing more *)
Loaded == [][(op'.a = "load" /\ res'.ok /\ st.file.k = "table") =>
    (Read(st) # {} => (st'.live = Merge(st.live, st.file.t) /\ Merge(st'.live, st.file.t) = st'.live))]_vars
Untouched == [][op'.a \in {"load", "preload"} => st'.file = st.file]_vars
=============================================================================
