------------------------------- MODULE MCConf -------------------------------
EXTENDS Conf

CONSTANTS What, Size

Fields == {"net_address", "archival", "enable_block_service", "gossip_fanout", "priority_peers", "reconnect_time"}
Values(f) == IF f \in Forced \cup {"priority_peers"} THEN {1} ELSE {1, 2}
Sets == UNION { { [ f \in D \cup {"_"} |-> IF f = "_" THEN 0 ELSE g[f] ] : g \in { h \in [D -> 1 .. 2] : \A f \in D : h[f] \in Values(f) } }
                : D \in { X \in SUBSET Fields : Cardinality(X) <= Size } }
Books == { << >>, <<"r1.example:4160">>, <<"b", "a">>, <<"a", "a", "">> }
Files == \/ \E x \in Sets : Do([a |-> "write", set |-> x, extra |-> 1 \in {x[f] : f \in DOMAIN x}]) \/ Do([a |-> "save", set |-> x])
         \/ \E x \in {"load", "resave", "remove"} : Do([a |-> x])
         \/ \E k \in 0 .. 7 : Do([a |-> "spoil", k |-> k])
         \/ \E k \in 1 .. 9 : Do([a |-> "cut", tenths |-> k])
BookOps == \/ \E q \in Books : Do([a |-> "savebook", q |-> q])
           \/ \E x \in {"loadbook", "removebook"} : Do([a |-> x])
           \/ \E k \in 0 .. 4 : Do([a |-> "spoilbook", k |-> k])
           \/ \E k \in 0 .. 3 : Do([a |-> "nowhere", k |-> k])
Roots == \/ \E r \in {"", "x", "y"} : Do([a |-> "setroot", r |-> r])
         \/ \E x \in {"getroot", "mkhome", "rmhome"} : Do([a |-> x])

(* names put together from these pieces *)
Word(x) == CASE x = "a" -> <<"a">> [] x = "." -> <<".">> [] x = "0" -> <<"0">> [] x = "1" -> <<"1">> [] x = "9" -> <<"9">> [] x = "10" -> <<"1", "0">>
             [] x = "03" -> <<"0", "3">> [] x = "+2" -> <<"+", "2">> [] x = "top" -> Top [] x = "over" -> SubSeq(Top, 1, 19) \o <<"6">>
             [] x = "root" -> RootSuffix [] x = "rootkey" -> Tail(RootSuffix) [] x = "part" -> <<".">> \o PartWord [] x = "partkey" -> PartWord
RECURSIVE Chars(_)
Chars(q) == IF q = << >> THEN << >> ELSE Word(Head(q)) \o Chars(Tail(q))
Nums == {"0", "1", "9", "10", "03", "+2", "top", "over", "a", "."}
Heads == { << >>, <<"a">>, <<".">>, <<"a", ".", "a">>, <<"9">>, <<"a", "root">>, <<"a", ".", "1", ".", "1", "part">>, <<"part">> }
Tails == { << >>, <<"part">>, <<"root">>, <<"part", "part">>, <<"root", "root">>, <<"partkey">>, <<"rootkey">>, <<"part", "a">>, <<"part", "root">>, <<"root", "part">> }
Names == UNION { { Chars(h \o t), Chars(h \o <<".", "1", ".", "10">> \o t), Chars(h \o <<".", "1">> \o t) } : h \in Heads, t \in Tails }
         \cup { Chars(h \o <<".", x, ".", y, "part">>) : h \in { << >>, <<"a">> }, x, y \in Nums }
Kinds == \E f \in Names : \E acct \in { RootAccount(f), PartAccount(f), <<"a">> } : Do([a |-> "kind", f |-> f, acct |-> acct])
Made == \E h \in Heads : \E x, y \in {"0", "1", "10", "top"} :
            (Leq(Word(x), Word(y)) /\ Do([a |-> "names", acct |-> Chars(h), first |-> Word(x), last |-> Word(y)]))
Bits == \E d \in 0 .. 9, c \in 0 .. 31 : Do([a |-> "flags", d |-> d, c |-> c])
Ids == LET E == { << >>, <<"N">>, <<"N", ".algorand.network">>, <<"x">>, <<"a.", "N", ".", "N">> } IN UNION { [1 .. n -> E] : n \in 1 .. 3 }
Hosts == \E q \in Ids, n \in {"mainnet", "devnet", "betanet", "devtestnet"} : Do([a |-> "dns", id |-> q, net |-> n])

Init == op = << >> /\ res = << >> /\ st = Fresh
Next == CASE What = "files" -> Files
          [] What = "books" -> BookOps \/ Roots
          [] What = "names" -> Kinds \/ Made \/ Bits \/ Hosts
Spec == Init /\ [][Next]_<<st, op>>

(* what is loaded was saved, apart from what relays must do, and stays the same when saved again *)
Kept == [][(op'.a = "load" /\ res'.ok) =>
    LET x == st.file.x IN /\ \A f \in DOMAIN x \ Forced : res'.v[f] = x[f]
                          /\ Relay(res'.v) = res'.v /\ ("net_address" \notin DOMAIN x => res'.v = x)]_vars
(* a name says whose key it is and of which kind *)
OneKind == [][op'.a = "kind" => ~ (res'.root /\ res'.part)]_vars
Apart == [][op'.a = "names" => LET k == Kind(res'.root, op'.acct)  l == Kind(res'.part, op'.acct) IN
    k.root /\ k.isroot /\ k.rootof = op'.acct /\ l.part /\ l.ispart /\ l.partof = op'.acct]_vars
=============================================================================
