------------------------------ MODULE MCPayset ------------------------------
EXTENDS Payset, Alter

CONSTANTS What, MaxGroup, MaxSplit

N(n) == BigOfNat(n)
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Put(q, i, e) == SubSeq(q, 1, i - 1) \o <<e>> \o SubSeq(q, i, Len(q))
Hi(n) == Sub(U64MAX, N(n))
Half64 == Div(U64MAX, N(2))
Seqs(S, n) == UNION { [1 .. k -> S] : k \in 0 .. n }

(* fees *)
Fees == { Zero, N(1), N(999), N(1000), N(1001), N(2000), Half64, Add(Half64, One), Hi(1000), Hi(1), Hi(0) }
MinFees == { Zero, One, N(1000), Half64, Add(Half64, One), Hi(1), Hi(0) }
Fee == \E n \in MinFees :
         \/ \E g \in Seqs([kind : {"pay"}, fee : Fees] \cup [kind : {"cert"}, fee : {Zero, N(1000), Hi(0)}], MaxGroup) :
              Do2([a |-> "credit", group |-> g, minFee |-> n])
         \/ \E k \in Kinds, f \in Fees : Do2([a |-> "credit", group |-> <<[kind |-> k, fee |-> f], [kind |-> "pay", fee |-> N(1000)]>>, minFee |-> n])

(* groups *)
Groups == \E g \in Seqs({"zero", "x", "y"}, MaxSplit) : Do2([a |-> "split", groups |-> g])

(* entries *)
Protos == {"V10", "V11", "V16", "V26", "DeprecatedV3"}
Headers == [proto : Protos, gid : {"", "g"}, gh : {"zero", "h"}]
Entry(k, id, v, gid, gh, fi, fh) == [kind |-> k, id |-> id, v |-> v, gid |-> gid, gh |-> gh, fGid |-> fi, fGh |-> fh]
Genesis(k, v) == { Entry(k, 1, v, gid, gh, fi, fh) : gid \in {"", "g", "other", "G", "gg", " "}, gh \in {"zero", "h", "other"}, fi \in BOOLEAN, fh \in BOOLEAN }
Entries == \E h \in Headers :
   \/ \E k \in Kinds, x \in Genesis("pay", "none") : x.fGid = FALSE /\ x.fGh = FALSE /\ Do2([a |-> "store", hdr |-> h, tx |-> [x EXCEPT !.kind = k]])
   \/ \E k \in {"pay", "appl"}, x \in Genesis("pay", "none") : Do2([a |-> "read", hdr |-> h, entry |-> [x EXCEPT !.kind = k]])
Whole(k, id, h, g) == Entry(k, id, "none", IF P(h).strip THEN "" ELSE h.gid, IF P(h).strip THEN "zero" ELSE h.gh, P(h).strip, P(h).strip /\ ~ P(h).req) @@ [grp |-> g]
ReadAll == \E pr \in {"V10", "V11", "V16", "V26"} : LET h == [proto |-> pr, gid |-> "g", gh |-> "h"] IN
   \E g \in Seqs({"zero", "x", "y"}, 3) :
      LET list == [ i \in DOMAIN g |-> Whole(IF i = 2 THEN "appl" ELSE "pay", i, h, g[i]) ] IN
      \/ Do2([a |-> "readall", hdr |-> h, list |-> list])
      \/ \E i \in DOMAIN g, x \in { y \in Genesis("pay", "none") : y.gid # "g" \/ y.fGid } :
           Do2([a |-> "readall", hdr |-> h, list |-> [list EXCEPT ![i] = [x EXCEPT !.id = i] @@ [grp |-> g[i]]]])

(* commitments *)
H(pr) == [proto |-> pr, gid |-> "g", gh |-> "h"]
E(k, id, pr) == Entry(k, id, "none", "", "zero", TRUE, pr = "V11")
Lists(pr) == { << >>, <<E("pay", 1, pr)>>, <<E("pay", 1, pr), E("appl", 1, pr)>>, <<E("pay", 1, pr), E("pay", 1, pr)>>,
               <<E("pay", 1, pr), E("axfer", 1, pr), E("pay", 2, pr)>>, <<E("pay", 1, pr), E("pay", 2, pr), E("pay", 1, pr), E("pay", 2, pr)>> }
Perms(q) == { [ i \in DOMAIN q |-> q[f[i]] ] : f \in { f \in [DOMAIN q -> DOMAIN q] : \A i, k \in DOMAIN q : i # k => f[i] # f[k] } }
M(h, l, h2, l2) == Do2([a |-> "match", hdr |-> h, list |-> l, hdr2 |-> h2, stored |-> l2])
Match ==
  \E pr \in {"V11", "V16", "V26"} :
    LET h == H(pr) IN
    \/ \E l \in Lists(pr) :
         \/ \E q \in Perms(l) \cup Lists(pr) : M(h, l, h, q)
         \/ \E i \in 1 .. Len(l) + 1 : \E e \in { l[k] : k \in DOMAIN l } \cup {E("pay", 3, pr)} : M(h, l, h, Put(l, i, e)) \/ M(h, Put(l, i, e), h, l)
         \/ \E i \in DOMAIN l : \/ M(h, l, h, Drop(l, i))
                                \/ \E x \in Genesis(l[i].kind, "none") : M(h, l, h, [l EXCEPT ![i] = x])
                                \/ \E k \in Kinds : M(h, l, h, [l EXCEPT ![i].kind = k])
         \/ \E g \in {"g", ""}, y \in {"h", "zero"}, z \in {"V10", "V11", "V16", "V26", "DeprecatedV3"} : M(h, l, [proto |-> z, gid |-> g, gh |-> y], l)
    \/ \E k \in Kinds : \E v \in Alterations(k) \cup {"none"} :
         \/ M(h, <<E(k, 1, pr)>>, h, <<[E(k, 1, pr) EXCEPT !.v = v]>>)
         \/ M(h, <<[E(k, 1, pr) EXCEPT !.v = v]>>, h, <<[E(k, 1, pr) EXCEPT !.v = v]>>)
         \/ M(h, <<E("pay", 2, pr), [E(k, 1, pr) EXCEPT !.v = v], E("cert", 1, pr)>>, h, <<E("pay", 2, pr), E(k, 1, pr), E("cert", 1, pr)>>)
Unsupported == \E z \in {"V10", "DeprecatedV3"} : M(H(z), <<E("pay", 1, z)>>, H("V26"), <<E("pay", 1, "V26")>>)
Prove == \E l \in Lists("V26") \cup {<<E("pay", 1, "V26"), E("pay", 2, "V26"), E("pay", 3, "V26"), E("appl", 1, "V26"), E("pay", 5, "V26")>>} :
           \E i, j, k \in DOMAIN l : Do2([a |-> "prove", hdr |-> H("V26"), list |-> l, i |-> i, j |-> j, k |-> k])

Init == op = << >> /\ res = << >> /\ st = "ready"
Next == CASE What = "fees" -> Fee
          [] What = "entries" -> Groups \/ Entries \/ ReadAll
          [] What = "commit" -> Match \/ Unsupported \/ Prove
Spec == Init /\ [][Next]_vars

RECURSIVE Flat(_)
Flat(q) == IF q = << >> THEN << >> ELSE Head(q) \o Flat(Tail(q))
GroupsFit ==
    [][op'.a = "split" =>
        LET q == res'.split
            same(i) == \E k \in DOMAIN q : \E m \in DOMAIN q[k] : m < Len(q[k]) /\ q[k][m] = i
        IN  /\ Flat(q) = Iota(Len(op'.groups))
            /\ \A k \in DOMAIN q : q[k] # << >>
            /\ \A i \in 1 .. Len(op'.groups) - 1 : same(i) <=> op'.groups[i] = op'.groups[i + 1] /\ op'.groups[i] # "zero"]_vars
RoundTrip == [][op'.a = "store" =>
    LET x == Store(op'.hdr, op'.tx) IN x # << >> => Read(op'.hdr, x[1]) = <<[gid |-> op'.tx.gid, gh |-> op'.tx.gh]>>]_vars
OwnChain == [][op'.a = "store" /\ res'.ok = "ok" /\ P(op'.hdr).strip => op'.tx.gid \in {"", op'.hdr.gid} /\ op'.tx.gh \in {"zero", op'.hdr.gh}]_vars
(* no other entry reads back as the same transaction *)
Unique == [][op'.a = "read" /\ res'.ok = "ok" /\ P(op'.hdr).strip /\ op'.hdr.gid # "" /\ op'.hdr.gh # "zero" =>
    \A y \in Genesis(op'.entry.kind, "none") : (Read(op'.hdr, y) = Read(op'.hdr, op'.entry)) => (y = op'.entry)]_vars
Binding == [][op'.a = "match" /\ op'.hdr = op'.hdr2 /\ res'.commit = "ok" => (res'.match[1] <=> op'.list = op'.stored)]_vars
OwnPlace == [][op'.a = "prove" /\ res'.ok = "ok" => /\ (res'.accept[1] => op'.list[op'.k] = op'.list[op'.j])
                                                   /\ ((op'.i = op'.j /\ op'.j = op'.k) => res'.accept[1])]_vars
=============================================================================
