------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Encodings and identifiers.  An object is given by its type w, its kind  *)
(* k (of transactions; "" otherwise) and the values of its fields, small   *)
(* numbers each naming a value; 0 is the empty or default value.  Fields   *)
(* of the same sort take the same values, so that a field read as another  *)
(* would show.                                                             *)
(*                                                                         *)
(* Two objects of a type have the same encoding exactly when they agree in *)
(* all fields; two objects of any type have the same identifier exactly    *)
(* when what is identified is of the same type and agrees in all fields    *)
(* belonging to its identity.                                              *)
(***************************************************************************)
EXTENDS SM

Kinds == {"pay", "keyreg", "acfg", "axfer", "afrz", "appl", "cert"}
(* how many values each field takes *)
TxHeader == [sender |-> 6, fee |-> 6, fv |-> 6, lv |-> 6, note |-> 4, gid |-> 6, gh |-> 6, grp |-> 6, lease |-> 6, rekey |-> 6]
Asset == [total |-> 6, dec |-> 4, frozen |-> 2, unit |-> 6, name |-> 6, url |-> 6, meta |-> 6, manager |-> 6, reserve |-> 6,
          freeze |-> 6, clawback |-> 6]
Own(k) ==
    CASE k = "pay" -> [rcv |-> 6, amt |-> 6, close |-> 4]
      [] k = "keyreg" -> [votePk |-> 3, selPk |-> 6, vf |-> 6, vl |-> 6, dil |-> 6, nonpart |-> 2]
      [] k = "acfg" -> [asset |-> 6] @@ Asset
      [] k = "axfer" -> [asset |-> 6, amt |-> 6, snd |-> 6, rcv |-> 6, close |-> 6]
      [] k = "afrz" -> [acct |-> 6, asset |-> 6, frz |-> 2]
      [] k = "appl" -> [app |-> 6, oc |-> 6, args |-> 5, accts |-> 4, fapps |-> 4, fassets |-> 4, lsu |-> 6, lsb |-> 6, gsu |-> 6,
                        gsb |-> 6, ap |-> 4, cs |-> 4, epp |-> 4]
      [] k = "cert" -> [round |-> 6]
Envelope == [sig |-> 6, msig |-> 7, lsig |-> 6, auth |-> 6]
Effects == [adClose |-> 6, adAclose |-> 6, adSrw |-> 6, adRrw |-> 6, adCrw |-> 6, adGlobal |-> 7, adLocal |-> 6, adLogs |-> 5,
            adInner |-> 5, adCfg |-> 6, adApp |-> 6]
Stored == [hasId |-> 2, hasHash |-> 2]
Header == [round |-> 6, branch |-> 6, seed |-> 6, txRoot |-> 6, ts |-> 6, gid |-> 6, gh |-> 6, sink |-> 6, pool |-> 6, level |-> 6,
           rate |-> 6, residue |-> 6, recalc |-> 6, cur |-> 3, next |-> 4, approvals |-> 6, before |-> 6, switch |-> 6, propose |-> 3,
           delay |-> 6, approve |-> 2, counter |-> 6, certs |-> 5]
Account == [status |-> 3, algos |-> 6, rbase |-> 6, rewarded |-> 6, votePk |-> 3, selPk |-> 6, vf |-> 6, vl |-> 6, dil |-> 6,
            assetParams |-> 5, assets |-> 6, auth |-> 6, locals |-> 6, apps |-> 7, schU |-> 6, schB |-> 6, pages |-> 4]
Config == [schema |-> 6, network |-> 6, proto |-> 3, allocs |-> 6, rp |-> 6, sink |-> 6, ts |-> 6, comment |-> 6, dev |-> 2]
Cards(w, k) ==
    CASE w = "tx" -> TxHeader @@ Own(k)
      [] w = "stx" -> TxHeader @@ Own(k) @@ Envelope
      [] w = "stib" -> TxHeader @@ Own(k) @@ Envelope @@ Effects @@ Stored
      [] w = "header" -> Header
      [] w = "account" -> Account
      [] w = "record" -> [addr |-> 6] @@ Account
      [] w = "genesis" -> Config
      [] w = "vrf" -> [key |-> 6]
      [] w = "vrfpk" -> [key |-> 6]
      [] w = "pair" -> [key |-> 3]
      [] w = "msig" -> [version |-> 3, threshold |-> 3, subs |-> 7]
      [] w = "kv" -> [kv |-> 8]
      [] w = "ots1" -> [key |-> 3, batch |-> 6]
      [] w = "ots2" -> [key |-> 3, batch |-> 6, offset |-> 6]
      [] w = "app" -> [n |-> 6]
      [] w = "seed" -> [v |-> 6]
      [] w = "group" -> [q |-> 7]
      [] w = "node" -> [l |-> 6, r |-> 6]
      [] w = "text" -> [x |-> 6]

Wraps == {"tx", "stx", "stib"}
Others == {"header", "account", "record", "genesis", "vrf", "vrfpk", "pair", "msig", "kv", "ots1", "ots2", "app", "seed", "group", "node", "text"}
Types == (Wraps \X Kinds) \cup { <<w, "">> : w \in Others }

(* what has an encoding, and what has an identifier *)
Encoded(w) == w \notin {"node", "text"}
Identified(w) == w \notin {"account", "vrf", "vrfpk", "pair", "msig", "kv"}

Least(a, b) == IF a <= b THEN a ELSE b
(* x: [w, k, base, d]: the base value everywhere, except where d says otherwise *)
Fields(x) == LET C == Cards(x.w, x.k) IN
    [ f \in DOMAIN C |-> IF \E i \in DOMAIN x.d : x.d[i][1] = f
                         THEN (CHOOSE e \in { x.d[i] : i \in DOMAIN x.d } : e[1] = f)[2]
                         ELSE Least(x.base, C[f] - 1) ]
Object(x) == <<x.w, x.k, TLCEval(Fields(x))>>
IdFields(w, k) == IF w = "stx" THEN DOMAIN Cards("tx", k) ELSE DOMAIN Cards(w, k)
Identity(x) == LET F == TLCEval(Fields(x))
                   w == IF x.w = "stx" THEN "tx" ELSE x.w
               IN <<w, x.k, [ f \in IdFields(x.w, x.k) |-> F[f] ]>>

(* numbers the members of a sequence by first appearance *)
Labels(q) == [ i \in DOMAIN q |-> CHOOSE j \in 1 .. i : q[j] = q[i] /\ \A m \in 1 .. (j - 1) : q[m] # q[i] ]

ListAnswer(q) ==
    LET A == TLCEval([ i \in DOMAIN q |-> TLCEval(Object(q[i])) ])
        B == TLCEval([ i \in DOMAIN q |-> TLCEval(Identity(q[i])) ])
        E == TLCEval(Labels(A))
        I == TLCEval(Labels(B))
    IN [ i \in DOMAIN q |-> [back |-> TRUE,
                             enc |-> IF Encoded(q[i].w) THEN E[i] ELSE 0,
                             id |-> IF Identified(q[i].w) THEN I[i] ELSE 0] ]

(* how many objects differ from a base object in up to two fields, those fields being among S and having the first
   three values *)
RECURSIVE Total(_, _)
Total(S, g) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN g[s] + Total(S \ {s}, g)
UpToTwo(C, S) ==
    LET n == [ f \in S |-> Least(C[f], 3) - 1 ]
        s == Total(S, n)
        q == Total(S, [ f \in S |-> n[f] * n[f] ])
    IN 1 + s + (s * s - q) \div 2
Square(o) ==
    LET C == Cards(o.w, o.k) IN
    [back |-> TRUE, objects |-> UpToTwo(C, DOMAIN C),
     enc |-> IF Encoded(o.w) THEN UpToTwo(C, DOMAIN C) ELSE 0,
     id |-> IF Identified(o.w) THEN UpToTwo(C, IdFields(o.w, o.k)) ELSE 0]

(* no type's prefix begins another's *)
Begins(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
PrefixFree(q) == \A i, j \in DOMAIN q : i # j => ~ Begins(q[i].p, q[j].p)

Fresh == 0
Start(o) == {0}
Outcomes(s, o) ==
    CASE o.a = "init" -> { [st |-> 0, res |-> "ready"] }
      [] o.a = "list" -> { [st |-> s, res |-> ListAnswer(o.x)] }
      [] o.a = "square" -> { [st |-> s, res |-> Square(o)] }
      [] o.a = "fields" -> { [st |-> s, res |-> Cards(o.w, o.k)] }
      (* no part of an encoding is one *)
      [] o.a = "cut" -> { [st |-> s, res |-> [refused |-> TRUE]] }
      (* o.seen: the prefixes in use *)
      [] o.a = "prefixes" -> { [st |-> s, res |-> PrefixFree(o.seen)] }
      (* one-time keys made, used up to a point, and read back from their encoding *)
      [] o.a = "ots" -> { [st |-> s, res |-> [back |-> TRUE, apart |-> TRUE]] }

Do(o) == \E r \in Outcomes(st, o) : op' = o /\ res' = r.res /\ st' = r.st
=============================================================================
