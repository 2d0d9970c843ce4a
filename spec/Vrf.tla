--------------------------------- MODULE Vrf ---------------------------------
(***************************************************************************)
(* Verifiable random outputs.  A proof is described by the key and message *)
(* it was made of and by how it was then altered; a public key by the key  *)
(* pair and how it was altered.  An output is known only as equal to or    *)
(* different from the ones before: st is the sequence of key and message   *)
(* pairs that outputs were obtained for, each standing for its own output. *)
(*                                                                         *)
(* Messages are byte strings, or objects, which are proved as the digest   *)
(* of their kind's prefix followed by their contents.                      *)
(***************************************************************************)
EXTENDS SM

Bytes(m) == IF m.t = "raw" THEN [t |-> "raw", p |-> "", d |-> m.d] ELSE [t |-> "digest", p |-> m.p, d |-> m.d]
Plain == [k |-> "none"]
(* Proofs of the same that only the owner of the key can make: with another *)
(* nonce, and with a point of small order added ("twist").  Nothing is said *)
(* about accepting the latter, but its output must be the same.             *)
OwnersOnly == {"nonce", "twist"}
Valid(o) == /\ o.pk.alt = Plain
            /\ o.pk.key = o.proof.key
            /\ o.proof.alt.k \in {"none"} \cup OwnersOnly
            /\ Bytes(o.msg) = Bytes(o.proof.msg)
Subject(o) == <<o.proof.key, Bytes(o.msg)>>
Place(q, x) == IF \E i \in DOMAIN q : q[i] = x THEN CHOOSE i \in DOMAIN q : q[i] = x ELSE Len(q) + 1
Seen(q, x) == IF \E i \in DOMAIN q : q[i] = x THEN q ELSE Append(q, x)

Outcomes(s, o) ==
    CASE o.a = "prove" -> Out(s, [same |-> TRUE])
      [] o.a = "verify" -> (IF Valid(o) THEN Out(Seen(s, Subject(o)), [ok |-> TRUE, out |-> Place(s, Subject(o)), same |-> TRUE]) ELSE {})
                            \cup (IF Valid(o) /\ o.proof.alt.k # "twist" THEN {} ELSE Out(s, [ok |-> FALSE]))

Start(o) == << >>
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
