-------------------------------- MODULE Kinds --------------------------------
(***************************************************************************)
(* What is hashed and signed.  Objects of many kinds are turned into bytes *)
(* that begin with the mark of their kind; no mark begins another, so that *)
(* neither a hash nor a signature made for an object is good for one of    *)
(* another kind, whatever the object holds.  An object is a kind and a     *)
(* number; of some kinds ("free") the rest of the bytes can be chosen.     *)
(*                                                                         *)
(* st: the signatures made so far.                                         *)
(***************************************************************************)
EXTENDS SM, Integers

Mark == [message |-> <<"M", "X">>, tx |-> <<"T", "X">>, group |-> <<"T", "G">>, stib |-> <<"S", "T", "I", "B">>,
         header |-> <<"B", "H">>, balance |-> <<"B", "R">>, genesis |-> <<"G", "E">>, ticket |-> <<"C", "R">>,
         batch |-> <<"O", "T", "1">>, offset |-> <<"O", "T", "2">>, payset |-> <<"P", "F">>, leaf |-> <<"T", "L">>,
         node |-> <<"M", "A">>, seed |-> <<"S", "D">>, app |-> <<"a", "p", "p", "I", "D">>,
         special |-> <<"s", "p", "e", "c", "i", "a", "l", "_", "a", "d", "d", "r">>]
Kinds == DOMAIN Mark
Free == {"message", "special", "seed", "node", "app"}
Signers == {"ots", "vrf", "tx"}

Begins(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* whether an object of the free kind f can be made whose bytes are those of an object of kind k *)
Forgeable(f, k) == f = k \/ Begins(Mark[f], Mark[k]) \/ Begins(Mark[k], Mark[f])

Outcomes(s, o) ==
    CASE o.a = "rep" -> Out(s, [mark |-> Mark[o.o.kind], hash |-> TRUE, first |-> o.o])
      (* addresses nobody has the key of *)
      [] o.a = "address" -> Out(s, [first |-> o.o, same |-> TRUE])
      [] o.a = "forge" -> Out(s, [same |-> Forgeable(o.free, o.o.kind)])
      [] o.a = "sign" -> Out(Append(s, [by |-> o.by, o |-> o.o]), TRUE)
      [] o.a = "check" -> Out(s, s[o.i].o = o.o)
Start(o) == << >>
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
