--------------------------------- MODULE SM ---------------------------------
(***************************************************************************)
(* What every specification of this directory is made of: one state        *)
(* variable `st', and, hidden from the state graph by a VIEW, the          *)
(* operation just performed and the answer it gave.  A specification       *)
(* module X defines Outcomes(s, o): the set of [st, res] records that      *)
(* operation o may produce in state s, and the named actions and           *)
(* properties over it.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

VARIABLES st, op, res
vars == <<st, op, res>>
View == st

Out(s, r) == { [st |-> s, res |-> r] }

(* printed for every transition of the state graph; the conformance driver *)
(* replays each of them against the code                                   *)
Emit == PrintT("@T " \o ToJson(<<st, op', res', st'>>))
=============================================================================
