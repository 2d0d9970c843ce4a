------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Validates a recorded execution of the code against a specification.     *)
(* The trace is a file of lines {"op":..,"obs":..}; "init" operations       *)
(* start an episode (StartOf gives its state).  Every other line must be   *)
(* one of the outcomes the specification allows in the state reached so    *)
(* far.  A line that is not is printed, and the rest of its episode is     *)
(* skipped.                                                                *)
(***************************************************************************)
EXTENDS SM, IOUtils

CONSTANTS OutcomesOf(_, _), StartOf(_)

VARIABLES ln, skip

Trace == ndJsonDeserialize(IOEnv.TRACE)

TInit == /\ ln = 1 /\ skip = TRUE
         /\ st = << >> /\ op = << >> /\ res = << >>

Fits(e) == { x \in OutcomesOf(st, e.op) : x.res = e.obs }

TNext ==
    /\ ln <= Len(Trace)
    /\ ln' = ln + 1
    /\ LET e == Trace[ln] IN
       /\ op' = e.op.a
       /\ IF e.op.a = "init"
          THEN /\ st' = StartOf(e.op) /\ skip' = FALSE /\ res' = << >>
          ELSE IF skip
          THEN UNCHANGED <<st, skip, res>>
          ELSE IF Fits(e) = {}
          THEN /\ PrintT("@M " \o ToJson(<<ln, { x.res : x \in OutcomesOf(st, e.op) }>>))
               /\ skip' = TRUE /\ UNCHANGED <<st, res>>
          ELSE /\ \E x \in Fits(e) : st' = x.st /\ res' = << >>
               /\ skip' = FALSE

TSpec == TInit /\ [][TNext]_<<st, op, res, ln, skip>>
(* the whole trace was read *)
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
