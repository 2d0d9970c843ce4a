------------------------------- MODULE Rounds -------------------------------
(***************************************************************************)
(* Arithmetic on rounds, amounts and digests, over the whole range of 64   *)
(* bits.  There is no state; operations whose mathematical result does not *)
(* fit into 64 bits are not asked for.                                     *)
(***************************************************************************)
EXTENDS SM, Integers, Big

(* the least multiple of b that is no less than a *)
Up(a, b) == LET t == DivMod(a, b) IN IF t.r = Zero THEN a ELSE Mul(Add(t.q, One), b)
(* the number written by eight bytes, the lowest first *)
RECURSIVE LittleEndian(_)
LittleEndian(q) == IF q = << >> THEN Zero ELSE Add(MulDigit(LittleEndian(Tail(q)), 256), BigOfNat(Head(q)))

Outcomes(s, o) ==
    CASE o.a = "monus" -> Out(s, MonusB(o.x, o.y))
      [] o.a = "up" -> Out(s, Up(o.x, o.y))
      [] o.a = "plus" -> Out(s, [round |-> Add(o.x, o.y), amount |-> Add(o.x, o.y)])
      [] o.a = "key" -> LET t == DivMod(o.x, o.y) IN Out(s, [batch |-> t.q, offset |-> t.r])
      [] o.a = "trim" -> Out(s, [n |-> LittleEndian(SubSeq(o.bytes, 1, 8)), zero |-> \A i \in DOMAIN o.bytes : o.bytes[i] = 0])
      [] o.a = "order" -> Out(s, [lt |-> Lt(o.x, o.y), eq |-> o.x = o.y, zero |-> o.x = Zero])

Asks(o) == CASE o.a = "plus" -> IsU64(Add(o.x, o.y))
             [] o.a = "up" -> o.y # Zero /\ IsU64(Up(o.x, o.y))
             [] o.a = "key" -> o.y # Zero
             [] OTHER -> TRUE
Start(o) == << >>
Do(o) == Asks(o) /\ \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
