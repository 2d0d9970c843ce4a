------------------------------- MODULE Float -------------------------------
(***************************************************************************)
(* Non-negative numbers m * BASE^e, m a Big of at most W digits: enough    *)
(* precision (36 decimals) to sum up binomial probabilities that           *)
(* themselves may be far below the smallest 64-bit float.                  *)
(***************************************************************************)
EXTENDS Big, Integers

W == 9
FNorm(m, e) == IF Len(m) > W THEN [m |-> SubSeq(m, Len(m) - W + 1, Len(m)), e |-> e + Len(m) - W] ELSE [m |-> m, e |-> e]
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN << >> ELSE <<0>> \o Zeros(n - 1)
ShiftUp(m, n) == IF m = << >> THEN m ELSE Zeros(n) \o m
FBig(n) == FNorm(n, 0)
FMul(a, b) == FNorm(Mul(a.m, b.m), a.e + b.e)
FScale(a, n, d) == FNorm(Div(ShiftUp(Mul(a.m, n), W), d), a.e - W)     \* a * n / d for Big n, d
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = << >> THEN FBig(One)
              ELSE LET h == DivMod(n, <<2>>)
                       r == FPow(a, h.q)
                       q == FMul(r, r)
                   IN  IF h.r = << >> THEN q ELSE FMul(q, a)
(* in units of BASE^-PLACES, rounded down *)
PLACES == 7
Fixed(a) == LET k == a.e + PLACES
            IN  IF k >= 0 THEN ShiftUp(a.m, k) ELSE IF -k >= Len(a.m) THEN << >> ELSE SubSeq(a.m, 1 - k, Len(a.m))
UNIT == Zeros(PLACES) \o <<1>>
=============================================================================
