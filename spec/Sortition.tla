----------------------------- MODULE Sortition -----------------------------
(***************************************************************************)
(* How often an account is selected: its stake's units are drawn           *)
(* independently with probability size/total each, and the selection hash, *)
(* read as a fraction t/MAX of its range, picks the smallest count whose   *)
(* cumulative binomial probability reaches it.  The code computes with     *)
(* 64-bit floating point numbers, so a count is right if it is for a       *)
(* fraction within 10^-9 of the hash's.                                    *)
(***************************************************************************)
EXTENDS Float

Within == Zeros(4) \o <<1000>>          \* 10^-9 in units of BASE^-7 (10^-28): 10^19

(* the fraction t / (2^256 - 1) in units of BASE^-PLACES *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN One ELSE MulDigit(Pow2(n - 1), 2)
Range256 == <<9935, 2963, 9131, 4007, 5758, 394, 564, 6564, 9846, 3269, 785, 6879, 5008, 7098, 4235, 6195, 3731, 892, 5792, 11>>
ASSUME Range256 = Sub(Pow2(256), One)
Fraction(t) == Div(ShiftUp(t, PLACES), Range256)

(* CDF of 0 .. k of Binomial(money, size/total), size < total *)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(money, total, size, j, prob, sum, k) ==
    LET s2 == Add(sum, Fixed(prob))
    IN  IF j = k THEN <<s2>>
        ELSE <<s2>> \o Walk(money, total, size, j + 1,
                            FScale(prob, Mul(Sub(money, BigOfNat(j)), size), Mul(BigOfNat(j + 1), Sub(total, size))), s2, k)
Cdf(money, total, size, k) == Walk(money, total, size, 0, FPow(FScale(FBig(One), Sub(total, size), total), money), << >>, k)

(* whether count k (a natural number) is a right answer for the hash t *)
Reached(c, f) == Ge(Add(c, Within), f)
Before(c, f) == Lt(c, Add(f, Within))
RightFrom(cdf, money, f, k) ==
    /\ Le(BigOfNat(k), money)
    /\ BigOfNat(k) = money \/ Reached(cdf[k + 1], f)
    /\ k = 0 \/ Before(cdf[k], f)
(* the right counts for one hash, of a stake small enough to try them all *)
Rights(money, total, size, t) ==
    LET m == IF money = << >> THEN 0 ELSE money[1]
    IN  IF total = size THEN { IF t = << >> THEN 0 ELSE m }
        ELSE UNION { UNION { { k \in 0 .. m : RightFrom(cdf, money, f, k) } : f \in {Fraction(t)} } : cdf \in {Cdf(money, total, size, m)} }
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxOf(_)
MaxOf(q) == IF q = << >> THEN 0 ELSE Max2(Head(q), MaxOf(Tail(q)))

(* all hashes of ts, in ascending order, are answered rightly by ks *)
Certain(money, total, size) == total = size
Right(money, total, size, ts, ks) ==
    /\ Len(ks) = Len(ts)
    /\ \A i \in 1 .. Len(ks) - 1 : Le(ts[i], ts[i + 1]) => ks[i] <= ks[i + 1]
    /\ IF Certain(money, total, size)
       THEN \A i \in DOMAIN ks : BigOfNat(ks[i]) = (IF ts[i] = << >> THEN << >> ELSE money)
       ELSE \E cdf \in {Cdf(money, total, size, MaxOf(ks))} :
              \A i \in DOMAIN ks : \E f \in {Fraction(ts[i])} : RightFrom(cdf, money, f, ks[i])
=============================================================================
