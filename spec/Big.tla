-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Natural numbers of arbitrary size, as little-endian sequences of        *)
(* base-10^4 digits without leading zeros (zero is <<>>).  TLC's integers  *)
(* are 32 bits wide; the code under specification computes with 64 bits,   *)
(* and the interesting cases are at the ends of that range.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences

BASE == 10000

Zero == << >>

RECURSIVE BigOfNat(_)
BigOfNat(n) == IF n = 0 THEN << >> ELSE <<n % BASE>> \o BigOfNat(n \div BASE)

RECURSIVE Norm(_)
Norm(a) == IF a # << >> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a

IsBig(a) == /\ a \in Seq(0 .. BASE - 1)
            /\ a = << >> \/ a[Len(a)] # 0

D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, n, c) ==
    IF i > n THEN (IF c = 0 THEN << >> ELSE <<c>>)
    ELSE LET s == D(a, i) + D(b, i) + c
         IN  <<s % BASE>> \o AddFrom(a, b, i + 1, n, s \div BASE)
Add(a, b) == AddFrom(a, b, 1, MaxLen(a, b), 0)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN 1 ELSE 2)
    ELSE CmpFrom(a, b, i - 1)
(* 0: equal, 1: a < b, 2: a > b *)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN 1 ELSE 2)
             ELSE CmpFrom(a, b, Len(a))
Lt(a, b) == Cmp(a, b) = 1
Le(a, b) == Cmp(a, b) # 2
Gt(a, b) == Cmp(a, b) = 2
Ge(a, b) == Cmp(a, b) # 1

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
    IF i > Len(a) THEN << >>
    ELSE LET d == a[i] - D(b, i) - c
         IN  IF d < 0 THEN <<d + BASE>> \o SubFrom(a, b, i + 1, 1)
                      ELSE <<d>> \o SubFrom(a, b, i + 1, 0)
(* a - b for a >= b *)
Sub(a, b) == Norm(SubFrom(a, b, 1, 0))

RECURSIVE MulDigitFrom(_, _, _, _)
MulDigitFrom(a, d, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE <<c>>)
    ELSE LET p == a[i] * d + c
         IN  <<p % BASE>> \o MulDigitFrom(a, d, i + 1, p \div BASE)
MulDigit(a, d) == IF d = 0 \/ a = << >> THEN << >> ELSE MulDigitFrom(a, d, 1, 0)

RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, j) ==
    IF j > Len(b) THEN << >>
    ELSE LET rest == MulFrom(a, b, j + 1)
         IN  Add(MulDigit(a, b[j]), IF rest = << >> THEN << >> ELSE <<0>> \o rest)
Mul(a, b) == IF a = << >> \/ b = << >> THEN << >> ELSE MulFrom(a, b, 1)

(* the largest digit q in lo..hi with q*b <= r *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN  IF Le(MulDigit(b, m), r) THEN QDigit(r, b, m, hi) ELSE QDigit(r, b, lo, m - 1)

(* bounds for it from the leading digits of r < BASE * b *)
Lead(r, b) == IF Len(r) > Len(b) THEN r[Len(r)] * BASE + r[Len(r) - 1] ELSE r[Len(r)]
QLow(r, b) == Lead(r, b) \div (b[Len(b)] + 1)
QHigh(r, b) == LET h == (Lead(r, b) + 1) \div b[Len(b)] IN IF h > BASE - 1 THEN BASE - 1 ELSE h

RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, b, i, r) ==          \* digits i..1 of a still to bring down
    IF i = 0 THEN [q |-> << >>, r |-> r]
    ELSE LET r1 == Norm(<<a[i]>> \o r)
             q  == IF Len(r1) < Len(b) THEN 0 ELSE QDigit(r1, b, QLow(r1, b), QHigh(r1, b))
             t  == DivFrom(a, b, i - 1, Sub(r1, MulDigit(b, q)))
         IN  [q |-> t.q \o <<q>>, r |-> t.r]
(* quotient and remainder, b # 0 *)
DivMod(a, b) == LET t == DivFrom(a, b, Len(a), << >>) IN [q |-> Norm(t.q), r |-> t.r]
Div(a, b) == DivMod(a, b).q
Mod(a, b) == DivMod(a, b).r

MinB(a, b) == IF Le(a, b) THEN a ELSE b
MaxB(a, b) == IF Le(a, b) THEN b ELSE a
MonusB(a, b) == IF Le(b, a) THEN Sub(a, b) ELSE << >>

One == <<1>>
U32MAX == <<7295, 9496, 42>>                                \* 4294967295
U64MAX == <<1615, 955, 737, 6744, 1844>>                   \* 18446744073709551615
U64MOD == <<1616, 955, 737, 6744, 1844>>
IsU64(a) == Le(a, U64MAX)
SatAdd(a, b) == MinB(Add(a, b), U64MAX)
SatMul(a, b) == MinB(Mul(a, b), U64MAX)
WrapAdd(a, b) == LET s == Add(a, b) IN IF Le(s, U64MAX) THEN s ELSE Sub(s, U64MOD)
=============================================================================
