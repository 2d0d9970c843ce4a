-------------------------------- MODULE Ots --------------------------------
(***************************************************************************)
(* One-time key sets.  A key set holds the keys of whole batches           *)
(* fb .. fb+nb-1, each able to certify any offset, and the keys of single  *)
(* offsets fo .. fo+no-1 of batch fb-1.                                    *)
(*                                                                         *)
(* Batches, offsets: Big; an identifier is [b, o].                         *)
(***************************************************************************)
EXTENDS SM, Big

Gen(start, n) == [fb |-> start, nb |-> n, fo |-> Zero, no |-> 0]
NB(n) == BigOfNat(n)

Broken(k, id) == Add(id.b, One) = k.fb /\ Ge(id.o, k.fo) /\ Lt(id.o, Add(k.fo, NB(k.no)))
Whole(k, id)  == Ge(id.b, k.fb) /\ Lt(id.b, Add(k.fb, NB(k.nb)))
Covers(k, id) == Broken(k, id) \/ Whole(k, id)

(* small Big -> natural *)
ToNat(x) == IF x = Zero THEN 0 ELSE IF Len(x) = 1 THEN x[1] ELSE x[1] + BASE * x[2]
Upto(a, n) == IF Ge(a, NB(n)) THEN 0 ELSE n - ToNat(a)     \* size of a .. n-1

(* deletes what lies before id; a batch is broken up into its d offsets when deletion reaches into it *)
Del(k, id, d) ==
    IF Add(id.b, One) = k.fb THEN
        IF Le(id.o, k.fo) THEN k
        ELSE LET by == Sub(id.o, k.fo)
                 j  == IF Gt(by, NB(k.no)) THEN k.no ELSE ToNat(by)
             IN  [k EXCEPT !.fo = Add(k.fo, NB(j)), !.no = k.no - j]
    ELSE IF Lt(id.b, k.fb) THEN k
    ELSE IF ~ Whole(k, id) THEN [k EXCEPT !.nb = 0, !.no = 0, !.fb = IF k.nb = 0 THEN k.fb ELSE id.b]
    ELSE [fb |-> Add(id.b, One), nb |-> k.nb - ToNat(Sub(id.b, k.fb)) - 1, fo |-> id.o, no |-> Upto(id.o, d)]
Secrets(k) == k.nb + k.no
(* secrets held both before and after a deletion *)
Kept(k, k2) == IF k2.fb = k.fb THEN Secrets(k2) ELSE k2.nb

Before(x, y) == Lt(x.b, y.b) \/ (x.b = y.b /\ Lt(x.o, y.o))
=============================================================================
