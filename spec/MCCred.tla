------------------------------- MODULE MCCred -------------------------------
EXTENDS Cred

CONSTANT What, Size

(* ---- selection: all stakes, totals and sizes to a bound, hashes at every step of the distribution *)
B(n) == BigOfNat(n)
RECURSIVE PowB(_, _)
PowB(n, k) == IF k = 0 THEN One ELSE Mul(B(n), PowB(n, k - 1))
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE SumB(_, _, _, _)
(* numerator of the cumulative probability of 0 .. k, over total^money *)
SumB(money, total, size, k) ==
    LET x == Mul(B(Binom(money, k)), Mul(PowB(size, k), PowB(total - size, money - k)))
    IN  IF k = 0 THEN x ELSE Add(x, SumB(money, total, size, k - 1))
Step(money, total, size, k) == Div(Mul(Range256, SumB(money, total, size, k)), PowB(total, money))
Tiny == Div(Range256, B(10000000))
Around(x) == { t \in { MonusB(x, Tiny), Add(x, Tiny) } : Le(t, Range256) }
Hashes(money, total, size) == {Zero, Range256} \cup UNION { Around(Step(money, total, size, k)) : k \in 0 .. money }
(* the same by the definition, in exact arithmetic *)
Reaches(money, total, size, t, k) == Ge(Mul(SumB(money, total, size, k), Range256), Mul(t, PowB(total, money)))
Exact(money, total, size, t) == IF \E k \in 0 .. money : Reaches(money, total, size, t, k)
                                THEN CHOOSE k \in 0 .. money : Reaches(money, total, size, t, k) /\ \A j \in 0 .. k - 1 : ~ Reaches(money, total, size, t, j)
                                ELSE money

Select == st = Empty /\ \E money \in 1 .. Size, total \in 1 .. Size + 2 : money <= total /\ \E size \in 1 .. total : \E t \in Hashes(money, total, size) :
    Do([a |-> "select", money |-> B(money), total |-> B(total), size |-> B(size), ts |-> <<t>>])

(* ---- credentials whose selection is certain: all substitutions *)
Verify == \E by, key \in {"k", "l", "bad"}, on, sel \in {"s", "r"}, addr \in {"A", "B"}, sep \in BOOLEAN, stake \in {0, 1, Size}, status \in {"Online", "Offline", "NotParticipating"} :
    /\ by # "bad" /\ Len(st.creds) < 2
    /\ (status # "Online" => stake = Size) /\ (stake = 1 => addr = "A")
    /\ (Len(st.creds) = 1 => (key # "bad" /\ stake = Size /\ status = "Online" /\ by = key /\ on = sel))
    /\ Do([a |-> "verify", by |-> by, key |-> key, on |-> on, sel |-> sel, addr |-> addr, sep |-> sep, stake |-> B(stake), total |-> B(IF stake = 0 THEN 7 ELSE stake), size |-> B(IF stake = 0 THEN 7 ELSE stake), status |-> status])
Ask == \E i, j \in DOMAIN st.creds : Do([a |-> "eq", i |-> i, j |-> j]) \/ (i = j /\ Do([a |-> "selected", i |-> i]))

Init == op = << >> /\ res = << >> /\ st = Empty
Next == IF What = "select" THEN Select ELSE Verify \/ Ask
Spec == Init /\ [][Next]_<<st, op>>

(* the working definition agrees with the exact one *)
Agrees == [][(op'.a = "select" /\ (op'.ts[1] \notin {Zero, Range256} \/ res'.counts[1] = 0)) =>
              res'.counts = <<Exact(IF op'.money = Zero THEN 0 ELSE op'.money[1], op'.total[1], op'.size[1], op'.ts[1])>>]_vars
(* selection is monotone in the hash *)
Monotone == [][op'.a = "select" => \A k \in 0 .. op'.money[1] - 1 : LET x == Step(op'.money[1], op'.total[1], op'.size[1], k)
              IN Lt(op'.ts[1], MonusB(x, One)) => Exact(op'.money[1], op'.total[1], op'.size[1], op'.ts[1]) <= k]_vars
(* only the maker's key, the selector asked for, and an online stake are accepted *)
Sound == [][op'.a = "verify" => (res'.ok => (op'.by = op'.key /\ op'.on = op'.sel /\ op'.status = "Online" /\ res'.w >= 1 /\ Le(B(res'.w), op'.stake)))]_vars
(* hashes tell rules, keys, selectors and accounts apart *)
Apart == \A i, j \in DOMAIN st.creds : (st.creds[i].term = st.creds[j].term) <=> (Place(st.known, st.creds[i].term) = Place(st.known, st.creds[j].term))
=============================================================================
