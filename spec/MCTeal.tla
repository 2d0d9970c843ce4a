------------------------------- MODULE MCTeal -------------------------------
EXTENDS Teal

CONSTANTS MaxUint

N(n) == BigOfNat(n)
Hi(n) == Sub(U64MAX, N(n))
E0 == [uint |-> Zero, bytes |-> Zero]

Init == op = << >> /\ res = << >> /\ st = E0

(* every one-entry delta around the limits, in bytes and in characters *)
Limits == { <<4, 6, 8>>, <<4, 6, 100>>, <<0, 6, 8>>, <<4, 0, 8>> }
Keys(id) == { [id |-> id, n |-> n, w |-> w] : n \in {0, 1, 2, 4, 5}, w \in {1, 2, 4} }
Vals == { [action |-> x, len |-> n, uint |-> Zero] : x \in {"bytes"}, n \in {0, 4, 5, 6, 7, 8} }
        \cup { [action |-> x, len |-> n, uint |-> N(3)] : x \in {"uint", "delete"}, n \in {0, 200} }
V(l, d) == [a |-> "valid", maxKey |-> l[1], maxVal |-> l[2], maxSum |-> l[3], delta |-> d]
Probe1 == \E l \in Limits, k \in Keys(1), v \in Vals : Do(V(l, << [key |-> k, val |-> v] >>))
Probe0 == \E l \in Limits : Do(V(l, << >>))
(* two entries: one bad one suffices *)
Probe2 == \E l \in { <<4, 6, 8>> }, k \in { [id |-> 1, n |-> n, w |-> 1] : n \in {1, 4, 5} }, j \in { [id |-> 2, n |-> n, w |-> 1] : n \in {1, 4, 5} },
            v \in { x \in Vals : x.len <= 8 }, w \in { x \in Vals : x.len <= 8 } :
            Do(V(l, << [key |-> k, val |-> v], [key |-> j, val |-> w] >>))

Convert == \E t \in {"bytes", "uint"}, n \in {0, 1, 64, 300}, x \in {Zero, One, Hi(0)} :
             \/ Do([a |-> "todelta", val |-> [type |-> t, len |-> n, uint |-> x]])
             \/ \E c \in {"bytes", "uint", "delete"} : Do([a |-> "toval", val |-> [action |-> c, len |-> n, uint |-> x]])

KV(nu, nb) == [i \in 1 .. nu + nb |-> [key |-> [id |-> i, n |-> 2, w |-> 1],
                 val |-> IF i <= nu THEN [type |-> "uint", len |-> 0, uint |-> N(i)] ELSE [type |-> "bytes", len |-> i, uint |-> Zero]]]
Count == \E nu \in 0 .. 3, nb \in 0 .. 3 : Do([a |-> "schema", add |-> FALSE, kv |-> KV(nu, nb)])

(* totals of applications opted in to and left again *)
Amounts == { E0, [uint |-> One, bytes |-> Zero], [uint |-> N(2), bytes |-> One], [uint |-> Hi(1), bytes |-> Zero],
             [uint |-> N(3), bytes |-> Hi(0)], [uint |-> Zero, bytes |-> N(5)] }
Grow == \E d \in Amounts, x \in {"add", "sub"} : Do([a |-> x, schema |-> d])
GrowKV == \E nu \in {0, 2}, nb \in {1, 3} : Do([a |-> "schema", add |-> TRUE, kv |-> KV(nu, nb)])

Small == \/ Le(st.uint, N(MaxUint)) /\ Le(st.bytes, N(MaxUint))
         \/ Ge(st.uint, Hi(2)) /\ Le(st.bytes, N(MaxUint))
         \/ Ge(st.bytes, Hi(2)) /\ Le(st.uint, N(MaxUint))
Next == \/ st = E0 /\ (Probe0 \/ Probe1 \/ Probe2 \/ Convert \/ Count)
        \/ Small /\ (Grow \/ GrowKV)
Spec == Init /\ [][Next]_vars

TypeOK == IsU64(st.uint) /\ IsU64(st.bytes)
(* adding never lowers, subtracting never raises a total *)
Direction == [][/\ op'.a = "add" => Ge(st'.uint, st.uint) /\ Ge(st'.bytes, st.bytes)
                /\ op'.a = "sub" => Le(st'.uint, st.uint) /\ Le(st'.bytes, st.bytes)]_vars
(* a conversion to a delta and back gives the value *)
RoundTrip == [][op'.a = "todelta" => res'.back = << Stored(op'.val) >> /\ ValueOf(res'.delta) = res'.back]_vars
=============================================================================
