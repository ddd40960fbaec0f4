----------------------------- MODULE ResampleGen -----------------------------
(* Random files and conversions for replay.                                  *)
EXTENDS Resample, IOUtils, Json
VARIABLES log, n
vars == <<log, n>>
R(X) == RandomElement(X)
Lat(rank) ==
  IF rank = 1 THEN <<<<R(1..3), 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
  ELSE LET a == R(1..2)  b == R(-1..2)  c == R(1..2)  d == R(1..2)
           plain == <<<<a, 0, 0>>, <<b, c, 0>>, <<0, 0, d>>>>
       IN CASE R(1..3) = 1 /\ rank = 3 -> <<<<a, 0, 0>>, <<b, c, 0>>, <<R(0..1), R(-1..1), d>>>>
            [] R(1..4) = 1 -> <<<<3 * a, 4 * a, 0>>, <<3 * b - 4 * c, 4 * b + 3 * c, 0>>, <<0, 0, 5 * d>>>>
            [] OTHER -> plain
N(rank) == <<R(1..6), IF rank < 2 THEN 1 ELSE R(2..5), IF rank < 3 THEN 1 ELSE R(2..4)>>
Edge(rank) == IF rank = 1 \/ R(1..2) = 1 THEN <<0, 0, 0>>
              ELSE <<R(-1..2), R(-2..2), IF rank = 3 THEN R({0, 0, 1}) ELSE 0>>
Halves(x) == R({2, 2, 2, 4, 4, 6, 1, 3})
Quarters(x) == R(0..3)
Conv ==
  \E rank \in {R({1, 2, 2, 2, 3})} : \E A \in {Lat(rank)}, d \in {N(rank)}, e \in {Edge(rank)}, plain \in {R(1..8) = 1} :
  \E k \in {IF R(1..4) = 1 THEN Zero ELSE <<Quarters(1), Quarters(2), Quarters(3)>>},
     g \in {<<R({1, 1, 2}), IF rank > 1 THEN R({1, 1, 2}) ELSE 1, 1>>} :
  \E f \in {[rank |-> rank, n |-> d, A |-> A, k |-> k, g |-> g]} :
  \E rect \in {e # Zero \/ R(1..3) = 1} :
  \E o \in {IF plain THEN [rect |-> FALSE, e |-> Zero, m |-> <<2, 2, 2>>, res |-> 0, T |-> FALSE, p |-> FALSE, P |-> 0]
            ELSE [rect |-> rect, e |-> e, m |-> IF R(1..2) = 1 THEN (LET h == Halves(0) IN <<h, h, h>>) ELSE <<Halves(1), Halves(2), Halves(3)>>,
                  res |-> R({0, 0, 0, 1, 2, 3, 5}), T |-> rank > 1 /\ R(1..4) = 1, p |-> R(1..4) = 1, P |-> IF R(1..3) = 1 THEN R(1..3) ELSE 0]} :
     log' = IF o.rect /\ ~CanRect(In(f), E(f, o)) THEN log
            ELSE Append(log, [f |-> f, o |-> o, kind |-> R({"data", "cplx", "cplx", "vec", "vec", "vec", "part", "eps", "named", "colon"}),
                              mode |-> R({"in", "out", "twice", "pair"}), seed |-> R(1..100000)])
Depth == 8
Init == log = <<>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ Conv
Spec == Init /\ [][Next \/ (n = Depth /\ UNCHANGED vars)]_vars
Emit == (TLCGet("level") = Depth + 1) => PrintT("@J " \o ToJson([log |-> log]))
=============================================================================
