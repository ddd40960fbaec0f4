------------------------------ MODULE SymmetryGen ------------------------------
(* Random structures with a chosen group (objects repeated along their orbits),  *)
(* and random fields with operations that map the grid to itself.                *)
EXTENDS Symmetry, SequencesExt, IOUtils, Json
VARIABLES log, n
vars == <<log, n>>
R(S) == RandomElement(S)
M2(a, b, c, d) == <<<<a, b, 0>>, <<c, d, 0>>, <<0, 0, 1>>>>
Neg == <<<<0 - 1, 0, 0>>, <<0, 0 - 1, 0>>, <<0, 0, 0 - 1>>>>
C4 == M2(0, 0 - 1, 1, 0)
C6 == M2(0, 0 - 1, 1, 1)
Mx == M2(0 - 1, 0, 0, 1)
Md == M2(0, 1, 1, 0)
C2 == M2(0 - 1, 0, 0, 0 - 1)
Cyc == <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>
Mz == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 0 - 1>>>>
O0(W) == Op(W, <<0, 0, 0>>)
Gens == <<[d |-> 2, lat |-> "sq", s |-> {O0(C4), O0(Mx)}], [d |-> 2, lat |-> "hex", s |-> {O0(C6), O0(Md)}], [d |-> 2, lat |-> "rect", s |-> {Op(Mx, <<0, 12, 0>>)}],
  [d |-> 2, lat |-> "rect", s |-> {Op(Mx, <<12, 12, 0>>), O0(C2)}], [d |-> 2, lat |-> "sq", s |-> {O0(C4), Op(Mx, <<12, 12, 0>>)}], [d |-> 2, lat |-> "hex", s |-> {O0(MulM(C6, C6))}],
  [d |-> 2, lat |-> "rhomb", s |-> {O0(Md), O0(C2)}], [d |-> 2, lat |-> "sq", s |-> {O0(C4)}], [d |-> 2, lat |-> "rect", s |-> {Op(Mx, <<12, 0, 0>>), O0(C2)}],
  [d |-> 3, lat |-> "sq", s |-> {Op(C4, <<0, 0, 6>>)}], [d |-> 3, lat |-> "rect", s |-> {O0(Neg), Op(Mx, <<0, 0, 12>>)}], [d |-> 3, lat |-> "rhomb", s |-> {O0(Md), O0(Neg)}],
  [d |-> 3, lat |-> "sq", s |-> {O0(Cyc), O0(C4), O0(Neg)}], [d |-> 3, lat |-> "rect", s |-> {Op(C2, <<0, 12, 12>>), O0(Neg)}], [d |-> 3, lat |-> "hex", s |-> {O0(MulM(C6, C6)), O0(Mz)}]>>
Ks(d, lat) == {<<0, 0, 0>>, <<6, 0, 0>>, <<0, 6, 0>>, <<6, 6, 0>>, <<2, 0, 0>>, <<0, 3, 0>>, <<2, 2, 0>>} \cup (IF lat = "hex" THEN {<<4, 4, 0>>, <<4, 0 - 4, 0>>} ELSE {})
              \cup (IF d = 3 THEN {<<0, 0, 6>>, <<6, 6, 6>>, <<0, 0, 3>>, <<6, 0, 6>>} ELSE {})
Cell(q) ==
  \E x \in {Gens[q]} : \E H \in {Group(x.s)} :
  \E c1 \in {<<R(0..23), R(0..23), IF x.d = 3 THEN R(0..23) ELSE 0>>}, c2 \in {<<R(0..11) * 2, R(0..11) * 2, IF x.d = 3 THEN R(0..11) * 2 ELSE 0>>},
     k \in {R(Ks(x.d, x.lat))} :
  \E L \in {Little(H, k)} :
  \E ops \in {SetToSeq(L)}, T \in {<<R((0 - 1)..1), R(0..1), IF x.d = 3 THEN R(0..1) ELSE 0>>} :
     log' = Append(log, [kind |-> "g", d |-> x.d, lat |-> x.lat, k |-> k,
       objs |-> <<[at |-> SetToSeq(Orbit(H, c1)), r |-> R({3, 4, 5}), e |-> R({4, 9, 12})], [at |-> SetToSeq(Orbit(H, c2)), r |-> R({3, 4, 6}), e |-> R({2, 6, 10})]>>,
       mu |-> R(1..4) = 1, pol |-> IF x.d = 2 THEN R({"te", "tm"}) ELSE "all",
       ops |-> ops \o <<Op(Eye, <<U * T[1], U * T[2], U * T[3]>>), LET g == ops[R(1..Len(ops))] IN Op(g.W, AddV(g.w, <<U * T[1], U * T[2], U * T[3]>>))>>])
(* ---- fields ---- *)
Ns == {<<4, 4, 1>>, <<4, 4, 4>>, <<6, 6, 1>>, <<4, 6, 1>>, <<3, 5, 2>>, <<4, 4, 2>>, <<2, 2, 2>>, <<5, 4, 1>>, <<4, 2, 4>>}
S1(k) == R({1, 0 - 1})
Signs == <<<<S1(1), 0, 0>>, <<0, S1(2), 0>>, <<0, 0, S1(3)>>>>
Ws(N) == CASE N[1] = N[2] /\ N[1] % 2 = 0 /\ N[3] = 4 /\ R(1..3) = 1 -> R({Cyc, MulM(Cyc, Mx), MulM(C4, Cyc), Inv(Cyc)})
           [] N[1] = N[2] /\ N[1] % 2 = 0 /\ R(1..4) > 1 -> R({C4, Md, C6, MulM(C6, C6), M2(1, 1, 0, 1), MulM(C6, Mx), MulM(Mz, C4), MulM(Neg, C6), Inv(C4), M2(1, 0, 0 - 1, 1)})
           [] OTHER -> <<<<S1(N[1]), 0, 0>>, <<0, S1(N[2]), 0>>, <<0, 0, S1(N[3])>>>>
Field(q) ==
  \E N \in {R(Ns)} : \E W \in {Ws(N)} : \E w \in {<<R(0..(N[1] - 1)), R((0 - 1)..(N[2] - 1)), R(0..(N[3] - 1))>>} :
  \E k \in {<<R({z \in 0..12 : (z * 20) % N[1] = 0}), R({z \in (0 - 6)..6 : (z * 20) % N[2] = 0}), IF N[3] = 1 THEN 0 ELSE R({z \in 0..6 : (z * 20) % N[3] = 0})>>} :
     log' = Append(log, [kind |-> "f", N |-> N, W |-> W, w |-> w, k |-> k, A |-> R({1, 2, 3}), c |-> R({"d", "b"}), mu |-> R({TRUE, FALSE}), band |-> R(1..2), seed |-> R(1..10000),
       sz |-> IF W[1][2] = 0 /\ W[1][3] = 0 /\ W[2][1] = 0 /\ W[2][3] = 0 THEN <<R({1, 2}), R({1, 3}), 1>> ELSE <<1, 1, 1>>])
Depth == 8
Init == log = <<>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ IF R({n, n}) % 2 = 0 THEN \E q \in {R(1..15)} : Cell(q) ELSE Field(n)
Spec == Init /\ [][Next \/ (n = Depth /\ UNCHANGED vars)]_vars
Emit == (TLCGet("level") = Depth + 1) => PrintT("@J " \o ToJson([log |-> log]))
=============================================================================
