------------------------------ MODULE SymmetryMC ------------------------------
(* The groups used are groups, they act on points and on wave vectors, and the  *)
(* law for lattice translations is consistent.                                  *)
EXTENDS Symmetry
CONSTANT Big
M2(a, b, c, d) == <<<<a, b, 0>>, <<c, d, 0>>, <<0, 0, 1>>>>
Neg == <<<<0 - 1, 0, 0>>, <<0, 0 - 1, 0>>, <<0, 0, 0 - 1>>>>
C4 == M2(0, 0 - 1, 1, 0)
C6 == M2(0, 0 - 1, 1, 1)
Mx == M2(0 - 1, 0, 0, 1)
Md == M2(0, 1, 1, 0)
Cyc == <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>
O0(W) == Op(W, <<0, 0, 0>>)
Gens == <<{O0(C4), O0(Mx)}, {O0(C6), O0(Md)}, {Op(Mx, <<0, 12, 0>>)}, {Op(Mx, <<12, 12, 0>>), O0(M2(0 - 1, 0, 0, 0 - 1))}, {O0(C4), Op(Mx, <<12, 12, 0>>)},
          {Op(C4, <<0, 0, 6>>)}, {O0(Neg), Op(Mx, <<0, 0, 12>>)}, {O0(Md), O0(Neg)}, {O0(Cyc), O0(C4), O0(Neg)}>>
Set == IF Big THEN 1..9 ELSE 1..8
VARIABLES i, k
Init == i \in Set /\ k \in {<<0, 0, 0>>, <<6, 0, 0>>, <<6, 6, 0>>, <<4, 4, 0>>, <<3, 0, 0>>, <<6, 6, 6>>, <<0, 6, 3>>}
Next == UNCHANGED <<i, k>>
Spec == Init /\ [][Next]_<<i, k>>
G == Group(Gens[i])
IsGroup == \A H \in {G} : \A g \in H : Rep(Inverse(g)) \in H /\ Prod(g, Inverse(g)) = E0 /\ \A h \in H : Rep(Prod(g, h)) \in H
IsLittle == \A H \in {Little(G, k)} : E0 \in H /\ \A g \in H : Rep(Inverse(g)) \in H /\ \A h \in H : Rep(Prod(g, h)) \in H
Acts == \A H \in {G} : \A g \in H, h \in H : \A c \in {<<1, 5, 7>>} : MulV(Prod(g, h).W, c) = MulV(g.W, MulV(h.W, c))
\* the phase of a translation does not depend on where an operation of the little group moves it
PhaseLaw == \A g \in Little(G, k) : \A T \in {<<1, 0, 0>>, <<0, 1, 0>>, <<1, 2, 0>>, <<0, 0, 1>>} : (TransTurn(k, MulV(g.W, T)) - TransTurn(k, T)) % 240 = 0
OrbitSize == \A O \in {Orbit(G, <<1, 2, 5>>)} : Cardinality(G) % Cardinality(O) = 0 /\ \A g \in G : \A p \in O : Frac(AddV(MulV(g.W, p), g.w)) \in O
=============================================================================
