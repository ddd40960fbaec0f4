------------------------------- MODULE Symmetry -------------------------------
(* Symmetry operations {W|w} of a crystal and their expectation values in the   *)
(* bands.  W is an integer matrix in the basis of the lattice (rows), w is in   *)
(* 1/24 of the lattice vectors, k in 1/12 of the reciprocal vectors.            *)
(*                                                                              *)
(* The operation acts on a vector field as (Of)(r) = W f({W|w}^-1 r); these     *)
(* actions compose like the operations, a lattice translation T multiplies a    *)
(* Bloch function by exp(-2 pi i k.T), and the operations that map k to itself  *)
(* mix only bands of one frequency, by unitary matrices.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Phase
U == 24
D3 == 1..3
Sum3(f) == f[1] + f[2] + f[3]
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Vec(F(_)) == <<F(1), F(2), F(3)>>
MulV(W, v) == <<Dot3(W[1], v), Dot3(W[2], v), Dot3(W[3], v)>>
Column(W, j) == <<W[1][j], W[2][j], W[3][j]>>
MulM(A, B) == <<<<Dot3(A[1], Column(B, 1)), Dot3(A[1], Column(B, 2)), Dot3(A[1], Column(B, 3))>>,
                <<Dot3(A[2], Column(B, 1)), Dot3(A[2], Column(B, 2)), Dot3(A[2], Column(B, 3))>>,
                <<Dot3(A[3], Column(B, 1)), Dot3(A[3], Column(B, 2)), Dot3(A[3], Column(B, 3))>>>>
AddV(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
SubV(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cof(W, i, j) == LET a == (i % 3) + 1 b == ((i + 1) % 3) + 1 c == (j % 3) + 1 d == ((j + 1) % 3) + 1 IN W[a][c] * W[b][d] - W[a][d] * W[b][c]
Det(W) == W[1][1] * Cof(W, 1, 1) + W[1][2] * Cof(W, 1, 2) + W[1][3] * Cof(W, 1, 3)
Adj(W) == <<<<Cof(W, 1, 1), Cof(W, 2, 1), Cof(W, 3, 1)>>, <<Cof(W, 1, 2), Cof(W, 2, 2), Cof(W, 3, 2)>>, <<Cof(W, 1, 3), Cof(W, 2, 3), Cof(W, 3, 3)>>>>
ScM(s, W) == <<<<s * W[1][1], s * W[1][2], s * W[1][3]>>, <<s * W[2][1], s * W[2][2], s * W[2][3]>>, <<s * W[3][1], s * W[3][2], s * W[3][3]>>>>
Inv(W) == ScM(Det(W), Adj(W))                              \* |Det| = 1
Eye == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Tr(W) == <<Column(W, 1), Column(W, 2), Column(W, 3)>>

(* ---- the group ---- *)
Op(W, w) == [W |-> W, w |-> w]
E0 == Op(Eye, <<0, 0, 0>>)
Prod(g, h) == Op(MulM(g.W, h.W), AddV(MulV(g.W, h.w), g.w))
Inverse(g) == Op(Inv(g.W), SubV(<<0, 0, 0>>, MulV(Inv(g.W), g.w)))
Frac(v) == <<v[1] % U, v[2] % U, v[3] % U>>
Rep(g) == Op(g.W, Frac(g.w))                               \* modulo lattice translations
Shift(g) == LET f == Frac(g.w) IN <<(g.w[1] - f[1]) \div U, (g.w[2] - f[2]) \div U, (g.w[3] - f[3]) \div U>>
RECURSIVE Close(_, _)
Close(S, gens) == LET N == S \cup {Rep(Prod(g, h)) : g \in gens, h \in S} IN IF N = S THEN S ELSE Close(N, gens)
Group(gens) == Close({E0}, gens)
\* W acts on wave vectors by the inverse transpose; operations that keep k up to a reciprocal lattice vector
Keeps(g, k) == LET q == SubV(MulV(Tr(g.W), k), k) IN \A j \in D3 : q[j] % 12 = 0
Little(G, k) == {g \in G : Keeps(g, k)}
Orbit(G, c) == {Frac(AddV(MulV(g.W, c), g.w)) : g \in G}    \* c in 1/24

(* ---- values: complex numbers times 4096 ---- *)
V == 4096
Ab(x) == IF x < 0 THEN 0 - x ELSE x
Cmul(a, b) == <<(a[1] * b[1] - a[2] * b[2]) \div V, (a[1] * b[2] + a[2] * b[1]) \div V>>
Norm2(a) == (a[1] * a[1]) \div V + (a[2] * a[2]) \div V
Close2(a, b, t) == Ab(a[1] - b[1]) <= t /\ Ab(a[2] - b[2]) <= t
Turn(a, m) == <<(a[1] * Cos(m) - a[2] * Sin(m)) \div PS, (a[1] * Sin(m) + a[2] * Cos(m)) \div PS>>     \* a exp(2 pi i m/240)
\* a lattice translation T: the factor exp(-2 pi i k.T)
TransTurn(k, T) == 0 - 20 * Dot3(k, T)
=============================================================================
