------------------------------ MODULE KPoints ------------------------------
(* Brillouin zones, k-point interpolation and grid sizes, exactly.          *)
(* A lattice is [M, mask]: the integer Gram matrix of its reciprocal        *)
(* vectors and the directions (1) in which it is periodic.  k points are    *)
(* integer vectors over a common denominator K.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
I3 == 1..3
Norm(M, v) == v[1] * v[1] * M[1][1] + v[2] * v[2] * M[2][2] + v[3] * v[3] * M[3][3]
              + 2 * (v[1] * v[2] * M[1][2] + v[1] * v[3] * M[1][3] + v[2] * v[3] * M[2][3])
Add(u, v) == [i \in I3 |-> u[i] + v[i]]
Scale(c, v) == [i \in I3 |-> c * v[i]]
Box(n) == {<<a, b, c>> : a \in -n..n, b \in -n..n, c \in -n..n}
Box1 == Box(1)
Box2 == Box(2)
Periodic(L, v) == [i \in I3 |-> IF L.mask[i] = 1 THEN v[i] ELSE 0]
InLattice(L, v) == \A i \in I3 : L.mask[i] = 1 \/ v[i] = 0
(* Minkowski-reduced: no combination makes a vector shorter *)
Reduced(L) == /\ \A v \in Box1 : (v[3] # 0 /\ InLattice(L, v)) => Norm(L.M, v) >= L.M[3][3] \/ \E i \in 1..2 : L.M[i][i] > L.M[3][3]
              /\ \A v \in Box1, i \in I3 : (v[i] # 0 /\ InLattice(L, v) /\ (\A j \in I3 : v[j] = 0 \/ L.M[j][j] <= L.M[i][i])) => Norm(L.M, v) >= L.M[i][i]

(* k in units of 1/K *)
Equivalent(L, K, k, r) == \A i \in I3 : IF L.mask[i] = 1 THEN (r[i] - k[i]) % K = 0 ELSE r[i] = k[i]
Shortest(L, K, r) == \A v \in Box2 : InLattice(L, v) => Norm(L.M, r) <= Norm(L.M, Add(r, Scale(K, v)))
Tie(L, K, r) == \E v \in Box2 : v # <<0, 0, 0>> /\ InLattice(L, v) /\ Norm(L.M, r) = Norm(L.M, Add(r, Scale(K, v)))

(* the search: descend along the 13 pairs of neighbours until none helps *)
Half == <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<0,1,1>>, <<1,0,1>>, <<1,1,0>>, <<0,1,-1>>, <<1,0,-1>>, <<1,-1,0>>, <<1,1,1>>, <<-1,1,1>>, <<1,-1,1>>, <<1,1,-1>>>>
RECURSIVE Descend(_, _, _, _)
Descend(L, K, k, v) == LET q == Add(k, Scale(K, Periodic(L, v))) IN IF Norm(L.M, q) < Norm(L.M, k) THEN Descend(L, K, q, v) ELSE k
Both(L, K, k, v) == Descend(L, K, Descend(L, K, k, v), Scale(-1, v))
RECURSIVE Pass(_, _, _, _)
Pass(L, K, k, i) == IF i > 13 THEN k ELSE Pass(L, K, Both(L, K, k, Half[i]), i + 1)
RECURSIVE Repeat(_, _, _)
Repeat(L, K, k) == LET q == Pass(L, K, k, 1) IN IF Norm(L.M, q) < Norm(L.M, k) THEN Repeat(L, K, q) ELSE k

(* -------------------------------------------------- interpolation *)
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrt(n, m, hi) ELSE ISqrt(n, lo, m)
Diff2(L, a, b) == Norm(L.M, Add(a, Scale(-1, b)))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
(* the numbers of points allowed between consecutive corners: round((n+1) d/mean - 1/2) *)
Gaps(L, n, cs) ==
    LET d2 == [i \in 1..Len(cs) - 1 |-> Diff2(L, cs[i], cs[i + 1])]
        big == CHOOSE x \in {d2[i] : i \in DOMAIN d2} : \A i \in DOMAIN d2 : x >= d2[i]
        d == [i \in DOMAIN d2 |-> ISqrt((1500000000 \div big) * d2[i], 0, 40000)]      \* distances in a common unit
        tot == SumSeq(d)
        num(i) == (n + 1) * d[i] * (Len(cs) - 1)
        \* num/tot in hundredths; exact rounding is uncertain near integers
        x(i) == (num(i) * 10) \div ((tot + 5) \div 10)
    IN [i \in 1..Len(cs) - 1 |-> IF n = 0 THEN {0} ELSE {m \in 0..200 : 100 * m <= x(i) + 3 /\ 100 * m >= x(i) - 103}]
(* out (units 1/S): walks through the corners cs (units 1/K), evenly, with an allowed number of points *)
Between(K, S, a, b, m, j) == [i \in I3 |-> ((a[i] * (m + 1 - j) + b[i] * j) * S) \div (K * (m + 1))]
NearV(u, v) == \A i \in I3 : u[i] - v[i] \in -3..3
RECURSIVE Walk(_, _, _, _, _, _)
Walk(K, S, gs, cs, out, p) ==     \* the corner cs[1] is at out[p]
    IF Len(cs) = 1 THEN p = Len(out)
    ELSE \E m \in gs[1] : /\ p + m + 1 <= Len(out)
                          /\ \A j \in 1..m + 1 : NearV(out[p + j], Between(K, S, cs[1], cs[2], m, j))
                          /\ Walk(K, S, Tail(gs), Tail(cs), out, p + m + 1)
RightInterpolation(L, K, S, n, cs, out) ==
    out # <<>> /\ NearV(out[1], Between(K, S, cs[1], cs[1], 0, 0)) /\ Walk(K, S, Gaps(L, n, cs), cs, out, 1)

(* -------------------------------------------------- grid sizes *)
RECURSIVE Strip(_, _)
Strip(n, p) == IF n % p = 0 THEN Strip(n \div p, p) ELSE n
Smooth(n) == n >= 1 /\ Strip(Strip(Strip(Strip(n, 2), 3), 5), 7) = 1
NextSmooth(n) == CHOOSE m \in n..2 * n : Smooth(m) /\ \A q \in n..m - 1 : ~Smooth(q)
Ceil(a, b) == (a + b - 1) \div b
GridSize(num, den) == IF Ceil(num, den) < 1 THEN 1 ELSE Ceil(num, den)
=============================================================================
