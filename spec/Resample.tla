------------------------------ MODULE Resample ------------------------------
(* Conversion of field files (mpb-data): a file holds samples of a periodic   *)
(* function, or of one that gains a phase from cell to cell, and the result   *)
(* holds samples of the same function over another cell.                      *)
(*   f = [rank, n, A, k, g, ...]: grid, the three lattice vectors (integers), *)
(*       phase from cell to cell in quarter turns, copies of the cell in f    *)
(*   o = [rect, e, m, res, T, p, P]: rectangular cell with its first axis     *)
(*       along e (or along the first vector if e = 0); halves of periods;     *)
(*       pixels per unit of length (0: as in the input); transpose; nearest   *)
(*       pixel; quarter turns                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
I3 == 1..3
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Times(c, u) == <<c * u[1], c * u[2], c * u[3]>>
Zero == <<0, 0, 0>>
(* the cell of the file: lattice vectors times copies                        *)
In(f) == <<Times(f.g[1], f.A[1]), Times(f.g[2], f.A[2]), Times(f.g[3], f.A[3])>>
Vol(B) == Dot(Cross(B[1], B[2]), B[3])
Turn(f, j) == f.k[j] * f.g[j]
(* a vector with a denominator                                               *)
Reduce(v, d) == LET h == Gcd(Gcd(v[1], v[2]), Gcd(v[3], d)) * Sgn(d) IN [v |-> <<v[1] \div h, v[2] \div h, v[3] \div h>>, d |-> d \div h]
(* Rectangular cell of the same volume and handedness: first vector along e,  *)
(* the second one in the plane of e and the difference of the first two       *)
Axes(B, e) == LET s == Sub(B[2], B[1]) IN
  [e |-> e, D |-> Dot(Cross(s, Sub(B[3], B[1])), e), F |-> Sub(Times(Dot(e, e), s), Times(Dot(e, s), e))]
CanRect(B, e) == LET x == Axes(B, e) IN x.D # 0 /\ Dot(x.F, x.F) # 0
Rect(B, e) == LET x == Axes(B, e) IN
  LET h == Gcd(Gcd(x.F[1], x.F[2]), x.F[3])  G == <<x.F[1] \div h, x.F[2] \div h, x.F[3] \div h>>
  IN <<Reduce(Times(Vol(B), e), x.D), Reduce(x.F, Dot(e, e)), Reduce(Times(x.D, Cross(e, G)), h * Dot(G, G))>>
E(f, o) == IF o.e = Zero THEN In(f)[1] ELSE o.e
(* one period of the output                                                  *)
Cell(f, o) == IF o.rect THEN Rect(In(f), E(f, o)) ELSE [j \in I3 |-> [v |-> In(f)[j], d |-> 1]]
(* in the basis of the input cell                                            *)
Coord(B, x) == LET c == <<Dot(x.v, Cross(B[2], B[3])), Dot(x.v, Cross(B[3], B[1])), Dot(x.v, Cross(B[1], B[2]))>>
               IN Reduce(c, x.d * Vol(B))
(* number of pixels along direction j: length times resolution to the nearest *)
SqRatio(p, q, c, d) == LET h == Gcd(p, q) IN <<(p \div h) * (p \div h) * c, (q \div h) * (q \div h) * d>>  \* (p/q)^2 c/d
LenSq(f, o, j) == LET B == In(f)  x == Axes(B, E(f, o))  e2 == Dot(E(f, o), E(f, o))
                      h == Gcd(Gcd(x.F[1], x.F[2]), x.F[3])  G == <<x.F[1] \div h, x.F[2] \div h, x.F[3] \div h>>
  IN IF ~o.rect THEN <<Dot(B[j], B[j]), 1>>
     ELSE IF j = 1 THEN SqRatio(Vol(B), x.D, e2, 1)
     ELSE IF j = 2 THEN SqRatio(h, e2, Dot(G, G), 1) ELSE SqRatio(x.D, h, e2, Dot(G, G))
OutDim(f, o, j, n) ==
  IF j > f.rank THEN n = 1
  ELSE IF o.res = 0 THEN n = (IF f.n[j] * o.m[j] < 2 THEN 1 ELSE (f.n[j] * o.m[j]) \div 2)
  ELSE LET q == LenSq(f, o, j)  h == Gcd(q[1], q[2])  X == o.res * o.res * o.m[j] * o.m[j] * (q[1] \div h)  d == q[2] \div h
       IN /\ n >= 1 /\ X <= (2 * n + 1) * (2 * n + 1) * d
          /\ n = 1 \/ X >= (2 * n - 1) * (2 * n - 1) * d
(* a dimension that the data do not have is not repeated                     *)
Per(f, o, j) == IF j > f.rank THEN 2 ELSE o.m[j]
(* position of output point i: the centres of both cells coincide; in parts   *)
(* of S of the input cell                                                     *)
S == 16384
Axis(f, o) == [j \in I3 |-> Coord(In(f), Cell(f, o)[j])]
(* a S / b                                                                   *)
Part(a, b) == (a \div b) * S + (((a % b) * 128) \div b) * 128 + ((((a % b) * 128) % b) * 128) \div b
PosC(C, f, o, n, i) ==
  LET T(x, j) == Part(C[j].v[x] * Per(f, o, j) * (2 * i[j] - n[j]), 4 * n[j] * C[j].d)
      X(x) == S \div 2 + T(x, 1) + T(x, 2) + T(x, 3)
  IN <<X(1), X(2), X(3)>>
Pos(f, o, n, i) == PosC(Axis(f, o), f, o, n, i)
(* the two neighbouring pixels, the cells they are in, and the weight of the  *)
(* upper one in parts of W                                                    *)
W == 512
Near(nin, u) == LET t == u * nin   a == t \div S   w == ((t - a * S) * W + S \div 2) \div S
                IN [lo |-> a % nin, cl |-> a \div nin, hi |-> (a + 1) % nin, ch |-> (a + 1) \div nin, w |-> w]
Lin(n, i) == (i[1] * n[2] + i[2]) * n[3] + i[3] + 1
(* quarter turns                                                             *)
Rot4(z, t) == CASE t % 4 = 0 -> z [] t % 4 = 1 -> <<-z[2], z[1]>> [] t % 4 = 2 -> <<-z[1], -z[2]>> [] OTHER -> <<z[2], -z[1]>>
(* Value (times 64) at the position, where corner c in {0,1}^3 has weight     *)
(* Wt(x, c[x]); re and im are the data, ph whether they gain a phase          *)
Corner == {0, 1} \X {0, 1} \X {0, 1}
Sample(f, d, ph, q, nr) ==
  LET Wt(x, c) == IF nr = <<>> THEN (IF c = 1 THEN q[x].w ELSE W - q[x].w) ELSE (IF c = nr[x] THEN W ELSE 0)
      At(c) == LET l == Lin(f.n, [x \in I3 |-> IF c[x] = 1 THEN q[x].hi ELSE q[x].lo])
                   t == IF ph THEN Turn(f, 1) * (IF c[1] = 1 THEN q[1].ch ELSE q[1].cl)
                                 + Turn(f, 2) * (IF c[2] = 1 THEN q[2].ch ELSE q[2].cl)
                                 + Turn(f, 3) * (IF c[3] = 1 THEN q[3].ch ELSE q[3].cl) ELSE 0
                   w == Wt(1, c[1]) * Wt(2, c[2]) * Wt(3, c[3])
               IN IF w = 0 THEN <<0, 0>> ELSE LET z == Rot4(<<d.re[l], d.im[l]>>, t) IN <<w * z[1], w * z[2]>>
      P(a, b) == <<a[1] + b[1], a[2] + b[2]>>
      s == P(P(P(At(<<0,0,0>>), At(<<0,0,1>>)), P(At(<<0,1,0>>), At(<<0,1,1>>))), P(P(At(<<1,0,0>>), At(<<1,0,1>>)), P(At(<<1,1,0>>), At(<<1,1,1>>))))
  IN <<s[1] \div ((W * W * W) \div 64), s[2] \div ((W * W * W) \div 64)>>
(* which corners can be the nearest pixel (ties may go either way)           *)
Pick(w) == IF w > W \div 2 + 3 THEN {1} ELSE IF w < W \div 2 - 3 THEN {0} ELSE {0, 1}
Ways(o, q) == IF o.p THEN Pick(q[1].w) \X Pick(q[2].w) \X Pick(q[3].w) ELSE {<<>>}
(* Components of a vector along the axes of a rectangular cell               *)
RECURSIVE Newton(_, _)
Newton(x, r) == LET s == (r + x \div r) \div 2 IN IF s >= r THEN r ELSE Newton(x, s)
Root(x) == IF x = 0 THEN 0 ELSE Newton(x, 46340)
Along(v, a) == LET h == Gcd(Gcd(a[1], a[2]), a[3])  b == [i \in I3 |-> a[i] \div h]
                   r == Root(Dot(b, b) * 65536)
               IN (Dot(v, b) * 256) \div r
Frame(f, o) == LET e == E(f, o)  x == Axes(In(f), e) IN
  IF ~o.rect THEN <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>> ELSE <<Times(Sgn(x.D), e), x.F, Times(Sgn(x.D), Cross(e, x.F))>>
(* component x (1..3) of the output vector is along this axis of the cell     *)
Comp(o, x) == IF o.T /\ x # 3 THEN 3 - x ELSE x
(* the grid of the output data set                                           *)
Shape(o, n) == IF o.T THEN <<n[2], n[1], n[3]>> ELSE n
OutLin(o, n, i) == IF o.T THEN Lin(Shape(o, n), <<i[2], i[1], i[3]>>) ELSE Lin(n, i)
Points(n) == (0..(n[1] - 1)) \X (0..(n[2] - 1)) \X (0..(n[3] - 1))
(* The possible values of a scalar, and of a vector, at output point i; C is  *)
(* Axis(f, o) and fr Frame(f, o)                                             *)
Spots(C, f, o, n, i) == {<<Near(f.n[1], u[1]), Near(f.n[2], u[2]), Near(f.n[3], u[3])>> : u \in {PosC(C, f, o, n, i)}}
Values(C, f, o, n, i, d, ph) ==
  UNION {{IF ph THEN Rot4(z, o.P) ELSE z : z \in {Sample(f, d, ph, q, nr) : nr \in Ways(o, q)}} : q \in Spots(C, f, o, n, i)}
Vectors(C, fr, f, o, n, i, ds) ==
  LET Turned(x, y, z) ==
        LET A(a) == <<Along(<<x[1], y[1], z[1]>>, a), Along(<<x[2], y[2], z[2]>>, a)>>
        IN <<A(fr[Comp(o, 1)]), A(fr[Comp(o, 2)]), A(fr[3])>>
      S1(q, nr, x) == Rot4(Sample(f, ds[x], TRUE, q, nr), o.P)
  IN UNION {{Turned(z[1], z[2], z[3]) : z \in {<<S1(q, nr, 1), S1(q, nr, 2), S1(q, nr, 3)>> : nr \in Ways(o, q)}} : q \in Spots(C, f, o, n, i)}
=============================================================================
