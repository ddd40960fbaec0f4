------------------------------ MODULE Structure ------------------------------
(* The structure on the grid: which material a point has, and which tensor   *)
(* represents the voxel around a grid point.                                 *)
(* Lengths are eighths of a grid step; a voxel reaches 4 to either side.     *)
(* S = [d, sk, objs, per, mesh]: grid, skew lattice, list of objects as in   *)
(* Geometry (also "dia": |x+y| < h[1], |y-x| < h[2]), whether objects repeat, *)
(* and the size of the averaging mesh.  Materials are numbers; 0 is the      *)
(* default material, which objects without a material show.                  *)
(* A tensor is <<11, 22, 33, Re 12, Im 12, Re 13, Im 13, Re 23, Im 23>>.      *)
EXTENDS Geometry
Dbl(d) == [i \in 1..3 |-> IF d[i] = 1 THEN 1 ELSE 2 * d[i]]
P8(d, l) == [i \in 1..3 |-> IF d[i] = 1 THEN 0 ELSE 8 * Pt(d, l)[i] - 4 * d[i]]
Im8(S, o, q) == IF S.per THEN Images(Dbl(S.d), o, q) ELSE {[i \in 1..3 |-> q[i] - o.c[i]]}
DiaSide(o, v) == MinOf({Sgn(o.h[1] - Abs(v[1] + v[2])), Sgn(o.h[2] - Abs(v[2] - v[1])), Bound(v, o.h, 3)})
OSide(o, sk, v) == IF o.t = "dia" THEN DiaSide(o, v) ELSE Side(o, sk, v)
Mat(S, i) == IF i = 0 THEN 0 ELSE S.objs[i].m
(* the last object that contains the point *)
Covers(S, i, q) == \E v \in Im8(S, S.objs[i], q) : OSide(S.objs[i], S.sk, v) = 1
PointObj(S, q) == MaxOf({0} \cup {i \in 1..Len(S.objs) : Covers(S, i, q)})
PointMat(S, q) == Mat(S, PointObj(S, q))
(* ------------------------------------------------------------------------- *)
(* A voxel and an object whose centre is at -v from the voxel's              *)
Reach(d, i) == IF d[i] = 1 THEN {0} ELSE {-4, 4}
Corners(d) == Reach(d, 1) \X Reach(d, 2) \X Reach(d, 3)
Plus(v, w) == [i \in 1..3 |-> v[i] + w[i]]
R8(d, i) == IF d[i] = 1 THEN 0 ELSE 4
CeilRoot(x) == CHOOSE r \in 0..200 : r * r >= x /\ (r = 0 \/ (r - 1) * (r - 1) < x)
BoxOut(d, v, h, i) == h[i] # 0 /\ Abs(v[i]) - R8(d, i) > h[i]
RoundOut(sk, v, r) == \E R \in {CeilRoot(r) + 8} : Metric(sk, v) >= R * R
Out(d, sk, o, v) ==
  CASE o.t \in {"block", "ell"} -> \E i \in 1..3 : BoxOut(d, v, o.h, i)
    [] o.t = "dia" -> Abs(v[1] + v[2]) - 8 > o.h[1] \/ Abs(v[2] - v[1]) - 8 > o.h[2] \/ BoxOut(d, v, o.h, 3)
    [] o.t = "sphere" -> RoundOut(sk, v, o.r + 1)
    [] OTHER -> BoxOut(d, v, o.h, o.ax) \/ RoundOut(sk, Without(v, o.ax), IF o.t = "cyl" THEN o.r + 1 ELSE MaxOf({o.r * o.r, o.r2 * o.r2}))
(* all objects are convex *)
In(d, sk, o, v) == \A w \in Corners(d) : OSide(o, sk, Plus(v, w)) = 1
Rel(d, sk, o, v) == IF Out(d, sk, o, v) THEN "out" ELSE IF In(d, sk, o, v) THEN "in" ELSE "cut"
(* ------------------------------------------------------------------------- *)
(* What is visible in the voxel at q: kinds                                  *)
(*   uni   one material m                                                    *)
(*   flat  material a below and b above a plane normal to lattice direction  *)
(*         ax, a fills f eighths; ok if each object is there once (the        *)
(*         copies of one without end coincide, and then the program only     *)
(*         estimates the fraction with the averaging mesh)                   *)
(*   two   material a inside, b outside of one object; a fills f of g parts; *)
(*         n is normal to the surface (or 0)                                 *)
(*   mix   materials ms                                                      *)
Offs(d, i) == IF d[i] = 1 THEN {0} ELSE {-4, -2, 0, 2, 4}
Samples(d) == Offs(d, 1) \X Offs(d, 2) \X Offs(d, 3)
SeenId(S, q) == LET i == PointObj(S, q)
                IN <<i, IF i = 0 THEN {} ELSE {[a \in 1..3 |-> q[a] - v[a]] : v \in {u \in Im8(S, S.objs[i], q) : OSide(S.objs[i], S.sk, u) = 1}}>>
Flats(S, vis) == {x \in (1..3) \X {-3, -1, 1, 3} : S.d[x[1]] > 1 /\
                   \E lo \in {vis[[i \in 1..3 |-> IF S.d[i] = 1 THEN 0 ELSE -4]]}, hi \in {vis[[i \in 1..3 |-> IF S.d[i] = 1 THEN 0 ELSE 4]]} :
                      lo # hi /\ \A w \in Samples(S.d) : vis[w] = IF w[x[1]] < x[2] THEN lo ELSE hi}
Fine(d, i) == IF d[i] = 1 THEN {0} ELSE {-7, -5, -3, -1, 1, 3, 5, 7}
FinePts(d) == Fine(d, 1) \X Fine(d, 2) \X Fine(d, 3)
(* the object magnified by two *)
Twice(o) == [o EXCEPT !.h = [i \in 1..3 |-> 2 * o.h[i]], !.r = IF o.t \in {"sphere", "cyl"} THEN 4 * o.r + 1 ELSE 2 * o.r, !.r2 = 2 * o.r2]
(* in halves: a point on the surface counts half                             *)
Fill(d, sk, o, v) == LET p == Twice(o)
                         At(t) == Cardinality({w \in FinePts(d) : OSide(p, sk, [i \in 1..3 |-> 2 * v[i] + w[i]]) >= t})
                     IN At(0) + At(1)
Zero == <<0, 0, 0>>
(* the surface normal where only one smooth face cuts the voxel *)
Normal(d, sk, o, v) ==
  CASE sk -> Zero
    [] o.t = "sphere" -> [i \in 1..3 |-> IF d[i] = 1 THEN 0 ELSE v[i]]
    [] o.t = "cyl" -> IF d[o.ax] = 1 \/ o.h[o.ax] = 0 \/ Abs(v[o.ax]) + 4 < o.h[o.ax] THEN [i \in 1..3 |-> IF d[i] = 1 \/ i = o.ax THEN 0 ELSE v[i]] ELSE Zero
    [] o.t = "dia" -> IF d[3] # 1 /\ o.h[3] # 0 /\ Abs(v[3]) + 4 > o.h[3] THEN Zero
                      ELSE IF Abs(v[2] - v[1]) + 8 < o.h[2] /\ o.h[1] > 8 THEN <<1, 1, 0>>
                      ELSE IF Abs(v[2] + v[1]) + 8 < o.h[1] /\ o.h[2] > 8 THEN <<1, -1, 0>> ELSE Zero
    [] OTHER -> Zero
View(S, q) ==
  LET n == Len(S.objs)
      rel == [i \in 1..n |-> {<<v, Rel(S.d, S.sk, S.objs[i], v)>> : v \in Im8(S, S.objs[i], q)}]
      top == MaxOf({0} \cup {i \in 1..n : \E x \in rel[i] : x[2] = "in"})
      cut == UNION {{<<i, x[1]>> : x \in {y \in rel[i] : y[2] = "cut"}} : i \in (top + 1)..n}
      ms == {Mat(S, top)} \cup {Mat(S, x[1]) : x \in cut}
      blocks == \A x \in cut : S.objs[x[1]].t = "block"
  IN IF Cardinality(ms) = 1 THEN [k |-> "uni", m |-> Mat(S, top)]
     ELSE IF blocks THEN
       CHOOSE r \in {LET vs == {vis[w] : w \in Samples(S.d)}  fl == Flats(S, vis)  mm == {Mat(S, x[1]) : x \in vs}
                     IN IF Cardinality(mm) = 1 THEN [k |-> "uni", m |-> CHOOSE m \in mm : TRUE]
                        ELSE IF Cardinality(vs) = 2 /\ fl # {}
                             THEN LET x == CHOOSE y \in fl : TRUE
                                      lo == vis[[i \in 1..3 |-> IF S.d[i] = 1 THEN 0 ELSE -4]]
                                      hi == vis[[i \in 1..3 |-> IF S.d[i] = 1 THEN 0 ELSE 4]]
                                  IN [k |-> "flat", ax |-> x[1], f |-> x[2] + 4, a |-> Mat(S, lo[1]), b |-> Mat(S, hi[1]),
                                      ok |-> Cardinality(lo[2]) <= 1 /\ Cardinality(hi[2]) <= 1]
                        ELSE IF Cardinality(cut) = 1
                             THEN LET y == CHOOSE y \in cut : TRUE
                                  IN [k |-> "two", a |-> Mat(S, y[1]), b |-> Mat(S, top), f |-> Fill(S.d, S.sk, S.objs[y[1]], y[2]),
                                      g |-> 2 * Cardinality(FinePts(S.d)), n |-> Zero, ok |-> \E w \in Corners(S.d) : OSide(S.objs[y[1]], S.sk, Plus(y[2], w)) # OSide(S.objs[y[1]], S.sk, y[2])]
                        ELSE [k |-> "mix", ms |-> mm \cup ms] : vis \in {[w \in Samples(S.d) |-> SeenId(S, Plus(q, w))]}} : TRUE
     ELSE IF Cardinality(cut) = 1
       THEN LET y == CHOOSE y \in cut : TRUE  o == S.objs[y[1]]
            IN [k |-> "two", a |-> Mat(S, y[1]), b |-> Mat(S, top), f |-> Fill(S.d, S.sk, o, y[2]), g |-> 2 * Cardinality(FinePts(S.d)),
                n |-> Normal(S.d, S.sk, o, y[2]), ok |-> y[2] # Zero /\ \E w \in Corners(S.d) : OSide(o, S.sk, Plus(y[2], w)) # OSide(o, S.sk, y[2])]
     ELSE [k |-> "mix", ms |-> ms]
(* ------------------------------------------------------------------------- *)
(* Tensors                                                                   *)
EltUp(e, i, j) == LET a == IF i = 1 THEN (IF j = 2 THEN 4 ELSE 6) ELSE 8 IN <<e[a], e[a + 1]>>
Cj(z) == <<z[1], -z[2]>>
Elt(e, i, j) == IF i = j THEN <<e[i], 0>> ELSE IF i < j THEN EltUp(e, i, j) ELSE Cj(EltUp(e, j, i))
Mul(y, z) == <<y[1] * z[1] - y[2] * z[2], y[1] * z[2] + y[2] * z[1]>>
Sum2(y, z) == <<y[1] + z[1], y[2] + z[2]>>
Sc(a, z) == <<a * z[1], a * z[2]>>
Norm2(z) == z[1] * z[1] + z[2] * z[2]
Iso(e) == e[1] = e[2] /\ e[2] = e[3] /\ \A i \in 4..9 : e[i] = 0
(* row i, column j of the product *)
Prod(A, B, i, j) == Sum2(Sum2(Mul(Elt(A, i, 1), Elt(B, 1, j)), Mul(Elt(A, i, 2), Elt(B, 2, j))), Mul(Elt(A, i, 3), Elt(B, 3, j)))
(* B is s times the inverse of A (times c) *)
IsInverse(B, A, s, tol) == \A i, j \in 1..3 : \E z \in {Prod(B, A, i, j)} :
   Abs(z[1] - (IF i = j THEN s ELSE 0)) <= tol /\ Abs(z[2]) <= tol
(* Averaging across a plane normal to axis x: the normal component of D and  *)
(* the tangential components of E are continuous, so that tau is averaged,   *)
(*   tau = -1/e11 | e12/e11 | e22 - |e12|^2/e11 | e23 - conj(e12) e13/e11     *)
(* (times 8; e11 is one of 1, 2, 4, 8)                                       *)
Tau(e, x, y, z) == LET p == 8 \div e[x]
                       a == Elt(e, x, y)  b == Elt(e, x, z)
                   IN [n |-> p, y |-> Sc(p, a), z |-> Sc(p, b), yy |-> 8 * e[y] - p * Norm2(a), zz |-> 8 * e[z] - p * Norm2(b),
                       yz |-> Sum2(Sc(8, Elt(e, y, z)), Sc(-p, Mul(Cj(a), b)))]
Wt(f, g, a, b) == f * a + (g - f) * b
Wt2(f, g, a, b) == Sum2(Sc(f, a), Sc(g - f, b))
(* the effective tensor times 8 g n; a fills f parts of g *)
Flat(f, g, ea, eb, x) ==
  LET y == IF x = 1 THEN 2 ELSE 1   z == IF x = 3 THEN 2 ELSE 3
      s == Tau(ea, x, y, z)  t == Tau(eb, x, y, z)
      n == Wt(f, g, s.n, t.n)   Y == Wt2(f, g, s.y, t.y)   Z == Wt2(f, g, s.z, t.z)
      yy == Wt(f, g, s.yy, t.yy) * n + Norm2(Y)
      zz == Wt(f, g, s.zz, t.zz) * n + Norm2(Z)
      yz == Sum2(Sc(n, Wt2(f, g, s.yz, t.yz)), Mul(Cj(Y), Z))
      En(i, j) == CASE i = x /\ j = x -> <<64 * g * g, 0>>
                    [] i = x /\ j = y -> Sc(8 * g, Y)
                    [] i = x /\ j = z -> Sc(8 * g, Z)
                    [] i = y /\ j = y -> <<yy, 0>>
                    [] i = z /\ j = z -> <<zz, 0>>
                    [] i = y /\ j = z -> yz
                    [] OTHER -> <<0, 0>>
      Full(i, j) == IF i = j \/ En(i, j) # <<0, 0>> THEN En(i, j) ELSE Cj(En(j, i))
  IN [n |-> n, e |-> <<Full(1,1)[1], Full(2,2)[1], Full(3,3)[1], Full(1,2)[1], Full(1,2)[2], Full(1,3)[1], Full(1,3)[2], Full(2,3)[1], Full(2,3)[2]>>]
(* eigenvalues lie between these *)
Low(e) == MinOf({e[1], e[2], e[3]}) - MaxOf({Abs(e[4]) + Abs(e[5]), Abs(e[6]) + Abs(e[7]), Abs(e[8]) + Abs(e[9])}) * 2
High(e) == MaxOf({e[1], e[2], e[3]}) + MaxOf({Abs(e[4]) + Abs(e[5]), Abs(e[6]) + Abs(e[7]), Abs(e[8]) + Abs(e[9])}) * 2
(* isotropic a filling f parts of g, b the rest: 1/mean, mean of 1/ , times s *)
InvMean(f, g, a, b, s) == (s * g) \div (f * a + (g - f) * b)
MeanInv(f, g, a, b, s) == (s * f) \div (a * g) + (s * (g - f)) \div (b * g)
(* Interpolation of a file of m pixels, centred, at point i of n, with       *)
(* mirrored edges: <<lower, upper, weight of upper>> with weights of 2n       *)
FileAt(m, n, i) == LET x == (i * m) \div n   t == 2 * i * m - 2 * n * x - n
                   IN IF t >= 0 THEN <<x, IF x + 1 = m THEN x ELSE x + 1, t>> ELSE <<x, IF x = 0 THEN 0 ELSE x - 1, -t>>
(* the value times 8 nx ny nz *)
FileVal(f, m, d, p) ==
  LET a == FileAt(m[1], d[1], p[1])  b == FileAt(m[2], d[2], p[2])  c == FileAt(m[3], d[3], p[3])
      D(x, y, z) == f[(x * m[2] + y) * m[3] + z + 1]
      W(t, n, u) == IF u = 1 THEN 2 * n - t[3] ELSE t[3]
      T(u, v, w) == W(a, d[1], u) * W(b, d[2], v) * W(c, d[3], w) * D(a[u], b[v], c[w])
  IN T(1,1,1) + T(1,1,2) + T(1,2,1) + T(1,2,2) + T(2,1,1) + T(2,1,2) + T(2,2,1) + T(2,2,2)
=============================================================================
