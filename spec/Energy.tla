------------------------------- MODULE Energy -------------------------------
(* Energy in regions of the cell, and integrals over it.                     *)
(* Specification: every grid point counts once, with equal weight.           *)
EXTENDS Geometry
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Total(s) == SumTo(s, Len(s))
(* an object made of "nothing" is a hole in the region *)
Mask(d, sk, o) == [l \in 1..Size(d) |-> Inside(d, sk, o, Pos(d, l))]
RECURSIVE Solid(_, _, _)
Solid(b, l, n) == IF n = 0 THEN FALSE ELSE IF b[n].in[l] THEN b[n].solid ELSE Solid(b, l, n - 1)
InMasks(d, u, b) == Total([l \in 1..Size(d) |-> IF Solid(b, l, Len(b)) THEN u[l] ELSE 0])
Masks(d, sk, objs) == [i \in 1..Len(objs) |-> [in |-> Mask(d, sk, objs[i]), solid |-> objs[i].m # "nothing"]]
InObjects(d, sk, u, objs) == InMasks(d, u, Masks(d, sk, objs))
InRange(d, u, eps, lo, hi) == Total([l \in 1..Size(d) |-> IF lo <= 2 * eps[l] /\ 2 * eps[l] <= hi THEN u[l] ELSE 0])  \* lo, hi in halves
Weight(d, l) == LET p == Pt(d, l) IN 1 + p[1] + 2 * p[2] + 3 * p[3]
(* integral of a u + b u w(r) + c u eps + e *)
Integ(d, u, eps, f) == Total([l \in 1..Size(d) |-> f[1] * u[l] + f[2] * u[l] * Weight(d, l) + f[3] * u[l] * eps[l] + f[4]])
(* integral of (Fx + 2 Fy + 3 Fz) (a w(r) + b eps) of a vector field whose periodic part is F, scaled by PS/c *)
Red(v) == <<v[1] + 2 * v[3] + 3 * v[5], v[2] + 2 * v[4] + 3 * v[6]>>
Turn8(d, k, l) == Turns(d, k, [i \in 1..3 |-> 2 * Pos(d, l)[i]])
VecTerm(d, F, eps, f, k, c, l) == LET w == f[1] * Weight(d, l) + f[2] * eps[l]  r == Red(F[l])  m == Turn8(d, k, l)
                               IN <<(RotRe(r[1], r[2], m) \div c) * w, (RotIm(r[1], r[2], m) \div c) * w>>
VecInteg(d, F, eps, f, k, c) == <<Total([l \in 1..Size(d) |-> VecTerm(d, F, eps, f, k, c, l)[1]]), Total([l \in 1..Size(d) |-> VecTerm(d, F, eps, f, k, c, l)[2]])>>
VecTol(d, F, eps, f, c, e) == Total([l \in 1..Size(d) |-> LET r == Red(F[l]) IN (f[1] * Weight(d, l) + f[2] * eps[l]) * (1 + (Abs(r[1]) + Abs(r[2])) \div c + e * 40)])
(* Fractions of the energy of D, H or B in the real and imaginary parts of its *)
(* components, in 10^-3; the permeability is 1, or 1 + eps/100.              *)
Dens(t, mu, eps, v) == CASE t = "D" -> (v * v * 16) \div eps
                         [] mu = 0 -> v * v
                         [] t = "B" -> (v * v * 100) \div (100 + eps)
                         [] OTHER -> (v * v * (100 + eps)) \div 100
Fractions(d, F, eps, t, mu) ==
  LET part(i) == Total([l \in 1..Size(d) |-> Dens(t, mu, eps[l], F[l][i])])
      p == [i \in 1..6 |-> part(i)]
  IN \* evaluated once
     CHOOSE w \in {[i \in 1..6 |-> q[i] \div (Total(q) \div 1000)] : q \in {p}} : TRUE
(* ------------------------------------------------------------------------- *)
(* How half of the cell is walked if it has inversion symmetry: the stored   *)
(* points, and for those that are not their own mirror plane, the mirror.    *)
Twice(d, l) == LET i == Pt(d, l)[Last(d)] IN i # 0 /\ 2 * i # d[Last(d)]
Visits(d, half) == LET S == {l \in 1..Size(d) : Stored(d, half, l)} IN
  [l \in 1..Size(d) |-> (IF l \in S THEN 1 ELSE 0) + (IF half THEN Cardinality({m \in S : Twice(d, m) /\ Mirror(d, m) = l}) ELSE 0)]
EachOnce(d) == \A h \in BOOLEAN : \A l \in 1..Size(d) : Visits(d, h)[l] = 1
=============================================================================
