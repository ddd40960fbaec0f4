------------------------------ MODULE Geometry ------------------------------
(* Objects in the periodic cell, in exact integer arithmetic.                *)
(* Lengths are quarters of a grid step, which is the same in all directions; *)
(* the origin is the centre of the cell.  The lattice is orthogonal, or the  *)
(* first two directions enclose 60 degrees (sk).                             *)
(*   block  : centre c, half widths h (0: unbounded) along the lattice vectors*)
(*   sphere : centre c, radius^2 = r + 1/2                                   *)
(*   cyl    : axis ax, half length h[ax] (0: unbounded), radius^2 = r + 1/2  *)
(*   cone   : axis ax, half length h[ax], radius r at -h and r2 at +h        *)
(*   ell    : semi-axes h                                                    *)
(* m names the material; later objects hide earlier ones.                    *)
EXTENDS Grid
Metric(sk, v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3] + (IF sk THEN v[1] * v[2] ELSE 0)
Pos(d, l) == [i \in 1..3 |-> IF d[i] = 1 THEN 0 ELSE 4 * Pt(d, l)[i] - 2 * d[i]]
Without(v, i) == [v EXCEPT ![i] = 0]
(* sign of (boundary - position): +1 inside, -1 outside, 0 on the surface *)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Bound(v, h, i) == IF h[i] = 0 THEN 1 ELSE Sgn(h[i] - Abs(v[i]))
Side(o, sk, v) ==
  CASE o.t = "block" -> MinOf({Bound(v, o.h, i) : i \in 1..3})
    [] o.t = "sphere" -> IF Metric(sk, v) <= o.r THEN 1 ELSE -1
    [] o.t = "cyl" -> MinOf({Bound(v, o.h, o.ax), IF Metric(sk, Without(v, o.ax)) <= o.r THEN 1 ELSE -1})
    [] o.t = "cone" -> LET hh == o.h[o.ax]  R == 2 * hh * o.r + (o.r2 - o.r) * (v[o.ax] + hh)
                       IN MinOf({Bound(v, o.h, o.ax), Sgn(R * R - 4 * hh * hh * Metric(sk, Without(v, o.ax)))})
    [] OTHER -> LET A == o.h[1] * o.h[1]  B == o.h[2] * o.h[2]  C == o.h[3] * o.h[3]
                IN Sgn(A * B * C - v[1] * v[1] * B * C - v[2] * v[2] * A * C - v[3] * v[3] * A * B)
Shifts(d) == {s \in {-1, 0, 1} \X {-1, 0, 1} \X {-1, 0, 1} : \A i \in 1..3 : d[i] = 1 => s[i] = 0}
Images(d, o, q) == {[i \in 1..3 |-> q[i] - o.c[i] + 4 * d[i] * s[i]] : s \in Shifts(d)}
Inside(d, sk, o, q) == \E v \in Images(d, o, q) : Side(o, sk, v) = 1
Touches(d, sk, o, q) == \E v \in Images(d, o, q) : Side(o, sk, v) = 0
Clear(d, sk, o) == \A l \in 1..Size(d) : ~Touches(d, sk, o, Pos(d, l))
(* index of the last object that contains q, or 0 *)
LastObj(d, sk, objs, q) == LET S == {i \in 1..Len(objs) : Inside(d, sk, objs[i], q)} IN IF S = {} THEN 0 ELSE MaxOf(S)
=============================================================================
