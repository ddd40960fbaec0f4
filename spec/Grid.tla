-------------------------------- MODULE Grid --------------------------------
(* The periodic grid of the unit cell and fields on it.                      *)
(* A grid is <<nx, ny, nz>>; a field is the sequence of its values in        *)
(* row-major order; a value is the tuple of its real numbers: <<x>> (real),  *)
(* <<re, im>> (complex) or <<re x, im x, re y, im y, re z, im z>> (vector).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Phase
Size(d) == d[1] * d[2] * d[3]
Lin(d, p) == (p[1] * d[2] + p[2]) * d[3] + p[3] + 1
Pt(d, l) == <<(l - 1) \div (d[2] * d[3]), ((l - 1) \div d[3]) % d[2], (l - 1) % d[3]>>
Neg(d, p) == <<(-p[1]) % d[1], (-p[2]) % d[2], (-p[3]) % d[3]>>
Mirror(d, l) == Lin(d, Neg(d, Pt(d, l)))
(* the dimension that is halved if the structure has inversion symmetry *)
Last(d) == IF d[3] > 1 THEN 3 ELSE IF d[2] > 1 THEN 2 ELSE 1
Stored(d, half, l) == ~half \/ 2 * Pt(d, l)[Last(d)] <= d[Last(d)]
Conj(v) == CASE Len(v) = 1 -> v
             [] Len(v) = 2 -> <<v[1], -v[2]>>
             [] OTHER      -> <<v[1], -v[2], v[3], -v[4], v[5], -v[6]>>
(* the whole field from its stored part: the value at -r is the conjugate of that at r *)
Whole(d, half, F(_)) == [l \in 1..Size(d) |->
                           IF Stored(d, half, l) THEN F(l) ELSE Conj(F(Mirror(d, l)))]
(* every grid point is filled from exactly one stored point *)
HalfCovers(d) == \A l \in 1..Size(d) : Stored(d, TRUE, l) \/ Stored(d, TRUE, Mirror(d, l))
(* a number that identifies a grid point up to inversion *)
Min2(a, b) == IF a < b THEN a ELSE b
Code(d, l) == Min2(l, Mirror(d, l))
(* ------------------------------------------------------------------------- *)
(* Interpolation.  A position is given in eighths of a grid step from the    *)
(* centre of the cell, <<a, b, c>>; the result is scaled by 512.             *)
Ix(n, a) == ((a + 4 * n) % (8 * n)) \div 8        \* grid index below the position
Fr(n, a) == (a + 4 * n) % 8                       \* fraction of a step beyond it
Add(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
Scale(c, v) == [i \in 1..Len(v) |-> c * v[i]]
Interp(d, f, p) ==
  LET At(x, y, z) == f[Lin(d, <<(Ix(d[1], p[1]) + x) % d[1], (Ix(d[2], p[2]) + y) % d[2],
                                (Ix(d[3], p[3]) + z) % d[3]>>)]
      W(a, n, s) == IF s = 0 THEN 8 - Fr(n, a) ELSE Fr(n, a)
      T(x, y, z) == Scale(W(p[1], d[1], x) * W(p[2], d[2], y) * W(p[3], d[3], z), At(x, y, z))
  IN Add(Add(Add(T(0,0,0), T(0,0,1)), Add(T(0,1,0), T(0,1,1))),
         Add(Add(T(1,0,0), T(1,0,1)), Add(T(1,1,0), T(1,1,1))))
(* ------------------------------------------------------------------------- *)
(* Phases.  k is given in quarters of a reciprocal lattice vector.           *)
(* Turns(d, k, p): k.p in 1/240 turn for a position in eighths of a step     *)
ExactTurns(d, k, p) == \A i \in 1..3 : (60 * k[i] * p[i]) % (8 * d[i]) = 0
Turns(d, k, p) == (60 * k[1] * p[1]) \div (8 * d[1]) + (60 * k[2] * p[2]) \div (8 * d[2])
                  + (60 * k[3] * p[3]) \div (8 * d[3])
(* one complex number (scaled by s) times the phase of m/240 turn; result scaled by s*PS *)
RotRe(re, im, m) == re * Cos(m) - im * Sin(m)
RotIm(re, im, m) == re * Sin(m) + im * Cos(m)
Rot(v, m) == CASE Len(v) = 1 -> <<v[1] * PS>>
               [] OTHER -> [i \in 1..Len(v) |-> IF i % 2 = 1 THEN RotRe(v[i], v[i + 1], m)
                                                ELSE RotIm(v[i - 1], v[i], m)]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Abs(u[i] - v[i]) <= tol
=============================================================================
