-------------------------------- MODULE MatGrid --------------------------------
(* Material grids: values (times F) of grids of data at rational positions,      *)
(* how grids that overlap are combined, and what saving and loading does.        *)
(* A grid is [kind, lo, hi, N, data]: data (0..16 for 0..1) in row-major order.  *)
(* An object is a block [lo, hi, m]; lengths are eighths of a grid step.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
F == 16384
D3 == 1..3
MinK == 0
ProdK == 1
MeanK == 2
Ab(x) == IF x < 0 THEN 0 - x ELSE x
(* position a / L along an axis with n data, mirrored just beyond the ends:       *)
(* the datum, its neighbour and the weight of the neighbour in units 1 / (2 L)    *)
Axis(a0, L, n) ==
  LET a == IF a0 < 0 THEN 0 - a0 ELSE IF a0 > L THEN 2 * L - a0 ELSE a0
      x == IF (a * n) \div L = n THEN n - 1 ELSE (a * n) \div L
      d == 2 * a * n - 2 * L * x - L
      y == IF d >= 0 THEN x + 1 ELSE x - 1
  IN [x |-> x, y |-> IF y < 0 THEN 0 ELSE IF y = n THEN n - 1 ELSE y, w |-> Ab(d), q |-> 2 * L]
Mix(ax, A, B) == (A * (ax.q - ax.w) + B * ax.w + ax.q \div 2) \div ax.q
At(N, x, y, z) == (x * N[2] + y) * N[3] + z + 1
\* the value at the position given by three axes; data are times F
Interp(N, data, ax) ==
  LET V(x, y, z) == data[At(N, x, y, z)]
      X(y, z) == Mix(ax[1], V(ax[1].x, y, z), V(ax[1].y, y, z))
      Y(z) == Mix(ax[2], X(ax[2].x, z), X(ax[2].y, z))
  IN Mix(ax[3], Y(ax[3].x), Y(ax[3].y))
Scaled(g) == [i \in 1..Len(g.data) |-> g.data[i] * (F \div 16)]
GridVal(g, ax) == Interp(g.N, Scaled(g), ax)
\* weight (times F) of each datum in the value
AxW(ax, i) == ((IF i = ax.x THEN F * (ax.q - ax.w) ELSE 0) + (IF i = ax.y THEN F * ax.w ELSE 0)) \div ax.q
Mul(a, b) == (a * b + F \div 2) \div F
Weight(g, ax, i) == LET z == (i - 1) % g.N[3] y == ((i - 1) \div g.N[3]) % g.N[2] x == (i - 1) \div (g.N[2] * g.N[3])
                    IN Mul(Mul(AxW(ax[1], x), AxW(ax[2], y)), AxW(ax[3], z))
(* ---- a structure s: n (grid points), flat (directions without size), objs,     *)
(* grids, default ---- *)
Shifts == {0 - 1, 0, 1}
\* the copy of the block that contains coordinate c, or none
CopyAt(s, o, j, c) == IF s.flat[j] THEN {c + 0 * k : k \in {k \in {0} : o.lo[j] < c /\ c < o.hi[j]}}
                      ELSE {c + 8 * s.n[j] * k : k \in {k \in Shifts : o.lo[j] < c + 8 * s.n[j] * k /\ c + 8 * s.n[j] * k < o.hi[j]}}
Coord(s, p, j) == IF s.flat[j] THEN 0 ELSE 8 * p[j]
Contains(s, o, p) == \A j \in D3 : CopyAt(s, o, j, Coord(s, p, j)) # {}
BoxAxes(s, o, p, N) == [j \in D3 |-> LET c == CHOOSE c \in CopyAt(s, o, j, Coord(s, p, j)) : TRUE IN Axis(c - o.lo[j], o.hi[j] - o.lo[j], N[j])]
CellAxes(s, p, N) == [j \in D3 |-> IF s.flat[j] THEN Axis(0, 1, N[j]) ELSE Axis(p[j], s.n[j], N[j])]
\* objects at a point, last first
RECURSIVE Here(_, _, _)
Here(s, p, k) == IF k = 0 THEN <<>> ELSE IF Contains(s, s.objs[k], p) THEN <<k>> \o Here(s, p, k - 1) ELSE Here(s, p, k - 1)
Compatible(s, g, m) == m.t = "grid" /\ s.grids[m.g].kind = g.kind /\ s.grids[m.g].lo = g.lo /\ s.grids[m.g].hi = g.hi
\* the grids that contribute: pairs of grid number and axes
RECURSIVE Chain(_, _, _, _)
Chain(s, p, here, g) ==
  IF here = <<>> THEN IF Compatible(s, g, s.default) THEN <<[g |-> s.default.g, ax |-> CellAxes(s, p, s.grids[s.default.g].N)]>> ELSE <<>>
  ELSE LET o == s.objs[Head(here)] IN
       IF Compatible(s, g, o.m) THEN <<[g |-> o.m.g, ax |-> BoxAxes(s, o, p, s.grids[o.m.g].N)]>> \o Chain(s, p, Tail(here), g) ELSE <<>>
RECURSIVE Fold(_, _)
Fold(kind, us) == IF Len(us) = 1 THEN us[1] ELSE LET t == Fold(kind, Tail(us)) u == Head(us) IN
   CASE kind = MinK -> IF u < t THEN u ELSE t [] kind = ProdK -> Mul(u, t) [] OTHER -> u + t
Vals(s, ch) == [i \in 1..Len(ch) |-> GridVal(s.grids[ch[i].g], ch[i].ax)]
Combine(kind, us) == IF kind = MeanK THEN Fold(kind, us) \div Len(us) ELSE Fold(kind, us)
\* the material at a point and, for a grid, its chain
TopOf(s, here) == IF here = <<>> THEN s.default ELSE IF s.objs[Head(here)].m.t = "self" THEN s.default ELSE s.objs[Head(here)].m
ChainAt(s, p) == LET here == Here(s, p, Len(s.objs)) m == TopOf(s, here) IN
  IF m.t # "grid" THEN <<>> ELSE Chain(s, p, IF s.objs # <<>> /\ here # <<>> /\ s.objs[Head(here)].m.t = "self" THEN <<>> ELSE here, s.grids[m.g])
EpsAt(s, p) == LET m == TopOf(s, Here(s, p, Len(s.objs))) IN
  IF m.t # "grid" THEN m.e * F
  ELSE LET g == s.grids[m.g] IN g.lo * F + (g.hi - g.lo) * Combine(g.kind, Vals(s, ChainAt(s, p)))
(* derivative of epsilon at a point by datum i of grid h (times F)               *)
RECURSIVE Others(_, _, _)
Others(us, k, i) == IF k = 0 THEN F ELSE IF k = i THEN Others(us, k - 1, i) ELSE Mul(us[k], Others(us, k - 1, i))
RECURSIVE SumD(_, _, _, _, _, _)
SumD(s, ch, us, k, h, i) == IF k = 0 THEN 0 ELSE SumD(s, ch, us, k - 1, h, i) +
  (IF ch[k].g # h THEN 0 ELSE LET g == s.grids[h] w == Weight(g, ch[k].ax, i) IN
     CASE g.kind = MinK -> IF us[k] = Combine(MinK, us) THEN w ELSE 0
       [] g.kind = ProdK -> Mul(w, Others(us, Len(us), k))
       [] OTHER -> w \div Len(us))
DEps(s, ch, us, h, i) == (s.grids[h].hi - s.grids[h].lo) * SumD(s, ch, us, Len(ch), h, i)
\* where the minimum is attained twice (or nearly) there is no derivative
Smooth(s, ch, us) == ch = <<>> \/ s.grids[ch[1].g].kind # MinK \/ Cardinality({i \in 1..Len(us) : us[i] <= Combine(MinK, us) + 16}) = 1
(* ---- loading data of size M into a grid of size N, repeated per times ---- *)
LoadAxis(i, n, per, m) == Axis(((2 * i + 1) * per) % (2 * n), 2 * n, m)
Loaded(M, data, N, per) == [i \in 1..(N[1] * N[2] * N[3]) |->
   LET z == (i - 1) % N[3] y == ((i - 1) \div N[3]) % N[2] x == (i - 1) \div (N[2] * N[3])
   IN Interp(M, data, <<LoadAxis(x, N[1], per[1], M[1]), LoadAxis(y, N[2], per[2], M[2]), LoadAxis(z, N[3], per[3], M[3])>>)]
================================================================================
