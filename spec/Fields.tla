------------------------------- MODULE Fields -------------------------------
(* Stored fields and the current field: a session creates, copies, maps,     *)
(* assigns, loads, integrates, reads and writes fields on the grid.          *)
(*   n     grid of the present initialisation (<<0,0,0>> before the first)   *)
(*   half  does the program store only half of the cell (inversion symmetry) *)
(*   k     wave vector last solved for, in quarters                          *)
(*   cur   the current field or None                                         *)
(*   st    the stored fields: name -> field or None                          *)
(*   mem   the fields of the band already fetched since the last solution:   *)
(*         kind -> values (fetching again gives the same)                    *)
(* A field is [t, ch, d, a, s]: its type "r" "c" "v", its kind character,    *)
(* its grid, its values as integers, and the scale of these (1, or Raw for   *)
(* fields that come from the solver).                                        *)
EXTENDS Grid, Json
CONSTANTS Names, Grids, KVecs, MaxLevel
VARIABLES n, half, k, cur, st, files, mem
vars == <<n, half, k, cur, st, files, mem>>
Raw == 1000
None == [t |-> "-", ch |-> "-", d |-> <<0, 0, 0>>, a |-> <<>>, s |-> 1]
NoGrid == <<0, 0, 0>>
Types == {"r", "c", "v"}
Zero(t) == CASE t = "r" -> <<0>> [] t = "c" -> <<0, 0>> [] OTHER -> <<0, 0, 0, 0, 0, 0>>
DefKind(t) == CASE t = "r" -> "R" [] t = "c" -> "C" [] OTHER -> "c"
Get(x) == IF x = "cur" THEN cur ELSE st[x]
Exists(x) == Get(x).t # "-"
Conform(x, y) == Get(x).d = Get(y).d
(* --- pointwise functions (the scripts implement the same ones) ------------ *)
Red(v) == CASE Len(v) = 1 -> <<v[1], 0>>
            [] Len(v) = 2 -> v
            [] OTHER -> <<v[1] + 2 * v[3] + 3 * v[5], v[2] + 2 * v[4] + 3 * v[6]>>
RECURSIVE Sum(_, _, _)
Sum(c, vs, j) == IF j > Len(vs) THEN <<c, 0>>
                 ELSE LET r == Red(vs[j])
                          s == Sum(c, vs, j + 1) IN <<s[1] + j * r[1], s[2] + j * r[2]>>
Md(x) == x % 97
Fn(t, c, vs) == LET s == Sum(c, vs, 1) IN
  CASE t = "r" -> <<Md(s[1] + 3 * s[2])>>
    [] t = "c" -> <<Md(s[1] + 2 * s[2]), Md(s[2] - s[1] + 5)>>
    [] OTHER -> <<Md(s[1] + s[2]), Md(s[2] - s[1]), Md(2 * s[1] + s[2]), Md(2 * s[2] - s[1] + 1),
                  Md(3 * s[1] + s[2]), Md(3 * s[2] - s[1] + 2)>>
Put(x, f) == IF x = "cur" THEN cur' = f /\ st' = st ELSE st' = [st EXCEPT ![x] = f] /\ cur' = cur
(* --- operations ----------------------------------------------------------- *)
NoMem == [c \in {"d", "h", "b", "e"} |-> <<>>]
InitParams(d) == n' = d /\ cur' = None /\ k' = <<0, 0, 0>> /\ mem' = NoMem /\ UNCHANGED <<half, st, files>>
Solve(q) == n # NoGrid /\ k' = q /\ cur' = None /\ mem' = NoMem /\ UNCHANGED <<n, half, st, files>>
CanEps == n # NoGrid
Eps == CanEps /\ cur' = [t |-> "r", ch |-> "n", d |-> n, s |-> 1, a |-> [l \in 1..Size(n) |-> <<Code(n, l)>>]]
              /\ UNCHANGED <<n, half, k, st, files, mem>>
CanMake(src) == n # NoGrid /\ Exists(src)
Make(x, t, src) == /\ CanMake(src)
                   /\ LET d == Get(src).d IN
                      Put(x, [t |-> t, ch |-> DefKind(t), d |-> d, s |-> 1, a |-> [l \in 1..Size(d) |-> Zero(t)]])
                   /\ UNCHANGED <<n, half, k, files, mem>>
CanCopy(src) == n # NoGrid /\ Exists(src)
Copy(x, src) == CanCopy(src) /\ Put(x, Get(src)) /\ UNCHANGED <<n, half, k, files, mem>>
(* a complex scalar field: the divergence of a field, then set to a constant *)
Scalar(x) == n # NoGrid /\ k # <<0, 0, 0>>
             /\ LET v == Fn("c", 7, <<>>) IN
                st' = [st EXCEPT ![x] = [t |-> "c", ch |-> "C", d |-> n, s |-> 1,
                                         a |-> Whole(n, half, LAMBDA l : v)]]
             /\ cur' = [t |-> "c", ch |-> "C", d |-> n, s |-> 1, a |-> Whole(n, half, LAMBDA l : v)]
             /\ UNCHANGED <<n, half, k, files, mem>>
CanMap(x, srcs) == /\ Exists(x) /\ \A i \in 1..Len(srcs) : Exists(srcs[i]) /\ Conform(x, srcs[i])
Map(x, c, srcs) ==
  /\ CanMap(x, srcs)
  /\ LET f == Get(x)
         F(l) == Fn(f.t, c, [i \in 1..Len(srcs) |-> Get(srcs[i]).a[l]])
         ch == IF Len(srcs) = 1 /\ Get(srcs[1]).t = f.t THEN Get(srcs[1]).ch
               ELSE IF Len(srcs) > 1 THEN DefKind(f.t) ELSE f.ch
     IN Put(x, [f EXCEPT !.a = Whole(f.d, half, F), !.ch = ch, !.s = 1])
  /\ UNCHANGED <<n, half, k, files, mem>>
CanSet(x, src) == Exists(x) /\ Exists(src) /\ Conform(x, src) /\ Get(x).t = Get(src).t
Set(x, src) == CanSet(x, src) /\ Put(x, Get(src)) /\ UNCHANGED <<n, half, k, files, mem>>
CanLoad(src) == n # NoGrid /\ Exists(src) /\ Get(src).d = n
Load(src) == CanLoad(src) /\ cur' = Get(src) /\ UNCHANGED <<n, half, k, st, files, mem>>
CanNonbloch(x) == Exists(x) /\ Get(x).t = "v"
Nonbloch(x) == CanNonbloch(x) /\ Put(x, [Get(x) EXCEPT !.ch = "v"]) /\ UNCHANGED <<n, half, k, files, mem>>
(* the field of the band from the solver: any field with the symmetry of the cell, the same each time *)
SolverField(a) == /\ Len(a) = Size(n) /\ (half => \A l \in 1..Size(n) : Stored(n, TRUE, l) \/ a[l] = Conj(a[Mirror(n, l)]))
CanGetf == n # NoGrid
Getf(c, a) == /\ CanGetf /\ SolverField(a) = TRUE
              /\ mem[c] \in {<<>>, a}
              /\ mem' = [mem EXCEPT ![c] = a]
              /\ cur' = [t |-> "v", ch |-> c, d |-> n, s |-> Raw, a |-> a]
              /\ UNCHANGED <<n, half, k, st, files>>
CanEfromD == cur # None /\ cur.ch = "d" /\ cur.s = Raw
EfromD == [l \in 1..Size(n) |-> [i \in 1..6 |-> cur.a[l][i] \div Code(n, l)]]
(* the energy density of the current field (D, H or B), scaled by Raw *)
EnKind(c) == CASE c = "d" -> "D" [] c = "h" -> "H" [] OTHER -> "B"
CanEnergy == cur # None /\ cur.ch \in {"d", "h", "b"} /\ cur.s = Raw
Square(v) == v[1]*v[1] + v[2]*v[2] + v[3]*v[3] + v[4]*v[4] + v[5]*v[5] + v[6]*v[6]
Density == [l \in 1..Size(n) |-> <<(Square(cur.a[l]) \div (IF cur.ch = "d" THEN Code(n, l) ELSE 1)) \div Raw>>]
SumAbs(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3]) + Abs(v[4]) + Abs(v[5]) + Abs(v[6])
(* --- observations --------------------------------------------------------- *)
Kvec(f) == IF f.t = "r" \/ f.ch = "v" THEN <<0, 0, 0>> ELSE k
(* value at a position, with the Bloch phase unless bloch = 1; scaled by 16*PS *)
Point(f, p, bloch) ==
  LET v == [i \in 1..Len(Zero(f.t)) |-> Interp(f.d, f.a, p)[i] \div 32]
  IN Rot(v, IF bloch = 1 THEN 0 ELSE Turns(f.d, Kvec(f), p))
PointTol == 16000
(* the inverse dielectric constant at a position, scaled by 512 * 10^6 *)
EpsInv(p) == Interp(n, [l \in 1..Size(n) |-> <<1000000 \div Code(n, l)>>], p)[1]
(* sum over the grid of (1 + ix + 2 iy + 3 iz) * (sum of the fields' values) *)
Integral(d, fs) ==
  LET Term(l) == LET p == Pt(d, l)
                     w == 1 + p[1] + 2 * p[2] + 3 * p[3]
                     s == Sum(1, [i \in 1..Len(fs) |-> fs[i].a[l]], 1)
                 IN <<w * s[1], w * s[2]>>
      RECURSIVE Acc(_)
      Acc(l) == IF l = 0 THEN <<0, 0>> ELSE Add(Acc(l - 1), Term(l))
  IN Acc(Size(d))
(* the values written to a file: with the Bloch phase, counted from the corner of the cell *)
FileVal(f, l) == LET p == Pt(f.d, l) IN
   Rot(f.a[l], Turns(f.d, Kvec(f), <<8 * p[1], 8 * p[2], 8 * p[3]>>))
WriteFile(name) == cur # None /\ files' = files \cup {name} /\ cur' = None /\ UNCHANGED <<n, half, k, st, mem>>
(* --- the design ------------------------------------------------------------ *)
Init == mem = NoMem /\ n = NoGrid /\ half \in BOOLEAN /\ k = <<0, 0, 0>> /\ cur = None
        /\ st = [x \in Names |-> None] /\ files = {}
Everything == Names \cup {"cur"}
Srcs == {<<>>} \cup {<<x>> : x \in Everything} \cup {<<x, y>> : x, y \in Everything}
Next == \/ \E d \in Grids : InitParams(d)
        \/ \E q \in KVecs : Solve(q)
        \/ Eps
        \/ \E x \in Names, t \in {"r", "v"}, s \in Everything : Make(x, t, s)
        \/ \E x \in Names, s \in Everything : Copy(x, s)
        \/ \E x \in Names : Scalar(x)
        \/ \E x \in Everything, c \in {2}, s \in Srcs : Map(x, c, s)
        \/ \E x, y \in Everything : Set(x, y)
        \/ \E x \in Everything : Load(x) \/ Nonbloch(x)
        \/ WriteFile("f")
        \/ \E c \in {"d", "h"}, x \in {<<1000, 0, 0, 0, 0, 0>>, <<0, 500, 200, 0, 0, 0>>} :
             n # NoGrid /\ Getf(c, Whole(n, half, LAMBDA l : Scale(l, x)))
        \/ CanEfromD /\ cur' = [cur EXCEPT !.ch = "e", !.a = EfromD] /\ UNCHANGED <<n, half, k, st, files, mem>>
        \/ CanEnergy /\ cur' = [cur EXCEPT !.t = "r", !.ch = EnKind(cur.ch), !.a = Density] /\ UNCHANGED <<n, half, k, st, files, mem>>
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= MaxLevel
(* values have the shape of their type *)
TypeOK == \A x \in Everything : Exists(x) =>
             LET f == Get(x) IN f.t \in Types /\ Len(f.a) = Size(f.d)
                /\ \A l \in 1..Size(f.d) : Len(f.a[l]) = Len(Zero(f.t))
                 /\ (f.ch = "v" => f.t = "v") /\ (f.t = "c" => f.ch = "C")
(* with inversion symmetry each unstored value is the conjugate of its mirror image *)
HalfOK == half => \A x \in Everything : Exists(x) =>
            LET f == Get(x) IN \A l \in 1..Size(f.d) :
                 Stored(f.d, TRUE, l) \/ f.a[l] = Conj(f.a[Mirror(f.d, l)])
(* the current field always has the present grid *)
CurOK == cur # None => cur.d = n
(* interpolation is exact at the grid points and periodic; the phase of a lattice vector is k.R *)
InterpOK == \A x \in {"cur"} : Exists(x) =>
   LET f == Get(x) IN \A l \in 1..Size(f.d) :
      LET q == Pt(f.d, l)
          p == [i \in 1..3 |-> 8 * q[i] - 4 * f.d[i]]
          pt == [p EXCEPT ![1] = @ + 8 * f.d[1]]
      IN /\ Interp(f.d, f.a, p) = Scale(512, f.a[l])
         /\ Interp(f.d, f.a, pt) = Interp(f.d, f.a, p)
         /\ (Turns(f.d, k, pt) - Turns(f.d, k, p)) % 240 = (60 * k[1]) % 240
(* an operation changes at most one stored field *)
OneChange == [][Cardinality({x \in Names : st'[x] # st[x]}) <= 1]_vars
(* no operation on stored fields changes what a copy holds: a field changes only as a destination *)
WriteDiscards == [][files' # files => cur' = None]_vars
=============================================================================
