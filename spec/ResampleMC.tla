----------------------------- MODULE ResampleMC ------------------------------
(* Laws of the conversion, for all small lattices, grids and options.         *)
EXTENDS Resample
CONSTANT Full
VARIABLES f, o
vars == <<f, o>>
Small == IF Full THEN -1..1 ELSE 0..1
Lats == {<<<<a, 0, 0>>, <<b, c, 0>>, <<p, q, d>>>> : a \in 1..2, b \in Small, c \in 1..2, p \in {0, 1}, q \in Small, d \in {1}}
N == <<3, 2, 2>>
Dat == [re |-> [l \in 1..12 |-> ((l * 7) % 11) - 5], im |-> [l \in 1..12 |-> ((l * 5) % 13) - 6]]
Es == {Zero, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, -1, 0>>, <<1, 2, 1>>}
File(A, k, g) == [rank |-> 3, n |-> N, A |-> A, k |-> k, g |-> g]
Plain == [rect |-> FALSE, e |-> Zero, m |-> <<2, 2, 2>>, res |-> 0, T |-> FALSE, p |-> FALSE, P |-> 0]
Init == /\ \E A \in Lats, k \in {<<0, 0, 0>>, <<1, 2, 3>>}, g \in {<<1, 1, 1>>, <<2, 1, 1>>} : f = File(A, k, g)
        /\ o = Plain
Next == o = Plain /\ f' = f
        /\ \E e \in Es, r \in BOOLEAN, m \in {<<2, 2, 2>>, <<4, 2, 6>>}, t \in BOOLEAN, P \in {0, 1} :
             (r \/ e = Zero) /\ o' = [Plain EXCEPT !.rect = r, !.e = e, !.m = m, !.T = t, !.P = P]
Spec == Init /\ [][Next]_vars
Ok == o.rect => CanRect(In(f), E(f, o))
Par(x, y) == \* x.v / x.d parallel to y
   Cross(x.v, y) = Zero
(* the rectangular cell *)
RectLaw == (o.rect /\ Ok) =>
  LET B == In(f)  R == Rect(B, E(f, o)) IN
  /\ Par(R[1], E(f, o))
  /\ Dot(R[1].v, R[2].v) = 0 /\ Dot(R[1].v, R[3].v) = 0 /\ Dot(R[2].v, R[3].v) = 0
  /\ Vol(<<R[1].v, R[2].v, R[3].v>>) = Vol(B) * R[1].d * R[2].d * R[3].d
  /\ \A j \in I3 : LET q == LenSq(f, o, j) IN Dot(R[j].v, R[j].v) * q[2] = q[1] * R[j].d * R[j].d
  \* an edge of the cell, if asked for, is kept
  /\ \A j \in I3 : Cross(E(f, o), B[j]) = Zero => R[1] = Reduce(B[j], 1) \/ R[1] = Reduce(Times(-1, B[j]), -1)
  \* the second vector is in the plane of e and the first difference
  /\ Dot(R[2].v, Cross(E(f, o), Sub(B[2], B[1]))) = 0
(* with as many pixels per period as before, or as long as they are           *)
Dims(x) == CHOOSE n \in (1..12) \X (1..12) \X (1..12) : \A j \in I3 : OutDim(f, x, j, n[j])
DimLaw == Ok => \A j \in I3 : OutDim(f, o, j, (N[j] * o.m[j]) \div 2) /\ Cardinality({n \in 1..150 : OutDim(f, [o EXCEPT !.res = 3], j, n)}) \in {1, 2}
Times2(c, z) == <<c * z[1], c * z[2]>>
Close(y, z) == Abs(y[1] - z[1]) <= 8 /\ Abs(y[2] - z[2]) <= 8
Val(x, n, i) == CHOOSE z \in Values(Axis(f, x), f, x, n, i, Dat, TRUE) : TRUE
(* the default conversion is the identity                                     *)
IdLaw == o = Plain => \A i \in Points(N) : Close(Val(o, N, i), Times2(64, <<Dat.re[Lin(N, i)], Dat.im[Lin(N, i)]>>))
(* several periods: shifted by a period is multiplied by the phase            *)
TileLaw == (~o.rect /\ o.m = <<4, 2, 6>> /\ ~o.T /\ o.P = 0) =>
  \A i \in Points(<<3, 2, 4>>) :
     /\ Close(Val(o, <<6, 2, 6>>, <<i[1] + 3, i[2], i[3]>>), Rot4(Val(o, <<6, 2, 6>>, i), Turn(f, 1)))
     /\ Close(Val(o, <<6, 2, 6>>, <<i[1], i[2], i[3] + 2>>), Rot4(Val(o, <<6, 2, 6>>, i), Turn(f, 3)))
(* twice the resolution keeps every second point; of a transposed one too     *)
FineLaw == (Ok /\ ~o.T /\ o.m = <<2, 2, 2>> /\ o.P = 0) => \A i \in Points(N) : Close(Val(o, <<6, 4, 4>>, Times(2, i)), Val(o, N, i))
(* the point in the middle stays there                                        *)
MidLaw == Ok => Pos(f, o, <<2, 2, 2>>, <<1, 1, 1>>) = <<S \div 2, S \div 2, S \div 2>>
(* a rotated vector keeps its length                                          *)
NormLaw == Ok => LET v == <<320, -64, 192>>  w == [x \in I3 |-> Along(v, Frame(f, o)[x])]
                 IN Abs(Dot(v, v) - Dot(w, w)) <= 4 * 640
TransposeLaw == \A i \in Points(N) : OutLin([o EXCEPT !.T = TRUE], N, i) = Lin(<<N[2], N[1], N[3]>>, <<i[2], i[1], i[3]>>)
=============================================================================
