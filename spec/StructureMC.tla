---------------------------- MODULE StructureMC ----------------------------
(* Lists of objects on small grids: the rules for points, voxels and         *)
(* averages agree with one another.                                          *)
EXTENDS Structure
CONSTANT Steps, MaxH
VARIABLE x
Grids == {<<2,1,1>>, <<3,1,1>>, <<2,2,1>>}
Cen(n) == IF n = 1 THEN {0} ELSE {c \in -(4 * n)..(4 * n) : c % Steps = 0}
Hs(n) == IF n = 1 THEN {0} ELSE {h \in 0..MaxH : h = 0 \/ h % 4 = 3}
Objs(d) == [t : {"block"}, c : Cen(d[1]) \X Cen(d[2]) \X {0}, h : Hs(d[1]) \X Hs(d[2]) \X {0}, r : {0}, r2 : {0}, ax : {3}, m : {0, 1, 2}]
           \cup (IF d[2] = 1 THEN {} ELSE [t : {"sphere"}, c : Cen(d[1]) \X Cen(d[2]) \X {0}, h : {Zero}, r : {4, 30}, r2 : {0}, ax : {3}, m : {2}]
           \cup [t : {"dia"}, c : Cen(d[1]) \X Cen(d[2]) \X {0}, h : {<<7, 9, 0>>}, r : {0}, r2 : {0}, ax : {3}, m : {2}])
S == [d |-> x.d, sk |-> x.sk, objs |-> x.o, per |-> TRUE]
Init == x \in {[d |-> d, sk |-> sk, o |-> <<>>] : d \in Grids, sk \in BOOLEAN}
Next == Len(x.o) < (IF x.d[2] = 1 THEN 2 ELSE 1) /\ \E o \in Objs(x.d) : x' = [x EXCEPT !.o = Append(@, o)]
Spec == Init /\ [][Next]_x
Pts == 1..Size(x.d)
(* ------------------------------------------------------------------------- *)
Moved(o, i) == [o EXCEPT !.c[i] = @ + 8 * x.d[i]]
Shifted(q, i) == [q EXCEPT ![i] = @ + 8 * x.d[i]]
(* only points inside the new object change, and they show it *)
LastWins == Len(x.o) > 0 => \A l \in Pts : \E q \in {P8(x.d, l)}, T \in {[S EXCEPT !.objs = SubSeq(x.o, 1, Len(x.o) - 1)]} :
   PointMat(S, q) = IF Covers(S, Len(x.o), q) THEN Mat(S, Len(x.o)) ELSE PointMat(T, q)
(* the mirrored list is the mirrored structure *)
Mir(o) == [o EXCEPT !.c = [i \in 1..3 |-> -o.c[i]]]
Mirrored == \E T \in {[S EXCEPT !.objs = [i \in 1..Len(x.o) |-> Mir(x.o[i])]]} :
   \A l \in Pts : PointMat(S, P8(x.d, l)) = PointMat(T, P8(x.d, Mirror(x.d, l)))
(* the relation of a voxel and an object is that of the voxel's points *)
Sound == \A l \in Pts : \A i \in 1..Len(x.o) : \A v \in Im8(S, x.o[i], P8(x.d, l)) : \E r \in {Rel(x.d, x.sk, x.o[i], v)} :
   /\ r = "in" => \A w \in Samples(x.d) : OSide(x.o[i], x.sk, Plus(v, w)) = 1
   /\ r = "out" => \A w \in Samples(x.d) : OSide(x.o[i], x.sk, Plus(v, w)) # 1
(* what is said of a voxel holds for its points *)
Mats(q) == {PointMat(S, Plus(q, w)) : w \in Samples(x.d)}
Viewed == \A l \in Pts : \E q \in {P8(x.d, l)} : \E w \in {View(S, q)} :
   CASE w.k = "uni" -> Mats(q) = {w.m}
     [] w.k = "flat" -> /\ Mats(q) = {w.a, w.b} /\ 0 < w.f /\ w.f < 8
                        /\ \A z \in Samples(x.d) : PointMat(S, Plus(q, z)) = IF z[w.ax] + 4 < w.f THEN w.a ELSE w.b
     [] w.k = "two" -> Mats(q) \subseteq {w.a, w.b} /\ 0 <= w.f /\ w.f <= w.g
     [] OTHER -> Mats(q) \subseteq w.ms
(* the cell is full: over all voxels, a block covers its volume *)
Vol(o) == (2 * o.h[1]) * (IF x.d[2] = 1 THEN 8 ELSE 2 * o.h[2])
Whole1 == Len(x.o) = 1 /\ x.o[1].t = "block" /\ (\A i \in 1..3 : x.d[i] > 1 => x.o[1].h[i] > 0 /\ x.o[1].h[i] <= 4 * x.d[i]) =>
   LET F[l \in 0..Size(x.d)] == IF l = 0 THEN 0 ELSE F[l - 1] +
           Cardinality({w \in FinePts(x.d) : \E v \in Im8(S, x.o[1], P8(x.d, l)) : OSide(Twice(x.o[1]), x.sk, [i \in 1..3 |-> 2 * v[i] + w[i]]) = 1})
   IN F[Size(x.d)] * (IF x.d[2] = 1 THEN 8 ELSE 1) = Vol(x.o[1])
Inv == LastWins /\ Mirrored /\ Sound /\ Viewed /\ Whole1
(* ------------------------------------------------------------------------- *)
(* the averages: nothing to average, order, and bounds                       *)
Tens == {<<a, b, 4>> \o o : a \in {4, 8}, b \in {4, 8}, o \in [1..6 -> {0}] \cup {<<1, 0, 0, 1, 0, 0>>, <<0, 1, -1, 1, 1, 0>>, <<1, 1, 0, 0, 0, -1>>}}
ASSUME \A e \in Tens, f \in {1, 3, 5}, ax \in 1..3 : \E F \in {Flat(f, 8, e, e, ax)} : F.e = [i \in 1..9 |-> 64 * F.n * e[i]]
ASSUME \A e, g \in Tens, f \in {1, 5}, ax \in 1..3 : Flat(f, 8, e, g, ax) = Flat(8 - f, 8, g, e, ax)
ASSUME \A e, g \in Tens, ax \in 1..3 : Flat(1, 2, e, g, ax).e = [i \in 1..9 |-> Flat(4, 8, e, g, ax).e[i] \div 16]
ASSUME \A e, g \in Tens, ax \in 1..3 : \E F \in {Flat(3, 3, e, g, ax)} : F.e = [i \in 1..9 |-> 24 * F.n * e[i]]
(* isotropic: harmonic across, arithmetic along the interface *)
I3(a) == <<a, a, a, 0,0, 0,0, 0,0>>
ASSUME \A a, b \in {1, 2, 4, 8}, f \in {1, 3, 5, 7}, ax \in 1..3 : \E F \in {Flat(f, 8, I3(a), I3(b), ax)} :
   \A i \in 1..3 : IF i = ax THEN F.e[i] * (f * b + (8 - f) * a) = 64 * F.n * 8 * a * b ELSE F.e[i] * 8 = 64 * F.n * (f * a + (8 - f) * b)
(* files: weights, a constant file, the file's own grid, mirror symmetry *)
ASSUME \A m \in 1..6, n \in 2..6, i \in 0..5 : i < n => \E a \in {FileAt(m, n, i)}, b \in {FileAt(m, n, (n - i) % n)} :
   /\ a[1] \in 0..(m - 1) /\ a[2] \in 0..(m - 1) /\ 0 <= a[3] /\ a[3] <= n
   /\ i > 0 /\ a[3] < n => \/ b = <<m - 1 - a[1], m - 1 - a[2], a[3]>>
                           \/ a[3] = 0
ASSUME \A m \in {<<3,2,1>>, <<1,1,1>>, <<2,4,3>>}, d \in {<<3,4,1>>, <<2,2,3>>} : \A l \in 1..Size(d) :
   FileVal([i \in 1..60 |-> 7], m, d, Pt(d, l)) = 7 * 8 * Size(d)
=============================================================================
