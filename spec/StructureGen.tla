---------------------------- MODULE StructureGen ----------------------------
(* Random structures for replay, several in one session.                     *)
EXTENDS Structure, IOUtils, Json
VARIABLES log, n
vars == <<log, n>>
R(S) == RandomElement(S)
Herm == IOEnv.HERM = "1"   \* blocks of Hermitian materials
Ball == IOEnv.HERM = "2"   \* spheres and cylinders of isotropic materials
DimSet == LET b == IOEnv.BIG IN
  IF b = "1d" THEN {<<4,1,1>>, <<5,1,1>>, <<3,1,1>>, <<8,1,1>>, <<12,1,1>>}
  ELSE IF b = "2d" THEN {<<4,3,1>>, <<3,4,1>>, <<5,4,1>>, <<4,6,1>>, <<5,5,1>>, <<4,4,1>>, <<6,5,1>>}
  ELSE {<<3,3,3>>, <<4,3,3>>, <<3,4,3>>, <<3,3,4>>, <<2,3,4>>}
Even(lo, hi) == {c \in lo..hi : c % 2 = 0}
C(d) == [i \in 1..3 |-> IF d[i] = 1 THEN 0 ELSE R(Even(-4 * d[i], 4 * d[i]))]
H(d) == [i \in 1..3 |-> IF d[i] = 1 THEN 0 ELSE IF R(1..3) = 1 /\ ~Herm THEN 0 ELSE R({h \in 1..(4 * d[i]) : h % 2 = 1})]
MinD(d) == MinOf({d[i] : i \in {j \in 1..3 : d[j] > 1}})
Rad(d) == R({0, 3, 10, 20, 40, 70, 100, 160, 8 * MinD(d) * MinD(d)})
Odd(hi) == {h \in 1..hi : h % 2 = 1}
Object(d, sk, fm) ==
  LET t == IF d[2] = 1 \/ Herm THEN "block" ELSE IF Ball THEN R({"sphere", "cyl"}) ELSE IF R(1..3) = 1 THEN "block" ELSE IF d[3] > 1 /\ R(1..3) = 1 THEN "sphere" ELSE R({"block", "sphere", "cyl", "cone", "ell", "dia"})
      ax == IF sk \/ d[3] = 1 THEN 3 ELSE R(1..3)
      m == R({0, 1, 2, 2, 3, 3} \cup (IF fm /\ R(1..3) = 1 THEN {4} ELSE {}))
      b == [t |-> "block", c |-> C(d), h |-> H(d), r |-> 0, r2 |-> 0, ax |-> 3, m |-> m]
      \* half lengths along the axis
      hx == [i \in 1..3 |-> IF i = ax THEN (IF d[ax] = 1 THEN R({5, 7}) ELSE R(Odd(4 * d[ax]))) ELSE 0]
  IN CASE t = "sphere" -> [b EXCEPT !.t = t, !.r = Rad(d), !.h = Zero]
       [] t = "cyl" -> [b EXCEPT !.t = t, !.ax = ax, !.r = Rad(d), !.h = IF R(1..2) = 1 THEN Zero ELSE hx]
       [] t = "cone" -> [b EXCEPT !.t = t, !.ax = ax, !.r = R(1..(4 * MinD(d))), !.r2 = R(0..(4 * MinD(d))), !.h = hx]
       [] t = "ell" /\ ~sk -> [b EXCEPT !.t = t, !.h = [i \in 1..3 |-> IF d[i] = 1 THEN 8 ELSE R(5..12)]]
       [] t = "dia" /\ ~sk -> [b EXCEPT !.t = t, !.h = <<R(Odd(4 * MinD(d))), R(Odd(4 * MinD(d))), IF d[3] = 1 THEN 0 ELSE R({0, 9, 11})>>]
       [] OTHER -> b
(* no grid point on a surface *)
Touch8(d, sk, per, o) == \E l \in 1..Size(d) : \E v \in Im8([d |-> d, per |-> per], o, P8(d, l)) : OSide(o, sk, v) = 0
(* a block next to another one *)
Beside(d, o, m) == LET i == R({j \in 1..3 : d[j] > 1}) IN
  IF o.t # "block" \/ o.h[i] = 0 THEN <<>>
  ELSE LET h == R(Odd(4 * d[i])) IN <<[o EXCEPT !.c[i] = @ + (IF R(1..2) = 1 THEN 1 ELSE -1) * (o.h[i] + h), !.h[i] = h, !.m = IF R(1..3) > 1 THEN m ELSE R(1..3)]>>
P2 == {1, 2, 4, 8}
Diag(x) == <<R(P2), R(P2), R(P2)>>
Big(x) == <<R({4, 8}), R({4, 8}), R({4, 8})>>
Off(c) == <<R(-1..1), IF c THEN R(-1..1) ELSE 0>>
Tensor(c) == LET z == IF Herm THEN 5 ELSE R(1..5) IN
  IF z <= 2 THEN LET a == R({1, 2, 4, 8}) IN <<a, a, a, 0,0, 0,0, 0,0>>
  ELSE IF z = 3 THEN Diag(c) \o <<0,0, 0,0, 0,0>>
  ELSE Big(c) \o Off(c) \o Off(c) \o <<0, 0>>
Mu(on) == IF ~on \/ R(1..3) = 1 THEN <<1, 1, 1>> ELSE IF R(1..2) = 1 THEN (LET a == R({2, 4}) IN <<a, a, a>>) ELSE Diag(on)
IsoT(x) == LET a == R({1, 2, 4, 8}) IN <<a, a, a, 0,0, 0,0, 0,0>>
InCell(d, o) == \A i \in 1..3 : Abs(o.c[i]) <= 4 * d[i]
Build(k) ==
  \E d \in {R(DimSet)} : \E sk \in {d[2] > 1 /\ ~Herm /\ ~Ball /\ R(1..3) = 1}, mesh \in {R(IF Herm \/ Ball THEN {2, 3} ELSE {1, 2, 3, 3, 3, 4})}, cm \in {Herm \/ R({FALSE, TRUE, TRUE})}, on \in {R(1..3) = 1} :
  \E per \in {mesh > 1 \/ R(1..4) > 1}, dm \in {IF Herm \/ Ball THEN "mat" ELSE R({"mat", "mat", "mat", "fn", "file", "fnc", "fnc"})}, iso \in {Ball \/ (~Herm /\ R(1..3) = 1)} :
  \E os \in {[i \in 1..R(IF Herm \/ Ball THEN 1..2 ELSE 0..4) |-> Object(d, sk, mesh = 1)]} :
  \E all \in {IF Len(os) > 0 /\ R(1..2) = 1 THEN os \o Beside(d, os[R(1..Len(os))], R(1..3)) ELSE os} :
    log' = Append(log,
      [d |-> d, sk |-> sk, mesh |-> mesh, per |-> per, dm |-> dm, h |-> R({1, 2, 4}),
       objs |-> SelectSeq(all, LAMBDA o : InCell(d, o) /\ ~Touch8(d, sk, TRUE, o)),
       mats |-> [i \in 1..4 |-> [e |-> IF iso THEN IsoT(i) ELSE Tensor(cm), u |-> Mu(on)]],
       fd |-> [i \in 1..3 |-> IF d[i] = 1 THEN 1 ELSE R({1, 2, 3, 4, d[i], 6})], fs |-> R(1..1000), cm |-> cm])
Depth == 7
Init == log = <<>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ Build(n)
Spec == Init /\ [][Next \/ (n = Depth /\ UNCHANGED vars)]_vars
Emit == (TLCGet("level") = Depth + 1) => PrintT("@J " \o ToJson([log |-> log]))
=============================================================================
