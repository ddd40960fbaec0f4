----------------------------- MODULE EnergyGen -----------------------------
(* Random structures, densities and regions for replay.                      *)
EXTENDS Energy, IOUtils, Json
VARIABLES s, log, n
vars == <<s, log, n>>
R(S) == RandomElement(S)
DimSet == LET b == IOEnv.BIG IN
  IF b = "1d" THEN {<<4,1,1>>, <<5,1,1>>, <<3,1,1>>, <<6,1,1>>, <<10,1,1>>, <<12,1,1>>, <<15,1,1>>}
  ELSE IF b = "2d" THEN {<<4,3,1>>, <<3,4,1>>, <<5,4,1>>, <<4,6,1>>, <<5,5,1>>, <<3,6,1>>, <<6,5,1>>}
  ELSE {<<3,3,4>>, <<4,3,3>>, <<3,4,5>>, <<4,4,4>>, <<5,3,3>>, <<2,3,4>>}
Sized(d) == \A i \in 1..3 : d[i] > 1
Even(lo, hi) == {c \in lo..hi : c % 2 = 0}
C(d) == [i \in 1..3 |-> IF d[i] = 1 THEN 0 ELSE R(Even(-2 * d[i], 2 * d[i]))]
H(d, inf) == [i \in 1..3 |-> IF d[i] = 1 THEN 0 ELSE IF inf /\ R(1..4) = 1 THEN 0 ELSE R({h \in 1..(2 * d[i]) : h % 2 = 1})]
MinD(d) == MinOf({d[i] : i \in {j \in 1..3 : d[j] > 1}})
Rad(d) == R(0..(2 * MinD(d) * MinD(d)))
Object(d, sk) ==
  LET t == R({"block", "block", "sphere", "cyl", "cone", "ell"})
      ax == IF sk \/ d[2] = 1 \/ R(1..2) = 1 THEN 3 ELSE R(1..3)
      m == IF R(1..5) = 1 THEN "nothing" ELSE "a"
      b == [t |-> "block", c |-> C(d), h |-> H(d, TRUE), r |-> 0, r2 |-> 0, ax |-> 3, m |-> m]
      hh == [H(d, FALSE) EXCEPT ![ax] = IF d[ax] = 1 THEN R({5, 7}) ELSE @]
  IN IF d[2] = 1 THEN b
     ELSE CASE t = "sphere" -> [b EXCEPT !.t = t, !.r = Rad(d), !.h = <<0,0,0>>]
            [] t = "cyl" -> [b EXCEPT !.t = t, !.ax = ax, !.r = Rad(d), !.h = IF R(1..3) = 1 THEN <<0,0,0>> ELSE hh]
            [] t = "cone" -> [b EXCEPT !.t = t, !.ax = ax, !.r = R(1..(2 * MinD(d))), !.r2 = R(0..(2 * MinD(d))), !.h = hh]
            [] t = "ell" /\ ~sk -> [b EXCEPT !.t = t, !.h = [i \in 1..3 |-> IF d[i] = 1 THEN 8 ELSE R(2..(2 * d[i]))]]
            [] OTHER -> b
Objects(d, sk, k) == SelectSeq([i \in 1..k |-> Object(d, sk)], LAMBDA o : Clear(d, sk, o))
Start == \E d \in {R(DimSet)} : \E e \in {R({"lin", "pow"})}, sk \in {d[2] > 1 /\ R(1..3) = 1} :
   s' = [d |-> d, sk |-> sk, eps |-> e, mu |-> R({0, 0, 1}), h |-> R({1, 2, 4}),
         k |-> [i \in 1..3 |-> IF d[i] = 1 THEN 0 ELSE R(-2..2)], a |-> R(1..9), b |-> R(0..9)]
   /\ log' = <<>> /\ n' = 1
Density == \E t \in {R({"u", "u", "D", "H", "B", "R", "v", "c", "d", "h", "e"})} :
   log' = Append(log, [q |-> "load", t |-> t, a |-> R(1..40), b |-> R(0..40)]) /\ n' = n + 1 /\ UNCHANGED s
Vec == log[Len(SelectSeq(log, LAMBDA x : TRUE))].q
LastLoad == LET I == {i \in 1..Len(log) : log[i].q = "load"} IN log[MaxOf(I)].t
Scalar == LastLoad \in {"u", "D", "H", "B", "R"}
Query == n' = n + 1 /\ UNCHANGED s /\ log' = Append(log,
   IF ~Scalar THEN [q |-> "vint", f |-> <<R(0..3), R(0..3)>>]
   ELSE LET z == R(1..6) IN
     CASE z <= 3 -> [q |-> "objs", objs |-> Objects(s.d, s.sk, R({1, 1, 2, 3, 4}))]
       [] z = 4 -> LET lo == R(0..(Size(s.d) \div 2)) IN
            IF s.eps = "pow" THEN [q |-> "range", lo |-> R({0, 2, 4, 8, 3}), hi |-> R({2, 4, 8, 16, 32, 33, 5})]
                  ELSE [q |-> "range", lo |-> 2 * lo + 1, hi |-> 2 * lo + 1 + 2 * R(0..Size(s.d))]
       [] OTHER -> [q |-> "int", f |-> <<R(0..3), R(0..3), R(0..3), R(0..5)>>])
Depth == 14
Init == s = <<>> /\ log = <<>> /\ n = 0
Next == IF n = 0 THEN Start ELSE n < Depth /\ (IF n = 1 \/ R(1..4) = 1 THEN Density ELSE Query)
Spec == Init /\ [][Next \/ (n = Depth /\ UNCHANGED vars)]_vars
Emit == (TLCGet("level") = Depth + 1) => PrintT("@J " \o ToJson([s |-> s, log |-> log]))
=============================================================================
