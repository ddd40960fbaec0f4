------------------------------ MODULE Results ------------------------------
(* What a run reports is a function of the problem alone.                    *)
(* A problem is the physics asked for: structure, grid, wave vector, parity, *)
(* target.  The way it is computed (history of the session, block size,      *)
(* number of bands, executable, number of processes) is not part of it.      *)
(* An observation is [f, b, x]:                                              *)
(*   f  ascending frequencies                                                *)
(*   b  per band, the quantities that belong to that band alone (energies,   *)
(*      velocities, phase-free field products), meaningful only if the band  *)
(*      is isolated                                                          *)
(*   x  quantities that do not depend on the bands (dielectric function)     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Abs(z) == IF z < 0 THEN -z ELSE z
Min2(a, b) == IF a < b THEN a ELSE b
MaxAbs(u) == LET RECURSIVE M(_)
                 M(i) == IF i = 0 THEN 0 ELSE LET m == M(i - 1) IN IF Abs(u[i]) > m THEN Abs(u[i]) ELSE m
             IN M(Len(u))
(* equal up to an absolute tolerance plus 0.1% of the largest entry *)
AllClose(u, v, tol) == /\ Len(u) = Len(v)
                       /\ LET t == tol + MaxAbs(u) \div 1000 IN \A i \in 1..Len(u) : Abs(u[i] - v[i]) <= t
(* the band has no neighbour (computed, so the last band never qualifies) within sep; *)
(* at zero frequency D = curl H / (i omega) is not defined                            *)
Isolated(f, i, sep) == /\ f[i] > sep \div 2 /\ i < Len(f) /\ f[i + 1] - f[i] > sep
                       /\ (i = 1 \/ f[i] - f[i - 1] > sep)
Common(o, q) == Min2(Len(o.f), Len(q.f))
Ascending(f) == \A i \in 1..(Len(f) - 1) : f[i] <= f[i + 1] + 1
(* two observations agree: same spectrum as far as both go, same per-band quantities *)
Agree(o, q, tolF, tolB, sep) ==
  /\ \A i \in 1..Common(o, q) : Abs(o.f[i] - q.f[i]) <= tolF
  /\ \A i \in 1..Min2(Common(o, q), Min2(Len(o.b), Len(q.b))) :
       (Isolated(o.f, i, sep) /\ Isolated(q.f, i, sep)) => AllClose(o.b[i], q.b[i], tolB)
  /\ AllClose(o.x, q.x, tolB)
(* a solution that started from earlier fields may miss modes almost orthogonal to these, but yields *)
(* modes of the same problem, each one once and in order: place of band i of o among those of q      *)
RECURSIVE Places(_, _, _, _, _)
Places(o, q, tolF, i, j) ==
  IF i > Len(o.f) THEN <<>>
  ELSE IF j > Len(q.f) THEN <<0>>
  ELSE IF Abs(o.f[i] - q.f[j]) <= tolF THEN <<j>> \o Places(o, q, tolF, i + 1, j + 1)
  ELSE Places(o, q, tolF, i, j + 1)
AgreeKept(o, q, tolF, tolB, sep) ==
  LET pl == Places(o, q, tolF, 1, 1) IN
  /\ \A i \in 1..Len(pl) : pl[i] # 0
  /\ \A i \in 1..Min2(Len(o.b), Len(pl)) : pl[i] <= Len(q.b) =>
       ((Isolated(o.f, i, sep) /\ Isolated(q.f, pl[i], sep)) => AllClose(o.b[i], q.b[pl[i]], tolB))
  /\ AllClose(o.x, q.x, tolB)
=============================================================================
