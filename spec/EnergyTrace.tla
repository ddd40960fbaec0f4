---------------------------- MODULE EnergyTrace ----------------------------
(* Recorded results against the sums over the grid:                          *)
(*   grid  a structure: size, lattice, dielectric constants at the grid points *)
(*   load  a density or vector field: its values, scaled; tol is 0 if they   *)
(*         are exact                                                          *)
(*   objs, range, int, vint   an integral, times (number of points / volume)  *)
(*   frac  a field, and the fractions of its energy, in 10^-3               *)
(*   unit  total energy, its fractions and its parts, in 10^-6               *)
EXTENDS Energy, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, f
E == Trace[l]
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
SumAbs(u) == Total([i \in 1..Len(u) |-> Abs(u[i])])
Tol == IF f.tol = 0 THEN 0 ELSE Size(g.d)
Check(v, w, tol) == IF Abs(v - w) <= tol THEN TRUE ELSE Bad("the sum over the grid is " \o ToString(w))
WMax == 1 + g.d[1] + 2 * g.d[2] + 3 * g.d[3]
Judge ==
  CASE E.ev = "objs" -> Check(E.v, InObjects(g.d, g.sk = 1, f.u, E.objs), Tol)
    [] E.ev = "range" -> Check(E.v, InRange(g.d, f.u, g.eps, E.lo, E.hi), Tol)
    [] E.ev = "int" -> Check(E.v, Integ(g.d, f.u, g.eps, <<E.f[1], E.f[2], E.f[3], E.f[4] * f.s>>), Tol * (E.f[1] + E.f[2] * WMax + E.f[3] * MaxOf({g.eps[i] : i \in 1..Len(g.eps)})))
    [] E.ev = "vint" -> \E c \in {IF f.tol = 0 THEN 50 ELSE 500} : \E w \in {VecInteg(g.d, f.u, g.eps, E.f, f.k, c)} : \E t \in {VecTol(g.d, f.u, g.eps, E.f, c, f.tol) + Size(g.d)} :
            IF Abs(E.v[1] - w[1]) <= t /\ Abs(E.v[2] - w[2]) <= t THEN TRUE ELSE Bad("the sum over the grid is " \o ToString(w))
    [] E.ev = "unit" -> IF Abs(E.total - E.n * 1000000) > 20 \/ Abs(E.int - E.n * 1000000) > 20 THEN Bad("the energy is not " \o ToString(E.n))
                        ELSE IF E.fr # <<>> /\ (Abs(Total(E.fr) - 1000000) > 20 \/ \E i \in 1..Len(E.fr) : E.fr[i] < 0) THEN Bad("the fractions do not add up to one") ELSE TRUE
    [] E.ev = "frac" -> \E w \in {Fractions(g.d, E.F, g.eps, E.t, E.mu)} :
            IF \A i \in 1..6 : Abs(w[i] - E.fr[i]) <= 8 THEN TRUE ELSE Bad("the fractions of the components are " \o ToString(w))
    [] OTHER -> TRUE
Init == l = 1 /\ g = [d |-> <<1,1,1>>] /\ f = [s |-> 1]
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Judge
        /\ g' = IF E.ev = "grid" THEN E ELSE g
        /\ f' = IF E.ev = "load" THEN E ELSE f
TSpec == Init /\ [][Next]_<<l, g, f>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
