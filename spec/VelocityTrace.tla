---------------------------- MODULE VelocityTrace ----------------------------
(* Recorded answers against the gradient of the recorded band structure.     *)
(* Numbers: frequencies in 10^-8, velocities in 10^-4, directions (unit,     *)
(* Cartesian) and lattice vectors in 10^-3.                                  *)
(*   base  p, f, n, tol     frequencies at k, tolerance                       *)
(*   fd    p, i, up, dn      frequencies at k + h e_i, k - h e_i, h = 2 10^-4 *)
(*   fix0  p, i              no component along e_i by symmetry               *)
(*   vecs  p, v              all velocities                                   *)
(*   comp  p, u, v           component of all bands along u                   *)
(*   one   p, b, v           velocity of band b                               *)
(*   onec  p, b, u, v        component of band b                              *)
(*   recip p, b, g, v        derivatives along the reciprocal vectors g       *)
(* The gradient of a band is known if it is isolated (sep) and all three      *)
(* differences were recorded.                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES f, g, known, sep, tol, first, l
vars == <<f, g, known, sep, tol, first, l>>
E == Trace[l]
Abs(z) == IF z < 0 THEN -z ELSE z
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Expect(c, why) == IF c THEN TRUE ELSE Bad(why)
TInit == f = <<>> /\ g = <<>> /\ known = {} /\ sep = 0 /\ tol = 0 /\ first = <<>> /\ l = 1
Isolated(b) == /\ b < Len(f) /\ f[b] > sep /\ f[b + 1] - f[b] > sep /\ (b = 1 \/ f[b] - f[b - 1] > sep)
Known == known = {1, 2, 3}
Near(a, b, t) == Abs(a - b) <= t + Abs(b) \div 500
Dot(u, v) == (u[1] * v[1] + u[2] * v[2] + u[3] * v[3]) \div 1000
(* the gradient from the differences: 10^-8 / (2 * 2 10^-4) = 1/4 10^-4 *)
Grad(b) == <<g[1][b], g[2][b], g[3][b]>>
(* against the gradient for isolated bands, against the first answer for all *)
(* undefined at zero frequency: reported as zero *)
OkVec(b, v) == /\ f[b] = 0 => v = <<0, 0, 0>>
               /\ Known /\ Isolated(b) => (\A i \in 1..3 : Near(v[i], g[i][b], tol)) = TRUE
OkDot(b, u, x, s) == Known /\ Isolated(b) => Near(x, Dot(u, Grad(b)), 2 * tol * s)
Remember(b, v) == IF b \in DOMAIN first THEN first ELSE (b :> v) @@ first
Same(b, v) == b \in DOMAIN first => (\A i \in 1..3 : Near(v[i], first[b][i], 3)) = TRUE
SameDot(b, u, x, s) == b \in DOMAIN first => Near(x, Dot(u, first[b]), 6 * s)
Stay == UNCHANGED <<f, g, known, sep, tol, first>>
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE E.ev = "base" -> f' = E.f /\ g' = <<<<>>, <<>>, <<>>>> /\ known' = {} /\ sep' = E.sep /\ tol' = E.tol /\ first' = <<>>
       [] E.ev = "fd" -> /\ g' = [g EXCEPT ![E.i] = [b \in 1..Len(f) |-> (E.up[b] - E.dn[b]) \div 4]]
                         /\ known' = known \cup {E.i} /\ UNCHANGED <<f, sep, tol, first>>
       [] E.ev = "fix0" -> /\ g' = [g EXCEPT ![E.i] = [b \in 1..Len(f) |-> 0]]
                           /\ known' = known \cup {E.i} /\ UNCHANGED <<f, sep, tol, first>>
       [] E.ev = "vecs" ->
            /\ Expect(Len(E.v) = Len(f), "one velocity for each band")
            /\ \A b \in 1..Len(E.v) : Expect(OkVec(b, E.v[b]), "velocity of band " \o ToString(b) \o " is " \o ToString(E.v[b]) \o ", gradient " \o ToString(Grad(b)))
            /\ \A b \in 1..Len(E.v) : Expect(Same(b, E.v[b]), "velocity of band " \o ToString(b) \o " differs from the first answer")
            /\ first' = [b \in 1..Len(f) |-> E.v[b]] /\ UNCHANGED <<f, g, known, sep, tol>>
       [] E.ev = "comp" ->
            /\ Expect(Len(E.v) = Len(f), "one component for each band")
            /\ \A b \in 1..Len(E.v) : Expect(OkDot(b, E.u, E.v[b], 1), "component of band " \o ToString(b) \o " is not that of the gradient")
            /\ \A b \in 1..Len(E.v) : Expect(SameDot(b, E.u, E.v[b], 1), "component of band " \o ToString(b) \o " is not linear in the direction")
            /\ Stay
       [] E.ev = "one" ->
            /\ Expect(OkVec(E.b, E.v), "velocity of band " \o ToString(E.b) \o " is " \o ToString(E.v) \o ", gradient " \o ToString(Grad(E.b)))
            /\ Expect(Same(E.b, E.v), "velocity of band " \o ToString(E.b) \o " differs from the first answer")
            /\ first' = Remember(E.b, E.v) /\ UNCHANGED <<f, g, known, sep, tol>>
       [] E.ev = "onec" ->
            /\ Expect(OkDot(E.b, E.u, E.v, 1), "component of band " \o ToString(E.b) \o " is not that of the gradient")
            /\ Expect(SameDot(E.b, E.u, E.v, 1), "component of band " \o ToString(E.b) \o " is not linear in the direction")
            /\ Stay
       [] OTHER ->
            /\ \A i \in 1..3 : Expect(OkDot(E.b, E.g[i], E.v[i], 4), "derivative of band " \o ToString(E.b) \o " along reciprocal vector " \o ToString(i))
            /\ \A i \in 1..3 : Expect(SameDot(E.b, E.g[i], E.v[i], 4), "derivative of band " \o ToString(E.b) \o " along reciprocal vector " \o ToString(i) \o " differs from the first answer")
            /\ Stay
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
