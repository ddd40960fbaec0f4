---------------------------- MODULE KPointsTrace ----------------------------
(* Recorded answers of the helpers:  fbz | interp | smooth | grid           *)
EXTENDS KPoints, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Judge ==
    CASE E.ev = "fbz" ->
           IF ~Equivalent(E.L, E.K, E.k, E.r) THEN Bad("the point does not differ by a reciprocal lattice vector")
           ELSE IF ~Reduced(E.L) THEN TRUE
           ELSE IF ~Shortest(E.L, E.K, E.r) THEN Bad("there is a shorter equivalent point")
           ELSE IF E.r2 # E.r /\ ~(Tie(E.L, E.K, E.r) /\ Shortest(E.L, E.K, E.r2)) THEN Bad("a point of the zone is moved") ELSE TRUE
      [] E.ev = "interp" -> IF RightInterpolation(E.L, E.K, E.S, E.n, E.cs, E.out) THEN TRUE ELSE Bad("not an even interpolation through the corners")
      [] E.ev = "smooth" -> IF E.r = NextSmooth(E.n) THEN TRUE ELSE Bad("the next highly composite number is " \o ToString(NextSmooth(E.n)))
      [] E.ev = "grid" -> LET g == [i \in I3 |-> GridSize(E.num[i], E.den[i])]
                              o == [i \in I3 |-> NextSmooth(g[i])] IN
           IF E.g # g THEN Bad("the grid size is " \o ToString(g))
           ELSE IF E.o # o \/ E.p # o THEN Bad("the optimized grid size is " \o ToString(o)) ELSE TRUE
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Judge
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
