----------------------------- MODULE BlocksTrace -----------------------------
(* Recorded solutions against Blocks and Results.                            *)
(*   solve  nb, bs, z, par, tg (target or 0), bl (blocks), raw (frequencies  *)
(*          in printed order), exact (how many are exactly zero), gram (the  *)
(*          products of all pairs of bands, in 1/10^4), flat (largest        *)
(*          deviation of each constant mode from its mean), mu               *)
(*   obs    p, f, b, x, tf, tb, sep, tg: as in Results; the first one of a   *)
(*          problem has all bands, untargeted, solved at once                *)
EXTENDS Blocks, Results, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES known, l
vars == <<known, l>>
E == Trace[l]
TInit == known = <<>> /\ l = 1
Obs == [f |-> E.f, b |-> E.b, x |-> E.x]
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Expect(c, why) == IF c THEN TRUE ELSE Bad(why)
Zc == IF E.z = 1 /\ E.tg = 0 THEN Min(Const(E.par), E.nb) ELSE 0
(* the solved bands of one block ascend; without target all bands do *)
Ordered == IF E.tg = 0 THEN Ascending(E.raw)
           ELSE (\A i \in 1..Len(E.bl) : Ascending(SubSeq(E.raw, E.bl[i].lo, E.bl[i].hi))) = TRUE
Identity(g, from) == \A i, j \in from..Len(g) : Abs(g[i][j] - (IF i = j THEN 10000 ELSE 0)) <= E.tb
(* squared distance from the target in units that fit: frequencies in 1/10^4 *)
D(f) == Dist(f \div 100, E.tg)
Fuzz(f, g) == 2 * ((f \div 100) + (g \div 100)) + 2
(* every targeted band is one of the full spectrum q as far as that goes, and no band of the spectrum is clearly nearer *)
Targeted(q) ==
  LET below == SelectSeq(E.f, LAMBDA x : x < q.f[Len(q.f)] - E.tf)
      pl == Places([f |-> below], q, E.tf, 1, 1)
      worst == CHOOSE i \in 1..Len(E.f) : \A j \in 1..Len(E.f) : D(E.f[j]) <= D(E.f[i])
  IN /\ (\A i \in 1..Len(pl) : pl[i] # 0) = TRUE
     /\ (\A j \in 1..Len(q.f) : (\E i \in 1..Len(E.f) : Abs(E.f[i] - q.f[j]) <= E.tf) \/ D(q.f[j]) >= D(E.f[worst]) - Fuzz(q.f[j], E.f[worst])) = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE E.ev = "solve" ->
           /\ known' = known
           /\ Expect(RightBlocks(E.bl, Zc, E.nb), "the bands are not solved once each: constant " \o ToString(Zc) \o " solved " \o ToString(E.bl))
           /\ Expect(\A i \in 1..Len(E.bl) : E.bl[i].hi - E.bl[i].lo + 1 <= BlockSize(E.nb, E.bs), "larger block than asked for")
           /\ Expect(Ordered, "frequencies not in ascending order")
           /\ Expect(Len(E.raw) = E.nb, "number of bands")
           /\ Expect(E.exact >= Zc, "constant modes are not at zero frequency")
           /\ Expect(Len(E.flat) = Zc /\ (\A i \in 1..Len(E.flat) : E.flat[i] <= 2), "constant modes are not constant")
           /\ Expect(Identity(E.gram, IF E.mu = 1 THEN Zc + 1 ELSE 1), "the bands are not orthonormal " \o ToString(E.gram))
           /\ Expect(E.mu = 1 /\ Zc > 0 => Identity(E.gram, 1), "constant modes are not normalised if mu is not 1")
       [] OTHER ->
           IF E.p \notin DOMAIN known THEN known' = (E.p :> Obs) @@ known
           ELSE /\ known' = known
                /\ IF E.tg = 0 THEN Expect(Agree(known[E.p], Obs, E.tf, E.tb, E.sep), "differs from the solution of all bands at once")
                   ELSE Expect(Targeted(known[E.p]), "not the modes nearest the target")
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
