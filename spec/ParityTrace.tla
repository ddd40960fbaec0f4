----------------------------- MODULE ParityTrace -----------------------------
(* Recorded sessions against Parity, and restricted spectra against the      *)
(* unrestricted one.                                                         *)
(*   start                                                                   *)
(*   init/set  p, ok (0 refused), said (announced label), out (label         *)
(*             reported to the script), i (k index), flat                    *)
(*   solve     y, z, ok, lab (printed label), i, zp, yp (parities, 1/10^4),  *)
(*             iso (bands that are not degenerate), flat                     *)
(*   modes     p, f, zp, yp, ez, ey, hz, hy: per band deviation of the E and *)
(*             H fields from being even/odd (1/10^4; <<even, odd>>), iso     *)
(*   merge     f, parts (frequencies of complementary restrictions), tf, sg  *)
(*             (parity of each part) and v (parities of the whole) or <<>>   *)
EXTENDS Parity, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<pvars, l>>
E == Trace[l]
TInit == PInit /\ l = 1
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Expect(c, why) == IF c THEN TRUE ELSE Bad(why)
Near(v, w) == Abs(v - 10000 * w) <= E.tp
(* parities of all bands: as demanded; otherwise a sign for every band that is not degenerate *)
RightParities(p, v, even, odd) ==
  (\A i \in 1..Len(v) : IF Sign(p, even, odd) # 0 THEN Near(v[i], Sign(p, even, odd))
                        ELSE IF E.iso[i] = 1 THEN Near(v[i], 1) \/ Near(v[i], -1)
                        ELSE Abs(v[i]) <= 10000 + E.tp) = TRUE
(* the field of the band is even or odd, as its parity says *)
RightField(p, v, d, even, odd) ==
  (\A i \in 1..Len(v) : LET s == IF Sign(p, even, odd) # 0 THEN Sign(p, even, odd) ELSE IF v[i] > 0 THEN 1 ELSE -1
                        IN (Sign(p, even, odd) = 0 /\ E.iso[i] = 0) \/ d[i] = <<>> \/ d[i][IF s = 1 THEN 1 ELSE 2] <= E.tm) = TRUE
Concat(ss) == LET RECURSIVE C(_)
                  C(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o C(i + 1)
              IN C(1)
(* with multiplicity, as far as all parts and the whole have been computed *)
Merges == LET m == SortSeq(Concat(E.parts), LAMBDA a, b : a < b)
              ends == {IF Len(E.parts[j]) = 0 THEN 0 ELSE E.parts[j][Len(E.parts[j])] : j \in 1..Len(E.parts)}
              cut == CHOOSE x \in ends : \A y \in ends : x <= y
          IN (\A i \in 1..Min2(Len(m), Len(E.f)) : m[i] >= cut - E.tf \/ Abs(m[i] - E.f[i]) <= E.tf) = TRUE
(* parities add up: among the bands below a gap the even ones outnumber the odd ones by the sum of all parities *)
Below(g, x) == Cardinality({i \in 1..Len(g) : g[i] <= x})
Sum(F(_), n) == LET RECURSIVE S(_)
                    S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + F(i)
                IN S(n)
AddUp == LET ends == {IF Len(E.parts[j]) = 0 THEN 0 ELSE E.parts[j][Len(E.parts[j])] : j \in 1..Len(E.parts)}
             cut == CHOOSE x \in ends : \A y \in ends : x <= y
         IN (\A m \in 1..(Len(E.f) - 1) : (E.f[m + 1] - E.f[m] > 4000 /\ E.f[m] + 2000 < cut) =>
               Abs(Sum(LAMBDA i : E.v[i], m) - 10000 * Sum(LAMBDA j : E.sg[j] * Below(E.parts[j], E.f[m] + 2000), Len(E.parts))) <= 100 * m) = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE E.ev = "start" -> on' = FALSE /\ par' = 0 /\ last' = -1 /\ k' = <<0, 0>> /\ idx' = 0 /\ dead' = FALSE
       [] E.ev \in {"init", "set"} ->
            IF dead THEN UNCHANGED pvars /\ Bad("goes on after a request was refused")
            ELSE /\ (IF E.ev = "init" THEN InitParams(E.p) ELSE SetParity(E.p))
                 /\ Expect((E.ok = 1) = ~dead', IF dead' THEN "request " \o ToString(E.p) \o " must be refused" ELSE "request " \o ToString(E.p) \o " must be accepted")
                 /\ Expect((E.ok = 1 /\ on' /\ ~dead') => E.said = Label(par', E.flat = 1), "announced as '" \o E.said \o "' instead of '" \o Label(par', E.flat = 1) \o "'")
                 /\ Expect((E.ok = 1 /\ on' /\ ~dead') => E.i = idx', "k index " \o ToString(E.i))
       [] E.ev = "solve" ->
            IF dead THEN UNCHANGED pvars /\ Bad("goes on after a request was refused")
            ELSE /\ Solve(<<E.y, E.z>>)
                 /\ Expect((E.ok = 1) = ~dead', IF dead' THEN "k point must be refused" ELSE "k point must be accepted")
                 /\ IF E.ok = 0 \/ ~on \/ dead' THEN TRUE
                    ELSE /\ Expect(E.lab = Label(par, E.flat = 1) /\ E.out = E.lab, "filed under '" \o E.lab \o "' and '" \o E.out \o "' instead of '" \o Label(par, E.flat = 1) \o "'")
                         /\ Expect(E.i = idx', "k index " \o ToString(E.i) \o " instead of " \o ToString(idx'))
                         /\ Expect(MirrorZ(par) => RightParities(par, E.zp, 1, 2), "z parities " \o ToString(E.zp))
                         /\ Expect(MirrorY(par) => RightParities(par, E.yp, 4, 8), "y parities " \o ToString(E.yp))
       [] E.ev = "modes" ->
            /\ UNCHANGED pvars
            /\ Expect(E.hasz = 1 => RightParities(E.p, E.zp, 1, 2), "z parities " \o ToString(E.zp))
            /\ Expect(E.hasy = 1 => RightParities(E.p, E.yp, 4, 8), "y parities " \o ToString(E.yp))
            /\ Expect(E.hasz = 1 => RightField(E.p, E.zp, E.ez, 1, 2) /\ RightField(E.p, E.zp, E.hz, 1, 2), "the fields are not " \o Label(E.p, FALSE) \o " in z: " \o ToString(<<E.ez, E.hz>>))
            /\ Expect(E.hasy = 1 => RightField(E.p, E.yp, E.ey, 4, 8) /\ RightField(E.p, E.yp, E.hy, 4, 8), "the fields are not " \o Label(E.p, FALSE) \o " in y: " \o ToString(<<E.ey, E.hy>>))
       [] OTHER -> UNCHANGED pvars /\ Expect(Merges, "the restrictions do not merge to the whole spectrum: " \o ToString(E.f) \o " and " \o ToString(E.parts))
                               /\ Expect(E.v = <<>> \/ AddUp, "the parities do not add up: " \o ToString(E.v))
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
