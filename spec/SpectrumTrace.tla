---------------------------- MODULE SpectrumTrace ----------------------------
(* Recorded spectra of homogeneous media, and of pairs of equivalent problems.*)
(*   empty  L (as in EmptyLattice), lv (levels of the frequencies, -1 where   *)
(*          one is not an integer)                                            *)
(*   same   kind, f (frequencies of the first problem), parts (those of the   *)
(*          equivalent ones), num, den (scale), tf (1/10^6 of the frequency), *)
(*          ta (absolute)                                                     *)
EXTENDS EmptyLattice, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
TInit == l = 1
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Expect(c, why) == IF c THEN TRUE ELSE Bad(why)
Concat(ss) == LET RECURSIVE C(_)
                  C(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o C(i + 1)
              IN C(1)
Scaled(s) == [i \in 1..Len(s) |-> (s[i] \div E.den) * E.num + ((s[i] % E.den) * E.num) \div E.den]
Tol(v) == E.ta + ((v \div 1000) * E.tf) \div 1000
(* merged, the equivalent spectra are that of the first problem as far as all have been computed *)
Last(s) == s[Len(s)]
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y
Merged == SortSeq(Scaled(Concat(E.parts)), LAMBDA a, b : a < b)
Cut == Smallest({Last(Scaled(E.parts[j])) : j \in 1..Len(E.parts)})
Same ==
  LET m == Merged
      cut == Cut
  IN (\A i \in 1..(IF Len(m) < Len(E.f) THEN Len(m) ELSE Len(E.f)) :
        (Len(E.parts) > 1 /\ m[i] >= cut - Tol(cut)) \/ AbsI(m[i] - E.f[i]) <= Tol(E.f[i])) = TRUE
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE E.ev = "empty" ->
            LET s == Spectrum(E.L, Len(E.lv)) IN Expect(E.lv = s, "levels " \o ToString(E.lv) \o " instead of " \o ToString(s))
       [] OTHER -> Expect(Same, E.kind \o ": " \o ToString(E.f) \o " becomes " \o ToString(E.parts))
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
