---------------------------- MODULE SessionTrace ----------------------------
(* Is a recorded session a behaviour of Session, with results that depend on *)
(* the problem alone (Results)?                                              *)
(*   start                                                                   *)
(*   init   inp                                                              *)
(*   index  i                 set-kpoint-index                               *)
(*   solve  bl, z, head, idx, nf, par : blocks of bands solved, is k = 0,    *)
(*          was a header printed, printed index, number of frequencies       *)
(*   obs    p, f, b, x, tf, tb, sep                                          *)
EXTENDS Session, Results, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES known, l
tvars == <<vars, known, l>>
E == Trace[l]
Rest == <<buf, hH, hB, hM, hW, np, pc, lo, nextid>>
TInit == /\ inp = NoneI /\ ini = NoneI /\ buf = <<>> /\ hH = NoBuf /\ hB = NoBuf /\ hM = NoBuf /\ hW = <<>>
         /\ np = 0 /\ calls = <<>> /\ zc = 0 /\ idx = 0 /\ pc = "idle" /\ lo = 0 /\ nextid = 1 /\ known = <<>> /\ l = 1
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Obs == [f |-> E.f, b |-> E.b, x |-> E.x]
Expect(c, why) == IF c THEN TRUE ELSE Bad(why)
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED Rest
  /\ CASE E.ev = "start" -> inp' = NoneI /\ ini' = NoneI /\ calls' = <<>> /\ zc' = 0 /\ idx' = 0 /\ known' = known
       [] E.ev = "init" -> inp' = E.inp /\ ini' = E.inp /\ idx' = 0 /\ UNCHANGED <<calls, zc, known>>
       [] E.ev = "index" -> idx' = E.i /\ UNCHANGED <<inp, ini, calls, zc, known>>
       [] E.ev = "solve" ->
            /\ calls' = E.bl /\ zc' = (IF E.z = 1 /\ ~ini.t THEN Min(Const(ini.par), ini.nb) ELSE 0)
            /\ idx' = idx + 1
            /\ Expect(RightBlocks(E.bl, zc', ini.nb), "the bands are not solved once each: constant " \o ToString(zc') \o " solved " \o ToString(E.bl))
            /\ Expect(E.idx = idx', "k index " \o ToString(E.idx) \o " instead of " \o ToString(idx'))
            /\ Expect((E.head = 1) = (idx = 0), "header line")
            /\ Expect(E.nf = ini.nb, "number of frequencies")
            /\ Expect(E.par = E.want, "parity prefix " \o E.par)
            /\ UNCHANGED <<inp, ini, known>>
       [] OTHER -> /\ UNCHANGED <<inp, ini, calls, zc, idx>>
                   /\ IF ~Ascending(E.f) THEN Bad("frequencies not in ascending order") /\ known' = known
                      ELSE IF E.p \notin DOMAIN known THEN known' = (E.p :> Obs) @@ known
                      ELSE known' = known /\ Expect(IF E.kept = 1 THEN AgreeKept(Obs, known[E.p], E.tf, E.tb, E.sep) ELSE Agree(known[E.p], Obs, E.tf, E.tb, E.sep),
                                                  "differs from the result of a fresh run")
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
