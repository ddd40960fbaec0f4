---------------------------- MODULE ResultsTrace ----------------------------
(* One line per observation: [ev |-> "obs", p |-> problem, f, b, x, tf, tb, sep] *)
(* The first observation of a problem defines its result; every later one    *)
(* must agree with it.  Rejected lines are printed and skipped.              *)
EXTENDS Results, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES known, l
vars == <<known, l>>
E == Trace[l]
TInit == known = <<>> /\ l = 1
Obs == [f |-> E.f, b |-> E.b, x |-> E.x]
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ IF ~Ascending(E.f) THEN Bad("frequencies not in ascending order") /\ known' = known
            ELSE IF E.p \notin DOMAIN known THEN known' = (E.p :> Obs) @@ known
            ELSE /\ known' = known
                 /\ IF Agree(known[E.p], Obs, E.tf, E.tb, E.sep) THEN TRUE ELSE Bad("differs from the first result of the problem")
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
