----------------------------- MODULE RunLoopGen -----------------------------
(* Random sessions of runs and single steps, for replay in the real code.   *)
EXTENDS RunLoop, IOUtils
VARIABLES log, solved, step
gvars == <<log, solved, step>>
CONSTANT Steps
Pick(S) == RandomElement(S)
Par3 == [p \in {0, 1, 2, 4, 8, 5, 6, 9, 10} |-> p]
Comps == {"", "x", "y", "z"}
Leaf(n) == CASE Pick(1..9) = 1 -> [t |-> "thunk", id |-> Pick(10..12)]
             [] Pick(1..7) = 1 -> [t |-> "kd", name |-> Pick({"velocity", "zparity", "yparity"})]
             [] Pick(1..8) = 1 -> [t |-> "tot"]
             [] Pick(1..3) = 1 -> [t |-> "band", id |-> Pick(1..3)]
             [] Pick(1..6) = 1 -> [t |-> "out", c |-> "v", comp |-> Pick(Comps), pw |-> 0, pre |-> "flux."]
             [] Pick(1..4) = 1 -> [t |-> "out", c |-> Pick({"d", "b"}), comp |-> "", pw |-> 1, pre |-> ""]
             [] Pick(1..8) = 1 -> [t |-> "out", c |-> "C", comp |-> "", pw |-> 0, pre |-> ""]
             [] OTHER -> [t |-> "out", c |-> Pick({"d", "h", "b", "e"}), comp |-> Pick(Comps), pw |-> 0, pre |-> ""]
Leaves(n) == [i \in 1..n |-> Leaf(i)]
Fun(n) == CASE Pick(1..6) = 1 -> [t |-> "comb", fs |-> Leaves(Pick(0..3))]
            [] Pick(1..5) = 1 -> [t |-> "at", k |-> Pick(1..5), fs |-> Leaves(Pick(1..2))]
            [] Pick(1..7) = 1 -> [t |-> "thr", on |-> Pick({0, 1}), fs |-> Leaves(1)]
            [] Pick(1..14) = 1 -> [t |-> "comb", fs |-> <<[t |-> "at", k |-> Pick(1..5), fs |-> Leaves(2)], Leaf(1)>>]
            [] Pick(1..16) = 1 -> [t |-> "rand"]
            [] OTHER -> Leaf(1)
KList(n) == [i \in 1..Pick({0, 1, 2, 2, 3, 3, 4, 5, 7}) |-> Pick(1..5)]
RunOf(n, num) ==
        [a |-> "run", par |-> Pick(DOMAIN Par3), ks |-> KList(n), nb |-> Pick({0, 1, 1, 2, 2, 3, 3}), pre |-> Pick(0..3),
         fs |-> [i \in 1..Pick(0..4) |-> Fun(i)], num |-> num, ix |-> IF Pick(1..3) = 1 THEN Pick(0..num) ELSE 0,
         rand |-> IF Pick(1..6) = 1 THEN 1 ELSE 0, how |-> Pick(1..3)]
ARun(n) == RunOf(n, IF Pick(1..2) = 1 THEN 1 ELSE Pick({2, 3, 4, 6}))
GInit == log = <<>> /\ solved = FALSE /\ step = 0
DoRun == \E q \in {ARun(step)} :
         /\ log' = Append(log, q)
         /\ solved' = (q.nb > 0 /\ ChunkLen(Len(q.ks), q.num, q.ix) > 0)
DoSet == log' = Append(log, [a |-> "set", n |-> Pick({5, 9, 98, 99, 120})]) /\ UNCHANGED solved
DoSolve == log # <<>> /\ log' = Append(log, [a |-> "solve", k |-> Pick(1..5)]) /\ solved' = solved
DoCall == solved /\ log' = Append(log, [a |-> "call", f |-> Leaf(1), b |-> Pick(1..3)]) /\ UNCHANGED solved
GNext == step < Steps /\ step' = step + 1
         /\ IF solved /\ Pick(1..2) = 1 THEN (IF Pick(1..3) = 1 THEN DoSet ELSE IF Pick(1..2) = 1 THEN DoSolve ELSE DoCall) ELSE DoRun
GSpec == GInit /\ [][GNext]_gvars
Emit == step # Steps \/ PrintT("@J " \o ToJson(log))
=============================================================================
