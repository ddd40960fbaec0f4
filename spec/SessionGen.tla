---------------------------- MODULE SessionGen ----------------------------
(* Generates sessions: behaviours of Session with the events that are replayed *)
EXTENDS Session, Json
CONSTANT Steps
VARIABLE log
Noise == {"fields", "scale", "swap", "files", "eigfile", "phase", "velocity", "epsilon", "index", "random", "stored", "inputs", "none"}
GInit == Init /\ log = <<>>
Changes(i) == {[i EXCEPT !.g = x] : x \in Grids} \cup {[i EXCEPT !.nb = x] : x \in Nbs} \cup {[i EXCEPT !.bs = x] : x \in Sizes}
              \cup {[i EXCEPT !.nw = x] : x \in Works} \cup {[i EXCEPT !.mu = ~@]} \cup {[i EXCEPT !.par = x] : x \in {"no", "ze", "zeye"}}
              \cup {i}
GSet == /\ inp' = RandomElement(Changes(inp)) /\ log' = log
        /\ UNCHANGED <<ini, buf, hH, hB, hM, hW, np, calls, zc, idx, pc, lo, nextid>>
GIni == InitParams /\ log' = Append(log, [ev |-> "init", inp |-> inp, keep |-> RandomElement({0, 1}), shape |-> IF Keeps(ini, inp) THEN 1 ELSE 0,
                                          v |-> RandomElement({1, 2}), extra |-> RandomElement(1..6)])
GStart == LET z == RandomElement({TRUE, FALSE, FALSE}) IN
          Start(z) /\ log' = Append(log, [ev |-> "solve", zero |-> IF z THEN 1 ELSE 0, k |-> RandomElement({1, 2}),
                                                            noise |-> RandomElement(Noise)])
GStep == (Block \/ Finish) /\ log' = log
GEnd == pc = "idle" /\ Len(log) >= Steps /\ pc' = "end" /\ log' = log
        /\ UNCHANGED <<inp, ini, buf, hH, hB, hM, hW, np, calls, zc, idx, lo, nextid>>
GNext == IF pc = "end" THEN FALSE
         ELSE IF pc = "solve" THEN GStep
         ELSE IF Len(log) >= Steps THEN GEnd
         ELSE IF ini # inp THEN (GIni \/ GSet)
         ELSE IF RandomElement(1..3) = 1 THEN GSet ELSE GStart
GSpec == GInit /\ [][GNext]_<<vars, log>>
Emit == pc # "end" \/ PrintT("@J " \o ToJson(log))
=============================================================================
