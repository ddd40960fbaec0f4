----------------------------- MODULE VelocityGen -----------------------------
(* Sessions of one solved k point: sequences of questions and disturbances   *)
EXTENDS Velocity, Json
CONSTANT Steps
VARIABLE log
R(S) == RandomElement(S)
GInit == VInit /\ log = <<>>
Add(e) == log' = Append(log, e)
GNext == IF Len(log) > Steps THEN FALSE
  ELSE IF Len(log) = Steps THEN Add([op |-> "end"]) /\ UNCHANGED vvars
  ELSE \E o \in {R({"vecs", "comp", "one", "onec", "recip", "turn", "fix", "fetch", "energy", "one", "recip", "vecs"})}, b \in {R(1..Nb)},
          u \in {R({<<2, 1, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, -2, 1>>, <<-1, 1, 2>>, <<0, 3, 1>>})}, q \in {R(1..3)} :
       CASE o \in {"vecs", "comp"} -> AllBands("x") /\ Add([op |-> o, b |-> 0, u |-> u])
         [] o \in {"one", "onec", "recip"} -> OneBand("x", b) /\ Add([op |-> o, b |-> b, u |-> u])
         [] o = "turn" -> Turn(b, q) /\ Add([op |-> o, b |-> b, u |-> <<q, 0, 0>>])
         [] o = "fetch" -> Fetch(b) /\ Add([op |-> o, b |-> b, u |-> u])
         [] OTHER -> Fetch(b) /\ Add([op |-> o, b |-> b, u |-> u])
GSpec == GInit /\ [][GNext]_<<vvars, log>>
Emit == Len(log) <= Steps \/ PrintT("@J " \o ToJson(SubSeq(log, 1, Steps)))
=============================================================================
