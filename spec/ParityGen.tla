------------------------------ MODULE ParityGen ------------------------------
(* Sessions of requests; a session ends at the first refusal or after Steps. *)
EXTENDS Parity, Json
CONSTANT Steps
VARIABLE log
R(S) == RandomElement(S)
GInit == PInit /\ log = <<>>
Over == Len(log) > 0 /\ log[Len(log)].op = "end"
Add(e) == log' = Append(log, e)
GNext ==
  IF Over THEN FALSE
  ELSE IF dead \/ Len(log) = Steps THEN Add([op |-> "end"]) /\ UNCHANGED pvars
  ELSE \E o \in {R({"init", "set", "solve", "solve", "solve"})},
          kk \in {R({<<0, 0>>, <<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>})},
          w \in {R(1..12)} :
       LET free == {p \in 0..15 : Acceptable(p, k)}
           p == IF w = 1 THEN R(-2..17) ELSE IF w = 2 THEN R(0..15) ELSE IF w <= 5 THEN -1 ELSE R(free)
           fit == IF w = 3 \/ Fits(par, kk) THEN kk ELSE R({q \in {0, 1} \X {0, 1} : Fits(par, q)})
       IN CASE o = "init" \/ (~on /\ w > 2) -> InitParams(p) /\ Add([op |-> "init", p |-> p])
            [] o = "set" -> SetParity(p) /\ Add([op |-> "set", p |-> p])
            [] OTHER -> Solve(fit) /\ Add([op |-> "solve", y |-> fit[1], z |-> fit[2]])
GSpec == GInit /\ [][GNext]_<<pvars, log>>
Emit == ~Over \/ PrintT("@J " \o ToJson(SubSeq(log, 1, Len(log) - 1)))
=============================================================================
