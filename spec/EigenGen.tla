------------------------------ MODULE EigenGen ------------------------------
EXTENDS Eigen, Json
CONSTANT Steps
VARIABLES s, log
R(S) == RandomElement(S)
Names == <<"solve", "rand", "get", "get", "get", "set", "set", "scale", "scale", "write", "read", "save", "load", "load", "fix", "fix", "fix", "align", "align">>
Pick(z, g) == Op(g, R(1..z.nb), IF g = "solve" THEN R({1, 2}) ELSE IF g = "get" THEN R(1..3) ELSE R({1, 1, 2, 3}),
                 R(0..3), R({"a", "b"}), IF g = "fix" THEN R({"d", "h", "b", "e"}) ELSE R({"e", "f"}))
GInit == s = NewSession(0, 0) /\ log = <<>>
GStart == \E nb \in {R(2..5)}, m \in {R({0, 1})}, bs \in {R(0..3)} : s' = NewSession(nb, m) /\ log' = <<[o |-> "init", nb |-> nb, mu |-> m, bs |-> bs]>>
GStep == /\ Len(log) <= Steps /\ log # <<>>
         /\ \E g \in {IF s.h = <<>> THEN "solve" ELSE Names[R(1..Len(Names))]} : \E a \in {Pick(s, g)} :
              IF Defined(s, a) /\ ~(g \in {"solve", "rand"} /\ s.h # <<>> /\ R(1..2) = 1)
              THEN s' = Do(s, a) /\ log' = Append(log, a)
              ELSE UNCHANGED <<s, log>>
GNext == IF log = <<>> THEN GStart ELSE GStep
GSpec == GInit /\ [][GNext]_<<s, log>>
Emit == Len(log) <= Steps \/ PrintT("@J " \o ToJson(log))
=============================================================================
