------------------------------ MODULE FieldsGen ------------------------------
(* Random sessions for replay: op after op, each either enabled (performed)  *)
(* or refused (then the session ends, because a refusal ends the program).   *)
EXTENDS Fields, IOUtils
VARIABLES log, done
GenDims == LET big == IOEnv.BIG IN
  IF big = "1d" THEN {<<4,1,1>>, <<5,1,1>>, <<6,1,1>>, <<3,1,1>>}
  ELSE IF big = "2d" THEN {<<4,3,1>>, <<3,4,1>>, <<5,2,1>>, <<2,6,1>>, <<3,3,1>>, <<1,4,1>>, <<4,4,1>>, <<3,5,1>>, <<2,3,1>>}
  ELSE {<<2,3,4>>, <<3,2,3>>, <<1,2,4>>, <<3,3,3>>, <<4,1,3>>, <<2,2,2>>, <<2,4,5>>, <<3,4,2>>}
GenK == {<<1,0,0>>, <<1,2,0>>, <<-1,1,0>>, <<2,1,0>>, <<1,-1,1>>}
GNames == {"a", "b", "c"}
GenInit == /\ n = NoGrid /\ half = (IOEnv.HALF = "1") /\ k = <<0, 0, 0>> /\ cur = None
           /\ st = [x \in Names |-> None] /\ files = {} /\ mem = NoMem /\ log = <<>> /\ done = FALSE
R(S) == RandomElement(S)
NEv(e) == log' = Append(log, e) /\ UNCHANGED done
Refused(e) == log' = Append(log, [e EXCEPT !.ok = 0]) /\ done' = TRUE /\ UNCHANGED vars
KK(d, q) == [i \in 1..3 |-> IF d[i] = 1 THEN 0 ELSE q[i]]
InitStep == \E d \in {R(GenDims)}, q \in {R(GenK)} :
    /\ n' = d /\ cur' = None /\ k' = KK(d, q) /\ mem' = NoMem /\ UNCHANGED <<half, st, files>>
    /\ NEv([ev |-> "init", n |-> d, k |-> KK(d, q), ok |-> 1])
OpSets == [mix |-> <<"eps", "make", "make", "make", "copy", "scalar", "map", "map", "map", "map", "map", "set", "set",
                     "load", "load", "nonbloch", "int", "write", "init", "pt", "conform", "getf", "getf", "energy", "energy", "efromd">>,
           pt |-> <<"eps", "make", "make", "scalar", "scalar", "map", "map", "map", "load", "load", "nonbloch", "init",
                    "pt", "pt", "pt", "pt", "pt", "pt", "pt", "ept", "ept", "getf", "getf", "copy", "energy", "efromd">>,
           write |-> <<"eps", "make", "make", "scalar", "map", "map", "map", "load", "load", "load", "nonbloch", "init",
                       "write", "write", "write", "write", "write", "getf", "getf", "getf", "energy", "energy", "efromd", "copy">>]
OpSet == OpSets[IOEnv.FOCUS]
AllNames == Names \cup {"cur"}
Have == {x \in AllNames : Exists(x)}
Some(S) == IF S = {} THEN "cur" ELSE R(S)
Pick(S) == IF R(1..50) = 1 THEN R(AllNames) ELSE Some(S)
Op(op) ==
  CASE op = "eps" -> Eps /\ NEv([ev |-> "eps", ok |-> 1])
    [] op = "make" -> \E x \in {R(Names)}, t \in {R({"r", "v"})}, s \in {Pick(Have)} :
         LET e == [ev |-> "make", x |-> x, t |-> t, src |-> s, ok |-> 1] IN
         IF CanMake(s) THEN Make(x, t, s) /\ NEv(e) ELSE Refused(e)
    [] op = "copy" -> \E x \in {R(Names)}, s \in {Pick(Have)} :
         LET e == [ev |-> "copy", x |-> x, src |-> s, ok |-> 1] IN
         IF CanCopy(s) THEN Copy(x, s) /\ NEv(e) ELSE Refused(e)
    [] op = "scalar" -> \E x \in {R(Names)} :
         IF k # <<0,0,0>> /\ n # NoGrid THEN Scalar(x) /\ NEv([ev |-> "scalar", x |-> x, ok |-> 1])
         ELSE UNCHANGED <<vars, log, done>>
    [] op = "map" -> \E x \in {Pick(Have)}, c \in {R(1..40)}, m \in {R(0..3)} :
         \E s \in {IF m = 0 THEN <<>> ELSE IF m = 1 THEN <<Pick({y \in Have : Conform(x, y)})>>
                   ELSE IF m = 2 THEN <<Pick({y \in Have : Conform(x, y)}), Pick({y \in Have : Conform(x, y)})>>
                   ELSE <<Pick({y \in Have : Conform(x, y)}), Pick({y \in Have : Conform(x, y)}), Pick({y \in Have : Conform(x, y)})>>} :
         LET e == [ev |-> "map", x |-> x, c |-> c, srcs |-> s, ok |-> 1] IN
         IF CanMap(x, s) /\ \E i \in 1..Len(s) : Get(s[i]).s = Raw THEN UNCHANGED <<vars, log, done>>
         ELSE IF CanMap(x, s) THEN Map(x, c, s) /\ NEv(e) ELSE Refused(e)
    [] op = "getf" -> \E c \in {R({"d", "h", "b", "e"})} :
         Getf(c, [l \in 1..Size(n) |-> Zero("v")]) /\ NEv([ev |-> "getf", c |-> c, ok |-> 1])
    [] op = "efromd" -> IF CanEfromD THEN cur' = [cur EXCEPT !.ch = "e"] /\ UNCHANGED <<n, half, k, st, files, mem>>
                                          /\ NEv([ev |-> "efromd", ok |-> 1])
                        ELSE UNCHANGED <<vars, log, done>>
    [] op = "energy" -> IF CanEnergy THEN cur' = [cur EXCEPT !.t = "r", !.ch = EnKind(cur.ch), !.a = [l \in 1..Size(n) |-> <<0>>]]
                                          /\ UNCHANGED <<n, half, k, st, files, mem>> /\ NEv([ev |-> "energy", ok |-> 1])
                        ELSE UNCHANGED <<vars, log, done>>
    [] op = "set" -> \E x \in {Pick(Have)} : \E y \in {Pick({z \in Have : Conform(x, z) /\ Get(z).t = Get(x).t})} :
         LET e == [ev |-> "set", x |-> x, src |-> y, ok |-> 1] IN
         IF CanSet(x, y) THEN Set(x, y) /\ NEv(e) ELSE Refused(e)
    [] op = "load" -> \E y \in {Pick({z \in Have : Get(z).d = n})} :
         LET e == [ev |-> "load", src |-> y, ok |-> 1] IN
         IF CanLoad(y) THEN Load(y) /\ NEv(e) ELSE Refused(e)
    [] op = "nonbloch" -> IF {z \in Have : Get(z).t = "v"} = {} /\ R(1..8) > 1 THEN UNCHANGED <<vars, log, done>> ELSE
         \E x \in {Pick({z \in Have : Get(z).t = "v"})} :
         LET e == [ev |-> "nonbloch", x |-> x, ok |-> 1] IN
         IF ~Exists(x) \/ CanNonbloch(x) THEN
            IF Exists(x) THEN Nonbloch(x) /\ NEv(e) ELSE Refused(e)
         ELSE Refused(e)
    [] op = "int" -> \E x \in {Some(Have)} : \E y \in {Some({z \in Have : Conform(x, z)})} :
         IF Exists(x) /\ Exists(y) /\ Get(x).s = 1 /\ Get(y).s = 1 THEN UNCHANGED vars /\ NEv([ev |-> "int", srcs |-> IF R(1..3) = 1 THEN <<x>> ELSE <<x, y>>, ok |-> 1])
         ELSE UNCHANGED <<vars, log, done>>
    [] op = "conform" -> \E x \in {Some(Have)} : \E y \in {Some(Have)} :
         IF Exists(x) /\ Exists(y) THEN UNCHANGED vars /\ NEv([ev |-> "conform", srcs |-> <<x, y>>, ok |-> 1])
         ELSE UNCHANGED <<vars, log, done>>
    [] op = "write" -> IF cur # None THEN WriteFile(ToString(Len(log)))
                            /\ NEv([ev |-> "write", comp |-> IF cur.t = "v" THEN R(-1..2) ELSE -1, ok |-> 1])
                       ELSE UNCHANGED <<vars, log, done>>
    [] op = "init" -> IF Len(log) > 7 THEN InitStep ELSE UNCHANGED <<vars, log, done>>
    [] op = "ept" -> \E p \in {[i \in 1..3 |-> R((-8 * n[i])..(16 * n[i]))]} :
         UNCHANGED vars /\ NEv([ev |-> "ept", p |-> p, ok |-> 1])
    [] OTHER -> \E x \in {IF R(1..2) = 1 THEN "cur" ELSE Some(Have)} :
         IF Exists(x) /\ Get(x).d = n
         THEN \E b \in {R(0..1)}, p \in {[i \in 1..3 |-> R((-8 * n[i])..(16 * n[i]))]} :
              LET f == Get(x)
                  bl == IF f.t = "c" /\ x # "cur" THEN 0 ELSE b
                  q == IF bl = 1 \/ ExactTurns(n, Kvec(f), p) THEN p ELSE [i \in 1..3 |-> 8 * (p[i] \div 8) + 4 * (n[i] % 2)]
              IN UNCHANGED vars /\ NEv([ev |-> "pt", x |-> x, t |-> f.t, ch |-> f.ch, bloch |-> bl,
                     p |-> IF bl = 1 \/ ExactTurns(n, Kvec(f), q) THEN q ELSE [i \in 1..3 |-> 8 * (p[i] \div 8)], ok |-> 1])
         ELSE UNCHANGED <<vars, log, done>>
GenNext == /\ ~done
           /\ IF n = NoGrid THEN InitStep
              ELSE IF log # <<>> /\ log[Len(log)].ev = "getf" THEN
                   \E i \in {R({"energy", "efromd", "copy", "write", "pt", "energy"})} : Op(i)
              ELSE IF log # <<>> /\ log[Len(log)].ev = "init" THEN Op("eps")
              ELSE \E i \in {R(1..Len(OpSet))} : Op(OpSet[i])
Stop == done /\ UNCHANGED <<vars, log, done>>
GenSpec == GenInit /\ [][GenNext \/ Stop]_<<vars, log, done>>
Depth == 24
Emit == TLCGet("level") # Depth \/ PrintT("@J " \o ToJson(log))
=============================================================================
