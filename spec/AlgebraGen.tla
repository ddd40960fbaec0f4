------------------------------ MODULE AlgebraGen ------------------------------
(* Random runs of the matrix machine.  The state of the machine is carried so   *)
(* that instructions meet their demands and numbers stay small (registers that  *)
(* have grown are loaded afresh).                                               *)
EXTENDS Algebra, IOUtils, Json
Real == IOEnv.REAL = "1"
Depth == 46
VARIABLES st, prog, n
vars == <<st, prog, n>>
R(S, k) == RandomElement(S)
Num(k) == <<R({0 - 2, 0 - 1, 0, 0, 1, 2, 3}, k), IF Real THEN 0 ELSE R({0 - 2, 0 - 1, 0, 1, 2}, k)>>
Tup(k, F(_)) == CASE k = 0 -> <<>> [] k = 1 -> <<F(1)>> [] k = 2 -> <<F(1), F(2)>> [] k = 3 -> <<F(1), F(2), F(3)>>
  [] k = 4 -> <<F(1), F(2), F(3), F(4)>> [] k = 5 -> <<F(1), F(2), F(3), F(4), F(5)>> [] k = 6 -> <<F(1), F(2), F(3), F(4), F(5), F(6)>>
  [] OTHER -> <<F(1), F(2), F(3), F(4), F(5), F(6), F(7)>>
Mat(r, c) == Tup(r, LAMBDA i : Tup(c, LAMBDA j : Num(i + j)))
Diag(p) == Tup(p, LAMBDA i : Num(i))
DiagR(p) == Tup(p, LAMBDA i : <<R((0 - 3)..4, i), 0>>)
Sc(k) == R({1, 1, 0 - 1, 2, 3, 0 - 2, 0}, k)
Bit(k) == R({0, 1}, k)
Grown(M) == \E i \in 1..Rows(M) : \E j \in 1..Cols(M) : Nabs(M[i][j][1]) + Nabs(M[i][j][2]) > 400
Script == IOEnv.SCRIPT = "1"
Kinds == IF Script THEN {"smult", "smult", "sdiagm", "sset", "ssize", "sdiag", "seig"} ELSE {"ecopy", "eslice", "eslice", "eresize", "eaxpby", "eaxpbys", "eaxpbys", "exeys", "expays", "extx", "exty", "extyslice", "extyslice2", "extysub", "extydiag", "extydiagre",
  "extxdiag", "trxty", "mxpaydiag", "mxpaydiagre", "mxdpyd", "retrad", "dtrace", "dtracere", "qtrace", "qtrab", "qcopy", "qresize", "qupper", "qsym", "qaebc",
  "qapabc", "qapab", "qaapbb", "inv", "eig", "geig", "evals", "sqrt"}
Xr(k) == R(1..3, k)
HermM(p) == LET z == Mat(p, p) IN {AddM(q, Herm(q)) : q \in {z}}
Pick(S) == CHOOSE x \in S : TRUE
PosM(p) == Pick({AddM(Gram(q, q), Identity(p)) : q \in {Mat(p, p)}})
HerM(p) == Pick({AddM(q, Herm(q)) : q \in {Mat(p, p)}})
Up(c) == IF c >= 1 THEN R(1..c, c) ELSE 1
Instr(k, s) ==
  LET N == Rows(s.E[1]) IN
  \E x \in {Xr(n)}, y \in {Xr(n)}, z \in {Xr(n)}, p \in {R(1..5, n)} :
  \E cx \in {Cols(s.E[x])}, cy \in {Cols(s.E[y])}, qz \in {Rows(s.Q[z])} :
  \E ix \in {R(0..(cx - 1), n)}, iy \in {R(0..(cy - 1), n)} :
  \E w \in {R(1..(IF cx - ix < cy - iy THEN cx - ix ELSE cy - iy), n)} :
  \E o \in { CASE k = "ecopy" -> [op |-> k, x |-> x, y |-> y]
    [] k = "eslice" -> [op |-> k, x |-> x, y |-> y, ix |-> ix, iy |-> iy, p |-> w]
    [] k = "eresize" -> [op |-> k, x |-> x, p |-> p, keep |-> R({0, 1, 1}, n), fill |-> Mat(N, p)]
    [] k = "eaxpby" -> [op |-> k, a |-> Sc(n), b |-> Sc(n), x |-> x, y |-> y]
    [] k = "eaxpbys" -> [op |-> k, a |-> Sc(n), b |-> Sc(n), x |-> x, y |-> y, s |-> z, i |-> IF qz > cx THEN R(0..(qz - cx), n) ELSE 0, j |-> IF qz > cx THEN R(0..(qz - cx), n) ELSE 0, dag |-> Bit(n)]
    [] k = "exeys" -> [op |-> k, x |-> x, y |-> y, s |-> R({z, z, 0}, n), dag |-> Bit(n)]
    [] k = "expays" -> [op |-> k, a |-> Sc(n), x |-> x, y |-> y, s |-> R({z, z, 0}, n), dag |-> Bit(n)]
    [] k = "extx" -> [op |-> k, u |-> z, x |-> x]
    [] k = "exty" -> [op |-> k, u |-> z, x |-> x, y |-> y]
    [] k = "extyslice" -> [op |-> k, u |-> z, x |-> x, y |-> y, ix |-> ix, iy |-> iy, p |-> w]
    [] k = "extyslice2" -> [op |-> k, u |-> z, x |-> x, y |-> y, ix |-> IF cx > qz THEN R(0..(cx - qz), n) ELSE 0, iy |-> iy, q |-> R(1..(cy - iy), n), iu |-> R(0..(qz - 1), n)]
    [] k = "extysub" -> [op |-> k, u |-> z, x |-> x, y |-> y, i |-> IF qz > cx THEN R(0..(qz - cx), n) ELSE 0, j |-> IF qz > cx THEN R(0..(qz - cx), n) ELSE 0]
    [] k \in {"extydiag", "extydiagre", "trxty"} -> [op |-> k, x |-> x, y |-> y]
    [] k = "extxdiag" -> [op |-> k, x |-> x]
    [] k = "mxpaydiag" -> [op |-> k, a |-> Sc(n), x |-> x, y |-> y, d |-> Diag(cx)]
    [] k = "mxpaydiagre" -> [op |-> k, a |-> Sc(n), x |-> x, y |-> y, d |-> DiagR(cx)]
    [] k = "mxdpyd" -> [op |-> k, x |-> x, y |-> y, d |-> DiagR(cx), d2 |-> DiagR(cx)]
    [] k = "retrad" -> [op |-> k, s |-> z, d |-> DiagR(qz)]
    [] k = "dtrace" -> [op |-> k, d |-> Diag(p)]
    [] k = "dtracere" -> [op |-> k, d |-> DiagR(p)]
    [] k = "qtrace" -> [op |-> k, x |-> x]
    [] k \in {"qtrab", "qcopy", "qupper", "qsym"} -> [op |-> k, x |-> x, y |-> y]
    [] k = "qresize" -> [op |-> k, x |-> x, p |-> p, keep |-> R({0, 1, 1}, n), fill |-> Mat(p, p)]
    [] k = "qaebc" -> [op |-> k, x |-> x, y |-> y, dy |-> Bit(n), s |-> z, ds |-> Bit(n)]
    [] k = "qapabc" -> [op |-> k, a |-> Sc(n), x |-> x, y |-> y, dy |-> Bit(n), s |-> z, ds |-> Bit(n)]
    [] k = "qapab" -> [op |-> k, a |-> Sc(n), x |-> x, y |-> y]
    [] k = "qaapbb" -> [op |-> k, a |-> Sc(n), b |-> Sc(n), x |-> x, y |-> y]
    [] k = "inv" -> LET pd == Bit(n) IN [op |-> k, pd |-> pd, w |-> R(3..6, n), m |-> IF R(1..4, n) = 1 /\ pd = 1 THEN HerM(R(1..4, n)) ELSE IF pd = 1 THEN PosM(R(1..4, n)) ELSE HerM(R(1..4, n))]
    [] k = "eig" -> [op |-> k, w |-> R(0..5, n), m |-> HerM(R(1..4, n))]
    [] k = "geig" -> LET r == R(1..4, n) IN [op |-> k, w |-> R(1..5, n), m |-> HerM(r), b |-> PosM(r)]
    [] k = "evals" -> [op |-> k, m |-> Mat(p, p)]
    [] k = "sqrt" -> [op |-> k, m |-> PosM(R(1..4, n))]
    [] k = "smult" -> [op |-> k, x |-> x, y |-> y, s |-> z]
    [] k = "sdiagm" -> [op |-> k, x |-> x, d |-> Diag(p)]
    [] k = "sset" -> [op |-> k, x |-> x, i |-> R(1..Rows(s.Q[x]), n), j |-> R(1..Rows(s.Q[x]), n), v |-> Num(n)]
    [] k \in {"ssize", "sdiag", "seig"} -> [op |-> k, x |-> x]
    [] OTHER -> [op |-> "nop"] } :
  /\ n' = n + 1
  /\ IF Enabled(s, o) THEN st' = Apply(s, o) /\ prog' = Append(prog, o) ELSE UNCHANGED <<st, prog>>
Load(s) ==
  \/ \E x \in {z \in 1..3 : Grown(s.E[z])} : \E f \in {Mat(Rows(s.E[1]), Cols(s.E[x]))} : \E o \in {[op |-> "eresize", x |-> x, p |-> Cols(s.E[x]), keep |-> 0, fill |-> f]} :
       st' = Apply(s, o) /\ prog' = Append(prog, o) /\ n' = n
  \/ \E x \in {z \in 1..3 : Grown(s.Q[z])} : \E p \in {R(1..5, n)} : \E f \in {Mat(p, p)} : \E o \in {[op |-> "qresize", x |-> x, p |-> p, keep |-> 0, fill |-> f]} :
       st' = Apply(s, o) /\ prog' = Append(prog, o) /\ n' = n
Init == /\ n = 0 /\ prog = <<>>
        /\ st = [E |-> <<>>, Q |-> <<>>]
Start == \E N \in {R({1, 2, 3, 4, 5, 6, 7}, n)}, p \in {R(1..4, n)}, q \in {R(2..5, n)} :
         \E e1 \in {Mat(N, p)}, e2 \in {Mat(N, p)}, e3 \in {Mat(N, R(1..4, n))}, q1 \in {Mat(p, p)}, q2 \in {Mat(q, q)}, q3 \in {Mat(q, q)} :
           st' = [E |-> <<e1, e2, e3>>, Q |-> <<q1, q2, q3>>] /\ prog' = <<[op |-> "start", E |-> <<e1, e2, e3>>, Q |-> <<q1, q2, q3>>]>> /\ n' = 1
Next == IF n = 0 THEN Start
        ELSE IF n >= Depth THEN n' = Depth + 1 /\ UNCHANGED <<st, prog>>
        ELSE IF \E x \in 1..3 : Grown(st.E[x]) \/ Grown(st.Q[x]) THEN (IF Script THEN \E x \in {z \in 1..3 : Grown(st.Q[z])} : \E o \in {[op |-> "sdiagm", x |-> x, d |-> Diag(Rows(st.Q[x]))]} : st' = Apply(st, o) /\ prog' = Append(prog, o) /\ n' = n ELSE Load(st))
        ELSE \E k \in {R(Kinds, n)} : Instr(k, st)
Spec == Init /\ [][Next]_vars
Emit == n = Depth => PrintT("@J " \o ToJson([prog |-> prog]))
=============================================================================
