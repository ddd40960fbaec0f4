----------------------------- MODULE AlgebraTrace -----------------------------
(* Recorded instructions: the registers before, the instruction, the registers *)
(* after it and the numbers it returned.  Instructions with unique results     *)
(* must agree exactly; those defined by an equation must satisfy it.           *)
EXTENDS Algebra, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
R == Trace[l]
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Scaled(M, s) == ScaleM(s, M)
Half(M) == LET f == [i \in 1..Rows(M) |-> Csum([j \in 1..Cols(M) |-> <<Nabs(M[i][j][1]) + Nabs(M[i][j][2]), 0>>], Cols(M))[1]]
           IN CHOOSE m \in {f[i] : i \in 1..Rows(M)} : \A i \in 1..Rows(M) : f[i] <= m
ScaleRows(D, M) == Matrix(Rows(M), Cols(M), LAMBDA i, j : Cscale(D[i], M[i][j]))
DivM(M, s) == Matrix(Rows(M), Cols(M), LAMBDA i, j : <<M[i][j][1] \div s, M[i][j][2] \div s>>)
Ascending(D) == \A i \in 1..(Len(D) - 1) : D[i] <= D[i + 1]
MaxD(D) == LET m == {Nabs(D[i]) : i \in 1..Len(D)} IN CHOOSE x \in m : \A y \in m : y <= x
Inverse(o, a) ==
  LET d == Det(o.m)[1] IN
  IF o.pd = 1 /\ Indefinite(o.m) THEN a.res = 0
  ELSE IF (o.pd = 1 /\ Positive(o.m)) \/ (o.pd = 0 /\ d # 0)
       THEN a.res = 1 /\ a.U = Herm(a.U) /\ \A P \in {Mul(a.U, o.m)} : Near(P, Scaled(Identity(Rows(o.m)), 4096), Half(o.m) \div 2 + 2)
       ELSE TRUE
\* U' M = D U' B with U' B U'^H = 1 and ascending D
Eigen(U, D, M, B) ==
  LET n == Rows(M) lim == (MaxD(D) \div 1024 + 1) * 2 + 12 IN
  /\ Len(D) = n /\ Ascending(D)
  /\ \A L \in {Mul(U, M)}, W \in {DivM(ScaleRows(D, U), 1024)} : \A P \in {Mul(W, B)} : Near(L, P, Half(M) + lim * Half(B))
  /\ \A V \in {DivM(U, 16)} : \A P \in {Mul(Mul(V, B), Herm(V))} : Near(P, Scaled(Identity(n), 1048576), 3000 * (Half(B) + 1))
PowerSums(m, a) == \A k \in 1..Rows(m) : \A t \in {Trace0(Power(m, k))} :
  Nabs(64 * t[1] - a.S[k][1]) <= 3 + Nabs(t[1]) \div 100 /\ Nabs(64 * t[2] - a.S[k][2]) <= 3 + Nabs(t[2]) \div 100
Root(o, a) == \A H \in {a.U} : /\ Near(H, Herm(H), 1) /\ \A P \in {Mul(H, H)} : Near(P, Scaled(o.m, 1048576), 2 * Half(H) + 4)
                              /\ Positive(DivM(H, 64))
Relation(o, a) ==
  CASE o.op = "inv" -> Inverse(o, a)
    [] o.op = "eig" -> Eigen(a.U, a.D, o.m, Identity(Rows(o.m)))
    [] o.op = "geig" -> Eigen(a.U, a.D, o.m, o.b)
    [] o.op = "evals" -> a.A = o.m /\ PowerSums(o.m, a)
    [] o.op = "sqrt" -> Root(o, a)
\* k-th powers of eigenvalues of a grown matrix overflow: check those that fit
Fits(m) == \A k \in 1..Rows(m) : \A i \in 1..Rows(m) : \A j \in 1..Rows(m) : Nabs(m[i][j][1]) + Nabs(m[i][j][2]) <= 5
ScriptEig(B, o, a) == IF Fits(B.Q[o.x]) THEN Len(a.S) = Rows(B.Q[o.x]) /\ PowerSums(B.Q[o.x], a) ELSE Len(a.S) = Rows(B.Q[o.x])
Rel(o) == o.op \in {"inv", "eig", "geig", "evals", "sqrt"}
After == IF Rel(R.o) THEN R.a.x ELSE R.a
Init == l \in 1..8
Next == /\ l <= Len(Trace) /\ l' = l + 8
        /\ \A B \in {[E |-> R.b.E, Q |-> R.b.Q]} : \A X \in {Apply(B, R.o)} :
           IF ~Enabled(B, R.o) THEN Bad("the generator made a wrong demand: " \o R.o.op)
           ELSE IF After.E # X.E \/ After.Q # X.Q THEN Bad(R.o.op \o " leaves the wrong contents")
           ELSE IF After.r # Returns(B, R.o) THEN Bad(R.o.op \o " returns " \o ToString(After.r) \o " instead of " \o ToString(Returns(B, R.o)))
           ELSE IF ~After.ok THEN Bad(R.o.op \o " writes outside what it is given (or numbers that are no integers)")
           ELSE IF R.o.op = "seig" /\ ~ScriptEig(B, R.o, R.a) THEN Bad("sqmatrix-eigvals returns no eigenvalues of the matrix")
           ELSE IF ~Rel(R.o) THEN TRUE
           ELSE IF Relation(R.o, R.a) THEN TRUE ELSE Bad(R.o.op \o " does not satisfy its definition")
TSpec == Init /\ [][Next]_<<l>>
Accepted == TLCGet("stats").distinct = Len(Trace) + 8
=============================================================================
