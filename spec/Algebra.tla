------------------------------- MODULE Algebra -------------------------------
(* The dense matrices of the solver: a machine whose registers are blocks of   *)
(* fields (tall matrices, n rows by p columns) and square matrices, and whose  *)
(* instructions are the operations of matrices.h.  Numbers are complex         *)
(* integers <<re, im>> (im = 0 in the build with inversion symmetry), so that  *)
(* every product is exact and the machine and the code must agree exactly.     *)
(* An instruction that addresses part of a matrix leaves the rest as it was:   *)
(* every instruction yields the contents of ALL registers.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zc == <<0, 0>>
One == <<1, 0>>
Cadd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Cmul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], 0 - a[2]>>
Cscale(s, a) == <<s * a[1], s * a[2]>>
Nabs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Csum(_, _)
Csum(f, k) == IF k = 0 THEN Zc ELSE Cadd(Csum(f, k - 1), f[k])

Rows(M) == Len(M)
Cols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
Matrix(r, c, F(_, _)) == [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]
Identity(p) == Matrix(p, p, LAMBDA i, j : IF i = j THEN One ELSE Zc)
Adjoint(M, c) == Matrix(c, Rows(M), LAMBDA i, j : Conj(M[j][i]))     \* c: columns of M
Herm(M) == Adjoint(M, Rows(M))
Mul(A, B) == Matrix(Rows(A), Cols(B), LAMBDA i, j : Csum([k \in 1..Rows(B) |-> Cmul(A[i][k], B[k][j])], Rows(B)))
AddM(A, B) == Matrix(Rows(A), Cols(A), LAMBDA i, j : Cadd(A[i][j], B[i][j]))
ScaleM(s, A) == Matrix(Rows(A), Cols(A), LAMBDA i, j : Cscale(s, A[i][j]))
Block(M, i0, j0, r, c) == Matrix(r, c, LAMBDA i, j : M[i0 + i][j0 + j])
\* M with the block at (i0, j0) replaced by B; nothing else changes
Put(M, i0, j0, B) == Matrix(Rows(M), Cols(M), LAMBDA i, j :
  IF i > i0 /\ i <= i0 + Rows(B) /\ j > j0 /\ j <= j0 + Cols(B) THEN B[i - i0][j - j0] ELSE M[i][j])
Maybe(M, dagger) == IF dagger = 1 THEN Herm(M) ELSE M
Trace0(M) == Csum([i \in 1..Rows(M) |-> M[i][i]], Rows(M))
Upper2Full(M) == Matrix(Rows(M), Rows(M), LAMBDA i, j : IF j < i THEN Conj(M[j][i]) ELSE M[i][j])
\* X^H Y: an inner product for each pair of columns
Gram(X, Y) == Matrix(Cols(X), Cols(Y), LAMBDA i, j : Csum([k \in 1..Rows(X) |-> Cmul(Conj(X[k][i]), Y[k][j])], Rows(X)))
DiagOf(M) == [i \in 1..Rows(M) |-> M[i][i]]
RealOf(d) == [i \in 1..Len(d) |-> <<d[i][1], 0>>]
TimesDiag(Y, d) == Matrix(Rows(Y), Cols(Y), LAMBDA i, j : Cmul(Y[i][j], d[j]))
Resize(M, r, c, fill) == Matrix(r, c, LAMBDA i, j : IF i <= Rows(M) /\ j <= Cols(M) THEN M[i][j] ELSE fill[i][j])

SetE(st, x, M) == [st EXCEPT !.E[x] = M]
SetQ(st, u, M) == [st EXCEPT !.Q[u] = M]
E(st, x) == st.E[x]
Q(st, s) == st.Q[s]

(* ---- which instructions make sense in a state (the documented demands) ---- *)
Square(st, s) == s = 0 \/ Rows(Q(st, s)) > 0
Enabled(st, o) ==
  LET ex == st.E IN
  CASE o.op \in {"ecopy", "eaxpby"} -> Cols(ex[o.x]) = Cols(ex[o.y])
    [] o.op = "eslice" -> o.x # o.y /\ o.ix + o.p <= Cols(ex[o.x]) /\ o.iy + o.p <= Cols(ex[o.y]) /\ o.p >= 1
    [] o.op = "eaxpbys" -> o.x # o.y /\ Cols(ex[o.x]) = Cols(ex[o.y]) /\ (IF o.s = 0 THEN TRUE ELSE o.i + Cols(ex[o.x]) <= Rows(Q(st, o.s)) /\ o.j + Cols(ex[o.x]) <= Rows(Q(st, o.s)))
    [] o.op \in {"exeys", "expays"} -> o.x # o.y /\ Cols(ex[o.x]) = Cols(ex[o.y]) /\ (IF o.s = 0 THEN TRUE ELSE Rows(Q(st, o.s)) = Cols(ex[o.y]) /\ (o.op = "exeys" /\ o.dag = 1 => Q(st, o.s) = Herm(Q(st, o.s))))
    [] o.op \in {"exty", "extydiag", "extydiagre", "trxty"} -> Cols(ex[o.x]) = Cols(ex[o.y])
    [] o.op = "extyslice" -> o.ix + o.p <= Cols(ex[o.x]) /\ o.iy + o.p <= Cols(ex[o.y])
    [] o.op = "extyslice2" -> LET p == Rows(Q(st, o.u)) IN o.ix + p <= Cols(ex[o.x]) /\ o.iy + o.q <= Cols(ex[o.y]) /\ o.q <= p /\ o.iu + o.q <= p
    [] o.op = "extysub" -> Cols(ex[o.x]) = Cols(ex[o.y]) /\ o.i + Cols(ex[o.x]) <= Rows(Q(st, o.u)) /\ o.j + Cols(ex[o.x]) <= Rows(Q(st, o.u))
    [] o.op \in {"mxpaydiag", "mxpaydiagre"} -> o.x # o.y /\ Cols(ex[o.x]) = Cols(ex[o.y]) /\ Len(o.d) = Cols(ex[o.x])
    [] o.op = "mxdpyd" -> Cols(ex[o.x]) = Cols(ex[o.y]) /\ Len(o.d) = Cols(ex[o.x]) /\ Len(o.d2) = Len(o.d)
    [] o.op = "retrad" -> Len(o.d) = Rows(Q(st, o.s))
    [] o.op \in {"qcopy", "qaapbb", "qapab", "qtrab"} -> Rows(Q(st, o.x)) = Rows(Q(st, o.y))
    [] o.op \in {"qupper", "qsym"} -> o.x # o.y /\ Rows(Q(st, o.x)) = Rows(Q(st, o.y))
    [] o.op = "smult" -> Rows(Q(st, o.y)) = Rows(Q(st, o.s))
    [] o.op = "sset" -> o.i <= Rows(Q(st, o.x)) /\ o.j <= Rows(Q(st, o.x))
    [] o.op \in {"qaebc", "qapabc"} -> o.x # o.y /\ o.x # o.s /\ Rows(Q(st, o.x)) = Rows(Q(st, o.y)) /\ Rows(Q(st, o.y)) = Rows(Q(st, o.s))
    [] OTHER -> TRUE

(* ---- what an instruction leaves in the registers ---- *)
Sub(st, o, p) == IF o.s = 0 THEN Identity(p) ELSE Maybe(Block(Q(st, o.s), o.i, o.j, p, p), o.dag)
Apply(st, o) ==
  CASE o.op = "ecopy" -> SetE(st, o.x, E(st, o.y))
    [] o.op = "eslice" -> SetE(st, o.x, Put(E(st, o.x), 0, o.ix, Block(E(st, o.y), 0, o.iy, Rows(E(st, o.x)), o.p)))
    [] o.op = "eresize" -> SetE(st, o.x, IF o.keep = 1 THEN Resize(E(st, o.x), Rows(E(st, o.x)), o.p, o.fill) ELSE o.fill)
    [] o.op = "eaxpby" -> SetE(st, o.x, AddM(ScaleM(o.a, E(st, o.x)), ScaleM(o.b, E(st, o.y))))
    [] o.op = "eaxpbys" -> SetE(st, o.x, AddM(ScaleM(o.a, E(st, o.x)), ScaleM(o.b, Mul(E(st, o.y), Sub(st, o, Cols(E(st, o.y)))))))
    [] o.op = "exeys" -> SetE(st, o.x, IF o.s = 0 THEN E(st, o.y) ELSE Mul(E(st, o.y), Q(st, o.s)))
    [] o.op = "expays" -> SetE(st, o.x, AddM(E(st, o.x), ScaleM(o.a, IF o.s = 0 THEN E(st, o.y) ELSE Mul(E(st, o.y), Maybe(Q(st, o.s), o.dag)))))
    [] o.op = "extx" -> SetQ(st, o.u, Gram(E(st, o.x), E(st, o.x)))
    [] o.op = "exty" -> SetQ(st, o.u, Gram(E(st, o.x), E(st, o.y)))
    [] o.op = "extyslice" -> SetQ(st, o.u, Block(Gram(E(st, o.x), E(st, o.y)), o.ix, o.iy, o.p, o.p))
    [] o.op = "extyslice2" -> SetQ(st, o.u, Put(Q(st, o.u), 0, o.iu, Block(Gram(E(st, o.x), E(st, o.y)), o.ix, o.iy, Rows(Q(st, o.u)), o.q)))
    [] o.op = "extysub" -> SetQ(st, o.u, Put(Q(st, o.u), o.i, o.j, Gram(E(st, o.x), E(st, o.y))))
    [] o.op = "mxpaydiag" -> SetE(st, o.x, AddM(E(st, o.x), ScaleM(o.a, TimesDiag(E(st, o.y), o.d))))
    [] o.op = "mxpaydiagre" -> SetE(st, o.x, AddM(E(st, o.x), ScaleM(o.a, TimesDiag(E(st, o.y), o.d))))
    [] o.op = "mxdpyd" -> SetE(st, o.x, AddM(TimesDiag(E(st, o.x), o.d), TimesDiag(E(st, o.y), o.d2)))
    [] o.op = "qcopy" -> SetQ(st, o.x, Q(st, o.y))
    [] o.op = "qresize" -> SetQ(st, o.x, IF o.keep = 1 THEN Resize(Q(st, o.x), o.p, o.p, o.fill) ELSE o.fill)
    [] o.op = "qupper" -> SetQ(st, o.x, Upper2Full(Q(st, o.y)))
    [] o.op = "qsym" -> SetQ(st, o.x, AddM(Q(st, o.y), Herm(Q(st, o.y))))           \* twice the symmetric part
    [] o.op = "qaebc" -> SetQ(st, o.x, Mul(Maybe(Q(st, o.y), o.dy), Maybe(Q(st, o.s), o.ds)))
    [] o.op = "qapabc" -> SetQ(st, o.x, AddM(Q(st, o.x), ScaleM(o.a, Mul(Maybe(Q(st, o.y), o.dy), Maybe(Q(st, o.s), o.ds)))))
    [] o.op = "qapab" -> SetQ(st, o.x, AddM(Q(st, o.x), ScaleM(o.a, Q(st, o.y))))
    [] o.op = "qaapbb" -> SetQ(st, o.x, AddM(ScaleM(o.a, Q(st, o.x)), ScaleM(o.b, Q(st, o.y))))
    \* the functions a script calls
    [] o.op = "smult" -> SetQ(st, o.x, Mul(Q(st, o.y), Q(st, o.s)))
    [] o.op = "sdiagm" -> SetQ(st, o.x, Matrix(Len(o.d), Len(o.d), LAMBDA i, j : IF i = j THEN o.d[i] ELSE Zc))
    [] o.op = "sset" -> [st EXCEPT !.Q[o.x][o.i][o.j] = o.v]
    [] OTHER -> st

(* ---- what it returns: a list of numbers ---- *)
Returns(st, o) ==
  CASE o.op = "extydiag" -> DiagOf(Gram(E(st, o.x), E(st, o.y)))
    [] o.op = "extydiagre" -> RealOf(DiagOf(Gram(E(st, o.x), E(st, o.y))))
    [] o.op = "extxdiag" -> RealOf(DiagOf(Gram(E(st, o.x), E(st, o.x))))
    [] o.op = "trxty" -> <<Trace0(Gram(E(st, o.x), E(st, o.y)))>>
    [] o.op = "retrad" -> <<Csum([i \in 1..Len(o.d) |-> <<Q(st, o.s)[i][i][1] * o.d[i][1], 0>>], Len(o.d))>>
    [] o.op = "dtrace" -> <<Csum(o.d, Len(o.d))>>
    [] o.op = "dtracere" -> <<Csum(RealOf(o.d), Len(o.d))>>
    [] o.op = "qtrace" -> <<Trace0(Q(st, o.x))>>
    [] o.op = "qtrab" -> <<Trace0(Mul(Herm(Q(st, o.x)), Q(st, o.y)))>>
    [] o.op = "ssize" -> <<<<Rows(Q(st, o.x)), 0>>>>
    [] o.op = "sdiag" -> DiagOf(Q(st, o.x))
    [] OTHER -> <<>>

(* ---- the operations that are defined by an equation ----                    *)
(* Leading minors of a Hermitian matrix are real integers: Sylvester's rule    *)
RECURSIVE Det(_)
Minor(M, j) == Matrix(Rows(M) - 1, Rows(M) - 1, LAMBDA a, b : M[a + 1][IF b < j THEN b ELSE b + 1])
Det(M) == IF Rows(M) = 1 THEN M[1][1]
          ELSE Csum([j \in 1..Rows(M) |-> Cscale(IF j % 2 = 1 THEN 1 ELSE 0 - 1, Cmul(M[1][j], Det(Minor(M, j))))], Rows(M))
Lead(M, k) == Det(Block(M, 0, 0, k, k))[1]
Positive(M) == \A k \in 1..Rows(M) : Lead(M, k) > 0
Indefinite(M) == \E k \in 1..Rows(M) : Lead(M, k) < 0
RECURSIVE Power(_, _)
Power(M, k) == IF k = 1 THEN M ELSE Mul(M, Power(M, k - 1))
Size1(M) == LET f == [i \in 1..Rows(M) |-> <<Csum([j \in 1..Cols(M) |-> <<Nabs(M[i][j][1]) + Nabs(M[i][j][2]), 0>>], Cols(M))[1], 0>>] IN Csum(f, Rows(M))[1]
Near(A, B, t) == \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : Nabs(A[i][j][1] - B[i][j][1]) <= t /\ Nabs(A[i][j][2] - B[i][j][2]) <= t
=============================================================================
