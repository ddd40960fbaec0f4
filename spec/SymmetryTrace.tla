----------------------------- MODULE SymmetryTrace -----------------------------
(* kind "f": a field (times 512), the field it is paired with, an operation and *)
(* the overlap that was returned.  kind "g": the values of all operations of    *)
(* the little group in each band of a symmetric structure.                      *)
EXTENDS Symmetry, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
R == Trace[l]
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
(* ---- the overlap on the grid.  Positions in 1/(2N) of the cell ---- *)
Z == 240                                                  \* units of a lattice vector
Pos(i) == Vec(LAMBDA j : IF R.N[j] = 1 THEN 0 ELSE (2 * i[j] - R.N[j]) * (Z \div (2 * R.N[j])))
IndexOf(p) == Vec(LAMBDA j : IF R.N[j] = 1 THEN 0 ELSE ((p[j] * R.N[j] + (Z \div 2) * R.N[j]) \div Z) % R.N[j])
OnGrid(p) == \A j \in D3 : R.N[j] = 1 \/ (p[j] * R.N[j] + (Z \div 2) * R.N[j]) % Z = 0
Lin(i) == (i[1] * R.N[2] + i[2]) * R.N[3] + i[3] + 1
Idx(m) == <<(m - 1) \div (R.N[2] * R.N[3]), ((m - 1) \div R.N[3]) % R.N[2], (m - 1) % R.N[3]>>
Wt == Vec(LAMBDA j : IF R.N[j] = 1 THEN 0 ELSE R.w[j] * (Z \div R.N[j]))
\* W in Cartesian axes: A W A^-1 with the columns of the integer matrix A (5 times the unit basis)
\* (only the ratio matters: A W Adj(A) / Det(A))
Cart(A, W) == MulM(MulM(A, W), Adj(A))
Shrink(x) == <<x[1] \div 64, x[2] \div 64>>
\* one point: conj(F) . Wc D(at pt), times the phase
Term(m, Wc, dA, Wi) ==
  LET i == Idx(m) p == Pos(i) pt == MulV(Wi, SubV(p, Wt)) d == R.D[Lin(IndexOf(pt))] f == R.F[m]
      rot(c, z) == (Wc[c][1] * d[1][z] + Wc[c][2] * d[2][z] + Wc[c][3] * d[3][z]) \div dA
      re == Sum3(Vec(LAMBDA c : (f[c][1] * rot(c, 1) + f[c][2] * rot(c, 2)) \div 64))
      im == Sum3(Vec(LAMBDA c : (f[c][1] * rot(c, 2) - f[c][2] * rot(c, 1)) \div 64))
  IN Turn(<<re, im>>, Dot3(R.k, SubV(pt, p)) \div 12)
AllOnGrid(Wi) == \A m \in 1..Len(R.D) : LET p == Pos(Idx(m)) pt == MulV(Wi, SubV(p, Wt)) IN OnGrid(pt) /\ Dot3(R.k, SubV(pt, p)) % 12 = 0
RECURSIVE Tot(_, _)
Tot(f, k) == IF k = 0 THEN <<0, 0>> ELSE LET t == Tot(f, k - 1) IN <<t[1] + f[k][1], t[2] + f[k][2]>>
RECURSIVE Size(_, _)
Size(F, k) == IF k = 0 THEN 0 ELSE Size(F, k - 1) + Ab(F[k][1][1]) + Ab(F[k][1][2]) + Ab(F[k][2][1]) + Ab(F[k][2][2]) + Ab(F[k][3][1]) + Ab(F[k][3][2])
FieldOk == \E Wi \in {Inv(R.W)} :
  IF ~AllOnGrid(Wi) THEN Bad("the generator left the grid")
  ELSE \E Wc \in {Cart(R.A, R.W)}, dA \in {Det(R.A)} : \E f \in {[m \in 1..Len(R.D) |-> Term(m, Wc, dA, Wi)]} : \E t \in {Tot(f, Len(R.D))} :
    \E s \in {IF R.c = "b" THEN Det(R.W) ELSE 1}, tol \in {12 * Len(R.D) + (Size(R.F, Len(R.F)) + 3 * Size(R.D, Len(R.D))) \div 96} :
      IF ~Close2(<<s * t[1], s * t[2]>>, R.v, tol) THEN Bad("the overlap is " \o ToString(R.v) \o " instead of " \o ToString(<<s * t[1], s * t[2]>>) \o " within " \o ToString(tol))
      ELSE IF R.same /\ R.wrong = <<TRUE, TRUE>> THEN TRUE
      ELSE Bad("the current field changed, another field was accepted or an operation that is none: " \o ToString(R.wrong))
(* ---- the little group ---- *)
nO == Len(R.ops)
Ops == [i \in 1..nO |-> Op(R.ops[i].W, R.ops[i].w)]
\* the value of operation i in the bands lo..hi (a set of equal frequencies)
RECURSIVE Char(_, _, _, _)
Char(v, i, lo, hi) == IF hi < lo THEN <<0, 0>> ELSE LET t == Char(v, i, lo, hi - 1) IN <<t[1] + v[i][hi][1], t[2] + v[i][hi][2]>>
\* the discretised structure has the symmetry only approximately
Tol == 220
RECURSIVE SumN(_, _)
SumN(f, k) == IF k = 0 THEN 0 ELSE SumN(f, k - 1) + Norm2(f[k])
\* values of all operations modulo translations, from the list
Cluster(q) ==
  LET lo == q[1] hi == q[2] d == hi - lo + 1 IN
  \E ch \in {[i \in 1..nO |-> Char(R.v, i, lo, hi)]}, cd \in {[i \in 1..nO |-> Char(R.vd, i, lo, hi)]}, reps \in {{i \in 1..(nO - 2) : TRUE}} :
  \E ix \in {[g \in {Ops[i] : i \in reps} |-> CHOOSE i \in reps : Ops[i] = g]} :
  \E val \in {[g \in {Ops[i] : i \in reps} |-> ch[ix[g]]]} :
    \* value of any operation of the group: representative and translation
    LET Of(g) == Turn(val[Rep(g)], TransTurn(R.k, Shift(g)))
    IN IF ~\A i \in 1..nO : Close2(ch[i], cd[i], Tol * d) THEN Bad("values from D and B differ in bands " \o ToString(q))
       ELSE IF ~Close2(val[E0], <<V * d, 0>>, Tol) THEN Bad("the identity has the value " \o ToString(val[E0]) \o " in bands " \o ToString(q))
       ELSE IF ~\A i \in 1..nO : Close2(ch[i], Of(Ops[i]), Tol * d) THEN Bad("a lattice translation is not the Bloch phase in bands " \o ToString(q))
       ELSE IF d = 1 /\ ~\A i \in 1..nO : Ab(Norm2(ch[i]) - V) <= 3 * Tol THEN Bad("a value is not of modulus one in band " \o ToString(lo) \o ": " \o ToString([i \in 1..nO |-> ch[i]]))
       ELSE IF d = 1 /\ ~\A i \in reps, j \in reps : Close2(Cmul(ch[i], ch[j]), Of(Prod(Ops[i], Ops[j])), 2 * Tol) THEN Bad("values do not multiply like the operations in band " \o ToString(lo))
       ELSE IF ~\A i \in reps : LET z == Of(Inverse(Ops[i])) IN Close2(<<z[1], 0 - z[2]>>, ch[i], Tol * d) THEN Bad("inverse operations do not have conjugate characters in bands " \o ToString(q))
       ELSE IF ~\A i \in reps, j \in reps : Close2(Of(Prod(Prod(Ops[j], Ops[i]), Inverse(Ops[j]))), ch[i], Tol * d) THEN Bad("the characters are not class functions in bands " \o ToString(q))
       ELSE LET s == SumN([i \in 1..(nO - 2) |-> ch[i]], nO - 2) o == (nO - 2) * V r == (s + o \div 2) \div o
            IN IF r >= 1 /\ r <= d * d /\ Ab(s - r * o) <= (o * d) \div 12 THEN TRUE
               ELSE Bad("the characters are not those of a representation in bands " \o ToString(q) \o ": " \o ToString(s) \o " for " \o ToString(o))
GroupOk == /\ IF R.one THEN TRUE ELSE Bad("compute-symmetry of one band differs from compute-symmetries")
           /\ \A q \in 1..Len(R.sets) : Cluster(R.sets[q])
Init == l \in 1..8
Next == /\ l <= Len(Trace) /\ l' = l + 8
        /\ IF R.kind = "f" THEN FieldOk ELSE GroupOk
TSpec == Init /\ [][Next]_<<l>>
Accepted == TLCGet("stats").distinct = Len(Trace) + 8
=============================================================================
