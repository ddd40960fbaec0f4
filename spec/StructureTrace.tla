--------------------------- MODULE StructureTrace ---------------------------
(* Recorded structures: per grid point the inverse tensor b (times 8192),    *)
(* the mean e (times 1024) and, if there are magnetic      *)
(* materials, that of mu (u, times 1024).                                    *)
EXTENDS Structure, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
Bad(p, why) == PrintT("@J " \o ToJson([line |-> l, point |-> p, why |-> why]))
Q == 8192
CodeOf(r, p) == IF r.asym THEN p ELSE Code(r.d, p)
EpsOf(r, m) == r.mats[IF m = 0 THEN 1 ELSE m].e
MuOf(r, m) == r.mats[IF m = 0 THEN 1 ELSE m].u
Close(x, y, tol) == Abs(x - y) <= tol
(* the mean leaves out the largest of the inverse values, that across an     *)
(* interface; what it left out must be the largest eigenvalue                *)
Two(x, y, z) == x + y + z - MaxOf({x, y, z})
Largest(B, lam) ==
  LET s == 16
      a == B[1] \div s - lam \div s  b == B[2] \div s - lam \div s  c == B[3] \div s - lam \div s
      x == Sc(1, <<B[4] \div s, B[5] \div s>>)  y == <<B[6] \div s, B[7] \div s>>  z == <<B[8] \div s, B[9] \div s>>
      det == a * b * c + 2 * Mul(Mul(x, z), Cj(y))[1] - a * Norm2(z) - b * Norm2(y) - c * Norm2(x)
      m == MaxOf({Abs(a), Abs(b), Abs(c), 16})
  IN a <= 2 /\ b <= 2 /\ c <= 2 /\ Abs(det) <= 12 * m * m
MeanOk(r, p) == LET B == r.b[p] IN
  IF \A i \in 4..9 : Abs(B[i]) <= 1 THEN \E t \in {Two(B[1], B[2], B[3])} : Close(t * r.e[p], 2 * Q * 1024, 2 * r.e[p] + (t \div 2) + 2)
  ELSE Largest(B, B[1] + B[2] + B[3] - (2 * Q * 1024) \div r.e[p])
Is(r, p, e) == IsInverse(r.b[p], e, Q, 16 + r.loose * 8)
TraceInv(m) == Two(Q \div m[1], Q \div m[2], Q \div m[3])
MuIs(r, p, t) == r.u = <<>> \/ Close(t * r.u[p], 2 * Q * 1024, 5 * r.u[p] + t)
(* one number *)
Scalar(r, p, v, s) == \* the dielectric constant v / s
   /\ \A i \in 1..3 : Close(r.b[p][i] * v, Q * s, 2 * v)
   /\ \A i \in 4..9 : Abs(r.b[p][i]) <= 1
   /\ Close(r.e[p] * s, 1024 * v, 2 * s + (v \div 16))
Isotropic(r, w) == Iso(EpsOf(r, w.a)) /\ Iso(EpsOf(r, w.b))
Visible(r, w) == CASE w.k = "uni" -> {w.m} [] w.k \in {"flat", "two"} -> {w.a, w.b} [] OTHER -> w.ms
(* materials that are not one constant *)
Varies(r, m) == (m = 0 /\ r.dm \in {"fn", "file"}) \/ m = 4
NotPlain(r, m) == Varies(r, m) \/ (m = 0 /\ r.dm = "fnc")
Between(x, a, b, tol) == MinOf({a, b}) - tol <= x /\ x <= MaxOf({a, b}) + tol
MixOk(r, p, ms) == \A i \in 1..3 : /\ r.b[p][i] * MaxOf({High(EpsOf(r, m)) : m \in ms}) >= Q - 2 * 16
                                   /\ r.b[p][i] * MinOf({Low(EpsOf(r, m)) : m \in ms}) <= Q + 2 * 16
TwoOk(r, p, w) ==
  LET a == EpsOf(r, w.a)[1]  b == EpsOf(r, w.b)[1]  dl == (w.g * 6) \div 100 + 1
      lo == IF w.f > dl THEN w.f - dl ELSE 0   hi == IF w.f + dl < w.g THEN w.f + dl ELSE w.g
      S(f) == MeanInv(f, w.g, a, b, Q) + 2 * InvMean(f, w.g, a, b, Q)
      B == r.b[p]  n == w.n  nn == n[1] * n[1] + n[2] * n[2] + n[3] * n[3]
      Row(i) == Elt(B, i, 1)[1] * n[1] + Elt(B, i, 2)[1] * n[2] + Elt(B, i, 3)[1] * n[3]
      m == Abs(n[1]) + Abs(n[2]) + Abs(n[3])
  IN /\ Between(B[1] + B[2] + B[3], S(lo), S(hi), 12)
     /\ B[5] = 0 /\ B[7] = 0 /\ B[9] = 0
     /\ nn > 0 => /\ \A i, j \in 1..3 : i # j => Close(Row(i) * n[j], Row(j) * n[i], 3 * m * m)
                  /\ Between((n[1] * Row(1) + n[2] * Row(2) + n[3] * Row(3)) \div nn, MeanInv(lo, w.g, a, b, Q), MeanInv(hi, w.g, a, b, Q), 12)
(* lattice vectors at 60 degrees: the normal to face 1 is at -30 degrees *)
FlatSkew(r, p, w) ==
  LET a == EpsOf(r, w.a)[1]  b == EpsOf(r, w.b)[1]
      t == InvMean(w.f, 8, a, b, Q)  n == MeanInv(w.f, 8, a, b, Q)  dd == n - t  B == r.b[p]
      want == CASE w.ax = 1 -> <<t + (3 * dd) \div 4, t + dd \div 4, t, -((433 * dd) \div 1000)>>
                [] w.ax = 2 -> <<t, n, t, 0>>
                [] OTHER -> <<t, t, n, 0>>
  IN (\A i \in 1..4 : Close(B[i], want[i], 6)) /\ \A i \in 5..9 : Abs(B[i]) <= 2
FlatOk(r, p, w) ==
  IF r.sk /\ w.ax # 3 THEN (Isotropic(r, w) => FlatSkew(r, p, w))
  ELSE \E F \in {Flat(w.f, 8, EpsOf(r, w.a), EpsOf(r, w.b), w.ax)} :
          IsInverse(r.b[p], F.e, 64 * F.n * Q, MaxOf({F.e[1], F.e[2], F.e[3]}) * (3 + r.loose))
(* Materials that are functions: the fraction is that of the points of the   *)
(* averaging mesh, and the normal is that of the plane if nothing else is near *)
Near8(d) == LET O(i) == IF d[i] = 1 THEN {0} ELSE {-8, -6, -4, -2, 0, 2, 4, 6, 8} IN O(1) \X O(2) \X O(3)
Tr(e) == e[1] + e[2] + e[3]
MeshLaw(r, p, w) ==
  (~r.sk /\ r.mesh \in {2, 3} /\ r.d[3] = 1 /\ Tr(EpsOf(r, w.a)) # Tr(EpsOf(r, w.b))
   /\ \A z \in Near8(r.d) : PointMat(r, Plus(P8(r.d, p), z)) = IF z[w.ax] + 4 < w.f THEN w.a ELSE w.b)
  => \E F \in {Flat(Cardinality({k \in 0..(r.mesh - 1) : 8 * k + 4 < w.f * r.mesh}), r.mesh, EpsOf(r, w.a), EpsOf(r, w.b), w.ax)} :
        IsInverse(r.b[p], F.e, 8 * r.mesh * F.n * Q, MaxOf({F.e[1], F.e[2], F.e[3]}) * (3 + r.loose))
FlatMu(r, p, w) ==
  \E a \in {MuOf(r, w.a)}, b \in {MuOf(r, w.b)} :
    IF r.sk /\ ~(a[1] = a[2] /\ b[1] = b[2]) THEN TRUE
    ELSE MuIs(r, p, LET N(i) == MeanInv(w.f, 8, a[i], b[i], Q)  T(i) == InvMean(w.f, 8, a[i], b[i], Q)
                    IN Two(IF w.ax = 1 THEN N(1) ELSE T(1), IF w.ax = 2 THEN N(2) ELSE T(2), IF w.ax = 3 THEN N(3) ELSE T(3)))
(* with inversion symmetry the program looks at one of two opposite points    *)
Opp(d, p) == LET q == Pt(d, p) IN Lin(d, [i \in 1..3 |-> (d[i] - q[i]) % d[i]])
OkToo(r, p) == ~r.half \/ LET w == View(r, P8(r.d, Opp(r.d, p))) IN w.k = "uni" \/ ("ok" \in DOMAIN w /\ w.ok)
VoxelWhy(r, p, w) ==
  IF \E m \in Visible(r, w) : Varies(r, m) THEN ""
  ELSE IF w.k = "uni" THEN
    IF ~Is(r, p, EpsOf(r, w.m)) THEN "not material " \o ToString(w.m)
    ELSE IF w.m = 0 /\ r.dm = "fnc" THEN ""
    ELSE IF MuIs(r, p, TraceInv(MuOf(r, w.m))) THEN "" ELSE "not the permeability of material " \o ToString(w.m)
  ELSE IF w.k = "flat" /\ w.ok /\ \A m \in {w.a, w.b} : ~NotPlain(r, m) THEN
    IF ~FlatOk(r, p, w) /\ OkToo(r, p) THEN "not the average for a flat interface " \o ToString(w)
    ELSE IF FlatMu(r, p, w) \/ ~OkToo(r, p) THEN "" ELSE "not the averaged permeability for a flat interface " \o ToString(w)
  ELSE IF w.k = "flat" /\ (\E m \in {w.a, w.b} : NotPlain(r, m)) /\ ~MeshLaw(r, p, w) THEN "not the average over the mesh " \o ToString(w)
  ELSE IF ~MixOk(r, p, Visible(r, w)) THEN "not between the materials of the voxel " \o ToString(w)
  ELSE IF w.k = "two" /\ w.ok /\ (\A m \in {w.a, w.b} : ~NotPlain(r, m)) /\ Isotropic(r, w) /\ ~TwoOk(r, p, w) /\ OkToo(r, p) THEN "not the average for an interface " \o ToString(w)
  ELSE ""
Why(r, p) ==
  IF ~MeanOk(r, p) THEN "mean and tensor disagree"
  ELSE IF r.mesh > 1 THEN LET w == View(r, P8(r.d, p)) IN VoxelWhy(r, p, w)
  ELSE LET m == PointMat(r, P8(r.d, p)) IN
    IF Varies(r, m) THEN
      IF m = 0 /\ r.dm = "file" THEN
          IF Scalar(r, p, FileVal(r.file, r.fd, r.d, Pt(r.d, p)), 8 * r.d[1] * r.d[2] * r.d[3]) THEN "" ELSE "not the interpolated value of the file"
      ELSE IF r.e[p] = 1024 * CodeOf(r, p) /\ Scalar(r, p, CodeOf(r, p), 1) THEN "" ELSE "not the value of the function at this point"
    ELSE IF ~Is(r, p, EpsOf(r, m)) THEN "not the material of the last object here, " \o ToString(m)
    ELSE IF (m = 0 /\ r.dm = "fnc") \/ MuIs(r, p, TraceInv(MuOf(r, m))) THEN "" ELSE "not the permeability of the last object here, " \o ToString(m)
(* the records do not depend on one another: every eighth one in a row       *)
Init == l \in 1..8
Next == /\ l <= Len(Trace) /\ l' = l + 8
        /\ \A p \in 1..Size(E.d) : \E why \in {Why(E, p)} : IF why = "" THEN TRUE ELSE Bad(p, why)
TSpec == Init /\ [][Next]_<<l>>
Accepted == TLCGet("stats").distinct = Len(Trace) + 8
=============================================================================
