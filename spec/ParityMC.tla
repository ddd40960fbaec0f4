------------------------------ MODULE ParityMC ------------------------------
(* All sessions of requests, and the algebra of the restriction.             *)
(* In the Fourier representation a state is a vector over                    *)
(* (y index, z index, polarisation m or n); a mirror exchanges an index with *)
(* its negative and keeps one polarisation, changing the sign of the other.  *)
EXTENDS Parity
B == INSTANCE Blocks
CONSTANTS MaxN, MaxIdx
Spec == PInit /\ [][\/ \E p \in -2..17 : InitParams(p) \/ SetParity(p)
                    \/ \E y, z \in {0, 1} : Solve(<<y, z>>)]_pvars
Bound == idx <= MaxIdx
Sound == ~dead => Acceptable(par, k)
Remembers == (on /\ ~dead) => last = par
Refused == dead => (~Fits(par, k) \/ Acceptable(par, k))
-----------------------------------------------------------------------------
States(ny, nz) == (0..(ny - 1)) \X (0..(nz - 1)) \X {"m", "n"}
Neg(i, n) == IF i = 0 THEN 0 ELSE n - i
MZ(s, nz) == <<s[1], Neg(s[2], nz), s[3]>>
MY(s, ny) == <<Neg(s[1], ny), s[2], s[3]>>
SZ(s) == IF s[3] = "m" THEN 1 ELSE -1          \* H along z is even under z -> -z
SY(s) == IF s[3] = "m" THEN -1 ELSE 1
(* the loops over half of the indices that replace pairs by their even or odd combination (times two) *)
Unit(s, ny, nz) == [t \in States(ny, nz) |-> IF t = s THEN 1 ELSE 0]
Loop(v, n, ax, sg(_)) ==
  LET RECURSIVE L(_, _)
      L(j, w) == IF 2 * j > n THEN w
                 ELSE L(j + 1, [t \in DOMAIN w |->
                        LET o == IF ax = 2 THEN <<t[1], Neg(t[2], n), t[3]>> ELSE <<Neg(t[1], n), t[2], t[3]>>
                        IN IF t[ax] = j \/ t[ax] = Neg(j, n) THEN v[t] + sg(t) * v[o] ELSE w[t]])
  IN L(0, v)
RZ(v, e, nz) == Loop(v, nz, 2, LAMBDA t : e * SZ(t))
RY(v, e, ny) == Loop(v, ny, 1, LAMBDA t : e * SY(t))
(* the restricted space, as the number of orbits on which it is not zero *)
Image(ny, nz, ez, ey) ==
  LET P(v) == LET a == IF ez = 0 THEN v ELSE RZ(v, ez, nz) IN IF ey = 0 THEN a ELSE RY(a, ey, ny)
      vecs == {P(Unit(s, ny, nz)) : s \in States(ny, nz)}
      zero == [t \in States(ny, nz) |-> 0]
  IN {IF v[CHOOSE t \in DOMAIN v : v[t] # 0] > 0 THEN v ELSE [t \in DOMAIN v |-> -v[t]] : v \in {w \in vecs : w # zero}}
(* up to sign the nonzero images of the basis are the basis of the restricted space *)
Norm(vs) == {{v, [t \in DOMAIN v |-> -v[t]]} : v \in vs}
Dim(ny, nz, ez, ey) == Cardinality(Norm(Image(ny, nz, ez, ey)))
Algebra ==
  \A ny, nz \in 1..MaxN :
    /\ \A s \in States(ny, nz) : LET u == Unit(s, ny, nz) IN
         /\ \A e \in {1, -1} :
              /\ \A t \in States(ny, nz) : RZ(RZ(u, e, nz), e, nz)[t] = 2 * RZ(u, e, nz)[t]     \* projections
              /\ \A t \in States(ny, nz) : RY(RY(u, e, ny), e, ny)[t] = 2 * RY(u, e, ny)[t]
              /\ \A f \in {1, -1} : RZ(RY(u, f, ny), e, nz) = RY(RZ(u, e, nz), f, ny)           \* that commute
         /\ \A t \in States(ny, nz) : RZ(u, 1, nz)[t] + RZ(u, -1, nz)[t] = 2 * u[t]             \* and are complementary
         /\ \A t \in States(ny, nz) : RY(u, 1, ny)[t] + RY(u, -1, ny)[t] = 2 * u[t]
    /\ Dim(ny, nz, 1, 0) + Dim(ny, nz, -1, 0) = 2 * ny * nz
    /\ Dim(ny, nz, 0, 1) + Dim(ny, nz, 0, -1) = 2 * ny * nz
    /\ Dim(ny, nz, 1, 1) + Dim(ny, nz, 1, -1) + Dim(ny, nz, -1, 1) + Dim(ny, nz, -1, -1) = 2 * ny * nz
(* constant modes that survive a restriction *)
Survive(ez, ey) == Cardinality({s \in States(1, 1) : (ez = 0 \/ SZ(s) = ez) /\ (ey = 0 \/ SY(s) = ey)})
Name(ez, ey) == (IF ez = 1 THEN "ze" ELSE IF ez = -1 THEN "zo" ELSE "") \o (IF ey = 1 THEN "ye" ELSE IF ey = -1 THEN "yo" ELSE "")
Constants == \A ez, ey \in {-1, 0, 1} : B!Const(IF ez = 0 /\ ey = 0 THEN "no" ELSE Name(ez, ey)) = Survive(ez, ey)
ASSUME Algebra
ASSUME Constants
=============================================================================
