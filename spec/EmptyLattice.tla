---------------------------- MODULE EmptyLattice ----------------------------
(* The plane waves of the solver and the spectrum of a homogeneous medium    *)
(* (property C22).  A problem L is a record                                  *)
(*   n    grid sizes <<nx, ny, nz>>                                          *)
(*   M    metric of the reciprocal lattice, an integer 3x3 matrix            *)
(*   K,k  the wave vector is k/K in reciprocal lattice units                 *)
(*   par  requested parity as in Parity                                      *)
(*   em, en   integer weights of the two polarisations (1 unless the medium  *)
(*        is anisotropic)                                                    *)
(* Levels are squared frequencies in a common unit, hence integers.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* the vectors G along one axis with n points: as symmetric as possible, an even n has one more on the positive side *)
Gs(n) == (-((n - 1) \div 2))..(n \div 2)
AllG(L) == Gs(L.n[1]) \X Gs(L.n[2]) \X Gs(L.n[3])
Quad(M, v) == v[1] * v[1] * M[1][1] + v[2] * v[2] * M[2][2] + v[3] * v[3] * M[3][3]
              + 2 * (v[1] * v[2] * M[1][2] + v[1] * v[3] * M[1][3] + v[2] * v[3] * M[2][3])
Level(L, g) == Quad(L.M, [i \in 1..3 |-> L.K * g[i] + L.k[i]])
Bit(p, b) == (p \div b) % 2 = 1
(* mirror images in the index space of the grid: the one unpaired G of an even grid is its own image *)
Mir(g, n) == IF 2 * g = n THEN g ELSE -g
MirZ(L, g) == <<g[1], g[2], Mir(g[3], L.n[3])>>
MirY(L, g) == <<g[1], Mir(g[2], L.n[2]), g[3]>>
SgZ(pol) == IF pol = "m" THEN 1 ELSE -1
SgY(pol) == IF pol = "m" THEN -1 ELSE 1
Sign(p, even, odd) == IF Bit(p, even) THEN 1 ELSE IF Bit(p, odd) THEN -1 ELSE 0
Fixed(b) == IF b THEN 1 ELSE 0
(* (sum over the group of character times trace)/order, summed over the polarisation given: the number of *)
(* states of the demanded symmetry made of g and its images, counted once per image; hence divided by the *)
(* number of images                                                                                       *)
Share(L, g, pol) ==   \* times 4
  LET ez == Sign(L.par, 1, 2) ey == Sign(L.par, 4, 8)
      z == ez * SgZ(pol) * Fixed(MirZ(L, g) = g)
      y == ey * SgY(pol) * Fixed(MirY(L, g) = g)
      zy == ez * ey * SgZ(pol) * SgY(pol) * Fixed(MirZ(L, MirY(L, g)) = g)
  IN CASE ez # 0 /\ ey # 0 -> 1 + z + y + zy
       [] ez # 0 -> 2 * (1 + z)
       [] ey # 0 -> 2 * (1 + y)
       [] OTHER -> 4
(* number of states at a level *)
SumOver(S, F(_)) == LET RECURSIVE A(_)
                        A(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F(x) + A(T \ {x})
                    IN A(S)
Levels(L) == {L.em * Level(L, g) : g \in AllG(L)} \cup {L.en * Level(L, g) : g \in AllG(L)}
Count(L, v) == (SumOver({g \in AllG(L) : L.em * Level(L, g) = v}, LAMBDA g : Share(L, g, "m"))
                + SumOver({g \in AllG(L) : L.en * Level(L, g) = v}, LAMBDA g : Share(L, g, "n"))) \div 4
RECURSIVE Rep(_, _)
Rep(v, m) == IF m = 0 THEN <<>> ELSE <<v>> \o Rep(v, m - 1)
(* the lowest nb states, ascending with multiplicity, when S is the set of levels not yet used *)
Lowest(L, nb, D(_)) ==
  LET RECURSIVE A(_, _)
      A(S, b) == IF b <= 0 \/ S = {} THEN <<>>
                 ELSE LET v == CHOOSE v \in S : \A w \in S : D(v) <= D(w)
                          m == Count(L, v)
                      IN Rep(v, m) \o A(S \ {v}, b - m)
  IN A(Levels(L), nb)
Spectrum(L, nb) == LET s == Lowest(L, nb, LAMBDA v : v) IN SubSeq(s, 1, IF Len(s) < nb THEN Len(s) ELSE nb)
Total(L) == SumOver(Levels(L), LAMBDA v : Count(L, v))
AbsI(x) == IF x < 0 THEN -x ELSE x
=============================================================================
