--------------------------- MODULE EmptyLatticeMC ---------------------------
(* What makes the symmetries of the spectrum exact on a finite grid          *)
EXTENDS EmptyLattice
CONSTANT N
Id == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
L0(n, k, par) == [n |-> n, M |-> Id, K |-> 4, k |-> k, par |-> par, em |-> 1, en |-> 1]
(* the vectors along an axis represent every class modulo n once *)
ASSUME Classes == \A n \in 1..N : Cardinality({g % n : g \in Gs(n)}) = n /\ Cardinality(Gs(n)) = n
(* reversal: an odd grid is symmetric *)
ASSUME Reversal == \A n \in 1..N : ({-g : g \in Gs(n)} = Gs(n)) = (n % 2 = 1)
(* a doubled cell has the waves of k and of k +- half a reciprocal vector: + for odd n, - for even n *)
ASSUME Doubling == \A n \in 1..N : Gs(2 * n) = {2 * g : g \in Gs(n)} \cup {2 * g + (IF n % 2 = 1 THEN 1 ELSE -1) : g \in Gs(n)}
(* restrictions share out the states of every level *)
ASSUME Shares ==
  \A nx \in 1..2, ny, nz \in 1..N, kx \in 0..2 :
    LET c(p, v) == Count(L0(<<nx, ny, nz>>, <<kx, 0, 0>>, p), v)
        lv == Levels(L0(<<nx, ny, nz>>, <<kx, 0, 0>>, 0))
    IN \A v \in lv : /\ c(1, v) + c(2, v) = c(0, v) /\ c(4, v) + c(8, v) = c(0, v)
                     /\ c(5, v) + c(9, v) = c(1, v) /\ c(6, v) + c(10, v) = c(2, v)
                     /\ c(5, v) + c(6, v) = c(4, v) /\ c(9, v) + c(10, v) = c(8, v)
ASSUME TwoPerWave == \A n \in 1..N : Total(L0(<<n, 2, 1>>, <<1, 0, 0>>, 0)) = 4 * n
(* exactly the states allowed at zero frequency *)
B == INSTANCE Blocks
Nm(p) == CASE p = 0 -> "no" [] p = 1 -> "ze" [] p = 2 -> "zo" [] p = 4 -> "ye" [] p = 8 -> "yo"
           [] p = 5 -> "zeye" [] p = 6 -> "zoye" [] p = 9 -> "zeyo" [] OTHER -> "zoyo"
ASSUME Zero == \A p \in {0, 1, 2, 4, 8, 5, 6, 9, 10} : Count(L0(<<3, 3, 2>>, <<0, 0, 0>>, p), 0) = B!Const(Nm(p))
-----------------------------------------------------------------------------
(* A signed permutation of the axes that reverses only axes with an odd number of points maps plane waves *)
(* to plane waves and grid points to grid points, and keeps every phase G.r: the discrete problem of the  *)
(* image structure is the same problem.  Phases are counted in units of 1/(n1 n2 n3).                     *)
Perms == {p \in [1..3 -> 1..3] : Cardinality({p[1], p[2], p[3]}) = 3}
Points(n) == (0..(n[1] - 1)) \X (0..(n[2] - 1)) \X (0..(n[3] - 1))
Dot(n, g, r) == (g[1] * r[1] * n[2] * n[3] + g[2] * r[2] * n[1] * n[3] + g[3] * r[3] * n[1] * n[2]) % (n[1] * n[2] * n[3])
ASSUME Turned ==
  \A n \in {<<3, 2, 1>>, <<3, 3, 2>>, <<4, 1, 3>>} : \A p \in Perms : \A sg \in {[i \in 1..3 |-> IF i \in s THEN -1 ELSE 1] : s \in SUBSET {i \in 1..3 : n[i] % 2 = 1}} :
    LET nn == <<n[p[1]], n[p[2]], n[p[3]]>>
        G(g) == <<sg[p[1]] * g[p[1]], sg[p[2]] * g[p[2]], sg[p[3]] * g[p[3]]>>
        Rr(r) == <<(sg[p[1]] * r[p[1]]) % nn[1], (sg[p[2]] * r[p[2]]) % nn[2], (sg[p[3]] * r[p[3]]) % nn[3]>>
        gs == Gs(n[1]) \X Gs(n[2]) \X Gs(n[3])
    IN /\ {G(g) : g \in gs} = Gs(nn[1]) \X Gs(nn[2]) \X Gs(nn[3])
       /\ {Rr(r) : r \in Points(n)} = Points(nn)
       /\ \A g \in gs, r \in Points(n) : Dot(n, g, r) = Dot(nn, G(g), Rr(r))
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
