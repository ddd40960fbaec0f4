------------------------------- MODULE Blocks -------------------------------
(* The bands of a k point are found a block at a time (property C06).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
(* number of bands solved at a time *)
BlockSize(nb, bs) == IF bs = 0 \/ bs >= nb \/ nb = 0 THEN nb
                     ELSE IF bs > 0 THEN bs
                     ELSE LET m == (nb - bs - 1) \div (-bs) IN (nb + m - 1) \div m
(* constant modes at k = 0: H along z is even in z and odd in y, H along y the other way round *)
Const(par) == CASE par = "no" -> 2
                [] par \in {"ze", "zo", "ye", "yo", "zeyo", "zoye"} -> 1
                [] OTHER -> 0
(* the constant modes first, then consecutive blocks of solved bands up to the last band *)
RightBlocks(bl, z, nb) ==
   /\ (z = nb) = (bl = <<>>)
   /\ bl # <<>> => /\ bl[1].lo = z + 1 /\ bl[Len(bl)].hi = nb
                   /\ \A i \in 1..Len(bl) : bl[i].lo <= bl[i].hi
                   /\ \A i \in 2..Len(bl) : bl[i].lo = bl[i - 1].hi + 1
(* distance of squared frequencies from a squared target; the spectrum itself is its own target 0 *)
Dist(f, t) == IF f * f >= t * t THEN f * f - t * t ELSE t * t - f * f
=============================================================================
