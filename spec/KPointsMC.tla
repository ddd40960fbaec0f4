----------------------------- MODULE KPointsMC -----------------------------
(* The search finds a shortest equivalent point for every reduced lattice   *)
(* with a small metric, and every k point of a small raster.                *)
EXTENDS KPoints
CONSTANT Max, K
Metrics == {<<<<a, f, e>>, <<f, b, d>>, <<e, d, c>>>> : a \in 1..Max, b \in 1..Max, c \in 1..Max, d \in -1..1, e \in -1..1, f \in -1..1}
Positive(M) == /\ M[1][1] * M[2][2] > M[1][2] * M[1][2]
               /\ M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[2][3]) - M[1][2] * (M[1][2] * M[3][3] - M[2][3] * M[1][3])
                  + M[1][3] * (M[1][2] * M[2][3] - M[2][2] * M[1][3]) > 0
Lattices == {L \in [M : {M \in Metrics : Positive(M)}, mask : {<<1, 1, 1>>, <<1, 1, 0>>, <<1, 0, 0>>}] : Reduced(L)}
VARIABLES L, k
None == <<>>
Init == L \in Lattices /\ k = None
Next == k = None /\ k' \in {<<a, b, c>> : a \in -K - 1..K, b \in 0..K - 1, c \in {0, 1, K \div 2}} /\ UNCHANGED L
Spec == Init /\ [][Next]_<<L, k>>
Found == k # None => LET r == Repeat(L, K, k) IN Equivalent(L, K, k, r) /\ Shortest(L, K, r) /\ Repeat(L, K, r) = r
ASSUME \A n \in 1..300 : LET m == NextSmooth(n) IN m >= n /\ NextSmooth(m) = m
ASSUME Smooth(1) /\ Smooth(210) /\ ~Smooth(11) /\ ~Smooth(26)
=============================================================================
