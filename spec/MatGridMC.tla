------------------------------- MODULE MatGridMC -------------------------------
(* Laws of material grids for small data, objects and combinations.              *)
EXTENDS MatGrid
CONSTANTS MaxLen, Data
VARIABLES d, e, a, n, kind, ph
vars == <<d, e, a, n, kind, ph>>
S(m) == UNION {[1..k -> Data] : k \in 1..m}
G(data) == [kind |-> kind, lo |-> 2, hi |-> 9, N |-> <<Len(data), 1, 1>>, data |-> data]
Flat == <<FALSE, TRUE, TRUE>>
m(g) == [t |-> "grid", g |-> g]
St(lo, hi) == [n |-> <<n, 1, 1>>, flat |-> Flat, grids |-> <<G(d), G(e)>>, default |-> m(2), objs |-> <<[lo |-> <<lo, 0 - 3, 0 - 3>>, hi |-> <<hi, 3, 3>>, m |-> m(1)]>>]
Init == d \in S(MaxLen) /\ e \in S(2) /\ a = 0 /\ n \in 2..4 /\ kind \in 0..2 /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ a' \in 0..(8 * n) /\ UNCHANGED <<d, e, n, kind>>
Spec == Init /\ [][Next]_vars
Ax(x, L, N) == <<Axis(x, L, N), Axis(0, 1, 1), Axis(0, 1, 1)>>
L8 == 8 * n
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Lowest(q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : x <= q[i]
Highest(q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : x >= q[i]
U(q, x) == GridVal(G(q), Ax(x, L8, Len(q)))
\* interpolation stays between the data, is exact at their centres, mirrors and commutes with reversal
Bounds == U(d, a) >= Lowest(d) * (F \div 16) /\ U(d, a) <= Highest(d) * (F \div 16)
Exact == \A i \in 1..Len(d) : GridVal(G(d), Ax(2 * i - 1, 2 * Len(d), Len(d))) = d[i] * (F \div 16)
Mirror == U(d, 0 - a) = U(d, a) /\ U(d, 2 * L8 - a) = U(d, a)
Reversal == Ab(U(Rev(d), L8 - a) - U(d, a)) <= 1
\* no jumps: neighbouring positions differ by no more than the largest difference times the distance in pixels
Continuous == a = 0 \/ Ab(U(d, a) - U(d, a - 1)) <= (F * Len(d)) \div L8 + 2
\* the weights are a partition of one and give the value
RECURSIVE SumW(_, _, _), SumV(_, _, _)
SumW(g, ax, i) == IF i = 0 THEN 0 ELSE SumW(g, ax, i - 1) + Weight(g, ax, i)
SumV(g, ax, i) == IF i = 0 THEN 0 ELSE SumV(g, ax, i - 1) + (Weight(g, ax, i) * g.data[i]) \div 16
Weights == LET ax == Ax(a, L8, Len(d)) IN Ab(SumW(G(d), ax, Len(d)) - F) <= 4 /\ Ab(SumV(G(d), ax, Len(d)) - U(d, a)) <= 8
\* combinations: not above the largest; minimum and product not above either; outside the object only the default
P == <<a \div 8, 0, 0>>
Two == LET s == St(5, 8 * n - 5) x == EpsAt(s, P) here == Here(s, P, 1) IN
   /\ x >= 2 * F /\ x <= 9 * F + 7
   /\ a \div 8 >= n \/ (here = <<>> => x = 2 * F + 7 * GridVal(G(e), CellAxes(s, P, <<Len(e), 1, 1>>)))
   /\ Len(ChainAt(s, P)) = Len(here) + 1
   /\ kind # MeanK => x <= 2 * F + 7 * GridVal(G(e), CellAxes(s, P, <<Len(e), 1, 1>>)) + 7
\* a block as large as the cell is the cell
Whole == a \div 8 >= n \/ Ab(GridVal(G(d), BoxAxes(St(0, 8 * n), [lo |-> <<0 - 1, 0 - 3, 0 - 3>>, hi |-> <<8 * n - 1, 3, 3>>], P, <<Len(d), 1, 1>>)) - U(d, 8 * (a \div 8) + 1)) <= 1
\* loading what was saved gives the same grid; twice the period repeats it
Same == Loaded(<<Len(d), 1, 1>>, Scaled(G(d)), <<Len(d), 1, 1>>, <<1, 1, 1>>) = Scaled(G(d))
Twice == Loaded(<<Len(d), 1, 1>>, Scaled(G(d)), <<2 * Len(d), 1, 1>>, <<2, 1, 1>>) = Scaled(G(d)) \o Scaled(G(d))
Inv == ph = 1 => Bounds /\ Exact /\ Mirror /\ Reversal /\ Continuous /\ Weights /\ Two /\ Whole /\ Same /\ Twice
================================================================================
