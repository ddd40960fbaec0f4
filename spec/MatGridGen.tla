------------------------------- MODULE MatGridGen -------------------------------
(* Random structures of material grids, changes of their data, files.            *)
EXTENDS MatGrid, IOUtils, Json
VARIABLES log, n
vars == <<log, n>>
R(S) == RandomElement(S)
Odd(S) == {x \in S : x % 2 = 1}
Ns(d) == CASE d = 1 -> {<<8, 1, 1>>, <<13, 1, 1>>} [] d = 2 -> {<<4, 6, 1>>, <<5, 5, 1>>, <<8, 4, 1>>, <<7, 6, 1>>} [] OTHER -> {<<4, 4, 4>>, <<3, 4, 5>>, <<6, 2, 3>>}
Size(d, q) == <<R({q, 1, 2, 3, 4, 5}), IF d = 1 THEN R({1, 1, 2}) ELSE R({1, 2, 3, 4}), IF d = 3 THEN R({1, 2, 3}) ELSE R({1, 1, 2})>>
Data(N, sym, low) == [i \in 1..(N[1] * N[2] * N[3]) |-> R({low, 16} \cup low..16)]     \* (symmetrised by the driver)
\* few bounds and kinds, so that grids are often compatible
GridOf(d, sym, q) == \* a set, so that the random choices are made once
  {[kind |-> k, lo |-> lo, hi |-> lo + R({3, 8}), N |-> Size(d, q), data |-> <<>>] : k \in {R(0..2)}, lo \in {R({1, 2})}}
Fill(g, sym, low) == [g EXCEPT !.data = Data(g.N, sym, low)]
Span(nj, sym, q) == \* lo < hi, odd, less than the period
  {IF sym THEN <<4 * nj - (2 * x + 1), 4 * nj + 2 * x + 1>> ELSE <<2 * y + 1, 2 * y + 1 + 2 * z>> :
     x \in {R(1..(2 * nj - 1))}, y \in {R((0 - 3 * nj)..(3 * nj))}, z \in {R(2..(4 * nj - 1))}}
Obj(N, flat, sym, ng, q) ==
  {[lo |-> <<a[1], b[1], c[1]>>, hi |-> <<a[2], b[2], c[2]>>,
    m |-> CASE t <= 8 -> [t |-> "grid", g |-> R(1..ng), e |-> 0] [] t <= 10 -> [t |-> "self", g |-> 0, e |-> 0] [] OTHER -> [t |-> "med", g |-> 0, e |-> R(1..9)]] :
     a \in Span(N[1], sym, q), b \in IF flat[2] THEN {<<0 - 3, 3>>} ELSE Span(N[2], sym, q + 1), c \in IF flat[3] THEN {<<0 - 3, 3>>} ELSE Span(N[3], sym, q + 2), t \in {R(1..12)}}
Structure(q) ==
  \E d \in {R({1, 2, 2, 3})}, sym \in {R({TRUE, FALSE})}, no \in {R({0, 1, 2, 3, 3, 4, 4})}, dg \in {R(1..2)}, mode \in {R({"e", "e", "g"})} :
  \E N \in {R(Ns(d))}, low \in {IF mode = "g" THEN 3 ELSE R({0, 2})} :
  \E g1 \in GridOf(d, sym, 2), g2 \in GridOf(d, sym, 3), g3 \in GridOf(d, sym, 1), c \in {R(1..4)}, c2 \in {R(1..3)} :
  \E h2 \in {CASE c <= 2 -> [g2 EXCEPT !.kind = g1.kind, !.lo = g1.lo, !.hi = g1.hi] [] c = 3 -> [g2 EXCEPT !.kind = (g1.kind + 1) % 3, !.lo = g1.lo, !.hi = g1.hi] [] OTHER -> g2} :
  \E h3 \in {CASE c2 = 1 -> [g3 EXCEPT !.kind = g1.kind, !.lo = g1.lo, !.hi = g1.hi] [] c2 = 2 -> [g3 EXCEPT !.kind = g1.kind, !.lo = g1.lo, !.hi = g1.hi + 1]
                [] OTHER -> [g3 EXCEPT !.kind = (g1.kind + 2) % 3, !.lo = g1.lo, !.hi = g1.hi]} :
  \E flat \in {<<FALSE, d < 2, d < 3>>} :
  \E o1 \in Obj(N, flat, sym, 3, 10), o2 \in Obj(N, flat, sym, 3, 20), o3 \in Obj(N, flat, sym, 3, 30), o4 \in Obj(N, flat, sym, 3, 40) :
  \E gs \in {<<Fill(g1, sym, low), Fill(h2, sym, low), Fill(h3, sym, low)>>} :
    log' = Append(log, [mode |-> mode, d |-> d, n |-> N, flat |-> flat, sym |-> sym, grids |-> gs,
       default |-> IF dg = 1 \/ no = 0 THEN [t |-> "grid", g |-> R(1..3), e |-> 0] ELSE [t |-> "med", g |-> 0, e |-> R({1, 5})],
       objs |-> SubSeq(<<o1, o2, o3, o4>>, 1, no), second |-> <<Data(gs[1].N, sym, low), Data(gs[2].N, sym, low), Data(gs[3].N, sym, low)>>,
       build |-> IF d = 1 THEN R(IF sym THEN {"inv", "complex"} ELSE {"complex", "herm"}) ELSE R(IF sym THEN {"inv", "invmpi", "inv", "mpi"} ELSE {"complex", "mpi", "complex"}), band |-> R(1..3), iu |-> R(0..99), basis |-> R(1..2), k |-> R(1..3)])
File(q) ==
  \E d \in {R(1..3)} : \E N \in {Size(d, 4)}, M \in {Size(d, 2)} : \E f \in {Data(N, FALSE, 0)} :
    log' = Append(log, [mode |-> "s", N |-> N, data |-> f, M |-> M, per |-> <<R(0..3), R({1, 1, 2}), R({1, 1, 3})>>, noise |-> R({1, 4, 9, 40}), build |-> R({"complex", "inv", "mpi"})])
Depth == 8
Init == log = <<>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ IF n % 4 = 3 THEN File(n) ELSE Structure(n)
Spec == Init /\ [][Next \/ (n = Depth /\ UNCHANGED vars)]_vars
Emit == (TLCGet("level") = Depth + 1) => PrintT("@J " \o ToJson([log |-> log]))
================================================================================
