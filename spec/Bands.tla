------------------------------- MODULE Bands -------------------------------
(* Band ranges and gaps accumulated by a run (property C04).                *)
(* State: the history of a run (k point, ascending frequencies of the bands *)
(* computed there) and the range table br built incrementally from it, as   *)
(* update-band-range-data does.  Frequencies are integers (quantised).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Infty == 1000000000

\* ------------------------------------------------ declarative meaning
BandsIn(h) == {b \in 1..50 : \E i \in DOMAIN h : Len(h[i].f) >= b}
ValsOf(h, b) == {h[i].f[b] : i \in {j \in DOMAIN h : Len(h[j].f) >= b}}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
AttainedAt(h, b, v) == {h[i].k : i \in {j \in DOMAIN h : Len(h[j].f) >= b /\ h[j].f[b] = v}}

NumRanges(h) == Cardinality(BandsIn(h))
\* a table of [lo, klo, hi, khi] is right for history h
RightRanges(h, br) ==
  /\ Len(br) = NumRanges(h)
  /\ \A b \in 1..Len(br) :
       /\ br[b].lo = MinOf(ValsOf(h, b)) /\ br[b].klo \in AttainedAt(h, b, br[b].lo)
       /\ br[b].hi = MaxOf(ValsOf(h, b)) /\ br[b].khi \in AttainedAt(h, b, br[b].hi)

GapsOf(br) == {b \in 1..(Len(br) - 1) : br[b].hi < br[b + 1].lo}
\* a reported gap list (ascending) is right: edges exact
RightGaps(br, g) ==
  /\ Len(g) = Cardinality(GapsOf(br))
  /\ \A i \in 1..Len(g) :
       LET b == CHOOSE x \in GapsOf(br) : Cardinality({y \in GapsOf(br) : y < x}) = i - 1
       IN g[i].lo = br[b].hi /\ g[i].hi = br[b + 1].lo /\ g[i].b = b
Abs(x) == IF x < 0 THEN -x ELSE x
\* gap size relative to mid-gap: p is the reported percentage times s, rounded
RightSize(lo, hi, p, s, tol) == Abs(p - (200 * s * (hi - lo)) \div (lo + hi)) <= tol

\* ------------------------------------------------ incremental algorithm
Fresh == [lo |-> Infty, klo |-> -1, hi |-> -Infty, khi |-> -1]
Update(br, f, k) ==
  [b \in 1..(IF Len(f) > Len(br) THEN Len(f) ELSE Len(br)) |->
     LET r == IF b <= Len(br) THEN br[b] ELSE Fresh
     IN IF b > Len(f) THEN r
        ELSE [lo  |-> IF f[b] < r.lo THEN f[b] ELSE r.lo,
              klo |-> IF f[b] < r.lo THEN k ELSE r.klo,
              hi  |-> IF f[b] > r.hi THEN f[b] ELSE r.hi,
              khi |-> IF f[b] > r.hi THEN k ELSE r.khi]]

CONSTANTS MaxK, MaxB, MaxF
VARIABLES hist, br
vars == <<hist, br>>

Sorted(f) == \A i \in 1..(Len(f) - 1) : f[i] <= f[i + 1]
FreqLists == {f \in UNION {[1..n -> 0..MaxF] : n \in 1..MaxB} : Sorted(f)}

Init == hist = <<>> /\ br = <<>>
AddK(f) == /\ Len(hist) < MaxK
           /\ hist' = Append(hist, [k |-> Len(hist) + 1, f |-> f])
           /\ br' = Update(br, f, Len(hist) + 1)
StartRun == hist # <<>> /\ hist' = <<>> /\ br' = <<>>
Next == StartRun \/ \E f \in FreqLists : AddK(f)
Spec == Init /\ [][Next]_vars

\* the incremental table always equals the declarative ranges
RangesRight == hist = <<>> \/ RightRanges(hist, br)
\* order independence: the values do not depend on the order of the k points
ValueTable(b) == [i \in 1..Len(b) |-> <<b[i].lo, b[i].hi>>]
Rev(h) == [i \in 1..Len(h) |-> h[Len(h) + 1 - i]]
RECURSIVE Fold(_, _)
Fold(h, i) == IF i = 0 THEN <<>> ELSE Update(Fold(h, i - 1), h[i].f, h[i].k)
OrderFree == hist = <<>> \/ ValueTable(Fold(Rev(hist), Len(hist))) = ValueTable(br)
\* gaps never overlap and never contain a computed frequency
GapsEmpty == \A b \in GapsOf(br) : \A i \in DOMAIN hist : \A j \in DOMAIN hist[i].f :
                 j \in {b, b+1} => (hist[i].f[j] <= br[b].hi \/ hist[i].f[j] >= br[b+1].lo)
=============================================================================
