----------------------------- MODULE BandsTrace -----------------------------
(* Is the recorded session a behaviour of Bands?  One line per event:       *)
(*  start | k (k, f) | ranges (br) | gaps (g) | retrieve (b, v) | nogaps    *)
EXTENDS Bands, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TInit == Init /\ l = 1
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
TStart == Is("start") /\ hist' = <<>> /\ br' = <<>>
TK == Is("k") /\ hist' = Append(hist, [k |-> E.k, f |-> E.f]) /\ br' = Update(br, E.f, E.k)
TRanges == Is("ranges") /\ RightRanges(hist, E.br) /\ UNCHANGED vars
TGaps == Is("gaps") /\ RightGaps(br, E.g)
                    /\ (\A i \in 1..Len(E.g) : RightSize(E.g[i].lo, E.g[i].hi, E.g[i].p, E.s, E.tol))
                    /\ UNCHANGED vars
TNoGaps == Is("nogaps") /\ E.n = 0 /\ UNCHANGED vars
TRetrieve == /\ Is("retrieve") /\ UNCHANGED vars
             /\ IF E.b + 1 > Len(br) THEN E.ok = 0
                ELSE E.ok = 1 /\ RightSize(br[E.b].hi, br[E.b + 1].lo, E.v, E.s, E.tol)
TNext == TStart \/ TK \/ TRanges \/ TGaps \/ TNoGaps \/ TRetrieve
TSpec == TInit /\ [][TNext]_tvars
TInv == RangesRight /\ GapsEmpty
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
            \/ (PrintT("@J " \o ToJson([line |-> TLCGet("stats").diameter])) /\ FALSE)
=============================================================================
