----------------------------- MODULE FieldsTrace -----------------------------
(* Is a recorded session a behaviour of Fields?                              *)
EXTENDS Fields, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TNames == {"a", "b", "c"}
TGrids == {}
TInit == Init /\ half = FALSE /\ l = 1
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Ok == E.ok = 1
(* every session starts with nothing *)
TStart == /\ Is("start") /\ half' = (E.half = 1) /\ n' = NoGrid /\ k' = <<0,0,0>> /\ cur' = None
          /\ st' = [x \in Names |-> None] /\ files' = {} /\ mem' = NoMem
TInitP == Is("init") /\ Ok /\ n' = E.n /\ k' = E.k /\ cur' = None /\ mem' = NoMem /\ UNCHANGED <<half, st, files>>
Either(can, op) == IF can THEN Ok /\ op ELSE E.ok = 0 /\ UNCHANGED vars
TOp == \/ Is("eps") /\ Either(CanEps, Eps)
       \/ Is("make") /\ Either(CanMake(E.src), Make(E.x, E.t, E.src))
       \/ Is("copy") /\ Either(CanCopy(E.src), Copy(E.x, E.src))
       \/ Is("scalar") /\ Ok /\ Scalar(E.x)
       \/ Is("map") /\ Either(CanMap(E.x, E.srcs), Map(E.x, E.c, E.srcs))
       \/ Is("set") /\ Either(CanSet(E.x, E.src), Set(E.x, E.src))
       \/ Is("load") /\ Either(CanLoad(E.src), Load(E.src))
       \/ Is("nonbloch") /\ Either(CanNonbloch(E.x), Nonbloch(E.x))
(* observations: values scaled by 16*PS with the phase *)
TPoint == Is("pt") /\ Ok /\ UNCHANGED vars /\ Exists(E.x)
          /\ Near(E.v, Point(Get(E.x), E.p, E.bloch), IF Get(E.x).s = 1 THEN PointTol ELSE 140000)
(* the dielectric function and its inverse tensor (isotropic) at a position *)
TEpsPoint == Is("ept") /\ Ok /\ UNCHANGED vars
             /\ Near(<<E.inv, E.inv2, E.inv3>>, <<EpsInv(E.p), EpsInv(E.p), EpsInv(E.p)>>, 1100) /\ E.off = 0
             /\ Near(<<E.eps * (E.inv \div 51200)>>, <<10000000>>, 80000)
(* all values of a field, exactly *)
TDump == Is("dump") /\ UNCHANGED vars /\ IF ~Exists(E.x) THEN FALSE
                    ELSE /\ E.t = Get(E.x).t /\ E.s = Get(E.x).s
                         /\ IF E.s = 1 THEN E.v = Get(E.x).a
                            ELSE Len(E.v) = Size(Get(E.x).d) /\ \A j \in 1..Len(E.v) : Near(E.v[j], Get(E.x).a[j], 1)
(* fetching a field: unknown the first time, later the same; E = D/eps and the energy densities follow *)
TGetf == Is("getf") /\ Ok /\ Getf(E.c, E.v)
TEfromD == /\ Is("efromd") /\ Ok /\ CanEfromD /\ LET e == EfromD IN Len(E.v) = Size(n) /\ \A j \in 1..Size(n) : Near(E.v[j], e[j], 2)
           /\ cur' = [cur EXCEPT !.ch = "e", !.a = E.v] /\ UNCHANGED <<n, half, k, st, files, mem>>
TEnergy == /\ Is("energy") /\ Ok /\ CanEnergy
           /\ LET e == Density IN Len(E.v) = Size(n) /\ \A j \in 1..Size(n) : Near(E.v[j], e[j], 2 + SumAbs(cur.a[j]) \div Raw)
           /\ cur' = [cur EXCEPT !.t = "r", !.ch = EnKind(cur.ch), !.a = E.v] /\ UNCHANGED <<n, half, k, st, files, mem>>
TInt == Is("int") /\ Ok /\ UNCHANGED vars
        /\ E.v = Integral(Get(E.srcs[1]).d, [i \in 1..Len(E.srcs) |-> Get(E.srcs[i])])
TConform == Is("conform") /\ Ok /\ UNCHANGED vars /\ (E.r = 1) = Conform(E.srcs[1], E.srcs[2])
(* a file: its name by kind, and every value, component by component, scaled by PS *)
BaseName(f) == CASE f.ch = "n" -> "epsilon" [] f.ch \in {"R", "D", "H", "B"} -> (CASE f.ch = "R" -> "r" [] f.ch = "D" -> "d" [] f.ch = "H" -> "h" [] OTHER -> "b") \o "pwr" [] OTHER -> f.ch
Comps(f) == IF E.comp < 0 THEN 1..Len(Zero(f.t)) ELSE {2 * E.comp + 1, 2 * E.comp + 2}
RECURSIVE SortSeq2(_)
SortSeq2(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSeq2(S \ {m})
FileRight(f) ==
   /\ E.base = BaseName(f)
   /\ E.v # <<>>
   /\ E.dims = f.d
   /\ E.dsets = SortSeq2(Comps(f))
   /\ \A j \in 1..Len(f.a) : LET w == FileVal(f, j) IN
        Near([i \in 1..Len(E.dsets) |-> E.v[i][j]], [i \in 1..Len(E.dsets) |-> w[E.dsets[i]]], IF f.s = 1 THEN 1000 ELSE 12000)
   /\ (f.t # "r" => E.kv = Kvec(f))
TWrite == Is("write") /\ Ok /\ cur # None /\ FileRight(cur) /\ cur' = None
          /\ UNCHANGED <<n, half, k, st, files, mem>>
TNext == TStart \/ TInitP \/ TOp \/ TPoint \/ TEpsPoint \/ TDump \/ TInt \/ TConform \/ TWrite \/ TGetf \/ TEfromD \/ TEnergy
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
            \/ (PrintT("@J " \o ToJson([line |-> TLCGet("stats").diameter])) /\ FALSE)
=============================================================================
