---------------------------- MODULE FindKTrace ----------------------------
(* Recorded searches for wave vectors against FindK.  Lines:                *)
(*  search(p, b1, b2, ids)  a search of bands b1..b2 starts                 *)
(*  solve(p, k, n, f)       bands were computed: n of them, at k along the  *)
(*                          line of the search (or on = 0), f minus omega   *)
(*  look(b, k, v, hit)      what the search says it used for band b at k    *)
(*  call(id, b, k)          a requested band function ran at k              *)
(*  found(p, k, same, direct, alone, tol, ktol): k per band as returned;    *)
(*            printed alike; f minus omega computed directly; the solutions *)
(*            of searches for single bands;                                 *)
(*  kept(ok)                number of bands and k points as before          *)
(* k: names (small integers) of the wave numbers, equal iff equal exactly   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, band, tab, now, calls
vars == <<l, s, band, tab, now, calls>>
E == Trace[l]
NoSearch == [p |-> "", b1 |-> 1, b2 |-> 0, ids |-> <<>>]
NoSolve == [k |-> 0, f |-> <<>>]
TInit == l = 1 /\ s = NoSearch /\ band = 0 /\ tab = <<>> /\ now = NoSolve /\ calls = <<>>
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Near(a, b, t) == Abs(a - b) <= t
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Put(t, u) == [x \in DOMAIN t \cup DOMAIN u |-> IF x \in DOMAIN u THEN u[x] ELSE t[x]]
PT == 20000     \* printed frequencies have six digits (units of 1e-9)
RECURSIVE AllCalls(_, _, _)
AllCalls(b, ks, ids) == IF b < s.b1 THEN <<>> ELSE [i \in 1..Len(ids) |-> [id |-> ids[i], b |-> IF ids[i] < 0 THEN 0 ELSE b, k |-> ks[b - s.b1 + 1]]] \o AllCalls(b - 1, ks, ids)
LookOK == /\ E.b \in s.b1..s.b2
          /\ (E.b = band \/ E.b = band - 1 \/ band = 0)      \* from the highest band down
          /\ IF E.hit = 1 THEN <<E.b, E.k>> \in DOMAIN tab /\ Near(tab[<<E.b, E.k>>], E.v, PT)
             ELSE now.k = E.k /\ Len(now.f) = E.b /\ Near(now.f[E.b], E.v, PT)
FoundOK == /\ E.p = s.p /\ E.same = 1 /\ Len(E.k) = s.b2 - s.b1 + 1
           /\ (\A i \in 1..Len(E.k) : Near(E.direct[i], 0, E.tol) /\ Near(E.alone[i], E.kq[i], E.ktol))
           /\ calls = AllCalls(s.b2, E.k, s.ids)
TNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ CASE E.ev = "search" -> s' = [p |-> E.p, b1 |-> E.b1, b2 |-> E.b2, ids |-> E.ids] /\ band' = 0 /\ tab' = <<>> /\ now' = NoSolve /\ calls' = <<>>
         [] E.ev = "solve" -> /\ IF E.p # s.p \/ E.on # 1 THEN Bad("bands computed for another parity or off the line of the search")
                                 ELSE IF E.n \notin s.b1..s.b2 THEN Bad("bands computed that are not searched: " \o ToString(E.n)) ELSE TRUE
                              /\ now' = [k |-> E.k, f |-> E.f]
                              /\ tab' = Put(tab, [x \in {<<b, E.k>> : b \in s.b1..E.n} |-> E.f[x[1]]])
                              /\ UNCHANGED <<s, band, calls>>
         [] E.ev = "look" -> /\ IF LookOK THEN TRUE
                                ELSE Bad("the search used " \o ToString(E.v) \o (IF E.hit = 1 THEN " as known, but known is " \o (IF <<E.b, E.k>> \in DOMAIN tab THEN ToString(tab[<<E.b, E.k>>]) ELSE "nothing")
                                                                                ELSE ", but just computed was " \o ToString(now)))
                             /\ band' = E.b /\ UNCHANGED <<s, tab, now, calls>>
         [] E.ev = "call" -> calls' = Append(calls, [id |-> E.id, b |-> E.b, k |-> E.k]) /\ UNCHANGED <<s, band, tab, now>>
         [] E.ev = "found" -> /\ IF FoundOK THEN TRUE
                                 ELSE Bad(IF calls # AllCalls(s.b2, E.k, s.ids) THEN "band functions ran as " \o ToString(calls) ELSE "the wave vectors returned are not the solutions, or not those printed or found band by band")
                              /\ UNCHANGED <<s, band, tab, now, calls>>
         [] E.ev = "kept" -> (IF E.ok = 1 THEN TRUE ELSE Bad("number of bands or k points changed")) /\ UNCHANGED <<s, band, tab, now, calls>>
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
