---------------------------- MODULE RunLoopTrace ----------------------------
(* Recorded sessions against RunLoop.  Lines:                               *)
(*  session | run(r) | set(n) | dsolve(k) | dcall(f, b) : the script's steps *)
(*  solve eps file energy dpwr kd rand call : what the program did           *)
(*  end(idx, all) : after a step;  content(...) files(names) : the directory *)
EXTENDS RunLoop, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, todo, idx, cur, freqs, hist, probe, written
vars == <<l, todo, idx, cur, freqs, hist, probe, written>>
E == Trace[l]
NoProbe == <<>>
TInit == l = 1 /\ todo = <<>> /\ idx = 0 /\ cur = [p |-> "", k |-> 0, nb |-> 0] /\ freqs = <<>> /\ hist = <<>> /\ probe = NoProbe /\ written = <<>>
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Near(a, b) == Abs(a - b) <= 3 + Abs(b) \div 50000
NearL(a, b) == Len(a) = Len(b) /\ (\A i \in 1..Len(a) : Near(a[i], b[i]))
(* magnitudes of field components: the files hold complex values with a phase, in double precision *)
NearM(a, b) == Abs(a - b) <= 2 + Abs(b) \div 2000

Steps == {"run", "set", "dsolve", "dcall"}
(* what the step promises to do *)
Ctx(pre) == [idx |-> idx, k |-> cur.k, p |-> cur.p, pre |-> pre]
Promise == CASE E.ev = "run" -> Expected(E.r)
             [] E.ev = "set" -> <<>>
             [] E.ev = "dsolve" -> IF cur.nb = 0 THEN <<>> ELSE Solving([Ctx("") EXCEPT !.idx = idx + 1, !.k = E.k], cur.nb)
             [] E.ev = "dcall" -> Calls(E.f, E.b, Ctx(E.pre))
Labels(e, x) == e.idx = x.idx /\ e.p = x.p
(* does event E match the promised x? *)
Matches(x) ==
    IF E.ev # x.ev THEN FALSE
    ELSE CASE E.ev = "solve" -> Labels(E, x) /\ E.k = x.k /\ Len(E.f) = cur.nb
           [] E.ev = "rand" -> TRUE
           [] E.ev = "head" -> E.p = x.p /\ E.n = x.n
           [] E.ev = "eps" -> E.name = x.name
           [] E.ev = "file" -> E.name = x.name
           [] E.ev = "energy" -> E.idx = x.idx /\ E.b = x.b /\ E.c = x.c
           [] E.ev = "dpwr" -> E.b = x.b /\ Near(E.f, freqs[E.b])
           [] E.ev = "kd" -> Labels(E, x) /\ E.name = x.name /\ E.n = cur.nb
           [] E.ev = "call" -> Labels(E, x) /\ E.k = x.k /\ E.id = x.id /\ E.b = x.b
Mags(b, c, pw) == IF probe = NoProbe \/ b > Len(probe) THEN <<>> ELSE
    CASE pw = 1 /\ c \in {"d", "b", "r"} -> IF c = "d" THEN <<probe[b].dp>> ELSE IF c = "b" THEN <<probe[b].bp>> ELSE <<probe[b].dp + probe[b].bp>>
      [] pw = 0 /\ c = "d" -> probe[b].d [] pw = 0 /\ c = "h" -> probe[b].h [] pw = 0 /\ c = "b" -> probe[b].b [] pw = 0 /\ c = "e" -> probe[b].e
      [] OTHER -> <<>>
Entry(x) == [idx |-> x.idx, k |-> IF x.c \in {"v", "r"} THEN 0 ELSE x.k, b |-> x.b, c |-> x.c, pw |-> x.pw, comp |-> x.comp, f |-> freqs[x.b], m |-> Mags(x.b, x.c, x.pw)]
EpsEntry == [idx |-> 0, k |-> 0, b |-> 0, c |-> "eps", pw |-> 1, comp |-> "", f |-> 0, m |-> <<>>]
Put(w, n, e) == [x \in DOMAIN w \cup {n} |-> IF x = n THEN e ELSE w[x]]
CompIx(c) == IF c = "x" THEN {1} ELSE IF c = "y" THEN {2} ELSE IF c = "z" THEN {3} ELSE {1, 2, 3}
ContentOK == /\ E.name \in DOMAIN written
             /\ LET w == written[E.name] IN
                IF w.c = "eps" THEN E.idx = 0 /\ E.n = E.points
                ELSE /\ E.idx = w.idx /\ E.b = w.b /\ E.c = w.c /\ E.pw = w.pw /\ Near(E.f, w.f)
                     /\ (w.pw = 1 \/ E.k = w.k)
                     /\ E.n = E.points
                     /\ (IF w.pw = 1 THEN E.sets = 1 ELSE IF w.c = "C" THEN E.sets = 2 ELSE E.sets = 2 * Cardinality(CompIx(w.comp)))
                     /\ (w.m = <<>> \/ (IF w.pw = 1 THEN NearM(E.m[1], w.m[1]) ELSE \A i \in CompIx(w.comp) : NearM(E.m[i], w.m[i])))

TNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ CASE E.ev = "session" -> /\ todo' = <<>> /\ idx' = 0 /\ cur' = [p |-> "", k |-> 0, nb |-> 0] /\ freqs' = <<>> /\ hist' = <<>> /\ probe' = NoProbe /\ written' = <<>>
         [] E.ev \in Steps ->
              /\ todo' = Promise
              /\ idx' = (CASE E.ev = "run" -> FinalIdx(E.r) [] E.ev = "set" -> E.n [] E.ev = "dsolve" -> IF cur.nb = 0 THEN idx ELSE idx + 1 [] OTHER -> idx)
              /\ cur' = (CASE E.ev = "run" -> [p |-> E.r.p, k |-> cur.k, nb |-> E.r.nb] [] OTHER -> cur)
              /\ hist' = (IF E.ev = "run" THEN <<>> ELSE hist)
              /\ UNCHANGED <<freqs, probe, written>>
         [] E.ev = "probe" -> probe' = E.m /\ UNCHANGED <<todo, idx, cur, freqs, hist, written>>
         [] E.ev = "end" ->
              /\ IF todo # <<>> THEN Bad("this was not done: " \o ToJson(Head(todo)))
                 ELSE IF E.idx # idx THEN Bad("the k index is " \o ToString(E.idx) \o " instead of " \o ToString(idx))
                 ELSE IF ~(Len(E.all) = Len(hist) /\ (\A i \in 1..Len(hist) : NearL(hist[i], E.all[i]))) THEN Bad("all-freqs does not hold the printed frequencies of the run")
                 ELSE TRUE
              /\ todo' = <<>> /\ UNCHANGED <<idx, cur, freqs, hist, probe, written>>
         [] E.ev = "content" -> /\ IF ContentOK THEN TRUE ELSE Bad("content of the file does not belong to its name: " \o (IF E.name \in DOMAIN written THEN ToJson(written[E.name]) ELSE "not written"))
                                /\ UNCHANGED <<todo, idx, cur, freqs, hist, probe, written>>
         [] E.ev = "files" -> /\ IF {E.names[i] : i \in 1..Len(E.names)} = DOMAIN written THEN TRUE
                                 ELSE Bad("files missing: " \o ToString(DOMAIN written \ {E.names[i] : i \in 1..Len(E.names)}) \o ", unexpected: " \o ToString({E.names[i] : i \in 1..Len(E.names)} \ DOMAIN written))
                              /\ UNCHANGED <<todo, idx, cur, freqs, hist, probe, written>>
         [] OTHER ->
              /\ IF todo = <<>> THEN Bad("nothing more should happen, but: " \o E.ev)
                 ELSE IF ~Matches(Head(todo)) THEN Bad("expected " \o ToJson(Head(todo))) ELSE TRUE
              /\ todo' = (IF todo = <<>> THEN <<>> ELSE Tail(todo))
              /\ freqs' = (IF E.ev = "solve" THEN E.f ELSE freqs)
              /\ hist' = (IF E.ev = "solve" /\ E.run = 1 THEN Append(hist, E.f) ELSE hist)
              /\ cur' = (IF E.ev = "solve" THEN [cur EXCEPT !.k = E.k] ELSE cur)
              /\ probe' = (IF E.ev \in {"solve", "rand"} THEN NoProbe ELSE probe)
              /\ written' = (IF todo = <<>> \/ E.ev \notin {"file", "eps"} THEN written
                             ELSE IF Head(todo).ev = "file" /\ E.ev = "file" /\ Head(todo).b <= Len(freqs) THEN Put(written, E.name, Entry(Head(todo)))
                             ELSE IF E.ev = "eps" THEN Put(written, E.name, EpsEntry) ELSE written)
              /\ UNCHANGED idx
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
