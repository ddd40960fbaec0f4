------------------------------- MODULE Access -------------------------------
(* Which field operation is accepted when, and what the current field is     *)
(* afterwards (property C01).  The state of a session:                       *)
(*   ini     has init-params been called, mu: is there a permeability        *)
(*   nb      number of bands, idx: k index, nf: frequencies, kc: k point     *)
(*   h       the state each band holds: [m, k, b] identifies a solution (or, *)
(*           k = 0, random numbers), f is a factor it has been scaled by     *)
(*   cur     the current field: kind k ("-": none), w: how it was computed,  *)
(*           t: from which states, f, pw: its magnitude is f^pw times that   *)
(*           of the unscaled states                                          *)
(*   st      stored copies, ev: fetched eigenvectors, file: saved ones       *)
(* Do(s, a) is the outcome of call a: ok, refused (a message; w of them), or *)
(* fatal (an error that ends the program in good order).                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [k |-> "-", w |-> "", t |-> "", f |-> 1, pw |-> 0]
NewSession == [ini |-> 0, mu |-> 0, nb |-> 0, idx |-> 0, nf |-> 0, kc |-> 0, h |-> <<>>, cur |-> None,
               st |-> [x \in {"a", "b", "p"} |-> None], ev |-> <<>>, file |-> <<>>, rnd |-> 0]
Vector == {"d", "h", "b", "e", "c", "v"}
Energy == {"D", "H", "B", "R"}
Real == Energy \cup {"n", "m"}
Ok(s) == [s |-> s, out |-> "ok", w |-> 0]
Warn(s) == [s |-> s, out |-> "warn", w |-> 1]
Fatal(s) == [s |-> s, out |-> "fatal", w |-> 0]
Rnd(s, n) == [i \in 1..n |-> [m |-> 0, k |-> 0, b |-> s.rnd + i, f |-> 1]]
Tok(t) == ToString(<<t.m, t.k, t.b>>)
Band(s, b) == b \in 1..s.nb
Fld(s, k, b) == [k |-> k, w |-> k \o ToString(<<s.mu, s.kc>>) \o (IF k = "d" THEN ToString(b) ELSE ""),
                 t |-> Tok(s.h[b]), f |-> s.h[b].f, pw |-> 1]
Cur(s, c) == Ok([s EXCEPT !.cur = c])
Step(c, k, op, q) == [c EXCEPT !.k = k, !.w = @ \o op, !.pw = q * @]
Upper(k) == CASE k = "d" -> "D" [] k = "h" -> "H" [] OTHER -> "B"
Both(a, b) == [k |-> "", w |-> a.w \o "*" \o b.w, t |-> a.t \o "*" \o b.t, f |-> a.f * b.f, pw |-> 1]
Prim(s, a) ==
  CASE a.o = "init" ->
         LET keep == s.ini = 1 /\ s.nb = a.b /\ s.mu = a.m /\ a.i = 1 IN
         Ok([s EXCEPT !.ini = 1, !.mu = a.m, !.nb = a.b, !.idx = 0, !.kc = 0, !.cur = None,
                      !.h = IF keep THEN s.h ELSE Rnd(s, a.b), !.rnd = IF keep THEN @ ELSE @ + a.b])
    [] a.o = "solve" ->
         IF s.ini = 0 THEN [Warn(s) EXCEPT !.w = 0] \* a message on standard output
         ELSE Ok([s EXCEPT !.idx = @ + 1, !.nf = s.nb, !.kc = a.i, !.cur = None,
                           !.h = [b \in 1..s.nb |-> [m |-> s.mu, k |-> a.i, b |-> b, f |-> 1]]])
    [] a.o = "setidx" -> Ok([s EXCEPT !.idx = a.i])
    [] a.o = "rand" -> IF s.ini = 0 THEN Ok(s) ELSE Ok([s EXCEPT !.h = Rnd(s, s.nb), !.rnd = @ + s.nb])
    [] a.o = "getd" -> IF s.ini = 0 \/ s.idx = 0 \/ s.nf < s.nb \/ ~Band(s, a.b) THEN Warn(s) ELSE Cur(s, Fld(s, "d", a.b))
    [] a.o = "geth" -> IF s.ini = 0 \/ s.idx = 0 \/ ~Band(s, a.b) THEN Warn(s) ELSE Cur(s, Fld(s, "h", a.b))
    [] a.o = "getb" -> IF s.ini = 0 \/ s.idx = 0 \/ ~Band(s, a.b) THEN Warn(s) ELSE Cur(s, Fld(s, "b", a.b))
    [] a.o = "efromd" -> IF s.cur.k # "d" THEN Warn(s) ELSE Cur(s, Step(s.cur, "e", "e", 1))
    [] a.o = "geteps" -> IF s.ini = 0 THEN Warn(s) ELSE Cur(s, [None EXCEPT !.k = "n", !.w = "n"])
    [] a.o = "getmu" -> IF s.ini = 0 THEN Warn(s) ELSE Cur(s, [None EXCEPT !.k = "m", !.w = "m" \o ToString(s.mu)])
    [] a.o = "phase" -> IF s.cur.k \notin Vector THEN Warn(s) ELSE Ok(s)
    [] a.o = "energy" -> IF s.cur.k \notin {"d", "h", "b"} \/ (s.cur.k = "h" /\ s.mu = 1) THEN Warn(s)
                         ELSE Cur(s, Step(s.cur, Upper(s.cur.k), "E" \o ToString(s.mu), 2))
    [] a.o = "div" -> IF s.cur.k \notin {"d", "h", "b", "e", "c"} THEN Warn(s)
                      ELSE Cur(s, Step(s.cur, "C", "C" \o ToString(s.kc), 1))
    [] a.o = "out" -> IF s.cur.k = "-" THEN Warn(s) ELSE Cur(s, None)
    [] a.o = "overlap" -> IF s.cur.k \notin {"d", "b"} THEN Warn(s) ELSE Ok(s)
    [] a.o \in {"indiel", "inobj", "eint"} -> IF s.cur.k \notin Energy THEN Warn(s) ELSE Ok(s)
    [] a.o = "fint" -> IF s.cur.k \notin Energy \cup Vector THEN Warn(s) ELSE Ok(s)
    [] a.o = "penergy" -> IF s.cur.k \notin Energy THEN Fatal(s) ELSE Ok(s)
    [] a.o = "pfield" -> IF s.cur.k \notin Vector THEN Fatal(s) ELSE Ok(s)
    [] a.o = "pscalar" -> IF s.cur.k # "C" THEN Fatal(s) ELSE Ok(s)
    [] a.o \in {"peps", "zpar", "ypar"} -> IF s.ini = 0 THEN Fatal(s) ELSE Ok(s)
    [] a.o = "dom" -> IF s.ini = 0 \/ ~Band(s, a.b) THEN Fatal(s) ELSE Ok(s)
    [] a.o = "store" -> IF s.ini = 0 \/ s.cur.k = "-" THEN Fatal(s) ELSE Ok([s EXCEPT !.st[a.x] = s.cur])
    [] a.o = "load" -> IF s.ini = 0 \/ s.st[a.x].k = "-" THEN Fatal(s) ELSE Cur(s, s.st[a.x])
    [] a.o = "geteig" -> IF s.ini = 0 \/ ~Band(s, a.b) \/ ~Band(s, a.b + a.i - 1) THEN Fatal(s)
                         ELSE Ok([s EXCEPT !.ev = SubSeq(s.h, a.b, a.b + a.i - 1)])
    [] a.o = "seteig" -> IF s.ini = 0 \/ s.ev = <<>> \/ ~Band(s, a.b) \/ ~Band(s, a.b + Len(s.ev) - 1) THEN Fatal(s)
                         ELSE Ok([s EXCEPT !.cur = None,
                               !.h = [i \in 1..s.nb |-> IF i \in a.b..(a.b + Len(s.ev) - 1) THEN s.ev[i - a.b + 1] ELSE s.h[i]]])
    [] a.o = "doteig" -> IF s.ini = 0 \/ s.ev = <<>> \/ ~Band(s, a.b) \/ ~Band(s, a.b + Len(s.ev) - 1) THEN Fatal(s)
                         ELSE IF s.mu = 1 THEN Cur(s, None) ELSE Ok(s)
    [] a.o = "scale" -> IF s.ini = 0 \/ ~Band(s, a.b) THEN Fatal(s)
                        ELSE Ok([s EXCEPT !.h[a.b].f = @ * a.i, !.cur = None])
    [] a.o = "saveig" -> IF s.ini = 0 THEN Fatal(s) ELSE Ok([s EXCEPT !.file = s.h])
    [] a.o = "loadeig" -> IF s.ini = 0 \/ s.file = <<>> THEN Fatal(s) ELSE Ok([s EXCEPT !.h = s.file, !.cur = None])
    \* velocities are not an operation on the current field, and discard it in any case
    [] a.o = "gv" -> IF s.ini = 0 \/ s.idx = 0 \/ s.nf < s.nb THEN [Cur(s, None) EXCEPT !.out = "warn", !.w = 1] ELSE Cur(s, None)
    [] a.o = "gv1" -> IF s.ini = 0 \/ s.idx = 0 \/ s.nf < s.nb THEN [Cur(s, None) EXCEPT !.out = "warn", !.w = 1]
                      ELSE IF ~Band(s, a.b) THEN Fatal([s EXCEPT !.cur = None]) ELSE Cur(s, None)
    \* the pointwise products of a stored and the current field in get-poynting and get-tot-pwr
    [] a.o = "cross" -> IF s.st["p"].k \in Vector /\ s.cur.k \in Vector
                        THEN Cur(s, [Both(s.st["p"], s.cur) EXCEPT !.k = "v", !.w = @ \o "S"]) ELSE Fatal(s)
    [] a.o = "plus" -> IF s.st["p"].k \in Real /\ s.cur.k \in Real
                       THEN Cur(s, [Both(s.st["p"], s.cur) EXCEPT !.k = "R", !.w = @ \o "T",
                                    !.f = IF s.st["p"].pw = 0 \/ s.st["p"].f # s.cur.f THEN 0 ELSE @]) ELSE Fatal(s)
P(o, a) == [a EXCEPT !.o = o]
(* the calls of the interface that are sequences of others *)
Expand(a) ==
  CASE a.o = "gete" -> <<P("getd", a), P("efromd", a)>>
    [] a.o = "charge" -> <<P("getd", a), P("efromd", a), P("div", a)>>
    [] a.o = "fixh" -> <<P("geth", a), P("phase", a)>>
    [] a.o = "fixb" -> <<P("getb", a), P("phase", a)>>
    [] a.o = "fixd" -> <<P("getd", a), P("phase", a)>>
    [] a.o = "fixe" -> <<P("getd", a), P("efromd", a), P("phase", a)>>
    [] a.o = "oeps" -> <<P("geteps", a), P("out", a)>>
    [] a.o = "omu" -> <<P("getmu", a), P("out", a)>>
    [] a.o = "oh" -> <<P("geth", a), P("out", a)>>
    [] a.o = "oe" -> <<P("getd", a), P("efromd", a), P("out", a)>>
    [] a.o = "odpwr" -> <<P("getd", a), P("energy", a), P("out", a)>>
    [] a.o = "ohpwr" -> <<P("getb", a), P("energy", a), P("out", a)>>
    [] a.o = "sym" -> <<P("getb", a), P("overlap", a)>>
    [] a.o = "poyn" -> <<P("getd", a), P("efromd", a), P("store", [a EXCEPT !.x = "p"]), P("geth", a), P("cross", a)>>
    [] a.o = "totp" -> <<P("getd", a), P("energy", a), P("store", [a EXCEPT !.x = "p"]), P("getb", a), P("energy", a), P("plus", a)>>
    [] OTHER -> <<a>>
RECURSIVE Run(_, _)
Run(r, l) == IF l = <<>> \/ r.out = "fatal" THEN r
             ELSE LET q == Prim(r.s, Head(l)) IN
                  Run([s |-> q.s, w |-> r.w + q.w, out |-> IF q.out = "ok" THEN r.out ELSE q.out], Tail(l))
Do(s, a) == LET r == Run([s |-> s, out |-> "ok", w |-> 0], Expand(a)) IN
            [r EXCEPT !.s.st["p"] = None]
(* the number of files an output call adds, and what their names start with *)
Writes(a, s) == LET l == Expand(a) IN
  IF Len(l) = 0 \/ l[Len(l)].o # "out" THEN ""
  ELSE LET r == Run([s |-> s, out |-> "ok", w |-> 0], SubSeq(l, 1, Len(l) - 1)) IN
       CASE r.s.cur.k = "-" -> ""
         [] r.s.cur.k = "n" -> "epsilon" [] r.s.cur.k = "m" -> "mu"
         [] r.s.cur.k = "D" -> "dpwr" [] r.s.cur.k = "H" -> "hpwr" [] r.s.cur.k = "B" -> "bpwr" [] r.s.cur.k = "R" -> "rpwr"
         [] OTHER -> r.s.cur.k
(* --- all calls, with small arguments ------------------------------------------ *)
Op(o, b, i, m, x) == [o |-> o, b |-> b, i |-> i, m |-> m, x |-> x]
NoArg == {"efromd", "geteps", "getmu", "phase", "energy", "div", "out", "overlap", "indiel", "inobj", "eint", "fint",
          "penergy", "pfield", "pscalar", "peps", "zpar", "ypar", "saveig", "loadeig", "gv", "oeps", "omu", "rand"}
BandArg == {"getd", "geth", "getb", "gete", "charge", "fixh", "fixb", "fixd", "fixe", "oh", "oe", "odpwr", "ohpwr", "sym", "poyn", "totp",
            "dom", "seteig", "doteig", "gv1"}
(* calls whose outcome is the user's responsibility, and is not specified: declaring a k point solved *)
(* that is not, restoring states of another number of bands, adding complex numbers as energies       *)
Defined(s, a) == /\ (a.o = "setidx") => (s.nf = 0 \/ a.i = 0 \/ s.idx > 0)
                 /\ (a.o = "loadeig") => (s.file = <<>> \/ Len(s.file) = s.nb)
                 /\ (a.o = "scale" /\ s.ini = 1 /\ Band(s, a.b)) => s.h[a.b].f < 3
                 /\ (a.o = "totp") => (s.cur.k # "C" \/ (s.idx > 0 /\ s.nf >= s.nb /\ Band(s, a.b)))
=============================================================================
