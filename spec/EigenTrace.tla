---------------------------- MODULE EigenTrace ------------------------------
(* Is a recorded session a behaviour of Eigen?                               *)
(*   start nb, mu                                                            *)
(*   op    a, obs: overlaps of copy x with the bands b, b+1, ..., a sequence *)
(*         of [x, b, re, im] (matrices, scaled), ok: the call returned       *)
(*   foreign  re, im: overlaps with the same problem solved and saved by     *)
(*         another process: moduli 1 and 0                                   *)
(* Overlaps of vectors whose relation the specification knows have the value *)
(* it says; the others are the same whenever the same two vectors are        *)
(* compared.                                                                 *)
EXTENDS Eigen, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, known, l
tvars == <<s, known, l>>
E == Trace[l]
One == 10000
Tol(g) == 30 * g + 5
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Expect(c, why) == IF c THEN TRUE ELSE Bad(why)
Abs(x) == IF x < 0 THEN -x ELSE x
(* z divided by i^n *)
Turn(z, n) == CASE Mod(n, 4) = 0 -> z [] Mod(n, 4) = 1 -> <<z[2], -z[1]>> [] Mod(n, 4) = 2 -> <<-z[1], -z[2]>> [] OTHER -> <<-z[2], z[1]>>
Near(z, w, t) == Abs(z[1] - w[1]) <= t /\ Abs(z[2] - w[2]) <= t
Sq(x) == (x \div 10) * (x \div 10)
Unit(z, g) == Abs(Sq(z[1]) + Sq(z[2]) - Sq(One * g)) <= Sq(One * g) \div 100
Key(q, v, w) == <<v.base, v.ph, w.base, w.ph, IF q.mu = 1 THEN q.kc ELSE 0>>
(* all comparisons of an observation, as a sequence of [v, w, z] *)
Pairs(q, o) == LET p == Len(o.re) IN
  [t \in 1..(p * p) |-> LET i == (t - 1) \div p + 1 j == Mod(t - 1, p) + 1 v == q.ev[o.x][i] w == q.h[o.b + j - 1] IN
     [v |-> v, w |-> w, g |-> v.r * w.r, z |-> Turn(<<o.re[i][j], o.im[i][j]>>, w.n - v.n + 4), x |-> o.x, i |-> i, j |-> o.b + j - 1]]
RECURSIVE All(_, _)
All(q, os) == IF os = <<>> THEN <<>> ELSE Pairs(q, Head(os)) \o All(q, Tail(os))
Text(t) == "<" \o t.x \o ToString(t.i) \o "|" \o ToString(t.j) \o "> = " \o ToString(t.z) \o " * " \o ToString(<<t.v, t.w>>)
Judge(q, t) ==
  LET k == Key(q, t.v, t.w) IN
  IF Orthogonal(t.v, t.w) /\ Metric(q, t.v) THEN Expect(Near(t.z, <<0, 0>>, Tol(t.g)), "not orthogonal: " \o Text(t))
  ELSE IF Same(t.v, t.w) /\ Metric(q, t.v) THEN Expect(Near(t.z, <<One * t.g, 0>>, Tol(t.g)), "not the same vector: " \o Text(t))
  ELSE /\ (t.v.base = t.w.base /\ Metric(q, t.v)) => Expect(Unit(t.z, t.g), "not the same state: " \o Text(t))
       /\ Same(t.v, t.w) => Expect(t.z[1] > 0 /\ Abs(t.z[2]) <= Tol(t.g), "no positive norm: " \o Text(t))
       /\ k \in DOMAIN known => LET m == known[k] IN
            Expect(Near(<<t.z[1] * m.g, t.z[2] * m.g>>, <<m.z[1] * t.g, m.z[2] * t.g>>, 2 * Tol(t.g * m.g) + ((Abs(m.z[1]) + Abs(m.z[2])) * t.g) \div 300),
                   "the overlap has changed: " \o Text(t) \o " instead of " \o ToString(m))
(* diagonal overlaps right after aligning *)
Positive(q, a, t) == (t.x = a.x /\ t.j = a.b + t.i - 1) =>
   Expect(Turn(t.z, 4 + t.v.n - t.w.n)[1] > 0 /\ Abs(Turn(t.z, 4 + t.v.n - t.w.n)[2]) <= Tol(t.g) , "not aligned: " \o Text(t))
TInit == s = NewSession(1, 0) /\ known = <<>> /\ l = 1
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE E.ev = "start" -> s' = NewSession(E.nb, E.mu) /\ known' = <<>>
       [] E.ev = "foreign" -> /\ UNCHANGED <<s, known>>
            /\ \A i, j \in 1..Len(E.re) : IF i = j THEN Expect(Unit(<<E.re[i][j], E.im[i][j]>>, 1), "band " \o ToString(i) \o " is not the one saved")
                                           ELSE Expect(Near(<<E.re[i][j], E.im[i][j]>>, <<0, 0>>, Tol(1)), "bands " \o ToString(<<i, j>>) \o " mixed")
       [] OTHER ->
            IF E.ok = 0 THEN Bad(E.a.o \o " failed") /\ UNCHANGED <<s, known>>
            ELSE \E q \in {Do(s, E.a)} : \E ts \in {All(q, E.obs)} :
                 /\ s' = q
                 /\ \A n \in 1..Len(ts) : Judge(q, ts[n]) /\ (E.a.o = "align" => Positive(q, E.a, ts[n]))
                 /\ \E new \in {{n \in 1..Len(ts) : Key(q, ts[n].v, ts[n].w) \notin DOMAIN known /\ \A m \in 1..(n - 1) : Key(q, ts[m].v, ts[m].w) # Key(q, ts[n].v, ts[n].w)}} :
                    known' = [k \in {Key(q, ts[n].v, ts[n].w) : n \in new} |->
                                LET n == CHOOSE n \in new : Key(q, ts[n].v, ts[n].w) = k IN [z |-> ts[n].z, g |-> ts[n].g]] @@ known
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
