---------------------------- MODULE AccessTrace ----------------------------
(* Is a recorded session a behaviour of Access?                              *)
(*   start                                                                   *)
(*   op  a, done (did the call return), rc, w (refusal messages, -1: not     *)
(*       counted), file (start of the names of new files), k: kind of field  *)
(*       the probe asked for, v: the magnitudes it returned, pw: its         *)
(*       refusals (-1: not counted)                                          *)
(* Fields with the same derivation from the same states have the same        *)
(* magnitudes, fields of different states do not.                            *)
EXTENDS Access, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, known, l
tvars == <<s, known, l>>
E == Trace[l]
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Expect(c, why) == IF c THEN TRUE ELSE Bad(why)
Abs(x) == IF x < 0 THEN -x ELSE x
Max(v) == CHOOSE m \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : v[i] <= m
Pow(f, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN f ELSE f * f
Near(v, f, u, g) == /\ Len(v) = Len(u)
                    /\ \A i \in 1..Len(v) : Abs(v[i] * g - u[i] * f) <= (IF Max(v) * g > Max(u) * f THEN Max(v) * g ELSE Max(u) * f) \div 300 + 8 * f * g
Key(c) == <<c.k, c.w, c.t>>
Primary == {"d", "h", "b"}
Solved(c, z) == \E b \in 1..z.nb : z.h[b].k > 0 /\ Tok(z.h[b]) = c.t
TInit == s = NewSession /\ known = <<>> /\ l = 1
Probe(c, z) ==
  IF c.k = "-" THEN /\ Expect(\A i \in 1..Len(E.v) : E.v[i] = 0, "there is a current field: integral " \o ToString(E.v))
                    /\ Expect(E.pw \in {-1, 2}, "there is no field, and integrating it is not refused")
                    /\ known' = known
  ELSE IF c.f = 0 THEN known' = known
  ELSE LET q == Key(c) g == Pow(c.f, c.pw) IN
       IF q \in DOMAIN known
       THEN /\ Expect(Near(E.v, g, known[q].v, known[q].g), "the current field is not " \o ToString(c) \o ": " \o ToString(E.v) \o " instead of " \o ToString(known[q]))
            /\ known' = known
       ELSE /\ known' = (q :> [v |-> E.v, g |-> g, p |-> Solved(c, z)]) @@ known
            /\ Expect(c.k \notin Primary \/ ~Solved(c, z) \/
                      \A r \in DOMAIN known : r[1] = q[1] /\ r[2] = q[2] /\ known[r].p => ~Near(E.v, g, known[r].v, known[r].g),
                      "the same field for different states: " \o ToString(q))
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ IF E.ev = "start" THEN s' = [NewSession EXCEPT !.rnd = s.rnd] /\ known' = known
     ELSE \E r \in {Do(s, E.a)} :
          /\ s' = r.s
          /\ IF r.out = "fatal"
             THEN /\ Expect(E.done = 0 /\ E.rc \in 1..127, IF E.done = 1 THEN E.a.o \o " is accepted" ELSE E.a.o \o ": the program ends with status " \o ToString(E.rc))
                  /\ known' = known
             ELSE IF E.done = 0 THEN Bad(E.a.o \o ": the program ends with status " \o ToString(E.rc) \o " with the field " \o s.cur.k) /\ known' = known
             ELSE /\ Expect(E.w \in {-1, r.w}, E.a.o \o ": refused " \o ToString(E.w) \o " times instead of " \o ToString(r.w))
                  /\ Expect(E.file = Writes(E.a, s), E.a.o \o " writes a file '" \o E.file \o "' instead of '" \o Writes(E.a, s) \o "'")
                  /\ Expect(E.k = r.s.cur.k, "the probe asks for the wrong kind")
                  /\ Probe(r.s.cur, r.s)
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
