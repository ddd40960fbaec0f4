------------------------------- MODULE Eigen --------------------------------
(* Bands being fetched, put back, rescaled, written, read and given a phase  *)
(* (property C07).  A state vector is r * i^n times a vector known by its     *)
(* base (what it is up to a phase) and ph (which phase):                     *)
(*   base  <<"k", k, m, b>> band b solved at k point k with permeability m,  *)
(*         <<"r", e, b>> random numbers                                      *)
(*   ph    <<"s", e>> as it came out of solution e, <<"p", kind, k, m>> the  *)
(*         canonical phase of its field, <<"a", c>> aligned with another     *)
(* h: the bands of the program, ev: fetched copies, file: what files hold    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mod(a, b) == a % b
V(base, ph) == [base |-> base, ph |-> ph, r |-> 1, n |-> 0]
NewSession(nb, mu) == [nb |-> nb, mu |-> mu, kc |-> 0, h |-> <<>>, ev |-> [x \in {"0", "a", "b"} |-> <<>>],
                       file |-> [x \in {"e", "f"} |-> <<>>], ep |-> 1, cnt |-> 0]
Times(v, r, n) == [v EXCEPT !.r = @ * r, !.n = (@ + n) % 4]
Fixed(s, v, kind) == [v EXCEPT !.ph = <<"p", kind, s.kc, s.mu>>, !.n = 0]
(* the vector with the phase that makes its overlap with old real and positive *)
Aligned(v, old, c) == IF v.base = old.base THEN [v EXCEPT !.ph = old.ph, !.n = old.n] ELSE [v EXCEPT !.ph = <<"a", c>>, !.n = 0]
In(s, b, n) == s.h # <<>> /\ b >= 1 /\ b + n - 1 <= s.nb
Put(h, b, e) == [i \in 1..Len(h) |-> IF i \in b..(b + Len(e) - 1) THEN e[i - b + 1] ELSE h[i]]
Do(s, a) ==
  CASE a.o = "solve" -> LET q == [i \in 1..s.nb |-> V(<<"k", a.i, s.mu, i>>, <<"s", s.ep>>)] IN
                        [s EXCEPT !.h = q, !.kc = a.i, !.ep = @ + 1, !.ev["0"] = IF @ = <<>> THEN q ELSE @]
    [] a.o = "rand" -> [s EXCEPT !.h = [i \in 1..s.nb |-> V(<<"r", s.ep, i>>, <<"s", s.ep>>)], !.ep = @ + 1]
    [] a.o = "get" -> [s EXCEPT !.ev[a.x] = SubSeq(s.h, a.b, a.b + a.i - 1)]
    [] a.o = "set" -> [s EXCEPT !.h = Put(@, a.b, s.ev[a.x])]
    [] a.o = "scale" -> [s EXCEPT !.h[a.b] = Times(@, a.i, a.n)]
    [] a.o = "write" -> [s EXCEPT !.file[a.f] = s.ev[a.x]]
    [] a.o = "read" -> [s EXCEPT !.ev[a.x] = s.file[a.f]]
    [] a.o = "save" -> [s EXCEPT !.file[a.f] = s.h]
    [] a.o = "load" -> [s EXCEPT !.h = s.file[a.f]]
    [] a.o = "fix" -> [s EXCEPT !.h[a.b] = Fixed(s, @, a.f)]
    [] a.o = "align" -> [s EXCEPT !.cnt = @ + s.nb,
                           !.h = Put(@, a.b, [i \in 1..Len(s.ev[a.x]) |-> Aligned(s.h[a.b + i - 1], s.ev[a.x][i], s.cnt + i)])]
(* bands of one problem are orthogonal: there is no phase to align *)
Orthogonal(v, w) == v.base[1] = "k" /\ w.base[1] = "k" /\ v.base # w.base /\ v.base[2] = w.base[2] /\ v.base[3] = w.base[3]
Defined(s, a) ==
  CASE a.o = "solve" -> TRUE
    [] a.o = "rand" -> s.h # <<>>
    [] a.o = "get" -> In(s, a.b, a.i)
    [] a.o = "set" -> s.ev[a.x] # <<>> /\ In(s, a.b, Len(s.ev[a.x]))
    [] a.o = "scale" -> In(s, a.b, 1) /\ s.h[a.b].r * a.i <= 6
    [] a.o = "write" -> s.ev[a.x] # <<>>
    [] a.o = "read" -> s.file[a.f] # <<>>
    [] a.o = "save" -> s.h # <<>>
    [] a.o = "load" -> Len(s.file[a.f]) = s.nb
    [] a.o = "fix" -> In(s, a.b, 1)
    [] a.o = "align" -> s.ev[a.x] # <<>> /\ In(s, a.b, Len(s.ev[a.x]))
                        /\ \A i \in 1..Len(s.ev[a.x]) : ~Orthogonal(s.ev[a.x][i], s.h[a.b + i - 1])
Op(o, b, i, n, x, f) == [o |-> o, b |-> b, i |-> i, n |-> n, x |-> x, f |-> f]
(* --- what overlaps tell --------------------------------------------------------- *)
(* the metric in which bands of problem (k, m) are orthonormal is in use: it depends on k only with a permeability *)
Metric(s, v) == v.base[1] = "k" /\ v.base[3] = s.mu /\ (s.mu = 1 => v.base[2] = s.kc)
Same(v, w) == v.base = w.base /\ v.ph = w.ph
=============================================================================
