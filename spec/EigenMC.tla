------------------------------- MODULE EigenMC ------------------------------
(* All sessions of up to Depth calls with two bands.                         *)
EXTENDS Eigen
CONSTANT Depth
VARIABLES s, last, n
vars == <<s, last, n>>
Calls == {Op("solve", 0, i, 0, "a", "e") : i \in {1, 2}} \cup {Op("rand", 0, 0, 0, "a", "e")}
         \cup {Op("get", b, i, 0, x, "e") : b \in 1..2, i \in 1..2, x \in {"a", "b"}}
         \cup {Op(o, b, 0, 0, x, "e") : o \in {"set", "align"}, b \in 1..2, x \in {"a", "b"}}
         \cup {Op("scale", b, i, k, "a", "e") : b \in 1..2, i \in {1, 2}, k \in {1, 2}}
         \cup {Op(o, 0, 0, 0, x, f) : o \in {"write", "read"}, x \in {"a", "b"}, f \in {"e", "f"}}
         \cup {Op(o, 0, 0, 0, "a", f) : o \in {"save", "load"}, f \in {"e"}}
         \cup {Op("fix", b, 0, 0, "a", f) : b \in 1..2, f \in {"d", "h"}}
Init == s \in {NewSession(2, m) : m \in {0, 1}} /\ last = Op("", 0, 0, 0, "a", "e") /\ n = 0
Next == /\ n < Depth /\ n' = n + 1 /\ \E a \in Calls : Defined(s, a) /\ s' = Do(s, a) /\ last' = a
Spec == Init /\ [][Next]_vars
(* a call changes the bands it addresses, and copies only if it fetches or reads into them *)
Touched(z, a) == CASE a.o \in {"solve", "rand", "load"} -> 1..z.nb
                   [] a.o \in {"scale", "fix"} -> {a.b}
                   [] a.o \in {"set", "align"} -> a.b..(a.b + Len(z.ev[a.x]) - 1)
                   [] OTHER -> {}
BandsOnly == [][\A i \in 1..Len(s.h) : i \notin Touched(s, last') => s'.h[i] = s.h[i]]_vars
CopiesStay == [][\A x \in {"0", "a", "b"} : s'.ev[x] # s.ev[x] => (last'.o \in {"get", "read"} /\ last'.x = x) \/ (x = "0" /\ s.ev[x] = <<>>)]_vars
FilesStay == [][\A f \in {"e", "f"} : s'.file[f] # s.file[f] => last'.o \in {"write", "save"} /\ last'.f = f]_vars
(* round trips *)
GetSet == \A b \in 1..2, i \in 1..2 : In(s, b, i) => Do(Do(s, Op("get", b, i, 0, "a", "e")), Op("set", b, 0, 0, "a", "e")).h = s.h
SaveLoad == s.h # <<>> => Do(Do(s, Op("save", 0, 0, 0, "a", "e")), Op("load", 0, 0, 0, "a", "e")).h = s.h
WriteRead == s.ev["a"] # <<>> => Do(Do(s, Op("write", 0, 0, 0, "a", "f")), Op("read", 0, 0, 0, "b", "f")).ev["b"] = s.ev["a"]
(* the canonical phase forgets the phase before, and choosing it again changes nothing *)
Canonical == \A b \in 1..Len(s.h), f \in {"d", "h"}, q \in 0..3 :
               LET x == Do(s, Op("fix", b, 0, 0, "a", f)) IN
               /\ Do(x, Op("fix", b, 0, 0, "a", f)) = x
               /\ Do(Do(s, Op("scale", b, 1, q, "a", "e")), Op("fix", b, 0, 0, "a", f)).h = x.h
(* aligning is idempotent and keeps moduli *)
Align == \A b \in 1..2 : LET a == Op("align", b, 0, 0, "a", "e") IN
           Defined(s, a) => LET x == Do(s, a) IN
             /\ \A i \in 1..Len(s.h) : x.h[i].r = s.h[i].r /\ x.h[i].base = s.h[i].base
             /\ (\A i \in 1..Len(s.ev["a"]) : s.h[b + i - 1].base = s.ev["a"][i].base) => Do(x, a).h = x.h
=============================================================================
