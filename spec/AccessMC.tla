------------------------------ MODULE AccessMC ------------------------------
(* All sessions of up to Depth calls.                                        *)
EXTENDS Access
CONSTANT Depth
VARIABLES s, last, out, n
vars == <<s, last, out, n>>
Calls == [o : NoArg, b : {0}, i : {0}, m : {0}, x : {"a"}]
         \cup [o : BandArg, b : {0, 1, 3}, i : {0}, m : {0}, x : {"a"}]
         \cup [o : {"init"}, b : {1, 2}, i : {0, 1}, m : {0, 1}, x : {"a"}]
         \cup [o : {"solve"}, b : {0}, i : {1, 2}, m : {0}, x : {"a"}]
         \cup [o : {"setidx"}, b : {0}, i : {0, 2}, m : {0}, x : {"a"}]
         \cup [o : {"store", "load"}, b : {0}, i : {0}, m : {0}, x : {"a"}]
         \cup [o : {"geteig"}, b : {1, 2}, i : {1}, m : {0}, x : {"a"}]
         \cup [o : {"scale"}, b : {0, 1}, i : {2}, m : {0}, x : {"a"}]
Init == s = NewSession /\ last = Op("", 0, 0, 0, "a") /\ out = "ok" /\ n = 0
Next == /\ out # "fatal" /\ n < Depth /\ n' = n + 1
        /\ \E a \in Calls : Defined(s, a) /\ LET r == Do(s, a) IN s' = r.s /\ out' = r.out /\ last' = a
Spec == Init /\ [][Next]_vars
(* nothing is loaded without a discretised structure, no solution without a solved k point *)
NeedsData == /\ s.ini = 0 => s.cur.k = "-" /\ s.h = <<>>
             /\ Len(s.h) = s.nb
             /\ s.cur.k = "-" <=> s.cur = None
(* a refused elementary call changes nothing (except that velocities discard the field) *)
RefusedIsNoop == [][out' = "warn" /\ Len(Expand(last')) = 1 /\ last'.o \notin {"gv", "gv1"} => s' = s]_vars
(* whenever the states change, except by randomising or a new phase, or a file is written, no field is left *)
Discards == [][last'.o \in {"solve", "seteig", "scale", "loadeig", "out", "oeps", "oh", "odpwr", "init"} /\ out' = "ok" => s'.cur.k = "-"]_vars
StatesChange == [][s'.h # s.h /\ last'.o # "rand" => s'.cur.k = "-"]_vars
(* the current field becomes another one only by a call that says so *)
Reads == {"indiel", "inobj", "eint", "fint", "penergy", "pfield", "pscalar", "peps", "zpar", "ypar", "dom", "store", "geteig", "saveig", "overlap", "phase", "setidx", "rand"}
ReadsKeep == [][last'.o \in Reads => s'.cur = s.cur]_vars
(* whatever is accepted leaves the field it names *)
Leaves == out = "ok" =>
   CASE last.o \in {"getd", "fixd"} -> s.cur.k = "d" [] last.o \in {"geth", "fixh"} -> s.cur.k = "h"
     [] last.o \in {"getb", "fixb", "sym"} -> s.cur.k = "b" [] last.o \in {"gete", "efromd", "fixe"} -> s.cur.k = "e"
     [] last.o = "energy" -> s.cur.k \in {"D", "H", "B"} [] last.o \in {"totp"} -> s.cur.k = "R"
     [] last.o \in {"div", "charge"} -> s.cur.k = "C" [] last.o = "poyn" -> s.cur.k = "v"
     [] last.o = "geteps" -> s.cur.k = "n" [] last.o = "getmu" -> s.cur.k = "m" [] OTHER -> TRUE
(* a loaded band belongs to the states held, as long as nothing but its kind changes *)
Fresh == last.o \in {"getd", "geth", "getb"} /\ out = "ok" => s.cur.t = Tok(s.h[last.b]) /\ s.cur.f = s.h[last.b].f
=============================================================================
