----------------------------- MODULE AccessGen -----------------------------
(* Random sessions of Steps calls; a fatal call only comes last.             *)
EXTENDS Access, Json
CONSTANT Steps
VARIABLES s, log, end
Groups == <<"init", "solve", "load1", "load1", "load1", "load1", "band", "band", "band", "band", "band", "band", "noarg", "noarg", "noarg", "noarg", "noarg",
            "store", "load", "load", "geteig", "seteig", "scale", "setidx">>
Args(n) == {0, 1, n, n + 1}
Pick(g, z) == CASE g = "init" -> Op("init", RandomElement({2, 3}), RandomElement({0, 1}), RandomElement({0, 1}), "a")
                [] g = "solve" -> Op("solve", 0, RandomElement({1, 2}), 0, "a")
                [] g = "band" -> Op(RandomElement(BandArg), IF RandomElement(1..5) > 1 /\ z.nb > 0 THEN RandomElement(1..z.nb) ELSE RandomElement(Args(z.nb)), 0, 0, "a")
                [] g = "load1" -> Op(RandomElement({"getd", "geth", "getb", "gete"}), IF z.nb > 0 THEN RandomElement(1..z.nb) ELSE 1, 0, 0, "a")
                [] g = "use" -> Op(RandomElement({"efromd", "efromd", "phase", "energy", "energy", "div", "out", "overlap", "indiel", "inobj", "eint", "fint",
                                                  "penergy", "pfield", "pscalar", "store", "store", "store", "geteig", "doteig", "saveig", "gv1"}),
                                   IF z.nb > 0 THEN RandomElement(1..z.nb) ELSE 1, IF RandomElement({1, 2}) = 1 THEN 2 ELSE 1, 0, RandomElement({"a", "b"}))
                [] g = "noarg" -> Op(RandomElement(NoArg), 0, 0, 0, "a")
                [] g \in {"store", "load"} -> Op(g, 0, 0, 0, RandomElement({"a", "b"}))
                [] g = "geteig" -> Op("geteig", RandomElement(1..3), RandomElement({1, 2}), 0, "a")
                [] g = "seteig" -> Op(RandomElement({"seteig", "doteig", "saveig", "loadeig"}), RandomElement({1, 2}), 0, 0, "a")
                [] g = "scale" -> Op("scale", RandomElement({0, 1, 2, 3}), 2, 0, "a")
                [] g = "setidx" -> Op("setidx", 0, RandomElement({0, 2, 3, 7}), 0, "a")
Choice(z) == IF z.ini = 0 /\ Len(log) > 5 THEN Pick("init", z)
             ELSE IF z.ini = 1 /\ z.idx = 0 /\ RandomElement(1..4) = 1 THEN Pick("solve", z)
             ELSE IF z.cur.k # "-" /\ RandomElement(1..3) > 1 THEN Pick("use", z)
             ELSE Pick(Groups[RandomElement(1..Len(Groups))], z)
Last == Len(log) >= Steps - 1
GInit == s = NewSession /\ log = <<>> /\ end = 0
GNext == /\ end < 1
         /\ \E a \in {Choice(s)} : \E r \in {Do(s, a)} :
              IF ~Defined(s, a) \/ (r.out = "fatal" /\ ~Last) \/ (a.o = "init" /\ RandomElement(1..2) = 1 /\ s.idx > 0)
              THEN UNCHANGED <<s, log, end>>
              ELSE /\ s' = r.s /\ log' = Append(log, [a |-> a, k |-> r.s.cur.k, out |-> r.out])
                   /\ end' = IF Len(log) >= Steps + 3 \/ r.out = "fatal" THEN 1 ELSE 0
GSpec == GInit /\ [][GNext]_<<s, log, end>>
Emit == end # 1 \/ PrintT("@J " \o ToJson(log))
=============================================================================
