------------------------------ MODULE RunLoop ------------------------------
(* A run: the k points of its chunk solved in order under consecutive       *)
(* indices, band functions applied in order, results printed and filed      *)
(* under parity, index, band and component.                                 *)
(*                                                                          *)
(* A run is [p, ks, nb, pre, fs, num, ix, rand]: parity text, sequence of   *)
(* k points (numbers), bands, file prefix, sequence of band functions,      *)
(* number of chunks, chunk, and whether fields are randomised.              *)
(* Band functions (t):                                                      *)
(*   band(id) thunk(id) rand   recorded calls, per band or once per k point *)
(*   out(c, comp, pw, pre)     writes a file; tot writes the total power    *)
(*   kd(name)                  prints data of the k point                   *)
(*   comb(fs) at(k, fs) thr(on, f)   combinations                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* ------------------------------------------------------ chunks of a list *)
Part(n, num) == (n + num - 1) \div num
ChunkStart(n, num, ix) == IF ix >= num \/ ix < 0 THEN n ELSE ix * Part(n, num)
ChunkLen(n, num, ix) == IF ix >= num \/ ix < 0 THEN 0 ELSE Max2(0, Min2(Part(n, num), n - ix * Part(n, num)))
Chunk(ks, num, ix) == [j \in 1..ChunkLen(Len(ks), num, ix) |-> ks[ChunkStart(Len(ks), num, ix) + j]]

(* ------------------------------------------------------------ file names *)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
FileName(pre, c, idx, b, comp, par) ==
    pre \o c \o ".k" \o Two(idx) \o ".b" \o Two(b) \o (IF comp = "" THEN "" ELSE "." \o comp)
        \o (IF par = "" THEN "" ELSE "." \o par) \o ".h5"

(* ------------------------------------------- what band functions do *)
(* a call context is [idx, k, p, pre]; events carry the label they must have *)
Once(f) == f.t \in {"thunk", "rand", "kd"}
Ev(e, x, f) == [ev |-> e, idx |-> x.idx, k |-> x.k, p |-> x.p, f |-> f]
File(x, c, pw, comp, pre, b) ==
    [ev |-> "file", idx |-> x.idx, k |-> x.k, p |-> x.p, b |-> b, c |-> c, pw |-> pw, comp |-> comp,
     name |-> FileName(x.pre \o pre, IF pw = 1 THEN c \o "pwr" ELSE c, x.idx, b, comp, x.p)]
Energy(x, c, b) == [ev |-> "energy", idx |-> x.idx, k |-> x.k, p |-> x.p, b |-> b, c |-> c]

RECURSIVE Calls(_, _, _)
Calls(f, b, x) ==          \* of a function applied to band b (0: once per k point)
    CASE f.t = "band"  -> <<[ev |-> "call", idx |-> x.idx, k |-> x.k, p |-> x.p, id |-> f.id, b |-> b]>>
      [] f.t = "thunk" -> <<[ev |-> "call", idx |-> x.idx, k |-> x.k, p |-> x.p, id |-> f.id, b |-> 0]>>
      [] f.t = "rand"  -> <<[ev |-> "rand"]>>
      [] f.t = "kd"    -> <<[ev |-> "kd", idx |-> x.idx, k |-> x.k, p |-> x.p, name |-> f.name]>>
      [] f.t = "out"   -> (IF f.pw = 1 THEN <<Energy(x, f.c, b)>> ELSE <<>>) \o <<File(x, f.c, f.pw, f.comp, f.pre, b)>>
      [] f.t = "tot"   -> <<Energy(x, "d", b), Energy(x, "b", b), File(x, "r", 1, "", "tot.", b)>>
      [] f.t = "comb"  -> Flat([i \in 1..Len(f.fs) |-> IF Once(f.fs[i]) /\ b # 1 THEN <<>> ELSE Calls(f.fs[i], b, x)])
      [] f.t = "at"    -> IF x.k = f.k THEN Calls([t |-> "comb", fs |-> f.fs], b, x) ELSE <<>>
      [] f.t = "thr"   -> <<Energy(x, "d", b), [ev |-> "dpwr", idx |-> x.idx, k |-> x.k, p |-> x.p, b |-> b]>>
                          \o (IF f.on = 1 /\ (~Once(f.fs[1]) \/ b = 1) THEN Calls(f.fs[1], b, x) ELSE <<>>)
Apply(f, nb, x) == IF Once(f) THEN Calls(f, 0, x) ELSE Flat([b \in 1..nb |-> Calls(f, b, x)])

(* ------------------------------------------------- a run, declaratively *)
Functions(r) == IF r.rand = 1 /\ ~(\E i \in 1..Len(r.fs) : r.fs[i].t = "rand") THEN Append(r.fs, [t |-> "rand"]) ELSE r.fs
Solve(x) == [ev |-> "solve", idx |-> x.idx, k |-> x.k, p |-> x.p]
(* the frequencies are printed with a header before the first k point *)
Solving(x, nb) == (IF x.idx = 1 THEN <<[ev |-> "head", p |-> x.p, n |-> nb]>> ELSE <<>>) \o <<Solve(x)>>
Structure(r) == <<[ev |-> "eps", name |-> r.pre \o "epsilon.h5"]>> \o (IF r.mu = 1 THEN <<[ev |-> "eps", name |-> r.pre \o "mu.h5"]>> ELSE <<>>)
Body(r) ==
    LET ch == Chunk(r.ks, r.num, r.ix)
        s == ChunkStart(Len(r.ks), r.num, r.ix)
        X(j) == [idx |-> s + j, k |-> ch[j], p |-> r.p, pre |-> r.pre]
    IN IF r.nb = 0 THEN <<>>
       ELSE Flat([j \in 1..Len(ch) |-> Solving(X(j), r.nb) \o Flat([i \in 1..Len(Functions(r)) |-> Apply(Functions(r)[i], r.nb, X(j))])])
Expected(r) == (IF ChunkStart(Len(r.ks), r.num, r.ix) = 0 THEN Structure(r) ELSE <<>>) \o Body(r)
FinalIdx(r) == ChunkStart(Len(r.ks), r.num, r.ix) + (IF r.nb = 0 THEN 0 ELSE Len(Chunk(r.ks, r.num, r.ix)))
=============================================================================
