----------------------------- MODULE RunLoopMC -----------------------------
(* The loop in small steps, for all small runs: what it logs is what the    *)
(* declarative reading of a run says; and what that reading promises.       *)
EXTENDS RunLoop
CONSTANT MaxK

(* chunks: a partition in order with the right indices, for every list *)
ASSUME \A n \in 0..12, num \in 1..14 :
    /\ Flat([i \in 1..num |-> [j \in 1..ChunkLen(n, num, i - 1) |-> ChunkStart(n, num, i - 1) + j]]) = [i \in 1..n |-> i]
    /\ \A i \in 0..num - 1 : ChunkLen(n, num, i) <= Part(n, num)
    /\ ChunkLen(n, num, num) = 0 /\ ChunkLen(n, num, 0 - 1) = 0
(* different results have different names *)
Labels == {""} \X {"d", "h", "dpwr", "epsilon"} \X {1, 2, 11, 12, 112} \X {1, 2, 12, 100} \X {"", "x", "y"} \X {"", "te", "tmyodd"}
ASSUME \A a, b \in Labels : (FileName(a[1], a[2], a[3], a[4], a[5], a[6]) = FileName(b[1], b[2], b[3], b[4], b[5], b[6])) => a = b

B(i) == [t |-> "band", id |-> i]
T(i) == [t |-> "thunk", id |-> i]
O == [t |-> "out", c |-> "d", comp |-> "x", pw |-> 0, pre |-> ""]
Simple == {B(1), T(2), [t |-> "rand"], O}
Funs == Simple \cup {[t |-> "comb", fs |-> <<f, g>>] : f \in Simple, g \in {B(3), T(4)}} \cup {[t |-> "at", k |-> 1, fs |-> <<f>>] : f \in Simple}
        \cup {[t |-> "thr", on |-> o, fs |-> <<f>>] : f \in {B(1), T(2)}, o \in {0, 1}}
FSeqs == {<<>>} \cup {<<f>> : f \in Funs} \cup {<<f, g>> : f \in Simple, g \in Funs}
KSeqs == UNION {[1..n -> 1..2] : n \in 0..MaxK}
Runs == [p : {"te"}, ks : KSeqs, nb : 0..2, pre : {""}, fs : FSeqs, num : 1..3, ix : 0..3, rand : {0, 1}, mu : {0}]

VARIABLES r, pc, todo, fns, band, idx, log
vars == <<r, pc, todo, fns, band, idx, log>>
Init == /\ r \in {q \in Runs : q.ix <= q.num} /\ pc = "start" /\ todo = <<>> /\ fns = <<>> /\ band = 0 /\ idx = 0 /\ log = <<>>
Start == /\ pc = "start" /\ pc' = IF r.nb = 0 THEN "done" ELSE "k"
         /\ idx' = ChunkStart(Len(r.ks), r.num, r.ix)
         /\ todo' = Chunk(r.ks, r.num, r.ix)
         /\ log' = IF idx' = 0 THEN Structure(r) ELSE <<>>
         /\ UNCHANGED <<r, fns, band>>
X == [idx |-> idx, k |-> Head(todo), p |-> r.p, pre |-> r.pre]
NextK == /\ pc = "k"
         /\ IF todo = <<>> THEN pc' = "done" /\ UNCHANGED <<fns, band, idx, log>>
            ELSE /\ idx' = idx + 1 /\ pc' = "f" /\ fns' = Functions(r) /\ band' = 1
                 /\ log' = log \o Solving([X EXCEPT !.idx = idx + 1], r.nb)
         /\ UNCHANGED <<r, todo>>
NextF == /\ pc = "f"
         /\ IF fns = <<>> THEN pc' = "k" /\ todo' = Tail(todo) /\ UNCHANGED <<fns, band, log>>
            ELSE LET f == Head(fns) IN
                 /\ UNCHANGED <<pc, todo>>
                 /\ IF Once(f) THEN log' = log \o Calls(f, 0, X) /\ fns' = Tail(fns) /\ band' = 1
                    ELSE IF band > r.nb THEN fns' = Tail(fns) /\ band' = 1 /\ UNCHANGED log
                    ELSE log' = log \o Calls(f, band, X) /\ band' = band + 1 /\ UNCHANGED fns
         /\ UNCHANGED <<r, idx>>
Next == Start \/ NextK \/ NextF
Spec == Init /\ [][Next]_vars

Rem(a, n) == a % n
Kinds(e) == SelectSeq(log, LAMBDA x : x.ev = e)
Done == pc = "done"
AsDeclared == Done => log = Expected(r) /\ idx = FinalIdx(r)
SolvedOnceInOrder == Done /\ r.nb > 0 =>
    LET s == Kinds("solve") IN [i \in 1..Len(s) |-> s[i].k] = Chunk(r.ks, r.num, r.ix)
                               /\ \A i \in 1..Len(s) : s[i].idx = ChunkStart(Len(r.ks), r.num, r.ix) + i
(* a plain band function sees every band once per k point, in order *)
EveryBandOnce == Done => \A i \in 1..Len(r.fs) : r.fs[i] = B(1) /\ Cardinality({j \in 1..Len(r.fs) : r.fs[j] # B(1)}) = Len(r.fs) - 1 =>
    LET s == SelectSeq(log, LAMBDA x : x.ev = "call" /\ x.id = 1)
        n == Len(Chunk(r.ks, r.num, r.ix))
    IN (\A j \in 1..Len(r.fs) : j = i \/ r.fs[j].t \in {"thunk", "rand", "out"}) => 
       [j \in 1..Len(s) |-> <<s[j].idx, s[j].b>>] =
       [j \in 1..n * r.nb |-> <<ChunkStart(Len(r.ks), r.num, r.ix) + 1 + (j - 1) \div r.nb, 1 + Rem(j - 1, r.nb)>>]
(* the chunks together do what the whole does *)
ChunksUnion == pc = "start" /\ r.ix = 0 => Flat([i \in 1..r.num |-> Body([r EXCEPT !.ix = i - 1])]) = Body([r EXCEPT !.num = 1])
(* fields are randomised only after everything else of the k point *)
RandomLast == \A i \in 1..Len(log) - 1 : log[i].ev = "rand" /\ r.rand = 1 /\ ~(\E j \in 1..Len(r.fs) : r.fs[j].t = "rand" \/ "fs" \in DOMAIN r.fs[j])
                  => log[i + 1].ev \in {"solve", "head"}
=============================================================================
