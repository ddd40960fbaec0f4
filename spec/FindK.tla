------------------------------- MODULE FindK -------------------------------
(* The search for wave vectors: bands from the highest to the lowest, every *)
(* evaluation of band b computes bands bmin..b and keeps all of them;       *)
(* results are reused only for the same band and wave vector; the best      *)
(* point seen so far of each band is where its own search starts.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bmin, Bmax, Ks      \* bands searched; the raster of wave vectors
Bands == Bmin..Bmax
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* f[b][k]: frequency minus the frequency sought; increasing in b and k *)
Monotone(f) == /\ \A b \in Bands, k \in Ks : k + 1 \in Ks => f[b][k] < f[b][k + 1]
               /\ \A b \in Bands, k \in Ks : b + 1 \in Bands => f[b][k] <= f[b + 1][k]
VARIABLES f, band, tab, k0, res, last, runs
vars == <<f, band, tab, k0, res, last, runs>>
Range(n) == 0 - n..n
Init == /\ f \in {g \in [Bands -> [Ks -> Range(2)]] : Monotone(g) /\ \A b \in Bands : \E k \in Ks : g[b][k] = 0}
        /\ band = Bmax /\ tab = <<>> /\ k0 \in [Bands -> Ks] /\ res = <<>> /\ last = <<>> /\ runs = 0
Known(b, k) == <<b, k>> \in DOMAIN tab
Put(t, s) == [x \in DOMAIN t \cup DOMAIN s |-> IF x \in DOMAIN s THEN s[x] ELSE t[x]]
(* one evaluation of the current band at k *)
Cached(k) == Known(band, k) /\ last' = [b |-> band, k |-> k, v |-> tab[<<band, k>>], hit |-> TRUE] /\ UNCHANGED <<f, band, tab, k0, res, runs>>
Better(b, k) == ~Known(b, k0[b]) \/ Abs(f[b][k]) < Abs(tab[<<b, k0[b]>>])
Fresh(k) == /\ ~Known(band, k) /\ runs' = runs + 1
            /\ k0' = [b \in Bands |-> IF b <= band /\ Better(b, k) THEN k ELSE k0[b]]
            /\ tab' = Put(tab, [x \in {<<b, k>> : b \in Bmin..band} |-> f[x[1]][k]])
            /\ last' = [b |-> band, k |-> k, v |-> f[band][k], hit |-> FALSE]
            /\ UNCHANGED <<f, band, res>>
(* the root finder may look anywhere until it has found the root *)
Look == band >= Bmin /\ \E k \in Ks : Cached(k) \/ Fresh(k)
Found == /\ band >= Bmin /\ last # <<>> /\ last.b = band /\ last.v = 0
         /\ res' = [x \in DOMAIN res \cup {band} |-> IF x = band THEN last.k ELSE res[x]] /\ band' = band - 1 /\ last' = <<>>
         /\ UNCHANGED <<f, tab, k0, runs>>
Next == Look \/ Found
Spec == Init /\ [][Next]_vars
(* what is kept is true; what is returned is a root; nothing is computed twice *)
Sound == \A x \in DOMAIN tab : tab[x] = f[x[1]][x[2]]
Roots == \A b \in DOMAIN res : f[b][res[b]] = 0
Once == runs <= Cardinality(Ks) * Cardinality(Bands) /\ runs <= Cardinality(DOMAIN tab)
(* the starting point of a band is at least as good as anything computed for it *)
Best == \A b \in Bands : (\E k \in Ks : Known(b, k)) => Known(b, k0[b]) /\ \A k \in Ks : Known(b, k) => Abs(tab[<<b, k0[b]>>]) <= Abs(tab[<<b, k>>])
=============================================================================
