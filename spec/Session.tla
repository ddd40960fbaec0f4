------------------------------ MODULE Session ------------------------------
(* One process of the program: inputs, initialisations, buffers and the      *)
(* block-by-block solution of k points (properties C02, C06).                *)
(*   inp  the input variables [g, nb, bs, nw, mu, t, par]: grid, number of   *)
(*        bands, block size, workspace, permeability, targeted, parity       *)
(*   ini  the inputs as of the last initialisation, or None                  *)
(*   buf  the live allocations: id -> [g, cols]                              *)
(*   hH, hB, hM, hW   the buffers in use for all bands, for the block being  *)
(*        solved, for 1/mu times the bands, for work (sequence): [id, p]     *)
(*   np   number of bands the operator data is prepared for                  *)
(*   calls  the solver calls of the last solution, zc its constant bands     *)
(*   idx  index of the k point last solved                                   *)
EXTENDS Blocks
CONSTANTS Grids, Nbs, Sizes, Works, Repaired, MaxLevel
VARIABLES inp, ini, buf, hH, hB, hM, hW, np, calls, zc, idx, pc, lo, nextid
vars == <<inp, ini, buf, hH, hB, hM, hW, np, calls, zc, idx, pc, lo, nextid>>
NoneI == [g |-> 0, nb |-> 0, bs |-> 0, nw |-> 0, mu |-> FALSE, t |-> FALSE, par |-> "no"]
(* the mode a session may start from: fields are kept only if asked for and of the same shape *)
Keeps(a, b) == a # NoneI /\ a.g = b.g /\ a.nb = b.nb /\ BlockSize(a.nb, a.bs) = BlockSize(b.nb, b.bs)
               /\ a.nw + (IF a.mu THEN 1 ELSE 0) = b.nw + (IF b.mu THEN 1 ELSE 0)
               /\ (Repaired => a.mu = b.mu)
(* --- transitions ------------------------------------------------------------ *)
NoBuf == [id |-> 0, p |-> 0]
Alloc(g, c) == [g |-> g, cols |-> c]
Init == /\ inp \in [g : Grids, nb : Nbs, bs : Sizes, nw : Works, mu : BOOLEAN, t : {FALSE}, par : {"no"}]
        /\ ini = NoneI /\ buf = <<>> /\ hH = NoBuf /\ hB = NoBuf /\ hM = NoBuf /\ hW = <<>>
        /\ np = 0 /\ calls = <<>> /\ zc = 0 /\ idx = 0 /\ pc = "idle" /\ lo = 0 /\ nextid = 1
SetInput == /\ pc = "idle"
            /\ \/ \E x \in Grids : inp' = [inp EXCEPT !.g = x]
               \/ \E x \in Nbs : inp' = [inp EXCEPT !.nb = x]
               \/ \E x \in Sizes : inp' = [inp EXCEPT !.bs = x]
               \/ \E x \in Works : inp' = [inp EXCEPT !.nw = x]
               \/ inp' = [inp EXCEPT !.mu = ~@]
               \/ \E x \in {"no", "ze", "zeye"} : inp' = [inp EXCEPT !.par = x]
            /\ inp' # inp
            /\ UNCHANGED <<ini, buf, hH, hB, hM, hW, np, calls, zc, idx, pc, lo, nextid>>
(* allocation of everything for inputs q; separate storage only where needed *)
InitParams ==
  /\ pc = "idle" /\ inp # ini
  /\ ini' = inp /\ np' = BlockSize(inp.nb, inp.bs) /\ idx' = 0 /\ calls' = <<>> /\ zc' = 0
  /\ IF Keeps(ini, inp) THEN UNCHANGED <<buf, hH, hB, hM, hW, nextid>>
     ELSE LET b == BlockSize(inp.nb, inp.bs)
              w == inp.nw + (IF inp.mu THEN 1 ELSE 0)
              sep == b < inp.nb
              sepM == inp.mu /\ sep
              iH == 1
              iB == IF sep THEN w + 2 ELSE iH
              iM == IF sepM THEN w + 3 ELSE iH
          IN /\ hH' = [id |-> iH, p |-> inp.nb]
             /\ hW' = [i \in 1..w |-> [id |-> iH + i, p |-> b]]
             /\ hB' = [id |-> iB, p |-> IF sep THEN b ELSE inp.nb]
             /\ hM' = [id |-> iM, p |-> inp.nb]
             /\ buf' = [x \in {iH, iB, iM} \cup {iH + i : i \in 1..w} |->
                         Alloc(inp.g, IF x \in {iH, iM} THEN inp.nb ELSE b)]
             /\ nextid' = 0
  /\ UNCHANGED <<inp, pc, lo>>
Start(zero) == /\ pc = "idle" /\ ini = inp /\ ini.nb > 0
               /\ LET z == IF zero /\ ~ini.t THEN Min(Const(ini.par), ini.nb) ELSE 0 IN
                  /\ zc' = z /\ lo' = z + 1
                  /\ hH' = [hH EXCEPT !.p = @ - z]
               /\ calls' = <<>> /\ pc' = "solve"
               /\ UNCHANGED <<inp, ini, buf, hB, hM, hW, np, idx, nextid>>
Block == /\ pc = "solve" /\ lo <= ini.nb
         /\ LET n == IF lo - 1 + np > ini.nb THEN ini.nb - lo + 1 ELSE np IN
            /\ np' = n /\ hB' = [hB EXCEPT !.p = IF n # np THEN n ELSE @]
            /\ hW' = [i \in 1..Len(hW) |-> [hW[i] EXCEPT !.p = IF n # np THEN n ELSE @]]
            /\ calls' = Append(calls, [lo |-> lo, hi |-> lo + n - 1])
            /\ hM' = IF hM.id # hH.id THEN [hM EXCEPT !.p = lo - 1 - zc] ELSE hM
            /\ lo' = lo + BlockSize(ini.nb, ini.bs)
         /\ UNCHANGED <<inp, ini, buf, hH, zc, idx, pc, nextid>>
Finish == /\ pc = "solve" /\ lo > ini.nb /\ pc' = "idle"
          /\ hH' = [hH EXCEPT !.p = ini.nb] /\ hB' = [hB EXCEPT !.p = buf[hB.id].cols]
          /\ hM' = [hM EXCEPT !.p = ini.nb]
          /\ hW' = [i \in 1..Len(hW) |-> [hW[i] EXCEPT !.p = buf[hW[i].id].cols]]
          /\ np' = buf[hB.id].cols /\ idx' = idx + 1 /\ lo' = 0
          /\ UNCHANGED <<inp, ini, buf, calls, zc, nextid>>
Next == SetInput \/ InitParams \/ Start(TRUE) \/ Start(FALSE) \/ Block \/ Finish
Spec == Init /\ [][Next]_vars
SomeSizes == {-2, 0, 1, 2, 4}
Bound == TLCGet("level") <= MaxLevel /\ idx <= 2
(* --- the design is sound ----------------------------------------------------- *)
Used == {hH.id, hB.id, hM.id} \cup {hW[i].id : i \in 1..Len(hW)}
Live == ini # NoneI => Used = DOMAIN buf
Roomy == ini # NoneI => /\ buf[hH.id].cols >= hH.p /\ buf[hB.id].cols >= hB.p /\ buf[hM.id].cols >= hM.p
                        /\ \A i \in 1..Len(hW) : buf[hW[i].id].cols >= hW[i].p
                        /\ \A x \in DOMAIN buf : buf[x].g = ini.g
                        /\ Len(hW) = ini.nw + (IF ini.mu THEN 1 ELSE 0)
(* each solver call works on buffers of one width, distinct from each other; with a permeability the *)
(* product with 1/mu of the bands already found has storage of its own                                *)
Shapes == pc = "solve" /\ calls # <<>> =>
            /\ np = calls[Len(calls)].hi - calls[Len(calls)].lo + 1 /\ hB.p = np
            /\ \A i \in 1..Len(hW) : hW[i].p = np /\ hW[i].id # hB.id /\ hW[i].id # hH.id
            /\ (ini.mu /\ Len(calls) > 1) => hM.id # hH.id
            /\ ~ini.mu => hM.id = hH.id
            /\ (Len(calls) > 1 => hB.id # hH.id)
Complete == pc = "idle" /\ (calls # <<>> \/ zc > 0) => RightBlocks(calls, zc, ini.nb)
Restored == pc = "idle" /\ ini # NoneI =>
               /\ hH.p = ini.nb /\ hM.p = ini.nb /\ np = BlockSize(ini.nb, ini.bs) /\ hB.p = np
               /\ \A i \in 1..Len(hW) : hW[i].p = np
=============================================================================
