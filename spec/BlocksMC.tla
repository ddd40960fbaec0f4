------------------------------ MODULE BlocksMC ------------------------------
(* Design model: the solver of one block returns, among the modes orthogonal *)
(* to those it is told to avoid, the ones of lowest key; the key is the      *)
(* squared frequency or, for a targeted solution, its distance from the      *)
(* target.  Lock = TRUE: it avoids every band found in earlier blocks.       *)
(* Modes 1..Nm with frequencies Freq (with degeneracies); the first Zm are   *)
(* the constant modes, known beforehand and avoided at k = 0.                *)
EXTENDS Blocks
CONSTANTS Lock, MaxNb, MaxBs
VARIABLES nb, bs, z, t, found, blocks
vars == <<nb, bs, z, t, found, blocks>>
Nm == 9
Freq == <<0, 0, 3, 3, 4, 5, 5, 5, 7>>
Key(m) == Dist(Freq[m], t)
Zm == IF t = 0 THEN z ELSE 0
Init == /\ nb \in 1..MaxNb /\ bs \in -MaxBs..MaxBs /\ z \in 0..2 /\ t \in {0, 4, 6} /\ z <= nb
        /\ found = [i \in 1..(IF t = 0 THEN z ELSE 0) |-> i] /\ blocks = <<>>
Range(s) == {s[i] : i \in 1..Len(s)}
(* modes a block may contain; without constant modes all modes are fair game *)
Avail == (1..Nm) \ ((IF Lock THEN Range(found) ELSE {}) \cup 1..Zm)
(* any choice of n modes of lowest key, in ascending frequency: ties are broken arbitrarily *)
Lowest(S, n) == {T \in SUBSET S : Cardinality(T) = n /\ \A a \in T, b \in S \ T : Key(a) <= Key(b)}
Sorted(T) == CHOOSE s \in [1..Cardinality(T) -> T] : Range(s) = T /\ \A i \in 1..(Cardinality(T) - 1) : s[i] < s[i + 1]
Solve == /\ Len(found) < nb
         /\ LET n == Min(BlockSize(nb, bs), nb - Len(found)) IN
            \E T \in Lowest(Avail, n) : /\ found' = found \o Sorted(T)
                                       /\ blocks' = Append(blocks, [lo |-> Len(found) + 1, hi |-> Len(found) + n])
         /\ UNCHANGED <<nb, bs, z, t>>
Next == Solve \/ (Len(found) = nb /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Solve)
Once == \A i, j \in 1..Len(found) : i # j => found[i] # found[j]
Order == t = 0 => \A i \in 1..(Len(found) - 1) : Freq[found[i]] <= Freq[found[i + 1]]
Nearest == Len(found) = nb => \A a \in Range(found), b \in (1..Nm) \ (Range(found) \cup 1..Zm) : Key(a) <= Key(b)
Parts == Len(found) = nb => RightBlocks(blocks, Zm, nb)
(* fewer bands give a prefix of the spectrum *)
Prefix == t = 0 => \A i \in 1..Len(found) : Freq[found[i]] = Freq[i]
Ends == <>(Len(found) = nb)
=============================================================================
