------------------------------ MODULE Velocity ------------------------------
(* Group velocities (property C20).  A solved k point has bands with         *)
(* frequencies f and velocities v (gradients, Cartesian); the session may     *)
(* fetch fields, change phases and ask for velocities in any order.           *)
(* The state that matters: does the storage of the bands still hold them, and *)
(* which field is current.  The storage of the block being solved is that of  *)
(* the bands if all are solved at once (Alias); with a permeability the       *)
(* magnetic field is computed into Target, a work block (Repaired) or the     *)
(* block being solved.                                                        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Nb, Repaired
VARIABLES alias, mu, bands, phase, cur, out
vvars == <<alias, mu, bands, phase, cur, out>>
Dirs == {"x", "y", "z", "xy", "yz"}
VInit == /\ alias \in BOOLEAN /\ mu \in BOOLEAN /\ bands = [b \in 1..Nb |-> b] /\ phase = [b \in 1..Nb |-> 0]
         /\ cur = "none" /\ out = <<>>
Keep == UNCHANGED <<alias, mu>>
(* the bands a computation for all bands reads; it may overwrite them if it writes into their storage *)
AllBands(d) == /\ out' = [kind |-> "all", d |-> d, b |-> 0, read |-> bands]
               /\ bands' = IF ~Repaired /\ mu /\ alias THEN [b \in 1..Nb |-> 0] ELSE bands
               /\ cur' = "none" /\ UNCHANGED phase /\ Keep
OneBand(d, b) == /\ out' = [kind |-> "one", d |-> d, b |-> b, read |-> bands] /\ cur' = "none" /\ UNCHANGED <<bands, phase>> /\ Keep
Turn(b, q) == phase' = [phase EXCEPT ![b] = (@ + q) % 4] /\ cur' = "none" /\ UNCHANGED <<bands, out>> /\ Keep
Fetch(b) == cur' = "field" /\ UNCHANGED <<bands, phase, out>> /\ Keep
Fix(b) == cur = "field" /\ phase' = [phase EXCEPT ![b] = 0] /\ UNCHANGED <<bands, cur, out>> /\ Keep
VNext == \/ \E d \in Dirs : AllBands(d) \/ \E b \in 1..Nb : OneBand(d, b)
         \/ \E b \in 1..Nb : Turn(b, 1) \/ Fetch(b) \/ Fix(b)
VSpec == VInit /\ [][VNext]_vvars
(* every answer is computed from the bands as solved, so it repeats *)
Faithful == out # <<>> => out.read = [b \in 1..Nb |-> b]
Intact == bands = [b \in 1..Nb |-> b]
=============================================================================
