------------------------------- MODULE Parity -------------------------------
(* Restriction of the solutions to a mirror symmetry (property C05).         *)
(* A request p is a sum of 1 (even in z), 2 (odd in z), 4 (even in y),       *)
(* 8 (odd in y); 0 asks for nothing, -1 for the request last accepted.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bit(p, b) == (p \div b) % 2 = 1
Known(p) == p \in 0..15
Contradictory(p) == (Bit(p, 1) /\ Bit(p, 2)) \/ (Bit(p, 4) /\ Bit(p, 8))
MirrorZ(p) == Bit(p, 1) \/ Bit(p, 2)
MirrorY(p) == Bit(p, 4) \/ Bit(p, 8)
(* k is <<has a y component, has a z component>> *)
Fits(p, k) == (k[1] = 1 => ~MirrorY(p)) /\ (k[2] = 1 => ~MirrorZ(p))
Acceptable(p, k) == Known(p) /\ ~Contradictory(p) /\ Fits(p, k)
(* the name under which results are printed and filed; flat: one grid point along z *)
Label(p, flat) ==
  (IF Bit(p, 1) THEN IF flat THEN "te" ELSE "zeven" ELSE IF Bit(p, 2) THEN IF flat THEN "tm" ELSE "zodd" ELSE "")
  \o (IF Bit(p, 4) THEN "yeven" ELSE IF Bit(p, 8) THEN "yodd" ELSE "")
(* demanded value of the computed parity, 0 if any *)
Sign(p, even, odd) == IF Bit(p, even) THEN 1 ELSE IF Bit(p, odd) THEN -1 ELSE 0
-----------------------------------------------------------------------------
(* the state of a session as far as parities are concerned *)
VARIABLES on, par, last, k, idx, dead
pvars == <<on, par, last, k, idx, dead>>
PInit == on = FALSE /\ par = 0 /\ last = -1 /\ k = <<0, 0>> /\ idx = 0 /\ dead = FALSE
Meant(p) == IF p = -1 THEN IF last = -1 THEN 0 ELSE last ELSE p
Take(p, kk) == IF Acceptable(p, kk) THEN par' = p /\ last' = p /\ idx' = 0 /\ dead' = FALSE
               ELSE dead' = TRUE /\ UNCHANGED <<par, last, idx>>
InitParams(p) == ~dead /\ on' = TRUE /\ k' = <<0, 0>> /\ Take(Meant(p), <<0, 0>>)
SetParity(p) == ~dead /\ UNCHANGED <<on, k>> /\ IF on THEN Take(Meant(p), k) ELSE UNCHANGED <<par, last, idx, dead>>
Solve(kk) == /\ ~dead /\ UNCHANGED <<on, par, last>>
             /\ IF ~on THEN UNCHANGED <<k, idx, dead>>
                ELSE IF Fits(par, kk) THEN k' = kk /\ idx' = idx + 1 /\ dead' = FALSE
                ELSE k' = kk /\ dead' = TRUE /\ UNCHANGED idx
=============================================================================
