------------------------------ MODULE BandsGen ------------------------------
(* Generates histories for replay: sequences of runs of sequences of lists. *)
EXTENDS Bands, IOUtils
VARIABLE log
GenInit == Init /\ log = <<>>
GenAdd == \E f \in FreqLists : AddK(f) /\ log' = Append(log, [ev |-> "k", k |-> Len(hist) + 1, f |-> f])
GenStart == StartRun /\ RandomElement(1..4) = 1 /\ log' = Append(log, [ev |-> "start"])
GenNext == GenAdd \/ GenStart
GenSpec == GenInit /\ [][GenNext]_<<vars, log>>
Depth == 9
Emit == TLCGet("level") # Depth \/ PrintT("@J " \o ToJson(log))
=============================================================================
