------------------------------ MODULE Console ------------------------------
(***************************************************************************)
(* The line printer of the console, driven by any client (C25).            *)
(*   depth   blocks open of the printer the client uses                    *)
(*   parked  blocks open of another printer the client has                 *)
(*   shown   octets on standard output                                     *)
(***************************************************************************)
EXTENDS DerValues

VARIABLES depth, parked, shown
convars == <<depth, parked, shown>>

(* the texts a client prints *)
Texts == << <<>>, B("a b"), <<195, 169, 32>>, <<120, 10, 121>>, B("{}") >>

ConsoleInit == depth = 0 /\ parked = 0 /\ shown = <<>>
Spaces(n) == [i \in 1..n |-> 32]
BeginType == depth' = depth + 1 /\ UNCHANGED <<parked, shown>>
EndType == depth > 0 /\ depth' = depth - 1 /\ UNCHANGED <<parked, shown>>
BeginLine == shown' = shown \o Spaces(2 * depth) /\ UNCHANGED <<depth, parked>>
PrintText(t) == shown' = shown \o t /\ UNCHANGED <<depth, parked>>
Swap == depth' = parked /\ parked' = depth /\ UNCHANGED shown
PrintLine(t) == shown' = shown \o t \o <<10>> /\ UNCHANGED <<depth, parked>>
=============================================================================
