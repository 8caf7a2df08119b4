---------------------------- MODULE TraceConsole ----------------------------
(***************************************************************************)
(* Recorded histories of clients of the console's line printer: the        *)
(* machine follows the calls, and what it has shown at the end must be     *)
(* what appeared on standard output.                                       *)
(***************************************************************************)
EXTENDS Console, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, good, bad
tvars == <<depth, parked, shown, i, l, good, bad>>

Calls == Trace[i].y
Obs == Trace[i].o
TraceInit == i = 1 /\ l = 3 /\ good = 0 /\ bad = 0 /\ depth = Trace[1].y[1] /\ parked = Trace[1].y[2] /\ shown = <<>>

Follow ==
  /\ i <= Len(Trace) /\ l <= Len(Calls)
  /\ LET o == Calls[l] IN
     CASE o = 0 -> BeginType
       [] o = 1 -> EndType
       [] o = 2 -> BeginLine
       [] o = 7 -> Swap
       [] o \in {3, 4} -> PrintText(Texts[Calls[l + 1]])
       [] o \in {5, 6} -> PrintLine(Texts[Calls[l + 1]])
  /\ l' = l + 2
  /\ UNCHANGED <<i, good, bad>>
Close ==
  /\ i <= Len(Trace) /\ l > Len(Calls)
  /\ LET w == IF Obs.p = 1 THEN "panic" ELSE IF Obs.out # shown THEN "console" ELSE "" IN
     /\ IF w = "" THEN TRUE
        ELSE PrintT("REJECT " \o ToJson([id |-> Trace[i].id, why |-> <<w>>, at |-> 0, expected |-> [out |-> shown], observed |-> Obs]))
     /\ good' = good + (IF w = "" THEN 1 ELSE 0)
     /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
  /\ i' = i + 1 /\ l' = 3 /\ shown' = <<>>
  /\ depth' = (IF i < Len(Trace) THEN Trace[i + 1].y[1] ELSE 0)
  /\ parked' = (IF i < Len(Trace) THEN Trace[i + 1].y[2] ELSE 0)
  /\ IF i = Len(Trace) THEN PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad')) ELSE TRUE
TraceNext == Follow \/ Close
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
