----------------------------- MODULE TraceWork -----------------------------
(***************************************************************************)
(* Recorded processor time of large inputs: what was found, and how long   *)
(* decoding and showing it took.  y = <<shape, size>>, n the octets.       *)
(***************************************************************************)
EXTENDS Work, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, good, bad
tvars == <<i, good, bad>>

Expected(c) == WorkOf(c.y[1], c.y[2])
Wrong(c) ==
  CASE c.o.p = 1 -> "work.ended"
    [] c.o.ok # Expected(c).ok \/ c.o.items # Expected(c).items -> "work.result"
    [] c.o.us > WorkTime(c.o.n) -> "work.time"
    [] OTHER -> ""

TraceInit == i = 1 /\ good = 0 /\ bad = 0
Close ==
  /\ i <= Len(Trace)
  /\ LET c == Trace[i]
         w == Wrong(c) IN
     /\ IF w = "" THEN TRUE
        ELSE PrintT("REJECT " \o ToJson([id |-> c.id, why |-> <<w>>, at |-> 0, expected |-> Expected(c), observed |-> c.o]))
     /\ good' = good + (IF w = "" THEN 1 ELSE 0)
     /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
     /\ i' = i + 1
  /\ IF i = Len(Trace) THEN PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad')) ELSE TRUE
TraceSpec == TraceInit /\ [][Close]_tvars
=============================================================================
