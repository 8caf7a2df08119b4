----------------------------- MODULE TraceTotal -----------------------------
(***************************************************************************)
(* C01 for recordings that only say that the calls of a client returned    *)
(* and how many callbacks there were.  The bound is the progress measure   *)
(* of DerMachine: it starts at 2 * length + 3 and every callback, as well  *)
(* as the return, makes it smaller (DerProgress, checked by mc/MCDer).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, good, bad
tvars == <<i, good, bad>>

Measure(n) == 2 * n + 3
Wrong(c) == CASE c.o.p = 1 -> "panic"
              [] c.m = "der" /\ (c.o.n < 1 \/ c.o.n > Measure(c.n)) -> "callbacks"
              [] OTHER -> ""

TraceInit == i = 1 /\ good = 0 /\ bad = 0
Close ==
  /\ i <= Len(Trace)
  /\ LET w == Wrong(Trace[i]) IN
     /\ IF w = "" THEN TRUE
        ELSE PrintT("REJECT " \o ToJson([id |-> Trace[i].id, why |-> <<w>>, at |-> 0, expected |-> Measure(Trace[i].n), observed |-> Trace[i].o]))
     /\ good' = good + (IF w = "" THEN 1 ELSE 0)
     /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
     /\ i' = i + 1
  /\ IF i = Len(Trace) THEN PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad')) ELSE TRUE
TraceSpec == TraceInit /\ [][Close]_tvars
=============================================================================
