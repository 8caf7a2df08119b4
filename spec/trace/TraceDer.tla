------------------------------ MODULE TraceDer ------------------------------
(***************************************************************************)
(* Recorded generic decodes must be behaviours of DerMachine: every        *)
(* recorded callback is matched with one step of the machine, and at the   *)
(* end both must be finished.  A file holds many cases; each is accepted   *)
(* or rejected on its own, and the totals are printed at the end.          *)
(***************************************************************************)
EXTENDS DerMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceIn(i) == Trace[i].x

VARIABLES l,                           \* position in the recorded callbacks
          why,                         \* first disagreement of this case, "" if none
          good, bad                    \* cases so far
tvars == <<src, stack, phase, ev, err, l, why, good, bad>>

Log == Trace[src].o.ev
Texts == Trace[src].t = 1
Refused == LET last == Log[Len(Log)] IN IF last.e = "R" THEN ~last.ok ELSE FALSE

(* What is wrong with the observation o where the machine does e, "" if    *)
(* nothing.                                                                *)
Mismatch(e, o) ==
  IF o.e # e.e THEN
    CASE o.e = "P" -> "panic"
      [] e.e = "X" /\ (o.e # "R" \/ o.ok) ->       \* a fault is not noticed: for good, or
           IF Refused THEN "passed" ELSE "accepted" \* in favour of a later one
      [] o.e = "X" -> "rejected"                   \* a fault is invented
      [] OTHER -> "callback"
  ELSE CASE e.e = "T" ->
              IF o.k # e.k THEN "kind"
              ELSE IF o.v # e.v THEN "value"
              ELSE IF o.a # e.a \/ o.n # e.n THEN "slice"
              ELSE IF Texts /\ o.s # ElemText(TraceIn(src), e) THEN "text"
              ELSE ""
         [] e.e = "X" -> IF Texts /\ o.s # ErrText(e.t) THEN "error" ELSE ""
         [] e.e = "R" ->
              IF o.ok # e.ok THEN "return"
              ELSE IF ~e.ok /\ (l < 2 \/ Log[l - 1].e # "X" \/ o.s # Log[l - 1].s) THEN "same"
              ELSE ""
         [] OTHER -> ""

Report(w, exp) ==
  PrintT("REJECT " \o ToJson([id |-> Trace[src].id, why |-> <<w>>, at |-> l, expected |-> exp,
                              observed |-> IF l <= Len(Log) THEN Log[l] ELSE [e |-> "-"]]))

TraceInit == DerInit(1) /\ l = 1 /\ why = "" /\ good = 0 /\ bad = 0

Follow ==
  /\ why = "" /\ DerNext
  /\ LET w == IF l > Len(Log) THEN "missing" ELSE Mismatch(ev', Log[l]) IN
       /\ why' = w
       /\ IF w = "" THEN TRUE ELSE Report(w, ev')
  /\ l' = l + 1
  /\ UNCHANGED <<good, bad>>

Finished == phase = "done" \/ why # ""
Surplus == why = "" /\ l <= Len(Log)

Close ==
  /\ IF Finished THEN src <= Len(Trace) ELSE FALSE
  /\ IF Surplus THEN Report("surplus", [e |-> "-"]) ELSE TRUE
  /\ LET ok == why = "" /\ ~Surplus IN
       /\ good' = good + (IF ok THEN 1 ELSE 0)
       /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = 1 /\ why' = "" /\ src' = src + 1
  /\ IF src < Len(Trace)
     THEN /\ stack' = << [pos |-> 0, end |-> ILen(TraceIn(src + 1))] >>
          /\ phase' = "scan" /\ ev' = NoEv /\ err' = <<>>
     ELSE /\ PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad'))
          /\ stack' = <<>> /\ phase' = "end" /\ ev' = NoEv /\ err' = <<>>

TraceNext == Follow \/ Close
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
