---------------------------- MODULE TraceMemory ----------------------------
(***************************************************************************)
(* Recorded memory of calls: what was held at most before each callback of *)
(* a generic decode is bounded by the state Memory is in; what the other   *)
(* calls held by the octets they were given.  After a call nothing is      *)
(* left, but for tables made once.                                         *)
(*   y = <<call>>  0 generic, 1 certificate, 2 extension, 3 name, 4 list   *)
(*                 of extensions, 5 generic, only as a whole: then shape   *)
(*                 and size follow, see Shapes                             *)
(***************************************************************************)
EXTENDS Memory, Shapes, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceIn(i) == Trace[i].x

VARIABLES l, why, good, bad
tvars == <<src, stack, phase, ev, err, deep, l, why, good, bad>>

Call(i) == Trace[i].y[1]
Obs(i) == Trace[i].o
Fell(i) == Obs(i).p = 1                       \* a panic
Steps(i) == Call(i) = 0 /\ ~Fell(i)           \* is followed step by step
Log == Obs(src).h

WholeNeed(i) == IF Call(i) = 5
                THEN Fixed + PerOpen * (1 + SumOf(Trace[i].y[2], Trace[i].y[3]).depth)
                ELSE CallNeed(Call(i), ILen(TraceIn(i)))
(* what is wrong with the call as a whole *)
Whole(i) ==
  CASE Fell(i) -> "panic"
    [] Call(i) # 0 /\ Obs(i).peak > WholeNeed(i) -> "memory.held"
    [] Obs(i).left > 0 -> "memory.left"
    [] Obs(i).kept > KeptAtMost -> "memory.kept"
    [] OTHER -> ""

Report(w, need) ==
  PrintT("REJECT " \o ToJson([id |-> Trace[src].id, why |-> <<w>>, at |-> l, expected |-> [need |-> need],
                              observed |-> IF Fell(src) THEN [p |-> 1] ELSE [peak |-> Obs(src).peak, left |-> Obs(src).left, kept |-> Obs(src).kept]]))

Enter(i) == IF Steps(i) THEN /\ stack' = << [pos |-> 0, end |-> ILen(TraceIn(i))] >> /\ phase' = "scan"
                        ELSE /\ stack' = << [pos |-> 0, end |-> 0] >> /\ phase' = "done"
TraceInit ==
  /\ src = 1 /\ ev = NoEv /\ err = <<>> /\ MemInit /\ l = 1 /\ why = "" /\ good = 0 /\ bad = 0
  /\ stack = << [pos |-> 0, end |-> IF Steps(1) THEN ILen(TraceIn(1)) ELSE 0] >>
  /\ phase = IF Steps(1) THEN "scan" ELSE "done"

Follow ==
  /\ why = "" /\ DerNext /\ MemStep
  /\ LET w == IF l > Len(Log) THEN "calls" ELSE IF Log[l] > StepNeed THEN "memory.held" ELSE "" IN
       /\ why' = w
       /\ IF w = "" THEN TRUE ELSE Report(w, StepNeed)
  /\ l' = l + 1
  /\ UNCHANGED <<good, bad>>

Finished == phase = "done" \/ why # ""
Verdict == IF why # "" THEN why ELSE IF Steps(src) /\ l <= Len(Log) THEN "calls" ELSE Whole(src)

Close ==
  /\ IF Finished THEN src <= Len(Trace) ELSE FALSE
  /\ LET w == Verdict IN
       /\ IF w = "" \/ why # "" THEN TRUE ELSE Report(w, IF Fell(src) THEN 0 ELSE IF Call(src) = 0 THEN 0 ELSE WholeNeed(src))
       /\ good' = good + (IF w = "" THEN 1 ELSE 0)
       /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
  /\ l' = 1 /\ why' = "" /\ src' = src + 1 /\ ev' = NoEv /\ err' = <<>> /\ deep' = 1
  /\ IF src < Len(Trace) THEN Enter(src + 1)
     ELSE PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad')) /\ stack' = <<>> /\ phase' = "end"

TraceNext == Follow \/ Close
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
