----------------------------- MODULE DerMachine -----------------------------
(***************************************************************************)
(* The generic decoder as a transition system: one action per callback,    *)
(* plus the return of the call.                                            *)
(*                                                                         *)
(*   src    what is decoded; In(src) is the input record                   *)
(*   stack  open containers, innermost last: [pos, end]                    *)
(*   phase  "scan"  about to look at the innermost container               *)
(*          "begin" a container was reported, its begin is due             *)
(*          "fault" an error was found, its report is due                  *)
(*          "fail"  the error was reported, the call returns it            *)
(*          "done"                                                         *)
(*   ev     the event of the last step (the transition label)              *)
(*   err    the error found, <<>> if none                                  *)
(***************************************************************************)
EXTENDS DerValues

CONSTANT In(_)
VARIABLES src, stack, phase, ev, err
dvars == <<src, stack, phase, ev, err>>

NoEv == [e |-> "-"]
EvType(x, el) == [e |-> "T", k |-> el.k, a |-> el.a, n |-> el.n, v |-> el.v,
                  lo |-> el.lo, hi |-> el.hi]
EvBegin == [e |-> "B"]
EvEnd == [e |-> "E"]
EvError(e) == [e |-> "X", t |-> e]
EvReturn(e) == [e |-> "R", ok |-> e = <<>>, t |-> e]

Top == stack[Len(stack)]

DerInit(s) ==
  /\ src = s
  /\ stack = << [pos |-> 0, end |-> ILen(In(s))] >>
  /\ phase = "scan" /\ ev = NoEv /\ err = <<>>

(* on_type of an element without parts *)
ReportLeaf ==
  /\ phase = "scan" /\ Top.pos < Top.end
  /\ LET el == Elem(In(src), Top.pos, Top.end) IN
       /\ el.ok /\ el.k \notin Constructed
       /\ stack' = [stack EXCEPT ![Len(stack)].pos = el.next]
       /\ ev' = EvType(In(src), el)
  /\ UNCHANGED <<src, phase, err>>

(* on_type of a container; its successor is remembered, its contents opened *)
ReportContainer ==
  /\ phase = "scan" /\ Top.pos < Top.end
  /\ LET el == Elem(In(src), Top.pos, Top.end) IN
       /\ el.ok /\ el.k \in Constructed
       /\ stack' = Append([stack EXCEPT ![Len(stack)].pos = el.next],
                          [pos |-> el.lo, end |-> el.hi])
       /\ ev' = EvType(In(src), el)
  /\ phase' = "begin"
  /\ UNCHANGED <<src, err>>

BeginContainer ==
  /\ phase = "begin" /\ phase' = "scan" /\ ev' = EvBegin
  /\ UNCHANGED <<src, stack, err>>

EndContainer ==
  /\ phase = "scan" /\ Top.pos = Top.end /\ Len(stack) > 1
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ ev' = EvEnd
  /\ UNCHANGED <<src, phase, err>>

(* on_error: the first malformed element; everything else is abandoned *)
ReportError ==
  /\ phase = "scan" /\ Top.pos < Top.end
  /\ LET el == Elem(In(src), Top.pos, Top.end) IN
       /\ ~el.ok
       /\ err' = el.err /\ ev' = EvError(el.err)
  /\ phase' = "fail"
  /\ UNCHANGED <<src, stack>>

ReturnError ==
  /\ phase = "fail" /\ phase' = "done" /\ ev' = EvReturn(err)
  /\ UNCHANGED <<src, stack, err>>

ReturnOk ==
  /\ phase = "scan" /\ Top.pos = Top.end /\ Len(stack) = 1
  /\ phase' = "done" /\ ev' = EvReturn(<<>>)
  /\ UNCHANGED <<src, stack, err>>

DerNext == ReportLeaf \/ ReportContainer \/ BeginContainer \/ EndContainer
           \/ ReportError \/ ReturnError \/ ReturnOk

----------------------------------------------------------------------------
(* Properties of single states.                                            *)
DerTypeOK ==
  /\ phase \in {"scan", "begin", "fail", "done"}
  /\ Len(stack) >= 1
  /\ \A i \in DOMAIN stack : 0 <= stack[i].pos /\ stack[i].pos <= stack[i].end
(* Containers are nested: an open container lies before the point where    *)
(* its parent continues, and within the parent.                            *)
DerNested ==
  /\ stack[1].end = ILen(In(src))
  /\ \A i \in 2..Len(stack) : stack[i].end = stack[i - 1].pos
(* Progress measure: every step makes it smaller, so every decode ends     *)
(* after at most a linear number of steps (C01).                           *)
SumRemaining == FoldLeft(LAMBDA acc, f : acc + (f.end - f.pos), 0, stack)
PhaseRank == CASE phase = "begin" -> 3 [] phase = "scan" -> 2 [] phase = "fail" -> 1 [] OTHER -> 0
DerMeasure == 2 * SumRemaining + Len(stack) + PhaseRank
DerProgress == [][DerMeasure' < DerMeasure]_dvars
=============================================================================
