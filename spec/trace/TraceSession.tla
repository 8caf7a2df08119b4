---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Recorded histories of clients that interleave decodes.  tab[p] has the  *)
(* outcomes that were recorded for input p alone, in a process that did    *)
(* nothing else.                                                           *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, why, good, bad
tvars == <<answers, held, out, i, l, why, good, bad>>

Case == Trace[i]
Ops == Case.y
Obs == Case.o
Panicked == Obs.p = 1
Slots == 0..15
Answers(c) == [p \in 0..(Len(c.tab) - 1) |-> c.tab[p + 1]]
Open(k) == /\ answers' = (IF k <= Len(Trace) THEN Answers(Trace[k]) ELSE <<>>)
           /\ held' = [s \in Slots |-> -1] /\ out' = <<"", {}>> /\ l' = 1
TraceInit == /\ i = 1 /\ why = "" /\ good = 0 /\ bad = 0 /\ l = 1
             /\ answers = Answers(Trace[1]) /\ held = [s \in Slots |-> -1] /\ out = <<"", {}>>
Report(w, exp) == PrintT("REJECT " \o ToJson([id |-> Case.id, why |-> <<w>>, at |-> l, expected |-> exp, observed |-> Obs]))

SetOf(s) == {s[k] : k \in DOMAIN s}
Said(k) == <<Obs.log[2 * k - 1], SetOf(Obs.log[2 * k])>>
Name(o) == CASE o = 0 -> "cert" [] o \in 1..5 -> Questions[o] [] o = 6 -> "drop" [] o \in 7..9 -> Alone[o - 6] [] o = 10 -> "within" [] o = 13 -> "repeat" [] OTHER -> "given up"
Op(o, a, b) ==                      \* a question about an empty slot is not put
  CASE o \in (1..6) \cup {12} /\ held[a] = -1 -> out' = <<"", {}>> /\ UNCHANGED <<answers, held>>
    [] o = 0 -> Load(a, b)
    [] o \in 1..5 -> Ask(a, Questions[o])
    [] o = 6 -> Drop(a)
    [] o \in 7..9 -> Decode(Alone[o - 6], b)
    [] o = 10 -> Within(a, b)
    [] o = 11 -> GiveUp(b)
    [] o = 12 -> GiveUpPrint(a)
    [] OTHER -> Repeat(b)
Follow ==
  /\ i <= Len(Trace) /\ ~Panicked /\ 3 * l <= Len(Ops) /\ why = ""
  /\ Op(Ops[3 * l - 2], Ops[3 * l - 1], Ops[3 * l])
  /\ IF out' = Said(l) THEN why' = ""
     ELSE /\ why' = "session." \o Name(Ops[3 * l - 2])
          /\ Report(why', [out |-> out'[1], inner |-> out'[2]])
  /\ l' = l + 1
  /\ UNCHANGED <<i, good, bad>>
Close ==
  /\ i <= Len(Trace)
  /\ IF Panicked THEN TRUE ELSE 3 * l > Len(Ops) \/ why # ""
  /\ LET w == IF why # "" THEN why ELSE IF Panicked THEN "panic" ELSE "" IN
     /\ IF w = "panic" THEN Report(w, <<>>) ELSE TRUE
     /\ good' = good + (IF w = "" THEN 1 ELSE 0)
     /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
  /\ why' = "" /\ i' = i + 1 /\ Open(i + 1)
  /\ IF i = Len(Trace) THEN PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad')) ELSE TRUE
TraceNext == Follow \/ Close
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
