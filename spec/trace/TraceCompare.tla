---------------------------- MODULE TraceCompare ----------------------------
(***************************************************************************)
(* Recorded comparisons against Compare.  An observation has               *)
(*   ids  what the wrapper types are called by their own get_id            *)
(*   el   for every element of the first input: the name of its type, the  *)
(*        wrappers that give its value, whether the element made from its  *)
(*        value by the constructor equals it, and whether those made from  *)
(*        what the wrappers give do                                        *)
(*   rel  the comparisons, in order                                        *)
(*   eq   the comparison of what the decodes returned                      *)
(***************************************************************************)
EXTENDS Compare, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceA(k) == LET c == Trace[k] IN Plain(SubSeq(c.x.pre, 1, c.y[1]))
TraceB(k) == LET c == Trace[k] IN Plain(SubSeq(c.x.pre, c.y[1] + 1, Len(c.x.pre)))

VARIABLES l, m, why, good, bad
tvars == <<pvars, l, m, why, good, bad>>

Obs == Trace[src].o
Panicked == Obs.p = 1
Report(w, exp, o) == PrintT("REJECT " \o ToJson([id |-> Trace[src].id, why |-> <<w>>, at |-> l, expected |-> exp, observed |-> o]))

SetOf(s) == {s[k] : k \in DOMAIN s}
Wrong ==                       \* the step just taken against what was recorded
  CASE turn = "outer" /\ evA'.e = "T" ->
         IF m > Len(Obs.el) THEN "missing"
         ELSE LET o == Obs.el[m] IN
              IF o[1] # evA'.k THEN "type"
              ELSE IF SetOf(o[2]) # Gives(evA') THEN "access"
              ELSE IF (Made(InA(src), evA') /\ o[3] # 1) \/ o[4] # 1 THEN "remade"
              ELSE ""
    [] turn = "inner" /\ out' # <<>> ->
         IF l > Len(Obs.rel) THEN "missing"
         ELSE IF Obs.rel[l] = out'[1] \/ (out'[1] = 5 /\ Obs.rel[l] \in {0, 1}) THEN ""
         ELSE IF out'[1] \in 2..4 /\ Obs.rel[l] > 1 THEN "order" ELSE "equal"
    [] turn = "last" /\ turn' = "done" ->
         IF Obs.eq # out'[1] THEN "outcome"
         ELSE IF Obs.ids # Wrappers THEN "names"
         ELSE IF l <= Len(Obs.rel) \/ m <= Len(Obs.el) THEN "surplus" ELSE ""
    [] OTHER -> ""
Observed == CASE turn = "outer" -> [element |-> IF m > Len(Obs.el) THEN <<>> ELSE Obs.el[m]]
              [] turn = "inner" -> [relation |-> IF l > Len(Obs.rel) THEN <<>> ELSE <<Obs.rel[l]>>]
              [] OTHER -> [eq |-> Obs.eq, ids |-> Obs.ids]
Expected == CASE turn = "outer" -> [k |-> evA'.k, element |-> <<evA'.k, Gives(evA'), Made(InA(src), evA')>>]
              [] turn = "inner" -> [k |-> evA.k \o "/" \o evB'.k, ours |-> Value(InA(src), evA), theirs |-> Value(InB(src), evB'), relation |-> out']
              [] OTHER -> [eq |-> out', ids |-> Wrappers]

TraceInit == CompareInit(1) /\ l = 1 /\ m = 1 /\ why = "" /\ good = 0 /\ bad = 0
Follow ==
  /\ src <= Len(Trace) /\ ~Panicked /\ why = "" /\ CompareNext
  /\ LET w == Wrong IN
       /\ why' = (IF w = "" THEN "" ELSE "compare." \o w)
       /\ IF w = "" THEN TRUE ELSE Report("compare." \o w, Expected, Observed)
  /\ l' = (IF turn = "inner" /\ out' # <<>> THEN l + 1 ELSE l)
  /\ m' = (IF turn = "outer" /\ evA'.e = "T" THEN m + 1 ELSE m)
  /\ UNCHANGED <<good, bad>>
Close ==
  /\ IF src <= Len(Trace) THEN Panicked \/ turn = "done" \/ why # "" ELSE FALSE
  /\ LET w == IF why # "" THEN why ELSE IF Panicked THEN "panic" ELSE "" IN
     /\ IF w = "panic" THEN Report(w, <<>>, Obs) ELSE TRUE
     /\ good' = good + (IF w = "" THEN 1 ELSE 0)
     /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
  /\ why' = "" /\ l' = 1 /\ m' = 1 /\ src' = src + 1
  /\ stackB' = <<>> /\ phaseB' = "off" /\ evB' = [e |-> "-"] /\ errB' = <<>> /\ turn' = "outer" /\ out' = <<>>
  /\ IF src < Len(Trace)
     THEN stackA' = << [pos |-> 0, end |-> ILen(TraceA(src + 1))] >> /\ phaseA' = "scan" /\ evA' = [e |-> "-"] /\ errA' = <<>>
     ELSE /\ PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad'))
          /\ stackA' = <<>> /\ phaseA' = "end" /\ evA' = [e |-> "-"] /\ errA' = <<>>
TraceNext == Follow \/ Close
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
