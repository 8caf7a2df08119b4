------------------------------ MODULE TraceMisc ------------------------------
(***************************************************************************)
(* Recorded histories of bit string readers (mode bits), summaries of      *)
(* large decodes (sum), validity checks (valid) and constructed values     *)
(* (prim) against BitIter, Shapes, and the value definitions.              *)
(***************************************************************************)
EXTENDS BitIter, Shapes, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, why, good, bad
tvars == <<bits, pos, out, i, l, why, good, bad>>

Case == Trace[i]
Obs == Case.o
X == Case.x
Panicked == Obs.p = 1
Log == Obs.h

NotABitString == <<0, 1>>
Element(c) ==                       \* what the bit string of case c is
  IF c.m # "bits" \/ ILen(c.x) = 0 THEN Bad(ErrEOS) ELSE Elem(c.x, 0, ILen(c.x))
BitsOf(c) == LET e == Element(c) IN IF e.ok /\ e.k = "BitString" THEN e.v ELSE NotABitString

Report(w, exp) == PrintT("REJECT " \o ToJson([id |-> Case.id, why |-> <<w>>, at |-> l, expected |-> exp, observed |-> Obs]))

TraceInit == /\ i = 1 /\ l = 1 /\ why = "" /\ good = 0 /\ bad = 0
             /\ BitInit(IF Len(Trace) = 0 THEN NotABitString ELSE BitsOf(Trace[1]))

(* one operation of the history *)
Op(o) ==
  CASE o[1] = "new" -> NewIter
    [] o[1] = "next" -> NextBit
    [] o[1] = "nth" -> Nth(o[2])
    [] o[1] = "count" -> Count
    [] o[1] = "last" -> LastBit
    [] o[1] = "ones" -> CountOnes
    [] OTHER -> UNCHANGED bvars
Fits(o) ==
  CASE o[1] = "new" -> TRUE
    [] o[1] = "lo" -> HintLow(o[2])
    [] o[1] = "hi" -> HintHigh(o[2])
    [] OTHER -> out' = o[3]
Reads == i <= Len(Trace) /\ Case.m = "bits" /\ ~Panicked
Follow ==
  /\ Reads /\ l <= Len(Log) /\ why = ""
  /\ Op(Log[l])
  /\ IF Fits(Log[l]) THEN why' = "" ELSE why' = "iterator" /\ Report("iterator", [op |-> Log[l], was |-> out'])
  /\ l' = l + 1
  /\ UNCHANGED <<i, good, bad>>

PrimValue ==
  LET k == Case.y[1] IN
  CASE k = 1 -> [v |-> Int32(X, 0, ILen(X)), s |-> IntText(X, 0, ILen(X))]
    [] k = 2 -> [v |-> Tail(Case.y), s |-> OidText(Tail(Case.y))]
    [] k = 3 -> [v |-> BitContent(Plain(<<Case.y[2]>> \o Bytes(X)), 0, ILen(X) + 1).v, s |-> <<>>]
    [] k = 4 -> [v |-> LET b == At(X, 0) IN <<b \div 64, (b \div 32) % 2, b % 32>>, s |-> <<>>]
PrimAspect == <<"int", "oid", "bitstring", "identifier">>[Case.y[1]]

(* everything else is one step *)
Wrong ==
  CASE Panicked -> "panic"
    [] Case.m = "bits" ->
         LET e == Element(Case) IN
         IF e.ok # Obs.ok THEN "iterator.accepted"
         ELSE IF (Log = <<>>) # (~e.ok \/ e.k # "BitString") THEN "iterator.missing" ELSE ""
    [] Case.m = "sum" ->
         LET s == SumOf(Case.y[1], Case.y[2]) IN
         IF \E f \in DOMAIN s : Obs[f] # s[f] THEN "sum" ELSE IF ~Obs.order THEN "sum.order" ELSE ""
    [] Case.m = "valid" ->
         LET y == Case.y
             in == NotAfter(<<y[1], y[2]>>, <<y[5], y[6]>>) /\ NotAfter(<<y[5], y[6]>>, <<y[3], y[4]>>)
         IN IF ~Obs.ok THEN "valid.rejected" ELSE IF Obs.is # in THEN "valid" ELSE ""
    [] Case.m = "prim" /\ Case.y[1] = 5 ->       \* the clock before, the library's present, the clock after
         IF Len(Obs.v) # 3 THEN "valid.rejected"
         ELSE IF NotAfter(Obs.v[1], Obs.v[2]) /\ NotAfter(Obs.v[2], Obs.v[3]) THEN "" ELSE "valid.now"
    [] Case.m = "prim" ->
         LET e == PrimValue IN
         IF Obs.v # e.v THEN "prim." \o PrimAspect ELSE IF Obs.s # e.s THEN "prim.text" ELSE ""
Expected == CASE Case.m = "sum" -> SumOf(Case.y[1], Case.y[2])
              [] Case.m = "prim" /\ ~Panicked /\ Case.y[1] < 5 -> PrimValue
              [] OTHER -> <<>>
Close ==
  /\ i <= Len(Trace)
  /\ IF Reads THEN l > Len(Log) \/ why # "" ELSE TRUE
  /\ LET w == IF why # "" THEN why ELSE Wrong IN
     /\ IF w = "" \/ why # "" THEN TRUE ELSE Report(w, Expected)
     /\ good' = good + (IF w = "" THEN 1 ELSE 0)
     /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
  /\ i' = i + 1 /\ l' = 1 /\ why' = ""
  /\ bits' = (IF i < Len(Trace) THEN BitsOf(Trace[i + 1]) ELSE NotABitString) /\ pos' = 0 /\ out' = 0
  /\ IF i = Len(Trace) THEN PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad')) ELSE TRUE

TraceNext == Follow \/ Close
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
