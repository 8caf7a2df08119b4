----------------------------- MODULE TraceMade -----------------------------
(***************************************************************************)
(* Recorded printings of values a client has put together: o.f is what     *)
(* the value's fields are then, o.name what it is called, o.l what each    *)
(* of three printings emitted.                                             *)
(***************************************************************************)
EXTENDS Made, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceIn(k) == Trace[k].x
VARIABLES l, why, good, bad
tvars == <<mvars, l, why, good, bad>>

Obs == Trace[src].o
Start(k) == IF k > Len(Trace) THEN [k |-> "end"] ELSE ValueOf(Trace[k].x, Tail(Trace[k].y))
TraceInit == MadeInit(1, Start(1), Trace[1].y[1]) /\ l = 1 /\ why = "" /\ good = 0 /\ bad = 0
Panicked == Obs.p = 1

(* the three printings: here, one block deeper, and here again *)
Steps == <<"show", "open", "show", "shut", "show">>
Printing == (l + 1) \div 2
Wrong(k) ==
  LET o == Obs.l[k] IN
  IF o.depth # 0 \/ o.low < 0 THEN "made.balance"
  ELSE IF o.rest # 0 \/ o.l # lines' THEN "made.lines"
  ELSE ""
Follow ==
  /\ src <= Len(Trace) /\ ~Panicked /\ held.k # "purpose" /\ l <= 5 /\ why = ""
  /\ IF Steps[l] = "show" THEN Show /\ why' = Wrong(Printing)
     ELSE (IF Steps[l] = "open" THEN Open ELSE Shut) /\ why' = why
  /\ l' = l + 1 /\ UNCHANGED <<good, bad>>
Fields ==
  IF held.k = "ext" /\ Obs.f # <<held.e>> THEN "made.fields"
  ELSE IF held.k = "ext" /\ Obs.name # B(ExtName[held.e.kind]) THEN "made.name"
  ELSE IF held.k = "purpose" /\ Obs.f # PurposeOf(held.oid) THEN "made.purpose"
  ELSE ""
Close ==
  /\ src <= Len(Trace)
  /\ Panicked \/ held.k = "purpose" \/ l > 5 \/ why # ""
  /\ LET w == IF Panicked THEN "panic" ELSE IF why # "" THEN why ELSE Fields IN
     /\ IF w = "" THEN TRUE
        ELSE PrintT("REJECT " \o ToJson([id |-> Trace[src].id, why |-> <<w>>, at |-> held.k, expected |-> [lines |-> lines, value |-> held], observed |-> Obs]))
     /\ good' = good + (IF w = "" THEN 1 ELSE 0)
     /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
  /\ src' = src + 1 /\ held' = Start(src + 1) /\ l' = 1 /\ why' = "" /\ lines' = <<>>
  /\ blocks' = (IF src < Len(Trace) THEN Trace[src + 1].y[1] ELSE 0)
  /\ IF src = Len(Trace) THEN PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad')) ELSE TRUE
TraceNext == Follow \/ Close
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
