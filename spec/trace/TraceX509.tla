----------------------------- MODULE TraceX509 -----------------------------
(***************************************************************************)
(* Recorded certificate, name and extension decodes must be behaviours of  *)
(* X509Machine.  The machine steps through the schema of the input; every  *)
(* return of a call of the client is a recorded event (o.cert, o.iname,    *)
(* o.sname, o.elist, o.ext) matched with the step of the machine in which  *)
(* that call is done, with all its results.  A recorded printing is        *)
(* matched with the lines of the specification once all calls are done.    *)
(***************************************************************************)
EXTENDS X509Machine, Printer, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceIn(i) == Trace[i].x

VARIABLES why,                                      \* disagreements of this case
          good, bad                                 \* cases so far
tvars == <<src, mode, job, stack, pc, aux, cur, r, why, good, bad>>

Obs == Trace[src].o
Texts == Trace[src].t = 1
Printed == Trace[src].pr # 0
InParts == Trace[src].pr = 2

Calls == {"cert", "iname", "sname", "elist", "ext"}

(* verdict of a call *)
Verdict(j, rr) ==
  LET o == Obs[j] IN
  IF rr[j].err = <<>> THEN (IF o.ok THEN <<>> ELSE <<j \o ".rejected">>)
  ELSE IF o.ok THEN <<j \o ".accepted">>
  ELSE IF Texts /\ o.s # ErrText(rr[j].err) THEN <<j \o ".error">>
  ELSE <<>>

Differ(pairs) == SelectSeq(pairs, LAMBDA p : p[2])
Names(pairs) == [i \in DOMAIN Differ(pairs) |-> Differ(pairs)[i][1]]

CertFields == <<"tbs", "ver", "serial", "sigalg", "issuer", "nb", "na", "subject",
                "spkalg", "spkkey", "iuid", "suid", "alg", "sig">>
FieldPairs(rr) ==
  [i \in DOMAIN CertFields |-> <<"cert." \o CertFields[i], Obs.f[CertFields[i]] # rr.f[CertFields[i]]>>]
  \o << <<"cert.exts", Obs.f.hasexts # Len(rr.f.exts)>> >>

NameFields == <<"C", "ST", "L", "O", "OU", "CN">>
NamePairs(j, rr) ==
  [i \in DOMAIN NameFields |-> <<j \o "." \o NameFields[i], Obs[j].f[NameFields[i]] # rr[j].f[NameFields[i]]>>]

ExtFields == <<"oid", "crit", "kind", "c">>
ListPairs(j, rr) ==
  LET o == Obs[j].f
      e == rr[j].f
  IN IF Len(o) # Len(e) THEN << <<j \o ".count", TRUE>> >>
     ELSE [k \in 1..(4 * Len(e)) |->
             LET i == ((k - 1) \div 4) + 1
                 f == ExtFields[((k - 1) % 4) + 1]
             IN <<j \o "." \o f, o[i][f] # e[i][f]>>]

(* the results of call j, done in this step, against the recorded ones *)
Returned(j, rr) ==
  LET v == Verdict(j, rr) IN
  IF v # <<>> THEN v
  ELSE IF rr[j].err # <<>> THEN <<>>
  ELSE CASE j = "cert" -> Names(FieldPairs(rr))
         [] j \in {"iname", "sname"} -> Names(NamePairs(j, rr))
         [] OTHER -> Names(ListPairs(j, rr))

(* calls after which nothing further was recorded, because the real code   *)
(* refused what the specification accepts                                  *)
Stops(w) == Len(w) > 0 /\ w[Len(w)] = "cert.rejected"

Report(w, extra) ==
  PrintT("REJECT " \o ToJson([id |-> Trace[src].id, why |-> w, at |-> job,
                              expected |-> extra, observed |-> Obs]))

Lines(rr) ==
  CASE mode = "cert" -> IF rr.cert.err = <<>> THEN CertLines(TraceIn(src), rr) ELSE <<>>
    [] mode = "name" -> IF rr.iname.err = <<>> THEN NameLines(TraceIn(src), rr.iname.f, 0)
                        ELSE RawNameLines(TraceIn(src), [a |-> 0, n |-> ILen(TraceIn(src))], 0)
    [] mode = "ext" -> IF rr.ext.err = <<>> THEN ExtLines(TraceIn(src), rr.ext.f[1], 0) ELSE <<>>
Printing(rr) ==
  IF ~Printed \/ (mode = "cert" /\ rr.cert.err # <<>>) THEN <<>>
  ELSE LET o == Obs.print IN
       IF o.depth # 0 \/ o.low < 0 THEN <<"print.balance">>
       ELSE IF o.rest # 0 \/ o.l # Lines(rr) THEN <<"print">>
       ELSE <<>>

(* every part, printed on its own: its lines as a function of the depth    *)
ExtParts(x, list) == Join([i \in DOMAIN list |-> <<[d \in 0..3 |-> ExtLines(x, list[i], d)], [d \in 0..3 |-> ContentLines(x, list[i], d)]>>])
PartLines(rr) ==
  LET x == TraceIn(src)
      f == rr.f
      all == [a |-> 0, n |-> ILen(x)]
  IN CASE mode = "cert" /\ rr.cert.err = <<>> ->
            << [d \in 0..3 |-> TbsLines(x, rr, d)],
               [d \in 0..3 |-> AlgLines(f.alg, d)],
               [d \in 0..3 |-> BitLines(x, f.sig, d)],
               [d \in 0..3 |-> AlgLines(f.sigalg, d)],
               [d \in 0..3 |-> RawNameLines(x, f.issuer, d)],
               [d \in 0..3 |-> RawNameLines(x, f.subject, d)] >>
            \o (IF rr.iname.err = <<>> THEN << [d \in 0..3 |-> NameLines(x, rr.iname.f, d)] >> ELSE <<>>)
            \o (IF rr.sname.err = <<>> THEN << [d \in 0..3 |-> NameLines(x, rr.sname.f, d)] >> ELSE <<>>)
            \o << [d \in 0..3 |-> ValidityLines(f, d)],
                  [d \in 0..3 |-> KeyLines(x, f, d)],
                  [d \in 0..3 |-> AlgLines(f.spkalg, d)],
                  [d \in 0..3 |-> BitLines(x, f.spkkey, d)] >>
            \o [i \in DOMAIN f.iuid |-> [d \in 0..3 |-> BitLines(x, f.iuid[i], d)]]
            \o [i \in DOMAIN f.suid |-> [d \in 0..3 |-> BitLines(x, f.suid[i], d)]]
            \o (IF rr.elist.err = <<>> THEN ExtParts(x, rr.elist.f) ELSE <<>>)
       [] mode = "name" -> << [d \in 0..3 |-> RawNameLines(x, all, d)] >> \o (IF rr.iname.err = <<>> THEN << [d \in 0..3 |-> NameLines(x, rr.iname.f, d)] >> ELSE <<>>)
       [] mode = "ext" /\ rr.ext.err = <<>> -> ExtParts(x, rr.ext.f)
       [] OTHER -> <<>>
Parts(rr) ==
  IF ~InParts \/ (mode = "cert" /\ rr.cert.err # <<>>) THEN <<>>
  ELSE LET p == PartLines(rr) IN
       IF Len(Obs.parts) # Len(p) THEN <<"parts.count">>
       ELSE IF \E i \in DOMAIN p : Obs.parts[i].depth # 0 \/ Obs.parts[i].low < 0 THEN <<"parts.balance">>
       ELSE IF \E i \in DOMAIN p : Obs.parts[i].rest # 0 \/ Obs.parts[i].l # p[i][(i - 1) % 4] THEN <<"parts">>
       ELSE <<>>

Start(i) ==
  IF i > Len(Trace)
  THEN /\ src' = i /\ mode' = "end" /\ job' = "" /\ stack' = <<>> /\ pc' = "end"
       /\ aux' = "" /\ cur' = <<>> /\ r' = <<>>
  ELSE LET m == Trace[i].m IN
       /\ src' = i /\ mode' = m
       /\ job' = (CASE m = "cert" -> "cert" [] m = "name" -> "iname" [] m = "ext" -> "ext")
       /\ stack' = << [pos |-> 0, end |-> ILen(TraceIn(i))] >>
       /\ pc' = (CASE m = "cert" -> "outer" [] m = "name" -> "rdn" [] m = "ext" -> "ext.oid")
       /\ aux' = "" /\ cur' = <<>>
       /\ r' = NoResults

TraceInit ==
  /\ XInit(1, Trace[1].m)
  /\ why = <<>> /\ good = 0 /\ bad = 0

Panicked == Obs.p = 1

(* a step inside a call *)
Follow ==
  /\ mode # "end" /\ ~Panicked /\ pc # "done" /\ ~Stops(why)
  /\ XNext
  /\ LET new == {j \in Calls : r'[j].done /\ ~r[j].done} IN
     IF new = {} THEN why' = why
     ELSE why' = why \o Returned(CHOOSE j \in new : TRUE, r')
  /\ UNCHANGED <<good, bad>>

(* all calls are done: account for the case, go on to the next *)
Close ==
  /\ mode # "end"
  /\ IF Panicked \/ pc = "done" THEN TRUE ELSE Stops(why)
  /\ LET w == IF Panicked THEN <<"panic">>
              ELSE IF why # <<>> THEN why
              ELSE Printing(r) \o Parts(r)
     IN /\ IF w = <<>> THEN TRUE
           ELSE Report(w, IF w = <<"print">> THEN [l |-> Lines(r)] ELSE [r |-> r])
        /\ good' = good + (IF w = <<>> THEN 1 ELSE 0)
        /\ bad' = bad + (IF w = <<>> THEN 0 ELSE 1)
  /\ why' = <<>>
  /\ Start(src + 1)
  /\ IF src = Len(Trace)
     THEN PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad')) ELSE TRUE

(* every step changes one of these, so states stay distinct *)
Where == <<src, job, stack, pc, aux, good, bad>>

TraceNext == Follow \/ Close
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
