---------------------------- MODULE X509Machine ----------------------------
(***************************************************************************)
(* Decoding of certificates, names, extension lists and single extensions  *)
(* as a transition system: one action per schema step.                     *)
(*                                                                         *)
(* A run is a history of a client:                                         *)
(*   mode "cert": decode the certificate; if accepted decode the issuer    *)
(*                name, then the subject name, then the extension list     *)
(*   mode "name": decode the input as the contents of a name               *)
(*   mode "ext":  decode the input as the contents of one extension        *)
(*                                                                         *)
(*   src   the input, In(src) its record                                   *)
(*   job   the call in progress: cert | iname | sname | elist | ext        *)
(*   stack ranges being read, innermost last: [pos, end]                   *)
(*   pc    the next schema step                                            *)
(*   aux   where the algorithm identifier step continues                   *)
(*   cur   what the current extension or attribute has produced so far     *)
(*   r     results of the calls so far                                     *)
(***************************************************************************)
EXTENDS DerValues

CONSTANT In(_)
VARIABLES src, mode, job, stack, pc, aux, cur, r
xvars == <<src, mode, job, stack, pc, aux, cur, r>>

Slice(lo, hi) == [a |-> IF hi = lo THEN 0 ELSE lo, n |-> hi - lo]
ElemSlice(e) == Slice(e.lo, e.hi)
IntVal(e) == [a |-> e.a, n |-> e.n, v |-> e.v]
BitVal(e) == [a |-> e.a, n |-> e.n, v |-> e.v]
ElemVal(e) == [k |-> e.k, a |-> e.a, n |-> e.n, v |-> e.v]

NoCall == [done |-> FALSE, err |-> <<>>]
EmptyName == [C |-> <<>>, ST |-> <<>>, L |-> <<>>, O |-> <<>>, OU |-> <<>>, CN |-> <<>>]
NoName == [done |-> FALSE, err |-> <<>>, f |-> EmptyName]
NoList == [done |-> FALSE, err |-> <<>>, f |-> <<>>]

NoResults == [cert |-> NoCall, f |-> <<>>, iname |-> NoName, sname |-> NoName,
              elist |-> NoList, ext |-> NoList]

XInit(s, m) ==
  /\ src = s /\ mode = m
  /\ job = (CASE m = "cert" -> "cert" [] m = "name" -> "iname" [] m = "ext" -> "ext")
  /\ stack = << [pos |-> 0, end |-> ILen(In(s))] >>
  /\ pc = (CASE m = "cert" -> "outer" [] m = "name" -> "rdn" [] m = "ext" -> "ext.oid")
  /\ aux = "" /\ cur = <<>>
  /\ r = NoResults

----------------------------------------------------------------------------
(* Reading from the innermost range.                                       *)
X == In(src)
Top == stack[Len(stack)]
AtEnd == Top.pos = Top.end
Here == Elem(X, Top.pos, Top.end)
Past(e) == [stack EXCEPT ![Len(stack)].pos = e.next]
PastInto(e) == Append(Past(e), [pos |-> e.lo, end |-> e.hi])
Popped == SubSeq(stack, 1, Len(stack) - 1)

(* an element of the given kind must come next *)
Need(kind) ==
  IF AtEnd THEN Bad(ErrEOS)
  ELSE LET e == Here IN
       IF ~e.ok THEN e
       ELSE IF e.k # kind THEN Bad(<<"UnexpectedType", kind, e.k>>)
       ELSE [ok |-> TRUE, e |-> e]
(* nothing may come next *)
NeedEnd ==
  IF AtEnd THEN [ok |-> TRUE]
  ELSE LET e == Here IN IF ~e.ok THEN e ELSE Bad(<<"ExpectedEnd", e.k>>)
(* the kind announced by the next identifier: "" at the end; unsupported   *)
(* identifiers are an error                                                *)
PeekId == At(X, Top.pos)
PeekKind == KindOf[PeekId]
PeekBad == ~AtEnd /\ PeekKind = ""

----------------------------------------------------------------------------
(* Ends of calls.                                                          *)
RangeOf(sl) == << [pos |-> sl.a, end |-> sl.a + sl.n] >>

(* Start of the call after `j`, given the results rr so far.               *)
GoTo(j, rr) ==
  CASE j = "iname" -> /\ job' = "iname" /\ pc' = "rdn" /\ stack' = RangeOf(rr.f.issuer)
    [] j = "sname" -> /\ job' = "sname" /\ pc' = "rdn" /\ stack' = RangeOf(rr.f.subject)
    [] j = "elist" -> IF rr.f.exts = <<>>
                      THEN /\ job' = "elist" /\ pc' = "done" /\ UNCHANGED stack
                      ELSE /\ job' = "elist" /\ pc' = "elist.outer"
                           /\ stack' = RangeOf(rr.f.exts[1])
    [] OTHER -> job' = job /\ pc' = "done" /\ UNCHANGED stack

After(j) ==
  IF mode # "cert" THEN "none"
  ELSE CASE j = "cert" -> "iname" [] j = "iname" -> "sname" [] j = "sname" -> "elist"
         [] OTHER -> "none"

Finish(rr) ==
  /\ r' = rr
  /\ GoTo(After(job), rr)
  /\ aux' = "" /\ cur' = <<>>
  /\ UNCHANGED <<src, mode>>

Fail(e) ==
  LET rr == [r EXCEPT ![job].done = TRUE, ![job].err = e]
  IN IF job = "cert"
     THEN r' = rr /\ pc' = "done" /\ UNCHANGED <<src, mode, job, stack, aux, cur>>
     ELSE Finish(CASE job \in {"iname", "sname"} -> [rr EXCEPT ![job].f = EmptyName]
                   [] OTHER -> [rr EXCEPT ![job].f = <<>>])

(* Step(res, st, next, rr, cc, ax): continue with the given components     *)
Cont(st, next) == stack' = st /\ pc' = next /\ UNCHANGED <<src, mode, job>>

----------------------------------------------------------------------------
(* The certificate.                                                        *)
Field(name, val) == r' = [r EXCEPT !.f = [r.f EXCEPT ![name] = val]]

EmptyCert == [tbs |-> Slice(0, 0), ver |-> "V1", serial |-> <<>>, sigalg |-> <<>>,
              issuer |-> Slice(0, 0), nb |-> <<>>, na |-> <<>>, subject |-> Slice(0, 0),
              spkalg |-> <<>>, spkkey |-> <<>>, iuid |-> <<>>, suid |-> <<>>,
              exts |-> <<>>, alg |-> <<>>, sig |-> <<>>]

CertOuter ==
  /\ pc = "outer"
  /\ LET q == Need("Sequence") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE /\ Cont(PastInto(q.e), "tbs")
          /\ r' = [r EXCEPT !.f = EmptyCert]
          /\ UNCHANGED <<aux, cur>>

TbsOpen ==
  /\ pc = "tbs"
  /\ LET q == Need("Sequence") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE /\ Cont(PastInto(q.e), "version")
          /\ Field("tbs", ElemSlice(q.e))
          /\ UNCHANGED <<aux, cur>>

(* [0] EXPLICIT INTEGER DEFAULT v1 *)
VersionField ==
  /\ pc = "version"
  /\ IF PeekBad THEN Fail(<<"UnsupportedId", PeekId>>)
     ELSE IF AtEnd \/ PeekKind # "ExplicitTag" \/ TagNumber(PeekId) # 0
     THEN Cont(stack, "serial") /\ UNCHANGED <<r, aux, cur>>
     ELSE LET q == Need("ExplicitTag") IN
          IF ~q.ok THEN Fail(q.err)
          ELSE /\ Cont(PastInto(q.e), "version.value")
               /\ UNCHANGED <<r, aux, cur>>

VersionValue ==
  /\ pc = "version.value"
  /\ LET q == Need("Integer") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE /\ Cont(Past(q.e), "version.end")
          /\ cur' = <<q.e>>
          /\ UNCHANGED <<r, aux>>

VersionEnd ==
  /\ pc = "version.end"
  /\ LET q == NeedEnd
         v == cur[1].v
     IN IF ~q.ok THEN Fail(q.err)
        ELSE IF v = <<>> THEN Fail(<<"IntegerTooLarge", cur[1].n>>)
        ELSE IF v[1] \notin 0..2 THEN Fail(<<"BadEnumValue", "version", v[1]>>)
        ELSE /\ Cont(Popped, "serial")
             /\ Field("ver", <<"V1", "V2", "V3">>[v[1] + 1])
             /\ cur' = <<>>
             /\ UNCHANGED aux

Serial ==
  /\ pc = "serial"
  /\ LET q == Need("Integer") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(Past(q.e), "sigalg") /\ Field("serial", IntVal(q.e)) /\ UNCHANGED <<aux, cur>>

(* Algorithm identifiers occur three times; aux names the field. *)
AlgAfter == [sigalg |-> "issuer", spkalg |-> "spkkey", alg |-> "sig"]
AlgOpen ==
  /\ pc \in DOMAIN AlgAfter
  /\ LET q == Need("Sequence") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(PastInto(q.e), "alg.oid") /\ aux' = pc /\ UNCHANGED <<r, cur>>
AlgOid ==
  /\ pc = "alg.oid"
  /\ LET q == Need("ObjectIdentifier") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE /\ Cont(Past(q.e), "alg.par")
          /\ Field(aux, [oid |-> q.e.v, par |-> <<>>])
          /\ UNCHANGED <<aux, cur>>
AlgParameters ==
  /\ pc = "alg.par"
  /\ IF AtEnd THEN Cont(stack, "alg.end") /\ UNCHANGED <<r, aux, cur>>
     ELSE LET e == Here IN
          IF ~e.ok THEN Fail(e.err)
          ELSE /\ Cont(Past(e), "alg.end")
               /\ Field(aux, [r.f[aux] EXCEPT !.par = <<ElemVal(e)>>])
               /\ UNCHANGED <<aux, cur>>
AlgEnd ==
  /\ pc = "alg.end"
  /\ LET q == NeedEnd IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(Popped, AlgAfter[aux]) /\ aux' = "" /\ UNCHANGED <<r, cur>>

NameField ==
  /\ pc \in {"issuer", "subject"}
  /\ LET q == Need("Sequence") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE /\ Cont(Past(q.e), IF pc = "issuer" THEN "validity" ELSE "spki")
          /\ Field(pc, ElemSlice(q.e))
          /\ UNCHANGED <<aux, cur>>

ValidityOpen ==
  /\ pc = "validity"
  /\ LET q == Need("Sequence") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(PastInto(q.e), "nb") /\ UNCHANGED <<r, aux, cur>>
TimeField ==
  /\ pc \in {"nb", "na"}
  /\ LET q == Need("UTCTime") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE /\ Cont(Past(q.e), IF pc = "nb" THEN "na" ELSE "validity.end")
          /\ Field(pc, q.e.v)
          /\ UNCHANGED <<aux, cur>>
ValidityEnd ==
  /\ pc = "validity.end"
  /\ LET q == NeedEnd IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(Popped, "subject") /\ UNCHANGED <<r, aux, cur>>

SpkiOpen ==
  /\ pc = "spki"
  /\ LET q == Need("Sequence") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(PastInto(q.e), "spkalg") /\ UNCHANGED <<r, aux, cur>>
BitsField ==
  /\ pc \in {"spkkey", "sig"}
  /\ LET q == Need("BitString") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE /\ Cont(Past(q.e), IF pc = "sig" THEN "cert.end" ELSE "spki.end")
          /\ Field(pc, BitVal(q.e))
          /\ UNCHANGED <<aux, cur>>
SpkiEnd ==
  /\ pc = "spki.end"
  /\ LET q == NeedEnd IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(Popped, "iuid") /\ UNCHANGED <<r, aux, cur>>

(* [1] / [2] IMPLICIT BIT STRING, [3] extensions: optional, in this order *)
OptTag == [iuid |-> 1, suid |-> 2, exts |-> 3]
OptNext == [iuid |-> "suid", suid |-> "exts", exts |-> "tbs.end"]
OptionalField ==
  /\ pc \in DOMAIN OptTag
  /\ IF PeekBad THEN Fail(<<"UnsupportedId", PeekId>>)
     ELSE IF AtEnd \/ PeekKind # "ExplicitTag" \/ TagNumber(PeekId) # OptTag[pc]
     THEN Cont(stack, OptNext[pc]) /\ UNCHANGED <<r, aux, cur>>
     ELSE LET q == Need("ExplicitTag") IN
          IF ~q.ok THEN Fail(q.err)
          ELSE IF pc = "exts"
          THEN /\ Cont(Past(q.e), OptNext[pc])
               /\ Field("exts", <<ElemSlice(q.e)>>)
               /\ UNCHANGED <<aux, cur>>
          ELSE LET b == BitContent(X, q.e.lo, q.e.hi) IN
               IF ~b.ok THEN Fail(b.err)
               ELSE /\ Cont(Past(q.e), OptNext[pc])
                    /\ Field(pc, <<BitVal(b)>>)
                    /\ UNCHANGED <<aux, cur>>

TbsEnd ==
  /\ pc = "tbs.end"
  /\ LET q == NeedEnd IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(Popped, "alg") /\ UNCHANGED <<r, aux, cur>>
CertEnd ==
  /\ pc = "cert.end"
  /\ LET q == NeedEnd IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(Popped, "outer.end") /\ UNCHANGED <<r, aux, cur>>
OuterEnd ==
  /\ pc = "outer.end"
  /\ LET q == NeedEnd IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Finish([r EXCEPT !.cert.done = TRUE])

CertNext == CertOuter \/ TbsOpen \/ VersionField \/ VersionValue \/ VersionEnd \/ Serial
            \/ AlgOpen \/ AlgOid \/ AlgParameters \/ AlgEnd \/ NameField \/ ValidityOpen
            \/ TimeField \/ ValidityEnd \/ SpkiOpen \/ BitsField \/ SpkiEnd \/ OptionalField
            \/ TbsEnd \/ CertEnd \/ OuterEnd

----------------------------------------------------------------------------
(* Names: SETs of attributes; every recognised type at most once.          *)
Attribute(arcs) ==
  CASE arcs = <<2, 5, 4, 3>> -> "CN"
    [] arcs = <<2, 5, 4, 6>> -> "C"
    [] arcs = <<2, 5, 4, 7>> -> "L"
    [] arcs = <<2, 5, 4, 8>> -> "ST"
    [] arcs = <<2, 5, 4, 10>> -> "O"
    [] arcs = <<2, 5, 4, 11>> -> "OU"
    [] OTHER -> ""

RdnSet ==
  /\ pc = "rdn"
  /\ IF AtEnd THEN Finish([r EXCEPT ![job].done = TRUE])
     ELSE LET q == Need("Set") IN
          IF ~q.ok THEN Fail(q.err)
          ELSE Cont(PastInto(q.e), "attr.first") /\ UNCHANGED <<r, aux, cur>>
(* a set has at least one attribute *)
AttrOpen ==
  /\ pc \in {"attr.first", "attr"}
  /\ IF pc = "attr" /\ AtEnd
     THEN Cont(Popped, "rdn") /\ UNCHANGED <<r, aux, cur>>
     ELSE LET q == Need("Sequence") IN
          IF ~q.ok THEN Fail(q.err)
          ELSE Cont(PastInto(q.e), "attr.oid") /\ UNCHANGED <<r, aux, cur>>
AttrOid ==
  /\ pc = "attr.oid"
  /\ LET q == Need("ObjectIdentifier") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(Past(q.e), "attr.value") /\ cur' = q.e.v /\ UNCHANGED <<r, aux>>
AttrValue ==
  /\ pc = "attr.value"
  /\ IF AtEnd THEN Fail(ErrEOS)
     ELSE LET e == Here
              c == Attribute(cur)
          IN IF ~e.ok THEN Fail(e.err)
             ELSE IF c # "" /\ e.k \notin Strings
             THEN Fail(<<"UnexpectedType", "PrintableString", e.k>>)
             ELSE IF c # "" /\ r[job].f[c] # <<>>
             THEN Fail(<<"UnexpectedOid", cur>>)
             ELSE /\ Cont(Past(e), "attr.end")
                  /\ r' = IF c = "" THEN r ELSE [r EXCEPT ![job].f[c] = <<ElemSlice(e)>>]
                  /\ cur' = <<>>
                  /\ UNCHANGED aux
AttrEnd ==
  /\ pc = "attr.end"
  /\ LET q == NeedEnd IN
     IF ~q.ok THEN Fail(q.err)
     ELSE Cont(Popped, "attr") /\ UNCHANGED <<r, aux, cur>>

NameNext == RdnSet \/ AttrOpen \/ AttrOid \/ AttrValue \/ AttrEnd

----------------------------------------------------------------------------
(* Extension lists and single extensions.                                  *)
ExtKind(arcs) ==
  CASE arcs = <<2, 5, 29, 14>> -> "SubjectKeyIdentifier"
    [] arcs = <<2, 5, 29, 15>> -> "KeyUsage"
    [] arcs = <<2, 5, 29, 17>> -> "SubjectAlternativeName"
    [] arcs = <<2, 5, 29, 19>> -> "BasicConstraints"
    [] arcs = <<2, 5, 29, 37>> -> "ExtendedKeyUsage"
    [] arcs = <<1, 3, 6, 1, 4, 1, 50316, 802, 1>> -> "ModbusRole"
    [] OTHER -> "Unknown"

Item(k, a, n, v) == [k |-> k, a |-> IF n = 0 THEN 0 ELSE a, n |-> n, v |-> v]
NewExt == [oid |-> <<>>, crit |-> FALSE, kind |-> "", c |-> <<>>]

(* ListOuter: exactly one SEQUENCE; sequences of extensions, general names *)
(* and purposes all start this way.                                        *)
OpenOnly(next) ==
  LET q == Need("Sequence") IN
  IF ~q.ok THEN Fail(q.err)
  ELSE LET rest == IF q.e.next = Top.end THEN [ok |-> TRUE]
                   ELSE LET e == Elem(X, q.e.next, Top.end) IN
                        IF ~e.ok THEN e ELSE Bad(<<"ExpectedEnd", e.k>>)
       IN IF ~rest.ok THEN Fail(rest.err)
          ELSE Cont(PastInto(q.e), next) /\ UNCHANGED <<r, aux, cur>>

ListOuter == pc = "elist.outer" /\ OpenOnly("elist.next")
ListNext ==
  /\ pc = "elist.next"
  /\ IF AtEnd THEN Finish([r EXCEPT ![job].done = TRUE])
     ELSE LET q == Need("Sequence") IN
          IF ~q.ok THEN Fail(q.err)
          ELSE Cont(PastInto(q.e), "ext.oid") /\ UNCHANGED <<r, aux, cur>>

ExtOid ==
  /\ pc = "ext.oid"
  /\ LET q == Need("ObjectIdentifier") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE /\ Cont(Past(q.e), "ext.critical")
          /\ cur' = [NewExt EXCEPT !.oid = q.e.v, !.kind = ExtKind(q.e.v)]
          /\ UNCHANGED <<r, aux>>
ExtCritical ==                              \* BOOLEAN DEFAULT FALSE
  /\ pc = "ext.critical"
  /\ IF PeekBad THEN Fail(<<"UnsupportedId", PeekId>>)
     ELSE IF AtEnd \/ PeekKind # "Boolean"
     THEN Cont(stack, "ext.value") /\ UNCHANGED <<r, aux, cur>>
     ELSE LET q == Need("Boolean") IN
          IF ~q.ok THEN Fail(q.err)
          ELSE /\ Cont(Past(q.e), "ext.value")
               /\ cur' = [cur EXCEPT !.crit = (q.e.v[1] = 1)]
               /\ UNCHANGED <<r, aux>>
ExtValue ==
  /\ pc = "ext.value"
  /\ LET q == Need("OctetString") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE IF cur.kind = "Unknown"
     THEN /\ Cont(Past(q.e), "ext.end")
          /\ cur' = [cur EXCEPT !.c = <<Item("raw", q.e.lo, q.e.hi - q.e.lo, <<>>)>>]
          /\ UNCHANGED <<r, aux>>
     ELSE /\ Cont(PastInto(q.e), cur.kind)
          /\ UNCHANGED <<r, aux, cur>>

(* the contents of an extension are complete: leave the octet string *)
LeaveContent == Cont(Popped, "ext.end") /\ UNCHANGED <<r, aux>>
AddItem(it) == cur' = [cur EXCEPT !.c = Append(cur.c, it)]

(* a single element of the given kind and nothing else *)
Only(kind) ==
  LET q == Need(kind) IN
  IF ~q.ok THEN q
  ELSE IF q.e.next = Top.end THEN q
  ELSE LET e == Elem(X, q.e.next, Top.end) IN IF ~e.ok THEN e ELSE Bad(<<"ExpectedEnd", e.k>>)

SkiContent ==
  /\ pc = "SubjectKeyIdentifier"
  /\ LET q == Only("OctetString") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE LeaveContent /\ AddItem(Item("ski", q.e.lo, q.e.hi - q.e.lo, <<>>))

RoleContent ==
  /\ pc = "ModbusRole"
  /\ LET q == Only("UTF8String") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE LeaveContent /\ AddItem(Item("role", q.e.lo, q.e.hi - q.e.lo, <<>>))

KeyUsageContent ==
  /\ pc = "KeyUsage"
  /\ LET q == Only("BitString") IN
     IF ~q.ok THEN Fail(q.err)
     ELSE /\ LeaveContent
          /\ AddItem(Item("flags", 0, 0,
               [i \in 1..9 |-> IF i - 1 < BitSize(q.e.v) THEN BitAt(q.e.v, i - 1) ELSE 0]))

ConstraintsOpen == pc = "BasicConstraints" /\ OpenOnly("bc.ca")
ConstraintsCa ==                            \* BOOLEAN DEFAULT FALSE
  /\ pc = "bc.ca"
  /\ IF PeekBad THEN Fail(<<"UnsupportedId", PeekId>>)
     ELSE IF AtEnd \/ PeekKind # "Boolean"
     THEN Cont(stack, "bc.len") /\ AddItem(Item("ca", 0, 0, <<0>>)) /\ UNCHANGED <<r, aux>>
     ELSE LET q == Need("Boolean") IN
          IF ~q.ok THEN Fail(q.err)
          ELSE Cont(Past(q.e), "bc.len") /\ AddItem(Item("ca", 0, 0, q.e.v)) /\ UNCHANGED <<r, aux>>
ConstraintsLength ==                        \* INTEGER OPTIONAL
  /\ pc = "bc.len"
  /\ IF PeekBad THEN Fail(<<"UnsupportedId", PeekId>>)
     ELSE IF AtEnd \/ PeekKind # "Integer"
     THEN Cont(stack, "bc.end") /\ UNCHANGED <<r, aux, cur>>
     ELSE LET q == Need("Integer") IN
          IF ~q.ok THEN Fail(q.err)
          ELSE IF q.e.v = <<>> THEN Fail(<<"IntegerTooLarge", q.e.n>>)
          ELSE Cont(Past(q.e), "bc.end") /\ AddItem(Item("len", 0, 0, q.e.v)) /\ UNCHANGED <<r, aux>>
ConstraintsEnd ==
  /\ pc = "bc.end"
  /\ LET q == NeedEnd IN
     IF ~q.ok THEN Fail(q.err)
     ELSE /\ stack' = SubSeq(stack, 1, Len(stack) - 2)
          /\ pc' = "ext.end"
          /\ UNCHANGED <<src, mode, job, r, aux, cur>>

NamesOpen == pc = "SubjectAlternativeName" /\ OpenOnly("san")
LeaveList == /\ stack' = SubSeq(stack, 1, Len(stack) - 2) /\ pc' = "ext.end"
             /\ UNCHANGED <<src, mode, job, r, aux, cur>>
AltName ==
  /\ pc = "san"
  /\ IF AtEnd THEN LeaveList
     ELSE LET q == Need("ExplicitTag") IN
          IF ~q.ok THEN Fail(q.err)
          ELSE LET t == q.e.v[1]
                   lo == q.e.lo
                   hi == q.e.hi
                   c == CASE t \in {1, 2, 6} -> StringContent(X, lo, hi)
                          [] t = 7 -> Good(<<>>, lo, hi - lo)
                          [] t = 8 -> OidContent(X, lo, hi)
                          [] OTHER -> Bad(<<"UnexpectedTag", t>>)
                   k == CASE t = 1 -> "mail" [] t = 2 -> "dns" [] t = 6 -> "uri"
                          [] t = 7 -> "ip" [] t = 8 -> "rid" [] OTHER -> ""
               IN IF ~c.ok THEN Fail(c.err)
                  ELSE /\ Cont(Past(q.e), "san")
                       /\ AddItem(Item(k, c.a, c.n, c.v))
                       /\ UNCHANGED <<r, aux>>

Purpose(arcs) ==
  IF Len(arcs) # 9 \/ SubSeq(arcs, 1, 8) # <<1, 3, 6, 1, 5, 5, 7, 3>> THEN ""
  ELSE CASE arcs[9] = 1 -> "ServerAuth" [] arcs[9] = 2 -> "ClientAuth"
         [] arcs[9] = 3 -> "CodeSigning" [] arcs[9] = 4 -> "EmailProtection"
         [] arcs[9] = 8 -> "TimeStamping" [] arcs[9] = 9 -> "OCSPSigning" [] OTHER -> ""
PurposesOpen == pc = "ExtendedKeyUsage" /\ OpenOnly("eku")
KeyPurpose ==
  /\ pc = "eku"
  /\ IF AtEnd THEN LeaveList
     ELSE LET q == Need("ObjectIdentifier") IN
          IF ~q.ok THEN Fail(q.err)
          ELSE IF Purpose(q.e.v) = "" THEN Fail(<<"UnexpectedOid", q.e.v>>)
          ELSE /\ Cont(Past(q.e), "eku")
               /\ AddItem(Item(Purpose(q.e.v), 0, 0, <<>>))
               /\ UNCHANGED <<r, aux>>

ExtEnd ==
  /\ pc = "ext.end"
  /\ LET q == NeedEnd
         rr == [r EXCEPT ![job].f = Append(r[job].f, cur)]
     IN IF ~q.ok THEN Fail(q.err)
        ELSE IF job = "ext" THEN Finish([rr EXCEPT !.ext.done = TRUE])
        ELSE Cont(Popped, "elist.next") /\ r' = rr /\ cur' = <<>> /\ UNCHANGED aux

ExtNext == ListOuter \/ ListNext \/ ExtOid \/ ExtCritical \/ ExtValue \/ SkiContent
           \/ RoleContent \/ KeyUsageContent \/ ConstraintsOpen \/ ConstraintsCa
           \/ ConstraintsLength \/ ConstraintsEnd \/ NamesOpen \/ AltName
           \/ PurposesOpen \/ KeyPurpose \/ ExtEnd

XNext == CertNext \/ NameNext \/ ExtNext

----------------------------------------------------------------------------
XTypeOK ==
  /\ job \in {"cert", "iname", "sname", "elist", "ext"}
  /\ \A i \in DOMAIN stack : 0 <= stack[i].pos /\ stack[i].pos <= stack[i].end
  /\ stack[1].end <= ILen(X)
  /\ \A i \in 2..Len(stack) : stack[i].end <= stack[i - 1].pos

(* Progress: every step either goes on to the next call or makes the       *)
(* measure smaller, so every history of calls ends (C01).                  *)
JobsLeft == CASE job = "cert" -> 3 [] job = "iname" -> 2 [] job = "sname" -> 1 [] OTHER -> 0
StepsLeft ==
  CASE pc \in {"iuid"} -> 3
    [] pc \in {"suid", "bc.ca"} -> 2
    [] pc \in {"version", "alg.par", "exts", "ext.critical", "bc.len"} -> 1
    [] pc = "done" -> -1
    [] OTHER -> 0
XMeasure == 8 * FoldLeft(LAMBDA acc, f : acc + (f.end - f.pos), 0, stack) + 4 * Len(stack) + StepsLeft
XProgress == [][JobsLeft' < JobsLeft \/ (JobsLeft' = JobsLeft /\ XMeasure' < XMeasure)]_xvars
=============================================================================
