-------------------------------- MODULE Made --------------------------------
(***************************************************************************)
(* A client that prints a value it has put together itself, or taken out   *)
(* of a certificate, inside blocks of its own (C33).                       *)
(*   held    the value, texts and octets in it being slices of the input   *)
(*   blocks  blocks the client has open                                    *)
(*   lines   what was printed last                                         *)
(*                                                                         *)
(* Values are                                                              *)
(*   name      the texts of an attribute set, f                            *)
(*   ext       an extension e = [oid, crit, kind, c], or if part = 1 its   *)
(*             content, or if part = 2 what is in that                     *)
(*   validity  two instants      alg  an algorithm       key  a public key *)
(*   bits      a bit string      octets                  raw  a name's     *)
(*   purpose   an identifier that may stand for a purpose                  *)
(***************************************************************************)
EXTENDS Printer

CONSTANT In(_)
VARIABLES src, held, blocks, lines
mvars == <<src, held, blocks, lines>>

(* names of kinds the decoder does not produce *)
OddNames == {"other", "x400", "dir", "edi"}
NameLinesOf(x, it, d) == IF it.k \in OddNames THEN Say(d, "Unsupported name type") ELSE AltNameLines(x, it, d)

All(x) == [a |-> 0, n |-> ILen(x)]
BitsOf(x, unused) == IF unused = 0 THEN All(x) ELSE [a |-> 0, n |-> 0]
InnerLines(x, e, d) ==
  IF e.kind = "SubjectAlternativeName"
  THEN Block(d, "names:", Join([i \in DOMAIN e.c |-> NameLinesOf(x, e.c[i], d + 1)]))
  ELSE ContentLines(x, e, d)
LinesOf(x, v, d) ==
  CASE v.k = "name" -> NameLines(x, v.f, d)
    [] v.k = "ext" ->
         (CASE v.part = 0 -> Block(d, ExtName[v.e.kind], Line(d + 1, B("extension id: ") \o OidText(v.e.oid))
                                                         \o Line(d + 1, B("critical: ") \o BoolText(v.e.crit))
                                                         \o InnerLines(x, v.e, d + 1))
            [] v.part = 2 /\ v.e.kind = "Unknown" -> SliceLines(x, v.e.c[1], d)
            [] OTHER -> InnerLines(x, v.e, d))
    [] v.k = "validity" -> Line(d, B("not before: ") \o SecondsText(v.nb)) \o Line(d, B("not after: ") \o SecondsText(v.na))
    [] v.k = "alg" -> AlgLines([oid |-> v.oid], d)
    [] v.k = "key" -> Block(d, "algorithm:", AlgLines([oid |-> v.oid], d + 1)) \o Block(d, "subject public key:", BitLines(x, BitsOf(x, v.u), d + 1))
    [] v.k = "bits" -> BitLines(x, BitsOf(x, v.u), d)
    [] v.k \in {"octets", "raw"} -> SliceLines(x, All(x), d)
    [] v.k = "purpose" -> <<>>

PurposeNumbers == [ServerAuth |-> 1, ClientAuth |-> 2, CodeSigning |-> 3, EmailProtection |-> 4, TimeStamping |-> 8, OCSPSigning |-> 9]
PurposeOf(oid) ==                   \* <<>> if there is none
  LET ps == {p \in DOMAIN PurposeNumbers : oid = <<1, 3, 6, 1, 5, 5, 7, 3, PurposeNumbers[p]>>} IN
  IF ps = {} THEN <<>> ELSE <<CHOOSE p \in ps : TRUE>>

MadeInit(s, v, d) == src = s /\ held = v /\ blocks = d /\ lines = <<>>
Show == lines' = LinesOf(In(src), held, blocks) /\ UNCHANGED <<src, held, blocks>>
Open == blocks' = blocks + 1 /\ UNCHANGED <<src, held, lines>>
Shut == blocks > 0 /\ blocks' = blocks - 1 /\ UNCHANGED <<src, held, lines>>

SumSeq(s) == FoldLeft(LAMBDA acc, n : acc + n, 0, s)

(***************************************************************************)
(* values as numbers: a client's instructions for putting them together    *)
(***************************************************************************)
Kinds == <<"name", "ext", "validity", "alg", "key", "bits", "octets", "raw", "purpose">>
ExtKinds == <<"SubjectKeyIdentifier", "KeyUsage", "SubjectAlternativeName", "BasicConstraints", "ExtendedKeyUsage", "ModbusRole", "Unknown">>
NameKinds == <<"other", "mail", "dns", "x400", "dir", "edi", "uri", "ip", "rid">>
Purposes == <<"ServerAuth", "ClientAuth", "CodeSigning", "EmailProtection", "TimeStamping", "OCSPSigning">>
Attributes == <<"C", "ST", "L", "O", "OU", "CN">>
NumberOf(s, k) == CHOOSE i \in DOMAIN s : s[i] = k
SliceAt(a, n) == [a |-> IF n = 0 THEN 0 ELSE a, n |-> n]
Counted(s) == <<Len(s)>> \o s
Item(k, s, v) == [k |-> k, a |-> s.a, n |-> s.n, v |-> v]

ContentNumbers(e) ==
  CASE e.kind = "KeyUsage" -> e.c[1].v
    [] e.kind = "BasicConstraints" -> e.c[1].v \o (IF Len(e.c) = 2 THEN e.c[2].v ELSE <<>>)
    [] e.kind = "ExtendedKeyUsage" -> [i \in DOMAIN e.c |-> NumberOf(Purposes, e.c[i].k)]
    [] e.kind = "SubjectAlternativeName" ->
         Join([i \in DOMAIN e.c |-> <<NumberOf(NameKinds, e.c[i].k)>> \o (IF e.c[i].k = "rid" THEN Counted(e.c[i].v) ELSE <<e.c[i].n>>)])
    [] OTHER -> <<>>
Numbers(v) ==
  <<NumberOf(Kinds, v.k)>> \o
  CASE v.k = "name" -> [i \in 1..6 |-> IF v.f[Attributes[i]] = <<>> THEN 0 ELSE v.f[Attributes[i]][1].n + 1]
    [] v.k = "ext" -> <<v.part, NumberOf(ExtKinds, v.e.kind), IF v.e.crit THEN 1 ELSE 0>> \o Counted(v.e.oid) \o ContentNumbers(v.e)
    [] v.k = "validity" -> v.nb \o v.na
    [] v.k \in {"alg", "purpose"} -> Counted(v.oid)
    [] v.k = "key" -> Counted(v.oid) \o <<v.u>>
    [] v.k = "bits" -> <<v.u>>
    [] OTHER -> <<>>

RECURSIVE NamesFrom(_, _)
NamesFrom(y, a) ==
  IF y = <<>> THEN <<>>
  ELSE LET k == NameKinds[y[1]] IN
       IF k = "rid" THEN <<Item(k, SliceAt(0, 0), SubSeq(y, 3, 2 + y[2]))>> \o NamesFrom(SubSeq(y, 3 + y[2], Len(y)), a)
       ELSE <<Item(k, SliceAt(a, y[2]), <<>>)>> \o NamesFrom(SubSeq(y, 3, Len(y)), a + y[2])
ContentOf(x, kind, y) ==
  LET none == SliceAt(0, 0) IN
  CASE kind = "KeyUsage" -> <<Item("flags", none, y)>>
    [] kind = "BasicConstraints" -> <<Item("ca", none, <<y[1]>>)>> \o (IF Len(y) = 2 THEN <<Item("len", none, <<y[2]>>)>> ELSE <<>>)
    [] kind = "ExtendedKeyUsage" -> [i \in DOMAIN y |-> Item(Purposes[y[i]], none, <<>>)]
    [] kind = "SubjectAlternativeName" -> NamesFrom(y, 0)
    [] kind = "SubjectKeyIdentifier" -> <<Item("ski", All(x), <<>>)>>
    [] kind = "ModbusRole" -> <<Item("role", All(x), <<>>)>>
    [] kind = "Unknown" -> <<Item("raw", All(x), <<>>)>>
ValueOf(x, y) ==
  LET k == Kinds[y[1]]
      start(i) == SumSeq([j \in 1..(i - 1) |-> IF y[j + 1] = 0 THEN 0 ELSE y[j + 1] - 1])
      text(i) == IF y[i + 1] = 0 THEN <<>> ELSE << SliceAt(start(i), y[i + 1] - 1) >>
  IN CASE k = "name" -> [k |-> k, f |-> [C |-> text(1), ST |-> text(2), L |-> text(3), O |-> text(4), OU |-> text(5), CN |-> text(6)]]
       [] k = "ext" -> LET kind == ExtKinds[y[3]] IN
                       [k |-> k, part |-> y[2], e |-> [oid |-> SubSeq(y, 6, 5 + y[5]), crit |-> y[4] = 1, kind |-> kind,
                                                       c |-> ContentOf(x, kind, SubSeq(y, 6 + y[5], Len(y)))]]
       [] k = "validity" -> [k |-> k, nb |-> <<y[2], y[3]>>, na |-> <<y[4], y[5]>>]
       [] k \in {"alg", "purpose"} -> [k |-> k, oid |-> SubSeq(y, 3, 2 + y[2])]
       [] k = "key" -> [k |-> k, oid |-> SubSeq(y, 3, 2 + y[2]), u |-> y[3 + y[2]]]
       [] k = "bits" -> [k |-> k, u |-> y[2]]
       [] OTHER -> [k |-> k]
=============================================================================
