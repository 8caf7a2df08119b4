------------------------------ MODULE X509Ref ------------------------------
(***************************************************************************)
(* What certificates, names and extensions are, without reading order or   *)
(* state: patterns over element trees.  The machine of X509Machine, which  *)
(* reads octets step by step, is checked against these patterns on trees   *)
(* built by the encoder.                                                   *)
(*                                                                         *)
(* Trees are placed: a placed node is                                      *)
(*   [t, id, kind, lo, hi, ok, v, a, n, kids]                              *)
(* with the range of its contents in the encoding, whether the contents    *)
(* are valid for the kind, the value, and (if it was built from parts) its *)
(* parts.                                                                  *)
(***************************************************************************)
EXTENDS X509Machine, Encoder

RECURSIVE Place(_, _, _)
PlaceAll(x, nodes, off) ==
  [i \in DOMAIN nodes |->
     Place(x, nodes[i], off + FoldLeft(LAMBDA acc, k : acc + Len(Enc(k)), 0, SubSeq(nodes, 1, i - 1)))]
Place(x, n, off) ==
  IF n.t = "x" THEN [t |-> "x", kind |-> "", ok |-> FALSE, lo |-> off, hi |-> off + Len(n.c)]
  ELSE LET len == IF n.t = "p" THEN Len(n.c) ELSE Len(Encs(n.kids))
           lo == off + 1 + Len(EncLen(len))
           c == IF IdKind(n.id) = "" THEN Bad(<<>>) ELSE Content(x, IdKind(n.id), lo, lo + len)
       IN [t |-> n.t, id |-> n.id, kind |-> IF IdKind(n.id) = "" THEN "" ELSE ReportedKind(IdKind(n.id)),
           lo |-> lo, hi |-> lo + len, ok |-> c.ok,
           v |-> IF c.ok THEN (IF IdKind(n.id) = "ExplicitTag" THEN <<n.id % 32>> ELSE c.v) ELSE <<>>,
           a |-> IF c.ok THEN c.a ELSE 0, n |-> IF c.ok THEN c.n ELSE 0,
           kids |-> IF n.t = "c" THEN PlaceAll(x, n.kids, lo) ELSE <<>>]
(* parts of a node that was not built from parts: cut its octets *)
RECURSIVE Cut(_, _, _)
Cut(x, lo, hi) ==
  IF lo = hi THEN <<>>
  ELSE LET e == Elem(x, lo, hi) IN
       IF ~e.ok THEN << [t |-> "x", kind |-> "", ok |-> FALSE, lo |-> lo, hi |-> hi] >>
       ELSE << [t |-> "p", id |-> At(x, lo), kind |-> e.k, lo |-> e.lo, hi |-> e.hi, ok |-> TRUE,
                v |-> e.v, a |-> e.a, n |-> e.n, kids |-> <<>>] >> \o Cut(x, e.next, hi)
Parts(x, p) == IF p.t = "c" THEN p.kids ELSE Cut(x, p.lo, p.hi)

Is(p, kind) == p.ok /\ p.kind = kind
IsTag(p, n) == p.ok /\ p.kind = "ExplicitTag" /\ p.v = <<n>>
PSlice(p) == Slice(p.lo, p.hi)
PVal(p) == [a |-> p.a, n |-> p.n, v |-> p.v]
From(s, i) == SubSeq(s, i, Len(s))

NoMatch == [ok |-> FALSE]
Match(f) == [ok |-> TRUE, f |-> f]

----------------------------------------------------------------------------
(* certificates: C14, C15, C16, C24, C07 *)
AlgRef(x, p) ==
  LET k == Parts(x, p) IN
  IF Is(p, "Sequence") /\ Len(k) \in {1, 2} /\ Is(k[1], "ObjectIdentifier") /\ (Len(k) = 2 => k[2].ok)
  THEN Match([oid |-> k[1].v,
              par |-> IF Len(k) = 1 THEN <<>>
                      ELSE << [k |-> k[2].kind, a |-> k[2].a, n |-> k[2].n, v |-> k[2].v] >>])
  ELSE NoMatch
VersionRef(x, p) ==
  LET k == Parts(x, p) IN
  IF Len(k) = 1 /\ Is(k[1], "Integer") /\ k[1].v \in {<<0>>, <<1>>, <<2>>}
  THEN Match(<<"V1", "V2", "V3">>[k[1].v[1] + 1]) ELSE NoMatch
ValidityRef(x, p) ==
  LET k == Parts(x, p) IN
  IF Is(p, "Sequence") /\ Len(k) = 2 /\ Is(k[1], "UTCTime") /\ Is(k[2], "UTCTime")
  THEN Match(<<k[1].v, k[2].v>>) ELSE NoMatch
SpkiRef(x, p) ==
  LET k == Parts(x, p) IN
  IF Is(p, "Sequence") /\ Len(k) = 2 /\ AlgRef(x, k[1]).ok /\ Is(k[2], "BitString")
  THEN Match([alg |-> AlgRef(x, k[1]).f, key |-> PVal(k[2])]) ELSE NoMatch
UniqueId(x, p) == BitContent(x, p.lo, p.hi)
(* the elements after the public key: tags out of 1, 2, 3, ascending *)
OptionsOk(x, o) ==
  /\ \A i \in DOMAIN o : \E n \in 1..3 : IsTag(o[i], n)
  /\ \A i \in 2..Len(o) : o[i - 1].v[1] < o[i].v[1]
  /\ \A i \in DOMAIN o : o[i].v[1] < 3 => UniqueId(x, o[i]).ok
Option(o, n) == SelectSeq(o, LAMBDA p : p.v = <<n>>)
UidRef(x, o, n) ==
  LET s == Option(o, n) IN
  IF s = <<>> THEN <<>>
  ELSE LET b == UniqueId(x, s[1]) IN << [a |-> b.a, n |-> b.n, v |-> b.v] >>
TbsRef(x, p) ==
  LET k == Parts(x, p)
      v == IF k # <<>> /\ IsTag(k[1], 0) THEN 1 ELSE 0
      m == From(k, v + 1)
      o == From(m, 7)
  IN IF /\ Is(p, "Sequence") /\ Len(m) >= 6
        /\ v = 1 => VersionRef(x, k[1]).ok
        /\ Is(m[1], "Integer") /\ AlgRef(x, m[2]).ok /\ Is(m[3], "Sequence")
        /\ ValidityRef(x, m[4]).ok /\ Is(m[5], "Sequence") /\ SpkiRef(x, m[6]).ok
        /\ OptionsOk(x, o)
     THEN Match([ver |-> IF v = 1 THEN VersionRef(x, k[1]).f ELSE "V1",
                 serial |-> PVal(m[1]), sigalg |-> AlgRef(x, m[2]).f, issuer |-> PSlice(m[3]),
                 nb |-> ValidityRef(x, m[4]).f[1], na |-> ValidityRef(x, m[4]).f[2],
                 subject |-> PSlice(m[5]), spkalg |-> SpkiRef(x, m[6]).f.alg, spkkey |-> SpkiRef(x, m[6]).f.key,
                 iuid |-> UidRef(x, o, 1), suid |-> UidRef(x, o, 2),
                 exts |-> IF Option(o, 3) = <<>> THEN <<>> ELSE <<PSlice(Option(o, 3)[1])>>,
                 issuerNode |-> m[3], subjectNode |-> m[5], extsNode |-> Option(o, 3)])
     ELSE NoMatch
CertRef(x, roots) ==
  IF Len(roots) # 1 \/ ~Is(roots[1], "Sequence") THEN NoMatch
  ELSE LET k == Parts(x, roots[1]) IN
       IF Len(k) = 3 /\ TbsRef(x, k[1]).ok /\ AlgRef(x, k[2]).ok /\ Is(k[3], "BitString")
       THEN Match([tbs |-> PSlice(k[1]), in |-> TbsRef(x, k[1]).f, alg |-> AlgRef(x, k[2]).f, sig |-> PVal(k[3])])
       ELSE NoMatch

----------------------------------------------------------------------------
(* names: C17 *)
NameArcs == [C |-> 6, ST |-> 8, L |-> 7, O |-> 10, OU |-> 11, CN |-> 3]
AttrArcs(c) == <<2, 5, 4, NameArcs[c]>>
NameRef(x, sets) ==
  IF \E i \in DOMAIN sets : ~Is(sets[i], "Set") \/ Parts(x, sets[i]) = <<>> THEN NoMatch
  ELSE LET attrs == Join([i \in DOMAIN sets |-> Parts(x, sets[i])])
           pair(a) == Parts(x, a)
           fits(a) == /\ Is(a, "Sequence") /\ Len(pair(a)) = 2
                      /\ Is(pair(a)[1], "ObjectIdentifier") /\ pair(a)[2].ok
           of(c) == SelectSeq(attrs, LAMBDA a : pair(a)[1].v = AttrArcs(c))
       IN IF \E i \in DOMAIN attrs : ~fits(attrs[i]) THEN NoMatch
          ELSE IF \E c \in DOMAIN NameArcs :
                    Len(of(c)) > 1 \/ \E i \in DOMAIN of(c) : pair(of(c)[i])[2].kind \notin Strings
          THEN NoMatch
          ELSE Match([c \in DOMAIN NameArcs |->
                        IF of(c) = <<>> THEN <<>> ELSE <<PSlice(pair(of(c)[1])[2])>>])

----------------------------------------------------------------------------
(* extensions: C18 .. C23 *)
ExtArcs == [SubjectKeyIdentifier |-> <<2, 5, 29, 14>>, KeyUsage |-> <<2, 5, 29, 15>>,
            SubjectAlternativeName |-> <<2, 5, 29, 17>>, BasicConstraints |-> <<2, 5, 29, 19>>,
            ExtendedKeyUsage |-> <<2, 5, 29, 37>>, ModbusRole |-> <<1, 3, 6, 1, 4, 1, 50316, 802, 1>>]
PurposeNo == [ServerAuth |-> 1, ClientAuth |-> 2, CodeSigning |-> 3, EmailProtection |-> 4,
              TimeStamping |-> 8, OCSPSigning |-> 9]
PurposeArcs(p) == <<1, 3, 6, 1, 5, 5, 7, 3, PurposeNo[p]>>
AltKind == [mail |-> 1, dns |-> 2, uri |-> 6, ip |-> 7, rid |-> 8]

(* the n-th bit of the octets of a bit string *)
EncodedBit(x, p, i) ==
  LET u == At(x, p.lo)
      size == 8 * (p.hi - p.lo - 1) - u
  IN IF i >= size THEN 0 ELSE (At(x, p.lo + 1 + (i \div 8)) \div (2 ^ (7 - (i % 8)))) % 2

AltRef(x, p) ==
  IF ~(p.ok /\ p.kind = "ExplicitTag") \/ \A k \in DOMAIN AltKind : AltKind[k] # p.v[1] THEN NoMatch
  ELSE LET k == CHOOSE k \in DOMAIN AltKind : AltKind[k] = p.v[1]
           c == CASE k \in {"mail", "dns", "uri"} -> StringContent(x, p.lo, p.hi)
                  [] k = "ip" -> Good(<<>>, p.lo, p.hi - p.lo)
                  [] k = "rid" -> OidContent(x, p.lo, p.hi)
       IN IF c.ok THEN Match(Item(k, c.a, c.n, c.v)) ELSE NoMatch
ContentRef(x, kind, os) ==
  LET ps == Parts(x, os)
      one(k) == Len(ps) = 1 /\ Is(ps[1], k)
      k == IF one("Sequence") THEN Parts(x, ps[1]) ELSE <<>>
  IN CASE kind = "Unknown" -> Match(<<Item("raw", os.lo, os.hi - os.lo, <<>>)>>)
       [] kind = "SubjectKeyIdentifier" ->
            IF one("OctetString") THEN Match(<<Item("ski", ps[1].lo, ps[1].hi - ps[1].lo, <<>>)>>) ELSE NoMatch
       [] kind = "ModbusRole" ->
            IF one("UTF8String") THEN Match(<<Item("role", ps[1].lo, ps[1].hi - ps[1].lo, <<>>)>>) ELSE NoMatch
       [] kind = "KeyUsage" ->
            IF one("BitString") THEN Match(<<Item("flags", 0, 0, [i \in 1..9 |-> EncodedBit(x, ps[1], i - 1)])>>) ELSE NoMatch
       [] kind = "BasicConstraints" ->
            IF one("Sequence") /\ [i \in DOMAIN k |-> IF k[i].ok THEN k[i].kind ELSE "?"]
                 \in {<<>>, <<"Boolean">>, <<"Integer">>, <<"Boolean", "Integer">>}
            THEN LET b == SelectSeq(k, LAMBDA p : p.kind = "Boolean")
                     n == SelectSeq(k, LAMBDA p : p.kind = "Integer")
                 IN IF n # <<>> /\ n[1].hi - n[1].lo > 4 THEN NoMatch
                    ELSE Match(<<Item("ca", 0, 0, IF b = <<>> THEN <<0>> ELSE b[1].v)>>
                               \o (IF n = <<>> THEN <<>> ELSE <<Item("len", 0, 0, n[1].v)>>))
            ELSE NoMatch
       [] kind = "SubjectAlternativeName" ->
            IF one("Sequence") /\ \A i \in DOMAIN k : AltRef(x, k[i]).ok
            THEN Match([i \in DOMAIN k |-> AltRef(x, k[i]).f]) ELSE NoMatch
       [] kind = "ExtendedKeyUsage" ->
            IF one("Sequence") /\ \A i \in DOMAIN k : /\ Is(k[i], "ObjectIdentifier")
                                                      /\ \E p \in DOMAIN PurposeNo : k[i].v = PurposeArcs(p)
            THEN Match([i \in DOMAIN k |-> Item(CHOOSE p \in DOMAIN PurposeNo : k[i].v = PurposeArcs(p), 0, 0, <<>>)])
            ELSE NoMatch
ExtRef(x, k) ==
  LET n == Len(k) IN
  IF n \notin {2, 3} \/ ~Is(k[1], "ObjectIdentifier") \/ ~Is(k[n], "OctetString") \/ (n = 3 /\ ~Is(k[2], "Boolean"))
  THEN NoMatch
  ELSE LET oid == k[1].v
           kind == IF \E q \in DOMAIN ExtArcs : ExtArcs[q] = oid
                   THEN CHOOSE q \in DOMAIN ExtArcs : ExtArcs[q] = oid ELSE "Unknown"
           c == ContentRef(x, kind, k[n])
       IN IF c.ok THEN Match([oid |-> oid, crit |-> n = 3 /\ k[2].v = <<1>>, kind |-> kind, c |-> c.f]) ELSE NoMatch
ListRef(x, tagged) ==
  LET o == Parts(x, tagged) IN
  IF Len(o) # 1 \/ ~Is(o[1], "Sequence") THEN NoMatch
  ELSE LET k == Parts(x, o[1])
           e(i) == ExtRef(x, Parts(x, k[i]))
       IN IF \A i \in DOMAIN k : Is(k[i], "Sequence") /\ e(i).ok
          THEN Match([i \in DOMAIN k |-> e(i).f]) ELSE NoMatch

----------------------------------------------------------------------------
(* agreement of the finished machine with the patterns *)
Call1(res, ref, empty) == /\ res.done
                          /\ (res.err = <<>>) = ref.ok
                          /\ res.f = (IF ref.ok THEN ref.f ELSE empty)
CertAgrees(x, roots) ==
  LET c == CertRef(x, roots) IN
  /\ r.cert.done /\ (r.cert.err = <<>>) = c.ok
  /\ c.ok =>
       /\ \A f \in {"tbs", "alg", "sig"} : r.f[f] = c.f[f]
       /\ \A f \in {"ver", "serial", "sigalg", "issuer", "nb", "na", "subject", "spkalg", "spkkey", "iuid", "suid", "exts"} :
            r.f[f] = c.f.in[f]
       /\ Call1(r.iname, NameRef(x, Parts(x, c.f.in.issuerNode)), EmptyName)
       /\ Call1(r.sname, NameRef(x, Parts(x, c.f.in.subjectNode)), EmptyName)
       /\ c.f.in.extsNode # <<>> => Call1(r.elist, ListRef(x, c.f.in.extsNode[1]), <<>>)
       /\ c.f.in.extsNode = <<>> => r.elist = NoList
NameAgrees(x, roots) == Call1(r.iname, NameRef(x, roots), EmptyName)
ExtAgrees(x, roots) ==
  LET e == ExtRef(x, roots)
  IN Call1(r.ext, IF e.ok THEN Match(<<e.f>>) ELSE e, <<>>)
=============================================================================
