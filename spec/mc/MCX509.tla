------------------------------- MODULE MCX509 -------------------------------
(***************************************************************************)
(* Bounded exhaustive models of certificate, name and extension decoding.  *)
(* Each Init enumerates trees, encodes and prints them for replay, and     *)
(* runs the machine; the invariant Agrees compares the finished machine    *)
(* with the patterns of X509Ref.                                           *)
(***************************************************************************)
EXTENDS X509Ref, FiniteSets, Json

CONSTANT Big        \* tier: TRUE explores the larger families

MCIn(s) == s.x
(* w: the trees the input was made of, <<>> if none *)
EmitX(m, x) == PrintT("CASE " \o ToJson(<<m, x.pre, x.fb, x.fn, x.post>>))
RunOn(m, x, roots, w) == XInit([x |-> x, roots |-> roots, w |-> w], m) /\ EmitX(m, x)
RunTrees(m, f) == RunOn(m, Plain(Encs(f)), f, "trees")
RunBytes(m, c, w) == RunOn(m, Plain(c), <<>>, w)

Next == XNext
Ended == pc = "done"
NextOrRest == Next \/ (Ended /\ UNCHANGED xvars)     \* only what has ended may stand still

----------------------------------------------------------------------------
(* Properties                                                              *)
Placed == PlaceAll(X, src.roots, 0)
Agrees ==
  Ended /\ src.w = "trees" =>
    CASE mode = "cert" -> CertAgrees(X, Placed)
      [] mode = "name" -> NameAgrees(X, Placed)
      [] mode = "ext" -> ExtAgrees(X, Placed)
(* C06 / C07: fragments and surplus are rejected *)
Refused ==
  Ended /\ src.w = "refused" =>
    CASE mode = "cert" -> r.cert.err # <<>>
      [] mode = "name" -> r.iname.err # <<>>
      [] mode = "ext" -> r.ext.err # <<>>
(* C16: adding the header again reproduces the signed octets; the fields   *)
(* lie inside                                                              *)
Inside(sl, tbs) == sl.n = 0 \/ (sl.a >= tbs.a /\ sl.a + sl.n <= tbs.a + tbs.n)
SignedRegion ==
  Ended /\ mode = "cert" /\ r.cert.err = <<>> =>
    LET t == r.f.tbs
        h == 1 + Len(EncLen(t.n))
    IN /\ Sub(X, t.a - h, t.a + t.n) = TLV(48, Sub(X, t.a, t.a + t.n))
       /\ \A f \in {"issuer", "subject"} : Inside(r.f[f], t)
       /\ Inside([a |-> r.f.serial.a, n |-> r.f.serial.n], t)
       /\ \A i \in DOMAIN r.f.exts : Inside(r.f.exts[i], t)
       /\ ~Inside([a |-> r.f.sig.a, n |-> r.f.sig.n], t) \/ r.f.sig.n = 0
(* C18/C21/C22: nothing dropped, nothing invented *)
ItemsInOrder ==
  Ended => \A j \in {"elist", "ext"} : \A i \in DOMAIN r[j].f :
     LET c == r[j].f[i].c IN \A p, q \in DOMAIN c : p < q /\ c[p].n > 0 /\ c[q].n > 0 => c[p].a < c[q].a

----------------------------------------------------------------------------
(* Building blocks                                                         *)
Rsa == <<1, 2, 840, 113549, 1, 1, 5>>
Ed == <<1, 3, 101, 112>>
Alg(oid, par) == SeqEl(<<OidEl(oid)>> \o par)
Attr(arcs, val) == SeqEl(<<OidEl(arcs), val>>)
At4(n) == <<2, 5, 4, n>>
Rdn(attrs) == SetEl(attrs)
TimeU(y, m, d) == Prim(23, UtcOctets(y, m, d, 12, 0, 0), "UTCTime", <<DaysSinceEpoch(y, m, d), 43200>>)
TimeG(y, m, d) == Prim(24, GenOctets(y, m, d, 0, 0, 1), "UTCTime", <<DaysSinceEpoch(y, m, d), 1>>)
Ext(arcs, crit, kids) == SeqEl(<<OidEl(arcs)>> \o crit \o <<Con(4, kids)>>)
Yes == <<BoolEl(TRUE)>>
No == <<BoolEl(FALSE)>>
Ski(c) == Ext(ExtArcs.SubjectKeyIdentifier, <<>>, <<OctetsEl(c)>>)
Ku(bits) == Ext(ExtArcs.KeyUsage, Yes, <<BitsEl(bits)>>)
Bc(kids) == Ext(ExtArcs.BasicConstraints, Yes, <<SeqEl(kids)>>)
San(kids) == Ext(ExtArcs.SubjectAlternativeName, <<>>, <<SeqEl(kids)>>)
Eku(kids) == Ext(ExtArcs.ExtendedKeyUsage, No, <<SeqEl(kids)>>)
Role(c) == Ext(ExtArcs.ModbusRole, <<>>, <<Utf8El(c)>>)
Unk(arcs, c) == SeqEl(<<OidEl(arcs), OctetsEl(c)>>)
Mail(c) == ImplicitEl(1, c)
Dns(c) == ImplicitEl(2, c)
Uri(c) == ImplicitEl(6, c)
Ip(c) == ImplicitEl(7, c)
Rid(arcs) == ImplicitEl(8, OidOctets(arcs))

AllExts == << Ski(<<1, 2, 3>>), Ku(<<1, 0, 0, 0, 0, 1, 0, 0, 1>>), San(<<Mail(B("a@b")), Dns(B("b.c")), Uri(B("u:")), Ip(<<10, 0, 0, 1>>), Rid(<<1, 3, 6>>)>>),
              Bc(<<BoolEl(TRUE), IntEl(3)>>), Eku(<<OidEl(PurposeArcs("ServerAuth")), OidEl(PurposeArcs("OCSPSigning"))>>),
              Role(B("admin")), Unk(<<2, 5, 29, 16>>, <<48, 1>>) >>
SomeName == SeqEl(<<Rdn(<<Attr(At4(6), PrintableEl(B("US")))>>), Rdn(<<Attr(At4(3), Utf8El(B("x"))), Attr(<<1, 2, 3>>, NullEl)>>)>>)
OtherName == SeqEl(<<Rdn(<<Attr(At4(10), Ia5El(B("org")))>>)>>)
Uid(n, bits) == LET c == BitOctets(bits) IN ImplicitEl(n, c)

(* a certificate from its parts: lists, empty where absent *)
CertTree(p) ==
  SeqEl(<<SeqEl(p.ver \o p.serial \o p.sigalg \o p.issuer \o p.validity \o p.subject \o p.spki \o p.opts)>>
        \o p.alg \o p.sig)
Version(i) == <<TagEl(0, <<IntEl(i)>>)>>
Exts(list) == <<TagEl(3, <<SeqEl(list)>>)>>
Plainest == [ver |-> <<>>, serial |-> <<IntEl(7)>>, sigalg |-> <<Alg(Ed, <<>>)>>, issuer |-> <<SeqEl(<<>>)>>,
             validity |-> <<SeqEl(<<TimeU(2020, 1, 1), TimeU(2030, 12, 31)>>)>>, subject |-> <<OtherName>>,
             spki |-> <<SeqEl(<<Alg(Ed, <<>>), BitsEl(<<1, 0, 1, 1, 0, 0, 1, 0>>)>>)>>, opts |-> <<>>,
             alg |-> <<Alg(Ed, <<>>)>>, sig |-> <<BitsEl(<<0, 1, 1, 0, 1, 0, 0, 1>>)>>]
Medium == [Plainest EXCEPT !.ver = Version(2), !.serial = <<BigIntEl(<<0, 200, 1, 2, 3, 4>>)>>, !.issuer = <<SomeName>>,
             !.sigalg = <<Alg(Rsa, <<NullEl>>)>>, !.alg = <<Alg(Rsa, <<NullEl>>)>>,
             !.validity = <<SeqEl(<<TimeU(2049, 12, 31), TimeG(2050, 1, 1)>>)>>,
             !.opts = Exts(<<Unk(<<2, 5, 29, 35>>, <<1, 2>>), Bc(<<>>)>>)]
Fullest == [Medium EXCEPT !.opts = <<Uid(1, <<1, 0, 1>>), Uid(2, <<1, 1, 1, 1, 0, 0, 0, 0>>)>> \o Exts(AllExts)]
Bases == <<CertTree(Plainest), CertTree(Medium), CertTree(Fullest)>>

----------------------------------------------------------------------------
(* Structural changes of a tree at one place                               *)
RetagIds == {1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 48, 49, 128, 129, 130, 131, 134, 136, 160, 161, 162, 163, 167, 31, 112, 191}
Junk == {NullEl, IntEl(1), BoolEl(TRUE), OctetsEl(<<>>), SeqEl(<<>>), Raw(<<10, 1, 0>>, <<>>), Raw(<<1, 1, 1>>, <<>>)}
Frags == {Raw(<<4, 5, 1>>, <<>>), Raw(<<48>>, <<>>), Raw(<<6, 3, 85>>, <<>>), Raw(<<5, 129>>, <<>>), Raw(<<48, 128>>, <<>>), Raw(<<130, 4, 97>>, <<>>)}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
LastIdx(p) == p[Len(p)]
WithKids(t, p, f(_)) == PutAt(t, p, LET n == NodeAt(t, p) IN [n EXCEPT !.kids = f(n.kids)])
(* all trees one change away from t at path p *)
Ops == {"delete", "dup", "swap", "swap2", "retag", "before", "after", "frag", "cut", "grow", "empty", "shift"}
ChangedBy(t, p, op) ==
  LET n == NodeAt(t, p)
      up == Parent(p)
      i == LastIdx(p)
      sib == NodeAt(t, up).kids
      put(m) == PutAt(t, p, m)
      kids(k) == PutAt(t, up, [NodeAt(t, up) EXCEPT !.kids = k])
  IN CASE op = "delete" -> IF p = <<>> THEN {} ELSE {kids(RemoveAtIdx(sib, i))}
       [] op = "dup" -> IF p = <<>> THEN {} ELSE {kids(InsertAtIdx(sib, i, n))}
       [] op = "swap" -> IF p = <<>> \/ i = Len(sib) THEN {} ELSE {kids([sib EXCEPT ![i] = sib[i + 1], ![i + 1] = sib[i]])}
       [] op = "swap2" -> IF p = <<>> \/ i + 1 >= Len(sib) THEN {} ELSE {kids([sib EXCEPT ![i] = sib[i + 2], ![i + 2] = sib[i]])}
       [] op = "shift" -> IF p = <<>> \/ i = 1 THEN {} ELSE {kids(<<sib[i]>> \o RemoveAtIdx(sib, i))}
       [] op = "retag" -> {put([n EXCEPT !.id = d]) : d \in RetagIds \ {n.id}}
       [] op = "before" -> IF p = <<>> THEN {} ELSE {kids(InsertAtIdx(sib, i, j)) : j \in Junk}
       [] op = "after" -> IF n.t # "c" THEN {} ELSE {put([n EXCEPT !.kids = Append(@, j)]) : j \in Junk}
       [] op = "frag" -> IF n.t # "c" THEN {} ELSE {put([n EXCEPT !.kids = Append(@, j)]) : j \in Frags}
       [] op = "cut" -> IF n.t # "p" \/ n.c = <<>> THEN {}
                        ELSE {put([n EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)])}
       [] op = "grow" -> IF n.t # "p" THEN {} ELSE {put([n EXCEPT !.c = Append(@, b)]) : b \in {0, 5, 129}}
       [] op = "empty" -> IF n.t = "p" THEN {put([n EXCEPT !.c = <<>>])} ELSE {put([n EXCEPT !.kids = <<>>])}

InitCertOps == \E b \in DOMAIN Bases : \E p \in Paths(Bases[b]) : \E op \in Ops :
                 \E t \in ChangedBy(Bases[b], p, op) : RunTrees("cert", <<t>>)
(* a fragment at the end of a container, all lengths around it consistent, *)
(* and surplus after every structure: C06, C07                             *)
InitCertSurplus ==
  \/ \E b \in DOMAIN Bases : \E p \in Paths(Bases[b]) : \E op \in {"after", "frag"} :
        \E t \in ChangedBy(Bases[b], p, op) : RunTrees("cert", <<t>>)
  \/ \E b \in DOMAIN Bases : \E j \in Junk \cup Frags : RunTrees("cert", <<Bases[b], j>>)
  \/ \E b \in DOMAIN Bases : RunTrees("cert", <<Bases[b], Bases[b]>>)
(* every prefix, and every certificate followed by an octet *)
InitCertPrefixes ==
  \/ \E b \in DOMAIN Bases : LET e == Enc(Bases[b]) IN \E n \in 0..(Len(e) - 1) : RunBytes("cert", SubSeq(e, 1, n), "refused")
  \/ \E b \in DOMAIN Bases : LET e == Enc(Bases[b]) IN \E c \in Byte : RunBytes("cert", Append(e, c), "refused")
(* C06: the contents of one container cut at every octet *)
RECURSIVE CutAt(_, _, _)
CutAt(t, p, n) == PutAt(t, p, LET c == NodeAt(t, p) IN Prim(c.id, SubSeq(Encs(c.kids), 1, n), "", <<>>))
InitCertCuts ==
  \E b \in (IF Big THEN DOMAIN Bases ELSE {2, 3}) : \E p \in Paths(Bases[b]) :
    /\ NodeAt(Bases[b], p).t = "c" /\ Len(p) >= (IF Big THEN 0 ELSE 3)
    /\ LET e == Encs(NodeAt(Bases[b], p).kids) IN \E n \in 0..(Len(e) - 1) : RunTrees("cert", <<CutAt(Bases[b], p, n)>>)

----------------------------------------------------------------------------
(* Fields: one or two parts of a certificate at a time                     *)
IntContents == {<<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<255>>, <<127>>, <<128>>, <<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<1, 2>>, <<0, 128>>, <<2, 0>>,
                <<0, 0, 1>>, <<1, 0, 2>>, <<0, 0, 0, 1>>, <<0, 0, 0, 2>>, <<1, 0, 0, 0>>, <<0, 0, 0, 0, 1>>, <<1, 0, 0, 0, 0>>, <<255, 255, 255, 255>>,
                <<128, 0, 0, 0>>, <<127, 255, 255, 255>>, <<0, 255, 255, 255, 255>>,
                [i \in 1..20 |-> 200 + i], [i \in 1..21 |-> i - 1], [i \in 1..130 |-> 17]}
Parameters == {<<>>, <<NullEl>>, <<SeqEl(<<>>)>>, <<OidEl(<<1, 2, 840, 10045, 3, 1, 7>>)>>, <<OctetsEl(<<1>>)>>, <<IntEl(-5)>>, <<BoolEl(TRUE)>>,
               <<SetEl(<<NullEl>>)>>, <<TagEl(0, <<>>)>>, <<Utf8El(B("p"))>>, <<BitsEl(<<1, 1, 0>>)>>, <<TimeG(2000, 1, 1)>>, <<ImplicitEl(5, <<9>>)>>,
               <<SeqEl(<<Raw(<<255, 255>>, <<>>)>>)>>, <<NullEl, NullEl>>, <<Raw(<<1, 1, 9>>, <<>>)>>}
BitStrings == {BitsEl(<<>>), BitsEl(<<1>>), BitsEl(<<0, 1, 1, 1, 1, 1, 1, 1>>), BitsEl([i \in 1..17 |-> i % 2]), BitsEl([i \in 1..2064 |-> (i \div 3) % 2]),
               Prim(3, <<8, 1>>, "", <<>>), Prim(3, <<3>>, "", <<>>), Prim(3, <<>>, "", <<>>), Prim(3, <<4, 255>>, "", <<>>), OctetsEl(<<0, 1>>)}
Oids == {Rsa, Ed, <<2, 5, 4, 3>>, <<1, 2>>, <<2, 999, 3>>, <<1, 2, 840, 113549, 1, 1, 11>>, <<0, 39>>, <<2, 16383, 268435455>>}
Validities == {<<TimeU(1970, 1, 1), TimeU(2049, 12, 31)>>, <<TimeG(1970, 1, 1), TimeG(9999, 12, 31)>>, <<TimeU(2030, 1, 1), TimeU(2020, 1, 1)>>,
               <<TimeG(2020, 2, 29), TimeU(2020, 2, 29)>>, <<TimeU(2020, 1, 1)>>, <<>>, <<TimeU(2020, 1, 1), TimeU(2021, 1, 1), TimeU(2022, 1, 1)>>,
               <<TimeU(2020, 1, 1), IntEl(5)>>, <<PrintableEl(UtcOctets(2020, 1, 1, 0, 0, 0)), TimeU(2021, 1, 1)>>,
               <<TimeU(2020, 1, 1), Prim(23, B("200230000000Z"), "", <<>>)>>, <<TimeU(2020, 1, 1), NullEl>>}
OptTags == {TagEl(0, <<>>), Uid(1, <<1, 0, 1>>), Uid(2, <<1>>), Con(161, <<Raw(<<0, 7>>, <<>>)>>), Con(162, <<BitsEl(<<1>>)>>), TagEl(3, <<SeqEl(<<>>)>>),
            Con(131, <<SeqEl(<<Ski(<<9>>)>>)>>), TagEl(4, <<>>), NullEl, ImplicitEl(1, <<>>), ImplicitEl(2, <<9, 1>>), Raw(<<191, 31, 0>>, <<>>), Raw(<<67, 0>>, <<>>)}
FieldChoices ==
  { [Medium EXCEPT !.ver = <<TagEl(0, <<BigIntEl(c)>>)>>] : c \in IntContents }
  \cup { [Plainest EXCEPT !.ver = v] : v \in {<<IntEl(2)>>, <<ImplicitEl(0, <<2, 1, 2>>)>>, <<ImplicitEl(0, <<2>>)>>, <<TagEl(0, <<>>)>>, <<TagEl(0, <<NullEl>>)>>,
           <<TagEl(0, <<IntEl(1), IntEl(1)>>)>>, <<TagEl(1, <<IntEl(1)>>)>>, <<TagEl(0, <<IntEl(0)>>)>>, <<TagEl(0, <<SeqEl(<<IntEl(1)>>)>>)>>, Version(1) \o Version(1)} }
  \cup { [b EXCEPT !.serial = <<BigIntEl(c)>>] : c \in IntContents, b \in {Plainest, Medium} }
  \cup { [Medium EXCEPT !.sigalg = <<Alg(o, <<NullEl>>)>>] : o \in Oids }
  \cup { [Medium EXCEPT !.alg = <<Alg(o, <<>>)>>] : o \in Oids }
  \cup { [Medium EXCEPT !.spki = <<SeqEl(<<Alg(o, <<>>), BitsEl(<<1>>)>>)>>] : o \in Oids }
  \cup { [Plainest EXCEPT !.sigalg = <<Alg(Ed, p)>>] : p \in Parameters }
  \cup { [Plainest EXCEPT !.alg = <<Alg(Ed, p)>>] : p \in Parameters }
  \cup { [Plainest EXCEPT !.spki = <<SeqEl(<<Alg(Ed, p), BitsEl(<<1>>)>>)>>] : p \in Parameters }
  \cup { [Medium EXCEPT !.sig = <<b>>] : b \in BitStrings }
  \cup { [Medium EXCEPT !.spki = <<SeqEl(<<Alg(Rsa, <<NullEl>>), b>>)>>] : b \in BitStrings }
  \cup { [b EXCEPT !.validity = <<SeqEl(v)>>] : v \in Validities, b \in {Plainest, Medium} }
  \cup { [Plainest EXCEPT !.opts = <<ImplicitEl(n, b.c)>>] : n \in {1, 2}, b \in BitStrings }
  \cup { [Plainest EXCEPT !.issuer = <<a>>, !.subject = <<b>>] :
           a \in {SeqEl(<<>>), SomeName, OtherName, NullEl, SetEl(<<>>), SeqEl(<<NullEl>>), SeqEl(<<Rdn(<<>>)>>)},
           b \in {SeqEl(<<>>), SomeName, OtherName, OctetsEl(<<>>), SeqEl(<<Raw(<<255>>, <<>>)>>), SeqEl(<<Rdn(<<Attr(At4(3), IntEl(1))>>)>>)} }
InitCertFields == \E c \in FieldChoices : RunTrees("cert", <<CertTree(c)>>)
(* presence of everything optional *)
InitCertOptional ==
  \/ \E v \in {<<>>, Version(0), Version(1), Version(2)}, a \in {<<>>, <<Uid(1, <<>>)>>, <<Uid(1, <<1, 1, 0>>)>>}, b \in {<<>>, <<Uid(2, <<0>>)>>, <<Uid(2, [i \in 1..16 |-> 1])>>},
       e \in {<<>>, Exts(<<>>), Exts(<<Bc(<<>>)>>), Exts(<<Unk(<<1, 2>>, <<>>), Unk(<<1, 2>>, <<>>)>>)} :
       RunTrees("cert", <<CertTree([Plainest EXCEPT !.ver = v, !.opts = a \o b \o e])>>)
  \/ \E n \in 0..(IF Big THEN 4 ELSE 3) : \E s \in [1..n -> OptTags] : RunTrees("cert", <<CertTree([Plainest EXCEPT !.opts = [i \in 1..n |-> s[i]]])>>)
(* fields exchanged: every field in every position *)
FieldPool == <<Version(1)[1], IntEl(7), Alg(Ed, <<>>), SomeName, SeqEl(<<TimeU(2020, 1, 1), TimeU(2030, 1, 1)>>), OtherName,
               SeqEl(<<Alg(Ed, <<>>), BitsEl(<<1>>)>>), Exts(<<>>)[1], BitsEl(<<1>>), NullEl>>
GoodTbs == <<1, 2, 3, 4, 5, 6, 7, 8>>
InitCertPositions ==
  \/ \E i \in 1..8, k \in DOMAIN FieldPool, j \in 1..8, l \in DOMAIN FieldPool :
       i < j /\ RunTrees("cert", <<SeqEl(<<SeqEl([q \in 1..8 |-> FieldPool[(IF q = i THEN k ELSE IF q = j THEN l ELSE GoodTbs[q])]]), Alg(Ed, <<>>), BitsEl(<<1>>)>>)>>)
  \/ \E d \in SUBSET (1..8) :
       RunTrees("cert", <<SeqEl(<<SeqEl(SelectSeq([q \in 1..8 |-> FieldPool[q]], LAMBDA e : \A q \in d : FieldPool[q] # e)), Alg(Ed, <<>>), BitsEl(<<1>>)>>)>>)
  \/ \E a, b, c \in DOMAIN FieldPool : \E tb \in {SeqEl([q \in 1..8 |-> FieldPool[q]])} :
       RunTrees("cert", <<SeqEl([i \in 1..3 |-> LET k == <<a, b, c>>[i] IN IF k = 4 THEN tb ELSE FieldPool[k]])>>)
  \/ \E n \in 0..2 : RunTrees("cert", <<SeqEl(SubSeq(<<SeqEl([q \in 1..8 |-> FieldPool[q]]), Alg(Ed, <<>>), BitsEl(<<1>>)>>, 1, n))>>)

(* a further field anywhere in certificates that differ in version and     *)
(* serial number                                                           *)
InitCertInserted ==
  \E v \in {<<>>, Version(0), Version(2)} \cup (IF Big THEN {Version(1), Version(3)} ELSE {}), n \in {0, 1, 2, 3} \cup (IF Big THEN {-1, 127, 128} ELSE {}) :
    LET f == v \o <<IntEl(n), Alg(Ed, <<>>), SomeName, SeqEl(<<TimeU(2020, 1, 1), TimeU(2030, 12, 31)>>), SomeName,
                    SeqEl(<<Alg(Ed, <<>>), BitsEl(<<1, 0, 1, 1, 0, 0, 1, 0>>)>>), Uid(2, <<1, 0, 1>>)>> \o Exts(<<Unk(<<1, 2>>, <<3>>)>>)
        g == <<SeqEl(f), Alg(Ed, <<>>), BitsEl(<<1>>)>> IN
    \/ \E i \in 0..Len(f) : \E x \in {f[q] : q \in DOMAIN f} \cup {IntEl(0), IntEl(1), IntEl(2), NullEl, SeqEl(<<>>), BitsEl(<<>>), Uid(1, <<1, 1>>), Uid(2, <<>>), TagEl(0, <<IntEl(2)>>), TagEl(3, <<SeqEl(<<>>)>>)} :
         RunTrees("cert", <<SeqEl(<<SeqEl(SubSeq(f, 1, i) \o <<x>> \o SubSeq(f, i + 1, Len(f))), Alg(Ed, <<>>), BitsEl(<<1>>)>>)>>)
    \/ \E i \in 0..3 : \E x \in {g[q] : q \in DOMAIN g} \cup {IntEl(n), NullEl, SeqEl(<<>>)} :
         RunTrees("cert", <<SeqEl(SubSeq(g, 1, i) \o <<x>> \o SubSeq(g, i + 1, 3))>>)

----------------------------------------------------------------------------
(* Names                                                                   *)
AttrIds == {At4(3), At4(6), At4(7), At4(8), At4(10), At4(11)}
OddIds == {At4(5), At4(4), At4(9), At4(12), At4(0), <<2, 5, 4>>, <<2, 5, 4, 3, 0>>, <<2, 5, 5, 3>>, <<1, 5, 4, 3>>, <<1, 2, 840, 113549, 1, 9, 1>>, <<2, 5, 4, 131>>, <<2, 6, 4, 10>>}
NameVals == {Utf8El(t) : t \in {B(" a "), B("a."), B("A b"), B("a  b"), B("#a"), B("a,b=c"), <<97, 10>>, <<97, 0>>, <<97, 204, 129>>, <<239, 187, 191, 97>>}} \cup {PrintableEl(B(" a ")), Ia5El(B("a/")), Ia5El(B(" ")), Utf8El(B("ab")), PrintableEl(B("c")), Ia5El(<<>>), Utf8El(<<195, 169>>), OctetsEl(<<97>>), IntEl(65), NullEl, SeqEl(<<Utf8El(B("q"))>>), BitsEl(<<1>>),
             OidEl(At4(3)), TagEl(0, <<>>), TimeU(2020, 1, 1), BoolEl(TRUE), Raw(<<12, 1, 255>>, <<>>), Raw(<<30, 2, 0, 65>>, <<>>), Raw(<<19, 2, 65>>, <<>>), Raw(<<20, 1, 65>>, <<>>)}
Good3 == {Attr(i, Utf8El(<<65 + i[Len(i)]>>)) : i \in AttrIds} \cup {Attr(At4(5), IntEl(1))}
InitNameValues ==
  \/ \E i \in AttrIds \cup OddIds, v \in NameVals : RunTrees("name", <<Rdn(<<Attr(i, v)>>)>>)
  \/ \E i \in AttrIds \cup OddIds, v \in NameVals, j \in {At4(3), At4(10), At4(5)} :
       \/ RunTrees("name", <<Rdn(<<Attr(j, Utf8El(B("z"))), Attr(i, v)>>)>>)
       \/ RunTrees("name", <<Rdn(<<Attr(i, v)>>), Rdn(<<Attr(j, Ia5El(B("z")))>>)>>)
(* all orders and groupings of attributes *)
Grouped(s, cut) == [k \in 1..(Cardinality(cut) + 1) |->
     LET b == {0, Len(s)} \cup cut
         lo == CHOOSE m \in b : Cardinality({q \in b : q < m}) = k - 1
         hi == CHOOSE m \in b : Cardinality({q \in b : q < m}) = k
     IN Rdn(SubSeq(s, lo + 1, hi))]
InitNameGroups ==
  \/ \E n \in 1..(IF Big THEN 4 ELSE 3) : \E s \in [1..n -> Good3] : \E cut \in SUBSET (1..(n - 1)) : RunTrees("name", Grouped(s, cut))
  \/ RunTrees("name", <<>>)
  \/ LET all == SetToSeq(Good3) IN \E cut \in SUBSET (1..6) : RunTrees("name", Grouped(all, cut))
NameBase == <<Rdn(<<Attr(At4(6), PrintableEl(B("US")))>>), Rdn(<<Attr(At4(3), Utf8El(B("x"))), Attr(<<1, 2, 3>>, NullEl), Attr(At4(11), Ia5El(B("u")))>>), Rdn(<<Attr(At4(10), PrintableEl(B("o")))>>)>>
(* the forest as kids of a wrapper that is taken off again *)
Unwrap(t) == t.kids
InitNameOps ==
  \/ \E p \in Paths(SeqEl(NameBase)) : \E op \in Ops : \E t \in ChangedBy(SeqEl(NameBase), p, op) : t.id = 48 /\ RunTrees("name", Unwrap(t))
  \/ LET e == Encs(NameBase) IN \E n \in 0..(Len(e) - 1) :
       RunOn("name", Plain(SubSeq(e, 1, n)), <<Raw(<<>>, <<>>)>>, IF n \in {0, Len(Enc(NameBase[1])), Len(Encs(SubSeq(NameBase, 1, 2)))} THEN "free" ELSE "refused")

----------------------------------------------------------------------------
(* Single extensions; mode ext reads the contents of the extension, which  *)
(* are the kids of its SEQUENCE                                            *)
RunExt(e) == RunTrees("ext", e.kids)
ExtOf(oid, crit, content) == SeqEl(<<OidEl(oid)>> \o crit \o <<content>>)
Crits == {<<>>, Yes, No}
BadCrits == {<<Prim(1, <<1>>, "", <<>>)>>, Yes \o Yes, <<IntEl(1)>>, <<NullEl>>, <<Prim(1, <<>>, "", <<>>)>>, <<OctetsEl(<<>>)>>}
RECURSIVE BitRows(_)
BitRows(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, b) : s \in BitRows(n - 1), b \in {0, 1}}

InitKeyUsage ==
  \/ \E n \in 0..(IF Big THEN 11 ELSE 9) : \E s \in BitRows(n) : RunExt(Ku(s))
  \/ \E u \in 0..9, a \in Byte : RunExt(ExtOf(ExtArcs.KeyUsage, <<>>, Con(4, <<Prim(3, <<u, a>>, "", <<>>)>>)))
  \/ \E u \in 0..7, a \in {0, 1, 3, 127, 128, 255}, b \in {0, 1, 2, 64, 127, 128, 129, 192, 255}, m \in 0..2 :
       RunExt(ExtOf(ExtArcs.KeyUsage, No, Con(4, <<Prim(3, <<u, a, b>> \o [i \in 1..m |-> 255], "", <<>>)>>)))
  \/ \E u \in Byte : RunExt(ExtOf(ExtArcs.KeyUsage, <<>>, Con(4, <<Prim(3, <<u>>, "", <<>>)>>)))
  \/ \E j \in Junk \cup Frags : \/ RunExt(ExtOf(ExtArcs.KeyUsage, Yes, Con(4, <<j>>)))
                                \/ RunExt(ExtOf(ExtArcs.KeyUsage, Yes, Con(4, <<BitsEl(<<1>>), j>>)))
BcLens == IntContents
BcItems == {BoolEl(TRUE), BoolEl(FALSE), IntEl(0), IntEl(5), NullEl, OctetsEl(<<>>), Prim(1, <<7>>, "", <<>>), SeqEl(<<>>), BigIntEl(<<1, 2, 3, 4, 5>>)}
InitConstraints ==
  \/ \E c \in BcLens, ca \in {<<>>, Yes, No}, crit \in Crits : RunExt(ExtOf(ExtArcs.BasicConstraints, crit, Con(4, <<SeqEl(ca \o <<BigIntEl(c)>>)>>)))
  \/ \E n \in 0..3 : \E s \in [1..n -> BcItems] : RunExt(Bc([i \in 1..n |-> s[i]]))
  \/ \E b \in Byte : RunExt(Bc(<<Prim(1, <<b>>, "", <<>>)>>))
  \/ \E a \in Byte : RunExt(Bc(<<Prim(2, <<a>>, "", <<>>)>>))
  \/ \E a \in Byte : RunExt(Bc(<<BoolEl(TRUE), Prim(2, <<a, 5>>, "", <<>>)>>))
  \/ \E j \in Junk \cup Frags : \/ RunExt(ExtOf(ExtArcs.BasicConstraints, <<>>, Con(4, <<j>>)))
                                \/ RunExt(ExtOf(ExtArcs.BasicConstraints, <<>>, Con(4, <<SeqEl(<<BoolEl(TRUE)>>), j>>)))
                                \/ RunExt(ExtOf(ExtArcs.BasicConstraints, <<>>, Con(4, <<SeqEl(<<BoolEl(TRUE), j>>)>>)))
                                \/ RunExt(ExtOf(ExtArcs.BasicConstraints, <<>>, Con(4, <<SeqEl(<<BoolEl(TRUE), IntEl(1), j>>)>>)))
(* texts that code might shorten, fold or otherwise read as something else *)
WrittenTexts == {B(t) : t \in {"a://b/", "A://B/c", "//", "/", " ", " a ", "a ", " a", "a.", ".a", ".", "*.a", "%41", "a@B", "A@b.", "@", "mailto:a", "a?b#c", "xn--a", "a,b", "a;b=c", "0", "-", "<a>"}}
  \cup {<<97, 10>>, <<9, 97>>, <<97, 13, 10>>, <<97, 0>>, <<0, 97>>, <<92, 110>>, <<34, 97, 34>>, <<39>>, <<97, 204, 129>>, <<239, 187, 191, 97>>, <<226, 128, 139>>, <<195, 159>>, <<196, 176>>}
AltTexts == WrittenTexts \cup {<<>>, B("a"), B("a@b.example"), <<195, 169>>, <<255>>, <<0>>, [i \in 1..130 |-> 120], <<97, 195>>}
AltOctets == {<<>>, <<10, 0, 0, 1>>, [i \in 1..16 |-> i], <<255>>, OidOctets(<<1, 3, 6, 1>>), <<128>>, <<42, 129, 128, 128, 128, 1>>}
InitAltNames ==
  \/ \E t \in 0..30, c \in AltTexts \cup AltOctets, f \in {128, 160} : RunExt(San(<<Prim(f + t, c, "", <<>>)>>))
  \/ \E n \in 0..(IF Big THEN 4 ELSE 3) : \E s \in [1..n -> {Mail(B("m")), Dns(B("d")), Uri(<<>>), Ip(<<1, 2>>), Rid(<<2, 5>>), Dns(B("dd"))}] : RunExt(San([i \in 1..n |-> s[i]]))
  \/ \E j \in Junk \cup Frags \cup {ImplicitEl(4, <<48, 0>>), ImplicitEl(0, <<>>), ImplicitEl(3, <<>>), ImplicitEl(5, <<>>), Dns(<<255>>), Rid(<<>>), Raw(<<159, 31, 0>>, <<>>)} :
       \/ RunExt(San(<<j>>))
       \/ RunExt(San(<<Dns(B("d")), j>>))
       \/ \A f \in Frags : j # f /\ RunExt(San(<<j, Dns(B("d"))>>))
       \/ RunExt(ExtOf(ExtArcs.SubjectAlternativeName, <<>>, Con(4, <<j>>)))
       \/ RunExt(ExtOf(ExtArcs.SubjectAlternativeName, <<>>, Con(4, <<SeqEl(<<Dns(B("d"))>>), j>>)))
Eku8 == <<1, 3, 6, 1, 5, 5, 7, 3>>
PurposePool == {OidEl(PurposeArcs(p)) : p \in DOMAIN PurposeNo}
NearPurposes == {OidEl(Eku8 \o <<n>>) : n \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 17, 127, 128, 129, 257}}
  \cup {OidEl(Eku8), OidEl(Eku8 \o <<1, 1>>), OidEl(Eku8 \o <<1, 0>>), OidEl(<<2, 5, 29, 37, 0>>), OidEl(<<1, 3, 6, 1, 5, 5, 7, 4, 1>>), OidEl(<<1, 3, 6, 1, 5, 5, 8, 3, 1>>),
        OidEl(<<1, 3, 6, 1, 5, 5, 3, 1>>), OidEl(<<2, 3, 6, 1, 5, 5, 7, 3, 1>>), OidEl(<<1, 3, 6, 1, 5, 5, 7, 3, 0, 1>>), OidEl(<<1, 3, 6, 1, 4, 1, 311, 10, 3>>)}
InitPurposes ==
  \/ \E n \in 0..(IF Big THEN 4 ELSE 3) : \E s \in [1..n -> PurposePool] : RunExt(Eku([i \in 1..n |-> s[i]]))
  \/ \E o \in NearPurposes \cup Junk \cup Frags : \/ RunExt(Eku(<<o>>))
                                                  \/ RunExt(Eku(<<OidEl(PurposeArcs("ClientAuth")), o>>))
                                                  \/ RunExt(ExtOf(ExtArcs.ExtendedKeyUsage, <<>>, Con(4, <<o>>)))
                                                  \/ RunExt(ExtOf(ExtArcs.ExtendedKeyUsage, <<>>, Con(4, <<SeqEl(<<OidEl(PurposeArcs("ClientAuth"))>>), o>>)))
  \/ \E o \in NearPurposes : RunExt(Eku(<<o, OidEl(PurposeArcs("TimeStamping"))>>))
(* identifiers, and contents of all kinds under all identifiers *)
NearExtIds == {OidEl(<<2, 5, 29, n>>) : n \in 0..60} \cup
  {OidEl(a) : a \in {<<2, 5, 29>>, <<2, 5, 29, 15, 0>>, <<2, 5, 29, 143>>, <<2, 5, 28, 15>>, <<1, 5, 29, 15>>, <<2, 5, 29, 15, 1>>, <<2, 6, 29, 17>>, <<0, 5, 29, 19>>, <<2, 5, 29, 1935>>, <<2, 15>>,
   <<1, 3, 6, 1, 4, 1, 50316, 802, 1>>, <<1, 3, 6, 1, 4, 1, 50316, 802>>, <<1, 3, 6, 1, 4, 1, 50316, 802, 2>>, <<1, 3, 6, 1, 4, 1, 50316, 802, 1, 0>>, <<1, 3, 6, 1, 4, 1, 50315, 802, 1>>,
   <<1, 3, 6, 1, 4, 1, 50316, 803, 1>>, <<1, 3, 6, 1, 4, 1, 50316, 1, 802>>, <<1, 3, 6, 1, 4, 1, 0, 802, 1>>, <<1, 3, 6, 1, 5, 5, 7, 1, 1>>, <<2, 16, 840, 1, 113730, 1, 1>>}}
  \cup {Prim(6, <<85, 29, 128, 15>>, "", <<>>), Prim(6, <<85, 128, 29, 17>>, "", <<>>), Prim(6, <<85, 29, 15, 128>>, "", <<>>), Prim(6, <<128, 85, 29, 19>>, "", <<>>), Prim(6, <<>>, "", <<>>)}
SomeContents == {Con(4, <<>>), Con(4, <<OctetsEl(<<7, 8>>)>>), Con(4, <<BitsEl(<<0, 1>>)>>), Con(4, <<SeqEl(<<>>)>>), Con(4, <<SeqEl(<<Dns(B("d"))>>)>>), Con(4, <<SeqEl(<<BoolEl(TRUE)>>)>>),
                 Con(4, <<SeqEl(<<OidEl(PurposeArcs("CodeSigning"))>>)>>), Con(4, <<Utf8El(B("r"))>>), OctetsEl(<<255, 0, 48, 130>>), OctetsEl(<<48, 3, 1>>), Con(4, <<PrintableEl(B("r"))>>)}
InitExtIds == \E o \in NearExtIds, c \in SomeContents, crit \in {<<>>, Yes} : RunTrees("ext", <<o>> \o crit \o <<c>>)
InitRaw ==   \* ski, role and unknown: any octets
  \/ \E c \in AltTexts \cup AltOctets \cup {[i \in 1..200 |-> i]}, crit \in Crits :
       \/ RunExt(ExtOf(ExtArcs.SubjectKeyIdentifier, crit, Con(4, <<OctetsEl(c)>>)))
       \/ RunExt(ExtOf(ExtArcs.ModbusRole, crit, Con(4, <<Utf8El(c)>>)))
       \/ RunExt(ExtOf(ExtArcs.ModbusRole, crit, Con(4, <<PrintableEl(c)>>)))
       \/ RunExt(ExtOf(ExtArcs.SubjectKeyIdentifier, crit, OctetsEl(c)))
       \/ RunExt(ExtOf(<<2, 5, 29, 18>>, crit, OctetsEl(c)))
  \/ \E j \in Junk \cup Frags, a \in {"SubjectKeyIdentifier", "ModbusRole"} :
       \/ RunExt(ExtOf(ExtArcs[a], <<>>, Con(4, <<j>>)))
       \/ RunExt(ExtOf(ExtArcs[a], <<>>, Con(4, <<OctetsEl(<<1>>), j>>)))
       \/ RunExt(ExtOf(ExtArcs[a], <<>>, Con(4, <<Utf8El(<<65>>), j>>)))
InitCritical == \E e \in DOMAIN AllExts, crit \in Crits \cup BadCrits :
  LET k == AllExts[e].kids IN RunTrees("ext", <<k[1]>> \o crit \o <<k[Len(k)]>>)
InitExtOps ==
  \E e \in DOMAIN AllExts : \E p \in Paths(AllExts[e]) : \E op \in Ops :
    \E t \in ChangedBy(AllExts[e], p, op) : t.id = 48 /\ RunTrees("ext", t.kids)
InitExtPrefixes ==
  \E e \in DOMAIN AllExts : LET c == Encs(AllExts[e].kids) IN
    \/ \E n \in 0..(Len(c) - 1) : RunBytes("ext", SubSeq(c, 1, n), "refused")
    \/ \E b \in Byte : RunBytes("ext", Append(c, b), "refused")
(* the fragment of the value inside, all lengths consistent *)
InitExtCuts ==
  \E e \in DOMAIN AllExts : LET k == AllExts[e].kids
                                os == k[Len(k)] IN
    \E p \in Paths(os) : NodeAt(os, p).t = "c" /\
      LET c == Encs(NodeAt(os, p).kids) IN
      \E n \in 0..(Len(c) - 1) :
        LET cut == PutAt(os, p, Prim(NodeAt(os, p).id, SubSeq(c, 1, n), "", <<>>))
        IN RunTrees("ext", [k EXCEPT ![Len(k)] = cut])

----------------------------------------------------------------------------
(* Lists of extensions inside certificates                                 *)
ListPool == {Ski(<<1>>), Ku(<<1>>), Bc(<<BoolEl(TRUE)>>), Unk(<<1, 2, 3>>, <<0>>), Role(B("r"))}
BadExts == {SeqEl(<<>>), SeqEl(<<OidEl(<<2, 5, 29, 15>>)>>), SeqEl(<<OctetsEl(<<1>>)>>), NullEl, SetEl(<<OidEl(<<1, 2>>), OctetsEl(<<>>)>>),
            SeqEl(<<BoolEl(TRUE), OidEl(<<1, 2>>), OctetsEl(<<>>)>>), SeqEl(<<OidEl(<<1, 2>>), OctetsEl(<<>>), BoolEl(TRUE)>>), SeqEl(<<OidEl(<<1, 2>>), OctetsEl(<<>>), NullEl>>),
            SeqEl(<<OidEl(<<1, 2>>), BitsEl(<<>>)>>), Ext(ExtArcs.KeyUsage, <<>>, <<NullEl>>), Eku(<<OidEl(<<1, 2>>)>>), San(<<TagEl(4, <<>>)>>)}
ListCert(list) == <<CertTree([Plainest EXCEPT !.ver = Version(2), !.opts = Exts(list)])>>
InitExtLists ==
  \/ \E n \in 0..(IF Big THEN 4 ELSE 3) : \E s \in [1..n -> ListPool] : RunTrees("cert", ListCert([i \in 1..n |-> s[i]]))
  \/ \E b \in BadExts, g \in ListPool, h \in ListPool : \/ RunTrees("cert", ListCert(<<b, g>>))
                                          \/ RunTrees("cert", ListCert(<<g, b>>))
                                          \/ RunTrees("cert", ListCert(<<g, b, h>>))
  \/ \E b \in BadExts : RunTrees("cert", ListCert(<<b>>))
  \/ RunTrees("cert", ListCert(AllExts)) \/ RunTrees("cert", ListCert(AllExts \o AllExts))
  \/ \E o \in {<<>>, <<NullEl>>, <<SeqEl(<<>>), SeqEl(<<>>)>>, <<SetEl(<<>>)>>, <<SeqEl(<<>>), NullEl>>, <<SeqEl(<<Ski(<<1>>)>>), Raw(<<48, 1>>, <<>>)>>, <<Ski(<<1>>)>>,
               <<SeqEl(<<Raw(<<48, 3, 6>>, <<>>)>>)>>, <<SeqEl(<<Ski(<<1>>), Raw(<<48>>, <<>>)>>)>>} :
       RunTrees("cert", <<CertTree([Plainest EXCEPT !.opts = <<TagEl(3, o)>>])>>)
  \/ \E crit \in Crits \cup BadCrits, e \in DOMAIN AllExts :
       LET k == AllExts[e].kids IN RunTrees("cert", ListCert(<<SeqEl(<<k[1]>> \o crit \o <<k[Len(k)]>>), Ski(<<2>>)>>))

----------------------------------------------------------------------------
(* Certificates for printing: every field in every shape (C25)             *)
PrintExts == << Ski(<<>>), Ski([i \in 1..20 |-> i]), Ski([i \in 1..16 |-> 255]), Ski([i \in 1..17 |-> 0]), Ku(<<>>), Ku(<<1, 1, 1, 1, 1, 1, 1, 1, 1>>), Ku(<<0, 1>>), Bc(<<>>), Bc(<<BoolEl(TRUE)>>),
                Bc(<<BoolEl(TRUE), IntEl(0)>>), Bc(<<IntEl(-7)>>), San(<<>>), San(<<Mail(B("a")), Dns(B("d")), Ip(<<1, 2, 3, 4>>), Uri(B("u")), Rid(<<2, 5, 4, 3>>), Ip(<<>>), Rid(<<2, 5>>), Ip([i \in 1..33 |-> i])>>),
                Eku(<<>>), Eku([i \in 1..6 |-> OidEl(Eku8 \o <<(<<9, 8, 4, 3, 2, 1>>)[i]>>)]), Role(B("x y")), Role(<<>>), Role(<<65, 10, 66>>), Unk(<<1, 2, 3>>, <<>>), Unk(<<2, 5, 29, 35>>, [i \in 1..40 |-> i]) >>
PrintNames == {SeqEl(<<>>), SomeName, OtherName, SeqEl([i \in 1..6 |-> Rdn(<<Attr(At4((<<3, 11, 10, 7, 8, 6>>)[i]), Utf8El(<<64 + i>>))>>)]),
               SeqEl(<<NullEl>>), SeqEl(<<Rdn(<<Attr(At4(3), Utf8El(<<65, 10, 66, 10>>))>>)>>), SeqEl(<<Rdn(<<>>), OctetsEl([i \in 1..30 |-> i])>>)}
InitPrintCerts ==
  \/ \E a \in PrintNames, b \in PrintNames : RunTrees("cert", <<CertTree([Medium EXCEPT !.issuer = <<a>>, !.subject = <<b>>])>>)
  \/ \E e \in DOMAIN PrintExts, f \in DOMAIN PrintExts : (e = f \/ Big \/ f = 1 + (e % Len(PrintExts))) /\
       RunTrees("cert", <<CertTree([Plainest EXCEPT !.opts = Exts(IF e = f THEN <<PrintExts[e]>> ELSE <<PrintExts[e], PrintExts[f]>>)])>>)
  \/ RunTrees("cert", <<CertTree([Fullest EXCEPT !.opts = Exts(PrintExts)])>>)
  \/ \E b \in BadExts : RunTrees("cert", ListCert(<<b>>))
  \/ \E u \in {<<>>, <<Uid(1, <<>>)>>, <<Uid(1, <<1>>)>>, <<Uid(1, [i \in 1..200 |-> 1])>>}, v \in {<<>>, <<Uid(2, <<>>)>>, <<Uid(2, [i \in 1..8 |-> 1])>>}, e \in {<<>>, Exts(<<>>), Exts(<<Ski(<<1>>)>>), <<TagEl(3, <<NullEl>>)>>},
        w \in {<<>>, Version(0), Version(1), Version(2)} : RunTrees("cert", <<CertTree([Plainest EXCEPT !.ver = w, !.opts = u \o v \o e])>>)
  \/ \E c \in FieldChoices : (Big \/ c.issuer = Medium.issuer) /\ RunTrees("cert", <<CertTree(c)>>)

(* two faults in a certificate or an extension: the first is reported (C28) *)
Spoil(t, p, how) ==
  LET n == NodeAt(t, p) IN
  CASE how = 1 -> PutAt(t, p, [n EXCEPT !.id = 31])
    [] how = 2 -> PutAt(t, p, [n EXCEPT !.id = IF n.id = 5 THEN 2 ELSE 5])
    [] how = 3 -> PutAt(t, p, [n EXCEPT !.id = IF n.id = 12 THEN 6 ELSE 12])
Apart(p, q) == \E i \in 1..MinOf(Len(p), Len(q)) : SubSeq(p, 1, i - 1) = SubSeq(q, 1, i - 1) /\ p[i] < q[i]
InitCertTwo ==
  LET t == Bases[2] IN
  \E p \in Paths(t), q \in Paths(t), a \in 1..3, b \in 1..3 :
    /\ p # <<>> /\ q # <<>> /\ Apart(p, q)
    /\ Big \/ (Len(p) + Len(q) + p[Len(p)] + 2 * a + b) % 7 = 0
    /\ RunTrees("cert", <<Spoil(Spoil(t, p, a), q, b)>>)
InitExtTwo ==
  \E e \in DOMAIN AllExts : LET t == AllExts[e] IN
  \E p \in Paths(t), q \in Paths(t), a \in 1..3, b \in 1..3 :
    /\ p # <<>> /\ q # <<>> /\ Apart(p, q)
    /\ RunTrees("ext", Spoil(Spoil(t, p, a), q, b).kids)
=============================================================================
