---------------------------- MODULE MCSizesX509 ----------------------------
(***************************************************************************)
(* Certificates, names and extensions in many sizes: what holds at small   *)
(* sizes holds at every size.  Counts are numbers of things, Lengths       *)
(* numbers of octets.                                                      *)
(***************************************************************************)
EXTENDS MCX509, Near

CONSTANTS Counts, Lengths, Long

Letters(n) == [i \in 1..n |-> 97 + (i % 26)]
Repeat(c, n) == [i \in 1..(n * Len(c)) |-> c[1 + ((i - 1) % Len(c))]]
Octets(n) == [i \in 1..n |-> (41 * i + 3) % 256]
(* long texts of characters of several octets: wherever a text may be cut, *)
(* one of them has a character there                                       *)
WideTexts == {[i \in 1..k |-> 65] \o Repeat(c, n) : k \in 0..2, n \in {30, 1500}, c \in {<<195, 169>>, <<226, 130, 172>>, <<240, 159, 166, 128>>}}
(* a last thing that differs from all before it *)
Many(n, f(_), last) == [i \in 1..n |-> IF i = n THEN last ELSE f(i)]

(* names: many attributes that are not captured, then one that is; the     *)
(* same captured twice, far apart; long values                             *)
Plain4(i) == Attr(<<2, 5, 4, 40 + i>>, Utf8El(<<65 + (i % 26)>>))
InitSizesNames ==
  \/ \E n \in Counts, m \in {At4(3), At4(10), At4(7)} :
       \/ RunTrees("name", Many(n, LAMBDA i : Rdn(<<Plain4(i)>>), Rdn(<<Attr(m, PrintableEl(B("last")))>>)))
       \/ RunTrees("name", <<Rdn(Many(n, Plain4, Attr(m, PrintableEl(B("last")))))>>)
       \/ RunTrees("name", <<Rdn(<<Attr(m, Utf8El(B("first")))>>)>> \o Many(n, LAMBDA i : Rdn(<<Plain4(i)>>), Rdn(<<Attr(m, Utf8El(B("second")))>>)))
       \/ RunTrees("name", <<Rdn(<<Attr(m, Utf8El(B("first")))>> \o Many(n, Plain4, Attr(m, Utf8El(B("second")))))>>)
       \/ RunTrees("name", <<Rdn(<<Attr(m, Utf8El(B("first")))>>)>> \o Many(n, LAMBDA i : Rdn(<<Plain4(i)>>), Rdn(<<>>)))
       \/ RunTrees("name", Many(n, LAMBDA i : Rdn(<<Plain4(i)>>), NullEl))
  \/ \E n \in Lengths, m \in AttrIds : \E v \in {Utf8El(Letters(n)), PrintableEl(Letters(n)), Ia5El(Letters(n))} :
       RunTrees("name", <<Rdn(<<Attr(m, v)>>), Rdn(<<Attr(At4(5), OctetsEl(Octets(n)))>>)>>)
  \/ \E t \in WideTexts, m \in {At4(3), At4(11)} : RunTrees("name", <<Rdn(<<Attr(m, Utf8El(t)), Attr(At4(7), Ia5El(t))>>)>>)
  \/ \E n \in Counts, v \in {1, 3} : RunTrees("name", <<Rdn(<<Attr(<<2, 5, 4>> \o [i \in 1..n |-> v], Utf8El(B("x")))>>)>>)

InitSizesExts ==
  \/ \E n \in Counts :
       \/ RunExt(San(Many(n, LAMBDA i : Dns(Letters(i % 7)), Mail(B("last")))))
       \/ RunExt(San(Many(n, LAMBDA i : Ip(Octets(i % 5)), Rid(<<2, 5, 4, 3>>))))
       \/ RunExt(San(Many(n, LAMBDA i : Uri(<<65 + (i % 26)>>), TagEl(4, <<>>))))
       \/ RunExt(San(Many(n, LAMBDA i : Uri(<<65 + (i % 26)>>), Raw(<<130, 9, 65>>, <<>>))))
       \/ RunExt(Eku(Many(n, LAMBDA i : OidEl(Eku8 \o <<(<<1, 2, 3, 4, 8, 9>>)[1 + (i % 6)]>>), OidEl(PurposeArcs("TimeStamping")))))
       \/ RunExt(Eku(Many(n, LAMBDA i : OidEl(PurposeArcs("ServerAuth")), OidEl(Eku8 \o <<7>>))))
       \/ RunExt(Eku(<<OidEl(Eku8 \o [i \in 1..n |-> 1])>>))
       \/ RunExt(San(<<Rid(<<1, 3>> \o [i \in 1..n |-> 3 * i])>>))
       \/ RunTrees("ext", <<OidEl(<<2, 5, 29>> \o [i \in 1..n |-> 15]), OctetsEl(<<3, 1, 0>>)>>)
  \/ \E c \in WideTexts : \/ \E t \in {1, 2, 6} : RunExt(San(<<ImplicitEl(t, c), Dns(B("d"))>>))
                          \/ RunExt(ExtOf(ExtArcs.ModbusRole, <<>>, Con(4, <<Utf8El(c)>>)))
  \/ \E n \in Lengths, crit \in {<<>>, Yes} :
       \/ RunExt(ExtOf(ExtArcs.SubjectKeyIdentifier, crit, Con(4, <<OctetsEl(Octets(n))>>)))
       \/ RunExt(ExtOf(ExtArcs.ModbusRole, crit, Con(4, <<Utf8El(Letters(n))>>)))
       \/ RunExt(ExtOf(<<2, 5, 29, 35>>, crit, OctetsEl(Octets(n))))
       \/ \E t \in {1, 2, 6, 7} : RunExt(ExtOf(ExtArcs.SubjectAlternativeName, crit, Con(4, <<SeqEl(<<ImplicitEl(t, Letters(n)), Dns(B("d"))>>)>>)))
  \/ \E n \in Lengths, f \in 0..2, u \in {0, 5} : n > 0 /\      \* key usage with further octets
       RunExt(ExtOf(ExtArcs.KeyUsage, <<>>, Con(4, <<Prim(3, <<u>> \o [i \in 1..n |-> (f * 127 + i * f) % 256], "", <<>>)>>)))
  \/ \E n \in Lengths, a \in {0, 1, 255} : n > 0 /\
       RunExt(Bc(<<BoolEl(TRUE), Prim(2, [i \in 1..n |-> IF i = 1 THEN a ELSE 3], "", <<>>)>>))

(* lengths that claim more than is there, in what an extension or a name    *)
(* is made of                                                              *)
Boasts == {<<130, 255, 255>>, <<131, 255, 255, 255>>, <<132, 127, 255, 255, 255>>, <<132, 255, 255, 255, 255>>}
Hollow(id, h, n) == Raw(<<id>> \o h \o Octets(n), <<>>)
InitHollow ==
  \E h \in Boasts, n \in {0, 2, 40} :
    \/ \E k \in DOMAIN ExtArcs, id \in {48, 3, 4, 6, 1, 2, 12, 130, 164} :
         \/ RunExt(ExtOf(ExtArcs[k], <<>>, Con(4, <<Hollow(id, h, n)>>)))
         \/ RunExt(ExtOf(ExtArcs[k], <<>>, Con(4, <<SeqEl(<<Hollow(id, h, n)>>)>>)))
    \/ \E id \in {4, 48, 6, 1} : \/ RunExt(SeqEl(<<OidEl(<<2, 5, 29, 15>>), Hollow(id, h, n)>>))
                                \/ RunTrees("cert", ListCert(<<Ski(<<9>>), Hollow(id, h, n)>>))
    \/ \E id \in {49, 48, 12, 19} :
         \/ RunTrees("name", <<Hollow(id, h, n)>>)
         \/ RunTrees("name", <<Rdn(<<Attr(At4(3), Utf8El(B("x"))), Hollow(id, h, n)>>)>>)
         \/ RunTrees("name", <<Rdn(<<Attr(At4(3), Hollow(id, h, n))>>)>>)
         \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.issuer = <<SeqEl(<<Hollow(id, h, n)>>)>>])>>)

Names(n) == SeqEl([i \in 1..n |-> Rdn(<<IF i <= 6 THEN Attr(At4((<<3, 6, 7, 8, 10, 11>>)[i]), Utf8El(<<65 + i>>)) ELSE Plain4(i)>>)])
InitSizesCerts ==
  \/ \E n \in Counts :
       \/ RunTrees("cert", ListCert(Many(n, LAMBDA i : Unk(<<1, 2, i>>, <<i % 256>>), Bc(<<BoolEl(TRUE)>>))))
       \/ RunTrees("cert", ListCert(Many(n, LAMBDA i : AllExts[1 + (i % Len(AllExts))], NullEl)))
       \/ RunTrees("cert", ListCert(Many(n, LAMBDA i : AllExts[1 + (i % Len(AllExts))], Ski(<<9>>))))
       \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.issuer = <<Names(n)>>])>>)
       \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.alg = <<Alg(<<1, 3>> \o [i \in 1..n |-> i], <<>>)>>, !.sigalg = <<Alg(<<1, 3, 101, 112>> \o [i \in 1..n |-> 0], <<>>)>>])>>)
  \/ \E n \in Lengths :
       \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.serial = <<BigIntEl(IF n = 0 THEN <<7>> ELSE Octets(n))>>])>>)
       \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.sig = <<Prim(3, <<0>> \o Octets(n), "", <<>>)>>])>>)
       \/ RunTrees("cert", <<CertTree([Medium EXCEPT !.spki = <<SeqEl(<<Alg(Rsa, <<NullEl>>), Prim(3, <<0>> \o Octets(n), "", <<>>)>>)>>])>>)
       \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.opts = <<ImplicitEl(1, <<0>> \o Octets(n)), ImplicitEl(2, <<0>> \o Letters(n))>>])>>)
       \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.alg = <<Alg(Ed, <<OctetsEl(Octets(n))>>)>>])>>)
       \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.subject = <<SeqEl(<<OctetsEl(Octets(n))>>)>>])>>)
       \/ RunTrees("cert", ListCert(<<Unk(<<1, 2>>, Octets(n)), Ski(Letters(n))>>))
  \/ \E n \in Long : \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.sig = <<Prim(3, <<0>> \o Octets(n), "", <<>>)>>])>>)
                     \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.spki = <<SeqEl(<<Alg(Rsa, <<NullEl>>), Prim(3, <<0>> \o Octets(n), "", <<>>)>>)>>])>>)
                     \/ RunTrees("cert", ListCert(<<Unk(<<1, 2>>, Octets(n)), Role(Letters(n))>>))

(* contents with a recognisable beginning: zeros, then ones, then others   *)
Pattern(n, k, j) == [i \in 1..n |-> IF i <= k THEN 0 ELSE IF i <= k + j THEN 255 ELSE (41 * i + 3) % 256]
Runs(n) == {<<k, j>> \in (0..n) \X {0, 1, 2, n} : k + j <= n}
Short == {l \in Lengths : l > 0 /\ l <= 66}
InitPatternsExt ==
  \E n \in Short \cup {4, 8, 16, 20, 32} : \E q \in Runs(n) :
    LET c == Pattern(n, q[1], q[2]) IN
    \/ RunExt(San(<<Ip(c), Dns(B("d"))>>))
    \/ RunExt(Ski(c))
    \/ RunExt(Unk(<<1, 3, 6, 1>>, c))
    \/ RunExt(ExtOf(ExtArcs.KeyUsage, <<>>, Con(4, <<Prim(3, <<0>> \o c, "", <<>>)>>)))
    \/ n <= 8 /\ RunExt(Bc(<<BoolEl(TRUE), Prim(2, c, "", <<>>)>>))
InitPatternsCert ==
  \E n \in Short \cup {20, 32, 64} : \E q \in {q \in Runs(n) : q[1] \in 0..5 \cup {12, n - 1, n}} :
    LET c == Pattern(n, q[1], q[2]) IN
    \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.serial = <<Prim(2, c, "", <<>>)>>, !.sig = <<Prim(3, <<0>> \o c, "", <<>>)>>])>>)
    \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.spki = <<SeqEl(<<Alg(Ed, <<>>), Prim(3, <<0>> \o c, "", <<>>)>>)>>,
                                                    !.opts = <<ImplicitEl(1, <<0>> \o c), ImplicitEl(2, <<7>> \o c)>>])>>)

(* all the purposes in many orders, repeated or not; all the kinds of name *)
Purposes == <<"ServerAuth", "ClientAuth", "CodeSigning", "EmailProtection", "TimeStamping", "OCSPSigning">>
NamesOfAll == <<Mail(B("m")), Dns(B("d")), Uri(B("u")), Ip(<<1, 2, 3, 4>>), Rid(<<1, 2>>), Dns(<<>>)>>
(* the permutation of 1..6 number p, and a second round after it           *)
RECURSIVE Permuted(_, _)
Permuted(left, p) ==
  IF left = <<>> THEN <<>>
  ELSE LET n == Len(left)  i == 1 + (p % n) IN <<left[i]>> \o Permuted(SubSeq(left, 1, i - 1) \o SubSeq(left, i + 1, n), p \div n)
InitOrders ==
  \E p \in 0..719, m \in {6, 8, 11} :
    LET o == Permuted([i \in 1..6 |-> i], p)
        l == [i \in 1..m |-> o[1 + ((i - 1) % 6)]] IN
    \/ RunExt(Eku([i \in 1..m |-> OidEl(PurposeArcs(Purposes[l[i]]))]))
    \/ RunExt(San([i \in 1..m |-> NamesOfAll[l[i]]]))
    \/ m = 6 /\ RunTrees("name", [i \in 1..6 |-> Rdn(<<Attr(At4((<<3, 6, 7, 8, 10, 11>>)[l[i]]), Utf8El(<<64 + l[i]>>))>>)])

(* identifiers close to the recognised ones                                *)
InitNearExts ==
  \/ \E q \in DOMAIN ExtArcs : \E a \in Nearby(ExtArcs[q]), e \in DOMAIN AllExts :
       LET k == AllExts[e].kids IN (k[1].v = ExtArcs[q] \/ e = 1) /\ RunTrees("ext", <<OidEl(a), k[Len(k)]>>)
  \/ \E p \in DOMAIN PurposeNo : \E a \in Nearby(PurposeArcs(p)) : RunExt(Eku(<<OidEl(PurposeArcs("ClientAuth")), OidEl(a)>>))
InitNearAttrs ==
  \/ \E i \in AttrIds : \E a \in Nearby(i) :
       \/ RunTrees("name", <<Rdn(<<Attr(a, Utf8El(B("near")))>>)>>)
       \/ RunTrees("name", <<Rdn(<<Attr(i, Utf8El(B("one")))>>), Rdn(<<Attr(a, PrintableEl(B("near")))>>)>>)
  \/ \E i \in AttrIds : \E a \in Nearby(i) : a # i /\ RunTrees("name", <<Rdn(<<Attr(a, NullEl), Attr(i, Utf8El(B("one")))>>)>>)
(* the same attribute twice, with values of many sizes                     *)
InitTwice ==
  \E n \in {l \in Lengths : l < 3000}, m \in {0, 1, 64}, i \in AttrIds :
    \/ RunTrees("name", <<Rdn(<<Attr(i, Utf8El(Letters(n)))>>), Rdn(<<Attr(i, Ia5El(Letters(m)))>>)>>)
    \/ RunTrees("name", <<Rdn(<<Attr(i, PrintableEl(Letters(n))), Attr(i, Utf8El(Letters(m)))>>)>>)
    \/ RunTrees("name", <<Rdn(<<Attr(i, PrintableEl(Letters(m)))>>), Rdn(<<Attr(At4(5), NullEl), Attr(i, Utf8El(Letters(n)))>>)>>)
    \/ RunTrees("name", <<Rdn(<<Attr(i, PrintableEl(Letters(n)))>>), Rdn(<<Attr(i, PrintableEl(Letters(n)))>>)>>)

(* numbers of many sizes where small ones are expected                     *)
InitSizesNumbers ==
  \E n \in {l \in Lengths : l > 0}, a \in {0, 1, 127, 128, 255} :
    LET c == [i \in 1..n |-> IF i = 1 THEN a ELSE (41 * i + 3) % 256]
        z == [i \in 1..n |-> IF i = n THEN a % 4 ELSE 0] IN
    \E v \in {c, z} :
      \/ RunTrees("cert", <<CertTree([Plainest EXCEPT !.ver = <<TagEl(0, <<Prim(2, v, "", <<>>)>>)>>])>>)
      \/ RunExt(Bc(<<Prim(2, v, "", <<>>)>>))
      \/ RunExt(Bc(<<BoolEl(TRUE), Prim(2, v, "", <<>>), NullEl>>))
=============================================================================
