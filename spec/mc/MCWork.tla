------------------------------- MODULE MCWork -------------------------------
(* The numbers of Work, derived from the machines for small sizes.  The    *)
(* steps of a whole history of calls are linear in the octets.             *)
EXTENDS MCX509, Work

CONSTANT MaxN
VARIABLE steps

Fill(n, b) == [i \in 1..n |-> b]
PlainAttr == Attr(At4(40), Utf8El(<<120>>))
BigBits(n) == Prim(3, <<0>> \o Fill(n, 7), "BitString", <<>>)
Server == OidEl(PurposeArcs("ServerAuth"))
WorkShape(s, n) ==
  CASE s = 21 -> ListCert([i \in 1..n |-> Unk(<<1, 2, i>>, <<5>>)])
    [] s = 22 -> ListCert(Copies(n, Ku(<<1, 0, 1>>)))
    [] s = 23 -> San(Copies(n, Dns(<<97>>))).kids
    [] s = 24 -> Eku(Copies(n, Server)).kids
    [] s = 25 -> Copies(n, Rdn(<<PlainAttr>>))
    [] s = 26 -> <<Rdn(Copies(n, PlainAttr))>>
    [] s = 27 -> Ski(Fill(n, 7)).kids
    [] s = 28 -> <<CertTree([Plainest EXCEPT !.serial = <<BigIntEl(Fill(n, 7))>>, !.sig = <<BigBits(n)>>])>>
    [] s = 29 -> Eku(Copies(n, Server) \o <<OidEl(<<1, 3>>)>>).kids
    [] s = 30 -> <<Rdn(<<Attr(At4(3), Utf8El(Fill(n, 97)))>>), Rdn(<<Attr(At4(3), Utf8El(<<98>>))>>)>>
    [] s = 31 -> <<Rdn(<<Attr(At4(3), Utf8El(Fill(n, 97)))>>)>>
    [] s = 32 -> San(<<Ip(Fill(n, 7))>>).kids
    [] s = 33 -> San(<<ImplicitEl(8, <<43>> \o Fill(n, 1))>>).kids
    [] s = 34 -> ListCert(Copies(n, Ku(<<1, 0, 1>>)) \o <<NullEl>>)
    [] s = 35 -> Ext(ExtArcs.KeyUsage, Yes, <<Prim(3, <<0>> \o Fill(n, 85), "BitString", <<>>)>>).kids
    [] s = 36 -> Role(Fill(n, 97)).kids
    [] s = 37 -> Role(Fill(n, 97) \o <<255>>).kids
    [] s = 38 -> Bc(<<BigIntEl(Fill(n + 4, 7))>>).kids
    [] s = 39 -> San(Copies(n, Uri(<<97>>)) \o <<ImplicitEl(4, <<>>)>>).kids
    [] s = 40 -> Copies(n, Rdn(<<PlainAttr>>)) \o <<SetEl(<<>>)>>
Shapes32 == 21..40

InitWork ==
  /\ \E s \in Shapes32, n \in 2..MaxN :
       LET x == Plain(Encs(WorkShape(s, n))) IN
         /\ XInit([x |-> x, roots |-> <<>>, w |-> [s |-> s, n |-> n]], WorkOf(s, n).mode)
         /\ PrintT("CASE " \o ToJson(<<"time", x.pre, x.fb, x.fn, x.post, s, n>>))
  /\ steps = 0
WorkNext == (XNext /\ steps' = steps + 1) \/ (Ended /\ UNCHANGED <<xvars, steps>>)

Captured(f) == Cardinality({k \in DOMAIN f : f[k] # <<>>})
Found ==
  CASE mode = "cert" -> Answer3(mode, r.cert.err = <<>> /\ r.elist.err = <<>>, Len(r.elist.f))
    [] mode = "name" -> Answer3(mode, r.iname.err = <<>>, Captured(r.iname.f))
    [] mode = "ext" -> Answer3(mode, r.ext.err = <<>>,
                               IF r.ext.err # <<>> \/ r.ext.f[1].kind \notin {"SubjectAlternativeName", "ExtendedKeyUsage"} THEN 0
                               ELSE Len(r.ext.f[1].c))
WorkCounts == Ended => Found = WorkOf(src.w.s, src.w.n)
WorkLinear == steps <= 4 * (8 * ILen(X) + 8)
=============================================================================
