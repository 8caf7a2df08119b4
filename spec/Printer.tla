------------------------------ MODULE Printer ------------------------------
(***************************************************************************)
(* What printing emits, as lines <<indentation, text>>.  The console       *)
(* machine, Console.tla, says what becomes of the calls that print them;   *)
(* mc/MCPrint checks the lines of every certificate it decodes.            *)
(***************************************************************************)
EXTENDS DerValues

(* A text with line ends in it (strings may contain them) becomes several  *)
(* lines, only the first of them indented.                                 *)
SplitLines(d, t) ==
  LET s == FoldLeft(LAMBDA acc, b :
             IF b = 10 THEN [done |-> Append(acc.done, <<acc.d, acc.t>>), d |-> 0, t |-> <<>>]
             ELSE [acc EXCEPT !.t = Append(acc.t, b)],
             [done |-> <<>>, d |-> d, t |-> <<>>], t)
  IN Append(s.done, <<s.d, s.t>>)
Line(d, t) == IF 10 \in {t[i] : i \in DOMAIN t} THEN SplitLines(d, t) ELSE << <<d, t>> >>
Say(d, s) == << <<d, B(s)>> >>
(* heading, then its block one level deeper *)
Block(d, name, lines) == Say(d, name) \o lines

(* octets, sixteen per line *)
OctetLines(x, lo, hi, d) ==
  [i \in 1..((hi - lo + 15) \div 16) |->
     <<d, HexColon(Sub(x, lo + 16 * (i - 1), MinOf(lo + 16 * i, hi)))>>]
SliceLines(x, s, d) == OctetLines(x, s.a, s.a + s.n, d)
(* bit strings with unused bits have no octet view and print nothing *)
BitLines(x, b, d) == SliceLines(x, b, d)
SliceText(x, s) == Sub(x, s.a, s.a + s.n)

AlgLines(alg, d) == Line(d, B("algorithm: ") \o OidText(alg.oid))

AttributeLabels == << <<"C", "C: ">>, <<"ST", "ST: ">>, <<"L", "L: ">>, <<"O", "O: ">>,
                      <<"OU", "OU: ">>, <<"CN", "CN: ">> >>
NameLines(x, f, d) ==
  Join([i \in DOMAIN AttributeLabels |->
          LET v == f[AttributeLabels[i][1]] IN
          IF v = <<>> THEN <<>> ELSE Line(d, B(AttributeLabels[i][2]) \o SliceText(x, v[1]))])
RawNameLines(x, s, d) == SliceLines(x, s, d)

BoolText(b) == IF b THEN B("true") ELSE B("false")

FlagNames == <<"digital signature", "content commitment", "key encipherment",
               "data encipherment", "key agreement", "key cert sign", "crl sign",
               "encipher only", "decipher only">>
ExtName == [SubjectKeyIdentifier |-> "Subject Key Identifier", KeyUsage |-> "Key Usage",
            SubjectAlternativeName |-> "Subject Alternative Name",
            BasicConstraints |-> "Basic Constraints", ExtendedKeyUsage |-> "Extended Key Usage",
            ModbusRole |-> "Modbus Role", Unknown |-> "Unknown"]

AltNameLines(x, it, d) ==
  CASE it.k = "mail" -> Line(d, B("RFC822 Name: ") \o SliceText(x, it))
    [] it.k = "dns" -> Line(d, B("DNS Name: ") \o SliceText(x, it))
    [] it.k = "uri" -> Line(d, B("Uniform Resource Identifier: ") \o SliceText(x, it))
    [] it.k = "ip" -> Block(d, "IP Address:", SliceLines(x, it, d + 1))
    [] it.k = "rid" -> Line(d, B("Registered ID: ") \o OidText(it.v))

ContentLines(x, e, d) ==
  CASE e.kind = "SubjectKeyIdentifier" ->
         Block(d, "key identifier:", SliceLines(x, e.c[1], d + 1))
    [] e.kind = "KeyUsage" ->
         Block(d, "usages:", Join([i \in 1..9 |->
           IF e.c[1].v[i] = 1 THEN Say(d + 1, FlagNames[i]) ELSE <<>>]))
    [] e.kind = "SubjectAlternativeName" ->
         Block(d, "names:", Join([i \in DOMAIN e.c |-> AltNameLines(x, e.c[i], d + 1)]))
    [] e.kind = "BasicConstraints" ->
         Line(d, B("CA: ") \o BoolText(e.c[1].v[1] = 1))
         \o (IF Len(e.c) < 2 THEN <<>>
             ELSE Line(d, B("Path Length Contraint: ") \o Dec(e.c[2].v[1])))
    [] e.kind = "ExtendedKeyUsage" ->
         Block(d, "usages:", Join([i \in DOMAIN e.c |-> Say(d + 1, e.c[i].k)]))
    [] e.kind = "ModbusRole" -> Line(d, B("role: ") \o SliceText(x, e.c[1]))
    [] e.kind = "Unknown" -> Block(d, "raw content:", SliceLines(x, e.c[1], d + 1))

ExtLines(x, e, d) ==
  Block(d, ExtName[e.kind],
        Line(d + 1, B("extension id: ") \o OidText(e.oid))
        \o Line(d + 1, B("critical: ") \o BoolText(e.crit))
        \o ContentLines(x, e, d + 1))

ValidityLines(f, d) ==
  Line(d, B("not before: ") \o SecondsText(f.nb)) \o Line(d, B("not after: ") \o SecondsText(f.na))
KeyLines(x, f, d) ==
  Block(d, "algorithm:", AlgLines(f.spkalg, d + 1))
  \o Block(d, "subject public key:", BitLines(x, f.spkkey, d + 1))

(* the results r of X509Machine for an accepted certificate *)
TbsLines(x, r, d) ==
  LET f == r.f IN
  Say(d, "version: " \o f.ver)
  \o Line(d, B("serial number: ") \o IntText(x, f.serial.a, f.serial.a + f.serial.n))
  \o Block(d, "signature:", AlgLines(f.sigalg, d + 1))
  \o (IF r.iname.err = <<>> THEN Block(d, "issuer:", NameLines(x, r.iname.f, d + 1))
      ELSE Block(d, "issuer (raw):", RawNameLines(x, f.issuer, d + 1)))
  \o Block(d, "validity:", ValidityLines(f, d + 1))
  \o (IF r.sname.err = <<>> THEN Block(d, "subject:", NameLines(x, r.sname.f, d + 1))
      ELSE Block(d, "subject (raw):", RawNameLines(x, f.subject, d + 1)))
  \o Block(d, "subject public key info:", KeyLines(x, f, d + 1))
  \o (IF f.iuid = <<>> THEN <<>>
      ELSE Block(d, "issuer unique ID:", BitLines(x, f.iuid[1], d + 1)))
  \o (IF f.suid = <<>> THEN <<>>
      ELSE Block(d, "subject unique ID:", BitLines(x, f.suid[1], d + 1)))
  \o (IF r.elist.err # <<>>
      THEN Line(d, B("**Error** parsing extensions: ") \o ErrText(r.elist.err))
      ELSE IF r.elist.f = <<>> THEN <<>>
      ELSE Block(d, "Extensions", Join([i \in DOMAIN r.elist.f |-> ExtLines(x, r.elist.f[i], d + 1)])))

CertLines(x, r) ==
  Block(0, "tbs certificate:", TbsLines(x, r, 1))
  \o Block(0, "signature algorithm:", AlgLines(r.f.alg, 1))
  \o Block(0, "signature value:", BitLines(x, r.f.sig, 1))

(* what the generic decoder's element tree looks like on the command line *)
ElemLines(x, e, d) ==
  Line(d, ElemText(x, e)) \o (IF e.k = "BitString" THEN OctetLines(x, e.a, e.a + e.n, d + 1) ELSE <<>>)

(* rendering: two spaces per level, every line ended *)
Render(lines) ==
  Join([i \in DOMAIN lines |-> [j \in 1..(2 * lines[i][1]) |-> 32] \o lines[i][2] \o <<10>>])
=============================================================================
