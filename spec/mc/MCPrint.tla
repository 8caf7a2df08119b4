------------------------------ MODULE MCPrint ------------------------------
(***************************************************************************)
(* Properties of printing (C25) over the lines the specification gives to  *)
(* every accepted certificate of the families of MCX509.                   *)
(***************************************************************************)
EXTENDS MCX509, Printer

Shown == pc = "done" /\ mode = "cert" /\ r.cert.err = <<>>
Clean == 10 \notin {Bytes(X)[i] : i \in 1..ILen(X)}     \* no text with line ends
L == CertLines(X, r)
Begins(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
IsPre(i, s) == Begins(L[i][2], B(s))
Heads(d) == SelectSeq(L, LAMBDA q : q[1] = d)
Indices(P(_)) == {i \in DOMAIN L : P(i)}

(* one level deeper at most, beginning at the margin *)
WellNested == Shown /\ Clean =>
  /\ L[1][1] = 0
  /\ \A i \in DOMAIN L : i > 1 => L[i][1] \in 0..(L[i - 1][1] + 1)
(* only headings have something below them *)
OnlyHeadingsOpen == Shown /\ Clean =>
  \A i \in DOMAIN L : i < Len(L) /\ L[i + 1][1] > L[i][1] =>
     \/ L[i][2][Len(L[i][2])] = 58
     \/ \E k \in DOMAIN ExtName : L[i][2] = B(ExtName[k])
     \/ L[i][2] = B("Extensions")
(* the fixed order of the outermost and the TBS fields *)
Margin == <<"tbs certificate:", "signature algorithm:", "signature value:">>
TbsOrder ==
  <<"version: ", "serial number: ", "signature:", "issuer", "validity:", "subject", "subject public key info:">>
Order == Shown /\ Clean =>
  LET tbs == SelectSeq([i \in DOMAIN L |-> <<i, L[i]>>],
                       LAMBDA q : q[2][1] = 1 /\ \A j \in 1..q[1] : L[j][1] = 0 => L[j][2] = B(Margin[1]))
      opts == (IF r.f.iuid = <<>> THEN <<>> ELSE <<"issuer unique ID:">>)
              \o (IF r.f.suid = <<>> THEN <<>> ELSE <<"subject unique ID:">>)
              \o (IF r.elist.err # <<>> THEN <<"**Error** parsing extensions: ">>
                  ELSE IF r.elist.f = <<>> THEN <<>> ELSE <<"Extensions">>)
      want == TbsOrder \o opts
  IN /\ [i \in DOMAIN Heads(0) |-> Heads(0)[i][2]] = [i \in 1..3 |-> B(Margin[i])]
     /\ Len(tbs) = Len(want)
     /\ \A i \in DOMAIN want : Begins(tbs[i][2][2], B(want[i]))
(* one block with identifier and criticality for every extension *)
EveryExtension == Shown /\ Clean =>
  /\ Cardinality(Indices(LAMBDA i : L[i][1] = 3 /\ IsPre(i, "extension id: "))) >= Len(r.elist.f)
  /\ Cardinality(Indices(LAMBDA i : L[i][1] = 2 /\ i > 1 /\ \E k \in DOMAIN ExtName : L[i][2] = B(ExtName[k]))) >= Len(r.elist.f)
(* every decoded attribute of both names *)
NameCount(f) == Cardinality({k \in DOMAIN f : f[k] # <<>>})
EveryAttribute == Shown /\ Clean =>
  \A h \in {<<"issuer:", r.iname>>, <<"subject:", r.sname>>} :
    h[2].err = <<>> =>
      \E i \in DOMAIN L : L[i] = <<1, B(h[1])>> /\
        (NameCount(h[2].f) = 0 \/ \A k \in 1..NameCount(h[2].f) : L[i + k][1] = 2)
        /\ L[i + NameCount(h[2].f) + 1][1] = 1
=============================================================================
