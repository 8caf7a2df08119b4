------------------------------ MODULE MCMemory ------------------------------
(***************************************************************************)
(* Inputs whose memory matters: lengths that claim more than is there, at  *)
(* every depth; many siblings; many containers open; long identifiers.     *)
(***************************************************************************)
EXTENDS MCSizesDer, Memory

MemNext == (Next /\ MemStep) \/ (Ended /\ UNCHANGED <<mvars, deep>>)
BeginMem(x, w) == Begin(x, w) /\ MemInit

(* a header claiming c octets, in as few octets as possible                *)
Claims == {1, 127, 128, 255, 256, 65535, 65536, 1048576, 16777215}
Claim(c) == EncLen(c)
(* and the ones beyond the integers here                                   *)
HugeClaims == {<<132, 1, 0, 0, 0>>, <<132, 7, 255, 255, 255>>, <<132, 64, 0, 0, 0>>, <<132, 127, 255, 255, 255>>,
               <<132, 128, 0, 0, 0>>, <<132, 255, 255, 255, 255>>}
Ids == {1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 48, 49, 128, 160, 191}
RECURSIVE Wrapped(_, _)
Wrapped(d, b) == IF d = 0 THEN b ELSE Wrapped(d - 1, <<(IF d % 3 = 0 THEN 161 ELSE 48)>> \o EncLen(Len(b)) \o b)
InitClaims ==
  \E id \in Ids, d \in {0, 1, 2, 5, 40}, rest \in {0, 1, 3, 300} :
  \E h \in {Claim(c) : c \in {k \in Claims : k > rest}} \cup HugeClaims :
    BeginMem(Plain(Wrapped(d, Encs(<<NullEl, IntEl(d)>>) \o <<id>> \o h \o Octets(rest))), Free)

(* claims of claims: every header inside another claims more than is there *)
RECURSIVE Liars(_)
Liars(n) == IF n = 0 THEN <<>> ELSE <<48, 132, 255, 255, 255, 255>> \o Liars(n - 1)
InitLiars == \E n \in {1, 2, 10, 100}, pre \in {<<>>, <<NullEl>>} : BeginMem(Plain(Encs(pre) \o Liars(n)), Free)

(* one container after the other, and then as many in one another          *)
InitMany ==
  \E n \in Counts :
    \/ BeginMem(Plain(Encs([i \in 1..n |-> SeqEl(<<IntEl(i), NullEl>>)])), Free)
    \/ BeginMem(Plain(Encs([i \in 1..n |-> Deep(1 + (i % 9), <<48, 49, 161>>, NullEl)])), Free)
    \/ BeginMem(Plain(Encs(<<Deep(n, <<48>>, NullEl)>> \o [i \in 1..n |-> SetEl(<<NullEl>>)])), Free)
    \/ BeginMem(Plain(Encs([i \in 1..n |-> OidEl(<<1, 3>> \o [j \in 1..(i % 30) |-> i * j])])), Free)
    \/ BeginMem(Plain(Encs([i \in 1..n |-> OctetsEl(Octets(i))])), Free)
    \/ BeginMem(One("ObjectIdentifier", [i \in 1..n |-> IF i = n THEN 129 ELSE 1 + (i % 100)]), Free)
    \/ BeginMem(One("ObjectIdentifier", [i \in 1..n |-> 1 + (i % 100)] \o <<129, 129, 129, 129, 1>>), Free)
=============================================================================
