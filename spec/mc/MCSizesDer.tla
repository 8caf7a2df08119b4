----------------------------- MODULE MCSizesDer -----------------------------
(***************************************************************************)
(* Values and forests in many sizes: what holds at small sizes holds at    *)
(* every size.  Counts are numbers of things, Lengths numbers of octets.   *)
(***************************************************************************)
EXTENDS MCValues, Near

CONSTANTS Counts, Lengths, Long      \* Long: lengths beyond two octets

Letters(n) == [i \in 1..n |-> 97 + (i % 26)]
Octets(n) == [i \in 1..n |-> (41 * i + 3) % 256]
OneTree(e) == Begin(Plain(Enc(e)), [t |-> "tree", f |-> <<e>>])
Str(k, c) == Prim(KindId[k], c, k, <<>>)

InitSizesValues ==
  \/ \E n \in Lengths, k \in StringIds : \/ OneTree(Str(k, Letters(n)))
                                         \/ OneTree(Str(k, Letters(n) \o <<226, 130, 172>>))
                                         \/ Begin(One(k, Letters(n) \o <<226, 130>>), [t |-> "bad", errs |-> {<<"BadUTF8", n, 0>>}])
  \/ \E n \in {30, 1500}, k \in 0..2, c \in {<<195, 169>>, <<226, 130, 172>>, <<240, 159, 166, 128>>}, s \in StringIds :      \* wherever a text may be cut
       OneTree(Str(s, [i \in 1..k |-> 65] \o [i \in 1..(n * Len(c)) |-> c[1 + ((i - 1) % Len(c))]]))
  \/ \E n \in Lengths : \/ OneTree(OctetsEl(Octets(n)))
                        \/ n > 4 /\ OneTree(BigIntEl(Octets(n)))
                        \/ \E u \in {0, 1, 4, 7} : n > 0 /\ Begin(One("BitString", <<u>> \o Octets(n)), Free)
                        \/ OneTree(BitsEl([i \in 1..n |-> ((i * i) \div 3) % 2]))
                        \/ OneTree(SeqEl(<<NullEl, OctetsEl(Octets(n)), IntEl(5)>>))
  \/ \E n \in Counts, a \in {1, 300, 268435455} : OneTree(OidEl(<<1, 3>> \o [i \in 1..n |-> IF i = n THEN a ELSE (300 * i) % 65537]))
  \/ \E n \in Long : \/ OneTree(OctetsEl(Octets(n)))
                     \/ OneTree(Str("UTF8String", Letters(n) \o <<195, 169>>))
                     \/ OneTree(BigIntEl(Octets(n)))
                     \/ Begin(One("BitString", <<3>> \o Octets(n)), Free)
                     \/ OneTree(TagEl(2, <<NullEl, SeqEl(<<OctetsEl(Octets(n))>>), NullEl>>))

RECURSIVE Deep(_, _, _)
Deep(n, ids, leaf) == IF n = 0 THEN leaf ELSE Con(ids[1 + (n % Len(ids))], <<Deep(n - 1, ids, leaf)>>)
Run(f) == Begin(Plain(Encs(f)), [t |-> "tree", f |-> f])
Fault == Raw(<<1, 1, 7>>, <<"BadBooleanValue", 7>>)
InitSizesTrees ==
  \E n \in Counts :
    \/ \E id \in {48, 49, 161} : \/ Run(<<Con(id, [i \in 1..n |-> NullEl])>>)
                                 \/ Run(<<Con(id, [i \in 1..n |-> IntEl(i)]), NullEl>>)
    \/ Run([i \in 1..n |-> IF i % 3 = 0 THEN SeqEl(<<IntEl(i)>>) ELSE OctetsEl(<<i % 256>>)])
    \/ \E ids \in {<<48>>, <<49>>, <<160>>, <<48, 131, 49>>} :
         \/ Run(<<Deep(n, ids, NullEl)>>)
         \/ Run(<<Deep(n, ids, Con(48, <<>>)), NullEl>>)
         \/ Run(<<Deep(n, ids, Fault), NullEl>>)
    \/ Run([i \in 1..n |-> IF i = n THEN Fault ELSE SetEl(<<>>)])
    \/ Run(<<Con(48, [i \in 1..n |-> IF i = n THEN Con(49, <<NullEl, Fault>>) ELSE Con(160, <<NullEl>>)])>>)

(* contents with a recognisable beginning: zeros, then ones, then others   *)
Pattern(n, k, j) == [i \in 1..n |-> IF i <= k THEN 0 ELSE IF i <= k + j THEN 255 ELSE (41 * i + 3) % 256]
Runs(n) == {<<k, j>> \in (0..n) \X {0, 1, 2, n} : k + j <= n}
InitPatterns ==
  \E n \in {l \in Lengths : l > 0 /\ l <= 66} : \E q \in Runs(n) :
    LET c == Pattern(n, q[1], q[2]) IN
    \/ Begin(One("Integer", c), Free)
    \/ Begin(One("BitString", <<0>> \o c), Free)
    \/ Begin(One("BitString", <<6>> \o c), Free)
    \/ OneTree(SeqEl(<<OctetsEl(c), NullEl>>))
    \/ OneTree(TagEl(5, <<OctetsEl(c)>>))

(* identifiers close to the known ones                                     *)
InitNearKnown ==
  \E k \in DOMAIN KnownOids : \E a \in Nearby(KnownOids[k][1]) : OneTree(OidEl(a))

(* faults whose report has a number in it                                  *)
InitSizesFaults ==
  \E n \in Lengths : \E pre \in {<<>>, <<NullEl>>} :
    \/ Begin(Plain(Encs(pre) \o One("Null", Octets(n)).pre), Free)
    \/ Begin(Plain(Encs(pre) \o One("Boolean", Octets(n)).pre), Free)
    \/ \E b \in {<<192, 175>>, <<237, 160, 128>>, <<255>>, <<128>>, <<240, 159, 146>>}, post \in {<<>>, <<65>>} :
         Begin(Plain(Encs(pre) \o One("IA5String", Letters(n) \o b \o post).pre), Free)
    \/ Begin(Plain(Encs(pre) \o Enc(SeqEl(<<OctetsEl(Octets(n)), Fault>>))), Free)
=============================================================================
