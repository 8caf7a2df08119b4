------------------------------- MODULE MCDer -------------------------------
(***************************************************************************)
(* Bounded exhaustive models of the generic decoder.  Each Init enumerates *)
(* a family of inputs (src.x) together with what is known about them       *)
(* independently of the decoder (src.w), prints every input for replay     *)
(* against the real code, and runs the machine on all of them; the         *)
(* invariants are the properties.                                          *)
(*                                                                         *)
(*   src.w.t = "none"  nothing is known                                    *)
(*             "tree"  the input encodes the forest src.w.f                *)
(*             "ok"    accepted, and the events are src.w.evs              *)
(*             "bad"   rejected with an error in src.w.errs                *)
(***************************************************************************)
EXTENDS DerRef, FiniteSets, Json

CONSTANT Depth, Width, Reps     \* tier parameters
VARIABLE hist                   \* events so far
mvars == <<src, stack, phase, ev, err, hist>>

MCIn(s) == s.x

Emit(x) == PrintT("CASE " \o ToJson(<<x.pre, x.fb, x.fn, x.post>>))
Begin(x, w) == DerInit([x |-> x, w |-> w]) /\ hist = <<>> /\ Emit(x)
Free == [t |-> "none"]

Next == DerNext /\ hist' = Append(hist, ev')
Ended == phase = "done"
NextOrRest == Next \/ (Ended /\ UNCHANGED mvars)     \* only what has ended may stand still
Answer == hist[Len(hist)]
Accepted == Ended /\ Answer.ok

----------------------------------------------------------------------------
(* Properties                                                              *)

Of(e) == SelectSeq(hist, LAMBDA q : q.e = e)
Cnt(h, e) == Len(SelectSeq(h, LAMBDA q : q.e = e))

(* C05 in every state: brackets match open containers, begin directly      *)
(* follows a container's report and nothing else, the error is the last    *)
(* callback and the call returns it                                        *)
Bracketed ==
  /\ phase \in {"scan"} => Cnt(hist, "B") - Cnt(hist, "E") = Len(stack) - 1
  /\ \A i \in DOMAIN hist :
       /\ hist[i].e = "B" <=> (i > 1 /\ hist[i-1].e = "T" /\ hist[i-1].k \in Constructed)
       /\ hist[i].e = "X" => /\ i \in {Len(hist), Len(hist) - 1}
                             /\ i < Len(hist) => hist[i+1] = EvReturn(hist[i].t)
       /\ hist[i].e = "R" => i = Len(hist) /\ phase = "done"
BracketedEnd == Accepted => Cnt(hist, "B") = Cnt(hist, "E") /\ Cnt(hist, "X") = 0
OneError == Ended /\ ~Answer.ok => Cnt(hist, "X") = 1 /\ hist[Len(hist) - 1].e = "X"

(* C04: the machine is the recursive traversal *)
Traversal == Ended => hist = Call(WalkAll(MCIn(src)))

(* C04/C08..C12: what was encoded is what is decoded *)
Encoded ==
  Ended => CASE src.w.t = "tree" -> hist = Call(ExpectAll(src.w.f, 0))
             [] src.w.t = "ok" -> hist = src.w.evs
             [] src.w.t = "bad" -> ~Answer.ok /\ Answer.t \in src.w.errs
             [] OTHER -> TRUE

(* C03/C04: an accepted input is the concatenation of minimal headers and  *)
(* contents of what was reported, nothing between, nothing left over       *)
Types == Of("T")
HeaderAt(t) == Len(EncLen(t.hi - t.lo))
Adjacent ==
  Accepted /\ ILen(MCIn(src)) < 4000 =>
    LET x == MCIn(src)
        (* octets covered by the headers of all and contents of primitives *)
        cover(t) == 1 + HeaderAt(t) + (IF t.k \in Constructed THEN 0 ELSE t.hi - t.lo)
    IN /\ FoldLeft(LAMBDA acc, t : acc + cover(t), 0, Types) = ILen(x)
       /\ \A i \in DOMAIN Types :
            LET t == Types[i] IN
            /\ Sub(x, t.lo - HeaderAt(t), t.lo) = EncLen(t.hi - t.lo)
            /\ i > 1 => t.lo - HeaderAt(t) - 1 =
                         (IF Types[i-1].k \in Constructed THEN Types[i-1].lo ELSE Types[i-1].hi)
            /\ i = 1 => t.lo - HeaderAt(t) = 1

(* C06: no proper non-empty prefix of an accepted single element is accepted *)
TopLevel == Cardinality({i \in DOMAIN Types :
              Cnt(SubSeq(hist, 1, CHOOSE j \in DOMAIN hist : hist[j].e = "T" /\ Cnt(SubSeq(hist, 1, j), "T") = i), "B")
              = Cnt(SubSeq(hist, 1, CHOOSE j \in DOMAIN hist : hist[j].e = "T" /\ Cnt(SubSeq(hist, 1, j), "T") = i), "E")})
NoPrefix ==
  Accepted /\ ILen(MCIn(src)) \in 1..40 /\ TopLevel = 1 =>
    \A n \in 1..(ILen(MCIn(src)) - 1) : ~WalkAll(Plain(Sub(MCIn(src), 0, n))).ok

(* C27: wrapping and concatenation *)
Wraps ==
  Ended /\ ILen(MCIn(src)) < 100 =>
    LET x == MCIn(src)
        body == Bytes(x)
        w(id) == WalkAll(Plain(TLV(id, body)))
        d == 1 + Len(EncLen(Len(body)))
        inner == WalkAll(x)
    IN \A id \in {48, 49, 160, 128, 190} :
         LET o == w(id) IN
         /\ o.ok = inner.ok /\ o.err = inner.err
         /\ SubSeq(o.evs, 3, Len(o.evs)) = Shift(inner.evs, d) \o (IF o.ok THEN <<EvEnd>> ELSE <<>>)
Concats ==
  Ended /\ ILen(MCIn(src)) < 60 =>
    LET body == Bytes(MCIn(src))
        a == WalkAll(Plain(body))
        aa == WalkAll(Plain(body \o body))
    IN IF a.ok THEN aa.evs = a.evs \o Shift(a.evs, Len(body)) /\ aa.ok
       ELSE a.err = ErrEOS \/ aa = a      \* a cut-short input is continued by what follows

(* C02: the identifier octet by its fields, X.690 8.1.2 *)
IdClass(b) == b \div 64
IdCons(b) == (b \div 32) % 2
IdNumber(b) == b % 32
IdOK(b) == \/ IdClass(b) = 0 /\ IdCons(b) = 0 /\ IdNumber(b) \in {1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24}
           \/ IdClass(b) = 0 /\ IdCons(b) = 1 /\ IdNumber(b) \in {16, 17}
           \/ IdClass(b) = 2 /\ IdNumber(b) < 31
OnlyKnownIds ==
  Accepted => \A i \in DOMAIN Types :
     LET t == Types[i]
         b == At(MCIn(src), t.lo - HeaderAt(t) - 1)
     IN IdOK(b) /\ (t.k = "ExplicitTag" <=> IdClass(b) = 2) /\ (t.k = "ExplicitTag" => t.v = <<IdNumber(b)>>)
          /\ (t.k = "Sequence" <=> b = 48) /\ (t.k = "Set" <=> b = 49)

----------------------------------------------------------------------------
(* Families                                                                *)

(* containers around an element: octets before, octets after, given the   *)
(* length of the element                                                   *)
Ctx == {"top", "seq", "set", "tag", "ptag", "second", "inner2", "first", "deep", "afterseq"}
InCtx(c, e) ==
  CASE c = "top" -> e
    [] c = "seq" -> TLV(48, e)
    [] c = "set" -> TLV(49, e)
    [] c = "tag" -> TLV(163, e)
    [] c = "ptag" -> TLV(158, e)
    [] c = "second" -> <<5, 0>> \o e
    [] c = "inner2" -> TLV(48, <<2, 1, 7>> \o e)
    [] c = "first" -> e \o <<5, 0>>
    [] c = "deep" -> TLV(48, TLV(49, TLV(160, e)) \o <<5, 0>>)
    [] c = "afterseq" -> TLV(48, <<4, 1, 48>>) \o e

(* identifier octets, all of them, everywhere *)
IdBodies == {<<>>, <<0>>, <<1, 0>>, <<1, 255>>, <<2, 0, 1>>, <<2, 5, 0>>, <<2, 42, 3>>, <<129, 2>>,
             <<13>> \o UtcOctets(2024, 2, 29, 23, 59, 59),
             <<15>> \o GenOctets(1999, 12, 31, 0, 0, 0)}
InitIds == \E b \in Byte, c \in Ctx, body \in IdBodies :
             Begin(Plain(InCtx(c, <<b>> \o body)),
                   IF IdOK(b) THEN Free ELSE [t |-> "bad", errs |-> {<<"UnsupportedId", b>>}])
(* every pair of identifier and first content octet: the tag number of a   *)
(* high-tag-number identifier must not be taken for a length               *)
InitIds2 == \E b \in Byte, n \in Byte : Begin(Plain(<<b, n, 1, 0>>),
              IF IdOK(b) THEN Free ELSE [t |-> "bad", errs |-> {<<"UnsupportedId", b>>}])

----------------------------------------------------------------------------
(* lengths *)
LenErrs == {<<"EndOfStream">>, <<"IndefiniteLength">>, <<"ReservedLength">>}
              \cup {<<"LengthByteCount", c>> : c \in 5..126}

Sizes == {0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 65535, 65536, 65537}
BigSizes == {16777215, 16777216, 16777217}
(* an element of n content octets whose length is written in k extra octets *)
(* (0: short form), with d octets more or fewer contents than announced     *)
LenForm(n, k) == IF k = 0 THEN <<n>> ELSE EncLenIn(n, k)
FormFits(n, k) == IF k = 0 THEN n <= 127 ELSE Len(Digits(n, 256)) <= k
Minimal(n, k) == LenForm(n, k) = EncLen(n)
LenWitness(n, k, d) ==
  IF k > 4 THEN [t |-> "bad", errs |-> {<<"LengthByteCount", k>>}]
  ELSE IF ~Minimal(n, k) THEN [t |-> "bad", errs |-> {<<"BadLengthEncoding", k, n>>}]
  ELSE IF d < 0 THEN [t |-> "bad", errs |-> {<<"EndOfStream">>}]
  ELSE IF d = 0 THEN [t |-> "ok", evs |->
         << [e |-> "T", k |-> "OctetString", v |-> <<>>, a |-> Borrow(HeadLen(n), n), n |-> n,
             lo |-> HeadLen(n), hi |-> HeadLen(n) + n], EvReturn(<<>>) >>]
  ELSE Free
InitLenBody(sizes) ==
  \E n \in sizes, k \in 0..6, d \in {-1, 0, 1} :
    /\ FormFits(n, k) /\ n + d >= 0
    /\ Begin([pre |-> <<4>> \o LenForm(n, k), fb |-> 65, fn |-> n + d, post |-> <<>>], LenWitness(n, k, d))
(* the same inside a container that holds exactly what is announced, less, *)
(* or more; with further input after the container                         *)
InitLenInside ==
  \E n \in {0, 1, 2, 3, 127, 128, 200, 255, 256, 300}, k \in 0..5, d \in {-2, -1, 0, 1, 2}, id \in {48, 49, 160, 131},
     inner \in {4, 12, 48, 128}, tail \in {<<>>, <<5, 0>>, <<65, 65, 65, 65>>} :
    /\ FormFits(n, k) /\ n + d >= 0
    /\ LET hd == <<inner>> \o LenForm(n, k)
           body == Len(hd) + n + d
       IN Begin([pre |-> <<id>> \o EncLen(body) \o hd, fb |-> 5, fn |-> n + d, post |-> tail],
                IF k <= 4 /\ Minimal(n, k) THEN (IF d < 0 THEN [t |-> "bad", errs |-> {ErrEOS}] ELSE Free)
                ELSE [t |-> "bad", errs |-> {<<"LengthByteCount", k>>, <<"BadLengthEncoding", k, n>>}])
(* every first length octet, with every kind of identifier, and every      *)
(* octet after the long forms                                              *)
InitLenOctets ==
  \/ \E id \in {2, 4, 48, 49, 160, 134, 12}, f \in Byte, tail \in {<<>>, <<0>>, <<1>>, <<1, 0>>, <<128, 0>>, <<0, 128>>, <<1, 0, 0>>, <<1, 0, 0, 0>>, <<255, 255, 255, 255>>} :
       Begin(Plain(<<id, f>> \o tail), Free)
  \/ \E a \in Byte : Begin([pre |-> <<4, 129, a>>, fb |-> 0, fn |-> a, post |-> <<>>],
       IF a < 128 THEN [t |-> "bad", errs |-> {<<"BadLengthEncoding", 1, a>>}] ELSE Free)
  \/ \E a \in {0, 1, 2, 127, 128, 255}, b \in Byte, d \in {-1, 0} :
       /\ 256 * a + b + d >= 0
       /\ Begin([pre |-> <<4, 130, a, b>>, fb |-> 0, fn |-> 256 * a + b + d, post |-> <<>>],
            IF a = 0 THEN [t |-> "bad", errs |-> {<<"BadLengthEncoding", 2, b>>}]
            ELSE IF d < 0 THEN [t |-> "bad", errs |-> {ErrEOS}] ELSE Free)
  \/ \E a \in {0, 1, 127, 128, 255}, b \in {0, 1, 255}, c \in {0, 1, 127, 255} :
       Begin(Plain(<<4, 131, a, b, c, 9>>), Free)
  \/ \E a \in {0, 1, 127, 128, 255}, b \in {0, 1, 255}, c \in {0, 255}, d \in {0, 1, 3, 255} :
       Begin(Plain(<<4, 132, a, b, c, d, 9, 9, 9>>), Free)
InitLen == InitLenBody(Sizes) \/ InitLenInside \/ InitLenOctets
InitLenBig == InitLenBody(BigSizes)

----------------------------------------------------------------------------
(* forests *)
GoodLeaves == {NullEl, IntEl(5), OctetsEl(<<97, 98>>), OctetsEl(<<>>)}
OtherLeaves == {BoolEl(TRUE), Utf8El(<<195, 169>>), OidEl(<<1, 2, 840>>), BitsEl(<<1, 0, 1>>), BitsEl(<<>>), Ia5El(<<64>>),
                BigIntEl(<<1, 2, 3, 4, 5>>), PrintableEl(<<>>), Con(158, <<>>)}
BadLeaves == {Raw(<<0>>, <<"UnsupportedId", 0>>), Raw(<<1, 1, 7>>, <<"BadBooleanValue", 7>>),
              Raw(<<191, 0>>, <<"UnsupportedId", 191>>), Raw(<<5, 1, 0>>, <<"NullWithContents", 1>>),
              Raw(<<48, 128>>, <<"IndefiniteLength">>), Raw(<<2, 0>>, <<"ZeroLengthInteger">>)}
Containers == {48, 49, 160, 158}
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET q == SeqsUpTo(S, n - 1) IN q \cup {Append(s, e) : s \in q, e \in S}

T1(leaves, ids, w) == {Con(i, s) : i \in ids, s \in SeqsUpTo(leaves, w)}
InitForest ==
  \/ \E f \in SeqsUpTo(GoodLeaves \cup OtherLeaves, 2) : Begin(Plain(Encs(f)), [t |-> "tree", f |-> f])
  \/ LET u1 == GoodLeaves \cup T1({NullEl, OctetsEl(<<97, 98>>)}, {48, 160}, Width) \cup T1({IntEl(5)}, {49, 158}, 1)
     IN \E a \in u1, b \in u1, i \in Containers :
          LET f == <<Con(i, <<a, b>>)>> IN Begin(Plain(Encs(f)), [t |-> "tree", f |-> f])
  \/ LET u1 == {NullEl} \cup T1({NullEl, IntEl(300)}, {48}, Width)
         u2 == u1 \cup {Con(i, <<a>>) : i \in {48, 131}, a \in u1} \cup {Con(49, <<a, NullEl>>) : a \in u1}
                  \cup {Con(49, <<NullEl, a>>) : a \in u1}
     IN \E a \in u2, b \in u2 :
          LET f == <<Con(48, <<a>>), b>> IN Begin(Plain(Encs(f)), [t |-> "tree", f |-> f])
(* a fault at every point of a tree: what precedes it is reported *)
InitFaults ==
  \/ LET leaves == {NullEl, OctetsEl(<<97, 98>>)}
         bads == BadLeaves
         l == leaves \cup T1(leaves, {48, 160}, 1)
     IN \E a \in l, x \in bads, b \in l, i \in Containers, sh \in 0..5 :
          LET f == CASE sh = 0 -> <<a, x>>
                     [] sh = 1 -> <<x, a>>
                     [] sh = 2 -> <<Con(i, <<a, x, b>>)>>
                     [] sh = 3 -> <<Con(i, <<a, Con(48, <<x>>)>>), b>>
                     [] sh = 4 -> <<a, Con(i, <<Con(49, <<b, x>>), NullEl>>)>>
                     [] sh = 5 -> <<Con(i, <<>>), Con(i, <<b>>), x, a>>
          IN Begin(Plain(Encs(f)), [t |-> "tree", f |-> f])
(* all octet strings over an alphabet of structural octets *)
InitTrie == \E s \in SeqsUpTo(Reps, Depth) : Begin(Plain(s), Free)
(* all proper prefixes of encoded elements, and of elements in containers  *)
(* whose lengths fit the fragment                                          *)
Whole == GoodLeaves \cup OtherLeaves \cup
         {SeqEl(<<IntEl(5), OctetsEl(<<97, 98>>)>>), SetEl(<<SeqEl(<<NullEl>>), NullEl>>), TagEl(3, <<SeqEl(<<SeqEl(<<OidEl(<<2, 5, 29, 15>>), OctetsEl(<<1>>)>>)>>)>>),
          OctetsEl([i \in 1..130 |-> 7]), SeqEl(<<OctetsEl([i \in 1..300 |-> 7])>>), Utf8El(<<240, 159, 152, 128>>),
          Prim(23, UtcOctets(2024, 2, 29, 1, 2, 3), "UTCTime", <<>>), Prim(24, GenOctets(2024, 2, 29, 1, 2, 3), "UTCTime", <<>>)}
InitPrefixes ==
  \E w \in Whole : LET e == Enc(w) IN
    \E n \in 1..(Len(e) - 1), c \in {"top", "second"} :
      Begin(Plain(InCtx(c, SubSeq(e, 1, n))), [t |-> "bad", errs |-> LenErrs])
(* the fragment is the end of a container whose length is consistent *)
InitCuts ==
  \E w \in Whole : LET e == Enc(w) IN
    \E n \in 1..(Len(e) - 1), c \in Ctx \ {"top", "second", "first", "afterseq"}, tail \in {<<>>, <<5, 0>>} :
      Begin(Plain(InCtx(c, SubSeq(e, 1, n)) \o tail), [t |-> "bad", errs |-> LenErrs])

(* two faults: the first in reading order is the one reported (C28)        *)
MoreBad == BadLeaves \cup {Raw(<<3, 2, 8, 1>>, <<"UnusedBits", 8>>), Raw(<<12, 2, 195, 40>>, <<"BadUTF8", 0, 1>>), Raw(<<6, 1, 128>>, ErrEOS),
            Raw(<<6, 5, 129, 129, 129, 129, 1>>, <<"BadOidLength">>), Raw(<<23, 1, 90>>, ErrTime), Raw(<<4, 129, 5>>, <<"BadLengthEncoding", 1, 5>>),
            Raw(<<48, 133, 0>>, <<"LengthByteCount", 5>>), Raw(<<4, 255>>, <<"ReservedLength">>), Raw(<<1, 2, 0, 0>>, <<"BadBooleanLength", 2>>), Raw(<<22, 1, 195>>, <<"BadUTF8", 0, 0>>)}
InitTwoFaults ==
  \E x \in MoreBad, y \in MoreBad, i \in {48, 160}, sh \in 0..5 :
    LET ok == SeqEl(<<NullEl>>)
        f == CASE sh = 0 -> <<x, y>>
               [] sh = 1 -> <<Con(i, <<x>>), y>>
               [] sh = 2 -> <<ok, Con(i, <<x, ok, y>>)>>
               [] sh = 3 -> <<Con(i, <<ok, Con(49, <<IntEl(1), x>>), y>>), y>>
               [] sh = 4 -> <<Con(i, <<Con(49, <<x>>), Con(49, <<y>>)>>)>>
               [] sh = 5 -> <<Con(i, <<>>), NullEl, Con(i, <<Con(i, <<Con(i, <<x>>), y>>)>>)>>
    IN Begin(Plain(Encs(f)), [t |-> "tree", f |-> f])

(* concatenations and wrappings of inputs, good and bad (C27)              *)
Parts == {<<>>, Enc(NullEl), Enc(SeqEl(<<>>)), Enc(SeqEl(<<IntEl(5), SetEl(<<OctetsEl(<<48, 1>>)>>)>>)), Enc(Utf8El(<<195, 169>>)),
          Enc(BitsEl(<<1, 0, 1>>)), Enc(OidEl(<<1, 2, 840>>)), Enc(TagEl(3, <<NullEl, NullEl>>)), Enc(BigIntEl(<<1, 2, 3, 4, 5>>)), Enc(Prim(23, UtcOctets(2024, 2, 29, 1, 2, 3), "UTCTime", <<>>)),
          Enc(OctetsEl([i \in 1..130 |-> i])), Enc(BoolEl(TRUE)), Enc(PrintableEl(<<65, 66>>))}
BadParts == {<<0>>, <<4, 1>>, <<48, 2, 5>>, <<1, 1, 7>>, <<48, 4, 5, 0, 10, 0>>, <<2, 0>>, <<12, 1, 195>>}
InitPairs ==
  \/ \E a \in Parts, b \in Parts \cup BadParts : Begin(Plain(a \o b), Free)
  \/ \E a \in Parts, b \in Parts, c \in Parts : Begin(Plain(a \o b \o c), Free)
  \/ \E a \in Parts \cup BadParts, b \in {<<>>, <<5, 0>>, <<0, 0>>}, i \in {48, 49} \cup (128..158) \cup (160..190) : Begin(Plain(TLV(i, a) \o b), Free)
  \/ \E a \in Parts \cup BadParts, i \in {48, 49, 160, 129}, j \in {48, 49, 163, 158}, k \in {48, 49, 160} :
       Begin(Plain(TLV(i, TLV(j, TLV(k, a)))), Free)
=============================================================================
