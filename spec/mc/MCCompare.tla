----------------------------- MODULE MCCompare -----------------------------
(***************************************************************************)
(* Comparisons of the elements of two inputs.  The elements are made from  *)
(* trees whose nodes say what they stand for (field i), so what must be    *)
(* equal and what comes first is known without decoding.                   *)
(* Cases are printed as <<"pair", a \o b, 0, 0, <<>>, length of a>>.       *)
(***************************************************************************)
EXTENDS Compare, Encoder, Json, FiniteSets

CONSTANT LongLengths
VARIABLES at          \* elements reported by either decode
vars == <<pvars, at>>

CompareA(s) == s.a
CompareB(s) == s.b

(* groups of elements that are easily taken for each other *)
Is(n, what) == n @@ [i |-> what]
StringId == [UTF8String |-> 12, PrintableString |-> 19, IA5String |-> 22]
Text(k, c) == Is(Prim(StringId[k], c, k, <<>>), <<k, c>>)
Num(c) == Is(BigIntEl(c), <<"integer", c>>)
Flags(u, c) == Is(Prim(3, <<u>> \o c, "BitString", <<>>), <<"bits", u, c>>)
Octs(c) == Is(OctetsEl(c), <<"octets", c>>)
Oid(arcs) == Is(OidEl(arcs), <<"oid", arcs>>)
PaddedOid(first, arcs) == Is(Prim(6, <<first>> \o OidOctets(arcs), "ObjectIdentifier", arcs), <<"oid", arcs>>)
Utc(t) == Is(Prim(23, UtcOctets(t[1], t[2], t[3], t[4], t[5], t[6]), "UTCTime", <<>>), <<"time", t>>)
Gen(t) == Is(Prim(24, GenOctets(t[1], t[2], t[3], t[4], t[5], t[6]), "UTCTime", <<>>), <<"time", t>>)
Nothing == Is(NullEl, <<"null">>)
True == Is(BoolEl(TRUE), <<"boolean", 1>>)
False == Is(BoolEl(FALSE), <<"boolean", 0>>)
Many(n, b) == [k \in 1..n |-> IF k = n THEN b ELSE 41]
Middle(n, b) == [k \in 1..n |-> IF k = (n + 1) \div 2 THEN b ELSE 41]
First(n, b) == [k \in 1..n |-> IF k = 1 THEN b ELSE 41]

Small == {<<>>, <<97>>, <<65>>, <<97, 98>>, <<97, 98, 99>>, <<98, 97>>, <<98>>, <<98, 99>>, <<97, 99>>, <<97, 0>>, <<97, 32>>, <<195, 169>>, <<101, 204, 129>>}
Dates == {<<1970, 1, 1, 0, 0, 0>>, <<1970, 1, 1, 0, 0, 1>>, <<1999, 12, 31, 23, 59, 59>>, <<2000, 1, 1, 0, 0, 0>>, <<2001, 9, 9, 1, 46, 40>>, <<2024, 2, 29, 12, 0, 0>>,
          <<2024, 3, 1, 12, 0, 0>>, <<2038, 1, 19, 3, 14, 7>>, <<2038, 1, 19, 3, 14, 8>>, <<2049, 12, 31, 23, 59, 59>>}
LateDates == {<<2050, 1, 1, 0, 0, 0>>, <<2106, 2, 7, 6, 28, 15>>, <<2106, 2, 7, 6, 28, 16>>, <<2106, 2, 7, 6, 28, 17>>, <<9999, 12, 31, 23, 59, 59>>}
Bodies == {<<>>, <<Nothing>>, <<Nothing, Nothing>>, <<Num(<<1>>)>>, <<Num(<<2>>)>>, <<Num(<<1>>), Nothing>>, <<Nothing, Num(<<1>>)>>}
Groups ==
  << {True, False, Nothing, Num(<<0>>), Num(<<1>>), Num(<<255>>), Octs(<<>>), Octs(<<255>>), Flags(0, <<>>), Text("UTF8String", <<>>)},
     {Num(c) : c \in {<<0>>, <<0, 0>>, <<1>>, <<0, 1>>, <<255>>, <<255, 255>>, <<0, 255>>, <<0, 0, 0, 1>>, <<1, 0>>, <<1, 1>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>,
                      <<0, 128, 0, 0, 0>>, <<0, 0, 0, 0, 1>>, <<1, 0, 0, 0, 0>>, <<1, 0, 0, 0, 1>>, <<2, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255>>,
                      Many(9, 1), Many(9, 2), First(9, 1), Many(10, 1)}},
     {Text(k, c) : k \in {"UTF8String", "PrintableString", "IA5String"}, c \in Small} \cup {Octs(c) : c \in Small},
     {Flags(0, c) : c \in {<<>>, <<0>>, <<128>>, <<240>>, <<240, 0>>, <<240, 16>>, <<0, 0>>, <<16>>, <<0, 128>>}} \cup
        {Flags(u, c) : u \in {1, 4, 7}, c \in {<<0>>, <<128>>, <<240>>, <<255>>, <<240, 0>>, <<240, 16>>, <<240, 31>>}},
     {Oid(a) : a \in {<<0, 0>>, <<0, 39>>, <<1, 0>>, <<1, 39>>, <<2, 0>>, <<2, 47>>, <<2, 48>>, <<2, 5>>, <<2, 5, 29>>, <<2, 5, 29, 14>>, <<2, 5, 29, 15>>, <<2, 5, 29, 15, 0>>, <<1, 2, 5, 29>>, <<2, 2, 5, 29>>, <<0, 2, 5>>, <<2, 29, 5>>, <<2, 5, 29, 29>>,
                      <<1, 3, 6, 1, 5, 5, 7, 3, 1>>, <<1, 3, 6, 1, 5, 5, 7, 3, 2>>, <<1, 2, 840, 113549>>, <<1, 2, 113549, 840>>, <<1, 2, 268435455>>, <<1, 2, 3, 256>>, <<1, 2, 3, 65539>>, <<1, 2, 259>>}}
        \cup {PaddedOid(128, <<2, 5, 29, 15>>), PaddedOid(128, <<1, 39>>)},
     {Utc(t) : t \in Dates} \cup {Gen(t) : t \in Dates \cup LateDates},
     {Con(i, b) : i \in {48, 49, 128, 160, 129, 161, 158, 190}, b \in Bodies},
     {Octs(Many(n, b)) : n \in LongLengths, b \in {1, 2}} \cup {Octs(First(n, 1)) : n \in LongLengths} \cup {Octs(Middle(n, b)) : n \in LongLengths, b \in {1, 2}} \cup
        {Text("UTF8String", Middle(n, b)) : n \in LongLengths, b \in {65, 66}} \cup {Oid(<<1, 3>> \o Middle(n, b)) : n \in LongLengths, b \in {1, 2}} \cup {Num(Middle(n, b)) : n \in LongLengths, b \in {1, 2}} \cup
        {Text("UTF8String", Many(n, b)) : n \in LongLengths, b \in {65, 66}} \cup {Num(Many(n, b)) : n \in LongLengths, b \in {1, 2}} \cup
        {Con(48, <<Octs(Many(n, b))>>) : n \in LongLengths, b \in {1, 2}} >>

RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o InOrder(S \ {x})
Lists == [g \in DOMAIN Groups |-> InOrder(Groups[g])]

(* what the nodes stand for, in the order they are reported *)
RECURSIVE Idents(_)
IdentsAll(nodes) == Join([k \in DOMAIN nodes |-> Idents(nodes[k])])
Idents(n) == IF n.t = "p" THEN <<n.i>>
             ELSE <<IF n.id \in {48, 49} THEN <<"container", n.id, Encs(n.kids)>> ELSE <<"tag", n.id % 32, Encs(n.kids)>>>> \o IdentsAll(n.kids)

Max2(i, j) == IF i < j THEN j ELSE i
Begin(a, b, ia, ib) ==
  /\ CompareInit([a |-> Plain(a), b |-> Plain(b), ia |-> ia, ib |-> ib])
  /\ at = <<0, 0>>
  /\ PrintT("CASE " \o ToJson(<<"pair", a \o b, 0, 0, <<>>, Len(a)>>))
Trees(s, t) == Begin(Encs(s), Encs(t), IdentsAll(s), IdentsAll(t))

InitGroups ==
  \/ \E g, h \in DOMAIN Groups : Trees(Lists[g], Lists[h])
  \/ \E g \in DOMAIN Groups, i \in {48, 163} : Trees(<<Con(i, Lists[g])>>, Lists[g])
(* the decodes end with faults: what they return is compared *)
Endings == {<<10, 1, 0>>, <<66, 0>>, <<5, 1, 0>>, <<5, 2, 0, 0>>, <<1, 0>>, <<1, 2, 0, 0>>, <<1, 1, 1>>, <<1, 1, 2>>, <<2, 0>>, <<4, 1>>, <<4>>, <<4, 128>>, <<4, 255>>, <<4, 133>>, <<4, 134>>,
        <<4, 129, 1, 0>>, <<4, 129, 2, 0, 0>>, <<4, 130, 0, 1, 0>>, <<3, 1, 8>>, <<3, 1, 9>>, <<3, 0>>, <<6, 0>>, <<6, 5, 129, 129, 129, 129, 1>>, <<12, 1, 195>>, <<12, 2, 195, 40>>, <<12, 2, 97, 255>>,
        <<22, 1, 195>>, <<23, 1, 90>>, <<24, 1, 90>>}
InitFaulty ==
  \E x, y \in Endings \cup {<<>>}, s \in {<<>>, <<5, 0>>} : Begin(x, s \o y, <<<<"null">>>>, <<<<"null">>>>)

Step ==
  /\ CompareNext
  /\ at' = << IF turn = "outer" /\ evA'.e = "T" THEN at[1] + 1 ELSE at[1],
              IF turn' = "inner" /\ turn = "outer" THEN 0
              ELSE IF turn = "inner" /\ phaseB # "done" /\ evB'.e = "T" THEN at[2] + 1 ELSE at[2] >>
Next == Step \/ (turn = "done" /\ UNCHANGED vars)      \* only what has ended may stand still
(* every comparison comes to an end: each step brings the outer decode     *)
(* forward, or else the inner one, or else one of them has ended           *)
InnerMeasure == IF phaseB = "off" THEN 0 ELSE MB!DerMeasure
TurnRank == CASE turn = "inner" -> 2 [] turn = "done" -> 0 [] OTHER -> 1
Ends == [][\/ MA!DerMeasure' < MA!DerMeasure
           \/ /\ MA!DerMeasure' = MA!DerMeasure
              /\ InnerMeasure' < InnerMeasure \/ (InnerMeasure' = InnerMeasure /\ TurnRank' < TurnRank)]_vars

----------------------------------------------------------------------------
Told == turn = "inner" /\ out # <<>>
Ours == src.ia[at[1]]
Theirs == src.ib[at[2]]
(* elements are the same if they stand for the same thing *)
SameIsIdentity == Told => ((out[1] \in {1, 3}) = (Ours = Theirs))
(* only other encodings of the same number or the same bits are left open *)
Sign(c) == IF c[1] < 128 THEN 0 ELSE 255
Extended(c, n) == [k \in 1..n |-> IF k <= n - Len(c) THEN Sign(c) ELSE c[k - (n - Len(c))]]
BitsOf(u, c) == [k \in 1..(8 * Len(c) - u) |-> (c[(k - 1) \div 8 + 1] \div 2^(7 - ((k - 1) % 8))) % 2]
Loose(i, j) == CASE i[1] = "integer" /\ j[1] = "integer" -> LET n == Max2(Len(i[2]), Len(j[2])) IN Extended(i[2], n) = Extended(j[2], n)
                 [] i[1] = "bits" /\ j[1] = "bits" -> BitsOf(i[2], i[3]) = BitsOf(j[2], j[3])
                 [] OTHER -> FALSE
OpenIsAlike == Told /\ Ours # Theirs => (out[1] = 5) = Loose(Ours, Theirs)
(* instants are ordered like their dates *)
RECURSIVE Lexical(_, _)
Lexical(s, t) == IF s = <<>> THEN FALSE ELSE Head(s) < Head(t) \/ (Head(s) = Head(t) /\ Lexical(Tail(s), Tail(t)))
OrderIsDate == Told => IF Ours[1] = "time" /\ Theirs[1] = "time"
                       THEN (out[1] = 2) = Lexical(Ours[2], Theirs[2]) /\ (out[1] = 4) = Lexical(Theirs[2], Ours[2])
                       ELSE out[1] \in {0, 1, 5}
(* equal elements have equal texts, and one type gives their values *)
SameShown == Told /\ out[1] \in {1, 3} => /\ ElemText(InA(src), evA) = ElemText(InB(src), evB)
                                          /\ Gives(evA) = Gives(evB)
OneType == Told => Cardinality(Gives(evA)) = (IF evA.k = "Null" THEN 0 ELSE 1)
(* every element is compared with every other one *)
Complete == turn = "done" /\ src.ia # <<<<"null">>>> => at = <<Len(src.ia), Len(src.ib)>> /\ out = <<1>>
CompareTypeOK == turn \in {"outer", "inner", "last", "done"} /\ (out = <<>> \/ out[1] \in 0..5)
=============================================================================
