------------------------------ MODULE MCValues ------------------------------
(***************************************************************************)
(* Bounded exhaustive models of primitive values: every content is decoded *)
(* as a single element and the result compared with what the encoder, or a *)
(* definition by re-encoding, says about it.                               *)
(***************************************************************************)
EXTENDS MCDer

CONSTANT Years          \* of generalized times
KindId == [Boolean |-> 1, Integer |-> 2, BitString |-> 3, OctetString |-> 4, Null |-> 5,
           ObjectIdentifier |-> 6, UTF8String |-> 12, PrintableString |-> 19, IA5String |-> 22,
           UTCTime |-> 23, GeneralizedTime |-> 24]
One(kind, c) == Plain(TLV(KindId[kind], c))
BadSome == [t |-> "rejected"]
Ok1(kind, v, a, n, len) ==
  LET lo == HeadLen(len) IN
  [t |-> "ok", evs |-> << [e |-> "T", k |-> ReportedKind(kind), v |-> v, a |-> a, n |-> n,
                           lo |-> lo, hi |-> lo + len], EvReturn(<<>>) >>]
Content1 == Sub(MCIn(src), Types[1].lo, Types[1].hi)
RECURSIVE Tuples(_, _)
Tuples(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, e) : s \in Tuples(S, n - 1), e \in S}

(* invariants for witnesses that only this module uses *)
Rejected == Ended /\ src.w.t = "rejected" => ~Answer.ok

----------------------------------------------------------------------------
(* Booleans and nulls (C08)                                                *)
InitBoolNull ==
  \/ \E b \in Byte : Begin(One("Boolean", <<b>>),
       IF b \in {0, 255} THEN Ok1("Boolean", <<IF b = 255 THEN 1 ELSE 0>>, 0, 0, 1)
       ELSE [t |-> "bad", errs |-> {<<"BadBooleanValue", b>>}])
  \/ \E n \in {0, 2, 3, 4, 127, 128, 255, 256}, b \in {0, 1, 255} :
       Begin(One("Boolean", [i \in 1..n |-> b]), [t |-> "bad", errs |-> {<<"BadBooleanLength", n>>}])
  \/ \E a \in {0, 255}, b \in {0, 255} :
       Begin(One("Boolean", <<a, b>>), [t |-> "bad", errs |-> {<<"BadBooleanLength", 2>>}])
  \/ \E n \in {0, 1, 2, 3, 127, 128, 255, 256}, b \in {0, 5, 255} :
       Begin(One("Null", [i \in 1..n |-> b]),
             IF n = 0 THEN Ok1("Null", <<>>, 0, 0, 0) ELSE [t |-> "bad", errs |-> {<<"NullWithContents", n>>}])

(* Integers (C08): all contents up to two octets, corner octets up to      *)
(* Depth octets, long ones                                                 *)
Corner == {0, 1, 127, 128, 255}
InitInt ==
  \/ \E a \in Byte : Begin(One("Integer", <<a>>), Free)
  \/ \E a \in Byte, b \in Byte : Begin(One("Integer", <<a, b>>), Free)
  \/ \E n \in 3..Depth : \E c \in Tuples(Corner, n) : Begin(One("Integer", c), Free)
  \/ \E a \in Byte, p \in 1..4, q \in 4..5 : \E f \in {0, 255, 85} :
       p <= q /\ Begin(One("Integer", [i \in 1..q |-> IF i = p THEN a ELSE f]), Free)
  \/ \E n \in {6, 7, 8, 9, 15, 16, 17, 20, 126, 127, 128, 129, 255, 256, 257, 1000}, f \in Corner, g \in Corner :
       Begin(One("Integer", [i \in 1..n |-> IF i = 1 THEN f ELSE g]), Free)
  \/ Begin(One("Integer", <<>>), [t |-> "bad", errs |-> {<<"ZeroLengthInteger">>}])
(* contents without redundant leading octets *)
RECURSIVE Minimise(_)
Minimise(c) == IF Len(c) > 1 /\ ((c[1] = 0 /\ c[2] < 128) \/ (c[1] = 255 /\ c[2] > 127))
               THEN Minimise(Tail(c)) ELSE c
IntegerMeaning ==
  Accepted /\ Types # <<>> /\ Types[1].k = "Integer" =>
    LET t == Types[1] IN
    /\ t.n = Len(Content1) /\ t.n >= 1 /\ Sub(MCIn(src), t.a, t.a + t.n) = Content1
    /\ (t.n <= 4) = (t.v # <<>>)
    /\ t.v # <<>> => IntOctets(t.v[1]) = Minimise(Content1)
IntegersAccepted == Ended /\ src.w.t = "none" /\ At(MCIn(src), 0) = 2 => Answer.ok
(* values chosen, encoded minimally *)
InitIntValues ==
  \E i \in (-300..300) \cup {32767, 32768, -32768, -32769, 8388607, 8388608, -8388608, -8388609, 16777215,
                             16777216, 2147483647, -2147483647, MinInt32, 65535, 65536, 50316, 2147483392,
                             1073741824, -1073741825, 1000000, -1000000} :
     LET e == IntEl(i) IN Begin(Plain(Enc(e)), [t |-> "tree", f |-> <<e>>])

(* Bit strings (C09)                                                       *)
InitBits ==
  \/ Begin(One("BitString", <<>>), BadSome)
  \/ \E u \in Byte, d \in {<<>>, <<0>>, <<255>>, <<165>>, <<1, 128>>, <<255, 255, 255>>} :
       Begin(One("BitString", <<u>> \o d),
             IF u > 7 \/ (u > 0 /\ d = <<>>) THEN [t |-> "bad", errs |-> {<<"UnusedBits", u>>}] ELSE Free)
  \/ \E u \in 0..7, d \in Byte : Begin(One("BitString", <<u, d>>), Free)
  \/ \E u \in 0..7, n \in 2..Width : \E d \in Tuples({0, 1, 128, 255, 90}, n) :
       Begin(One("BitString", <<u>> \o d), Free)
  \/ \E u \in 0..7, n \in {30, 31, 32, 33, 34, 64, 126, 127, 128, 129, 255, 256, 257} :
       Begin(One("BitString", <<u>> \o [i \in 1..n |-> (37 * i) % 256]), Free)
  \/ \E n \in 0..40, f \in {0, 1, 2} :     \* from the bits
       LET e == BitsEl([i \in 1..n |-> IF f = 2 THEN i % 2 ELSE f]) IN
       Begin(Plain(Enc(e)), [t |-> "tree", f |-> <<e>>])
(* the bits as a list, packed again by the encoder, give the contents with *)
(* the unused bits cleared                                                 *)
BitMeaning ==
  Accepted /\ Types # <<>> /\ Types[1].k = "BitString" =>
    LET t == Types[1]
        c == Content1
        u == c[1]
        bits == [i \in 1..BitSize(t.v) |-> BitAt(t.v, i - 1)]
        cleared == [i \in DOMAIN c |-> IF i = Len(c) /\ i > 1 THEN c[i] - (c[i] % Pow2[u + 1]) ELSE c[i]]
    IN /\ u <= 7 /\ (Len(c) = 1 => u = 0)
       /\ BitSize(t.v) = 8 * (Len(c) - 1) - u
       /\ BitOctets(bits) = cleared
       /\ HasOctets(t.v) = (u = 0)
       /\ HasOctets(t.v) => Sub(MCIn(src), t.a, t.a + t.n) = Tail(c)

(* Object identifiers (C10)                                                *)
ArcReps == {0, 1, 39, 40, 79, 80, 119, 127, 128, 129, 255}
FirstPairs == {<<a, b>> : a \in {0, 1}, b \in {0, 1, 5, 38, 39}} \cup
              {<<2, b>> : b \in {0, 1, 5, 39, 40, 47, 48, 79, 80, 100, 127, 128, 999, 16303, 16304, 2097071, 2097072, 268435375}}
LaterArcs == {0, 1, 39, 40, 80, 127, 128, 129, 255, 256, 16383, 16384, 16385, 50316, 2097151, 2097152, 268435455}
InitOid ==
  \/ \E n \in 0..Width : \E c \in Tuples(ArcReps, n) : Begin(One("ObjectIdentifier", c), Free)
  \/ \E a \in Byte : \E c \in {<<a>>, <<a, 0>>, <<42, a>>, <<42, a, 1>>, <<129, a>>, <<42, 129, a>>, <<a, 255, 255, 127>>} :
       Begin(One("ObjectIdentifier", c), Free)
  \/ \E k \in 1..6, l \in {0, 1, 127, 128, 129, 255}, m \in {1, 127, 128, 129, 255}, pre \in {<<>>, <<42>>, <<42, 3>>, <<42, 134, 72>>},
        post \in {<<>>, <<5>>} :      \* numbers of k octets
       Begin(One("ObjectIdentifier", pre \o [i \in 1..k |-> IF i = 1 THEN (IF k = 1 THEN l ELSE 128 + (m % 128))
                                                            ELSE IF i = k THEN l ELSE 255] \o post), Free)
  \/ \E p \in FirstPairs : \E n \in 0..2 : \E s \in Tuples(LaterArcs, n) :
       LET e == OidEl(p \o s) IN Begin(Plain(Enc(e)), [t |-> "tree", f |-> <<e>>])
  \/ \E n \in {10, 20, 50, 126, 127, 128, 200}, a \in {1, 127, 128, 16384} :
       LET e == OidEl(<<1, 3>> \o [i \in 1..n |-> a]) IN Begin(Plain(Enc(e)), [t |-> "tree", f |-> <<e>>])
(* cut into numbers at the octets below 128 *)
RECURSIVE Numbers(_)
Numbers(c) ==
  IF c = <<>> THEN <<>>
  ELSE LET ends == {i \in DOMAIN c : c[i] < 128} IN
       IF ends = {} THEN <<c>>
       ELSE LET k == CHOOSE i \in ends : \A j \in ends : i <= j
            IN <<SubSeq(c, 1, k)>> \o Numbers(SubSeq(c, k + 1, Len(c)))
NumberValue(s) == FoldLeft(LAMBDA acc, b : acc * 128 + (b % 128), 0, s)
OidReadable(c) == /\ c # <<>> /\ c[Len(c)] < 128
                  /\ \A i \in DOMAIN Numbers(c) : Len(Numbers(c)[i]) <= 4
OidMeaning ==
  Ended /\ ILen(MCIn(src)) < 200 /\ At(MCIn(src), 0) = 6 =>
    LET x == MCIn(src)
        c == Sub(x, HeadLen(ILen(x) - (IF ILen(x) < 130 THEN 2 ELSE 3)), ILen(x))
    IN /\ Answer.ok = OidReadable(c)
       /\ Answer.ok =>
            LET v == Types[1].v
                nums == [i \in DOMAIN Numbers(c) |-> NumberValue(Numbers(c)[i])]
            IN /\ Len(v) = Len(nums) + 1
               /\ SubSeq(v, 3, Len(v)) = Tail(nums)
               /\ 40 * v[1] + v[2] = nums[1] /\ v[1] \in 0..2 /\ (v[1] < 2 => v[2] < 40)

(* Strings (C11)                                                           *)
(* representatives of every class of octets that UTF-8 distinguishes, both *)
(* ends of every range                                                     *)
Utf8Reps == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239,
             240, 241, 243, 244, 245, 255}
StringIds == {"UTF8String", "PrintableString", "IA5String"}
InitUtf8 ==
  \/ \E n \in 0..2, k \in StringIds : \E c \in Tuples(Utf8Reps, n) : Begin(One(k, c), Free)
  \/ \E n \in 3..Width : \E c \in Tuples(Utf8Reps, n) : Begin(One("UTF8String", c), Free)
  \/ \E a \in Byte, b \in Byte : Begin(One("UTF8String", <<a, b>>), Free)
  \/ \E a \in Byte, b \in {128, 143, 144, 159, 160, 191}, k \in StringIds : Begin(One(k, <<97, a, b, 128>>), Free)
  \/ \E a \in 224..247, b \in {127, 128, 143, 144, 159, 160, 191, 192}, c \in {127, 128, 191, 192}, d \in {128, 191, 192, 65}, k \in StringIds :
       Begin(One(k, <<a, b, c, d>>), Free)
(* every scalar value range boundary, alone and in company *)
Scalars == {0, 1, 9, 10, 31, 32, 64, 65, 95, 126, 127, 128, 129, 233, 255, 256, 2046, 2047, 2048, 2049, 4095, 4096,
            8364, 55294, 55295, 57344, 57345, 65279, 65533, 65534, 65535, 65536, 65537, 128512, 262143, 262144,
            1048575, 1048576, 1114110, 1114111}
InitScalars ==
  \/ \E p \in Scalars, q \in Scalars, k \in StringIds :
       LET c == CharOctets(p) \o CharOctets(q)
           e == Prim(KindId[k], c, k, <<>>)
       IN Begin(Plain(Enc(e)), [t |-> "tree", f |-> <<e>>])
  \/ \E p \in Scalars, n \in {0, 1, 7, 8, 15, 16, 63, 120, 250}, k \in StringIds :
       LET c == [i \in 1..n |-> 97] \o CharOctets(p) \o [i \in 1..n |-> 98]
           e == Prim(KindId[k], c, k, <<>>)
       IN Begin(Plain(Enc(e)), [t |-> "tree", f |-> <<e>>])
  \/ \E p \in 55296..57343 : p % 64 \in {0, 63} /\         \* surrogates
       Begin(One("UTF8String", <<237, 128 + ((p \div 64) % 64), 128 + (p % 64)>>), BadSome)
  \/ \E p \in Scalars, n \in {0, 7, 15, 31, 63}, cut \in 1..3 :     \* cut characters
       Len(CharOctets(p)) > cut /\
       Begin(One("UTF8String", [i \in 1..n |-> 97] \o SubSeq(CharOctets(p), 1, cut)), BadSome)
(* well-formed: a concatenation of encodings of scalar values *)
ScalarOf(s) ==
  CASE Len(s) = 1 -> s[1]
    [] Len(s) = 2 -> (s[1] - 192) * 64 + s[2] - 128
    [] Len(s) = 3 -> (s[1] - 224) * 4096 + (s[2] - 128) * 64 + s[3] - 128
    [] Len(s) = 4 -> (s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + s[4] - 128
IsChar(s) == LET n == ScalarOf(s) IN n \in 0..1114111 /\ n \notin 55296..57343 /\ CharOctets(n) = s
RECURSIVE WellFormed(_)
WellFormed(s) == s = <<>> \/ \E n \in 1..MinOf(4, Len(s)) : IsChar(SubSeq(s, 1, n)) /\ WellFormed(SubSeq(s, n + 1, Len(s)))
LongestGood(s) == CHOOSE n \in 0..Len(s) : WellFormed(SubSeq(s, 1, n)) /\ \A m \in (n + 1)..Len(s) : ~WellFormed(SubSeq(s, 1, m))
StringMeaning ==
  Ended /\ ILen(MCIn(src)) < 60 /\ At(MCIn(src), 0) \in {12, 19, 22} =>
    LET c == Sub(MCIn(src), 2, ILen(MCIn(src))) IN
    /\ Answer.ok = WellFormed(c)
    /\ Answer.ok => Sub(MCIn(src), Types[1].a, Types[1].a + Types[1].n) = c
    /\ ~Answer.ok => Answer.t[1] = "BadUTF8" /\ Answer.t[2] = LongestGood(c)

(* Times (C12)                                                             *)
(* A record holds all days of one month, so that neighbours can be         *)
(* compared.                                                               *)
MonthDays(y, m) == DaysInMonth(y, m)
Clock == << <<0, 0, 0>>, <<23, 59, 59>>, <<12, 34, 56>>, <<0, 59, 0>>, <<23, 0, 59>> >>
ClockOn(y, m, d) == Clock[((y + m + d) % 5) + 1]
TimeEl(gen, y, m, d, h, mi, s) ==
  LET c == IF gen THEN GenOctets(y, m, d, h, mi, s) ELSE UtcOctets(y, m, d, h, mi, s)
  IN Prim(IF gen THEN 24 ELSE 23, c, "UTCTime", <<DaysSinceEpoch(y, m, d), SecOfDay(h, mi, s)>>)
Month(gen, y, m) ==
  LET f == [d \in 1..MonthDays(y, m) |-> LET c == ClockOn(y, m, d) IN TimeEl(gen, y, m, d, c[1], c[2], c[3])]
  IN Begin(Plain(Encs(f)), [t |-> "month", f |-> f])
InitMonthsUtc == \E y \in 1970..2049, m \in 1..12 : Month(FALSE, y, m)
InitMonthsGen == \E y \in Years, m \in 1..12 : Month(TRUE, y, m)
(* every reported instant is one day after its predecessor, at the time of *)
(* day written                                                             *)
Consecutive ==
  Ended /\ src.w.t = "month" =>
    /\ Answer.ok /\ Len(Types) = Len(src.w.f)
    /\ \A i \in DOMAIN Types : Types[i].v = src.w.f[i].v /\ Types[i].k = "UTCTime"
    /\ \A i \in 2..Len(Types) : Before(Types[i - 1].v, Types[i].v) /\ Types[i].v[1] = Types[i - 1].v[1] + 1
(* the turns of every year of generalized times *)
YearDays(y) == << <<1, 1>>, <<2, MonthDays(y, 2)>>, <<3, 1>>, <<12, 31>> >>
Decade(k) ==
  LET f == [i \in 1..40 |->
              LET y == 10 * k + ((i - 1) \div 4)
                  md == YearDays(y)[((i - 1) % 4) + 1]
                  c == ClockOn(y, md[1], md[2])
              IN TimeEl(TRUE, y, md[1], md[2], c[1], c[2], c[3])]
  IN Begin(Plain(Encs(f)), [t |-> "decade", f |-> f])
InitDecades == \E k \in 197..999 : Decade(k)
(* the last day of a year comes just before the first one of the next *)
Turns ==
  Ended /\ src.w.t = "decade" =>
    /\ Answer.ok /\ Len(Types) = 40
    /\ \A i \in 1..40 : Types[i].v = src.w.f[i].v
    /\ \A i \in 2..40 : IF i % 2 = 0 /\ i % 4 # 0 THEN Types[i].v[1] - Types[i - 1].v[1] \in {58, 59}
                        ELSE IF i % 4 = 0 THEN Types[i].v[1] - Types[i - 1].v[1] = 305
                        ELSE Types[i].v[1] = Types[i - 1].v[1] + 1
DropZ(c) == SubSeq(c, 1, Len(c) - 1)
Utc(c) == One("UTCTime", c)
Gen(c) == One("GeneralizedTime", c)
Both(u, tail, w) ==   \* the same text in both formats
  \/ Begin(Utc(u \o tail), w)
  \/ Begin(Gen(<<50, 48>> \o u \o tail), w)
TimeOk(y, m, d, h, mi, s) ==
  y >= 1970 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysInMonth(y, m) /\ h < 24 /\ mi < 60 /\ s < 60
T6(y, m, d, h, mi, s) == TwoDigits(y) \o TwoDigits(m) \o TwoDigits(d) \o TwoDigits(h) \o TwoDigits(mi) \o TwoDigits(s)
UtcYear(yy) == IF yy >= 50 THEN 1900 + yy ELSE 2000 + yy
Timed(gen, y, m, d, h, mi, s) ==   \* y: full year
  LET c == (IF gen THEN TwoDigits(y \div 100) ELSE <<>>) \o T6(y % 100, m, d, h, mi, s) \o <<90>>
      k == IF gen THEN "GeneralizedTime" ELSE "UTCTime"
  IN Begin(One(k, c),
           IF TimeOk(y, m, d, h, mi, s)
           THEN Ok1(k, <<DaysSinceEpoch(y, m, d), SecOfDay(h, mi, s)>>, 0, 0, Len(c))
           ELSE [t |-> "bad", errs |-> {ErrTime}])
InitTimeFields ==
  \/ \E yy \in 0..99, md \in {<<1, 1>>, <<2, 28>>, <<2, 29>>, <<3, 1>>, <<12, 31>>} :
       Timed(FALSE, UtcYear(yy), md[1], md[2], 0, 0, 0)
  \/ \E y \in {1970, 1971, 1972, 1999, 2000, 2001, 2024, 2100, 2400, 9999}, m \in 0..13, d \in 0..32 :
       Timed(TRUE, y, m, d, 23, 59, 59)
  \/ \E k \in 20..99, e \in {-4, -1, 0}, d \in {28, 29, 30} : Timed(TRUE, 100 * k + e, 2, d, 12, 0, 0)
  \/ \E y \in {1999, 2000, 2023, 2024}, m \in 1..12, d \in {0, 28, 29, 30, 31, 32, 99} : Timed(FALSE, y, m, d, 1, 2, 3)
  \/ \E g \in BOOLEAN, h \in 0..99 : Timed(g, 2000, 2, 29, h, 0, 59)
  \/ \E g \in BOOLEAN, n \in 0..99 : Timed(g, 2001, 12, 31, 23, n, 0)
  \/ \E g \in BOOLEAN, n \in 0..99 : Timed(g, 1999, 12, 31, 23, 59, n)
  \/ \E g \in BOOLEAN, n \in 0..99 : Timed(g, 2023, n, 1, 0, 0, 0)
  \/ \E g \in BOOLEAN, n \in 0..99 : Timed(g, 2023, 1, n, 0, 0, 0)
  \/ \E h \in 0..23, mi \in {0, 1, 29, 30, 58, 59}, s \in {0, 1, 30, 59} : Timed(FALSE, 2024, 2, 29, h, mi, s)
  \/ \E y \in {0, 1, 100, 999, 1000, 1600, 1899, 1900, 1901, 1950, 1968, 1969, 1970, 2049, 2050} \cup Years,
        md \in {<<1, 1>>, <<2, 29>>, <<12, 31>>} : Timed(TRUE, y, md[1], md[2], 0, 0, 0)
(* every octet at every position *)
UtcText == T6(24, 2, 29, 19, 25, 38) \o <<90>>
InitTimeOctets ==
  \E i \in 1..13, b \in Byte :
    LET c == [UtcText EXCEPT ![i] = b] IN
    \/ Begin(Utc(c), Free)
    \/ Begin(Gen(<<50, 48>> \o c), Free)
    \/ i <= 2 /\ Begin(Gen([<<50, 48>> EXCEPT ![i] = b] \o UtcText), Free)
(* lengths and designators *)
InitTimeForms ==
  \/ \E n \in 0..12 : Both(SubSeq(UtcText, 1, n), <<>>, BadSome)
  \/ \E t \in {B("Z"), B("z"), B("+0000"), B("-0000"), B("+0100"), B("Z0"), B("ZZ"), B(" Z"), B("Z "), B(".0Z"), B(".123Z"), B(",5Z"),
               B("+00"), B("00Z"), B("Z\""), <<90, 0>>, <<0>>, <<194, 160>>, <<>>, <<90, 195>>, <<195, 169>>, <<217, 160>>} :
       Both(DropZ(UtcText), t, IF t = B("Z") THEN Free ELSE BadSome)
  \/ \E t \in {B("Z"), B("+0000"), B("-0500"), <<>>} : Both(SubSeq(UtcText, 1, 10), t, BadSome)   \* no seconds
  \/ Begin(Gen(UtcText), BadSome) \/ Begin(Utc(<<50, 48>> \o UtcText), BadSome)                     \* exchanged
  \/ \E i \in 1..13, c \in {<<195, 169>>, <<239, 188, 145>>, <<217, 161>>} :       \* multi-octet characters
       \/ Begin(Utc(SubSeq(UtcText, 1, i - 1) \o c \o SubSeq(UtcText, i + Len(c), 13)), BadSome)
       \/ Begin(Gen(<<50, 48>> \o SubSeq(UtcText, 1, i - 1) \o c \o SubSeq(UtcText, i + Len(c), 13)), BadSome)
  \/ \E i \in 1..12, c \in {32, 43, 45, 46} :      \* signs and blanks as digits
       \/ Begin(Utc([UtcText EXCEPT ![i] = c]), BadSome) \/ Begin(Gen(<<50, 48>> \o [UtcText EXCEPT ![i] = c]), BadSome)
(* independent reading of an accepted time: writing the instant found by   *)
(* searching the calendar gives the text back                              *)
TimeMeaning ==
  Accepted /\ Len(Types) = 1 /\ Types[1].k = "UTCTime" =>
    LET c == Content1
        v == Types[1].v
        g == Len(c) = 15
        y == CHOOSE y \in 1969..9999 :
               DaysBeforeYear(y) - DaysBeforeYear(1970) <= v[1] /\ v[1] < DaysBeforeYear(y + 1) - DaysBeforeYear(1970)
        m == CHOOSE m \in 1..12 : DaysSinceEpoch(y, m, 1) <= v[1] /\ v[1] < DaysSinceEpoch(y, m, 1) + DaysInMonth(y, m)
        d == v[1] - DaysSinceEpoch(y, m, 1) + 1
    IN c = IF g THEN GenOctets(y, m, d, v[2] \div 3600, (v[2] \div 60) % 60, v[2] % 60)
           ELSE UtcOctets(y, m, d, v[2] \div 3600, (v[2] \div 60) % 60, v[2] % 60)
=============================================================================
