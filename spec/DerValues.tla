----------------------------- MODULE DerValues -----------------------------
(***************************************************************************)
(* Rules of a single DER element: identifier octet, length octets and      *)
(* contents, as observable through the library, including the text of the  *)
(* error each violated rule produces.                                      *)
(*                                                                         *)
(* Deliberate leniencies of the implementation (accepted although X.690    *)
(* DER is stricter) are kept under names starting with Lenient, so that    *)
(* they are visible and not silently "idealised away".                     *)
(***************************************************************************)
EXTENDS Bytes, Calendar

----------------------------------------------------------------------------
(* Errors are tuples <<kind, arguments...>>.                               *)

ErrEOS == <<"EndOfStream">>
ErrTime == <<"BadUTCTime">>

ClassName(b) == <<"Universal", "Application", "ContextSpecific", "Private">>[(b \div 64) + 1]
FormName(b) == IF (b \div 32) % 2 = 1 THEN "Constructed" ELSE "Primitive"
TagNumber(b) == b % 32

Dotted(arcs) ==
  FoldLeft(LAMBDA acc, v : IF acc = <<>> THEN Dec(v) ELSE acc \o <<46>> \o Dec(v), <<>>, arcs)

(* The ten identifiers with a display name. *)
KnownOids == <<
  << <<1, 2, 840, 113549, 1, 1, 1>>, "RSA Encryption" >>,
  << <<1, 2, 840, 113549, 1, 1, 5>>, "SHA1 with RSA Signature" >>,
  << <<1, 3, 101, 112>>, "Ed25519 Signature" >>,
  << <<2, 5, 4, 3>>, "Common Name" >>,
  << <<2, 5, 4, 6>>, "Country Name" >>,
  << <<2, 5, 4, 7>>, "Locality Name" >>,
  << <<2, 5, 4, 10>>, "Organization Name" >>,
  << <<2, 5, 4, 11>>, "Organizational Unit Name" >>,
  << <<2, 5, 4, 8>>, "State or Province Name" >>,
  << <<1, 2, 840, 113549, 1, 9, 1>>, "Email Address" >> >>
OidText(arcs) ==
  IF \E i \in DOMAIN KnownOids : KnownOids[i][1] = arcs
  THEN B(KnownOids[CHOOSE i \in DOMAIN KnownOids : KnownOids[i][1] = arcs][2])
  ELSE Dotted(arcs)

ErrText(e) ==
  LET k == e[1] IN
  CASE k = "EndOfStream" -> B("Consumed all input before parsing required fields")
    [] k = "BadBooleanLength" -> B("Bad boolean length: ") \o Dec(e[2])
    [] k = "BadBooleanValue" -> B("Bad boolean value: ") \o Dec(e[2])
    [] k = "ZeroLengthInteger" -> B("zero length integer")
    [] k = "NullWithContents" -> B("NULL type w/ non-empty contents (length == ") \o Dec(e[2]) \o B(")")
    [] k = "UnsupportedId" ->
         B("Unsupported id: Identifier { class: ") \o B(ClassName(e[2])) \o B(", pc: ")
           \o B(FormName(e[2])) \o B(", tag: ") \o Dec(TagNumber(e[2])) \o B(" })")
    [] k = "IndefiniteLength" -> B("Encountered indefinite length encoding. Not allowed in DER.")
    [] k = "ReservedLength" -> B("Length byte count of 127 is reserved")
    [] k = "LengthByteCount" -> B("Length byte count of ") \o Dec(e[2]) \o B(" not supported")
    [] k = "BadLengthEncoding" -> B("Value ") \o Dec(e[3]) \o B(" encoded using ") \o Dec(e[2]) \o B(" bytes")
    [] k = "BadOidLength" -> B("Bad OID length")
    [] k = "BadUTF8" ->
         B("Bad UTF8 encoding: ") \o
         (IF e[3] = 0
          THEN B("incomplete utf-8 byte sequence from index ") \o Dec(e[2])
          ELSE B("invalid utf-8 sequence of ") \o Dec(e[3]) \o B(" bytes from index ") \o Dec(e[2]))
    [] k = "BadUTCTime" -> B("Bad UTC time string")
    [] k = "UnusedBits" -> B("Bit string w/ unused bits outside range [0..7]: ") \o Dec(e[2])
    [] k = "UnexpectedType" -> B("Expected ") \o B(e[2]) \o B(", but type is ") \o B(e[3])
    [] k = "ExpectedEnd" -> B("Expected end of stream but type is ") \o B(e[2])
    [] k = "IntegerTooLarge" -> B("The integer length exceeds the representation of i32: ") \o Dec(e[2])
    [] k = "BadEnumValue" -> B("The enum '") \o B(e[2]) \o B("' has not mapping for value ") \o Dec(e[3])
    [] k = "UnexpectedOid" -> B("The Object Identifier '") \o OidText(e[2]) \o B("' was unexpected.")
    [] k = "UnexpectedTag" -> B("The explicit tag '") \o Dec(e[2]) \o B("' was unexpected.")

----------------------------------------------------------------------------
(* Identifier octet -> kind, "" if unsupported.                            *)
(* LenientTagForm: a context-specific identifier is read as a tagged       *)
(* element whether its primitive/constructed bit is set or not.            *)

UniversalPrimitive ==
  [t \in 0..31 |->
    CASE t = 1 -> "Boolean" [] t = 2 -> "Integer" [] t = 3 -> "BitString"
      [] t = 4 -> "OctetString" [] t = 5 -> "Null" [] t = 6 -> "ObjectIdentifier"
      [] t = 12 -> "UTF8String" [] t = 19 -> "PrintableString" [] t = 22 -> "IA5String"
      [] t = 23 -> "UTCTime" [] t = 24 -> "GeneralizedTime" [] OTHER -> ""]

IdKind(b) ==
  CASE b < 32 -> UniversalPrimitive[b]
    [] b = 48 -> "Sequence"
    [] b = 49 -> "Set"
    [] b \in 128..191 -> IF TagNumber(b) = 31 THEN "" ELSE "ExplicitTag"
    [] OTHER -> ""
KindOf == [b \in Byte |-> IdKind(b)]

Constructed == {"Sequence", "Set", "ExplicitTag"}
Strings == {"UTF8String", "PrintableString", "IA5String"}

----------------------------------------------------------------------------
(* Length octets at p, not reading beyond hi.                              *)
(* Lengths of 2^31 and more exceed every input; they are all represented   *)
(* by Huge.                                                                *)
Huge == 2147483647
MinForCount == <<128, 256, 65536, 16777216>>

ReadLen(x, p, hi) ==
  IF p >= hi THEN [ok |-> FALSE, err |-> ErrEOS]
  ELSE LET f == At(x, p)
           c == f % 128
       IN IF f < 128 THEN [ok |-> TRUE, len |-> f, next |-> p + 1]
          ELSE IF c = 0 THEN [ok |-> FALSE, err |-> <<"IndefiniteLength">>]
          ELSE IF c = 127 THEN [ok |-> FALSE, err |-> <<"ReservedLength">>]
          ELSE IF c > 4 THEN [ok |-> FALSE, err |-> <<"LengthByteCount", c>>]
          ELSE IF p + 1 + c > hi THEN [ok |-> FALSE, err |-> ErrEOS]
          ELSE LET v == IF c = 4 /\ At(x, p + 1) > 127 THEN Huge
                        ELSE FoldLeft(LAMBDA acc, b : acc * 256 + b, 0, Sub(x, p + 1, p + 1 + c))
               IN IF v < MinForCount[c]
                  THEN [ok |-> FALSE, err |-> <<"BadLengthEncoding", c, v>>]
                  ELSE [ok |-> TRUE, len |-> v, next |-> p + 1 + c]

----------------------------------------------------------------------------
(* Contents [lo, hi) of the primitive kinds. Results: [ok, v, a, n] / err. *)

Bad(e) == [ok |-> FALSE, err |-> e]
(* a borrowed range; where an empty one points to is not observable *)
Good(v, a, n) == [ok |-> TRUE, v |-> v, a |-> IF n = 0 THEN 0 ELSE a, n |-> n]

BooleanContent(x, lo, hi) ==
  IF hi - lo # 1 THEN Bad(<<"BadBooleanLength", hi - lo>>)
  ELSE CASE At(x, lo) = 255 -> Good(<<1>>, 0, 0)
         [] At(x, lo) = 0 -> Good(<<0>>, 0, 0)
         [] OTHER -> Bad(<<"BadBooleanValue", At(x, lo)>>)

NullContent(x, lo, hi) ==
  IF hi = lo THEN Good(<<>>, 0, 0) ELSE Bad(<<"NullWithContents", hi - lo>>)

(* Two's complement, big endian; present for one to four octets.           *)
(* LenientInteger: redundant leading octets are accepted.                  *)
Int32(x, lo, hi) ==
  IF hi - lo \notin 1..4 THEN <<>>
  ELSE LET f == At(x, lo)
       IN <<FoldLeft(LAMBDA acc, b : acc * 256 + b,
                     IF f > 127 THEN f - 256 ELSE f, Sub(x, lo + 1, hi))>>
IntegerContent(x, lo, hi) ==
  IF hi = lo THEN Bad(<<"ZeroLengthInteger">>)
  ELSE Good(Int32(x, lo, hi), lo, hi - lo)

(* Bit strings. v = <<size, octet view present, packed bits...>> where the *)
(* unused bits of the last packed octet are zero.                          *)
(* LenientPadding: unused bits may be encoded as ones.                     *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
PackedBits(x, lo, hi, unused) ==
  [i \in 1..(hi - lo) |->
     IF i = hi - lo THEN At(x, hi - 1) - (At(x, hi - 1) % Pow2[unused + 1])
     ELSE At(x, lo + i - 1)]
BitContent(x, lo, hi) ==
  IF hi = lo THEN Bad(ErrEOS)
  ELSE LET u == At(x, lo) IN
    IF u > 7 \/ (u > 0 /\ hi - lo = 1) THEN Bad(<<"UnusedBits", u>>)
    ELSE Good(<<8 * (hi - lo - 1) - u, IF u = 0 THEN 1 ELSE 0>> \o PackedBits(x, lo + 1, hi, u),
              IF u = 0 THEN lo + 1 ELSE 0, IF u = 0 THEN hi - lo - 1 ELSE 0)
BitSize(v) == v[1]
BitAt(v, i) == (v[3 + (i \div 8)] \div Pow2[8 - (i % 8)]) % 2      \* bit 0 is the first
HasOctets(v) == v[2] = 1

(* Object identifiers: one fold step per octet.                            *)
(* LenientArcs: leading zero digits (octet 80) are accepted; numbers are   *)
(* limited to four octets.                                                 *)
OidStart == [arcs |-> <<>>, acc |-> 0, cnt |-> 0, bad |-> FALSE]
FirstArcs(n) == LET f == MinOf(n \div 40, 2) IN <<f, n - 40 * f>>
OidOctet(s, b) ==
  IF s.bad THEN s
  ELSE LET acc == s.acc * 128 + (b % 128)
       IN IF b >= 128
          THEN IF s.cnt = 3 THEN [s EXCEPT !.bad = TRUE]
               ELSE [s EXCEPT !.acc = acc, !.cnt = s.cnt + 1]
          ELSE [arcs |-> IF s.arcs = <<>> THEN FirstArcs(acc) ELSE Append(s.arcs, acc),
                acc |-> 0, cnt |-> 0, bad |-> FALSE]
OidContent(x, lo, hi) ==
  IF hi = lo THEN Bad(ErrEOS)
  ELSE LET s == FoldLeft(OidOctet, OidStart, Sub(x, lo, hi)) IN
       IF s.bad THEN Bad(<<"BadOidLength">>)
       ELSE IF s.cnt > 0 THEN Bad(ErrEOS)
       ELSE Good(s.arcs, 0, 0)

(* UTF-8 as an automaton: `need` continuation octets are outstanding, the  *)
(* next one must lie in [lo, hi]; `start` is the index of the current      *)
(* character, `got` how many of its octets were accepted.                  *)
(* LenientCharset: printable and IA5 strings may hold any character.       *)
Utf8Start == [i |-> 0, need |-> 0, lo |-> 128, hi |-> 191, start |-> 0, got |-> 0, bad |-> 0]
Utf8Octet(s, b) ==
  IF s.bad > 0 THEN s
  ELSE IF s.need = 0
  THEN LET lead(n, lo, hi) ==
             [s EXCEPT !.i = s.i + 1, !.need = n, !.lo = lo, !.hi = hi, !.start = s.i, !.got = 1]
       IN CASE b < 128 -> [s EXCEPT !.i = s.i + 1, !.start = s.i + 1]
            [] b \in 194..223 -> lead(1, 128, 191)
            [] b = 224 -> lead(2, 160, 191)
            [] b \in 225..236 \/ b \in 238..239 -> lead(2, 128, 191)
            [] b = 237 -> lead(2, 128, 159)
            [] b = 240 -> lead(3, 144, 191)
            [] b \in 241..243 -> lead(3, 128, 191)
            [] b = 244 -> lead(3, 128, 143)
            [] OTHER -> [s EXCEPT !.bad = 1]
  ELSE IF b >= s.lo /\ b <= s.hi
  THEN [s EXCEPT !.i = s.i + 1, !.need = s.need - 1, !.lo = 128, !.hi = 191,
                 !.got = s.got + 1, !.start = IF s.need = 1 THEN s.i + 1 ELSE s.start]
  ELSE [s EXCEPT !.bad = s.got]
StringContent(x, lo, hi) ==
  LET s == FoldLeft(Utf8Octet, Utf8Start, Sub(x, lo, hi)) IN
  IF s.bad > 0 THEN Bad(<<"BadUTF8", s.start, s.bad>>)
  ELSE IF s.need > 0 THEN Bad(<<"BadUTF8", s.start, 0>>)
  ELSE Good(<<>>, lo, hi - lo)

(* Times: yl year digits (2 or 4), then MMDDhhmmss and Z.                  *)
TimeContent(x, lo, hi, yl) ==
  LET n == yl + 11
      digit(i) == At(x, lo + i) - 48
      two(i) == 10 * digit(i) + digit(i + 1)
  IN IF hi - lo # n THEN Bad(ErrTime)
     ELSE IF \E i \in 0..(n - 2) : At(x, lo + i) \notin 48..57 THEN Bad(ErrTime)
     ELSE IF At(x, hi - 1) # 90 THEN Bad(ErrTime)
     ELSE LET y == IF yl = 4 THEN 100 * two(0) + two(2)
                   ELSE IF two(0) >= 50 THEN 1900 + two(0) ELSE 2000 + two(0)
              m == two(yl)
              d == two(yl + 2)
              h == two(yl + 4)
              mi == two(yl + 6)
              s == two(yl + 8)
          IN IF y >= 1970 /\ m \in 1..12 /\ d \in 1..DaysInMonth(y, m)
                /\ h <= 23 /\ mi <= 59 /\ s <= 59
             THEN Good(<<DaysSinceEpoch(y, m, d), SecOfDay(h, mi, s)>>, 0, 0)
             ELSE Bad(ErrTime)

Content(x, kind, lo, hi) ==
  CASE kind = "Boolean" -> BooleanContent(x, lo, hi)
    [] kind = "Integer" -> IntegerContent(x, lo, hi)
    [] kind = "BitString" -> BitContent(x, lo, hi)
    [] kind = "Null" -> NullContent(x, lo, hi)
    [] kind = "ObjectIdentifier" -> OidContent(x, lo, hi)
    [] kind \in Strings -> StringContent(x, lo, hi)
    [] kind = "UTCTime" -> TimeContent(x, lo, hi, 2)
    [] kind = "GeneralizedTime" -> TimeContent(x, lo, hi, 4)
    [] OTHER -> Good(<<>>, lo, hi - lo)         \* octet strings and containers

(* Both time types are reported as UTC time. *)
ReportedKind(kind) == IF kind = "GeneralizedTime" THEN "UTCTime" ELSE kind

----------------------------------------------------------------------------
(* The element starting at p in a container that ends at hi (p < hi).      *)
(* lo, hi: its contents; next: where its successor starts.                 *)
Elem(x, p, hi) ==
  LET id == At(x, p)
      kind == KindOf[id]
  IN IF kind = "" THEN Bad(<<"UnsupportedId", id>>)
     ELSE LET l == ReadLen(x, p + 1, hi)
          IN IF ~l.ok THEN l
             ELSE IF l.len > hi - l.next THEN Bad(ErrEOS)
             ELSE LET c == Content(x, kind, l.next, l.next + l.len)
                  IN IF ~c.ok THEN c
                     ELSE [ok |-> TRUE, k |-> ReportedKind(kind), a |-> c.a, n |-> c.n,
                           v |-> IF kind = "ExplicitTag" THEN <<TagNumber(id)>> ELSE c.v,
                           lo |-> l.next, hi |-> l.next + l.len, next |-> l.next + l.len]

----------------------------------------------------------------------------
(* Textual form of an element (C13).                                       *)
IntText(x, lo, hi) ==
  LET i == Int32(x, lo, hi) IN
  IF lo = hi THEN B("[]")                  \* never decoded, but can be constructed
  ELSE IF i = <<>> THEN HexColon(Sub(x, lo, hi)) ELSE Dec(i[1])

(* Seconds since 1970 as decimal text, from <<days, sec>>: schoolbook      *)
(* multiplication by 86400 in base 10^4 limbs.                             *)
RECURSIVE PadTo(_, _)
PadTo(t, n) == IF Len(t) >= n THEN t ELSE PadTo(<<48>> \o t, n)
SecondsText(t) ==
  LET lo == (t[1] % 10000) * 86400 + t[2]        \* < 864 086 400
      hi == (t[1] \div 10000) * 86400 + (lo \div 10000)   \* in units of 10^4 seconds
  IN IF hi = 0 THEN Dec(lo % 10000) ELSE Dec(hi) \o PadTo(Dec(lo % 10000), 4)

ElemText(x, e) ==
  CASE e.k = "Boolean" -> B("Boolean: ") \o (IF e.v[1] = 1 THEN B("true") ELSE B("false"))
    [] e.k = "Sequence" -> B("Sequence")
    [] e.k = "Set" -> B("Set")
    [] e.k \in Strings -> B(e.k) \o B(": ") \o Sub(x, e.lo, e.hi)
    [] e.k = "Integer" -> B("Integer: ") \o IntText(x, e.lo, e.hi)
    [] e.k = "Null" -> B("Null")
    [] e.k = "ObjectIdentifier" -> B("ObjectIdentifier: ") \o OidText(e.v)
    [] e.k = "UTCTime" -> B("UTCTime: ") \o SecondsText(e.v)
    [] e.k = "BitString" -> B("BitString")
    [] e.k = "OctetString" -> B("OctetString")
    [] e.k = "ExplicitTag" -> B("[") \o Dec(e.v[1]) \o B("]")
=============================================================================
