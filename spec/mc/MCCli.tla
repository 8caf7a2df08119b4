------------------------------- MODULE MCCli -------------------------------
(* Invocations of the command-line tool (C26): all combinations of number  *)
(* of arguments, flag, kind of file and contents.                          *)
EXTENDS Cli, Encoder, Json

CONSTANTS Many, Sizes, Millions
MCIn(s) == s.x

(* the program's arguments; "FILE" stands for the path of the file,        *)
(* "OTHER" for the path of another one, "ODD" for octets that are not      *)
(* UTF-8                                                                   *)
GoodFlags == {"--der", "--certs"}
BadFlags == {"--DER", "--cert", "--certs ", "-der", "--", "", "der", "--d", "--der=", "ODD", "FILE", "--help"}
AnyFlag == GoodFlags \cup BadFlags

Alg0 == SeqEl(<<OidEl(<<1, 2, 840, 113549, 1, 1, 5>>), NullEl>>)
Name0 == SeqEl(<<SetEl(<<SeqEl(<<OidEl(<<2, 5, 4, 3>>), Utf8El(B("x"))>>)>>)>>)
Time0(y) == Prim(23, UtcOctets(y, 2, 3, 4, 5, 6), "UTCTime", <<>>)
Ext0 == SeqEl(<<OidEl(<<2, 5, 29, 19>>), OctetsEl(Enc(SeqEl(<<BoolEl(TRUE)>>)))>>)
Cert0 == SeqEl(<<SeqEl(<<TagEl(0, <<IntEl(2)>>), IntEl(7), Alg0, Name0, SeqEl(<<Time0(2020), Time0(2030)>>), Name0,
                         SeqEl(<<Alg0, BitsEl([i \in 1..272 |-> (i \div 3) % 2])>>), TagEl(3, <<SeqEl(<<Ext0>>)>>)>>),
                 Alg0, BitsEl([i \in 1..128 |-> i % 2])>>)
Contents ==
  << <<>>,
     Enc(NullEl),
     Enc(Cert0),
     Enc(Cert0) \o Enc(NullEl),
     SubSeq(Enc(Cert0), 1, Len(Enc(Cert0)) - 1),
     Enc(SeqEl(<<BitsEl([i \in 1..8 |-> 1]), SetEl(<<BitsEl(<<>>), BitsEl(<<1>>), BitsEl([i \in 1..264 |-> i % 2]), Utf8El(B("a b"))>>), IntEl(-5)>>)),
     Enc(SeqEl(<<IntEl(300), SetEl(<<OctetsEl(<<1, 2>>), Raw(<<10, 1, 1>>, <<>>), NullEl>>)>>)),
     Enc(Utf8El(<<65, 10, 66>>)) \o Enc(TagEl(3, <<TagEl(4, <<>>)>>)) \o Enc(BigIntEl(<<1, 2, 3, 4, 5, 6>>)),
     <<45, 45, 45, 45, 45, 66, 69, 71, 73, 78>>,
     Enc(SeqEl(<<SeqEl(<<SeqEl(<<SeqEl(<<SeqEl(<<BitsEl([i \in 1..136 |-> 1])>>)>>)>>)>>)>>)) >>
(* decoding starts in the middle of these in the certificate's issuer *)
Few == {1, 3, 7}

SunkCase(args, file, c, sink, room) ==
  /\ CliInit([args |-> args, file |-> file, sink |-> sink, room |-> room, x |-> Plain(c)])
  /\ PrintT("CASE " \o ToJson(<<"cli", c, 0, 0, <<>>, args, file, sink, room>>))
Case(args, file, c) == SunkCase(args, file, c, "open", 0)

ContentOf(file, c) == IF file = "device" \/ file \in Unreadable THEN <<>> ELSE c
(* every flag with every kind of file *)
InitFlags == \E f \in AnyFlag, k \in FileKinds, i \in Few :
               (k \in Readable \/ i = 1) /\ Case(<<f, "FILE">>, k, ContentOf(k, Contents[i]))
(* numbers of arguments *)
InitCounts ==
  \/ \E i \in {3, 7} : Case(<<>>, "regular", Contents[i])
  \/ \E a \in AnyFlag, i \in {3, 7} : Case(<<a>>, "regular", Contents[i])
  \/ \E f \in AnyFlag, a \in {"FILE", "--der", "--certs", "", "OTHER", "ODD"}, i \in {3, 7} :
       /\ Case(<<f, "FILE", a>>, "regular", Contents[i])
  \/ \E f \in GoodFlags, a \in {"FILE", "--der", ""} : Case(<<f, "FILE", a, a>>, "regular", Contents[3])
  \/ \E f \in GoodFlags, g \in GoodFlags : Case(<<f, g, "FILE">>, "regular", Contents[3])
(* contents *)
InitContents ==
  \/ \E f \in GoodFlags, i \in DOMAIN Contents : Case(<<f, "FILE">>, "regular", Contents[i])
  \/ \E f \in GoodFlags : LET e == Enc(Cert0) IN \E n \in 0..(Len(e) - 1) :
       (Many \/ n % 7 = 0) /\ Case(<<f, "FILE">>, "regular", SubSeq(e, 1, n))
  \/ \E b \in 0..255 : (Many \/ b % 5 = 0) /\ Case(<<"--der", "FILE">>, "regular", <<48, 2, b, 0, 5, 0>>)
  \/ \E n \in {0, 1, 15, 16, 17, 31, 32, 33, 100}, u \in {0, 1, 7} :
       Case(<<"--der", "FILE">>, "regular", Enc(SeqEl(<<Prim(3, <<u>> \o [i \in 1..n |-> (i * 7) % 256], "", <<>>), NullEl>>)))
(* every octet in every place of every type, many elements to a file       *)
AllOf(f(_), over) == Encs([i \in 1..Len(over) |-> f(over[i])])
Octs256 == [i \in 1..256 |-> i - 1]
Seven == [i \in 1..128 |-> i - 1]
PrimOf(t, c) == Prim(t, c, "", <<>>)
InitPrinted ==
  \/ \E u \in 0..7 : \E n \in {0, 1, 15, 16} : (Many \/ u % 7 = 0) /\
       Case(<<"--der", "FILE">>, "regular", AllOf(LAMBDA b : PrimOf(3, <<u>> \o [i \in 1..n |-> (b + 3 * i) % 256] \o <<b>>), Octs256))
  \/ \E n \in 1..3, k \in 1..3 : k <= n /\ LET Placed(b) == [i \in 1..n |-> IF i = k THEN b ELSE 77] IN
       \/ \E t \in {2, 4, 128, 130, 159, 67, 192} : Case(<<"--der", "FILE">>, "regular", AllOf(LAMBDA b : PrimOf(t, Placed(b)), Octs256))
       \/ \E t \in {12, 19, 22} : Case(<<"--der", "FILE">>, "regular", AllOf(LAMBDA b : PrimOf(t, Placed(b)), Seven))
       \/ Case(<<"--der", "FILE">>, "regular", AllOf(LAMBDA b : PrimOf(3, <<0>> \o Placed(b)), Octs256))
       \/ Case(<<"--der", "FILE">>, "regular", AllOf(LAMBDA b : PrimOf(6, Placed(b % 128)), Seven))
  \/ Case(<<"--der", "FILE">>, "regular", AllOf(LAMBDA b : SetEl(<<PrimOf(3, <<0, b>>), TagEl(b % 31, <<PrimOf(3, <<0, b, b>>)>>)>>), Octs256))
  \/ \E t \in 0..255 : (Many \/ t % 3 = 0) /\ Case(<<"--der", "FILE">>, "regular", Enc(IntEl(1)) \o <<t, 2, 5, 0>> \o Enc(IntEl(2)))
  \/ \E y \in {0, 1, 49} : Case(<<"--der", "FILE">>, "regular",
       AllOf(LAMBDA b : PrimOf(23, UtcOctets(1950 + y + (b % 50), 1 + (b % 12), 1 + (b % 28), b % 24, b % 60, (b * 7) % 60)), Seven))
(* sizes: octets of a file, levels, elements, certificates of many octets  *)
RECURSIVE Nest(_, _)
Nest(n, e) == IF n = 0 THEN e ELSE Nest(n - 1, Con((<<48, 49, 163>>)[1 + (n % 3)], <<e>>))
Octets(n) == [i \in 1..n |-> (41 * i + 3) % 256]
InitLarge ==
  \/ \E n \in Sizes :
       \/ \E f \in GoodFlags : Case(<<f, "FILE">>, "regular", Enc(OctetsEl(Octets(n))))
       \/ Case(<<"--der", "FILE">>, "regular", Enc(OctetsEl(Octets(n))) \o Enc(IntEl(5)))
       \/ Case(<<"--der", "FILE">>, "regular", Enc(OctetsEl(Octets(n))) \o <<5>>)
       \/ n < 3000 /\ \E e \in {BitsEl([i \in 1..(8 * n) |-> i % 2]), Utf8El([i \in 1..n |-> 97 + (i % 26)])} \cup (IF n > 4 THEN {BigIntEl(Octets(n))} ELSE {}) :
            Case(<<"--der", "FILE">>, "regular", Enc(SeqEl(<<e, NullEl>>)))
       \/ n < 600 /\ Case(<<"--der", "FILE">>, "regular", Encs([i \in 1..n |-> IF i % 5 = 0 THEN SetEl(<<NullEl>>) ELSE IntEl(i)]))
       \/ n < 300 /\ \E e \in {NullEl, BitsEl([i \in 1..136 |-> i % 2]), Raw(<<10, 1, 0>>, <<>>), SeqEl(<<>>)} :
            Case(<<"--der", "FILE">>, "regular", Enc(Nest(n, e)) \o Enc(IntEl(n)))
  \/ \E n \in Sizes : n < 3000 /\ Case(<<"--certs", "FILE">>, "regular",
       Enc(SeqEl(<<SeqEl(<<IntEl(7), Alg0, Name0, SeqEl(<<Time0(2020), Time0(2030)>>), Name0, SeqEl(<<Alg0, BitsEl(<<>>)>>),
                           TagEl(3, <<SeqEl(<<SeqEl(<<OidEl(<<1, 2, 3>>), OctetsEl(Octets(n))>>)>>)>>)>>),
                   Alg0, Prim(3, <<0>> \o Octets(n), "", <<>>)>>)))
(* files of megabytes, written in compact form: before, equal octets, after *)
Within(id, x) == [x EXCEPT !.pre = <<id>> \o EncLen(ILen(x)) \o x.pre]
Around(before, x, after) == [x EXCEPT !.pre = before \o x.pre, !.post = x.post \o after]
HugeCase(flag, x) ==
  /\ CliInit([args |-> <<flag, "FILE">>, file |-> "regular", sink |-> "open", room |-> 0, x |-> x])
  /\ PrintT("CASE " \o ToJson(<<"cli", x.pre, x.fb, x.fn, x.post, <<flag, "FILE">>, "regular", "open", 0>>))
InitHuge ==
  \E n \in Millions :
    LET big == Within(4, [pre |-> <<>>, fb |-> 5, fn |-> n, post |-> <<>>])
        name == Within(48, Within(49, Within(48, Around(Enc(OidEl(<<1, 2, 3>>)), big, <<>>))))
        tbs == Within(48, Around(Encs(<<IntEl(7), Alg0>>), name,
                                 Encs(<<SeqEl(<<Time0(2020), Time0(2030)>>), Name0, SeqEl(<<Alg0, BitsEl(<<>>)>>)>>)))
        cert == Within(48, Around(<<>>, tbs, Encs(<<Alg0, BitsEl(<<>>)>>)))
    IN \/ \E t \in {<<>>, <<5, 0>>, <<5>>, <<10, 1, 1>>} : HugeCase("--der", Around(Enc(IntEl(1)), big, t))
       \/ HugeCase("--der", Around(<<>>, Within(48, Around(Enc(NullEl), big, Enc(BoolEl(TRUE)))), Enc(IntEl(-1))))
       \/ \E t \in {<<>>, <<0>>} : HugeCase("--certs", Around(<<>>, cert, t))
       \/ HugeCase("--certs", [cert EXCEPT !.post = SubSeq(@, 1, Len(@) - 1)])
(* output that is refused at some octet, and messages that are refused (C30) *)
DerRooms == IF Many THEN 0..700 ELSE (0..90) \cup {k \in 91..700 : k % 9 = 0}
CertRooms == IF Many THEN 0..2500 ELSE {k \in 0..2500 : k < 40 \/ k % 23 = 0}
InitSinks ==
  \/ \E i \in DOMAIN Contents, k \in DerRooms : SunkCase(<<"--der", "FILE">>, "regular", Contents[i], "limit", k)
  \/ \E i \in {1, 3, 4, 5, 7}, k \in CertRooms : (i = 3 \/ k < 3) /\ SunkCase(<<"--certs", "FILE">>, "regular", Contents[i], "limit", k)
  \/ \E f \in GoodFlags, i \in DOMAIN Contents, s \in {"full", "closed", "deaf"} : SunkCase(<<f, "FILE">>, "regular", Contents[i], s, 0)
  \/ \E f \in {"--x", "--der", "--certs"}, k \in {"missing", "directory", "pipe", "stdin", "device"}, s \in {"full", "closed", "deaf", "limit"} :
       SunkCase(<<f, "FILE">>, k, ContentOf(k, Contents[3]), s, 5)
  \/ \E a \in {<<>>, <<"--der">>, <<"--der", "FILE", "FILE">>}, s \in {"full", "closed", "deaf"} : SunkCase(a, "regular", Contents[3], s, 0)
  \/ \E n \in {200, 1200, 9000} :             \* more output than buffers hold
       \E k \in {1, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384} :
         \/ n < 5000 /\ SunkCase(<<"--der", "FILE">>, "regular", Encs([j \in 1..n |-> IF j % 5 = 0 THEN SetEl(<<NullEl>>) ELSE IntEl(j)]), "limit", k)
         \/ SunkCase(<<"--der", "FILE">>, "regular", Enc(BitsEl([j \in 1..(8 * n) |-> j % 2])), "limit", k)
(* what surrounds a run *)
InitSurroundings ==
  \E s \in Surroundings :
    \/ \E f \in GoodFlags, i \in DOMAIN Contents : SunkCase(<<f, "FILE">>, "regular", Contents[i], s, 0)
    \/ \E f \in {"--x", "--der", "--certs"}, k \in FileKinds \ {"pipe", "stdin"}, i \in {1, 3} :
         (k \in Readable \/ i = 1) /\ SunkCase(<<f, "FILE">>, k, ContentOf(k, Contents[i]), s, 0)
    \/ \E a \in {<<>>, <<"--der">>, <<"--der", "FILE", "FILE">>} : SunkCase(a, "regular", Contents[3], s, 0)
    \/ \E n \in {50, 1200} : \E e \in {OctetsEl(Octets(n)), Utf8El([j \in 1..n |-> 97 + (j % 26)]), Nest(n \div 20, NullEl)} :
         SunkCase(<<"--der", "FILE">>, "regular", Enc(e) \o Enc(IntEl(n)), s, 0)
(* contents that arrive in pieces *)
InitPieces ==
  \E k \in {"pipe", "stdin"} :
    \/ \E f \in GoodFlags, i \in DOMAIN Contents : Case(<<f, "FILE">>, k, Contents[i])
    \/ \E f \in GoodFlags, n \in Sizes : n < 5000 /\ Case(<<f, "FILE">>, k, Enc(OctetsEl(Octets(n))) \o Enc(IntEl(n)))
    \/ \E n \in {0, 1, 2, 20, Len(Enc(Cert0)) - 1} : Case(<<"--certs", "FILE">>, k, SubSeq(Enc(Cert0), 1, n))
Next == CliNext \/ (step = "ended" /\ UNCHANGED cvars)    \* only what has ended may stand still
(* every run of the tool comes to an end *)
Ends == WF_cvars(CliNext) => <>(step = "ended")

(* Properties *)
Ended == step = "ended"
LinesOf(s) == Len(SelectSeq(s, LAMBDA b : b = 10))
(* the number of elements before the fault, counted by the other decoder   *)
TreeShown ==
  Ended /\ status = "zero" /\ src.args[1] = "--der" /\ In(src).fn = 0 /\ 10 \notin {Bytes(In(src))[i] : i \in 1..ILen(In(src))} =>
    LinesOf(shown) >= (IF ILen(In(src)) = 0 THEN 0 ELSE IF said = <<>> THEN 1 ELSE 0)
CertShown ==
  Ended /\ status = "zero" /\ src.args[1] = "--certs" /\ said = <<>> => SubSeq(shown, 1, 17) = B("tbs certificate:") \o <<10>>
=============================================================================
