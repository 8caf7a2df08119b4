------------------------------- MODULE MCMade -------------------------------
(***************************************************************************)
(* Values a client puts together: every combination of attributes, flags,  *)
(* purposes, kinds of names, numbers no certificate has, lengths of octets *)
(* around the lines they are printed in.  Each is printed at some depth,   *)
(* one deeper, and there again.  Cases are printed as                      *)
(* <<"made", x, 0, 0, <<>>, depth>> \o the numbers of the value.           *)
(***************************************************************************)
EXTENDS Made, FiniteSets, TLC, Json

CONSTANTS Lengths, Depths
VARIABLES steps
vars == <<mvars, steps>>
MCIn(s) == s

Case(x, v, d) ==
  /\ MadeInit(Plain(x), v, d) /\ steps = 0
  /\ PrintT("CASE " \o ToJson(<<"made", x, 0, 0, <<>>, d>> \o Numbers(v)))
Octets(n) == [i \in 1..n |-> (37 * i + 11) % 256]
Letters(n) == [i \in 1..n |-> 97 + (i % 26)]
Arcs == {<<>>, <<2>>, <<2, 5, 29, 14>>, <<2, 5, 29, 17>>, <<2, 5, 4, 3>>, <<1, 2, 840, 113549, 1, 1, 5>>, <<1, 2, 840, 113549, 1, 1>>, <<0, 0, 2147483647>>, [i \in 1..40 |-> i * i]}

(* names: every choice of attributes, with one text in each, or empty ones *)
InitMadeNames ==
  \E S \in SUBSET (1..6), t \in 1..3 :
    LET texts == << <<>>, <<120>>, <<195, 169, 10, 122>> >>
        long(i) == texts[IF t = 3 THEN 1 + (i % 3) ELSE t]
        before(i) == SumSeq([j \in 1..(i - 1) |-> IF j \in S THEN Len(long(j)) ELSE 0])
        x == Join([i \in 1..6 |-> IF i \in S THEN long(i) ELSE <<>>])
        f == [a \in {Attributes[i] : i \in 1..6} |-> LET i == NumberOf(Attributes, a) IN
                IF i \in S THEN <<SliceAt(before(i), Len(long(i)))>> ELSE <<>>]
    IN \E d \in Depths : Case(x, [k |-> "name", f |-> f], d)

Ext(kind, c, oid, crit) == [oid |-> oid, crit |-> crit, kind |-> kind, c |-> c]
None == SliceAt(0, 0)
Shown(x, e) == \E part \in 0..2 : \E d \in (IF part = 0 THEN {0} ELSE Depths) : Case(x, [k |-> "ext", part |-> part, e |-> e], d)
Flat(kind) == [SubjectKeyIdentifier |-> "ski", ModbusRole |-> "role", Unknown |-> "raw"][kind]
InitMadeContents ==
  \/ \E m \in 0..511 : LET v == [i \in 1..9 |-> (m \div (2 ^ (i - 1))) % 2] IN
       Shown(<<>>, Ext("KeyUsage", <<Item("flags", None, v)>>, <<2, 5, 29, 15>>, m % 2 = 1))
  \/ \E ca \in {0, 1} : \E p \in {<<>>, <<0>>, <<1>>, <<-1>>, <<255>>, <<-256>>, <<2147483647>>, <<-2147483647>>} :
       Shown(<<>>, Ext("BasicConstraints", <<Item("ca", None, <<ca>>)>> \o (IF p = <<>> THEN <<>> ELSE <<Item("len", None, p)>>), <<2, 5, 29, 19>>, ca = 0))
  \/ \E n \in 0..3 : \E s \in [1..n -> 1..6] :
       Shown(<<>>, Ext("ExtendedKeyUsage", [i \in 1..n |-> Item(Purposes[s[i]], None, <<>>)], <<2, 5, 29, 37>>, FALSE))
  \/ \E kind \in {"SubjectKeyIdentifier", "ModbusRole", "Unknown"}, n \in Lengths :
       LET x == IF kind = "ModbusRole" THEN Letters(n) ELSE Octets(n) IN
       Shown(x, Ext(kind, <<Item(Flat(kind), SliceAt(0, n), <<>>)>>, <<1, 2, 3>>, TRUE))
  \/ \E kind \in {"SubjectKeyIdentifier", "KeyUsage", "ExtendedKeyUsage", "Unknown"}, o \in Arcs, crit \in BOOLEAN :
       LET c == CASE kind = "KeyUsage" -> <<Item("flags", None, <<1, 0, 0, 0, 0, 0, 0, 0, 1>>)>>
                  [] kind = "ExtendedKeyUsage" -> <<>>
                  [] OTHER -> <<Item(Flat(kind), SliceAt(0, 3), <<>>)>>
       IN Case(<<1, 2, 3>>, [k |-> "ext", part |-> 0, e |-> Ext(kind, c, o, crit)], 1)

(* names of a subject: up to three of any kinds *)
OneName(k, a) ==
  IF k = "rid" THEN Item(k, None, IF a % 2 = 0 THEN <<2, 5, 4, 3>> ELSE <<1, 3, a>>)
  ELSE IF k \in {"x400", "dir", "edi"} THEN Item(k, None, <<>>) ELSE Item(k, SliceAt(a, 3), <<>>)
InitMadeAltNames ==
  \/ \E n \in 0..3 : \E s \in [1..n -> 1..9] :
       LET kind(i) == NameKinds[s[i]]
           size(i) == IF kind(i) \in {"rid", "x400", "dir", "edi"} THEN 0 ELSE 3
           c == [i \in 1..n |-> OneName(kind(i), SumSeq([j \in 1..(i - 1) |-> size(j)]))]
           x == Join([i \in 1..n |-> IF size(i) = 0 THEN <<>> ELSE <<97 + i, 46, 120>>])
       IN \E part \in {0, 2} : Case(x, [k |-> "ext", part |-> part, e |-> Ext("SubjectAlternativeName", c, <<2, 5, 29, 17>>, FALSE)], IF n < 3 THEN 2 ELSE part)
  \/ \E n \in Lengths, k \in {"other", "mail", "dns", "uri", "ip"} :
       LET x == IF k \in {"other", "ip"} THEN Octets(n) ELSE Letters(n) IN
       Case(x, [k |-> "ext", part |-> 1, e |-> Ext("SubjectAlternativeName", <<Item(k, SliceAt(0, n), <<>>)>>, <<>>, TRUE)], n % 3)

InitMadeParts ==
  \E d \in Depths :
    \/ \E a \in {0, 1, 18262, 2932896}, b \in {0, 86399}, c \in {0, 19723, 4000000} : Case(<<>>, [k |-> "validity", nb |-> <<a, b>>, na |-> <<c, 86399 - b>>], d)
    \/ \E o \in Arcs : Case(<<>>, [k |-> "alg", oid |-> o], d)
    \/ \E o \in Arcs, n \in {0, 1, 16, 17}, u \in {0, 3} : (u = 0 \/ n > 0) /\ Case(Octets(n), [k |-> "key", oid |-> o, u |-> u], d)
    \/ \E n \in Lengths, u \in {0, 1, 7} : (u = 0 \/ n > 0) /\ Case(Octets(n), [k |-> "bits", u |-> u], d)
    \/ \E n \in Lengths, k \in {"octets", "raw"} : Case(Octets(n), [k |-> k], d)
(* identifiers near those of purposes *)
Base == <<1, 3, 6, 1, 5, 5, 7, 3>>
InitMadePurposes ==
  \/ \E n \in 0..20 : Case(<<>>, [k |-> "purpose", oid |-> Base \o <<n>>], 0)
  \/ \E n \in {257, 258, 65537, 16777217, 2147483647} : Case(<<>>, [k |-> "purpose", oid |-> Base \o <<n>>], 0)
  \/ \E n \in 0..8 : Case(<<>>, [k |-> "purpose", oid |-> SubSeq(Base, 1, n)], 0)
  \/ \E i \in 1..8, v \in {-1, 1}, n \in {1, 4, 9} : Case(<<>>, [k |-> "purpose", oid |-> [Base EXCEPT ![i] = @ + v] \o <<n>>], 0)
  \/ \E n \in {1, 2, 9}, t \in {<<0>>, <<1>>, <<0, 0>>} : Case(<<>>, [k |-> "purpose", oid |-> Base \o <<n>> \o t], 0)
  \/ \E n \in {1, 3} : \E h \in {<<>>, <<0>>, <<1>>} : Case(<<>>, [k |-> "purpose", oid |-> h \o Tail(Base) \o <<n>>], 0)

Next ==
  /\ steps < 5 /\ steps' = steps + 1
  /\ IF steps = 1 THEN Open ELSE IF steps = 3 THEN Shut ELSE Show

(* Properties *)
Texts(s) == {s[i][2] : i \in DOMAIN s}
Split == \E i \in 1..ILen(src) : At(src, i - 1) = 10
(* a client's instructions say all there is to a value *)
Said == ValueOf(src, Numbers(held)) = held
(* lines are in the client's block or deeper, none more than one deeper    *)
(* than the line before it                                                 *)
Nested ==
  ~Split => /\ \A i \in DOMAIN lines : lines[i][1] >= 0
            /\ \A i \in 2..Len(lines) : lines[i][1] <= lines[i - 1][1] + 1
(* the same lines at every depth *)
Shifts ==
  ~Split => LET o == LinesOf(src, held, 0) IN \A d \in {1, 5} : LinesOf(src, held, d) = [i \in DOMAIN o |-> <<o[i][1] + d, o[i][2]>>]
(* every flag, purpose, name and text is shown once *)
Count(s, P(_)) == Len(SelectSeq(s, P))
AllShown ==
  lines = <<>> \/
  CASE held.k = "name" -> ~Split => Len(lines) = Cardinality({a \in DOMAIN held.f : held.f[a] # <<>>})
    [] held.k = "ext" /\ held.part # 0 ->
         (CASE held.e.kind = "KeyUsage" -> Len(lines) = 1 + SumSeq(held.e.c[1].v) /\ \A i \in 1..9 : (B(FlagNames[i]) \in Texts(lines)) = (held.e.c[1].v[i] = 1)
            [] held.e.kind = "ExtendedKeyUsage" -> Len(lines) = 1 + Len(held.e.c)
            [] held.e.kind = "BasicConstraints" -> Len(lines) = Len(held.e.c)
            [] held.e.kind = "SubjectAlternativeName" -> Count(lines, LAMBDA l : l[1] = lines[1][1] + 1) = Len(held.e.c)
            [] OTHER -> TRUE)
    [] held.k = "ext" -> lines[1] = <<blocks, B(ExtName[held.e.kind])>> \/ steps \in {2, 4}
    [] held.k \in {"octets", "raw"} -> SumSeq([i \in DOMAIN lines |-> (Len(lines[i][2]) + 1) \div 3]) = ILen(src)
    [] OTHER -> TRUE
(* what has a purpose has the one of that number *)
PurposeRight == held.k = "purpose" => PurposeOf(held.oid) = <<>> \/ (Len(held.oid) = 9 /\ PurposeNumbers[PurposeOf(held.oid)[1]] = held.oid[9])
Balanced == [][blocks' - blocks \in {-1, 0, 1} /\ (lines' # lines => blocks' = blocks)]_vars
=============================================================================
