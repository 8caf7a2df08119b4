------------------------------ MODULE Encoder ------------------------------
(***************************************************************************)
(* X.690 encoding of abstract values, written without reference to the     *)
(* decoding operators: the decoder model is checked against it             *)
(* (decode(encode(v)) = v, and whatever is accepted encodes back).         *)
(*                                                                         *)
(* A tree node is                                                          *)
(*   [t |-> "p", id, c, val]   primitive: content octets c, value val      *)
(*   [t |-> "c", id, kids]     constructed                                 *)
(*   [t |-> "x", c, err]       octets that are no element; what is wrong   *)
(***************************************************************************)
EXTENDS Bytes

(* base 2^k digits, most significant first, at least one *)
RECURSIVE Digits(_, _)
Digits(n, base) == IF n < base THEN <<n>> ELSE Digits(n \div base, base) \o <<n % base>>

EncLen(n) == IF n <= 127 THEN <<n>> ELSE LET d == Digits(n, 256) IN <<128 + Len(d)>> \o d
(* the same length in exactly k octets after the first *)
EncLenIn(n, k) == LET d == Digits(n, 256)
                  IN <<128 + k>> \o [i \in 1..(k - Len(d)) |-> 0] \o d
TLV(id, c) == <<id>> \o EncLen(Len(c)) \o c

RECURSIVE Enc(_)
Encs(nodes) == Join([i \in DOMAIN nodes |-> Enc(nodes[i])])
Enc(n) == CASE n.t = "p" -> TLV(n.id, n.c)
            [] n.t = "c" -> TLV(n.id, Encs(n.kids))
            [] n.t = "x" -> n.c

Prim(id, c, kind, v) == [t |-> "p", id |-> id, c |-> c, kind |-> kind, v |-> v]
Con(id, kids) == [t |-> "c", id |-> id, kids |-> kids]
Raw(c, e) == [t |-> "x", c |-> c, err |-> e]

(* contents of values *)
BoolOctets(b) == IF b THEN <<255>> ELSE <<0>>

(* minimal two's complement of a 32-bit integer *)
RECURSIVE IntOctets(_)
IntOctets(i) == IF i >= -128 /\ i <= 127 THEN << (i + 256) % 256 >>
                ELSE IntOctets(i \div 256) \o << i % 256 >>   \* floored division

ArcOctets(n) == LET d == Digits(n, 128)
                IN [i \in DOMAIN d |-> IF i = Len(d) THEN d[i] ELSE d[i] + 128]
OidOctets(arcs) == Join([i \in 1..(Len(arcs) - 1) |->
                           ArcOctets(IF i = 1 THEN 40 * arcs[1] + arcs[2] ELSE arcs[i + 1])])

(* bits: sequence of 0/1 *)
BitOctets(bits) ==
  LET n == (Len(bits) + 7) \div 8
      at(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
      oct(j) == FoldLeft(LAMBDA acc, k : 2 * acc + at(8 * (j - 1) + k), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)
  IN <<8 * n - Len(bits)>> \o [j \in 1..n |-> oct(j)]

TwoDigits(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
UtcOctets(y, m, d, h, mi, s) ==
  TwoDigits(y % 100) \o TwoDigits(m) \o TwoDigits(d) \o TwoDigits(h) \o TwoDigits(mi)
  \o TwoDigits(s) \o <<90>>
GenOctets(y, m, d, h, mi, s) == TwoDigits(y \div 100) \o UtcOctets(y, m, d, h, mi, s)

(* a Unicode scalar value in UTF-8 *)
CharOctets(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

SeqEl(kids) == Con(48, kids)
SetEl(kids) == Con(49, kids)
TagEl(n, kids) == Con(160 + n, kids)
NullEl == Prim(5, <<>>, "Null", <<>>)
BoolEl(b) == Prim(1, BoolOctets(b), "Boolean", IF b THEN <<1>> ELSE <<0>>)
IntEl(i) == Prim(2, IntOctets(i), "Integer", <<i>>)
BigIntEl(c) == Prim(2, c, "Integer", <<>>)
OidEl(arcs) == Prim(6, OidOctets(arcs), "ObjectIdentifier", arcs)
OctetsEl(c) == Prim(4, c, "OctetString", <<>>)
BitsEl(bits) == LET c == BitOctets(bits)
              IN Prim(3, c, "BitString",
                      <<Len(bits), IF Len(bits) % 8 = 0 THEN 1 ELSE 0>> \o SubSeq(c, 2, Len(c)))
Utf8El(c) == Prim(12, c, "UTF8String", <<>>)
PrintableEl(c) == Prim(19, c, "PrintableString", <<>>)
Ia5El(c) == Prim(22, c, "IA5String", <<>>)
ImplicitEl(n, c) == Prim(128 + n, c, "ExplicitTag", <<n>>)

(* Depth first path operations on trees: a path is a sequence of kid       *)
(* indices.                                                                *)
RECURSIVE NodeAt(_, _)
NodeAt(n, p) == IF p = <<>> THEN n ELSE NodeAt(n.kids[Head(p)], Tail(p))
RECURSIVE PutAt(_, _, _)
PutAt(n, p, m) == IF p = <<>> THEN m
                  ELSE [n EXCEPT !.kids[Head(p)] = PutAt(@, Tail(p), m)]
RECURSIVE Paths(_)
Paths(n) == {<<>>} \cup (IF n.t # "c" THEN {}
                         ELSE UNION {{<<i>> \o p : p \in Paths(n.kids[i])} : i \in DOMAIN n.kids})
RemoveAtIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAtIdx(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
=============================================================================
