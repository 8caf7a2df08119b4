------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Inputs too large to be followed callback by callback, described by a    *)
(* shape and a size; what a decode of them amounts to.                     *)
(*   1  n nested SEQUENCEs, the innermost empty                            *)
(*   2  n nested SETs around an element with an unsupported identifier     *)
(*   3  n NULLs in a row                                                   *)
(*   4  n empty SEQUENCEs in a row                                         *)
(*   5  n nested tagged elements, each followed by a NULL                  *)
(*   6  n nested SEQUENCEs around a NULL, then one SEQUENCE more           *)
(*   7  one octet string of n octets                                       *)
(*   8  n NULLs in a SET, then an element cut short, inside that SET       *)
(*   9  an object identifier of n + 1 octets                               *)
(*  10  a bit string of n octets                                           *)
(*  11  a text of n letters                                                *)
(*  12  n nested tagged elements, each preceded by a NULL                  *)
(*  13  a text of n letters and an octet that belongs to no character      *)
(*  14  n SEQUENCEs in a row, each with a NULL                             *)
(* mc/MCShapes derives these numbers from the machine for small n.         *)
(***************************************************************************)
EXTENDS Encoder

Sum(t, b, e, x, d, o) == [types |-> t, begins |-> b, ends |-> e, errors |-> x, depth |-> d, ok |-> o]
SumOf(shape, n) ==
  CASE shape = 1 -> Sum(n, n, n, 0, n, TRUE)
    [] shape = 2 -> Sum(n, n, 0, 1, n, FALSE)
    [] shape = 3 -> Sum(n, 0, 0, 0, 0, TRUE)
    [] shape = 4 -> Sum(n, n, n, 0, 1, TRUE)
    [] shape = 5 -> Sum(2 * n, n, n, 0, n, TRUE)
    [] shape = 6 -> Sum(n + 2, n + 1, n + 1, 0, n, TRUE)
    [] shape = 7 -> Sum(1, 0, 0, 0, 0, TRUE)
    [] shape = 12 -> Sum(2 * n, n, n, 0, n, TRUE)
    [] shape = 13 -> Sum(0, 0, 0, 1, 0, FALSE)
    [] shape = 14 -> Sum(2 * n, n, n, 0, 1, TRUE)
    [] shape \in 9..11 -> Sum(1, 0, 0, 0, 0, TRUE)
    [] shape = 8 -> Sum(n + 1, 1, 0, 1, 1, FALSE)

RECURSIVE Behind(_)
Behind(n) == IF n = 0 THEN <<>> ELSE <<NullEl, Con(161, Behind(n - 1))>>
RECURSIVE Nest(_, _, _, _)
Nest(id, n, inner, after) ==      \* n containers
  IF n = 0 THEN inner ELSE <<Con(id, Nest(id, n - 1, inner, after))>> \o after
Copies(n, e) == [i \in 1..n |-> e]
ShapeOf(shape, n) ==
  CASE shape = 1 -> Nest(48, n, <<>>, <<>>)
    [] shape = 2 -> Nest(49, n, <<Raw(<<0>>, <<"UnsupportedId", 0>>)>>, <<>>)
    [] shape = 3 -> Copies(n, NullEl)
    [] shape = 4 -> Copies(n, SeqEl(<<>>))
    [] shape = 5 -> Nest(160, n, <<>>, <<NullEl>>)
    [] shape = 6 -> Nest(48, n, <<NullEl>>, <<>>) \o <<SeqEl(<<>>)>>
    [] shape = 7 -> <<OctetsEl(Copies(n, 48))>>
    [] shape = 9 -> <<Prim(6, <<43>> \o [i \in 1..n |-> 1], "ObjectIdentifier", <<>>)>>
    [] shape = 10 -> <<Prim(3, <<5>> \o [i \in 1..n |-> 160], "BitString", <<>>)>>
    [] shape = 11 -> <<Prim(12, [i \in 1..n |-> 97], "UTF8String", <<>>)>>
    [] shape = 12 -> Behind(n)
    [] shape = 13 -> <<Prim(12, [i \in 1..n |-> 97] \o <<255>>, "UTF8String", <<>>)>>
    [] shape = 14 -> Copies(n, SeqEl(<<NullEl>>))
    [] shape = 8 -> <<SetEl(Copies(n, NullEl) \o <<Raw(<<4, 9, 1>>, <<"EndOfStream">>)>>)>>
=============================================================================
