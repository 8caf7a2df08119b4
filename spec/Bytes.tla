------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Inputs, text and octet arithmetic shared by all modules.                *)
(*                                                                         *)
(* An input is a record [pre, fb, fn, post] standing for the octets of     *)
(* pre, then fn copies of the octet fb, then post: inputs with megabytes   *)
(* of contents stay small.  Offsets are 0-based as in the implementation.  *)
(* Ranges are half open: [lo, hi).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Byte == 0..255

Plain(s) == [pre |-> s, fb |-> 0, fn |-> 0, post |-> <<>>]
ILen(x) == Len(x.pre) + x.fn + Len(x.post)
At(x, p) ==
  LET i == p + 1
      n == Len(x.pre)
  IN  IF i <= n THEN x.pre[i]
      ELSE IF i <= n + x.fn THEN x.fb
      ELSE x.post[i - n - x.fn]
Sub(x, lo, hi) == IF hi <= Len(x.pre) THEN SubSeq(x.pre, lo + 1, hi)
                  ELSE [i \in 1..(hi - lo) |-> At(x, lo + i - 1)]
Bytes(x) == Sub(x, 0, ILen(x))

(***************************************************************************)
(* Text is a sequence of octets (what the implementation's UTF-8 strings   *)
(* are made of); B turns an ASCII literal into it.                         *)
(***************************************************************************)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharAt(s, i) == SubSeq(s, i, i)
CodeOf == [c \in {CharAt(Ascii, i) : i \in 1..Len(Ascii)} |->
             31 + CHOOSE i \in 1..Len(Ascii) : CharAt(Ascii, i) = c]
B(s) == [i \in 1..Len(s) |-> CodeOf[CharAt(s, i)]]

Join(parts) == FoldLeft(LAMBDA acc, t : acc \o t, <<>>, parts)

(* Decimal text of a 32-bit integer.                                        *)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE DecDigits(n \div 10) \o <<48 + (n % 10)>>
MinInt32 == -2147483647 - 1
Dec(n) == IF n >= 0 THEN DecDigits(n)
          ELSE IF n = MinInt32 THEN B("-2147483648")
          ELSE <<45>> \o DecDigits(-n)

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Hex2(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
(* XX:XX:..:XX *)
HexColon(s) ==
  FoldLeft(LAMBDA acc, b : IF acc = <<>> THEN Hex2(b) ELSE acc \o <<58>> \o Hex2(b), <<>>, s)

MinOf(a, b) == IF a <= b THEN a ELSE b
=============================================================================
