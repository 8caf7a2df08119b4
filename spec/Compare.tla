------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* A client that compares decoded elements (C29): in every on_type of a    *)
(* decode of one input it decodes another one and compares the element     *)
(* with each element of that; at last it compares what the two decodes     *)
(* returned.  Two decoder machines, the second inside the first.           *)
(*   turn   "outer" the first decode goes on, "inner" the second one does, *)
(*          "last" the second one once more, "done"                        *)
(*   out    what the last step told: <<>> nothing, <<code>> a comparison   *)
(***************************************************************************)
EXTENDS DerValues

CONSTANTS InA(_), InB(_)
VARIABLES src, stackA, phaseA, evA, errA, stackB, phaseB, evB, errB, turn, out
MA == INSTANCE DerMachine WITH In <- InA, stack <- stackA, phase <- phaseA, ev <- evA, err <- errA
MB == INSTANCE DerMachine WITH In <- InB, stack <- stackB, phase <- phaseB, ev <- evB, err <- errB
avars == <<stackA, phaseA, evA, errA>>
bvars == <<stackB, phaseB, evB, errB>>
pvars == <<src, avars, bvars, turn, out>>

(* What an element is: its type and its value.  Strings and containers    *)
(* are their octets, the others their meaning.  DER knows one encoding of  *)
(* an integer and of a bit string; whether those that differ in surplus    *)
(* sign octets or in padding are equal is left open.                       *)
Octets == {"PrintableString", "IA5String", "UTF8String", "OctetString", "Sequence", "Set", "Integer"}
Value(x, e) == IF e.k \in Octets THEN Sub(x, e.lo, e.hi)
               ELSE IF e.k = "ExplicitTag" THEN <<e.v[1], Sub(x, e.lo, e.hi)>>
               ELSE IF e.k = "BitString" THEN <<At(x, e.lo), Sub(x, e.lo, e.hi)>>
               ELSE e.v
Same(x, e, y, f) == e.k = f.k /\ Value(x, e) = Value(y, f)
RECURSIVE Minimal(_)
Minimal(c) == IF Len(c) > 1 /\ ((c[1] = 0 /\ c[2] < 128) \/ (c[1] = 255 /\ c[2] > 127)) THEN Minimal(Tail(c)) ELSE c
Alike(x, e, y, f) ==
  /\ e.k = f.k
  /\ \/ e.k = "Integer" /\ Minimal(Sub(x, e.lo, e.hi)) = Minimal(Sub(y, f.lo, f.hi))
     \/ e.k = "BitString" /\ At(x, e.lo) = At(y, f.lo) /\ PackedBits(x, e.lo + 1, e.hi, At(x, e.lo)) = PackedBits(y, f.lo + 1, f.hi, At(y, f.lo))
(* 0 different, 1 equal; for two instants 2 earlier, 3 equal, 4 later;     *)
(* 5 left open                                                             *)
Relation(x, e, y, f) ==
  IF e.k = "UTCTime" /\ f.k = "UTCTime"
  THEN IF e.v = f.v THEN 3 ELSE IF Before(e.v, f.v) THEN 2 ELSE 4
  ELSE IF Same(x, e, y, f) THEN 1 ELSE IF Alike(x, e, y, f) THEN 5 ELSE 0

(* Typed access: the wrapper types with the type each stands for.  A       *)
(* wrapper gives the value of elements of its own type and of no others.   *)
Wrappers == <<"Boolean", "Integer", "PrintableString", "IA5String", "UTF8String", "Sequence", "Set", "ObjectIdentifier",
              "OctetString", "BitString", "UTCTime", "ExplicitTag">>
Gives(e) == {w \in 1..Len(Wrappers) : Wrappers[w] = e.k}
(* An element made by its type's constructor from the value it gives is    *)
(* the same element.  Bit strings are made from their bits, which is left  *)
(* open unless the padding is clear.                                       *)
PaddingClear(c) == Len(c) = 1 \/ c[Len(c)] % Pow2[c[1] + 1] = 0
Made(x, e) == IF e.k = "BitString" THEN PaddingClear(Sub(x, e.lo, e.hi)) ELSE TRUE

Outcome(e) == IF e = <<>> THEN <<>> ELSE ErrText(e)
SameOutcome == Outcome(errA) = Outcome(errB)

InnerStart == /\ stackB' = << [pos |-> 0, end |-> ILen(InB(src))] >>
              /\ phaseB' = "scan" /\ evB' = MB!NoEv /\ errB' = <<>>
CompareInit(s) ==
  /\ MA!DerInit(s)
  /\ stackB = <<>> /\ phaseB = "off" /\ evB = [e |-> "-"] /\ errB = <<>>
  /\ turn = "outer" /\ out = <<>>
OuterStep ==
  /\ turn = "outer" /\ phaseA # "done" /\ MA!DerNext
  /\ IF evA'.e = "T" THEN turn' = "inner" /\ InnerStart
     ELSE IF phaseA' = "done" THEN turn' = "last" /\ InnerStart
     ELSE UNCHANGED <<turn, bvars>>
  /\ out' = <<>>
InnerStep ==
  /\ turn \in {"inner", "last"} /\ phaseB # "done" /\ MB!DerNext
  /\ out' = (IF turn = "inner" /\ evB'.e = "T" THEN <<Relation(InA(src), evA, InB(src), evB')>> ELSE <<>>)
  /\ UNCHANGED <<avars, turn>>
InnerEnd ==
  /\ turn = "inner" /\ phaseB = "done"
  /\ turn' = "outer" /\ out' = <<>> /\ UNCHANGED <<src, avars, bvars>>
CompareEnd ==
  /\ turn = "last" /\ phaseB = "done"
  /\ turn' = "done" /\ out' = <<IF SameOutcome THEN 1 ELSE 0>> /\ UNCHANGED <<src, avars, bvars>>
CompareNext == OuterStep \/ InnerStep \/ InnerEnd \/ CompareEnd
=============================================================================
