------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* The memory a decode may hold (C31), next to what it has reported.       *)
(* Numbers are octets of memory, as counted by the allocator under the     *)
(* real code.  The bounds leave an implementation room: what matters is    *)
(* what they depend on.                                                    *)
(*   - a generic decode keeps something for every container that is open,  *)
(*     and the arcs of the object identifier it is about to report.  It    *)
(*     keeps nothing for elements it has reported, for octets it has       *)
(*     passed, or for octets that are claimed and not there;               *)
(*   - the other calls keep their result, which is proportional to the     *)
(*     octets it was decoded from.                                         *)
(* deep  the most containers that were open at once so far, and the input  *)
(***************************************************************************)
EXTENDS DerMachine

VARIABLE deep
memvars == <<src, stack, phase, ev, err, deep>>

Fixed == 16384        \* whatever is decoded
PerOpen == 256        \* for a container
PerArc == 64          \* for an arc of an object identifier
PerOctet == 128       \* of a list of extensions, or the value of one
PerField == 64        \* octet of a certificate or a name
KeptAtMost == 65536   \* tables and the like, made once

MemMax(a, b) == IF a > b THEN a ELSE b
MemInit == deep = 1
MemStep == deep' = MemMax(deep, Len(stack'))

(* octets that may be arcs of an object identifier, in an element that is refused *)
Started == IF At(In(src), Top.pos) = 6 THEN Top.end - Top.pos ELSE 0
(* what may be held at most between the previous callback and this one     *)
StepNeed ==
  Fixed + PerOpen * deep' + PerArc * (CASE ev'.e = "T" -> IF ev'.k = "ObjectIdentifier" THEN Len(ev'.v) ELSE 0
                                        [] ev'.e = "X" -> Started
                                        [] OTHER -> 0)
CallNeed(call, n) == Fixed + n * (CASE call \in {1, 3} -> PerField [] OTHER -> PerOctet)
MemEnter == IF Len(stack') > Len(stack) THEN 1 ELSE 0

----------------------------------------------------------------------------
(* What follows: memory is linear in the octets that are there             *)
DeepEnough == 2 * (deep - 1) <= ILen(In(src))
DeepIsDepth == Len(stack) <= deep
MemProgress == [][/\ StepNeed <= Fixed + PerOpen * (1 + ILen(In(src)) \div 2) + PerArc * ILen(In(src))
                  /\ ev'.e = "X" => deep' = deep                        \* nothing for what is not there
                  /\ ev'.e = "T" => deep' <= deep + MemEnter]_memvars
=============================================================================
