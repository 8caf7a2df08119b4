------------------------------ MODULE BitIter ------------------------------
(***************************************************************************)
(* Reading a bit string: a client obtains iterators and uses them.         *)
(*   bits  the decoded bit string <<size, octet view?, packed...>>         *)
(*   pos   how many bits the current iterator has yielded                  *)
(*   out   what the last operation returned: -1 is "nothing"               *)
(***************************************************************************)
EXTENDS DerValues

VARIABLES bits, pos, out
bvars == <<bits, pos, out>>

Bit(i) == IF i < BitSize(bits) THEN BitAt(bits, i) ELSE -1
Ones(from) == FoldLeft(LAMBDA acc, i : acc + BitAt(bits, i - 1), 0,
                       [i \in 1..(BitSize(bits) - from) |-> i + from])

BitInit(b) == bits = b /\ pos = 0 /\ out = 0
NewIter == pos' = 0 /\ out' = 0 /\ UNCHANGED bits
NextBit == out' = Bit(pos) /\ pos' = MinOf(pos + 1, BitSize(bits)) /\ UNCHANGED bits
(* skip k bits, yield the one after them *)
Nth(k) == out' = Bit(pos + k) /\ pos' = MinOf(pos + k + 1, BitSize(bits)) /\ UNCHANGED bits
(* operations that use up the iterator *)
Count == out' = BitSize(bits) - pos /\ pos' = BitSize(bits) /\ UNCHANGED bits
LastBit == out' = (IF pos = BitSize(bits) THEN -1 ELSE Bit(BitSize(bits) - 1)) /\ pos' = BitSize(bits) /\ UNCHANGED bits
CountOnes == out' = Ones(pos) /\ pos' = BitSize(bits) /\ UNCHANGED bits
(* bounds on the number of bits left: any correct ones *)
HintLow(lo) == lo <= BitSize(bits) - pos
HintHigh(hi) == hi >= BitSize(bits) - pos
=============================================================================
