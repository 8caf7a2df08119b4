------------------------------- MODULE MCBits -------------------------------
(***************************************************************************)
(* All histories of up to Steps operations of a client that reads a bit    *)
(* string through iterators (BitIter).  Each complete history is printed   *)
(* as a case <<"bits", octets, 0, 0, <<>>, op, argument, op, argument...>> *)
(* and replayed on the real iterator; TraceMisc checks every result.       *)
(* Operations: 0 new iterator, 1 next, 2 nth, 3 count, 4 last, 5 ones; *)
(* argument 2^30 of nth is run as the largest there is.                    *)
(***************************************************************************)
EXTENDS BitIter, Encoder, Json

CONSTANT Steps
VARIABLES octets, hist
vars == <<bits, pos, out, octets, hist>>

Strings8 == { <<0>>, <<0, 255>>, <<7, 128>>, <<3, 170, 160>>, <<1, 2, 4, 6>>, <<0, 0, 255>>, <<5, 1, 2, 3, 4, 224>> }
InitHistories ==
  \E c \in Strings8 : octets = c /\ hist = <<>> /\ BitInit(BitContent(Plain(c), 0, Len(c)).v)

Skips == {0, 1, 7, 1073741824}
Done(o, a) == /\ hist' = hist \o <<o, a>>
              /\ UNCHANGED octets
              /\ IF Len(hist') = 2 * Steps THEN PrintT("CASE " \o ToJson(<<"bits", TLV(3, octets), 0, 0, <<>>>> \o hist')) ELSE TRUE
Next ==
  /\ Len(hist) < 2 * Steps
  /\ \/ NewIter /\ Done(0, 0)
     \/ NextBit /\ Done(1, 0)
     \/ \E k \in Skips : Nth(k) /\ Done(2, k)
     \/ Count /\ Done(3, 0)
     \/ LastBit /\ Done(4, 0)
     \/ CountOnes /\ Done(5, 0)

(* the bits a client has been given, in order, since the last new iterator *)
Bounded == pos \in 0..BitSize(bits) /\ out \in -1..BitSize(bits)
Ended == pos = BitSize(bits) => Bit(pos) = -1
(* only a new iterator goes back *)
Forward == [][pos' >= pos \/ hist'[Len(hist') - 1] = 0]_vars
=============================================================================
