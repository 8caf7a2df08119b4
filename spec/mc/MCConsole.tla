----------------------------- MODULE MCConsole -----------------------------
(***************************************************************************)
(* All histories of up to Steps calls of a client of the console's line    *)
(* printer, begun inside `first` open blocks while another one has `rest`  *)
(* open.  Each complete history is printed as <<"con", first, rest, op,    *)
(* text, op, text...>> and replayed; the                                   *)
(* operations are                                                          *)
(*   0 begin_type  1 end_type  2 begin_line  3 print_str  4 print_fmt      *)
(*   5 println_fmt  6 println_str  7 go on with the other printer         *)
(* and the texts are numbered by Texts.  `lines` says independently what   *)
(* has been printed: lines of pieces, a piece being the depth of an        *)
(* indentation or a text.                                                  *)
(***************************************************************************)
EXTENDS Console, FiniteSets, Json

CONSTANTS Steps, Depths
VARIABLES first, rest, swapped, hist, lines
vars == <<depth, parked, shown, first, rest, swapped, hist, lines>>

InitConsole ==
  \E d \in Depths, e \in {0, 2} :
    /\ (d = 0 \/ e = 0)
    /\ depth = d /\ parked = e /\ shown = <<>> /\ first = d /\ rest = e /\ swapped = FALSE /\ hist = <<>> /\ lines = << <<>> >>

(* a line begun far inside *)
InitDeep ==
  \E d \in {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 200, 255, 256, 257, 1000} :
    /\ depth = d /\ parked = 1 /\ shown = Spaces(2 * d) /\ first = d /\ rest = 1 /\ swapped = FALSE
    /\ hist = [i \in 1..(2 * (Steps - 2)) |-> IF i = 1 THEN 2 ELSE IF i % 2 = 1 THEN 3 ELSE IF i = 2 THEN 0 ELSE 1]
    /\ lines = << <<[d |-> d]>> >>
Done(o, a) == /\ hist' = hist \o <<o, a>> /\ swapped' = (swapped # (o = 7)) /\ UNCHANGED <<first, rest>>
              /\ IF Len(hist') = 2 * Steps THEN PrintT("CASE " \o ToJson(<<"con", <<>>, 0, 0, <<>>, first, rest>> \o hist')) ELSE TRUE
Put(p) == [lines EXCEPT ![Len(lines)] = Append(lines[Len(lines)], p)]
Next ==
  /\ Len(hist) < 2 * Steps
  /\ \/ BeginType /\ Done(0, 0) /\ UNCHANGED lines
     \/ EndType /\ Done(1, 0) /\ UNCHANGED lines
     \/ Swap /\ Done(7, 0) /\ UNCHANGED lines
     \/ BeginLine /\ Done(2, 0) /\ lines' = Put([d |-> depth])
     \/ \E k \in DOMAIN Texts : \/ \E o \in {3, 4} : PrintText(Texts[k]) /\ Done(o, k) /\ lines' = Put([t |-> k])
                                \/ \E o \in {5, 6} : PrintLine(Texts[k]) /\ Done(o, k) /\ lines' = Append(Put([t |-> k]), <<>>)

Piece(p) == IF "d" \in DOMAIN p THEN Spaces(p.d) \o Spaces(p.d) ELSE Texts[p.t]
Shows == shown = Join([i \in DOMAIN lines |-> Join([k \in DOMAIN lines[i] |-> Piece(lines[i][k])])
                                              \o (IF i < Len(lines) THEN <<10>> ELSE <<>>)])
(* the depths are what the client opened and did not close with each       *)
Ops == [i \in 1..(Len(hist) \div 2) |-> hist[2 * i - 1]]
Swaps(k) == Cardinality({i \in 1..k : Ops[i] = 7})
Opens(o, which) == Cardinality({i \in DOMAIN Ops : Ops[i] = o /\ Swaps(i) % 2 = which})
Balance ==
  /\ (IF swapped THEN parked ELSE depth) = first + Opens(0, 0) - Opens(1, 0) /\ depth >= 0
  /\ (IF swapped THEN depth ELSE parked) = rest + Opens(0, 1) - Opens(1, 1) /\ parked >= 0
Grows == [][Len(shown') >= Len(shown) /\ SubSeq(shown', 1, Len(shown)) = shown]_vars
=============================================================================
