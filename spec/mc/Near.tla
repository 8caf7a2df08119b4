-------------------------------- MODULE Near --------------------------------
(* Object identifiers close to a given one: an arc that differs by a       *)
(* little or by a power of two, an arc more or less, two arcs exchanged.   *)
EXTENDS Integers, Sequences
Differences == {1, 2, 8, 64, 128, 256, 512, 16384, 32768, 65536, 131072, 1048576, 16777216, 134217728}
Put(s, i, v) == [s EXCEPT ![i] = v]
(* the first two arcs share a number; arcs have at most 28 bits *)
Encodable(a) == /\ Len(a) >= 2 /\ a[1] \in 0..2 /\ \A i \in DOMAIN a : a[i] >= 0 /\ a[i] < 268435456
                /\ (a[1] < 2 => a[2] < 40) /\ (a[1] = 2 => a[2] < 268435376)
Nearby(a) == {x \in
     {Put(a, i, a[i] + d) : i \in DOMAIN a, d \in Differences}
  \cup {Put(a, i, a[i] - d) : i \in DOMAIN a, d \in {1, 2, 8, 64, 128, 256}}
  \cup {Put(a, i, 0) : i \in DOMAIN a} \cup {Put(Put(a, i, a[j]), j, a[i]) : i \in DOMAIN a, j \in DOMAIN a}
  \cup {SubSeq(a, 1, n) : n \in 2..Len(a)} \cup {SubSeq(a, n, Len(a)) : n \in 2..Len(a)}
  \cup {SubSeq(a, 1, n) \o SubSeq(a, n + 2, Len(a)) : n \in 0..(Len(a) - 1)}
  \cup {SubSeq(a, 1, n) \o <<v>> \o SubSeq(a, n + 1, Len(a)) : n \in 0..Len(a), v \in {0, 1, 127, 128, a[Len(a)]}}
  \cup {a \o a} : Encodable(x)}
=============================================================================
