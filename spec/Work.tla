-------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* How much there is to do for inputs too large to be followed, and how    *)
(* long it may take (C32).  Continues Shapes:                              *)
(*   21  a certificate with n different unknown extensions                 *)
(*   22  a certificate with n times the same known one                     *)
(*   23  n alternative names            24  n purposes                     *)
(*   25  a name of n sets               26  a name of n attributes in one  *)
(*   27  a key identifier of n octets                                      *)
(*   28  serial number and signature of n octets                           *)
(*   29  n purposes, then one that is refused                              *)
(*   30  an attribute of n letters, then a second one of the same type     *)
(*   31  an attribute of n letters                                         *)
(*   32  an address of n octets         33  an identifier of n + 1 octets  *)
(*   34  n extensions, then one that is refused                            *)
(*   35  n bits of key usage                                               *)
(*   36  a role of n letters           37  a role whose last octet is wrong*)
(*   38  a path length of n + 4 octets                                     *)
(*   39  n names, then one refused     40  a name of n sets and an empty one*)
(* mc/MCWork derives the numbers from the machines for small n.            *)
(***************************************************************************)
EXTENDS Shapes

Answer3(mode, ok, items) == [mode |-> mode, ok |-> ok, items |-> items]
(* items: callbacks; or extensions, attributes captured, names or purposes *)
WorkOf(s, n) ==
  CASE s \in 1..14 -> LET q == SumOf(s, n) IN Answer3("der", q.ok, q.types + q.begins + q.ends + q.errors)
    [] s \in {21, 22} -> Answer3("cert", TRUE, n)
    [] s \in {23, 24} -> Answer3("ext", TRUE, n)
    [] s \in {25, 26} -> Answer3("name", TRUE, 0)
    [] s \in {27, 35, 36} -> Answer3("ext", TRUE, 0)
    [] s \in {32, 33} -> Answer3("ext", TRUE, 1)
    [] s = 28 -> Answer3("cert", TRUE, 0)
    [] s \in {29, 37, 38, 39} -> Answer3("ext", FALSE, 0)
    [] s \in {30, 40} -> Answer3("name", FALSE, 0)
    [] s = 31 -> Answer3("name", TRUE, 1)
    [] s = 34 -> Answer3("cert", FALSE, 0)

(* Microseconds of processor time: the steps of the machines are bounded   *)
(* by a multiple of the octets (WorkLinear in mc/MCWork), and a step takes *)
(* no longer because there were many before it.                            *)
WorkTime(octets) == 300000 + octets
=============================================================================
