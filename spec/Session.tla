------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A client of the library that holds certificates in slots and            *)
(* interleaves decodes of the inputs of a pool (C27).                      *)
(*   answers   what each question about each input of the pool amounts to, *)
(*             which never changes: decoding is a function of the bytes    *)
(*   held      the input whose certificate each slot holds, -1 if none      *)
(*   out       what the last operation said: an answer, and for a decode   *)
(*             within another one the set of the inner answers             *)
(* answers[p] has the fields cert, fields, iname, sname, elist, print (of  *)
(* the input as a certificate), der, name, ext, and ok: whether it is a    *)
(* certificate.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES answers, held, out
svars == <<answers, held, out>>

Questions == <<"fields", "iname", "sname", "elist", "print">>
Alone == <<"der", "name", "ext">>

Load(s, p) ==                       \* what the slot held before is given up first
  /\ held' = [held EXCEPT ![s] = IF answers[p].ok THEN p ELSE -1]
  /\ out' = <<answers[p].cert, {}>>
  /\ UNCHANGED answers
Ask(s, q) ==
  /\ held[s] # -1
  /\ out' = <<answers[held[s]][q], {}>>
  /\ UNCHANGED <<answers, held>>
Drop(s) ==
  /\ held[s] # -1
  /\ held' = [held EXCEPT ![s] = -1]
  /\ out' = <<"", {}>>
  /\ UNCHANGED answers
Decode(q, p) ==
  /\ out' = <<answers[p][q], {}>>
  /\ UNCHANGED <<answers, held>>
GiveUp(p) ==                        \* a callback of a decode of p does not return: the decode is given up
  /\ out' = <<"", {}>>
  /\ UNCHANGED <<answers, held>>
GiveUpPrint(s) ==                   \* the printer does not return
  /\ held[s] # -1
  /\ out' = <<"", {}>>
  /\ UNCHANGED <<answers, held>>
Repeat(p) ==                        \* p is decoded over and over in every way, and then once more
  /\ out' = <<answers[p].der, {}>>
  /\ UNCHANGED <<answers, held>>
Within(p, q) ==                     \* q is decoded in every callback of a decode of p
  /\ out' = <<answers[p].der, {answers[q].der}>>
  /\ UNCHANGED <<answers, held>>
=============================================================================
