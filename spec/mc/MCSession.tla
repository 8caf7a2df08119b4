----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* All histories of Steps operations of a client with two slots on a pool  *)
(* of three inputs, the third of which is not a certificate.  A complete   *)
(* history is printed as <<"sess", <<>>, 0, 0, <<>>, op, a, b, ...>>       *)
(* without inputs: every pool will do.  The operations are                 *)
(*   0 load input b into slot a   1..5 the questions about slot a          *)
(*   6 drop slot a   7..9 decode input b generically, as a name, as an     *)
(*   extension   10 decode input b within a decode of input a              *)
(*   11 give up a decode of input b at its a-th callback   12 give up      *)
(*   printing slot a at the b-th call of the printer   13 decode input b   *)
(*   often                                                                 *)
(***************************************************************************)
EXTENDS Session, FiniteSets, TLC, Json

CONSTANT Steps
VARIABLES hist,     \* operations so far
          said      \* set of <<question, input, answer>>
vars == <<answers, held, out, hist, said>>

Pool == 1..3
Slots == 1..2
Asked == {"cert"} \cup {Questions[i] : i \in DOMAIN Questions} \cup {Alone[i] : i \in DOMAIN Alone}
InitSessions ==
  /\ answers = [p \in Pool |-> [f \in Asked \cup {"ok"} |-> IF f = "ok" THEN p < 3 ELSE ToString(p) \o f]]
  /\ held = [s \in Slots |-> -1] /\ out = <<"", {}>> /\ hist = <<>> /\ said = {}

Done(o, a, b, new) ==
  /\ hist' = hist \o <<o, a, b>> /\ said' = said \cup new
  /\ IF Len(hist') = 3 * Steps THEN PrintT("CASE " \o ToJson(<<"sess", <<>>, 0, 0, <<>>>> \o hist')) ELSE TRUE
Next ==
  /\ Len(hist) < 3 * Steps
  /\ \/ \E s \in Slots, p \in Pool : Load(s, p) /\ Done(0, s - 1, p - 1, {<<"cert", p, out'[1]>>})
     \/ \E s \in Slots : \/ \E i \in DOMAIN Questions : Ask(s, Questions[i]) /\ Done(i, s - 1, 0, {<<Questions[i], held[s], out'[1]>>})
                         \/ Drop(s) /\ Done(6, s - 1, 0, {})
                         \/ GiveUpPrint(s) /\ Done(12, s - 1, 3, {})
     \/ \E p \in Pool : \/ \E k \in {2} : GiveUp(p) /\ Done(11, k, p - 1, {})
                        \/ Repeat(p) /\ Done(13, 0, p - 1, {<<"der", p, out'[1]>>})
                        \/ \E i \in DOMAIN Alone : Decode(Alone[i], p) /\ Done(6 + i, 0, p - 1, {<<Alone[i], p, out'[1]>>})
                        \/ \E q \in Pool : Within(p, q) /\ Done(10, p - 1, q - 1, {<<"der", p, out'[1]>>} \cup {<<"der", q, x>> : x \in out'[2]})

(* the same question about the same input has one answer, whatever was     *)
(* asked in between and whichever slot holds it                            *)
OneAnswer == \A x, y \in said : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
(* different inputs are not mixed up, and what is held is a certificate    *)
NotMixed == \A x, y \in said : x[3] = y[3] => x[2] = y[2]
HeldAreCertificates == \A s \in Slots : held[s] # -1 => answers[held[s]].ok
(* a slot changes only when something is loaded into it or it is dropped   *)
Isolated == [][\A s \in Slots : held'[s] # held[s] =>
                 LET k == Len(hist) IN hist'[k + 1] \in {0, 6} /\ hist'[k + 2] = s - 1]_vars
=============================================================================
