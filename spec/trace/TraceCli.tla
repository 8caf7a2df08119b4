------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Recorded runs of the command-line tool against Cli: what was on the     *)
(* two output streams, how the process ended, and whether the file is      *)
(* still what it was.                                                      *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceIn(s) == s.x
VARIABLES i, good, bad
tvars == <<cvars, i, good, bad>>

Call(k) == [args |-> Trace[k].args, file |-> Trace[k].file, sink |-> Trace[k].sink, room |-> Trace[k].room, x |-> Trace[k].x]
Obs == Trace[i].o

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasPart(s, p) == \E k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p
Rest(s, p) == SubSeq(s, Len(p) + 1, Len(s))

Told == HasPart(Obs.err, ErrText(said))
Wrong ==
  CASE Obs.status < 0 \/ (Obs.status = 101 /\ src.sink \in {"open"} \cup Surroundings) -> "crash"
    [] status = "zero" /\ Obs.status # 0 -> "status"
    [] status = "nonzero" /\ Obs.status = 0 -> IF lost THEN "lost" ELSE "status"
    [] Obs.same = 0 -> "file"
    [] Bounded /\ Len(Obs.out) > src.room -> "stdout"
    [] lost /\ Bounded /\ src.sink = "limit" /\ Obs.out # shown -> "stdout"
    [] status = "nonzero" /\ ~lost /\ Obs.out # <<>> -> "stdout"
    [] status = "zero" /\ said = <<>> /\ src.sink # "closed" /\ Obs.out # shown -> "stdout"
    [] said # <<>> /\ ~StartsWith(Obs.out, shown) -> "stdout"
       (* after the fault only the error may follow, for which there may be no room *)
    [] said # <<>> /\ ~Bounded /\ Rest(Obs.out, shown) # <<>> /\ ~StartsWith(Rest(Obs.out, shown), B("Error")) -> "stdout"
    [] said # <<>> /\ src.sink # "deaf" /\ Obs.status = 0 /\ ~Told -> "stderr"
    [] said # <<>> /\ Bounded /\ Obs.status # 0 /\ Len(Obs.out) # src.room -> "status"
       (* in other surroundings the tool says the same *)
    [] src.sink \in Surroundings /\ Obs.err # Obs.plain -> "surroundings"
    [] OTHER -> ""

TraceInit == CliInit(Call(1)) /\ i = 1 /\ good = 0 /\ bad = 0
Follow == step # "ended" /\ CliNext /\ UNCHANGED <<i, good, bad>>
Close ==
  /\ step = "ended" /\ i <= Len(Trace)
  /\ LET w == Wrong IN
     /\ IF w = "" THEN TRUE
        ELSE PrintT("REJECT " \o ToJson([id |-> Trace[i].id, why |-> <<"cli." \o w>>, at |-> status,
                                         expected |-> [out |-> shown, err |-> IF said = <<>> THEN <<>> ELSE ErrText(said)], observed |-> Obs]))
     /\ good' = good + (IF w = "" THEN 1 ELSE 0)
     /\ bad' = bad + (IF w = "" THEN 0 ELSE 1)
  /\ i' = i + 1
  /\ IF i = Len(Trace)
     THEN /\ PrintT("SUMMARY " \o ToString(good') \o " " \o ToString(bad'))
          /\ UNCHANGED cvars
     ELSE /\ src' = Call(i + 1) /\ step' = "arguments" /\ shown' = <<>> /\ said' = <<>> /\ lost' = FALSE /\ status' = "running"
          /\ dstack' = << [pos |-> 0, end |-> 0] >> /\ dphase' = "off" /\ dev' = D!NoEv /\ derr' = <<>>
          /\ mode' = "off" /\ job' = "cert" /\ xstack' = << [pos |-> 0, end |-> 0] >> /\ pc' = "off"
          /\ aux' = "" /\ cur' = <<>> /\ r' = XM!NoResults
TraceSpec == TraceInit /\ [][Follow \/ Close]_tvars
=============================================================================
