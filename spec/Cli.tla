-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* One run of the command-line tool: argument check, flag check, reading   *)
(* the file, decoding it with one of the two decoder machines while        *)
(* printing, and the end of the process.                                   *)
(*                                                                         *)
(*   src     the invocation: src.args the arguments after the program      *)
(*           name, src.file what the second one denotes, src.sink and      *)
(*           src.room what becomes of output                               *)
(*   step    where the process is                                          *)
(*   shown   octets on standard output                                     *)
(*   said    the error to be told on standard error, <<>> if none          *)
(*   lost    some output was refused                                       *)
(*   status  "running" | "zero" | "nonzero" | "either"                     *)
(* and the variables of the two decoders.                                  *)
(***************************************************************************)
EXTENDS Printer

CONSTANT In(_)
VARIABLES src, step, shown, said, lost, status,
          dstack, dphase, dev, derr,
          mode, job, xstack, pc, aux, cur, r
D == INSTANCE DerMachine WITH stack <- dstack, phase <- dphase, ev <- dev, err <- derr
XM == INSTANCE X509Machine WITH stack <- xstack
dvars == <<dstack, dphase, dev, derr>>
xvars == <<mode, job, xstack, pc, aux, cur, r>>
cvars == <<src, step, shown, said, lost, status, dvars, xvars>>

(* What a file name may denote.  Reading a directory fails like reading    *)
(* what does not exist, and so does reading what breaks off with an error. *)
(* The contents of pipes arrive in pieces.                                 *)
PlainNames == {"spaced", "leading", "trailing", "newline", "tilde", "glob", "percent", "upper", "long", "hidden", "pem", "dotdot", "backslash",
               "quoted", "variable", "response", "wide"}
Readable == {"regular", "link", "oddname", "dash", "flagname", "device", "absolute", "roundabout", "pipe", "stdin"} \cup PlainNames
Unreadable == {"missing", "directory", "below", "dangling", "loop", "empty", "badname", "failing"}
FileKinds == Readable \cup Unreadable
Flags == {"--der", "--certs"}

(* Standard output takes everything ("open"), or room octets and then      *)
(* refuses more: a full device, a pipe nobody reads, a file that must not  *)
(* grow.  With "deaf", standard error refuses everything.  What surrounds  *)
(* a run makes no difference: "terminal" (all streams are narrow ones),    *)
(* "bare" (no environment), "noisy" (an environment that programs look     *)
(* at).                                                                    *)
Surroundings == {"terminal", "bare", "noisy"}
Sinks == {"open", "full", "closed", "limit", "deaf"} \cup Surroundings
Bounded == src.sink \in {"full", "closed", "limit"}
TooMuch(s) == Bounded /\ Len(s) > src.room
Taken(s) == IF TooMuch(s) THEN SubSeq(s, 1, src.room) ELSE s

Idle == /\ dstack = << [pos |-> 0, end |-> 0] >> /\ dphase = "off" /\ dev = D!NoEv /\ derr = <<>>
        /\ mode = "off" /\ job = "cert" /\ xstack = << [pos |-> 0, end |-> 0] >> /\ pc = "off"
        /\ aux = "" /\ cur = <<>> /\ r = XM!NoResults

CliInit(s) ==
  /\ src = s /\ step = "arguments" /\ shown = <<>> /\ said = <<>> /\ lost = FALSE /\ status = "running"
  /\ Idle

Quit(st) == step' = "ended" /\ status' = st /\ UNCHANGED <<src, dvars, xvars>>
Stay == UNCHANGED <<src, shown, said, lost, status>>

CheckArguments ==
  /\ step = "arguments"
  /\ IF Len(src.args) # 2 THEN Quit("nonzero") /\ UNCHANGED <<shown, said, lost>>
     ELSE step' = "flag" /\ Stay /\ UNCHANGED <<dvars, xvars>>
CheckFlag ==
  /\ step = "flag"
  /\ IF src.args[1] \notin Flags THEN Quit("nonzero") /\ UNCHANGED <<shown, said, lost>>
     ELSE step' = "file" /\ Stay /\ UNCHANGED <<dvars, xvars>>
ReadFile ==
  /\ step = "file"
  /\ IF src.file \notin Readable THEN Quit("nonzero") /\ UNCHANGED <<shown, said, lost>>
     ELSE /\ Stay
          /\ LET all == << [pos |-> 0, end |-> ILen(In(src))] >> IN
             IF src.args[1] = "--der"
             THEN /\ step' = "der" /\ dstack' = all /\ dphase' = "scan"
                  /\ UNCHANGED <<dev, derr, xvars>>
             ELSE /\ step' = "certs" /\ xstack' = all /\ pc' = "outer" /\ mode' = "cert"
                  /\ UNCHANGED <<job, aux, cur, r, dvars>>

(* every element goes to standard output at its depth as it is reported;   *)
(* a run whose output is refused ends at once and does not succeed         *)
DerStep ==
  /\ step = "der" /\ dphase # "done"
  /\ D!DerNext
  /\ LET s == IF dev'.e = "T" THEN shown \o Render(ElemLines(In(src), dev', Len(dstack) - 1)) ELSE shown IN
       /\ shown' = Taken(s)
       /\ IF TooMuch(s) THEN step' = "ended" /\ status' = "nonzero" /\ lost' = TRUE ELSE UNCHANGED <<step, status, lost>>
  /\ UNCHANGED <<src, said, xvars>>
(* an error that is told on standard error may be repeated on standard     *)
(* output, which may be full by then                                       *)
StatusOfError == IF src.sink = "deaf" THEN "nonzero" ELSE IF Bounded THEN "either" ELSE "zero"
DerEnd ==
  /\ step = "der" /\ dphase = "done"
  /\ Quit(IF derr = <<>> THEN "zero" ELSE StatusOfError) /\ said' = derr
  /\ lost' = (derr # <<>> /\ src.sink = "deaf") /\ UNCHANGED shown

CertStep ==
  /\ step = "certs" /\ pc # "done"
  /\ XM!XNext
  /\ UNCHANGED <<step, shown, said, lost, status, dvars>>
CertEnd ==
  /\ step = "certs" /\ pc = "done"
  /\ IF r.cert.err = <<>>
     THEN LET s == Render(CertLines(In(src), r)) IN
          shown' = Taken(s) /\ lost' = TooMuch(s) /\ said' = <<>> /\ Quit(IF TooMuch(s) THEN "nonzero" ELSE "zero")
     ELSE said' = r.cert.err /\ lost' = (src.sink = "deaf") /\ UNCHANGED shown /\ Quit(StatusOfError)

CliNext == CheckArguments \/ CheckFlag \/ ReadFile \/ DerStep \/ DerEnd \/ CertStep \/ CertEnd

----------------------------------------------------------------------------
CliTypeOK ==
  /\ step \in {"arguments", "flag", "file", "der", "certs", "ended"}
  /\ status \in {"running", "zero", "nonzero", "either"} /\ (status = "running") = (step # "ended")
(* a failing run shows no decode *)
NoDecodeOnFailure == status = "nonzero" /\ ~lost => shown = <<>> /\ said = <<>>
(* the status depends on the invocation alone, not on the contents *)
StatusOf(s) == IF Len(s.args) = 2 /\ s.args[1] \in Flags /\ s.file \in Readable THEN "zero" ELSE "nonzero"
StatusRight == step = "ended" /\ ~lost /\ status # "either" => status = StatusOf(src)
(* what was written is what there was room for, and losing output is not   *)
(* success                                                                 *)
LossTold == /\ Bounded => Len(shown) <= src.room
            /\ lost => status = "nonzero" /\ ((Bounded /\ Len(shown) = src.room) \/ (src.sink = "deaf" /\ said # <<>>))
            /\ status = "either" => said # <<>> /\ Bounded
(* a certificate is shown or an error is told, never both nor neither *)
OneOfTwo == step = "ended" /\ status # "nonzero" /\ src.args[1] = "--certs" => (shown = <<>>) # (said = <<>>)
(* standard output only grows *)
OnlyGrows == [][Len(shown') >= Len(shown) /\ SubSeq(shown', 1, Len(shown)) = shown]_cvars
(* lines are complete *)
WholeLines == shown # <<>> /\ ~lost => shown[Len(shown)] = 10
=============================================================================
