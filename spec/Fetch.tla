------------------------------- MODULE Fetch -------------------------------
(***************************************************************************)
(* The schema download command step by step: the output file is opened      *)
(* (which empties it) once an answer has begun, and removed when anything   *)
(* goes wrong.  TLC checks that this keeps the contract of Downloader in     *)
(* every case and enumerates the cases for the replay.                      *)
(***************************************************************************)
EXTENDS Downloader, TLC, Json
VARIABLES pc, file, ans, code
fvars == <<dvars, pc, file, ans, code>>

\* answers refused before the file is opened
Refused == Failing \ {"cut", "cutchunk", "cutlate", "resetbody"}

FInit ==
  /\ Init /\ pc = "start" /\ ans = "none" /\ code = 99
  /\ file = (IF set.old = "there" THEN "old" ELSE "none")
Check ==
  /\ pc = "start"
  /\ pc' = CASE set.endpoint = "none" -> "fail" [] set.endpoint = "bad" -> "reject" [] OTHER -> "ask"
  /\ UNCHANGED <<dvars, file, ans, code>>
\* a URL that is none is refused before anything is touched; one of another kind, by the request: then the
\* error of the request removes what is there
Reject == pc = "reject" /\ pc' \in {"fail", "remove"} /\ UNCHANGED <<dvars, file, ans, code>>
Ask(a) ==
  /\ pc = "ask"
  /\ IF Reachable THEN Answer(a, TRUE) /\ ans' = a ELSE a = "full" /\ UNCHANGED <<dvars, ans>>
  /\ pc' = IF Reachable /\ a \notin Refused THEN "open" ELSE "remove"
  /\ UNCHANGED <<file, code>>
\* the answer has begun: opening empties the file
Open ==
  /\ pc = "open"
  /\ file' = IF set.out \in {"nodir", "dir"} THEN file ELSE "empty"
  /\ pc' = IF set.out \in {"nodir", "dir"} THEN "remove" ELSE "copy"
  /\ UNCHANGED <<dvars, ans, code>>
Copy ==
  /\ pc = "copy"
  /\ file' \in {"some"} \cup (IF ans \in Complete /\ Writable THEN {"body"} ELSE {})
  /\ pc' = CASE file' = "body" -> "succeed" [] ans \in Complete /\ Writable -> "copy" [] OTHER -> "remove"
  /\ UNCHANGED <<dvars, ans, code>>
Remove ==
  /\ pc = "remove" /\ file' = "none" /\ pc' = "fail"
  /\ UNCHANGED <<dvars, ans, code>>
Quit ==
  /\ pc \in {"succeed", "fail"}
  /\ code' = IF pc = "succeed" THEN 0 ELSE 1
  /\ pc' = "over"
  /\ End([code |-> code', hung |-> FALSE, file |-> file, others |-> FALSE])
  /\ UNCHANGED <<file, ans>>
FNext == Check \/ Reject \/ (\E a \in Answers : Ask(a)) \/ Open \/ Copy \/ Remove \/ Quit \/ (over /\ UNCHANGED fvars)
FSpec == FInit /\ [][FNext]_fvars /\ WF_fvars(FNext) /\ SF_fvars(Copy /\ file' = "body")
Safe == bad = {}
NoPartial == over => file \in {"old", "none", "body"}
Ends == <>over
Emit == pc = "over" => PrintT("CASE " \o ToJson([set |-> set, script |-> IF ans = "none" THEN <<>> ELSE <<ans>>]))
=============================================================================
