---------------------------- MODULE PostInstall ----------------------------
(***************************************************************************)
(* The post-install script step by step: making the directory and           *)
(* downloading run side by side, then the checksum, tar, and the final pair *)
(* of unlink and chmod.  The server chooses its answers.  TLC checks that   *)
(* every behaviour keeps the contract of Installer, and enumerates the      *)
(* server's choices for the replay into the real script.                    *)
(***************************************************************************)
EXTENDS Installer, TLC, Json

CONSTANT MaxHops        \* redirects followed before giving up

\* these fit where the archive does not
Short == {"empty"}

VARIABLES pc, dirmade, hops, script, file, bin, exec, code
pvars == <<ivars, pc, dirmade, hops, script, file, bin, exec, code>>

PInit ==
  /\ Init
  /\ pc = "start" /\ dirmade = (set.bins = "dir") /\ hops = 0 /\ script = <<>>
  /\ file = (CASE set.dest = "stale" -> "stale" [] set.dest = "blocked" -> "dir" [] OTHER -> "none")
  /\ bin = "old" /\ exec = FALSE /\ code = 99

Same == UNCHANGED <<ivars, dirmade, hops, script, file, bin, exec, code>>
Start == pc = "start" /\ pc' = (IF set.plat = "unknown" THEN "fail" ELSE "ask") /\ Same
MakeDir ==
  /\ pc \in {"ask", "downloaded"} /\ ~dirmade
  /\ dirmade' = TRUE
  /\ UNCHANGED <<ivars, pc, hops, script, file, bin, exec, code>>
Ask(a) ==
  /\ pc = "ask"
  /\ Answer(a, script = <<>>, TRUE)
  /\ script' = Append(script, a)
  /\ hops' = hops + (IF a \in Followed THEN 1 ELSE 0)
  /\ pc' = CASE a \in Followed -> IF hops >= MaxHops THEN "fail" ELSE "ask"
             [] (BodyOf(a) = "right" /\ Storable) \/ (BodyOf(a) = "wrong" /\ (Storable \/ (set.dest = "full" /\ a \in Short))) -> "downloaded"
             [] OTHER -> "fail"
  /\ file' = CASE file = "dir" -> "dir" [] BodyOf(a) = "right" /\ set.dest = "full" -> "none" [] BodyOf(a) = "right" -> "right" [] BodyOf(a) = "wrong" -> "wrong"
               [] a \in Followed -> file [] OTHER -> "none"
  /\ UNCHANGED <<dirmade, bin, exec, code>>
Verify ==
  /\ pc = "downloaded" /\ dirmade
  /\ LET good == file = "right" /\ set.plat = "known"
     IN  /\ pc' = IF good THEN "tar" ELSE "fail"
         /\ file' = IF good THEN file ELSE "none"
  /\ UNCHANGED <<ivars, dirmade, hops, script, bin, exec, code>>
Tar ==
  /\ pc = "tar"
  /\ Unpack(file = "right")
  /\ pc' = IF set.archive = "junk" THEN "fail" ELSE "finish"
  /\ bin' = IF set.archive = "good" THEN "verified" ELSE bin
  /\ UNCHANGED <<dirmade, hops, script, file, exec, code>>
\* unlink and chmod run side by side; a failing chmod ends the script before or after the unlink
Finish ==
  /\ pc = "finish"
  /\ exec' = (set.archive = "good")
  /\ file' \in (IF set.archive = "good" THEN {"none"} ELSE {"none", file})
  /\ pc' = IF set.archive = "good" THEN "succeed" ELSE "fail"
  /\ UNCHANGED <<ivars, dirmade, hops, script, bin, code>>
Quit ==
  /\ pc \in {"succeed", "fail"}
  /\ code' = (IF pc = "succeed" THEN 0 ELSE 1)
  /\ pc' = "over"
  /\ End([code |-> code', hung |-> FALSE, bin |-> bin, exec |-> exec, left |-> file \notin {"none", "dir"}, others |-> FALSE])
  /\ UNCHANGED <<dirmade, hops, script, file, bin, exec>>

PNext == Start \/ MakeDir \/ (\E a \in Answers : Ask(a)) \/ Verify \/ Tar \/ Finish \/ Quit \/ (over /\ UNCHANGED pvars)
PSpec == PInit /\ [][PNext]_pvars /\ WF_pvars(PNext)

Safe == bad = {}
OnlyVerified == (bin = "verified" \/ exec) => (set.plat = "known" /\ body = "right")
SuccessMeansInstalled == code = 0 => (bin = "verified" /\ exec)
Ends == <>over

\* the choices of the server, for the replay
Emit == pc = "over" => PrintT("CASE " \o ToJson([set |-> set, script |-> script]))
=============================================================================
