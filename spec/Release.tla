------------------------------ MODULE Release ------------------------------
(***************************************************************************)
(* The release step by step: pack each platform's binary, sum the archive    *)
(* directory, upload it; then put version and checksums into the package,    *)
(* platform by platform, and publish it; then install it everywhere.         *)
(* Digests are pairs <<platform, version>>.  Variant names a wrong release,  *)
(* each of which TLC has to find at odds with Releaser.                      *)
(***************************************************************************)
EXTENDS Releaser, TLC, Json, Sequences

CONSTANT Variant

VARIABLES pc, todo, dir, sums, pj, installed
vars == <<rvars, pc, todo, dir, sums, pj, installed>>

Names == Platforms \X {"now", "older"}
Left == CASE set.left = "none" -> <<>>
          [] set.left = "older" -> [n \in {x \in Names : x[2] = "older"} |-> <<"stale">> \o n]
          [] set.left = "same" -> [n \in {x \in Names : x[2] = "now"} |-> <<"stale">> \o n]

MInit == Init /\ pc = "start" /\ todo = Platforms /\ dir = <<>> /\ sums = <<>> /\ pj = <<>> /\ installed = {}
Quiet == UNCHANGED rvars

Start ==
  /\ pc = "start" /\ Quiet
  /\ dir' = Left /\ sums' = (IF Variant = "sums-first" THEN Left ELSE <<>>)
  \* the version is what the x86_64 Linux binary says
  /\ pc' = IF set.missing = "x86_64-unknown-linux-musl" THEN "failed" ELSE "pack"
  /\ UNCHANGED <<todo, pj, installed>>
Pack(p) ==
  /\ pc = "pack" /\ p \in todo /\ Quiet
  /\ todo' = todo \ {p}
  /\ IF p = set.missing
     THEN IF Variant = "goes-on" THEN pc' = "pack" /\ dir' = dir ELSE pc' = "failed" /\ dir' = dir
     ELSE pc' = "pack" /\ dir' = (<<p, "now">> :> <<"new", p, "now">>) @@ dir
  /\ UNCHANGED <<sums, pj, installed>>
Sum ==
  /\ pc = "pack" /\ todo = {} /\ Quiet
  /\ sums' = IF Variant = "sums-first" THEN sums @@ dir ELSE dir
  /\ pc' = "upload" /\ UNCHANGED <<todo, dir, pj, installed>>
Uploaded == {p \in Platforms : <<p, "now">> \in DOMAIN dir}
Upload ==
  /\ pc \in {"upload", "failed"} /\ phase = "github"
  /\ Github([code |-> IF pc = "failed" \/ set.ghr = "fails" THEN 1 ELSE 0, calls |-> IF pc = "upload" THEN 1 ELSE 0,
             named |-> TRUE, pre |-> (set.ver # "final"),
             archives |-> [p \in Uploaded |-> [digest |-> dir[<<p, "now">>], holds |-> IF dir[<<p, "now">>][1] = "new" THEN p ELSE "", only |-> TRUE]]])
  /\ pc' = IF phase' = "npm" THEN "edit" ELSE "over"
  /\ todo' = Platforms
  /\ UNCHANGED <<dir, sums, pj, installed>>
Lines(p) ==
  {n \in DOMAIN sums : n[1] = p /\ p # set.lost /\ (Variant = "any-version" \/ n[2] = "now")}
Edit(p) ==
  /\ pc = "edit" /\ p \in todo /\ Quiet
  /\ todo' = todo \ {p}
  /\ IF Lines(p) = {} THEN pc' = (IF Variant = "goes-on" THEN pc ELSE "broken") /\ UNCHANGED pj
     ELSE pc' = pc /\ \E n \in Lines(p) : pj' = (p :> sums[n]) @@ pj
  /\ UNCHANGED <<dir, sums, installed>>
Publish ==
  /\ pc = "broken" \/ (pc = "edit" /\ todo = {})
  /\ Npm([code |-> IF pc = "broken" \/ set.yarn = "fails" THEN 1 ELSE 0, calls |-> IF pc = "broken" THEN 0 ELSE 1,
          version |-> TRUE, sums |-> pj, whole |-> TRUE, dist |-> IF set.ver = "final" THEN "" ELSE set.ver])
  /\ pc' = IF phase' = "install" THEN "install" ELSE "over"
  /\ UNCHANGED <<todo, dir, sums, pj, installed>>
Place(p) ==
  /\ pc = "install" /\ p \notin installed
  /\ LET ok == p \in DOMAIN pj /\ p \in DOMAIN ups /\ pj[p] = ups[p]
     IN  Install(p, [code |-> IF ok THEN 0 ELSE 1, holds |-> IF ok THEN p ELSE "", exec |-> ok])
  /\ installed' = installed \cup {p}
  /\ pc' = IF installed' = Platforms THEN "over" ELSE pc
  /\ UNCHANGED <<todo, dir, sums, pj>>

MNext == Start \/ (\E p \in Platforms : Pack(p) \/ Edit(p) \/ Place(p)) \/ Sum \/ Upload \/ Publish \/ (pc = "over" /\ UNCHANGED vars)
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(MNext)

Safe == bad = {}
\* whoever can install something installs what was built for the machine
OnlyReleased == installed # {} => (\A p \in Platforms : ups[p] = <<"new", p, "now">>) /\ Faults(set) = {}
Ends == <>(pc = "over")
Complete == Faults(set) = {} => <>(installed = Platforms)
Emit == pc = "start" => PrintT("CASE " \o ToJson(set))
=============================================================================
