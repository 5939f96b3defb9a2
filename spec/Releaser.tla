----------------------------- MODULE Releaser -----------------------------
(***************************************************************************)
(* What the release scripts may upload and publish, and that what is         *)
(* released installs: the package's post-install script, run on any          *)
(* platform of the release, finds its archive and accepts it.                *)
(*                                                                          *)
(*  set  ver      final | alpha | beta: the version the binary reports      *)
(*       missing  a platform whose binary has not been built, or ""          *)
(*       left     none | older | same: what an earlier attempt has left in   *)
(*                the archive directory                                     *)
(*       ghr, yarn  ok | fails: the tools that upload and publish            *)
(*       lost     a platform without a line among the checksums, or ""       *)
(*                                                                          *)
(*  ups  platform -> digest of its archive, once uploaded                   *)
(*  pkg  has a package been published                                        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

Platforms == {"x86_64-unknown-linux-musl", "aarch64-unknown-linux-musl", "x86_64-apple-darwin", "aarch64-apple-darwin"}

Faults(s) ==
  {x \in {"missing", "lost", "ghr", "yarn"} :
     CASE x \in {"missing", "lost"} -> s[x] # "" [] OTHER -> s[x] = "fails"}
Setups ==
  {s \in [ver : {"final", "alpha", "beta"}, missing : Platforms \cup {""}, left : {"none", "older", "same"},
          ghr : {"ok", "fails"}, lost : Platforms \cup {""}, yarn : {"ok", "fails"}] : Cardinality(Faults(s)) <= 1}

VARIABLES set, phase, ups, pkg, bad
rvars == <<set, phase, ups, pkg, bad>>

No(c, ok) == IF ok THEN {} ELSE {[p |-> "C24", c |-> c, f |-> ""]}

Init == set \in Setups /\ phase = "github" /\ ups = <<>> /\ pkg = FALSE /\ bad = {}

\* o: [code, calls, named, pre, archives: platform -> [digest, holds, only]]: exit code; how often was something
\* uploaded; under the version's name; as a pre-release; each platform's archive: whose binary it holds, and only that
Github(o) ==
  /\ phase = "github"
  /\ LET able == set.missing = "" /\ set.ghr = "ok" IN
     /\ bad' = No("github-claims", o.code = 0 => able /\ o.calls = 1)
               \cup No("github-refuses", able => o.code = 0)
               \cup (IF o.calls = 0 THEN {} ELSE
                     No("uploads-incomplete", Platforms \subseteq DOMAIN o.archives)
                     \cup No("uploads-other-binary", \A p \in Platforms \cap DOMAIN o.archives : o.archives[p].holds = p /\ o.archives[p].only)
                     \cup No("release-name", o.named)
                     \cup No("release-kind", o.pre = (set.ver # "final")))
     /\ ups' = IF o.calls = 0 THEN <<>> ELSE [p \in DOMAIN o.archives |-> o.archives[p].digest]
     /\ phase' = IF o.code = 0 THEN "npm" ELSE "over"
  /\ UNCHANGED <<set, pkg>>

\* o: [code, calls, version, sums: platform -> checksum, whole, dist]: is the package's version the released one; the checksums
\* it records; does it hold every file it refers to and no placeholder; the tag it is published under
Npm(o) ==
  /\ phase = "npm"
  /\ LET able == set.lost = "" /\ set.yarn = "ok" IN
     /\ bad' = No("npm-claims", o.code = 0 => able /\ o.calls = 1)
               \cup No("npm-refuses", able => o.code = 0)
               \cup (IF o.calls = 0 THEN {} ELSE
                     No("publishes-other-version", o.version)
                     \cup No("publishes-unchecked", \A p \in Platforms : p \in DOMAIN o.sums /\ p \in DOMAIN ups /\ o.sums[p] = ups[p])
                     \cup No("publishes-torso", o.whole)
                     \cup No("dist-tag", o.dist = (IF set.ver = "final" THEN "" ELSE set.ver)))
     /\ pkg' = (o.calls > 0)
     /\ phase' = IF o.code = 0 THEN "install" ELSE "over"
  /\ UNCHANGED <<set, ups>>

\* o: [code, holds, exec]: the installation on platform p
Install(p, o) ==
  /\ phase = "install"
  /\ bad' = No("does-not-install", o.code = 0 /\ o.holds = p /\ o.exec)
  /\ UNCHANGED <<set, phase, ups, pkg>>
=============================================================================
