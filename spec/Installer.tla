----------------------------- MODULE Installer -----------------------------
(***************************************************************************)
(* What the npm post-install script may do, against a download server that  *)
(* may do anything.                                                         *)
(*                                                                          *)
(*  set    the package and the machine:                                     *)
(*         plat     known | unknown | unlisted (no checksum recorded)       *)
(*         bins     dir | none: does the directory for binaries exist       *)
(*         dest     free | stale | blocked | full: is something in the way of  *)
(*                  the archive, or is there room for half of it only         *)
(*         archive  good | junk | hollow: what the recorded checksum is of   *)
(*  body   what the last answer of the server amounts to                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Setups ==
  [plat : {"known", "unknown", "unlisted"}, bins : {"dir", "none"}, dest : {"free", "stale", "blocked", "full"},
   archive : {"good", "junk", "hollow"}]

\* answers with the right bytes, with other bytes, without a complete body, and ones that lead elsewhere
RightAnswers == {"full", "chunked", "untilclose"}
WrongAnswers == {"wrong", "longer", "prefix", "empty", "wrongchunked"}
BrokenAnswers == {"cut", "cutchunk", "reset", "refuse", "garbage", "stall", "stallbody",
                  "s204", "s206", "s304", "s400", "s403", "s404", "s500", "s503"}
Followed == {"s302"}
Elsewhere == {"s301", "s303", "s307", "s308"}          \* may be followed or not
DeadEnds == {"s302none", "s302bad", "s302loop"}
Answers == RightAnswers \cup WrongAnswers \cup BrokenAnswers \cup Followed \cup Elsewhere \cup DeadEnds

BodyOf(a) ==
  CASE a \in RightAnswers -> "right" [] a \in WrongAnswers -> "wrong"
    [] a \in Followed -> "more" [] OTHER -> "broken"

VARIABLES set, body, unpacked, over, bad
ivars == <<set, body, unpacked, over, bad>>

No(p, c, ok) == IF ok THEN {} ELSE {[p |-> p, c |-> c, f |-> ""]}

Verified == set.plat = "known" /\ body = "right"
Storable == set.dest \in {"free", "stale"}
Installable == Verified /\ set.archive = "good"

Init ==
  /\ set \in Setups /\ body = "none" /\ unpacked = FALSE /\ over = FALSE /\ bad = {}

\* path: the place asked first must be the archive of this version and platform
Answer(a, first, place) ==
  /\ ~over
  /\ body' = BodyOf(a)
  /\ bad' = No("C20", "asks-for-something-else", first => place)
  /\ UNCHANGED <<set, unpacked, over>>

\* an archive is handed to tar; match: its digest is the recorded one
Unpack(match) ==
  /\ ~over
  /\ unpacked' = TRUE
  /\ bad' = No("C20", "unpacks-unverified", match /\ body = "right" /\ set.plat = "known")
  /\ UNCHANGED <<set, body, over>>

\* o: [code, hung, bin, exec, left, others]: exit code; did it not end; the binary (old, verified or other);
\* is it executable; is there an archive; was anything else installed
End(o) ==
  /\ ~over
  /\ over' = TRUE
  /\ bad' = No("C20", "does-not-end", ~o.hung)
            \cup (IF o.hung THEN {} ELSE
                  No("C20", "claims-success", o.code = 0 => (Installable /\ o.bin = "verified" /\ o.exec))
                  \cup No("C20", "refuses-verified", (Installable /\ Storable) => o.code = 0))
            \cup No("C20", "installs-unverified", o.bin = "old" \/ (Installable /\ o.bin = "verified"))
            \cup No("C20", "marks-unverified", o.exec => (Verified /\ set.archive # "junk"))
            \cup No("C20", "installs-something", o.others => Verified)
            \cup No("C20", "leaves-archive", (body = "wrong" /\ set.plat = "known" /\ Storable) => ~o.left)
  /\ UNCHANGED <<set, body, unpacked>>
=============================================================================
