----------------------------- MODULE Downloader -----------------------------
(***************************************************************************)
(* What the schema download command may do.                                 *)
(*  set  endpoint  none | http | https | bad (not a URL) | down              *)
(*       out       default | given | nodir (its directory does not exist) |  *)
(*                 dir (a directory is in the way) |                        *)
(*                 full (there is room for half of it)                      *)
(*       old       none | there: was there a schema before                  *)
(*       content   small | big | wide (multi-byte text)                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Setups ==
  {s \in [endpoint : {"none", "http", "https", "bad", "down"}, out : {"default", "given", "nodir", "dir", "full"},
          old : {"none", "there"}, content : {"small", "big", "wide"}] :
     s.old = "there" => s.out \in {"default", "given", "full"}}

Complete == {"full", "chunked", "untilclose", "slow", "dribble"}
Failing == {"cut", "cutchunk", "cutlate", "resetbody", "reset", "garbage", "s201", "s202", "s204", "s206", "s301", "s302", "s307", "s304", "s400",
            "s401", "s403", "s404", "s429", "s500", "s502", "s503"}
Answers == Complete \cup Failing

VARIABLES set, body, asked, over, bad
dvars == <<set, body, asked, over, bad>>

No(p, c, ok) == IF ok THEN {} ELSE {[p |-> p, c |-> c, f |-> ""]}

Init == set \in Setups /\ body = "none" /\ asked = FALSE /\ over = FALSE /\ bad = {}

\* q: does the request ask for everything the compiler reads
Answer(a, q) ==
  /\ ~over
  /\ body' = IF a \in Complete THEN "complete" ELSE "broken"
  /\ asked' = TRUE
  /\ bad' = No("C21", "incomplete-query", q)
  /\ UNCHANGED <<set, over>>

Reachable == set.endpoint \in {"http", "https"}
Writable == set.out \in {"default", "given"}
Success == Reachable /\ Writable /\ body = "complete"

\* o: [code, hung, file, others]; file: what is at the path: body | old | none | other
End(o) ==
  /\ ~over
  /\ over' = TRUE
  /\ bad' = No("C21", "does-not-end", ~o.hung)
            \cup (IF o.hung THEN {} ELSE
                  No("C21", "claims-success", o.code = 0 => (Success /\ o.file = "body"))
                  \cup No("C21", "refuses-complete", Success => o.code = 0)
                  \cup No("C21", "partial-schema", o.file \in {"old", "none"} \/ (o.file = "body" /\ body = "complete"))
                  \cup No("C21", "touches-without-endpoint", set.endpoint = "none" => o.file \in {"old", "none"} /\ (set.old = "there" => o.file = "old")))
            \cup No("C21", "touches-something", ~o.others)
  /\ UNCHANGED <<set, body, asked>>
=============================================================================
