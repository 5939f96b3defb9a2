-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The worker pool: threads sharing one queue of directories and documents, *)
(* and the protocol by which they find out that nothing is left.            *)
(*                                                                          *)
(* One action is one operation on the queue, the counters or the clock,     *)
(* together with the thread-local work up to the next one.  Documents are   *)
(* compiled in the step that takes them off the queue or the local step     *)
(* after it (the compilation touches nothing that is shared).               *)
(*                                                                          *)
(* Variant selects the protocol of the code ("code") or one that is wrong;  *)
(* the wrong ones are used to make TLC produce schedules that matter.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Workers,      \* 1..n
          Dirs, Docs,   \* nodes of the tree below the root directory
          Root,         \* the root directory, in Dirs
          Kids,         \* Dirs -> set of nodes in it
          Variant

VARIABLES queue,        \* sequence of nodes and "quit"
          nwait, nquit, npend,
          pc, cur,      \* per worker: next operation, node being worked on
          isw, isq,     \* per worker: does it count as waiting, as quitting
          reg,          \* per worker: the two counters it has read
          left,         \* per worker: what is still to be sent
          compiled      \* document -> how often it was compiled

vars == <<queue, nwait, nquit, npend, pc, cur, isw, isq, reg, left, compiled>>

T == Cardinality(Workers)
Nodes == Dirs \cup Docs
QUIT == "quit"

Perms(s) == {p \in [1..Cardinality(s) -> s] : \A i, j \in 1..Cardinality(s) : i # j => p[i] # p[j]}

Init ==
  /\ queue = <<Root>>
  /\ nwait = 0 /\ nquit = 0 /\ npend = 1
  /\ pc = [w \in Workers |-> "recv"]
  /\ cur = [w \in Workers |-> ""]
  /\ isw = [w \in Workers |-> FALSE] /\ isq = [w \in Workers |-> FALSE]
  /\ reg = [w \in Workers |-> <<0, 0>>]
  /\ left = [w \in Workers |-> <<>>]
  /\ compiled = [d \in Docs |-> 0]

\* what a worker does with a node it holds once it counts as neither waiting nor quitting
Begin(w, x) ==
  IF x \in Docs
  THEN /\ compiled' = [compiled EXCEPT ![x] = @ + 1]
       /\ pc' = [pc EXCEPT ![w] = "done-item"]
       /\ UNCHANGED left
  ELSE /\ \E p \in Perms(Kids[x]) : left' = [left EXCEPT ![w] = p]
       /\ pc' = [pc EXCEPT ![w] = "count"]
       /\ UNCHANGED compiled
Goto(w, l) == pc' = [pc EXCEPT ![w] = l] /\ UNCHANGED <<left, compiled>>

Recv(w) ==
  /\ pc[w] = "recv"
  /\ IF queue = <<>>
     THEN /\ cur' = [cur EXCEPT ![w] = ""]
          /\ Goto(w, IF ~isw[w] THEN "e-wait" ELSE IF isq[w] THEN "e-quit" ELSE "e-look")
          /\ UNCHANGED queue
     ELSE LET x == Head(queue) IN
          /\ queue' = Tail(queue)
          /\ cur' = [cur EXCEPT ![w] = x]
          /\ IF x = QUIT
             THEN Goto(w, IF ~isw[w] THEN "q-wait" ELSE IF ~isq[w] THEN "q-quit" ELSE "q-look")
             ELSE IF isw[w] /\ Variant # "stays-waiting" THEN Goto(w, "w-wait")
             ELSE IF isq[w] THEN Goto(w, "w-quit")
             ELSE Begin(w, x)
  /\ UNCHANGED <<nwait, nquit, npend, isw, isq, reg>>

\* took work: no longer waiting, no longer quitting
WWait(w) ==
  /\ pc[w] = "w-wait"
  /\ nwait' = nwait - 1 /\ isw' = [isw EXCEPT ![w] = FALSE]
  /\ IF isq[w] THEN Goto(w, "w-quit") ELSE Begin(w, cur[w])
  /\ UNCHANGED <<queue, nquit, npend, cur, isq, reg>>
WQuit(w) ==
  /\ pc[w] = "w-quit"
  /\ nquit' = nquit - 1 /\ isq' = [isq EXCEPT ![w] = FALSE]
  /\ Begin(w, cur[w])
  /\ UNCHANGED <<queue, nwait, npend, cur, isw, reg>>

\* work on a directory: announce its entries, then queue them
Count(w) ==
  /\ pc[w] = "count"
  /\ npend' = IF Variant \in {"late-count", "orig"} THEN npend ELSE npend + Len(left[w])
  /\ Goto(w, IF left[w] = <<>> THEN "done-item" ELSE "send")
  /\ UNCHANGED <<queue, nwait, nquit, cur, isw, isq, reg>>
Send(w) ==
  /\ pc[w] = "send"
  /\ queue' = Append(queue, Head(left[w]))
  /\ left' = [left EXCEPT ![w] = Tail(@)]
  /\ pc' = [pc EXCEPT ![w] = IF Tail(left[w]) = <<>> THEN "done-item" ELSE "send"]
  /\ npend' = IF Variant = "late-count" THEN npend + 1 ELSE npend
  /\ UNCHANGED <<nwait, nquit, cur, isw, isq, reg, compiled>>
DoneItem(w) ==
  /\ pc[w] = "done-item"
  /\ npend' = IF Variant = "orig" THEN npend ELSE npend - 1
  /\ cur' = [cur EXCEPT ![w] = ""]
  /\ Goto(w, "recv")
  /\ UNCHANGED <<queue, nwait, nquit, isw, isq, reg>>

\* the queue was empty: count as waiting, not as quitting; the one that sees all waiting says so
EWait(w) ==
  /\ pc[w] = "e-wait"
  /\ nwait' = nwait + 1 /\ isw' = [isw EXCEPT ![w] = TRUE]
  /\ Goto(w, IF isq[w] THEN "e-quit" ELSE "e-look")
  /\ UNCHANGED <<queue, nquit, npend, cur, isq, reg>>
EQuit(w) ==
  /\ pc[w] = "e-quit"
  /\ nquit' = nquit - 1 /\ isq' = [isq EXCEPT ![w] = FALSE]
  /\ Goto(w, "e-look")
  /\ UNCHANGED <<queue, nwait, npend, cur, isw, reg>>
ELook(w) ==
  /\ pc[w] = "e-look"
  /\ IF nwait = T
     THEN /\ pc' = [pc EXCEPT ![w] = "tell"]
          /\ left' = [left EXCEPT ![w] = [i \in 1..(IF Variant = "one-quit" THEN 1 ELSE T) |-> QUIT]]
          /\ UNCHANGED compiled
     ELSE Goto(w, "sleep")
  /\ UNCHANGED <<queue, nwait, nquit, npend, cur, isw, isq, reg>>
Tell(w) ==
  /\ pc[w] = "tell"
  /\ queue' = Append(queue, QUIT)
  /\ left' = [left EXCEPT ![w] = Tail(@)]
  /\ pc' = [pc EXCEPT ![w] = IF Tail(left[w]) = <<>> THEN "recv" ELSE "tell"]
  /\ UNCHANGED <<nwait, nquit, npend, cur, isw, isq, reg, compiled>>
Sleep(w) ==
  /\ pc[w] = "sleep"
  /\ Goto(w, "recv")
  /\ UNCHANGED <<queue, nwait, nquit, npend, cur, isw, isq, reg>>

\* took a quit message: count as waiting and quitting, then watch the counters
QWait(w) ==
  /\ pc[w] = "q-wait"
  /\ nwait' = nwait + 1 /\ isw' = [isw EXCEPT ![w] = TRUE]
  /\ Goto(w, IF isq[w] THEN "q-look" ELSE "q-quit")
  /\ UNCHANGED <<queue, nquit, npend, cur, isq, reg>>
QQuit(w) ==
  /\ pc[w] = "q-quit"
  /\ nquit' = nquit + 1 /\ isq' = [isq EXCEPT ![w] = TRUE]
  /\ Goto(w, "q-look")
  /\ UNCHANGED <<queue, nwait, npend, cur, isw, reg>>
QLook(w) ==
  /\ pc[w] = "q-look"
  /\ reg' = [reg EXCEPT ![w] = <<nwait, 0>>]
  /\ Goto(w, "q-look2")
  /\ UNCHANGED <<queue, nwait, nquit, npend, cur, isw, isq>>
QLook2(w) ==
  /\ pc[w] = "q-look2"
  /\ LET back == reg[w][1] < T /\ Variant # "never-aborts"
         nopend == Variant \in {"orig", "no-pending-check"}
     IN  /\ reg' = [reg EXCEPT ![w] = IF back THEN <<0, 0>> ELSE <<@[1], nquit>>]
         /\ Goto(w, IF back THEN "recv"
                    ELSE IF ~nopend THEN "q-pend"
                    ELSE IF nquit = T THEN "end" ELSE "q-look")
  /\ UNCHANGED <<queue, nwait, nquit, npend, cur, isw, isq>>
QPend(w) ==
  /\ pc[w] = "q-pend"
  /\ reg' = [reg EXCEPT ![w] = <<0, 0>>]
  /\ Goto(w, IF npend > 0 THEN "recv"
             ELSE IF reg[w][2] = T \/ (Variant = "quits-alone" /\ reg[w][2] > 0) THEN "end" ELSE "q-look")
  /\ UNCHANGED <<queue, nwait, nquit, npend, cur, isw, isq>>

Step(w) ==
  \/ Recv(w) \/ WWait(w) \/ WQuit(w) \/ Count(w) \/ Send(w) \/ DoneItem(w)
  \/ EWait(w) \/ EQuit(w) \/ ELook(w) \/ Tell(w) \/ Sleep(w)
  \/ QWait(w) \/ QQuit(w) \/ QLook(w) \/ QLook2(w) \/ QPend(w)

Over == \A w \in Workers : pc[w] = "end"
Next == (\E w \in Workers : Step(w)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Step(w))

\* the operation a worker performs next, as the scheduler in hook/verif_rt.rs names it
Op(w) ==
  CASE pc[w] = "recv" -> "recv"
    [] pc[w] \in {"send", "tell"} -> "send"
    [] pc[w] \in {"w-wait", "w-quit", "e-quit", "done-item"} -> "sub"
    [] pc[w] \in {"e-wait", "q-wait", "q-quit", "count"} -> "add"
    [] pc[w] \in {"e-look", "q-look", "q-look2", "q-pend"} -> "load"
    [] pc[w] = "sleep" -> "sleep"
    [] OTHER -> "none"

(***************************************************************************)
(* What must hold                                                           *)
(***************************************************************************)
TypeOK ==
  /\ nwait \in 0..T /\ nquit \in 0..T /\ npend \in 0..Cardinality(Nodes)
  /\ \A d \in Docs : compiled[d] \in Nat
CountersOk ==
  /\ nwait = Cardinality({w \in Workers : isw[w]})
  /\ nquit = Cardinality({w \in Workers : isq[w]})
  /\ \A w \in Workers : isq[w] => isw[w] \/ pc[w] \in {"w-quit", "e-wait"}
AtMostOnce == \A d \in Docs : compiled[d] <= 1
\* once one worker has gone, everything is done and nothing can come back
NoneLost == \A w \in Workers : pc[w] = "end" => (npend = 0 /\ \A d \in Docs : compiled[d] = 1)
Terminates == <>Over

(***************************************************************************)
(* The pool does what a single loop over the tree would do                  *)
(***************************************************************************)
todo == {d \in Docs : compiled[d] = 0}
Loop == INSTANCE PoolLoop WITH todo <- todo, over <- Over, all <- Docs
RefinesLoop == Loop!Spec
=============================================================================
