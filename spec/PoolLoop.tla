------------------------------ MODULE PoolLoop ------------------------------
(* What the worker pool must look like from outside: documents are compiled  *)
(* one at a time, each once, and the run ends when none is left.             *)
EXTENDS FiniteSets
CONSTANT all
VARIABLES todo, over
Init == todo = all /\ over = FALSE
Next ==
  \/ \E d \in todo : todo' = todo \ {d} /\ UNCHANGED over
  \/ todo = {} /\ over' = TRUE /\ UNCHANGED todo
Spec == Init /\ [][Next]_<<todo, over>> /\ WF_<<todo, over>>(Next)
=============================================================================
