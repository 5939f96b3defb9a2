------------------------------- MODULE PoolInv -------------------------------
(***************************************************************************)
(* The inductive invariant of the worker pool, for any number of workers    *)
(* and any finite tree.  MCPool checks it on small instances with TLC,      *)
(* PoolProof proves it with TLAPS.                                          *)
(*                                                                          *)
(* A state is seen in two layers.  In the first, it is a set q of queued    *)
(* nodes, the nodes u[w] that worker w holds but has not begun, the nodes   *)
(* b[w] (at most one) that it has begun, and whether (k[w]) the former are  *)
(* not yet counted as pending.                                              *)
(***************************************************************************)
EXTENDS Pool

CONSTANT Sub            \* node -> the nodes at and below it

SettingOk ==
  /\ IsFiniteSet(Workers) /\ Workers # {}
  /\ IsFiniteSet(Nodes) /\ Dirs \cap Docs = {} /\ Root \in Dirs
  /\ QUIT \notin Nodes
  /\ Kids \in [Dirs -> SUBSET Nodes]

TreeOk ==
  /\ Sub \in [Nodes -> SUBSET Nodes]
  /\ \A x \in Docs : Sub[x] = {x}
  /\ \A x \in Dirs : /\ Sub[x] = {x} \cup UNION {Sub[y] : y \in Kids[x]}
                     /\ \A y \in Kids[x] : x \notin Sub[y]
                     /\ \A y, z \in Kids[x] : y # z => Sub[y] \cap Sub[z] = {}
  /\ Docs \subseteq Sub[Root]

-----------------------------------------------------------------------------
(* Layer of sets *)
Apart(q, u, b) ==
  /\ \A x, y \in q : x # y => Sub[x] \cap Sub[y] = {}
  /\ \A w \in Workers : \A x \in q, y \in u[w] : Sub[x] \cap Sub[y] = {}
  /\ \A w \in Workers : \A x, y \in u[w] : x # y => Sub[x] \cap Sub[y] = {}
  /\ \A w, v \in Workers : w # v => \A x \in u[w], y \in u[v] : Sub[x] \cap Sub[y] = {}
  /\ \A w \in Workers : \A z \in b[w], x \in q : z \notin Sub[x]
  /\ \A w, v \in Workers : \A z \in b[w], x \in u[v] : z \notin Sub[x]
  /\ \A w, v \in Workers : w # v => b[w] \cap b[v] = {}
Held(x, q, u) == x \in q \/ \E w \in Workers : x \in u[w]
Fresh(q, u, c) == \A d \in Docs, x \in Nodes : Held(x, q, u) /\ d \in Sub[x] => c[d] = 0
Covered(q, u, c) == \A d \in Docs : c[d] = 0 => \E x \in Nodes : Held(x, q, u) /\ d \in Sub[x]
Pending(q, u, b, k) == q \cup UNION {b[w] \cup (IF k[w] THEN {} ELSE u[w]) : w \in Workers}
Typed(q, u, b, k, c) ==
  /\ q \in SUBSET Nodes /\ u \in [Workers -> SUBSET Nodes] /\ b \in [Workers -> SUBSET Nodes]
  /\ k \in [Workers -> BOOLEAN] /\ c \in [Docs -> {0, 1}]
Good(q, u, b, k, c, n) ==
  /\ Typed(q, u, b, k, c) /\ Apart(q, u, b) /\ Fresh(q, u, c) /\ Covered(q, u, c)
  /\ n = Cardinality(Pending(q, u, b, k))


-----------------------------------------------------------------------------
(* The states of Pool as states of that layer *)
Elems(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] /\ s[i] # QUIT => i = j

QS == Elems(queue) \ {QUIT}
U == [w \in Workers |-> IF pc[w] \in {"count", "send"} THEN Elems(left[w])
                        ELSE IF pc[w] \in {"w-wait", "w-quit"} THEN {cur[w]} ELSE {}]
B == [w \in Workers |-> IF pc[w] \in {"count", "send", "done-item"} THEN {cur[w]} ELSE {}]
K == [w \in Workers |-> pc[w] = "count"]

Idle == {"recv", "e-wait", "e-quit", "e-look", "q-wait", "q-quit", "q-look", "q-look2", "q-pend", "tell", "sleep", "end"}
Busy == {"w-wait", "w-quit", "count", "send", "done-item"}
Items == Nodes \cup {QUIT}
Kinds ==
  /\ queue \in Seq(Items) /\ Distinct(queue)
  /\ pc \in [Workers -> Idle \cup Busy]
  /\ cur \in [Workers -> Items \cup {""}]
  /\ left \in [Workers -> Seq(Items)]
  /\ \A w \in Workers :
       /\ pc[w] \in {"w-wait", "w-quit", "done-item"} => cur[w] \in Nodes
       /\ pc[w] \in {"count", "send"} => cur[w] \in Dirs /\ left[w] \in Seq(Nodes) /\ Distinct(left[w])
       /\ pc[w] = "count" => Len(left[w]) = Cardinality(Elems(left[w]))
       /\ pc[w] \in {"send", "tell"} => left[w] # <<>>
Inv ==
  /\ Kinds
  /\ Good(QS, U, B, K, compiled, npend)
  /\ \A w \in Workers : pc[w] = "end" => npend = 0
=============================================================================
