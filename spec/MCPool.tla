------------------------------- MODULE MCPool -------------------------------
EXTENDS PoolInv, Json, IOUtils, TLC
\* trees, by number
Shape == IOEnv.POOL_TREE
MDirs == CASE Shape = "flat" -> {"r"} [] Shape = "chain" -> {"r", "s"} [] Shape = "wide" -> {"r", "s", "t"}
           [] Shape = "empty" -> {"r"} [] OTHER -> {"r", "s"}
MDocs == CASE Shape = "flat" -> {"a", "b"} [] Shape = "chain" -> {"a", "b"} [] Shape = "wide" -> {"a", "b"}
           [] Shape = "empty" -> {} [] Shape = "mixed" -> {"a", "b"} [] OTHER -> {"a", "b", "c"}
MKids == CASE Shape = "flat" -> [x \in {"r"} |-> {"a", "b"}]
           [] Shape = "chain" -> ("r" :> {"s"} @@ "s" :> {"a", "b"})
           [] Shape = "wide" -> ("r" :> {"s", "t"} @@ "s" :> {"a"} @@ "t" :> {"b"})
           [] Shape = "empty" -> [x \in {"r"} |-> {}]
           [] Shape = "mixed" -> ("r" :> {"a", "s"} @@ "s" :> {"b"})
           [] OTHER -> ("r" :> {"a", "s"} @@ "s" :> {"b", "c"})
RECURSIVE Below(_)
Below(x) == {x} \cup (IF x \in MDirs THEN UNION {Below(y) : y \in MKids[x]} ELSE {})
MSub == [x \in MDirs \cup MDocs |-> Below(x)]
ASSUME SettingOk /\ TreeOk
MWorkers == CASE IOEnv.POOL_THREADS = "1" -> {1} [] IOEnv.POOL_THREADS = "2" -> {1, 2}
              [] IOEnv.POOL_THREADS = "3" -> {1, 2, 3} [] OTHER -> {1, 2, 3, 4}
MVariant == IOEnv.POOL_VARIANT
\* the pending counter counts what is queued, held, or about to be queued
PendingOk ==
  LET queued == Cardinality({i \in 1..Len(queue) : queue[i] # QUIT})
      held == Cardinality({w \in Workers : pc[w] \in {"w-wait", "w-quit", "count", "send", "done-item"}})
      later == [w \in Workers |-> IF pc[w] = "send" THEN Len(left[w]) ELSE 0]
      RECURSIVE Sum(_)
      Sum(s) == IF s = {} THEN 0 ELSE LET w == CHOOSE w \in s : TRUE IN later[w] + Sum(s \ {w})
  IN  npend = queued + held + Sum(Workers)
=============================================================================
