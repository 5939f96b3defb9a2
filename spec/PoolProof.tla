------------------------------ MODULE PoolProof ------------------------------
(***************************************************************************)
(* The safety of the worker pool, for any number of workers and any finite  *)
(* tree: each document is compiled at most once, and no worker leaves       *)
(* before all of them are.  Proved with TLAPS; MCPool checks the same       *)
(* statements, and termination, on small instances with TLC.                *)
(*                                                                          *)
(* The proof has two layers.  Below, a state is seen as a set q of queued   *)
(* nodes, the nodes u[w] a worker holds that are not begun, the node b[w]   *)
(* it has begun, and whether (k[w]) the former are not yet counted.         *)
(***************************************************************************)
EXTENDS PoolInv, FiniteSetTheorems, SequenceTheorems, FunctionTheorems, TLAPS

ASSUME TheCode == Variant = "code"
ASSUME Setting0 == SettingOk
ASSUME Tree0 == TreeOk
LEMMA Setting ==
  /\ IsFiniteSet(Workers) /\ Workers # {}
  /\ IsFiniteSet(Nodes) /\ Dirs \cap Docs = {} /\ Root \in Dirs
  /\ QUIT \notin Nodes
  /\ Kids \in [Dirs -> SUBSET Nodes]
  BY Setting0 DEF SettingOk
LEMMA Tree ==
  /\ Sub \in [Nodes -> SUBSET Nodes]
  /\ \A x \in Docs : Sub[x] = {x}
  /\ \A x \in Dirs : /\ Sub[x] = {x} \cup UNION {Sub[y] : y \in Kids[x]}
                     /\ \A y \in Kids[x] : x \notin Sub[y]
                     /\ \A y, z \in Kids[x] : y # z => Sub[y] \cap Sub[z] = {}
  /\ Docs \subseteq Sub[Root]
  BY Tree0 DEF TreeOk

LEMMA SubSelf == \A x \in Nodes : x \in Sub[x] /\ Sub[x] \in SUBSET Nodes
  BY Setting, Tree DEF Nodes

LEMMA PendingFinite ==
  ASSUME NEW q, NEW u, NEW b, NEW k, NEW c, Typed(q, u, b, k, c)
  PROVE  IsFiniteSet(Pending(q, u, b, k)) /\ Pending(q, u, b, k) \subseteq Nodes
<1>1. Pending(q, u, b, k) \subseteq Nodes
  BY DEF Pending, Typed
<1> QED BY <1>1, Setting, FS_Subset

\* a node goes from the queue to a worker
LEMMA TakeOk ==
  ASSUME NEW q, NEW u, NEW b, NEW k, NEW c, NEW n, Good(q, u, b, k, c, n),
         NEW w \in Workers, NEW x \in q, u[w] = {}, b[w] = {}, ~k[w]
  PROVE  Good(q \ {x}, [u EXCEPT ![w] = {x}], b, k, c, n)
<1> DEFINE q2 == q \ {x}  u2 == [u EXCEPT ![w] = {x}]
<1> USE SubSelf
<1>0. /\ Typed(q, u, b, k, c) /\ x \in Nodes
      /\ \A v \in Workers : u2[v] = IF v = w THEN {x} ELSE u[v]
  BY DEF Good, Typed
<1>1. Typed(q2, u2, b, k, c)
  BY <1>0 DEF Typed
<1>2. Apart(q2, u2, b)
  <2>1. \A y, z \in q2 : y # z => Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart, Typed
  <2>2. \A v \in Workers : \A y \in q2, z \in u2[v] : Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart, Typed
  <2>3. \A v \in Workers : \A y, z \in u2[v] : y # z => Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart, Typed
  <2>4. \A v, v2 \in Workers : v # v2 => \A y \in u2[v], z \in u2[v2] : Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart, Typed
  <2>5. \A v \in Workers : \A z \in b[v], y \in q2 : z \notin Sub[y]
    BY <1>0 DEF Good, Apart, Typed
  <2>6. \A v, v2 \in Workers : \A z \in b[v], y \in u2[v2] : z \notin Sub[y]
    BY <1>0 DEF Good, Apart, Typed
  <2>7. \A v, v2 \in Workers : v # v2 => b[v] \cap b[v2] = {}
    BY <1>0 DEF Good, Apart, Typed
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7 DEF Apart
<1>3. \A y \in Nodes : Held(y, q2, u2) <=> Held(y, q, u)
  BY <1>0 DEF Held
<1>4. Fresh(q2, u2, c) /\ Covered(q2, u2, c)
  BY <1>3 DEF Good, Fresh, Covered
<1>5. Pending(q2, u2, b, k) = Pending(q, u, b, k)
  BY <1>0 DEF Pending
<1> QED BY <1>1, <1>2, <1>4, <1>5 DEF Good

\* a worker begins the document it holds
LEMMA BeginDocOk ==
  ASSUME NEW q, NEW u, NEW b, NEW k, NEW c, NEW n, Good(q, u, b, k, c, n),
         NEW w \in Workers, NEW x \in Docs, u[w] = {x}, b[w] = {}, ~k[w]
  PROVE  /\ Good(q, [u EXCEPT ![w] = {}], [b EXCEPT ![w] = {x}], k, [c EXCEPT ![x] = 1], n)
         /\ c[x] = 0
<1> DEFINE u2 == [u EXCEPT ![w] = {}]  b2 == [b EXCEPT ![w] = {x}]  c2 == [c EXCEPT ![x] = 1]
<1> USE SubSelf
<1>0. /\ Typed(q, u, b, k, c) /\ x \in Nodes /\ Sub[x] = {x}
      /\ \A v \in Workers : u2[v] = IF v = w THEN {} ELSE u[v]
      /\ \A v \in Workers : b2[v] = IF v = w THEN {x} ELSE b[v]
      /\ \A d \in Docs : c2[d] = IF d = x THEN 1 ELSE c[d]
  BY Tree DEF Good, Typed, Nodes
<1>1. Typed(q, u2, b2, k, c2)
  BY <1>0 DEF Typed
<1>2. Apart(q, u2, b2)
  <2>1. \A v \in Workers : \A y \in q, z \in u2[v] : Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart
  <2>2. \A v \in Workers : \A y, z \in u2[v] : y # z => Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart
  <2>3. \A v, v2 \in Workers : v # v2 => \A y \in u2[v], z \in u2[v2] : Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart
  <2>4. \A v \in Workers : \A z \in b2[v], y \in q : z \notin Sub[y]
    BY <1>0 DEF Good, Apart
  <2>5. \A v, v2 \in Workers : \A z \in b2[v], y \in u2[v2] : z \notin Sub[y]
    BY <1>0 DEF Good, Apart
  <2>6. \A v \in Workers : v # w => x \notin b[v]
    BY <1>0 DEF Good, Apart
  <2>7. \A v, v2 \in Workers : v # v2 => b2[v] \cap b2[v2] = {}
    BY <1>0, <2>6 DEF Good, Apart
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>7 DEF Good, Apart
<1>3. \A y \in Nodes : Held(y, q, u) <=> (y = x \/ Held(y, q, u2))
  BY <1>0 DEF Held
<1>4. ~Held(x, q, u2) /\ c[x] = 0
  BY <1>0 DEF Good, Apart, Held, Fresh
<1>5. \A y \in Nodes : Held(y, q, u2) => x \notin Sub[y]
  BY <1>0, <1>4 DEF Good, Apart, Held, Typed
<1>6. Fresh(q, u2, c2)
  BY <1>0, <1>3, <1>5 DEF Good, Fresh
<1>7. Covered(q, u2, c2)
  BY <1>0, <1>3 DEF Good, Covered
<1>8. Pending(q, u2, b2, k) = Pending(q, u, b, k)
  BY <1>0 DEF Pending
<1> QED BY <1>1, <1>2, <1>4, <1>6, <1>7, <1>8 DEF Good

\* a worker begins the directory it holds: its entries are held, too, but not yet counted
LEMMA BeginDirOk ==
  ASSUME NEW q, NEW u, NEW b, NEW k, NEW c, NEW n, Good(q, u, b, k, c, n),
         NEW w \in Workers, NEW x \in Dirs, u[w] = {x}, b[w] = {}, ~k[w]
  PROVE  Good(q, [u EXCEPT ![w] = Kids[x]], [b EXCEPT ![w] = {x}], [k EXCEPT ![w] = TRUE], c, n)
<1> DEFINE u2 == [u EXCEPT ![w] = Kids[x]]  b2 == [b EXCEPT ![w] = {x}]  k2 == [k EXCEPT ![w] = TRUE]
<1> USE SubSelf
<1>0. /\ Typed(q, u, b, k, c) /\ x \in Nodes /\ Kids[x] \in SUBSET Nodes
      /\ \A v \in Workers : u2[v] = IF v = w THEN Kids[x] ELSE u[v]
      /\ \A v \in Workers : b2[v] = IF v = w THEN {x} ELSE b[v]
      /\ \A v \in Workers : k2[v] = IF v = w THEN TRUE ELSE k[v]
  BY Setting DEF Good, Typed, Nodes
<1>a. /\ \A y \in Kids[x] : Sub[y] \subseteq Sub[x] /\ x \notin Sub[y]
      /\ \A y, z \in Kids[x] : y # z => Sub[y] \cap Sub[z] = {}
      /\ \A d \in Sub[x] : d = x \/ \E y \in Kids[x] : d \in Sub[y]
  BY Tree
<1>1. Typed(q, u2, b2, k2, c)
  BY <1>0 DEF Typed
<1>2. Apart(q, u2, b2)
  <2> SUFFICES /\ \A v \in Workers : \A y \in q, z \in u2[v] : Sub[y] \cap Sub[z] = {}
               /\ \A v \in Workers : \A y, z \in u2[v] : y # z => Sub[y] \cap Sub[z] = {}
               /\ \A v, v2 \in Workers : v # v2 => \A y \in u2[v], z \in u2[v2] : Sub[y] \cap Sub[z] = {}
               /\ \A v \in Workers : \A z \in b2[v], y \in q : z \notin Sub[y]
               /\ \A v, v2 \in Workers : \A z \in b2[v], y \in u2[v2] : z \notin Sub[y]
               /\ \A v, v2 \in Workers : v # v2 => b2[v] \cap b2[v2] = {}
    BY DEF Good, Apart
  <2>1. \A v \in Workers : \A y \in q, z \in u2[v] : Sub[y] \cap Sub[z] = {}
    BY <1>0, <1>a DEF Good, Apart
  <2>2. \A v \in Workers : \A y, z \in u2[v] : y # z => Sub[y] \cap Sub[z] = {}
    BY <1>0, <1>a DEF Good, Apart
  <2>3. \A v, v2 \in Workers : v # v2 => \A y \in u2[v], z \in u2[v2] : Sub[y] \cap Sub[z] = {}
    BY <1>0, <1>a DEF Good, Apart
  <2>4. \A v \in Workers : \A z \in b2[v], y \in q : z \notin Sub[y]
    BY <1>0, <1>a DEF Good, Apart
  <2>5. \A v, v2 \in Workers : \A z \in b2[v], y \in u2[v2] : z \notin Sub[y]
    <3> TAKE v, v2 \in Workers
    <3> TAKE z \in b2[v], y \in u2[v2]
    <3>1. CASE v = w /\ v2 = w  BY <3>1, <1>0, <1>a
    <3>2. CASE v = w /\ v2 # w
      <4>1. z = x /\ y \in u[v2] /\ x \in u[w] BY <3>2, <1>0
      <4>2. Sub[x] \cap Sub[y] = {} BY <3>2, <4>1 DEF Good, Apart
      <4> QED BY <4>1, <4>2, <1>0
    <3>3. CASE v # w /\ v2 = w
      <4>1. z \in b[v] /\ y \in Kids[x] BY <3>3, <1>0
      <4>2. z \notin Sub[x] BY <4>1, <1>0 DEF Good, Apart
      <4> QED BY <4>1, <4>2, <1>a
    <3>4. CASE v # w /\ v2 # w BY <3>4, <1>0 DEF Good, Apart
    <3> QED BY <3>1, <3>2, <3>3, <3>4
  <2>6. \A v, v2 \in Workers : v # v2 => b2[v] \cap b2[v2] = {}
    BY <1>0 DEF Good, Apart
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6
<1>3. Fresh(q, u2, c)
  <2> SUFFICES ASSUME NEW d \in Docs, NEW y \in Nodes, Held(y, q, u2), d \in Sub[y]
               PROVE  c[d] = 0
    BY DEF Fresh
  <2>1. Held(y, q, u) \/ y \in Kids[x]
    BY <1>0 DEF Held
  <2>2. Held(x, q, u)
    BY <1>0 DEF Held
  <2> QED BY <2>1, <2>2, <1>0, <1>a DEF Good, Fresh
<1>4. Covered(q, u2, c)
  <2> SUFFICES ASSUME NEW d \in Docs, c[d] = 0
               PROVE  \E y \in Nodes : Held(y, q, u2) /\ d \in Sub[y]
    BY DEF Covered
  <2>1. PICK y \in Nodes : Held(y, q, u) /\ d \in Sub[y]
    BY DEF Good, Covered
  <2>2. CASE y = x
    <3>1. PICK z \in Kids[x] : d \in Sub[z]
      BY <2>1, <2>2, <1>a, Setting
    <3> QED BY <3>1, <1>0 DEF Held
  <2>3. CASE y # x
    BY <2>1, <2>3, <1>0 DEF Held
  <2> QED BY <2>2, <2>3
<1>5. Pending(q, u2, b2, k2) = Pending(q, u, b, k)
  BY <1>0 DEF Pending
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Good

\* a worker counts the entries it holds
LEMMA CountOk ==
  ASSUME NEW q, NEW u, NEW b, NEW k, NEW c, NEW n, Good(q, u, b, k, c, n),
         NEW w \in Workers, k[w]
  PROVE  Good(q, u, b, [k EXCEPT ![w] = FALSE], c, n + Cardinality(u[w]))
<1> DEFINE k2 == [k EXCEPT ![w] = FALSE]
<1> USE SubSelf
<1>0. /\ Typed(q, u, b, k, c) /\ u[w] \in SUBSET Nodes
      /\ \A v \in Workers : k2[v] = IF v = w THEN FALSE ELSE k[v]
  BY DEF Good, Typed
<1>1. Typed(q, u, b, k2, c)
  BY <1>0 DEF Typed
<1>2. Pending(q, u, b, k2) = Pending(q, u, b, k) \cup u[w]
  BY <1>0 DEF Pending
<1>3. Pending(q, u, b, k) \cap u[w] = {}
  <2> SUFFICES ASSUME NEW x \in u[w], x \in Pending(q, u, b, k) PROVE FALSE
    OBVIOUS
  <2>1. x \in q \/ \E v \in Workers : x \in b[v] \/ (~k[v] /\ x \in u[v])
    BY DEF Pending
  <2>2. x \in Nodes /\ x \in Sub[x]
    BY <1>0
  <2>3. x \notin q
    BY <2>2 DEF Good, Apart
  <2>4. \A v \in Workers : x \notin b[v]
    BY <2>2 DEF Good, Apart
  <2>5. \A v \in Workers : v # w => x \notin u[v]
    BY <2>2 DEF Good, Apart
  <2> QED BY <2>1, <2>3, <2>4, <2>5
<1>4. /\ IsFiniteSet(Pending(q, u, b, k)) /\ IsFiniteSet(u[w])
      /\ Cardinality({}) = 0
  BY <1>0, PendingFinite, FS_Subset, Setting, FS_EmptySet
<1>5. Cardinality(Pending(q, u, b, k2)) = n + Cardinality(u[w])
  <2>1. Cardinality(Pending(q, u, b, k) \cup u[w]) = Cardinality(Pending(q, u, b, k)) + Cardinality(u[w]) - Cardinality(Pending(q, u, b, k) \cap u[w])
    BY <1>4, FS_Union
  <2>2. Cardinality(Pending(q, u, b, k)) \in Nat /\ Cardinality(u[w]) \in Nat
    BY <1>4, FS_CardinalityType
  <2> QED BY <2>1, <2>2, <1>2, <1>3, <1>4 DEF Good
<1> QED BY <1>1, <1>5 DEF Good

\* a worker queues one of the entries it holds
LEMMA SendOk ==
  ASSUME NEW q, NEW u, NEW b, NEW k, NEW c, NEW n, Good(q, u, b, k, c, n),
         NEW w \in Workers, ~k[w], NEW x \in u[w]
  PROVE  Good(q \cup {x}, [u EXCEPT ![w] = u[w] \ {x}], b, k, c, n) /\ x \notin q
<1> DEFINE q2 == q \cup {x}  u2 == [u EXCEPT ![w] = u[w] \ {x}]
<1> USE SubSelf
<1>0. /\ Typed(q, u, b, k, c) /\ x \in Nodes
      /\ \A v \in Workers : u2[v] = IF v = w THEN u[w] \ {x} ELSE u[v]
  BY DEF Good, Typed
<1>1. Typed(q2, u2, b, k, c)
  BY <1>0 DEF Typed
<1>2. Apart(q2, u2, b)
  <2>1. \A y, z \in q2 : y # z => Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart, Typed
  <2>2. \A v \in Workers : \A y \in q2, z \in u2[v] : Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart, Typed
  <2>3. \A v \in Workers : \A y, z \in u2[v] : y # z => Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart, Typed
  <2>4. \A v, v2 \in Workers : v # v2 => \A y \in u2[v], z \in u2[v2] : Sub[y] \cap Sub[z] = {}
    BY <1>0 DEF Good, Apart, Typed
  <2>5. \A v \in Workers : \A z \in b[v], y \in q2 : z \notin Sub[y]
    BY <1>0 DEF Good, Apart, Typed
  <2>6. \A v, v2 \in Workers : \A z \in b[v], y \in u2[v2] : z \notin Sub[y]
    BY <1>0 DEF Good, Apart, Typed
  <2>7. \A v, v2 \in Workers : v # v2 => b[v] \cap b[v2] = {}
    BY <1>0 DEF Good, Apart, Typed
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7 DEF Apart
<1>3. \A y \in Nodes : Held(y, q2, u2) <=> Held(y, q, u)
  BY <1>0 DEF Held
<1>4. Fresh(q2, u2, c) /\ Covered(q2, u2, c)
  BY <1>3 DEF Good, Fresh, Covered
<1>5. Pending(q2, u2, b, k) = Pending(q, u, b, k)
  BY <1>0 DEF Pending
<1>6. x \notin q
  BY <1>0 DEF Good, Apart
<1> QED BY <1>1, <1>2, <1>4, <1>5, <1>6 DEF Good

\* a worker is done with what it had begun
LEMMA DoneOk ==
  ASSUME NEW q, NEW u, NEW b, NEW k, NEW c, NEW n, Good(q, u, b, k, c, n),
         NEW w \in Workers, NEW x \in Nodes, u[w] = {}, b[w] = {x}
  PROVE  Good(q, u, [b EXCEPT ![w] = {}], k, c, n - 1)
<1> DEFINE b2 == [b EXCEPT ![w] = {}]
<1> USE SubSelf
<1>0. /\ Typed(q, u, b, k, c)
      /\ \A v \in Workers : b2[v] = IF v = w THEN {} ELSE b[v]
  BY DEF Good, Typed
<1>1. Typed(q, u, b2, k, c)
  BY <1>0 DEF Typed
<1>2. Apart(q, u, b2)
  <2>1. \A v, v2 \in Workers : v # v2 => b2[v] \cap b2[v2] = {}
    BY <1>0 DEF Good, Apart
  <2> QED BY <1>0, <2>1 DEF Good, Apart
<1>3. x \notin q /\ \A v \in Workers : x \notin u[v] /\ (v # w => x \notin b[v])
  BY <1>0 DEF Good, Apart
<1>4. Pending(q, u, b2, k) = Pending(q, u, b, k) \ {x} /\ x \in Pending(q, u, b, k)
  BY <1>0, <1>3 DEF Pending
<1>5. Cardinality(Pending(q, u, b2, k)) = n - 1
  BY <1>0, <1>4, PendingFinite, FS_RemoveElement DEF Good
<1> QED BY <1>1, <1>2, <1>5 DEF Good

\* nothing pending: everything is compiled
LEMMA NothingLeft ==
  ASSUME NEW q, NEW u, NEW b, NEW k, NEW c, Good(q, u, b, k, c, 0)
  PROVE  /\ q = {} /\ \A w \in Workers : b[w] = {} /\ (~k[w] => u[w] = {})
<1>1. Pending(q, u, b, k) = {}
  BY PendingFinite, FS_EmptySet DEF Good
<1> QED BY <1>1 DEF Pending

-----------------------------------------------------------------------------
(* The states of Pool as states of that layer *)

LEMMA HeadElems ==
  ASSUME NEW S, NEW s \in Seq(S), s # <<>>
  PROVE  /\ Head(s) \in S /\ Tail(s) \in Seq(S)
         /\ Elems(s) = {Head(s)} \cup Elems(Tail(s))
         /\ Len(Tail(s)) = Len(s) - 1 /\ Len(s) \in Nat
         /\ Distinct(s) => Distinct(Tail(s)) /\ (Head(s) # QUIT => Head(s) \notin Elems(Tail(s)))
<1>1. /\ Len(s) \in Nat /\ Len(s) > 0 /\ Len(Tail(s)) = Len(s) - 1 /\ Tail(s) \in Seq(S)
      /\ \A i \in 1..Len(Tail(s)) : Tail(s)[i] = s[i + 1]
      /\ Head(s) = s[1] /\ Head(s) \in S
  BY HeadTailProperties, LenProperties, EmptySeq
<1>2. Elems(s) = {Head(s)} \cup Elems(Tail(s))
  <2>1. ASSUME NEW x \in Elems(s) PROVE x = Head(s) \/ x \in Elems(Tail(s))
    <3>1. PICK i \in 1..Len(s) : x = s[i]  BY <2>1 DEF Elems
    <3>2. CASE i = 1  BY <3>1, <3>2, <1>1
    <3>3. CASE i # 1
      <4>1. i - 1 \in 1..Len(Tail(s)) /\ Tail(s)[i - 1] = s[i]  BY <3>1, <3>3, <1>1
      <4> QED BY <4>1, <3>1 DEF Elems
    <3> QED BY <3>2, <3>3
  <2>2. ASSUME NEW x \in Elems(Tail(s)) PROVE x \in Elems(s)
    <3>1. PICK i \in 1..Len(Tail(s)) : x = Tail(s)[i]  BY <2>2 DEF Elems
    <3>2. i + 1 \in 1..Len(s) /\ x = s[i + 1]  BY <3>1, <1>1
    <3> QED BY <3>2 DEF Elems
  <2>3. Head(s) \in Elems(s)  BY <1>1 DEF Elems
  <2> QED BY <2>1, <2>2, <2>3
<1>3. ASSUME Distinct(s) PROVE Distinct(Tail(s))
  <2> SUFFICES ASSUME NEW i \in 1..Len(Tail(s)), NEW j \in 1..Len(Tail(s)), Tail(s)[i] = Tail(s)[j], Tail(s)[i] # QUIT
               PROVE  i = j
    BY DEF Distinct
  <2>1. i + 1 \in 1..Len(s) /\ j + 1 \in 1..Len(s) /\ s[i + 1] = s[j + 1] /\ s[i + 1] # QUIT  BY <1>1
  <2>2. i + 1 = j + 1 BY <2>1, <1>3 DEF Distinct
  <2> QED BY <2>2
<1>4. ASSUME Distinct(s), Head(s) # QUIT, Head(s) \in Elems(Tail(s)) PROVE FALSE
  <2>1. PICK i \in 1..Len(Tail(s)) : Head(s) = Tail(s)[i]  BY <1>4 DEF Elems
  <2>2. i + 1 \in 1..Len(s) /\ s[i + 1] = s[1] /\ 1 \in 1..Len(s) /\ s[1] # QUIT /\ i + 1 # 1  BY <2>1, <1>1, <1>4
  <2> QED BY <2>2, <1>4 DEF Distinct
<1> QED BY <1>1, <1>2, <1>3, <1>4

LEMMA AppendElems ==
  ASSUME NEW S, NEW s \in Seq(S), NEW x \in S
  PROVE  /\ Append(s, x) \in Seq(S)
         /\ Elems(Append(s, x)) = Elems(s) \cup {x}
         /\ Distinct(s) /\ (x = QUIT \/ x \notin Elems(s)) => Distinct(Append(s, x))
<1>1. /\ Append(s, x) \in Seq(S) /\ Len(s) \in Nat /\ Len(Append(s, x)) = Len(s) + 1
      /\ \A i \in 1..Len(s) : Append(s, x)[i] = s[i]
      /\ Append(s, x)[Len(s) + 1] = x
  BY AppendProperties, LenProperties
<1>2. Elems(Append(s, x)) = Elems(s) \cup {x}
  <2>1. ASSUME NEW y \in Elems(Append(s, x)) PROVE y \in Elems(s) \cup {x}
    <3>1. PICK i \in 1..Len(Append(s, x)) : y = Append(s, x)[i]  BY <2>1 DEF Elems
    <3>2. i \in 1..Len(s) \/ i = Len(s) + 1  BY <3>1, <1>1
    <3> QED BY <3>1, <3>2, <1>1 DEF Elems
  <2>2. ASSUME NEW y \in Elems(s) PROVE y \in Elems(Append(s, x))
    <3>1. PICK i \in 1..Len(s) : y = s[i]  BY <2>2 DEF Elems
    <3>2. i \in 1..Len(Append(s, x)) /\ y = Append(s, x)[i]  BY <3>1, <1>1
    <3> QED BY <3>2 DEF Elems
  <2>3. x \in Elems(Append(s, x))
    <3>1. Len(s) + 1 \in 1..Len(Append(s, x))  BY <1>1
    <3> QED BY <3>1, <1>1 DEF Elems
  <2> QED BY <2>1, <2>2, <2>3
<1>3. ASSUME Distinct(s), x = QUIT \/ x \notin Elems(s) PROVE Distinct(Append(s, x))
  <2> SUFFICES ASSUME NEW i \in 1..Len(Append(s, x)), NEW j \in 1..Len(Append(s, x)),
                      Append(s, x)[i] = Append(s, x)[j], Append(s, x)[i] # QUIT
               PROVE  i = j
    BY DEF Distinct
  <2>1. (i \in 1..Len(s) \/ i = Len(s) + 1) /\ (j \in 1..Len(s) \/ j = Len(s) + 1)  BY <1>1
  <2>2. CASE i \in 1..Len(s) /\ j \in 1..Len(s)  BY <2>2, <1>1, <1>3 DEF Distinct
  <2>3. CASE i \in 1..Len(s) /\ j = Len(s) + 1   BY <2>3, <1>1, <1>3 DEF Elems
  <2>4. CASE i = Len(s) + 1 /\ j \in 1..Len(s)   BY <2>4, <1>1, <1>3 DEF Elems
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1> QED BY <1>1, <1>2, <1>3

\* each order of a finite set names each of its elements once
LEMMA PermElems ==
  ASSUME NEW S \in SUBSET Nodes, NEW p \in Perms(S)
  PROVE  p \in Seq(S) /\ Elems(p) = S /\ Distinct(p) /\ Len(p) = Cardinality(S)
<1>1. IsFiniteSet(S) /\ Cardinality(S) \in Nat
  BY Setting, FS_Subset, FS_CardinalityType
<1>2. p \in [1..Cardinality(S) -> S] /\ \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]
  BY DEF Perms
<1>3. p \in Seq(S) /\ Len(p) = Cardinality(S)
  BY <1>1, <1>2, LenProperties, SeqDef
<1>4. p \in Injection(1..Cardinality(S), S)
  BY <1>2 DEF Injection, IsInjective
<1>5. IsFiniteSet(1..Cardinality(S)) /\ Cardinality(1..Cardinality(S)) = Cardinality(S)
  BY <1>1, FS_Interval
<1>6. p \in Surjection(1..Cardinality(S), S)
  BY <1>1, <1>4, <1>5, FS_Injection
<1>7. Elems(p) = S
  BY <1>3, <1>2, <1>6 DEF Elems, Surjection
<1> QED BY <1>2, <1>3, <1>7 DEF Distinct

-----------------------------------------------------------------------------
USE TheCode, Setting
LEMMA RootIsNode == Root \in Nodes
  BY DEF Nodes

LEMMA GoodNat ==
  ASSUME NEW q, NEW u, NEW b, NEW k, NEW c, NEW n, Good(q, u, b, k, c, n)
  PROVE  n \in Nat
  BY PendingFinite, FS_CardinalityType DEF Good

THEOREM InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv
  OBVIOUS
<1>1. /\ queue = <<Root>> /\ npend = 1 /\ pc = [w \in Workers |-> "recv"]
      /\ cur = [w \in Workers |-> ""] /\ left = [w \in Workers |-> <<>>] /\ compiled = [d \in Docs |-> 0]
  BY DEF Init
<1>2. Kinds
  BY <1>1, RootIsNode DEF Kinds, Items, Idle, Distinct
<1>3. QS = {Root}
  BY <1>1, RootIsNode DEF QS, Elems
<1>4. /\ U = [w \in Workers |-> {}] /\ B = [w \in Workers |-> {}] /\ K = [w \in Workers |-> FALSE]
  BY <1>1 DEF U, B, K
<1>5. Typed(QS, U, B, K, compiled)
  BY <1>1, <1>3, <1>4, RootIsNode DEF Typed
<1>6. Apart(QS, U, B)
  BY <1>3, <1>4 DEF Apart
<1>7. Fresh(QS, U, compiled) /\ Covered(QS, U, compiled)
  BY <1>1, <1>3, RootIsNode, Tree DEF Fresh, Covered, Held
<1>8. Pending(QS, U, B, K) = {Root}
  BY <1>3, <1>4 DEF Pending
<1>9. Cardinality({Root}) = 1
  BY FS_Singleton
<1> QED BY <1>1, <1>2, <1>5, <1>6, <1>7, <1>8, <1>9 DEF Inv, Good

\* when a worker has gone, no other is at work
LEMMA GoneMeansIdle ==
  ASSUME Inv, npend = 0
  PROVE  QS = {} /\ \A w \in Workers : pc[w] \in Idle
<1>1. Good(QS, U, B, K, compiled, 0)
  BY DEF Inv
<1>2. QS = {} /\ \A w \in Workers : B[w] = {} /\ (~K[w] => U[w] = {})
  BY <1>1, NothingLeft
<1>3. \A w \in Workers : pc[w] \notin {"count", "send", "done-item"}
  BY <1>2 DEF B
<1>4. \A w \in Workers : pc[w] \notin {"w-wait", "w-quit"}
  BY <1>2, <1>3 DEF U, K
<1> QED BY <1>2, <1>3, <1>4 DEF Inv, Kinds, Busy

\* a step of an idle worker that stays idle
LEMMA IdleStep ==
  ASSUME Inv, NEW w \in Workers, NEW l \in Idle,
         pc[w] \in Idle, pc' = [pc EXCEPT ![w] = l], l = "end" => npend = 0,
         cur' \in [Workers -> Items \cup {""}], \A v \in Workers : v # w => cur'[v] = cur[v],
         left' \in [Workers -> Seq(Items)], \A v \in Workers : v # w => left'[v] = left[v],
         l = "tell" => left'[w] # <<>>,
         queue' \in Seq(Items), Distinct(queue'), QS' = QS, compiled' = compiled, npend' = npend
  PROVE  Inv'
<1>1. \A v \in Workers : pc'[v] = IF v = w THEN l ELSE pc[v]
  BY DEF Inv, Kinds
<1>2. U' = U /\ B' = B /\ K' = K
  BY <1>1 DEF U, B, K, Idle
<1>3. Kinds'
  BY <1>1 DEF Inv, Kinds, Idle, Busy
<1>4. \A v \in Workers : pc'[v] = "end" => npend' = 0
  BY <1>1 DEF Inv
<1> QED BY <1>2, <1>3, <1>4 DEF Inv

LEMMA RecvEmpty ==
  ASSUME Inv, NEW w \in Workers, Recv(w), queue = <<>>
  PROVE  Inv'
<1>1. PICK l \in {"e-wait", "e-quit", "e-look"} : pc' = [pc EXCEPT ![w] = l]
  BY DEF Recv, Goto
<1>2. /\ pc[w] \in Idle /\ cur' = [cur EXCEPT ![w] = ""] /\ left' = left /\ queue' = queue
      /\ compiled' = compiled /\ npend' = npend
  BY DEF Recv, Goto, Idle
<1>3. QS' = QS
  BY <1>2 DEF QS
<1>4. cur' \in [Workers -> Items \cup {""}] /\ \A v \in Workers : v # w => cur'[v] = cur[v]
  BY <1>2 DEF Inv, Kinds
<1> QED BY <1>1, <1>2, <1>3, <1>4, IdleStep DEF Idle, Inv, Kinds

LEMMA RecvQuit ==
  ASSUME Inv, NEW w \in Workers, Recv(w), queue # <<>>, Head(queue) = QUIT
  PROVE  Inv'
<1>1. PICK l \in {"q-wait", "q-quit", "q-look"} : pc' = [pc EXCEPT ![w] = l]
  BY DEF Recv, Goto
<1>2. /\ pc[w] \in Idle /\ cur' = [cur EXCEPT ![w] = QUIT] /\ left' = left /\ queue' = Tail(queue)
      /\ compiled' = compiled /\ npend' = npend
  BY DEF Recv, Goto, Idle
<1>3. queue' \in Seq(Items) /\ Distinct(queue') /\ Elems(queue) = {QUIT} \cup Elems(queue')
  BY <1>2, HeadElems DEF Inv, Kinds
<1>4. QS' = QS
  BY <1>3 DEF QS
<1>5. cur' \in [Workers -> Items \cup {""}] /\ \A v \in Workers : v # w => cur'[v] = cur[v]
  BY <1>2 DEF Inv, Kinds, Items
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, IdleStep DEF Idle, Inv, Kinds

LEMMA IdleSteps ==
  ASSUME Inv, NEW w \in Workers,
         EWait(w) \/ EQuit(w) \/ Sleep(w) \/ QWait(w) \/ QQuit(w) \/ QLook(w) \/ QLook2(w) \/ QPend(w)
  PROVE  Inv'
<1>1. PICK l \in Idle : pc' = [pc EXCEPT ![w] = l] /\ l # "tell" /\ (l = "end" => npend = 0)
  <2>1. npend \in Nat
    BY GoodNat DEF Inv
  <2> QED BY <2>1 DEF EWait, EQuit, Sleep, QWait, QQuit, QLook, QLook2, QPend, Goto, Idle
<1>2. /\ pc[w] \in Idle /\ cur' = cur /\ left' = left /\ queue' = queue /\ compiled' = compiled /\ npend' = npend
  BY DEF EWait, EQuit, Sleep, QWait, QQuit, QLook, QLook2, QPend, Goto, Idle
<1>3. QS' = QS
  BY <1>2 DEF QS
<1> QED BY <1>1, <1>2, <1>3, IdleStep DEF Inv, Kinds

LEMMA LookStep ==
  ASSUME Inv, NEW w \in Workers, ELook(w)
  PROVE  Inv'
<1>1. CASE nwait = T
  <2>1. /\ pc[w] \in Idle /\ pc' = [pc EXCEPT ![w] = "tell"] /\ left' = [left EXCEPT ![w] = [i \in 1..T |-> QUIT]]
        /\ cur' = cur /\ queue' = queue /\ compiled' = compiled /\ npend' = npend
    BY <1>1 DEF ELook, Idle
  <2>2. T \in Nat /\ T # 0
    BY FS_CardinalityType, FS_EmptySet DEF T
  <2>3. [i \in 1..T |-> QUIT] \in Seq(Items)
    BY <2>2, IsASeq DEF Items
  <2>4. [i \in 1..T |-> QUIT] # <<>>
    <3>1. Len([i \in 1..T |-> QUIT]) = T
      BY <2>2, <2>3, LenProperties
    <3> QED BY <3>1, <2>2, EmptySeq
  <2>5. left' \in [Workers -> Seq(Items)] /\ left'[w] # <<>> /\ \A v \in Workers : v # w => left'[v] = left[v]
    BY <2>1, <2>3, <2>4 DEF Inv, Kinds
  <2>6. QS' = QS
    BY <2>1 DEF QS
  <2> QED BY <2>1, <2>5, <2>6, IdleStep DEF Inv, Kinds, Idle
<1>2. CASE nwait # T
  <2>1. /\ pc[w] \in Idle /\ pc' = [pc EXCEPT ![w] = "sleep"] /\ left' = left
        /\ cur' = cur /\ queue' = queue /\ compiled' = compiled /\ npend' = npend
    BY <1>2 DEF ELook, Goto, Idle
  <2>2. QS' = QS
    BY <2>1 DEF QS
  <2> QED BY <2>1, <2>2, IdleStep DEF Inv, Kinds, Idle
<1> QED BY <1>1, <1>2

LEMMA TellStep ==
  ASSUME Inv, NEW w \in Workers, Tell(w)
  PROVE  Inv'
<1>1. /\ pc[w] \in Idle /\ left[w] # <<>> /\ left' = [left EXCEPT ![w] = Tail(left[w])] /\ queue' = Append(queue, QUIT)
      /\ pc' = [pc EXCEPT ![w] = IF Tail(left[w]) = <<>> THEN "recv" ELSE "tell"]
      /\ cur' = cur /\ compiled' = compiled /\ npend' = npend
  BY DEF Tell, Idle, Inv, Kinds
<1>2. Tail(left[w]) \in Seq(Items)
  BY <1>1, HeadElems DEF Inv, Kinds
<1>3. left' \in [Workers -> Seq(Items)] /\ left'[w] = Tail(left[w]) /\ \A v \in Workers : v # w => left'[v] = left[v]
  BY <1>1, <1>2 DEF Inv, Kinds
<1>4. queue' \in Seq(Items) /\ Distinct(queue') /\ Elems(queue') = Elems(queue) \cup {QUIT}
  BY <1>1, AppendElems DEF Inv, Kinds, Items
<1>5. QS' = QS
  BY <1>4 DEF QS
<1>6. CASE Tail(left[w]) = <<>>
  <2>1. pc' = [pc EXCEPT ![w] = "recv"] BY <1>1, <1>6
  <2> QED BY <2>1, <1>1, <1>3, <1>4, <1>5, IdleStep DEF Inv, Kinds, Idle
<1>7. CASE Tail(left[w]) # <<>>
  <2>1. pc' = [pc EXCEPT ![w] = "tell"] BY <1>1, <1>7
  <2> QED BY <2>1, <1>1, <1>3, <1>4, <1>5, <1>7, IdleStep DEF Inv, Kinds, Idle
<1> QED BY <1>6, <1>7

\* nothing changes the counter once a worker has gone
LEMMA BusyStep ==
  ASSUME Inv, NEW w \in Workers, pc[w] \in Busy \/ QS # {}, NEW l \in Busy \cup {"recv"},
         pc' = [pc EXCEPT ![w] = l], Kinds', Good(QS', U', B', K', compiled', npend')
  PROVE  Inv'
<1>1. npend # 0
  BY GoneMeansIdle DEF Idle, Busy
<1>2. \A v \in Workers : pc[v] # "end"
  BY <1>1 DEF Inv
<1>3. \A v \in Workers : pc'[v] # "end"
  BY <1>2 DEF Inv, Kinds, Busy
<1> QED BY <1>3 DEF Inv

\* beginning a node that the worker holds
LEMMA BeginOk ==
  ASSUME NEW q, NEW u, NEW n, NEW w \in Workers, NEW x \in Nodes,
         Good(q, u, B, K, compiled, n), u[w] = {x}, B[w] = {}, ~K[w],
         Kinds, Begin(w, x), cur'[w] = x, cur' \in [Workers -> Items \cup {""}], \A v \in Workers : v # w => cur'[v] = cur[v],
         \A v \in Workers : v # w => u[v] = U[v],
         queue' \in Seq(Items), Distinct(queue'), QS' = q, npend' = n
  PROVE  /\ Kinds' /\ Good(QS', U', B', K', compiled', npend')
         /\ \E l \in Busy : pc' = [pc EXCEPT ![w] = l]
<1>0. u \in [Workers -> SUBSET Nodes]
  BY DEF Good, Typed
<1>1. CASE x \in Docs
  <2>1. /\ compiled' = [compiled EXCEPT ![x] = @ + 1] /\ pc' = [pc EXCEPT ![w] = "done-item"] /\ left' = left
    BY <1>1 DEF Begin
  <2>2. /\ Good(q, [u EXCEPT ![w] = {}], [B EXCEPT ![w] = {x}], K, [compiled EXCEPT ![x] = 1], n)
        /\ compiled[x] = 0
    BY <1>1, BeginDocOk
  <2>3. compiled' = [compiled EXCEPT ![x] = 1]
    BY <2>1, <2>2, <1>1 DEF Good, Typed
  <2>4. \A v \in Workers : pc'[v] = IF v = w THEN "done-item" ELSE pc[v]
    BY <2>1 DEF Kinds
  <2>5. U' = [u EXCEPT ![w] = {}]
    BY <2>1, <2>4, <1>0 DEF U
  <2>6. B' = [B EXCEPT ![w] = {x}] /\ K' = K
    BY <2>1, <2>4 DEF B, K
  <2>7. Kinds'
    BY <2>1, <2>4 DEF Kinds, Busy
  <2> QED BY <2>1, <2>2, <2>3, <2>5, <2>6, <2>7 DEF Busy
<1>2. CASE x \in Dirs
  <2>0. x \notin Docs
    BY <1>2
  <2>1. PICK p \in Perms(Kids[x]) : left' = [left EXCEPT ![w] = p]
    BY <2>0 DEF Begin
  <2>2. compiled' = compiled /\ pc' = [pc EXCEPT ![w] = "count"]
    BY <2>0 DEF Begin
  <2>3. Kids[x] \in SUBSET Nodes
    BY <1>2
  <2>4. p \in Seq(Kids[x]) /\ Elems(p) = Kids[x] /\ Distinct(p) /\ Len(p) = Cardinality(Kids[x])
    BY <2>3, PermElems
  <2>5. p \in Seq(Nodes) /\ p \in Seq(Items)
    BY <2>3, <2>4, SeqMonotonic DEF Items
  <2>6. \A v \in Workers : /\ pc'[v] = IF v = w THEN "count" ELSE pc[v]
                           /\ left'[v] = IF v = w THEN p ELSE left[v]
    BY <2>1, <2>2 DEF Kinds
  <2>7. Good(q, [u EXCEPT ![w] = Kids[x]], [B EXCEPT ![w] = {x}], [K EXCEPT ![w] = TRUE], compiled, n)
    BY <1>2, BeginDirOk
  <2>8. U' = [u EXCEPT ![w] = Kids[x]]
    BY <2>4, <2>6, <1>0 DEF U
  <2>9. B' = [B EXCEPT ![w] = {x}] /\ K' = [K EXCEPT ![w] = TRUE]
    BY <2>6 DEF B, K
  <2>10. left' \in [Workers -> Seq(Items)]
    BY <2>1, <2>5 DEF Kinds
  <2>11. Kinds'
    BY <1>2, <2>2, <2>4, <2>5, <2>6, <2>10 DEF Kinds, Busy
  <2> QED BY <2>2, <2>7, <2>8, <2>9, <2>11 DEF Busy
<1> QED BY <1>1, <1>2 DEF Nodes

\* a worker that holds a node is begun on it, or first stops counting as waiting or quitting
LEMMA BeginStep ==
  ASSUME Inv, NEW w \in Workers, NEW q, NEW x \in Nodes, NEW u,
         pc[w] \in Busy \/ QS # {}, u[w] = {x}, Good(q, u, B, K, compiled, npend), B[w] = {}, ~K[w],
         Begin(w, x), cur'[w] = x, cur' \in [Workers -> Items \cup {""}], \A v \in Workers : v # w => cur'[v] = cur[v],
         \A v \in Workers : v # w => u[v] = U[v],
         queue' \in Seq(Items), Distinct(queue'), QS' = q, npend' = npend
  PROVE  Inv'
<1>1. /\ Kinds' /\ Good(QS', U', B', K', compiled', npend')
      /\ \E l \in Busy : pc' = [pc EXCEPT ![w] = l]
  <2>1. Kinds BY DEF Inv
  <2> QED BY <2>1, BeginOk
<1>2. PICK l \in Busy : pc' = [pc EXCEPT ![w] = l]
  BY <1>1
<1> QED BY <1>1, <1>2, BusyStep

LEMMA RecvNode ==
  ASSUME Inv, NEW w \in Workers, Recv(w), queue # <<>>, Head(queue) # QUIT
  PROVE  Inv'
<1> DEFINE x == Head(queue)  u == [U EXCEPT ![w] = {x}]
<1>1. /\ pc[w] = "recv" /\ queue' = Tail(queue) /\ cur' = [cur EXCEPT ![w] = x] /\ npend' = npend
      /\ \/ Goto(w, "w-wait")
         \/ Goto(w, "w-quit")
         \/ Begin(w, x)
  BY DEF Recv
<1>2. /\ x \in Items /\ queue' \in Seq(Items) /\ Elems(queue) = {x} \cup Elems(queue')
      /\ Distinct(queue') /\ x \notin Elems(queue')
  BY <1>1, HeadElems DEF Inv, Kinds
<1>3. x \in Nodes /\ x \in QS /\ QS' = QS \ {x}
  BY <1>2 DEF Items, QS
<1>4. U[w] = {} /\ B[w] = {} /\ ~K[w]
  BY <1>1 DEF U, B, K
<1>5. Good(QS \ {x}, u, B, K, compiled, npend)
  BY <1>3, <1>4, TakeOk DEF Inv
<1>6. U \in [Workers -> SUBSET Nodes]
  BY DEF Inv, Good, Typed
<1>7. u[w] = {x} /\ \A v \in Workers : v # w => u[v] = U[v]
  BY <1>6
<1>8. /\ cur' \in [Workers -> Items \cup {""}] /\ cur'[w] = x
      /\ \A v \in Workers : v # w => cur'[v] = cur[v]
  BY <1>1, <1>2 DEF Inv, Kinds
<1>9. ASSUME NEW l \in {"w-wait", "w-quit"}, Goto(w, l)
      PROVE  Inv'
  <2>1. pc' = [pc EXCEPT ![w] = l] /\ left' = left /\ compiled' = compiled
    BY <1>9 DEF Goto
  <2>2. \A v \in Workers : pc'[v] = IF v = w THEN l ELSE pc[v]
    BY <2>1 DEF Inv, Kinds
  <2>3. U' = u
    BY <2>1, <2>2, <1>6, <1>8 DEF U
  <2>4. B' = B /\ K' = K
    BY <2>1, <2>2, <1>8, <1>1 DEF B, K
  <2>5. Kinds'
    BY <2>1, <2>2, <1>2, <1>3, <1>8 DEF Inv, Kinds, Busy
  <2>6. Good(QS', U', B', K', compiled', npend')
    BY <2>1, <2>3, <2>4, <1>1, <1>3, <1>5
  <2>7. l \in Busy \cup {"recv"} /\ QS # {}
    BY <1>3 DEF Busy
  <2> QED BY <2>1, <2>5, <2>6, <2>7, BusyStep
<1>10. ASSUME Begin(w, x) PROVE Inv'
  <2>1. QS # {} BY <1>3
  <2> HIDE DEF x, u
  <2> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>7, <1>8, <1>10, <2>1, BeginStep
<1> QED BY <1>1, <1>9, <1>10

LEMMA WWaitStep ==
  ASSUME Inv, NEW w \in Workers, WWait(w)
  PROVE  Inv'
<1>1. /\ pc[w] = "w-wait" /\ queue' = queue /\ cur' = cur /\ npend' = npend /\ cur[w] \in Nodes
      /\ \/ Goto(w, "w-quit")
         \/ Begin(w, cur[w])
  BY DEF WWait, Inv, Kinds
<1>2. U[w] = {cur[w]} /\ B[w] = {} /\ ~K[w] /\ QS' = QS /\ pc[w] \in Busy
  BY <1>1 DEF U, B, K, QS, Busy
<1>3. ASSUME Goto(w, "w-quit") PROVE Inv'
  <2>1. pc' = [pc EXCEPT ![w] = "w-quit"] /\ left' = left /\ compiled' = compiled
    BY <1>3 DEF Goto
  <2>2. \A v \in Workers : pc'[v] = IF v = w THEN "w-quit" ELSE pc[v]
    BY <2>1 DEF Inv, Kinds
  <2>3. U' = U /\ B' = B /\ K' = K
    BY <2>1, <2>2, <1>1 DEF U, B, K
  <2>4. Kinds'
    BY <2>1, <2>2, <1>1 DEF Inv, Kinds, Busy
  <2>5. Good(QS', U', B', K', compiled', npend')
    BY <2>1, <2>3, <1>1, <1>2 DEF Inv
  <2>6. "w-quit" \in Busy
    BY DEF Busy
  <2> QED BY <2>1, <2>4, <2>5, <2>6, <1>2, BusyStep
<1>4. ASSUME Begin(w, cur[w]) PROVE Inv'
  <2>1. /\ Good(QS, U, B, K, compiled, npend) /\ queue \in Seq(Items) /\ Distinct(queue)
        /\ cur \in [Workers -> Items \cup {""}]
    BY DEF Inv, Kinds
  <2>2. Distinct(queue')
    BY <2>1, <1>1
  <2> QED BY <2>1, <2>2, <1>1, <1>2, <1>4, BeginStep
<1> QED BY <1>1, <1>3, <1>4

LEMMA WQuitStep ==
  ASSUME Inv, NEW w \in Workers, WQuit(w)
  PROVE  Inv'
<1>1. /\ pc[w] = "w-quit" /\ queue' = queue /\ cur' = cur /\ npend' = npend /\ cur[w] \in Nodes
      /\ Begin(w, cur[w])
  BY DEF WQuit, Inv, Kinds
<1>2. U[w] = {cur[w]} /\ B[w] = {} /\ ~K[w] /\ QS' = QS /\ pc[w] \in Busy
  BY <1>1 DEF U, B, K, QS, Busy
<1>3. /\ Good(QS, U, B, K, compiled, npend) /\ queue \in Seq(Items) /\ Distinct(queue)
      /\ cur \in [Workers -> Items \cup {""}]
  BY DEF Inv, Kinds
<1>4. Distinct(queue')
  BY <1>1, <1>3
<1> QED BY <1>1, <1>2, <1>3, <1>4, BeginStep

LEMMA CountStep ==
  ASSUME Inv, NEW w \in Workers, Count(w)
  PROVE  Inv'
<1> DEFINE l == IF left[w] = <<>> THEN "done-item" ELSE "send"
<1>1. /\ pc[w] = "count" /\ queue' = queue /\ cur' = cur /\ left' = left /\ compiled' = compiled
      /\ npend' = npend + Len(left[w]) /\ pc' = [pc EXCEPT ![w] = l]
  BY DEF Count, Goto
<1>2. /\ cur[w] \in Dirs /\ left[w] \in Seq(Nodes) /\ Distinct(left[w]) /\ Len(left[w]) = Cardinality(Elems(left[w]))
  BY <1>1 DEF Inv, Kinds
<1>3. U[w] = Elems(left[w]) /\ K[w]
  BY <1>1 DEF U, K
<1>4. Good(QS, U, B, [K EXCEPT ![w] = FALSE], compiled, npend + Cardinality(U[w]))
  BY <1>3, CountOk DEF Inv
<1>5. \A v \in Workers : pc'[v] = IF v = w THEN l ELSE pc[v]
  BY <1>1 DEF Inv, Kinds
<1>6. K' = [K EXCEPT ![w] = FALSE] /\ B' = B
  BY <1>1, <1>5 DEF K, B
<1>7. left[w] = <<>> => Elems(left[w]) = {}
  BY DEF Elems
<1>8. U' = U
  BY <1>1, <1>5, <1>7 DEF U
<1>9. Good(QS', U', B', K', compiled', npend')
  <2>1. npend' = npend + Cardinality(U[w])
    BY <1>1, <1>2, <1>3
  <2>2. QS' = QS
    BY <1>1 DEF QS
  <2> QED BY <1>1, <1>4, <1>6, <1>8, <2>1, <2>2
<1>10. Kinds'
  BY <1>1, <1>2, <1>5 DEF Inv, Kinds, Nodes, Busy
<1>11. l \in Busy /\ pc[w] \in Busy
  BY <1>1 DEF Busy
<1> QED BY <1>1, <1>9, <1>10, <1>11, BusyStep

LEMMA SendStep ==
  ASSUME Inv, NEW w \in Workers, Send(w)
  PROVE  Inv'
<1> DEFINE x == Head(left[w])
           l == IF Tail(left[w]) = <<>> THEN "done-item" ELSE "send"
<1>1. /\ pc[w] = "send" /\ queue' = Append(queue, x) /\ cur' = cur /\ compiled' = compiled
      /\ npend' = npend /\ pc' = [pc EXCEPT ![w] = l] /\ left' = [left EXCEPT ![w] = Tail(left[w])]
  BY DEF Send, Inv, Kinds
<1>2. cur[w] \in Dirs /\ left[w] \in Seq(Nodes) /\ Distinct(left[w]) /\ left[w] # <<>>
  BY <1>1 DEF Inv, Kinds
<1>3. /\ x \in Nodes /\ Tail(left[w]) \in Seq(Nodes) /\ Elems(left[w]) = {x} \cup Elems(Tail(left[w]))
      /\ Distinct(Tail(left[w])) /\ x # QUIT /\ x \notin Elems(Tail(left[w]))
  BY <1>2, HeadElems
<1>4. U[w] = Elems(left[w]) /\ ~K[w] /\ x \in U[w]
  BY <1>1, <1>3 DEF U, K
<1>5. Good(QS \cup {x}, [U EXCEPT ![w] = U[w] \ {x}], B, K, compiled, npend) /\ x \notin QS
  BY <1>4, SendOk DEF Inv
<1>6. x \in Items /\ Tail(left[w]) \in Seq(Items)
  BY <1>3, SeqMonotonic DEF Items
<1>7. x \notin Elems(queue)
  BY <1>3, <1>5 DEF QS
<1>8. queue' \in Seq(Items) /\ Elems(queue') = Elems(queue) \cup {x} /\ Distinct(queue')
  BY <1>1, <1>6, <1>7, AppendElems DEF Inv, Kinds
<1>9. QS' = QS \cup {x}
  BY <1>3, <1>8 DEF QS
<1>10. \A v \in Workers : /\ pc'[v] = IF v = w THEN l ELSE pc[v]
                          /\ left'[v] = IF v = w THEN Tail(left[w]) ELSE left[v]
  BY <1>1 DEF Inv, Kinds
<1>11. U \in [Workers -> SUBSET Nodes]
  BY DEF Inv, Good, Typed
<1>12. Tail(left[w]) = <<>> => Elems(Tail(left[w])) = {}
  BY DEF Elems
<1>13. U[w] \ {x} = Elems(Tail(left[w]))
  BY <1>3, <1>4
<1>14. U' = [U EXCEPT ![w] = U[w] \ {x}]
  BY <1>1, <1>10, <1>11, <1>12, <1>13 DEF U
<1>15. B' = B /\ K' = K
  BY <1>1, <1>10 DEF B, K
<1>16. left' \in [Workers -> Seq(Items)]
  BY <1>1, <1>6 DEF Inv, Kinds
<1>17. Kinds'
  BY <1>1, <1>2, <1>3, <1>8, <1>10, <1>16 DEF Inv, Kinds, Nodes, Busy
<1>18. Good(QS', U', B', K', compiled', npend')
  BY <1>1, <1>5, <1>9, <1>14, <1>15
<1>19. l \in Busy /\ pc[w] \in Busy
  BY <1>1 DEF Busy
<1> QED BY <1>1, <1>17, <1>18, <1>19, BusyStep

LEMMA DoneStep ==
  ASSUME Inv, NEW w \in Workers, DoneItem(w)
  PROVE  Inv'
<1>1. /\ pc[w] = "done-item" /\ queue' = queue /\ cur' = [cur EXCEPT ![w] = ""] /\ compiled' = compiled /\ left' = left
      /\ npend' = npend - 1 /\ pc' = [pc EXCEPT ![w] = "recv"] /\ cur[w] \in Nodes
  BY DEF DoneItem, Goto, Inv, Kinds
<1>2. U[w] = {} /\ B[w] = {cur[w]} /\ QS' = QS
  BY <1>1 DEF U, B, QS
<1>3. Good(QS, U, [B EXCEPT ![w] = {}], K, compiled, npend - 1)
  BY <1>1, <1>2, DoneOk DEF Inv
<1>4. \A v \in Workers : /\ pc'[v] = IF v = w THEN "recv" ELSE pc[v]
                         /\ cur'[v] = IF v = w THEN "" ELSE cur[v]
  BY <1>1 DEF Inv, Kinds
<1>5. U' = U /\ K' = K
  BY <1>1, <1>4 DEF U, K
<1>6. B' = [B EXCEPT ![w] = {}]
  BY <1>1, <1>4 DEF B
<1>7. cur' \in [Workers -> Items \cup {""}]
  BY <1>1 DEF Inv, Kinds
<1>8. Kinds'
  BY <1>1, <1>4, <1>7 DEF Inv, Kinds, Idle
<1>9. Good(QS', U', B', K', compiled', npend')
  BY <1>1, <1>2, <1>3, <1>5, <1>6
<1>10. pc[w] \in Busy
  BY <1>1 DEF Busy
<1> QED BY <1>1, <1>8, <1>9, <1>10, BusyStep

-----------------------------------------------------------------------------
LEMMA StutterInv == Inv /\ UNCHANGED vars => Inv'
  BY DEF vars, Inv, Kinds, QS, U, B, K

THEOREM NextInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE UNCHANGED vars
  BY <1>1, StutterInv
<1>2. ASSUME NEW w \in Workers, Step(w) PROVE Inv'
  <2>1. CASE Recv(w)
    BY <2>1, RecvEmpty, RecvQuit, RecvNode
  <2>2. CASE EWait(w) \/ EQuit(w) \/ Sleep(w) \/ QWait(w) \/ QQuit(w) \/ QLook(w) \/ QLook2(w) \/ QPend(w)
    BY <2>2, IdleSteps
  <2> QED BY <1>2, <2>1, <2>2, WWaitStep, WQuitStep, CountStep, SendStep, DoneStep, LookStep, TellStep DEF Step
<1> QED BY <1>1, <1>2 DEF Next

THEOREM Invariant == Spec => []Inv
  BY InitInv, NextInv, PTL DEF Spec

LEMMA InvImplies == Inv => AtMostOnce /\ NoneLost
<1> SUFFICES ASSUME Inv PROVE AtMostOnce /\ NoneLost
  OBVIOUS
<1>1. Typed(QS, U, B, K, compiled) /\ Covered(QS, U, compiled)
  BY DEF Inv, Good
<1>2. AtMostOnce
  BY <1>1 DEF Typed, AtMostOnce
<1>3. ASSUME NEW w \in Workers, pc[w] = "end"
      PROVE  npend = 0 /\ \A d \in Docs : compiled[d] = 1
  <2>1. npend = 0
    BY <1>3 DEF Inv
  <2>2. QS = {} /\ \A v \in Workers : pc[v] \in Idle
    BY <2>1, GoneMeansIdle
  <2>3. \A v \in Workers : U[v] = {}
    BY <2>2 DEF U, Idle
  <2> QED BY <1>1, <2>1, <2>2, <2>3 DEF Covered, Held, Typed
<1> QED BY <1>2, <1>3 DEF NoneLost

THEOREM Safety == Spec => [](AtMostOnce /\ NoneLost)
  BY Invariant, InvImplies, PTL

-----------------------------------------------------------------------------
(* From outside, the pool is a loop that compiles one document after another *)
LEMMA HeldFresh ==
  ASSUME Inv, NEW x \in Docs, x \in QS \/ \E w \in Workers : x \in U[w]
  PROVE  compiled[x] = 0
<1>1. x \in Nodes /\ x \in Sub[x]
  BY SubSelf DEF Nodes
<1> QED BY <1>1 DEF Inv, Good, Fresh, Held

LEMMA StepCompiles ==
  ASSUME Inv, NEW w \in Workers, Step(w)
  PROVE  \/ compiled' = compiled
         \/ \E x \in Docs : compiled[x] = 0 /\ compiled' = [compiled EXCEPT ![x] = 1] /\ pc' = [pc EXCEPT ![w] = "done-item"]
<1>0. compiled \in [Docs -> {0, 1}]
  BY DEF Inv, Good, Typed
<1>1. ASSUME NEW x \in Nodes, Begin(w, x), x \in QS \/ \E v \in Workers : x \in U[v]
      PROVE  \/ compiled' = compiled
             \/ \E y \in Docs : compiled[y] = 0 /\ compiled' = [compiled EXCEPT ![y] = 1] /\ pc' = [pc EXCEPT ![w] = "done-item"]
  <2>1. CASE x \in Docs
    <3>1. compiled' = [compiled EXCEPT ![x] = @ + 1] /\ pc' = [pc EXCEPT ![w] = "done-item"]
      BY <2>1, <1>1 DEF Begin
    <3>2. compiled[x] = 0
      BY <2>1, <1>1, HeldFresh
    <3>3. compiled' = [compiled EXCEPT ![x] = 1]
      BY <3>1, <3>2, <2>1, <1>0
    <3> QED BY <3>1, <3>2, <3>3, <2>1
  <2>2. CASE x \notin Docs
    BY <2>2, <1>1 DEF Begin
  <2> QED BY <2>1, <2>2
<1>2. CASE Recv(w)
  <2>1. CASE queue = <<>> \/ Head(queue) = QUIT
    BY <1>2, <2>1 DEF Recv, Goto
  <2>2. CASE queue # <<>> /\ Head(queue) # QUIT
    <3>1. Head(queue) \in Items /\ Head(queue) \in Elems(queue)
      BY <2>2, HeadElems DEF Inv, Kinds
    <3>2. Head(queue) \in Nodes /\ Head(queue) \in QS
      BY <2>2, <3>1 DEF Items, QS
    <3>3. compiled' = compiled \/ Begin(w, Head(queue))
      BY <1>2, <2>2 DEF Recv, Goto
    <3> QED BY <3>2, <3>3, <1>1
  <2> QED BY <2>1, <2>2
<1>3. CASE WWait(w) \/ WQuit(w)
  <2>1. cur[w] \in Nodes /\ cur[w] \in U[w]
    BY <1>3 DEF WWait, WQuit, U, Inv, Kinds
  <2>2. compiled' = compiled \/ Begin(w, cur[w])
    BY <1>3 DEF WWait, WQuit, Goto
  <2> QED BY <2>1, <2>2, <1>1
<1>4. CASE ~(Recv(w) \/ WWait(w) \/ WQuit(w))
  BY <1>4 DEF Step, Count, Send, DoneItem, EWait, EQuit, ELook, Tell, Sleep, QWait, QQuit, QLook, QLook2, QPend, Goto
<1> QED BY <1>2, <1>3, <1>4

LEMMA NotOverBefore ==
  ASSUME NEW w \in Workers, Step(w)
  PROVE  ~Over
<1>1. pc[w] # "end"
  BY DEF Step, Recv, WWait, WQuit, Count, Send, DoneItem, EWait, EQuit, ELook, Tell, Sleep, QWait, QQuit, QLook, QLook2, QPend
<1> QED BY <1>1 DEF Over

LEMMA RefinesStep == Inv /\ Inv' /\ [Next]_vars => [Loop!Next]_<<todo, Over>>
<1> SUFFICES ASSUME Inv, Inv', [Next]_vars PROVE [Loop!Next]_<<todo, Over>>
  OBVIOUS
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars, todo, Over
<1>2. ASSUME NEW w \in Workers, Step(w) PROVE [Loop!Next]_<<todo, Over>>
  <2>0. ~Over
    BY <1>2, NotOverBefore
  <2>1. CASE compiled' = compiled
    <3>1. todo' = todo
      BY <2>1 DEF todo
    <3>2. CASE Over'
      <4>1. \A d \in Docs : compiled'[d] = 1
        <5>1. NoneLost'
          BY InvImplies, PTL
        <5> QED BY <5>1, <3>2, Setting DEF Over, NoneLost
      <4>2. todo = {}
        BY <4>1, <2>1 DEF todo
      <4> QED BY <3>1, <3>2, <4>2 DEF Loop!Next
    <3>3. CASE ~Over'
      BY <3>1, <3>3, <2>0 DEF Over
    <3> QED BY <3>2, <3>3
  <2>2. ASSUME NEW x \in Docs, compiled[x] = 0, compiled' = [compiled EXCEPT ![x] = 1], pc' = [pc EXCEPT ![w] = "done-item"]
        PROVE  [Loop!Next]_<<todo, Over>>
    <3>1. x \in todo /\ todo' = todo \ {x}
      BY <2>2 DEF todo, Inv, Good, Typed
    <3>2. ~Over'
      BY <2>2 DEF Over, Inv, Kinds
    <3>3. Over' = Over
      BY <3>2, <2>0 DEF Over
    <3> QED BY <3>1, <3>3 DEF Loop!Next
  <2> QED BY <1>2, <2>1, <2>2, StepCompiles
<1> QED BY <1>1, <1>2 DEF Next

LEMMA RefinesInit == Init => Loop!Init
<1>1. Init => todo = Docs /\ Over = FALSE
  BY Setting DEF Init, todo, Over
<1> QED BY <1>1 DEF Loop!Init

THEOREM Refinement == Spec => Loop!Init /\ [][Loop!Next]_<<todo, Over>>
  BY RefinesInit, RefinesStep, Invariant, PTL DEF Spec
=============================================================================
