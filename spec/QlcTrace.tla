------------------------------ MODULE QlcTrace ------------------------------
(* Checks recordings of the real program against Qlc: every line is one      *)
(* action with its observed result. Broken clauses are printed; POSTCONDITION *)
(* demands that every line was an action of Qlc.                              *)
EXTENDS Qlc, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.QLC_TRACE)

VARIABLES l, id, schemas
vars == <<qvars, l, id, schemas>>
TraceView == l

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

\* registers: documents that had to be written, had to be rejected, left open; runs; outputs
TraceInit ==
  /\ Init /\ l = 1 /\ id = "" /\ schemas = <<>>
  /\ \A i \in 1..5 : TLCSet(i, 0)
Count(i, n) == TLCSet(i, TLCGet(i) + n)
Tally ==
  /\ Count(1, run.tally.ok) /\ Count(2, run.tally.fail) /\ Count(3, run.tally.any)
  /\ Count(4, 1) /\ Count(5, Cardinality(run.wrote))

Begin ==
  /\ Is("begin")
  /\ id' = Ev.id
  /\ tree' = <<>> /\ out' = <<>> /\ memo' = <<>> /\ run' = NoRun /\ bad' = {}
  /\ UNCHANGED schemas

Schema ==
  /\ Is("schema")
  /\ schemas' = [n \in DOMAIN schemas \cup {Ev.id} |-> IF n = Ev.id THEN Ev.S ELSE schemas[n]]
  /\ bad' = {}
  /\ UNCHANGED <<tree, out, memo, run, id>>

TracePut == Is("put") /\ Put(Ev.f, Ev.src) /\ UNCHANGED <<id, schemas>>
TraceRemove == Is("del") /\ Remove(Ev.f) /\ UNCHANGED <<id, schemas>>
TraceStart == Is("run") /\ Start(Ev.cli, schemas) /\ UNCHANGED <<id, schemas>>
TraceDoc ==
  /\ Is("doc")
  /\ IF run.phase = "compile" /\ Ev.f \in run.todo THEN Compile(Ev.f, Ev) ELSE Bystander(Ev.f, Ev)
  /\ UNCHANGED <<id, schemas>>
TraceGlobals == Is("globals") /\ Globals(Ev) /\ UNCHANGED <<id, schemas>>
TraceExit == Is("exit") /\ Exit(Ev) /\ Tally /\ UNCHANGED <<id, schemas>>
TraceAbort == Is("abort") /\ Abort(Ev) /\ Tally /\ UNCHANGED <<id, schemas>>

Report ==
  /\ bad' # {} => PrintT("BAD " \o ToJson([id |-> id, line |-> l, bad |-> bad']))
TraceNext ==
  /\ \/ Begin \/ Schema \/ TracePut \/ TraceRemove \/ TraceStart \/ TraceDoc \/ TraceGlobals
     \/ TraceExit \/ TraceAbort
  /\ Report

TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceAccepted ==
  /\ PrintT("TALLY " \o ToJson([i \in 1..5 |-> TLCGet(i)]))
  /\
   \/ TLCGet("stats").diameter - 1 = Len(Trace)
   \/ PrintT("STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
