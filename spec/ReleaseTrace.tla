---------------------------- MODULE ReleaseTrace ----------------------------
(* Checks recordings of the release scripts against Releaser *)
EXTENDS Releaser, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.QLC_TRACE)
VARIABLES l, id
vars == <<l, id, rvars>>

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TraceInit ==
  /\ l = 1 /\ id = "" /\ set = [ver |-> ""] /\ phase = "over" /\ ups = <<>> /\ pkg = FALSE /\ bad = {}
  /\ \A i \in 1..5 : TLCSet(i, 0)
Begin ==
  /\ Is("begin") /\ Ev.set \in Setups
  /\ id' = Ev.id /\ set' = Ev.set /\ phase' = "github" /\ ups' = <<>> /\ pkg' = FALSE /\ bad' = {}
Next ==
  /\ \/ Begin
     \/ /\ UNCHANGED id
        /\ \/ Is("github") /\ Github(Ev)
           \/ Is("npm") /\ Npm(Ev)
           \/ Is("install") /\ Ev.plat \in Platforms /\ Install(Ev.plat, Ev)
  /\ bad' # {} => PrintT("BAD " \o ToJson([id |-> id, line |-> l, bad |-> bad']))
TraceSpec == TraceInit /\ [][Next]_vars
TraceView == l
TraceAccepted ==
  /\ PrintT("TALLY " \o ToJson([i \in 1..5 |-> TLCGet(i)]))
  /\ \/ TLCGet("stats").diameter - 1 = Len(Trace)
     \/ PrintT("STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
