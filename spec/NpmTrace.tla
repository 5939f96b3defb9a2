------------------------------ MODULE NpmTrace ------------------------------
(* Checks recordings of the two npm scripts against Installer and Downloader *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.QLC_TRACE)
VARIABLES l, id, which, set, body, flag, over, bad
vars == <<l, id, which, set, body, flag, over, bad>>
TraceView == l
I == INSTANCE Installer WITH unpacked <- flag
D == INSTANCE Downloader WITH asked <- flag

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Count(i, n) == TLCSet(i, TLCGet(i) + n)

TraceInit ==
  /\ l = 1 /\ id = "" /\ which = "" /\ set = [plat |-> ""] /\ body = "none" /\ flag = FALSE /\ over = TRUE /\ bad = {}
  /\ \A i \in 1..5 : TLCSet(i, 0)
Begin ==
  /\ Is("begin")
  /\ id' = Ev.id /\ which' = Ev.which /\ set' = Ev.set /\ body' = "none" /\ flag' = FALSE /\ over' = FALSE /\ bad' = {}
  /\ Ev.set \in (IF Ev.which = "install" THEN I!Setups ELSE D!Setups)
Answered ==
  /\ Is("answer") /\ UNCHANGED <<id, which>>
  /\ IF which = "install" THEN Ev.a \in I!Answers /\ I!Answer(Ev.a, Ev.first, Ev.place)
     ELSE Ev.a \in D!Answers /\ D!Answer(Ev.a, Ev.place)
Unpacked == Is("unpack") /\ which = "install" /\ I!Unpack(Ev.match) /\ UNCHANGED <<id, which>>
Ended ==
  /\ Is("end") /\ UNCHANGED <<id, which>>
  /\ IF which = "install" THEN I!End(Ev) ELSE D!End(Ev)
  /\ Count(IF Ev.code = 0 THEN 1 ELSE 2, 1) /\ Count(4, 1)
Next ==
  /\ Begin \/ Answered \/ Unpacked \/ Ended
  /\ bad' # {} => PrintT("BAD " \o ToJson([id |-> id, line |-> l, bad |-> bad']))
TraceSpec == TraceInit /\ [][Next]_vars
TraceAccepted ==
  /\ PrintT("TALLY " \o ToJson([i \in 1..5 |-> TLCGet(i)]))
  /\ \/ TLCGet("stats").diameter - 1 = Len(Trace)
     \/ PrintT("STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
