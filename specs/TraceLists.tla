------------------------------ MODULE TraceLists ------------------------------
(* Checks executions recorded from packages ds and utils against Lists.tla. *)
EXTENDS Lists, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
VARIABLES tr, l, ok
tvars == <<vars, tr, l, ok>>
TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
Agree(q) == \lnot ("crash" \in DOMAIN q) /\ q.res = Answer(q) /\ ("after" \in DOMAIN q => q.after = q.xs)
Reject(e, want) == PrintT(<<"REJECT", tr, l, ToString(want), ToString(e)>>)
Event == Traces[tr][l]
TraceQueries ==
  /\ Event.op = "queries"
  /\ LET bad == {k \in 1..Len(Event.qs) : ~Agree(Event.qs[k])} IN
       /\ ok' = (bad = {})
       /\ bad # {} => LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                      IN Reject(<<k, Event.qs[k]>>, Answer(Event.qs[k]))
  /\ UNCHANGED vars
TraceCall ==
  /\ Event.op # "queries"
  /\ Do(Event)
  /\ ok' = (\lnot ("crash" \in DOMAIN Event) /\ Event.res = out')
  /\ ~ok' => Reject(Event, out')
TraceNext ==
  /\ ok /\ l <= Len(Traces[tr])
  /\ TraceQueries \/ TraceCall
  /\ l' = l + 1 /\ tr' = tr
  /\ (ok' /\ l = Len(Traces[tr])) => PrintT(<<"ACCEPT", tr>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceView == <<tr, l, ok>>
=============================================================================
