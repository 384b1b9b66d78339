------------------------------ MODULE TraceV2 ------------------------------
(* Checks executions recorded from package v2 against V2.tla.              *)
EXTENDS V2, Json, IOUtils, Match

File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
MatchTab == [p \in DOMAIN File.perms |-> {r \in DOMAIN File.reqs : MatchSeq(File.reqs[r], File.perms[p])}]
TraceMatches(p, r) == r \in MatchTab[p]

VARIABLES tr, l, ok
tvars == <<vars, tr, l, ok>>

TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE

Got(q) == IF SetValued(q) THEN ToSet(q.res) ELSE q.res
Agree(q) ==
  /\ \lnot ("crash" \in DOMAIN q)
  /\ Got(q) = Answer(q)
  /\ SetValued(q) => Len(q.res) = Cardinality(ToSet(q.res))
  /\ "log" \in DOMAIN q => LogAllowed(q.req, q.res, q.log)

Reject(e, want) == PrintT(<<"REJECT", tr, l, ToString(want), ToString(e)>>)

Event == Traces[tr][l]

TraceQueries ==
  /\ Event.op = "queries"
  /\ LET bad == {k \in 1..Len(Event.qs) : ~Agree(Event.qs[k])} IN
       /\ ok' = (bad = {})
       /\ bad # {} => LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                      IN Reject(<<k, Event.qs[k]>>, Answer(Event.qs[k]))
  /\ UNCHANGED vars

TraceCall ==
  /\ Event.op # "queries"
  /\ Do(Event)
  /\ ok' = (\lnot ("crash" \in DOMAIN Event) /\ Event.res = out')
  /\ ~ok' => Reject(Event, out')

TraceNext ==
  /\ ok /\ l <= Len(Traces[tr])
  /\ TraceQueries \/ TraceCall
  /\ l' = l + 1 /\ tr' = tr
  /\ (ok' /\ l = Len(Traces[tr])) => PrintT(<<"ACCEPT", tr>>)

TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* role links stay acyclic in every state the implementation led the specification to
TraceInv == Acyclic
TraceView == <<tr, l, ok>>
=============================================================================
