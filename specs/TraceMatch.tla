----------------------------- MODULE TraceMatch -----------------------------
(* Checks recorded calls of utils.MatchResource against Match.tla.          *)
EXTENDS Match, Json, IOUtils, TLC
File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
VARIABLES tr, l, ok
tvars == <<tr, l, ok>>
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
Answer(q) == MatchSeq(q.v, q.p)
Agree(q) == \lnot ("crash" \in DOMAIN q) /\ q.res = Answer(q)
Event == Traces[tr][l]
TraceNext ==
  /\ ok /\ l <= Len(Traces[tr])
  /\ LET bad == {k \in 1..Len(Event.qs) : ~Agree(Event.qs[k])} IN
       /\ ok' = (bad = {})
       /\ bad # {} => LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                      IN PrintT(<<"REJECT", tr, l, ToString(Answer(Event.qs[k])), ToString(Event.qs[k])>>)
  /\ l' = l + 1 /\ tr' = tr
  /\ (ok' /\ l = Len(Traces[tr])) => PrintT(<<"ACCEPT", tr>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
