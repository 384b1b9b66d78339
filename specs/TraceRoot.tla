----------------------------- MODULE TraceRoot -----------------------------
(* Checks executions recorded from the root package against Root.tla.      *)
EXTENDS Root, Json, IOUtils, Match

File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
MatchTab == [p \in DOMAIN File.perms |-> {r \in DOMAIN File.reqs : MatchSeq(File.reqs[r], File.perms[p])}]
TraceMatches(p, r) == r \in MatchTab[p]

VARIABLES tr, l, ok
tvars == <<vars, tr, l, ok>>
TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE

SetValued(q) == q.op \in {"rows", "ids", "tenantsBy", "implicit", "children", "below", "rolesBelow", "groupPerms", "list", "held"}
Unique(s) == Len(s) = Cardinality(ToSet(s))
Groups(s) == {[g |-> s[i].g, as |-> ToSet(s[i].as)] : i \in 1..Len(s)}
GroupsUnique(s) == Unique(s) /\ Cardinality({s[i].g : i \in 1..Len(s)}) = Len(s) /\ \A i \in 1..Len(s) : Unique(s[i].as)
Agree(q) ==
  /\ \lnot ("crash" \in DOMAIN q)
  /\ CASE SetValued(q) -> ToSet(q.res) = Answer(q) /\ Unique(q.res)
       [] q.op \in {"perms", "implicitPerms", "collectPerms"} -> Groups(q.res) = Answer(q) /\ GroupsUnique(q.res)
       [] q.op = "available" ->
            /\ {[g |-> q.res[i].g, a |-> q.res[i].a, rs |-> ToSet(q.res[i].rs)] : i \in 1..Len(q.res)} = Answer(q)
            /\ Len(q.res) = Cardinality(Answer(q)) /\ \A i \in 1..Len(q.res) : Unique(q.res[i].rs)
       [] q.op = "scopesRoles" ->
            /\ {[s |-> q.res[i].s, rs |-> ToSet(q.res[i].rs)] : i \in 1..Len(q.res)} \in Answer(q)
            /\ Cardinality({q.res[i].s : i \in 1..Len(q.res)}) = Len(q.res)
       [] OTHER -> q.res = Answer(q)

Reject(e, want) == PrintT(<<"REJECT", tr, l, ToString(want), ToString(e)>>)
Event == Traces[tr][l]

TraceQueries ==
  /\ Event.op = "queries"
  /\ LET bad == {k \in 1..Len(Event.qs) : ~Agree(Event.qs[k])} IN
       /\ ok' = (bad = {})
       /\ bad # {} => LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                      IN Reject(<<k, Event.qs[k]>>, Answer(Event.qs[k]))
  /\ UNCHANGED vars

TraceCall ==
  /\ Event.op # "queries"
  /\ Do(Event)
  /\ ok' = (\lnot ("crash" \in DOMAIN Event) /\ Event.res = out')
  /\ ~ok' => Reject(Event, out')

TraceNext ==
  /\ ok /\ l <= Len(Traces[tr])
  /\ TraceQueries \/ TraceCall
  /\ l' = l + 1 /\ tr' = tr
  /\ (ok' /\ l = Len(Traces[tr])) => PrintT(<<"ACCEPT", tr>>)

TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceInv == TypeOK /\ NotBelowItself
TraceView == <<tr, l, ok>>
=============================================================================
