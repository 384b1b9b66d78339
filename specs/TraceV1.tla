----------------------------- MODULE TraceV1 -----------------------------
(* Checks executions recorded from package v1 against V1.tla.      *)
EXTENDS V1, Json, IOUtils, Match

File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
MatchTab == [p \in DOMAIN File.perms |-> {r \in DOMAIN File.reqs : MatchSeq(File.reqs[r], File.perms[p])}]
TraceMatches(p, r) == r \in MatchTab[p]

VARIABLES tr, l, ok
tvars == <<vars, tr, l, ok>>
TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE

\* lists without repetition, and lists that may repeat
SetValued(q) == q.op \in {"ofPrincipal", "ofTenant", "below", "rolesBelow", "groupPerms", "list", "tenantsFor", "allowed"}
Repeating(q) == q.op = "implicitRows"
Unique(s) == Len(s) = Cardinality(ToSet(s))
Groups(s) == {[g |-> s[i].g, as |-> ToSet(s[i].as)] : i \in 1..Len(s)}
GroupsUnique(s) == Unique(s) /\ Cardinality({s[i].g : i \in 1..Len(s)}) = Len(s) /\ \A i \in 1..Len(s) : Unique(s[i].as)
Agree(q) ==
  /\ \lnot ("crash" \in DOMAIN q)
  /\ CASE SetValued(q) -> ToSet(q.res) = Answer(q) /\ Unique(q.res)
       [] q.op = "held" -> ToSet(q.res) = ToSet(q.was) /\ Len(q.res) = Len(q.was)
       [] Repeating(q) -> ToSet(q.res) = Answer(q)
       [] q.op = "rolePerms" -> [err |-> q.res.err, gs |-> Groups(q.res.gs)] = Answer(q) /\ GroupsUnique(q.res.gs)
       [] q.op \in {"scopesFor", "tenantScopesFor"} -> [err |-> q.res.err, ss |-> ToSet(q.res.ss)] = Answer(q)
       [] q.op \in {"perms", "implicitPerms", "collectPerms"} -> Groups(q.res) = Answer(q) /\ GroupsUnique(q.res)
       [] q.op = "permsFor" ->
            /\ {[row |-> q.res[i].row, gs |-> Groups(q.res[i].gs)] : i \in 1..Len(q.res)} = Answer(q)
            /\ Len(q.res) = Cardinality(Answer(q)) /\ \A i \in 1..Len(q.res) : GroupsUnique(q.res[i].gs)
       [] OTHER -> q.res = Answer(q)

Reject(e, want) == PrintT(<<"REJECT", tr, l, ToString(want), ToString(e)>>)
Event == Traces[tr][l]

TraceQueries ==
  /\ Event.op = "queries"
  /\ LET bad == {k \in 1..Len(Event.qs) : ~Agree(Event.qs[k])} IN
       /\ ok' = (bad = {})
       /\ bad # {} => LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                      IN Reject(<<k, Event.qs[k]>>, Answer(Event.qs[k]))
  /\ UNCHANGED vars

TraceCall ==
  /\ Event.op # "queries"
  /\ Do(Event)
  /\ ok' = (\lnot ("crash" \in DOMAIN Event) /\ Event.res = out')
  /\ ~ok' => Reject(Event, out')

TraceNext ==
  /\ ok /\ l <= Len(Traces[tr])
  /\ TraceQueries \/ TraceCall
  /\ l' = l + 1 /\ tr' = tr
  /\ (ok' /\ l = Len(Traces[tr])) => PrintT(<<"ACCEPT", tr>>)

TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceInv == TypeOK /\ NotBelowItself
TraceView == <<tr, l, ok>>
=============================================================================
