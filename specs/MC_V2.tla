------------------------------- MODULE MC_V2 -------------------------------
(***************************************************************************)
(* Bounded exploration of V2.tla.  A model performs the calls of Setup in  *)
(* order and then any calls of Ops in any order.  Every transition is      *)
(* written out as the calls that lead to it, the result of the last call   *)
(* and the answers to Queries afterwards; the driver replays these into    *)
(* the real engine.  The properties of V2.tla are checked in every state.  *)
(***************************************************************************)
EXTENDS V2, Json, TLCExt

CONSTANTS Setup, Ops, Queries, Depth
VARIABLES
  hist,     \* the calls so far, as indexes into Setup and then Ops
  tab       \* the tables Setup, Ops and Queries, kept in a variable so that TLC computes them once
mcvars == <<vars, hist, tab>>

NS == Len(tab.setup)
MCInit == Init /\ hist = << >> /\ tab = [setup |-> Setup, ops |-> Ops, queries |-> Queries, depth |-> Depth]
MCNext ==
  /\ \/ Len(hist) < NS /\ Do(tab.setup[Len(hist) + 1]) /\ hist' = Append(hist, Len(hist) + 1)
     \/ /\ Len(hist) >= NS /\ Len(hist) < NS + tab.depth
        /\ \E i \in 1..Len(tab.ops) : Do(tab.ops[i]) /\ hist' = Append(hist, NS + i)
  /\ UNCHANGED tab
MCSpec == MCInit /\ [][MCNext]_mcvars

MCView == <<roles, dags, tens, asgs, reg, held, deft, now, IF Len(hist) < NS THEN Len(hist) ELSE NS>>

\* answers are written once per state, transitions with the state they lead to
Answers == [k \in 1..Len(tab.queries) |-> Answer(tab.queries[k])]
EmitState == Len(hist) < NS \/ PrintT("STATE " \o ToJson([f |-> TLCFP(MCView), a |-> Answers]))
EmitStep == Len(hist') < NS \/
  PrintT("STEP " \o ToJson([f |-> TLCFP(MCView'), p |-> [i \in 1..(Len(hist') - NS) |-> hist'[NS + i] - NS], o |-> out']))
ASSUME PrintT("MODEL " \o ToJson([setup |-> Setup, ops |-> Ops, queries |-> Queries]))

-----------------------------------------------------------------------------
Reqs == {tab.queries[k].req : k \in {j \in 1..Len(tab.queries) : tab.queries[j].op \in {"authorize", "can"}}}
RoleNames == {roles[h].name : h \in DOMAIN roles}

Decisions == Len(hist) >= NS => DecisionProperties(Reqs)
Membership == Len(hist) >= NS => \A req \in Reqs : \A r \in RoleNames : CanIsMembership(req, r)
RoleGraph == Acyclic /\ PermsAreUnion

\* C07 as a statement about steps: what RemoveAssignments leaves, and what decisions become
LastCall == IF Len(hist) < NS THEN tab.setup[Len(hist) + 1] ELSE tab.ops[hist'[Len(hist')] - NS]
RemovalExact ==
  [][LastCall.op = "remAsg" =>
       /\ \A h \in held : (h \notin held') <=> \A f \in {"p", "t", "n", "s", "r"} :
             LastCall.pat[f] = "" \/ LastCall.pat[f] = asgs[h][f]
       /\ held' \subseteq held
       /\ (out' = "err") <=> (held' = held)
       /\ \A req \in Reqs : Authorize(req)' = AuthWith({h \in held : ~Agrees(asgs[h], LastCall.pat)}, req)]_mcvars
\* C04: a refused link changes nothing, and an accepted one adds exactly its links
RefusalHarmless == [][out' = "err" => UNCHANGED <<roles, dags, tens, asgs, reg, held, deft, now>>]_mcvars
\* granting only grows with more assignments, except that a scope's own permissions replace the global ones
Monotone ==
  [][LastCall.op = "addAsg" => \A req \in Reqs : req.s = "" => (Authorize(req) => Authorize(req)')]_mcvars

-----------------------------------------------------------------------------
(* Short forms for the models *)
ExactMatches(p, r) == p \in {r, "* GET", "* *"}
R(p, t, n, s, res) == [p |-> p, t |-> t, n |-> n, s |-> s, res |-> res, act |-> "GET", ra |-> res \o " GET", blank |-> FALSE]
Ask(p, t, n, s, res) == [op |-> "authorize", req |-> R(p, t, n, s, res)]
AskCan(p, t, n, s, rs) == [op |-> "can", req |-> R(p, t, n, s, "x"), roles |-> rs]
ORole(h, name) == [op |-> "newRole", h |-> h, name |-> name]
OPerm(h, ps) == [op |-> "addPerm", h |-> h, ps |-> [i \in 1..Len(ps) |-> ps[i] \o " GET"]]
OUnperm(h, ps) == [op |-> "remPerm", h |-> h, ps |-> [i \in 1..Len(ps) |-> ps[i] \o " GET"]]
ORoles(d, hs) == [op |-> "addRoles", d |-> d, hs |-> hs]
OLink(d, r, rs) == [op |-> "addKids", d |-> d, r |-> r, rs |-> rs]
OTen(h, id, hasDef, def) == [op |-> "newTenant", h |-> h, id |-> id, hasDef |-> hasDef, def |-> def]
ONs(h, n, isDef) == [op |-> "addNs", h |-> h, n |-> n, isDef |-> isDef]
OScopes(h, n, ss) == [op |-> "addScopes", h |-> h, n |-> n, ss |-> ss]
OTens(hs) == [op |-> "addTenants", hs |-> hs]
OChild(h, hs) == [op |-> "addChildren", h |-> h, hs |-> hs]
OStatus(h, st) == [op |-> "status", h |-> h, st |-> st]
ODef(t) == [op |-> "setDef", t |-> t]
OAsg(h, p, t, n, s, r, m) == [op |-> "newAsg", h |-> h, p |-> p, t |-> t, n |-> n, s |-> s, r |-> r, mng |-> m]
OHold(hs) == [op |-> "addAsg", hs |-> hs]
ORem(p, t, n, s, r) == [op |-> "remAsg", pat |-> [p |-> p, t |-> t, n |-> n, s |-> s, r |-> r]]
OSetExp(h, at) == [op |-> "setExp", h |-> h, at |-> at]
OSetDur(h, d) == [op |-> "setDur", h |-> h, dur |-> d]
OBadDur(h) == [op |-> "badDur", h |-> h, text |-> "soon"]
OPutExp(h, at) == [op |-> "putExp", h |-> h, at |-> at]
OClear(h) == [op |-> "clearExp", h |-> h]
OTick(d) == [op |-> "advance", by |-> d]
QPerms(d, r) == [op |-> "perms", d |-> d, r |-> r]
QKids(d, r) == [op |-> "kids", d |-> d, r |-> r]
QRole(r) == [op |-> "getRole", r |-> r]
QTenant(t) == [op |-> "getTenant", t |-> t]
QDef == [op |-> "defTenant"]
QExpiry(h) == [op |-> "expiry", h |-> h]
QExpired(h) == [op |-> "expired", h |-> h]
\* sequences of all combinations
Cross2(F(_, _), A, B) == [k \in 1..(Len(A) * Len(B)) |-> F(A[((k - 1) \div Len(B)) + 1], B[((k - 1) % Len(B)) + 1])]
=============================================================================
