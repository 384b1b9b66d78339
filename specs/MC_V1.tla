------------------------------ MODULE MC_V1 ------------------------------
(***************************************************************************)
(* Bounded exploration of V1.tla, in the manner of MC_V2.tla: the calls  *)
(* of Setup in order, then any calls of Ops in any order; every transition *)
(* is written out for replay into the real manager, and the properties of  *)
(* V1.tla are checked in every state.                                    *)
(***************************************************************************)
EXTENDS V1, Json, TLCExt

CONSTANTS Setup, Ops, Queries, Depth
VARIABLES hist, tab
mcvars == <<vars, hist, tab>>

NS == Len(tab.setup)
MCInit == Init /\ hist = << >> /\ tab = [setup |-> Setup, ops |-> Ops, queries |-> Queries, depth |-> Depth]
MCNext ==
  /\ \/ Len(hist) < NS /\ Do(tab.setup[Len(hist) + 1]) /\ hist' = Append(hist, Len(hist) + 1)
     \/ /\ Len(hist) >= NS /\ Len(hist) < NS + tab.depth
        /\ \E i \in 1..Len(tab.ops) : Do(tab.ops[i]) /\ hist' = Append(hist, NS + i)
  /\ UNCHANGED tab
MCSpec == MCInit /\ [][MCNext]_mcvars

MCView == <<objs, pairs, regs, ten, nsp, role, grp, asg, IF Len(hist) < NS THEN Len(hist) ELSE NS>>

Answers == [k \in 1..Len(tab.queries) |-> Answer(tab.queries[k])]
EmitState == Len(hist) < NS \/ PrintT("STATE " \o ToJson([f |-> TLCFP(MCView), a |-> Answers]))
EmitStep == Len(hist') < NS \/
  PrintT("STEP " \o ToJson([f |-> TLCFP(MCView'), p |-> [i \in 1..(Len(hist') - NS) |-> hist'[NS + i] - NS], o |-> out']))
ASSUME PrintT("MODEL " \o ToJson([setup |-> Setup, ops |-> Ops, queries |-> Queries]))

-----------------------------------------------------------------------------
Asks == {<<tab.queries[k].p, tab.queries[k].o>> : k \in {j \in 1..Len(tab.queries) : tab.queries[j].op = "authorize"}}
Decisions == Len(hist) >= NS => DecisionProperties(Asks)
Sound == TypeOK /\ NotBelowItself /\ InheritanceExact /\ AllowedAreRoles

LastCall == IF Len(hist) < NS THEN tab.setup[Len(hist) + 1] ELSE tab.ops[hist'[Len(hist')] - NS]
\* C18: a refused call changes nothing
RefusalHarmless == [][out' = "err" => UNCHANGED <<objs, pairs, regs, ten, nsp, role, grp, asg>>]_mcvars
\* C18: locked roles keep what they have and what is below them
LockedStays == [][\A h \in DOMAIN role : role[h].lock => role'[h].perms = role[h].perms /\ role'[h].kids = role[h].kids]_mcvars
\* C17: a call changes the permissions of the role it names only
OthersUntouched ==
  [][LastCall.op \in {"grant", "grantGrp", "rDesc", "lock"} =>
       /\ grp' = grp /\ \A h \in DOMAIN role : h # LastCall.h => role'[h] = role[h]]_mcvars
\* C20: registrations stay
FirstStays == [][\A k \in Kinds : \A id \in DOMAIN regs[k] : id \in DOMAIN regs'[k] /\ regs'[k][id] = regs[k][id]]_mcvars
\* v1 has no removal: assignments and membership only grow
OnlyGrows == [][/\ asg \subseteq asg'
                /\ \A x \in Asks : Plain(x[2]) /\ (x[2].t # NIL \/ x[2].n # NIL \/ x[2].s # NIL) /\ Authorize(x[1], x[2]) => Authorize(x[1], x[2])']_mcvars
\* C23: a call makes assignments in its own tenant only, for its principal or for everybody
OwnTenantOnly ==
  [][asg' # asg => \A d \in asg' \ asg : /\ d.t = objs[LastCall.h].id
                                         /\ IF LastCall.op = "tNsScopes" THEN d.p = "" ELSE d.p = LastCall.p]_mcvars
-----------------------------------------------------------------------------
(* Short forms for the models *)
ExactMatches(p, r) == p \in {r, "* GET", "* *"}
O(t, n, s, g, a) == [t |-> t, n |-> n, s |-> s, g |-> g, a |-> IF a = NIL THEN NIL ELSE a \o " GET"]
Ask(p, t, n, s) == [op |-> "authorize", p |-> p, o |-> O(t, n, s, NIL, NIL)]
Act(p, t, n, s, a) == [op |-> "authorize", p |-> p, o |-> O(t, n, s, "g", a)]
ActAlone(p, a) == [op |-> "authorize", p |-> p, o |-> O(NIL, NIL, NIL, NIL, a)]
ONew(k, h, id) == [op |-> "new", k |-> k, h |-> h, id |-> id]
OReg(k, h) == [op |-> "reg", k |-> k, h |-> h]
ORegs(k, hs) == [op |-> "regs", k |-> k, hs |-> hs]
OAttr(h, x) == [op |-> "newAttr", h |-> h, key |-> x \o " GET", pair |-> x \o "##GET"]
OAssign(h, p, r, n, s, m) == [op |-> "assign", h |-> h, p |-> p, r |-> r, n |-> n, s |-> s, m |-> m]
OTNs(h, hs) == [op |-> "tNs", h |-> h, hs |-> hs]
OTRoles(h, ids) == [op |-> "tRoles", h |-> h, ids |-> ids]
OTScopes(h, ids) == [op |-> "tScopes", h |-> h, ids |-> ids]
ONRoles(h, ids) == [op |-> "nRoles", h |-> h, ids |-> ids]
ONScopes(h, ids) == [op |-> "nScopes", h |-> h, ids |-> ids]
OTNsRoles(h, n, rs) == [op |-> "tNsRoles", h |-> h, n |-> n, rs |-> rs]
OTNsScopes(h, n, ss) == [op |-> "tNsScopes", h |-> h, n |-> n, ss |-> ss]
OTDef(h, n) == [op |-> "tDef", h |-> h, n |-> n]
OTAssign(h, p, rs) == [op |-> "tAssign", h |-> h, p |-> p, rs |-> rs]
OTAssignN(h, p, n, rs) == [op |-> "tAssignN", h |-> h, p |-> p, n |-> n, rs |-> rs]
OTAssignS(h, p, ss) == [op |-> "tAssignS", h |-> h, p |-> p, ss |-> ss]
OTAssignSR(h, p, r, ss) == [op |-> "tAssignSR", h |-> h, p |-> p, r |-> r, ss |-> ss]
ODesc(h, hs) == [op |-> "tDesc", h |-> h, hs |-> hs]
OLock(h, on) == [op |-> "lock", h |-> h, on |-> on]
OGrant(h, g, as) == [op |-> "grant", h |-> h, g |-> g, as |-> as]
OGrantGrp(h, g) == [op |-> "grantGrp", h |-> h, g |-> g]
OGrantId(r, g, as) == [op |-> "grantId", r |-> r, g |-> g, as |-> as]
ORDesc(h, hs) == [op |-> "rDesc", h |-> h, hs |-> hs]
OGAttrs(g, as) == [op |-> "gAttrs", g |-> g, as |-> as]
QOf(t, p) == [op |-> "ofPrincipal", t |-> t, p |-> p]
QIn(t) == [op |-> "ofTenant", t |-> t]
QImplicitRows(t, p) == [op |-> "implicitRows", t |-> t, p |-> p]
QPermsFor(t, p) == [op |-> "permsFor", t |-> t, p |-> p]
QTenantsFor(p) == [op |-> "tenantsFor", p |-> p]
QRolePerms(r) == [op |-> "rolePerms", r |-> r]
QScopesFor(p) == [op |-> "scopesFor", p |-> p]
QTenantScopesFor(t, p) == [op |-> "tenantScopesFor", t |-> t, p |-> p]
QAllowed(t, p, n, s) == [op |-> "allowed", t |-> t, p |-> p, n |-> n, s |-> s]
QBelow(h) == [op |-> "below", h |-> h]
QRBelow(h) == [op |-> "rolesBelow", h |-> h]
QHas(h, g, a, allowed) == [op |-> "has", h |-> h, g |-> g, a |-> a \o " GET", allowed |-> allowed]
QPerms(h) == [op |-> "perms", h |-> h]
QImplicitPerms(h) == [op |-> "implicitPerms", h |-> h]
QGroupPerms(h, g) == [op |-> "groupPerms", h |-> h, g |-> g]
QGet(k, id) == [op |-> "get", k |-> k, id |-> id]
QList(k) == [op |-> "list", k |-> k]
QTotals == [op |-> "totals"]
Cross2(F(_, _), A, B) == [k \in 1..(Len(A) * Len(B)) |-> F(A[((k - 1) \div Len(B)) + 1], B[((k - 1) % Len(B)) + 1])]
=============================================================================
