------------------------------ MODULE MC_Root ------------------------------
(***************************************************************************)
(* Bounded exploration of Root.tla, in the manner of MC_V2.tla: the calls  *)
(* of Setup in order, then any calls of Ops in any order; every transition *)
(* is written out for replay into the real manager, and the properties of  *)
(* Root.tla are checked in every state.                                    *)
(***************************************************************************)
EXTENDS Root, Json, TLCExt

CONSTANTS Setup, Ops, Queries, Depth
VARIABLES hist, tab
mcvars == <<vars, hist, tab>>

NS == Len(tab.setup)
MCInit == Init /\ hist = << >> /\ tab = [setup |-> Setup, ops |-> Ops, queries |-> Queries, depth |-> Depth]
MCNext ==
  /\ \/ Len(hist) < NS /\ Do(tab.setup[Len(hist) + 1]) /\ hist' = Append(hist, Len(hist) + 1)
     \/ /\ Len(hist) >= NS /\ Len(hist) < NS + tab.depth
        /\ \E i \in 1..Len(tab.ops) : Do(tab.ops[i]) /\ hist' = Append(hist, NS + i)
  /\ UNCHANGED tab
MCSpec == MCInit /\ [][MCNext]_mcvars

MCView == <<objs, pairs, regs, ten, role, grp, rows, IF Len(hist) < NS THEN Len(hist) ELSE NS>>

Answers == [k \in 1..Len(tab.queries) |-> Answer(tab.queries[k])]
EmitState == Len(hist) < NS \/ PrintT("STATE " \o ToJson([f |-> TLCFP(MCView), a |-> Answers]))
EmitStep == Len(hist') < NS \/
  PrintT("STEP " \o ToJson([f |-> TLCFP(MCView'), p |-> [i \in 1..(Len(hist') - NS) |-> hist'[NS + i] - NS], o |-> out']))
ASSUME PrintT("MODEL " \o ToJson([setup |-> Setup, ops |-> Ops, queries |-> Queries]))

-----------------------------------------------------------------------------
Asks == {<<tab.queries[k].p, tab.queries[k].o>> : k \in {j \in 1..Len(tab.queries) : tab.queries[j].op = "authorize"}}
Decisions == Len(hist) >= NS => DecisionProperties(Asks)
Sound == TypeOK /\ NotBelowItself /\ InheritanceExact

LastCall == IF Len(hist) < NS THEN tab.setup[Len(hist) + 1] ELSE tab.ops[hist'[Len(hist')] - NS]
\* C18: a refused call changes nothing, but for the part of a list of assignments before the refused one
RefusalHarmless ==
  [][out' = "err" => /\ UNCHANGED <<objs, pairs, regs, ten, role, grp>>
                     /\ LastCall.op \notin {"tAssign", "tAssignS"} => UNCHANGED rows]_mcvars
\* C18: locked roles keep what they have and what is below them
LockedStays == [][\A h \in DOMAIN role : role[h].lock => role'[h].perms = role[h].perms /\ role'[h].kids = role[h].kids]_mcvars
\* C17: a call changes the permissions of the role it names only
OthersUntouched ==
  [][LastCall.op \in {"grant", "grantGrp", "rDesc", "lock"} =>
       /\ grp' = grp /\ \A h \in DOMAIN role : h # LastCall.h => role'[h] = role[h]]_mcvars
\* C20: registrations stay
FirstStays == [][\A k \in Kinds : \A id \in DOMAIN regs[k] : id \in DOMAIN regs'[k] /\ regs'[k][id] = regs[k][id]]_mcvars
\* the root engine has no removal: records and membership only grow
OnlyGrows == [][/\ rows \subseteq rows'
                /\ \A x \in Asks : NoActivity(x[2]) /\ AuthorizeOn(rows, x[1], x[2]) => AuthorizeOn(rows, x[1], x[2])']_mcvars

-----------------------------------------------------------------------------
(* Short forms for the models *)
ExactMatches(p, r) == p \in {r, "* GET", "* *"}
O(t, n, s, g, a) == [t |-> t, n |-> n, s |-> s, g |-> g, a |-> IF a = NIL THEN NIL ELSE a \o " GET"]
Ask(p, t, n, s) == [op |-> "authorize", p |-> p, o |-> O(t, n, s, NIL, NIL)]
Act(p, t, n, s, a) == [op |-> "authorize", p |-> p, o |-> O(t, n, s, "g", a)]
ONew(k, h, id) == [op |-> "new", k |-> k, h |-> h, id |-> id]
OReg(k, h) == [op |-> "reg", k |-> k, h |-> h]
ORegs(k, hs) == [op |-> "regs", k |-> k, hs |-> hs]
OAttr(h, x) == [op |-> "newAttr", h |-> h, key |-> x \o " GET", pair |-> x \o "##GET"]
OData(t, n, s, p, r, m) == [op |-> "data", row |-> Row(t, n, s, p, r, m)]
OTNs(h, ids) == [op |-> "tNs", h |-> h, ids |-> ids]
OTRoles(h, ids) == [op |-> "tRoles", h |-> h, ids |-> ids]
OTScopes(h, ids) == [op |-> "tScopes", h |-> h, ids |-> ids]
OTNsScope(h, n, s) == [op |-> "tNsScope", h |-> h, n |-> n, s |-> s]
OTPrNs(h, p, n, r) == [op |-> "tPrNs", h |-> h, p |-> p, n |-> n, r |-> r]
OTDef(h, n) == [op |-> "tDef", h |-> h, n |-> n]
OAssign(h, p, rs, m) == [op |-> "tAssign", h |-> h, p |-> p, rs |-> rs, m |-> IF m THEN "true" ELSE "false"]
OAssignS(h, p, ss, m) == [op |-> "tAssignS", h |-> h, p |-> p, ss |-> ss, m |-> IF m THEN "true" ELSE "false"]
ODesc(h, hs) == [op |-> "tDesc", h |-> h, hs |-> hs]
OLock(h, on) == [op |-> "lock", h |-> h, on |-> on]
OGrant(h, g, as) == [op |-> "grant", h |-> h, g |-> g, as |-> as]
OGrantGrp(h, g) == [op |-> "grantGrp", h |-> h, g |-> g]
OGrantId(r, g, as) == [op |-> "grantId", r |-> r, g |-> g, as |-> as]
ORDesc(h, hs) == [op |-> "rDesc", h |-> h, hs |-> hs]
OGAttrs(g, as) == [op |-> "gAttrs", g |-> g, as |-> as]
QRows(f, p, t, n, s) == [op |-> "rows", f |-> f, p |-> p, t |-> t, n |-> n, s |-> s, r |-> NIL, m |-> NIL]
QImplicit(p) == [op |-> "implicit", p |-> p]
QTenantsBy(p) == [op |-> "tenantsBy", p |-> p]
QChildren(t) == [op |-> "children", t |-> t]
QBelow(h) == [op |-> "below", h |-> h]
QRBelow(h) == [op |-> "rolesBelow", h |-> h]
QHas(h, g, a, allowed) == [op |-> "has", h |-> h, g |-> g, a |-> a \o " GET", allowed |-> allowed]
QPerms(h) == [op |-> "perms", h |-> h]
QImplicitPerms(h) == [op |-> "implicitPerms", h |-> h]
QGroupPerms(h, g) == [op |-> "groupPerms", h |-> h, g |-> g]
QAvailable == [op |-> "available"]
QScopesRoles(p, t, n) == [op |-> "scopesRoles", p |-> p, t |-> t, n |-> n]
QGet(k, id) == [op |-> "get", k |-> k, id |-> id]
QList(k) == [op |-> "list", k |-> k]
QTotals == [op |-> "totals"]
Cross2(F(_, _), A, B) == [k \in 1..(Len(A) * Len(B)) |-> F(A[((k - 1) \div Len(B)) + 1], B[((k - 1) % Len(B)) + 1])]
=============================================================================
