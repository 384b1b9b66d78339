-------------------------------- MODULE Root --------------------------------
(***************************************************************************)
(* The root engine (package permission): on top of Roles.tla, tenants and  *)
(* their hierarchy, the record store, and every decision, query and report *)
(* over them.                                                              *)
(*                                                                         *)
(* A record holds tenant, namespace, scope, principal, role and management *)
(* flag, each of which may be absent (NIL).                                *)
(***************************************************************************)
EXTENDS Roles

VARIABLES
  ten,    \* tenant handle -> [kids: id -> handle, def]
  rows    \* the record store
vars == <<objs, pairs, regs, ten, role, grp, rows, out>>

Init == RolesInit /\ ten = << >> /\ rows = {}

Row(t, n, s, p, r, m) == [t |-> t, n |-> n, s |-> s, p |-> p, r |-> r, m |-> m]

Create(k, h, id) ==
  /\ CreateObj(k, h, id)
  /\ ten' = IF k = "t" THEN Put(ten, h, [kids |-> << >>, def |-> NIL]) ELSE ten
  /\ UNCHANGED rows

-----------------------------------------------------------------------------
(* Records *)
Store(R) == rows' = rows \cup R /\ UNCHANGED <<objs, pairs, regs, ten, role, grp>>
AddData(r) == Store({r}) /\ out' = "ok"

TenantId(h) == objs[h].id
TenantNamespaces(h, ids) == Store({Row(TenantId(h), n, NIL, NIL, NIL, NIL) : n \in ToSet(ids)}) /\ out' = "ok"
TenantRoles(h, ids)      == Store({Row(TenantId(h), NIL, NIL, NIL, r, NIL) : r \in ToSet(ids)}) /\ out' = "ok"
TenantScopes(h, ids)     == Store({Row(TenantId(h), NIL, s, NIL, NIL, NIL) : s \in ToSet(ids)}) /\ out' = "ok"
ScopeToNamespace(h, n, s) == Store({Row(TenantId(h), n, s, NIL, NIL, NIL)}) /\ out' = "ok"
PrincipalInNamespace(h, p, n, r) == Store({Row(TenantId(h), n, NIL, p, r, NIL)}) /\ out' = "ok"

SetDefault(h, n) ==
  /\ ten' = IF n \in DOMAIN regs["n"] THEN [ten EXCEPT ![h].def = n] ELSE ten
  /\ out' = "ok" /\ UNCHANGED <<objs, pairs, regs, role, grp, rows>>

\* a record of the tenant, repeated for its default namespace if it has one
WithDefault(h, r) == {r} \cup IF ten[h].def = NIL THEN {} ELSE {[r EXCEPT !.n = ten[h].def]}
Upto(xs, good) == {i \in 1..Len(xs) : \A j \in 1..i : xs[j] \in good}

AssignRoles(h, p, rs, m) ==
  LET known == IF p \in DOMAIN regs["p"] THEN DOMAIN regs["r"] ELSE {}
      done == Upto(rs, known)
  IN /\ Store(UNION {WithDefault(h, Row(TenantId(h), NIL, NIL, p, rs[i], m)) : i \in done})
     /\ out' = IF Cardinality(done) = Len(rs) THEN "ok" ELSE "err"

AssignScopes(h, p, ss, m) ==
  LET known == IF p \in DOMAIN regs["p"] THEN DOMAIN regs["s"] ELSE {}
      done == Upto(ss, known)
  IN /\ Store(UNION {WithDefault(h, Row(TenantId(h), NIL, ss[i], p, NIL, m)) : i \in done})
     /\ out' = IF Cardinality(done) = Len(ss) THEN "ok" ELSE "err"

\* descendants get the parent's default namespace; with cycles and repetitions the order matters
RECURSIVE Adopt(_, _, _, _)
Adopt(t, D, h, hs) ==
  IF hs = << >> THEN <<t, D>>
  ELSE LET d == Head(hs)
           t1 == [t EXCEPT ![h].kids = Keep(@, objs[d].id, d)]
       IN IF t1[h].def = NIL THEN Adopt(t1, D, h, Tail(hs))
          ELSE Adopt([t1 EXCEPT ![d].def = t1[h].def],
                     D \cup {Row(objs[d].id, t1[h].def, NIL, NIL, NIL, NIL)}, h, Tail(hs))
AddDescendants(h, hs) ==
  LET x == Adopt(ten, rows, h, hs) IN
  /\ ten' = x[1] /\ rows' = x[2] /\ out' = "ok"
  /\ UNCHANGED <<objs, pairs, regs, role, grp>>

-----------------------------------------------------------------------------
(* Hierarchies *)
RECURSIVE TenReach(_, _)
TenReach(done, todo) == IF todo = {} THEN done
  ELSE TenReach(done \cup todo, (UNION {Range(ten[h].kids) : h \in todo}) \ (done \cup todo))
TenantsBelow(h) == {objs[x].id : x \in TenReach({}, Range(ten[h].kids)) \ {h}}
Children(t) == IF t \in DOMAIN regs["t"] THEN TenantsBelow(regs["t"][t]) ELSE {}

\* for every group, the permissions some registered role has and those roles
Available ==
  LET byRole == [id \in DOMAIN regs["r"] |-> Implicit(regs["r"][id])]
      groups == UNION {{g \in DOMAIN byRole[id] : byRole[id][g] # {}} : id \in DOMAIN byRole}
  IN {[g |-> g, a |-> a, rs |-> {id \in DOMAIN byRole : g \in DOMAIN byRole[id] /\ a \in byRole[id][g]}] :
        <<g, a>> \in UNION {{<<g, a>> : a \in UNION {Get(byRole[id], g, {}) : id \in DOMAIN byRole}} : g \in groups}}

-----------------------------------------------------------------------------
(* Queries over the records D *)
OfPrincipal(D, p) == {d \in D : p # NIL /\ d.p = p /\ d.t # NIL}
InTenant(D, t) == {d \in D : t # NIL /\ d.t = t}
Everybody(d, p) == d.p = NIL \/ d.p = p
TenantsBy(D, p) == {d.t : d \in OfPrincipal(D, p)}
Reachable(D, p) == TenantsBy(D, p) \cup UNION {Children(d.t) : d \in {x \in OfPrincipal(D, p) : x.m = "true"}}
ManagesBelow(D, p, a, t) == t \in Children(a) /\ \E d \in InTenant(D, a) : d.p = p /\ d.m = "true"

NamespaceRows(D, p, t) == {d \in InTenant(D, t) : d.n # NIL /\ Everybody(d, p)}
ScopeRows(D, p, t) == {d \in InTenant(D, t) : d.s # NIL /\ Everybody(d, p)}
ScopeRowsNs(D, p, t, n) == {d \in ScopeRows(D, p, t) : d.n = NIL \/ d.n = n}
RoleRows(D, p, t) == {d \in InTenant(D, t) : d.r # NIL /\ p # NIL /\ d.p = p}
Fits(v, want) == v = NIL \/ v = want

RowsFor(q) ==
  CASE q.f = "GetTenants" -> OfPrincipal(rows, q.p)
    [] q.f = "GetScopesByPrincipal" -> {d \in OfPrincipal(rows, q.p) : d.s # NIL}
    [] q.f = "GetRolesByTenant" -> {d \in InTenant(rows, q.t) : d.r # NIL}
    [] q.f \in {"GetNamespacesByTenant", "GetNamespaceByTenant"} -> {d \in InTenant(rows, q.t) : d.n # NIL}
    [] q.f = "GetScopesByTenant" -> {d \in InTenant(rows, q.t) : d.s # NIL}
    [] q.f = "GetNamespacesByPrincipal" -> UNION {NamespaceRows(rows, q.p, t) : t \in TenantsBy(rows, q.p)}
    [] q.f \in {"GetNamespacesForPrincipalByTenant", "GetNamespaceForPrincipalByTenant"} -> NamespaceRows(rows, q.p, q.t)
    [] q.f = "GetScopesForPrincipalByTenant" -> ScopeRows(rows, q.p, q.t)
    [] q.f = "GetScopeForPrincipalByNamespace" -> UNION {ScopeRowsNs(rows, q.p, t, q.n) : t \in TenantsBy(rows, q.p)}
    [] q.f = "GetScopesForPrincipalByTenantAndNamespace" -> ScopeRowsNs(rows, q.p, q.t, q.n)
    [] q.f = "GetRolesForPrincipalByTenantNamespaceAndScope" -> {d \in RoleRows(rows, q.p, q.t) : Fits(d.n, q.n) /\ Fits(d.s, q.s)}
    [] q.f = "GetRolesForPrincipalByTenantAndNamespace" -> {d \in RoleRows(rows, q.p, q.t) : Fits(d.n, q.n)}
    [] q.f = "GetRolesForPrincipalByTenantAndScope" -> {d \in RoleRows(rows, q.p, q.t) : Fits(d.s, q.s)}
    [] q.f \in {"Data", "AsString"} -> rows
    [] q.f = "Search" -> {d \in rows : \A k \in {"t", "n", "s", "p", "r", "m"} : q[k] = NIL \/ q[k] = d[k]}

Column(R, k) == {d[k] : d \in R}

\* the report of scopes with roles, made from the records of tenant t
ScopesWithRoles(p, t, n) ==
  LET own == {d \in InTenant(rows, t) : d.p = p}
      ent == LET e == {d \in InTenant(rows, t) : d.s # NIL /\ n # NIL /\ d.n = n}
             IN IF e # {} THEN e ELSE {d \in InTenant(rows, t) : d.s # NIL}
      pairsOf == {<<e.s, d.r>> : e \in ent, d \in own} \cup {<<d.s, d.r>> : d \in {x \in own : x.s # NIL /\ x.r # NIL}}
  IN {[s |-> s, rs |-> {x[2] : x \in {y \in pairsOf : y[1] = s}}] : s \in {x[1] : x \in pairsOf}}
ReportTenants(p, t) ==
  IF {d \in InTenant(rows, t) : d.p = p} # {} THEN {t}
  ELSE LET above == {a \in Reachable(rows, p) \ {t} : ManagesBelow(rows, p, a, t)}
       IN IF above = {} THEN {t} ELSE above

-----------------------------------------------------------------------------
(* Decisions *)
NoActivity(o) == o.g = NIL \/ o.a = NIL

MemberAt(D, p, o, t) ==
  IF t # NIL
  THEN CASE o.n = NIL /\ o.s = NIL -> \E d \in InTenant(D, t) : d.p = p
         [] o.n # NIL /\ o.s = NIL -> \E d \in NamespaceRows(D, p, t) : d.n = o.n
         [] o.n = NIL /\ o.s # NIL -> \E d \in ScopeRows(D, p, t) : d.s = o.s
         [] OTHER -> \E d \in ScopeRowsNs(D, p, t, o.n) : d.s = o.s
  ELSE /\ o.n # NIL /\ o.s # NIL
       /\ \E x \in TenantsBy(D, p) : \E d \in ScopeRowsNs(D, p, x, o.n) : d.s = o.s

HeldRoles(D, p, o, ts) ==
  UNION {Column({d \in RoleRows(D, p, t) : (o.n = NIL \/ Fits(d.n, o.n)) /\ (o.s = NIL \/ Fits(d.s, o.s))}, "r") : t \in ts}
UsedRoles(D, ts) == UNION {Column({d \in InTenant(D, t) : d.r # NIL}, "r") : t \in ts}

ActivityAt(D, p, o, t) ==
  LET ts == IF t # NIL THEN {t} ELSE IF o.n # NIL /\ o.s # NIL THEN TenantsBy(D, p) ELSE {}
      used == UsedRoles(D, ts)
  IN \E r \in HeldRoles(D, p, o, ts) : r \in DOMAIN regs["r"] /\ Has(regs["r"][r], o.g, o.a, used)

DecideAt(D, p, o, t) == IF NoActivity(o) THEN MemberAt(D, p, o, t) ELSE ActivityAt(D, p, o, t)

AuthorizeOn(D, p, o) ==
  /\ p \in DOMAIN regs["p"]
  /\ o.t # NIL => o.t \in DOMAIN regs["t"]
  /\ o.n # NIL => o.n \in DOMAIN regs["n"]
  /\ o.s # NIL => o.s \in DOMAIN regs["s"]
  /\ Reachable(D, p) # {}
  /\ o.t # NIL => o.t \in Reachable(D, p)
  /\ \/ DecideAt(D, p, o, o.t)
     \/ o.t # NIL /\ \E a \in Reachable(D, p) : ManagesBelow(D, p, a, o.t) /\ DecideAt(D, p, o, a)
Authorize(p, o) == AuthorizeOn(rows, p, o)

-----------------------------------------------------------------------------
(* Answers to queries *)
Answer(q) ==
  CASE q.op \in RoleQueries -> RoleAnswer(q)
    [] q.op = "authorize" -> Authorize(q.p, q.o)
    [] q.op = "rows"      -> RowsFor(q)
    [] q.op = "ids"       -> Column(RowsFor(q), q.k)
    [] q.op = "tenantsBy" -> TenantsBy(rows, q.p)
    [] q.op = "implicit"  -> Reachable(rows, q.p)
    [] q.op = "children"  -> Children(q.t)
    [] q.op = "below"     -> TenantsBelow(q.h)
    [] q.op = "available" -> Available
    [] q.op = "scopesRoles" -> {ScopesWithRoles(q.p, t, q.n) : t \in ReportTenants(q.p, q.t)}   \* any one of these

-----------------------------------------------------------------------------
Do(e) ==
  CASE e.op \in RoleOps -> RoleDo(e) /\ UNCHANGED <<ten, rows>>
    [] e.op = "new"      -> Create(e.k, e.h, e.id)
    [] e.op = "data"     -> AddData(e.row)
    [] e.op = "tNs"      -> TenantNamespaces(e.h, e.ids)
    [] e.op = "tRoles"   -> TenantRoles(e.h, e.ids)
    [] e.op = "tScopes"  -> TenantScopes(e.h, e.ids)
    [] e.op = "tNsScope" -> ScopeToNamespace(e.h, e.n, e.s)
    [] e.op = "tPrNs"    -> PrincipalInNamespace(e.h, e.p, e.n, e.r)
    [] e.op = "tDef"     -> SetDefault(e.h, e.n)
    [] e.op = "tAssign"  -> AssignRoles(e.h, e.p, e.rs, e.m)
    [] e.op = "tAssignS" -> AssignScopes(e.h, e.p, e.ss, e.m)
    [] e.op = "tDesc"    -> AddDescendants(e.h, e.hs)

-----------------------------------------------------------------------------
(***************************************************************************)
(* Properties, stated apart from the definitions of the decisions          *)
(***************************************************************************)
\* C13, C14: a grant has a reason in the records of the principal
GrantHasReason(p, o) ==
  Authorize(p, o) => /\ p \in DOMAIN regs["p"]
                     /\ \E d \in rows : d.p = p /\ d.t # NIL
                     /\ o.t # NIL => \E d \in rows : d.p = p /\ (d.t = o.t \/ (d.m = "true" /\ o.t \in Children(d.t)))
ActivityHasReason(p, o) ==
  Authorize(p, o) /\ ~NoActivity(o) =>
     \E d \in rows : /\ d.p = p /\ d.r \in DOMAIN regs["r"]
                     /\ o.t = NIL \/ d.t = o.t \/ o.t \in Children(d.t)
                     /\ \E h \in {regs["r"][d.r]} \cup RolesBelow(regs["r"][d.r]) : HasOwn(h, o.g, o.a)
\* C15: what other principals hold does not matter, except for which roles are in use
Anonymous(D, p) == {d \in D : d.p \in {NIL, p}} \cup
                   {Row(d.t, NIL, NIL, d.p, d.r, NIL) : d \in {x \in D : x.p \notin {NIL, p} /\ x.r # NIL}}
OthersIrrelevant(p, o) ==
  /\ Authorize(p, o) = AuthorizeOn(Anonymous(rows, p), p, o)
  /\ NoActivity(o) => Authorize(p, o) = AuthorizeOn({d \in rows : d.p \in {NIL, p}}, p, o)
\* C15: nor do tenants other than the requested one and those p manages it through
OtherTenantsIrrelevant(p, o) ==
  o.t # NIL => Authorize(p, o) =
     AuthorizeOn({d \in rows : d.t = o.t \/ (d.t # NIL /\ o.t \in Children(d.t) /\ \E x \in rows : x.t = d.t /\ x.p = p /\ x.m = "true")}, p, o)
ManagementGoesDown(p) ==
  \A t \in Reachable(rows, p) : \/ \E d \in rows : d.p = p /\ d.t = t
                                \/ \E d \in rows : d.p = p /\ d.m = "true" /\ t \in Children(d.t)
\* with no managing record, decisions are those of the tenant alone
UnmanagedIsLocal(p, o) ==
  o.t # NIL /\ (\A d \in rows : d.p = p => d.m # "true") =>
     Authorize(p, o) = AuthorizeOn({d \in rows : d.t = o.t}, p, o)
\* C13, C14: without a tenant, namespace and scope are both needed
PlacesNeeded(p, o) == o.t = NIL /\ (o.n = NIL \/ o.s = NIL) => ~Authorize(p, o)
UnregisteredDenied(p, o) ==
  (p \notin DOMAIN regs["p"] \/ (o.t # NIL /\ o.t \notin DOMAIN regs["t"]) \/ (o.n # NIL /\ o.n \notin DOMAIN regs["n"])
     \/ (o.s # NIL /\ o.s \notin DOMAIN regs["s"])) => ~Authorize(p, o)

DecisionProperties(asks) ==
  \A x \in asks : LET p == x[1] o == x[2] IN
     /\ GrantHasReason(p, o) /\ ActivityHasReason(p, o) /\ OthersIrrelevant(p, o) /\ OtherTenantsIrrelevant(p, o)
     /\ ManagementGoesDown(p) /\ UnmanagedIsLocal(p, o) /\ PlacesNeeded(p, o) /\ UnregisteredDenied(p, o)

\* C26
NotBelowItself == /\ \A h \in DOMAIN ten : h \notin (TenReach({}, Range(ten[h].kids)) \ {h})
                  /\ NoRoleBelowItself
TypeOK == \A d \in rows : d.m \in {NIL, "true", "false"}
=============================================================================
