--------------------------------- MODULE V1 ---------------------------------
(***************************************************************************)
(* The v1 engine (package permission/v1): on top of Roles.tla, tenants     *)
(* with the namespaces, roles and scopes they have, namespaces with the    *)
(* roles and scopes they allow, and assignments.                           *)
(*                                                                         *)
(* In an assignment an empty role, namespace or scope means none; an empty *)
(* principal means everybody. An option of a request may be absent (NIL).  *)
(* A namespace given to two tenants is one object, shared by them.         *)
(***************************************************************************)
EXTENDS Roles

VARIABLES
  ten,    \* tenant handle -> [ns: id -> namespace handle, roles, scopes: ids, kids: id -> handle, def: namespace handle or NIL]
  nsp,    \* namespace handle -> [roles, scopes: ids]
  asg     \* set of assignments
vars == <<objs, pairs, regs, ten, nsp, role, grp, asg, out>>

Init == RolesInit /\ ten = << >> /\ nsp = << >> /\ asg = {}

Row(t, n, s, p, r, m) == [t |-> t, n |-> n, s |-> s, p |-> p, r |-> r, m |-> m]

Create(k, h, id) ==
  /\ CreateObj(k, h, id)
  /\ ten' = IF k = "t" THEN Put(ten, h, [ns |-> << >>, roles |-> {}, scopes |-> {}, kids |-> << >>, def |-> NIL]) ELSE ten
  /\ nsp' = IF k = "n" THEN Put(nsp, h, [roles |-> {}, scopes |-> {}]) ELSE nsp
  /\ UNCHANGED asg

-----------------------------------------------------------------------------
(* What a tenant and a namespace have *)
Fixed == UNCHANGED <<objs, pairs, regs, role, grp>>
OnlyTen(t) == ten' = t /\ out' = "ok" /\ Fixed /\ UNCHANGED <<nsp, asg>>

TenantNamespaces(h, hs) == OnlyTen([ten EXCEPT ![h].ns = KeepAll(@, hs)])
TenantRoles(h, ids) == OnlyTen([ten EXCEPT ![h].roles = @ \cup ToSet(ids)])
AddDescendants(h, hs) == OnlyTen([ten EXCEPT ![h].kids = KeepAll(@, hs)])
SetDefault(h, n) == OnlyTen(IF n \in DOMAIN ten[h].ns THEN [ten EXCEPT ![h].def = ten[h].ns[n]] ELSE ten)
\* the default namespace gets the scopes as well
TenantScopes(h, ids) ==
  /\ ten' = [ten EXCEPT ![h].scopes = @ \cup ToSet(ids)]
  /\ nsp' = IF ten[h].def = NIL THEN nsp ELSE [nsp EXCEPT ![ten[h].def].scopes = @ \cup ToSet(ids)]
  /\ out' = "ok" /\ Fixed /\ UNCHANGED asg
NamespaceRoles(n, ids) == nsp' = [nsp EXCEPT ![n].roles = @ \cup ToSet(ids)] /\ out' = "ok" /\ Fixed /\ UNCHANGED <<ten, asg>>
NamespaceScopes(n, ids) == nsp' = [nsp EXCEPT ![n].scopes = @ \cup ToSet(ids)] /\ out' = "ok" /\ Fixed /\ UNCHANGED <<ten, asg>>

\* up to the first one the tenant does not have
Upto(xs, good) == {xs[i] : i \in {j \in 1..Len(xs) : \A k \in 1..j : xs[k] \in good}}
RolesToNamespace(h, n, rs) ==
  /\ nsp' = IF n \in DOMAIN ten[h].ns THEN [nsp EXCEPT ![ten[h].ns[n]].roles = @ \cup Upto(rs, ten[h].roles)] ELSE nsp
  /\ out' = "ok" /\ Fixed /\ UNCHANGED <<ten, asg>>
ScopesToNamespace(h, n, ss) ==
  LET done == IF n \in DOMAIN ten[h].ns THEN Upto(ss, ten[h].scopes) ELSE {} IN
  /\ nsp' = IF n \in DOMAIN ten[h].ns THEN [nsp EXCEPT ![ten[h].ns[n]].scopes = @ \cup done] ELSE nsp
  /\ asg' = asg \cup {Row(objs[h].id, n, s, "", "", TRUE) : s \in done}
  /\ out' = "ok" /\ Fixed /\ UNCHANGED ten

-----------------------------------------------------------------------------
(* Assignments *)
Store(R) == asg' = asg \cup R /\ out' = "ok" /\ Fixed /\ UNCHANGED <<ten, nsp>>
\* for the tenant as a whole and for its default namespace
Twice(h, r) == {r} \cup IF ten[h].def = NIL THEN {} ELSE {[r EXCEPT !.n = objs[ten[h].def].id]}
Of(t, p) == {d \in asg : d.t = t /\ d.p = p}

Assign(h, p, r, n, s, m) == Store({Row(objs[h].id, n, s, p, r, m)})
AssignRoles(h, p, rs) ==
  Store(UNION {Twice(h, Row(objs[h].id, "", "", p, r, TRUE)) : r \in ToSet(rs) \cap ten[h].roles})
AssignInNamespace(h, p, n, rs) ==
  LET t == objs[h].id
      roles == IF rs # << >> THEN ToSet(rs) \cap ten[h].roles
               ELSE {""} \cup {d.r : d \in {x \in Of(t, p) : x.n # "" /\ x.n # n}}
  IN Store(IF n \in DOMAIN ten[h].ns THEN {Row(t, n, "", p, r, TRUE) : r \in roles} ELSE {})
AssignScopes(h, p, ss) ==
  LET t == objs[h].id
      held == {d.r : d \in Of(t, p)}
      known == IF held = {} THEN {} ELSE ToSet(ss) \cap ten[h].scopes
  IN Store(UNION {UNION {Twice(h, Row(t, "", s, p, r, TRUE)) : r \in held} \cup {Row(t, "", s, p, "", TRUE)} : s \in known})
AssignScopesRole(h, p, r, ss) ==
  LET t == objs[h].id
      known == IF Of(t, p) # {} /\ r \in ten[h].roles THEN ToSet(ss) \cap ten[h].scopes ELSE {}
  IN Store(UNION {Twice(h, Row(t, "", s, p, r, TRUE)) : s \in known})

-----------------------------------------------------------------------------
RECURSIVE TenReach(_, _)
TenReach(done, todo) == IF todo = {} THEN done
  ELSE TenReach(done \cup todo, (UNION {Range(ten[h].kids) : h \in todo}) \ (done \cup todo))
TenantsBelow(h) == TenReach({}, Range(ten[h].kids)) \ {h}
IdsBelow(t) == {objs[x].id : x \in TenantsBelow(regs["t"][t])}

Registered(k) == DOMAIN regs[k]
TenantsOf(D, p) == {d.t : d \in {x \in D : x.p = p}}
Rows(D, t, p) == {d \in D : d.t = t /\ d.p = p}

\* the roles the tenant allows for assignments R of one principal in it; none: no limit
AllowedRoles(R, t, n, s) ==
  IF R = {} \/ t \notin Registered("t") THEN {}
  ELSE LET T == ten[regs["t"][t]]
           has == n \in DOMAIN T.ns
           N == IF has THEN nsp[T.ns[n]] ELSE [roles |-> {}, scopes |-> {}]
           wide == {d \in R : d.n = "" /\ d.s = ""}
           base == IF N.roles # {} THEN N.roles ELSE {d.r : d \in wide}
           more == IF n # "" /\ s # "" THEN {d.r : d \in {x \in R : x.n = n /\ x.s = s}} ELSE {}
       IN IF \/ s # "" /\ s \notin T.scopes
             \/ n # "" /\ ~has
             \/ wide = {} /\ (s = "" \/ s \notin {d.s : d \in R})
             \/ N.scopes # {} /\ s \notin N.scopes
             \/ ~(base \cup more \subseteq T.roles)
          THEN {} ELSE base \cup more

-----------------------------------------------------------------------------
(* Decisions on the assignments D *)
Value(x) == IF x = NIL THEN "" ELSE x
Plain(o) == o.g = NIL /\ o.a = NIL
Member(D, p, o) ==
  CASE o.t # NIL /\ o.n = NIL /\ o.s = NIL ->
         /\ o.t \in Registered("t")
         /\ \E d \in D : d.p = p /\ (d.t = o.t \/ (d.m /\ d.t \in Registered("t") /\ o.t \in IdsBelow(d.t)))
    [] o.t = NIL /\ o.n # NIL /\ o.s = NIL ->
         \E t \in TenantsOf(D, p) \cap Registered("t") : o.n \in DOMAIN ten[regs["t"][t]].ns
    [] o.t = NIL /\ o.n = NIL /\ o.s # NIL ->
         \E t \in TenantsOf(D, p) \cap Registered("t") : o.s \in ten[regs["t"][t]].scopes /\ \E d \in Rows(D, t, p) : d.s = o.s
    [] o.t # NIL /\ o.n # NIL /\ o.s = NIL -> \E d \in Rows(D, o.t, p) : d.n = o.n
    [] o.t # NIL /\ o.n = NIL /\ o.s # NIL -> \E d \in Rows(D, o.t, p) : d.s = o.s
    [] o.t = NIL /\ o.n # NIL /\ o.s # NIL -> \E d \in D : d.p = p /\ d.n = o.n /\ d.s = o.s
    [] OTHER -> \/ \E d \in Rows(D, o.t, p) : d.n = o.n /\ d.s = o.s
                \/ Rows(D, o.t, p) # {} /\ \E d \in Rows(D, o.t, "") : d.n = o.n /\ d.s = o.s

ActivityAnywhere(D, p, a) ==
  LET ids == UNION {AllowedRoles(Rows(D, t, p), t, "", "") : t \in TenantsOf(D, p)} IN
  \E r \in ids \cap Registered("r") : Has(regs["r"][r], "", a, ids)

ActivityAt(D, p, t, n, s, g, a) ==
  /\ t \in Registered("t")
  /\ n # "" => n \in DOMAIN ten[regs["t"][t]].ns
  /\ s # "" => s \in ten[regs["t"][t]].scopes
  /\ LET R == Rows(D, t, p)
         held == {d.r : d \in {x \in R : (n = "" \/ x.n \in {"", n}) /\ (s = "" \/ x.s \in {"", s})}}
         allowed == AllowedRoles(R, t, n, s)
     IN \E r \in held \cap Registered("r") : Has(regs["r"][r], g, a, allowed)

AuthorizeOn(D, p, o) ==
  /\ p \in Registered("p")
  /\ CASE Plain(o) /\ (o.t # NIL \/ o.n # NIL \/ o.s # NIL) -> Member(D, p, o)
       [] o.a # NIL /\ o.t = NIL /\ o.n = NIL /\ o.s = NIL /\ o.g = NIL -> ActivityAnywhere(D, p, o.a)
       [] OTHER -> ActivityAt(D, p, Value(o.t), Value(o.n), Value(o.s), Value(o.g), Value(o.a))
Authorize(p, o) == AuthorizeOn(asg, p, o)

-----------------------------------------------------------------------------
Answer(q) ==
  CASE q.op \in RoleQueries -> RoleAnswer(q)
    [] q.op = "authorize" -> Authorize(q.p, q.o)
    [] q.op = "ofPrincipal" -> Rows(asg, q.t, q.p)
    [] q.op = "ofTenant"  -> {d \in asg : d.t = q.t}
    [] q.op = "implicitRows" -> Rows(asg, q.t, q.p) \cup
         (IF q.t \in Registered("t") THEN UNION {Rows(asg, c, q.p) : c \in DOMAIN ten[regs["t"][q.t]].kids} ELSE {})
    [] q.op = "permsFor"  -> {[row |-> d, gs |-> GroupsAsSet(PermsOf({regs["r"][d.r]}))] :
                                 d \in {x \in Rows(asg, q.t, q.p) : x.r # "" /\ x.r \in Registered("r")}}
    [] q.op = "tenantsFor" -> TenantsOf(asg, q.p)
    [] q.op = "rolePerms" -> LET ok == q.r \in Registered("r")
                             IN [err |-> ~ok, gs |-> IF ok THEN GroupsAsSet(PermsOf({regs["r"][q.r]})) ELSE {}]
    [] q.op = "scopesFor" -> LET ok == q.p \in Registered("p")
                             IN [err |-> ~ok, ss |-> IF ok THEN {d.s : d \in {x \in asg : x.p = q.p /\ x.s # ""}} ELSE {}]
    [] q.op = "tenantScopesFor" -> LET ok == q.p \in Registered("p") /\ q.t \in Registered("t")
                             IN [err |-> ~ok, ss |-> IF ok THEN {d.s : d \in {x \in Rows(asg, q.t, q.p) : x.s # ""}} ELSE {}]
    [] q.op = "allowed"   -> AllowedRoles(Rows(asg, q.t, q.p), q.t, q.n, q.s)
    [] q.op = "below"     -> TenantsBelow(q.h)

Do(e) ==
  CASE e.op \in RoleOps -> RoleDo(e) /\ UNCHANGED <<ten, nsp, asg>>
    [] e.op = "new"      -> Create(e.k, e.h, e.id)
    [] e.op = "tNs"      -> TenantNamespaces(e.h, e.hs)
    [] e.op = "tRoles"   -> TenantRoles(e.h, e.ids)
    [] e.op = "tScopes"  -> TenantScopes(e.h, e.ids)
    [] e.op = "tDesc"    -> AddDescendants(e.h, e.hs)
    [] e.op = "tDef"     -> SetDefault(e.h, e.n)
    [] e.op = "nRoles"   -> NamespaceRoles(e.h, e.ids)
    [] e.op = "nScopes"  -> NamespaceScopes(e.h, e.ids)
    [] e.op = "tNsRoles" -> RolesToNamespace(e.h, e.n, e.rs)
    [] e.op = "tNsScopes" -> ScopesToNamespace(e.h, e.n, e.ss)
    [] e.op = "assign"   -> Assign(e.h, e.p, e.r, e.n, e.s, e.m)
    [] e.op = "tAssign"  -> AssignRoles(e.h, e.p, e.rs)
    [] e.op = "tAssignN" -> AssignInNamespace(e.h, e.p, e.n, e.rs)
    [] e.op = "tAssignS" -> AssignScopes(e.h, e.p, e.ss)
    [] e.op = "tAssignSR" -> AssignScopesRole(e.h, e.p, e.r, e.ss)

-----------------------------------------------------------------------------
(***************************************************************************)
(* Properties, stated apart from the definitions of the decisions          *)
(***************************************************************************)
\* C24, C25: a grant has an assignment of the principal behind it
GrantHasReason(p, o) ==
  Authorize(p, o) => /\ p \in Registered("p")
                     /\ \E d \in asg : d.p = p /\ (o.t = NIL \/ d.t = o.t \/ (d.m /\ Plain(o) /\ d.t \in Registered("t") /\ o.t \in IdsBelow(d.t)))
ActivityHasReason(p, o) ==
  Authorize(p, o) /\ ~Plain(o) =>
     \E d \in asg : /\ d.p = p /\ d.r \in Registered("r")
                    /\ o.t # NIL => d.t = o.t
                    /\ Value(o.n) # "" => d.n \in {"", o.n}
                    /\ Value(o.s) # "" => d.s \in {"", o.s}
                    /\ \E h \in {regs["r"][d.r]} \cup RolesBelow(regs["r"][d.r]) : HasOwn(h, Value(o.g), Value(o.a))
\* assignments of other principals, except those for everybody, do not matter
OthersIrrelevant(p, o) == Authorize(p, o) = AuthorizeOn({d \in asg : d.p \in {"", p}}, p, o)
\* nor do other tenants, but for the question about a tenant alone those managing it
OtherTenantsIrrelevant(p, o) ==
  o.t # NIL => Authorize(p, o) = AuthorizeOn({d \in asg : d.t = o.t \/ (Plain(o) /\ o.n = NIL /\ o.s = NIL /\ d.m)}, p, o)
UnregisteredDenied(p, o) == p \notin Registered("p") => ~Authorize(p, o)
\* a narrower place never opens what tenant and namespace or tenant and scope deny to everybody's scopes
NarrowingMembership(p, o) ==
  Plain(o) /\ o.t # NIL /\ o.n # NIL /\ o.s # NIL /\ Authorize(p, o) =>
     \/ Authorize(p, [o EXCEPT !.s = NIL]) /\ Authorize(p, [o EXCEPT !.n = NIL]) /\ Authorize(p, [o EXCEPT !.t = NIL])
     \/ \E d \in asg : d.p = "" /\ d.t = o.t /\ d.n = o.n /\ d.s = o.s
DecisionProperties(asks) ==
  \A x \in asks : LET p == x[1] o == x[2] IN
     /\ GrantHasReason(p, o) /\ ActivityHasReason(p, o) /\ OthersIrrelevant(p, o) /\ OtherTenantsIrrelevant(p, o)
     /\ UnregisteredDenied(p, o) /\ NarrowingMembership(p, o)
\* C25: what the tenant allows are roles it has
AllowedAreRoles ==
  \A t \in Registered("t") : \A p \in {d.p : d \in asg} : \A n \in DOMAIN ten[regs["t"][t]].ns \cup {""} : \A s \in ten[regs["t"][t]].scopes \cup {""} :
     AllowedRoles(Rows(asg, t, p), t, n, s) \subseteq ten[regs["t"][t]].roles
\* C26
NotBelowItself == NoRoleBelowItself /\ \A h \in DOMAIN ten : h \notin TenantsBelow(h)
TypeOK == \A d \in asg : d.m \in BOOLEAN
=============================================================================
