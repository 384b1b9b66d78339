--------------------------------- MODULE V2 ---------------------------------
(***************************************************************************)
(* The v2 engine (package v2): roles and the role graph, tenants with      *)
(* namespaces, scopes and children, assignments with expiry, the clock,    *)
(* and the two decisions Authorize and Can.                                *)
(*                                                                         *)
(* Objects created by the caller (roles, tenants, assignments) are known   *)
(* by handles, as the engine keeps pointers to them: changing an object    *)
(* after it was registered changes what the engine answers.                *)
(*                                                                         *)
(* Every public call is one action; its result is left in out.  Queries    *)
(* leave all other variables unchanged.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Matches(_, _)      \* Matches(permission, "resource action")

VARIABLES
  roles,    \* role handle -> [name, perms]
  dags,     \* "A" (the engine's) and "D" (free-standing) -> [roles: name -> handle, kids: name -> SET name]
  tens,     \* tenant handle -> [id, ns: name -> SET scope, def, status, kids: id -> handle]
  asgs,     \* assignment handle -> [p, t, n, s, r, exp, mng]
  reg,      \* tenant id -> handle, as registered with the engine
  held,     \* handles of the assignments the engine holds
  deft,     \* default tenant id, or ""
  now,      \* the clock
  out       \* result of the last call

vars == <<roles, dags, tens, asgs, reg, held, deft, now, out>>

Never == 999999999          \* no expiry
Active == 0                 \* tenant status

Init ==
  /\ roles = << >> /\ tens = << >> /\ asgs = << >> /\ reg = << >>
  /\ dags = [d \in {"A", "D"} |-> [roles |-> << >>, kids |-> << >>]]
  /\ held = {} /\ deft = "" /\ now = 0 /\ out = "ok"

Put(f, k, v) == (k :> v) @@ f
Get(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default
ToSet(q) == {q[i] : i \in 1..Len(q)}

-----------------------------------------------------------------------------
(* Derived: reachability in the role graph *)
Kids(d, r) == Get(dags[d].kids, r, {})

\* roles reachable from a set over all links, registered or not
RECURSIVE LinkClosure(_, _, _)
LinkClosure(d, done, todo) ==
  IF todo = {} THEN done
  ELSE LinkClosure(d, done \cup todo, (UNION {Kids(d, r) : r \in todo}) \ (done \cup todo))

\* registered roles reachable from a role through registered roles
RECURSIVE RegClosure(_, _, _)
RegClosure(d, done, todo) ==
  LET known == todo \cap DOMAIN dags[d].roles IN
  IF known = {} THEN done
  ELSE RegClosure(d, done \cup known, (UNION {Kids(d, r) : r \in known}) \ (done \cup known))

RoleClosure(d, r) == RegClosure(d, {}, {r})
RolePerms(d, r) == UNION {roles[dags[d].roles[x]].perms : x \in RoleClosure(d, r)}

-----------------------------------------------------------------------------
(* Calls that change the state *)

NewRole(h, name) ==
  /\ roles' = Put(roles, h, [name |-> name, perms |-> {}]) /\ out' = "ok"
  /\ UNCHANGED <<dags, tens, asgs, reg, held, deft, now>>

\* def is "" when no default namespace was given, which hasDef tells apart from the namespace ""
NewTenant(h, id, hasDef, def) ==
  /\ tens' = Put(tens, h, [id |-> id, ns |-> IF hasDef THEN (def :> {}) ELSE << >>,
                           def |-> def, status |-> Active, kids |-> << >>])
  /\ out' = "ok"
  /\ UNCHANGED <<roles, dags, asgs, reg, held, deft, now>>

NewAssignment(h, p, t, n, s, r, mng) ==
  /\ asgs' = Put(asgs, h, [p |-> p, t |-> t, n |-> n, s |-> s, r |-> r, exp |-> Never, mng |-> mng])
  /\ out' = "ok"
  /\ UNCHANGED <<roles, dags, tens, reg, held, deft, now>>

RECURSIVE PutRoles(_, _)
PutRoles(f, hs) == IF hs = << >> THEN f ELSE PutRoles(Put(f, roles[Head(hs)].name, Head(hs)), Tail(hs))

AddRoles(d, hs) ==
  /\ dags' = [dags EXCEPT ![d].roles = PutRoles(@, hs)] /\ out' = "ok"
  /\ UNCHANGED <<roles, tens, asgs, reg, held, deft, now>>

AddPermission(h, ps) ==
  /\ roles' = [roles EXCEPT ![h].perms = @ \cup ToSet(ps)] /\ out' = "ok"
  /\ UNCHANGED <<dags, tens, asgs, reg, held, deft, now>>

RemovePermission(h, ps) ==
  /\ roles' = [roles EXCEPT ![h].perms = @ \ ToSet(ps)] /\ out' = "ok"
  /\ UNCHANGED <<dags, tens, asgs, reg, held, deft, now>>

ClosesCycle(d, parent, children) == parent \in LinkClosure(d, {}, ToSet(children))

AddChildRole(d, parent, children) ==
  /\ IF ClosesCycle(d, parent, children)
     THEN out' = "err" /\ UNCHANGED dags
     ELSE /\ out' = "ok"
          /\ dags' = [dags EXCEPT ![d].kids = Put(@, parent, Kids(d, parent) \cup ToSet(children))]
  /\ UNCHANGED <<roles, tens, asgs, reg, held, deft, now>>

AddNamespace(h, n, isDefault) ==
  /\ tens' = [tens EXCEPT ![h] = [@ EXCEPT !.ns = Put(@, n, Get(@, n, {})),
                                           !.def = IF isDefault THEN n ELSE @]]
  /\ out' = "ok"
  /\ UNCHANGED <<roles, dags, asgs, reg, held, deft, now>>

AddScopes(h, n, ss) ==
  /\ IF n \in DOMAIN tens[h].ns
     THEN out' = "ok" /\ tens' = [tens EXCEPT ![h].ns[n] = @ \cup ToSet(ss)]
     ELSE out' = "err" /\ UNCHANGED tens
  /\ UNCHANGED <<roles, dags, asgs, reg, held, deft, now>>

RECURSIVE PutTens(_, _)
PutTens(f, hs) == IF hs = << >> THEN f ELSE PutTens(Put(f, tens[Head(hs)].id, Head(hs)), Tail(hs))

AddChildTenants(h, hs) ==
  /\ tens' = [tens EXCEPT ![h].kids = PutTens(@, hs)] /\ out' = "ok"
  /\ UNCHANGED <<roles, dags, asgs, reg, held, deft, now>>

AddTenants(hs) ==
  /\ reg' = PutTens(reg, hs) /\ out' = "ok"
  /\ UNCHANGED <<roles, dags, tens, asgs, held, deft, now>>

SetStatus(h, st) ==
  /\ tens' = [tens EXCEPT ![h].status = st] /\ out' = "ok"
  /\ UNCHANGED <<roles, dags, asgs, reg, held, deft, now>>

SetDefaultTenant(id) ==
  /\ deft' = id /\ out' = "ok"
  /\ UNCHANGED <<roles, dags, tens, asgs, reg, held, now>>

AddAssignments(hs) ==
  /\ held' = held \cup ToSet(hs) /\ out' = "ok"
  /\ UNCHANGED <<roles, dags, tens, asgs, reg, deft, now>>

Agrees(a, pat) ==
  /\ pat.p = "" \/ a.p = pat.p
  /\ pat.t = "" \/ a.t = pat.t
  /\ pat.n = "" \/ a.n = pat.n
  /\ pat.s = "" \/ a.s = pat.s
  /\ pat.r = "" \/ a.r = pat.r

RemoveAssignments(pat) ==
  LET gone == {h \in held : Agrees(asgs[h], pat)} IN
  /\ held' = held \ gone
  /\ out' = IF gone = {} THEN "err" ELSE "ok"
  /\ UNCHANGED <<roles, dags, tens, asgs, reg, deft, now>>

SetExpiry(h, at) ==
  /\ IF at < now THEN out' = "err" /\ UNCHANGED asgs
                 ELSE out' = "ok" /\ asgs' = [asgs EXCEPT ![h].exp = at]
  /\ UNCHANGED <<roles, dags, tens, reg, held, deft, now>>

SetExpiryDuration(h, d) ==
  /\ out' = "ok" /\ asgs' = [asgs EXCEPT ![h].exp = now + d]
  /\ UNCHANGED <<roles, dags, tens, reg, held, deft, now>>

SetBadDuration(h) == out' = "err" /\ UNCHANGED <<roles, dags, tens, asgs, reg, held, deft, now>>

\* the caller writes the exported field, which may also be in the past
PutExpiry(h, at) ==
  /\ out' = "ok" /\ asgs' = [asgs EXCEPT ![h].exp = at]
  /\ UNCHANGED <<roles, dags, tens, reg, held, deft, now>>

ClearExpiry(h) == PutExpiry(h, Never)

Advance(d) ==
  /\ now' = now + d /\ out' = "ok"
  /\ UNCHANGED <<roles, dags, tens, asgs, reg, held, deft>>

-----------------------------------------------------------------------------
(* Decisions *)

Expired(a) == a.exp # Never /\ now > a.exp
LiveOf(p, t) == {h \in held : asgs[h].p = p /\ asgs[h].t = t /\ ~Expired(asgs[h])}
Manages(p, t) == \E h \in LiveOf(p, t) : asgs[h].mng

\* active tenants whose assignments count for p in the tenant with handle h: itself, and
\* downward the children of those of them that p manages
RECURSIVE TenantClosure(_, _, _)
TenantClosure(p, done, todo) ==
  LET live == {h \in todo : tens[h].status = Active} IN
  IF live = {} THEN done
  ELSE LET next == UNION {{tens[h].kids[k] : k \in DOMAIN tens[h].kids} :
                          h \in {x \in live : Manages(p, tens[x].id)}}
       IN TenantClosure(p, done \cup live, next \ (done \cup live))

\* assignments of p that count in the tenant with handle h for namespace n
Counting(p, h, n) ==
  {a \in UNION {LiveOf(p, tens[x].id) : x \in TenantClosure(p, {}, {h})} : asgs[a].n \in {"", n}}

PermsOf(as) == UNION {RolePerms("A", asgs[a].r) : a \in as}

Effective(p, h, n, s) ==
  LET c == Counting(p, h, n)
      scoped == PermsOf({a \in c : asgs[a].s = s})
  IN IF scoped # {} THEN scoped ELSE PermsOf({a \in c : asgs[a].s = ""})

\* the namespaces (none or one) a request resolves to in a tenant
Resolved(h, req) ==
  LET T == tens[h]
      cand == IF req.n # "" THEN {req.n}
              ELSE IF T.def # "" THEN {T.def}
              ELSE IF Cardinality(DOMAIN T.ns) = 1 THEN DOMAIN T.ns ELSE {}
  IN {n \in cand : n \in DOMAIN T.ns /\ (req.s = "" \/ req.s \in T.ns[n])}

OwnTenants(p) ==
  {reg[t] : t \in {x \in DOMAIN reg : x # "" /\ tens[reg[x]].status = Active /\ \E a \in held : asgs[a].p = p /\ asgs[a].t = x}}

Addressed(req) ==
  LET t == IF req.t = "" THEN deft ELSE req.t IN
  IF t = "" THEN OwnTenants(req.p)
  ELSE IF t \in DOMAIN reg THEN {reg[t]} ELSE {}

ValidTenant(req) ==
  LET t == IF req.t = "" THEN deft ELSE req.t IN t = "" \/ t \in DOMAIN reg

Authorize(req) ==
  /\ ~req.blank                     \* neither resource nor action
  /\ \E h \in Addressed(req) : \E n \in Resolved(h, req) :
        \E perm \in Effective(req.p, h, n, req.s) : Matches(perm, req.ra)

HasRoles(p, h, n) ==
  LET named == {asgs[a].r : a \in Counting(p, h, n)} \ {""}
  IN named \cup UNION {RoleClosure("A", r) : r \in named}

Can(req, rs) ==
  \E h \in Addressed(req) : \E n \in Resolved(h, req) : HasRoles(req.p, h, n) \cap ToSet(rs) # {}

-----------------------------------------------------------------------------
(* Queries: the answer to a query record *)
Answer(q) ==
  CASE q.op = "authorize"  -> Authorize(q.req)
    [] q.op = "can"        -> Can(q.req, q.roles)
    [] q.op = "perms"      -> RolePerms(q.d, q.r)
    [] q.op = "kids"       -> RoleClosure(q.d, q.r)
    [] q.op = "getRole"    -> Get(dags["A"].roles, q.r, "none")
    [] q.op = "getTenant"  -> Get(reg, q.t, "none")
    [] q.op = "defTenant"  -> IF deft = "" THEN "none" ELSE Get(reg, deft, "none")
    [] q.op = "expired"    -> Expired(asgs[q.h])
    [] q.op = "expiry"     -> asgs[q.h].exp
    [] q.op = "held"       -> ToSet(q.was)      \* a result returned earlier still reads as it did

SetValued(q) == q.op \in {"perms", "kids", "held"}

\* what the audit log of one decision may be: a sequence of [msg, f] with f the fields
Fields(req) == {<<"principal", req.p>>, <<"tenant", req.t>>, <<"namespace", req.n>>, <<"scope", req.s>>,
                <<"resource", req.res>>, <<"action", req.act>>}
Granted == "Authorization granted"
LogAllowed(req, decision, log) ==
  /\ Len(log) >= 1
  /\ \A i \in 1..Len(log) : ToSet(log[i].f) = {f \in Fields(req) : f[2] # ""}
                            /\ Len(log[i].f) = Cardinality(ToSet(log[i].f))
  /\ \A i \in 1..Len(log) : log[i].msg = Granted <=> (decision /\ i = Len(log))
  /\ ~decision => LET m == log[Len(log)].msg IN
       IF ValidTenant(req) THEN m = "Authorization failed"
       ELSE m = "Failed authorization due to invalid tenant"
  /\ \A i \in 1..(Len(log) - 1) : log[i].msg \notin {"Authorization failed", "Failed authorization due to invalid tenant"}

-----------------------------------------------------------------------------
(* One call, given as a record *)
Do(e) ==
  CASE e.op = "newRole"     -> NewRole(e.h, e.name)
    [] e.op = "newTenant"   -> NewTenant(e.h, e.id, e.hasDef, e.def)
    [] e.op = "newAsg"      -> NewAssignment(e.h, e.p, e.t, e.n, e.s, e.r, e.mng)
    [] e.op = "addRoles"    -> AddRoles(e.d, e.hs)
    [] e.op = "addPerm"     -> AddPermission(e.h, e.ps)
    [] e.op = "remPerm"     -> RemovePermission(e.h, e.ps)
    [] e.op = "addKids"     -> AddChildRole(e.d, e.r, e.rs)
    [] e.op = "addNs"       -> AddNamespace(e.h, e.n, e.isDef)
    [] e.op = "addScopes"   -> AddScopes(e.h, e.n, e.ss)
    [] e.op = "addChildren" -> AddChildTenants(e.h, e.hs)
    [] e.op = "addTenants"  -> AddTenants(e.hs)
    [] e.op = "status"      -> SetStatus(e.h, e.st)
    [] e.op = "setDef"      -> SetDefaultTenant(e.t)
    [] e.op = "addAsg"      -> AddAssignments(e.hs)
    [] e.op = "remAsg"      -> RemoveAssignments(e.pat)
    [] e.op = "setExp"      -> SetExpiry(e.h, e.at)
    [] e.op = "setDur"      -> SetExpiryDuration(e.h, e.dur)
    [] e.op = "badDur"      -> SetBadDuration(e.h)
    [] e.op = "putExp"      -> PutExpiry(e.h, e.at)
    [] e.op = "clearExp"    -> ClearExpiry(e.h)
    [] e.op = "advance"     -> Advance(e.by)

-----------------------------------------------------------------------------
(***************************************************************************)
(* The properties, stated apart from the definitions of the decisions.     *)
(* They are checked by TLC on the bounded models MC_V2*.tla for every      *)
(* reachable state and the requests and roles of the model.                *)
(***************************************************************************)

\* decisions of a state in which only the assignments in H are held
AuthWith(H, req) ==
  LET Live(p, t) == {h \in H : asgs[h].p = p /\ asgs[h].t = t /\ (asgs[h].exp = Never \/ now <= asgs[h].exp)}
      RECURSIVE Clo(_, _)
      Clo(done, todo) == LET l == {h \in todo : tens[h].status = Active} IN
        IF l = {} THEN done
        ELSE Clo(done \cup l, (UNION {{tens[h].kids[k] : k \in DOMAIN tens[h].kids} :
                   h \in {x \in l : \E a \in Live(req.p, tens[x].id) : asgs[a].mng}}) \ (done \cup l))
      Own == {reg[t] : t \in {x \in DOMAIN reg : x # "" /\ \E a \in H : asgs[a].p = req.p /\ asgs[a].t = x}}
      tid == IF req.t = "" THEN deft ELSE req.t
      Targets == IF tid = "" THEN Own ELSE IF tid \in DOMAIN reg THEN {reg[tid]} ELSE {}
      Row(h, n) == {a \in UNION {Live(req.p, tens[x].id) : x \in Clo({}, {h})} : asgs[a].n = "" \/ asgs[a].n = n}
      Scoped(h, n) == PermsOf({a \in Row(h, n) : asgs[a].s = req.s})
      Plain(h, n) == PermsOf({a \in Row(h, n) : asgs[a].s = ""})
  IN ~req.blank /\ \E h \in Targets : \E n \in Resolved(h, req) : \E perm \in Scoped(h, n) \cup Plain(h, n) :
       /\ Matches(perm, req.ra)
       /\ perm \in Scoped(h, n) \/ Scoped(h, n) = {}

\* C01: nothing grants without a matching permission of a role named by a live assignment of p
GrantHasReason(req) ==
  Authorize(req) => \E a \in held : /\ asgs[a].p = req.p /\ ~Expired(asgs[a])
                                    /\ asgs[a].s \in {"", req.s}
                                    /\ \E perm \in RolePerms("A", asgs[a].r) : Matches(perm, req.ra)
\* C02: other principals' assignments never matter, nor do those outside the tenants below the addressed ones
OthersIrrelevant(req) == Authorize(req) = AuthWith({h \in held : asgs[h].p = req.p}, req)

RECURSIVE Below(_, _)
Below(done, todo) ==
  IF todo = {} THEN done
  ELSE Below(done \cup todo, (UNION {{tens[h].kids[k] : k \in DOMAIN tens[h].kids} : h \in todo}) \ (done \cup todo))
OutsideIrrelevant(req) ==
  req.t # "" /\ req.t \in DOMAIN reg =>
    Authorize(req) = AuthWith({h \in held : asgs[h].t \in {tens[x].id : x \in Below({}, {reg[req.t]})}}, req)
UnmanagedConfined(req) ==
  req.t # "" /\ req.t \in DOMAIN reg /\ ~Manages(req.p, req.t) =>
    Authorize(req) = AuthWith({h \in held : asgs[h].t = req.t}, req)
\* C03
NamespaceConfined(req) ==
  req.n # "" => Authorize(req) = AuthWith({h \in held : asgs[h].n \in {"", req.n} \/ asgs[h].mng}, req)
ScopeConfined(req) == Authorize(req) = AuthWith({h \in held : asgs[h].s \in {"", req.s} \/ asgs[h].mng}, req)
NeedsNamespace(req) == Authorize(req) => \E h \in Addressed(req) : DOMAIN tens[h].ns # {}
\* C04
Acyclic == \A d \in {"A", "D"} : \A r \in DOMAIN dags[d].kids : r \notin LinkClosure(d, {}, Kids(d, r))
PermsAreUnion ==
  \A d \in {"A", "D"} : \A r \in DOMAIN dags[d].roles :
     RolePerms(d, r) = roles[dags[d].roles[r]].perms \cup UNION {RolePerms(d, k) : k \in Kids(d, r)}
\* C06
ExpiredIrrelevant(req) ==
  req.t # "" => Authorize(req) = AuthWith({h \in held : asgs[h].exp = Never \/ asgs[h].exp >= now}, req)
\* C08
CanIsMembership(req, r) ==
  Can(req, <<r>>) => r # "" /\ \E a \in held : asgs[a].p = req.p /\ ~Expired(asgs[a]) /\ (asgs[a].r = r \/ r \in LinkClosure("A", {}, {asgs[a].r}))
CanOfNothing(req) == ~Can(req, << >>)
\* C09
InactiveNeverGrants(req) ==
  req.t # "" /\ req.t \in DOMAIN reg /\ tens[reg[req.t]].status # Active => ~Authorize(req)
UnknownTenantDenied(req) == ~ValidTenant(req) => ~Authorize(req)
TenantlessIsUnion(req) ==
  req.t = "" /\ deft = "" =>
    Authorize(req) = \E t \in DOMAIN reg : /\ t # "" /\ \E a \in held : asgs[a].p = req.p /\ asgs[a].t = t
                                           /\ Authorize([req EXCEPT !.t = t])
\* the decision agrees with the second, independent formulation
TwoFormulations(req) == Authorize(req) = AuthWith(held, req)

DecisionProperties(reqs) ==
  \A req \in reqs :
     /\ GrantHasReason(req) /\ OthersIrrelevant(req) /\ OutsideIrrelevant(req) /\ UnmanagedConfined(req)
     /\ NamespaceConfined(req) /\ ScopeConfined(req) /\ NeedsNamespace(req) /\ ExpiredIrrelevant(req)
     /\ InactiveNeverGrants(req) /\ UnknownTenantDenied(req) /\ TenantlessIsUnion(req) /\ CanOfNothing(req)
     /\ TwoFormulations(req)
=============================================================================
