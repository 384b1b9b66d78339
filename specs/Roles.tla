------------------------------- MODULE Roles -------------------------------
(***************************************************************************)
(* What the root and the v1 engine have in common: registries in which the *)
(* first registration of an id stays, attributes and groups of them, and   *)
(* roles with permissions by group, a lock and roles below them.           *)
(*                                                                         *)
(* Objects made by the caller are known by handles.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Matches(_, _)      \* Matches(permission, activity)

VARIABLES
  objs,   \* handle -> [k: kind, id]
  pairs,  \* attribute handle -> resource and action, kept apart
  regs,   \* kind -> id -> handle, the registries
  role,   \* role handle -> [perms: group -> (key -> pair), lock, kids: id -> handle]
  grp,    \* group handle -> key -> pair
  out     \* result of the last call
rolevars == <<objs, pairs, regs, role, grp>>

NIL == "\\-"
Kinds == {"t", "n", "s", "p", "r", "a", "g"}

RolesInit ==
  /\ objs = << >> /\ pairs = << >> /\ role = << >> /\ grp = << >>
  /\ regs = [k \in Kinds |-> << >>]
  /\ out = "ok"

Put(f, k, v) == (k :> v) @@ f
Get(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default
Keep(f, k, v) == IF k \in DOMAIN f THEN f ELSE (k :> v) @@ f       \* first one wins
ToSet(q) == {q[i] : i \in 1..Len(q)}
Range(f) == {f[k] : k \in DOMAIN f}

-----------------------------------------------------------------------------
(* Creating and registering objects *)
CreateObj(k, h, id) ==
  /\ objs' = Put(objs, h, [k |-> k, id |-> id]) /\ out' = "ok"
  /\ role' = IF k = "r" THEN Put(role, h, [perms |-> << >>, lock |-> FALSE, kids |-> << >>]) ELSE role
  /\ grp' = IF k = "g" THEN Put(grp, h, << >>) ELSE grp
  /\ UNCHANGED <<pairs, regs>>

CreateAttr(h, key, pair) ==
  /\ objs' = Put(objs, h, [k |-> "a", id |-> key]) /\ pairs' = Put(pairs, h, pair) /\ out' = "ok"
  /\ UNCHANGED <<regs, role, grp>>

\* the result is the object that is registered under the id afterwards
Register(k, h) ==
  /\ regs' = [regs EXCEPT ![k] = Keep(@, objs[h].id, h)]
  /\ out' = Get(regs[k], objs[h].id, h)
  /\ UNCHANGED <<objs, pairs, role, grp>>

RECURSIVE KeepAll(_, _)
KeepAll(f, hs) == IF hs = << >> THEN f ELSE KeepAll(Keep(f, objs[Head(hs)].id, Head(hs)), Tail(hs))
RegisterAll(k, hs) ==
  /\ regs' = [regs EXCEPT ![k] = KeepAll(@, hs)] /\ out' = "ok"
  /\ UNCHANGED <<objs, pairs, role, grp>>

-----------------------------------------------------------------------------
(* Roles and groups *)
RECURSIVE GiveFirst(_, _), GiveLast(_, _)
GiveFirst(f, as) == IF as = << >> THEN f ELSE GiveFirst(Keep(f, objs[Head(as)].id, pairs[Head(as)]), Tail(as))
GiveLast(f, as)  == IF as = << >> THEN f ELSE GiveLast(Put(f, objs[Head(as)].id, pairs[Head(as)]), Tail(as))

RolesOnly == UNCHANGED <<objs, pairs, regs, grp>>
Refused == out' = "err" /\ UNCHANGED rolevars

Lock(h, on) == role' = [role EXCEPT ![h].lock = on] /\ out' = "ok" /\ RolesOnly
Grant(h, g, as) ==
  IF role[h].lock THEN Refused
  ELSE /\ role' = [role EXCEPT ![h].perms = Put(@, g, GiveFirst(Get(@, g, << >>), as))]
       /\ out' = "ok" /\ RolesOnly
GrantGroup(h, g) ==
  IF role[h].lock THEN Refused
  ELSE /\ role' = [role EXCEPT ![h].perms = Keep(@, objs[g].id, grp[g])]
       /\ out' = "ok" /\ RolesOnly
GrantById(r, g, as) ==
  IF /\ r \in DOMAIN regs["r"] /\ g \in DOMAIN regs["g"]
     /\ \A i \in 1..Len(as) : objs[as[i]].id \in DOMAIN grp[regs["g"][g]]
  THEN Grant(regs["r"][r], g, as)
  ELSE Refused
RoleDescendants(h, hs) ==
  IF role[h].lock THEN Refused
  ELSE /\ role' = [role EXCEPT ![h].kids = KeepAll(@, hs)] /\ out' = "ok" /\ RolesOnly
GroupAttrs(g, as) ==
  /\ grp' = [grp EXCEPT ![g] = GiveLast(@, as)] /\ out' = "ok"
  /\ UNCHANGED <<objs, pairs, regs, role>>

-----------------------------------------------------------------------------
RECURSIVE RoleReach(_, _)
RoleReach(done, todo) == IF todo = {} THEN done
  ELSE RoleReach(done \cup todo, (UNION {Range(role[h].kids) : h \in todo}) \ (done \cup todo))
\* all below, without the element itself even when it lies on a cycle
RolesBelow(h) == RoleReach({}, Range(role[h].kids)) \ {h}

HasOwn(h, g, act) ==
  /\ g \in DOMAIN role[h].perms
  /\ \E k \in DOMAIN role[h].perms[g] : k = act \/ Matches(k, act)
Has(h, g, act, allowed) ==
  \/ HasOwn(h, g, act)
  \/ \E d \in RolesBelow(h) : (allowed = {} \/ objs[d].id \in allowed) /\ HasOwn(d, g, act)

PermsOf(hs) == [g \in UNION {DOMAIN role[h].perms : h \in hs} |->
                  UNION {IF g \in DOMAIN role[h].perms THEN Range(role[h].perms[g]) ELSE {} : h \in hs}]
Implicit(h) == PermsOf({h} \cup RolesBelow(h))

Totals == [tenants |-> Cardinality(DOMAIN regs["t"]), namespaces |-> Cardinality(DOMAIN regs["n"]), scopes |-> Cardinality(DOMAIN regs["s"]),
           principals |-> Cardinality(DOMAIN regs["p"]), roles |-> Cardinality(DOMAIN regs["r"]),
           attributes |-> Cardinality(DOMAIN regs["a"]), attribute_groups |-> Cardinality(DOMAIN regs["g"])]

GroupsAsSet(P) == {[g |-> g, as |-> P[g]] : g \in DOMAIN P}

RoleOps == {"newAttr", "reg", "regs", "lock", "grant", "grantGrp", "grantId", "rDesc", "gAttrs"}
RoleDo(e) ==
  CASE e.op = "newAttr"  -> CreateAttr(e.h, e.key, e.pair)
    [] e.op = "reg"      -> Register(e.k, e.h)
    [] e.op = "regs"     -> RegisterAll(e.k, e.hs)
    [] e.op = "lock"     -> Lock(e.h, e.on)
    [] e.op = "grant"    -> Grant(e.h, e.g, e.as)
    [] e.op = "grantGrp" -> GrantGroup(e.h, e.g)
    [] e.op = "grantId"  -> GrantById(e.r, e.g, e.as)
    [] e.op = "rDesc"    -> RoleDescendants(e.h, e.hs)
    [] e.op = "gAttrs"   -> GroupAttrs(e.g, e.as)

RoleQueries == {"rolesBelow", "has", "perms", "implicitPerms", "collectPerms", "groupPerms", "get", "list", "totals", "held"}
RoleAnswer(q) ==
  CASE q.op = "rolesBelow" -> RolesBelow(q.h)
    [] q.op = "has"       -> Has(q.h, q.g, q.a, ToSet(q.allowed))
    [] q.op = "perms"     -> GroupsAsSet(PermsOf({q.h}))
    [] q.op = "implicitPerms" -> GroupsAsSet(Implicit(q.h))
    [] q.op = "collectPerms" -> GroupsAsSet(PermsOf(UNION {{h} \cup RolesBelow(h) : h \in ToSet(q.hs)}))
    [] q.op = "groupPerms" -> Range(Get(role[q.h].perms, q.g, << >>))
    [] q.op = "get"       -> Get(regs[q.k], q.id, "none")
    [] q.op = "list"      -> DOMAIN regs[q.k]
    [] q.op = "totals"    -> Totals
    [] q.op = "held"      -> ToSet(q.was)

-----------------------------------------------------------------------------
\* C17: inheritance is transitive and includes what a role was given
InheritanceExact ==
  \A h \in DOMAIN role : \A g \in DOMAIN role[h].perms : \A k \in DOMAIN role[h].perms[g] :
     /\ Has(h, g, k, {})
     /\ \A x \in DOMAIN role : h \in RolesBelow(x) => Has(x, g, k, {})
\* C26
NoRoleBelowItself == \A h \in DOMAIN role : h \notin RolesBelow(h)
=============================================================================
