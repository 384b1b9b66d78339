import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=obs,hook_needed=None)))
H=["histories","inputs"]
p("C01","v2 authorization decision is exact",
 "In the v2 engine a request is granted if and only if, in at least one tenant it addresses, its namespace and scope are valid there and some permission that currently applies to its principal (through the principal's live role assignments and everything those roles inherit) matches the requested resource and action. A request with neither a resource nor an action is never granted. Nothing else grants or denies: default is deny.",
 H,"every history of building roles, tenants, namespaces, scopes and assignments, and every request against it",
 "The eight v2 tests each build one small fixture and ask one or two requests; the decision depends on the whole combination of tenants, assignments, roles and request fields.",
 ["v2/v2.go","v2/role.go","v2/entities.go"],[("Authorizer.Authorize","v2/v2.go"),("Authorizer.resolvePrincipalPermissions","v2/v2.go"),("RoleDAG.ResolvePermissions","v2/role.go")],
 [("userRoles","all assignments","v2/v2.go"),("tenants","registered tenants","v2/v2.go")],["Authorizer.Authorize"])
p("C02","v2 tenants and principals are isolated",
 "A v2 decision about a principal in a tenant depends only on that principal's own assignments in that tenant and, where a live assignment of that principal manages child tenants, on its assignments in the tenants reachable downward through such managed tenants. Assignments of other principals, assignments in parent, sibling or unrelated tenants, and tenants below one the principal does not manage never change the answer.",
 H,"every tenant hierarchy (including diamonds and cycles) and every set of assignments of several principals",
 "Tests use at most one parent and one child tenant and a single principal, so leaks between principals, siblings or upward through the hierarchy are never set up.",
 ["v2/v2.go","v2/role.go"],[("traverse in resolvePrincipalPermissions / resolvePrincipalRoles","v2/v2.go"),("Tenant.AddChildTenant","v2/role.go")],
 [("ChildTenants","children of a tenant","v2/entities.go"),("ManageChildTenant","assignment opens the children","v2/v2.go")],["Authorizer.Authorize","Authorizer.Can"])
p("C03","v2 namespace and scope confine what an assignment grants",
 "In v2 an assignment with a namespace counts only for requests resolved to that namespace, and one with a scope only for requests naming that scope; a request without a namespace is resolved to the tenant's default namespace, or to its only namespace if it has no default, and is denied otherwise, as is a request for a namespace the tenant lacks or a scope that namespace lacks. When assignments for exactly the requested scope contribute at least one permission, only those permissions apply; otherwise the ones of assignments without a scope do.",
 H,"every combination of tenant namespaces, default namespace, scopes, assignment namespace/scope and request namespace/scope, in any order of configuration",
 "Tests cover one namespace and one or two scopes, never the precedence between scoped and unscoped assignments or the resolution of an omitted namespace.",
 ["v2/v2.go","v2/role.go"],[("Authorizer.resolveNamespace","v2/v2.go"),("Authorizer.isScopeValidForNamespace","v2/v2.go"),("scoped/global permission sets","v2/v2.go"),("Tenant.AddNamespace / AddScopeToNamespace","v2/role.go")],
 [("Namespaces","namespaces and their scopes","v2/entities.go"),("DefaultNS","default namespace","v2/entities.go")],["Authorizer.Authorize","Authorizer.Can","Tenant.AddScopeToNamespace"])
p("C04","v2 role inheritance is exact and stays acyclic",
 "A v2 role resolves to exactly the permissions of all registered roles reachable from it through child-role links (itself included), and to exactly those roles' names, whatever the depth, sharing or order in which roles and links were added. Adding child links is refused if and only if one of them would close a cycle, and a refused call changes nothing.",
 ["histories","inputs"],"every sequence of role registrations, permission changes and child-link additions, including diamonds, deep chains, repeated links and roles registered after being linked",
 "One test adds a two-role cycle; graphs with sharing, depth, or failed additions in the middle are not built.",
 ["v2/role.go","v2/init.go"],[("RoleDAG.AddChildRole / checkCircularDependency","v2/role.go"),("RoleDAG.ResolvePermissions / ResolveChildRoles","v2/role.go")],
 [("edges","child-role links","v2/role.go"),("roles","registered roles","v2/role.go")],["RoleDAG.AddChildRole","RoleDAG.ResolvePermissions","RoleDAG.ResolveChildRoles","Authorizer.Authorize","Authorizer.Can"])
p("C05","v2 decisions reflect the current state, never an earlier one",
 "Every v2 decision and query reflects all changes that completed before it (permissions added to or removed from a role, roles re-registered, links, assignments, tenants, namespaces, scopes, default tenant), and depends only on the current state: asking a question, or asking questions in a different order, never changes any later answer.",
 H,"every interleaving of changes and queries in one history",
 "Tests build once and query once; stale caches and queries with side effects only show when changes and queries alternate.",
 ["v2/v2.go","v2/role.go","v2/init.go"],[("no state derived ahead of a decision","v2/v2.go, v2/role.go"),("checkedTenantsPool reset before use","v2/v2.go")],
 [],["Authorizer.Authorize","Authorizer.Can","RoleDAG.ResolvePermissions","RoleDAG.ResolveChildRoles","Authorizer.GetTenant","Authorizer.GetRole"])
p("C06","v2 expired assignments grant nothing",
 "A v2 assignment grants roles, permissions and management of child tenants up to and including its expiry instant and never after it, and forever when it has none; setting, extending or clearing the expiry takes effect from the next decision. Setting an expiry instant in the past, or a duration that is neither a duration nor a text that parses as one, returns an error and leaves the expiry as it was; a valid duration sets the expiry to that long from now.",
 H,"every sequence of expiry changes, clock advances (to before, exactly at and after each expiry) and requests",
 "No test sets an expiry; boundary instants and expiries that pass between two requests need a controlled clock.",
 ["v2/v2.go"],[("PrincipalRole.IsExpired / SetExpiry / SetExpiryDuration / ClearExpiry","v2/v2.go"),("expiry checks in both traversals","v2/v2.go")],
 [("Expiry","expiry instant of an assignment","v2/v2.go")],["Authorizer.Authorize","Authorizer.Can","PrincipalRole.IsExpired","PrincipalRole.SetExpiry","PrincipalRole.SetExpiryDuration"])
p("C07","v2 revocation removes exactly the matching assignments",
 "Removing v2 assignments by a pattern removes every assignment that agrees with all the pattern's non-empty fields among principal, tenant, namespace, scope and role, and no other, so that later decisions are exactly those of the remaining assignments. It returns an error, and changes nothing, if and only if no assignment matches.",
 H,"every list of assignments (with duplicates and shared assignment values) and every pattern, in any sequence of additions and removals",
 "No test removes an assignment.",
 ["v2/v2.go"],[("Authorizer.RemovePrincipalRole","v2/v2.go"),("Authorizer.AddPrincipalRole","v2/v2.go")],
 [("userRoles","all assignments","v2/v2.go")],["Authorizer.RemovePrincipalRole","Authorizer.Authorize","Authorizer.Can"])
p("C08","v2 role membership check is exact",
 "The v2 role check is granted if and only if, in a tenant the request addresses and for the namespace it resolves to, one of the given roles is named by a live assignment of the principal that applies to that namespace, or is a registered role inherited by one; assignments reached through managed child tenants count as they do for authorization, and the scope an assignment is limited to is not considered. With no roles given it is denied.",
 H,"every state and every request and list of roles",
 "No test calls the role check.",
 ["v2/v2.go","v2/role.go"],[("Authorizer.Can","v2/v2.go"),("Authorizer.resolvePrincipalRoles","v2/v2.go"),("RoleDAG.ResolveChildRoles","v2/role.go")],
 [],["Authorizer.Can"])
p("C09","v2 tenant selection: named, default, own, and only active tenants",
 "A v2 request addresses the tenant it names, else the default tenant if one is set, else every registered active tenant in which its principal has an assignment (expired or not), any number of them; it is denied if the named or default tenant is not registered, and granted if any addressed tenant grants it. Tenants that are not active, and what lies below them, never grant anything, and a tenant becomes usable or unusable as soon as its status changes.",
 H,"every number of tenants and assignments, every status change, default-tenant setting and re-registration, and every request with or without a tenant",
 "Tests name the tenant in the request or have one tenant; many tenants, statuses and default-tenant changes are not exercised.",
 ["v2/v2.go","v2/init.go","v2/entities.go"],[("Authorizer.findTargetTenants / findPrincipalTenants","v2/v2.go"),("Authorizer.SetDefaultTenant / GetDefaultTenant","v2/v2.go"),("status check in traversals","v2/v2.go")],
 [("defaultTenant","default tenant id","v2/v2.go"),("Status","tenant status","v2/entities.go")],["Authorizer.Authorize","Authorizer.Can","Authorizer.GetTenant","Authorizer.GetDefaultTenant"])
p("C10","v2 audit log tells every decision truthfully",
 "With an audit logger, every v2 authorization and role check logs exactly one final record, which is \"Authorization granted\" if and only if the call returned true and otherwise reports the failure (\"Authorization failed\", or the invalid tenant); no other record of the call says granted. Every record of the call carries exactly the non-empty fields of the request it was asked with.",
 H,"every request, granted or denied for any reason, in every state",
 "No test installs an audit logger.",
 ["v2/v2.go"],[("Authorizer.Log","v2/v2.go"),("log calls on each return path of Authorize and Can","v2/v2.go")],
 [("auditLog","audit logger","v2/v2.go")],["records received by the slog handler given to NewAuthorizer"])
p("C11","v2 engine is safe and linearizable under concurrent use",
 "Any number of goroutines may change and query one v2 engine at once (roles and their permissions, links, tenants and their namespaces, scopes and children, assignments, default tenant, decisions): no call crashes, deadlocks or races, no completed change is lost, and results are those for some order of the overlapping calls that respects which calls finished before others began. A decision sees the assignments, the registered tenants and the default tenant as of one moment of the call, and the permissions of each role and the namespaces, scopes and children of each tenant as of some moment of the call.",
 ["schedules","histories"],"every schedule of concurrent calls",
 "All tests are single-threaded.",
 ["v2/v2.go","v2/role.go","v2/init.go"],[("Authorizer.m, RoleDAG.mu, Role.m, Tenant.m","v2/v2.go, v2/role.go, v2/entities.go")],
 [],["all Authorizer, Role and Tenant methods"])
p("C12","Resource pattern matching is exact and always terminates",
 "A value matches a permission pattern if and only if it can be divided along the pattern, where '*' takes any run of characters including none, ':' with the following name (up to the next '/' or space) takes one or more characters other than '/', and every other character takes itself, with nothing left over. The answer always comes in time bounded by the product of the two lengths, for every input.",
 ["inputs"],"every value and every pattern",
 "The matcher has no test of its own; the tests that use it sample two or three patterns.",
 ["utils/str.go"],[("MatchResource","utils/str.go")],[],["utils.MatchResource","v2 Authorizer.Authorize","Role.Has (root and v1)"])
p("C13","Root membership decisions are exact",
 "In the root engine a request without an activity is granted if and only if the principal is registered, every tenant, namespace and scope it names is registered, and: for a tenant, the principal has an assignment in it; for tenant and namespace, tenant and scope, or all three, the tenant has a record giving that namespace or scope to the principal or to everybody in it (for all three: a scope record for that namespace or for none); for namespace and scope, that holds in some tenant of the principal. A principal that manages a tenant's descendants is answered for a descendant also from the managing tenant; all other combinations are denied.",
 H,"every history of registrations, tenant configuration, assignments and hierarchy changes, and every combination of tenant, namespace and scope in the request",
 "The root package has no tests at all.",
 ["authorize.go","query.go","filters.go","tenant.go"],[("RoleManager.Authorize / checkNoActivity / validateResources","authorize.go"),("search filters","filters.go"),("Get...ForPrincipal... queries","query.go")],
 [("trie","all assignment records","role_manager.go")],["RoleManager.Authorize"])
p("C14","Root activity decisions are exact",
 "In the root engine a request with an activity group and an activity is granted if and only if its principal and named resources are registered and one of the roles the principal holds in the addressed tenant, by a record whose namespace and scope are absent or equal to the requested ones, has a permission of that group matching the activity itself or through inherited roles that are in use in the tenant. Namespace and scope without a tenant address every tenant of the principal; a managed descendant is answered also from the managing tenant; a request with an activity and any other combination of places is denied.",
 H,"every history of roles, permissions, inheritance, assignments and hierarchy changes, and every request",
 "The root package has no tests at all.",
 ["authorize.go","query.go","filters.go","role.go"],[("RoleManager.checkActivity / collectRoles*","authorize.go"),("filterRoleForPrincipal*","filters.go"),("Role.Has","role.go")],
 [("trie","all assignment records","role_manager.go"),("roles","registered roles","role_manager.go")],["RoleManager.Authorize"])
p("C15","Root tenants and principals are isolated; management only goes down",
 "A root decision or per-principal report about a tenant never depends on another principal's assignments' namespaces, scopes or management rights, nor on tenants other than the requested one and the ancestors through which the principal itself manages it. A principal's reachable tenants are exactly those it has an assignment in and all (transitive) descendants of those where one of its assignments manages descendants.",
 H,"every hierarchy (including diamonds and cycles), every mixture of managing and non-managing assignments of several principals, in any order",
 "The root package has no tests at all.",
 ["authorize.go","query.go","tenant.go","activity_group.go"],[("RoleManager.GetImplicitTenants / TenantChildren","query.go, role_manager.go"),("managesDescendant","authorize.go"),("Tenant.GetDescendants","tenant.go")],
 [("descendants","children of a tenant","tenant.go"),("ManageDescendants","record manages descendants","filters.go")],["RoleManager.Authorize","RoleManager.GetImplicitTenants","RoleManager.GetScopesWithRolesForPrincipal","RoleManager.GetDescendantTenant"])
p("C16","Root and v1 answers depend only on what was configured, not when",
 "Every root and v1 decision and query reflects all registrations, assignments, permissions and hierarchy changes completed before it and nothing else: asking never changes a later answer, and two managers given the same facts in different orders (where no first-registration-wins conflict is involved) answer alike.",
 H,"every interleaving of configuration and queries, and every reordering of the same configuration",
 "v1 tests configure once and query once; the root package has no tests.",
 ["query.go","role_manager.go","tenant.go","v1/role_manager.go","v1/tenant.go"],[("answers computed from the record store at query time","query.go, v1/role_manager.go"),("Trie.Insert / search","trie/trie.go")],
 [],["RoleManager.Authorize and all Get* queries of both packages"])
p("C17","Root and v1 role permissions and inheritance are exact",
 "A root or v1 role has a permission in a group if and only if a permission it was given in that group, or one given in that group to a role below it at any depth (limited to the allowed roles when such a list is given), equals or matches it; its own and implicit permission reports list exactly those, group by group. Giving permissions, a whole group, or descendants to one role never changes what another role or the group itself holds.",
 H,"every history of permission, group and descendant additions over several roles, including shared groups, diamonds and cycles, and every question",
 "v1 tests read back one permission of one role; no test has inheritance.",
 ["role.go","v1/role.go","permission.go"],[("Role.Has / GetDescendantRoles / GetAllImplicitPermissions / GetPermissions","role.go, v1/role.go"),("Role.AddPermission / AddPermissionResourceGroup / AddDescendant","role.go, v1/role.go"),("GetRolesForAvailablePermissions","permission.go")],
 [("permissions","groups and permissions of a role","role.go"),("descendants","direct child roles","role.go")],["Role.Has","Role.GetPermissions","Role.GetAllImplicitPermissions","Role.GetResourceGroupPermissions","Role.GetDescendantRoles","RoleManager.GetRolesForAvailablePermissions"])
p("C18","Root and v1 refused changes have no effect",
 "A locked root or v1 role refuses every permission, group and descendant addition with an error until it is unlocked; adding permissions to a role by id is refused when the role or the group is not registered or any permission is not in the group; and assigning roles or scopes to a principal in a tenant is refused when the principal, role or scope is unknown. A refused call leaves every answer as it was, except that a list of assignments is applied up to the refused one.",
 H,"every history with valid and invalid calls mixed, locks and unlocks, and lists in which some entries are valid and others not",
 "Tests make only valid calls and never lock a role.",
 ["role.go","tenant.go","v1/role.go","v1/role_manager.go","v1/tenant.go"],[("lock checks","role.go, v1/role.go"),("RoleManager.AddPermissionsToRole","role.go, v1/role_manager.go"),("Tenant.AddPrincipalWithRole / AddScopeToPrincipal","tenant.go")],
 [("lock","role is locked","role.go")],["error results and all later answers"])
p("C19","Record store returns exactly what was inserted",
 "The generic record store keeps one record per distinct list of key values, the one inserted last, where absent values, values of different types and lists of different length all count as different; a search returns exactly the stored records its predicate accepts, each once, and asking for the first returns one of them, or nothing only when there is none.",
 H,"every sequence of insertions with any key lists (any length, with absent keys anywhere, any comparable types) and every predicate",
 "The store's only test prints a result and asserts nothing.",
 ["trie/trie.go"],[("Trie.Insert","trie/trie.go"),("Trie.search / First / Data","trie/trie.go")],
 [("root","record tree","trie/trie.go")],["Trie.Search","Trie.SearchFunc","Trie.First","Trie.FirstFunc","Trie.Data","RoleManager.AddData (root)"])
p("C20","Root and v1 registries keep the first registration and count exactly",
 "For principals, tenants, namespaces, scopes, roles, permissions and groups of the root and v1 managers, registering an id returns the object already registered under it if there is one and otherwise the new one, which stays registered; lookups find exactly the registered ids, listings contain each exactly once, and all totals, summaries and their textual form give their exact numbers.",
 H,"every sequence of registrations with repeated ids, singly or in lists",
 "v1 tests register each id once; the root package has no tests.",
 ["permission.go","principal.go","namespace.go","scope.go","tenant.go","activity.go","activity_group.go","role_manager.go","v1/role_manager.go"],[("Add*/Get*/Total*/listing methods","root and v1 RoleManager"),("Summary / SummaryMap / String","role_manager.go, v1/role_manager.go")],
 [],["Add*, Get*, Total*, listings, Summary, SummaryMap, String"])
p("C21","Root queries and reports are exact",
 "Every root query by tenant, principal, namespace or scope returns exactly the stored records its name describes, each once: records of the given tenant holding a role, namespace or scope; and for a principal those that are its own or belong to everybody in the tenant, with the namespace and scope absent or as given. The scopes-with-roles report pairs each scope of the tenant (of the namespace if that has any) with the principal's roles in the tenant, or in one ancestor it manages it through when it has none there.",
 H,"every record store content and every query argument",
 "The root package has no tests at all.",
 ["query.go","filters.go","activity_group.go","role_manager.go"],[("Get* queries","query.go"),("filter functions","filters.go"),("GetScopesWithRolesForPrincipal","activity_group.go")],
 [("trie","all assignment records","role_manager.go")],["all Get* queries of RoleManager","GetTenantIDs, GetPrincipalIDs, GetRoleIDs, GetNamespaceIDs, GetScopeIDs"])
p("C22","Root manager and record store lose nothing under concurrent use",
 "Goroutines may register, configure, assign and query one root manager or record store at once: no call crashes, deadlocks or races; every completed registration, record, link and permission is visible to all later queries; concurrent registrations of one id all return the same object; a call that adds to a role being locked meanwhile is either refused or complete; and a query or decision overlapping additions answers with at least everything completed before it began and with nothing not begun before it ended.",
 ["schedules","histories"],"every schedule of concurrent additions and queries",
 "No test uses goroutines.",
 ["role_manager.go","role.go","trie/trie.go","tenant.go"],[("concurrent maps and GetOrSet","root package"),("Trie.mu","trie/trie.go")],
 [],["RoleManager methods, Role.AddPermission, Trie.Insert, Trie.Search"])
p("C23","v1 assignments are stored exactly and tenant operations assign as stated",
 "A v1 assignment is stored and reported with exactly the principal, role, tenant, namespace, scope and management flag it was made with, for all ids whatever characters they contain; each tenant operation creates exactly the assignments it stands for (role, also in the default namespace; namespace, with the roles the principal holds in other namespaces; scope, with each role it holds; scope of a namespace for everybody) and ignores ids the tenant does not have. Queries by tenant and principal return exactly the stored assignments.",
 H,"every sequence of tenant configuration and assignment operations with any ids, and every query",
 "Tests use a handful of plain ids and one order of operations.",
 ["v1/role_manager.go","v1/tenant.go"],[("RoleManager.AddPrincipalRole","v1/role_manager.go"),("Tenant.AddPrincipal / AddPrincipalInNamespace / AssignScopesToPrincipal / AssignScopesWithRole / AddScopesToNamespace","v1/tenant.go")],
 [("tenantPrincipals","all assignments","v1/role_manager.go")],["GetPrincipalRoles","GetTenantRoles","GetTenantsForPrincipal","GetScopesForPrincipal","GetTenantScopesForPrincipal","GetImplicitPrincipalRoles","GetPermissionsForPrincipal"])
p("C24","v1 membership decisions are exact",
 "In v1 a request without an activity or group is granted if and only if the principal is registered and: for a tenant alone, the tenant is registered and the principal has an assignment in it or a managing one in a registered tenant above it; for a namespace alone, a registered tenant of the principal has it; for a scope alone, a registered tenant of the principal has it and the principal holds it there; for tenant with namespace or scope, or namespace with scope, the principal has one assignment with exactly those; for all three, the same or the tenant itself has opened that scope in that namespace to its members and the principal is one. What is asked for may be given as text, bytes, or any value that formats to that text.",
 H,"every history and every combination of tenant, namespace and scope in the request",
 "Tests ask one tenant-only request and print another without checking it.",
 ["v1/role_manager.go"],[("RoleManager.Authorize and authorizeFor*","v1/role_manager.go")],
 [("tenantPrincipals","all assignments","v1/role_manager.go")],["RoleManager.Authorize"])
p("C25","v1 activity decisions are exact",
 "In v1 a request with an activity or group in a tenant is granted if and only if the principal and tenant are registered, the tenant has the named namespace and scope, and a role of the principal in that tenant, by an assignment whose namespace and scope are absent, not asked for, or as requested, has the permission itself or inherited; inheritance is limited to the roles the tenant allows for that namespace and scope whenever it allows any. An activity alone is checked, without group, with the tenant-wide roles of the principal in each of its tenants.",
 H,"every history of roles, inheritance, namespace roles and scopes and assignments, and every request",
 "No test asks for an activity.",
 ["v1/role_manager.go","v1/role.go"],[("authorizeComplex / authorizeForActivity","v1/role_manager.go"),("GetAllowedRoles / getAllowedRoleIDs","v1/role_manager.go"),("Role.Has","v1/role.go")],
 [],["RoleManager.Authorize","RoleManager.GetAllowedRoles"])
p("C26","Cyclic and deep hierarchies never hang or crash a decision",
 "Tenant hierarchies in all three engines and role hierarchies in the root and v1 engines may contain cycles, self-links, diamonds and long chains: every decision, inheritance question, descendant listing and report still terminates, each descendant is listed once and never the starting element, and the answer is the one for the set of reachable elements.",
 ["inputs","histories"],"every directed graph of tenants and of roles",
 "Tests build one two-level hierarchy without cycles.",
 ["v2/v2.go","role.go","tenant.go","v1/role.go","v1/tenant.go"],[("checkedTenants","v2/v2.go"),("seen sets","role.go, tenant.go, v1/role.go, v1/tenant.go")],
 [],["Authorize, Can, Has, GetDescendantRoles, GetDescendants, GetDescendantTenants, GetAllImplicitPermissions"])
p("C27","Persistent list and slice helpers are exact and do not alias",
 "A persistent list yields exactly the elements appended and concatenated to it in order, is empty exactly when it has none, and is never changed by later operations on it, on lists built from it, or on slices obtained from it. The helper that removes duplicates keeps the first of each value in order, the membership helper answers equality exactly, the join helper combines exactly the pairs its condition accepts, left-major in order, and the field filter accepts exactly the rows in which every listed field is present and equal to the filter's.",
 H,"every sequence of list operations with sharing between lists, and all inputs of the helpers",
 "There is no test for these packages.",
 ["ds/ds.go","utils/str.go","utils/filters.go"],[("Link implementations","ds/ds.go"),("Compact / Contains / JoinSlices / FilterByFields","utils")],
 [],["ds.Link methods","utils.Compact","utils.Contains","utils.JoinSlices","utils.FilterByFields"])
p("C28","Returned lists and maps are the caller's own snapshots",
 "A list or map returned by a query or report of any of the three engines or of the record store belongs to the caller: overwriting, extending or clearing it changes no later decision or answer, and later calls and changes never alter one that was returned before.",
 H,"every query, followed by writes to its result and further calls in any order",
 "Tests read results at once and never write to them or keep them.",
 ["v2/role.go","query.go","role.go","role_manager.go","trie/trie.go","v1/role.go","v1/role_manager.go"],[("results built per call","all query methods"),("no pooled or cached container escapes","v1/role_manager.go, v2/role.go")],
 [],["all methods returning slices or maps"])
p("C29","Separate engines never affect each other; idle v1 managers serve many readers",
 "Any number of v2 engines, root managers and v1 managers may be used side by side, each from its own goroutine: no call crashes or races, and every decision and answer is the one that engine would give if it were alone, even when the same ids are used everywhere. A v1 manager that nobody is changing may be asked by any number of goroutines at once, each getting the answer it would get alone.",
 H,"every set of histories of several engines, interleaved in any way",
 "Tests use one engine at a time from one goroutine.",
 ["v1/role_manager.go","v1/util.go","v2/v2.go","utils/pool.go"],[("pooled slices and maps, shared by all engines of the process","v1/util.go, v2/v2.go"),("no other package-level state","all packages")],
 [("stringSlice, principalRoleSlice, checkedTenantsPool","memory reused between calls of all engines","v1/util.go, v2/v2.go")],["all methods"])
p("C30","Set, text and pool helpers are exact",
 "The intersection of two lists holds, in the order of the second, exactly its items that equal one of the first; their union is the first followed by the items of the second that equal none of the first; items (texts, numbers, structs or maps of these) are equal when type and all contents are, whatever texts they contain, and the given lists stay as they are. The text of a value is itself for texts and bytes, empty for nil, what its String method gives if it has one and otherwise its usual formatting, and text turned into bytes and back is unchanged. A slice taken from a slice pool is empty and shares memory with no other taken at the time.",
 ["inputs","histories"],"every pair of lists of every item type, every value, every sequence of takes and returns",
 "There is no test for these helpers.",
 ["utils/str.go","utils/pool.go"],[("Intersection / Union / Serialize","utils/str.go"),("ToString / ToByte / FromByte","utils/str.go"),("SlicePool","utils/pool.go")],
 [],["utils.Intersection","utils.Union","utils.ToString","utils.ToByte","utils.FromByte","utils.SlicePool"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len(re.findall(r'[.](?:\s|$)',x['statement']))
    if n>3: print(x['id'],n)
