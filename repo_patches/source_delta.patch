From 8fb5678a1f6142bd69789beb376724a3010c92f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:53 +0000
Subject: [PATCH 01/35] fix: v2 RemovePrincipalRole kept the wrong assignments

Kept assignments were stored at their old index and the slice was then cut
to the number kept, so removing any but the last assignment left a nil entry
(the next decision panicked) and dropped a later, unrelated assignment.
---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 3533705..6957169 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -133,13 +133,13 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 		return true
 	}
 	j := 0
-	for i, ur := range a.userRoles {
+	for _, ur := range a.userRoles {
 		if matches(ur) {
 			rolesRemoved = true
 			continue
 		}
+		updatedRoles[j] = ur
 		j++
-		updatedRoles[i] = ur
 	}
 	updatedRoles = updatedRoles[:j]
 	if !rolesRemoved {
-- 
2.43.0


From 1258d862e97b8c9dad45fc78555c1af176ac610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:53 +0000
Subject: [PATCH 02/35] fix: v2 expired managing assignments still opened child
 tenants

An assignment past its expiry granted no permissions itself, but its
ManageChildTenant flag still pulled the roles of the child tenants into the
decision for the parent.
---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 6957169..d275b43 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -224,7 +224,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
@@ -280,7 +280,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
-- 
2.43.0


From d934f34f5acc8d78216ff717ab3a7a553e2124c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:53 +0000
Subject: [PATCH 03/35] fix: v2 SetExpiryDuration hid an unparsable duration

The parse error was dropped, so the caller was told the expiry had been set
while the assignment never expired.
---
 v2/v2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/v2.go b/v2/v2.go
index d275b43..18e42c3 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -43,7 +43,7 @@ func (pr *PrincipalRole) SetExpiryDuration(dur any) error {
 	case string:
 		duration, err = time.ParseDuration(dur)
 		if err != nil {
-			return nil
+			return err
 		}
 	case time.Duration:
 		duration = dur
-- 
2.43.0


From 53cc21944095b686b6d9f5104b4509d6289bef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:54 +0000
Subject: [PATCH 04/35] fix: v2 AddChildRole rejected acyclic role graphs as
 circular

Any role reached twice was reported as a cycle, so two children sharing a
descendant (a plain DAG) could not be added. Only reaching the parent again
is a cycle.
---
 v2/role.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 05b01ba..ed63a17 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -92,12 +92,15 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 }
 
 func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) error {
-	visited := map[string]bool{parent: true}
+	visited := make(map[string]bool)
 	var dfs func(string) bool
 	dfs = func(role string) bool {
-		if visited[role] {
+		if role == parent {
 			return true
 		}
+		if visited[role] {
+			return false
+		}
 		visited[role] = true
 		for _, child := range dag.edges[role] {
 			if dfs(child) {
-- 
2.43.0


From 1c9a451f2b51409180ed3a5f4cc4f0b7fa4c2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:18 +0000
Subject: [PATCH 05/35] fix: v2 role resolution answered from a stale, shared
 cache

The resolved set of a role was kept forever: permissions, child roles and
roles added or removed after the first decision had no effect, so a revoked
permission stayed granted. Permission sets and role-name sets also shared one
cache, so Can answered with permission names after Authorize, and Authorize
with role names after Can.
---
 v2/role.go | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index ed63a17..30e584d 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -59,17 +59,15 @@ func (t *Tenant) AddChildTenant(tenants ...*Tenant) {
 }
 
 type RoleDAG struct {
-	mu       sync.RWMutex
-	roles    map[string]*Role
-	edges    map[string][]string
-	resolved map[string]map[string]struct{}
+	mu    sync.RWMutex
+	roles map[string]*Role
+	edges map[string][]string
 }
 
 func NewRoleDAG() *RoleDAG {
 	return &RoleDAG{
-		roles:    make(map[string]*Role),
-		edges:    make(map[string][]string),
-		resolved: make(map[string]map[string]struct{}),
+		roles: make(map[string]*Role),
+		edges: make(map[string][]string),
 	}
 }
 
@@ -120,13 +118,7 @@ func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) e
 // ResolvePermissions to account for role expiry
 func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
-		dag.mu.RUnlock()
-		return permissions
-	}
-	dag.mu.RUnlock()
-	dag.mu.Lock()
-	defer dag.mu.Unlock()
+	defer dag.mu.RUnlock()
 	visited := make(map[string]bool)
 	queue := []string{roleName}
 	result := make(map[string]struct{})
@@ -146,20 +138,13 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		}
 		queue = append(queue, dag.edges[current]...)
 	}
-	dag.resolved[roleName] = result
 	return result
 }
 
 // ResolveChildRoles to account for role expiry
 func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
-		dag.mu.RUnlock()
-		return permissions
-	}
-	dag.mu.RUnlock()
-	dag.mu.Lock()
-	defer dag.mu.Unlock()
+	defer dag.mu.RUnlock()
 	visited := make(map[string]bool)
 	queue := []string{roleName}
 	result := make(map[string]struct{})
@@ -177,6 +162,5 @@ func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 		result[role.Name] = struct{}{}
 		queue = append(queue, dag.edges[current]...)
 	}
-	dag.resolved[roleName] = result
 	return result
 }
-- 
2.43.0


From b66a550a1ded816a110f43a38d561f903f1a0c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:19 +0000
Subject: [PATCH 06/35] fix: v2 decisions iterated permission sets already back
 in the pool

The resolved set was put back into the pool before the caller had read it, so
a concurrent decision could clear it or fill it with another principal's
permissions while this one was still matching against it.
---
 v2/v2.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 18e42c3..c95c0d3 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -169,9 +169,7 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 }
 
 var (
-	scopedPermissionsPool = utils.New(func() map[string]struct{} { return make(map[string]struct{}) })
-	globalPermissionsPool = utils.New(func() map[string]struct{} { return make(map[string]struct{}) })
-	checkedTenantsPool    = utils.New(func() map[string]bool { return make(map[string]bool) })
+	checkedTenantsPool = utils.New(func() map[string]bool { return make(map[string]bool) })
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
@@ -186,15 +184,11 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
 	}
-	globalPermissions := globalPermissionsPool.Get()
-	scopedPermissions := scopedPermissionsPool.Get()
+	globalPermissions := make(map[string]struct{})
+	scopedPermissions := make(map[string]struct{})
 	checkedTenants := checkedTenantsPool.Get()
-	clear(scopedPermissions)
-	clear(globalPermissions)
 	clear(checkedTenants)
 	defer func() {
-		scopedPermissionsPool.Put(scopedPermissions)
-		globalPermissionsPool.Put(globalPermissions)
 		checkedTenantsPool.Put(checkedTenants)
 	}()
 	var traverse func(current *Tenant) error
@@ -251,12 +245,10 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
 	}
-	scopedRoles := scopedPermissionsPool.Get()
+	scopedRoles := make(map[string]struct{})
 	checkedTenants := checkedTenantsPool.Get()
-	clear(scopedRoles)
 	clear(checkedTenants)
 	defer func() {
-		scopedPermissionsPool.Put(scopedRoles)
 		checkedTenantsPool.Put(checkedTenants)
 	}()
 	var traverse func(current *Tenant) error
-- 
2.43.0


From d010934430e5a22c9112aca381c09e4a9a2dbddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:51 +0000
Subject: [PATCH 07/35] fix: v2 decisions read shared state without the locks
 its writers take

Authorize, Can, GetRole and RemovePrincipalRole used the assignment list and
the tenant, role and namespace maps unlocked while the Add methods wrote them
under their mutexes, so a decision concurrent with a change could crash the
process (concurrent map access) or see a torn state.
---
 v2/init.go |  4 ++-
 v2/role.go | 13 +++++++++
 v2/v2.go   | 86 +++++++++++++++++++++++++++++-------------------------
 3 files changed, 62 insertions(+), 41 deletions(-)

diff --git a/v2/init.go b/v2/init.go
index 19fbe51..df7f1c0 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -10,6 +10,8 @@ func (a *Authorizer) AddRole(role *Role) *Role {
 }
 
 func (a *Authorizer) GetRole(val string) (*Role, bool) {
+	a.roleDAG.mu.RLock()
+	defer a.roleDAG.mu.RUnlock()
 	role, ok := a.roleDAG.roles[val]
 	return role, ok
 }
@@ -28,7 +30,7 @@ func (a *Authorizer) AddTenant(tenant *Tenant) *Tenant {
 	a.m.Lock()
 	defer a.m.Unlock()
 	a.tenants[tenant.ID] = tenant
-	for _, child := range tenant.ChildTenants {
+	for _, child := range tenant.children() {
 		a.parentCache[child.ID] = tenant
 	}
 	return tenant
diff --git a/v2/role.go b/v2/role.go
index 30e584d..07f3251 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -58,6 +58,17 @@ func (t *Tenant) AddChildTenant(tenants ...*Tenant) {
 	}
 }
 
+// children returns the child tenants as of now.
+func (t *Tenant) children() []*Tenant {
+	t.m.RLock()
+	defer t.m.RUnlock()
+	tenants := make([]*Tenant, 0, len(t.ChildTenants))
+	for _, tenant := range t.ChildTenants {
+		tenants = append(tenants, tenant)
+	}
+	return tenants
+}
+
 type RoleDAG struct {
 	mu    sync.RWMutex
 	roles map[string]*Role
@@ -133,9 +144,11 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		if !exists {
 			continue
 		}
+		role.m.RLock()
 		for perm := range role.Permissions {
 			result[perm] = struct{}{}
 		}
+		role.m.RUnlock()
 		queue = append(queue, dag.edges[current]...)
 	}
 	return result
diff --git a/v2/v2.go b/v2/v2.go
index c95c0d3..ee17366 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -96,6 +96,8 @@ func NewAuthorizer(auditLog ...*slog.Logger) *Authorizer {
 }
 
 func (a *Authorizer) SetDefaultTenant(tenant string) {
+	a.m.Lock()
+	defer a.m.Unlock()
 	a.defaultTenant = tenant
 }
 
@@ -112,6 +114,8 @@ func (a *Authorizer) AddPrincipalRole(userRole ...*PrincipalRole) {
 }
 
 func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
+	a.m.Lock()
+	defer a.m.Unlock()
 	updatedRoles := make([]*PrincipalRole, len(a.userRoles))
 	var rolesRemoved bool
 	matches := func(pr *PrincipalRole) bool {
@@ -173,8 +177,11 @@ var (
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
-	if a.defaultTenant != "" {
-		return a.GetTenant(a.defaultTenant)
+	a.m.RLock()
+	defaultTenant := a.defaultTenant
+	a.m.RUnlock()
+	if defaultTenant != "" {
+		return a.GetTenant(defaultTenant)
 	}
 	return nil, false
 }
@@ -219,7 +226,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -273,7 +280,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -345,30 +352,16 @@ func (a *Authorizer) findTargetTenants(request Request) ([]*Tenant, bool) {
 }
 
 func (a *Authorizer) Can(request Request, roles ...string) bool {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
 		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, valid := a.resolveNamespace(tenant, request)
+		if !valid {
 			continue
 		}
 		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace)
@@ -388,30 +381,16 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 }
 
 func (a *Authorizer) Authorize(request Request) bool {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
 		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, valid := a.resolveNamespace(tenant, request)
+		if !valid {
 			continue
 		}
 		permissions, err := a.resolvePrincipalPermissions(request.Principal, tenant.ID, namespace, request.Scope)
@@ -430,6 +409,33 @@ func (a *Authorizer) Authorize(request Request) bool {
 	return false
 }
 
+// resolveNamespace returns the namespace of the tenant the request addresses.
+func (a *Authorizer) resolveNamespace(tenant *Tenant, request Request) (string, bool) {
+	tenant.m.RLock()
+	defer tenant.m.RUnlock()
+	namespace := request.Namespace
+	if namespace == "" {
+		if tenant.DefaultNS != "" {
+			namespace = tenant.DefaultNS
+		} else if len(tenant.Namespaces) == 1 {
+			for ns := range tenant.Namespaces {
+				namespace = ns
+				break
+			}
+		} else {
+			return "", false
+		}
+	}
+	ns, exists := tenant.Namespaces[namespace]
+	if !exists {
+		return "", false
+	}
+	if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		return "", false
+	}
+	return namespace, true
+}
+
 func (a *Authorizer) isScopeValidForNamespace(ns *Namespace, scopeName string) bool {
 	_, exists := ns.Scopes[scopeName]
 	return exists
-- 
2.43.0


From e1966d14b96037583acf8ed8ae760701f13d7284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:13 +0000
Subject: [PATCH 08/35] fix: v2 tenants that are not active still granted
 requests naming them

A request without a tenant considers active tenants only, but one naming an
inactive, pending, blocked or banned tenant (or reaching it as the default or
as a managed child) was granted as if the tenant were active.
---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index ee17366..72370dd 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -200,7 +200,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	}()
 	var traverse func(current *Tenant) error
 	traverse = func(current *Tenant) error {
-		if checkedTenants[current.ID] {
+		if checkedTenants[current.ID] || current.Status != TenantStatusActive {
 			return nil
 		}
 		checkedTenants[current.ID] = true
@@ -260,7 +260,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 	}()
 	var traverse func(current *Tenant) error
 	traverse = func(current *Tenant) error {
-		if checkedTenants[current.ID] {
+		if checkedTenants[current.ID] || current.Status != TenantStatusActive {
 			return nil
 		}
 		checkedTenants[current.ID] = true
-- 
2.43.0


From 337de1ecb2448b30776e6d56f2bf3712533dcf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:53 +0000
Subject: [PATCH 09/35] fix: MatchResource hung on inner wildcards and ignored
 the action after a parameter

- A '*' anywhere but at the end ("/coding/* GET") looped forever once the
  character after it occurred in the value.
- A parameter at the end of the resource swallowed the rest of the pattern, so
  "user/:id create" matched "user/1 delete".
- A parameter could start by consuming a '/', so "/a/:id/b" matched "/a//x/b".
---
 utils/str.go | 83 ++++++++++++++++++++++------------------------------
 1 file changed, 35 insertions(+), 48 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index fc3aced..af1035e 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -30,61 +30,48 @@ func ToInt64(s string) uint64 {
 	return ft.Sum64()
 }
 
+// MatchResource reports whether value matches pattern. In a pattern, '*' stands
+// for any run of characters, and ':' with the name after it, which ends before
+// the next '/' or ' ', for a parameter: one or more characters other than '/'.
+// Every other character stands for itself.
 func MatchResource(value, pattern string) bool {
-	vIndex, pIndex := 0, 0
-	vLen, pLen := len(value), len(pattern)
-
-	for pIndex < pLen {
-		if pattern[pIndex] == '*' {
-			// If '*' is the last character in the pattern, it matches everything
-			if pIndex == pLen-1 {
-				return true
+	// Match the part before the first '*' or ':' directly
+	for len(pattern) > 0 && pattern[0] != '*' && pattern[0] != ':' {
+		if len(value) == 0 || value[0] != pattern[0] {
+			return false
+		}
+		value, pattern = value[1:], pattern[1:]
+	}
+	if len(pattern) == 0 || pattern == "*" {
+		return len(pattern) > 0 || len(value) == 0
+	}
+	// reach[i] tells whether the part of pattern read so far matches value[:i]
+	reach := make([]bool, len(value)+1)
+	reach[0] = true
+	for pIndex := 0; pIndex < len(pattern); pIndex++ {
+		switch pattern[pIndex] {
+		case '*':
+			for i := 1; i < len(reach); i++ {
+				reach[i] = reach[i] || reach[i-1]
 			}
-
-			// Find the next character in pattern after '*'
-			nextChar := pattern[pIndex+1]
-
-			// If the next character is '*', skip it
-			if nextChar == '*' {
-				pIndex++
-				continue
+		case ':':
+			before := reach[0]
+			reach[0] = false
+			for i := 1; i < len(reach); i++ {
+				before, reach[i] = reach[i], value[i-1] != '/' && (before || reach[i-1])
 			}
-
-			// Find the next occurrence of the character after '*' in the value
-			nextIndex := strings.IndexByte(value[vIndex:], nextChar)
-
-			// If the character is not found, no match
-			if nextIndex == -1 {
-				return false
+			// Skip the name of the parameter
+			for pIndex+1 < len(pattern) && pattern[pIndex+1] != '/' && pattern[pIndex+1] != ' ' {
+				pIndex++
 			}
-
-			// Move the value index to the next occurrence of the character
-			vIndex += nextIndex
-		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
-			// If pattern part matches value part or is a parameter, move to the next parts
-			vIndex++
-			pIndex++
-			// If pattern part is a parameter, skip it in the value
-			if pattern[pIndex-1] == ':' {
-				// Find the end of the parameter segment
-				endIndex := pIndex
-				for endIndex < pLen && pattern[endIndex] != '/' {
-					endIndex++
-				}
-				// Skip the parameter segment in the value
-				for vIndex < vLen && value[vIndex] != '/' {
-					vIndex++
-				}
-				// Move pattern index to the end of the parameter segment
-				pIndex = endIndex
+		default:
+			for i := len(value); i > 0; i-- {
+				reach[i] = reach[i-1] && value[i-1] == pattern[pIndex]
 			}
-		} else {
-			return false
+			reach[0] = false
 		}
 	}
-
-	// If both value and pattern are exhausted, return true
-	return vIndex == vLen && pIndex == pLen
+	return reach[len(value)]
 }
 
 // ToByte converts a string to a byte slice without memory allocation.
-- 
2.43.0


From 61e28bfd5f5473395b309e44ce394b053b98ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:54 +0000
Subject: [PATCH 10/35] fix: trie records with equal values in different fields
 overwrote each other

Absent fields were left out of the path of a record, so (tenant, namespace "x")
and (tenant, role "x") were stored in the same place and the first was lost.
---
 trie/trie.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 6cbe2aa..fd67b62 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -10,6 +10,9 @@ type SearchFunc[T DataProps] func(filter *T, row *T) bool
 
 type KeyExtractor[T DataProps] func(data *T) []any
 
+// absent is the key of a field the record does not hold.
+type absent struct{}
+
 type Node[T DataProps] struct {
 	child maps.IMap[any, *Node[T]]
 	isEnd bool
@@ -69,7 +72,9 @@ func (t *Trie[T]) Insert(data *T) {
 
 	for _, key := range keys {
 		if key == nil {
-			continue
+			// Absent fields take part in the path, or records holding the
+			// same value in different fields would overwrite each other
+			key = absent{}
 		}
 		child, _ := node.addChild(key)
 		node = child
-- 
2.43.0


From fab56de57457e14c16b1cfbb888283c327f0752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:55 +0000
Subject: [PATCH 11/35] fix: concurrent trie inserts lost records

Two inserts sharing a new path element could each create the node for it, and
the records under one of them were lost; a search could read a half-written
record.
---
 trie/trie.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trie/trie.go b/trie/trie.go
index fd67b62..61f60c1 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1,6 +1,8 @@
 package trie
 
 import (
+	"sync"
+
 	maps "github.com/oarkflow/xsync"
 )
 
@@ -47,6 +49,7 @@ type Trie[T DataProps] struct {
 	root         *Node[T]
 	match        SearchFunc[T]
 	keyExtractor KeyExtractor[T]
+	mu           sync.RWMutex
 }
 
 func New[T DataProps](match SearchFunc[T], keyExtractor KeyExtractor[T]) *Trie[T] {
@@ -69,6 +72,8 @@ func (t *Trie[T]) Insert(data *T) {
 	if keys == nil {
 		panic("keyExtractor returned nil keys")
 	}
+	t.mu.Lock()
+	defer t.mu.Unlock()
 
 	for _, key := range keys {
 		if key == nil {
@@ -109,6 +114,8 @@ func (t *Trie[T]) SearchFunc(filter *T, callback SearchFunc[T]) []*T {
 }
 
 func (t *Trie[T]) search(filter *T, callback SearchFunc[T], stopAfterFirst ...bool) []*T {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
 	results := make([]*T, 0, 10)
 	stop := len(stopAfterFirst) > 0 && stopAfterFirst[0]
 	var dfs func(node *Node[T]) bool
-- 
2.43.0


From 4fc6ee4956297a81a40a44f2a1e1e75b1689d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:17 +0000
Subject: [PATCH 12/35] fix: root decisions were made from stale tenant caches

The tenants of a principal and the descendants of a tenant were cached at the
first decision and never again: a principal asked about before it was assigned
stayed denied for good, and tenants attached later were never seen.
---
 query.go        |  5 -----
 role_manager.go | 11 +----------
 2 files changed, 1 insertion(+), 15 deletions(-)

diff --git a/query.go b/query.go
index 7f6b636..0c4b459 100644
--- a/query.go
+++ b/query.go
@@ -37,10 +37,6 @@ func (u *RoleManager) GetDescendantTenant(desc any) []any {
 }
 
 func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{} {
-	principalTenant, exists := u.principalCache.Get(principalID)
-	if exists {
-		return principalTenant
-	}
 	tenantPrincipal := u.search(Data{Principal: principalID}, filterTenantsByPrincipal)
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
@@ -57,7 +53,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 			}
 		}
 	}
-	u.principalCache.Set(principalID, existingTenant)
 	return existingTenant
 }
 
diff --git a/role_manager.go b/role_manager.go
index 9c7353d..436627b 100644
--- a/role_manager.go
+++ b/role_manager.go
@@ -18,8 +18,6 @@ type RoleManager struct {
 	attributes      maps.IMap[string, *Attribute]
 	attributeGroups maps.IMap[string, *AttributeGroup]
 	trie            *trie.Trie[Data]
-	hierarchy       maps.IMap[string, []any]
-	principalCache  maps.IMap[string, map[string]struct{}]
 }
 
 func New() *RoleManager {
@@ -32,8 +30,6 @@ func New() *RoleManager {
 		attributes:      maps.NewMap[string, *Attribute](),
 		attributeGroups: maps.NewMap[string, *AttributeGroup](),
 		trie:            trie.New[Data](FilterFunc, DataKeyExtractor),
-		hierarchy:       maps.NewMap[string, []any](),
-		principalCache:  maps.NewMap[string, map[string]struct{}](),
 	}
 }
 
@@ -122,16 +118,11 @@ func (u *RoleManager) TotalScopes() int {
 }
 
 func (u *RoleManager) TenantChildren(t string) []any {
-	if hierarchy, exists := u.hierarchy.Get(t); exists {
-		return hierarchy
-	}
 	tenant, exists := u.GetTenant(t)
 	if !exists {
 		return nil
 	}
-	hierarchy := tenant.GetDescendants()
-	u.hierarchy.Set(t, utils.Compact(hierarchy))
-	return hierarchy
+	return utils.Compact(tenant.GetDescendants())
 }
 
 func (u *RoleManager) TotalTenants() int {
-- 
2.43.0


From 18cedd1b5841d9bdc545e6b07af5387cb96e716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:17 +0000
Subject: [PATCH 13/35] fix: root managed tenants depended on the order of
 assignments

Only the first record found for a tenant decided whether the principal manages
its descendants, so with a managing and a non-managing assignment in the same
tenant the answer varied from run to run.
---
 query.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/query.go b/query.go
index 0c4b459..1ddae40 100644
--- a/query.go
+++ b/query.go
@@ -41,9 +41,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
 		tenantID := rs.Tenant.(string)
-		if _, alreadyProcessed := existingTenant[tenantID]; alreadyProcessed {
-			continue
-		}
 		existingTenant[tenantID] = struct{}{}
 		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {
 			for _, desc := range u.TenantChildren(tenantID) {
-- 
2.43.0


From 3b3cc417c2e45748e3e57a01e16aacdfeede6338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:17 +0000
Subject: [PATCH 14/35] fix: root GetRolesByTenant never returned a role

The filter compared the role of every record with the absent role of the query,
so tenant-wide activity checks were always denied and inherited permissions were
not limited to the roles of the tenant.
---
 filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters.go b/filters.go
index 3b79b4d..2809bb1 100644
--- a/filters.go
+++ b/filters.go
@@ -62,7 +62,7 @@ func filterScopeByPrincipal(filter *Data, row *Data) bool {
 }
 
 func filterRoleByTenant(filter *Data, row *Data) bool {
-	return MatchTenant(row, filter) && MatchRole(row, filter)
+	return MatchTenant(row, filter) && !utils.IsNil(row.Role)
 }
 
 func filterNamespaceByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From f44a48ab53181e90a0d12cc3ab0b4569a14a8687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:17 +0000
Subject: [PATCH 15/35] fix: root activity checks used roles of other
 principals and tenants

The role filters accepted any record of the same namespace (or scope), so a
principal was granted activities through a role another principal holds in that
namespace, or through its own role in the same namespace of another tenant.
---
 filters.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/filters.go b/filters.go
index 2809bb1..c50973d 100644
--- a/filters.go
+++ b/filters.go
@@ -108,24 +108,25 @@ func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bo
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchNamespace(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchScope(row, filter) && MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) &&
+		(utils.IsNil(row.Scope) || MatchScope(row, filter))
 }
 
 func filterRoleForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		MatchNamespace(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter))
 }
 
 func filterRoleForPrincipalByTenantAndScope(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) || MatchScope(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Scope) || MatchScope(row, filter))
 }
 
 func filterNamespaceForPrincipalByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From d48cfb16dcb29a3f878c5d44f9fe098766a63c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:44 +0000
Subject: [PATCH 16/35] fix: root requests about one tenant were answered from
 unrelated tenants

A request denied in the tenant it names was retried in every other tenant of
the principal, so any member of any tenant was granted access to all of them,
with the roles it holds elsewhere. Only tenants through which the principal
manages the named one may answer for it, and the principal must belong to or
manage that tenant.
---
 activity_group.go |  2 +-
 authorize.go      | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/activity_group.go b/activity_group.go
index 590872b..cf1db67 100644
--- a/activity_group.go
+++ b/activity_group.go
@@ -43,7 +43,7 @@ func (u *RoleManager) GetScopesWithRolesForPrincipal(principalID, tenantID, name
 	tenantPrincipals := u.search(data, filterPrincipalByTenant)
 	if len(tenantPrincipals) == 0 {
 		for tenant := range u.GetImplicitTenants(principalID.(string)) {
-			if tenant == tenantID {
+			if tenant == tenantID || !u.managesDescendant(principalID, tenant, tenantID) {
 				continue
 			}
 			data.Tenant = tenant
diff --git a/authorize.go b/authorize.go
index 9b79c4e..8e6841c 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,6 +22,12 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
+	requested := svr.tenant
+	if requested != nil {
+		if _, ok := userRoles[requested.(string)]; !ok {
+			return false
+		}
+	}
 	noActivity := !(svr.activityGroup != nil && svr.activity != nil)
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
@@ -32,7 +38,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 		return true
 	}
 	for tenant := range userRoles {
-		if svr.tenant == tenant && svr.tenant != nil {
+		if requested == nil || !u.managesDescendant(principalID, tenant, requested) {
 			continue
 		}
 		svr.tenant = tenant
@@ -43,6 +49,14 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	return false
 }
 
+// managesDescendant tells whether the principal manages the given descendant through the tenant
+func (u *RoleManager) managesDescendant(principalID, tenant, descendant any) bool {
+	if !utils.Contains(u.TenantChildren(utils.ToString(tenant)), descendant) {
+		return false
+	}
+	return len(u.search(Data{Principal: principalID, Tenant: tenant, ManageDescendants: true}, FilterFunc)) > 0
+}
+
 func (u *RoleManager) authorize(noActivity bool, principalID string, svr *Option, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided bool) bool {
 	if noActivity {
 		return u.checkNoActivity(principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided)
-- 
2.43.0


From 800f7ba664b90a33ea1fb2fe345101c096f1008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:35 +0000
Subject: [PATCH 17/35] fix: cyclic role and tenant hierarchies crashed root
 and v1 decisions

Nothing stops roles or tenants from being made descendants of each other, and
the recursive walks then overflowed the stack, which ends the process. Walks now
visit each role or tenant once, which also ends the repeated entries in
GetAllImplicitPermissions and GetRolesForAvailablePermissions for roles reached
along several paths.
---
 role.go      | 77 ++++++++++++++++++++++++++++++----------------------
 tenant.go    | 18 ++++++++----
 v1/role.go   | 77 ++++++++++++++++++++++++++++++----------------------
 v1/tenant.go | 18 ++++++++----
 4 files changed, 114 insertions(+), 76 deletions(-)

diff --git a/role.go b/role.go
index 7f3f8f2..ca2ebbd 100644
--- a/role.go
+++ b/role.go
@@ -55,6 +55,27 @@ func (r *Role) Unlock() {
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
+	if r.hasOwn(resourceGroup, permissionName) {
+		return true
+	}
+	if _, ok := r.permissions.Get(resourceGroup); !ok {
+		return false
+	}
+	totalD := len(allowedDescendants)
+	// Check inherited permissions
+	for _, descendant := range r.GetDescendantRoles() {
+		if totalD > 0 && !slices.Contains(allowedDescendants, descendant.id) {
+			continue
+		}
+		if descendant.hasOwn(resourceGroup, permissionName) {
+			return true
+		}
+	}
+	return false
+}
+
+// hasOwn tells whether the role itself, leaving out its descendants, holds the permission
+func (r *Role) hasOwn(resourceGroup, permissionName string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
 	if !ok || resourceGroupPermissions == nil {
 		return false
@@ -70,34 +91,24 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 		}
 		return true
 	})
-	if matched {
-		return true
-	}
-	totalD := len(allowedDescendants)
-	// Check inherited permissions recursively
-	for _, descendant := range r.GetDescendantRoles() {
-		if totalD > 0 {
-			if slices.Contains(allowedDescendants, descendant.id) {
-				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-					return true
-				}
-			}
-		} else {
-			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-				return true
-			}
-		}
-	}
-	return false
+	return matched
 }
 
 func (r *Role) GetDescendantRoles() []*Role {
 	var descendants []*Role
-	r.descendants.ForEach(func(_ string, child *Role) bool {
-		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantRoles()...)
-		return true
-	})
+	seen := map[*Role]struct{}{r: {}}
+	var collect func(role *Role)
+	collect = func(role *Role) {
+		role.descendants.ForEach(func(_ string, child *Role) bool {
+			if _, ok := seen[child]; !ok {
+				seen[child] = struct{}{}
+				descendants = append(descendants, child)
+				collect(child)
+			}
+			return true
+		})
+	}
+	collect(r)
 	return descendants
 }
 
@@ -163,17 +174,17 @@ func (r *Role) GetAllImplicitPermissions(perm ...map[string][]Attribute) map[str
 	} else {
 		grpPermissions = make(map[string][]Attribute)
 	}
-	r.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
-		var permissions []Attribute
-		grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
-			permissions = append(permissions, *attr)
+	for _, role := range append([]*Role{r}, r.GetDescendantRoles()...) {
+		role.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
+			grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], []Attribute{}...)
+			grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
+				if !slices.Contains(grpPermissions[resourceGroup], *attr) {
+					grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], *attr)
+				}
+				return true
+			})
 			return true
 		})
-		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
-		return true
-	})
-	for _, descendant := range r.GetDescendantRoles() {
-		descendant.GetAllImplicitPermissions(grpPermissions)
 	}
 	return grpPermissions
 }
diff --git a/tenant.go b/tenant.go
index 6ff7ad6..53374b3 100644
--- a/tenant.go
+++ b/tenant.go
@@ -29,11 +29,19 @@ func (c *Tenant) AddNamespace(n *Namespace) *Namespace {
 }
 
 func (c *Tenant) GetDescendants() (data []any) {
-	c.descendants.ForEach(func(id string, t *Tenant) bool {
-		data = append(data, id)
-		data = append(data, t.GetDescendants()...)
-		return true
-	})
+	seen := map[*Tenant]struct{}{c: {}}
+	var collect func(tenant *Tenant)
+	collect = func(tenant *Tenant) {
+		tenant.descendants.ForEach(func(id string, t *Tenant) bool {
+			if _, ok := seen[t]; !ok {
+				seen[t] = struct{}{}
+				data = append(data, id)
+				collect(t)
+			}
+			return true
+		})
+	}
+	collect(c)
 	return
 }
 
diff --git a/v1/role.go b/v1/role.go
index b4ab22a..f7bbee0 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -54,6 +54,27 @@ func (r *Role) Unlock() {
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
+	if r.hasOwn(resourceGroup, permissionName) {
+		return true
+	}
+	if _, ok := r.permissions.Get(resourceGroup); !ok {
+		return false
+	}
+	totalD := len(allowedDescendants)
+	// Check inherited permissions
+	for _, descendant := range r.GetDescendantRoles() {
+		if totalD > 0 && !slices.Contains(allowedDescendants, descendant.id) {
+			continue
+		}
+		if descendant.hasOwn(resourceGroup, permissionName) {
+			return true
+		}
+	}
+	return false
+}
+
+// hasOwn tells whether the role itself, leaving out its descendants, holds the permission
+func (r *Role) hasOwn(resourceGroup, permissionName string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
 	if !ok || resourceGroupPermissions == nil {
 		return false
@@ -69,34 +90,24 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 		}
 		return true
 	})
-	if matched {
-		return true
-	}
-	totalD := len(allowedDescendants)
-	// Check inherited permissions recursively
-	for _, descendant := range r.GetDescendantRoles() {
-		if totalD > 0 {
-			if slices.Contains(allowedDescendants, descendant.id) {
-				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-					return true
-				}
-			}
-		} else {
-			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-				return true
-			}
-		}
-	}
-	return false
+	return matched
 }
 
 func (r *Role) GetDescendantRoles() []*Role {
 	var descendants []*Role
-	r.descendants.ForEach(func(_ string, child *Role) bool {
-		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantRoles()...)
-		return true
-	})
+	seen := map[*Role]struct{}{r: {}}
+	var collect func(role *Role)
+	collect = func(role *Role) {
+		role.descendants.ForEach(func(_ string, child *Role) bool {
+			if _, ok := seen[child]; !ok {
+				seen[child] = struct{}{}
+				descendants = append(descendants, child)
+				collect(child)
+			}
+			return true
+		})
+	}
+	collect(r)
 	return descendants
 }
 
@@ -162,17 +173,17 @@ func (r *Role) GetAllImplicitPermissions(perm ...map[string][]Attribute) map[str
 	} else {
 		grpPermissions = make(map[string][]Attribute)
 	}
-	r.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
-		var permissions []Attribute
-		grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
-			permissions = append(permissions, *attr)
+	for _, role := range append([]*Role{r}, r.GetDescendantRoles()...) {
+		role.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
+			grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], []Attribute{}...)
+			grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
+				if !slices.Contains(grpPermissions[resourceGroup], *attr) {
+					grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], *attr)
+				}
+				return true
+			})
 			return true
 		})
-		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
-		return true
-	})
-	for _, descendant := range r.GetDescendantRoles() {
-		descendant.GetAllImplicitPermissions(grpPermissions)
 	}
 	return grpPermissions
 }
diff --git a/v1/tenant.go b/v1/tenant.go
index 56e345d..6966cf6 100644
--- a/v1/tenant.go
+++ b/v1/tenant.go
@@ -20,11 +20,19 @@ func (c *Tenant) ID() string {
 
 func (c *Tenant) GetDescendantTenants() []*Tenant {
 	var descendants []*Tenant
-	c.descendants.ForEach(func(_ string, child *Tenant) bool {
-		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantTenants()...)
-		return true
-	})
+	seen := map[*Tenant]struct{}{c: {}}
+	var collect func(tenant *Tenant)
+	collect = func(tenant *Tenant) {
+		tenant.descendants.ForEach(func(_ string, child *Tenant) bool {
+			if _, ok := seen[child]; !ok {
+				seen[child] = struct{}{}
+				descendants = append(descendants, child)
+				collect(child)
+			}
+			return true
+		})
+	}
+	collect(c)
 	return descendants
 }
 
-- 
2.43.0


From 1c4dda2a613c8274921227c0f0a8dd83273e3643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:35 +0000
Subject: [PATCH 18/35] fix: root and v1 roles did not inherit in groups they
 have no permission of their own in

Has looked at the descendants only if the role itself had some permission in the
group, so an admin role with "page" permissions did not inherit the "backend"
permissions of its descendants, although GetAllImplicitPermissions and
GetRolesForAvailablePermissions list them as its own.
---
 role.go    | 3 ---
 v1/role.go | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/role.go b/role.go
index ca2ebbd..357dd3f 100644
--- a/role.go
+++ b/role.go
@@ -58,9 +58,6 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 	if r.hasOwn(resourceGroup, permissionName) {
 		return true
 	}
-	if _, ok := r.permissions.Get(resourceGroup); !ok {
-		return false
-	}
 	totalD := len(allowedDescendants)
 	// Check inherited permissions
 	for _, descendant := range r.GetDescendantRoles() {
diff --git a/v1/role.go b/v1/role.go
index f7bbee0..7073db6 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -57,9 +57,6 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 	if r.hasOwn(resourceGroup, permissionName) {
 		return true
 	}
-	if _, ok := r.permissions.Get(resourceGroup); !ok {
-		return false
-	}
 	totalD := len(allowedDescendants)
 	// Check inherited permissions
 	for _, descendant := range r.GetDescendantRoles() {
-- 
2.43.0


From 6a800ac17498921d44ab4eab5fbbb9d7c2a30987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:36 +0000
Subject: [PATCH 19/35] fix: root and v1 roles given the same resource group
 shared its permissions

AddPermissionResourceGroup stored the group itself in the role: a permission
added to one role reached every role given the group, locked ones included.
---
 role.go    | 9 ++++++++-
 v1/role.go | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/role.go b/role.go
index 357dd3f..b504ea0 100644
--- a/role.go
+++ b/role.go
@@ -149,7 +149,14 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
+		// The role gets its own copy, or permissions added to it later would
+		// also be given to every other role the group was added to
+		own := NewAttributeGroup(resourceGroup.id)
+		resourceGroup.permissions.ForEach(func(perm string, attr *Attribute) bool {
+			own.permissions.Set(perm, attr)
+			return true
+		})
+		r.permissions.Set(resourceGroup.id, own)
 	}
 	return nil
 }
diff --git a/v1/role.go b/v1/role.go
index 7073db6..21383a4 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -148,7 +148,14 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
+		// The role gets its own copy, or permissions added to it later would
+		// also be given to every other role the group was added to
+		own := NewAttributeGroup(resourceGroup.id)
+		resourceGroup.permissions.ForEach(func(perm string, attr *Attribute) bool {
+			own.permissions.Set(perm, attr)
+			return true
+		})
+		r.permissions.Set(resourceGroup.id, own)
 	}
 	return nil
 }
-- 
2.43.0


From d5adc5c416a02d5e1ce3d2b8ecc6f445c5ef3db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 20/35] fix: concurrent registrations in the root manager lost
 objects

Looking a name up and storing it were two steps, so two goroutines registering
the same name could both be handed their own object while only one was kept;
permissions added concurrently to a new group of a role were lost the same way.
---
 activity.go       | 7 ++-----
 activity_group.go | 7 ++-----
 namespace.go      | 7 ++-----
 permission.go     | 7 ++-----
 principal.go      | 7 ++-----
 role.go           | 5 ++---
 scope.go          | 7 ++-----
 tenant.go         | 7 ++-----
 8 files changed, 16 insertions(+), 38 deletions(-)

diff --git a/activity.go b/activity.go
index 4766802..08d25b9 100644
--- a/activity.go
+++ b/activity.go
@@ -7,11 +7,8 @@ func WithActivity(activity any) func(*Option) {
 }
 
 func (u *RoleManager) AddAttribute(attr *Attribute) *Attribute {
-	if d, ok := u.attributes.Get(attr.String()); ok {
-		return d
-	}
-	u.attributes.Set(attr.String(), attr)
-	return attr
+	d, _ := u.attributes.GetOrSet(attr.String(), attr)
+	return d
 }
 
 func (u *RoleManager) AddAttributes(attrs ...*Attribute) {
diff --git a/activity_group.go b/activity_group.go
index cf1db67..8b2ebca 100644
--- a/activity_group.go
+++ b/activity_group.go
@@ -11,11 +11,8 @@ func WithAttributeGroup(activityGroup any) func(*Option) {
 }
 
 func (u *RoleManager) AddAttributeGroup(attr *AttributeGroup) *AttributeGroup {
-	if d, ok := u.attributeGroups.Get(attr.id); ok {
-		return d
-	}
-	u.attributeGroups.Set(attr.id, attr)
-	return attr
+	d, _ := u.attributeGroups.GetOrSet(attr.id, attr)
+	return d
 }
 
 func (u *RoleManager) AddAttributeGroups(attrs ...*AttributeGroup) {
diff --git a/namespace.go b/namespace.go
index eebc1e5..3dad58d 100644
--- a/namespace.go
+++ b/namespace.go
@@ -15,11 +15,8 @@ func (n *Namespace) ID() string {
 }
 
 func (u *RoleManager) AddNamespace(data *Namespace) *Namespace {
-	if d, ok := u.namespaces.Get(data.id); ok {
-		return d
-	}
-	u.namespaces.Set(data.id, data)
-	return data
+	d, _ := u.namespaces.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddNamespaces(nms ...*Namespace) {
diff --git a/permission.go b/permission.go
index 10c70dd..e1e60eb 100644
--- a/permission.go
+++ b/permission.go
@@ -56,11 +56,8 @@ func NewPrincipal(id string) *Principal {
 }
 
 func (u *RoleManager) AddRole(role *Role) *Role {
-	if r, exists := u.roles.Get(role.id); exists {
-		return r
-	}
-	u.roles.Set(role.id, role)
-	return role
+	r, _ := u.roles.GetOrSet(role.id, role)
+	return r
 }
 
 func (u *RoleManager) AddRoles(roles ...*Role) {
diff --git a/principal.go b/principal.go
index e92ef05..ac08df0 100644
--- a/principal.go
+++ b/principal.go
@@ -10,11 +10,8 @@ func (p *Principal) ID() string {
 }
 
 func (u *RoleManager) AddPrincipal(data *Principal) *Principal {
-	if d, ok := u.principals.Get(data.id); ok {
-		return d
-	}
-	u.principals.Set(data.id, data)
-	return data
+	d, _ := u.principals.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddPrincipals(principals ...*Principal) {
diff --git a/role.go b/role.go
index b504ea0..4984df1 100644
--- a/role.go
+++ b/role.go
@@ -129,10 +129,10 @@ func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) er
 	}
 	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
 	if !exists || resourceGroupAttributes == nil {
-		resourceGroupAttributes = &AttributeGroup{
+		resourceGroupAttributes, _ = r.permissions.GetOrSet(resourceGroup, &AttributeGroup{
 			id:          resourceGroup,
 			permissions: maps.NewMap[string, *Attribute](),
-		}
+		})
 	}
 	perm := resourceGroupAttributes.permissions
 	for _, permission := range permissions {
@@ -140,7 +140,6 @@ func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) er
 			perm.Set(permission.String(), permission)
 		}
 	}
-	r.permissions.Set(resourceGroup, resourceGroupAttributes)
 	return nil
 }
 
diff --git a/scope.go b/scope.go
index 2072bc4..969a0d7 100644
--- a/scope.go
+++ b/scope.go
@@ -15,11 +15,8 @@ func (s *Scope) ID() string {
 }
 
 func (u *RoleManager) AddScope(data *Scope) *Scope {
-	if d, ok := u.scopes.Get(data.id); ok {
-		return d
-	}
-	u.scopes.Set(data.id, data)
-	return data
+	d, _ := u.scopes.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddScopes(scopes ...*Scope) {
diff --git a/tenant.go b/tenant.go
index 53374b3..c582f30 100644
--- a/tenant.go
+++ b/tenant.go
@@ -150,11 +150,8 @@ func (c *Tenant) AssignScopesToPrincipal(principalID string, manageDescendants b
 
 func (u *RoleManager) AddTenant(data *Tenant) *Tenant {
 	data.manager = u
-	if d, ok := u.tenants.Get(data.id); ok {
-		return d
-	}
-	u.tenants.Set(data.id, data)
-	return data
+	d, _ := u.tenants.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddTenants(tenants ...*Tenant) {
-- 
2.43.0


From 75c07a001f658d48763eb9cb955aea657b45a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:09 +0000
Subject: [PATCH 21/35] fix: v1 identifiers containing '_' changed the meaning
 of assignments

Assignments were stored as one string joined with '_' and split again on every
read: principal "alice_admin" with role "viewer" was read back as principal
"alice" with role "admin" in tenant "viewer". They are stored as records now.
---
 v1/role_manager.go | 74 ++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 46 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 3a9a260..e6fb33a 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"slices"
-	"strings"
 
 	"github.com/oarkflow/maps"
 
@@ -38,7 +37,7 @@ type RoleManager struct {
 	roles            maps.IMap[string, *Role]
 	attributes       maps.IMap[string, *Attribute]
 	attributeGroups  maps.IMap[string, *AttributeGroup]
-	tenantPrincipals map[string]struct{}
+	tenantPrincipals map[TenantPrincipal]struct{}
 }
 
 func New() *RoleManager {
@@ -50,7 +49,7 @@ func New() *RoleManager {
 		roles:            maps.New[string, *Role](),
 		attributes:       maps.New[string, *Attribute](),
 		attributeGroups:  maps.New[string, *AttributeGroup](),
-		tenantPrincipals: make(map[string]struct{}),
+		tenantPrincipals: make(map[TenantPrincipal]struct{}),
 	}
 }
 
@@ -271,28 +270,19 @@ func getScopeID(n *Scope) string {
 	return n.ID()
 }
 
-func getTenantPrincipals(hash string) TenantPrincipal {
-	parts := strings.Split(hash, "_")
-	m := false
-	if parts[5] == "true" {
-		m = true
-	}
-	return TenantPrincipal{
-		TenantID:             parts[2],
-		PrincipalID:          parts[0],
-		RoleID:               parts[1],
-		NamespaceID:          parts[3],
-		ScopeID:              parts[4],
-		CanManageDescendants: m,
-	}
-}
-
 func (u *RoleManager) AddPrincipalRole(principalID string, roleID string, tenant *Tenant, namespace *Namespace, scope *Scope, canManageDescendants ...bool) {
 	manageDescendants := true
 	if len(canManageDescendants) > 0 {
 		manageDescendants = canManageDescendants[0]
 	}
-	h := fmt.Sprintf("%s_%s_%s_%s_%s_%v", principalID, roleID, tenant.ID(), getNamespaceID(namespace), getScopeID(scope), manageDescendants)
+	h := TenantPrincipal{
+		TenantID:             tenant.ID(),
+		PrincipalID:          principalID,
+		RoleID:               roleID,
+		NamespaceID:          getNamespaceID(namespace),
+		ScopeID:              getScopeID(scope),
+		CanManageDescendants: manageDescendants,
+	}
 	if _, exists := u.tenantPrincipals[h]; !exists {
 		u.tenantPrincipals[h] = struct{}{}
 	}
@@ -300,9 +290,8 @@ func (u *RoleManager) AddPrincipalRole(principalID string, roleID string, tenant
 
 func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []string, err error) {
 	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.PrincipalID == principalID {
-			tenants = append(tenants, unmarshalled.TenantID)
+		if tenantPrincipal.PrincipalID == principalID {
+			tenants = append(tenants, tenantPrincipal.TenantID)
 		}
 	}
 	tenants = slices.Compact(tenants)
@@ -316,9 +305,8 @@ type PrincipalPermissions struct {
 
 func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []TenantPrincipal) {
 	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
-			data = append(data, unmarshalled)
+		if tenantPrincipal.PrincipalID == principalID && tenantPrincipal.TenantID == tenant {
+			data = append(data, tenantPrincipal)
 		}
 	}
 	return
@@ -326,9 +314,8 @@ func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []Tena
 
 func (u *RoleManager) GetTenantRoles(tenant string) (data []TenantPrincipal) {
 	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.TenantID == tenant {
-			data = append(data, unmarshalled)
+		if tenantPrincipal.TenantID == tenant {
+			data = append(data, tenantPrincipal)
 		}
 	}
 	return
@@ -340,9 +327,8 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
 				for tenantPrincipal := range u.tenantPrincipals {
-					unmarshalled := getTenantPrincipals(tenantPrincipal)
-					if unmarshalled.TenantID == id {
-						data = append(data, unmarshalled)
+					if tenantPrincipal.TenantID == id {
+						data = append(data, tenantPrincipal)
 					}
 				}
 				return true
@@ -354,12 +340,11 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 
 func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (data []PrincipalPermissions) {
 	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
-			if unmarshalled.RoleID != "" {
-				if r, ok := u.roles.Get(unmarshalled.RoleID); ok {
+		if tenantPrincipal.PrincipalID == principalID && tenantPrincipal.TenantID == tenant {
+			if tenantPrincipal.RoleID != "" {
+				if r, ok := u.roles.Get(tenantPrincipal.RoleID); ok {
 					d := PrincipalPermissions{
-						TenantPrincipal: unmarshalled,
+						TenantPrincipal: tenantPrincipal,
 					}
 					d.Permissions = r.GetPermissions()
 					data = append(data, d)
@@ -372,9 +357,8 @@ func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (da
 
 func (u *RoleManager) GetPrincipalRolesByTenant(tenant string) (data []TenantPrincipal) {
 	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.TenantID == tenant {
-			data = append(data, unmarshalled)
+		if tenantPrincipal.TenantID == tenant {
+			data = append(data, tenantPrincipal)
 		}
 	}
 	return
@@ -412,9 +396,8 @@ func (u *RoleManager) GetScopesForPrincipal(principalID string) ([]string, error
 	}
 	var scopes []string
 	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" {
-			scopes = append(scopes, unmarshalled.ScopeID)
+		if tenantPrincipal.PrincipalID == principalID && tenantPrincipal.ScopeID != "" {
+			scopes = append(scopes, tenantPrincipal.ScopeID)
 		}
 	}
 	return scopes, nil
@@ -431,9 +414,8 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 	}
 	var scopes []string
 	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" && unmarshalled.TenantID == tenantID {
-			scopes = append(scopes, unmarshalled.ScopeID)
+		if tenantPrincipal.PrincipalID == principalID && tenantPrincipal.ScopeID != "" && tenantPrincipal.TenantID == tenantID {
+			scopes = append(scopes, tenantPrincipal.ScopeID)
 		}
 	}
 	return scopes, nil
-- 
2.43.0


From 7ed93439c38d53b9c2b3c27456eb080f1573839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:53 +0000
Subject: [PATCH 22/35] fix: v1 granted every principal access to every tenant

A request naming only a tenant was granted to any registered principal as soon
as the tenant existed. The principal now has to have an assignment in it, or one
that manages descendants in a tenant above it.
---
 v1/role_manager.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index e6fb33a..5ebb356 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -509,7 +509,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 
 	// Check if only tenant is provided
 	if svr.tenant != nil && svr.namespace == nil && svr.scope == nil && svr.resourceGroup == nil && svr.activity == nil {
-		return u.authorizeForTenant(utils.ToString(svr.tenant))
+		return u.authorizeForTenant(principalID, utils.ToString(svr.tenant))
 	}
 
 	// Check if only namespace is provided
@@ -602,9 +602,26 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 	return false
 }
 
-func (u *RoleManager) authorizeForTenant(tenantID string) bool {
-	_, exists := u.GetTenant(tenantID)
-	return exists
+func (u *RoleManager) authorizeForTenant(principalID, tenantID string) bool {
+	if _, exists := u.GetTenant(tenantID); !exists {
+		return false
+	}
+	for row := range u.tenantPrincipals {
+		if row.PrincipalID != principalID {
+			continue
+		}
+		if row.TenantID == tenantID {
+			return true
+		}
+		if tenant, exists := u.GetTenant(row.TenantID); exists && row.CanManageDescendants {
+			for _, descendant := range tenant.GetDescendantTenants() {
+				if descendant.id == tenantID {
+					return true
+				}
+			}
+		}
+	}
+	return false
 }
 
 func (u *RoleManager) authorizeForNamespace(principalID, namespace string) bool {
-- 
2.43.0


From 2143a02755eb6f221230cce7d8648160cc0ed656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:53 +0000
Subject: [PATCH 23/35] fix: v1 namespace and scope requests were granted from
 other principals' assignments

Any assignment in the tenant for the requested namespace and scope granted the
request, whoever it belonged to, even to principals with no assignment in the
tenant. Only the rows the tenant itself makes when scopes are added to a
namespace count now, and only for the tenant's members.
---
 v1/role_manager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 5ebb356..8960a91 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -593,9 +593,13 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 			return true
 		}
 	}
+	if len(userRoles) == 0 {
+		return false
+	}
+	// Scopes added to a namespace are open to the members of the tenant
 	tenantRoles := u.GetTenantRoles(tenantID)
 	for _, r := range tenantRoles {
-		if r.NamespaceID == namespaceID && r.ScopeID == scopeID {
+		if r.PrincipalID == "" && r.NamespaceID == namespaceID && r.ScopeID == scopeID {
 			return true
 		}
 	}
-- 
2.43.0


From 211e32c2cc56c75210dd592997f27611bfad5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:53 +0000
Subject: [PATCH 24/35] fix: v1 activities were granted from roles held in
 another namespace or scope

A request naming a namespace or a scope used every role of the principal in the
tenant, including those assigned for a different namespace or scope.
---
 v1/role_manager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 8960a91..d126881 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -717,6 +717,12 @@ func (u *RoleManager) authorizeComplex(svr *Option, principalID string) bool {
 	}
 	roles := make(map[string]*Role)
 	for _, r := range principalRoles {
+		if namespace != "" && r.NamespaceID != "" && r.NamespaceID != namespace {
+			continue
+		}
+		if scope != "" && r.ScopeID != "" && r.ScopeID != scope {
+			continue
+		}
 		if role, ex := u.roles.Get(r.RoleID); ex {
 			roles[r.RoleID] = role
 		}
-- 
2.43.0


From 5d5152113f72eecaaa6f650e8a2cc499746283be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:53 +0000
Subject: [PATCH 25/35] fix: v1 GetAllowedRoles returned pooled memory and
 panicked

The result was a slice already back in the pool, overwritten by the next call,
and an empty list or a tenant that is not registered made it panic.
---
 v1/role_manager.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index d126881..61936c9 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -422,7 +422,12 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 }
 
 func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespace, scope string) []string {
-	if principalRoles == nil {
+	if len(principalRoles) == 0 {
+		return nil
+	}
+	tenantID := principalRoles[0].TenantID
+	tenant, ok := u.tenants.Get(tenantID)
+	if !ok {
 		return nil
 	}
 	// Reusable slices
@@ -440,8 +445,6 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 		principalRoleSlice.Put(principalTenantRole)
 		principalRoleSlice.Put(principalNamespaceScopeRole)
 	}()
-	tenantID := principalRoles[0].TenantID
-	tenant, _ := u.tenants.Get(tenantID)
 	mod, modExists := tenant.namespaces.Get(namespace)
 	_, entExists := tenant.scopes.Get(scope)
 	if (scope != "" && !entExists) || (namespace != "" && !modExists) {
@@ -496,7 +499,8 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 			return nil
 		}
 	}
-	return slices.Compact(allowedRoles)
+	// allowedRoles goes back to the pool, the result must not share its memory
+	return slices.Clone(slices.Compact(allowedRoles))
 }
 func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bool {
 	svr := &Option{}
-- 
2.43.0


From 40e876c4a6b6cb2bab880c7d8ac0f66f9a8c4339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:53 +0000
Subject: [PATCH 26/35] fix: v1 GetImplicitPrincipalRoles returned other
 principals' assignments

---
 v1/role_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 61936c9..f300ff7 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -327,7 +327,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
 				for tenantPrincipal := range u.tenantPrincipals {
-					if tenantPrincipal.TenantID == id {
+					if tenantPrincipal.TenantID == id && tenantPrincipal.PrincipalID == principalID {
 						data = append(data, tenantPrincipal)
 					}
 				}
-- 
2.43.0


From a24728dcb2083a7434a49f7a0e8ff6bbb5b0f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:35 +0000
Subject: [PATCH 27/35] fix: root scope checks used scopes the principal holds
 in another namespace

A principal given a scope for one namespace only was granted it in every other
namespace of the tenant, as the namespace of the principal's own records was not
looked at.
---
 filters.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/filters.go b/filters.go
index c50973d..832b23b 100644
--- a/filters.go
+++ b/filters.go
@@ -99,9 +99,8 @@ func filterScopeForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Scope) {
 		return false
 	}
-	return MatchTenant(row, filter) && (utils.IsNil(row.Namespace) && utils.IsNil(row.Principal) ||
-		MatchNamespace(row, filter) && utils.IsNil(row.Principal) ||
-		MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) && (utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) &&
+		(utils.IsNil(row.Principal) || MatchPrincipal(row, filter))
 }
 
 func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bool {
-- 
2.43.0


From 57888c9763547567ce49a4b703f0e3288576f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:25 +0000
Subject: [PATCH 28/35] fix: root activity checks let an inherited role with an
 empty id through

---
 authorize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index 8e6841c..250922d 100644
--- a/authorize.go
+++ b/authorize.go
@@ -133,8 +133,10 @@ func (u *RoleManager) checkActivity(principalID string, svr *Option, tFlagProvid
 		return false
 	}
 
+	// compacted once: Compact clears the rest of the slice it is given
+	allowedRoles = slices.Compact(allowedRoles)
 	for _, role := range slices.Compact(roles) {
-		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), slices.Compact(allowedRoles)...) {
+		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), allowedRoles...) {
 			return true
 		}
 	}
-- 
2.43.0


From 7a5d2fa1546d97c6dad68ff9e1dc41bee71e8117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:54 +0000
Subject: [PATCH 29/35] fix: concurrent changes of one root role or tenant lost
 permissions and descendants

---
 role.go   | 6 ++----
 tenant.go | 4 +---
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/role.go b/role.go
index 4984df1..b58a6b2 100644
--- a/role.go
+++ b/role.go
@@ -115,9 +115,7 @@ func (r *Role) AddDescendant(descendants ...*Role) error {
 		return errors.New("changes not allowed")
 	}
 	for _, descendant := range descendants {
-		if _, ok := r.descendants.Get(descendant.id); !ok {
-			r.descendants.Set(descendant.id, descendant)
-		}
+		r.descendants.GetOrSet(descendant.id, descendant)
 	}
 	return nil
 }
@@ -155,7 +153,7 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 			own.permissions.Set(perm, attr)
 			return true
 		})
-		r.permissions.Set(resourceGroup.id, own)
+		r.permissions.GetOrSet(resourceGroup.id, own)
 	}
 	return nil
 }
diff --git a/tenant.go b/tenant.go
index c582f30..eb7292f 100644
--- a/tenant.go
+++ b/tenant.go
@@ -47,9 +47,7 @@ func (c *Tenant) GetDescendants() (data []any) {
 
 func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
 	for _, descendant := range descendants {
-		if _, ok := c.descendants.Get(descendant.id); !ok {
-			c.descendants.Set(descendant.id, descendant)
-		}
+		c.descendants.GetOrSet(descendant.id, descendant)
 		if c.defaultNamespace != nil {
 			descendant.AddNamespace(c.defaultNamespace)
 			descendant.SetDefaultNamespace(c.defaultNamespace.id)
-- 
2.43.0


From 954b4ec37b985adf049e56afb0323e8929cd6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:26 +0000
Subject: [PATCH 30/35] fix: root default namespaces, role locks and repeated
 tenant registration raced

---
 role.go   | 13 +++++++------
 tenant.go | 28 +++++++++++++++++-----------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/role.go b/role.go
index b58a6b2..2d22c8f 100644
--- a/role.go
+++ b/role.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"slices"
+	"sync/atomic"
 
 	maps "github.com/oarkflow/xsync"
 
@@ -39,11 +40,11 @@ type Role struct {
 	permissions maps.IMap[string, *AttributeGroup]
 	descendants maps.IMap[string, *Role]
 	id          string
-	lock        bool
+	lock        atomic.Bool
 }
 
 func (r *Role) Lock() {
-	r.lock = true
+	r.lock.Store(true)
 }
 
 func (r *Role) ID() string {
@@ -51,7 +52,7 @@ func (r *Role) ID() string {
 }
 
 func (r *Role) Unlock() {
-	r.lock = false
+	r.lock.Store(false)
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
@@ -111,7 +112,7 @@ func (r *Role) GetDescendantRoles() []*Role {
 
 // AddDescendant adds a new permission to the role
 func (r *Role) AddDescendant(descendants ...*Role) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
 	for _, descendant := range descendants {
@@ -122,7 +123,7 @@ func (r *Role) AddDescendant(descendants ...*Role) error {
 
 // AddPermission adds a new permission to the role
 func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
 	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
@@ -142,7 +143,7 @@ func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) er
 }
 
 func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
diff --git a/tenant.go b/tenant.go
index eb7292f..9932d56 100644
--- a/tenant.go
+++ b/tenant.go
@@ -2,6 +2,7 @@ package permission
 
 import (
 	"errors"
+	"sync/atomic"
 
 	maps "github.com/oarkflow/xsync"
 )
@@ -14,7 +15,7 @@ func WithTenant(tenant any) func(*Option) {
 
 type Tenant struct {
 	descendants      maps.IMap[string, *Tenant]
-	defaultNamespace *Namespace
+	defaultNamespace atomic.Pointer[Namespace]
 	manager          *RoleManager
 	id               string
 }
@@ -48,9 +49,9 @@ func (c *Tenant) GetDescendants() (data []any) {
 func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
 	for _, descendant := range descendants {
 		c.descendants.GetOrSet(descendant.id, descendant)
-		if c.defaultNamespace != nil {
-			descendant.AddNamespace(c.defaultNamespace)
-			descendant.SetDefaultNamespace(c.defaultNamespace.id)
+		if namespace := c.defaultNamespace.Load(); namespace != nil {
+			descendant.AddNamespace(namespace)
+			descendant.SetDefaultNamespace(namespace.id)
 		}
 	}
 	return nil
@@ -68,7 +69,7 @@ func (c *Tenant) AddScopesToNamespace(namespaceID, scopeID string) {
 
 func (c *Tenant) SetDefaultNamespace(nms string) {
 	if n, ok := c.manager.namespaces.Get(nms); ok {
-		c.defaultNamespace = n
+		c.defaultNamespace.Store(n)
 	}
 }
 
@@ -106,8 +107,8 @@ func (c *Tenant) AddPrincipalWithRole(principalID, roleID string, manageDescenda
 		return errors.New("no role available")
 	}
 	c.manager.AddData(&Data{Tenant: c.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
-	if c.defaultNamespace != nil {
-		c.manager.AddData(&Data{Tenant: c.id, Namespace: c.defaultNamespace.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
+	if namespace := c.defaultNamespace.Load(); namespace != nil {
+		c.manager.AddData(&Data{Tenant: c.id, Namespace: namespace.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
 	}
 	return nil
 }
@@ -130,8 +131,8 @@ func (c *Tenant) AddScopeToPrincipal(principalID, scopeID string, manageDescenda
 		return errors.New("no scope available")
 	}
 	c.manager.AddData(&Data{Tenant: c.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
-	if c.defaultNamespace != nil {
-		c.manager.AddData(&Data{Tenant: c.id, Namespace: c.defaultNamespace.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
+	if namespace := c.defaultNamespace.Load(); namespace != nil {
+		c.manager.AddData(&Data{Tenant: c.id, Namespace: namespace.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
 	}
 	return nil
 }
@@ -147,8 +148,13 @@ func (c *Tenant) AssignScopesToPrincipal(principalID string, manageDescendants b
 }
 
 func (u *RoleManager) AddTenant(data *Tenant) *Tenant {
-	data.manager = u
-	d, _ := u.tenants.GetOrSet(data.id, data)
+	d, loaded := u.tenants.GetOrCompute(data.id, func() *Tenant {
+		data.manager = u
+		return data
+	})
+	if loaded && d != data {
+		data.manager = u
+	}
 	return d
 }
 
-- 
2.43.0


From a8d4bcd52e867f9e29fb7b91bd84a4a0799bad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:40 +0000
Subject: [PATCH 31/35] fix: root activity checks were unrestricted while a
 tenant's first role was given

---
 authorize.go | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/authorize.go b/authorize.go
index 250922d..dc47bb0 100644
--- a/authorize.go
+++ b/authorize.go
@@ -155,12 +155,10 @@ func (u *RoleManager) collectRoles(principalID string, tenant any) (roles, allow
 	return
 }
 
+// collectRolesByTenantAndNamespace and those below read the roles in use after
+// those of the principal: a role given in between would otherwise be found with
+// none in use, which restricts nothing
 func (u *RoleManager) collectRolesByTenantAndNamespace(principalID string, tenant, namespace any) (roles, allowedRoles []string) {
-	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
-			allowedRoles = append(allowedRoles, d.Role.(string))
-		}
-	}
 	for _, d := range u.GetRolesForPrincipalByTenantAndNamespace(principalID, tenant, namespace) {
 		if d.Namespace == nil || d.Namespace == namespace {
 			if d.Role != nil {
@@ -168,15 +166,15 @@ func (u *RoleManager) collectRolesByTenantAndNamespace(principalID string, tenan
 			}
 		}
 	}
-	return
-}
-
-func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, scope any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesByTenant(tenant) {
 		if d.Role != nil {
 			allowedRoles = append(allowedRoles, d.Role.(string))
 		}
 	}
+	return
+}
+
+func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, scope any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesForPrincipalByTenantAndScope(principalID, tenant, scope) {
 		if d.Scope == nil || d.Scope == scope {
 			if d.Role != nil {
@@ -184,16 +182,16 @@ func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, s
 			}
 		}
 	}
+	for _, d := range u.GetRolesByTenant(tenant) {
+		if d.Role != nil {
+			allowedRoles = append(allowedRoles, d.Role.(string))
+		}
+	}
 	return
 }
 
 func (u *RoleManager) collectRolesByNamespaceAndScope(principalID string, namespace, scope any) (roles, allowedRoles []string) {
 	for _, t := range u.GetTenants(principalID) {
-		for _, d := range u.GetRolesByTenant(t.Tenant) {
-			if d.Role != nil {
-				allowedRoles = append(allowedRoles, d.Role.(string))
-			}
-		}
 		for _, d := range u.GetRolesForPrincipalByTenantNamespaceAndScope(principalID, t.Tenant, namespace, scope) {
 			if d.Role != nil {
 				if (d.Namespace == nil || d.Namespace == namespace) && (d.Scope == nil || d.Scope == scope) {
@@ -201,16 +199,16 @@ func (u *RoleManager) collectRolesByNamespaceAndScope(principalID string, namesp
 				}
 			}
 		}
+		for _, d := range u.GetRolesByTenant(t.Tenant) {
+			if d.Role != nil {
+				allowedRoles = append(allowedRoles, d.Role.(string))
+			}
+		}
 	}
 	return
 }
 
 func (u *RoleManager) collectRolesByTenantNamespaceAndScope(principalID string, tenant, namespace, scope any) (roles, allowedRoles []string) {
-	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
-			allowedRoles = append(allowedRoles, d.Role.(string))
-		}
-	}
 	for _, d := range u.GetRolesForPrincipalByTenantNamespaceAndScope(principalID, tenant, namespace, scope) {
 		if d.Role != nil {
 			if (d.Namespace == nil || d.Namespace == namespace) && (d.Scope == nil || d.Scope == scope) {
@@ -218,5 +216,10 @@ func (u *RoleManager) collectRolesByTenantNamespaceAndScope(principalID string,
 			}
 		}
 	}
+	for _, d := range u.GetRolesByTenant(tenant) {
+		if d.Role != nil {
+			allowedRoles = append(allowedRoles, d.Role.(string))
+		}
+	}
 	return
 }
-- 
2.43.0


From bd6719d78735d169bc6d4743a376212b7c13312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:05 +0000
Subject: [PATCH 32/35] fix: registering one root tenant object from several
 goroutines raced

---
 tenant.go | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/tenant.go b/tenant.go
index 9932d56..ab5936d 100644
--- a/tenant.go
+++ b/tenant.go
@@ -16,7 +16,7 @@ func WithTenant(tenant any) func(*Option) {
 type Tenant struct {
 	descendants      maps.IMap[string, *Tenant]
 	defaultNamespace atomic.Pointer[Namespace]
-	manager          *RoleManager
+	manager          atomic.Pointer[RoleManager]
 	id               string
 }
 
@@ -25,7 +25,7 @@ func (c *Tenant) ID() string {
 }
 
 func (c *Tenant) AddNamespace(n *Namespace) *Namespace {
-	c.manager.AddData(&Data{Tenant: c.id, Namespace: n.id})
+	c.manager.Load().AddData(&Data{Tenant: c.id, Namespace: n.id})
 	return n
 }
 
@@ -64,21 +64,21 @@ func (c *Tenant) AddNamespaces(nms ...*Namespace) {
 }
 
 func (c *Tenant) AddScopesToNamespace(namespaceID, scopeID string) {
-	c.manager.AddData(&Data{Tenant: c.id, Namespace: namespaceID, Scope: scopeID})
+	c.manager.Load().AddData(&Data{Tenant: c.id, Namespace: namespaceID, Scope: scopeID})
 }
 
 func (c *Tenant) SetDefaultNamespace(nms string) {
-	if n, ok := c.manager.namespaces.Get(nms); ok {
+	if n, ok := c.manager.Load().namespaces.Get(nms); ok {
 		c.defaultNamespace.Store(n)
 	}
 }
 
 func (c *Tenant) AddPrincipalInNamespace(userID, namespaceID, roleID string) {
-	c.manager.AddData(&Data{Tenant: c.id, Namespace: namespaceID, Role: roleID, Principal: userID})
+	c.manager.Load().AddData(&Data{Tenant: c.id, Namespace: namespaceID, Role: roleID, Principal: userID})
 }
 
 func (c *Tenant) AddRole(n *Role) *Role {
-	c.manager.AddData(&Data{Tenant: c.id, Role: n.id})
+	c.manager.Load().AddData(&Data{Tenant: c.id, Role: n.id})
 	return n
 }
 
@@ -89,7 +89,7 @@ func (c *Tenant) AddRoles(nms ...*Role) {
 }
 
 func (c *Tenant) AddScope(n *Scope) *Scope {
-	c.manager.AddData(&Data{Tenant: c.id, Scope: n.id})
+	c.manager.Load().AddData(&Data{Tenant: c.id, Scope: n.id})
 	return n
 }
 
@@ -100,15 +100,15 @@ func (c *Tenant) AddScopes(nms ...*Scope) {
 }
 
 func (c *Tenant) AddPrincipalWithRole(principalID, roleID string, manageDescendants bool) error {
-	if _, ok := c.manager.principals.Get(principalID); !ok {
+	if _, ok := c.manager.Load().principals.Get(principalID); !ok {
 		return errors.New("no principal available")
 	}
-	if _, ok := c.manager.roles.Get(roleID); !ok {
+	if _, ok := c.manager.Load().roles.Get(roleID); !ok {
 		return errors.New("no role available")
 	}
-	c.manager.AddData(&Data{Tenant: c.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
+	c.manager.Load().AddData(&Data{Tenant: c.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
 	if namespace := c.defaultNamespace.Load(); namespace != nil {
-		c.manager.AddData(&Data{Tenant: c.id, Namespace: namespace.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
+		c.manager.Load().AddData(&Data{Tenant: c.id, Namespace: namespace.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
 	}
 	return nil
 }
@@ -124,15 +124,15 @@ func (c *Tenant) AddPrincipal(principalID string, manageDescendants bool, nms ..
 }
 
 func (c *Tenant) AddScopeToPrincipal(principalID, scopeID string, manageDescendants bool) error {
-	if _, ok := c.manager.principals.Get(principalID); !ok {
+	if _, ok := c.manager.Load().principals.Get(principalID); !ok {
 		return errors.New("no principal available")
 	}
-	if _, ok := c.manager.scopes.Get(scopeID); !ok {
+	if _, ok := c.manager.Load().scopes.Get(scopeID); !ok {
 		return errors.New("no scope available")
 	}
-	c.manager.AddData(&Data{Tenant: c.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
+	c.manager.Load().AddData(&Data{Tenant: c.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
 	if namespace := c.defaultNamespace.Load(); namespace != nil {
-		c.manager.AddData(&Data{Tenant: c.id, Namespace: namespace.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
+		c.manager.Load().AddData(&Data{Tenant: c.id, Namespace: namespace.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
 	}
 	return nil
 }
@@ -148,13 +148,8 @@ func (c *Tenant) AssignScopesToPrincipal(principalID string, manageDescendants b
 }
 
 func (u *RoleManager) AddTenant(data *Tenant) *Tenant {
-	d, loaded := u.tenants.GetOrCompute(data.id, func() *Tenant {
-		data.manager = u
-		return data
-	})
-	if loaded && d != data {
-		data.manager = u
-	}
+	data.manager.Store(u)
+	d, _ := u.tenants.GetOrSet(data.id, data)
 	return d
 }
 
-- 
2.43.0


From c9e3523e461fbde3b35b7cbd7b02f03f86da813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:09 +0000
Subject: [PATCH 33/35] fix: v1 lists of tenants and allowed roles repeat
 entries, depending on map order

---
 v1/role_manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index f300ff7..2fbad80 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -294,6 +294,7 @@ func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []stri
 			tenants = append(tenants, tenantPrincipal.TenantID)
 		}
 	}
+	slices.Sort(tenants)
 	tenants = slices.Compact(tenants)
 	return
 }
@@ -500,6 +501,7 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 		}
 	}
 	// allowedRoles goes back to the pool, the result must not share its memory
+	slices.Sort(allowedRoles)
 	return slices.Clone(slices.Compact(allowedRoles))
 }
 func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bool {
-- 
2.43.0


From d32d5dfce313d643c7347fc9d0e88f066a648732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:57 +0000
Subject: [PATCH 34/35] fix: set helpers compare items by type and content

Serialize gave the same text for different items (separators inside texts,
values of different types), depended on the order of map keys that are not
strings, and panicked on unexported fields and on items that are neither
structs nor maps.
---
 utils/str.go | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index af1035e..7866c3f 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -148,25 +148,41 @@ func Union[T any](a, b []T) []T {
 	return union
 }
 
+// Serialize gives a text for the item that only equal items share.
 func Serialize[T any](item T) string {
 	v := reflect.ValueOf(item)
-	if v.Kind() == reflect.Map {
-		keys := v.MapKeys()
-		sort.Slice(keys, func(i, j int) bool {
-			return keys[i].String() < keys[j].String()
-		})
-		var builder strings.Builder
-		for _, k := range keys {
-			builder.WriteString(fmt.Sprintf("%s:%v|", k, v.MapIndex(k)))
+	var builder strings.Builder
+	if v.IsValid() {
+		builder.WriteString(v.Type().String() + "|")
+	}
+	switch v.Kind() {
+	case reflect.Map:
+		entries := make([]string, 0, v.Len())
+		for _, k := range v.MapKeys() {
+			entries = append(entries, fmt.Sprintf("%s:%s|", serializeValue(k), serializeValue(v.MapIndex(k))))
+		}
+		sort.Strings(entries)
+		for _, entry := range entries {
+			builder.WriteString(entry)
 		}
-		return builder.String()
+	case reflect.Struct:
+		t := v.Type()
+		for i := 0; i < v.NumField(); i++ {
+			builder.WriteString(fmt.Sprintf("%s:%s|", t.Field(i).Name, serializeValue(v.Field(i))))
+		}
+	default:
+		builder.WriteString(serializeValue(v))
 	}
+	return builder.String()
+}
 
-	var builder strings.Builder
-	t := v.Type()
-	for i := 0; i < v.NumField(); i++ {
-		builder.WriteString(fmt.Sprintf("%s:%v|", t.Field(i).Name, v.Field(i).Interface()))
+// serializeValue keeps values of different types, and texts that look alike, apart
+func serializeValue(v reflect.Value) string {
+	if v.Kind() == reflect.Interface {
+		v = v.Elem()
 	}
-
-	return builder.String()
+	if !v.IsValid() {
+		return "nil"
+	}
+	return fmt.Sprintf("%s(%#v)", v.Type(), v)
 }
-- 
2.43.0


From 815e55f1a6faebce9d50154ac4fccc3a051a16d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:16 +0000
Subject: [PATCH 35/35] fix: durations of unsupported types are refused instead
 of expiring the assignment at once

---
 v2/v2.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v2/v2.go b/v2/v2.go
index 72370dd..84e4ee4 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -47,6 +47,8 @@ func (pr *PrincipalRole) SetExpiryDuration(dur any) error {
 		}
 	case time.Duration:
 		duration = dur
+	default:
+		return fmt.Errorf("unsupported duration type: %T", dur)
 	}
 	expiry := time.Now().Add(duration)
 	pr.Expiry = &expiry
-- 
2.43.0

