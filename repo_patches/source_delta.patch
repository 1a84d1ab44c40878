From 5ed3bd187843fa241103ba2072a1ae3f9ef1164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:26 +0000
Subject: [PATCH 01/26] fix: wildcards in permission patterns hang or mismatch,
 a trailing parameter swallows the action

---
 utils/str.go | 80 +++++++++++++++++++++++-----------------------------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index fc3aced..0a807ee 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -30,61 +30,53 @@ func ToInt64(s string) uint64 {
 	return ft.Sum64()
 }
 
+// MatchResource reports whether value can be obtained from pattern by replacing
+// every ":name" parameter with a non-empty text free of '/' and ' ' and every
+// '*' with any text.
 func MatchResource(value, pattern string) bool {
 	vIndex, pIndex := 0, 0
 	vLen, pLen := len(value), len(pattern)
+	// Position of the last '*' in the pattern and the value index it covers up to
+	star, starIndex := -1, 0
 
-	for pIndex < pLen {
-		if pattern[pIndex] == '*' {
-			// If '*' is the last character in the pattern, it matches everything
-			if pIndex == pLen-1 {
-				return true
-			}
-
-			// Find the next character in pattern after '*'
-			nextChar := pattern[pIndex+1]
-
-			// If the next character is '*', skip it
-			if nextChar == '*' {
-				pIndex++
-				continue
-			}
-
-			// Find the next occurrence of the character after '*' in the value
-			nextIndex := strings.IndexByte(value[vIndex:], nextChar)
-
-			// If the character is not found, no match
-			if nextIndex == -1 {
-				return false
-			}
-
-			// Move the value index to the next occurrence of the character
-			vIndex += nextIndex
-		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
-			// If pattern part matches value part or is a parameter, move to the next parts
-			vIndex++
+	for vIndex < vLen || pIndex < pLen {
+		if pIndex < pLen && pattern[pIndex] == '*' {
+			// Start with '*' matching nothing; it is extended on a mismatch below
+			star, starIndex = pIndex, vIndex
 			pIndex++
-			// If pattern part is a parameter, skip it in the value
-			if pattern[pIndex-1] == ':' {
-				// Find the end of the parameter segment
-				endIndex := pIndex
-				for endIndex < pLen && pattern[endIndex] != '/' {
-					endIndex++
-				}
-				// Skip the parameter segment in the value
-				for vIndex < vLen && value[vIndex] != '/' {
-					vIndex++
+			continue
+		}
+		if pIndex < pLen && vIndex < vLen {
+			if pattern[pIndex] == ':' {
+				// Find the end of the parameter segment in the value
+				end := segmentEnd(value, vIndex)
+				if end > vIndex {
+					vIndex = end
+					pIndex = segmentEnd(pattern, pIndex)
+					continue
 				}
-				// Move pattern index to the end of the parameter segment
-				pIndex = endIndex
+			} else if pattern[pIndex] == value[vIndex] {
+				vIndex++
+				pIndex++
+				continue
 			}
-		} else {
+		}
+		if star == -1 || starIndex >= vLen {
 			return false
 		}
+		// Let the last '*' cover one more character and try again
+		starIndex++
+		vIndex, pIndex = starIndex, star+1
 	}
+	return true
+}
 
-	// If both value and pattern are exhausted, return true
-	return vIndex == vLen && pIndex == pLen
+// segmentEnd returns the index of the first '/' or ' ' in s at or after start.
+func segmentEnd(s string, start int) int {
+	for start < len(s) && s[start] != '/' && s[start] != ' ' {
+		start++
+	}
+	return start
 }
 
 // ToByte converts a string to a byte slice without memory allocation.
-- 
2.43.0


From c66c113f3d3d2a961dd9a0030bc76481a091b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:03 +0000
Subject: [PATCH 02/26] fix: v2 requests read permission and role sets already
 returned to the pool

---
 v2/v2.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 3533705..ea97454 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -169,9 +169,7 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 }
 
 var (
-	scopedPermissionsPool = utils.New(func() map[string]struct{} { return make(map[string]struct{}) })
-	globalPermissionsPool = utils.New(func() map[string]struct{} { return make(map[string]struct{}) })
-	checkedTenantsPool    = utils.New(func() map[string]bool { return make(map[string]bool) })
+	checkedTenantsPool = utils.New(func() map[string]bool { return make(map[string]bool) })
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
@@ -186,15 +184,12 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
 	}
-	globalPermissions := globalPermissionsPool.Get()
-	scopedPermissions := scopedPermissionsPool.Get()
+	// The permissions are handed to the caller, so they cannot come from a pool
+	globalPermissions := make(map[string]struct{})
+	scopedPermissions := make(map[string]struct{})
 	checkedTenants := checkedTenantsPool.Get()
-	clear(scopedPermissions)
-	clear(globalPermissions)
 	clear(checkedTenants)
 	defer func() {
-		scopedPermissionsPool.Put(scopedPermissions)
-		globalPermissionsPool.Put(globalPermissions)
 		checkedTenantsPool.Put(checkedTenants)
 	}()
 	var traverse func(current *Tenant) error
@@ -251,12 +246,11 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
 	}
-	scopedRoles := scopedPermissionsPool.Get()
+	// The roles are handed to the caller, so they cannot come from a pool
+	scopedRoles := make(map[string]struct{})
 	checkedTenants := checkedTenantsPool.Get()
-	clear(scopedRoles)
 	clear(checkedTenants)
 	defer func() {
-		scopedPermissionsPool.Put(scopedRoles)
 		checkedTenantsPool.Put(checkedTenants)
 	}()
 	var traverse func(current *Tenant) error
-- 
2.43.0


From 62cb310a6a754f63f4b64d210e84171ef8373834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:04 +0000
Subject: [PATCH 03/26] fix: v2 RemovePrincipalRole drops assignments made
 after a removed one

---
 v2/v2.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index ea97454..38623f1 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -112,7 +112,7 @@ func (a *Authorizer) AddPrincipalRole(userRole ...*PrincipalRole) {
 }
 
 func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
-	updatedRoles := make([]*PrincipalRole, len(a.userRoles))
+	updatedRoles := make([]*PrincipalRole, 0, len(a.userRoles))
 	var rolesRemoved bool
 	matches := func(pr *PrincipalRole) bool {
 		if target.Principal != "" && pr.Principal != target.Principal {
@@ -132,16 +132,13 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 		}
 		return true
 	}
-	j := 0
-	for i, ur := range a.userRoles {
+	for _, ur := range a.userRoles {
 		if matches(ur) {
 			rolesRemoved = true
 			continue
 		}
-		j++
-		updatedRoles[i] = ur
+		updatedRoles = append(updatedRoles, ur)
 	}
-	updatedRoles = updatedRoles[:j]
 	if !rolesRemoved {
 		return fmt.Errorf("no matching roles found for the provided criteria")
 	}
-- 
2.43.0


From 8dbb0a99b674fa3e660aad02621b8521476c45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 04/26] fix: v2 role cache mixes roles with permissions and is
 never invalidated

---
 v2/role.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 05b01ba..65d9825 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -79,6 +79,7 @@ func (dag *RoleDAG) AddRole(roles ...*Role) {
 	for _, role := range roles {
 		dag.roles[role.Name] = role
 	}
+	clear(dag.resolved)
 }
 
 func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
@@ -88,6 +89,7 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 		return err
 	}
 	dag.edges[parent] = append(dag.edges[parent], child...)
+	clear(dag.resolved)
 	return nil
 }
 
@@ -116,43 +118,29 @@ func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) e
 
 // ResolvePermissions to account for role expiry
 func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
-	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
-		dag.mu.RUnlock()
-		return permissions
-	}
-	dag.mu.RUnlock()
-	dag.mu.Lock()
-	defer dag.mu.Unlock()
-	visited := make(map[string]bool)
-	queue := []string{roleName}
 	result := make(map[string]struct{})
-	for len(queue) > 0 {
-		current := queue[0]
-		queue = queue[1:]
-		if visited[current] {
-			continue
-		}
-		visited[current] = true
-		role, exists := dag.roles[current]
+	for name := range dag.ResolveChildRoles(roleName) {
+		dag.mu.RLock()
+		role, exists := dag.roles[name]
+		dag.mu.RUnlock()
 		if !exists {
 			continue
 		}
+		role.m.RLock()
 		for perm := range role.Permissions {
 			result[perm] = struct{}{}
 		}
-		queue = append(queue, dag.edges[current]...)
+		role.m.RUnlock()
 	}
-	dag.resolved[roleName] = result
 	return result
 }
 
 // ResolveChildRoles to account for role expiry
 func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
+	if roles, found := dag.resolved[roleName]; found {
 		dag.mu.RUnlock()
-		return permissions
+		return roles
 	}
 	dag.mu.RUnlock()
 	dag.mu.Lock()
-- 
2.43.0


From edc913eee57518985bda5ac450c64017e182244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 05/26] fix: v2 AddChildRole refuses acyclic shapes as circular

---
 v2/role.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 65d9825..f2e138d 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -94,12 +94,15 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 }
 
 func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) error {
-	visited := map[string]bool{parent: true}
+	visited := make(map[string]bool)
 	var dfs func(string) bool
 	dfs = func(role string) bool {
-		if visited[role] {
+		if role == parent {
 			return true
 		}
+		if visited[role] {
+			return false
+		}
 		visited[role] = true
 		for _, child := range dag.edges[role] {
 			if dfs(child) {
-- 
2.43.0


From 7285ce5ee21f86f22f8cae5c08c090c80d526eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:06 +0000
Subject: [PATCH 06/26] fix: v2 expired assignments still reach into child
 tenants

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 38623f1..85b5d44 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -216,7 +216,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
@@ -271,7 +271,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
-- 
2.43.0


From 0fb569d821117ec243259441269cc994b8bcb1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:07 +0000
Subject: [PATCH 07/26] fix: v2 SetExpiryDuration silently accepts unusable
 durations

---
 v2/v2.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/v2/v2.go b/v2/v2.go
index 85b5d44..c96bc45 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -43,10 +43,15 @@ func (pr *PrincipalRole) SetExpiryDuration(dur any) error {
 	case string:
 		duration, err = time.ParseDuration(dur)
 		if err != nil {
-			return nil
+			return err
 		}
 	case time.Duration:
 		duration = dur
+	default:
+		return fmt.Errorf("unsupported duration type %T", dur)
+	}
+	if duration < 0 {
+		return fmt.Errorf("expiry time has to be in future")
 	}
 	expiry := time.Now().Add(duration)
 	pr.Expiry = &expiry
-- 
2.43.0


From 0eaa1d54f7df714e26fbd1e80bdb55144f8fbf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 08/26] fix: v2 Can counts roles assigned for another scope

---
 v2/v2.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index c96bc45..c7bc0ba 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -243,7 +243,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	return nil, fmt.Errorf("no roleDAG or permissions found")
 }
 
-func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (map[string]struct{}, error) {
+func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace, scopeName string) (map[string]struct{}, error) {
 	tenant, exists := a.tenants[tenantID]
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
@@ -268,6 +268,9 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			if userRole.IsExpired() {
 				continue
 			}
+			if scopeName != "" && userRole.Scope != "" && userRole.Scope != scopeName {
+				continue
+			}
 			if (userRole.Namespace == "" || userRole.Namespace == namespace) && userRole.Role != "" {
 				scopedRoles[userRole.Role] = struct{}{}
 				for role := range a.roleDAG.ResolveChildRoles(userRole.Role) {
@@ -375,7 +378,7 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
 			continue
 		}
-		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace)
+		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace, request.Scope)
 		if err != nil {
 			a.Log(slog.LevelWarn, request, "Failed to resolve roles for authorization")
 			continue
-- 
2.43.0


From 0c0a7085242d4df9b7d90a07329764b3a3c29241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:32 +0000
Subject: [PATCH 09/26] fix: v2 authorizer reads shared state without its locks

---
 v2/init.go |  4 ++-
 v2/role.go | 10 +++++++
 v2/v2.go   | 85 ++++++++++++++++++++++++++++++------------------------
 3 files changed, 60 insertions(+), 39 deletions(-)

diff --git a/v2/init.go b/v2/init.go
index 19fbe51..df7f1c0 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -10,6 +10,8 @@ func (a *Authorizer) AddRole(role *Role) *Role {
 }
 
 func (a *Authorizer) GetRole(val string) (*Role, bool) {
+	a.roleDAG.mu.RLock()
+	defer a.roleDAG.mu.RUnlock()
 	role, ok := a.roleDAG.roles[val]
 	return role, ok
 }
@@ -28,7 +30,7 @@ func (a *Authorizer) AddTenant(tenant *Tenant) *Tenant {
 	a.m.Lock()
 	defer a.m.Unlock()
 	a.tenants[tenant.ID] = tenant
-	for _, child := range tenant.ChildTenants {
+	for _, child := range tenant.children() {
 		a.parentCache[child.ID] = tenant
 	}
 	return tenant
diff --git a/v2/role.go b/v2/role.go
index f2e138d..6339282 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -58,6 +58,16 @@ func (t *Tenant) AddChildTenant(tenants ...*Tenant) {
 	}
 }
 
+func (t *Tenant) children() []*Tenant {
+	t.m.RLock()
+	defer t.m.RUnlock()
+	children := make([]*Tenant, 0, len(t.ChildTenants))
+	for _, child := range t.ChildTenants {
+		children = append(children, child)
+	}
+	return children
+}
+
 type RoleDAG struct {
 	mu       sync.RWMutex
 	roles    map[string]*Role
diff --git a/v2/v2.go b/v2/v2.go
index c7bc0ba..6adf0da 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -101,6 +101,8 @@ func NewAuthorizer(auditLog ...*slog.Logger) *Authorizer {
 }
 
 func (a *Authorizer) SetDefaultTenant(tenant string) {
+	a.m.Lock()
+	defer a.m.Unlock()
 	a.defaultTenant = tenant
 }
 
@@ -117,6 +119,8 @@ func (a *Authorizer) AddPrincipalRole(userRole ...*PrincipalRole) {
 }
 
 func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
+	a.m.Lock()
+	defer a.m.Unlock()
 	updatedRoles := make([]*PrincipalRole, 0, len(a.userRoles))
 	var rolesRemoved bool
 	matches := func(pr *PrincipalRole) bool {
@@ -175,13 +179,18 @@ var (
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
-	if a.defaultTenant != "" {
-		return a.GetTenant(a.defaultTenant)
+	a.m.RLock()
+	defaultTenant := a.defaultTenant
+	a.m.RUnlock()
+	if defaultTenant != "" {
+		return a.GetTenant(defaultTenant)
 	}
 	return nil, false
 }
 
 func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, scopeName string) (map[string]struct{}, error) {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	tenant, exists := a.tenants[tenantID]
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
@@ -222,7 +231,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -244,6 +253,8 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 }
 
 func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace, scopeName string) (map[string]struct{}, error) {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	tenant, exists := a.tenants[tenantID]
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
@@ -280,7 +291,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace, scopeNam
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -324,6 +335,8 @@ func (a *Authorizer) Log(level slog.Level, request Request, msg string) {
 }
 
 func (a *Authorizer) findTargetTenants(request Request) ([]*Tenant, bool) {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	if request.Tenant == "" && a.defaultTenant != "" {
 		request.Tenant = a.defaultTenant
 	}
@@ -358,26 +371,10 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
+		namespace, exists := a.resolveNamespace(tenant, request)
 		if !exists {
 			continue
 		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
-			continue
-		}
 		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace, request.Scope)
 		if err != nil {
 			a.Log(slog.LevelWarn, request, "Failed to resolve roles for authorization")
@@ -401,26 +398,10 @@ func (a *Authorizer) Authorize(request Request) bool {
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
+		namespace, exists := a.resolveNamespace(tenant, request)
 		if !exists {
 			continue
 		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
-			continue
-		}
 		permissions, err := a.resolvePrincipalPermissions(request.Principal, tenant.ID, namespace, request.Scope)
 		if err != nil {
 			a.Log(slog.LevelWarn, request, "Failed to resolve permissions for authorization")
@@ -437,6 +418,34 @@ func (a *Authorizer) Authorize(request Request) bool {
 	return false
 }
 
+// resolveNamespace returns the namespace of the tenant the request is for, if
+// it exists along with the requested scope.
+func (a *Authorizer) resolveNamespace(tenant *Tenant, request Request) (string, bool) {
+	tenant.m.RLock()
+	defer tenant.m.RUnlock()
+	namespace := request.Namespace
+	if namespace == "" {
+		if tenant.DefaultNS != "" {
+			namespace = tenant.DefaultNS
+		} else if len(tenant.Namespaces) == 1 {
+			for ns := range tenant.Namespaces {
+				namespace = ns
+				break
+			}
+		} else {
+			return "", false
+		}
+	}
+	ns, exists := tenant.Namespaces[namespace]
+	if !exists {
+		return "", false
+	}
+	if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		return "", false
+	}
+	return namespace, true
+}
+
 func (a *Authorizer) isScopeValidForNamespace(ns *Namespace, scopeName string) bool {
 	_, exists := ns.Scopes[scopeName]
 	return exists
-- 
2.43.0


From ba716f9eff077034748c3faff87e42e5680ca338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:14 +0000
Subject: [PATCH 10/26] fix: trie merges facts that differ only in position and
 loses concurrent inserts

---
 trie/trie.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 6cbe2aa..49413fc 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1,6 +1,8 @@
 package trie
 
 import (
+	"sync/atomic"
+
 	maps "github.com/oarkflow/xsync"
 )
 
@@ -12,10 +14,13 @@ type KeyExtractor[T DataProps] func(data *T) []any
 
 type Node[T DataProps] struct {
 	child maps.IMap[any, *Node[T]]
-	isEnd bool
-	data  *T
+	data  atomic.Pointer[T]
 }
 
+// noKey stands for a key that is not set, so that the keys after it keep their
+// position.
+type noKey struct{}
+
 func NewNode[T DataProps]() *Node[T] {
 	return &Node[T]{child: maps.NewMap[any, *Node[T]]()}
 }
@@ -27,9 +32,7 @@ func (node *Node[T]) addChild(key any) (*Node[T], bool) {
 	if n, exists := node.child.Get(key); exists {
 		return n, true
 	}
-	n := NewNode[T]()
-	node.child.Set(key, n)
-	return n, false
+	return node.child.GetOrSet(key, NewNode[T]())
 }
 
 func (node *Node[T]) getChild(key any) (*Node[T], bool) {
@@ -69,14 +72,13 @@ func (t *Trie[T]) Insert(data *T) {
 
 	for _, key := range keys {
 		if key == nil {
-			continue
+			key = noKey{}
 		}
 		child, _ := node.addChild(key)
 		node = child
 	}
 
-	node.isEnd = true
-	node.data = data
+	node.data.Store(data)
 }
 
 func (t *Trie[T]) First(filter *T) *T {
@@ -109,14 +111,14 @@ func (t *Trie[T]) search(filter *T, callback SearchFunc[T], stopAfterFirst ...bo
 	var dfs func(node *Node[T]) bool
 	resultCount := 0
 	dfs = func(node *Node[T]) bool {
-		if node.isEnd && callback(filter, node.data) {
+		if data := node.data.Load(); data != nil && callback(filter, data) {
 			resultCount++
 			if len(results) == cap(results) {
 				newResults := make([]*T, len(results), 2*cap(results))
 				copy(newResults, results)
 				results = newResults
 			}
-			results = append(results, node.data)
+			results = append(results, data)
 			if stop {
 				return true
 			}
-- 
2.43.0


From 3e29be731536bf0aa983c8f9353681a36aa95125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:15 +0000
Subject: [PATCH 11/26] fix: concurrent registrations of one identifier
 overwrite each other

---
 activity.go       |  7 ++-----
 activity_group.go |  7 ++-----
 namespace.go      |  7 ++-----
 permission.go     |  7 ++-----
 principal.go      |  7 ++-----
 role_manager.go   |  2 ++
 scope.go          |  7 ++-----
 tenant.go         | 11 +++++++----
 8 files changed, 21 insertions(+), 34 deletions(-)

diff --git a/activity.go b/activity.go
index 4766802..08d25b9 100644
--- a/activity.go
+++ b/activity.go
@@ -7,11 +7,8 @@ func WithActivity(activity any) func(*Option) {
 }
 
 func (u *RoleManager) AddAttribute(attr *Attribute) *Attribute {
-	if d, ok := u.attributes.Get(attr.String()); ok {
-		return d
-	}
-	u.attributes.Set(attr.String(), attr)
-	return attr
+	d, _ := u.attributes.GetOrSet(attr.String(), attr)
+	return d
 }
 
 func (u *RoleManager) AddAttributes(attrs ...*Attribute) {
diff --git a/activity_group.go b/activity_group.go
index 590872b..a6386f0 100644
--- a/activity_group.go
+++ b/activity_group.go
@@ -11,11 +11,8 @@ func WithAttributeGroup(activityGroup any) func(*Option) {
 }
 
 func (u *RoleManager) AddAttributeGroup(attr *AttributeGroup) *AttributeGroup {
-	if d, ok := u.attributeGroups.Get(attr.id); ok {
-		return d
-	}
-	u.attributeGroups.Set(attr.id, attr)
-	return attr
+	d, _ := u.attributeGroups.GetOrSet(attr.id, attr)
+	return d
 }
 
 func (u *RoleManager) AddAttributeGroups(attrs ...*AttributeGroup) {
diff --git a/namespace.go b/namespace.go
index eebc1e5..3dad58d 100644
--- a/namespace.go
+++ b/namespace.go
@@ -15,11 +15,8 @@ func (n *Namespace) ID() string {
 }
 
 func (u *RoleManager) AddNamespace(data *Namespace) *Namespace {
-	if d, ok := u.namespaces.Get(data.id); ok {
-		return d
-	}
-	u.namespaces.Set(data.id, data)
-	return data
+	d, _ := u.namespaces.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddNamespaces(nms ...*Namespace) {
diff --git a/permission.go b/permission.go
index 10c70dd..e1e60eb 100644
--- a/permission.go
+++ b/permission.go
@@ -56,11 +56,8 @@ func NewPrincipal(id string) *Principal {
 }
 
 func (u *RoleManager) AddRole(role *Role) *Role {
-	if r, exists := u.roles.Get(role.id); exists {
-		return r
-	}
-	u.roles.Set(role.id, role)
-	return role
+	r, _ := u.roles.GetOrSet(role.id, role)
+	return r
 }
 
 func (u *RoleManager) AddRoles(roles ...*Role) {
diff --git a/principal.go b/principal.go
index e92ef05..ac08df0 100644
--- a/principal.go
+++ b/principal.go
@@ -10,11 +10,8 @@ func (p *Principal) ID() string {
 }
 
 func (u *RoleManager) AddPrincipal(data *Principal) *Principal {
-	if d, ok := u.principals.Get(data.id); ok {
-		return d
-	}
-	u.principals.Set(data.id, data)
-	return data
+	d, _ := u.principals.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddPrincipals(principals ...*Principal) {
diff --git a/role_manager.go b/role_manager.go
index 9c7353d..69731f3 100644
--- a/role_manager.go
+++ b/role_manager.go
@@ -2,6 +2,7 @@ package permission
 
 import (
 	"encoding/json"
+	"sync"
 
 	maps "github.com/oarkflow/xsync"
 
@@ -10,6 +11,7 @@ import (
 )
 
 type RoleManager struct {
+	tenantMu        sync.Mutex // serializes the registration of tenants
 	tenants         maps.IMap[string, *Tenant]
 	namespaces      maps.IMap[string, *Namespace]
 	scopes          maps.IMap[string, *Scope]
diff --git a/scope.go b/scope.go
index 2072bc4..969a0d7 100644
--- a/scope.go
+++ b/scope.go
@@ -15,11 +15,8 @@ func (s *Scope) ID() string {
 }
 
 func (u *RoleManager) AddScope(data *Scope) *Scope {
-	if d, ok := u.scopes.Get(data.id); ok {
-		return d
-	}
-	u.scopes.Set(data.id, data)
-	return data
+	d, _ := u.scopes.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddScopes(scopes ...*Scope) {
diff --git a/tenant.go b/tenant.go
index 6ff7ad6..9288c37 100644
--- a/tenant.go
+++ b/tenant.go
@@ -39,9 +39,7 @@ func (c *Tenant) GetDescendants() (data []any) {
 
 func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
 	for _, descendant := range descendants {
-		if _, ok := c.descendants.Get(descendant.id); !ok {
-			c.descendants.Set(descendant.id, descendant)
-		}
+		c.descendants.GetOrSet(descendant.id, descendant)
 		if c.defaultNamespace != nil {
 			descendant.AddNamespace(c.defaultNamespace)
 			descendant.SetDefaultNamespace(c.defaultNamespace.id)
@@ -141,7 +139,12 @@ func (c *Tenant) AssignScopesToPrincipal(principalID string, manageDescendants b
 }
 
 func (u *RoleManager) AddTenant(data *Tenant) *Tenant {
-	data.manager = u
+	u.tenantMu.Lock()
+	defer u.tenantMu.Unlock()
+	// A tenant that is registered again may already be in use
+	if data.manager != u {
+		data.manager = u
+	}
 	if d, ok := u.tenants.Get(data.id); ok {
 		return d
 	}
-- 
2.43.0


From 80f6fc91214de65cacab29e5fd12a5fbc1525429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 12/26] fix: concurrent permission and descendant additions to
 a role are lost, its lock flag races

---
 role.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/role.go b/role.go
index 7f3f8f2..2755ba5 100644
--- a/role.go
+++ b/role.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"slices"
+	"sync/atomic"
 
 	maps "github.com/oarkflow/xsync"
 
@@ -39,11 +40,11 @@ type Role struct {
 	permissions maps.IMap[string, *AttributeGroup]
 	descendants maps.IMap[string, *Role]
 	id          string
-	lock        bool
+	lock        atomic.Bool
 }
 
 func (r *Role) Lock() {
-	r.lock = true
+	r.lock.Store(true)
 }
 
 func (r *Role) ID() string {
@@ -51,7 +52,7 @@ func (r *Role) ID() string {
 }
 
 func (r *Role) Unlock() {
-	r.lock = false
+	r.lock.Store(false)
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
@@ -103,28 +104,23 @@ func (r *Role) GetDescendantRoles() []*Role {
 
 // AddDescendant adds a new permission to the role
 func (r *Role) AddDescendant(descendants ...*Role) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
 	for _, descendant := range descendants {
-		if _, ok := r.descendants.Get(descendant.id); !ok {
-			r.descendants.Set(descendant.id, descendant)
-		}
+		r.descendants.GetOrSet(descendant.id, descendant)
 	}
 	return nil
 }
 
 // AddPermission adds a new permission to the role
 func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
 	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
 	if !exists || resourceGroupAttributes == nil {
-		resourceGroupAttributes = &AttributeGroup{
-			id:          resourceGroup,
-			permissions: maps.NewMap[string, *Attribute](),
-		}
+		resourceGroupAttributes, _ = r.permissions.GetOrSet(resourceGroup, NewAttributeGroup(resourceGroup))
 	}
 	perm := resourceGroupAttributes.permissions
 	for _, permission := range permissions {
@@ -132,17 +128,14 @@ func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) er
 			perm.Set(permission.String(), permission)
 		}
 	}
-	r.permissions.Set(resourceGroup, resourceGroupAttributes)
 	return nil
 }
 
 func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
-	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
-	}
+	r.permissions.GetOrSet(resourceGroup.id, resourceGroup)
 	return nil
 }
 
-- 
2.43.0


From 11920b9cbceca0c4708003b5cdf76aabce0e7ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 13/26] fix: cyclic hierarchies recurse forever, inherited
 permissions depend on own groups

---
 role.go   | 73 +++++++++++++++++++++++++++++--------------------------
 tenant.go | 18 ++++++++++----
 2 files changed, 51 insertions(+), 40 deletions(-)

diff --git a/role.go b/role.go
index 2755ba5..5efd816 100644
--- a/role.go
+++ b/role.go
@@ -56,6 +56,24 @@ func (r *Role) Unlock() {
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
+	if r.hasOwn(resourceGroup, permissionName) {
+		return true
+	}
+	totalD := len(allowedDescendants)
+	// Check inherited permissions
+	for _, descendant := range r.GetDescendantRoles() {
+		if totalD > 0 && !slices.Contains(allowedDescendants, descendant.id) {
+			continue
+		}
+		if descendant.hasOwn(resourceGroup, permissionName) {
+			return true
+		}
+	}
+	return false
+}
+
+// hasOwn tells whether the role itself has the permission
+func (r *Role) hasOwn(resourceGroup, permissionName string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
 	if !ok || resourceGroupPermissions == nil {
 		return false
@@ -71,34 +89,26 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 		}
 		return true
 	})
-	if matched {
-		return true
-	}
-	totalD := len(allowedDescendants)
-	// Check inherited permissions recursively
-	for _, descendant := range r.GetDescendantRoles() {
-		if totalD > 0 {
-			if slices.Contains(allowedDescendants, descendant.id) {
-				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-					return true
-				}
-			}
-		} else {
-			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-				return true
-			}
-		}
-	}
-	return false
+	return matched
 }
 
+// GetDescendantRoles returns every role below this one once; roles may be
+// shared or refer back to an ancestor.
 func (r *Role) GetDescendantRoles() []*Role {
 	var descendants []*Role
-	r.descendants.ForEach(func(_ string, child *Role) bool {
-		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantRoles()...)
-		return true
-	})
+	visited := map[*Role]struct{}{r: {}}
+	var walk func(role *Role)
+	walk = func(role *Role) {
+		role.descendants.ForEach(func(_ string, child *Role) bool {
+			if _, seen := visited[child]; !seen {
+				visited[child] = struct{}{}
+				descendants = append(descendants, child)
+				walk(child)
+			}
+			return true
+		})
+	}
+	walk(r)
 	return descendants
 }
 
@@ -156,17 +166,10 @@ func (r *Role) GetAllImplicitPermissions(perm ...map[string][]Attribute) map[str
 	} else {
 		grpPermissions = make(map[string][]Attribute)
 	}
-	r.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
-		var permissions []Attribute
-		grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
-			permissions = append(permissions, *attr)
-			return true
-		})
-		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
-		return true
-	})
-	for _, descendant := range r.GetDescendantRoles() {
-		descendant.GetAllImplicitPermissions(grpPermissions)
+	for _, role := range append([]*Role{r}, r.GetDescendantRoles()...) {
+		for resourceGroup, permissions := range role.GetPermissions() {
+			grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
+		}
 	}
 	return grpPermissions
 }
diff --git a/tenant.go b/tenant.go
index 9288c37..c010f9a 100644
--- a/tenant.go
+++ b/tenant.go
@@ -29,11 +29,19 @@ func (c *Tenant) AddNamespace(n *Namespace) *Namespace {
 }
 
 func (c *Tenant) GetDescendants() (data []any) {
-	c.descendants.ForEach(func(id string, t *Tenant) bool {
-		data = append(data, id)
-		data = append(data, t.GetDescendants()...)
-		return true
-	})
+	visited := map[*Tenant]struct{}{c: {}}
+	var walk func(tenant *Tenant)
+	walk = func(tenant *Tenant) {
+		tenant.descendants.ForEach(func(id string, t *Tenant) bool {
+			if _, seen := visited[t]; !seen {
+				visited[t] = struct{}{}
+				data = append(data, id)
+				walk(t)
+			}
+			return true
+		})
+	}
+	walk(c)
 	return
 }
 
-- 
2.43.0


From fd6cb9b9e5065e8ca9c1ed91345161242eb99b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:11 +0000
Subject: [PATCH 14/26] fix: tenant's default namespace races with its readers

---
 tenant.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tenant.go b/tenant.go
index c010f9a..e4dcb84 100644
--- a/tenant.go
+++ b/tenant.go
@@ -2,6 +2,7 @@ package permission
 
 import (
 	"errors"
+	"sync/atomic"
 
 	maps "github.com/oarkflow/xsync"
 )
@@ -14,7 +15,7 @@ func WithTenant(tenant any) func(*Option) {
 
 type Tenant struct {
 	descendants      maps.IMap[string, *Tenant]
-	defaultNamespace *Namespace
+	defaultNamespace atomic.Pointer[Namespace]
 	manager          *RoleManager
 	id               string
 }
@@ -48,9 +49,9 @@ func (c *Tenant) GetDescendants() (data []any) {
 func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
 	for _, descendant := range descendants {
 		c.descendants.GetOrSet(descendant.id, descendant)
-		if c.defaultNamespace != nil {
-			descendant.AddNamespace(c.defaultNamespace)
-			descendant.SetDefaultNamespace(c.defaultNamespace.id)
+		if n := c.defaultNamespace.Load(); n != nil {
+			descendant.AddNamespace(n)
+			descendant.SetDefaultNamespace(n.id)
 		}
 	}
 	return nil
@@ -68,7 +69,7 @@ func (c *Tenant) AddScopesToNamespace(namespaceID, scopeID string) {
 
 func (c *Tenant) SetDefaultNamespace(nms string) {
 	if n, ok := c.manager.namespaces.Get(nms); ok {
-		c.defaultNamespace = n
+		c.defaultNamespace.Store(n)
 	}
 }
 
@@ -106,8 +107,8 @@ func (c *Tenant) AddPrincipalWithRole(principalID, roleID string, manageDescenda
 		return errors.New("no role available")
 	}
 	c.manager.AddData(&Data{Tenant: c.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
-	if c.defaultNamespace != nil {
-		c.manager.AddData(&Data{Tenant: c.id, Namespace: c.defaultNamespace.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
+	if n := c.defaultNamespace.Load(); n != nil {
+		c.manager.AddData(&Data{Tenant: c.id, Namespace: n.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
 	}
 	return nil
 }
@@ -130,8 +131,8 @@ func (c *Tenant) AddScopeToPrincipal(principalID, scopeID string, manageDescenda
 		return errors.New("no scope available")
 	}
 	c.manager.AddData(&Data{Tenant: c.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
-	if c.defaultNamespace != nil {
-		c.manager.AddData(&Data{Tenant: c.id, Namespace: c.defaultNamespace.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
+	if n := c.defaultNamespace.Load(); n != nil {
+		c.manager.AddData(&Data{Tenant: c.id, Namespace: n.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
 	}
 	return nil
 }
-- 
2.43.0


From 9697dc8d50b0d532fcaeac5d64d30fd2371c7cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:12 +0000
Subject: [PATCH 15/26] fix: implicit tenants are cached forever and depend on
 the order of assignments

---
 query.go        |  8 --------
 role_manager.go | 11 +----------
 2 files changed, 1 insertion(+), 18 deletions(-)

diff --git a/query.go b/query.go
index 7f6b636..1ddae40 100644
--- a/query.go
+++ b/query.go
@@ -37,17 +37,10 @@ func (u *RoleManager) GetDescendantTenant(desc any) []any {
 }
 
 func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{} {
-	principalTenant, exists := u.principalCache.Get(principalID)
-	if exists {
-		return principalTenant
-	}
 	tenantPrincipal := u.search(Data{Principal: principalID}, filterTenantsByPrincipal)
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
 		tenantID := rs.Tenant.(string)
-		if _, alreadyProcessed := existingTenant[tenantID]; alreadyProcessed {
-			continue
-		}
 		existingTenant[tenantID] = struct{}{}
 		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {
 			for _, desc := range u.TenantChildren(tenantID) {
@@ -57,7 +50,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 			}
 		}
 	}
-	u.principalCache.Set(principalID, existingTenant)
 	return existingTenant
 }
 
diff --git a/role_manager.go b/role_manager.go
index 69731f3..3d281c7 100644
--- a/role_manager.go
+++ b/role_manager.go
@@ -20,8 +20,6 @@ type RoleManager struct {
 	attributes      maps.IMap[string, *Attribute]
 	attributeGroups maps.IMap[string, *AttributeGroup]
 	trie            *trie.Trie[Data]
-	hierarchy       maps.IMap[string, []any]
-	principalCache  maps.IMap[string, map[string]struct{}]
 }
 
 func New() *RoleManager {
@@ -34,8 +32,6 @@ func New() *RoleManager {
 		attributes:      maps.NewMap[string, *Attribute](),
 		attributeGroups: maps.NewMap[string, *AttributeGroup](),
 		trie:            trie.New[Data](FilterFunc, DataKeyExtractor),
-		hierarchy:       maps.NewMap[string, []any](),
-		principalCache:  maps.NewMap[string, map[string]struct{}](),
 	}
 }
 
@@ -124,16 +120,11 @@ func (u *RoleManager) TotalScopes() int {
 }
 
 func (u *RoleManager) TenantChildren(t string) []any {
-	if hierarchy, exists := u.hierarchy.Get(t); exists {
-		return hierarchy
-	}
 	tenant, exists := u.GetTenant(t)
 	if !exists {
 		return nil
 	}
-	hierarchy := tenant.GetDescendants()
-	u.hierarchy.Set(t, utils.Compact(hierarchy))
-	return hierarchy
+	return utils.Compact(tenant.GetDescendants())
 }
 
 func (u *RoleManager) TotalTenants() int {
-- 
2.43.0


From 3f3e9818f8fb01aec5098f1cd6a3f75998e3fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:13 +0000
Subject: [PATCH 16/26] fix: no role is ever found for a tenant

---
 filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters.go b/filters.go
index 3b79b4d..2809bb1 100644
--- a/filters.go
+++ b/filters.go
@@ -62,7 +62,7 @@ func filterScopeByPrincipal(filter *Data, row *Data) bool {
 }
 
 func filterRoleByTenant(filter *Data, row *Data) bool {
-	return MatchTenant(row, filter) && MatchRole(row, filter)
+	return MatchTenant(row, filter) && !utils.IsNil(row.Role)
 }
 
 func filterNamespaceByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From 8fc228fdc4b4f0c73c2b264b889fd879abb69305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 17/26] fix: a principal is authorized in tenants through
 unrelated tenants and other principals

---
 authorize.go | 44 +++++++++++++++++++++-----------------------
 filters.go   |  9 +++------
 query.go     | 14 ++++++++++++++
 3 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/authorize.go b/authorize.go
index 9b79c4e..b41a972 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,6 +22,11 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
+	if svr.tenant != nil {
+		if _, ok := userRoles[svr.tenant.(string)]; !ok {
+			return false
+		}
+	}
 	noActivity := !(svr.activityGroup != nil && svr.activity != nil)
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
@@ -31,10 +36,10 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 		return true
 	}
-	for tenant := range userRoles {
-		if svr.tenant == tenant && svr.tenant != nil {
-			continue
-		}
+	if svr.tenant == nil {
+		return false
+	}
+	for _, tenant := range u.getManagingTenants(principalID, svr.tenant) {
 		svr.tenant = tenant
 		if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 			return true
@@ -109,12 +114,23 @@ func (u *RoleManager) checkActivity(principalID string, svr *Option, tFlagProvid
 		roles, allowedRoles = u.collectRolesByTenantAndScope(principalID, svr.tenant, svr.scope)
 	}
 	if nsFlagProvided {
-		roles, allowedRoles = u.collectRolesByNamespaceAndScope(principalID, svr.namespace, svr.scope)
+		// The tenants of the principal are independent of each other
+		for _, tenant := range u.GetTenantsByPrincipal(principalID) {
+			roles, allowedRoles = u.collectRolesByTenantNamespaceAndScope(principalID, tenant, svr.namespace, svr.scope)
+			if u.hasActivity(svr, roles, allowedRoles) {
+				return true
+			}
+		}
+		return false
 	}
 	if tnsFlagProvided {
 		roles, allowedRoles = u.collectRolesByTenantNamespaceAndScope(principalID, svr.tenant, svr.namespace, svr.scope)
 	}
 
+	return u.hasActivity(svr, roles, allowedRoles)
+}
+
+func (u *RoleManager) hasActivity(svr *Option, roles, allowedRoles []string) bool {
 	if len(roles) == 0 {
 		return false
 	}
@@ -171,24 +187,6 @@ func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, s
 	return
 }
 
-func (u *RoleManager) collectRolesByNamespaceAndScope(principalID string, namespace, scope any) (roles, allowedRoles []string) {
-	for _, t := range u.GetTenants(principalID) {
-		for _, d := range u.GetRolesByTenant(t.Tenant) {
-			if d.Role != nil {
-				allowedRoles = append(allowedRoles, d.Role.(string))
-			}
-		}
-		for _, d := range u.GetRolesForPrincipalByTenantNamespaceAndScope(principalID, t.Tenant, namespace, scope) {
-			if d.Role != nil {
-				if (d.Namespace == nil || d.Namespace == namespace) && (d.Scope == nil || d.Scope == scope) {
-					roles = append(roles, d.Role.(string))
-				}
-			}
-		}
-	}
-	return
-}
-
 func (u *RoleManager) collectRolesByTenantNamespaceAndScope(principalID string, tenant, namespace, scope any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesByTenant(tenant) {
 		if d.Role != nil {
diff --git a/filters.go b/filters.go
index 2809bb1..7e7102a 100644
--- a/filters.go
+++ b/filters.go
@@ -108,24 +108,21 @@ func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bo
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchNamespace(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchScope(row, filter) && MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter)
 }
 
 func filterRoleForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		MatchNamespace(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter)
 }
 
 func filterRoleForPrincipalByTenantAndScope(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) || MatchScope(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter)
 }
 
 func filterNamespaceForPrincipalByTenant(filter *Data, row *Data) bool {
diff --git a/query.go b/query.go
index 1ddae40..bd3c8f7 100644
--- a/query.go
+++ b/query.go
@@ -53,6 +53,20 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	return existingTenant
 }
 
+// getManagingTenants returns the tenants above the given one where the
+// principal may manage descendants.
+func (u *RoleManager) getManagingTenants(principalID, tenantID any) (data []any) {
+	for _, rs := range u.search(Data{Principal: principalID}, filterTenantsByPrincipal) {
+		if canManage, ok := rs.ManageDescendants.(bool); !ok || !canManage || rs.Tenant == tenantID {
+			continue
+		}
+		if utils.Contains(u.TenantChildren(rs.Tenant.(string)), tenantID) {
+			data = append(data, rs.Tenant)
+		}
+	}
+	return utils.Compact(data)
+}
+
 func (u *RoleManager) GetScopesByPrincipal(principalID any) (data []*Data) {
 	results := u.search(Data{Principal: principalID}, filterScopeByPrincipal)
 	return results
-- 
2.43.0


From c96ca48937d6e461547da8e7590ca5d1a3e5366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:15 +0000
Subject: [PATCH 18/26] fix: a request naming only a group or an activity is
 checked as if it named neither

---
 authorize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index b41a972..9d12195 100644
--- a/authorize.go
+++ b/authorize.go
@@ -27,7 +27,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 			return false
 		}
 	}
-	noActivity := !(svr.activityGroup != nil && svr.activity != nil)
+	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
 	tsFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope != nil
-- 
2.43.0


From 922c905fb4801dd61e6d7f8efbe4e22512dd80f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:16 +0000
Subject: [PATCH 19/26] fix: scopes listed for a principal come from an
 arbitrary tenant

---
 activity_group.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/activity_group.go b/activity_group.go
index a6386f0..71e5887 100644
--- a/activity_group.go
+++ b/activity_group.go
@@ -1,6 +1,8 @@
 package permission
 
 import (
+	"sort"
+
 	"github.com/oarkflow/permission/utils"
 )
 
@@ -39,15 +41,13 @@ func (u *RoleManager) GetScopesWithRolesForPrincipal(principalID, tenantID, name
 	data := Data{Principal: principalID, Tenant: tenantID, Namespace: namespaceID}
 	tenantPrincipals := u.search(data, filterPrincipalByTenant)
 	if len(tenantPrincipals) == 0 {
-		for tenant := range u.GetImplicitTenants(principalID.(string)) {
-			if tenant == tenantID {
-				continue
-			}
-			data.Tenant = tenant
+		managing := u.getManagingTenants(principalID, tenantID)
+		sort.Slice(managing, func(i, j int) bool {
+			return utils.ToString(managing[i]) < utils.ToString(managing[j])
+		})
+		if len(managing) > 0 {
+			data.Tenant = managing[0]
 			tenantPrincipals = u.search(data, filterPrincipalByTenant)
-			if len(tenantPrincipals) > 0 {
-				break
-			}
 		}
 	}
 
-- 
2.43.0


From f0224f295d10eac17e8b8d7ef2c4d8c1e6e2620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:35 +0000
Subject: [PATCH 20/26] fix: v1 cyclic hierarchies recurse forever, inherited
 permissions depend on own groups

---
 v1/role.go   | 73 +++++++++++++++++++++++++++-------------------------
 v1/tenant.go | 18 +++++++++----
 2 files changed, 51 insertions(+), 40 deletions(-)

diff --git a/v1/role.go b/v1/role.go
index b4ab22a..8218e77 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -54,6 +54,24 @@ func (r *Role) Unlock() {
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
+	if r.hasOwn(resourceGroup, permissionName) {
+		return true
+	}
+	totalD := len(allowedDescendants)
+	// Check inherited permissions
+	for _, descendant := range r.GetDescendantRoles() {
+		if totalD > 0 && !slices.Contains(allowedDescendants, descendant.id) {
+			continue
+		}
+		if descendant.hasOwn(resourceGroup, permissionName) {
+			return true
+		}
+	}
+	return false
+}
+
+// hasOwn tells whether the role itself has the permission
+func (r *Role) hasOwn(resourceGroup, permissionName string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
 	if !ok || resourceGroupPermissions == nil {
 		return false
@@ -69,34 +87,26 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 		}
 		return true
 	})
-	if matched {
-		return true
-	}
-	totalD := len(allowedDescendants)
-	// Check inherited permissions recursively
-	for _, descendant := range r.GetDescendantRoles() {
-		if totalD > 0 {
-			if slices.Contains(allowedDescendants, descendant.id) {
-				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-					return true
-				}
-			}
-		} else {
-			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-				return true
-			}
-		}
-	}
-	return false
+	return matched
 }
 
+// GetDescendantRoles returns every role below this one once; roles may be
+// shared or refer back to an ancestor.
 func (r *Role) GetDescendantRoles() []*Role {
 	var descendants []*Role
-	r.descendants.ForEach(func(_ string, child *Role) bool {
-		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantRoles()...)
-		return true
-	})
+	visited := map[*Role]struct{}{r: {}}
+	var walk func(role *Role)
+	walk = func(role *Role) {
+		role.descendants.ForEach(func(_ string, child *Role) bool {
+			if _, seen := visited[child]; !seen {
+				visited[child] = struct{}{}
+				descendants = append(descendants, child)
+				walk(child)
+			}
+			return true
+		})
+	}
+	walk(r)
 	return descendants
 }
 
@@ -162,17 +172,10 @@ func (r *Role) GetAllImplicitPermissions(perm ...map[string][]Attribute) map[str
 	} else {
 		grpPermissions = make(map[string][]Attribute)
 	}
-	r.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
-		var permissions []Attribute
-		grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
-			permissions = append(permissions, *attr)
-			return true
-		})
-		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
-		return true
-	})
-	for _, descendant := range r.GetDescendantRoles() {
-		descendant.GetAllImplicitPermissions(grpPermissions)
+	for _, role := range append([]*Role{r}, r.GetDescendantRoles()...) {
+		for resourceGroup, permissions := range role.GetPermissions() {
+			grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
+		}
 	}
 	return grpPermissions
 }
diff --git a/v1/tenant.go b/v1/tenant.go
index 56e345d..bc8b243 100644
--- a/v1/tenant.go
+++ b/v1/tenant.go
@@ -20,11 +20,19 @@ func (c *Tenant) ID() string {
 
 func (c *Tenant) GetDescendantTenants() []*Tenant {
 	var descendants []*Tenant
-	c.descendants.ForEach(func(_ string, child *Tenant) bool {
-		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantTenants()...)
-		return true
-	})
+	visited := map[*Tenant]struct{}{c: {}}
+	var walk func(tenant *Tenant)
+	walk = func(tenant *Tenant) {
+		tenant.descendants.ForEach(func(_ string, child *Tenant) bool {
+			if _, seen := visited[child]; !seen {
+				visited[child] = struct{}{}
+				descendants = append(descendants, child)
+				walk(child)
+			}
+			return true
+		})
+	}
+	walk(c)
 	return descendants
 }
 
-- 
2.43.0


From c5eaf274b6a4183ace4f7a8a7f16c541324f8b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:36 +0000
Subject: [PATCH 21/26] fix: v1 assignments are mangled by underscores in
 identifiers and recorded without a lock

---
 v1/role_manager.go | 65 +++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 3a9a260..d7ed461 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -5,7 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"slices"
-	"strings"
+	"sync"
 
 	"github.com/oarkflow/maps"
 
@@ -38,7 +38,8 @@ type RoleManager struct {
 	roles            maps.IMap[string, *Role]
 	attributes       maps.IMap[string, *Attribute]
 	attributeGroups  maps.IMap[string, *AttributeGroup]
-	tenantPrincipals map[string]struct{}
+	rowsMu           sync.RWMutex // guards tenantPrincipals
+	tenantPrincipals map[TenantPrincipal]struct{}
 }
 
 func New() *RoleManager {
@@ -50,7 +51,7 @@ func New() *RoleManager {
 		roles:            maps.New[string, *Role](),
 		attributes:       maps.New[string, *Attribute](),
 		attributeGroups:  maps.New[string, *AttributeGroup](),
-		tenantPrincipals: make(map[string]struct{}),
+		tenantPrincipals: make(map[TenantPrincipal]struct{}),
 	}
 }
 
@@ -271,20 +272,15 @@ func getScopeID(n *Scope) string {
 	return n.ID()
 }
 
-func getTenantPrincipals(hash string) TenantPrincipal {
-	parts := strings.Split(hash, "_")
-	m := false
-	if parts[5] == "true" {
-		m = true
-	}
-	return TenantPrincipal{
-		TenantID:             parts[2],
-		PrincipalID:          parts[0],
-		RoleID:               parts[1],
-		NamespaceID:          parts[3],
-		ScopeID:              parts[4],
-		CanManageDescendants: m,
+// principalRows returns a snapshot of the recorded assignments.
+func (u *RoleManager) principalRows() []TenantPrincipal {
+	u.rowsMu.RLock()
+	defer u.rowsMu.RUnlock()
+	rows := make([]TenantPrincipal, 0, len(u.tenantPrincipals))
+	for row := range u.tenantPrincipals {
+		rows = append(rows, row)
 	}
+	return rows
 }
 
 func (u *RoleManager) AddPrincipalRole(principalID string, roleID string, tenant *Tenant, namespace *Namespace, scope *Scope, canManageDescendants ...bool) {
@@ -292,15 +288,21 @@ func (u *RoleManager) AddPrincipalRole(principalID string, roleID string, tenant
 	if len(canManageDescendants) > 0 {
 		manageDescendants = canManageDescendants[0]
 	}
-	h := fmt.Sprintf("%s_%s_%s_%s_%s_%v", principalID, roleID, tenant.ID(), getNamespaceID(namespace), getScopeID(scope), manageDescendants)
-	if _, exists := u.tenantPrincipals[h]; !exists {
-		u.tenantPrincipals[h] = struct{}{}
+	row := TenantPrincipal{
+		TenantID:             tenant.ID(),
+		PrincipalID:          principalID,
+		RoleID:               roleID,
+		NamespaceID:          getNamespaceID(namespace),
+		ScopeID:              getScopeID(scope),
+		CanManageDescendants: manageDescendants,
 	}
+	u.rowsMu.Lock()
+	defer u.rowsMu.Unlock()
+	u.tenantPrincipals[row] = struct{}{}
 }
 
 func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []string, err error) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for _, unmarshalled := range u.principalRows() {
 		if unmarshalled.PrincipalID == principalID {
 			tenants = append(tenants, unmarshalled.TenantID)
 		}
@@ -315,8 +317,7 @@ type PrincipalPermissions struct {
 }
 
 func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for _, unmarshalled := range u.principalRows() {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -325,8 +326,7 @@ func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []Tena
 }
 
 func (u *RoleManager) GetTenantRoles(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for _, unmarshalled := range u.principalRows() {
 		if unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -339,8 +339,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 	if tenant, ok := u.tenants.Get(tenantID); ok {
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
-				for tenantPrincipal := range u.tenantPrincipals {
-					unmarshalled := getTenantPrincipals(tenantPrincipal)
+				for _, unmarshalled := range u.principalRows() {
 					if unmarshalled.TenantID == id {
 						data = append(data, unmarshalled)
 					}
@@ -353,8 +352,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 }
 
 func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (data []PrincipalPermissions) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for _, unmarshalled := range u.principalRows() {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
 			if unmarshalled.RoleID != "" {
 				if r, ok := u.roles.Get(unmarshalled.RoleID); ok {
@@ -371,8 +369,7 @@ func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (da
 }
 
 func (u *RoleManager) GetPrincipalRolesByTenant(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for _, unmarshalled := range u.principalRows() {
 		if unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -411,8 +408,7 @@ func (u *RoleManager) GetScopesForPrincipal(principalID string) ([]string, error
 		return nil, errors.New("no principal available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for _, unmarshalled := range u.principalRows() {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" {
 			scopes = append(scopes, unmarshalled.ScopeID)
 		}
@@ -430,8 +426,7 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 		return nil, errors.New("no tenant available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for _, unmarshalled := range u.principalRows() {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" && unmarshalled.TenantID == tenantID {
 			scopes = append(scopes, unmarshalled.ScopeID)
 		}
-- 
2.43.0


From 747de004d0474887dd2e982ccd29c0e1bd6d3cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:37 +0000
Subject: [PATCH 22/26] fix: v1 GetAllowedRoles returns a buffer that is handed
 out again

---
 v1/role_manager.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index d7ed461..8ce27d8 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -435,7 +435,7 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 }
 
 func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespace, scope string) []string {
-	if principalRoles == nil {
+	if len(principalRoles) == 0 {
 		return nil
 	}
 	// Reusable slices
@@ -454,7 +454,10 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 		principalRoleSlice.Put(principalNamespaceScopeRole)
 	}()
 	tenantID := principalRoles[0].TenantID
-	tenant, _ := u.tenants.Get(tenantID)
+	tenant, exists := u.tenants.Get(tenantID)
+	if !exists {
+		return nil
+	}
 	mod, modExists := tenant.namespaces.Get(namespace)
 	_, entExists := tenant.scopes.Get(scope)
 	if (scope != "" && !entExists) || (namespace != "" && !modExists) {
@@ -509,7 +512,8 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 			return nil
 		}
 	}
-	return slices.Compact(allowedRoles)
+	// The buffer goes back to the pool, the caller gets a copy
+	return slices.Clone(slices.Compact(allowedRoles))
 }
 func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bool {
 	svr := &Option{}
-- 
2.43.0


From fdd92517072d03175deb03e66145d01a10d064ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:38 +0000
Subject: [PATCH 23/26] fix: v1 principals are authorized in tenants they are
 not assigned to

---
 v1/role_manager.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 8ce27d8..17cfdcb 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -526,7 +526,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 
 	// Check if only tenant is provided
 	if svr.tenant != nil && svr.namespace == nil && svr.scope == nil && svr.resourceGroup == nil && svr.activity == nil {
-		return u.authorizeForTenant(utils.ToString(svr.tenant))
+		return u.authorizeForTenant(principalID, utils.ToString(svr.tenant))
 	}
 
 	// Check if only namespace is provided
@@ -610,18 +610,23 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 			return true
 		}
 	}
+	if len(userRoles) == 0 {
+		return false
+	}
 	tenantRoles := u.GetTenantRoles(tenantID)
 	for _, r := range tenantRoles {
-		if r.NamespaceID == namespaceID && r.ScopeID == scopeID {
+		if r.PrincipalID == "" && r.NamespaceID == namespaceID && r.ScopeID == scopeID {
 			return true
 		}
 	}
 	return false
 }
 
-func (u *RoleManager) authorizeForTenant(tenantID string) bool {
-	_, exists := u.GetTenant(tenantID)
-	return exists
+func (u *RoleManager) authorizeForTenant(principalID, tenantID string) bool {
+	if _, exists := u.GetTenant(tenantID); !exists {
+		return false
+	}
+	return len(u.GetPrincipalRoles(tenantID, principalID)) > 0
 }
 
 func (u *RoleManager) authorizeForNamespace(principalID, namespace string) bool {
-- 
2.43.0


From 7829f21636d5e79a07f3441709a7ac782cbb4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:39 +0000
Subject: [PATCH 24/26] fix: v1 concurrent registrations of one identifier
 overwrite each other

---
 v1/role_manager.go | 60 +++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 17cfdcb..a10aca3 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -31,6 +31,7 @@ type TenantPrincipal struct {
 }
 
 type RoleManager struct {
+	mu               sync.Mutex // serializes registrations
 	tenants          maps.IMap[string, *Tenant]
 	namespaces       maps.IMap[string, *Namespace]
 	scopes           maps.IMap[string, *Scope]
@@ -55,12 +56,20 @@ func New() *RoleManager {
 	}
 }
 
-func (u *RoleManager) AddAttribute(attr *Attribute) *Attribute {
-	if d, ok := u.attributes.Get(attr.String()); ok {
-		return d
+// register stores value under id, unless there is one already, and returns the
+// one in use.
+func register[V any](u *RoleManager, registry maps.IMap[string, V], id string, value V) V {
+	u.mu.Lock()
+	defer u.mu.Unlock()
+	if existing, ok := registry.Get(id); ok {
+		return existing
 	}
-	u.attributes.Set(attr.String(), attr)
-	return attr
+	registry.Set(id, value)
+	return value
+}
+
+func (u *RoleManager) AddAttribute(attr *Attribute) *Attribute {
+	return register(u, u.attributes, attr.String(), attr)
 }
 
 func (u *RoleManager) AddAttributes(attrs ...*Attribute) {
@@ -78,11 +87,7 @@ func (u *RoleManager) TotalAttributes() uintptr {
 }
 
 func (u *RoleManager) AddAttributeGroup(attr *AttributeGroup) *AttributeGroup {
-	if d, ok := u.attributeGroups.Get(attr.id); ok {
-		return d
-	}
-	u.attributeGroups.Set(attr.id, attr)
-	return attr
+	return register(u, u.attributeGroups, attr.id, attr)
 }
 
 func (u *RoleManager) AddAttributeGroups(attrs ...*AttributeGroup) {
@@ -128,11 +133,7 @@ func (u *RoleManager) Attributes() (data []string) {
 }
 
 func (u *RoleManager) AddRole(role *Role) *Role {
-	if r, exists := u.roles.Get(role.id); exists {
-		return r
-	}
-	u.roles.Set(role.id, role)
-	return role
+	return register(u, u.roles, role.id, role)
 }
 
 func (u *RoleManager) AddRoles(roles ...*Role) {
@@ -154,12 +155,13 @@ func (u *RoleManager) Roles() (data []string) {
 }
 
 func (u *RoleManager) AddTenant(data *Tenant) *Tenant {
-	data.manager = u
-	if d, ok := u.tenants.Get(data.id); ok {
-		return d
+	u.mu.Lock()
+	// A tenant that is registered again may already be in use
+	if data.manager != u {
+		data.manager = u
 	}
-	u.tenants.Set(data.id, data)
-	return data
+	u.mu.Unlock()
+	return register(u, u.tenants, data.id, data)
 }
 
 func (u *RoleManager) AddTenants(tenants ...*Tenant) {
@@ -181,11 +183,7 @@ func (u *RoleManager) Tenants() (data []string) {
 }
 
 func (u *RoleManager) AddNamespace(data *Namespace) *Namespace {
-	if d, ok := u.namespaces.Get(data.id); ok {
-		return d
-	}
-	u.namespaces.Set(data.id, data)
-	return data
+	return register(u, u.namespaces, data.id, data)
 }
 
 func (u *RoleManager) AddNamespaces(nms ...*Namespace) {
@@ -207,11 +205,7 @@ func (u *RoleManager) Namespaces() (data []string) {
 }
 
 func (u *RoleManager) AddPrincipal(data *Principal) *Principal {
-	if d, ok := u.principals.Get(data.id); ok {
-		return d
-	}
-	u.principals.Set(data.id, data)
-	return data
+	return register(u, u.principals, data.id, data)
 }
 
 func (u *RoleManager) AddPrincipals(principals ...*Principal) {
@@ -233,11 +227,7 @@ func (u *RoleManager) Principals() (data []string) {
 }
 
 func (u *RoleManager) AddScope(data *Scope) *Scope {
-	if d, ok := u.scopes.Get(data.id); ok {
-		return d
-	}
-	u.scopes.Set(data.id, data)
-	return data
+	return register(u, u.scopes, data.id, data)
 }
 
 func (u *RoleManager) AddScopes(scopes ...*Scope) {
-- 
2.43.0


From 4664bff0d81be7a7278d9b49fbcd09adeaea43e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:40 +0000
Subject: [PATCH 25/26] fix: v1 role lock, default namespace and permission
 groups race

---
 v1/role.go   | 19 +++++++++++++------
 v1/tenant.go | 24 +++++++++++++-----------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/v1/role.go b/v1/role.go
index 8218e77..cb3b09d 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -3,6 +3,8 @@ package v1
 import (
 	"errors"
 	"slices"
+	"sync"
+	"sync/atomic"
 
 	"github.com/oarkflow/maps"
 
@@ -38,11 +40,12 @@ type Role struct {
 	permissions maps.IMap[string, *AttributeGroup]
 	descendants maps.IMap[string, *Role]
 	id          string
-	lock        bool
+	lock        atomic.Bool
+	mu          sync.Mutex // serializes changes of permission groups
 }
 
 func (r *Role) Lock() {
-	r.lock = true
+	r.lock.Store(true)
 }
 
 func (r *Role) ID() string {
@@ -50,7 +53,7 @@ func (r *Role) ID() string {
 }
 
 func (r *Role) Unlock() {
-	r.lock = false
+	r.lock.Store(false)
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
@@ -112,7 +115,7 @@ func (r *Role) GetDescendantRoles() []*Role {
 
 // AddDescendent adds a new permission to the role
 func (r *Role) AddDescendent(descendants ...*Role) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
 	for _, descendant := range descendants {
@@ -125,9 +128,11 @@ func (r *Role) AddDescendent(descendants ...*Role) error {
 
 // AddPermission adds a new permission to the role
 func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
 	if !exists || resourceGroupAttributes == nil {
 		resourceGroupAttributes = &AttributeGroup{
@@ -146,9 +151,11 @@ func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) er
 }
 
 func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
 		r.permissions.Set(resourceGroup.id, resourceGroup)
 	}
diff --git a/v1/tenant.go b/v1/tenant.go
index bc8b243..ac6a50f 100644
--- a/v1/tenant.go
+++ b/v1/tenant.go
@@ -1,6 +1,8 @@
 package v1
 
 import (
+	"sync/atomic"
+
 	"github.com/oarkflow/maps"
 )
 
@@ -9,7 +11,7 @@ type Tenant struct {
 	roles            maps.IMap[string, *Role]
 	scopes           maps.IMap[string, *Scope]
 	descendants      maps.IMap[string, *Tenant]
-	defaultNamespace *Namespace
+	defaultNamespace atomic.Pointer[Namespace]
 	manager          *RoleManager
 	id               string
 }
@@ -48,7 +50,7 @@ func (c *Tenant) AddDescendent(descendants ...*Tenant) error {
 
 func (c *Tenant) SetDefaultNamespace(namespace string) {
 	if mod, ok := c.namespaces.Get(namespace); ok {
-		c.defaultNamespace = mod
+		c.defaultNamespace.Store(mod)
 	}
 }
 
@@ -73,9 +75,9 @@ func (c *Tenant) AddScopes(scopes ...*Scope) {
 		if _, ok := c.scopes.Get(scope.id); !ok {
 			c.scopes.Set(scope.id, scope)
 		}
-		if c.defaultNamespace != nil {
-			if _, ok := c.defaultNamespace.scopes.Get(scope.id); !ok {
-				c.defaultNamespace.scopes.Set(scope.id, scope)
+		if n := c.defaultNamespace.Load(); n != nil {
+			if _, ok := n.scopes.Get(scope.id); !ok {
+				n.scopes.Set(scope.id, scope)
 			}
 		}
 	}
@@ -120,8 +122,8 @@ func (c *Tenant) AddPrincipal(principal string, roles ...string) {
 	for _, role := range roles {
 		if _, ok := c.roles.Get(role); ok {
 			c.AddPrincipalRole(principal, role, c, nil, nil)
-			if c.defaultNamespace != nil {
-				c.AddPrincipalRole(principal, role, c, c.defaultNamespace, nil)
+			if n := c.defaultNamespace.Load(); n != nil {
+				c.AddPrincipalRole(principal, role, c, n, nil)
 			}
 		}
 	}
@@ -159,8 +161,8 @@ func (c *Tenant) AssignScopesToPrincipal(principalID string, scopes ...string) {
 		if scope, ok := c.scopes.Get(id); ok {
 			for _, role := range principal {
 				c.AddPrincipalRole(principalID, role.RoleID, c, nil, scope)
-				if c.defaultNamespace != nil {
-					c.AddPrincipalRole(principalID, role.RoleID, c, c.defaultNamespace, scope)
+				if n := c.defaultNamespace.Load(); n != nil {
+					c.AddPrincipalRole(principalID, role.RoleID, c, n, scope)
 				}
 			}
 			c.AddPrincipalRole(principalID, "", c, nil, scope)
@@ -183,8 +185,8 @@ func (c *Tenant) AssignScopesWithRole(principalID, roleId string, scopes ...stri
 	for _, id := range scopes {
 		if scope, ok := c.scopes.Get(id); ok {
 			c.AddPrincipalRole(principalID, roleId, c, nil, scope)
-			if c.defaultNamespace != nil {
-				c.AddPrincipalRole(principalID, roleId, c, c.defaultNamespace, scope)
+			if n := c.defaultNamespace.Load(); n != nil {
+				c.AddPrincipalRole(principalID, roleId, c, n, scope)
 			}
 		}
 	}
-- 
2.43.0


From 942c72d59c9ae001b819812ef4db5e11105fa2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:11 +0000
Subject: [PATCH 26/26] fix: a request racing with the first assignment in a
 tenant counts every descendant role

---
 authorize.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/authorize.go b/authorize.go
index 9d12195..8570e1d 100644
--- a/authorize.go
+++ b/authorize.go
@@ -135,6 +135,9 @@ func (u *RoleManager) hasActivity(svr *Option, roles, allowedRoles []string) boo
 		return false
 	}
 
+	// The roles of the principal may have been recorded after the others were
+	// collected; without any allowed role every descendant would count.
+	allowedRoles = append(allowedRoles, roles...)
 	for _, role := range slices.Compact(roles) {
 		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), slices.Compact(allowedRoles)...) {
 			return true
-- 
2.43.0

