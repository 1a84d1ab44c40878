#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "v2: a request is granted exactly when a live assignment confers it",
 "Whenever no administrative change is in flight, the v2 authorizer grants a request if and only if, in the tenant it names (or the default tenant, or with neither, some active tenant in which the principal holds an assignment), its namespace and scope exist and an unexpired assignment of that principal, in that tenant or in a child tenant reached through the principal's unexpired child-managing assignments, covers that namespace and gives a role with an own or inherited permission matching both the resource and the action. "
 "Permissions assigned for exactly the requested scope take the place of the assignments without a scope whenever there are any, an assignment for another scope, namespace, tenant or principal never counts, and everything else is denied. "
 "The answer depends only on that state and the clock: not on the order in which the state was built, on earlier questions, or on how often a question is asked.",
 ["histories", "configurations", "inputs"],
 "every history of administrative calls (tenants, child tenants, namespaces, scopes, roles, permissions, inheritance, assignments, default tenant, expiry) interleaved with requests and clock movement, every request, every map iteration order and pool behaviour",
 "the 8 v2 tests ask one request each of one fixed three-object configuration; none builds a hierarchy, removes anything, asks twice or reaches the clock",
 ["v2/v2.go", "v2/role.go", "v2/init.go", "v2/entities.go", "utils/str.go"],
 [("target tenant selection, namespace/scope validation and permission matching", "v2/v2.go Authorize, findTargetTenants"), ("assignment collection over the managed tenant tree", "v2/v2.go resolvePrincipalPermissions"), ("role inheritance closure", "v2/role.go ResolvePermissions")],
 [("assignments", "who holds which role where", "v2/v2.go Authorizer.userRoles"), ("role graph", "roles, their permissions and inheritance edges", "v2/role.go RoleDAG")],
 ["Authorizer.Authorize return value"])

prop("C02", "v2: a finished change is in force; a racing request sees before or after",
 "When requests run concurrently with administrative changes of the v2 authorizer, every request that starts after a change has returned is decided with that change in force (a revoked assignment or permission no longer grants, a granted one no longer denies), for permissions and for role questions alike. "
 "A request that overlaps changes is decided as if each overlapping change had either happened or not: it is never granted on authority the principal had at no time during the request, and never denied because an unrelated change is in progress. "
 "Once all changes have returned, the state is exactly the result of all of them: concurrent changes are never lost, and lookups of tenants, roles and the default tenant find what was registered last.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of concurrent callers adding, removing and asking, including callers stalled in the middle of a call",
 "the tests are single-threaded; the windows are a few instructions wide and need two or more callers",
 ["v2/v2.go", "v2/role.go", "v2/init.go"],
 [("authorizer, tenant, role and role-graph locks", "v2/v2.go, v2/role.go, v2/init.go"), ("invalidation of resolved roles", "v2/role.go RoleDAG")],
 [("resolved", "memoised role closure", "v2/role.go RoleDAG.resolved")],
 ["Authorize, Can return values against the invoke/return history of all changes"])

prop("C03", "v2: an expired assignment confers nothing, at any clock reading",
 "From the first instant after its expiry an assignment in the v2 authorizer confers nothing: no permission, no role, and no reach into child tenants; up to and including the expiry instant it confers everything it names. "
 "Setting a new expiry, a duration from now, or clearing the expiry of a live assignment takes effect on the next request; a past expiry time or an unusable duration is refused with an error and leaves the assignment's expiry as it was. "
 "This holds however the clock moves, including forward and backward jumps between and during requests.",
 ["histories", "fault_sequences", "inputs"],
 "every placement of expiries, clock advances, forward and backward jumps (also exactly on, one tick before and one tick after an expiry, and in the middle of a request) and expiry edits",
 "no test sets an expiry, and the real clock cannot be placed on a boundary or moved backwards",
 ["v2/v2.go"],
 [("expiry test", "v2/v2.go PrincipalRole.IsExpired"), ("expiry edits", "v2/v2.go SetExpiry, SetExpiryDuration, ClearExpiry"), ("expiry honoured while collecting", "v2/v2.go resolvePrincipalPermissions, resolvePrincipalRoles")],
 [("expiry", "instant after which the assignment is void", "v2/v2.go PrincipalRole.Expiry")],
 ["Authorize, Can return values against the simulated clock"])

prop("C04", "v2: concurrent requests never influence each other's answer",
 "However many requests and role questions of different principals, tenants, namespaces and scopes the v2 authorizer answers at the same time, each gets exactly the answer it would get alone. "
 "Permissions or roles gathered for one request are never visible to another, also when internal buffers are recycled between them at any moment.",
 ["schedules", "fault_sequences"],
 "every interleaving of concurrent requests at statement granularity, every recycling, dropping or sharing choice the buffer pool may make",
 "single-threaded tests always get a private buffer back from the pool",
 ["v2/v2.go", "utils/pool.go"],
 [("per-request working sets", "v2/v2.go resolvePrincipalPermissions, resolvePrincipalRoles"), ("buffer pool", "utils/pool.go")],
 [("pooled sets", "working sets of a request in flight", "v2/v2.go *Pool variables")],
 ["Authorize, Can return values"])

prop("C05", "v2: concurrent use never races, crashes, deadlocks or hangs",
 "Any number of goroutines may use one v2 authorizer at once, through requests, role questions and every administrative method (assignments, tenants, child tenants, namespaces, scopes, roles, permissions, inheritance, lookups, default tenant) without any further locking by the caller. "
 "No interleaving causes a data race, a panic, a deadlock or an endless loop, and every call returns within a bounded number of steps once the others stop.",
 ["schedules", "fault_sequences"],
 "every interleaving of concurrent method calls on one authorizer and the tenants and roles registered with it (direct writes to exported struct fields and edits of an assignment object by its owner are not method calls on the authorizer and stay the owner's business)",
 "no test starts a goroutine",
 ["v2/v2.go", "v2/role.go", "v2/init.go", "v2/entities.go"],
 [("locks on authorizer, role graph, role and tenant", "v2/v2.go, v2/role.go, v2/init.go")],
 [("shared maps and slices", "all registries", "v2/v2.go Authorizer, v2/role.go RoleDAG, v2/entities.go Role, Tenant")],
 ["race detector, panics, blocked tasks and step counts of the simulated run"])

prop("C06", "v2: role inheritance stays acyclic and refusals are exact and atomic",
 "Adding child roles in the v2 authorizer is refused with an error if and only if it would make some role an ancestor of itself; shapes without a cycle, such as one role reachable along several paths, are accepted. "
 "A refused addition changes nothing, an accepted one makes every named child (and through it all its descendants) inherited at once. "
 "This holds for any order of additions and for additions made concurrently: no interleaving leaves a cycle or a half-applied addition.",
 ["histories", "schedules", "inputs"],
 "every sequence and every interleaving of child-role additions over every graph shape",
 "no test adds a child role",
 ["v2/role.go", "v2/init.go"],
 [("cycle check", "v2/role.go checkCircularDependency"), ("check and insert under one lock", "v2/role.go AddChildRole")],
 [("edges", "direct inheritance", "v2/role.go RoleDAG.edges")],
 ["AddChildRole error, ResolveChildRoles, ResolvePermissions, Authorize"])

prop("C07", "v2: role questions are exact, and asking never changes an answer",
 "Whenever no change is in flight, a v2 role question is answered yes if and only if an unexpired assignment of that principal in the request's tenant (or in a child tenant reached through unexpired child-managing assignments) covers its namespace and, when the request names a scope, that scope, and gives one of the asked roles directly or by inheritance. "
 "Role questions and permission requests, in any number and order, before or after each other and before or after a change, never alter the answer of any later one.",
 ["histories", "configurations", "inputs"],
 "every history mixing administrative calls, role questions and permission requests",
 "no test asks a role question at all",
 ["v2/v2.go", "v2/role.go"],
 [("role collection", "v2/v2.go Can, resolvePrincipalRoles"), ("role closure memo kept apart from permissions", "v2/role.go ResolveChildRoles, ResolvePermissions")],
 [("resolved", "memoised role closure", "v2/role.go RoleDAG.resolved")],
 ["Can and Authorize return values"])

prop("C08", "v2: the audit trail matches each decision and cannot disturb one",
 "With an audit logger configured, every v2 request and role question leaves exactly one final audit record carrying the request's own principal, tenant, namespace, scope, resource and action, stamped within the call and saying granted if and only if the call returned true. "
 "A failing, slow, stalled or re-entrant audit sink never changes a decision and never blocks other callers; a panic in it reaches at most the call being logged and leaves the authorizer fully usable.",
 ["fault_sequences", "schedules"],
 "every audit-sink fault (error, delay, stall, panic, re-entry into the authorizer) at every record, under every interleaving with other callers",
 "no test configures a logger",
 ["v2/v2.go"],
 [("audit call outside the locks", "v2/v2.go Log, Authorize, Can")],
 [("audit sink", "caller-supplied logger", "v2/v2.go Authorizer.auditLog")],
 ["records received by the sink, return values, progress of other callers"])

prop("C09", "v2: revocation removes exactly the matching assignments",
 "Removing assignments from the v2 authorizer by a partial description revokes every assignment that agrees with all of its non-empty parts and no other, wherever those assignments lie in the order they were made. "
 "It reports an error if and only if nothing matched, in which case nothing changes; the remaining assignments keep working, and revoked ones can be granted again. "
 "This holds for every history and for removals running concurrently with each other, with new assignments and with requests.",
 ["histories", "schedules", "inputs"],
 "every list of assignments, every removal pattern, every interleaving with other removals, additions and requests",
 "no test removes an assignment",
 ["v2/v2.go"],
 [("matching and compaction", "v2/v2.go RemovePrincipalRole")],
 [("assignments", "ordered list and per-principal index", "v2/v2.go Authorizer.userRoles, userRoleMap")],
 ["RemovePrincipalRole error, later Authorize and Can"])

prop("C10", "Role manager: tenants are isolated and grants follow the recorded facts",
 "In the root package, a principal is authorized for a tenant only through its own assignments in that tenant, or in a tenant above it where it was assigned with the right to manage descendants; assignments of other principals, or in unrelated tenants that share a namespace, scope or role name, never help. "
 "For an activity, one of the principal's roles there that applies to the requested namespace and scope must hold, itself or through a descendant role available in that tenant, a permission in the named group matching the activity; a request naming only a group or only an activity is denied. "
 "For requests without activity the requested tenant, namespace or scope must be among those recorded as open to that principal there; unregistered principals, tenants, namespaces and scopes are always denied.",
 ["histories", "inputs", "configurations"],
 "every history of registrations, assignments and hierarchy changes interleaved with requests, every request shape, every identifier (also one identifier used for several kinds of object) and every iteration order",
 "the root package has no tests at all, only a benchmark of one request",
 ["authorize.go", "query.go", "filters.go", "tenant.go", "role.go", "trie/trie.go"],
 [("tenant selection and fallback to managing ancestors", "authorize.go Authorize"), ("row filters", "filters.go"), ("permission test with inheritance", "role.go Has")],
 [("rows", "recorded facts (tenant, namespace, scope, principal, role)", "role_manager.go RoleManager.trie")],
 ["RoleManager.Authorize return value"])

prop("C11", "Role manager: concurrent changes are never lost and act at once",
 "When several goroutines register objects, record assignments, add permissions and build hierarchies in the root package at the same time, all of it is present once the calls have returned, and registering one identifier from many places yields the same single object for all of them. "
 "A request that starts after a change returned sees it, whether or not the same or another question was asked before; a request that overlaps changes is decided as if each had happened or not.",
 ["schedules", "histories"],
 "every interleaving of concurrent registrations, assignments, permission and hierarchy additions and requests",
 "no test; two callers inside a check-then-insert window are needed, or a question asked before the change",
 ["role_manager.go", "permission.go", "role.go", "tenant.go", "query.go", "trie/trie.go", "activity.go", "activity_group.go", "namespace.go", "scope.go", "principal.go"],
 [("atomic get-or-insert registration", "permission.go, tenant.go, namespace.go, scope.go, principal.go, activity.go, activity_group.go"), ("row insertion", "trie/trie.go Insert"), ("cache validity", "query.go GetImplicitTenants, role_manager.go TenantChildren")],
 [("principalCache, hierarchy", "memoised tenants per principal and descendants per tenant", "role_manager.go RoleManager")],
 ["Add* return values, Get*, Authorize"])

prop("C12", "Role manager: concurrent use never races, crashes, deadlocks or hangs",
 "Any number of goroutines may use one root-package role manager, its tenants and its roles at once, through every registration, assignment, permission, hierarchy, locking, lookup, listing and authorization method, without any further locking by the caller. "
 "No interleaving causes a data race, a panic, a deadlock or an endless loop, and every call returns within a bounded number of steps once the others stop.",
 ["schedules", "fault_sequences"],
 "every interleaving of concurrent method calls",
 "no test starts a goroutine",
 ["role_manager.go", "role.go", "tenant.go", "trie/trie.go", "query.go"],
 [("concurrent maps and atomic publication", "trie/trie.go, role.go, tenant.go, role_manager.go")],
 [("trie nodes, role lock flag, default namespace", "state outside the concurrent maps", "trie/trie.go Node, role.go Role, tenant.go Tenant")],
 ["race detector, panics, blocked tasks and step counts of the simulated run"])

prop("C13", "Role manager: answers depend on the facts, not on order or earlier questions",
 "In the root package, two role managers told the same facts in any order, with any questions asked in between, give the same answer to every authorization request and the same contents for every tenant, namespace, scope, role and implicit-tenant listing of a principal. "
 "Repeating a question without a change in between always repeats the answer, whatever order the underlying maps iterate in.",
 ["histories", "configurations"],
 "every permutation of the same facts, every placement of questions among them, every map iteration order",
 "no test; a single insertion order with no earlier question hides memoised and order-dependent results",
 ["query.go", "role_manager.go", "authorize.go", "trie/trie.go", "tenant.go"],
 [("implicit tenants from all of a principal's rows", "query.go GetImplicitTenants"), ("cache validity", "query.go, role_manager.go")],
 [("principalCache, hierarchy", "memoised results", "role_manager.go RoleManager")],
 ["Authorize and the Get* listings"])

prop("C14", "Fact store: a search returns exactly the matching facts recorded so far",
 "A search of the fact store returns, without duplicates, exactly the recorded facts for which the given predicate is true; recording the same fact again changes nothing, and two facts that differ in any field, or hold the same value in different fields, are both kept. "
 "A first-match search finds a fact if and only if one matches. "
 "With concurrent insertions a search returns at least what was recorded before it began and at most what was recorded by its end, never a partial or empty fact, and a predicate that panics leaves the store usable.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "every set and order of facts over every choice of absent fields and shared values, every interleaving of insertions and searches, a panic at any predicate call",
 "the only trie test is a benchmark inserting one fact",
 ["trie/trie.go", "filters.go"],
 [("path per field position", "trie/trie.go Insert"), ("atomic publication of a fact", "trie/trie.go Node"), ("depth-first search", "trie/trie.go search")],
 [("nodes", "one path per fact", "trie/trie.go Node")],
 ["Search, SearchFunc, First, FirstFunc, Data results"])

prop("C15", "Locked roles refuse every change until unlocked",
 "In the root package and in v1, a change of a role (permission, permission group or descendant) that starts after the role was locked and ends before it is unlocked fails with an error and has no effect; one that starts after it was unlocked, or on a role never locked, succeeds and takes full effect, and a change that reports an error never has any. "
 "This holds for every role independently and for concurrent lock, unlock and change calls, and requests answered meanwhile are unaffected by the lock.",
 ["schedules", "histories"],
 "every history and interleaving of lock, unlock, permission, group and descendant additions",
 "no test locks a role",
 ["role.go", "v1/role.go"],
 [("lock test before each change", "role.go, v1/role.go AddDescendant/AddDescendent, AddPermission, AddPermissionResourceGroup")],
 [("lock", "role is frozen", "role.go Role.lock, v1/role.go Role.lock")],
 ["errors returned, Has, GetPermissions, GetDescendantRoles"])

prop("C16", "Hierarchy walks terminate and inheritance is complete for every shape",
 "For every hierarchy of roles or tenants that the root package or v1 accepts, including shared descendants, long chains and cycles, built in any order by any number of goroutines, every permission test, descendant listing and permission listing returns within a bounded number of steps. "
 "A listing names each descendant once, and a role has exactly the permissions of itself and all its descendants, whether or not it has permissions of its own in the group asked for, and the permission test agrees with the listing of all implicit permissions; permission patterns with wildcards never make a decision hang.",
 ["histories", "schedules", "inputs"],
 "every hierarchy shape and build order, hierarchy changes during a walk, wildcard and parameter patterns",
 "no test builds a hierarchy with shared descendants, depth or cycles, or uses a wildcard",
 ["role.go", "tenant.go", "v1/role.go", "v1/tenant.go", "utils/str.go", "permission.go"],
 [("visited-set traversal", "role.go GetDescendantRoles, tenant.go GetDescendants, v1/role.go, v1/tenant.go"), ("permission test over descendants", "role.go Has, v1/role.go Has"), ("pattern matching", "utils/str.go MatchResource")],
 [("descendants", "direct hierarchy edges", "role.go Role, tenant.go Tenant")],
 ["Has, GetDescendantRoles, GetAllImplicitPermissions, GetDescendants, step counts"])

prop("C17", "v1: tenants are isolated and any identifier is safe",
 "In v1, a principal is authorized for a tenant, alone or with a namespace or scope, only if it has an assignment of its own in that tenant, and for an activity only through roles assigned to it there, of which one that itself holds the permission suffices when the requested namespace and scope exist in the tenant; assignments of other principals or in other tenants never help. "
 "What is recorded for one combination of principal, role, tenant, namespace and scope is returned for exactly that combination whatever characters the identifiers contain, and the roles returned for one question stay intact when other questions are asked. The roles returned for a namespace and scope are those of the namespace, or else the tenant-wide ones of the principal, together with those assigned for exactly that pair, and none when the tenant does not have the namespace or scope. "
 "Decisions depend only on the recorded facts, not on iteration order or earlier questions.",
 ["histories", "inputs", "configurations"],
 "every history of registrations and assignments, every request shape, identifiers with arbitrary characters including separators, every iteration order and pool behaviour",
 "v1 tests make one assignment with plain identifiers and assert one positive answer",
 ["v1/role_manager.go", "v1/tenant.go", "v1/role.go", "v1/util.go"],
 [("assignment records", "v1/role_manager.go AddPrincipalRole, GetPrincipalRoles"), ("decision by request shape", "v1/role_manager.go Authorize, authorizeComplex, GetAllowedRoles")],
 [("tenantPrincipals", "assignment records", "v1/role_manager.go RoleManager")],
 ["v1 RoleManager.Authorize, GetPrincipalRoles, GetAllowedRoles, GetScopesForPrincipal"])

prop("C18", "v1: concurrent use is safe, loses nothing and never mixes requests",
 "Any number of goroutines may register objects, record assignments and ask for authorization on one v1 role manager at once: no interleaving causes a data race, a panic, a deadlock or a lost registration or assignment, and registering one identifier from many places yields the same single object. "
 "A request that starts after a change returned sees it, one that overlaps changes is decided as if each had happened or not, and concurrent requests never influence each other's answer or the role lists returned to their callers, also when internal buffers are recycled at any moment.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of concurrent calls, every recycling choice of the buffer pool",
 "no test starts a goroutine",
 ["v1/role_manager.go", "v1/tenant.go", "v1/role.go", "v1/util.go", "utils/pool.go"],
 [("assignment lock and registration lock", "v1/role_manager.go"), ("results detached from pooled buffers", "v1/role_manager.go GetAllowedRoles")],
 [("tenantPrincipals, pooled slices", "shared state", "v1/role_manager.go, v1/util.go")],
 ["Authorize, Add* and Get* results, race detector"])

prop("C19", "Pattern matching: parameters and wildcards cover what they should, no more",
 "A permission pattern matches a requested resource and action if and only if the request is obtained from the pattern by replacing every named parameter with one non-empty segment free of slashes and spaces and every asterisk with any text; in particular a parameter never swallows the action.",
 ["inputs"], "every pattern and every request string",
 "the tests match only literal strings",
 ["utils/str.go"], [("matcher", "utils/str.go MatchResource")], (), ["MatchResource result"])

prop("C20", "Utility collections: persistent lists and set helpers compute what they say",
 "The persistent list yields its elements in append order under every combination of append and concatenation without altering older versions, and the slice helpers compute union, intersection, duplicate removal, membership and joins of their inputs.",
 ["inputs", "programs"], "every composition of list operations and every pair of inputs",
 "no test covers these packages",
 ["ds/ds.go", "utils/str.go", "utils/filters.go"], [("list links", "ds/ds.go"), ("slice helpers", "utils/str.go, utils/filters.go")], (), ["AsSlice, Union, Intersection, Compact, JoinSlices results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
