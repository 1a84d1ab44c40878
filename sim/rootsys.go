package main

import (
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/oarkflow/permission"

	"verif/simrt"
)

// rootsys drives role managers of the root package; operations whose kind
// begins with "b:" go to the second one.
type rootsys struct {
	m   [2]*permission.RoleManager
	alt int // map order while the second manager is in use
}

const (
	optAltMap = 1 << iota // the second manager sees maps in another order
)

func newRoot(c *Case) System {
	s := &rootsys{alt: -1}
	s.m[0] = permission.New()
	s.m[1] = permission.New()
	if c.Opt&optAltMap != 0 {
		s.alt = (c.Cfg.MapMode + 1) % 3
	}
	return s
}

var errNone = errors.New("no such object")

func attrs(ps []string) (r []*permission.Attribute) {
	for _, p := range ps {
		a, b := cutPerm(p)
		r = append(r, permission.NewAttribute(a, b))
	}
	return
}

func val(x any) string {
	if x == nil {
		return "~"
	}
	return fmt.Sprintf("%T:%v", x, x)
}

func rowStr(d *permission.Data) string {
	if d == nil {
		return "nil"
	}
	return strings.Join([]string{val(d.Tenant), val(d.Namespace), val(d.Scope), val(d.Principal), val(d.Role), val(d.ManageDescendants)}, "|")
}

func rowsStr(ds []*permission.Data) []string {
	r := []string{}
	for _, d := range ds {
		r = append(r, rowStr(d))
	}
	scribble(ds, &permission.Data{Tenant: "scribble"})
	return sortedSet(r)
}

func anyStr(a []any) []string {
	r := []string{}
	for _, x := range a {
		r = append(r, fmt.Sprint(x))
	}
	scribble(a, any("scribble"))
	return sortedSet(r)
}

func opt(s string) any {
	if s == "" {
		return nil
	}
	return s
}

func (s *rootsys) Exec(o *Op, r *Rec) {
	m, k := s.m[0], o.K
	if strings.HasPrefix(k, "b:") {
		m, k = s.m[1], k[2:]
		if s.alt >= 0 && r.Task == 0 {
			old := simrt.SetMapMode(s.alt)
			defer simrt.SetMapMode(old)
		}
	}
	err := rootExec(m, k, o, r)
	r.Err = err != nil
}

func rootExec(m *permission.RoleManager, k string, o *Op, r *Rec) error {
	S := o.S
	manage := o.n(0) == 1
	switch k {
	case "reg":
		list := o.n(0) == 1
		switch S[0] {
		case "tenant":
			t := enrol(list, S[1], func() *permission.Tenant { return permission.NewTenant(S[1]) }, m.AddTenant, m.AddTenants, m.GetTenant)
			r.Keep = t
			if len(S) > 2 {
				t.AddNamespace(permission.NewNamespace(S[2]))
			}
		case "ns":
			r.Keep = enrol(list, S[1], func() *permission.Namespace { return permission.NewNamespace(S[1]) }, m.AddNamespace, m.AddNamespaces, m.GetNamespace)
		case "scope":
			r.Keep = enrol(list, S[1], func() *permission.Scope { return permission.NewScope(S[1]) }, m.AddScope, m.AddScopes, m.GetScope)
		case "principal":
			r.Keep = enrol(list, S[1], func() *permission.Principal { return permission.NewPrincipal(S[1]) }, m.AddPrincipal, m.AddPrincipals, m.GetPrincipal)
		case "role":
			x := enrol(list, S[1], func() *permission.Role { return permission.NewRole(S[1]) }, m.AddRole, m.AddRoles, m.GetRole)
			r.Keep = x
			if len(S) > 3 {
				return x.AddPermission(S[2], attrs(S[3:])...)
			}
		case "group":
			g := enrol(list, S[1], func() *permission.AttributeGroup { return permission.NewAttributeGroup(S[1]) }, m.AddAttributeGroup, m.AddAttributeGroups, m.GetAttributeGroup)
			r.Keep = g
			if len(S) > 2 {
				g.AddAttributes(attrs(S[2:])...)
			}
		case "attr":
			r.Keep = enrol(list, perm(S[1]), func() *permission.Attribute { return attrs(S[1:2])[0] }, m.AddAttribute, m.AddAttributes, m.GetAttribute)
		}
	case "regs": // several objects of a kind in one call
		switch S[0] {
		case "tenant":
			enrolAll(S[1:], permission.NewTenant, m.AddTenants)
		case "ns":
			enrolAll(S[1:], permission.NewNamespace, m.AddNamespaces)
		case "scope":
			enrolAll(S[1:], permission.NewScope, m.AddScopes)
		case "principal":
			enrolAll(S[1:], permission.NewPrincipal, m.AddPrincipals)
		case "role":
			enrolAll(S[1:], permission.NewRole, m.AddRoles)
		case "group":
			enrolAll(S[1:], permission.NewAttributeGroup, m.AddAttributeGroups)
		case "attr":
			enrolAll(S[1:], func(id string) *permission.Attribute { return attrs([]string{id})[0] }, m.AddAttributes)
		}
	case "rereg": // register an object that may be registered already, or get it
		ok := false
		switch S[0] {
		case "tenant":
			var x *permission.Tenant
			if x, ok = m.GetTenant(S[1]); ok {
				m.AddTenants(x)
				r.Keep = x
			}
		case "ns":
			var x *permission.Namespace
			if x, ok = m.GetNamespace(S[1]); ok {
				m.AddNamespaces(x)
				r.Keep = x
			}
		case "scope":
			var x *permission.Scope
			if x, ok = m.GetScope(S[1]); ok {
				m.AddScopes(x)
				r.Keep = x
			}
		case "principal":
			var x *permission.Principal
			if x, ok = m.GetPrincipal(S[1]); ok {
				m.AddPrincipals(x)
				r.Keep = x
			}
		case "role":
			var x *permission.Role
			if x, ok = m.GetRole(S[1]); ok {
				m.AddRoles(x)
				r.Keep = x
			}
		case "group":
			var x *permission.AttributeGroup
			if x, ok = m.GetAttributeGroup(S[1]); ok {
				m.AddAttributeGroups(x)
				r.Keep = x
			}
		case "attr":
			var x *permission.Attribute
			if x, ok = m.GetAttribute(perm(S[1])); ok {
				m.AddAttributes(x)
				r.Keep = x
			}
		}
		r.Bool = ok
	case "data":
		d := &permission.Data{Tenant: opt(S[0]), Namespace: opt(S[1]), Scope: opt(S[2]), Principal: opt(S[3]), Role: opt(S[4])}
		if n := o.n(0); n > 0 {
			d.ManageDescendants = n == 2
		}
		m.AddData(d)
	case "gattr":
		g, ok := m.GetAttributeGroup(S[0])
		if !ok {
			return errNone
		}
		as := attrs(S[1:])
		g.AddAttributes(as...)
		scribble(as, permission.NewAttribute("scribble", ""))
	case "rmperm":
		as := attrs(S[2:])
		err := m.AddPermissionsToRole(S[0], S[1], as...)
		scribble(as, permission.NewAttribute("scribble", ""))
		return err
	case "auth":
		names := []func(any) func(*permission.Option){permission.WithTenant, permission.WithNamespace, permission.WithScope, permission.WithAttributeGroup, permission.WithActivity}
		var opts []func(*permission.Option)
		for i, f := range names {
			if v := o.s(i + 1); v != "" {
				opts = append(opts, f(v))
			}
		}
		r.Bool = m.Authorize(S[0], opts...)
	case "list":
		r.Out = rootList(m, S)
	case "tns", "tsc", "trole", "tnsc", "tpn", "tpr", "tps", "tdef", "tkid":
		t, ok := m.GetTenant(S[0])
		if !ok {
			return errNone
		}
		switch k {
		case "tns":
			l, err := gather(S[1:], m.GetNamespace)
			t.AddNamespaces(l...)
			scribble(l, permission.NewNamespace("scribble"))
			return err
		case "tsc":
			l, err := gather(S[1:], m.GetScope)
			t.AddScopes(l...)
			scribble(l, permission.NewScope("scribble"))
			return err
		case "trole":
			l, err := gather(S[1:], m.GetRole)
			t.AddRoles(l...)
			scribble(l, permission.NewRole("scribble"))
			return err
		case "tnsc":
			t.AddScopesToNamespace(S[1], S[2])
		case "tpn":
			t.AddPrincipalInNamespace(S[1], S[2], S[3])
		case "tpr":
			if len(S) == 3 && o.n(1) == 0 {
				return t.AddPrincipalWithRole(S[1], S[2], manage)
			}
			names := slices.Clone(S[2:])
			err := t.AddPrincipal(S[1], manage, names...)
			scribble(names, "scribble")
			return err
		case "tps":
			if len(S) == 3 && o.n(1) == 0 {
				return t.AddScopeToPrincipal(S[1], S[2], manage)
			}
			names := slices.Clone(S[2:])
			err := t.AssignScopesToPrincipal(S[1], manage, names...)
			scribble(names, "scribble")
			return err
		case "tdef":
			t.SetDefaultNamespace(S[1])
		case "tkid":
			l, err := gather(S[1:], m.GetTenant)
			if err := t.AddDescendant(l...); err != nil {
				return err
			}
			scribble(l, permission.NewTenant("scribble"))
			return err
		}
	case "rperm", "rgrp", "rkid", "lock", "unlock", "has", "perms", "own", "groups", "desc":
		x, ok := m.GetRole(S[0])
		if !ok {
			return errNone
		}
		switch k {
		case "rperm":
			as := attrs(S[2:])
			err := x.AddPermission(S[1], as...)
			scribble(as, permission.NewAttribute("scribble", ""))
			return err
		case "rgrp":
			g, ok := m.GetAttributeGroup(S[1])
			if !ok {
				return errNone
			}
			return x.AddPermissionResourceGroup(g)
		case "rkid":
			var kids []*permission.Role
			for _, id := range S[1:] {
				y, ok := m.GetRole(id)
				if !ok {
					return errNone
				}
				kids = append(kids, y)
			}
			err := x.AddDescendant(kids...)
			scribble(kids, permission.NewRole("scribble"))
			return err
		case "lock":
			x.Lock()
		case "unlock":
			x.Unlock()
		case "has":
			r.Bool = x.Has(S[1], S[2], S[3:]...)
		case "groups":
			r.Out = []string{}
			for g := range x.GetPermissions() {
				r.Out = append(r.Out, g)
			}
			sort.Strings(r.Out)
		case "perms", "own":
			p := map[string][]permission.Attribute{}
			if k == "own" {
				p = x.GetPermissions()
			} else if o.n(0) == 1 {
				x.GetAllImplicitPermissions(p)
			} else {
				p = x.GetAllImplicitPermissions()
			}
			r.Out = []string{}
			for g, as := range p {
				for _, a := range as {
					r.Out = append(r.Out, g+"|"+a.String())
				}
			}
			r.Out = sortedSet(r.Out)
			for _, as := range p {
				scribble(as, *permission.NewAttribute("scribble", ""))
			}
			clear(p)
		case "desc":
			r.Out = []string{}
			l := x.GetDescendantRoles()
			for _, d := range l {
				r.Out = append(r.Out, d.ID())
			}
			scribble(l, permission.NewRole("scribble"))
			sort.Strings(r.Out)
		}
	case "kids":
		t, ok := m.GetTenant(S[0])
		if !ok {
			return errNone
		}
		if o.n(0) == 1 {
			r.Out = anyStr(m.TenantChildren(S[0]))
		} else {
			r.Out = anyStr(t.GetDescendants())
		}
	default:
		panic("unknown operation " + k)
	}
	return nil
}

// Listings by name: the letters say which arguments they take.
var rootLists = map[string]string{
	"tenants": "", "namespaces": "", "scopes": "", "principals": "", "roles": "", "attributes": "", "data": "", "summary": "", "string": "", "available": "",
	"tenantsOf": "p", "rowsOf": "p", "implicit": "p", "scopesOf": "p", "namespacesOf": "p",
	"descendants": "t", "rolesIn": "t", "namespacesIn": "t", "namespaceIn": "t", "scopesIn": "t",
	"nsFor": "pt", "scFor": "pt", "nsFor2": "pt", "scForNs": "pn", "scForTN": "ptn", "rolesTNS": "ptns", "rolesTN": "ptn", "rolesTS": "pts", "scopeRoles": "ptn",
	"groupPerms": "rg", "ids": "p",
}

func rootList(m *permission.RoleManager, S []string) []string {
	a := func(i int) any { return opt(S[i]) }
	switch S[0] {
	case "tenants":
		return taken(m.Tenants())
	case "namespaces":
		return taken(m.Namespaces())
	case "scopes":
		return taken(m.Scopes())
	case "principals":
		return taken(m.Principals())
	case "roles":
		return taken(m.Roles())
	case "attributes":
		return taken(m.Attributes())
	case "data":
		return rowsStr(m.Source().Data())
	case "summary":
		r := []string{fmt.Sprint(m.Summary())}
		for k, v := range m.SummaryMap() {
			r = append(r, k+fmt.Sprint(v))
		}
		return sortedSet(r)
	case "string":
		m.AsString()
		return []string{m.String()}
	case "available":
		r := []string{}
		for g, as := range m.GetRolesForAvailablePermissions() {
			for _, x := range as {
				for _, role := range x.Roles {
					r = append(r, g+"|"+x.Attribute.String()+"|"+role)
				}
			}
		}
		return sortedSet(r)
	case "tenantsOf":
		return anyStr(m.GetTenantsByPrincipal(a(1)))
	case "rowsOf":
		return rowsStr(m.GetTenants(a(1)))
	case "implicit":
		r := []string{}
		for t := range m.GetImplicitTenants(S[1]) {
			r = append(r, t)
		}
		return sortedSet(r)
	case "scopesOf":
		return rowsStr(m.GetScopesByPrincipal(a(1)))
	case "namespacesOf":
		return rowsStr(m.GetNamespacesByPrincipal(a(1)))
	case "descendants":
		return anyStr(m.GetDescendantTenant(a(1)))
	case "rolesIn":
		return rowsStr(m.GetRolesByTenant(a(1)))
	case "namespacesIn":
		return rowsStr(m.GetNamespacesByTenant(a(1)))
	case "namespaceIn":
		return rowsStr(m.GetNamespaceByTenant(a(1)))
	case "scopesIn":
		return rowsStr(m.GetScopesByTenant(a(1)))
	case "nsFor":
		return rowsStr(m.GetNamespacesForPrincipalByTenant(a(1), a(2)))
	case "nsFor2":
		return rowsStr(m.GetNamespaceForPrincipalByTenant(a(1), a(2)))
	case "scFor":
		return rowsStr(m.GetScopesForPrincipalByTenant(a(1), a(2)))
	case "scForNs":
		return rowsStr(m.GetScopeForPrincipalByNamespace(a(1), a(2)))
	case "scForTN":
		return rowsStr(m.GetScopesForPrincipalByTenantAndNamespace(a(1), a(2), a(3)))
	case "rolesTNS":
		return rowsStr(m.GetRolesForPrincipalByTenantNamespaceAndScope(a(1), a(2), a(3), a(4)))
	case "rolesTN":
		return rowsStr(m.GetRolesForPrincipalByTenantAndNamespace(a(1), a(2), a(3)))
	case "rolesTS":
		return rowsStr(m.GetRolesForPrincipalByTenantAndScope(a(1), a(2), a(3)))
	case "scopeRoles":
		r := []string{}
		for _, x := range m.GetScopesWithRolesForPrincipal(a(1), a(2), a(3)) {
			roles := []string{}
			for _, y := range x.Roles {
				roles = append(roles, val(y))
			}
			r = append(r, val(x.Scope)+"|"+strings.Join(sortedSet(roles), ","))
		}
		return sortedSet(r)
	case "groupPerms":
		r := []string{}
		if x, ok := m.GetRole(S[1]); ok {
			l := x.GetResourceGroupPermissions(S[2])
			for _, p := range l {
				r = append(r, p.String())
			}
			scribble(l, permission.NewAttribute("scribble", ""))
		}
		return sortedSet(r)
	case "ids":
		ds := m.GetTenants(a(1))
		r := []string{}
		for i, x := range [][]any{permission.GetTenantIDs(ds), permission.GetPrincipalIDs(ds), permission.GetRoleIDs(ds), permission.GetNamespaceIDs(ds), permission.GetScopeIDs(ds)} {
			for _, y := range x {
				r = append(r, fmt.Sprint(i)+val(y))
			}
		}
		return sortedSet(r)
	}
	panic("unknown listing " + S[0])
}
