package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	v1 "github.com/oarkflow/permission/v1"

	"verif/simrt"
)

// v1sys drives role managers of v1, as rootsys does for the root package.
type v1sys struct {
	m   [2]*v1.RoleManager
	alt int
}

func newV1(c *Case) System {
	s := &v1sys{alt: -1}
	s.m[0] = v1.New()
	s.m[1] = v1.New()
	if c.Opt&optAltMap != 0 {
		s.alt = (c.Cfg.MapMode + 1) % 3
	}
	return s
}

func v1attrs(ps []string) (r []*v1.Attribute) {
	for _, p := range ps {
		a, b := cutPerm(p)
		r = append(r, v1.NewAttribute(a, b))
	}
	return
}

func v1row(x v1.TenantPrincipal) string {
	return strings.Join(quoteAll([]string{x.TenantID, x.NamespaceID, x.ScopeID, x.PrincipalID, x.RoleID, fmt.Sprint(x.CanManageDescendants)}), "|")
}

func factRow(f fact) string {
	return strings.Join(quoteAll([]string{f.a, f.b, f.c, f.d, f.e, fmt.Sprint(f.m == 2)}), "|")
}

func v1rows(xs []v1.TenantPrincipal) []string {
	r := []string{}
	for _, x := range xs {
		r = append(r, v1row(x))
	}
	scribble(xs, v1.TenantPrincipal{TenantID: "scribble"})
	return sortedSet(r)
}

// kept is a list handed to a caller and what it held then.
type kept struct {
	list []string
	copy []string
}

func (s *v1sys) Exec(o *Op, r *Rec) {
	m, k := s.m[0], o.K
	if strings.HasPrefix(k, "b:") {
		m, k = s.m[1], k[2:]
		if s.alt >= 0 && r.Task == 0 {
			old := simrt.SetMapMode(s.alt)
			defer simrt.SetMapMode(old)
		}
	}
	err := v1Exec(m, k, o, r)
	r.Err = err != nil
}

func v1Exec(m *v1.RoleManager, k string, o *Op, r *Rec) error {
	S := o.S
	switch k {
	case "reg":
		list := o.n(0) == 1
		switch S[0] {
		case "tenant":
			t := enrol(list, S[1], func() *v1.Tenant { return v1.NewTenant(S[1]) }, m.AddTenant, m.AddTenants, m.GetTenant)
			r.Keep = t
			if len(S) > 2 {
				t.AddNamespace(m.AddNamespace(v1.NewNamespace(S[2])))
			}
		case "ns":
			r.Keep = enrol(list, S[1], func() *v1.Namespace { return v1.NewNamespace(S[1]) }, m.AddNamespace, m.AddNamespaces, m.GetNamespace)
		case "scope":
			r.Keep = enrol(list, S[1], func() *v1.Scope { return v1.NewScope(S[1]) }, m.AddScope, m.AddScopes, m.GetScope)
		case "principal":
			r.Keep = enrol(list, S[1], func() *v1.Principal { return v1.NewPrincipal(S[1]) }, m.AddPrincipal, m.AddPrincipals, m.GetPrincipal)
		case "role":
			x := enrol(list, S[1], func() *v1.Role { return v1.NewRole(S[1]) }, m.AddRole, m.AddRoles, m.GetRole)
			r.Keep = x
			if len(S) > 3 {
				return x.AddPermission(S[2], v1attrs(S[3:])...)
			}
		case "group":
			g := enrol(list, S[1], func() *v1.AttributeGroup { return v1.NewAttributeGroup(S[1]) }, m.AddAttributeGroup, m.AddAttributeGroups, m.GetAttributeGroup)
			r.Keep = g
			if len(S) > 2 {
				g.AddAttributes(v1attrs(S[2:])...)
			}
		case "attr":
			r.Keep = enrol(list, perm(S[1]), func() *v1.Attribute { return v1attrs(S[1:2])[0] }, m.AddAttribute, m.AddAttributes, m.GetAttribute)
		}
	case "regs": // several objects of a kind in one call
		switch S[0] {
		case "tenant":
			enrolAll(S[1:], v1.NewTenant, m.AddTenants)
		case "ns":
			enrolAll(S[1:], v1.NewNamespace, m.AddNamespaces)
		case "scope":
			enrolAll(S[1:], v1.NewScope, m.AddScopes)
		case "principal":
			enrolAll(S[1:], v1.NewPrincipal, m.AddPrincipals)
		case "role":
			enrolAll(S[1:], v1.NewRole, m.AddRoles)
		case "group":
			enrolAll(S[1:], v1.NewAttributeGroup, m.AddAttributeGroups)
		case "attr":
			enrolAll(S[1:], func(id string) *v1.Attribute { return v1attrs([]string{id})[0] }, m.AddAttributes)
		}
	case "rereg":
		ok := false
		switch S[0] {
		case "tenant":
			var x *v1.Tenant
			if x, ok = m.GetTenant(S[1]); ok {
				m.AddTenants(x)
				r.Keep = x
			}
		case "ns":
			var x *v1.Namespace
			if x, ok = m.GetNamespace(S[1]); ok {
				m.AddNamespaces(x)
				r.Keep = x
			}
		case "scope":
			var x *v1.Scope
			if x, ok = m.GetScope(S[1]); ok {
				m.AddScopes(x)
				r.Keep = x
			}
		case "principal":
			var x *v1.Principal
			if x, ok = m.GetPrincipal(S[1]); ok {
				m.AddPrincipals(x)
				r.Keep = x
			}
		case "role":
			var x *v1.Role
			if x, ok = m.GetRole(S[1]); ok {
				m.AddRoles(x)
				r.Keep = x
			}
		case "group":
			var x *v1.AttributeGroup
			if x, ok = m.GetAttributeGroup(S[1]); ok {
				m.AddAttributeGroups(x)
				r.Keep = x
			}
		case "attr":
			var x *v1.Attribute
			if x, ok = m.GetAttribute(perm(S[1])); ok {
				m.AddAttributes(x)
				r.Keep = x
			}
		}
		r.Bool = ok
	case "gattr":
		g, ok := m.GetAttributeGroup(S[0])
		if !ok {
			return errNone
		}
		as := v1attrs(S[1:])
		g.AddAttributes(as...)
		scribble(as, v1.NewAttribute("scribble", ""))
	case "rmperm":
		as := v1attrs(S[2:])
		err := m.AddPermissionsToRole(S[0], S[1], as...)
		scribble(as, v1.NewAttribute("scribble", ""))
		return err
	case "mpr":
		t, ok := m.GetTenant(S[2])
		if !ok {
			return errNone
		}
		var n *v1.Namespace
		var sc *v1.Scope
		if S[3] != "" {
			if n, ok = m.GetNamespace(S[3]); !ok {
				return errNone
			}
		}
		if S[4] != "" {
			if sc, ok = m.GetScope(S[4]); !ok {
				return errNone
			}
		}
		switch o.n(0) {
		case 0:
			m.AddPrincipalRole(S[0], S[1], t, n, sc, false)
		case 1:
			m.AddPrincipalRole(S[0], S[1], t, n, sc, true)
		default:
			m.AddPrincipalRole(S[0], S[1], t, n, sc)
		}
	case "auth":
		names := []func(any) func(*v1.Option){v1.WithTenant, v1.WithNamespace, v1.WithScope, v1.WithResourceGroup, v1.WithActivity}
		var opts []func(*v1.Option)
		for i, f := range names {
			if v := o.s(i + 1); v != "" {
				opts = append(opts, f(v))
			}
		}
		r.Bool = m.Authorize(S[0], opts...)
	case "allowed":
		l := m.GetAllowedRoles(m.GetPrincipalRoles(S[0], S[1]), S[2], S[3])
		r.Keep = &kept{l, append([]string(nil), l...)}
		r.Out = sortedSet(l)
	case "list":
		r.Out = v1List(m, S)
	case "nsc", "nrole":
		n, ok := m.GetNamespace(S[0])
		if !ok {
			return errNone
		}
		if k == "nsc" {
			l, err := gather(S[1:], m.GetScope)
			n.AddScopes(l...)
			return err
		}
		l, err := gather(S[1:], m.GetRole)
		n.AddRoles(l...)
		return err
	case "tns", "tsc", "trole", "tnsc", "tnrole", "tp", "tpn", "tps", "tpsr", "tdef", "tkid":
		t, ok := m.GetTenant(S[0])
		if !ok {
			return errNone
		}
		switch k {
		case "tns":
			l, err := gather(S[1:], m.GetNamespace)
			t.AddNamespace(l...)
			scribble(l, v1.NewNamespace("scribble"))
			return err
		case "tsc":
			l, err := gather(S[1:], m.GetScope)
			t.AddScopes(l...)
			scribble(l, v1.NewScope("scribble"))
			return err
		case "trole":
			l, err := gather(S[1:], m.GetRole)
			t.AddRole(l...)
			scribble(l, v1.NewRole("scribble"))
			return err
		case "tnsc":
			names := slices.Clone(S[2:])
			t.AddScopesToNamespace(S[1], names...)
			scribble(names, "scribble")
		case "tnrole":
			names := slices.Clone(S[2:])
			t.AddRolesToNamespace(S[1], names...)
			scribble(names, "scribble")
		case "tp":
			names := slices.Clone(S[2:])
			t.AddPrincipal(S[1], names...)
			scribble(names, "scribble")
		case "tpn":
			names := slices.Clone(S[3:])
			t.AddPrincipalInNamespace(S[1], S[2], names...)
			scribble(names, "scribble")
		case "tps":
			names := slices.Clone(S[2:])
			t.AssignScopesToPrincipal(S[1], names...)
			scribble(names, "scribble")
		case "tpsr":
			names := slices.Clone(S[3:])
			t.AssignScopesWithRole(S[1], S[2], names...)
			scribble(names, "scribble")
		case "tdef":
			t.SetDefaultNamespace(S[1])
		case "tkid":
			l, err := gather(S[1:], m.GetTenant)
			if err := t.AddDescendent(l...); err != nil {
				return err
			}
			scribble(l, v1.NewTenant("scribble"))
			return err
		}
	case "rperm", "rgrp", "rkid", "lock", "unlock", "has", "perms", "own", "groups", "desc":
		x, ok := m.GetRole(S[0])
		if !ok {
			return errNone
		}
		switch k {
		case "rperm":
			as := v1attrs(S[2:])
			err := x.AddPermission(S[1], as...)
			scribble(as, v1.NewAttribute("scribble", ""))
			return err
		case "rgrp":
			g, ok := m.GetAttributeGroup(S[1])
			if !ok {
				return errNone
			}
			return x.AddPermissionResourceGroup(g)
		case "rkid":
			var kids []*v1.Role
			for _, id := range S[1:] {
				y, ok := m.GetRole(id)
				if !ok {
					return errNone
				}
				kids = append(kids, y)
			}
			err := x.AddDescendent(kids...)
			scribble(kids, v1.NewRole("scribble"))
			return err
		case "lock":
			x.Lock()
		case "unlock":
			x.Unlock()
		case "has":
			r.Bool = x.Has(S[1], S[2], S[3:]...)
		case "groups":
			r.Out = []string{}
			for g := range x.GetPermissions() {
				r.Out = append(r.Out, g)
			}
			sort.Strings(r.Out)
		case "perms", "own":
			p := map[string][]v1.Attribute{}
			switch {
			case k == "own" && o.n(0) == 1:
				p, _ = m.GetRolePermissions(S[0])
			case k == "own":
				p = x.GetPermissions()
			case o.n(0) == 1:
				x.GetAllImplicitPermissions(p)
			default:
				p = x.GetAllImplicitPermissions()
			}
			r.Out = []string{}
			for g, as := range p {
				for _, a := range as {
					r.Out = append(r.Out, g+"|"+a.String())
				}
			}
			r.Out = sortedSet(r.Out)
			for _, as := range p {
				scribble(as, *v1.NewAttribute("scribble", ""))
			}
			clear(p)
		case "desc":
			r.Out = []string{}
			l := x.GetDescendantRoles()
			for _, d := range l {
				r.Out = append(r.Out, d.ID())
			}
			scribble(l, v1.NewRole("scribble"))
			sort.Strings(r.Out)
		}
	case "kids":
		t, ok := m.GetTenant(S[0])
		if !ok {
			return errNone
		}
		r.Out = []string{}
		l := t.GetDescendantTenants()
		for _, d := range l {
			r.Out = append(r.Out, d.ID())
		}
		scribble(l, v1.NewTenant("scribble"))
		sort.Strings(r.Out)
	default:
		panic("unknown operation " + k)
	}
	return nil
}

var v1Lists = map[string]string{
	"tenants": "", "namespaces": "", "scopes": "", "principals": "", "roles": "", "attributes": "", "summary": "", "string": "",
	"tenantsOf": "p", "scopesOf": "p", "rolesOf": "tp", "rolesIn": "t", "byTenant": "t", "implicit": "tp", "permsOf": "tp", "tenantScopesOf": "tp",
	"groupPerms": "rg", "rolePerms": "r",
}

func v1List(m *v1.RoleManager, S []string) []string {
	switch S[0] {
	case "tenants":
		return taken(m.Tenants())
	case "namespaces":
		return taken(m.Namespaces())
	case "scopes":
		return taken(m.Scopes())
	case "principals":
		return taken(m.Principals())
	case "roles":
		return taken(m.Roles())
	case "attributes":
		return taken(m.Attributes())
	case "summary":
		r := []string{fmt.Sprint(m.Summary())}
		for k, v := range m.SummaryMap() {
			r = append(r, k+fmt.Sprint(v))
		}
		return sortedSet(r)
	case "string":
		return []string{m.String()}
	case "tenantsOf":
		l, _ := m.GetTenantsForPrincipal(S[1])
		return taken(l)
	case "scopesOf":
		l, err := m.GetScopesForPrincipal(S[1])
		if err != nil {
			return []string{"error"}
		}
		return taken(l)
	case "tenantScopesOf":
		l, err := m.GetTenantScopesForPrincipal(S[1], S[2])
		if err != nil {
			return []string{"error"}
		}
		return taken(l)
	case "rolesOf":
		return v1rows(m.GetPrincipalRoles(S[1], S[2]))
	case "rolesIn":
		return v1rows(m.GetTenantRoles(S[1]))
	case "byTenant":
		return v1rows(m.GetPrincipalRolesByTenant(S[1]))
	case "implicit":
		return v1rows(m.GetImplicitPrincipalRoles(S[1], S[2]))
	case "permsOf":
		r := []string{}
		for _, x := range m.GetPermissionsForPrincipal(S[1], S[2]) {
			r = append(r, v1row(x.TenantPrincipal))
			for g, as := range x.Permissions {
				for _, a := range as {
					r = append(r, v1row(x.TenantPrincipal)+"|"+g+"|"+a.String())
				}
				scribble(as, *v1.NewAttribute("scribble", ""))
			}
			clear(x.Permissions)
		}
		return sortedSet(r)
	case "groupPerms":
		r := []string{}
		if x, ok := m.GetRole(S[1]); ok {
			l := x.GetResourceGroupPermissions(S[2])
			for _, p := range l {
				r = append(r, p.String())
			}
			scribble(l, v1.NewAttribute("scribble", ""))
		}
		return sortedSet(r)
	case "rolePerms":
		r := []string{}
		p, err := m.GetRolePermissions(S[1])
		if err != nil {
			return []string{"error"}
		}
		for g, as := range p {
			for _, a := range as {
				r = append(r, g+"|"+a.String())
			}
			scribble(as, *v1.NewAttribute("scribble", ""))
		}
		clear(p)
		return sortedSet(r)
	}
	panic("unknown listing " + S[0])
}
