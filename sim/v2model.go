package main

import (
	"fmt"
	"maps"
	"math"
	"sort"
	"strings"
)

// The reference model of the v2 authorizer: plain sets, no sharing, no caches.

type mTenant struct {
	id     string
	ns     map[string]map[string]bool
	def    string
	status int64
	kids   map[string]string // tenant id -> handle
}

type mPR struct {
	p, t, n, s, r string
	manage        bool
	slot          int64
	lo, hi        int64 // expiry, as precisely as it is known; 0 = none
}

type v2m struct {
	ten     map[string]*mTenant        // by handle; the first object of an id has the id as its handle
	reg     map[string]string          // tenant id -> handle
	rperm   map[string]map[string]bool // permissions by role handle
	rname   map[string]string
	regRole map[string]string // role name -> handle
	edges   map[string]map[string]bool
	prs     []mPR
	def     string
	now     int64
}

func newV2m() *v2m {
	return &v2m{ten: map[string]*mTenant{}, reg: map[string]string{}, rperm: map[string]map[string]bool{},
		rname: map[string]string{}, regRole: map[string]string{}, edges: map[string]map[string]bool{}}
}

func cloneSet(m map[string]bool) map[string]bool {
	r := make(map[string]bool, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (m *v2m) clone() *v2m {
	r := newV2m()
	for k, t := range m.ten {
		n := &mTenant{id: t.id, def: t.def, status: t.status, kids: maps.Clone(t.kids), ns: map[string]map[string]bool{}}
		for x, sc := range t.ns {
			n.ns[x] = cloneSet(sc)
		}
		r.ten[k] = n
	}
	r.reg = maps.Clone(m.reg)
	for k, v := range m.rperm {
		r.rperm[k] = cloneSet(v)
	}
	for k, v := range m.rname {
		r.rname[k] = v
	}
	for k, v := range m.regRole {
		r.regRole[k] = v
	}
	for k, v := range m.edges {
		r.edges[k] = cloneSet(v)
	}
	r.prs = append([]mPR(nil), m.prs...)
	r.def, r.now = m.def, m.now
	return r
}

func isChange(o *Op) bool {
	switch o.K {
	case "auth", "can", "gettenant", "getrole", "getdef", "alone", "isexp", "jump":
		return false
	}
	return true
}

// reaches: the role b is a descendant of (or equal to) a.
func (m *v2m) reaches(a, b string) bool {
	seen := map[string]bool{}
	var walk func(x string) bool
	walk = func(x string) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for c := range m.edges[x] {
			if walk(c) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// apply performs a change and tells whether it is refused.
func (m *v2m) apply(o *Op, win [2]int64) (refused bool) {
	switch o.K {
	case "tenant", "tenant2":
		h, a := o.S[0], o.S
		if o.K == "tenant2" {
			a = o.S[1:]
		}
		t := &mTenant{id: a[0], ns: map[string]map[string]bool{}, kids: map[string]string{}}
		if len(a) > 1 {
			t.def = a[1]
			t.ns[t.def] = map[string]bool{}
		}
		m.ten[h] = t
	case "role":
		m.rperm[o.S[0]] = map[string]bool{}
		m.rname[o.S[0]] = o.S[1]
	case "status":
		if t := m.ten[o.S[0]]; t != nil {
			t.status = o.N[0]
		}
	case "addtenant":
		for _, h := range o.S {
			if t := m.ten[h]; t != nil {
				m.reg[t.id] = h
			}
		}
	case "child":
		if t := m.ten[o.S[0]]; t != nil {
			for _, h := range o.S[1:] {
				if c := m.ten[h]; c != nil {
					t.kids[c.id] = h
				}
			}
		}
	case "ns":
		if t := m.ten[o.S[0]]; t != nil {
			if t.ns[o.S[1]] == nil {
				t.ns[o.S[1]] = map[string]bool{}
			}
			if o.n(0) == 1 {
				t.def = o.S[1]
			}
		}
	case "scope":
		if t := m.ten[o.S[0]]; t != nil {
			if t.ns[o.S[1]] == nil {
				return true
			}
			for _, x := range o.S[2:] {
				t.ns[o.S[1]][x] = true
			}
		}
	case "deftenant":
		m.def = o.s(0)
	case "addrole":
		for _, h := range o.S {
			if n, ok := m.rname[h]; ok {
				m.regRole[n] = h
			}
		}
	case "perm":
		if p := m.rperm[o.S[0]]; p != nil {
			for _, x := range o.S[1:] {
				a, b := cutPerm(x)
				p[a+" "+b] = true
			}
		}
	case "unperm":
		if p := m.rperm[o.S[0]]; p != nil {
			for _, x := range o.S[1:] {
				a, b := cutPerm(x)
				delete(p, a+" "+b)
			}
		}
	case "edge":
		for _, c := range o.S[1:] {
			if m.reaches(c, o.S[0]) {
				return true
			}
		}
		if len(o.S) > 1 {
			e := m.edges[o.S[0]]
			if e == nil {
				e = map[string]bool{}
				m.edges[o.S[0]] = e
			}
			for _, c := range o.S[1:] {
				e[c] = true
			}
		}
	case "pr":
		for i := 0; i*5+4 < len(o.S); i++ {
			p := mPR{p: o.S[i*5], t: o.S[i*5+1], n: o.S[i*5+2], s: o.S[i*5+3], r: o.S[i*5+4], manage: o.n(i*3) == 1, slot: o.n(i*3 + 2)}
			p.lo, p.hi = o.n(i*3+1), o.n(i*3+1)
			m.prs = append(m.prs, p)
		}
	case "rmpr":
		var keep []mPR
		for _, p := range m.prs {
			if agrees(o, &p) {
				continue
			}
			keep = append(keep, p)
		}
		if len(keep) == len(m.prs) {
			return true
		}
		m.prs = keep
	case "setexp":
		if o.N[1] < win[0] {
			return true
		}
		m.setExp(o.N[0], o.N[1], o.N[1])
	case "setdur":
		d, bad := duration(o)
		if bad || d < 0 {
			return true
		}
		m.setExp(o.N[0], satAdd(win[0], d), satAdd(win[1], d))
	case "clrexp":
		m.setExp(o.N[0], 0, 0)
	}
	return false
}

func (m *v2m) setExp(slot, lo, hi int64) {
	for i := range m.prs {
		if m.prs[i].slot == slot {
			m.prs[i].lo, m.prs[i].hi = lo, hi
		}
	}
}

// satAdd adds without running over: moments beyond the range of int64 count as
// its end, which no clock of a simulation comes near.
func satAdd(a, d int64) int64 {
	if a > 0 && d > math.MaxInt64-a {
		return math.MaxInt64
	}
	return a + d
}

func agrees(o *Op, p *mPR) bool {
	f := []string{p.p, p.t, p.n, p.s, p.r}
	for i, x := range f {
		if o.S[i] != "" && o.S[i] != x {
			return false
		}
	}
	return true
}

// closure of a role over registered roles.
func (m *v2m) closure(name string) map[string]bool {
	r := map[string]bool{}
	var walk func(x string)
	walk = func(x string) {
		if r[x] {
			return
		}
		if _, ok := m.regRole[x]; !ok {
			return
		}
		r[x] = true
		for c := range m.edges[x] {
			walk(c)
		}
	}
	walk(name)
	return r
}

func (m *v2m) permsOf(name string) map[string]bool {
	r := map[string]bool{}
	for x := range m.closure(name) {
		for p := range m.rperm[m.regRole[x]] {
			r[p] = true
		}
	}
	return r
}

// targets are the tenants a request is decided in; ok is false for an unknown
// tenant.
func (m *v2m) targets(p, t string) (ids []string, ok bool) {
	if t == "" {
		t = m.def
	}
	if t != "" {
		if m.reg[t] == "" {
			return nil, false
		}
		return []string{t}, true
	}
	set := map[string]bool{}
	for _, a := range m.prs {
		if a.p == p && a.t != "" && m.reg[a.t] != "" && m.ten[m.reg[a.t]].status == 0 {
			set[a.t] = true
		}
	}
	for id := range set {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids, true
}

func (m *v2m) namespace(t *mTenant, ns, scope string) (string, bool) {
	if ns == "" {
		if t.def != "" {
			ns = t.def
		} else if len(t.ns) == 1 {
			for k := range t.ns {
				ns = k
			}
		} else {
			return "", false
		}
	}
	sc, ok := t.ns[ns]
	if !ok || scope != "" && !sc[scope] {
		return "", false
	}
	return ns, true
}

// live answers whether an assignment counts: for its own sake (use 0) or for
// reaching into child tenants (use 1).
type live func(i int, use int) bool

// decide answers a request in one tenant.
func (m *v2m) decide(o *Op, tid string, lv live) bool {
	t := m.ten[m.reg[tid]]
	ns, ok := m.namespace(t, o.s(2), o.s(3))
	if !ok {
		return false
	}
	p, scope := o.s(0), o.s(3)
	seen := map[string]bool{}
	scoped, global := map[string]bool{}, map[string]bool{}
	roles := map[string]bool{}
	var walk func(t *mTenant)
	walk = func(t *mTenant) {
		id := t.id
		if seen[id] {
			return
		}
		seen[id] = true
		reach := false
		for i := range m.prs {
			a := &m.prs[i]
			if a.p != p || a.t != id {
				continue
			}
			if a.manage && lv(i, 1) {
				reach = true
			}
			if a.n != "" && a.n != ns || !lv(i, 0) {
				continue
			}
			if o.K == "auth" {
				if a.s == scope {
					for x := range m.permsOf(a.r) {
						scoped[x] = true
					}
				} else if a.s == "" {
					for x := range m.permsOf(a.r) {
						global[x] = true
					}
				}
				continue
			}
			if a.r != "" && (scope == "" || a.s == "" || a.s == scope) {
				roles[a.r] = true
				for x := range m.closure(a.r) {
					roles[x] = true
				}
			}
		}
		if reach {
			for _, h := range t.kids {
				walk(m.ten[h])
			}
		}
	}
	walk(t)
	if o.K == "can" {
		for _, q := range o.S[4:] {
			if roles[q] {
				return true
			}
		}
		return false
	}
	if o.s(4) == "" && o.s(5) == "" {
		return false
	}
	set := scoped
	if len(set) == 0 {
		set = global
	}
	for x := range set {
		if matches(x, o.s(4)+" "+o.s(5)) {
			return true
		}
	}
	return false
}

// maybeBits lists the assignments whose expiry falls inside the window the
// clock took during the request.
func (m *v2m) maybeBits(p string, win [2]int64) []int {
	var r []int
	for i := range m.prs {
		a := &m.prs[i]
		if a.p == p && a.hi != 0 && !(win[1] <= a.lo) && !(win[0] > a.hi) {
			r = append(r, i)
		}
	}
	return r
}

// admissible computes whether a grant and a denial of a request are allowed,
// given the changes that overlap it and the readings of the clock during it.
// ok is false when there are too many combinations to enumerate.
func admissible(base *v2m, maybe []*Rec, o *Op, win [2]int64) (grant, deny, ok bool) {
	if len(maybe) > 9 {
		return true, true, false
	}
	canGrant := map[string]bool{}
	canDeny := map[string]bool{}
	type tset struct {
		ids []string
		ok  bool
	}
	var targets []tset
	for sub := 0; sub < 1<<len(maybe); sub++ {
		m := base
		if len(maybe) > 0 {
			m = base.clone()
			for i, c := range maybe {
				if sub>>i&1 == 1 {
					m.apply(c.Op, [2]int64{c.Win.Min, c.Win.Max})
				}
			}
		}
		ids, valid := m.targets(o.s(0), o.s(1))
		targets = append(targets, tset{ids, valid})
		bits := m.maybeBits(o.s(0), win)
		if 2*len(bits)+len(maybe) > 12 {
			return true, true, false
		}
		pos := map[int]int{}
		for k, i := range bits {
			pos[i] = k
		}
		for x := 0; x < 1<<(2*len(bits)); x++ {
			lv := func(i, use int) bool {
				if k, ok := pos[i]; ok {
					return x>>(2*k+use)&1 == 1
				}
				a := &m.prs[i]
				return a.hi == 0 || win[1] <= a.lo
			}
			// Every tenant that may be asked under any combination counts.
			for id := range m.reg {
				if o.s(1) != "" && o.s(1) != id {
					continue
				}
				if m.decide(o, id, lv) {
					canGrant[id] = true
				} else {
					canDeny[id] = true
				}
			}
		}
	}
	for _, ts := range targets {
		if !ts.ok {
			deny = true
			continue
		}
		all := true
		for _, id := range ts.ids {
			if canGrant[id] {
				grant = true
			}
			if !canDeny[id] {
				all = false
			}
		}
		if all {
			deny = true
		}
	}
	return grant, deny, true
}

func (m *v2m) key() string {
	var b strings.Builder
	for _, p := range m.prs {
		fmt.Fprintf(&b, "%s|%s|%s|%s|%s;", p.p, p.t, p.n, p.s, p.r)
	}
	var es []string
	for a, cs := range m.edges {
		for c := range cs {
			es = append(es, a+">"+c)
		}
	}
	sort.Strings(es)
	b.WriteString(strings.Join(es, ","))
	return b.String()
}
