package main

import (
	"sort"
)

// The reference model of the root package and of v1: a growing set of facts.
// Every change adds facts, every request is a monotone question about the set,
// so a request that overlaps changes is bounded by the facts certainly there
// and the facts possibly there.

type fact struct {
	k             byte
	a, b, c, d, e string
	m             int8
}

const (
	fReg     = 'R' // a kind, b id
	fRow     = 'D' // a tenant, b namespace, c scope, d principal, e role, m manage: 0 unset, 1 false, 2 true
	fTenKid  = 'K' // a parent, b child
	fRoleKid = 'k'
	fPerm    = 'P' // a role, b group, c permission
	fAttr    = 'G' // a group, c permission
	fGroup   = 'g' // a role uses the group object b
	fTenNS   = 'n' // v1: a tenant, b namespace
	fTenSc   = 's' // v1: a tenant, b scope
	fTenRole = 'r' // v1: a tenant, b role
	fNsRole  = 'o' // v1: a namespace, b role
	fNsSc    = 'c' // v1: a namespace, b scope
)

type fstate struct {
	f      map[fact]bool
	by     [128][]fact       // the same facts by kind, in the order they came
	def    map[string]string // default namespace by tenant
	assume bool              // the change under way succeeded: what it needs was there
}

func (s *fstate) put(f fact) {
	if !s.f[f] {
		s.f[f] = true
		s.by[f.k] = append(s.by[f.k], f)
	}
}

func newF() *fstate { return &fstate{f: map[fact]bool{}, def: map[string]string{}} }

func (s *fstate) reg(kind, id string) bool {
	return s.assume || s.f[fact{k: fReg, a: kind, b: id}]
}

// known: registered for certain, also while a success is assumed.
func (s *fstate) known(kind, id string) bool { return s.f[fact{k: fReg, a: kind, b: id}] }

func (s *fstate) each(k byte, f func(x fact)) {
	for _, x := range s.by[k] {
		f(x)
	}
}

// reach lists what is below a (not a itself, unless keep is set).
func (s *fstate) reach(k byte, a string, self bool) map[string]bool {
	seen := map[string]bool{a: true}
	queue := []string{a}
	next := map[string][]string{}
	s.each(k, func(x fact) { next[x.a] = append(next[x.a], x.b) })
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		for _, y := range next[x] {
			if !seen[y] {
				seen[y] = true
				queue = append(queue, y)
			}
		}
	}
	if !self {
		delete(seen, a)
	}
	return seen
}

// permsOf lists the permissions a role has itself in a group.
func (s *fstate) permsOf(role, group string) (r []string) {
	for _, x := range s.by[fPerm] {
		if x.a == role && x.b == group {
			r = append(r, x.c)
		}
	}
	if s.f[fact{k: fGroup, a: role, b: group}] {
		for _, x := range s.by[fAttr] {
			if x.a == group {
				r = append(r, x.c)
			}
		}
	}
	return
}

func (s *fstate) hasOwn(role, group, act string) bool {
	for _, p := range s.permsOf(role, group) {
		if matches(p, act) {
			return true
		}
	}
	return false
}

// hasPerm: the role itself or a descendant (allowed, if any are named) has it.
func (s *fstate) hasPerm(role, group, act string, allowed map[string]bool) bool {
	if s.hasOwn(role, group, act) {
		return true
	}
	for d := range s.reach(fRoleKid, role, false) {
		if len(allowed) > 0 && !allowed[d] {
			continue
		}
		if s.hasOwn(d, group, act) {
			return true
		}
	}
	return false
}

func perm(p string) string {
	a, b := cutPerm(p)
	return a + " " + b
}

// addFn collects the facts a change adds.
type addFn func(f fact)

// rootApply is the effect of a change in the root package; it reports whether
// the call fails.
func rootApply(s *fstate, o *Op, add addFn) (err bool) {
	S := o.S
	row := func(t, n, sc, p, r string, m int8) { add(fact{fRow, t, n, sc, p, r, m}) }
	mng := int8(1)
	if o.n(0) == 1 {
		mng = 2
	}
	switch o.K {
	case "reg":
		add(fact{k: fReg, a: S[0], b: S[1]})
		switch S[0] {
		case "role":
			for i := 3; i < len(S); i++ {
				add(fact{k: fPerm, a: S[1], b: S[2], c: perm(S[i])})
			}
		case "group":
			for _, p := range S[2:] {
				add(fact{k: fAttr, a: S[1], c: perm(p)})
			}
		case "tenant":
			if len(S) > 2 {
				row(S[1], S[2], "", "", "", 0)
			}
		}
		return false
	case "regs":
		for _, id := range S[1:] {
			add(fact{k: fReg, a: S[0], b: id})
		}
		return false
	case "data":
		row(S[0], S[1], S[2], S[3], S[4], int8(o.n(0)))
		return false
	case "gattr":
		if !s.reg("group", S[0]) {
			return true
		}
		for _, p := range S[1:] {
			add(fact{k: fAttr, a: S[0], c: perm(p)})
		}
		return false
	}
	switch o.K[0] {
	case 't':
		if !s.reg("tenant", S[0]) {
			return true
		}
	case 'r':
		if !s.reg("role", S[0]) {
			return true
		}
	}
	switch o.K {
	case "tns":
		for _, n := range S[1:] {
			if !s.reg("ns", n) {
				return true
			}
			row(S[0], n, "", "", "", 0)
		}
	case "tsc":
		for _, n := range S[1:] {
			if !s.reg("scope", n) {
				return true
			}
			row(S[0], "", n, "", "", 0)
		}
	case "trole":
		for _, n := range S[1:] {
			if !s.reg("role", n) {
				return true
			}
			row(S[0], "", "", "", n, 0)
		}
	case "tnsc":
		row(S[0], S[1], S[2], "", "", 0)
	case "tpn":
		row(S[0], S[2], "", S[1], S[3], 0)
	case "tpr":
		for _, r := range S[2:] {
			if !s.reg("principal", S[1]) || !s.reg("role", r) {
				return true
			}
			row(S[0], "", "", S[1], r, mng)
			if d := s.def[S[0]]; d != "" {
				row(S[0], d, "", S[1], r, mng)
			}
		}
	case "tps":
		for _, sc := range S[2:] {
			if !s.reg("principal", S[1]) || !s.reg("scope", sc) {
				return true
			}
			row(S[0], "", sc, S[1], "", mng)
			if d := s.def[S[0]]; d != "" {
				row(S[0], d, sc, S[1], "", mng)
			}
		}
	case "tdef":
		if s.known("ns", S[1]) {
			s.def[S[0]] = S[1]
		}
	case "tkid":
		for _, c := range S[1:] {
			if !s.reg("tenant", c) {
				return true
			}
			add(fact{k: fTenKid, a: S[0], b: c})
			if d := s.def[S[0]]; d != "" {
				row(c, d, "", "", "", 0)
				if s.known("ns", d) {
					s.def[c] = d
				}
			}
		}
	case "rperm":
		for _, p := range S[2:] {
			add(fact{k: fPerm, a: S[0], b: S[1], c: perm(p)})
		}
	case "rgrp":
		if !s.reg("group", S[1]) {
			return true
		}
		add(fact{k: fGroup, a: S[0], b: S[1]})
	case "rmperm":
		if !s.reg("group", S[1]) {
			return true
		}
		for _, p := range S[2:] {
			if !s.assume && !s.f[fact{k: fAttr, a: S[1], c: perm(p)}] {
				return true
			}
		}
		for _, p := range S[2:] {
			add(fact{k: fPerm, a: S[0], b: S[1], c: perm(p)})
		}
	case "rkid":
		for _, c := range S[1:] {
			if !s.reg("role", c) {
				return true
			}
		}
		for _, c := range S[1:] {
			add(fact{k: fRoleKid, a: S[0], b: c})
		}
	}
	return false
}

// rows of the state, in a fixed order.
func (s *fstate) rows() []fact { return s.by[fRow] }

// rootAuth answers a request in the root package.
func rootAuth(s *fstate, o *Op) bool {
	p, t, n, sc, g, act := o.s(0), o.s(1), o.s(2), o.s(3), o.s(4), o.s(5)
	if !s.reg("principal", p) {
		return false
	}
	rows := s.rows()
	own := map[string]bool{}
	manages := map[string]bool{}
	implicit := map[string]bool{}
	for _, x := range rows {
		if x.d == p && x.a != "" {
			own[x.a], implicit[x.a] = true, true
			if x.m == 2 && s.reg("tenant", x.a) {
				manages[x.a] = true
				for k := range s.reach(fTenKid, x.a, false) {
					implicit[k] = true
				}
			}
		}
	}
	if len(implicit) == 0 {
		return false
	}
	if t != "" && !s.reg("tenant", t) || n != "" && !s.reg("ns", n) || sc != "" && !s.reg("scope", sc) {
		return false
	}
	if t != "" && !implicit[t] {
		return false
	}
	in := func(t string) bool {
		if g == "" && act == "" {
			for _, x := range rows {
				if x.a != t {
					continue
				}
				switch {
				case n == "" && sc == "":
					if x.d == p {
						return true
					}
				case sc == "":
					if x.b == n && (x.d == "" || x.d == p) {
						return true
					}
				case n == "":
					if x.c == sc && (x.d == "" || x.d == p) {
						return true
					}
				default:
					if x.c == sc && (x.d == p || x.d == "" && (x.b == "" || x.b == n)) {
						return true
					}
				}
			}
			return false
		}
		if g == "" || act == "" {
			return false
		}
		allowed := map[string]bool{}
		roles := map[string]bool{}
		for _, x := range rows {
			if x.a != t || x.e == "" {
				continue
			}
			allowed[x.e] = true
			if x.d == p && (n == "" || x.b == "" || x.b == n) && (sc == "" || x.c == "" || x.c == sc) {
				roles[x.e] = true
			}
		}
		for r := range roles {
			if s.reg("role", r) && s.hasPerm(r, g, act, allowed) {
				return true
			}
		}
		return false
	}
	if t == "" {
		if n == "" || sc == "" {
			return false
		}
		for x := range own {
			if in(x) {
				return true
			}
		}
		return false
	}
	if in(t) {
		return true
	}
	for a := range manages {
		if a != t && s.reach(fTenKid, a, false)[t] && in(a) {
			return true
		}
	}
	return false
}

// v1Apply is the effect of a change in v1.
func v1Apply(s *fstate, o *Op, add addFn) (err bool) {
	S := o.S
	row := func(t, n, sc, p, r string) { add(fact{fRow, t, n, sc, p, r, 2}) }
	switch o.K {
	case "reg", "regs", "gattr", "rperm", "rgrp", "rmperm", "rkid":
		if o.K == "reg" && S[0] == "tenant" && len(S) > 2 {
			add(fact{k: fReg, a: S[0], b: S[1]})
			add(fact{k: fReg, a: "ns", b: S[2]})
			add(fact{k: fTenNS, a: S[1], b: S[2]})
			return false
		}
		return rootApply(s, o, add)
	case "mpr":
		if !s.reg("tenant", S[2]) || S[3] != "" && !s.reg("ns", S[3]) || S[4] != "" && !s.reg("scope", S[4]) {
			return true
		}
		m := int8(1)
		if o.n(0) != 0 {
			m = 2
		}
		add(fact{fRow, S[2], S[3], S[4], S[0], S[1], m})
		return false
	}
	if o.K == "nsc" || o.K == "nrole" {
		if !s.reg("ns", S[0]) {
			return true
		}
		kind, k := "scope", byte(fNsSc)
		if o.K == "nrole" {
			kind, k = "role", fNsRole
		}
		for _, x := range S[1:] {
			if !s.reg(kind, x) {
				return true
			}
			add(fact{k: k, a: S[0], b: x})
		}
		return false
	}
	if !s.reg("tenant", S[0]) {
		return true
	}
	has := func(k byte, b string) bool { return s.f[fact{k: k, a: S[0], b: b}] }
	def := s.def[S[0]]
	switch o.K {
	case "tns":
		for _, n := range S[1:] {
			if !s.reg("ns", n) {
				return true
			}
			add(fact{k: fTenNS, a: S[0], b: n})
		}
	case "tsc":
		for _, n := range S[1:] {
			if !s.reg("scope", n) {
				return true
			}
			add(fact{k: fTenSc, a: S[0], b: n})
			if def != "" {
				add(fact{k: fNsSc, a: def, b: n})
			}
		}
	case "trole":
		for _, n := range S[1:] {
			if !s.reg("role", n) {
				return true
			}
			add(fact{k: fTenRole, a: S[0], b: n})
		}
	case "tnsc":
		for _, sc := range S[2:] {
			if !has(fTenSc, sc) {
				return false
			}
			if has(fTenNS, S[1]) {
				add(fact{k: fNsSc, a: S[1], b: sc})
				row(S[0], S[1], sc, "", "")
			}
		}
	case "tnrole":
		for _, r := range S[2:] {
			if !has(fTenRole, r) || !has(fTenNS, S[1]) {
				return false
			}
			add(fact{k: fNsRole, a: S[1], b: r})
		}
	case "tp":
		for _, r := range S[2:] {
			if has(fTenRole, r) {
				row(S[0], "", "", S[1], r)
				if def != "" {
					row(S[0], def, "", S[1], r)
				}
			}
		}
	case "tpn":
		if !has(fTenNS, S[2]) {
			return false
		}
		if len(S) > 3 {
			for _, r := range S[3:] {
				if has(fTenRole, r) {
					row(S[0], S[2], "", S[1], r)
				}
			}
			return false
		}
		for _, x := range s.rows() {
			if x.a == S[0] && x.d == S[1] && x.b != "" && x.b != S[2] {
				row(S[0], S[2], "", S[1], x.e)
			}
		}
		row(S[0], S[2], "", S[1], "")
	case "tps":
		var mine []fact
		for _, x := range s.rows() {
			if x.a == S[0] && x.d == S[1] {
				mine = append(mine, x)
			}
		}
		if len(mine) == 0 {
			return false
		}
		for _, sc := range S[2:] {
			if has(fTenSc, sc) {
				for _, x := range mine {
					row(S[0], "", sc, S[1], x.e)
					if def != "" {
						row(S[0], def, sc, S[1], x.e)
					}
				}
				row(S[0], "", sc, S[1], "")
			}
		}
	case "tpsr":
		n := 0
		for _, x := range s.rows() {
			if x.a == S[0] && x.d == S[1] {
				n++
			}
		}
		if n == 0 || !has(fTenRole, S[2]) {
			return false
		}
		for _, sc := range S[3:] {
			if has(fTenSc, sc) {
				row(S[0], "", sc, S[1], S[2])
				if def != "" {
					row(S[0], def, sc, S[1], S[2])
				}
			}
		}
	case "tdef":
		if has(fTenNS, S[1]) {
			s.def[S[0]] = S[1]
		}
	case "tkid":
		for _, c := range S[1:] {
			if !s.reg("tenant", c) {
				return true
			}
			add(fact{k: fTenKid, a: S[0], b: c})
		}
	}
	return false
}

// v1Auth answers a v1 request as far as it is specified: must says that it has
// to be granted, may that it can be.
func v1Auth(s *fstate, o *Op) (must, may bool) {
	p, t, n, sc, g, act := o.s(0), o.s(1), o.s(2), o.s(3), o.s(4), o.s(5)
	if !s.reg("principal", p) {
		return false, false
	}
	var own []fact
	var rows []fact
	rows = s.rows()
	for _, x := range rows {
		if x.d == p {
			own = append(own, x)
		}
	}
	both := func(b bool) (bool, bool) { return b, b }
	any := func(f func(x fact) bool) bool {
		for _, x := range own {
			if f(x) {
				return true
			}
		}
		return false
	}
	if g == "" && act == "" {
		switch {
		case t != "" && n == "" && sc == "":
			return both(s.reg("tenant", t) && any(func(x fact) bool { return x.a == t }))
		case t == "" && n != "" && sc == "":
			return both(any(func(x fact) bool { return s.reg("tenant", x.a) && s.f[fact{k: fTenNS, a: x.a, b: n}] }))
		case t == "" && n == "" && sc != "":
			return both(any(func(x fact) bool {
				return s.reg("tenant", x.a) && s.f[fact{k: fTenSc, a: x.a, b: sc}] && x.c == sc
			}))
		case t != "" && n != "" && sc == "":
			return both(any(func(x fact) bool { return x.a == t && x.b == n }))
		case t != "" && n == "" && sc != "":
			return both(any(func(x fact) bool { return x.a == t && x.c == sc }))
		case t == "" && n != "" && sc != "":
			return both(any(func(x fact) bool { return x.b == n && x.c == sc }))
		case t != "" && n != "" && sc != "":
			if !any(func(x fact) bool { return x.a == t }) {
				return false, false
			}
			for _, x := range rows {
				if x.a == t && x.b == n && x.c == sc && (x.d == p || x.d == "") {
					return true, true
				}
			}
			return false, false
		}
		return false, false
	}
	if t == "" {
		if act != "" && g == "" && n == "" && sc == "" {
			// Only an activity: at most through roles of its own.
			return false, any(func(x fact) bool { return x.e != "" && s.hasPerm(x.e, "", act, nil) })
		}
		return false, false
	}
	if !s.reg("tenant", t) || n != "" && !s.f[fact{k: fTenNS, a: t, b: n}] || sc != "" && !s.f[fact{k: fTenSc, a: t, b: sc}] {
		return false, false
	}
	for _, x := range own {
		if x.a != t || x.e == "" || !s.reg("role", x.e) {
			continue
		}
		if s.hasOwn(x.e, g, act) {
			return true, true
		}
		if s.hasPerm(x.e, g, act, nil) {
			may = true
		}
	}
	return false, may
}

// v1Allowed lists the roles of a principal that count for a namespace and scope
// of a tenant: those of the namespace, or else those without namespace and
// scope, and those for exactly this namespace and scope, provided that all are
// roles of the tenant. It does not grow with the facts.
func v1Allowed(s *fstate, t, p, n, sc string) []string {
	none := []string{}
	if !s.reg("tenant", t) || n != "" && !s.f[fact{k: fTenNS, a: t, b: n}] || sc != "" && !s.f[fact{k: fTenSc, a: t, b: sc}] {
		return none
	}
	var wide, exact, ofNS []string
	scope := false
	mine := false
	for _, x := range s.rows() {
		if x.a != t || x.d != p {
			continue
		}
		mine = true
		if x.b == "" && x.c == "" {
			wide = append(wide, x.e)
		}
		if x.b == n && x.c == sc && n != "" && sc != "" {
			exact = append(exact, x.e)
		}
		if x.c == sc && sc != "" {
			scope = true
		}
	}
	if !mine || !scope && len(wide) == 0 {
		return none
	}
	if n != "" {
		closed := false
		s.each(fNsSc, func(x fact) {
			if x.a == n {
				closed = true
			}
		})
		if closed && !s.f[fact{k: fNsSc, a: n, b: sc}] {
			return none
		}
		s.each(fNsRole, func(x fact) {
			if x.a == n {
				ofNS = append(ofNS, x.b)
			}
		})
	}
	r := wide
	if len(ofNS) > 0 {
		r = ofNS
	}
	r = append(r, exact...)
	for _, x := range r {
		if !s.f[fact{k: fTenRole, a: t, b: x}] {
			return none
		}
	}
	return sortedSet(r)
}

// history bounds the facts at each point of a history. Default namespaces may
// be set by task 0 in the first phase only, and a tenant that has one may get
// descendants there only.
type history struct {
	changes []*Rec
	low     [][]fact // facts each change certainly adds
	apply   func(s *fstate, o *Op, add addFn) bool
	def     map[string]string
	refused *Rec // a change that failed although all it needs was there
}

func factChange(o *Op) bool {
	switch o.K {
	case "reg", "regs", "data", "gattr", "tns", "tsc", "trole", "tnsc", "tpn", "tpr", "tps", "tdef", "tkid", "rperm", "rgrp", "rmperm", "rkid", "mpr", "tp", "tpsr", "tnrole", "nsc", "nrole":
		return true
	}
	return false
}

// newHistory works out what every change adds.
func newHistory(recs []*Rec, apply func(s *fstate, o *Op, add addFn) bool) *history {
	h := &history{apply: apply}
	for _, r := range recs {
		if factChange(r.Op) && r.Inv != 0 {
			h.changes = append(h.changes, r)
		}
	}
	sort.SliceStable(h.changes, func(i, j int) bool { return h.changes[i].Inv < h.changes[j].Inv })
	st := newF()
	folded := make([]bool, len(h.changes))
	for i, c := range h.changes {
		for j := 0; j < i; j++ {
			if !folded[j] && h.changes[j].Done && h.changes[j].Ret < c.Inv {
				folded[j] = true
				for _, f := range h.low[j] {
					st.put(f)
				}
			}
		}
		var add []fact
		st.assume = c.Done && c.Panic == "" && !c.Err
		err := h.apply(st, c.Op, func(f fact) { add = append(add, f) })
		st.assume = false
		h.low = append(h.low, add)
		if c.Done && c.Err && !err && h.refused == nil {
			h.refused = c
		}
	}
	h.def = st.def
	return h
}

// cursor walks through a history in the order of requests.
type cursor struct {
	h      *history
	low    *fstate
	folded []bool
	exact  bool // nothing but task 0 in the first phase made changes so far
}

func (h *history) cursor() *cursor {
	c := &cursor{h: h, low: newF(), folded: make([]bool, len(h.changes)), exact: true}
	c.low.def = h.def
	return c
}

// at returns the certain and the possible facts for a request; quiet is set
// when they are the same.
func (c *cursor) at(r *Rec) (low, up *fstate, quiet bool) {
	var over []*Rec
	for i, x := range c.h.changes {
		if c.folded[i] {
			continue
		}
		if x.Inv > r.Ret {
			break
		}
		if x.Done && x.Ret < r.Inv {
			c.folded[i] = true
			if x.Task != 0 {
				c.exact = false
			}
			for _, f := range c.h.low[i] {
				c.low.put(f)
			}
			continue
		}
		over = append(over, x)
	}
	if len(over) == 0 && c.exact {
		return c.low, c.low, true
	}
	up = newF()
	up.def = c.h.def
	for f := range c.low.f {
		up.f[f] = true
	}
	for k := range c.low.by {
		up.by[k] = append([]fact(nil), c.low.by[k]...)
	}
	// Changes that are over may have added more than certain, when what they
	// depend on was added meanwhile: apply everything until nothing is new.
	all := over
	for i, x := range c.h.changes {
		if c.folded[i] && (x.Task != 0 || x.Phase != 0) {
			all = append(all, x)
		}
	}
	for {
		n := len(up.f)
		for _, x := range all {
			up.assume = !x.Done || !x.Err
			c.h.apply(up, x.Op, up.put)
			up.assume = false
		}
		if len(up.f) == n {
			break
		}
	}
	return c.low, up, len(up.f) == len(c.low.f)
}
