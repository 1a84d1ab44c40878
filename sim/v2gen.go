package main

import (
	"math"
	"strconv"
	"strings"
)

// v2w generates operations for a v2 authorizer. It follows the sequence it
// generates with the model, only to ask interesting questions.
type v2w struct {
	g             *Gen
	m             *v2m
	T, N, S, R, P []string
	perm          []string
	slot          int64
	handle        map[string][]string // role name -> handles
	twin          map[string]string   // tenant id -> handle of a second object
	twins         bool
	noParam       bool
	bulk          bool // requests often name no tenant
	named         bool // requests name a tenant
	long          int  // how many calls follow on a huge case
	empties       int  // out of 40 assignments, so many lack a part
	// Objects that in the phase being drawn all callers may add to, and none
	// takes from; old holds the namespaces there were before it.
	shared map[string]bool
	old    map[string]map[string]bool
	sep    *string // joins names, if they are such
	made   [][]string
}

// randPerm draws a permission pattern.
func (g *Gen) randPerm() string {
	seg := func() string {
		switch g.n(12) {
		case 0, 1, 2:
			return ":" + g.pick([]string{"id", "x", "a"})
		case 3:
			return "*"
		case 4:
			return g.pick([]string{"a", "b", "ab"}) + "*"
		case 5:
			return "*" + g.pick([]string{"a", "b", "ba"})
		case 6:
			return "a*" + g.pick([]string{"b", "ab", "*c"})
		}
		return g.pick([]string{"a", "b", "ab", "aab", "abb", "v1", "c"})
	}
	var b strings.Builder
	n := g.rng(1, 4)
	if g.p(1, 20) {
		n = g.rng(5, 25)
	}
	for i := 0; i < n; i++ {
		if i > 0 || g.p(3, 4) {
			b.WriteByte('/')
		}
		b.WriteString(seg())
	}
	if g.p(1, 10) {
		b.WriteByte('/')
	}
	return b.String() + "|" + g.pick([]string{"GET", "POST", "GET", "*", ":verb", "G*", "*T", "read", ""})
}

// chain links the given names with operations of a kind, each to the next or
// all to the first.
func (w *v2w) chain(kind string, ids []string) []Op {
	var ops []Op
	star := w.g.p(1, 3)
	for i := 1; i < len(ids); i++ {
		from := ids[i-1]
		if star {
			from = ids[0]
		}
		ops = append(ops, op(kind, from, ids[i]))
	}
	return ops
}

var oddNames = []string{"a", "b", "A", "a b", "a/b", "a_b", "a:b", ":a", "*", "a*", "ä", "a.b", "a\x00b", "null", "0", "a|b", "ab", "a ", " a", longName + "1", longName + "2", longName + "/1"}

// longName begins identifiers that differ only at their end.
var longName = strings.Repeat("name-", 30)

func (g *Gen) names(prefix string, n int, odd bool) []string {
	var r []string
	seen := map[string]bool{}
	for len(r) < n {
		x := prefix + strconv.Itoa(len(r)+1)
		if odd {
			x = g.pick(oddNames)
			if seen[x] {
				x = prefix + strconv.Itoa(len(r)+1)
			}
		}
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

var v2perms = []string{
	"/a|GET", "/a|POST", "/b|GET", "/b|*", "/a/:id|GET", "/a/:id/x|GET", "/a/*|GET", "*|GET", "/c|:verb", "/:x/y|PUT",
	"res|read", "res|write", "docs|read", "doc|read", "/a/b|GET", "/a/:id/:sub|DELETE", "/a*|PUT", "*|*", "/d/|GET", "/d|GET",
}

func newV2w(g *Gen, nT, nN, nS, nR, nP int, odd bool) *v2w {
	w := &v2w{g: g, m: newV2m(), handle: map[string][]string{}, twin: map[string]string{}}
	w.T, w.N, w.S, w.R, w.P = g.names("t", nT, odd), g.names("n", nN, odd), g.names("s", nS, odd), g.names("r", nR, odd), g.names("p", nP, odd)
	if !g.huge && max(nT, nN, nS, nR, nP) <= 6 && g.p(1, 5) {
		p, sep := g.gluedPools(nT, nN, nS, nR, nP)
		w.T, w.N, w.S, w.R, w.P, w.sep = p[0], p[1], p[2], p[3], p[4], &sep
	}
	k := g.rng(3, 8)
	for i := 0; i < k; i++ {
		if g.p(1, 4) {
			w.perm = append(w.perm, g.randPerm())
			continue
		}
		w.perm = append(w.perm, g.pick(v2perms))
	}
	return w
}

// did follows an operation.
func (w *v2w) did(o Op) Op {
	if isChange(&o) {
		w.m.apply(&o, [2]int64{startNS, startNS})
	}
	return o
}

// objects creates the tenant and role objects of a case.
func (w *v2w) objects() []Op {
	var ops []Op
	g := w.g
	for _, t := range w.T {
		o := op("tenant", t)
		if g.p(1, 2) {
			o.S = append(o.S, g.pick(w.N))
		}
		ops = append(ops, w.did(o))
		if w.twins && g.p(1, 4) {
			o2 := op("tenant2", "g:"+t, t)
			if g.p(1, 2) {
				o2.S = append(o2.S, g.pick(w.N))
			}
			w.twin[t] = "g:" + t
			ops = append(ops, w.did(o2))
		}
	}
	for _, r := range w.R {
		h := "h:" + r
		w.handle[r] = []string{h}
		ops = append(ops, w.did(op("role", h, r)))
		if g.p(1, 8) {
			h2 := "g:" + r
			w.handle[r] = append(w.handle[r], h2)
			ops = append(ops, w.did(op("role", h2, r)))
		}
	}
	return ops
}

// setup lists operations that give a case some state to start from; all of them
// may come in any order.
func (w *v2w) setup() []Op {
	g := w.g
	var ops []Op
	for _, t := range w.T {
		if !g.p(1, 12) {
			ops = append(ops, op("addtenant", t))
		}
		for _, n := range w.N {
			if g.p(2, 3) || w.sep != nil {
				ops = append(ops, w.nsOp(t, n))
			}
		}
	}
	for _, r := range w.R {
		if !g.p(1, 12) {
			ops = append(ops, op("addrole", w.handle[r][0]))
		}
		n := g.rng(0, 2)
		for i := 0; i < n; i++ {
			ops = append(ops, w.permOp(r))
		}
	}
	n := g.rng(0, len(w.R))
	for i := 0; i < n && len(w.R) > 1; i++ {
		ops = append(ops, w.edgeOp())
	}
	n = g.rng(0, len(w.T))
	for i := 0; i < n && len(w.T) > 1; i++ {
		ops = append(ops, w.childOp())
	}
	n = g.rng(2, 9)
	for i := 0; i < n; i++ {
		ops = append(ops, w.prOp("", 0))
	}
	g.shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	// Scopes need their namespace.
	for _, t := range w.T {
		for _, n := range w.N {
			if g.p(2, 3) || w.sep != nil {
				ops = append(ops, w.scopeOp(t, n))
			}
		}
	}
	for _, o := range ops {
		w.did(o)
	}
	return ops
}

// tenant draws a tenant, or the handle of its second object.
func (w *v2w) tenant() string {
	t := w.g.pick(w.T)
	if h := w.twin[t]; h != "" && w.g.p(1, 2) {
		return h
	}
	return t
}

func (w *v2w) nsOp(t, n string) Op {
	o := op("ns", t, n)
	if w.g.p(1, 4) {
		o.N = []int64{int64(w.g.rng(1, 2))}
	}
	return o
}

func (w *v2w) scopeOp(t, n string) Op {
	o := op("scope", t, n)
	k := w.g.rng(1, 2)
	for i := 0; i < k; i++ {
		o.S = append(o.S, w.g.pick(w.S))
	}
	return o
}

func (w *v2w) permOp(r string) Op {
	h := w.handle[r]
	o := op("perm", h[w.g.n(len(h))])
	k := w.g.rng(1, 2)
	for i := 0; i < k; i++ {
		o.S = append(o.S, w.g.pick(w.perm))
	}
	return o
}

// edgeOp adds child roles; always from a lower to a higher index, so it is
// never refused.
func (w *v2w) edgeOp() Op {
	i := w.g.n(len(w.R) - 1)
	o := op("edge", w.R[i])
	k := 1
	if w.g.p(1, 4) {
		k = 2
	}
	for ; k > 0; k-- {
		o.S = append(o.S, w.R[w.g.rng(i+1, len(w.R)-1)])
	}
	return o
}

func (w *v2w) childOp() Op {
	a := w.g.n(len(w.T))
	b := w.g.n(len(w.T))
	if b < a && !w.g.p(1, 6) {
		a, b = b, a
	}
	return op("child", w.T[a], w.T[b])
}

func (w *v2w) prOp(p string, expMode int) Op {
	g := w.g
	o := Op{K: "pr"}
	k := 1
	if g.p(1, 6) {
		k = 2
	}
	for i := 0; i < k; i++ {
		q := p
		if q == "" {
			q = g.pick(w.P)
		}
		n, s := "", ""
		if g.p(1, 2) {
			n = g.pick(w.N)
		}
		if g.p(1, 2) {
			s = g.pick(w.S)
		}
		t, r := g.pick(w.T), g.pick(w.R)
		if w.empties > 0 && g.p(w.empties, 40) {
			switch g.n(4) {
			case 0, 1:
				t = ""
			case 2:
				r = ""
			default:
				if p == "" {
					q = ""
				}
			}
		}
		if x := w.recutMade(p); x != nil {
			q, t, n, s, r = x[0], x[1], x[2], x[3], x[4]
		} else if w.sep != nil && r != "" {
			w.made = append(w.made, []string{q, t, n, s, r})
		}
		o.S = append(o.S, q, t, n, s, r)
		var manage, exp int64
		if g.p(1, 3) {
			manage = 1
		}
		switch expMode {
		case 0: // far away
			switch g.n(12) {
			case 2:
				if exp = math.MaxInt64; g.p(1, 2) {
					exp = math.MinInt64
				}
			case 0:
				exp = startNS - int64(g.rng(1, 1000))*1_000_000_000_000
			case 1:
				exp = startNS + int64(g.rng(1, 1000))*1_000_000_000_000
			}
		case 1: // near
			if g.p(3, 4) {
				exp = startNS + w.near()
			}
			if i > 0 && g.p(1, 2) {
				exp = o.N[1] // made together, expiring together
			}
		}
		o.N = append(o.N, manage, exp, w.slot)
		w.slot++
	}
	return o
}

func (w *v2w) near() int64 {
	g := w.g
	switch g.n(5) {
	case 0:
		return int64(g.rng(-2, 2))
	case 1, 2:
		return int64(g.rng(0, 20))
	case 3:
		return int64(g.rng(-3, 6)) * 1_000
	}
	return int64(g.rng(-2, 10)) * 1_000_000_000
}

func (w *v2w) rmOp(p string) Op {
	g := w.g
	o := op("rmpr", p, "", "", "", "")
	if len(w.m.prs) > 0 && g.p(4, 5) {
		a := &w.m.prs[g.n(len(w.m.prs))]
		for tries := 0; p != "" && a.p != p && tries < 8; tries++ {
			a = &w.m.prs[g.n(len(w.m.prs))]
		}
		f := []string{a.p, a.t, a.n, a.s, a.r}
		for i := range f {
			if g.p(1, 2) {
				o.S[i] = f[i]
			}
		}
		if p != "" {
			o.S[0] = p
		}
	} else {
		v := [][]string{w.P, w.T, w.N, w.S, w.R}
		for i := range v {
			if g.p(1, 2) && o.S[i] == "" {
				o.S[i] = g.pick(v[i])
			}
		}
	}
	if w.sep != nil && g.p(1, 2) {
		ps := w.P
		if p != "" {
			ps = nil
		}
		pools := [][]string{ps, w.T, w.N, w.S, w.R}
		for i, x := range o.S {
			if x == "" {
				pools[i] = nil
			}
		}
		g.recut(*w.sep, o.S, pools)
	}
	return o
}

// change draws any administrative change; with near expiries for expMode 1.
func (w *v2w) change(expMode int) Op {
	g := w.g
	switch g.n(20) {
	case 0, 1, 2, 3, 4:
		return w.prOp("", expMode)
	case 5, 6, 7:
		return w.rmOp("")
	case 8, 9:
		return w.permOp(g.pick(w.R))
	case 10:
		o := w.permOp(g.pick(w.R))
		o.K = "unperm"
		return o
	case 11, 12:
		if len(w.R) > 1 {
			return w.edgeOp()
		}
	case 13:
		o := w.childOp()
		// Only the first object of a tenant becomes a child, so that no walk
		// meets two objects of one tenant in an order left open.
		if h := w.twin[o.S[0]]; h != "" && g.p(1, 2) {
			o.S[0] = h
		}
		return o
	case 14:
		return w.nsOp(w.tenant(), g.pick(w.N))
	case 15:
		return w.scopeOp(w.tenant(), g.pick(w.N))
	case 16:
		if g.p(1, 3) {
			return op("deftenant", g.pick(w.T))
		}
		return op("deftenant", "")
	case 17:
		return op("addtenant", w.tenant())
	case 18:
		h := w.handle[g.pick(w.R)]
		return op("addrole", h[g.n(len(h))])
	case 19:
		return Op{K: "status", S: []string{w.tenant()}, N: []int64{int64(g.n(5))}}
	}
	return w.prOp("", expMode)
}

// instantiate makes a resource and action a pattern covers.
func (g *Gen) instantiate(p string) (string, string) {
	res, act := p, ""
	if i := strings.IndexByte(p, ' '); i >= 0 {
		res, act = p[:i], p[i+1:]
	}
	f := func(s string) string {
		var b strings.Builder
		for i := 0; i < len(s); {
			switch s[i] {
			case ':':
				if g.p(1, 30) {
					b.WriteString(strings.Repeat("ab-", g.rng(10, 60)))
				}
				b.WriteString(g.pick([]string{"1", "x", "GET", "zz9", "ab"}))
				for i < len(s) && s[i] != '/' {
					i++
				}
			case '*':
				if g.p(1, 30) {
					b.WriteString(strings.Repeat(g.pick([]string{"ab/", "a", "/"}), g.rng(10, 60)))
				}
				b.WriteString(g.pick([]string{"", "q", "q/r", "/", "ab", "a"}))
				i++
			default:
				b.WriteByte(s[i])
				i++
			}
		}
		return b.String()
	}
	res, act = f(res), f(act)
	if g.p(1, 8) {
		res = g.perturb(res)
	}
	if g.p(1, 12) {
		act = g.perturb(act)
	}
	return res, act
}

// perturb makes a text that resembles one a pattern covers: a character more,
// less or other, other case, or the characters patterns are written with.
func (g *Gen) perturb(s string) string {
	i := g.n(len(s) + 1)
	switch g.n(9) {
	case 0:
		return s[:i] + g.pick([]string{"a", "/", "x", "1", ":", "*", "//", ".", " "}) + s[i:]
	case 1:
		return s[:i]
	case 2:
		return s[i:]
	case 3:
		if i < len(s) {
			return s[:i] + s[i+1:]
		}
	case 4:
		if i < len(s) {
			return s[:i] + g.pick([]string{"z", "/", "*", ":"}) + s[i+1:]
		}
	case 5:
		return g.pick([]string{"*", ":x", "/*", "/:id", "/a/*", "*/*"})
	case 6:
		if strings.ToUpper(s) != s {
			return strings.ToUpper(s)
		}
		return strings.ToLower(s)
	case 7, 8: // a whole segment becomes a parameter or wildcard
		seg := strings.Split(s, "/")
		seg[g.n(len(seg))] = g.pick([]string{":id", "*", "", ":x"})
		return strings.Join(seg, "/")
	}
	return s + g.pick([]string{"/", "/x", "x", "*"})
}

var v2res = []string{"/a", "/b", "/a/1", "/a/1/x", "/c", "res", "docs", "doc", "/q/y", "/a/1/2", "/d", "/d/", "", "x"}
var v2act = []string{"GET", "POST", "PUT", "DELETE", "read", "write", ""}

// req draws a request, mostly one that some assignment has to do with.
func (w *v2w) req(kind string) Op {
	o := w.draw(kind)
	w.recutReq(&o)
	if w.named && o.S[1] == "" {
		o.S[1] = w.T[w.g.n(3)]
	}
	return o
}

func (w *v2w) draw(kind string) Op {
	g := w.g
	o := op(kind, g.pick(w.P), g.pick(w.T), "", "")
	if g.p(1, 5) {
		o.S[1] = ""
	}
	if g.p(1, 2) {
		o.S[2] = g.pick(w.N)
	}
	if g.p(1, 2) {
		o.S[3] = g.pick(w.S)
	}
	role := g.pick(w.R)
	if len(w.m.prs) > 0 && g.p(5, 6) {
		a := &w.m.prs[g.n(len(w.m.prs))]
		o.S[0], role = a.p, a.r
		t := a.t
		if g.p(1, 3) {
			for id, x := range w.m.ten {
				if x.kids[a.t] != "" && has(w.T, id) && id < t {
					t = id
				}
			}
		}
		if !g.p(1, 5) {
			o.S[1] = t
		}
		if w.bulk && g.p(1, 2) {
			o.S[1] = ""
		}
		o.S[2] = a.n
		o.S[3] = a.s
		if a.n == "" && g.p(1, 2) {
			o.S[2] = g.pick(w.N)
		}
		if a.s == "" && g.p(1, 3) {
			o.S[3] = g.pick(w.S)
		}
		if g.p(1, 6) {
			v := [][]string{w.P, w.T, w.N, w.S}
			i := g.n(4)
			o.S[i] = g.pick(v[i])
		}
	}
	if kind == "can" {
		cl := sortedSet(keys(w.m.closure(role)))
		if len(cl) > 0 && g.p(3, 4) {
			role = g.pick(cl)
		}
		if g.p(1, 5) {
			role = g.pick(w.R)
		}
		o.S = append(o.S, role)
		if g.p(1, 5) {
			o.S = append(o.S, g.pick(w.R))
		}
		if g.p(1, 10) {
			// The last of many.
			last := o.S[len(o.S)-1]
			o.S = o.S[:len(o.S)-1]
			for i := g.rng(1, 9); i > 0; i-- {
				o.S = append(o.S, "other"+strconv.Itoa(i))
			}
			o.S = append(o.S, last)
		}
		o.N = []int64{0, int64(g.n(2))}
		if g.p(1, 25) {
			// No role at all.
			o.S = o.S[:4]
		}
		return o
	}
	res, act := g.pick(v2res), g.pick(v2act)
	ps := sortedSet(keys(w.m.permsOf(role)))
	if len(ps) > 0 && g.p(4, 5) {
		res, act = g.instantiate(g.pick(ps))
		if g.p(1, 5) {
			act = g.pick(v2act)
		}
	}
	o.S = append(o.S, res, act)
	return o
}

func keys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	return r
}

// after draws a request that a change has to do with, if it can find one.
func (w *v2w) after(o *Op) Op {
	g := w.g
	var cand []*mPR
	role, perm := "", ""
	fit := func(*mPR) bool { return true }
	switch o.K {
	case "pr", "rmpr":
		a := mPR{p: o.S[0], t: o.S[1], n: o.S[2], s: o.S[3], r: o.S[4]}
		if a.p == "" {
			a.p = g.pick(w.P)
		}
		if a.t == "" {
			a.t = g.pick(w.T)
		}
		if a.r == "" {
			a.r = g.pick(w.R)
		}
		cand = append(cand, &a)
		fit = func(*mPR) bool { return false }
	case "perm", "unperm":
		role = w.m.rname[o.S[0]]
		x, y := cutPerm(o.S[1+g.n(len(o.S)-1)])
		perm = x + " " + y
		fit = func(a *mPR) bool { return w.m.closure(a.r)[role] }
	case "edge":
		role = o.S[1+g.n(len(o.S)-1)]
		fit = func(a *mPR) bool { return w.m.closure(a.r)[role] }
	case "addrole":
		role = w.m.rname[o.S[0]]
		fit = func(a *mPR) bool { return w.m.closure(a.r)[role] }
	case "ns", "scope", "child":
		fit = func(a *mPR) bool { return a.t == w.m.ten[o.S[0]].id }
	case "addtenant":
		fit = func(a *mPR) bool { return w.m.ten[o.S[0]] != nil && a.t == w.m.ten[o.S[0]].id }
	default:
		return w.anyReq()
	}
	for i := range w.m.prs {
		if a := &w.m.prs[i]; fit(a) && a.p != "" {
			cand = append(cand, a)
		}
	}
	if len(cand) == 0 {
		return w.anyReq()
	}
	a := cand[g.n(len(cand))]
	q := op("auth", a.p, a.t, a.n, a.s)
	if o.K == "ns" || o.K == "scope" {
		q.S[2] = o.S[1]
	}
	if o.K == "scope" {
		q.S[3] = o.S[2]
	}
	if q.S[2] == "" && g.p(1, 2) {
		q.S[2] = g.pick(w.N)
	}
	if role == "" {
		role = a.r
	}
	if perm == "" {
		if ps := sortedSet(keys(w.m.permsOf(role))); len(ps) > 0 {
			perm = g.pick(ps)
		}
	}
	if perm == "" || g.p(1, 3) {
		q.K = "can"
		q.S = append(q.S, role)
		q.N = []int64{0, int64(g.n(2))}
		return q
	}
	res, act := g.instantiate(perm)
	q.S = append(q.S, res, act)
	return q
}

// lookup asks for a registered object.
func (w *v2w) lookup() Op {
	switch w.g.n(3) {
	case 0:
		return op("gettenant", w.g.pick(w.T))
	case 1:
		return op("getrole", w.g.pick(w.R))
	}
	return op("getdef")
}

func (w *v2w) anyReq() Op {
	if w.g.p(1, 2) {
		return w.req("auth")
	}
	return w.req("can")
}

// owned draws a change made by one of nt concurrent callers, so that changes of
// different callers concern different objects and can be applied in any order.
func (w *v2w) owned(task, nt int, expMode int) Op {
	g := w.g
	mine := func(a []string) []string {
		var r []string
		for i, x := range a {
			if i%nt == task && !w.shared[x] {
				r = append(r, x)
			}
		}
		return r
	}
	ours := func(a []string) []string {
		var r []string
		for _, x := range a {
			if w.shared[x] {
				r = append(r, x)
			}
		}
		return r
	}
	for tries := 0; tries < 20; tries++ {
		if len(w.shared) > 0 && g.p(1, 3) {
			switch g.n(3) {
			case 0:
				if p := ours(w.P); len(p) > 0 {
					return w.prOp(g.pick(p), expMode)
				}
			case 1:
				if r := ours(w.R); len(r) > 0 {
					return w.permOp(g.pick(r))
				}
			default:
				if t := ours(w.T); len(t) > 0 {
					t := g.pick(t)
					if n := sortedSet(keys(w.old[t])); len(n) > 0 && g.p(1, 2) {
						return w.scopeOp(t, g.pick(n))
					}
					return op("ns", t, g.pick(w.N))
				}
			}
		}
		switch g.n(12) {
		case 0, 1, 2:
			if p := mine(w.P); len(p) > 0 {
				return w.prOp(g.pick(p), expMode)
			}
		case 3, 4:
			if p := mine(w.P); len(p) > 0 {
				return w.rmOp(g.pick(p))
			}
		case 5, 6:
			if r := mine(w.R); len(r) > 0 {
				o := w.permOp(g.pick(r))
				if g.p(1, 3) {
					o.K = "unperm"
				}
				return o
			}
		case 7:
			if len(w.R) > 1 {
				return w.edgeOp() // additions of edges commute
			}
		case 8:
			return w.childOp()
		case 9:
			if t := mine(w.T); len(t) > 0 {
				if g.p(1, 2) {
					return w.nsOp(g.pick(t), g.pick(w.N))
				}
				return w.scopeOp(g.pick(t), g.pick(w.N))
			}
		case 10:
			if task == 0 {
				if g.p(1, 2) {
					return op("deftenant", "")
				}
				return op("deftenant", g.pick(w.T))
			}
		case 11:
			if g.p(1, 2) {
				return op("addtenant", g.pick(w.T))
			}
			if r := mine(w.R); len(r) > 0 {
				h := w.handle[g.pick(r)]
				return op("addrole", h[g.n(len(h))])
			}
		}
	}
	return w.anyReq()
}

func (w *v2w) mixed(n, pc, pq int, kinds func() Op, expMode int) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		if w.g.p(pc, pq) {
			o := w.did(w.change(expMode))
			ops = append(ops, o)
			if w.g.p(1, 4) {
				ops = append(ops, w.after(&o))
			}
		} else {
			o := kinds()
			ops = append(ops, o)
			if w.g.p(1, 6) {
				ops = append(ops, o) // the same question again
			}
		}
	}
	return ops
}

func (w *v2w) concPhase(nt, n int, expMode int, jump bool) Phase {
	g := w.g
	p := Phase{Tasks: make([][]Op, nt)}
	w.shared, w.old = map[string]bool{}, map[string]map[string]bool{}
	for _, l := range [][]string{w.P, w.R, w.T} {
		for _, x := range l {
			if g.p(1, 4) {
				w.shared[x] = true
			}
		}
	}
	for id, t := range w.m.ten {
		w.old[id] = map[string]bool{}
		for n := range t.ns {
			w.old[id][n] = true
		}
	}
	defer func() { w.shared = nil }()
	for i := 0; i < n; i++ {
		t := g.n(nt)
		var o Op
		switch {
		case jump && g.p(1, 6):
			o = Op{K: "jump", N: []int64{w.near()}}
		case g.p(1, 2):
			o = w.did(w.owned(t, nt, expMode))
		default:
			o = w.anyReq()
		}
		p.Tasks[t] = append(p.Tasks[t], o)
	}
	return p
}

// ---- C01, C07: decisions at quiescence

func genDecisions(kind string, other int) func(g *Gen, c *Case) {
	return func(g *Gen, c *Case) {
		w := newV2w(g, g.rng(1, 4), g.rng(1, 3), g.rng(1, 3), g.rng(1, 6), g.rng(1, 4), g.p(1, 3))
		var bulk []Op
		switch g.n(24) {
		case 0, 1:
			// Many tenants for one principal.
			w = newV2w(g, g.rng(9, 14), 1, 2, g.rng(2, 4), 2, false)
			w.bulk = true
		case 2:
			// A long chain of roles, or many children of one.
			w = newV2w(g, 1, 1, 2, g.rng(8, 40), 2, false)
			bulk = w.chain("edge", w.R)
		case 3:
			// A long chain of tenants, or many children of one.
			w = newV2w(g, g.rng(6, 16), 1, 2, 3, 2, false)
			bulk = w.chain("child", w.T)
			w.bulk = true
		case 4:
			// Many permissions and assignments.
			w = newV2w(g, 2, 2, 2, 3, 2, false)
			for i := g.rng(10, 40); i > 0; i-- {
				bulk = append(bulk, w.prOp("", 0))
			}
		}
		w.empties = g.n(8) / 6
		w.twins = g.p(1, 4)
		kinds := func() Op {
			if g.p(other, 10) {
				if kind == "auth" {
					return w.req("can")
				}
				return w.req("auth")
			}
			return w.req(kind)
		}
		c.Phases = append(c.Phases, Phase{Main: w.objects()})
		if g.p(5, 6) {
			if g.p(1, 5) {
				// Built by concurrent callers.
				ops := w.setup()
				nt := g.rng(2, 3)
				p := Phase{Tasks: make([][]Op, nt)}
				for _, o := range ops {
					p.Tasks[owner(&o, nt)] = append(p.Tasks[owner(&o, nt)], o)
				}
				c.Phases = append(c.Phases, p)
			} else {
				c.Phases = append(c.Phases, Phase{Main: w.setup()})
			}
		}
		if w.bulk {
			for _, t := range w.T {
				if !g.p(1, 8) {
					manage := int64(g.n(3) / 2)
					bulk = append(bulk, Op{K: "pr", S: []string{w.P[0], t, "", "", g.pick(w.R)}, N: []int64{manage, 0, w.slot}})
					w.slot++
				}
			}
		}
		if len(bulk) > 0 {
			g.shuffle(len(bulk), func(i, j int) { bulk[i], bulk[j] = bulk[j], bulk[i] })
			for _, o := range bulk {
				w.did(o)
			}
			c.Phases = append(c.Phases, Phase{Main: bulk})
		}
		c.Phases = append(c.Phases, Phase{Main: w.mixed(g.rng(10, 40), 2, 5, kinds, 0)})
		if g.p(1, 4) {
			c.Phases = append(c.Phases, w.concPhase(g.rng(2, 3), g.rng(6, 14), 0, false))
			c.Phases = append(c.Phases, Phase{Main: w.mixed(g.rng(8, 20), 1, 5, kinds, 0)})
		}
		g.schedule(c, g.p(1, 8))
	}
}

// listedV2 turns some calls with one tenant into calls with a list whose first
// members are known already: tenants registered before, children added before.
func listedV2(gen func(g *Gen, c *Case)) func(g *Gen, c *Case) {
	return func(g *Gen, c *Case) {
		gen(g, c)
		if !g.p(1, 2) {
			return
		}
		var reg []string
		kids := map[string][]string{}
		for _, p := range c.Phases {
			for i := range p.Main {
				o := &p.Main[i]
				switch {
				case o.K == "addtenant":
					if len(o.S) == 1 && len(reg) > 0 && g.p(1, 3) {
						t := o.S[0]
						o.S = append([]string{g.pick(reg)}, t)
						if g.p(1, 4) {
							o.S = append([]string{g.pick(reg)}, o.S...)
						}
					}
					reg = append(reg, o.S...)
				case o.K == "child" && len(o.S) > 1:
					if k := kids[o.S[0]]; len(k) > 0 && g.p(1, 2) {
						o.S = append([]string{o.S[0], g.pick(k)}, o.S[1:]...)
					}
					kids[o.S[0]] = append(kids[o.S[0]], o.S[1:]...)
				}
			}
		}
	}
}

// owner gives all operations on one object to one task.
func owner(o *Op, nt int) int {
	key := ""
	switch o.K {
	case "pr", "rmpr", "perm", "unperm", "addrole", "ns", "scope":
		key = o.S[0]
	}
	if len(key) > 2 && (key[:2] == "h:" || key[:2] == "g:") {
		key = key[2:]
	}
	h := 0
	for _, b := range []byte(key) {
		h = h*31 + int(b)
	}
	if h < 0 {
		h = -h
	}
	if o.K == "pr" && len(o.S) > 5 {
		return 0
	}
	return h % nt
}

// ---- C02

func genC02(g *Gen, c *Case) {
	w := newV2w(g, g.rng(1, 3), g.rng(1, 2), g.rng(1, 2), g.rng(1, 4), g.rng(1, 3), false)
	w.empties = g.n(8) / 6
	c.Phases = append(c.Phases, Phase{Main: append(w.objects(), w.setup()...)})
	n := g.rng(1, 2)
	for i := 0; i < n; i++ {
		p := w.concPhase(g.rng(2, 4), g.rng(5, 16), 0, false)
		c.Phases = append(c.Phases, p)
		var probes []Op
		k := g.rng(2, 8)
		for j := 0; j < k; j++ {
			probes = append(probes, w.anyReq())
		}
		for _, t := range p.Tasks {
			for i := range t {
				if isChange(&t[i]) && g.p(3, 4) {
					probes = append(probes, w.after(&t[i]))
				} else if !isChange(&t[i]) && g.p(1, 12) {
					t[i] = w.lookup()
				}
			}
		}
		for k := g.n(4); k > 0; k-- {
			probes = append(probes, w.lookup())
		}
		c.Phases = append(c.Phases, Phase{Main: probes})
	}
	g.schedule(c, false)
}

// ---- C03

func genC03(g *Gen, c *Case) {
	w := newV2w(g, g.rng(1, 3), g.rng(1, 2), g.rng(1, 2), g.rng(1, 3), g.rng(1, 2), false)
	if g.huge {
		w = newV2w(g, 2, 1, 2, g.rng(3, 30), g.rng(2, 90), false)
		for i := range w.R {
			w.perm = append(w.perm, uniq(i))
		}
	}
	ops := w.objects()
	for _, t := range w.T {
		ops = append(ops, w.did(op("addtenant", t)))
		for _, n := range w.N {
			ops = append(ops, w.did(w.nsOp(t, n)), w.did(w.scopeOp(t, n)))
		}
	}
	for _, r := range w.R {
		ops = append(ops, w.did(op("addrole", w.handle[r][0])), w.did(w.permOp(r)))
	}
	if len(w.R) > 1 {
		ops = append(ops, w.did(w.edgeOp()))
	}
	if len(w.T) > 1 && g.p(3, 4) {
		ops = append(ops, w.did(w.childOp()))
	}
	now := int64(0)
	n := g.rng(12, 45)
	var exps []int64
	pr := func() Op {
		o := w.did(w.prOp("", 1))
		for i := 1; i < len(o.N); i += 3 {
			if o.N[i] != 0 {
				if g.p(1, 30) {
					if o.N[i] = math.MaxInt64; g.p(1, 2) {
						o.N[i] = math.MinInt64
					}
					continue
				}
				o.N[i] += now
				exps = append(exps, o.N[i]-startNS)
			}
		}
		return o
	}
	var main []Op
	jump := func() {
		d := w.near()
		if len(exps) > 0 && g.p(1, 2) {
			// Right before, on, or right after an expiry.
			d = exps[g.n(len(exps))] + int64(g.rng(-1, 1)) - now
		}
		now += d
		main = append(main, Op{K: "jump", N: []int64{d}})
	}
	if g.huge {
		n = g.rng(30, 60)
		for i := g.hugeSize(1100); i > 0; i-- {
			main = append(main, pr())
		}
	}
	for i := 0; i < n; i++ {
		switch g.n(12) {
		case 0, 1, 2:
			main = append(main, pr())
		case 3, 4:
			jump()
		case 5:
			if w.slot > 0 {
				e := startNS + now + w.near()
				if g.p(1, 20) {
					if e = math.MaxInt64; g.p(1, 2) {
						e = math.MinInt64
					}
					main = append(main, Op{K: "setexp", N: []int64{int64(g.n(int(w.slot))), e}})
					continue
				}
				main = append(main, Op{K: "setexp", N: []int64{int64(g.n(int(w.slot))), e}})
				exps = append(exps, e-startNS)
			}
		case 6:
			if w.slot > 0 {
				o := Op{K: "setdur", N: []int64{int64(g.n(int(w.slot))), w.near(), 0}}
				switch g.n(6) {
				case 0:
					o.S = []string{g.pick([]string{"1h", "1ns", "0s", "-1s", "soon", "", "1.5m", "3", "-1ns", "10us", "2000000h", "-2000000h", "2540400h"})}
				case 1:
					o.N[2] = 1
				}
				main = append(main, o)
			}
		case 7:
			if w.slot > 0 {
				main = append(main, Op{K: "clrexp", N: []int64{int64(g.n(int(w.slot)))}})
			}
		case 8:
			if w.slot > 0 {
				main = append(main, Op{K: "isexp", N: []int64{int64(g.n(int(w.slot)))}})
			}
		default:
			main = append(main, w.anyReq())
		}
	}
	ops = append(ops, main...)
	c.Phases = append(c.Phases, Phase{Main: ops})
	if g.p(1, 2) {
		c.Phases = append(c.Phases, w.concPhase(g.rng(2, 3), g.rng(6, 14), 1, true))
		main = nil
		k := g.rng(3, 8)
		for i := 0; i < k; i++ {
			main = append(main, w.anyReq())
		}
		c.Phases = append(c.Phases, Phase{Main: main})
	}
	g.schedule(c, g.p(2, 3))
	if c.Cfg.TickInv != 0 && g.p(2, 3) {
		c.Cfg.TickMax = int64(g.rng(1, 4))
	}
}

// ---- C04

func genC04(g *Gen, c *Case) {
	w := newV2w(g, g.rng(1, 4), g.rng(1, 3), g.rng(1, 3), g.rng(2, 5), g.rng(2, 5), false)
	if g.p(1, 10) {
		w = newV2w(g, g.rng(9, 12), 1, 2, 3, 3, false)
	}
	ops := append(w.objects(), w.setup()...)
	for i := g.rng(0, 8); i > 0; i-- {
		ops = append(ops, w.did(w.prOp("", 0)))
	}
	c.Phases = append(c.Phases, Phase{Main: ops})
	nt := g.rng(2, 5)
	for k := g.rng(1, 2); k > 0; k-- {
		p := Phase{Tasks: make([][]Op, nt)}
		for i := g.rng(nt, 4*nt); i > 0; i-- {
			o := w.anyReq()
			p.Main = append(p.Main, alone(&o))
			t := g.n(nt)
			p.Tasks[t] = append(p.Tasks[t], o)
			if g.p(1, 5) {
				t = g.n(nt)
				p.Tasks[t] = append(p.Tasks[t], o)
			}
		}
		c.Phases = append(c.Phases, p)
	}
	g.schedule(c, false)
}

func alone(o *Op) Op {
	return Op{K: "alone", S: append([]string{o.K}, o.S...)}
}

// checkAlone compares requests with the answers they got alone.
func checkAlone(r *Run, class string) {
	type key struct {
		phase int
		q     string
	}
	want := map[key]bool{}
	for _, x := range r.Recs {
		if x.Op.K == "alone" {
			want[key{x.Phase, strings.Join(quoteAll(x.Op.S), ",")}] = x.Bool
		}
	}
	for _, x := range r.Recs {
		if x.Op.K != "auth" && x.Op.K != "can" || !x.Done || x.Panic != "" {
			continue
		}
		a := alone(x.Op)
		b, ok := want[key{x.Phase, strings.Join(quoteAll(a.S), ",")}]
		if !ok {
			continue
		}
		r.count("judged", 1)
		if x.Bool {
			r.count("granted", 1)
		} else {
			r.count("denied", 1)
		}
		if b != x.Bool {
			r.fail(class, "%s, but alone the answer is %v", x, b)
			return
		}
	}
}

// ---- C05

func genC05(g *Gen, c *Case) {
	w := newV2w(g, g.rng(1, 3), g.rng(1, 2), g.rng(1, 2), g.rng(1, 4), g.rng(1, 3), false)
	tight := g.p(1, 4)
	if tight {
		w = newV2w(g, g.rng(1, 2), 1, 1, g.rng(1, 2), 1, false)
	}
	main := w.objects()
	if g.p(3, 4) {
		main = append(main, w.setup()...)
	}
	if !tight && g.p(1, 40) {
		// Layers of roles, each above all of the next: far more paths than
		// any walk may follow.
		w = newV2w(g, 1, 1, 1, 2*g.rng(16, 21), 1, false)
		main = w.objects()
		main = append(main, w.did(op("addtenant", w.T[0])), w.did(op("ns", w.T[0], w.N[0])))
		for i, r := range w.R {
			main = append(main, w.did(op("addrole", w.handle[r][0])))
			if i > 1 {
				main = append(main, w.did(op("edge", w.R[i/2*2-2], r)), w.did(op("edge", w.R[i/2*2-1], r)))
			}
		}
		main = append(main, w.did(op("edge", "top", w.R[0])))
		main = append(main, w.did(w.permOp(w.R[len(w.R)-1])))
		main = append(main, w.did(Op{K: "pr", S: []string{w.P[0], w.T[0], "", "", w.R[0]}, N: []int64{1, 0, w.slot}}))
		w.slot++
	}
	if !tight && g.p(1, 40) {
		// The same of tenants, all managed by one principal.
		w = newV2w(g, 2*g.rng(16, 21), 1, 1, 1, 1, false)
		main = w.objects()
		for i, t := range w.T {
			main = append(main, w.did(op("addtenant", t)), w.did(op("ns", t, w.N[0])))
			if i > 1 {
				main = append(main, w.did(op("child", w.T[i/2*2-2], t)), w.did(op("child", w.T[i/2*2-1], t)))
			}
			main = append(main, w.did(Op{K: "pr", S: []string{w.P[0], t, "", "", w.R[0]}, N: []int64{1, 0, w.slot}}))
			w.slot++
		}
		main = append(main, w.did(op("addrole", w.handle[w.R[0]][0])), w.did(w.permOp(w.R[0])))
		main = append(main, Op{K: "can", S: []string{w.P[0], w.T[0], w.N[0], "", w.R[0]}, N: []int64{0, 0}})
		main = append(main, op("auth", w.P[0], w.T[0], w.N[0], "", g.pick(v2res), g.pick(v2act)))
	}
	nt := g.rng(2, 5)
	if tight {
		// Few objects, all of them connected, so that callers meet.
		nt = g.rng(2, 4) + g.n(2)
		for _, a := range w.T {
			main = append(main, w.did(op("addtenant", a)), w.did(op("ns", a, w.N[0])), w.did(op("scope", a, w.N[0], w.S[0])))
			for _, b := range w.T {
				main = append(main, w.did(op("child", a, b)))
			}
			main = append(main, w.did(Op{K: "pr", S: []string{w.P[0], a, "", "", w.R[0]}, N: []int64{1, 0, w.slot}}))
			w.slot++
		}
		for _, r := range w.R {
			main = append(main, w.did(op("addrole", w.handle[r][0])), w.did(w.permOp(r)))
		}
	}
	for k := g.rng(1, 2); k > 0; k-- {
		p := Phase{Main: main, Tasks: make([][]Op, nt)}
		main = nil
		// Half of the phases draw from a few kinds of calls only.
		few := []int{}
		if g.p(1, 2) {
			for j := g.rng(1, 3); j > 0; j-- {
				few = append(few, g.n(20))
			}
			if tight {
				few = append(few, 8)
			}
		}
		for i := g.rng(nt, 5*nt); i > 0; i-- {
			t := g.n(nt)
			var o Op
			kind := g.n(12)
			if len(few) > 0 {
				kind = few[g.n(len(few))]
			}
			switch kind {
			case 12, 13:
				// Any two tenants, cycles included.
				o = w.did(op("child", g.pick(w.T), g.pick(w.T)))
			case 14:
				o = w.did(w.nsOp(g.pick(w.T), g.pick(w.N)))
			case 15:
				o = w.did(w.scopeOp(g.pick(w.T), g.pick(w.N)))
			case 16:
				o = w.did(w.permOp(g.pick(w.R)))
			case 17:
				o = w.did(w.prOp("", 0))
			case 18:
				o = w.did(w.rmOp(""))
			case 19:
				h := w.handle[g.pick(w.R)]
				o = w.did(op("addrole", h[g.n(len(h))]))
			case 0:
				o = op("gettenant", g.pick(w.T))
			case 1:
				o = op("getrole", g.pick(w.R))
			case 2:
				o = op("getdef")
			case 3:
				// Any edge, cycles included.
				o = op("edge", g.pick(w.R), g.pick(w.R), g.pick(w.R))
			case 4, 5, 6, 7:
				o = w.change(0)
				if o.K == "status" {
					o = op("addtenant", append([]string{}, w.T...)...)
				}
				w.did(o)
			default:
				o = w.anyReq()
			}
			p.Tasks[t] = append(p.Tasks[t], o)
		}
		c.Phases = append(c.Phases, p)
	}
	g.schedule(c, g.p(1, 6))
	if g.p(1, 4) {
		c.Opt |= optAudit
	}
}

// ---- C06

func genC06(g *Gen, c *Case) {
	nR := g.rng(2, 7)
	deep := g.p(1, 6)
	if deep {
		nR = g.rng(8, 36)
	}
	w := newV2w(g, 1, 1, 1, nR, 1, !deep && g.p(1, 4))
	w.P = nil
	var ops []Op
	ops = append(ops, w.did(op("tenant", w.T[0], w.N[0])), w.did(op("addtenant", w.T[0])))
	var late []Op
	for i, r := range w.R {
		h := "h:" + r
		w.handle[r] = []string{h}
		ops = append(ops, w.did(op("role", h, r)))
		if !g.p(1, 10) {
			ops = append(ops, w.did(op("addrole", h)))
		} else if g.p(1, 2) {
			late = append(late, op("addrole", h))
		}
		ops = append(ops, w.did(op("perm", h, "res"+strconv.Itoa(i)+"|do")))
		p := "p" + strconv.Itoa(i)
		w.P = append(w.P, p)
		ops = append(ops, w.did(Op{K: "pr", S: []string{p, w.T[0], "", "", r}, N: []int64{0, 0, w.slot}}))
		w.slot++
	}
	if deep {
		// A chain, a star or a ladder, sometimes in several pieces.
		lad := g.n(3)
		perm := make([]int, nR)
		for i := range perm {
			perm[i] = i
		}
		g.shuffle(nR, func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
		var es []Op
		for i := 1; i < nR; i++ {
			if g.p(1, 12) {
				continue
			}
			from := i - 1
			if lad == 1 {
				from = 0
			}
			o := op("edge", w.R[perm[from]], w.R[perm[i]])
			for k := i + 1; lad == 2 && k < nR && k < i+4 && g.p(2, 3); k++ {
				o.S = append(o.S, w.R[perm[k]])
			}
			es = append(es, o)
		}
		if g.p(1, 2) {
			g.shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		}
		for _, o := range es {
			ops = append(ops, w.did(o))
		}
		// Closing the chain at its ends.
		for i := g.rng(0, 3); i > 0; i-- {
			ops = append(ops, op("edge", w.R[perm[g.rng(nR-3, nR-1)]], w.R[perm[g.rng(0, 2)]]))
		}
	}
	edge := func() Op {
		o := op("edge", g.pick(w.R), g.pick(w.R))
		lim := 5
		if g.p(1, 6) {
			lim = 9
		}
		for (g.p(1, 3) || lim == 9) && len(o.S) < lim {
			o.S = append(o.S, g.pick(w.R))
		}
		return o
	}
	probe := func() Op {
		i, j := g.n(nR), g.n(nR)
		if g.p(1, 2) {
			return op("auth", "p"+strconv.Itoa(i), w.T[0], "", "", "res"+strconv.Itoa(j), "do")
		}
		return Op{K: "can", S: []string{"p" + strconv.Itoa(i), w.T[0], "", "", w.R[j]}, N: []int64{0, 0}}
	}
	pre := g.rng(0, 10)
	for i := 0; i < pre; i++ {
		ops = append(ops, edge())
		for g.p(1, 3) {
			ops = append(ops, probe())
		}
	}
	c.Phases = append(c.Phases, Phase{Main: ops})
	if g.p(4, 5) {
		for k := g.rng(1, 2); k > 0; k-- {
			nt := g.rng(2, 4)
			p := Phase{Tasks: make([][]Op, nt)}
			for i := g.rng(3, 14); i > 0; i-- {
				t := g.n(nt)
				if g.p(2, 3) {
					p.Tasks[t] = append(p.Tasks[t], edge())
				} else {
					p.Tasks[t] = append(p.Tasks[t], probe())
				}
			}
			c.Phases = append(c.Phases, p)
			main := late
			late = nil
			n := nR * 2
			if n > 16 {
				n = 16
			}
			for i := g.rng(2, n); i > 0; i-- {
				main = append(main, probe())
			}
			c.Phases = append(c.Phases, Phase{Main: main})
		}
	} else {
		for i := g.rng(0, 8); i > 0; i-- {
			late = append(late, probe())
		}
		c.Phases = append(c.Phases, Phase{Main: late})
	}
	g.schedule(c, false)
}

// c06state is the state additions of child roles act on.
type c06state struct {
	kids [40]uint64
	reg  uint64
}

func checkC06(r *Run) {
	idx := map[string]int{}
	id := func(name string) int {
		n, ok := idx[name]
		if !ok {
			n = len(idx)
			idx[name] = n
		}
		return n
	}
	name := map[string]string{}
	holders := map[string]uint64{}  // resource -> roles with that permission
	assigned := map[string]uint64{} // principal -> roles
	tenant := 0
	for _, x := range r.Recs {
		o := x.Op
		switch o.K {
		case "tenant", "addtenant":
			tenant++
		case "role":
			name[o.S[0]] = o.S[1]
			id(o.S[1])
		case "edge":
			for _, k := range o.S {
				id(k)
			}
		case "can":
			for _, k := range o.S[4:] {
				id(k)
			}
		case "pr":
			id(o.S[4])
		}
	}
	if tenant != 2 || len(idx) > 40 {
		r.count("unjudged", 1)
		return
	}
	for _, x := range r.Recs {
		o := x.Op
		switch o.K {
		case "perm":
			if n, ok := name[o.S[0]]; ok {
				res, _ := cutPerm(o.S[1])
				holders[res] |= 1 << id(n)
			}
		case "pr":
			assigned[o.S[0]] |= 1 << id(o.S[4])
		}
	}
	n := len(idx)
	// States get numbers.
	states := []c06state{{}}
	number := map[c06state]uint64{{}: 0}
	put := func(s c06state) uint64 {
		k, ok := number[s]
		if !ok {
			k = uint64(len(states))
			states = append(states, s)
			number[s] = k
		}
		return k
	}
	// reach: the roles below, themselves included, passing through roles in via.
	reach := func(s *c06state, from, via uint64) uint64 {
		seen := from
		for todo := from & via; todo != 0; {
			var next uint64
			for i := 0; i < n; i++ {
				if todo>>i&1 == 1 {
					next |= s.kids[i]
				}
			}
			todo = next &^ seen & via
			seen |= next
		}
		return seen
	}
	var ops []lop
	for _, x := range r.Recs {
		x := x
		if !x.Done {
			continue
		}
		switch x.Op.K {
		case "addrole":
			var bits uint64
			for _, h := range x.Op.S {
				if n, ok := name[h]; ok {
					bits |= 1 << id(n)
				}
			}
			ops = append(ops, lop{x.Inv, x.Ret, func(st uint64) (uint64, bool) {
				s := states[st]
				s.reg |= bits
				return put(s), true
			}, x})
		case "edge":
			p := id(x.Op.S[0])
			var kids uint64
			for _, k := range x.Op.S[1:] {
				kids |= 1 << id(k)
			}
			ops = append(ops, lop{x.Inv, x.Ret, func(st uint64) (uint64, bool) {
				s := states[st]
				if reach(&s, kids, ^uint64(0))>>p&1 == 1 {
					return st, x.Err
				}
				if x.Err {
					return st, false
				}
				s.kids[p] |= kids
				return put(s), true
			}, x})
		case "can", "auth":
			o := x.Op
			ops = append(ops, lop{x.Inv, x.Ret, func(st uint64) (uint64, bool) {
				s := &states[st]
				got := reach(s, assigned[o.S[0]], s.reg) & s.reg
				want := false
				if o.K == "auth" {
					want = got&holders[o.S[4]] != 0
				} else {
					got |= assigned[o.S[0]]
					for _, k := range o.S[4:] {
						want = want || got>>id(k)&1 == 1
					}
				}
				return st, x.Bool == want
			}, x})
		}
	}
	judgeLin(r, ops, 0)
}

func judgeLin(r *Run, ops []lop, init uint64) {
	found, ok, stuck := linearizable(ops, init, 60000)
	if !ok {
		r.count("unjudged", 1)
		return
	}
	for _, o := range ops {
		r.count("judged", 1)
		if o.rec.Err {
			r.count("refused", 1)
		}
		if o.rec.Bool {
			r.count("granted", 1)
		}
	}
	if !found {
		msg := "nothing"
		if stuck != nil {
			msg = stuck.String()
		}
		r.fail("history", "no order of the calls explains all results; the furthest attempt fails at %s", msg)
	}
}

// ---- C08

func genC08(g *Gen, c *Case) {
	c.Opt |= optAudit
	w := newV2w(g, g.rng(1, 3), g.rng(1, 2), g.rng(1, 2), g.rng(1, 3), g.rng(1, 3), g.p(1, 4))
	ops := append(w.objects(), w.setup()...)
	mode := func() int64 {
		if g.p(1, 2) {
			return sinkOK
		}
		return int64(g.rng(sinkError, sinkReenterWrite))
	}
	ask := func() Op {
		o := w.anyReq()
		m := mode()
		if len(o.N) == 0 {
			o.N = []int64{m}
		} else {
			o.N = append([]int64(nil), o.N...)
			o.N[0] = m
		}
		if g.p(1, 8) {
			o.S[1] = "nosuch"
		}
		return o
	}
	main := ops
	if g.p(1, 3) {
		main = append(main, w.did(op("deftenant", g.pick(w.T))))
	}
	for k := g.rng(1, 2); k > 0; k-- {
		p := Phase{Main: main}
		main = nil
		nt := g.rng(1, 4)
		p.Tasks = make([][]Op, nt)
		many := g.rng(nt, 4*nt)
		if g.huge {
			many = g.hugeSize(600)
		}
		for i := many; i > 0; i-- {
			t := g.n(nt)
			o := ask()
			a := alone(&o)
			p.Main = append(p.Main, a)
			if g.p(1, 4) {
				p.Main = append(p.Main, o)
			}
			p.Tasks[t] = append(p.Tasks[t], o)
			if g.p(1, 3) {
				// A change that has nothing to do with any request.
				x := "unrelated" + strconv.Itoa(g.n(3))
				switch g.n(4) {
				case 0:
					p.Tasks[t] = append(p.Tasks[t], Op{K: "pr", S: []string{x, w.T[0], "", "", x}, N: []int64{0, 0, nslots - 1}})
				case 1:
					p.Tasks[t] = append(p.Tasks[t], op("edge", x+"a", x+"b"))
				case 2:
					p.Tasks[t] = append(p.Tasks[t], op("rmpr", x, "", "", "", ""))
				case 3:
					p.Tasks[t] = append(p.Tasks[t], op("gettenant", w.T[0]))
				}
			}
		}
		c.Phases = append(c.Phases, p)
	}
	var last []Op
	for i := g.rng(2, 6); i > 0; i-- {
		o := ask()
		o.N[0] = 0
		last = append(last, alone(&o), o)
	}
	c.Phases = append(c.Phases, Phase{Main: last})
	g.schedule(c, g.p(1, 2))
	if c.Cfg.TickMax > 1000 {
		c.Cfg.TickMax = 1000 // far from any expiry
	}
}

func checkC08(r *Run) {
	for _, x := range r.Recs {
		a, ok := x.Keep.(*auditCtx)
		if !ok || !x.Done {
			continue
		}
		r.count("audit_records", int64(len(a.recs)))
		if len(a.recs) > 0 && a.mode != sinkOK {
			r.count("sink_"+[]string{"ok", "error", "slow", "stall", "panic", "reenter", "reenter_write"}[a.mode], int64(len(a.recs)))
		}
		want := map[string]string{}
		names := []string{"principal", "tenant", "namespace", "scope", "resource", "action"}
		f := append([]string(nil), x.Op.S...)
		if x.Op.K == "can" {
			f = append([]string(nil), x.Op.S[:4]...)
			q, _ := canRequest(x.Op)
			f = append(f, q.Resource, q.Action)
		}
		for i, n := range names {
			if i < len(f) && f[i] != "" {
				want[n] = f[i]
			}
		}
		final := 0
		for i, rec := range a.recs {
			granted := rec.msg == "Authorization granted"
			if granted || rec.msg == "Authorization failed" || strings.Contains(rec.msg, "invalid tenant") {
				final++
				if len(rec.fields) != len(want) {
					r.fail("audit", "%s: audit record %q carries %v, the request is %v", x, rec.msg, rec.fields, want)
					return
				}
				for k, v := range want {
					if rec.fields[k] != v {
						r.fail("audit", "%s: audit record %q carries %s=%q, the request has %q", x, rec.msg, k, rec.fields[k], v)
						return
					}
				}
				if !rec.hasTS || rec.stamp < x.Win.Min || rec.stamp > x.Win.Max {
					r.fail("audit", "%s: audit record %q stamped %d, the call lasted from %d to %d", x, rec.msg, rec.stamp, x.Win.Min, x.Win.Max)
					return
				}
				if i != len(a.recs)-1 {
					r.fail("audit", "%s: final audit record %q is followed by another", x, rec.msg)
					return
				}
				if x.Panic == "" && granted != x.Bool {
					r.fail("audit", "%s: audit record says %q", x, rec.msg)
					return
				}
			} else if v, ok := rec.fields["principal"]; ok && v != want["principal"] {
				r.fail("audit", "%s: audit record %q names principal %q", x, rec.msg, v)
				return
			}
		}
		if x.Panic != "" {
			if len(a.recs) == 0 || !strings.HasPrefix(x.Panic, "audit sink failed") {
				r.fail("panic", "%s panicked: %s", x.Op, x.Panic)
				return
			}
			continue
		}
		if final != 1 {
			r.fail("audit", "%s: %d final audit records", x, final)
			return
		}
		r.count("audited", 1)
	}
	checkAlone(r, "decision")
}

// ---- C09

func genC09(g *Gen, c *Case) {
	w := newV2w(g, g.rng(1, 3), g.rng(1, 2), g.rng(1, 2), g.rng(1, 3), g.rng(1, 3), g.p(1, 5))
	var ops []Op
	for _, t := range w.T {
		ops = append(ops, w.did(op("tenant", t)), w.did(op("addtenant", t)))
		for _, n := range w.N {
			ops = append(ops, w.did(op("ns", t, n)), w.did(op("scope", append([]string{t, n}, w.S...)...)))
		}
	}
	for i, r := range w.R {
		h := "h:" + r
		w.handle[r] = []string{h}
		ops = append(ops, w.did(op("role", h, r)), w.did(op("addrole", h)), w.did(op("perm", h, "res"+strconv.Itoa(i)+"|do")))
	}
	npr := 0
	w.empties = g.n(8)
	// Expiries lie far from any reading of the clock; child tenants are left to
	// histories without concurrent calls.
	exp := g.n(3) / 2 * 2
	seq := g.p(1, 4)
	if seq && len(w.T) > 1 {
		for i := g.rng(0, 3); i > 0; i-- {
			ops = append(ops, w.did(w.childOp()))
		}
	}
	pr := func() Op {
		o := w.prOp("", exp)
		npr += len(o.S) / 5
		return w.did(o)
	}
	ask := func() Op {
		o := w.anyReq()
		if o.S[1] == "" {
			o.S[1] = g.pick(w.T)
		}
		if o.S[2] == "" && g.p(3, 4) {
			o.S[2] = g.pick(w.N)
		}
		return o
	}
	for i := g.rng(1, 12); i > 0; i-- {
		ops = append(ops, pr())
	}
	for i := g.rng(0, 20); i > 0; i-- {
		switch g.n(5) {
		case 0:
			ops = append(ops, w.did(w.rmOp("")))
		case 1:
			ops = append(ops, pr())
		default:
			ops = append(ops, ask())
		}
	}
	c.Phases = append(c.Phases, Phase{Main: ops})
	if !seq {
		for k := g.rng(1, 2); k > 0; k-- {
			nt := g.rng(2, 4)
			p := Phase{Tasks: make([][]Op, nt)}
			for i := g.rng(3, 12); i > 0; i-- {
				var o Op
				switch g.n(5) {
				case 0, 1:
					o = w.did(w.rmOp(""))
				case 2:
					if npr > 50 {
						continue
					}
					o = pr()
				default:
					o = ask()
				}
				t := g.n(nt)
				p.Tasks[t] = append(p.Tasks[t], o)
			}
			c.Phases = append(c.Phases, p)
			var main []Op
			for i := g.rng(3, 10); i > 0; i-- {
				main = append(main, ask())
			}
			c.Phases = append(c.Phases, Phase{Main: main})
		}
	}
	g.schedule(c, false)
}

func checkC09(r *Run) {
	// The tenants and roles are fixed: only the set of assignments is state.
	m := newV2m()
	var all []mPR
	for _, x := range r.Recs {
		if x.Op.K == "pr" {
			for i := 0; i*5+4 < len(x.Op.S); i++ {
				o := x.Op
				all = append(all, mPR{p: o.S[i*5], t: o.S[i*5+1], n: o.S[i*5+2], s: o.S[i*5+3], r: o.S[i*5+4], slot: o.n(i*3 + 2),
					manage: o.n(i*3) == 1, lo: o.n(i*3 + 1), hi: o.n(i*3 + 1)})
			}
		} else if isChange(x.Op) && x.Op.K != "rmpr" {
			m.apply(x.Op, [2]int64{})
		}
	}
	if len(all) > 64 {
		r.count("unjudged", 1)
		return
	}
	bit := map[int64]int{}
	for i := range all {
		bit[all[i].slot] = i
	}
	type qk struct {
		o  *Op
		st uint64
	}
	memo := map[qk]bool{}
	answer := func(o *Op, st uint64) bool {
		k := qk{o, st}
		if v, ok := memo[k]; ok {
			return v
		}
		m.prs = m.prs[:0]
		for i := range all {
			if st>>i&1 == 1 {
				m.prs = append(m.prs, all[i])
			}
		}
		v := false
		ids, ok := m.targets(o.s(0), o.s(1))
		for _, id := range ids {
			v = v || ok && m.decide(o, id, func(i, _ int) bool { return m.prs[i].hi == 0 || m.prs[i].hi > startNS })
		}
		memo[k] = v
		return v
	}
	var ops []lop
	for _, x := range r.Recs {
		x := x
		if !x.Done {
			continue
		}
		switch x.Op.K {
		case "pr":
			var add uint64
			for i := 0; i*5+4 < len(x.Op.S); i++ {
				add |= 1 << bit[x.Op.n(i*3+2)]
			}
			ops = append(ops, lop{x.Inv, x.Ret, func(st uint64) (uint64, bool) { return st | add, true }, x})
		case "rmpr":
			var del uint64
			for i := range all {
				if agrees(x.Op, &all[i]) {
					del |= 1 << i
				}
			}
			ops = append(ops, lop{x.Inv, x.Ret, func(st uint64) (uint64, bool) { return st &^ del, x.Err == (st&del == 0) }, x})
		case "auth", "can":
			if x.Task != 0 && x.Op.s(1) == "" {
				continue
			}
			ops = append(ops, lop{x.Inv, x.Ret, func(st uint64) (uint64, bool) { return st, answer(x.Op, st) == x.Bool }, x})
		}
	}
	judgeLin(r, ops, 0)
}

func exactBoth(r *Run) bool {
	return r.Stats["judged_exact"] > 0 && r.Stats["granted"] > 0 && r.Stats["denied"] > 0
}
func preempted(r *Run) bool { return r.Out.Fired.Preempts > 0 }

const v2real = "packages v2 and utils of the working tree (instrumented copy)"

func init() {
	v2faults := "preemption at every statement and lock operation, stalled callers, pools that recycle at once, at random or never, map iteration order"
	register(&Spec{ID: "C01", Real: v2real, NT: exactBoth, New: newV2, Gen: rarely(400, listedV2(genDecisions("auth", 2)), genHugeV2("auth", false)),
		Check:  func(r *Run) { checkV2(r, v2opts{auth: true, main: true, class: "decision"}) },
		Faults: v2faults + ", clock movement",
		Rule:   "seeded histories of administrative calls and requests, judged against the reference model at every quiescent request; a run is non-trivial when at least one request was granted and one denied and judged exactly"})
	register(&Spec{ID: "C02", Real: v2real, NT: func(r *Run) bool { return r.Stats["judged_overlapping"] > 0 }, New: newV2, Gen: rarely(600, genC02, genHugeV2("", true)),
		Check:  func(r *Run) { checkV2(r, v2opts{auth: true, can: true, main: true, conc: true, class: "decision"}) },
		Faults: v2faults,
		Rule:   "2 to 4 callers changing and asking, every request judged against all combinations of the overlapping changes; a run is non-trivial when a request overlapping a change was judged"})
	register(&Spec{ID: "C03", Real: v2real, NT: exactBoth, New: newV2, Gen: rarely(400, genC03, genC03),
		Check: func(r *Run) {
			checkV2(r, v2opts{auth: true, can: true, main: true, conc: true, expiry: true, class: "expiry"})
		},
		Faults: v2faults + ", clock ticks, forward and backward clock jumps onto and around expiries",
		Rule:   "assignments with expiries around the simulated clock, judged against the readings the clock took during each request; a run is non-trivial when at least one request was granted and one denied and judged exactly"})
	register(&Spec{ID: "C04", Real: v2real, NT: func(r *Run) bool { return r.Out.Fired.Preempts > 0 && r.Stats["granted"] > 0 && r.Stats["denied"] > 0 }, New: newV2, Gen: rarely(600, genC04, genHugeAlone),
		Check:  func(r *Run) { checkAlone(r, "interference") },
		Faults: v2faults,
		Rule:   "2 to 5 callers only asking, every answer compared with the one a fresh authorizer gives to that question alone; a run is non-trivial when preemption happened inside the concurrent phase and grants and denials both occurred"})
	register(&Spec{ID: "C05", Real: v2real, NT: preempted, New: newV2, Gen: rarely(600, genC05, genHugeV2("", true)), Race: true, RaceIs: true,
		Check:  func(r *Run) { r.count("judged", int64(len(r.Recs))) },
		Faults: v2faults,
		Rule:   "2 to 5 callers using every method at once, checked for races (race-detector build), panics, deadlocks and exhausted step budgets; a run is non-trivial when preemption happened inside the concurrent phase"})
	register(&Spec{ID: "C06", Real: v2real, NT: func(r *Run) bool { return r.Stats["refused"] > 0 && r.Stats["granted"] > 0 }, New: newV2, Gen: rarely(600, genC06, genHugeEdges), Check: hugeOr(checkC06), Faults: v2faults,
		Rule: "sequential and concurrent child-role additions with probes, the whole history explained by one order of the calls (linearizability against a set of edges); a run is non-trivial when additions were refused and accepted"})
	register(&Spec{ID: "C07", Real: v2real, NT: exactBoth, New: newV2, Gen: rarely(400, listedV2(genDecisions("can", 3)), genHugeV2("can", false)),
		Check:  func(r *Run) { checkV2(r, v2opts{can: true, main: true, class: "decision"}) },
		Faults: v2faults + ", clock movement",
		Rule:   "seeded histories of administrative calls, role questions and requests, judged against the reference model at every quiescent role question; a run is non-trivial when at least one was answered yes and one no and judged exactly"})
	register(&Spec{ID: "C08", Real: v2real, NT: func(r *Run) bool {
		return r.Stats["audited"] > 0 && r.Stats["sink_error"]+r.Stats["sink_slow"]+r.Stats["sink_stall"]+r.Stats["sink_panic"]+r.Stats["sink_reenter"]+r.Stats["sink_reenter_write"] > 0
	}, New: newV2, Gen: rarely(800, genC08, genC08), Check: checkC08,
		PanicOK: func(r *Rec) bool {
			a, ok := r.Keep.(*auditCtx)
			return ok && a.mode == sinkPanic && strings.HasPrefix(r.Panic, "audit sink failed")
		},
		Faults: v2faults + ", audit sink errors, delays, stalls, panics and re-entry",
		Rule:   "requests with a faulty audit sink under concurrent callers, records and decisions judged per call; a run is non-trivial when audit records were judged and a sink fault fired"})
	register(&Spec{ID: "C09", Real: v2real, NT: func(r *Run) bool { return r.Stats["refused"] > 0 && r.Stats["granted"] > 0 }, New: newV2, Gen: rarely(600, genC09, genHugeV2("", false)), Check: hugeOr(checkC09), Faults: v2faults,
		Rule: "sequential and concurrent assignments, removals and requests, the whole history explained by one order of the calls (linearizability against a set of assignments); a run is non-trivial when removals succeeded and were refused"})
}
