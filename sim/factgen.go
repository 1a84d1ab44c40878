package main

import (
	"sort"
	"strconv"
	"strings"
)

// fw generates operations for a role manager of the root package or of v1. It
// follows the sequence it generates with the model, only to ask interesting
// questions.
type fw struct {
	g                *Gen
	st               *fstate
	v1               bool
	T, N, S, P, R, G []string
	perms            []string
	def              bool // default namespaces may be set
	lists            []string
	listArgs         map[string]string
	sep              *string // joins names, if they are such
	made             []Op
}

func newFW(g *Gen, isV1 bool, nT, nN, nS, nP, nR int, mode int) *fw {
	w := &fw{g: g, st: newF(), v1: isV1, listArgs: rootLists}
	if isV1 {
		w.listArgs = v1Lists
	}
	for k := range w.listArgs {
		w.lists = append(w.lists, k)
	}
	sort.Strings(w.lists)
	name := func(p string, n int) []string {
		switch mode {
		case 1:
			return g.names(p, n, true)
		case 2:
			return g.names("x", n, false)
		}
		return g.names(p, n, false)
	}
	w.T, w.N, w.S, w.P, w.R = name("t", nT), name("n", nN), name("s", nS), name("p", nP), name("r", nR)
	if mode == 3 {
		p, sep := g.gluedPools(nT, nN, nS, nP, nR)
		w.T, w.N, w.S, w.P, w.R, w.sep = p[0], p[1], p[2], p[3], p[4], &sep
	}
	w.G = g.names("g", g.rng(2, 3), false)
	if mode == 2 {
		w.G[0] = "x1"
	}
	for i := g.rng(2, 6); i > 0; i-- {
		if g.p(1, 5) {
			w.perms = append(w.perms, g.randPerm())
			continue
		}
		w.perms = append(w.perms, g.pick(v2perms))
	}
	return w
}

func (w *fw) apply(o *Op, add addFn) bool {
	if w.v1 {
		return v1Apply(w.st, o, add)
	}
	return rootApply(w.st, o, add)
}

func (w *fw) did(o Op) Op {
	if factChange(&o) {
		var fs []fact
		w.apply(&o, func(f fact) { fs = append(fs, f) })
		for _, f := range fs {
			w.st.put(f)
		}
	}
	return o
}

func (w *fw) group(object bool) string {
	i := w.g.n(len(w.G))
	if object {
		i = i / 2 * 2
	} else {
		i = 1
	}
	return w.G[i%len(w.G)]
}

// regs registers nearly everything.
func (w *fw) regs(miss int) []Op {
	g := w.g
	var ops []Op
	add := func(kind string, ids []string) {
		for _, id := range ids {
			if miss > 0 && g.p(1, miss) {
				continue
			}
			ops = append(ops, op("reg", kind, id))
		}
	}
	add("tenant", w.T)
	add("ns", w.N)
	add("scope", w.S)
	add("principal", w.P)
	add("role", w.R)
	add("group", w.G)
	if g.p(1, 2) {
		g.shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	}
	for i := range ops {
		w.did(ops[i])
	}
	return ops
}

var regKinds = []string{"tenant", "ns", "scope", "principal", "role", "group", "attr"}

func (w *fw) ids(kind string) []string {
	switch kind {
	case "tenant":
		return w.T
	case "ns":
		return w.N
	case "scope":
		return w.S
	case "principal":
		return w.P
	case "role":
		return w.R
	case "group":
		return w.G
	}
	return w.perms
}

func (w *fw) regOp() Op {
	g := w.g
	k := g.pick(regKinds)
	o := op("reg", k, g.pick(w.ids(k)))
	if g.p(1, 4) {
		o.K = "rereg"
		return o
	}
	switch {
	case k == "tenant" && g.p(1, 3):
		o.S = append(o.S, g.pick(w.N))
	case k == "role" && g.p(1, 2):
		o.S = append(o.S, w.group(false), g.pick(w.perms))
	case k == "group" && g.p(1, 2):
		o.S = append(o.S, g.pick(w.perms))
	}
	return o
}

func (w *fw) some(a []string) []string {
	n := 1
	if w.g.p(1, 4) {
		n = 2
		if w.g.p(1, 4) {
			n = w.g.rng(3, 7)
		}
	}
	return w.g.pickN(a, n)
}

// permChange draws a change of a role or group.
func (w *fw) permChange() Op {
	g := w.g
	switch g.n(8) {
	case 0, 1:
		return op("rperm", append([]string{g.pick(w.R), w.group(false)}, w.some(w.perms)...)...)
	case 2:
		return op("rgrp", g.pick(w.R), w.group(true))
	case 3, 4:
		grp := w.group(g.p(1, 2))
		return op("gattr", append([]string{grp}, w.some(w.perms)...)...)
	case 5:
		return op("rmperm", g.pick(w.R), w.group(false), g.pick(w.perms))
	}
	return op("rkid", append([]string{g.pick(w.R)}, w.some(w.R)...)...)
}

// change draws a change.
func (w *fw) change() Op { return w.recutChange(w.drawChange()) }

func (w *fw) drawChange() Op {
	g := w.g
	if w.v1 {
		return w.changeV1()
	}
	t := g.pick(w.T)
	mng := func() []int64 { return []int64{int64(g.n(2)), int64(g.n(2))} }
	with := func(k string, n []int64, s ...string) Op { return Op{K: k, S: s, N: n} }
	switch g.n(20) {
	case 0, 1, 2, 3:
		return with("tpr", mng(), append([]string{t, g.pick(w.P)}, w.some(w.R)...)...)
	case 4, 5, 6:
		return with("tps", mng(), append([]string{t, g.pick(w.P)}, w.some(w.S)...)...)
	case 7:
		v := func(a []string) string {
			if g.p(1, 2) {
				return ""
			}
			return g.pick(a)
		}
		o := with("data", []int64{int64(g.n(3))}, t, v(w.N), v(w.S), v(w.P), v(w.R))
		if g.p(1, 20) {
			o.S[0] = ""
		}
		return o
	case 8:
		return op("tns", append([]string{t}, w.some(w.N)...)...)
	case 9:
		return op("tsc", append([]string{t}, w.some(w.S)...)...)
	case 10:
		return op("trole", append([]string{t}, w.some(w.R)...)...)
	case 11:
		return op("tnsc", t, g.pick(w.N), g.pick(w.S))
	case 12:
		return op("tpn", t, g.pick(w.P), g.pick(w.N), g.pick(w.R))
	case 13, 14:
		return op("tkid", append([]string{t}, w.some(w.T)...)...)
	case 15:
		if w.def {
			return op("tdef", t, g.pick(w.N))
		}
		return op("tkid", t, g.pick(w.T))
	case 16:
		return w.regOp()
	}
	return w.permChange()
}

func (w *fw) changeV1() Op {
	g := w.g
	t := g.pick(w.T)
	switch g.n(22) {
	case 0, 1, 2:
		return op("tp", append([]string{t, g.pick(w.P)}, w.some(w.R)...)...)
	case 3, 4:
		o := op("tpn", t, g.pick(w.P), g.pick(w.N))
		if g.p(1, 2) {
			o.S = append(o.S, w.some(w.R)...)
		}
		return o
	case 5, 6:
		return op("tps", append([]string{t, g.pick(w.P)}, w.some(w.S)...)...)
	case 7:
		return op("tpsr", append([]string{t, g.pick(w.P), g.pick(w.R)}, w.some(w.S)...)...)
	case 8, 9, 10:
		o := Op{K: "mpr", S: []string{g.pick(w.P), g.pick(w.R), t, "", ""}, N: []int64{int64(g.n(3))}}
		if g.p(1, 2) {
			o.S[3] = g.pick(w.N)
		}
		if g.p(1, 2) {
			o.S[4] = g.pick(w.S)
		}
		if g.p(1, 8) {
			o.S[1] = ""
		}
		return o
	case 11:
		return op("tns", append([]string{t}, w.some(w.N)...)...)
	case 12:
		return op("tsc", append([]string{t}, w.some(w.S)...)...)
	case 13:
		return op("trole", append([]string{t}, w.some(w.R)...)...)
	case 14:
		return op("tnsc", append([]string{t, g.pick(w.N)}, w.some(w.S)...)...)
	case 15:
		return op("tnrole", append([]string{t, g.pick(w.N)}, w.some(w.R)...)...)
	case 16:
		if w.def && g.p(1, 2) {
			return op("tdef", t, g.pick(w.N))
		}
		return op("tkid", append([]string{t}, w.some(w.T)...)...)
	case 17:
		if g.p(1, 3) {
			if g.p(1, 2) {
				return op("nsc", append([]string{g.pick(w.N)}, w.some(w.S)...)...)
			}
			return op("nrole", append([]string{g.pick(w.N)}, w.some(w.R)...)...)
		}
		return w.regOp()
	}
	return w.permChange()
}

// inTenants fills the tenants of v1, without which nothing can be assigned.
func (w *fw) inTenants() []Op {
	g := w.g
	var ops []Op
	for _, t := range w.T {
		for k, ids := range map[string][]string{"tns": w.N, "tsc": w.S, "trole": w.R} {
			for _, id := range ids {
				ops = append(ops, op(k, t, id))
			}
		}
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].String() < ops[j].String() })
	var r []Op
	for _, o := range ops {
		if g.p(3, 4) {
			r = append(r, w.did(o))
		}
	}
	return r
}

// row picks an assignment, if there is one.
func (w *fw) row(principal bool) (fact, bool) {
	rows := w.st.rows()
	for try := 0; try < 4 && len(rows) > 0; try++ {
		x := rows[w.g.n(len(rows))]
		if x.a != "" && (!principal || x.d != "") {
			return x, true
		}
	}
	return fact{}, false
}

var actPool = []string{"/a GET", "/b POST", "/a/1 GET", "res read", "/c GO", "doc read", "x y", "/d GET", "* *", "* GET", "/:id GET", ":x :y", "*", "/a /b"}

// activity makes one the role may have.
func (w *fw) activity(role string) (group, act string) {
	g := w.g
	group, act = g.pick(w.G), g.pick(actPool)
	if role == "" || g.p(1, 8) {
		return
	}
	type gp struct{ g, p string }
	var c []gp
	for r := range w.st.reach(fRoleKid, role, true) {
		for _, gr := range w.G {
			for _, p := range w.st.permsOf(r, gr) {
				c = append(c, gp{gr, p})
			}
		}
	}
	if len(c) == 0 {
		return
	}
	sort.Slice(c, func(i, j int) bool { return c[i].g+"\x01"+c[i].p < c[j].g+"\x01"+c[j].p })
	x := c[g.n(len(c))]
	res, a := g.instantiate(x.p)
	group, act = x.g, res+" "+a
	if g.p(1, 10) {
		group = g.pick(w.G)
	}
	return
}

// ask draws a request, mostly one that some assignment has to do with.
func (w *fw) ask() Op {
	x, ok := w.row(true)
	return w.askAbout(x, ok && !w.g.p(1, 8), w.g.pick(w.R))
}

func (w *fw) askAbout(x fact, ok bool, role string) Op {
	g := w.g
	o := op("auth", g.pick(w.P), g.pick(w.T), "", "", "", "")
	if ok {
		o.S[0], o.S[1], role = x.d, x.a, x.e
		switch g.n(4) {
		case 0:
			o.S[2], o.S[3] = x.b, x.c
		case 1:
			o.S[2] = g.pick(w.N)
		case 2:
			o.S[3] = g.pick(w.S)
		case 3:
			o.S[2], o.S[3] = g.pick(w.N), g.pick(w.S)
		}
		if g.p(1, 2) {
			if y, ok := w.row(false); ok && y.a == x.a {
				if y.b != "" {
					o.S[2] = y.b
				}
				if y.c != "" {
					o.S[3] = y.c
				}
			}
		}
		if g.p(1, 4) || g.huge && g.p(1, 2) {
			below := sortedSet(keys(w.st.reach(fTenKid, x.a, false)))
			if len(below) > 0 {
				o.S[1] = g.pick(below)
			}
		}
		if role == "" {
			role = g.pick(w.R)
		}
	} else {
		if g.p(1, 2) {
			o.S[2] = g.pick(w.N)
		}
		if g.p(1, 2) {
			o.S[3] = g.pick(w.S)
		}
	}
	switch g.n(8) {
	case 0, 1, 2:
	case 3:
		if g.p(1, 2) {
			o.S[4], _ = w.activity(role)
		} else {
			_, o.S[5] = w.activity(role)
		}
	default:
		o.S[4], o.S[5] = w.activity(role)
	}
	if g.p(1, 8) {
		v := [][]string{w.P, w.T, w.N, w.S}
		i := g.n(4)
		o.S[i] = g.pick(v[i])
	}
	if g.p(1, 3) {
		o, _ = w.recutOp(o)
	}
	if g.p(1, 10) {
		o.S[1] = ""
	}
	if g.p(1, 12) {
		o.S[g.rng(2, 3)] = ""
	}
	if g.p(1, 30) {
		o.S[g.n(4)] = "nosuch"
	}
	return o
}

// after draws a request that a change has to do with.
func (w *fw) after(o *Op) Op {
	g := w.g
	S := o.S
	var x fact
	switch o.K {
	case "tpr", "tp":
		x = fact{a: S[0], d: S[1], e: g.pick(S[2:])}
	case "tps":
		x = fact{a: S[0], d: S[1], c: g.pick(S[2:])}
	case "tpsr":
		x = fact{a: S[0], d: S[1], e: S[2], c: g.pick(S[3:])}
	case "tpn":
		x = fact{a: S[0], d: S[1], b: S[2]}
		if len(S) > 3 {
			x.e = g.pick(S[3:])
		}
	case "mpr":
		x = fact{a: S[2], d: S[0], b: S[3], c: S[4], e: S[1]}
	case "data":
		x = fact{a: S[0], b: S[1], c: S[2], d: S[3], e: S[4]}
	default:
		// An assignment it may matter for.
		var role, tenant string
		switch o.K[0] {
		case 't':
			tenant = S[0]
		case 'r':
			role = S[0]
		}
		var c []fact
		below := map[string]bool{}
		for _, y := range w.st.rows() {
			if y.d == "" || y.a == "" {
				continue
			}
			switch {
			case tenant != "" && o.K == "tkid":
				if y.m != 2 || y.a != tenant && !w.st.reach(fTenKid, y.a, false)[tenant] {
					continue
				}
			case tenant != "":
				if y.a != tenant {
					continue
				}
			case role != "":
				if y.e == "" {
					continue
				}
				b, ok := below[y.e]
				if !ok {
					b = w.st.reach(fRoleKid, y.e, true)[role]
					below[y.e] = b
				}
				if !b {
					continue
				}
			default:
				continue
			}
			c = append(c, y)
		}
		if len(c) == 0 {
			return w.ask()
		}
		x = c[g.n(len(c))]
	}
	if x.d == "" {
		x.d = g.pick(w.P)
	}
	role := x.e
	if role == "" {
		role = g.pick(w.R)
	}
	q := w.askAbout(x, true, role)
	if o.K[0] == 'r' && o.K != "reg" && o.K != "regs" && o.K != "rereg" && g.p(1, 4) {
		// The role itself, or one above it.
		grp, act := "", ""
		switch o.K {
		case "rperm", "rmperm":
			res, a := g.instantiate(perm(g.pick(S[2:])))
			grp, act = S[1], res+" "+a
		case "rkid":
			grp, act = w.activity(g.pick(S[1:]))
		default:
			grp, act = w.activity(S[0])
		}
		r := S[0]
		if g.p(2, 3) {
			r = role
		}
		return op("has", r, grp, act)
	}
	switch o.K {
	case "tkid":
		q.S[1] = g.pick(S[1:])
	case "tns":
		q.S[2] = g.pick(S[1:])
	case "tsc":
		q.S[3] = g.pick(S[1:])
	case "tnsc":
		q.S[2], q.S[3] = S[1], g.pick(S[2:])
	case "rperm", "rmperm":
		if g.p(2, 3) {
			q.S[2], q.S[3] = x.b, x.c
			res, act := g.instantiate(perm(g.pick(S[2:])))
			q.S[4], q.S[5] = S[1], res+" "+act
		}
	case "rkid", "rgrp":
		if g.p(2, 3) {
			q.S[2], q.S[3] = x.b, x.c
			q.S[4], q.S[5] = w.activity(g.pick(S[1:]))
		}
	}
	return q
}

// big draws the sizes of a world, sometimes with many of one kind; bulk then
// makes use of them.
func (g *Gen) big(nT, nN, nS, nP, nR int) (int, int, int, int, int, int) {
	dim := -1
	if g.huge || g.p(1, 10) {
		dim = g.n(8)
		k := g.rng(8, 26)
		if g.huge {
			k = g.hugeSize(400)
		}
		switch dim {
		case 0, 1:
			nT = k
		case 2:
			nN = k
		case 3:
			nS = k
		case 4, 5:
			nR = k
		case 6:
			nP = k
		}
	}
	return nT, nN, nS, nP, nR, dim
}

func (w *fw) bulk(dim int) []Op {
	g := w.g
	var ops []Op
	mng := func() []int64 { return []int64{int64(g.n(2)), int64(g.n(2))} }
	role := func(t, p, r string) {
		if w.v1 {
			ops = append(ops, op("tp", t, p, r))
		} else {
			ops = append(ops, Op{K: "tpr", S: []string{t, p, r}, N: mng()})
		}
	}
	link := func(k string, ids []string) {
		star := g.p(1, 3)
		for i := 1; i < len(ids); i++ {
			from := ids[i-1]
			if star {
				from = ids[0]
			}
			ops = append(ops, op(k, from, ids[i]))
		}
	}
	p, t, r := g.pick(w.P), g.pick(w.T), g.pick(w.R)
	switch dim {
	case 0:
		link("tkid", w.T)
		role(w.T[0], p, r)
		if o := &ops[len(ops)-1]; g.huge && !w.v1 {
			o.N[0] = 1
		}
	case 1:
		for _, t := range w.T {
			role(t, p, g.pick(w.R))
		}
	case 2:
		for _, n := range w.N {
			ops = append(ops, op("tns", t, n))
			if g.p(1, 2) {
				ops = append(ops, op("tpn", t, p, n, g.pick(w.R)))
			}
		}
	case 3:
		for _, s := range w.S {
			if g.p(1, 3) {
				ops = append(ops, op("tsc", t, s))
			} else if w.v1 {
				ops = append(ops, op("tps", t, p, s))
			} else {
				ops = append(ops, Op{K: "tps", S: []string{t, p, s}, N: mng()})
			}
		}
	case 4:
		for i, r := range w.R {
			role(t, p, r)
			if g.huge {
				// One of its own for every role.
				w.perms = append(w.perms, "/u"+num(i)+"|GET")
				ops = append(ops, op("rperm", r, w.group(false), w.perms[len(w.perms)-1]))
			} else if g.p(1, 2) {
				ops = append(ops, op("rperm", r, w.group(false), g.pick(w.perms)))
			}
		}
	case 5:
		link("rkid", w.R)
		for i, r := range w.R {
			if !w.v1 {
				ops = append(ops, op("trole", t, r))
			}
			if g.huge {
				w.perms = append(w.perms, "/u"+num(i)+"|GET")
				ops = append(ops, op("rperm", r, w.group(false), w.perms[len(w.perms)-1]))
			}
		}
		role(t, p, w.R[0])
		ops = append(ops, op("rperm", w.R[len(w.R)-1], w.group(false), g.pick(w.perms)))
	case 6:
		for _, p := range w.P {
			role(t, p, g.pick(w.R))
		}
	case 7:
		role(t, p, r)
		n := g.rng(8, 40)
		if g.huge {
			n = g.hugeSize(1100)
		}
		for i := n; i > 0; i-- {
			w.perms = append(w.perms, "/n"+num(i)+g.pick([]string{"", "/:id", "/*"})+"|"+g.pick([]string{"GET", "GET", "POST", "*"}))
		}
		ops = append(ops, w.manyPerms(r)...)
	}
	g.shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	return ops
}

// manyPerms gives a role all permissions there are, one way or another.
func (w *fw) manyPerms(r string) []Op {
	g := w.g
	var ops []Op
	if g.p(1, 3) {
		ops = append(ops, op("rgrp", r, w.group(true)))
		ops = append(ops, op("gattr", append([]string{w.group(true)}, w.perms...)...))
	}
	for i := 0; i < len(w.perms); {
		n := g.rng(1, 9)
		if g.huge {
			n *= g.rng(1, 60)
		}
		if i+n > len(w.perms) {
			n = len(w.perms) - i
		}
		ops = append(ops, op("rperm", append([]string{r, w.group(false)}, w.perms[i:i+n]...)...))
		i += n
	}
	return ops
}

// list draws a listing.
func (w *fw) list() Op {
	g := w.g
	k := g.pick(w.lists)
	o := op("list", k)
	x, ok := w.row(true)
	arg := func(c byte) string {
		use := ok && !g.p(1, 6)
		switch c {
		case 'p':
			if use {
				return x.d
			}
			return g.pick(w.P)
		case 't':
			if use {
				return x.a
			}
			return g.pick(w.T)
		case 'n':
			if use && x.b != "" {
				return x.b
			}
			return g.pick(w.N)
		case 's':
			if use && x.c != "" {
				return x.c
			}
			return g.pick(w.S)
		case 'r':
			return g.pick(w.R)
		}
		return g.pick(w.G)
	}
	for i := 0; i < len(w.listArgs[k]); i++ {
		o.S = append(o.S, arg(w.listArgs[k][i]))
	}
	return o
}

// probe asks about a role or tenant.
func (w *fw) probe() Op {
	g := w.g
	switch g.n(5) {
	case 0:
		return Op{K: "kids", S: []string{g.pick(w.T)}, N: []int64{int64(g.n(2))}}
	case 1:
		return op("desc", g.pick(w.R))
	case 2:
		return Op{K: "perms", S: []string{g.pick(w.R)}, N: []int64{int64(g.n(2))}}
	case 3:
		return Op{K: "own", S: []string{g.pick(w.R)}, N: []int64{int64(g.n(2))}}
	}
	r := g.pick(w.R)
	grp, act := w.activity(r)
	return op("has", r, grp, act)
}

func (w *fw) allowed() Op {
	g := w.g
	o := op("allowed", g.pick(w.T), g.pick(w.P), "", "")
	if x, ok := w.row(true); ok {
		o.S[0], o.S[1], o.S[2], o.S[3] = x.a, x.d, x.b, x.c
	}
	if g.p(1, 2) {
		o.S[2] = g.pick(w.N)
	}
	if g.p(1, 2) {
		o.S[3] = g.pick(w.S)
	}
	return o
}

// question draws any of them.
func (w *fw) question() Op {
	switch w.g.n(6) {
	case 0:
		return w.list()
	case 1:
		return w.probe()
	case 2:
		if w.v1 {
			return w.allowed()
		}
	}
	return w.ask()
}

func (w *fw) mode() int { return w.g.n(4) }

// keyOf is an operation without the manager it goes to.
func keyOf(o *Op) string {
	k := *o
	k.K = strings.TrimPrefix(k.K, "b:")
	return k.String()
}

func second(o Op) Op {
	o.K = "b:" + o.K
	return o
}

func num(i int) string { return strconv.Itoa(i) }
