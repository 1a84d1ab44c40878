package main

import "strings"

// ---- C10: decisions of the root package at quiescence

func (w *fw) history(n, pc int, q func() Op) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		if w.g.p(pc, 10) {
			o := w.did(w.change())
			ops = append(ops, o)
			if w.g.p(1, 4) {
				ops = append(ops, w.after(&o))
			}
		} else {
			ops = append(ops, q())
		}
	}
	return ops
}

// world draws the names of a case.
func (g *Gen) world(isV1 bool, mode, most int) (*fw, int) {
	nT, nN, nS, nP, nR, dim := g.big(g.rng(1, most), g.rng(1, most-1), g.rng(1, most-1), g.rng(1, most-1), g.rng(1, most))
	if dim >= 0 {
		mode = 0
	}
	return newFW(g, isV1, nT, nN, nS, nP, nR, mode), dim
}

func genC10(g *Gen, c *Case) {
	w, dim := g.world(false, g.n(4), 4)
	w.def = g.p(1, 2)
	ops := w.regs([]int{0, 12, 5}[g.n(3)])
	for _, o := range w.bulk(dim) {
		ops = append(ops, w.did(o))
	}
	for i := g.rng(2, 20); i > 0; i-- {
		ops = append(ops, w.did(w.change()))
	}
	ops = append(ops, w.history(g.rng(6, 40), 4, w.ask)...)
	c.Phases = []Phase{{Main: ops}}
	if g.p(1, 3) {
		nt := g.rng(2, 4)
		p := Phase{Tasks: make([][]Op, nt)}
		for i := g.rng(nt, 4*nt); i > 0; i-- {
			t := g.n(nt)
			p.Tasks[t] = append(p.Tasks[t], w.ask())
		}
		c.Phases = append(c.Phases, p)
	}
	g.schedule(c, false)
}

// ---- C11, C18: concurrent changes and requests

// concurrent lists what concurrent callers do: changes that any of them may
// make, in any order.
func (w *fw) concurrent(nt, n int, q func() Op) [][]Op {
	g := w.g
	tasks := make([][]Op, nt)
	var same Op
	for i := 0; i < n; i++ {
		t := g.n(nt)
		var o Op
		switch g.n(4) {
		case 0, 1:
			o = w.change()
			if o.K == "tkid" && w.st.def[o.S[0]] != "" {
				continue
			}
			if g.p(1, 6) && same.K != "" {
				o = same // several callers do the same
			}
			same = o
			tasks[t] = append(tasks[t], w.did(o))
			if g.p(1, 4) {
				u := g.n(nt)
				tasks[u] = append(tasks[u], o)
			}
			if g.p(1, 2) {
				tasks[t] = append(tasks[t], q())
			}
			continue
		case 2:
			o = q()
		default:
			o = w.ask()
		}
		tasks[t] = append(tasks[t], o)
	}
	return tasks
}

func genConc(isV1 bool) func(g *Gen, c *Case) {
	return func(g *Gen, c *Case) {
		if isV1 && g.p(1, 8) {
			genTight(g, c, true)
			return
		}
		w, dim := g.world(isV1, []int{0, 0, 0, 1, 2}[g.n(5)], 3)
		var main, asked []Op
		if g.p(4, 5) {
			main = w.regs([]int{0, 4, 2}[g.n(3)])
			if isV1 && g.p(3, 4) {
				main = append(main, w.inTenants()...)
			}
			for _, o := range w.bulk(dim) {
				main = append(main, w.did(o))
			}
			w.def = g.p(1, 4)
			for i := g.rng(0, 10); i > 0; i-- {
				main = append(main, w.did(w.change()))
			}
			w.def = false
			if g.p(1, 2) {
				// Answers may be remembered somewhere.
				for i := g.rng(1, 6); i > 0; i-- {
					o := w.ask()
					if g.p(1, 3) {
						o = w.question()
					}
					asked = append(asked, o)
				}
				main = append(main, asked...)
			}
		}
		for k := g.rng(1, 2); k > 0; k-- {
			p := Phase{Main: main, Tasks: w.concurrent(g.rng(2, 4), g.rng(4, 16), w.question)}
			main = nil
			if g.p(1, 2) {
				// What the changes have to do with, before and after them.
				for _, t := range p.Tasks {
					for i := range t {
						if factChange(&t[i]) && t[i].K != "reg" && t[i].K != "regs" && g.p(1, 4) {
							o := w.after(&t[i])
							p.Main = append(p.Main, o)
							main = append(main, o)
						}
					}
				}
			}
			c.Phases = append(c.Phases, p)
			for i := g.rng(2, 12); i > 0; i-- {
				main = append(main, w.question())
			}
			for _, o := range asked {
				if g.p(1, 2) {
					main = append(main, o)
				}
			}
			for _, t := range p.Tasks {
				for i := range t {
					if factChange(&t[i]) && t[i].K != "reg" && t[i].K != "regs" && g.p(1, 2) {
						main = append(main, w.after(&t[i]))
					}
				}
			}
			for _, l := range []string{"tenants", "namespaces", "scopes", "principals", "roles", "attributes"} {
				if g.p(1, 3) {
					main = append(main, op("list", l))
				}
			}
			if !isV1 && g.p(1, 2) {
				main = append(main, op("list", "data"))
			}
			for _, kind := range regKinds {
				for _, id := range w.ids(kind) {
					if g.p(1, 3) {
						main = append(main, op("rereg", kind, id))
					}
				}
			}
		}
		c.Phases = append(c.Phases, Phase{Main: main})
		if isV1 {
			// Only questions, asked alone first.
			nt := g.rng(2, 4)
			p := Phase{Tasks: make([][]Op, nt)}
			for i := g.rng(nt, 3*nt); i > 0; i-- {
				t := g.n(nt)
				o := w.allowed()
				if g.p(1, 3) {
					o = w.ask()
				}
				p.Main = append(p.Main, o)
				p.Tasks[t] = append(p.Tasks[t], o)
			}
			c.Phases = append(c.Phases, p)
		}
		g.schedule(c, false)
	}
}

// ---- C12: everything at once

func genC12(g *Gen, c *Case) {
	if g.p(1, 8) {
		genTight(g, c, false)
		return
	}
	w := newFW(g, false, g.rng(1, 3), g.rng(1, 2), g.rng(1, 2), g.rng(1, 2), g.rng(1, 3), 0)
	dim := -1
	if g.huge {
		w, dim = g.world(false, 0, 3)
	}
	w.def = true
	main := w.regs([]int{0, 4, 2}[g.n(3)])
	for _, o := range w.bulk(dim) {
		main = append(main, w.did(o))
	}
	for i := g.rng(0, 10); i > 0; i-- {
		main = append(main, w.did(w.change()))
	}
	nt := g.rng(2, 5)
	p := Phase{Main: main, Tasks: make([][]Op, nt)}
	// A third of the cases keep to a few calls, so that callers meet.
	var few []Op
	if g.p(1, 3) {
		for j := g.rng(2, 4); j > 0; j-- {
			few = append(few, w.wild())
		}
	}
	for i := g.rng(nt, 6*nt); i > 0; i-- {
		t := g.n(nt)
		o := w.wild
		if len(few) > 0 && !g.p(1, 6) {
			o = func() Op { return few[g.n(len(few))] }
		}
		p.Tasks[t] = append(p.Tasks[t], o())
	}
	c.Phases = []Phase{p}
	g.schedule(c, false)
}

// genTight lets up to six callers meet on two or three roles and tenants that
// are each other's descendants.
func genTight(g *Gen, c *Case, isV1 bool) {
	w := newFW(g, isV1, g.rng(1, 3), 1, 1, 1, g.rng(2, 3), 0)
	main := w.regs(0)
	if isV1 {
		main = append(main, w.inTenants()...)
	}
	for i, r := range w.R {
		main = append(main, w.did(op("rkid", r, w.R[(i+1)%len(w.R)])))
	}
	for i, t := range w.T {
		main = append(main, w.did(op("tkid", t, w.T[(i+1)%len(w.T)])))
	}
	for i := g.rng(0, 4); i > 0; i-- {
		main = append(main, w.did(w.change()))
	}
	one := func() Op {
		switch g.n(8) {
		case 0, 1:
			return w.did(op("rkid", g.pick(w.R), g.pick(w.R)))
		case 2:
			return w.did(op("tkid", g.pick(w.T), g.pick(w.T)))
		case 3:
			return w.did(w.permChange())
		case 4:
			return w.ask()
		case 5:
			return w.list()
		}
		return w.probe()
	}
	nt := g.rng(3, 6)
	p := Phase{Main: main, Tasks: make([][]Op, nt)}
	var few []Op
	for j := g.rng(2, 5); j > 0; j-- {
		few = append(few, one())
	}
	for t := range p.Tasks {
		for i := g.rng(1, 4); i > 0; i-- {
			p.Tasks[t] = append(p.Tasks[t], few[g.n(len(few))])
		}
	}
	c.Phases = []Phase{p}
	g.schedule(c, false)
}

func (w *fw) wild() Op {
	g := w.g
	switch g.n(8) {
	case 0, 1, 2:
		return w.did(w.change())
	case 3:
		return op(g.pick([]string{"lock", "unlock"}), g.pick(w.R))
	case 4:
		return w.list()
	case 5:
		return w.probe()
	case 6:
		return w.regOp()
	}
	return w.ask()
}

// listed turns some registrations into the list form, and neighbours of one
// kind into one call.
func listed(gen func(g *Gen, c *Case)) func(g *Gen, c *Case) {
	return func(g *Gen, c *Case) {
		gen(g, c)
		if !g.p(1, 2) {
			return
		}
		known := map[string][]string{}
		join := c.Prop != "C13" && c.Prop != "C15" && c.Kind != "twins"
		do := func(ops []Op) []Op {
			var r []Op
			for _, o := range ops {
				last := len(r) - 1
				switch {
				case strings.TrimPrefix(o.K, "b:") != "reg":
				case join && len(o.S) == 2 && len(known[o.S[0]]) > 0 && g.p(1, 6):
					// Behind one that is there already, or behind itself.
					l := append([]string{o.S[0]}, g.pick(known[o.S[0]]), o.S[1])
					if g.p(1, 4) {
						l = append(l[:1], o.S[1], o.S[1], g.pick(known[o.S[0]]))
					}
					o = op("regs", l...)
				case join && len(o.S) == 2 && last >= 0 && (r[last].K == "reg" && len(r[last].S) == 2 || r[last].K == "regs") && r[last].S[0] == o.S[0] && len(r[last].S) < 9 && g.p(1, 2):
					r[last] = op("regs", append(append([]string(nil), r[last].S...), o.S[1])...)
					continue
				case g.p(1, 4):
					o.N = []int64{1}
				}
				if strings.HasPrefix(o.K, "reg") {
					known[o.S[0]] = append(known[o.S[0]], o.S[1])
				}
				r = append(r, o)
			}
			return r
		}
		for i := range c.Phases {
			c.Phases[i].Main = do(c.Phases[i].Main)
			for k := range c.Phases[i].Tasks {
				c.Phases[i].Tasks[k] = do(c.Phases[i].Tasks[k])
			}
		}
	}
}

// ---- C13, C17: the same facts in another order

// twins tells two managers the same facts and asks both the same questions.
func (w *fw) twins(n, dim int) []Phase {
	g := w.g
	early := w.regs([]int{0, 0, 8}[g.n(3)])
	var groups, tenants, late, fixed []Op
	more := w.bulk(dim)
	for i := 0; i < n+len(more); i++ {
		var o Op
		if i < len(more) {
			o = more[i]
		} else {
			o = w.change()
		}
		switch o.K {
		case "reg":
			o.S = o.S[:2]
			early = append(early, o)
		case "rereg":
			continue
		case "gattr":
			groups = append(groups, o)
		case "tns", "tsc", "trole":
			if w.v1 {
				tenants = append(tenants, o)
			} else {
				late = append(late, o)
			}
		case "tps", "tpsr":
			if w.v1 {
				fixed = append(fixed, o)
			} else {
				late = append(late, o)
			}
		case "tpn":
			if w.v1 && len(o.S) < 4 {
				fixed = append(fixed, o)
			} else {
				late = append(late, o)
			}
		default:
			late = append(late, o)
		}
	}
	if w.v1 {
		tenants = append(tenants, w.inTenants()...)
	}
	for _, ops := range [][]Op{early, groups, tenants, late, fixed} {
		for _, o := range ops {
			w.did(o)
		}
	}
	q := w.question
	order := func(ops []Op) []Op {
		r := append([]Op(nil), ops...)
		g.shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
		return r
	}
	build := func() []Op {
		var r []Op
		ask := g.n(4)
		for i, ops := range [][]Op{early, groups, tenants, late, fixed} {
			if i < 4 {
				ops = order(ops)
			}
			for _, o := range ops {
				r = append(r, o)
				if ask > 0 && g.p(ask, 6) {
					r = append(r, q())
				}
			}
		}
		return r
	}
	var ph []Phase
	ph = append(ph, Phase{Main: build()})
	if g.p(1, 3) {
		// The second one is told by several callers at once, stage by stage.
		for i, ops := range [][]Op{early, groups, tenants, late, fixed} {
			p := Phase{}
			if i == 4 {
				for _, o := range ops {
					p.Main = append(p.Main, second(o))
				}
			} else {
				nt := g.rng(2, 3)
				p.Tasks = make([][]Op, nt)
				for _, o := range order(ops) {
					t := g.n(nt)
					p.Tasks[t] = append(p.Tasks[t], second(o))
					if g.p(1, 5) {
						p.Tasks[t] = append(p.Tasks[t], second(q()))
					}
				}
			}
			ph = append(ph, p)
		}
	} else {
		var r []Op
		for _, o := range build() {
			r = append(r, second(o))
		}
		ph = append(ph, Phase{Main: r})
	}
	var last []Op
	for i := g.rng(8, 24); i > 0; i-- {
		o := w.question()
		switch {
		case o.K == "list" && (o.S[0] == "string"):
			continue
		case g.p(1, 2) && o.K == "list":
			o = w.list()
			if o.S[0] == "string" {
				continue
			}
		}
		last = append(last, o, second(o))
		if g.p(1, 3) {
			last = append(last, o, second(o))
		}
	}
	return append(ph, Phase{Main: last})
}

func genC13(g *Gen, c *Case) {
	w, dim := g.world(false, g.n(4), 4)
	c.Opt |= optAltMap
	c.Phases = w.twins(g.rng(4, 26), dim)
	g.schedule(c, false)
}

// ---- C15: locked roles

func genC15(g *Gen, c *Case) {
	if g.p(1, 2) {
		c.Kind = "v1"
	}
	nr := g.rng(1, 3)
	var main, last []Op
	var roles []string
	main = append(main, op("reg", "group", "G"), op("gattr", "G", "in|group"))
	for i := 0; i < nr; i++ {
		r := "r" + num(i)
		if g.p(1, 4) {
			// A role with nothing in it yet.
			r = "e" + num(i)
			main = append(main, op("reg", "role", r))
			last = append(last, op("has", r, "base", "never no"))
		} else {
			main = append(main, op("reg", "role", r, "base", "always|yes"))
			last = append(last, op("has", r, "base", "always yes"), op("has", r, "base", "never no"))
		}
		roles = append(roles, r)
		if g.p(1, 3) {
			main = append(main, op("lock", r))
			if g.p(1, 3) {
				main = append(main, op("unlock", r))
			}
		}
	}
	id := 0
	var kids []string
	// Mostly one of the roles, sometimes one below them.
	target := func() string {
		if len(kids) > 0 && g.p(1, 4) {
			return kids[g.n(len(kids))]
		}
		return roles[g.n(nr)]
	}
	change := func() (prep []Op, o Op, probes []Op) {
		id++
		n := num(id)
		r := target()
		if r[0] == 'c' {
			o = op("rperm", r, "own", "perm"+n+"|do")
			probes = []Op{op("has", r, "own", "perm"+n+" do")}
			return
		}
		switch g.n(5) {
		case 0:
			grp := g.pick([]string{"base", "own", "own" + n})
			o = op("rperm", r, grp, "perm"+n+"|do")
			probes = []Op{op("has", r, grp, "perm"+n+" do")}
			if g.p(1, 3) {
				for _, a := range []string{"also", "more", "even", "last"}[:g.rng(1, 4)] {
					o.S = append(o.S, a+n+"|do")
					probes = append(probes, op("has", r, grp, a+n+" do"))
				}
			}
		case 1:
			prep = []Op{op("reg", "group", "G"+n, "perm"+n+"|do")}
			o = op("rgrp", r, "G"+n)
			probes = []Op{op("has", r, "G"+n, "perm"+n+" do")}
		case 2:
			prep = []Op{op("gattr", "G", "perm"+n+"|do")}
			o = op("rmperm", r, "G", "perm"+n+"|do")
			probes = []Op{op("has", r, "G", "perm"+n+" do")}
		default:
			prep = []Op{op("reg", "role", "c"+n, "cg", "perm"+n+"|do")}
			o = op("rkid", r, "c"+n)
			probes = []Op{op("has", r, "cg", "perm"+n+" do")}
			kids = append(kids, "c"+n)
			if g.p(1, 3) {
				for i := g.rng(1, 3); i > 0; i-- {
					id++
					n := num(id)
					prep = append(prep, op("reg", "role", "c"+n, "cg", "perm"+n+"|do"))
					o.S = append(o.S, "c"+n)
					probes = append(probes, op("has", r, "cg", "perm"+n+" do"))
					kids = append(kids, "c"+n)
				}
			}
		}
		return
	}
	var made []Op
	seq := func(n int) []Op {
		var ops []Op
		for i := 0; i < n; i++ {
			r := target()
			switch g.n(6) {
			case 0, 1:
				ops = append(ops, op("lock", r))
			case 2:
				ops = append(ops, op("unlock", r))
			case 3:
				if g.p(1, 4) {
					// Registered once more, as another object or the same.
					if g.p(1, 2) {
						ops = append(ops, op("reg", "role", r))
					} else {
						ops = append(ops, op("rereg", "role", r))
					}
				} else if r[0] == 'e' {
					ops = append(ops, op("has", r, "base", "never no"))
				} else if r[0] == 'c' {
					ops = append(ops, op("has", r, "cg", "perm"+r[1:]+" do"))
				} else {
					ops = append(ops, op("has", r, "base", "always yes"))
				}
			default:
				if len(made) > 0 && g.p(1, 5) {
					// The same change once more.
					ops = append(ops, made[g.n(len(made))])
					continue
				}
				prep, o, probes := change()
				made = append(made, o)
				main = append(main, prep...)
				ops = append(ops, o)
				if g.p(1, 2) {
					ops = append(ops, probes...)
				}
				if g.p(1, 4) {
					ops = append(ops, op("groups", o.S[0]))
				}
				last = append(last, probes...)
				if o.S[0][0] != 'c' {
					// No other role has it: not one beside it, not one below.
					for _, x := range [][]string{roles, kids} {
						if len(x) > 0 && g.p(1, 3) {
							y := x[g.n(len(x))]
							for _, q := range probes {
								if y != o.S[0] {
									last = append(last, op("has", y, q.S[1], q.S[2]))
								}
							}
						}
					}
				}
			}
		}
		return ops
	}
	var phases []Phase
	for k := g.rng(1, 3); k > 0; k-- {
		p := Phase{Main: seq(g.n(6))}
		if g.p(3, 4) {
			nt := g.rng(2, 4)
			for i := 0; i < nt; i++ {
				p.Tasks = append(p.Tasks, seq(g.rng(1, 5)))
			}
		}
		phases = append(phases, p)
	}
	phases[0].Main = append(main, phases[0].Main...)
	for _, r := range roles {
		last = append(last, op("groups", r))
	}
	c.Phases = append(phases, Phase{Main: last})
	g.schedule(c, false)
}

// c15groups: a role lists the permission groups of exactly the changes made.
func c15groups(r *Run) {
	for _, x := range r.Recs {
		if x.Op.K != "groups" || !x.Done || x.Err {
			continue
		}
		r.count("judged_groups", 1)
		may := map[string]bool{}
		for _, y := range r.Recs {
			g := ""
			switch S := y.Op.S; y.Op.K {
			case "rperm", "rmperm", "rgrp":
				if S[0] == x.Op.S[0] {
					g = S[1]
				}
			case "reg":
				if S[0] == "role" && S[1] == x.Op.S[0] && len(S) > 3 {
					g = S[2]
				}
			}
			if g == "" || y.Inv == 0 || y.Err || x.before(y) {
				continue
			}
			may[g] = true
			if y.Done && y.before(x) && !has(x.Out, g) {
				r.fail("effect", "%s: the group of an earlier change is missing:\n%s", x, y)
				return
			}
		}
		for _, g := range x.Out {
			if !may[g] {
				r.fail("effect", "%s: no accepted change explains the group %q", x, g)
				return
			}
		}
	}
}

// c15ready: what the operation refers to was there before.
func c15ready(r *Run, x *Rec) bool {
	was := func(f func(o *Op) bool) bool {
		for _, y := range r.Recs {
			if y.before(x) && f(y.Op) {
				return true
			}
		}
		return false
	}
	reg := func(kind, id string) bool {
		return was(func(o *Op) bool { return o.K == "reg" && o.S[0] == kind && o.S[1] == id })
	}
	o := x.Op
	if !reg("role", o.S[0]) {
		return false
	}
	switch o.K {
	case "rgrp":
		return reg("group", o.S[1])
	case "rkid":
		for _, k := range o.S[1:] {
			if !reg("role", k) {
				return false
			}
		}
	case "rmperm":
		return reg("group", o.S[1]) && was(func(y *Op) bool { return y.K == "gattr" && y.S[0] == o.S[1] && y.S[1] == o.S[2] })
	}
	return true
}

func checkC15(r *Run) {
	type chg struct {
		x    *Rec
		must int // 1 locked, 0 unlocked, -1 either
	}
	var changes []*chg
	by := map[string][]*chg{} // role, group, permission
	for _, x := range r.Recs {
		o := x.Op
		var keys []string
		switch o.K {
		case "rperm":
			for _, p := range o.S[2:] {
				keys = append(keys, o.S[0]+"|"+o.S[1]+"|"+perm(p))
			}
		case "rmperm":
			keys = []string{o.S[0] + "|G|" + perm(o.S[2])}
		case "rgrp":
			keys = []string{o.S[0] + "|" + o.S[1] + "|perm" + o.S[1][1:] + " do"}
		case "rkid":
			for _, k := range o.S[1:] {
				keys = append(keys, o.S[0]+"|cg|perm"+k[1:]+" do")
			}
		default:
			continue
		}
		c := &chg{x: x, must: -1}
		changes = append(changes, c)
		for _, k := range keys {
			by[k] = append(by[k], c)
		}
		if !x.Done || !c15ready(r, x) {
			continue
		}
		locked, unlocked := false, true
		for _, l := range r.Recs {
			if l.Op.K != "lock" || l.Op.S[0] != o.S[0] || l.Inv == 0 || x.before(l) {
				continue
			}
			certain := l.before(x) // no unlock since
			undone := false        // an unlock since, before the change
			for _, u := range r.Recs {
				if u.Op.K != "unlock" || u.Op.S[0] != o.S[0] || u.Inv == 0 || u.before(l) || x.before(u) {
					continue
				}
				certain = false
				if l.before(u) && u.before(x) {
					undone = true
				}
			}
			locked = locked || certain
			unlocked = unlocked && undone
		}
		switch {
		case locked:
			c.must = 1
			r.count("judged_locked", 1)
			if !x.Err {
				r.fail("locked", "%s: the role was locked all the time, the change must be refused", x)
				return
			}
		case unlocked:
			c.must = 0
			r.count("judged_unlocked", 1)
			if x.Err {
				r.fail("unlocked", "%s: the role was not locked at any time during the call", x)
				return
			}
		default:
			r.count("judged_either", 1)
		}
	}
	if c15groups(r); r.Viol != nil {
		return
	}
	for _, x := range r.Recs {
		if x.Op.K != "has" || !x.Done || !c15ready(r, x) {
			continue
		}
		r.count("judged_probe", 1)
		k := strings.Join(x.Op.S[:3], "|")
		want := 0
		var why *Rec
		if strings.HasSuffix(k, "|base|always yes") || k == x.Op.S[0]+"|cg|perm"+x.Op.S[0][1:]+" do" && k[0] == 'c' {
			want = -1
			for _, y := range r.Recs {
				if y.Op.K == "reg" && len(y.Op.S) > 3 && y.Op.S[1] == x.Op.S[0] && y.before(x) && !y.Err {
					want = 1
				}
			}
		}
		for _, c := range by[k] {
			v := -1
			switch {
			case x.before(c.x), c.x.Inv == 0:
				v = 0
			case !c.x.Done:
			case c.x.Err:
				v = 0
			case !c.x.Err && c.x.before(x):
				v = 1
			}
			if v == 1 || v < 0 && want == 0 {
				want = v
			}
			if v != 0 || why == nil {
				why = c.x
			}
		}
		if want >= 0 && x.Bool != (want == 1) {
			if why != nil {
				r.fail("effect", "%s, but the change was\n%s", x, why)
			} else {
				r.fail("effect", "%s", x)
			}
			return
		}
	}
}

// ---- C16: shapes of hierarchies

var starPerms = []string{
	"*a*a*a*a*a*a*a*a*b|GET", "/x/*a*/*a*/*a*/end|GET", "*/*/*/*/*/*/*/*/*/z|*", "/:a/:b/*/:c/*|GET", "****a|GET", "*:x*:y*|GET", "a*a*a*a*a*a*a*a*a*|GET", "*|*",
}

func genC16(g *Gen, c *Case) {
	if g.p(1, 2) {
		c.Kind = "v1"
	}
	isV1 := c.Kind == "v1"
	n := g.rng(1, 12)
	if g.p(1, 4) {
		n = g.rng(12, 44)
	}
	type edge struct{ a, b int }
	var edges []edge
	shape := g.n(7)
	if g.p(1, 40) && shape != 3 {
		n = g.rng(60, 200)
	}
	if g.huge {
		n = g.hugeSize(1100)
	}
	switch shape {
	case 0: // chain
		for i := 0; i+1 < n; i++ {
			edges = append(edges, edge{i, i + 1})
		}
	case 1: // ring
		for i := 0; i < n; i++ {
			edges = append(edges, edge{i, (i + 1) % n})
		}
	case 2: // ladder of diamonds
		for i := 0; i+2 < n; i += 2 {
			for _, a := range []int{i, i + 1} {
				edges = append(edges, edge{a, i + 2})
				if i+3 < n {
					edges = append(edges, edge{a, i + 3})
				}
			}
		}
	case 3: // complete
		if n > 12 {
			n = 12
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if g.p(9, 10) {
					edges = append(edges, edge{i, j})
				}
			}
		}
	case 4: // tree
		for i := 1; i < n; i++ {
			edges = append(edges, edge{g.n(i), i})
		}
	default:
		for i := g.rng(0, 2*n); i > 0; i-- {
			edges = append(edges, edge{g.n(n), g.n(n)})
		}
	}
	g.shuffle(len(edges), func(i, j int) { edges[i], edges[j] = edges[j], edges[i] })
	// Relabel, so that neither order nor names help.
	lab := make([]int, n)
	for i := range lab {
		lab[i] = i
	}
	g.shuffle(n, func(i, j int) { lab[i], lab[j] = lab[j], lab[i] })
	w := newFW(g, isV1, 1, 1, 1, 1, 1, 0)
	w.R, w.T = nil, nil
	for i := 0; i < n; i++ {
		w.R = append(w.R, "r"+num(i))
		w.T = append(w.T, "t"+num(i))
	}
	if g.p(1, 3) {
		w.perms = append(w.perms, g.pick(starPerms), g.pick(starPerms))
	}
	main := w.regs(0)
	var ops []Op
	var tenantsToo = g.p(1, 2)
	for _, e := range edges {
		ops = append(ops, op("rkid", w.R[lab[e.a]], w.R[lab[e.b]]))
		if tenantsToo {
			ops = append(ops, op("tkid", w.T[lab[e.a]], w.T[lab[e.b]]))
		}
	}
	if g.p(1, 6) || g.huge && g.p(1, 3) {
		k := g.rng(8, 40)
		if g.huge {
			k = g.hugeSize(1100)
		}
		for i := k; i > 0; i-- {
			w.perms = append(w.perms, "/n"+num(i)+g.pick([]string{"", "", "/:id", "/*"})+"|GET")
		}
		ops = append(ops, w.manyPerms(w.R[lab[g.n(n)]])...)
	}
	for i := g.rng(1, 6); i > 0; i-- {
		ops = append(ops, w.permChange())
		if o := &ops[len(ops)-1]; o.K == "rkid" {
			*o = op("rperm", g.pick(w.R), w.group(false), g.pick(w.perms))
		}
	}
	// Every role sees the far end.
	end := w.R[lab[n-1]]
	ops = append(ops, op("rperm", end, w.group(false), g.pick(w.perms)))
	if g.p(1, 2) {
		ops = append(ops, op("rperm", w.R[lab[0]], w.group(false), "own|only"))
	}
	if !isV1 {
		main = append(main, w.did(Op{K: "tpr", S: []string{w.T[lab[0]], w.P[0], w.R[lab[0]]}, N: []int64{1, 0}}))
	}
	g.shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, o := range ops {
		w.did(o)
	}
	p := Phase{Main: main}
	if g.p(1, 2) {
		nt := g.rng(2, 4)
		p.Tasks = make([][]Op, nt)
		for _, o := range ops {
			t := g.n(nt)
			p.Tasks[t] = append(p.Tasks[t], o)
			if g.p(1, 8) {
				p.Tasks[t] = append(p.Tasks[t], w.probe())
			}
		}
	} else {
		p.Main = append(p.Main, ops...)
	}
	c.Phases = []Phase{p}
	var last []Op
	for i := g.rng(3, 12); i > 0; i-- {
		o := w.probe()
		switch {
		case g.p(1, 3):
			o.S[0] = w.R[lab[0]]
			if o.K == "kids" {
				o.S[0] = w.T[lab[0]]
			}
		case o.K == "has" && g.p(1, 3):
			o.S[2] = g.pick([]string{strings.Repeat("a", 60) + " GET", strings.Repeat("/a", 40) + "/ GET", "/x/" + strings.Repeat("ba", 30) + "/a/a/en GET", "x y"})
		case o.K == "has" && g.p(1, 4):
			o.S = append(o.S, w.R...)
		case o.K == "has" && g.p(1, 4):
			o.S = append(o.S, g.sub(w.R, 1, 2)...)
		}
		last = append(last, o)
	}
	if !isV1 {
		for i := g.n(4); i > 0; i-- {
			o := w.ask()
			if o.S[5] == "" && g.p(1, 2) {
				o.S[4], o.S[5] = w.activity(w.R[lab[0]])
			}
			last = append(last, o)
		}
		if g.p(1, 2) {
			last = append(last, op("list", "implicit", w.P[0]), op("list", "available"))
		}
	}
	c.Phases = append(c.Phases, Phase{Main: last})
	g.schedule(c, false)
	if n > 44 {
		// Many enough that a listing may take its time.
		c.Opt |= optHuge
	}
}

// ---- C17: v1 at quiescence

func genC17(g *Gen, c *Case) {
	w, dim := g.world(true, []int{0, 1, 2, 3, 3}[g.n(5)], 4)
	if g.p(1, 3) {
		c.Opt |= optAltMap
		c.Kind = "twins"
		c.Phases = w.twins(g.rng(4, 26), dim)
		g.schedule(c, false)
		return
	}
	w.def = g.p(1, 3)
	ops := w.regs([]int{0, 0, 12, 5}[g.n(4)])
	ops = append(ops, w.inTenants()...)
	for _, o := range w.bulk(dim) {
		ops = append(ops, w.did(o))
	}
	for i := g.rng(2, 20); i > 0; i-- {
		ops = append(ops, w.did(w.change()))
	}
	ops = append(ops, w.history(g.rng(6, 40), 4, w.question)...)
	c.Phases = []Phase{{Main: ops}}
	if g.p(1, 3) {
		nt := g.rng(2, 4)
		p := Phase{Tasks: make([][]Op, nt)}
		for i := g.rng(nt, 4*nt); i > 0; i-- {
			t := g.n(nt)
			o := w.question()
			if g.p(1, 2) {
				p.Main = append(p.Main, o)
			}
			p.Tasks[t] = append(p.Tasks[t], o)
		}
		c.Phases = append(c.Phases, p)
	}
	g.schedule(c, false)
}

const rootReal = "the root package, trie and utils of the working tree (instrumented copy); the concurrent map package xsync is a stand-in"
const v1Real = "packages v1 and utils of the working tree (instrumented copy); the concurrent map package maps is a stand-in"

func newFor(c *Case) System {
	if c.Kind == "v1" {
		return newV1(c)
	}
	return newRoot(c)
}

func init() {
	faults := "preemption at every statement, lock and map operation, stalled callers, pools that recycle at once, at random or never, map iteration order"
	register(&Spec{ID: "C10", Real: rootReal, NT: exactBoth, New: newRoot, Gen: rarely(150, listed(genC10), listed(genC10)), Faults: faults,
		Check: func(r *Run) { checkFacts(r, factOpts{auth: true, conc: true, class: "decision"}) },
		Rule:  "seeded histories of registrations, assignments, hierarchies and requests, judged against the set of recorded facts; a run is non-trivial when at least one request was granted and one denied and judged exactly"})
	register(&Spec{ID: "C11", Real: rootReal, NT: func(r *Run) bool { return r.Stats["judged_overlapping"] > 0 }, New: newRoot, Gen: rarely(150, listed(genConc(false)), listed(genConc(false))), Faults: faults,
		Check: func(r *Run) {
			checkFacts(r, factOpts{auth: true, lists: true, role: true, conc: true, same: true, class: "decision"})
		},
		Rule: "2 to 4 callers changing and asking, every answer bounded by the facts recorded before it began and by its end; a run is non-trivial when a request overlapping a change was judged"})
	register(&Spec{ID: "C12", Real: rootReal, NT: preempted, New: newRoot, Gen: rarely(150, listed(genC12), listed(genC12)), Race: true, RaceIs: true, Faults: faults,
		Check: func(r *Run) { r.count("judged", int64(len(r.Recs))) },
		Rule:  "2 to 5 callers using every method at once, checked for races (race-detector build), panics, deadlocks and exhausted step budgets; a run is non-trivial when preemption happened inside the concurrent phase"})
	register(&Spec{ID: "C13", Real: rootReal, NT: func(r *Run) bool { return r.Stats["judged_twin"] > 0 && r.Stats["granted"] > 0 }, New: newRoot, Gen: rarely(150, listed(genC13), listed(genC13)), Faults: faults,
		Check: func(r *Run) { checkAgain(r); checkTwins(r) },
		Rule:  "two managers told the same facts in different orders and from several callers, with different questions in between, compared on the same final questions; a run is non-trivial when a final request was granted"})
	register(&Spec{ID: "C15", Real: rootReal + "; package v1, with its map package maps as a stand-in", NT: func(r *Run) bool { return r.Stats["judged_locked"] > 0 && r.Stats["judged_unlocked"] > 0 }, New: newFor, Gen: listed(genC15), Check: checkC15, Faults: faults,
		Rule: "lock, unlock and change calls on several roles from up to 4 callers, each change judged by the lock and unlock calls it overlaps; a run is non-trivial when changes of certainly locked and of certainly unlocked roles were judged"})
	register(&Spec{ID: "C16", Real: rootReal + "; package v1, with its map package maps as a stand-in", NT: func(r *Run) bool { return r.Stats["judged_probe"]+r.Stats["judged_list"] > 1 }, New: newFor, Gen: rarely(400, genC16, genC16), Faults: faults,
		Check: func(r *Run) {
			checkFacts(r, factOpts{v1: r.Case.Kind == "v1", auth: true, lists: true, role: true, conc: true, class: "inheritance"})
		},
		Rule: "hierarchies of roles and tenants of many shapes built by up to 4 callers, every question judged against reachability and within a step budget; a run is non-trivial when at least two questions were judged"})
	register(&Spec{ID: "C17", Real: v1Real, NT: func(r *Run) bool { return exactBoth(r) || r.Stats["judged_twin"] > 0 && r.Stats["granted"] > 0 }, New: newV1, Gen: rarely(150, listed(genC17), listed(genC17)), Faults: faults,
		Check: func(r *Run) {
			if r.Case.Kind == "twins" {
				checkTwins(r)
			} else {
				checkFacts(r, factOpts{v1: true, auth: true, lists: true, conc: true, class: "decision"})
			}
			if r.Viol == nil {
				checkAgain(r)
			}
			if r.Viol == nil {
				checkKept(r)
			}
		},
		Rule: "seeded histories of registrations, assignments and requests with arbitrary identifiers, judged against the set of recorded facts, or two managers told the same facts in different orders; a run is non-trivial when at least one request was granted and one denied"})
	register(&Spec{ID: "C18", Real: v1Real, NT: func(r *Run) bool { return r.Stats["judged_overlapping"] > 0 }, New: newV1, Gen: rarely(150, listed(genConc(true)), listed(genConc(true))), Race: true, RaceIs: true, Faults: faults,
		Check: func(r *Run) {
			checkFacts(r, factOpts{v1: true, auth: true, lists: true, role: true, conc: true, same: true, class: "decision"})
			if r.Viol == nil {
				checkAgain(r)
			}
			if r.Viol == nil {
				checkKept(r)
			}
		},
		Rule: "2 to 4 callers changing and asking, every answer bounded by the facts recorded before it began and by its end, plus phases of questions only, compared with the same questions asked alone; a run is non-trivial when a request overlapping a change was judged"})
}
