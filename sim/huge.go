package main

import "strconv"

// Some runs are far larger than the others: limits, caches, buffers and short
// cuts that begin at some size show only there.

// hugeSize draws a size just beyond the usual powers and round numbers.
func (g *Gen) hugeSize(most int) int {
	n := 0
	switch g.n(8) {
	case 0, 1:
		n = g.rng(40, 110)
	case 2, 3, 4:
		n = g.rng(101, 300)
	case 5, 6:
		n = g.rng(257, 600)
	default:
		n = g.rng(513, 1100)
	}
	return min(n, most)
}

// rarely replaces one case in den by a huge one.
func rarely(den int, gen, huge func(g *Gen, c *Case)) func(g *Gen, c *Case) {
	return func(g *Gen, c *Case) {
		if !g.p(1, den) {
			gen(g, c)
			return
		}
		g.huge = true
		huge(g, c)
		g.huge = false
		c.Opt |= optHuge
	}
}

func uniq(i int) string { return "res" + strconv.Itoa(i) + "|do" }

// hugeV2 builds a state with very many objects of one kind. Every role has a
// permission of its own, so that a request can tell where its answer is from.
func (g *Gen) hugeV2(most int) (*v2w, []Op) {
	n := g.hugeSize(most)
	var w *v2w
	var ops []Op
	start := func(nT, nN, nS, nR, nP int) {
		w = newV2w(g, nT, nN, nS, nR, nP, false)
		for _, t := range w.T {
			o := op("tenant", t)
			if g.p(2, 3) {
				o.S = append(o.S, w.N[0])
			}
			ops = append(ops, o, op("addtenant", t))
		}
		for _, t := range w.T {
			for _, x := range w.N {
				ops = append(ops, op("ns", t, x))
				ops = append(ops, op("scope", append([]string{t, x}, w.S...)...))
				if nT > 9 {
					break
				}
			}
		}
		for i, r := range w.R {
			h := "h:" + r
			w.handle[r] = []string{h}
			ops = append(ops, op("role", h, r), op("addrole", h), op("perm", h, uniq(i)))
		}
	}
	var rest []Op
	pr := func(p, t, n, s, r string, manage int64) {
		rest = append(rest, Op{K: "pr", S: []string{p, t, n, s, r}, N: []int64{manage, 0, w.slot}})
		w.slot++
	}
	// parent draws the one above i in a chain, a star, a tree or a comb.
	shape := g.n(4)
	parent := func(i int) int {
		switch shape {
		case 0:
			return i - 1
		case 1:
			return 0
		case 2:
			return g.n(i)
		}
		return i - 1 - (i-1)%2
	}
	switch g.n(7) {
	case 0, 1:
		start(1, 1, 1, n, 2)
		pr(w.P[0], w.T[0], "", "", w.R[0], 0)
		pr(w.P[1], w.T[0], "", "", w.R[g.n(n)], 0)
		for i := 1; i < n; i++ {
			o := op("edge", w.R[parent(i)], w.R[i])
			rest = append(rest, o)
		}
		if shape == 1 && g.p(1, 2) {
			// All children in one call.
			rest = append(rest[:2], op("edge", w.R...))
		}
	case 2:
		n = min(n, 270)
		start(n, 1, 1, n, 2)
		// A request without a tenant takes time with the cube of their number.
		w.named = n > 50
		for i, t := range w.T {
			if i > 0 {
				rest = append(rest, op("child", w.T[parent(i)], t))
			}
			if i == 0 || !g.p(1, 8) {
				pr(w.P[0], t, "", "", w.R[i], 1)
			} else {
				pr(w.P[0], t, "", "", "", 1)
			}
		}
		w.bulk = !w.named && g.p(1, 2)
	case 3:
		start(3, 2, 2, g.rng(3, 40), g.rng(2, 60))
		for i := 0; i < n; i++ {
			o := w.prOp("", 0)
			rest = append(rest, o)
		}
	case 4:
		start(1, 1, 1, 3, 2)
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, "many"+strconv.Itoa(i)+"|"+g.pick([]string{"do", "do", "*", ":verb"}))
		}
		for i := 0; i < n; {
			k := min(g.rng(1, n), n-i)
			rest = append(rest, op("perm", append([]string{"h:" + w.R[1]}, ps[i:i+k]...)...))
			i += k
		}
		rest = append(rest, op("edge", w.R[0], w.R[1]))
		pr(w.P[0], w.T[0], "", "", w.R[0], 0)
		pr(w.P[1], w.T[0], "", "", w.R[1], 0)
	case 5:
		if g.p(1, 2) {
			start(2, n, 1, 4, 3)
		} else {
			start(2, 1, n, 4, 3)
		}
		for i := 0; i < 2*n; i++ {
			rest = append(rest, w.prOp("", 0))
		}
	case 6:
		// Few objects: very many calls follow.
		start(g.rng(1, 3), 1, 2, g.rng(2, 6), g.rng(1, 4))
		for i := g.rng(2, 9); i > 0; i-- {
			rest = append(rest, w.prOp("", 0))
		}
		w.long = 2 * n
	}
	if g.p(2, 3) {
		g.shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	}
	ops = append(ops, rest...)
	for _, o := range ops {
		w.did(o)
	}
	return w, ops
}

// hugeChange draws a change that fits a huge state.
func (w *v2w) hugeChange(back bool) Op {
	o := w.change(0)
	if back && o.K == "edge" && w.g.p(1, 2) {
		// Usually a cycle; the model knows.
		i := w.g.rng(1, len(w.R)-1)
		return op("edge", w.R[i], w.R[w.g.n(i)])
	}
	return o
}

func (w *v2w) hugeMain(n int, kind string, back bool) []Op {
	g := w.g
	if w.long > 0 {
		n = w.long
	}
	var ops []Op
	for i := 0; i < n; i++ {
		switch {
		case g.p(1, 12):
			ops = append(ops, w.did(w.hugeChange(back)))
			if g.p(1, 3) {
				ops = append(ops, w.after(&ops[len(ops)-1]))
			}
		case kind == "" || g.p(1, 6):
			ops = append(ops, w.anyReq())
		default:
			ops = append(ops, w.req(kind))
		}
		if o := &ops[len(ops)-1]; o.K == "can" && len(o.S) > 4 && g.p(1, 30) {
			last := o.S[len(o.S)-1]
			o.S = o.S[:len(o.S)-1]
			for j := g.hugeSize(400); j > 0; j-- {
				o.S = append(o.S, "other"+strconv.Itoa(j))
			}
			o.S = append(o.S, last)
		}
	}
	return ops
}

// genHugeV2 asks and changes, with or without concurrent callers.
func genHugeV2(kind string, conc bool) func(g *Gen, c *Case) {
	return func(g *Gen, c *Case) {
		w, ops := g.hugeV2(1100)
		c.Phases = append(c.Phases, Phase{Main: ops})
		c.Phases = append(c.Phases, Phase{Main: w.hugeMain(g.rng(12, 40), kind, !conc)})
		if conc {
			c.Phases = append(c.Phases, w.concPhase(g.rng(2, 3), g.rng(6, 14), 0, false))
			w.long = 0
			c.Phases = append(c.Phases, Phase{Main: w.hugeMain(g.rng(6, 14), kind, false)})
		}
		g.schedule(c, false)
	}
}

// genHugeEdges adds child roles below, beside and above others.
func genHugeEdges(g *Gen, c *Case) {
	n := g.hugeSize(1100)
	w := newV2w(g, 1, 1, 1, n, 1, false)
	ops := []Op{w.did(op("tenant", w.T[0], w.N[0])), w.did(op("addtenant", w.T[0]))}
	for i, r := range w.R {
		h := "h:" + r
		w.handle[r] = []string{h}
		ops = append(ops, w.did(op("role", h, r)), w.did(op("addrole", h)), w.did(op("perm", h, uniq(i))))
	}
	shape := g.n(4)
	var es []Op
	for i := 1; i < n; i++ {
		from := i - 1
		switch {
		case shape == 1:
			from = 0
		case shape == 2:
			from = g.n(i)
		case shape == 3 && i > 4:
			from = i - g.rng(1, 4)
		}
		es = append(es, op("edge", w.R[from], w.R[i]))
	}
	if g.p(1, 2) {
		g.shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	}
	for _, o := range es {
		ops = append(ops, w.did(o))
	}
	p := []int{0, n - 1, g.n(n)}
	for i, k := range p {
		w.P = append(w.P, "p"+strconv.Itoa(i))
		ops = append(ops, w.did(Op{K: "pr", S: []string{"p" + strconv.Itoa(i), w.T[0], "", "", w.R[k]}, N: []int64{0, 0, w.slot}}))
		w.slot++
	}
	for i := g.rng(6, 24); i > 0; i-- {
		a, b := g.n(n), g.n(n)
		switch g.n(5) {
		case 0:
			a, b = n-1, 0
		case 1:
			a = n - 1
		}
		switch g.n(4) {
		case 0:
			o := op("edge", w.R[a], w.R[b])
			for g.p(1, 3) {
				o.S = append(o.S, w.R[g.n(n)])
			}
			ops = append(ops, w.did(o))
		case 1:
			ops = append(ops, op("auth", w.P[1+g.n(3)], w.T[0], "", "", "res"+strconv.Itoa(a), "do"))
		default:
			ops = append(ops, Op{K: "can", S: []string{w.P[1+g.n(3)], w.T[0], "", "", w.R[a]}, N: []int64{0, 0}})
		}
	}
	c.Phases = []Phase{{Main: ops}}
	g.schedule(c, false)
}

// hugeOr judges a huge history, which has no concurrent changes, against the
// model directly.
func hugeOr(check func(r *Run)) func(r *Run) {
	return func(r *Run) {
		if r.Case.Opt&optHuge == 0 {
			check(r)
			return
		}
		checkV2(r, v2opts{auth: true, can: true, main: true, errs: true, class: "history"})
		r.count("refused", r.Stats["judged_refusals"])
	}
}

// genHugeAlone lets callers ask at the same time.
func genHugeAlone(g *Gen, c *Case) {
	w, ops := g.hugeV2(300)
	p := Phase{Main: ops, Tasks: make([][]Op, g.rng(2, 4))}
	for i := g.rng(4, 10); i > 0; i-- {
		o := w.anyReq()
		p.Main = append(p.Main, alone(&o))
		t := g.n(len(p.Tasks))
		p.Tasks[t] = append(p.Tasks[t], o)
	}
	c.Phases = []Phase{p}
	g.schedule(c, false)
}
