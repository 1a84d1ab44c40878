package main

// Identifiers that read the same when joined in other ways: whatever is keyed
// by several of them must not take (a, b:c) for (a:b, c).

var seps = []string{":", "/", "|", "", "_", ".", "-", " ", ",", "\x00", "__", "::", "#", "\t", "=", ";", "->", "@"}

// gluedPools draws n[i] names of every kind, joined with one separator.
func (g *Gen) gluedPools(n ...int) (pools [][]string, sep string) {
	sep = seps[g.n(len(seps))]
	if g.p(1, 2) {
		sep = seps[g.n(4)]
	}
	for _, k := range n {
		s := sep
		if g.p(1, 12) {
			s = g.pick(seps)
		}
		first := []string{"a", "a" + s + "b"}
		if g.p(1, 2) {
			first = []string{"c", "b" + s + "c"}
		}
		rest := []string{"a" + s, s + "a", s, "a" + s + "b" + s + "c", "b", "a", "c", "a" + s + "b", "b" + s + "c", "true", "a" + s + "true"}
		g.shuffle(2, func(i, j int) { first[i], first[j] = first[j], first[i] })
		g.shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		all := append(first, rest...)
		if g.p(1, 6) {
			all = append(rest, first...)
		}
		var ids []string
		for _, x := range all {
			if x != "" && len(ids) < k && !has(ids, x) {
				ids = append(ids, x)
			}
		}
		pools = append(pools, ids)
	}
	return pools, sep
}

// recut changes two of the values s[i], each to one of its pool, so that they
// read the same when joined; pools[i] is nil for a value that stays. An empty
// value is possible where the pool has one.
func (g *Gen) recut(sep string, s []string, pools [][]string) bool {
	type cut struct {
		i, j int
		x, y string
	}
	var cuts []cut
	for i := range pools {
		for j := range pools {
			if i == j || i >= len(s) || j >= len(s) {
				continue
			}
			whole := s[i] + sep + s[j]
			for _, x := range pools[i] {
				if len(x)+len(sep) > len(whole) || x == s[i] || whole[:len(x)+len(sep)] != x+sep {
					continue
				}
				if y := whole[len(x)+len(sep):]; has(pools[j], y) {
					cuts = append(cuts, cut{i, j, x, y})
				}
			}
		}
	}
	if len(cuts) == 0 {
		return false
	}
	c := cuts[g.n(len(cuts))]
	s[c.i], s[c.j] = c.x, c.y
	return true
}

func orNone(ids []string) []string { return append([]string{""}, ids...) }

// recutMade gives the values of an assignment made before, cut differently;
// p is the principal if that is to stay.
func (w *v2w) recutMade(p string) []string {
	g := w.g
	if w.sep == nil || len(w.made) == 0 || !g.p(1, 2) {
		return nil
	}
	for try := 0; try < 4; try++ {
		s := append([]string{}, w.made[g.n(len(w.made))]...)
		ps := w.P
		if p != "" {
			if s[0] != p {
				continue
			}
			ps = nil
		}
		if g.recut(*w.sep, s, [][]string{ps, w.T, orNone(w.N), orNone(w.S), w.R}) {
			return s
		}
	}
	return nil
}

// recutReq cuts the values of a request differently.
func (w *v2w) recutReq(o *Op) {
	if w.sep != nil && w.g.p(1, 3) {
		w.g.recut(*w.sep, o.S[:4], [][]string{w.P, w.T, orNone(w.N), orNone(w.S)})
	}
}

var fwSlots = map[string]string{
	"tpr": "TPR", "tp": "TPR", "tps": "TPS", "tpn": "TPNR", "tpsr": "TPRS", "mpr": "PRTns", "data": "Tnspr",
	"tns": "TN", "tsc": "TS", "tnsc": "TNS", "trole": "TR", "tnrole": "TNR", "auth": "PTns",
}

// recutOp is an operation made before, cut differently.
func (w *fw) recutOp(o Op) (Op, bool) {
	g := w.g
	k, ok := fwSlots[o.K]
	if !ok || w.sep == nil {
		return o, false
	}
	of := map[byte][]string{'T': w.T, 'N': w.N, 'S': w.S, 'P': w.P, 'R': w.R, 'n': orNone(w.N), 's': orNone(w.S), 'p': orNone(w.P), 'r': orNone(w.R)}
	var pools [][]string
	for i := range k {
		pools = append(pools, of[k[i]])
	}
	o.S = append([]string{}, o.S...)
	return o, g.recut(*w.sep, o.S, pools)
}

// recutChange remembers the changes drawn and sometimes makes one of them
// again, cut differently.
func (w *fw) recutChange(o Op) Op {
	g := w.g
	if w.sep == nil {
		return o
	}
	if len(w.made) > 0 && g.p(2, 5) {
		for try := 0; try < 3; try++ {
			if x, ok := w.recutOp(w.made[g.n(len(w.made))]); ok {
				return x
			}
		}
	}
	if fwSlots[o.K] != "" {
		w.made = append(w.made, o)
	}
	return o
}
