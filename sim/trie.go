package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/oarkflow/permission"
	"github.com/oarkflow/permission/trie"

	"verif/simrt"
)

// triesys drives a fact store: on its own with permission.Data ("data"), with a
// type of its own and keys of any number ("var"), or as part of a role manager
// ("root").
//
// Operations: ins[fields...], find[mode, fields...], first[mode, fields...],
// all[]. A field is written s:text, i:number, b:bool or ~ for none.
// Modes of find and first: "match" uses the built-in predicate, "any" accepts
// everything, "none" nothing, "hash" a fixed pseudo-random half, "panic" panics
// at its n-th call, "has" wants the first given field anywhere in the fact.
type triesys struct {
	data func() *trie.Trie[permission.Data]
	add  func(d *permission.Data)
	vr   *trie.Trie[vrow]
	// Callers use one filter object again and again.
	filters [80]*permission.Data
	vfilter [80]*vrow
}

type vrow struct{ keys []any }

// label is text of another type.
type label string

func vmatch(f, row *vrow) bool {
	for i, k := range f.keys {
		if k != nil && (i >= len(row.keys) || row.keys[i] != k) {
			return false
		}
	}
	return true
}

func newTrie(c *Case) System {
	s := &triesys{}
	switch c.Kind {
	case "var":
		s.vr = trie.New(vmatch, func(r *vrow) []any { return append([]any{}, r.keys...) })
	case "root":
		m := permission.New()
		s.data = m.Data
		s.add = m.AddData
	default:
		t := trie.New(permission.FilterFunc, permission.DataKeyExtractor)
		s.data = func() *trie.Trie[permission.Data] { return t }
		s.add = t.Insert
	}
	return s
}

func decode(f string) any {
	switch f[0] {
	case 's':
		return f[2:]
	case 'i':
		n := 0
		fmt.Sscan(f[2:], &n)
		return n
	case 'l':
		n := int64(0)
		fmt.Sscan(f[2:], &n)
		return n
	case 'f':
		n := 0.0
		fmt.Sscan(f[2:], &n)
		return n
	case 't':
		return label(f[2:])
	case 'b':
		return f == "b:true"
	}
	return nil
}

func encode(x any) string {
	switch x := x.(type) {
	case nil:
		return "~"
	case string:
		return "s:" + x
	case int:
		return "i:" + fmt.Sprint(x)
	case bool:
		return "b:" + fmt.Sprint(x)
	case int64:
		return "l:" + fmt.Sprint(x)
	case float64:
		return "f:" + fmt.Sprint(x)
	case label:
		return "t:" + string(x)
	}
	return fmt.Sprintf("?%T", x)
}

func mkData(f []string) *permission.Data {
	return &permission.Data{Tenant: decode(f[0]), Namespace: decode(f[1]), Scope: decode(f[2]), Principal: decode(f[3]), Role: decode(f[4]), ManageDescendants: decode(f[5])}
}

func dataFields(d *permission.Data) []string {
	if d == nil {
		return []string{"nil"}
	}
	return []string{encode(d.Tenant), encode(d.Namespace), encode(d.Scope), encode(d.Principal), encode(d.Role), encode(d.ManageDescendants)}
}

func varFields(r *vrow) []string {
	if r == nil {
		return []string{"nil"}
	}
	f := []string{"v"}
	for _, k := range r.keys {
		f = append(f, encode(k))
	}
	return f
}

func rowKey(f []string) string { return strings.Join(f, "\x02") }

func hashHalf(key string, n int64) bool {
	h := uint64(n)*0x9e3779b97f4a7c15 + 1
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 0x100000001b3
	}
	return h>>17&1 == 1
}

// pred decides by the mode of an operation; calls counts the calls.
func pred(o *Op, filter []string, row []string, calls int) bool {
	switch o.S[0] {
	case "any":
		return true
	case "none":
		return false
	case "hash":
		return hashHalf(rowKey(row), o.n(0))
	case "panic":
		if int64(calls) > o.n(0) {
			panic("predicate failed")
		}
		return hashHalf(rowKey(row), o.n(0))
	case "has":
		return has(row, o.s(1))
	}
	// "match"
	for i, f := range filter {
		if f != "~" && (i >= len(row) || row[i] != f) {
			return false
		}
	}
	return true
}

func (s *triesys) Exec(o *Op, r *Rec) {
	r.Out = []string{}
	var seen []string
	defer func() { r.Keep = seen }()
	calls := 0
	if s.vr != nil {
		filter := &vrow{}
		switch o.K {
		case "ins":
			for _, f := range o.S {
				filter.keys = append(filter.keys, decode(f))
			}
			s.vr.Insert(filter)
			return
		case "all":
			for _, x := range s.vr.Data() {
				r.Out = append(r.Out, rowKey(varFields(x)))
			}
			return
		}
		if id := simrt.TaskID(); id >= 0 && id < len(s.vfilter) {
			if s.vfilter[id] == nil {
				s.vfilter[id] = filter
			}
			filter = s.vfilter[id]
			filter.keys = nil
		}
		for _, f := range o.S[1:] {
			filter.keys = append(filter.keys, decode(f))
		}
		cb := func(f, row *vrow) bool {
			calls++
			fs := varFields(row)
			seen = append(seen, rowKey(fs))
			if f != filter {
				seen = append(seen, "wrong filter")
			}
			return pred(o, nil, fs, calls)
		}
		switch {
		case o.K == "find" && o.S[0] == "match":
			for _, x := range s.vr.Search(filter) {
				r.Out = append(r.Out, rowKey(varFields(x)))
			}
		case o.K == "find":
			for _, x := range s.vr.SearchFunc(filter, cb) {
				r.Out = append(r.Out, rowKey(varFields(x)))
			}
		case o.S[0] == "match":
			if x := s.vr.First(filter); x != nil {
				r.Out = append(r.Out, rowKey(varFields(x)))
			}
		default:
			if x := s.vr.FirstFunc(filter, cb); x != nil {
				r.Out = append(r.Out, rowKey(varFields(x)))
			}
		}
		return
	}
	t := s.data()
	switch o.K {
	case "ins":
		s.add(mkData(o.S))
		return
	case "all":
		for _, x := range t.Data() {
			r.Out = append(r.Out, rowKey(dataFields(x)))
		}
		return
	}
	filter := mkData(o.S[1:])
	if id := simrt.TaskID(); id >= 0 && id < len(s.filters) {
		if s.filters[id] == nil {
			s.filters[id] = filter
		} else {
			*s.filters[id] = *filter
			filter = s.filters[id]
		}
	}
	cb := func(f, row *permission.Data) bool {
		calls++
		fs := dataFields(row)
		seen = append(seen, rowKey(fs))
		if f != filter {
			seen = append(seen, "wrong filter")
		}
		return pred(o, nil, fs, calls)
	}
	switch {
	case o.K == "find" && o.S[0] == "match":
		for _, x := range t.Search(filter) {
			r.Out = append(r.Out, rowKey(dataFields(x)))
		}
	case o.K == "find":
		for _, x := range t.SearchFunc(filter, cb) {
			r.Out = append(r.Out, rowKey(dataFields(x)))
		}
	case o.S[0] == "match":
		if x := t.First(filter); x != nil {
			r.Out = append(r.Out, rowKey(dataFields(x)))
		}
	default:
		if x := t.FirstFunc(filter, cb); x != nil {
			r.Out = append(r.Out, rowKey(dataFields(x)))
		}
	}
}

// recutVals changes two of the values so that they read the same when joined.
func (g *Gen) recutVals(sep string, f, vals []string, none bool) bool {
	s := make([]string, len(f))
	pools := make([][]string, len(f))
	var ids []string
	for _, x := range vals {
		ids = append(ids, x[2:])
	}
	if !none {
		ids = append(ids, "")
	}
	for i, x := range f {
		if len(x) > 2 && x[:2] == "s:" {
			s[i], pools[i] = x[2:], ids
		} else if x == "~" && !none {
			pools[i] = ids
		}
	}
	if !g.recut(sep, s, pools) {
		return false
	}
	for i := range f {
		switch {
		case pools[i] == nil:
		case s[i] == "":
			f[i] = "~"
		default:
			f[i] = "s:" + s[i]
		}
	}
	return true
}

func genC14(g *Gen, c *Case) {
	c.Kind = []string{"data", "data", "root", "var"}[g.n(4)]
	vals := []string{"s:a", "s:b", "s:c", "i:1", "s:1", "b:true", "s:true", "b:false", "i:0", "s:0", "s:", "s:~", "s:nil", "s:a\x00b", "l:1", "l:0", "f:1", "t:a", "t:1", "s:A", "s:a b", "s:b a"}
	nv := g.rng(1, 5)
	many := g.huge || g.p(1, 8)
	g.shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	vals = vals[:nv]
	if many && g.p(2, 3) {
		n := g.rng(4, 130)
		if g.huge {
			n = g.hugeSize(1100)
		}
		for i := n; i > 0; i-- {
			vals = append(vals, "s:v"+num(i))
		}
	}
	var sep *string
	if !many && g.p(1, 6) {
		x := g.pick(seps)
		sep = &x
		vals = []string{"s:a", "s:a" + x + "b", "s:b" + x + "c", "s:c", "s:b", "s:a" + x, "s:" + x + "a"}[:g.rng(4, 7)]
	}
	var facts [][]string
	fact := func() []string {
		if sep != nil && len(facts) > 0 && g.p(1, 3) {
			f := append([]string(nil), facts[g.n(len(facts))]...)
			if g.recutVals(*sep, f, vals, c.Kind == "var") {
				return f
			}
		}
		if len(facts) > 0 && g.p(1, 3) {
			// One that differs a little from another, or does not.
			f := append([]string(nil), facts[g.n(len(facts))]...)
			if c.Kind == "var" {
				switch g.n(4) {
				case 0:
					return append(f, g.pick(vals))
				case 1:
					if len(f) > 0 {
						return f[:g.n(len(f)+1)]
					}
				case 2:
					if len(f) > 0 {
						f[g.n(len(f))] = g.pick(vals)
					}
				}
				return f
			}
			switch g.n(4) {
			case 0:
				i, j := g.n(6), g.n(6)
				f[i], f[j] = f[j], f[i]
			case 1:
				f[g.n(6)] = "~"
			case 2:
				f[g.n(6)] = g.pick(vals)
			}
			return f
		}
		if c.Kind == "var" {
			return g.pickN(vals, g.n(6))
		}
		f := make([]string, 6)
		empty := g.rng(1, 5)
		for i := range f {
			f[i] = "~"
			if !g.p(empty, 6) {
				f[i] = g.pick(vals)
			}
		}
		return f
	}
	ins := func() Op {
		f := fact()
		facts = append(facts, f)
		return Op{K: "ins", S: f}
	}
	ask := func() Op {
		if g.p(1, 6) {
			return op("all")
		}
		o := Op{K: g.pick([]string{"find", "find", "first"})}
		mode := g.pick([]string{"match", "match", "match", "any", "none", "hash", "panic", "has"})
		o.S = []string{mode}
		if c.Kind == "var" {
			if mode == "has" {
				o.S = append(o.S, g.pick(vals))
			}
			if mode == "match" {
				o.S = append(o.S, g.pickN(vals, g.n(3))...)
			}
		} else {
			f := make([]string, 6)
			for i := range f {
				f[i] = "~"
			}
			if mode == "match" {
				if len(facts) > 0 && g.p(2, 3) {
					x := facts[g.n(len(facts))]
					for i := range f {
						if g.p(1, 2) {
							f[i] = x[i]
						}
					}
				} else {
					f[g.n(6)] = g.pick(vals)
				}
			}
			if mode == "has" {
				f[0] = g.pick(vals)
			}
			o.S = append(o.S, f...)
		}
		switch mode {
		case "hash":
			o.N = []int64{int64(g.n(1000))}
		case "panic":
			o.N = []int64{int64(g.n(6))}
		}
		return o
	}
	var main []Op
	for i := g.n(10); i > 0; i-- {
		main = append(main, ins())
		if g.p(1, 2) {
			main = append(main, ask())
		}
	}
	if many {
		// Sometimes many below one key.
		wide := g.p(1, 3)
		n := g.rng(10, 150)
		if g.huge {
			n = g.hugeSize(1100)
		}
		for i := n; i > 0; i-- {
			if wide && c.Kind != "var" {
				f := []string{"s:w", "~", "~", "~", "~", "~"}
				f[g.n(6)] = "s:v" + num(i)
				facts = append(facts, f)
				main = append(main, Op{K: "ins", S: f})
				continue
			}
			main = append(main, ins())
			if g.p(1, 12) {
				main = append(main, ask())
			}
		}
	}
	p := Phase{Main: main}
	if g.p(3, 4) {
		nt := g.rng(2, 4)
		p.Tasks = make([][]Op, nt)
		for i := g.rng(nt, 5*nt); i > 0; i-- {
			t := g.n(nt)
			if g.p(1, 2) {
				p.Tasks[t] = append(p.Tasks[t], ins())
			} else {
				p.Tasks[t] = append(p.Tasks[t], ask())
			}
		}
	}
	c.Phases = []Phase{p}
	var last []Op
	for i := g.rng(2, 8); i > 0; i-- {
		last = append(last, ask())
	}
	last = append(last, op("all"), Op{K: "find", S: append([]string{"any"}, emptyFilter(c.Kind)...)})
	c.Phases = append(c.Phases, Phase{Main: last})
	g.schedule(c, false)
}

func emptyFilter(kind string) []string {
	if kind == "var" {
		return nil
	}
	return []string{"~", "~", "~", "~", "~", "~"}
}

func checkC14(r *Run) {
	kind := r.Case.Kind
	row := func(o *Op) []string {
		if kind == "var" {
			return append([]string{"v"}, o.S...)
		}
		return o.S
	}
	for _, x := range r.Recs {
		if x.Op.K == "ins" || x.Inv == 0 {
			continue
		}
		var low, up []string
		rows := map[string][]string{}
		for _, y := range r.Recs {
			if y.Op.K != "ins" || y.Inv == 0 || x.before(y) {
				continue
			}
			k := rowKey(row(y.Op))
			rows[k] = row(y.Op)
			up = append(up, k)
			if y.before(x) {
				low = append(low, k)
			}
		}
		// What the predicate was shown was recorded.
		if s, ok := x.Keep.([]string); ok {
			for _, k := range s {
				if rows[k] == nil {
					r.fail("partial", "%s: the predicate was given %q, which was never recorded", x, k)
					return
				}
			}
		}
		if x.Panic != "" || !x.Done {
			r.count("predicate_panics", 1)
			continue
		}
		ok := func(k string) bool {
			f := rows[k]
			if f == nil {
				return false
			}
			if x.Op.K == "all" {
				return true
			}
			if x.Op.S[0] == "panic" {
				return hashHalf(k, x.Op.n(0))
			}
			filter := x.Op.S[1:]
			if kind == "var" {
				filter = append([]string{"~"}, filter...)
			}
			return pred(x.Op, filter, f, 0)
		}
		r.count("judged", 1)
		if dup := len(x.Out) - len(sortedSet(x.Out)); dup > 0 {
			r.fail("duplicate", "%s: %d duplicates", x, dup)
			return
		}
		found := len(x.Out) > 0
		if found {
			r.count("granted", 1)
		} else {
			r.count("denied", 1)
		}
		for _, k := range x.Out {
			if rows[k] == nil {
				r.fail("unknown", "%s: %q was not recorded by the end of the search", x, k)
				return
			}
			if !ok(k) {
				r.fail("mismatch", "%s: %q does not match", x, k)
				return
			}
		}
		sort.Strings(low)
		for _, k := range low {
			if !ok(k) {
				continue
			}
			if x.Op.K == "first" {
				if !found {
					r.fail("missing", "%s: %q was recorded before and matches", x, k)
					return
				}
				break
			}
			if !has(x.Out, k) {
				r.fail("missing", "%s: %q was recorded before and matches", x, k)
				return
			}
		}
	}
}

func init() {
	register(&Spec{ID: "C14", Real: "packages trie, utils and the root package of the working tree (instrumented copy); the concurrent map package xsync is a stand-in",
		NT: func(r *Run) bool { return r.Stats["granted"] > 0 && r.Out.Fired.Preempts > 0 }, New: newTrie, Gen: rarely(300, genC14, genC14), Check: checkC14,
		PanicOK: func(r *Rec) bool {
			return (r.Op.K == "find" || r.Op.K == "first") && r.Op.S[0] == "panic" && strings.HasPrefix(r.Panic, "predicate failed")
		},
		Faults: "preemption at every statement and map operation, stalled callers, map iteration order, panicking predicates",
		Rule:   "insertions and searches from up to 4 callers, every result bounded by the facts recorded before the search and by its end; a run is non-trivial when a search found something and preemption happened"})
}
