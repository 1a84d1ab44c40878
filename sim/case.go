package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"slices"
	"strings"

	"verif/simrt"
)

// Op is one operation of a workload: a kind, text arguments, numbers.
type Op struct {
	K string   `json:"k"`
	S []string `json:"s,omitempty"`
	N []int64  `json:"n,omitempty"`
}

func (o *Op) String() string {
	s := o.K + "(" + strings.Join(quoteAll(o.S), ",")
	for i, n := range o.N {
		if i == 0 {
			s += "; "
		} else {
			s += ","
		}
		s += fmt.Sprint(n)
	}
	return s + ")"
}

func quoteAll(a []string) []string {
	r := make([]string, len(a))
	for i, s := range a {
		r[i] = fmt.Sprintf("%q", s)
	}
	return r
}

func (o *Op) n(i int) int64 {
	if i < len(o.N) {
		return o.N[i]
	}
	return 0
}

func (o *Op) s(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

func op(k string, s ...string) Op { return Op{K: k, S: s} }

// Phase: first task 0 executes Main while nothing else runs, then Tasks run
// concurrently and are joined.
type Phase struct {
	Main  []Op   `json:"main,omitempty"`
	Tasks [][]Op `json:"tasks,omitempty"`
}

// Case is one simulated execution: what is done and how it is scheduled.
type Case struct {
	Prop   string       `json:"prop"`
	Seed   uint64       `json:"seed"`
	Kind   string       `json:"kind,omitempty"`
	Opt    int64        `json:"opt,omitempty"`
	Cfg    simrt.Config `json:"cfg"`
	Phases []Phase      `json:"phases"`
	Expect string       `json:"expect,omitempty"` // violation class of a replay file
	Note   string       `json:"note,omitempty"`
	Trace  []string     `json:"trace,omitempty"`
	Race   bool         `json:"race_build,omitempty"`
}

func (c *Case) nops() int {
	n := 0
	for _, p := range c.Phases {
		n += len(p.Main)
		for _, t := range p.Tasks {
			n += len(t)
		}
	}
	return n
}

func (c *Case) clone() *Case {
	d := *c
	d.Phases = make([]Phase, len(c.Phases))
	for i, p := range c.Phases {
		q := Phase{Main: append([]Op(nil), p.Main...)}
		for _, t := range p.Tasks {
			q.Tasks = append(q.Tasks, append([]Op(nil), t...))
		}
		d.Phases[i] = q
	}
	d.Cfg.Switches = append([]simrt.Switch(nil), c.Cfg.Switches...)
	return &d
}

func (c *Case) opHash() uint64 {
	h := fnv.New64a()
	for _, p := range c.Phases {
		for i := range p.Main {
			h.Write([]byte(p.Main[i].String()))
		}
		for _, t := range p.Tasks {
			h.Write([]byte{1})
			for i := range t {
				h.Write([]byte(t[i].String()))
			}
		}
		h.Write([]byte{2})
	}
	return h.Sum64()
}

func loadCase(path string) (*Case, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	c := &Case{}
	if err := json.Unmarshal(b, c); err != nil {
		return nil, err
	}
	return c, nil
}

func (c *Case) save(path string) error {
	b, err := json.MarshalIndent(c, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// Rec is what happened to one operation.
type Rec struct {
	Op       *Op
	Phase    int
	Task     int // 0 for Main
	Inv, Ret int64
	Win      simrt.Window
	Done     bool
	Bool     bool
	Err      bool
	Out      []string
	Panic    string
	Keep     any
}

func (r *Rec) String() string {
	s := fmt.Sprintf("phase %d task %d [%d..%d] %s", r.Phase, r.Task, r.Inv, r.Ret, r.Op)
	switch {
	case !r.Done:
		return s + " -> never returned"
	case r.Panic != "":
		return s + " -> panic: " + firstLine(r.Panic)
	}
	s += fmt.Sprintf(" -> %v", r.Bool)
	if r.Err {
		s += " error"
	}
	if r.Out != nil {
		s += fmt.Sprintf(" %q", r.Out)
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// before: a was over when b began.
func (r *Rec) before(b *Rec) bool { return r.Done && r.Ret < b.Inv }

// overlaps: neither was over when the other began.
func (r *Rec) overlaps(b *Rec) bool { return !r.before(b) && !b.before(r) }

// Viol is a violation of the property a case is for.
type Viol struct {
	Class string
	Msg   string
}

// Run is one executed case.
type Run struct {
	Tired bool // given up, not judged
	Case  *Case
	Out   *simrt.Outcome
	Recs  []*Rec // in order of phase, task, index
	All   []*Rec // also those of the other instance
	Races int
	Viol  *Viol
	Sys   System
	Stats map[string]int64
}

func (r *Run) fail(class, format string, a ...any) {
	if r.Viol == nil {
		r.Viol = &Viol{class, fmt.Sprintf(format, a...)}
	}
}

func (r *Run) count(name string, n int64) { r.Stats[name] += n }

// System executes operations against the real code.
type System interface {
	Exec(op *Op, r *Rec)
}

// Spec decides one property.
type Spec struct {
	ID     string
	Race   bool // also run the build with the race detector
	RaceIs bool // a data race violates this property
	Gen    func(g *Gen, c *Case)
	New    func(c *Case) System
	Check  func(r *Run)
	// PanicOK tells whether a panic of an operation is part of the scenario.
	PanicOK func(r *Rec) bool
	// NT tells whether a run was non-trivial, as Rule says.
	NT     func(r *Run) bool
	Rule   string
	Faults string
	Real   string // what runs real code
}

var specs = map[string]*Spec{}

func register(s *Spec) { specs[s.ID] = s }

func execOp(s System, o *Op, r *Rec) {
	simrt.OpBoundary()
	w, id := simrt.OpenWindow()
	r.Inv = simrt.Stamp()
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Panic = fmt.Sprint(p) + "\n" + stack()
			}
		}()
		s.Exec(o, r)
	}()
	r.Ret = simrt.Stamp()
	simrt.CloseWindow(id)
	r.Win = *w
	r.Done = true
}

// pair has a second instance beside the one that is judged. Nothing done to it
// may matter; its operations start with "o:".
type pair struct{ a, b System }

func (p *pair) Exec(o *Op, r *Rec) {
	if !elsewhere(o) {
		p.a.Exec(o, r)
		return
	}
	q := *o
	q.K = q.K[2:]
	p.b.Exec(&q, &Rec{Op: &q, Phase: r.Phase, Task: r.Task})
}

func elsewhere(o *Op) bool { return strings.HasPrefix(o.K, "o:") }

func (c *Case) other() bool {
	for _, p := range c.Phases {
		for i := range p.Main {
			if elsewhere(&p.Main[i]) {
				return true
			}
		}
		for _, t := range p.Tasks {
			for i := range t {
				if elsewhere(&t[i]) {
					return true
				}
			}
		}
	}
	return false
}

// addOther lets a second instance live through part of the same history, at
// its own pace.
func (g *Gen) addOther(c *Case) {
	skip := g.n(4)
	do := func(ops []Op) []Op {
		var r, late []Op
		for _, o := range ops {
			x := o
			x.K = "o:" + o.K
			switch strings.TrimPrefix(o.K, "b:") {
			case "jump", "alone":
				r = append(r, o)
			case "tenant", "tenant2", "role", "status":
				r = append(r, o, x)
			case "auth", "can", "list", "has", "perms", "own", "groups", "desc", "kids", "allowed", "gettenant", "getrole", "getdef":
				if c.Opt&optAudit != 0 && o.n(0) == sinkPanic {
					x.N = append([]int64{sinkOK}, o.N[1:]...)
				}
				if g.p(1, 2) {
					r = append(r, x)
				}
				r = append(r, o)
			default:
				r = append(r, o)
				if !g.p(skip, 6) {
					late = append(late, x)
				}
			}
			for len(late) > 0 && g.p(1, 2) {
				r = append(r, late[0])
				late = late[1:]
			}
		}
		return append(r, late...)
	}
	for i := range c.Phases {
		p := &c.Phases[i]
		p.Main = do(p.Main)
		for k := range p.Tasks {
			p.Tasks[k] = do(p.Tasks[k])
		}
	}
}

// execute runs a case and checks it.
// tooLong is the number of steps after which a huge case is given up between
// two calls: how much time a call takes is not judged by its size.
const tooLong = 100_000_000

func execute(sp *Spec, c *Case) *Run {
	run := &Run{Case: c, Stats: map[string]int64{}}
	races := simrt.RaceErrors()
	recs := make([][][]Rec, len(c.Phases))
	for pi := range c.Phases {
		p := &c.Phases[pi]
		recs[pi] = make([][]Rec, len(p.Tasks)+1)
		recs[pi][0] = make([]Rec, len(p.Main))
		for ti := range p.Tasks {
			recs[pi][ti+1] = make([]Rec, len(p.Tasks[ti]))
		}
		for ti := range recs[pi] {
			ops := p.Main
			if ti > 0 {
				ops = p.Tasks[ti-1]
			}
			for i := range recs[pi][ti] {
				recs[pi][ti][i] = Rec{Op: &ops[i], Phase: pi, Task: ti}
			}
		}
	}
	cfg := c.Cfg
	if c.Opt&optHuge != 0 {
		cfg.Budget = 100_000_000
	}
	simrt.ResetWindows()
	run.Out = simrt.Run(&cfg, func() {
		simrt.ResetPackages()
		sys := sp.New(c)
		run.Sys = sys
		if c.other() {
			sys = &pair{sys, sp.New(c)}
		}
		for pi := range c.Phases {
			p := &c.Phases[pi]
			for i := range p.Main {
				if c.Opt&optHuge != 0 && simrt.Steps() > tooLong {
					run.Tired = true
					return
				}
				execOp(sys, &p.Main[i], &recs[pi][0][i])
			}
			if len(p.Tasks) == 0 {
				continue
			}
			done := new(int)
			for ti := range p.Tasks {
				ops, rs := p.Tasks[ti], recs[pi][ti+1]
				simrt.Spawn(func() {
					for i := range ops {
						execOp(sys, &ops[i], &rs[i])
					}
					simrt.SignalDone(done)
				})
			}
			simrt.WaitAll(done)
		}
	})
	run.Races = simrt.RaceErrors() - races
	if run.Races > 0 && sp.RaceIs {
		run.fail("race", "data race (%d reports)", run.Races)
	}
	for pi := range recs {
		for ti := range recs[pi] {
			for i := range recs[pi][ti] {
				run.Recs = append(run.Recs, &recs[pi][ti][i])
			}
		}
	}
	run.All = run.Recs
	if run.Out.Deadlock {
		run.fail("deadlock", "deadlock: %s", where(run.Out.Where))
		return run
	}
	if run.Out.Hang && c.Opt&optHuge != 0 {
		// Size is no reason to call a run endless.
		run.count("given_up", 1)
		return run
	}
	if run.Out.Hang {
		run.fail("hang", "no end after %d steps: %s", run.Out.Steps, where(run.Out.Where))
		return run
	}
	if run.Out.TaskPanic != "" {
		run.fail("panic", "panic outside an operation: %s", firstLine(run.Out.TaskPanic))
		return run
	}
	for _, r := range run.Recs {
		q := *r
		if elsewhere(r.Op) {
			o := *r.Op
			o.K = o.K[2:]
			q.Op = &o
		}
		if r.Panic != "" && (sp.PanicOK == nil || !sp.PanicOK(&q)) {
			run.fail("panic", "%s panicked: %s", r.Op, r.Panic)
			return run
		}
	}
	if run.Tired {
		run.count("given_up", 1)
		return run
	}
	if c.other() {
		run.count("other_instance", 1)
		run.Recs = slices.DeleteFunc(slices.Clone(run.Recs), func(r *Rec) bool { return elsewhere(r.Op) })
	}
	if run.Viol == nil {
		sp.Check(run)
	}
	return run
}

// Gen is a seeded source of choices.
type Gen struct {
	s    uint64
	huge bool // a huge case is being drawn
}

func newGen(seed uint64) *Gen { return &Gen{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (g *Gen) u() uint64 {
	g.s += 0x9e3779b97f4a7c15
	z := g.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (g *Gen) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(g.u() % uint64(n))
}
func (g *Gen) rng(a, b int) int       { return a + g.n(b-a+1) }
func (g *Gen) p(num, den int) bool    { return g.n(den) < num }
func (g *Gen) pick(a []string) string { return a[g.n(len(a))] }
func (g *Gen) pickN(a []string, n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, g.pick(a))
	}
	return r
}
func (g *Gen) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, g.n(i+1))
	}
}
func (g *Gen) sub(a []string, p, q int) []string {
	var r []string
	for _, x := range a {
		if g.p(p, q) {
			r = append(r, x)
		}
	}
	return r
}

const startNS = 1_700_000_000_000_000_000

// schedule draws a scheduler configuration.
func (g *Gen) schedule(c *Case, clock bool) {
	f := &c.Cfg
	f.Seed = g.u() >> 1
	f.Budget = 30_000_000
	if c.Prop <= "C09" {
		f.Budget = 4_000_000
	}
	f.StartNS = startNS
	f.OpInv = uint32(g.rng(1, 6))
	switch g.n(10) {
	case 0:
		f.Strategy = simrt.StratSerial
	case 1, 2, 3:
		f.Strategy = simrt.StratPCT
		f.Depth = g.rng(1, 6)
		f.Horizon = int64([]int{200, 600, 2000, 6000}[g.n(4)])
	default:
		f.Strategy = simrt.StratRandom
		f.SwitchInv = uint32([]int{2, 3, 5, 8, 15, 30, 80}[g.n(7)])
		if g.p(1, 3) {
			f.StallInv = uint32(g.rng(2, 12))
			f.StallLen = int64([]int{30, 200, 1500}[g.n(3)])
		}
	}
	f.PoolMode = []int{0, 0, 1, 1, 2}[g.n(5)]
	f.MapMode = []int{0, 1, 1, 1, 2}[g.n(5)]
	if clock && g.p(3, 4) {
		f.TickInv = uint32([]int{3, 10, 40, 150}[g.n(4)])
		f.TickMax = int64([]int{1, 3, 50, 1_000_000, 2_000_000_000}[g.n(5)])
		if g.p(1, 3) {
			f.BackInv = uint32(g.rng(2, 6))
		}
	}
}
