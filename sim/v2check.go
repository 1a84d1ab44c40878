package main

import (
	"sort"
	"time"
)

func duration(o *Op) (int64, bool) {
	if len(o.S) > 0 {
		d, err := time.ParseDuration(o.S[0])
		return int64(d), err != nil
	}
	return o.n(1), o.n(2) == 1
}

func winOf(r *Rec) [2]int64 { return [2]int64{r.Win.Min, r.Win.Max} }

// relevant: the change can matter for a request of this principal.
func relevant(c *Op, o *Op) bool {
	switch c.K {
	case "pr":
		for i := 0; i*5+4 < len(c.S); i++ {
			if c.S[i*5] == o.s(0) {
				return true
			}
		}
		return false
	case "rmpr":
		return c.S[0] == "" || c.S[0] == o.s(0)
	}
	return true
}

// splitChanges lists the changes of a history; a call that registers several
// tenants counts as one change per tenant.
func splitChanges(recs []*Rec) []*Rec {
	var out []*Rec
	for _, r := range recs {
		if !isChange(r.Op) || r.Inv == 0 || r.Panic != "" {
			continue
		}
		if r.Op.K == "addtenant" && len(r.Op.S) > 1 {
			for _, id := range r.Op.S {
				c := *r
				o := op("addtenant", id)
				c.Op = &o
				out = append(out, &c)
			}
			continue
		}
		out = append(out, r)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Inv < out[j].Inv })
	return out
}

// expOp: the operation edits an expiry, and whether it is refused may depend on
// the reading of the clock it took; its result is judged by checkRefusals.
func expOp(o *Op) bool { return o.K == "setexp" || o.K == "setdur" || o.K == "clrexp" }

type v2opts struct {
	auth, can  bool // which requests are judged
	main, conc bool // requests at quiescence, requests in concurrent phases
	errs       bool // results of changes
	expiry     bool // results of expiry changes
	class      string
}

// checkV2 judges the requests of a history against the model.
func checkV2(run *Run, o v2opts) {
	changes := splitChanges(run.Recs)
	// The state after the changes that are certainly over is built once and
	// moved forward, as requests are judged in the order they began.
	reqs := []*Rec{}
	for _, r := range run.Recs {
		if !r.Done || r.Panic != "" {
			continue
		}
		switch r.Op.K {
		case "auth", "can":
			if r.Op.K == "auth" && !o.auth || r.Op.K == "can" && !o.can {
				continue
			}
			if r.Task == 0 && !o.main || r.Task != 0 && !o.conc {
				continue
			}
			reqs = append(reqs, r)
		case "gettenant", "getdef", "isexp", "getrole":
			reqs = append(reqs, r)
		}
	}
	sort.SliceStable(reqs, func(i, j int) bool { return reqs[i].Inv < reqs[j].Inv })
	if o.errs || o.expiry {
		checkRefusals(run, changes, o)
	}
	m := newV2m()
	applied := make([]bool, len(changes))
	for _, r := range reqs {
		var maybe []*Rec
		for i, c := range changes {
			if applied[i] {
				continue
			}
			if c.Inv > r.Ret {
				break
			}
			if c.Ret < r.Inv {
				applied[i] = true
				if !c.Err || !expOp(c.Op) {
					m.apply(c.Op, winOf(c))
				}
				continue
			}
			if c.Err && expOp(c.Op) {
				continue
			}
			if relevant(c.Op, r.Op) {
				maybe = append(maybe, c)
			}
		}
		switch r.Op.K {
		case "gettenant":
			if !o.conc && r.Task != 0 {
				continue
			}
			must := m.reg[r.Op.S[0]] != ""
			can := must
			hs := map[string]bool{m.reg[r.Op.S[0]]: true}
			for _, c := range maybe {
				if c.Op.K == "addtenant" {
					for _, h := range c.Op.S {
						if t := m.ten[h]; t != nil && t.id == r.Op.S[0] {
							can = true
							hs[h] = true
						}
					}
				}
			}
			if r.Bool && can && !hs[r.Out[0]] {
				run.fail(o.class, "lookup of tenant %q found the object %s, not the one last registered (%v): %s", r.Op.S[0], r.Out[0], hs, r)
			}
			if r.Bool && !can || !r.Bool && must {
				run.fail(o.class, "lookup of tenant %q found=%v, registered=%v: %s", r.Op.S[0], r.Bool, must, r)
			}
			continue
		case "getrole":
			if !o.conc && r.Task != 0 {
				continue
			}
			last, must := m.regRole[r.Op.S[0]]
			can := must
			hs := map[string]bool{last: true}
			for _, c := range maybe {
				if c.Op.K == "addrole" {
					can = true
					for _, h := range c.Op.S {
						hs[h] = true
					}
				}
			}
			if r.Bool && can && !hs[r.Out[0]] {
				run.fail(o.class, "lookup of role %q found the object %s, not the one last registered (%v): %s", r.Op.S[0], r.Out[0], hs, r)
			}
			if r.Bool && !can || !r.Bool && must {
				run.fail(o.class, "lookup of role %q found=%v, registered=%v: %s", r.Op.S[0], r.Bool, must, r)
			}
			continue
		case "getdef":
			if !o.conc && r.Task != 0 {
				continue
			}
			defs := map[string]bool{m.def: true}
			may := map[string]bool{}
			for _, c := range maybe {
				switch c.Op.K {
				case "deftenant":
					defs[c.Op.s(0)] = true
				case "addtenant":
					for _, h := range c.Op.S {
						if t := m.ten[h]; t != nil {
							may[t.id] = true
						}
					}
				}
			}
			if len(r.Out) > 0 {
				if d := r.Out[0]; !defs[d] || m.reg[d] == "" && !may[d] {
					run.fail(o.class, "%s, but the default tenant is %q, registered=%v", r, m.def, m.reg[m.def] != "")
				}
				continue
			}
			none := false
			for d := range defs {
				none = none || d == "" || m.reg[d] == ""
			}
			if !none {
				run.fail(o.class, "%s: none, but the default tenant is %q, which is registered", r, m.def)
			}
			continue
		case "isexp":
			if !o.expiry {
				continue
			}
			for i := range m.prs {
				if a := &m.prs[i]; a.slot == r.Op.N[0] {
					if r.Bool && (a.hi == 0 || r.Win.Max <= a.lo) || !r.Bool && a.hi != 0 && r.Win.Min > a.hi {
						run.fail(o.class, "assignment in slot %d with expiry %d reported expired=%v at %d..%d", a.slot, a.hi, r.Bool, r.Win.Min, r.Win.Max)
						return
					}
				}
			}
			continue
		}
		grant, deny, ok := admissible(m, maybe, r.Op, winOf(r))
		if !ok {
			run.count("unjudged", 1)
			continue
		}
		run.count("judged", 1)
		if len(maybe) > 0 {
			run.count("judged_overlapping", 1)
		}
		if !grant || !deny {
			run.count("judged_exact", 1)
		}
		if r.Bool {
			run.count("granted", 1)
		} else {
			run.count("denied", 1)
		}
		if r.Bool && !grant {
			run.fail(o.class, "granted, but the state allows no grant: %s (%d overlapping changes, clock %d..%d)", r, len(maybe), r.Win.Min-startNS, r.Win.Max-startNS)
			return
		}
		if !r.Bool && !deny {
			run.fail(o.class, "denied, but the state requires a grant: %s (%d overlapping changes, clock %d..%d)", r, len(maybe), r.Win.Min-startNS, r.Win.Max-startNS)
			return
		}
	}
}

// checkRefusals compares the errors of changes with the model; only for changes
// no other change overlaps.
func checkRefusals(run *Run, changes []*Rec, o v2opts) {
	m := newV2m()
	for i, c := range changes {
		alone := true
		for j, d := range changes {
			if i != j && c.overlaps(d) {
				alone = false
			}
		}
		refused := m.apply(c.Op, winOf(c))
		if c.Err && !refused {
			// Applied by the model only: undo by rebuilding.
			m = newV2m()
			for _, d := range changes[:i] {
				if !d.Err {
					m.apply(d.Op, winOf(d))
				}
			}
		}
		if !alone || !c.Done {
			continue
		}
		exp := expOp(c.Op)
		if exp && !o.expiry || !exp && !o.errs {
			continue
		}
		switch c.Op.K {
		case "setexp":
			// An expiry inside the window may be accepted or refused.
			if c.Op.N[1] >= c.Win.Min && c.Op.N[1] < c.Win.Max {
				continue
			}
			known := false
			for k := range m.prs {
				known = known || m.prs[k].slot == c.Op.N[0]
			}
			if !known {
				continue
			}
		case "setdur":
			known := false
			for k := range m.prs {
				known = known || m.prs[k].slot == c.Op.N[0]
			}
			if !known {
				continue
			}
		case "rmpr", "edge", "scope":
		default:
			continue
		}
		run.count("judged_refusals", 1)
		if c.Err != refused {
			run.fail(o.class, "%s: error=%v, expected error=%v", c, c.Err, refused)
			return
		}
	}
}
