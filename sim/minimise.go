package main

import (
	"fmt"
	"time"

	"verif/simrt"
)

// minimise shrinks a failing case: first the operations, then the schedule,
// which becomes an explicit list of task switches.
func minimise(in, out string) int {
	c, err := loadCase(in)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	sp := specs[c.Prop]
	deadline := time.Now().Add(60 * time.Second)
	fails := func(c *Case) *Run {
		r := execute(sp, c)
		if r.Viol != nil && r.Viol.Class == c.Expect {
			return r
		}
		return nil
	}
	best := c.clone()
	r := fails(best)
	if r == nil {
		fmt.Println("not reproduced in this process")
		return 2
	}
	save := func() {
		best.Note = r.Viol.Msg
		best.Trace = traceOf(r, 400)
		best.save(out)
	}
	save()
	// try adopts a candidate if it fails under the schedule of the case or one
	// of a few others.
	try := func(d *Case, seeds int) bool {
		if time.Now().After(deadline) {
			return false
		}
		s := d.Cfg.Seed
		for i := 0; i < seeds; i++ {
			if i > 0 {
				d.Cfg.Seed = mix64(s, uint64(i)) >> 1
			}
			if x := fails(d); x != nil {
				best, r = d, x
				return true
			}
		}
		return false
	}
	conc := false
	for _, p := range best.Phases {
		conc = conc || len(p.Tasks) > 0
	}
	seeds := 3
	if conc {
		seeds = 25
	}
	// Simplify the environment.
	for _, f := range []func(*simrt.Config){
		func(f *simrt.Config) { f.TickInv, f.TickMax, f.BackInv = 0, 0, 0 },
		func(f *simrt.Config) { f.StallInv, f.StallLen = 0, 0 },
		func(f *simrt.Config) { f.MapMode = 0 },
		func(f *simrt.Config) { f.PoolMode = 0 },
	} {
		d := best.clone()
		f(&d.Cfg)
		try(d, 4)
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		// Whole phases and tasks, from the end.
		for i := len(best.Phases) - 1; i >= 0; i-- {
			d := best.clone()
			d.Phases = append(d.Phases[:i:i], d.Phases[i+1:]...)
			if try(d, 2) {
				changed = true
			}
		}
		for i := range best.Phases {
			for t := len(best.Phases[i].Tasks) - 1; t >= 0; t-- {
				d := best.clone()
				p := &d.Phases[i]
				p.Tasks = append(p.Tasks[:t:t], p.Tasks[t+1:]...)
				if try(d, seeds) {
					changed = true
				}
			}
		}
		// All operations that are the same, whatever manager they go to.
		if best.Opt&optAltMap != 0 {
			var ks []string
			best.each(func(o *Op) bool { ks = append(ks, keyOf(o)); return true })
			for _, k := range sortedSet(ks) {
				d := best.clone()
				d.each(func(o *Op) bool { return keyOf(o) != k })
				if try(d, 2) {
					changed = true
				}
			}
		}
		// Runs of operations, then single ones.
		for i := range best.Phases {
			nt := len(best.Phases[i].Tasks)
			for t := -1; t < nt; t++ {
				list := func(c *Case) *[]Op {
					if t < 0 {
						return &c.Phases[i].Main
					}
					return &c.Phases[i].Tasks[t]
				}
				for size := len(*list(best)) / 2; size >= 1; size /= 2 {
					for at := len(*list(best)) - size; at >= 0; at -= size {
						if at+size > len(*list(best)) {
							continue
						}
						d := best.clone()
						l := list(d)
						*l = append((*l)[:at:at], (*l)[at+size:]...)
						k := seeds
						if t < 0 {
							k = 4
						}
						if try(d, k) {
							changed = true
						}
					}
				}
			}
		}
	}
	save()
	// Make the schedule explicit.
	d := best.clone()
	d.Cfg.Strategy = simrt.StratReplay
	d.Cfg.Switches = append([]simrt.Switch(nil), r.Out.Switches...)
	d.Cfg.SwitchInv, d.Cfg.OpInv, d.Cfg.StallInv, d.Cfg.StallLen, d.Cfg.Depth, d.Cfg.Horizon = 0, 0, 0, 0, 0, 0
	if x := fails(d); x != nil {
		best, r = d, x
		best.Cfg.Switches = append([]simrt.Switch(nil), x.Out.Switches...)
		for size := (len(best.Cfg.Switches) + 1) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= len(best.Cfg.Switches); {
				d := best.clone()
				s := d.Cfg.Switches
				d.Cfg.Switches = append(s[:at:at], s[at+size:]...)
				if time.Now().After(deadline) {
					break
				}
				if x := fails(d); x != nil && len(x.Out.Switches) < len(best.Cfg.Switches) {
					best, r = d, x
					best.Cfg.Switches = append([]simrt.Switch(nil), x.Out.Switches...)
				} else {
					at += size
				}
			}
		}
		// The explicit schedule must fail by itself.
		if x := fails(best); x != nil {
			r = x
			save()
		}
	} else {
		save()
	}
	return 0
}

// each keeps the operations f accepts.
func (c *Case) each(f func(o *Op) bool) {
	keep := func(ops []Op) []Op {
		r := ops[:0:0]
		for i := range ops {
			if f(&ops[i]) {
				r = append(r, ops[i])
			}
		}
		return r
	}
	for i := range c.Phases {
		c.Phases[i].Main = keep(c.Phases[i].Main)
		for t := range c.Phases[i].Tasks {
			c.Phases[i].Tasks[t] = keep(c.Phases[i].Tasks[t])
		}
	}
}
