package main

import (
	"fmt"
	"sort"
	"strings"
)

func mstr(m int8) string {
	switch m {
	case 1:
		return "bool:false"
	case 2:
		return "bool:true"
	}
	return "~"
}

func factStr(x fact) string {
	v := func(s string) string {
		if s == "" {
			return "~"
		}
		return "string:" + s
	}
	return strings.Join([]string{v(x.a), v(x.b), v(x.c), v(x.d), v(x.e), mstr(x.m)}, "|")
}

// answer is what the model says to a question other than a request; ok is
// false when the model does not cover it. All answers grow with the facts.
func (s *fstate) answer(o *Op, isV1 bool) (out []string, ok bool) {
	out = []string{}
	S := o.S
	regs := func(kind string) ([]string, bool) {
		s.each(fReg, func(x fact) {
			if x.a == kind {
				out = append(out, x.b)
			}
		})
		return sortedSet(out), true
	}
	rows := func(f func(x fact) bool) ([]string, bool) {
		s.each(fRow, func(x fact) {
			if f(x) {
				if isV1 {
					out = append(out, factRow(x))
				} else {
					out = append(out, factStr(x))
				}
			}
		})
		return sortedSet(out), true
	}
	vals := func(f func(x fact) string) ([]string, bool) {
		s.each(fRow, func(x fact) {
			if v := f(x); v != "" {
				out = append(out, v)
			}
		})
		return sortedSet(out), true
	}
	switch o.K {
	case "desc":
		return sortedSet(keys(s.reach(fRoleKid, S[0], false))), true
	case "kids":
		return sortedSet(keys(s.reach(fTenKid, S[0], false))), true
	case "perms", "own":
		below := map[string]bool{S[0]: true}
		if o.K == "perms" {
			below = s.reach(fRoleKid, S[0], true)
		}
		s.each(fPerm, func(x fact) {
			if below[x.a] {
				out = append(out, x.b+"|"+x.c)
			}
		})
		s.each(fGroup, func(x fact) {
			if below[x.a] {
				s.each(fAttr, func(y fact) {
					if y.a == x.b {
						out = append(out, x.b+"|"+y.c)
					}
				})
			}
		})
		return sortedSet(out), true
	case "list":
	default:
		return nil, false
	}
	switch S[0] {
	case "tenants":
		return regs("tenant")
	case "namespaces":
		return regs("ns")
	case "scopes":
		return regs("scope")
	case "principals":
		return regs("principal")
	case "roles":
		return regs("role")
	case "attributes":
		s.each(fReg, func(x fact) {
			if x.a == "attr" {
				out = append(out, perm(x.b))
			}
		})
		return sortedSet(out), true
	case "tenantsOf":
		return vals(func(x fact) string {
			if x.d == S[1] {
				return x.a
			}
			return ""
		})
	}
	if isV1 {
		switch S[0] {
		case "scopesOf":
			if !s.reg("principal", S[1]) {
				return nil, false
			}
			return vals(func(x fact) string {
				if x.d == S[1] {
					return x.c
				}
				return ""
			})
		case "tenantScopesOf":
			if !s.reg("principal", S[2]) || !s.reg("tenant", S[1]) {
				return nil, false
			}
			return vals(func(x fact) string {
				if x.d == S[2] && x.a == S[1] {
					return x.c
				}
				return ""
			})
		case "rolesOf":
			return rows(func(x fact) bool { return x.a == S[1] && x.d == S[2] })
		case "rolesIn", "byTenant":
			return rows(func(x fact) bool { return x.a == S[1] })
		case "implicit":
			if !s.reg("tenant", S[1]) {
				return rows(func(x fact) bool { return x.a == S[1] && x.d == S[2] })
			}
			return rows(func(x fact) bool {
				return x.a == S[1] && x.d == S[2] || s.f[fact{k: fTenKid, a: S[1], b: x.a}]
			})
		case "permsOf":
			s.each(fRow, func(x fact) {
				if x.a != S[1] || x.d != S[2] || x.e == "" || !s.reg("role", x.e) {
					return
				}
				out = append(out, factRow(x))
				own, _ := s.answer(&Op{K: "own", S: []string{x.e}}, true)
				for _, p := range own {
					out = append(out, factRow(x)+"|"+p)
				}
			})
			return sortedSet(out), true
		case "groupPerms":
			return sortedSet(append(out, s.permsOf(S[1], S[2])...)), true
		case "rolePerms":
			if !s.reg("role", S[1]) {
				return nil, false
			}
			return s.answer(&Op{K: "own", S: []string{S[1]}}, true)
		}
		return nil, false
	}
	switch S[0] {
	case "data":
		return rows(func(x fact) bool { return true })
	case "rowsOf":
		return rows(func(x fact) bool { return x.a != "" && x.d == S[1] })
	case "rolesIn":
		return rows(func(x fact) bool { return x.a == S[1] && x.e != "" })
	case "namespacesIn", "namespaceIn":
		return rows(func(x fact) bool { return x.a == S[1] && x.b != "" })
	case "scopesIn":
		return rows(func(x fact) bool { return x.a == S[1] && x.c != "" })
	case "scopesOf":
		return rows(func(x fact) bool { return x.a != "" && x.d == S[1] && x.c != "" })
	case "nsFor", "nsFor2":
		return rows(func(x fact) bool { return x.a == S[2] && x.b != "" && (x.d == "" || x.d == S[1]) })
	case "scFor":
		return rows(func(x fact) bool { return x.a == S[2] && x.c != "" && (x.d == "" || x.d == S[1]) })
	case "namespacesOf", "scForNs":
		own := map[string]bool{}
		s.each(fRow, func(x fact) {
			if x.d == S[1] && x.a != "" {
				own[x.a] = true
			}
		})
		return rows(func(x fact) bool {
			if S[0] == "namespacesOf" {
				return own[x.a] && x.b != "" && (x.d == "" || x.d == S[1])
			}
			return own[x.a] && x.c != "" && (x.d == S[1] || x.d == "" && (x.b == "" || x.b == S[2]))
		})
	case "scForTN":
		return rows(func(x fact) bool {
			return x.a == S[2] && x.c != "" && (x.d == S[1] || x.d == "" && (x.b == "" || x.b == S[3]))
		})
	case "rolesTNS", "rolesTN", "rolesTS":
		return rows(func(x fact) bool { return x.a == S[2] && x.d == S[1] && x.e != "" })
	case "descendants":
		if !s.reg("tenant", S[1]) {
			return nil, false
		}
		for _, id := range keys(s.reach(fTenKid, S[1], false)) {
			out = append(out, id)
		}
		return sortedSet(out), true
	case "groupPerms":
		return sortedSet(append(out, s.permsOf(S[1], S[2])...)), true
	case "available":
		s.each(fReg, func(x fact) {
			if x.a == "role" {
				all, _ := s.answer(&Op{K: "perms", S: []string{x.b}}, false)
				for _, p := range all {
					out = append(out, p+"|"+x.b)
				}
			}
		})
		return sortedSet(out), true
	case "implicit":
		s.each(fRow, func(x fact) {
			if x.a == "" || x.d != S[1] {
				return
			}
			out = append(out, x.a)
			if x.m == 2 && s.reg("tenant", x.a) {
				out = append(out, keys(s.reach(fTenKid, x.a, false))...)
			}
		})
		return sortedSet(out), true
	}
	return nil, false
}

type factOpts struct {
	v1    bool
	auth  bool // judge requests
	lists bool // judge listings the model covers
	role  bool // judge questions about roles and tenants
	conc  bool // judge those of concurrent callers too
	same  bool // registering yields one object; nothing is refused wrongly
	class string
}

func byTime(recs []*Rec) []*Rec {
	r := append([]*Rec(nil), recs...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].Inv < r[j].Inv })
	return r
}

// checkFacts compares a history with the model.
func checkFacts(r *Run, f factOpts) {
	apply := rootApply
	if f.v1 {
		apply = v1Apply
	}
	h := newHistory(r.Recs, apply)
	if f.same {
		if !checkSame(r) {
			return
		}
		if h.refused != nil {
			r.fail("refused", "%s: all it needs was there before", h.refused)
			return
		}
	}
	c := h.cursor()
	for _, x := range byTime(r.Recs) {
		if !x.Done || x.Panic != "" || x.Task != 0 && !f.conc {
			continue
		}
		switch x.Op.K {
		case "auth":
			if !f.auth {
				continue
			}
			low, up, quiet := c.at(x)
			var must, may bool
			if f.v1 {
				must, may = v1Auth(low, x.Op)
				if !quiet {
					_, may = v1Auth(up, x.Op)
				}
			} else {
				must = rootAuth(low, x.Op)
				may = must
				if !quiet {
					may = rootAuth(up, x.Op)
				}
			}
			if must && !may {
				panic(fmt.Sprintf("model not monotone: %s", x))
			}
			if quiet {
				r.count("judged_exact", 1)
			} else {
				r.count("judged_overlapping", 1)
			}
			if x.Bool {
				r.count("granted", 1)
			} else {
				r.count("denied", 1)
			}
			if must && !x.Bool {
				r.fail(f.class, "%s: the facts recorded before the request grant it", x)
				return
			}
			if !may && x.Bool {
				r.fail(f.class, "%s: no fact recorded by the end of the request grants it", x)
				return
			}
		case "allowed":
			low, _, quiet := c.at(x)
			if !quiet || !f.lists {
				continue
			}
			S := x.Op.S
			want := v1Allowed(low, S[0], S[1], S[2], S[3])
			r.count("judged_allowed", 1)
			if !subset(want, x.Out) || !subset(x.Out, want) {
				r.fail(f.class, "%s: the roles are %q", x, want)
				return
			}
		case "has":
			if !f.role {
				continue
			}
			low, up, _ := c.at(x)
			if x.Err {
				if low.reg("role", x.Op.S[0]) {
					r.fail("lost", "%s: the role was registered before", x)
					return
				}
				continue
			}
			r.count("judged_probe", 1)
			var allowed map[string]bool
			if len(x.Op.S) > 3 {
				allowed = map[string]bool{}
				for _, d := range x.Op.S[3:] {
					allowed[d] = true
				}
			}
			if low.hasPerm(x.Op.S[0], x.Op.S[1], x.Op.S[2], allowed) && !x.Bool {
				r.fail(f.class, "%s: the role or a descendant has the permission", x)
				return
			}
			if !up.hasPerm(x.Op.S[0], x.Op.S[1], x.Op.S[2], allowed) && x.Bool {
				r.fail(f.class, "%s: neither the role nor a descendant has the permission", x)
				return
			}
		case "desc", "kids", "perms", "own", "list":
			if x.Op.K == "list" && !f.lists || x.Op.K != "list" && !f.role {
				continue
			}
			low, up, _ := c.at(x)
			if x.Err {
				kind := "role"
				if x.Op.K == "kids" {
					kind = "tenant"
				}
				if low.reg(kind, x.Op.S[0]) {
					r.fail("lost", "%s: it was registered before", x)
					return
				}
				continue
			}
			lo, ok := low.answer(x.Op, f.v1)
			if !ok {
				continue
			}
			hi, _ := up.answer(x.Op, f.v1)
			got := x.Out
			if x.Op.K == "desc" || x.Op.K == "kids" {
				got = without(got, x.Op.S[0])
				if len(sortedSet(got)) != len(got) {
					r.fail("listing", "%s: lists one more than once", x)
					return
				}
			}
			r.count("judged_list", 1)
			if !subset(lo, got) {
				r.fail("listing", "%s: %q is missing", x, minus(lo, got))
				return
			}
			if !subset(got, hi) {
				r.fail("listing", "%s: %q was never recorded", x, minus(got, hi))
				return
			}
		}
	}
}

func without(a []string, x string) (r []string) {
	for _, y := range a {
		if y != x {
			r = append(r, y)
		}
	}
	return
}

func minus(a, b []string) (r []string) {
	for _, x := range a {
		if !has(b, x) {
			r = append(r, x)
		}
	}
	return
}

// checkSame: registering one identifier yields one object.
func checkSame(r *Run) bool {
	first := map[string]*Rec{}
	for _, x := range r.Recs {
		if x.Op.K != "reg" && x.Op.K != "rereg" || x.Keep == nil {
			continue
		}
		id := x.Op.S[1]
		if x.Op.S[0] == "attr" {
			id = perm(id)
		}
		k := x.Op.S[0] + "\x01" + id
		if f := first[k]; f == nil {
			first[k] = x
		} else {
			r.count("judged_identity", 1)
			if f.Keep != x.Keep {
				r.fail("identity", "%s and %s got different objects", f, x)
				return false
			}
		}
	}
	return true
}

// checkKept: lists handed out still hold what they held.
func checkKept(r *Run) {
	for _, x := range r.Recs {
		k, ok := x.Keep.(*kept)
		if !ok {
			continue
		}
		r.count("judged_kept", 1)
		for i := range k.copy {
			if k.list[i] != k.copy[i] {
				r.fail("overwritten", "%s: the list handed out was %q and is now %q", x, k.copy, k.list)
				return
			}
		}
	}
}

// checkAgain: a question repeated without a change in between gets the same
// answer, also from concurrent callers. A phase whose tasks change nothing is
// compared with its Main part.
func checkAgain(r *Run) {
	type ans struct {
		x   *Rec
		out string
	}
	str := func(x *Rec) string { return fmt.Sprint(x.Bool, x.Err, x.Out) }
	pure := func(o *Op) bool {
		switch strings.TrimPrefix(o.K, "b:") {
		case "auth", "list", "has", "perms", "own", "groups", "desc", "kids", "allowed":
			return true
		}
		return false
	}
	for pi := range r.Case.Phases {
		known := map[string]ans{}
		quietTasks := true
		for _, t := range r.Case.Phases[pi].Tasks {
			for i := range t {
				if !pure(&t[i]) && !elsewhere(&t[i]) {
					quietTasks = false
				}
			}
		}
		for _, x := range r.Recs {
			if x.Phase != pi || !x.Done || x.Panic != "" {
				continue
			}
			if !pure(x.Op) {
				if x.Task == 0 {
					known = map[string]ans{}
				}
				continue
			}
			if x.Task != 0 && !quietTasks || x.Op.K == "list" && x.Op.S[0] == "string" {
				continue
			}
			k := x.Op.String()
			if a, ok := known[k]; ok {
				r.count("judged_again", 1)
				if a.out != str(x) {
					r.fail("repeat", "%s\nbut without a change in between\n%s", a.x, x)
					return
				}
			} else {
				known[k] = ans{x, str(x)}
			}
		}
	}
}

// checkTwins: after the same facts both managers give the same answers. The
// last phase asks the questions.
func checkTwins(r *Run) {
	last := len(r.Case.Phases) - 1
	told := map[string]int{}
	for _, x := range r.Recs {
		o := Op{K: strings.TrimPrefix(x.Op.K, "b:")}
		if factChange(&o) {
			key := keyOf(x.Op)
			if o.K == "reg" {
				key = "reg " + strings.Join(x.Op.S, "\x01") // in either form
			}
			if o.K == x.Op.K {
				told[key] |= 1
			} else {
				told[key] |= 2
			}
		}
	}
	for _, m := range told {
		if m != 3 {
			return // not the same facts
		}
	}
	a := map[string]*Rec{}
	for _, x := range r.Recs {
		if x.Phase != last || x.Panic != "" {
			continue
		}
		if !strings.HasPrefix(x.Op.K, "b:") {
			a[x.Op.String()] = x
			continue
		}
		y := a[keyOf(x.Op)]
		if y == nil {
			continue
		}
		r.count("judged_twin", 1)
		if x.Bool {
			r.count("granted", 1)
		} else {
			r.count("denied", 1)
		}
		if x.Bool != y.Bool || x.Err != y.Err || fmt.Sprint(x.Out) != fmt.Sprint(y.Out) {
			r.fail("order", "told the same facts in another order, one answers\n%s\nand the other\n%s", y, x)
			return
		}
	}
}
