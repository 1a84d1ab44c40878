package main

import (
	"context"
	"errors"
	"fmt"
	"log/slog"
	"math"
	"slices"
	"time"

	v2 "github.com/oarkflow/permission/v2"

	"verif/simrt"
)

// v2sys drives one v2 authorizer.
type v2sys struct {
	a       *v2.Authorizer
	tenants map[string]*v2.Tenant // objects, created by task 0 only
	roles   map[string]*v2.Role   // by handle
	slots   []*v2.PrincipalRole   // each written by one operation
	built   []*Op                 // operations of task 0 so far
	audit   bool
	opt     int64
	ctx     [80]*auditCtx // per task
}

const nslots = 400

func newV2(c *Case) System {
	nslots := nslots
	if c.Opt&optHuge != 0 {
		nslots *= 20
	}
	s := &v2sys{tenants: map[string]*v2.Tenant{}, roles: map[string]*v2.Role{}, slots: make([]*v2.PrincipalRole, nslots), opt: c.Opt}
	if c.Opt&optAudit != 0 {
		s.audit = true
		s.a = v2.NewAuthorizer(slog.New(&sink{s: s}))
	} else {
		s.a = v2.NewAuthorizer()
	}
	return s
}

const (
	optAudit = 1 << iota
	optHuge  // a huge case, see huge.go
)

// Faults of the audit sink, chosen per request.
const (
	sinkOK = iota
	sinkError
	sinkSlow
	sinkStall
	sinkPanic
	sinkReenter
	sinkReenterWrite
)

type auditRec struct {
	msg    string
	fields map[string]string
	stamp  int64
	hasTS  bool
}

type auditCtx struct {
	mode    int64
	recs    []auditRec
	nested  int
	badNest string
}

type sink struct{ s *v2sys }

func (k *sink) Enabled(context.Context, slog.Level) bool { return true }
func (k *sink) WithAttrs([]slog.Attr) slog.Handler       { return k }
func (k *sink) WithGroup(string) slog.Handler            { return k }

func (k *sink) Handle(_ context.Context, r slog.Record) error {
	id := simrt.TaskID()
	if id < 0 || id >= len(k.s.ctx) {
		return nil
	}
	c := k.s.ctx[id]
	if c == nil {
		return nil
	}
	a := auditRec{msg: r.Message, fields: map[string]string{}}
	r.Attrs(func(at slog.Attr) bool {
		if at.Key == "timestamp" {
			a.hasTS = true
			a.stamp = at.Value.Time().UnixNano()
		} else {
			if _, dup := a.fields[at.Key]; dup {
				a.fields["duplicate "+at.Key] = at.Value.String()
			}
			a.fields[at.Key] = at.Value.String()
		}
		return true
	})
	c.recs = append(c.recs, a)
	switch c.mode {
	case sinkError:
		return errors.New("disk full")
	case sinkSlow:
		for i := 0; i < 40; i++ {
			simrt.Y(-70)
		}
		simrt.Jump(5_000_000)
	case sinkStall:
		simrt.StallUntilOthersDone()
	case sinkPanic:
		panic("audit sink failed")
	case sinkReenter, sinkReenterWrite:
		if c.nested > 0 {
			return nil
		}
		c.nested++
		k.s.ctx[id] = &auditCtx{}
		func() {
			defer func() { k.s.ctx[id] = c }()
			k.s.a.Can(v2.Request{Principal: "sinkuser", Tenant: "sinktenant"}, "sinkrole")
			k.s.a.Authorize(v2.Request{Principal: "sinkuser", Resource: "r", Action: "a"})
			k.s.a.GetTenant("sinktenant")
			if c.mode == sinkReenterWrite {
				k.s.a.AddPrincipalRole(&v2.PrincipalRole{Principal: "sinkuser", Tenant: "sinktenant", Role: "sinkrole"})
			}
		}()
	}
	return nil
}

func request(o *Op) v2.Request {
	return v2.Request{Principal: o.s(0), Tenant: o.s(1), Namespace: o.s(2), Scope: o.s(3), Resource: o.s(4), Action: o.s(5)}
}

func canRequest(o *Op) (v2.Request, []string) {
	r := v2.Request{Principal: o.s(0), Tenant: o.s(1), Namespace: o.s(2), Scope: o.s(3)}
	if o.n(1) == 1 {
		r.Resource, r.Action = "/some/resource", "GET"
	}
	return r, o.S[4:]
}

func perms(a []string) []*v2.Permission {
	var r []*v2.Permission
	for _, p := range a {
		res, act := cutPerm(p)
		r = append(r, v2.NewPermission("cat", res, act))
	}
	return r
}

var zones = []*time.Location{time.UTC, time.FixedZone("east", 14*3600), time.FixedZone("west", -12*3600-1800)}

// moment turns the code of an expiry into a time, in one of several zones; the
// ends of the range stand for times that do not fit into nanoseconds.
func moment(e int64, k int) time.Time {
	z := zones[uint64(e+int64(k))%uint64(len(zones))]
	switch e {
	case math.MaxInt64:
		return time.Date(9999, 12, 31, 0, 0, 0, 0, z)
	case math.MinInt64:
		return time.Time{}.In(z)
	}
	return time.Unix(0, e).In(z)
}

func cutPerm(p string) (string, string) {
	for i := 0; i < len(p); i++ {
		if p[i] == '|' {
			return p[:i], p[i+1:]
		}
	}
	return p, ""
}

func (s *v2sys) Exec(o *Op, r *Rec) {
	id := simrt.TaskID()
	if r.Task == 0 && o.K != "alone" && o.K != "auth" && o.K != "can" {
		s.built = append(s.built, o)
	}
	if s.audit && (o.K == "auth" || o.K == "can") {
		c := &auditCtx{mode: o.n(0)}
		s.ctx[id] = c
		r.Keep = c
		defer func() { s.ctx[id] = nil }()
	}
	s.do(o, r)
}

func (s *v2sys) do(o *Op, r *Rec) {
	switch o.K {
	case "tenant":
		t := v2.NewTenant(o.S[0], o.S[1:]...)
		s.tenants[o.S[0]] = t
	case "tenant2":
		s.tenants[o.S[0]] = v2.NewTenant(o.S[1], o.S[2:]...)
	case "role":
		s.roles[o.S[0]] = v2.NewRole(o.S[1])
	case "status":
		if t := s.tenants[o.S[0]]; t != nil {
			t.Status = v2.TenantStatus(o.N[0])
		}
	case "addtenant":
		var ts []*v2.Tenant
		for _, id := range o.S {
			if t := s.tenants[id]; t != nil {
				ts = append(ts, t)
			}
		}
		if len(ts) == 1 && o.n(0) == 0 {
			s.a.AddTenant(ts[0])
		} else {
			s.a.AddTenants(ts...)
			scribble(ts, v2.NewTenant("scribble"))
		}
	case "child":
		t := s.tenants[o.S[0]]
		var ts []*v2.Tenant
		for _, id := range o.S[1:] {
			if c := s.tenants[id]; c != nil {
				ts = append(ts, c)
			}
		}
		if t != nil {
			t.AddChildTenant(ts...)
			scribble(ts, v2.NewTenant("scribble"))
		}
	case "ns":
		if t := s.tenants[o.S[0]]; t != nil {
			if o.n(0) == 1 {
				t.AddNamespace(o.S[1], true)
			} else if o.n(0) == 2 {
				t.AddNamespace(o.S[1], false)
			} else {
				t.AddNamespace(o.S[1])
			}
		}
	case "scope":
		if t := s.tenants[o.S[0]]; t != nil {
			var sc []*v2.Scope
			for _, x := range o.S[2:] {
				sc = append(sc, v2.NewScope(x))
			}
			r.Err = t.AddScopeToNamespace(o.S[1], sc...) != nil
			scribble(sc, v2.NewScope("scribble"))
		}
	case "deftenant":
		s.a.SetDefaultTenant(o.s(0))
	case "addrole":
		var rs []*v2.Role
		for _, h := range o.S {
			if x := s.roles[h]; x != nil {
				rs = append(rs, x)
			}
		}
		if len(rs) == 1 && o.n(0) == 0 {
			s.a.AddRole(rs[0])
		} else {
			s.a.AddRoles(rs...)
			scribble(rs, v2.NewRole("scribble"))
		}
	case "perm":
		if x := s.roles[o.S[0]]; x != nil {
			ps := perms(o.S[1:])
			x.AddPermission(ps...)
			scribble(ps, v2.NewPermission("scribble", "*", "*"))
		}
	case "unperm":
		if x := s.roles[o.S[0]]; x != nil {
			ps := perms(o.S[1:])
			x.RemovePermission(ps...)
			scribble(ps, v2.NewPermission("scribble", "*", "*"))
		}
	case "edge":
		names := slices.Clone(o.S[1:])
		r.Err = s.a.AddChildRole(o.S[0], names...) != nil
		scribble(names, "scribble")
	case "pr":
		var prs []*v2.PrincipalRole
		for i := 0; i*5+4 < len(o.S); i++ {
			p := &v2.PrincipalRole{Principal: o.S[i*5], Tenant: o.S[i*5+1], Namespace: o.S[i*5+2], Scope: o.S[i*5+3], Role: o.S[i*5+4]}
			p.ManageChildTenant = o.n(i*3) == 1
			if e := o.n(i*3 + 1); e != 0 {
				// Assignments made together share one expiry value.
				if i > 0 && e == o.n(i*3-2) {
					p.Expiry = prs[i-1].Expiry
				} else {
					t := moment(e, i)
					p.Expiry = &t
				}
			}
			s.slots[o.n(i*3+2)] = p
			prs = append(prs, p)
		}
		s.a.AddPrincipalRole(prs...)
		scribble(prs, &v2.PrincipalRole{Principal: "scribble"})
	case "rmpr":
		r.Err = s.a.RemovePrincipalRole(v2.PrincipalRole{Principal: o.S[0], Tenant: o.S[1], Namespace: o.S[2], Scope: o.S[3], Role: o.S[4]}) != nil
	case "setexp":
		if p := s.slots[o.N[0]]; p != nil {
			r.Err = p.SetExpiry(moment(o.N[1], int(o.N[0]))) != nil
		}
	case "setdur":
		if p := s.slots[o.N[0]]; p != nil {
			var d any = time.Duration(o.n(1))
			if len(o.S) > 0 {
				d = o.S[0]
			} else if o.n(2) == 1 {
				d = int(o.n(1)) // not a type it accepts
			}
			r.Err = p.SetExpiryDuration(d) != nil
		}
	case "clrexp":
		if p := s.slots[o.N[0]]; p != nil {
			p.ClearExpiry()
		}
	case "isexp":
		if p := s.slots[o.N[0]]; p != nil {
			r.Bool = p.IsExpired()
		}
	case "jump":
		simrt.Jump(o.N[0])
	case "auth":
		r.Bool = s.a.Authorize(request(o))
	case "can":
		q, roles := canRequest(o)
		roles = slices.Clone(roles)
		r.Bool = s.a.Can(q, roles...)
		scribble(roles, "scribble")
	case "gettenant":
		t, ok := s.a.GetTenant(o.S[0])
		if r.Bool = ok; r.Bool {
			r.Out = []string{"?"}
			for h, x := range s.tenants {
				if x == t {
					r.Out[0] = h
				}
			}
		}
	case "getrole":
		x, ok := s.a.GetRole(o.S[0])
		if r.Bool = ok; r.Bool {
			r.Out = []string{"?"}
			for h, y := range s.roles {
				if x == y {
					r.Out[0] = h
				}
			}
		}
	case "getdef":
		t, ok := s.a.GetDefaultTenant()
		if ok {
			r.Out = []string{"?"}
			if t != nil {
				r.Out[0] = t.ID
			}
		}
	case "alone":
		q := &Op{K: o.S[0], S: o.S[1:]}
		old := simrt.SetPoolMode(2)
		f := newV2(&Case{Opt: s.opt &^ optAudit}).(*v2sys)
		for _, b := range s.built {
			var rr Rec
			f.do(b, &rr)
		}
		var rr Rec
		f.do(q, &rr)
		r.Bool = rr.Bool
		simrt.SetPoolMode(old)
	default:
		panic(fmt.Sprintf("unknown operation %q", o.K))
	}
}
