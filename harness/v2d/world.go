// Package v2d drives package v2 and records what it does, for TraceV2.tla and
// for the behaviours generated from MC_V2*.tla.
package v2d

import (
	"context"
	"fmt"
	"log/slog"
	"time"

	v2 "github.com/oarkflow/permission/v2"

	"verifharness/rec"
)

// World is one engine with the objects made for it, known by handles.
type World struct {
	told  int // instants told so far
	R     *rec.Rec
	A     *v2.Authorizer
	D     *v2.RoleDAG
	log   *capture
	roles map[string]*v2.Role
	tens  map[string]*v2.Tenant
	asgs  map[string]*v2.PrincipalRole
	roleH map[*v2.Role]string
	tenH  map[*v2.Tenant]string
	base  time.Time
	unit  time.Duration
	kept  []kept
	Scrib bool
}

type kept struct {
	m   map[string]struct{}
	was []string
}

type capture struct{ recs []rec.Ev }

func (c *capture) Enabled(context.Context, slog.Level) bool { return true }
func (c *capture) WithAttrs([]slog.Attr) slog.Handler       { return c }
func (c *capture) WithGroup(string) slog.Handler            { return c }
func (c *capture) Handle(_ context.Context, r slog.Record) error {
	f := [][]string{}
	r.Attrs(func(a slog.Attr) bool {
		if a.Key != "timestamp" {
			f = append(f, []string{a.Key, rec.Enc(a.Value.String())})
		}
		return true
	})
	c.recs = append(c.recs, rec.Ev{"msg": r.Message, "f": f})
	return nil
}

func NewWorld(r *rec.Rec, logging bool, unit time.Duration) *World {
	w := &World{R: r, D: v2.NewRoleDAG(), unit: unit, base: time.Now(),
		roles: map[string]*v2.Role{}, tens: map[string]*v2.Tenant{}, asgs: map[string]*v2.PrincipalRole{},
		roleH: map[*v2.Role]string{}, tenH: map[*v2.Tenant]string{}}
	if logging {
		w.log = &capture{}
		w.A = v2.NewAuthorizer(slog.New(w.log))
	} else {
		w.A = v2.NewAuthorizer()
	}
	return w
}

const (
	Never  = 999999999
	Far    = 900000000
	farAgo = -900000000
)

func (w *World) At(k int) time.Time {
	switch {
	case k >= Far:
		return time.Date(9999, 12, 31, 23, 0, 0, 0, time.UTC)
	case k <= farAgo:
		return time.Time{}
	}
	t := w.base.Add(time.Duration(k) * w.unit)
	// the same instant, told in several ways
	switch w.told++; w.told % 5 {
	case 1:
		t = t.In(time.FixedZone("east", 14*3600))
	case 2:
		t = t.In(time.FixedZone("west", -12*3600)).Round(0)
	case 3:
		t = t.UTC()
	}
	return t
}

func (w *World) NewRole(h, name string) {
	w.R.Call(rec.Ev{"op": "newRole", "h": h, "name": rec.Enc(name)}, func() any {
		r := v2.NewRole(name)
		w.roles[h], w.roleH[r] = r, h
		return "ok"
	})
}

func (w *World) NewTenant(h, id string, hasDef bool, def string) {
	w.R.Call(rec.Ev{"op": "newTenant", "h": h, "id": rec.Enc(id), "hasDef": hasDef, "def": rec.Enc(def)}, func() any {
		var t *v2.Tenant
		if hasDef {
			t = v2.NewTenant(id, def)
		} else {
			t = v2.NewTenant(id)
		}
		w.tens[h], w.tenH[t] = t, h
		return "ok"
	})
}

func (w *World) NewAsg(h, p, t, n, s, r string, mng bool) {
	w.R.Call(rec.Ev{"op": "newAsg", "h": h, "p": rec.Enc(p), "t": rec.Enc(t), "n": rec.Enc(n), "s": rec.Enc(s), "r": rec.Enc(r), "mng": mng}, func() any {
		w.asgs[h] = &v2.PrincipalRole{Principal: p, Tenant: t, Namespace: n, Scope: s, Role: r, ManageChildTenant: mng}
		return "ok"
	})
}

func (w *World) AddRoles(d string, hs []string) {
	w.R.Call(rec.Ev{"op": "addRoles", "d": d, "hs": hs}, func() any {
		var rs []*v2.Role
		for _, h := range hs {
			rs = append(rs, w.roles[h])
		}
		switch {
		case d == "D":
			w.D.AddRole(rs...)
		case len(rs) == 1:
			if w.A.AddRole(rs[0]) != rs[0] {
				return "other role returned"
			}
		default:
			w.A.AddRoles(rs...)
		}
		return "ok"
	})
}

func (w *World) permList(ps []Perm) (out []*v2.Permission, enc []string) {
	enc = []string{}
	for _, p := range ps {
		out = append(out, v2.NewPermission(p.Cat, p.Res, p.Act))
		enc = append(enc, w.R.Vocab("perm", p.Res+" "+p.Act))
	}
	return
}

type Perm struct{ Cat, Res, Act string }

func (w *World) AddPerm(h string, ps []Perm) {
	list, enc := w.permList(ps)
	w.R.Call(rec.Ev{"op": "addPerm", "h": h, "ps": enc}, func() any { w.roles[h].AddPermission(list...); return "ok" })
}

func (w *World) RemPerm(h string, ps []Perm) {
	list, enc := w.permList(ps)
	w.R.Call(rec.Ev{"op": "remPerm", "h": h, "ps": enc}, func() any { w.roles[h].RemovePermission(list...); return "ok" })
}

func (w *World) AddKids(d, r string, rs []string) {
	w.R.Call(rec.Ev{"op": "addKids", "d": d, "r": rec.Enc(r), "rs": rec.EncAll(rs)}, func() any {
		own := append([]string(nil), rs...)
		var err error
		if d == "D" {
			err = w.D.AddChildRole(r, own...)
		} else {
			err = w.A.AddChildRole(r, own...)
		}
		for i := range own { // the list stays the caller's
			own[i] = "\x00overwritten"
		}
		return rec.Err(err)
	})
}

func (w *World) AddNs(h, n string, isDef, explicit bool) {
	w.R.Call(rec.Ev{"op": "addNs", "h": h, "n": rec.Enc(n), "isDef": isDef}, func() any {
		if isDef || explicit {
			w.tens[h].AddNamespace(n, isDef)
		} else {
			w.tens[h].AddNamespace(n)
		}
		return "ok"
	})
}

func (w *World) AddScopes(h, n string, ss []string) {
	w.R.Call(rec.Ev{"op": "addScopes", "h": h, "n": rec.Enc(n), "ss": rec.EncAll(ss)}, func() any {
		var l []*v2.Scope
		for _, s := range ss {
			l = append(l, v2.NewScope(s))
		}
		return rec.Err(w.tens[h].AddScopeToNamespace(n, l...))
	})
}

func (w *World) tenList(hs []string) (out []*v2.Tenant) {
	for _, h := range hs {
		out = append(out, w.tens[h])
	}
	return
}

func (w *World) AddChildren(h string, hs []string) {
	w.R.Call(rec.Ev{"op": "addChildren", "h": h, "hs": hs}, func() any { w.tens[h].AddChildTenant(w.tenList(hs)...); return "ok" })
}

func (w *World) AddTenants(hs []string) {
	w.R.Call(rec.Ev{"op": "addTenants", "hs": hs}, func() any {
		l := w.tenList(hs)
		if len(l) == 1 {
			if w.A.AddTenant(l[0]) != l[0] {
				return "other tenant returned"
			}
		} else {
			w.A.AddTenants(l...)
		}
		return "ok"
	})
}

func (w *World) Status(h string, st int) {
	w.R.Call(rec.Ev{"op": "status", "h": h, "st": st}, func() any { w.tens[h].Status = v2.TenantStatus(st); return "ok" })
}

func (w *World) SetDef(t string) {
	w.R.Call(rec.Ev{"op": "setDef", "t": rec.Enc(t)}, func() any { w.A.SetDefaultTenant(t); return "ok" })
}

func (w *World) AddAsg(hs []string) {
	w.R.Call(rec.Ev{"op": "addAsg", "hs": hs}, func() any {
		var l []*v2.PrincipalRole
		for _, h := range hs {
			l = append(l, w.asgs[h])
		}
		w.A.AddPrincipalRole(l...)
		return "ok"
	})
}

type Pat struct{ P, T, N, S, R string }

// RemAsg removes assignments. What else the pattern says plays no part.
func (w *World) RemAsg(x Pat, mng bool, exp *time.Time) {
	w.R.Call(rec.Ev{"op": "remAsg", "pat": rec.Ev{"p": rec.Enc(x.P), "t": rec.Enc(x.T), "n": rec.Enc(x.N), "s": rec.Enc(x.S), "r": rec.Enc(x.R)}}, func() any {
		return rec.Err(w.A.RemovePrincipalRole(v2.PrincipalRole{Principal: x.P, Tenant: x.T, Namespace: x.N, Scope: x.S, Role: x.R, ManageChildTenant: mng, Expiry: exp}))
	})
}

func (w *World) SetExp(h string, at int) {
	w.R.Call(rec.Ev{"op": "setExp", "h": h, "at": at}, func() any { return rec.Err(w.asgs[h].SetExpiry(w.At(at))) })
}

func (w *World) SetDur(h string, dur int, text string) {
	w.R.Call(rec.Ev{"op": "setDur", "h": h, "dur": dur}, func() any {
		d := time.Duration(dur) * w.unit
		switch text {
		case "":
			return rec.Err(w.asgs[h].SetExpiryDuration(d))
		case "ns":
			return rec.Err(w.asgs[h].SetExpiryDuration(fmt.Sprintf("%dns", d)))
		}
		return rec.Err(w.asgs[h].SetExpiryDuration(d.String()))
	})
}

func (w *World) BadDur(h string, dur any) {
	w.R.Call(rec.Ev{"op": "badDur", "h": h, "text": rec.Enc(fmt.Sprintf("%T %v", dur, dur))}, func() any { return rec.Err(w.asgs[h].SetExpiryDuration(dur)) })
}

func (w *World) PutExp(h string, at int) {
	w.R.Call(rec.Ev{"op": "putExp", "h": h, "at": at}, func() any { t := w.At(at); w.asgs[h].Expiry = &t; return "ok" })
}

func (w *World) ClearExp(h string) {
	w.R.Call(rec.Ev{"op": "clearExp", "h": h}, func() any { w.asgs[h].ClearExpiry(); return "ok" })
}

func (w *World) Advance(by int) {
	w.R.Call(rec.Ev{"op": "advance", "by": by}, func() any { time.Sleep(time.Duration(by) * w.unit); return "ok" })
}

type Req struct{ P, T, N, S, Res, Act string }

func (w *World) reqEv(q Req) rec.Ev {
	return rec.Ev{"p": rec.Enc(q.P), "t": rec.Enc(q.T), "n": rec.Enc(q.N), "s": rec.Enc(q.S),
		"res": rec.Enc(q.Res), "act": rec.Enc(q.Act), "blank": q.Res == "" && q.Act == "",
		"ra": w.R.Vocab("req", q.Res+" "+q.Act)}
}

func (q Req) v2() v2.Request {
	return v2.Request{Principal: q.P, Tenant: q.T, Namespace: q.N, Scope: q.S, Resource: q.Res, Action: q.Act}
}

func (w *World) logged(ev rec.Ev, fn func() any) {
	if w.log != nil {
		w.log.recs = []rec.Ev{}
	}
	w.R.Call(ev, func() any {
		res := fn()
		if w.log != nil {
			ev["log"] = w.log.recs
		}
		return res
	})
}

func (w *World) Authorize(q Req) (res bool) {
	w.logged(rec.Ev{"op": "authorize", "req": w.reqEv(q)}, func() any { res = w.A.Authorize(q.v2()); return res })
	return
}

func (w *World) Can(q Req, roles []string) (res bool) {
	w.logged(rec.Ev{"op": "can", "req": w.reqEv(q), "roles": rec.EncAll(roles)}, func() any { res = w.A.Can(q.v2(), roles...); return res })
	return
}

func (w *World) keep(m map[string]struct{}) {
	if !w.Scrib {
		return
	}
	// An earlier result must still read as it did
	if len(w.kept) > 0 {
		k := w.kept[0]
		w.R.Call(rec.Ev{"op": "held", "was": k.was}, func() any { return rec.EncKeys(k.m) })
		w.kept = w.kept[1:]
	}
	if len(w.kept) < 3 && len(m)%2 == 0 {
		w.kept = append(w.kept, kept{m, rec.EncKeys(m)})
		return
	}
	if m != nil { // and this one is ours to spoil
		for k := range m {
			delete(m, k)
			break
		}
		m["\x00spoiled"] = struct{}{}
		m["* *"] = struct{}{}
	}
}

func (w *World) Perms(d, r string) {
	var m map[string]struct{}
	w.R.Call(rec.Ev{"op": "perms", "d": d, "r": rec.Enc(r)}, func() any { m = w.D.ResolvePermissions(r); return rec.EncKeys(m) })
	w.keep(m)
}

func (w *World) Kids(d, r string) {
	var m map[string]struct{}
	w.R.Call(rec.Ev{"op": "kids", "d": d, "r": rec.Enc(r)}, func() any { m = w.D.ResolveChildRoles(r); return rec.EncKeys(m) })
	w.keep(m)
}

func (w *World) GetRole(r string) {
	w.R.Call(rec.Ev{"op": "getRole", "r": rec.Enc(r)}, func() any {
		x, ok := w.A.GetRole(r)
		if !ok {
			return "none"
		}
		return handle(w.roleH[x])
	})
}

func handle(h string) string {
	if h == "" {
		return "unknown object"
	}
	return h
}

func (w *World) GetTenant(t string) {
	w.R.Call(rec.Ev{"op": "getTenant", "t": rec.Enc(t)}, func() any {
		x, ok := w.A.GetTenant(t)
		if !ok {
			return "none"
		}
		return handle(w.tenH[x])
	})
}

func (w *World) DefTenant() {
	w.R.Call(rec.Ev{"op": "defTenant"}, func() any {
		x, ok := w.A.GetDefaultTenant()
		if !ok {
			return "none"
		}
		return handle(w.tenH[x])
	})
}

func (w *World) Expired(h string) {
	w.R.Call(rec.Ev{"op": "expired", "h": h}, func() any { return w.asgs[h].IsExpired() })
}

// Expiry reads when an assignment expires, in units since the beginning.
func (w *World) Expiry(h string) {
	w.R.Call(rec.Ev{"op": "expiry", "h": h}, func() any {
		t := w.asgs[h].Expiry
		switch {
		case t == nil:
			return Never
		case t.Equal(w.At(Far)):
			return Far
		case t.Equal(w.At(farAgo)):
			return farAgo
		}
		d := t.Sub(w.base)
		if d%w.unit != 0 || d/w.unit >= Far || d/w.unit <= farAgo {
			return Never + 1
		}
		return int(d / w.unit)
	})
}
