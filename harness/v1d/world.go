// Package v1d drives package v1 and records what it does, for
// TraceV1.tla and for the behaviours generated from MC_V1*.tla.
package v1d

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"

	permission "github.com/oarkflow/permission/v1"

	"verifharness/rec"
)

const NIL = "\\-"

// Opt is a value that may be absent.
type Opt struct {
	Set bool
	V   string
}

func Some(s string) Opt { return Opt{true, s} }

func (o Opt) enc() string {
	if !o.Set {
		return NIL
	}
	return rec.Enc(o.V)
}

type World struct {
	R     *rec.Rec
	M     *permission.RoleManager
	T     map[string]*permission.Tenant
	N     map[string]*permission.Namespace
	S     map[string]*permission.Scope
	P     map[string]*permission.Principal
	Ro    map[string]*permission.Role
	A     map[string]*permission.Attribute
	G     map[string]*permission.AttributeGroup
	hof   map[any]string
	kept  []kept
	Scrib bool
	forms int
}

type kept struct {
	read func() []string
	was  []string
}

func NewWorld(r *rec.Rec) *World {
	return &World{R: r, M: permission.New(), T: map[string]*permission.Tenant{}, N: map[string]*permission.Namespace{}, S: map[string]*permission.Scope{},
		P: map[string]*permission.Principal{}, Ro: map[string]*permission.Role{}, A: map[string]*permission.Attribute{},
		G: map[string]*permission.AttributeGroup{}, hof: map[any]string{}}
}

func (w *World) handle(x any) string {
	if h, ok := w.hof[x]; ok {
		return h
	}
	return "unknown object"
}

// New makes an object of kind t, n, s, p, r or g.
func (w *World) New(k, h, id string) {
	w.R.Call(rec.Ev{"op": "new", "k": k, "h": h, "id": rec.Enc(id)}, func() any {
		switch k {
		case "t":
			w.T[h] = permission.NewTenant(id)
			w.hof[w.T[h]] = h
		case "n":
			w.N[h] = permission.NewNamespace(id)
			w.hof[w.N[h]] = h
		case "s":
			w.S[h] = permission.NewScope(id)
			w.hof[w.S[h]] = h
		case "p":
			w.P[h] = permission.NewPrincipal(id)
			w.hof[w.P[h]] = h
		case "r":
			w.Ro[h] = permission.NewRole(id)
			w.hof[w.Ro[h]] = h
		case "g":
			w.G[h] = permission.NewAttributeGroup(id)
			w.hof[w.G[h]] = h
		}
		got := id
		switch k {
		case "t":
			got = w.T[h].ID()
		case "n":
			got = w.N[h].ID()
		case "s":
			got = w.S[h].ID()
		case "p":
			got = w.P[h].ID()
		case "r":
			got = w.Ro[h].ID()
		}
		if got != id {
			return "id " + rec.Enc(got)
		}
		return "ok"
	})
}

func (w *World) pair(a permission.Attribute) string {
	// the resource and action are not exported: a delimiter tells them apart
	return rec.Enc(a.String("##"))
}

func (w *World) NewAttr(h, res, act string) {
	w.R.Call(rec.Ev{"op": "newAttr", "h": h, "key": w.R.Vocab("perm", res+" "+act), "pair": rec.Enc(res + "##" + act)}, func() any {
		a := permission.NewAttribute(res, act)
		if len(h)%2 == 0 {
			if l := permission.NewAttributes(res, act, act); len(l) == 2 {
				a = l[1]
			}
		}
		w.A[h] = a
		w.hof[a] = h
		if a.String() != res+" "+act {
			return "text " + rec.Enc(a.String())
		}
		return "ok"
	})
}

func (w *World) Reg(k, h string) {
	w.R.Call(rec.Ev{"op": "reg", "k": k, "h": h}, func() any {
		switch k {
		case "t":
			return w.handle(w.M.AddTenant(w.T[h]))
		case "n":
			return w.handle(w.M.AddNamespace(w.N[h]))
		case "s":
			return w.handle(w.M.AddScope(w.S[h]))
		case "p":
			return w.handle(w.M.AddPrincipal(w.P[h]))
		case "r":
			return w.handle(w.M.AddRole(w.Ro[h]))
		case "a":
			return w.handle(w.M.AddAttribute(w.A[h]))
		}
		return w.handle(w.M.AddAttributeGroup(w.G[h]))
	})
}

func pick[T any](m map[string]T, hs []string) (out []T) {
	for _, h := range hs {
		out = append(out, m[h])
	}
	return
}

func (w *World) Regs(k string, hs []string) {
	w.R.Call(rec.Ev{"op": "regs", "k": k, "hs": hs}, func() any {
		switch k {
		case "t":
			w.M.AddTenants(pick(w.T, hs)...)
		case "n":
			w.M.AddNamespaces(pick(w.N, hs)...)
		case "s":
			w.M.AddScopes(pick(w.S, hs)...)
		case "p":
			w.M.AddPrincipals(pick(w.P, hs)...)
		case "r":
			w.M.AddRoles(pick(w.Ro, hs)...)
		case "a":
			w.M.AddAttributes(pick(w.A, hs)...)
		case "g":
			w.M.AddAttributeGroups(pick(w.G, hs)...)
		}
		return "ok"
	})
}

// Row is an assignment.
type Row struct {
	T, N, S, P, R string
	M             bool
}

func rowEv(d permission.TenantPrincipal) rec.Ev {
	return rec.Ev{"t": rec.Enc(d.TenantID), "n": rec.Enc(d.NamespaceID), "s": rec.Enc(d.ScopeID), "p": rec.Enc(d.PrincipalID), "r": rec.Enc(d.RoleID),
		"m": d.CanManageDescendants}
}

func encRow(d permission.TenantPrincipal) string {
	b, _ := json.Marshal(rowEv(d))
	return rec.Enc(string(b))
}

func (w *World) TNs(h string, hs []string) {
	w.R.Call(rec.Ev{"op": "tNs", "h": h, "hs": hs}, func() any { w.T[h].AddNamespace(pick(w.N, hs)...); return "ok" })
}

func idsOf[T interface{ ID() string }](m map[string]T, hs []string) []string {
	out := []string{}
	for _, x := range hs {
		out = append(out, rec.Enc(m[x].ID()))
	}
	return out
}

func (w *World) TRoles(h string, hs []string) {
	w.R.Call(rec.Ev{"op": "tRoles", "h": h, "ids": idsOf(w.Ro, hs)}, func() any { w.T[h].AddRole(pick(w.Ro, hs)...); return "ok" })
}

func (w *World) TScopes(h string, hs []string) {
	w.R.Call(rec.Ev{"op": "tScopes", "h": h, "ids": idsOf(w.S, hs)}, func() any { w.T[h].AddScopes(pick(w.S, hs)...); return "ok" })
}

func (w *World) NRoles(h string, hs []string) {
	w.R.Call(rec.Ev{"op": "nRoles", "h": h, "ids": idsOf(w.Ro, hs)}, func() any { w.N[h].AddRoles(pick(w.Ro, hs)...); return "ok" })
}

func (w *World) NScopes(h string, hs []string) {
	w.R.Call(rec.Ev{"op": "nScopes", "h": h, "ids": idsOf(w.S, hs)}, func() any { w.N[h].AddScopes(pick(w.S, hs)...); return "ok" })
}

func (w *World) TNsRoles(h, n string, rs []string) {
	w.R.Call(rec.Ev{"op": "tNsRoles", "h": h, "n": rec.Enc(n), "rs": rec.EncAll(rs)}, func() any { w.T[h].AddRolesToNamespace(n, rs...); return "ok" })
}

func (w *World) TNsScopes(h, n string, ss []string) {
	w.R.Call(rec.Ev{"op": "tNsScopes", "h": h, "n": rec.Enc(n), "ss": rec.EncAll(ss)}, func() any { w.T[h].AddScopesToNamespace(n, ss...); return "ok" })
}

func (w *World) TDef(h, n string) {
	w.R.Call(rec.Ev{"op": "tDef", "h": h, "n": rec.Enc(n)}, func() any { w.T[h].SetDefaultNamespace(n); return "ok" })
}

// Assign makes one assignment; n and s are handles or "". via is the tenant
// asked to make it, or "" for the manager. m is nil when not given.
func (w *World) Assign(h, p, r, n, s string, m *bool, via string) {
	nid, sid, manage := "", "", true
	if n != "" {
		nid = w.N[n].ID()
	}
	if s != "" {
		sid = w.S[s].ID()
	}
	var l []bool
	if m != nil {
		manage = *m
		l = append(l, *m)
		if len(p)%4 == 2 { // only the first counts
			l = append(l, !*m)
		}
	}
	ev := rec.Ev{"op": "assign", "h": h, "p": rec.Enc(p), "r": rec.Enc(r), "n": rec.Enc(nid), "s": rec.Enc(sid), "m": manage}
	w.R.Call(ev, func() any {
		if via == "" {
			w.M.AddPrincipalRole(p, r, w.T[h], w.N[n], w.S[s], l...)
		} else {
			w.T[via].AddPrincipalRole(p, r, w.T[h], w.N[n], w.S[s], l...)
		}
		return "ok"
	})
}

func (w *World) TAssign(h, p string, rs []string) {
	w.R.Call(rec.Ev{"op": "tAssign", "h": h, "p": rec.Enc(p), "rs": rec.EncAll(rs)}, func() any { w.T[h].AddPrincipal(p, rs...); return "ok" })
}

func (w *World) TAssignN(h, p, n string, rs []string) {
	w.R.Call(rec.Ev{"op": "tAssignN", "h": h, "p": rec.Enc(p), "n": rec.Enc(n), "rs": rec.EncAll(rs)}, func() any {
		w.T[h].AddPrincipalInNamespace(p, n, rs...)
		return "ok"
	})
}

func (w *World) TAssignS(h, p string, ss []string) {
	w.R.Call(rec.Ev{"op": "tAssignS", "h": h, "p": rec.Enc(p), "ss": rec.EncAll(ss)}, func() any { w.T[h].AssignScopesToPrincipal(p, ss...); return "ok" })
}

func (w *World) TAssignSR(h, p, r string, ss []string) {
	w.R.Call(rec.Ev{"op": "tAssignSR", "h": h, "p": rec.Enc(p), "r": rec.Enc(r), "ss": rec.EncAll(ss)}, func() any {
		w.T[h].AssignScopesWithRole(p, r, ss...)
		return "ok"
	})
}

func (w *World) TDesc(h string, hs []string) {
	w.R.Call(rec.Ev{"op": "tDesc", "h": h, "hs": hs}, func() any { return rec.Err(w.T[h].AddDescendent(pick(w.T, hs)...)) })
}

func (w *World) Lock(h string, on bool) {
	w.R.Call(rec.Ev{"op": "lock", "h": h, "on": on}, func() any {
		if on {
			w.Ro[h].Lock()
		} else {
			w.Ro[h].Unlock()
		}
		return "ok"
	})
}

func (w *World) Grant(h, g string, as []string) {
	w.R.Call(rec.Ev{"op": "grant", "h": h, "g": rec.Enc(g), "as": as}, func() any { return rec.Err(w.Ro[h].AddPermission(g, pick(w.A, as)...)) })
}

func (w *World) GrantGrp(h, g string) {
	w.R.Call(rec.Ev{"op": "grantGrp", "h": h, "g": g}, func() any { return rec.Err(w.Ro[h].AddPermissionResourceGroup(w.G[g])) })
}

func (w *World) GrantId(r, g string, as []string) {
	w.R.Call(rec.Ev{"op": "grantId", "r": rec.Enc(r), "g": rec.Enc(g), "as": as}, func() any {
		return rec.Err(w.M.AddPermissionsToRole(r, g, pick(w.A, as)...))
	})
}

func (w *World) RDesc(h string, hs []string) {
	w.R.Call(rec.Ev{"op": "rDesc", "h": h, "hs": hs}, func() any { return rec.Err(w.Ro[h].AddDescendent(pick(w.Ro, hs)...)) })
}

func (w *World) GAttrs(g string, as []string) {
	w.R.Call(rec.Ev{"op": "gAttrs", "g": g, "as": as}, func() any { w.G[g].AddAttributes(pick(w.A, as)...); return "ok" })
}

// -- queries

type Ask struct{ T, N, S, G, A Opt }

type named string

type texter struct{ s string }

func (t texter) String() string { return t.s }

// form gives a text to an option, mostly as it is: options accept any value with that text.
func (w *World) form(s string) any {
	w.forms++
	switch w.forms % 23 {
	case 3:
		return []byte(s)
	case 7:
		return texter{s}
	case 11:
		return &texter{s}
	case 15:
		return named(s)
	}
	if n, err := strconv.Atoi(s); err == nil && strconv.Itoa(n) == s && w.forms%2 == 0 {
		return n
	}
	return s
}

func (w *World) Authorize(p string, o Ask) bool {
	var res bool
	a := NIL
	if o.A.Set {
		a = w.R.Vocab("req", o.A.V)
	}
	ev := rec.Ev{"op": "authorize", "p": rec.Enc(p), "o": rec.Ev{"t": o.T.enc(), "n": o.N.enc(), "s": o.S.enc(), "g": o.G.enc(), "a": a}}
	w.R.Call(ev, func() any {
		var l []func(*permission.Option)
		if o.T.Set {
			l = append(l, permission.WithTenant(w.form(o.T.V)))
		}
		if o.A.Set {
			l = append(l, permission.WithActivity(w.form(o.A.V)))
		}
		if o.N.Set {
			l = append(l, permission.WithNamespace(w.form(o.N.V)))
		}
		if o.G.Set {
			l = append(l, permission.WithResourceGroup(w.form(o.G.V)))
		}
		if o.S.Set {
			l = append(l, permission.WithScope(w.form(o.S.V)))
		}
		res = w.M.Authorize(p, l...)
		return res
	})
	return res
}

// keep checks a result returned earlier, and keeps or spoils this one.
func keep[T any](w *World, l []T, enc func(T) string, junk T) {
	if !w.Scrib {
		return
	}
	w.again()
	if len(w.kept) < 4 && len(l)%2 == 1 {
		read := func() []string {
			out := []string{}
			for _, x := range l {
				out = append(out, enc(x))
			}
			return out
		}
		w.kept = append(w.kept, kept{read, read()})
		return
	}
	for i := range l {
		l[i] = junk
	}
	l = append(l, junk, junk)
	_ = l
}

func (w *World) again() {
	if len(w.kept) > 2 {
		k := w.kept[0]
		w.kept = w.kept[1:]
		w.R.Call(rec.Ev{"op": "held", "was": k.was}, func() any { return k.read() })
	}
}

func (w *World) list(ev rec.Ev, f func() []permission.TenantPrincipal) {
	var l []permission.TenantPrincipal
	w.R.Call(ev, func() any {
		l = f()
		out := []rec.Ev{}
		for _, d := range l {
			out = append(out, rowEv(d))
		}
		return out
	})
	keep(w, l, encRow, permission.TenantPrincipal{TenantID: "spoiled", PrincipalID: "spoiled"})
}

func (w *World) OfPrincipal(t, p string) {
	w.list(rec.Ev{"op": "ofPrincipal", "t": rec.Enc(t), "p": rec.Enc(p)}, func() []permission.TenantPrincipal { return w.M.GetPrincipalRoles(t, p) })
}

func (w *World) OfTenant(t string, other bool) {
	w.list(rec.Ev{"op": "ofTenant", "t": rec.Enc(t)}, func() []permission.TenantPrincipal {
		if other {
			return w.M.GetPrincipalRolesByTenant(t)
		}
		return w.M.GetTenantRoles(t)
	})
}

func (w *World) ImplicitRows(t, p string) {
	w.list(rec.Ev{"op": "implicitRows", "t": rec.Enc(t), "p": rec.Enc(p)}, func() []permission.TenantPrincipal { return w.M.GetImplicitPrincipalRoles(t, p) })
}

func (w *World) PermsFor(t, p string) {
	var l []permission.PrincipalPermissions
	w.R.Call(rec.Ev{"op": "permsFor", "t": rec.Enc(t), "p": rec.Enc(p)}, func() any {
		l = w.M.GetPermissionsForPrincipal(t, p)
		out := []rec.Ev{}
		for _, d := range l {
			out = append(out, rec.Ev{"row": rowEv(d.TenantPrincipal), "gs": w.groups(d.Permissions)})
		}
		return out
	})
	for _, d := range l {
		w.spoilGroups(d.Permissions)
	}
}

func (w *World) strings(l []string) { keep(w, l, rec.Enc, "spoiled") }

func (w *World) TenantsFor(p string) {
	var l []string
	w.R.Call(rec.Ev{"op": "tenantsFor", "p": rec.Enc(p)}, func() any {
		var err error
		if l, err = w.M.GetTenantsForPrincipal(p); err != nil {
			return []string{"\\err"}
		}
		return rec.EncAll(l)
	})
	w.strings(l)
}

func (w *World) RolePerms(r string) {
	var m map[string][]permission.Attribute
	w.R.Call(rec.Ev{"op": "rolePerms", "r": rec.Enc(r)}, func() any {
		var err error
		m, err = w.M.GetRolePermissions(r)
		return rec.Ev{"err": err != nil, "gs": w.groups(m)}
	})
	w.spoilGroups(m)
}

func (w *World) ScopesFor(p string) {
	var l []string
	w.R.Call(rec.Ev{"op": "scopesFor", "p": rec.Enc(p)}, func() any {
		var err error
		l, err = w.M.GetScopesForPrincipal(p)
		return rec.Ev{"err": err != nil, "ss": rec.EncAll(l)}
	})
	w.strings(l)
}

func (w *World) TenantScopesFor(t, p string) {
	var l []string
	w.R.Call(rec.Ev{"op": "tenantScopesFor", "t": rec.Enc(t), "p": rec.Enc(p)}, func() any {
		var err error
		l, err = w.M.GetTenantScopesForPrincipal(t, p)
		return rec.Ev{"err": err != nil, "ss": rec.EncAll(l)}
	})
	w.strings(l)
}

func (w *World) Allowed(t, p, n, s string) {
	var l []string
	w.R.Call(rec.Ev{"op": "allowed", "t": rec.Enc(t), "p": rec.Enc(p), "n": rec.Enc(n), "s": rec.Enc(s)}, func() any {
		l = w.M.GetAllowedRoles(w.M.GetPrincipalRoles(t, p), n, s)
		return rec.EncAll(l)
	})
	w.strings(l)
}

func (w *World) Below(h string) {
	var l []*permission.Tenant
	w.R.Call(rec.Ev{"op": "below", "h": h}, func() any {
		l = w.T[h].GetDescendantTenants()
		out := []string{}
		for _, t := range l {
			out = append(out, w.handle(t))
		}
		return out
	})
	keep(w, l, func(t *permission.Tenant) string { return w.handle(t) }, nil)
}

func (w *World) RolesBelow(h string) {
	var l []*permission.Role
	w.R.Call(rec.Ev{"op": "rolesBelow", "h": h}, func() any {
		l = w.Ro[h].GetDescendantRoles()
		out := []string{}
		for _, r := range l {
			out = append(out, w.handle(r))
		}
		return out
	})
	keep(w, l, func(r *permission.Role) string { return w.handle(r) }, nil)
}

func (w *World) Has(h, g, a string, allowed []string) {
	w.R.Call(rec.Ev{"op": "has", "h": h, "g": rec.Enc(g), "a": w.R.Vocab("req", a), "allowed": rec.EncAll(allowed)}, func() any {
		return w.Ro[h].Has(g, a, allowed...)
	})
}

func (w *World) groups(m map[string][]permission.Attribute) []rec.Ev {
	out := []rec.Ev{}
	for g, l := range m {
		as := []string{}
		for _, a := range l {
			as = append(as, w.pair(a))
		}
		out = append(out, rec.Ev{"g": rec.Enc(g), "as": as})
	}
	return out
}

func (w *World) spoilGroups(m map[string][]permission.Attribute) {
	if !w.Scrib || m == nil {
		return
	}
	w.again()
	read := func() []string {
		out := []string{}
		for g, l := range m {
			s := []string{}
			for _, a := range l {
				s = append(s, w.pair(a))
			}
			sort.Strings(s)
			out = append(out, rec.Enc(g)+fmt.Sprint(s))
		}
		return out
	}
	if len(w.kept) < 4 && len(m)%2 == 1 {
		w.kept = append(w.kept, kept{read, read()})
		return
	}
	for g, l := range m {
		for i := range l {
			l[i] = *permission.NewAttribute("*", "*")
		}
		m[g] = append(l, *permission.NewAttribute("spoiled", "spoiled"))
	}
	m["spoiled"] = nil
}

func (w *World) Perms(h string) {
	var m map[string][]permission.Attribute
	w.R.Call(rec.Ev{"op": "perms", "h": h}, func() any { m = w.Ro[h].GetPermissions(); return w.groups(m) })
	w.spoilGroups(m)
}

func (w *World) ImplicitPerms(h string, own bool) {
	var m map[string][]permission.Attribute
	w.R.Call(rec.Ev{"op": "implicitPerms", "h": h}, func() any {
		if own {
			m = map[string][]permission.Attribute{}
			w.Ro[h].GetAllImplicitPermissions(m)
		} else {
			m = w.Ro[h].GetAllImplicitPermissions()
		}
		return w.groups(m)
	})
	w.spoilGroups(m)
}

// CollectPerms collects the permissions of several roles in one map.
func (w *World) CollectPerms(hs []string) {
	m := map[string][]permission.Attribute{}
	w.R.Call(rec.Ev{"op": "collectPerms", "hs": hs}, func() any {
		for _, h := range hs {
			w.Ro[h].GetAllImplicitPermissions(m)
		}
		return w.groups(m)
	})
	w.spoilGroups(m)
}

func (w *World) GroupPerms(h, g string) {
	var l []*permission.Attribute
	w.R.Call(rec.Ev{"op": "groupPerms", "h": h, "g": rec.Enc(g)}, func() any {
		l = w.Ro[h].GetResourceGroupPermissions(g)
		out := []string{}
		for _, a := range l {
			out = append(out, w.pair(*a))
		}
		return out
	})
	keep(w, l, func(a *permission.Attribute) string { return w.pair(*a) }, permission.NewAttribute("*", "*"))
}

func (w *World) Get(k, id string) {
	w.R.Call(rec.Ev{"op": "get", "k": k, "id": rec.Enc(id)}, func() any {
		var x any
		var ok bool
		switch k {
		case "t":
			x, ok = w.M.GetTenant(id)
		case "n":
			x, ok = w.M.GetNamespace(id)
		case "s":
			x, ok = w.M.GetScope(id)
		case "p":
			x, ok = w.M.GetPrincipal(id)
		case "r":
			x, ok = w.M.GetRole(id)
		case "a":
			x, ok = w.M.GetAttribute(id)
		case "g":
			x, ok = w.M.GetAttributeGroup(id)
		}
		if !ok {
			return "none"
		}
		return w.handle(x)
	})
}

func (w *World) List(k string) {
	var l []string
	w.R.Call(rec.Ev{"op": "list", "k": k}, func() any {
		switch k {
		case "t":
			l = w.M.Tenants()
		case "n":
			l = w.M.Namespaces()
		case "s":
			l = w.M.Scopes()
		case "p":
			l = w.M.Principals()
		case "r":
			l = w.M.Roles()
		case "a":
			l = w.M.Attributes()
		}
		return rec.EncAll(l)
	})
	keep(w, l, rec.Enc, "spoiled")
}

var names = []string{"tenants", "namespaces", "scopes", "principals", "roles", "attributes", "attribute_groups"}

func (w *World) Totals(how int) {
	w.R.Call(rec.Ev{"op": "totals"}, func() any {
		out := rec.Ev{}
		switch how % 4 {
		case 0:
			s := w.M.Summary()
			for i, v := range []uintptr{s.Tenants, s.Namespaces, s.Scopes, s.Principals, s.Roles, s.Attributes, s.AttributeGroups} {
				out[names[i]] = v
			}
		case 1:
			m := w.M.SummaryMap()
			for k, v := range m {
				out[k] = v
			}
			if w.Scrib {
				clear(m)
				m["tenants"] = -1
			}
		case 2:
			var m map[string]int
			if json.Unmarshal([]byte(w.M.String()), &m) != nil {
				return "not JSON"
			}
			for k, v := range m {
				out[k] = v
			}
		case 3:
			for i, v := range []uintptr{w.M.TotalTenants(), w.M.TotalNamespaces(), w.M.TotalScopes(), w.M.TotalPrincipals(), w.M.TotalRoles(),
				w.M.TotalAttributes(), w.M.TotalAttributeGroups()} {
				out[names[i]] = v
			}
		}
		return out
	})
}
