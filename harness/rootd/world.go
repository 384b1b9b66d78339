// Package rootd drives the root package and records what it does, for
// TraceRoot.tla and for the behaviours generated from MC_Root*.tla.
package rootd

import (
	"encoding/json"
	"fmt"
	"sort"
	"unicode/utf8"

	permission "github.com/oarkflow/permission"

	"verifharness/rec"
)

const NIL = "\\-"

// Opt is a value that may be absent.
type Opt struct {
	Set bool
	V   string
}

func Some(s string) Opt { return Opt{true, s} }

func (o Opt) enc() string {
	if !o.Set {
		return NIL
	}
	return rec.Enc(o.V)
}

func (o Opt) any() any {
	if !o.Set {
		return nil
	}
	return o.V
}

type World struct {
	R     *rec.Rec
	M     *permission.RoleManager
	T     map[string]*permission.Tenant
	N     map[string]*permission.Namespace
	S     map[string]*permission.Scope
	P     map[string]*permission.Principal
	Ro    map[string]*permission.Role
	A     map[string]*permission.Attribute
	G     map[string]*permission.AttributeGroup
	hof   map[any]string
	kept  []kept
	Scrib bool
}

type kept struct {
	read func() []string
	was  []string
}

func NewWorld(r *rec.Rec) *World {
	return &World{R: r, M: permission.New(), T: map[string]*permission.Tenant{}, N: map[string]*permission.Namespace{}, S: map[string]*permission.Scope{},
		P: map[string]*permission.Principal{}, Ro: map[string]*permission.Role{}, A: map[string]*permission.Attribute{},
		G: map[string]*permission.AttributeGroup{}, hof: map[any]string{}}
}

func (w *World) handle(x any) string {
	if h, ok := w.hof[x]; ok {
		return h
	}
	return "unknown object"
}

// New makes an object of kind t, n, s, p, r or g.
func (w *World) New(k, h, id string) {
	w.R.Call(rec.Ev{"op": "new", "k": k, "h": h, "id": rec.Enc(id)}, func() any {
		switch k {
		case "t":
			w.T[h] = permission.NewTenant(id)
			w.hof[w.T[h]] = h
		case "n":
			w.N[h] = permission.NewNamespace(id)
			w.hof[w.N[h]] = h
		case "s":
			w.S[h] = permission.NewScope(id)
			w.hof[w.S[h]] = h
		case "p":
			w.P[h] = permission.NewPrincipal(id)
			w.hof[w.P[h]] = h
		case "r":
			w.Ro[h] = permission.NewRole(id)
			w.hof[w.Ro[h]] = h
		case "g":
			w.G[h] = permission.NewAttributeGroup(id)
			w.hof[w.G[h]] = h
		}
		got := id
		switch k {
		case "t":
			got = w.T[h].ID()
		case "n":
			got = w.N[h].ID()
		case "s":
			got = w.S[h].ID()
		case "p":
			got = w.P[h].ID()
		case "r":
			got = w.Ro[h].ID()
		}
		if got != id {
			return "id " + rec.Enc(got)
		}
		return "ok"
	})
}

func (w *World) pair(a permission.Attribute) string {
	// the resource and action are not exported: a delimiter tells them apart
	return rec.Enc(a.String("##"))
}

func (w *World) NewAttr(h, res, act string) {
	w.R.Call(rec.Ev{"op": "newAttr", "h": h, "key": w.R.Vocab("perm", res+" "+act), "pair": rec.Enc(res + "##" + act)}, func() any {
		a := permission.NewAttribute(res, act)
		if len(h)%2 == 0 {
			if l := permission.NewAttributes(res, act, act); len(l) == 2 {
				a = l[1]
			}
		}
		w.A[h] = a
		w.hof[a] = h
		if a.String() != res+" "+act {
			return "text " + rec.Enc(a.String())
		}
		return "ok"
	})
}

func (w *World) Reg(k, h string) {
	w.R.Call(rec.Ev{"op": "reg", "k": k, "h": h}, func() any {
		switch k {
		case "t":
			return w.handle(w.M.AddTenant(w.T[h]))
		case "n":
			return w.handle(w.M.AddNamespace(w.N[h]))
		case "s":
			return w.handle(w.M.AddScope(w.S[h]))
		case "p":
			return w.handle(w.M.AddPrincipal(w.P[h]))
		case "r":
			return w.handle(w.M.AddRole(w.Ro[h]))
		case "a":
			return w.handle(w.M.AddAttribute(w.A[h]))
		}
		return w.handle(w.M.AddAttributeGroup(w.G[h]))
	})
}

func pick[T any](m map[string]T, hs []string) (out []T) {
	for _, h := range hs {
		out = append(out, m[h])
	}
	return
}

func (w *World) Regs(k string, hs []string) {
	w.R.Call(rec.Ev{"op": "regs", "k": k, "hs": hs}, func() any {
		switch k {
		case "t":
			w.M.AddTenants(pick(w.T, hs)...)
		case "n":
			w.M.AddNamespaces(pick(w.N, hs)...)
		case "s":
			w.M.AddScopes(pick(w.S, hs)...)
		case "p":
			w.M.AddPrincipals(pick(w.P, hs)...)
		case "r":
			w.M.AddRoles(pick(w.Ro, hs)...)
		case "a":
			w.M.AddAttributes(pick(w.A, hs)...)
		case "g":
			w.M.AddAttributeGroups(pick(w.G, hs)...)
		}
		return "ok"
	})
}

// Row is a record; M is absent, "true" or "false".
type Row struct{ T, N, S, P, R, M Opt }

func (r Row) ev() rec.Ev {
	return rec.Ev{"t": r.T.enc(), "n": r.N.enc(), "s": r.S.enc(), "p": r.P.enc(), "r": r.R.enc(), "m": r.M.enc()}
}

func (r Row) data() *permission.Data {
	d := &permission.Data{Tenant: r.T.any(), Namespace: r.N.any(), Scope: r.S.any(), Principal: r.P.any(), Role: r.R.any()}
	if r.M.Set {
		d.ManageDescendants = r.M.V == "true"
	}
	return d
}

func field(v any) string {
	switch x := v.(type) {
	case nil:
		return NIL
	case string:
		return rec.Enc(x)
	case bool:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("\\%T %v", v, v)
}

func rowEv(d *permission.Data) rec.Ev {
	if d == nil {
		return rec.Ev{"t": "\\nil record"}
	}
	return rec.Ev{"t": field(d.Tenant), "n": field(d.Namespace), "s": field(d.Scope), "p": field(d.Principal), "r": field(d.Role), "m": field(d.ManageDescendants)}
}

func (w *World) Data(r Row) {
	w.R.Call(rec.Ev{"op": "data", "row": r.ev()}, func() any { w.M.AddData(r.data()); return "ok" })
}

func (w *World) TNs(h string, hs []string) {
	ids := []string{}
	for _, x := range hs {
		ids = append(ids, rec.Enc(w.N[x].ID()))
	}
	w.R.Call(rec.Ev{"op": "tNs", "h": h, "ids": ids}, func() any {
		if len(hs) == 1 {
			if w.T[h].AddNamespace(w.N[hs[0]]) != w.N[hs[0]] {
				return "other object returned"
			}
		} else {
			w.T[h].AddNamespaces(pick(w.N, hs)...)
		}
		return "ok"
	})
}

func (w *World) TRoles(h string, hs []string) {
	ids := []string{}
	for _, x := range hs {
		ids = append(ids, rec.Enc(w.Ro[x].ID()))
	}
	w.R.Call(rec.Ev{"op": "tRoles", "h": h, "ids": ids}, func() any {
		if len(hs) == 1 {
			if w.T[h].AddRole(w.Ro[hs[0]]) != w.Ro[hs[0]] {
				return "other object returned"
			}
		} else {
			w.T[h].AddRoles(pick(w.Ro, hs)...)
		}
		return "ok"
	})
}

func (w *World) TScopes(h string, hs []string) {
	ids := []string{}
	for _, x := range hs {
		ids = append(ids, rec.Enc(w.S[x].ID()))
	}
	w.R.Call(rec.Ev{"op": "tScopes", "h": h, "ids": ids}, func() any {
		if len(hs) == 1 {
			if w.T[h].AddScope(w.S[hs[0]]) != w.S[hs[0]] {
				return "other object returned"
			}
		} else {
			w.T[h].AddScopes(pick(w.S, hs)...)
		}
		return "ok"
	})
}

func (w *World) TNsScope(h, n, s string) {
	w.R.Call(rec.Ev{"op": "tNsScope", "h": h, "n": rec.Enc(n), "s": rec.Enc(s)}, func() any { w.T[h].AddScopesToNamespace(n, s); return "ok" })
}

func (w *World) TPrNs(h, p, n, r string) {
	w.R.Call(rec.Ev{"op": "tPrNs", "h": h, "p": rec.Enc(p), "n": rec.Enc(n), "r": rec.Enc(r)}, func() any {
		w.T[h].AddPrincipalInNamespace(p, n, r)
		return "ok"
	})
}

func (w *World) TDef(h, n string) {
	w.R.Call(rec.Ev{"op": "tDef", "h": h, "n": rec.Enc(n)}, func() any { w.T[h].SetDefaultNamespace(n); return "ok" })
}

func (w *World) TAssign(h, p string, rs []string, m bool) {
	w.R.Call(rec.Ev{"op": "tAssign", "h": h, "p": rec.Enc(p), "rs": rec.EncAll(rs), "m": fmt.Sprint(m)}, func() any {
		if len(rs) == 1 {
			return rec.Err(w.T[h].AddPrincipalWithRole(p, rs[0], m))
		}
		return rec.Err(w.T[h].AddPrincipal(p, m, rs...))
	})
}

func (w *World) TAssignS(h, p string, ss []string, m bool) {
	w.R.Call(rec.Ev{"op": "tAssignS", "h": h, "p": rec.Enc(p), "ss": rec.EncAll(ss), "m": fmt.Sprint(m)}, func() any {
		if len(ss) == 1 {
			return rec.Err(w.T[h].AddScopeToPrincipal(p, ss[0], m))
		}
		return rec.Err(w.T[h].AssignScopesToPrincipal(p, m, ss...))
	})
}

func (w *World) TDesc(h string, hs []string) {
	w.R.Call(rec.Ev{"op": "tDesc", "h": h, "hs": hs}, func() any { return rec.Err(w.T[h].AddDescendant(pick(w.T, hs)...)) })
}

func (w *World) Lock(h string, on bool) {
	w.R.Call(rec.Ev{"op": "lock", "h": h, "on": on}, func() any {
		if on {
			w.Ro[h].Lock()
		} else {
			w.Ro[h].Unlock()
		}
		return "ok"
	})
}

func (w *World) Grant(h, g string, as []string) {
	w.R.Call(rec.Ev{"op": "grant", "h": h, "g": rec.Enc(g), "as": as}, func() any { return rec.Err(w.Ro[h].AddPermission(g, pick(w.A, as)...)) })
}

func (w *World) GrantGrp(h, g string) {
	w.R.Call(rec.Ev{"op": "grantGrp", "h": h, "g": g}, func() any { return rec.Err(w.Ro[h].AddPermissionResourceGroup(w.G[g])) })
}

func (w *World) GrantId(r, g string, as []string) {
	w.R.Call(rec.Ev{"op": "grantId", "r": rec.Enc(r), "g": rec.Enc(g), "as": as}, func() any {
		return rec.Err(w.M.AddPermissionsToRole(r, g, pick(w.A, as)...))
	})
}

func (w *World) RDesc(h string, hs []string) {
	w.R.Call(rec.Ev{"op": "rDesc", "h": h, "hs": hs}, func() any { return rec.Err(w.Ro[h].AddDescendant(pick(w.Ro, hs)...)) })
}

func (w *World) GAttrs(g string, as []string) {
	w.R.Call(rec.Ev{"op": "gAttrs", "g": g, "as": as}, func() any { w.G[g].AddAttributes(pick(w.A, as)...); return "ok" })
}

// -- queries

type Ask struct{ T, N, S, G, A Opt }

func (w *World) Authorize(p string, o Ask) bool {
	var res bool
	a := NIL
	if o.A.Set {
		a = w.R.Vocab("req", o.A.V)
	}
	ev := rec.Ev{"op": "authorize", "p": rec.Enc(p), "o": rec.Ev{"t": o.T.enc(), "n": o.N.enc(), "s": o.S.enc(), "g": o.G.enc(), "a": a}}
	w.R.Call(ev, func() any {
		var l []func(*permission.Option)
		if o.T.Set {
			l = append(l, permission.WithTenant(o.T.V))
		}
		if o.A.Set {
			l = append(l, permission.WithActivity(o.A.V))
		}
		if o.N.Set {
			l = append(l, permission.WithNamespace(o.N.V))
		}
		if o.G.Set {
			l = append(l, permission.WithAttributeGroup(o.G.V))
		}
		if o.S.Set {
			l = append(l, permission.WithScope(o.S.V))
		}
		res = w.M.Authorize(p, l...)
		return res
	})
	return res
}

// keep checks a result returned earlier, and keeps or spoils this one.
func keep[T any](w *World, l []T, enc func(T) string, junk T) {
	if !w.Scrib {
		return
	}
	w.again()
	if len(w.kept) < 4 && len(l)%2 == 1 {
		read := func() []string {
			out := []string{}
			for _, x := range l {
				out = append(out, enc(x))
			}
			return out
		}
		w.kept = append(w.kept, kept{read, read()})
		return
	}
	for i := range l {
		l[i] = junk
	}
	l = append(l, junk, junk)
	_ = l
}

func (w *World) again() {
	if len(w.kept) > 2 {
		k := w.kept[0]
		w.kept = w.kept[1:]
		w.R.Call(rec.Ev{"op": "held", "was": k.was}, func() any { return k.read() })
	}
}

func encAny(v any) string { return field(v) }

func encData(d *permission.Data) string { b, _ := json.Marshal(rowEv(d)); return rec.Enc(string(b)) }

// Rows asks one of the queries that return records.
func (w *World) Rows(f string, p, t, n, s, r, m Opt) {
	var l []*permission.Data
	ev := rec.Ev{"op": "rows", "f": f, "p": p.enc(), "t": t.enc(), "n": n.enc(), "s": s.enc(), "r": r.enc(), "m": m.enc()}
	w.R.Call(ev, func() any {
		l = w.rows(f, p, t, n, s, r, m)
		out := []rec.Ev{}
		for _, d := range l {
			out = append(out, rowEv(d))
		}
		return out
	})
	keep(w, l, encData, &permission.Data{Tenant: "spoiled"})
}

func (w *World) rows(f string, p, t, n, s, r, m Opt) []*permission.Data {
	switch f {
	case "GetTenants":
		return w.M.GetTenants(p.any())
	case "GetScopesByPrincipal":
		return w.M.GetScopesByPrincipal(p.any())
	case "GetRolesByTenant":
		return w.M.GetRolesByTenant(t.any())
	case "GetNamespacesByTenant":
		return w.M.GetNamespacesByTenant(t.any())
	case "GetNamespaceByTenant":
		return w.M.GetNamespaceByTenant(t.any())
	case "GetScopesByTenant":
		return w.M.GetScopesByTenant(t.any())
	case "GetNamespacesByPrincipal":
		return w.M.GetNamespacesByPrincipal(p.any())
	case "GetNamespacesForPrincipalByTenant":
		return w.M.GetNamespacesForPrincipalByTenant(p.any(), t.any())
	case "GetNamespaceForPrincipalByTenant":
		return w.M.GetNamespaceForPrincipalByTenant(p.any(), t.any())
	case "GetScopesForPrincipalByTenant":
		return w.M.GetScopesForPrincipalByTenant(p.any(), t.any())
	case "GetScopeForPrincipalByNamespace":
		return w.M.GetScopeForPrincipalByNamespace(p.any(), n.any())
	case "GetScopesForPrincipalByTenantAndNamespace":
		return w.M.GetScopesForPrincipalByTenantAndNamespace(p.any(), t.any(), n.any())
	case "GetRolesForPrincipalByTenantNamespaceAndScope":
		return w.M.GetRolesForPrincipalByTenantNamespaceAndScope(p.any(), t.any(), n.any(), s.any())
	case "GetRolesForPrincipalByTenantAndNamespace":
		return w.M.GetRolesForPrincipalByTenantAndNamespace(p.any(), t.any(), n.any())
	case "GetRolesForPrincipalByTenantAndScope":
		return w.M.GetRolesForPrincipalByTenantAndScope(p.any(), t.any(), s.any())
	case "Data":
		return w.M.Data().Data()
	case "AsString":
		all := w.M.Data().Data()
		for _, d := range all { // JSON has no way to write other bytes
			for _, v := range []any{d.Tenant, d.Namespace, d.Scope, d.Principal, d.Role} {
				if x, ok := v.(string); ok && !utf8.ValidString(x) {
					return all
				}
			}
		}
		var l []*permission.Data
		if err := json.Unmarshal([]byte(w.M.AsString()), &l); err != nil {
			panic(err)
		}
		return l
	case "Search":
		return w.M.Source().Search((Row{t, n, s, p, r, m}).data())
	}
	panic("unknown query " + f)
}

var RowQueries = []string{"GetTenants", "GetScopesByPrincipal", "GetRolesByTenant", "GetNamespacesByTenant", "GetNamespaceByTenant", "GetScopesByTenant",
	"GetNamespacesByPrincipal", "GetNamespacesForPrincipalByTenant", "GetNamespaceForPrincipalByTenant", "GetScopesForPrincipalByTenant",
	"GetScopeForPrincipalByNamespace", "GetScopesForPrincipalByTenantAndNamespace", "GetRolesForPrincipalByTenantNamespaceAndScope",
	"GetRolesForPrincipalByTenantAndNamespace", "GetRolesForPrincipalByTenantAndScope", "Data", "AsString", "Search"}

// Ids asks for one column of such a query.
func (w *World) Ids(f, k string, p, t, n, s, r, m Opt) {
	var l []any
	ev := rec.Ev{"op": "ids", "f": f, "k": k, "p": p.enc(), "t": t.enc(), "n": n.enc(), "s": s.enc(), "r": r.enc(), "m": m.enc()}
	w.R.Call(ev, func() any {
		rows := w.rows(f, p, t, n, s, r, m)
		switch k {
		case "t":
			l = permission.GetTenantIDs(rows)
		case "p":
			l = permission.GetPrincipalIDs(rows)
		case "r":
			l = permission.GetRoleIDs(rows)
		case "n":
			l = permission.GetNamespaceIDs(rows)
		case "s":
			l = permission.GetScopeIDs(rows)
		}
		return anys(l)
	})
	keep(w, l, encAny, any("spoiled"))
}

func anys(l []any) []string {
	out := []string{}
	for _, x := range l {
		out = append(out, field(x))
	}
	return out
}

func (w *World) TenantsBy(p Opt) {
	var l []any
	w.R.Call(rec.Ev{"op": "tenantsBy", "p": p.enc()}, func() any { l = w.M.GetTenantsByPrincipal(p.any()); return anys(l) })
	keep(w, l, encAny, any("spoiled"))
}

func (w *World) Implicit(p string) {
	var m map[string]struct{}
	w.R.Call(rec.Ev{"op": "implicit", "p": rec.Enc(p)}, func() any { m = w.M.GetImplicitTenants(p); return rec.EncKeys(m) })
	if w.Scrib && m != nil {
		w.again()
		if len(w.kept) < 4 && len(m)%2 == 1 {
			w.kept = append(w.kept, kept{func() []string { return rec.EncKeys(m) }, rec.EncKeys(m)})
		} else {
			clear(m)
			m["spoiled"] = struct{}{}
		}
	}
}

func (w *World) Children(t string, other bool) {
	var l []any
	w.R.Call(rec.Ev{"op": "children", "t": rec.Enc(t)}, func() any {
		if other {
			l = w.M.GetDescendantTenant(t)
		} else {
			l = w.M.TenantChildren(t)
		}
		return anys(l)
	})
	keep(w, l, encAny, any("spoiled"))
}

func (w *World) Below(h string) {
	var l []any
	w.R.Call(rec.Ev{"op": "below", "h": h}, func() any { l = w.T[h].GetDescendants(); return anys(l) })
	keep(w, l, encAny, any("spoiled"))
}

func (w *World) RolesBelow(h string) {
	var l []*permission.Role
	w.R.Call(rec.Ev{"op": "rolesBelow", "h": h}, func() any {
		l = w.Ro[h].GetDescendantRoles()
		out := []string{}
		for _, r := range l {
			out = append(out, w.handle(r))
		}
		return out
	})
	keep(w, l, func(r *permission.Role) string { return w.handle(r) }, nil)
}

func (w *World) Has(h, g, a string, allowed []string) {
	w.R.Call(rec.Ev{"op": "has", "h": h, "g": rec.Enc(g), "a": w.R.Vocab("req", a), "allowed": rec.EncAll(allowed)}, func() any {
		return w.Ro[h].Has(g, a, allowed...)
	})
}

func (w *World) groups(m map[string][]permission.Attribute) []rec.Ev {
	out := []rec.Ev{}
	for g, l := range m {
		as := []string{}
		for _, a := range l {
			as = append(as, w.pair(a))
		}
		out = append(out, rec.Ev{"g": rec.Enc(g), "as": as})
	}
	return out
}

func (w *World) spoilGroups(m map[string][]permission.Attribute) {
	if !w.Scrib || m == nil {
		return
	}
	w.again()
	read := func() []string {
		out := []string{}
		for g, l := range m {
			s := []string{}
			for _, a := range l {
				s = append(s, w.pair(a))
			}
			sort.Strings(s)
			out = append(out, rec.Enc(g)+fmt.Sprint(s))
		}
		return out
	}
	if len(w.kept) < 4 && len(m)%2 == 1 {
		w.kept = append(w.kept, kept{read, read()})
		return
	}
	for g, l := range m {
		for i := range l {
			l[i] = *permission.NewAttribute("*", "*")
		}
		m[g] = append(l, *permission.NewAttribute("spoiled", "spoiled"))
	}
	m["spoiled"] = nil
}

func (w *World) Perms(h string) {
	var m map[string][]permission.Attribute
	w.R.Call(rec.Ev{"op": "perms", "h": h}, func() any { m = w.Ro[h].GetPermissions(); return w.groups(m) })
	w.spoilGroups(m)
}

func (w *World) ImplicitPerms(h string, own bool) {
	var m map[string][]permission.Attribute
	w.R.Call(rec.Ev{"op": "implicitPerms", "h": h}, func() any {
		if own {
			m = map[string][]permission.Attribute{}
			w.Ro[h].GetAllImplicitPermissions(m)
		} else {
			m = w.Ro[h].GetAllImplicitPermissions()
		}
		return w.groups(m)
	})
	w.spoilGroups(m)
}

// CollectPerms collects the permissions of several roles in one map.
func (w *World) CollectPerms(hs []string) {
	m := map[string][]permission.Attribute{}
	w.R.Call(rec.Ev{"op": "collectPerms", "hs": hs}, func() any {
		for _, h := range hs {
			w.Ro[h].GetAllImplicitPermissions(m)
		}
		return w.groups(m)
	})
	w.spoilGroups(m)
}

func (w *World) GroupPerms(h, g string) {
	var l []*permission.Attribute
	w.R.Call(rec.Ev{"op": "groupPerms", "h": h, "g": rec.Enc(g)}, func() any {
		l = w.Ro[h].GetResourceGroupPermissions(g)
		out := []string{}
		for _, a := range l {
			out = append(out, w.pair(*a))
		}
		return out
	})
	keep(w, l, func(a *permission.Attribute) string { return w.pair(*a) }, permission.NewAttribute("*", "*"))
}

func (w *World) Available() {
	var m map[string][]permission.AttributeResponse
	w.R.Call(rec.Ev{"op": "available"}, func() any {
		m = w.M.GetRolesForAvailablePermissions()
		out := []rec.Ev{}
		for g, l := range m {
			for _, x := range l {
				out = append(out, rec.Ev{"g": rec.Enc(g), "a": w.pair(x.Attribute), "rs": rec.EncAll(x.Roles)})
			}
		}
		return out
	})
	if w.Scrib {
		for g, l := range m {
			for i := range l {
				for k := range l[i].Roles {
					l[i].Roles[k] = "spoiled"
				}
			}
			m[g] = nil
		}
	}
}

func (w *World) ScopesRoles(p, t string, n Opt) {
	var l []permission.ScopeRoles
	w.R.Call(rec.Ev{"op": "scopesRoles", "p": rec.Enc(p), "t": rec.Enc(t), "n": n.enc()}, func() any {
		l = w.M.GetScopesWithRolesForPrincipal(p, t, n.any())
		out := []rec.Ev{}
		for _, x := range l {
			out = append(out, rec.Ev{"s": field(x.Scope), "rs": anys(x.Roles)})
		}
		return out
	})
	if w.Scrib {
		for i := range l {
			for k := range l[i].Roles {
				l[i].Roles[k] = "spoiled"
			}
			l[i].Scope = "spoiled"
		}
	}
}

func (w *World) Get(k, id string) {
	w.R.Call(rec.Ev{"op": "get", "k": k, "id": rec.Enc(id)}, func() any {
		var x any
		var ok bool
		switch k {
		case "t":
			x, ok = w.M.GetTenant(id)
		case "n":
			x, ok = w.M.GetNamespace(id)
		case "s":
			x, ok = w.M.GetScope(id)
		case "p":
			x, ok = w.M.GetPrincipal(id)
		case "r":
			x, ok = w.M.GetRole(id)
		case "a":
			x, ok = w.M.GetAttribute(id)
		case "g":
			x, ok = w.M.GetAttributeGroup(id)
		}
		if !ok {
			return "none"
		}
		return w.handle(x)
	})
}

func (w *World) List(k string) {
	var l []string
	w.R.Call(rec.Ev{"op": "list", "k": k}, func() any {
		switch k {
		case "t":
			l = w.M.Tenants()
		case "n":
			l = w.M.Namespaces()
		case "s":
			l = w.M.Scopes()
		case "p":
			l = w.M.Principals()
		case "r":
			l = w.M.Roles()
		case "a":
			l = w.M.Attributes()
		}
		return rec.EncAll(l)
	})
	keep(w, l, rec.Enc, "spoiled")
}

var names = []string{"tenants", "namespaces", "scopes", "principals", "roles", "attributes", "attribute_groups"}

func (w *World) Totals(how int) {
	w.R.Call(rec.Ev{"op": "totals"}, func() any {
		out := rec.Ev{}
		switch how % 4 {
		case 0:
			s := w.M.Summary()
			for i, v := range []int{s.Tenants, s.Namespaces, s.Scopes, s.Principals, s.Roles, s.Attributes, s.AttributeGroups} {
				out[names[i]] = v
			}
		case 1:
			m := w.M.SummaryMap()
			for k, v := range m {
				out[k] = v
			}
			if w.Scrib {
				clear(m)
				m["tenants"] = -1
			}
		case 2:
			var m map[string]int
			if json.Unmarshal([]byte(w.M.String()), &m) != nil {
				return "not JSON"
			}
			for k, v := range m {
				out[k] = v
			}
		case 3:
			for i, v := range []int{w.M.TotalTenants(), w.M.TotalNamespaces(), w.M.TotalScopes(), w.M.TotalPrincipals(), w.M.TotalRoles(),
				w.M.TotalAttributes(), w.M.TotalAttributeGroups()} {
				out[names[i]] = v
			}
		}
		return out
	})
}
