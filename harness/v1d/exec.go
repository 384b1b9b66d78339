package v1d

import (
	"encoding/json"
	"strings"

	"verifharness/rec"
	"verifharness/replay"
)

func opt(e replay.M, k string) Opt {
	s, ok := e[k].(string)
	if !ok || s == NIL {
		return Opt{}
	}
	return Some(s)
}

func sub(e replay.M, k string) replay.M { m, _ := e[k].(map[string]any); return m }

// ids maps the ids of a call to any object with that id.
func find[T interface{ ID() string }](m map[string]T, ids []string) (out []string) {
	for _, id := range ids {
		for h, x := range m {
			if x.ID() == id {
				out = append(out, h)
				break
			}
		}
	}
	return
}

// Exec runs one call given in the form of V1.tla.
func (w *World) Exec(e replay.M) any {
	s := func(k string) string { return replay.Str(e, k) }
	l := func(k string) []string { return replay.Strs(e, k) }
	b := func(k string) bool { return replay.Bool(e, k) }
	switch s("op") {
	case "new":
		w.New(s("k"), s("h"), s("id"))
	case "newAttr":
		res, act, _ := strings.Cut(s("key"), " ")
		w.NewAttr(s("h"), res, act)
	case "reg":
		w.Reg(s("k"), s("h"))
	case "regs":
		w.Regs(s("k"), l("hs"))
	case "tNs":
		w.TNs(s("h"), l("hs"))
	case "tRoles":
		w.TRoles(s("h"), find(w.Ro, l("ids")))
	case "tScopes":
		w.TScopes(s("h"), find(w.S, l("ids")))
	case "nRoles":
		w.NRoles(s("h"), find(w.Ro, l("ids")))
	case "nScopes":
		w.NScopes(s("h"), find(w.S, l("ids")))
	case "tNsRoles":
		w.TNsRoles(s("h"), s("n"), l("rs"))
	case "tNsScopes":
		w.TNsScopes(s("h"), s("n"), l("ss"))
	case "tDef":
		w.TDef(s("h"), s("n"))
	case "assign":
		m := b("m")
		one := func(l []string) string { return append(l, "")[0] }
		n, sc := "", ""
		if s("n") != "" {
			n = one(find(w.N, []string{s("n")}))
		}
		if s("s") != "" {
			sc = one(find(w.S, []string{s("s")}))
		}
		w.Assign(s("h"), s("p"), s("r"), n, sc, &m, "")
	case "tAssign":
		w.TAssign(s("h"), s("p"), l("rs"))
	case "tAssignN":
		w.TAssignN(s("h"), s("p"), s("n"), l("rs"))
	case "tAssignS":
		w.TAssignS(s("h"), s("p"), l("ss"))
	case "tAssignSR":
		w.TAssignSR(s("h"), s("p"), s("r"), l("ss"))
	case "tDesc":
		w.TDesc(s("h"), l("hs"))
	case "lock":
		w.Lock(s("h"), b("on"))
	case "grant":
		w.Grant(s("h"), s("g"), l("as"))
	case "grantGrp":
		w.GrantGrp(s("h"), s("g"))
	case "grantId":
		w.GrantId(s("r"), s("g"), l("as"))
	case "rDesc":
		w.RDesc(s("h"), l("hs"))
	case "gAttrs":
		w.GAttrs(s("g"), l("as"))
	case "authorize":
		o := sub(e, "o")
		w.Authorize(s("p"), Ask{opt(o, "t"), opt(o, "n"), opt(o, "s"), opt(o, "g"), opt(o, "a")})
	case "ofPrincipal":
		w.OfPrincipal(s("t"), s("p"))
	case "ofTenant":
		w.OfTenant(s("t"), false)
	case "implicitRows":
		w.ImplicitRows(s("t"), s("p"))
		return uniq(w.R.Last)
	case "permsFor":
		w.PermsFor(s("t"), s("p"))
	case "tenantsFor":
		w.TenantsFor(s("p"))
		return uniq(w.R.Last)
	case "rolePerms":
		w.RolePerms(s("r"))
	case "scopesFor":
		w.ScopesFor(s("p"))
		e := w.R.Last.(rec.Ev)
		return rec.Ev{"err": e["err"], "ss": uniq(e["ss"])}
	case "tenantScopesFor":
		w.TenantScopesFor(s("t"), s("p"))
		e := w.R.Last.(rec.Ev)
		return rec.Ev{"err": e["err"], "ss": uniq(e["ss"])}
	case "allowed":
		w.Allowed(s("t"), s("p"), s("n"), s("s"))
		return uniq(w.R.Last)
	case "below":
		w.Below(s("h"))
	case "rolesBelow":
		w.RolesBelow(s("h"))
	case "has":
		w.Has(s("h"), s("g"), s("a"), l("allowed"))
	case "perms":
		w.Perms(s("h"))
	case "implicitPerms":
		w.ImplicitPerms(s("h"), false)
	case "groupPerms":
		w.GroupPerms(s("h"), s("g"))
	case "get":
		w.Get(s("k"), s("id"))
	case "list":
		w.List(s("k"))
	case "totals":
		w.Totals(0)
	default:
		panic("unknown call " + s("op"))
	}
	return w.R.Last
}

// uniq drops repetitions, where the specification gives a set.
func uniq(v any) any {
	l, _ := replay.Norm(v).([]string)
	out := []any{}
	for i, x := range l {
		if i == 0 || l[i-1] != x {
			var y any
			json.Unmarshal([]byte(x), &y)
			out = append(out, y)
		}
	}
	return out
}
