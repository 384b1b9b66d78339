package rootd

import (
	"maps"
	"slices"
	"strings"

	"verifharness/rec"
	"verifharness/replay"
)

func opt(e replay.M, k string) Opt {
	s, ok := e[k].(string)
	if !ok || s == NIL {
		return Opt{}
	}
	return Some(s)
}

func sub(e replay.M, k string) replay.M { m, _ := e[k].(map[string]any); return m }

// ids maps the ids of a call to any object with that id.
func find[T interface{ ID() string }](m map[string]T, ids []string) (out []string) {
	for _, id := range ids {
		for h, x := range m {
			if x.ID() == id {
				out = append(out, h)
				break
			}
		}
	}
	return
}

// Exec runs one call given in the form of Root.tla.
func (w *World) Exec(e replay.M) any {
	s := func(k string) string { return replay.Str(e, k) }
	l := func(k string) []string { return replay.Strs(e, k) }
	b := func(k string) bool { return replay.Bool(e, k) }
	switch s("op") {
	case "new":
		w.New(s("k"), s("h"), s("id"))
	case "newAttr":
		res, act, _ := strings.Cut(s("key"), " ")
		w.NewAttr(s("h"), res, act)
	case "reg":
		w.Reg(s("k"), s("h"))
	case "regs":
		w.Regs(s("k"), l("hs"))
	case "data":
		r := sub(e, "row")
		w.Data(Row{opt(r, "t"), opt(r, "n"), opt(r, "s"), opt(r, "p"), opt(r, "r"), opt(r, "m")})
	case "tNs":
		w.TNs(s("h"), find(w.N, l("ids")))
	case "tRoles":
		w.TRoles(s("h"), find(w.Ro, l("ids")))
	case "tScopes":
		w.TScopes(s("h"), find(w.S, l("ids")))
	case "tNsScope":
		w.TNsScope(s("h"), s("n"), s("s"))
	case "tPrNs":
		w.TPrNs(s("h"), s("p"), s("n"), s("r"))
	case "tDef":
		w.TDef(s("h"), s("n"))
	case "tAssign":
		w.TAssign(s("h"), s("p"), l("rs"), s("m") == "true")
	case "tAssignS":
		w.TAssignS(s("h"), s("p"), l("ss"), s("m") == "true")
	case "tDesc":
		w.TDesc(s("h"), l("hs"))
	case "lock":
		w.Lock(s("h"), b("on"))
	case "grant":
		w.Grant(s("h"), s("g"), l("as"))
	case "grantGrp":
		w.GrantGrp(s("h"), s("g"))
	case "grantId":
		w.GrantId(s("r"), s("g"), l("as"))
	case "rDesc":
		w.RDesc(s("h"), l("hs"))
	case "gAttrs":
		w.GAttrs(s("g"), l("as"))
	case "authorize":
		o := sub(e, "o")
		w.Authorize(s("p"), Ask{opt(o, "t"), opt(o, "n"), opt(o, "s"), opt(o, "g"), opt(o, "a")})
	case "rows":
		w.Rows(s("f"), opt(e, "p"), opt(e, "t"), opt(e, "n"), opt(e, "s"), opt(e, "r"), opt(e, "m"))
	case "ids":
		w.Ids(s("f"), s("k"), opt(e, "p"), opt(e, "t"), opt(e, "n"), opt(e, "s"), opt(e, "r"), opt(e, "m"))
	case "tenantsBy":
		w.TenantsBy(opt(e, "p"))
	case "implicit":
		w.Implicit(s("p"))
	case "children":
		w.Children(s("t"), false)
	case "below":
		w.Below(s("h"))
	case "rolesBelow":
		w.RolesBelow(s("h"))
	case "has":
		w.Has(s("h"), s("g"), s("a"), l("allowed"))
	case "perms":
		w.Perms(s("h"))
	case "implicitPerms":
		w.ImplicitPerms(s("h"), false)
	case "groupPerms":
		w.GroupPerms(s("h"), s("g"))
	case "available":
		w.Available()
	case "scopesRoles":
		w.ScopesRoles(s("p"), s("t"), opt(e, "n"))
		// the specification gives the set of answers allowed, with roles as sets
		for _, x := range w.R.Last.([]rec.Ev) {
			rs := x["rs"].([]string)
			slices.Sort(rs)
			x["rs"] = slices.Compact(rs)
		}
	case "get":
		w.Get(s("k"), s("id"))
	case "viaGet": // the tenant with an id, if there is one, and a call of it
		w.Get("t", s("id"))
		if h, _ := w.R.Last.(string); w.T[h] != nil {
			then := maps.Clone(sub(e, "then"))
			then["h"] = h
			return w.Exec(then)
		}
	case "list":
		w.List(s("k"))
	case "totals":
		w.Totals(0)
	default:
		panic("unknown call " + s("op"))
	}
	return w.R.Last
}
