package v2d

import (
	"strings"

	"verifharness/replay"
)

func splitPerms(ps []string) (out []Perm) {
	for _, p := range ps {
		res, act, _ := strings.Cut(p, " ")
		out = append(out, Perm{"", res, act})
	}
	return
}

func reqOf(e replay.M) Req {
	q := e["req"].(map[string]any)
	return Req{replay.Str(q, "p"), replay.Str(q, "t"), replay.Str(q, "n"), replay.Str(q, "s"), replay.Str(q, "res"), replay.Str(q, "act")}
}

// Exec runs one call given in the form of V2.tla.
func (w *World) Exec(e replay.M) any {
	s := func(k string) string { return replay.Str(e, k) }
	l := func(k string) []string { return replay.Strs(e, k) }
	switch s("op") {
	case "newRole":
		w.NewRole(s("h"), s("name"))
	case "newTenant":
		w.NewTenant(s("h"), s("id"), replay.Bool(e, "hasDef"), s("def"))
	case "newAsg":
		w.NewAsg(s("h"), s("p"), s("t"), s("n"), s("s"), s("r"), replay.Bool(e, "mng"))
	case "addRoles":
		w.AddRoles(s("d"), l("hs"))
	case "addPerm":
		w.AddPerm(s("h"), splitPerms(l("ps")))
	case "remPerm":
		w.RemPerm(s("h"), splitPerms(l("ps")))
	case "addKids":
		w.AddKids(s("d"), s("r"), l("rs"))
	case "addNs":
		w.AddNs(s("h"), s("n"), replay.Bool(e, "isDef"), false)
	case "addScopes":
		w.AddScopes(s("h"), s("n"), l("ss"))
	case "addChildren":
		w.AddChildren(s("h"), l("hs"))
	case "addTenants":
		w.AddTenants(l("hs"))
	case "status":
		w.Status(s("h"), replay.Int(e, "st"))
	case "setDef":
		w.SetDef(s("t"))
	case "addAsg":
		w.AddAsg(l("hs"))
	case "remAsg":
		p := e["pat"].(map[string]any)
		w.RemAsg(Pat{replay.Str(p, "p"), replay.Str(p, "t"), replay.Str(p, "n"), replay.Str(p, "s"), replay.Str(p, "r")}, false, nil)
	case "setExp":
		w.SetExp(s("h"), replay.Int(e, "at"))
	case "setDur":
		w.SetDur(s("h"), replay.Int(e, "dur"), "")
	case "badDur":
		w.BadDur(s("h"), s("text"))
	case "putExp":
		w.PutExp(s("h"), replay.Int(e, "at"))
	case "clearExp":
		w.ClearExp(s("h"))
	case "advance":
		w.Advance(replay.Int(e, "by"))
	case "authorize":
		w.Authorize(reqOf(e))
	case "can":
		w.Can(reqOf(e), l("roles"))
	case "perms":
		w.Perms(s("d"), s("r"))
	case "kids":
		w.Kids(s("d"), s("r"))
	case "getRole":
		w.GetRole(s("r"))
	case "getTenant":
		w.GetTenant(s("t"))
	case "defTenant":
		w.DefTenant()
	case "expired":
		w.Expired(s("h"))
	case "expiry":
		w.Expiry(s("h"))
	default:
		panic("unknown call " + s("op"))
	}
	return w.R.Last
}
