package v1d

import (
	"os"
	"sort"
	"strconv"
	"testing"

	"verifharness/gen"
	"verifharness/rec"
)

type profile struct {
	nT, nN, nS, nP, nR, nG, nA [2]int
	steps, batch               [2]int
	w, q                       map[string]int
	chain                      int // percent of traces with long role and tenant chains
	late                       int // percent of objects registered only later, if at all
	locks                      bool
	cycles                     int
	noTenant, noRole, empty    int
	ladder                     int // percent of traces with a hierarchy that has very many paths
}

func base() profile {
	return profile{nT: [2]int{1, 4}, nN: [2]int{1, 3}, nS: [2]int{1, 3}, nP: [2]int{1, 3}, nR: [2]int{1, 5}, nG: [2]int{1, 3}, nA: [2]int{3, 8},
		steps: [2]int{14, 30}, batch: [2]int{3, 8},
		w: map[string]int{"reg": 3, "tNs": 5, "tRoles": 6, "tScopes": 6, "tDef": 3, "nRoles": 2, "nScopes": 2, "tNsRoles": 4, "tNsScopes": 5, "assign": 9,
			"tAssign": 8, "tAssignN": 6, "tAssignS": 6, "tAssignSR": 5, "tDesc": 4, "lock": 1, "grant": 8, "grantGrp": 3, "grantId": 3, "rDesc": 5, "gAttrs": 3},
		q:     map[string]int{"member": 8, "act": 8, "rows": 3, "allowed": 1, "has": 2, "tenants": 1, "get": 1, "perms": 1},
		chain: 6, late: 10, cycles: 15, noTenant: 15, noRole: 6, empty: 6}
}

func profiles(name string) profile {
	p := base()
	switch name {
	case "C23":
		p.w = map[string]int{"reg": 2, "tNs": 6, "tRoles": 7, "tScopes": 7, "tDef": 5, "tNsScopes": 8, "tNsRoles": 2, "assign": 16,
			"tAssign": 14, "tAssignN": 16, "tAssignS": 14, "tAssignSR": 14, "tDesc": 4, "grant": 3}
		p.q = map[string]int{"rows": 24, "all": 6, "tenants": 3, "member": 4}
	case "C24":
		p.q = map[string]int{"member": 26, "act": 1, "rows": 1, "tenants": 1}
		p.noTenant = 35
		p.w["tNsScopes"], p.w["tDesc"] = 9, 7
	case "C25":
		p.q = map[string]int{"member": 1, "act": 26, "allowed": 4, "has": 1}
		p.w["grant"], p.w["rDesc"], p.w["tRoles"], p.w["tNsRoles"] = 12, 9, 9, 7
		p.nR, p.noRole = [2]int{2, 6}, 12
	case "C16":
		p.steps, p.batch, p.late = [2]int{22, 44}, [2]int{2, 6}, 30
		p.w["reg"] = 9
		p.q = map[string]int{"member": 8, "act": 8, "rows": 4, "allowed": 3, "has": 2, "tenants": 2, "get": 1, "perms": 2, "same": 12}
	case "C17":
		p.nR, p.nT, p.nA = [2]int{2, 7}, [2]int{1, 2}, [2]int{4, 10}
		p.w = map[string]int{"reg": 2, "tAssign": 4, "tRoles": 3, "grant": 14, "grantGrp": 9, "grantId": 6, "rDesc": 14, "gAttrs": 8, "lock": 1}
		p.q = map[string]int{"act": 3, "has": 14, "perms": 14}
	case "C18":
		p.late = 30
		p.w["lock"], p.w["grant"], p.w["grantGrp"], p.w["grantId"], p.w["rDesc"] = 14, 12, 8, 14, 8
		p.q = map[string]int{"member": 2, "act": 5, "rows": 2, "has": 6, "perms": 8, "all": 3}
	case "C20":
		p.late, p.empty, p.noRole = 50, 20, 20
		p.w = map[string]int{"reg": 30, "tAssign": 4, "assign": 4, "grantId": 4, "tNs": 2}
		p.q = map[string]int{"get": 16, "list": 8, "totals": 8, "member": 3, "act": 3}
	case "C26":
		p.cycles, p.chain, p.ladder = 70, 30, 6
		p.nT, p.nR = [2]int{2, 7}, [2]int{2, 7}
		p.w["tDesc"], p.w["rDesc"] = 18, 18
		p.q = map[string]int{"member": 8, "act": 8, "has": 8, "tenants": 6, "perms": 5, "rows": 2, "rolesBelow": 6}
	case "C28":
		p.q = map[string]int{"member": 2, "act": 2, "rows": 14, "allowed": 5, "has": 2, "tenants": 6, "perms": 12, "list": 5, "totals": 3, "rolesBelow": 5}
	}
	return p
}

type obj struct {
	h, id string
	mgr   bool // given to the manager
	kids  []*obj
	perms []string
	has   map[string][]string
}

func (o *obj) got(k string, l []*obj) {
	if o.has == nil {
		o.has = map[string][]string{}
	}
	for _, x := range l {
		o.has[k] = append(o.has[k], x.id)
	}
}

type driver struct {
	*World
	g     gen.R
	pf    profile
	lit   gen.Literals
	reqs  []gen.RA
	aims  map[string][]gen.RA
	ids   map[string][]string
	o     map[string][]*obj
	attrs []attr
	recs  []Row
	gids  []string
	have  map[string]map[string][]attr // role id -> group -> attributes
	kids  map[string][]string          // role id -> below
	last  []func()
	n     int
}

type attr struct {
	h  string
	ra gen.RA
}

var kinds = []string{"t", "n", "s", "p", "r", "g"}

func (d *driver) fresh(k string) string { d.n++; return k + strconv.Itoa(d.n) }

func (d *driver) make(k, id string) *obj {
	o := &obj{h: d.fresh(k), id: id}
	d.New(k, o.h, id)
	d.o[k] = append(d.o[k], o)
	return o
}

func (d *driver) reg(k string, os ...*obj) {
	if len(os) == 1 && d.g.P(60) {
		d.Reg(k, os[0].h)
	} else {
		hs := []string{}
		for _, o := range os {
			hs = append(hs, o.h)
		}
		d.Regs(k, hs)
	}
	for _, o := range os {
		o.mgr = true
	}
}

func (d *driver) id(k string) string {
	if d.g.P(3) {
		return gen.Pick(d.g, []string{"no such " + k, ""})
	}
	return gen.Pick(d.g, d.ids[k])
}

func (d *driver) tenant() *obj {
	var l []*obj
	for _, t := range d.o["t"] {
		if t.mgr {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		t := gen.Pick(d.g, d.o["t"])
		d.reg("t", t)
		return t
	}
	return gen.Pick(d.g, l)
}

func reaches(from, to *obj) bool {
	seen := map[*obj]bool{}
	var f func(x *obj) bool
	f = func(x *obj) bool {
		if x == to {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, k := range x.kids {
			if f(k) {
				return true
			}
		}
		return false
	}
	return f(from)
}

func (d *driver) dup(k string, o *obj) bool {
	for _, x := range d.o[k] {
		if x != o && x.id == o.id {
			return true
		}
	}
	return false
}

func (d *driver) tdesc(t *obj, kids ...*obj) {
	hs := []string{}
	for _, k := range kids {
		if d.dup("t", t) || d.dup("t", k) || reaches(k, t) && !d.g.P(d.pf.cycles) {
			continue
		}
		hs = append(hs, k.h)
		t.kids = append(t.kids, k)
	}
	if len(hs) > 0 {
		d.TDesc(t.h, hs)
	}
}

func (d *driver) rdesc(r *obj, kids ...*obj) {
	hs := []string{}
	for _, k := range kids {
		if reaches(k, r) && !d.g.P(d.pf.cycles) {
			continue
		}
		hs = append(hs, k.h)
		r.kids = append(r.kids, k)
		d.kids[r.id] = append(d.kids[r.id], k.id)
	}
	d.RDesc(r.h, hs)
}

func (d *driver) someAttrs(lo, hi int) []attr { return gen.Some(d.g, d.attrs, lo, hi) }

func hsOf(as []attr) []string {
	out := []string{}
	for _, a := range as {
		out = append(out, a.h)
	}
	return out
}

func (d *driver) gave(r, g string, as []attr) {
	if d.have[r] == nil {
		d.have[r] = map[string][]attr{}
	}
	d.have[r][g] = append(d.have[r][g], as...)
}

func (d *driver) opt(pct int, k string) Opt {
	if d.g.P(pct) {
		return Some(d.id(k))
	}
	return Opt{}
}

func (d *driver) maybe(pct int, k string) string {
	if d.g.P(pct) {
		return d.id(k)
	}
	return ""
}

func (d *driver) row() Row {
	return Row{T: d.id("t"), N: d.maybe(50, "n"), S: d.maybe(50, "s"), P: d.id("p"), R: d.maybe(85, "r"), M: d.g.P(50)}
}

func (d *driver) many(k string, lo, hi int) []string {
	out := []string{}
	for n := d.g.Between(lo, hi); n > 0; n-- {
		out = append(out, d.id(k))
	}
	return out
}

// of prefers ids the tenant was given.
func (d *driver) of(t *obj, k string, lo, hi int) []string {
	out := d.many(k, lo, hi)
	for i := range out {
		if l := t.has[k]; len(l) > 0 && d.g.P(75) {
			out[i] = gen.Pick(d.g, l)
		}
	}
	return out
}

func (d *driver) rec(t *obj, n, s, p, r string) {
	d.recs = append(d.recs, Row{T: t.id, N: n, S: s, P: p, R: r, M: true})
}

func (d *driver) change(kind string) {
	g := d.g
	switch kind {
	case "reg":
		k := gen.Pick(g, []string{"t", "n", "s", "p", "r", "g", "a"})
		if k == "a" {
			if g.P(40) {
				d.addAttr(gen.Pick(g, d.attrs).ra)
			}
			if g.P(60) {
				d.Reg("a", gen.Pick(g, d.attrs).h)
			} else {
				d.Regs("a", hsOf(d.someAttrs(0, 3)))
			}
			return
		}
		if g.P(40) { // another object with the same id
			d.make(k, gen.Pick(g, d.ids[k]))
		}
		d.reg(k, gen.Some(g, d.o[k], 1, 3)...)
	case "tNs":
		t, l := d.tenant(), gen.Some(g, d.o["n"], 1, 2)
		d.TNs(t.h, objHs(l))
		t.got("n", l)
	case "tRoles":
		t, l := d.tenant(), gen.Some(g, d.o["r"], 0, 3)
		d.TRoles(t.h, objHs(l))
		t.got("r", l)
	case "tScopes":
		t, l := d.tenant(), gen.Some(g, d.o["s"], 0, 2)
		d.TScopes(t.h, objHs(l))
		t.got("s", l)
	case "nRoles":
		d.NRoles(gen.Pick(g, d.o["n"]).h, objHs(gen.Some(g, d.o["r"], 1, 2)))
	case "nScopes":
		d.NScopes(gen.Pick(g, d.o["n"]).h, objHs(gen.Some(g, d.o["s"], 1, 2)))
	case "tNsRoles":
		t := d.tenant()
		d.TNsRoles(t.h, d.of(t, "n", 1, 1)[0], d.of(t, "r", 0, 3))
	case "tNsScopes":
		t := d.tenant()
		n, ss := d.of(t, "n", 1, 1)[0], d.of(t, "s", 0, 3)
		d.TNsScopes(t.h, n, ss)
		for _, s := range ss {
			d.rec(t, n, s, d.id("p"), "")
		}
	case "tDef":
		t := d.tenant()
		d.TDef(t.h, d.of(t, "n", 1, 1)[0])
	case "assign":
		t := gen.Pick(g, d.o["t"]) // need not be registered
		via := ""
		if g.P(50) {
			via = d.tenant().h
		}
		n, s, nid, sid := "", "", "", ""
		if g.P(50) {
			o := gen.Pick(g, d.o["n"])
			n, nid = o.h, o.id
		}
		if g.P(50) {
			o := gen.Pick(g, d.o["s"])
			s, sid = o.h, o.id
		}
		var m *bool
		if g.P(65) {
			b := g.P(40)
			m = &b
		}
		p, r := d.id("p"), d.maybe(85, "r")
		if g.P(4) {
			p = ""
		}
		if len(d.recs) > 0 && g.P(30) { // much like one there is
			x := gen.Pick(g, d.recs)
			p = x.P
			if g.P(50) {
				r = x.R
			}
		}
		d.Assign(t.h, p, r, n, s, m, via)
		d.recs = append(d.recs, Row{T: t.id, N: nid, S: sid, P: p, R: r, M: m == nil || *m})
	case "tAssign":
		t, p := d.tenant(), d.id("p")
		rs := d.of(t, "r", 0, 3)
		d.TAssign(t.h, p, rs)
		for _, r := range rs {
			d.rec(t, "", "", p, r)
		}
	case "tAssignN":
		t, p := d.tenant(), d.id("p")
		n, rs := d.of(t, "n", 1, 1)[0], d.of(t, "r", 0, 2)
		d.TAssignN(t.h, p, n, rs)
		d.rec(t, n, "", p, append(rs, "")[0])
	case "tAssignS":
		t, p := d.tenant(), d.id("p")
		if len(d.recs) > 0 && g.P(60) {
			p = gen.Pick(g, d.recs).P
		}
		ss := d.of(t, "s", 0, 2)
		d.TAssignS(t.h, p, ss)
		for _, s := range ss {
			d.rec(t, "", s, p, d.id("r"))
		}
	case "tAssignSR":
		t, p := d.tenant(), d.id("p")
		if len(d.recs) > 0 && g.P(60) {
			p = gen.Pick(g, d.recs).P
		}
		r, ss := d.of(t, "r", 1, 1)[0], d.of(t, "s", 0, 2)
		d.TAssignSR(t.h, p, r, ss)
		for _, s := range ss {
			d.rec(t, "", s, p, r)
		}
	case "tDesc":
		if g.P(15) {
			d.tdesc(gen.Pick(g, d.o["t"]), gen.Some(g, d.o["t"], 1, 2)...)
			break
		}
		d.tdesc(d.tenant(), gen.Some(g, d.o["t"], 1, 2)...)
	case "lock":
		d.Lock(gen.Pick(g, d.o["r"]).h, g.P(60))
	case "grant":
		r, gr, as := gen.Pick(g, d.o["r"]), gen.Pick(g, d.gids), d.someAttrs(0, 3)
		d.Grant(r.h, gr, hsOf(as))
		d.gave(r.id, gr, as)
	case "grantGrp":
		r, gr := gen.Pick(g, d.o["r"]), gen.Pick(g, d.o["g"])
		d.GrantGrp(r.h, gr.h)
		d.gave(r.id, gr.id, d.byHs(gr.perms))
	case "grantId":
		r, gr := d.id("r"), d.id("g")
		as := d.someAttrs(0, 2)
		for _, o := range d.o["g"] {
			if o.id == gr && len(o.perms) > 0 && g.P(75) {
				as = gen.Some(g, d.byHs(o.perms), 1, 2)
				if g.P(25) {
					as = append(as, gen.Pick(g, d.attrs))
				}
				break
			}
		}
		d.GrantId(r, gr, hsOf(as))
		d.gave(r, gr, as)
	case "rDesc":
		d.rdesc(gen.Pick(g, d.o["r"]), gen.Some(g, d.o["r"], 1, 2)...)
	case "gAttrs":
		o, as := gen.Pick(g, d.o["g"]), d.someAttrs(0, 3)
		d.GAttrs(o.h, hsOf(as))
		o.perms = append(o.perms, hsOf(as)...)
	}
}

func (d *driver) byHs(hs []string) (out []attr) {
	for _, h := range hs {
		for _, a := range d.attrs {
			if a.h == h {
				out = append(out, a)
			}
		}
	}
	return
}

func objHs(l []*obj) []string {
	out := []string{}
	for _, o := range l {
		out = append(out, o.h)
	}
	return out
}

func (d *driver) addAttr(ra gen.RA) {
	a := attr{d.fresh("a"), ra}
	// the same text divided differently
	if s := ra.String(); d.g.P(10) {
		for i := 0; i < len(s); i++ {
			if s[i] == ' ' && i != len(ra.Res) {
				a.ra = gen.RA{Res: s[:i], Act: s[i+1:]}
				break
			}
		}
	}
	d.NewAttr(a.h, a.ra.Res, a.ra.Act)
	d.attrs = append(d.attrs, a)
}

func (d *driver) setup(perms []gen.RA) {
	g, pf := d.g, d.pf
	if g.P(10) {
		g = g.Joinable(d.lit)
	}
	chain := g.P(pf.chain)
	nT, nR := g.Between(pf.nT[0], pf.nT[1]), g.Between(pf.nR[0], pf.nR[1])
	if chain {
		nT, nR = g.Between(4, 9), g.Between(5, 14)
	}
	ladder := "" // two on every level, each linked to both on the next
	if g.P(pf.ladder) {
		ladder, chain, pf.late = gen.Pick(g, []string{"t", "r"}), false, 0
		d.pf.steps = [2]int{1, 4}
		if ladder == "t" {
			nT, nR = 2*g.Between(30, 40), g.Between(1, 3)
		} else {
			nT, nR = g.Between(1, 2), 2*g.Between(30, 40)
		}
	}
	deep := "" // one long line, with little to find on the way
	if chain && g.P(35) {
		deep, pf.late = gen.Pick(g, []string{"t", "r"}), 0
		d.pf.steps = [2]int{1, 6}
		if deep == "t" {
			nT, nR = g.Size(d.lit, 70), g.Between(1, 3)
		} else {
			nT, nR = g.Between(1, 2), g.Size(d.lit, 70)
		}
	}
	rungs := func(l []*obj, link func(*obj, ...*obj)) {
		for i := 0; i&^1+3 < len(l); i++ {
			j := i &^ 1
			link(l[i], l[j+2], l[j+3])
		}
	}
	nums := map[string]int{"t": nT, "n": g.Between(pf.nN[0], pf.nN[1]), "s": g.Between(pf.nS[0], pf.nS[1]), "p": g.Between(pf.nP[0], pf.nP[1]), "r": nR,
		"g": g.Between(pf.nG[0], pf.nG[1]), "a": g.Between(pf.nA[0], pf.nA[1])}
	large := "" // much of one thing
	if ladder == "" && deep == "" && g.P(6) {
		large = gen.Pick(g, []string{"t", "n", "s", "p", "r", "g", "a"})
		nums[large] = g.Size(d.lit, 40)
		d.pf.steps = [2]int{3, 10}
	}
	d.ids = map[string][]string{
		"t": g.Names(nums["t"], d.lit, g.P(pf.empty)), "n": g.Names(nums["n"], d.lit, g.P(pf.empty)), "s": g.Names(nums["s"], d.lit, g.P(pf.empty)),
		"p": g.Names(nums["p"], d.lit, g.P(pf.empty)), "r": g.Names(nums["r"], d.lit, g.P(pf.noRole)), "g": g.Names(nums["g"], d.lit, g.P(pf.empty))}
	if g.P(12) && ladder == "" && deep == "" { // the same names for everything
		x := g.Names(4, d.lit, false)
		for _, k := range []string{"t", "n", "s", "p"} {
			d.ids[k] = x[:g.Between(2, 4)]
		}
	}
	d.gids = append(append([]string{}, d.ids["g"]...), "loose", "")
	for n := nums["a"]; n > 0; n-- {
		d.addAttr(gen.Pick(g, perms))
	}
	for _, k := range kinds {
		var l []*obj
		for _, id := range d.ids[k] {
			o := d.make(k, id)
			if !g.P(pf.late) {
				l = append(l, o)
			}
		}
		if g.P(50) {
			d.reg(k, l...)
		} else {
			for _, o := range l {
				d.reg(k, o)
			}
		}
	}
	for _, o := range d.o["g"] {
		as := d.someAttrs(0, 3)
		d.GAttrs(o.h, hsOf(as))
		o.perms = append(o.perms, hsOf(as)...)
	}
	rolesFirst := g.P(50)
	roles := func() {
		for _, r := range d.o["r"] {
			for n := g.Between(0, 2); n > 0 && (ladder != "r" && deep != "r" || g.P(10)); n-- {
				d.change("grant")
			}
			_ = r
		}
		if chain {
			for i := 0; i+1 < len(d.o["r"]); i++ {
				d.rdesc(d.o["r"][i], d.o["r"][i+1])
			}
		}
		if ladder == "r" {
			rungs(d.o["r"], d.rdesc)
			return
		}
		for n := g.Between(0, nR); n > 0 && deep == ""; n-- {
			d.change("rDesc")
		}
	}
	if rolesFirst {
		roles()
	}
	if chain {
		ts := d.o["t"]
		for i := 0; i+1 < len(ts); i++ {
			if ts[i].mgr && ts[i+1].mgr {
				d.tdesc(ts[i], ts[i+1])
			}
		}
	}
	if ladder == "t" {
		rungs(d.o["t"], d.tdesc)
	}
	for _, t := range d.o["t"] {
		if !t.mgr {
			continue
		}
		give := func(k string, f func(string, []string)) {
			if l := gen.Subset(g, d.o[k], 75); g.P(80) {
				f(t.h, objHs(l))
				t.got(k, l)
			}
		}
		give("n", d.TNs)
		if g.P(30) {
			d.TDef(t.h, d.of(t, "n", 1, 1)[0])
		}
		give("r", d.TRoles)
		give("s", d.TScopes)
	}
	for n := g.Between(1, 2+min(nT, 10)*2); n > 0; n-- {
		d.change(gen.Pick(g, []string{"tAssign", "tAssign", "tAssignS", "tAssignN", "tNsScopes", "tNsRoles", "tDef", "tDesc", "tAssignSR", "assign", "assign"}))
	}
	if !rolesFirst {
		roles()
	}
	if ladder != "" {
		d.ladder(ladder)
	}
	if deep != "" {
		d.deep(deep)
	}
	if large != "" {
		d.large(large)
	}
}

// below collects what a role may have, roughly.
func (d *driver) below(r string, depth int) (out [][2]any) {
	gs := make([]string, 0, len(d.have[r]))
	for g := range d.have[r] {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		for _, a := range d.have[r][g] {
			out = append(out, [2]any{g, a.ra})
		}
	}
	if depth > 0 {
		for _, k := range d.kids[r] {
			out = append(out, d.below(k, depth-1)...)
		}
	}
	return
}

func (d *driver) someRow() Row {
	if len(d.recs) == 0 || d.g.P(10) {
		return d.row()
	}
	return gen.Pick(d.g, d.recs)
}

func some(s string) Opt {
	if s == "" {
		return Opt{}
	}
	return Some(s)
}

func (d *driver) ask(act bool) (string, Ask) {
	g := d.g
	r := d.someRow()
	for k := 0; k < 5 && act && r.R == ""; k++ {
		r = d.someRow()
	}
	p := r.P
	var a Ask
	a.T, a.N, a.S = Some(r.T), some(r.N), some(r.S)
	// ask in a tenant below
	if g.P(map[bool]int{true: 8, false: 25}[act]) {
		for _, t := range d.o["t"] {
			if t.id == r.T && len(t.kids) > 0 {
				x := gen.Pick(g, t.kids)
				if len(x.kids) > 0 && g.P(40) {
					x = gen.Pick(g, x.kids)
				}
				a.T = Some(x.id)
			}
		}
	}
	switch g.IntN(8) {
	case 0, 1: // of another assignment in the tenant
		other := d.someRow()
		for k := 0; k < 6 && other.T != r.T; k++ {
			other = d.someRow()
		}
		a.N, a.S = some(other.N), some(other.S)
	case 2, 3:
		a.N, a.S = Opt{}, Opt{}
	case 4:
		a.N = d.opt(70, "n")
	case 5:
		a.S = d.opt(70, "s")
	}
	if act && g.P(40) {
		a.N, a.S = d.opt(50, "n"), d.opt(50, "s")
	}
	if g.P(2) {
		a.N = Some("")
	}
	if g.P(2) {
		a.S = Some("")
	}
	if g.P(d.pf.noTenant) {
		a.T = Opt{}
		if act && g.P(80) {
			a.N, a.S = Opt{}, Opt{}
		}
	}
	if g.P(5) {
		p = d.id("p")
	}
	if g.P(4) {
		a.T = d.opt(80, "t")
	}
	if act {
		a.G, a.A = Some(gen.Pick(g, d.gids)), Some(gen.Pick(g, d.reqs).String())
		if l := d.below(r.R, 3); len(l) > 0 && g.P(85) {
			x := gen.Pick(g, l)
			ra := x[1].(gen.RA)
			a.G = Some(x[0].(string))
			if q := d.aims[ra.String()]; len(q) > 0 && g.P(70) {
				a.A = Some(gen.Pick(g, q).String())
			} else {
				a.A = Some(ra.String())
			}
		}
		a.A = Some(g.Activity(a.A.V, d.reqs))
		if !a.T.Set && !a.N.Set && !a.S.Set && g.P(85) || g.P(3) {
			a.G = Opt{}
		}
		if g.P(3) {
			a.A = Opt{}
		}
	} else if g.P(3) {
		a.G = Some(gen.Pick(g, d.gids))
	}
	who := Some(p)
	d.near(&who, &a.T, &a.N, &a.S, &a.G)
	return who.V, a
}

// near sometimes takes an identifier for another one.
func (d *driver) near(os ...*Opt) {
	if o := gen.Pick(d.g, os); d.g.P(12) && o.Set {
		o.V = d.g.Near(o.V, d.lit)
	}
}

func (d *driver) do(f func()) { d.last = append(d.last, f); f() }

func (d *driver) pt() (p, t string) {
	x := d.someRow()
	p, t = x.P, x.T
	if d.g.P(10) {
		p = d.id("p")
	}
	if d.g.P(20) {
		t = d.id("t")
	}
	x1, x2 := Some(p), Some(t)
	d.near(&x1, &x2)
	return x1.V, x2.V
}

func (d *driver) query(kind string) {
	g := d.g
	switch kind {
	case "member", "act":
		p, o := d.ask(kind == "act")
		d.do(func() { d.Authorize(p, o) })
	case "rows":
		p, t := d.pt()
		r, other := d.id("r"), g.P(50)
		switch g.IntN(7) {
		case 0, 1:
			d.do(func() { d.OfPrincipal(t, p) })
		case 2:
			d.do(func() { d.OfTenant(t, other) })
		case 3:
			d.do(func() { d.ImplicitRows(t, p) })
		case 4:
			d.do(func() { d.PermsFor(t, p) })
		case 5:
			if g.P(50) {
				d.do(func() { d.ScopesFor(p) })
			} else {
				d.do(func() { d.TenantScopesFor(t, p) })
			}
		case 6:
			if g.P(50) {
				d.do(func() { d.TenantsFor(p) })
			} else {
				d.do(func() { d.RolePerms(r) })
			}
		}
	case "allowed":
		p, t := d.pt()
		x := d.someRow()
		n, s := x.N, x.S
		if g.P(40) {
			n, s = d.maybe(60, "n"), d.maybe(60, "s")
		}
		d.do(func() { d.Allowed(t, p, n, s) })
	case "has":
		r := gen.Pick(g, d.o["r"])
		gr, a := gen.Pick(g, d.gids), gen.Pick(g, d.reqs).String()
		if l := d.below(r.id, 4); len(l) > 0 && g.P(85) {
			x := gen.Pick(g, l)
			ra := x[1].(gen.RA)
			gr, a = x[0].(string), ra.String()
			if q := d.aims[a]; len(q) > 0 && g.P(60) {
				a = gen.Pick(g, q).String()
			}
		}
		a = g.Activity(a, d.reqs)
		allowed := []string{}
		if g.P(40) {
			for n := g.Between(1, 3); n > 0; n-- {
				allowed = append(allowed, d.id("r"))
			}
		}
		d.do(func() { d.Has(r.h, gr, a, allowed) })
	case "tenants":
		if g.P(50) {
			d.Below(gen.Pick(g, d.o["t"]).h)
		} else {
			p, _ := d.pt()
			d.do(func() { d.TenantsFor(p) })
		}
	case "rolesBelow":
		d.RolesBelow(gen.Pick(g, d.o["r"]).h)
	case "get":
		k := gen.Pick(g, []string{"t", "n", "s", "p", "r", "g", "a"})
		if k == "a" {
			d.Get(k, gen.Pick(g, d.attrs).ra.String())
		} else {
			d.Get(k, d.id(k))
		}
	case "list":
		d.List(gen.Pick(g, []string{"t", "n", "s", "p", "r", "a"}))
	case "totals":
		d.Totals(g.IntN(4))
	case "perms":
		r := gen.Pick(g, d.o["r"])
		switch g.IntN(4) {
		case 0:
			d.do(func() { d.Perms(r.h) })
		case 1:
			own := g.P(30)
			if hs := objHs(gen.Some(g, d.o["r"], 1, 3)); g.P(25) {
				d.do(func() { d.CollectPerms(hs) })
				break
			}
			d.do(func() { d.ImplicitPerms(r.h, own) })
		case 2:
			gr := gen.Pick(g, d.gids)
			d.do(func() { d.GroupPerms(r.h, gr) })
		case 3:
			d.do(func() { d.RolePerms(r.id) })
		}
	case "all":
		for _, t := range d.ids["t"] {
			d.OfTenant(t, false)
		}
		for _, r := range d.o["r"] {
			d.Perms(r.h)
		}
	case "same":
		if len(d.last) > 0 {
			gen.Pick(g, d.last)()
		}
	}
}

func pickW(g gen.R, names []string, m map[string]int) string {
	ws := make([]int, len(names))
	for i, n := range names {
		ws[i] = m[n]
	}
	return names[g.Weighted(ws)]
}

var changes = []string{"reg", "tNs", "tRoles", "tScopes", "tDef", "nRoles", "nScopes", "tNsRoles", "tNsScopes", "assign", "tAssign", "tAssignN", "tAssignS", "tAssignSR",
	"tDesc", "lock", "grant", "grantGrp", "grantId", "rDesc", "gAttrs"}
var queries = []string{"member", "act", "rows", "allowed", "has", "tenants", "rolesBelow", "get", "list", "totals", "perms", "all", "same"}

func TestDrive(t *testing.T) {
	name := os.Getenv("PROFILE")
	if name == "" {
		t.Skip()
	}
	seed := uint64(rec.EnvInt("SEED", 1))
	start, n := rec.EnvInt("START", 0), rec.EnvInt("N", 10)
	lit := gen.Scan(gen.Repo())
	perms, reqs := gen.New(seed, 1778+uint64(start/gen.Chunk)).Vocabulary(30, 54, lit)
	aims := gen.Aims(perms, reqs)
	r := rec.Open()
	for i := start; i < start+n; i++ {
		r.Run(i, nil, func() { drive(r, name, seed, i, lit, perms, reqs, aims) })
	}
}

func drive(r *rec.Rec, name string, seed uint64, i int, lit gen.Literals, perms, reqs []gen.RA, aims map[string][]gen.RA) *driver {
	g := gen.New(seed, uint64(i)+9000+gen.Hash(name))
	pf := profiles(name)
	d := &driver{World: NewWorld(r), g: g, pf: pf, lit: lit, reqs: reqs, aims: aims, o: map[string][]*obj{},
		have: map[string]map[string][]attr{}, kids: map[string][]string{}}
	r.Vocab("req", "")
	d.Scrib = name == "C28" || name == "C16" || g.P(30)
	d.setup(perms)
	ask := func() {
		for k := g.Between(pf.batch[0], pf.batch[1]); k > 0; k-- {
			d.query(pickW(g, queries, pf.q))
		}
	}
	ask()
	for k := g.Between(pf.steps[0], pf.steps[1]); k > 0; k-- {
		d.change(pickW(g, changes, pf.w))
		if g.P(60) {
			ask()
		}
	}
	ask()
	return d
}

// ladder gives a principal all tenants of a hierarchy with very many paths, or
// the role above very many paths, and asks from the top.
func (d *driver) ladder(kind string) {
	g := d.g
	p, yes := gen.Pick(g, d.ids["p"]), true
	give := func(t *obj, r string) {
		d.Assign(t.h, p, r, "", "", &yes, "")
		d.rec(t, "", "", p, r)
	}
	if kind == "t" {
		all := g.P(70)
		for i, t := range d.o["t"] {
			if i < 2 || all {
				give(t, gen.Pick(g, append([]string{"nothing"}, d.ids["r"]...)))
			}
		}
		top, end := d.o["t"][g.IntN(2)], d.o["t"][len(d.o["t"])-1]
		d.Authorize(p, Ask{T: Some(end.id)})
		d.Authorize(p, Ask{T: Some(top.id), N: Some(d.id("n"))})
		d.Authorize(p, Ask{T: Some(end.id), G: Some(gen.Pick(g, d.gids)), A: Some(gen.Pick(g, d.reqs).String())})
		d.Authorize(p, Ask{T: Some("nowhere")})
		d.ImplicitRows(end.id, p)
		d.ImplicitRows(top.id, p)
		d.Below(top.h)
		return
	}
	top, end := d.o["r"][g.IntN(2)], d.o["r"][len(d.o["r"])-1]
	t := d.tenant()
	d.TRoles(t.h, objHs(d.o["r"]))
	give(t, top.id)
	req := gen.Pick(g, d.reqs).String()
	d.Authorize(p, Ask{T: Some(t.id), G: Some(gen.Pick(g, d.gids)), A: Some(req)})
	d.Has(top.h, gen.Pick(g, d.gids), req, []string{})
	d.Has(top.h, gen.Pick(g, d.gids), req, []string{end.id})
	d.RolesBelow(top.h)
	d.ImplicitPerms(top.h, g.P(50))
	d.PermsFor(t.id, p)
}

// deep asks the top of a long line for what only its far end has.
func (d *driver) deep(kind string) {
	g := d.g
	p, yes := gen.Pick(g, d.ids["p"]), true
	give := func(t *obj, r string) {
		d.Assign(t.h, p, r, "", "", &yes, "")
		d.rec(t, "", "", p, r)
	}
	as := d.someAttrs(1, 2)
	gid := gen.Pick(g, d.gids)
	req := gen.Pick(g, d.reqs)
	if len(as) > 0 {
		if q := d.aims[gen.Pick(g, as).ra.String()]; len(q) > 0 {
			req = gen.Pick(g, q)
		}
	}
	if kind == "t" {
		r := gen.Pick(g, d.o["r"])
		d.Grant(r.h, gid, hsOf(as))
		d.gave(r.id, gid, as)
		top, end := d.o["t"][0], d.o["t"][len(d.o["t"])-1]
		give(top, r.id)
		for _, x := range []*obj{end, gen.Pick(g, d.o["t"])} {
			d.Authorize(p, Ask{T: Some(x.id)})
			d.Authorize(p, Ask{T: Some(x.id), G: Some(gid), A: Some(req.String())})
			d.ImplicitRows(x.id, p)
		}
		d.Below(top.h)
		return
	}
	top, end := d.o["r"][0], d.o["r"][len(d.o["r"])-1]
	d.Grant(end.h, gid, hsOf(as))
	d.gave(end.id, gid, as)
	t := d.tenant()
	d.TRoles(t.h, objHs(d.o["r"]))
	t.got("r", d.o["r"])
	give(t, top.id)
	d.Authorize(p, Ask{T: Some(t.id), G: Some(gid), A: Some(req.String())})
	d.Has(top.h, gid, req.String(), []string{})
	d.Has(top.h, gid, req.String(), []string{end.id})
	d.RolesBelow(top.h)
	d.ImplicitPerms(top.h, g.P(50))
	d.PermsFor(t.id, p)
}

// large uses everything there is of one kind in one place.
func (d *driver) large(kind string) {
	g := d.g
	d.pf.batch = [2]int{6, 14}
	p, r := gen.Pick(g, d.ids["p"]), gen.Pick(g, d.o["r"])
	t := d.tenant()
	m := g.P(50)
	assign := func(t *obj, p, r, n, s string) {
		id := func(k, h string) string {
			for _, o := range d.o[k] {
				if o.h == h {
					return o.id
				}
			}
			return ""
		}
		d.Assign(t.h, p, r, n, s, &m, "")
		d.rec(t, id("n", n), id("s", s), p, r)
	}
	switch kind {
	case "t":
		if g.P(50) {
			for _, x := range d.o["t"] {
				assign(x, p, r.id, "", "")
			}
		} else {
			assign(t, p, r.id, "", "")
			d.tdesc(t, d.o["t"]...)
		}
	case "n":
		d.TNs(t.h, objHs(d.o["n"]))
		t.got("n", d.o["n"])
		for _, o := range d.o["n"] {
			assign(t, p, r.id, o.h, "")
		}
	case "s":
		d.TScopes(t.h, objHs(d.o["s"]))
		t.got("s", d.o["s"])
		n := gen.Pick(g, d.o["n"])
		for _, o := range d.o["s"] {
			assign(t, p, r.id, gen.Pick(g, []string{"", n.h}), o.h)
		}
	case "p":
		for _, o := range d.o["p"] {
			assign(t, o.id, r.id, "", "")
		}
	case "r":
		if g.P(60) {
			d.TRoles(t.h, objHs(d.o["r"]))
			t.got("r", d.o["r"])
		}
		if g.P(50) {
			for _, o := range d.o["r"] {
				assign(t, p, o.id, "", "")
			}
		} else {
			d.rdesc(r, d.o["r"]...)
			assign(t, p, r.id, "", "")
		}
	case "g":
		for _, o := range d.o["g"] {
			as := d.someAttrs(0, 1)
			d.Grant(r.h, o.id, hsOf(as))
			d.gave(r.id, o.id, as)
		}
		assign(t, p, r.id, "", "")
	case "a":
		gr := gen.Pick(g, d.o["g"])
		if g.P(50) {
			d.GAttrs(gr.h, hsOf(d.attrs))
			gr.perms = append(gr.perms, hsOf(d.attrs)...)
			d.GrantGrp(r.h, gr.h)
		} else {
			d.Grant(r.h, gr.id, hsOf(d.attrs))
		}
		d.gave(r.id, gr.id, d.attrs)
		assign(t, p, r.id, "", "")
	}
}
