package rootd

import (
	"os"
	"sort"
	"strconv"
	"testing"

	"verifharness/gen"
	"verifharness/rec"
)

type profile struct {
	nT, nN, nS, nP, nR, nG, nA [2]int
	steps, batch               [2]int
	w, q                       map[string]int
	chain                      int // percent of traces with long role and tenant chains
	late                       int // percent of objects registered only later, if at all
	locks                      bool
	cycles                     int
	noTenant, noRole, empty    int
	elsewhere                  int // percent of traces with an inherited role in use in some tenant
	ladder                     int // percent of traces with a hierarchy that has very many paths
}

func base() profile {
	return profile{nT: [2]int{1, 4}, nN: [2]int{1, 3}, nS: [2]int{1, 3}, nP: [2]int{1, 3}, nR: [2]int{1, 5}, nG: [2]int{1, 3}, nA: [2]int{3, 8},
		steps: [2]int{14, 30}, batch: [2]int{3, 8},
		w: map[string]int{"reg": 4, "data": 8, "tNs": 3, "tRoles": 3, "tScopes": 3, "tNsScope": 4, "tPrNs": 6, "tDef": 3, "tAssign": 10, "tAssignS": 6,
			"tDesc": 5, "lock": 1, "grant": 8, "grantGrp": 3, "grantId": 3, "rDesc": 5, "gAttrs": 3},
		q:     map[string]int{"member": 8, "act": 8, "rows": 2, "has": 2, "tenants": 1, "get": 1, "perms": 1},
		chain: 6, late: 10, cycles: 15, noTenant: 15, noRole: 6, empty: 6}
}

func profiles(name string) profile {
	p := base()
	switch name {
	case "C13":
		p.q = map[string]int{"member": 24, "act": 1, "rows": 1, "tenants": 1}
		p.noTenant = 25
		p.w["tNsScope"], p.w["tAssignS"], p.w["tPrNs"] = 8, 10, 9
	case "C14":
		p.elsewhere = 30
		p.q = map[string]int{"member": 1, "act": 24, "has": 2}
		p.w["grant"], p.w["rDesc"], p.w["tRoles"] = 12, 9, 6
		p.nR, p.noTenant, p.noRole = [2]int{2, 6}, 20, 25
	case "C15":
		p.elsewhere = 15
		p.nT, p.nP = [2]int{2, 6}, [2]int{2, 4}
		p.w["tDesc"], p.w["tAssign"], p.w["tAssignS"] = 12, 14, 9
		p.q = map[string]int{"member": 8, "act": 8, "rows": 3, "tenants": 6, "report": 4}
	case "C16":
		p.steps, p.batch, p.late = [2]int{22, 44}, [2]int{2, 6}, 30
		p.w["reg"] = 10
		p.q = map[string]int{"member": 8, "act": 8, "rows": 4, "has": 2, "tenants": 3, "get": 1, "perms": 2, "same": 12}
	case "C17":
		p.nR, p.nT, p.nA = [2]int{2, 7}, [2]int{1, 2}, [2]int{4, 10}
		p.w = map[string]int{"reg": 2, "tAssign": 4, "tRoles": 3, "grant": 14, "grantGrp": 9, "grantId": 6, "rDesc": 14, "gAttrs": 8, "lock": 1}
		p.q = map[string]int{"act": 3, "has": 14, "perms": 14, "avail": 3}
	case "C18":
		p.late = 30
		p.w["lock"], p.w["grant"], p.w["grantGrp"], p.w["grantId"], p.w["rDesc"], p.w["tAssign"], p.w["tAssignS"] = 14, 12, 8, 14, 8, 16, 12
		p.q = map[string]int{"member": 5, "act": 5, "rows": 5, "has": 6, "perms": 6, "all": 3}
	case "C20":
		p.late, p.empty, p.noRole = 50, 20, 20
		p.w = map[string]int{"reg": 30, "tAssign": 4, "grantId": 4, "tDef": 2, "data": 2}
		p.q = map[string]int{"get": 16, "list": 8, "totals": 8, "member": 3, "act": 3}
	case "C21":
		p.q = map[string]int{"rows": 24, "ids": 6, "tenants": 4, "report": 10}
		p.w["data"], p.w["tNsScope"], p.w["tAssignS"] = 14, 9, 9
		p.nT = [2]int{1, 5}
	case "C26":
		p.cycles, p.chain, p.ladder = 70, 30, 6
		p.nT, p.nR = [2]int{2, 7}, [2]int{2, 7}
		p.w["tDesc"], p.w["rDesc"] = 18, 18
		p.q = map[string]int{"member": 6, "act": 8, "has": 8, "tenants": 8, "perms": 5, "report": 3, "rolesBelow": 6}
	case "C28":
		p.q = map[string]int{"member": 2, "act": 2, "rows": 14, "ids": 5, "has": 2, "tenants": 8, "perms": 12, "list": 5, "totals": 3, "avail": 4, "report": 4, "rolesBelow": 5}
	}
	return p
}

type obj struct {
	h, id string
	mgr   bool // given to the manager
	def   bool // may have a default namespace
	kids  []*obj
	perms []string
}

type driver struct {
	*World
	g     gen.R
	pf    profile
	lit   gen.Literals
	reqs  []gen.RA
	aims  map[string][]gen.RA
	ids   map[string][]string
	o     map[string][]*obj
	attrs []attr
	recs  []Row
	gids  []string
	have  map[string]map[string][]attr // role id -> group -> attributes
	kids  map[string][]string          // role id -> below
	last  []func()
	n     int
}

type attr struct {
	h  string
	ra gen.RA
}

var kinds = []string{"t", "n", "s", "p", "r", "g"}

func (d *driver) fresh(k string) string { d.n++; return k + strconv.Itoa(d.n) }

func (d *driver) make(k, id string) *obj {
	o := &obj{h: d.fresh(k), id: id}
	d.New(k, o.h, id)
	d.o[k] = append(d.o[k], o)
	return o
}

func (d *driver) reg(k string, os ...*obj) {
	if len(os) == 1 && d.g.P(60) {
		d.Reg(k, os[0].h)
	} else {
		hs := []string{}
		for _, o := range os {
			hs = append(hs, o.h)
		}
		d.Regs(k, hs)
	}
	for _, o := range os {
		o.mgr = true
	}
}

func (d *driver) id(k string) string {
	if d.g.P(3) {
		return gen.Pick(d.g, []string{"no such " + k, ""})
	}
	return gen.Pick(d.g, d.ids[k])
}

func (d *driver) tenant() *obj {
	var l []*obj
	for _, t := range d.o["t"] {
		if t.mgr {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		t := gen.Pick(d.g, d.o["t"])
		d.reg("t", t)
		return t
	}
	return gen.Pick(d.g, l)
}

func reaches(from, to *obj) bool {
	seen := map[*obj]bool{}
	var f func(x *obj) bool
	f = func(x *obj) bool {
		if x == to {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, k := range x.kids {
			if f(k) {
				return true
			}
		}
		return false
	}
	return f(from)
}

func (d *driver) dup(k string, o *obj) bool {
	for _, x := range d.o[k] {
		if x != o && x.id == o.id {
			return true
		}
	}
	return false
}

func (d *driver) tdesc(t *obj, kids ...*obj) {
	hs := []string{}
	for _, k := range kids {
		if d.dup("t", t) || d.dup("t", k) || !k.mgr && t.def || reaches(k, t) && !d.g.P(d.pf.cycles) {
			continue
		}
		hs = append(hs, k.h)
		t.kids = append(t.kids, k)
		k.def = k.def || t.def
	}
	if len(hs) > 0 {
		d.TDesc(t.h, hs)
	}
}

func (d *driver) rdesc(r *obj, kids ...*obj) {
	hs := []string{}
	for _, k := range kids {
		if reaches(k, r) && !d.g.P(d.pf.cycles) {
			continue
		}
		hs = append(hs, k.h)
		r.kids = append(r.kids, k)
		d.kids[r.id] = append(d.kids[r.id], k.id)
	}
	d.RDesc(r.h, hs)
}

func (d *driver) someAttrs(lo, hi int) []attr { return gen.Some(d.g, d.attrs, lo, hi) }

func hsOf(as []attr) []string {
	out := []string{}
	for _, a := range as {
		out = append(out, a.h)
	}
	return out
}

func (d *driver) gave(r, g string, as []attr) {
	if d.have[r] == nil {
		d.have[r] = map[string][]attr{}
	}
	d.have[r][g] = append(d.have[r][g], as...)
}

func (d *driver) opt(pct int, k string) Opt {
	if d.g.P(pct) {
		return Some(d.id(k))
	}
	return Opt{}
}

func (d *driver) row() Row {
	r := Row{T: d.opt(93, "t"), N: d.opt(45, "n"), S: d.opt(45, "s"), P: d.opt(75, "p"), R: d.opt(65, "r")}
	if d.g.P(45) {
		r.M = Some(gen.Pick(d.g, []string{"true", "false"}))
	}
	return r
}

func (d *driver) change(kind string) {
	g := d.g
	switch kind {
	case "reg":
		k := gen.Pick(g, []string{"t", "n", "s", "p", "r", "g", "a"})
		if k == "a" {
			if g.P(40) {
				d.addAttr(gen.Pick(g, d.attrs).ra)
			}
			if g.P(60) {
				d.Reg("a", gen.Pick(g, d.attrs).h)
			} else {
				d.Regs("a", hsOf(d.someAttrs(0, 3)))
			}
			return
		}
		if g.P(40) { // another object with the same id
			d.make(k, gen.Pick(g, d.ids[k]))
		}
		d.reg(k, gen.Some(g, d.o[k], 1, 3)...)
	case "data":
		r := d.row()
		if len(d.recs) > 0 && g.P(40) { // much like one there is
			r = gen.Pick(g, d.recs)
			x := d.row()
			switch g.IntN(6) {
			case 0:
				r.T = x.T
			case 1:
				r.N = x.N
			case 2:
				r.S = x.S
			case 3:
				r.P = x.P
			case 4:
				r.R = x.R
			case 5:
				r.M = x.M
			}
		}
		d.Data(r)
		d.recs = append(d.recs, r)
	case "tNs":
		t, l := d.tenant(), gen.Some(g, d.o["n"], 0, 2)
		d.TNs(t.h, objHs(l))
		for _, x := range l {
			d.recs = append(d.recs, Row{T: Some(t.id), N: Some(x.id)})
		}
	case "tRoles":
		t, l := d.tenant(), gen.Some(g, d.o["r"], 0, 3)
		d.TRoles(t.h, objHs(l))
		for _, x := range l {
			d.recs = append(d.recs, Row{T: Some(t.id), R: Some(x.id)})
		}
	case "tScopes":
		t, l := d.tenant(), gen.Some(g, d.o["s"], 0, 2)
		d.TScopes(t.h, objHs(l))
		for _, x := range l {
			d.recs = append(d.recs, Row{T: Some(t.id), S: Some(x.id)})
		}
	case "tNsScope":
		t, n, s := d.tenant(), d.id("n"), d.id("s")
		d.TNsScope(t.h, n, s)
		d.recs = append(d.recs, Row{T: Some(t.id), N: Some(n), S: Some(s)})
	case "tPrNs":
		t, p, n, r := d.tenant(), d.id("p"), d.id("n"), d.id("r")
		d.TPrNs(t.h, p, n, r)
		d.recs = append(d.recs, Row{T: Some(t.id), P: Some(p), N: Some(n), R: Some(r)})
	case "tDef":
		t := d.tenant()
		t.def = true
		d.TDef(t.h, d.id("n"))
	case "tAssign":
		t, p, m := d.tenant(), d.id("p"), g.P(45)
		rs := []string{}
		for n := gen.Pick(g, []int{1, 1, 1, 2, 3, 0}); n > 0; n-- {
			rs = append(rs, d.id("r"))
		}
		d.TAssign(t.h, p, rs, m)
		for _, r := range rs {
			d.recs = append(d.recs, Row{T: Some(t.id), P: Some(p), R: Some(r), M: Some(strconv.FormatBool(m))})
		}
	case "tAssignS":
		t, p, m := d.tenant(), d.id("p"), g.P(40)
		ss := []string{}
		for n := gen.Pick(g, []int{1, 1, 1, 2, 3, 0}); n > 0; n-- {
			ss = append(ss, d.id("s"))
		}
		d.TAssignS(t.h, p, ss, m)
		for _, s := range ss {
			d.recs = append(d.recs, Row{T: Some(t.id), P: Some(p), S: Some(s), M: Some(strconv.FormatBool(m))})
		}
	case "tDesc":
		if g.P(15) {
			d.tdesc(gen.Pick(g, d.o["t"]), gen.Some(g, d.o["t"], 1, 2)...)
			break
		}
		d.tdesc(d.tenant(), gen.Some(g, d.o["t"], 1, 2)...)
	case "lock":
		d.Lock(gen.Pick(g, d.o["r"]).h, g.P(60))
	case "grant":
		r, gr, as := gen.Pick(g, d.o["r"]), gen.Pick(g, d.gids), d.someAttrs(0, 3)
		d.Grant(r.h, gr, hsOf(as))
		d.gave(r.id, gr, as)
	case "grantGrp":
		r, gr := gen.Pick(g, d.o["r"]), gen.Pick(g, d.o["g"])
		d.GrantGrp(r.h, gr.h)
		d.gave(r.id, gr.id, d.byHs(gr.perms))
	case "grantId":
		r, gr := d.id("r"), d.id("g")
		as := d.someAttrs(0, 2)
		for _, o := range d.o["g"] {
			if o.id == gr && len(o.perms) > 0 && g.P(75) {
				as = gen.Some(g, d.byHs(o.perms), 1, 2)
				if g.P(25) {
					as = append(as, gen.Pick(g, d.attrs))
				}
				break
			}
		}
		d.GrantId(r, gr, hsOf(as))
		d.gave(r, gr, as)
	case "rDesc":
		d.rdesc(gen.Pick(g, d.o["r"]), gen.Some(g, d.o["r"], 1, 2)...)
	case "gAttrs":
		o, as := gen.Pick(g, d.o["g"]), d.someAttrs(0, 3)
		d.GAttrs(o.h, hsOf(as))
		o.perms = append(o.perms, hsOf(as)...)
	}
}

func (d *driver) byHs(hs []string) (out []attr) {
	for _, h := range hs {
		for _, a := range d.attrs {
			if a.h == h {
				out = append(out, a)
			}
		}
	}
	return
}

func objHs(l []*obj) []string {
	out := []string{}
	for _, o := range l {
		out = append(out, o.h)
	}
	return out
}

func (d *driver) addAttr(ra gen.RA) {
	a := attr{d.fresh("a"), ra}
	// the same text divided differently
	if s := ra.String(); d.g.P(10) {
		for i := 0; i < len(s); i++ {
			if s[i] == ' ' && i != len(ra.Res) {
				a.ra = gen.RA{Res: s[:i], Act: s[i+1:]}
				break
			}
		}
	}
	d.NewAttr(a.h, a.ra.Res, a.ra.Act)
	d.attrs = append(d.attrs, a)
}

func (d *driver) setup(perms []gen.RA) {
	g, pf := d.g, d.pf
	if g.P(10) {
		g = g.Joinable(d.lit)
	}
	chain := g.P(pf.chain)
	nT, nR := g.Between(pf.nT[0], pf.nT[1]), g.Between(pf.nR[0], pf.nR[1])
	if chain {
		nT, nR = g.Between(4, 9), g.Between(5, 14)
	}
	ladder := "" // two on every level, each linked to both on the next
	if g.P(pf.ladder) {
		ladder, chain, pf.late = gen.Pick(g, []string{"t", "r"}), false, 0
		d.pf.steps = [2]int{1, 4}
		if ladder == "t" {
			nT, nR = 2*g.Between(30, 40), g.Between(1, 3)
		} else {
			nT, nR = g.Between(1, 2), 2*g.Between(30, 40)
		}
	}
	deep := "" // one long line, with little to find on the way
	if chain && g.P(35) {
		deep, pf.late = gen.Pick(g, []string{"t", "r"}), 0
		d.pf.steps = [2]int{1, 6}
		if deep == "t" {
			nT, nR = g.Size(d.lit, 70), g.Between(1, 3)
		} else {
			nT, nR = g.Between(1, 2), g.Size(d.lit, 70)
		}
	}
	rungs := func(l []*obj, link func(*obj, ...*obj)) {
		for i := 0; i&^1+3 < len(l); i++ {
			j := i &^ 1
			link(l[i], l[j+2], l[j+3])
		}
	}
	nums := map[string]int{"t": nT, "n": g.Between(pf.nN[0], pf.nN[1]), "s": g.Between(pf.nS[0], pf.nS[1]), "p": g.Between(pf.nP[0], pf.nP[1]), "r": nR,
		"g": g.Between(pf.nG[0], pf.nG[1]), "a": g.Between(pf.nA[0], pf.nA[1])}
	large := "" // much of one thing
	if ladder == "" && deep == "" && g.P(6) {
		large = gen.Pick(g, []string{"t", "n", "s", "p", "r", "g", "a"})
		nums[large] = g.Size(d.lit, 40)
		d.pf.steps = [2]int{3, 10}
	}
	d.ids = map[string][]string{
		"t": g.Names(nums["t"], d.lit, g.P(pf.empty)), "n": g.Names(nums["n"], d.lit, g.P(pf.empty)), "s": g.Names(nums["s"], d.lit, g.P(pf.empty)),
		"p": g.Names(nums["p"], d.lit, g.P(pf.empty)), "r": g.Names(nums["r"], d.lit, g.P(pf.noRole)), "g": g.Names(nums["g"], d.lit, g.P(pf.empty))}
	if g.P(12) && ladder == "" && deep == "" { // the same names for everything
		x := g.Names(4, d.lit, false)
		for _, k := range []string{"t", "n", "s", "p"} {
			d.ids[k] = x[:g.Between(2, 4)]
		}
	}
	d.gids = append(append([]string{}, d.ids["g"]...), "loose")
	for n := nums["a"]; n > 0; n-- {
		d.addAttr(gen.Pick(g, perms))
	}
	for _, k := range kinds {
		var l []*obj
		for _, id := range d.ids[k] {
			o := d.make(k, id)
			if !g.P(pf.late) {
				l = append(l, o)
			}
		}
		if g.P(50) {
			d.reg(k, l...)
		} else {
			for _, o := range l {
				d.reg(k, o)
			}
		}
	}
	for _, o := range d.o["g"] {
		as := d.someAttrs(0, 3)
		d.GAttrs(o.h, hsOf(as))
		o.perms = append(o.perms, hsOf(as)...)
	}
	rolesFirst := g.P(50)
	roles := func() {
		for _, r := range d.o["r"] {
			for n := g.Between(0, 2); n > 0 && (ladder != "r" && deep != "r" || g.P(10)); n-- {
				d.change("grant")
			}
			_ = r
		}
		if chain {
			for i := 0; i+1 < len(d.o["r"]); i++ {
				d.rdesc(d.o["r"][i], d.o["r"][i+1])
			}
		}
		if ladder == "r" {
			rungs(d.o["r"], d.rdesc)
			return
		}
		for n := g.Between(0, nR); n > 0 && deep == ""; n-- {
			d.change("rDesc")
		}
	}
	if rolesFirst {
		roles()
	}
	if chain {
		ts := d.o["t"]
		for i := 0; i+1 < len(ts); i++ {
			if ts[i].mgr && ts[i+1].mgr {
				d.tdesc(ts[i], ts[i+1])
			}
		}
	}
	if ladder == "t" {
		rungs(d.o["t"], d.tdesc)
	}
	for n := g.Between(1, 2+min(nT, 10)*2); n > 0; n-- {
		d.change(gen.Pick(g, []string{"tAssign", "tAssign", "tAssignS", "tPrNs", "tNs", "tNsScope", "tDef", "tDesc", "tRoles", "tScopes", "data"}))
	}
	if !rolesFirst {
		roles()
	}
	if ladder != "" {
		d.ladder(ladder)
	}
	if deep != "" {
		d.deep(deep)
	}
	if g.P(pf.elsewhere) {
		d.elsewhere()
	}
	if large != "" {
		d.large(large)
	}
}

// below collects what a role may have, roughly.
func (d *driver) below(r string, depth int) (out [][2]any) {
	gs := make([]string, 0, len(d.have[r]))
	for g := range d.have[r] {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		for _, a := range d.have[r][g] {
			out = append(out, [2]any{g, a.ra})
		}
	}
	if depth > 0 {
		for _, k := range d.kids[r] {
			out = append(out, d.below(k, depth-1)...)
		}
	}
	return
}

func (d *driver) someRow() Row {
	if len(d.recs) == 0 || d.g.P(10) {
		return d.row()
	}
	return gen.Pick(d.g, d.recs)
}

func (d *driver) ask(act bool) (string, Ask) {
	g := d.g
	r := d.someRow()
	for k := 0; k < 5 && (!r.P.Set || act && !r.R.Set); k++ {
		r = d.someRow()
	}
	p := r.P.V
	if !r.P.Set {
		p = d.id("p")
	}
	var a Ask
	a.T, a.N, a.S = r.T, r.N, r.S
	// ask in a tenant below
	if g.P(25) {
		for _, t := range d.o["t"] {
			if t.id == r.T.V && len(t.kids) > 0 {
				x := gen.Pick(g, t.kids)
				if len(x.kids) > 0 && g.P(40) {
					x = gen.Pick(g, x.kids)
				}
				a.T = Some(x.id)
			}
		}
	}
	other := d.someRow()
	switch g.IntN(8) {
	case 0, 1, 2: // of another record of the tenant
		for k := 0; k < 6 && other.T != a.T; k++ {
			other = d.someRow()
		}
		a.N, a.S = other.N, other.S
	case 3:
		a.N, a.S = Opt{}, Opt{}
	case 4:
		a.N = d.opt(70, "n")
	case 5:
		a.S = d.opt(70, "s")
	}
	if act && g.P(50) && (a.N.Set || a.S.Set) {
		a.N, a.S = d.opt(50, "n"), d.opt(50, "s")
	}
	if g.P(d.pf.noTenant) {
		a.T = Opt{}
	}
	if g.P(5) {
		p = d.id("p")
	}
	if g.P(4) {
		a.T = d.opt(80, "t")
	}
	if act {
		a.G, a.A = Some(gen.Pick(g, d.gids)), Some(gen.Pick(g, d.reqs).String())
		if l := d.below(r.R.V, 3); len(l) > 0 && g.P(85) {
			x := gen.Pick(g, l)
			ra := x[1].(gen.RA)
			a.G = Some(x[0].(string))
			if q := d.aims[ra.String()]; len(q) > 0 && g.P(70) {
				a.A = Some(gen.Pick(g, q).String())
			} else {
				a.A = Some(ra.String())
			}
		}
		a.A = Some(g.Activity(a.A.V, d.reqs))
		if g.P(3) {
			a.G = Opt{}
		}
		if g.P(3) {
			a.A = Opt{}
		}
	} else if g.P(5) {
		a.G = Some(gen.Pick(g, d.gids))
	}
	who := Some(p)
	d.near(&who, &a.T, &a.N, &a.S, &a.G)
	return who.V, a
}

func (d *driver) args() (p, t, n, s, r, m Opt) {
	x := d.someRow()
	p, t, n, s, r, m = x.P, x.T, x.N, x.S, x.R, x.M
	fill := func(o *Opt, k string) {
		if !o.Set && d.g.P(60) || d.g.P(12) {
			*o = d.opt(90, k)
		}
	}
	fill(&p, "p")
	fill(&t, "t")
	fill(&n, "n")
	fill(&s, "s")
	if d.g.P(30) {
		r = Opt{}
	}
	d.near(&p, &t, &n, &s, &r)
	return
}

// near sometimes takes an identifier for another one.
func (d *driver) near(os ...*Opt) {
	if o := gen.Pick(d.g, os); d.g.P(12) && o.Set {
		o.V = d.g.Near(o.V, d.lit)
	}
}

func (d *driver) do(f func()) { d.last = append(d.last, f); f() }

func (d *driver) query(kind string) {
	g := d.g
	switch kind {
	case "member", "act":
		p, a := d.ask(kind == "act")
		d.do(func() { d.Authorize(p, a) })
	case "rows":
		p, t, n, s, r, m := d.args()
		f := gen.Pick(g, RowQueries)
		if f == "Search" && g.P(50) {
			p, t, n, s, r, m = keepSome(g, p), keepSome(g, t), keepSome(g, n), keepSome(g, s), keepSome(g, r), keepSome(g, m)
		}
		d.do(func() { d.Rows(f, p, t, n, s, r, m) })
	case "ids":
		p, t, n, s, r, m := d.args()
		f, k := gen.Pick(g, RowQueries), gen.Pick(g, []string{"t", "p", "r", "n", "s"})
		d.do(func() { d.Ids(f, k, p, t, n, s, r, m) })
	case "has":
		r := gen.Pick(g, d.o["r"])
		gr, a := gen.Pick(g, d.gids), gen.Pick(g, d.reqs).String()
		if l := d.below(r.id, 3); len(l) > 0 && g.P(80) {
			x := gen.Pick(g, l)
			gr = x[0].(string)
			ra := x[1].(gen.RA)
			a = ra.String()
			if q := d.aims[a]; len(q) > 0 && g.P(70) {
				a = gen.Pick(g, q).String()
			}
		}
		a = g.Activity(a, d.reqs)
		var allowed []string
		if g.P(40) {
			allowed = gen.Some(g, d.ids["r"], 1, 3)
		}
		d.do(func() { d.Has(r.h, gr, a, allowed) })
	case "tenants":
		switch g.IntN(4) {
		case 0:
			p := d.opt(95, "p")
			d.do(func() { d.TenantsBy(p) })
		case 1:
			p := d.id("p")
			d.do(func() { d.Implicit(p) })
		case 2:
			t, o := d.id("t"), g.P(50)
			d.do(func() { d.Children(t, o) })
		case 3:
			d.Below(gen.Pick(g, d.o["t"]).h)
		}
	case "rolesBelow":
		d.RolesBelow(gen.Pick(g, d.o["r"]).h)
	case "get":
		k := gen.Pick(g, []string{"t", "n", "s", "p", "r", "g", "a"})
		if k == "a" {
			d.Get(k, gen.Pick(g, d.attrs).ra.String())
		} else {
			d.Get(k, d.id(k))
		}
	case "list":
		d.List(gen.Pick(g, []string{"t", "n", "s", "p", "r", "a"}))
	case "totals":
		d.Totals(g.IntN(4))
	case "perms":
		r := gen.Pick(g, d.o["r"])
		switch g.IntN(3) {
		case 0:
			d.do(func() { d.Perms(r.h) })
		case 1:
			own := g.P(30)
			if hs := objHs(gen.Some(g, d.o["r"], 1, 3)); g.P(25) {
				d.do(func() { d.CollectPerms(hs) })
				break
			}
			d.do(func() { d.ImplicitPerms(r.h, own) })
		case 2:
			gr := gen.Pick(g, d.gids)
			d.do(func() { d.GroupPerms(r.h, gr) })
		}
	case "avail":
		d.do(func() { d.Available() })
	case "report":
		x := d.someRow()
		p, t, n := x.P, x.T, x.N
		if !p.Set {
			p = Some(d.id("p"))
		}
		if !t.Set || g.P(25) {
			t = Some(d.id("t"))
		}
		if g.P(40) {
			n = d.opt(80, "n")
		}
		d.do(func() { d.ScopesRoles(p.V, t.V, n) })
	case "all":
		d.Rows("Data", Opt{}, Opt{}, Opt{}, Opt{}, Opt{}, Opt{})
		for _, r := range d.o["r"] {
			d.Perms(r.h)
		}
	case "same":
		if len(d.last) > 0 {
			gen.Pick(g, d.last)()
		}
	}
}

func keepSome(g gen.R, o Opt) Opt {
	if g.P(50) {
		return Opt{}
	}
	return o
}

func pickW(g gen.R, names []string, m map[string]int) string {
	ws := make([]int, len(names))
	for i, n := range names {
		ws[i] = m[n]
	}
	return names[g.Weighted(ws)]
}

var changes = []string{"reg", "data", "tNs", "tRoles", "tScopes", "tNsScope", "tPrNs", "tDef", "tAssign", "tAssignS", "tDesc", "lock", "grant", "grantGrp", "grantId", "rDesc", "gAttrs"}
var queries = []string{"member", "act", "rows", "ids", "has", "tenants", "rolesBelow", "get", "list", "totals", "perms", "avail", "report", "all", "same"}

func TestDrive(t *testing.T) {
	name := os.Getenv("PROFILE")
	if name == "" {
		t.Skip()
	}
	seed := uint64(rec.EnvInt("SEED", 1))
	start, n := rec.EnvInt("START", 0), rec.EnvInt("N", 10)
	lit := gen.Scan(gen.Repo())
	perms, reqs := gen.New(seed, 1778+uint64(start/gen.Chunk)).Vocabulary(30, 54, lit)
	aims := gen.Aims(perms, reqs)
	r := rec.Open()
	for i := start; i < start+n; i++ {
		r.Run(i, nil, func() { drive(r, name, seed, i, lit, perms, reqs, aims) })
	}
}

func drive(r *rec.Rec, name string, seed uint64, i int, lit gen.Literals, perms, reqs []gen.RA, aims map[string][]gen.RA) *driver {
	g := gen.New(seed, uint64(i)+5000+gen.Hash(name))
	pf := profiles(name)
	d := &driver{World: NewWorld(r), g: g, pf: pf, lit: lit, reqs: reqs, aims: aims, o: map[string][]*obj{},
		have: map[string]map[string][]attr{}, kids: map[string][]string{}}
	d.Scrib = name == "C28" || name == "C16" || g.P(30)
	d.setup(perms)
	ask := func() {
		for k := g.Between(pf.batch[0], pf.batch[1]); k > 0; k-- {
			d.query(pickW(g, queries, pf.q))
		}
	}
	ask()
	for k := g.Between(pf.steps[0], pf.steps[1]); k > 0; k-- {
		d.change(pickW(g, changes, pf.w))
		if g.P(60) {
			ask()
		}
	}
	ask()
	return d
}

// ladder gives a principal all tenants of a hierarchy with very many paths, or
// the role above very many paths, and asks from the top.
func (d *driver) ladder(kind string) {
	g := d.g
	p := gen.Pick(g, d.ids["p"])
	if kind == "t" {
		all := g.P(70)
		for i, t := range d.o["t"] {
			if i < 2 || all {
				r := gen.Pick(g, append([]string{"nothing"}, d.ids["r"]...))
				d.TAssign(t.h, p, []string{r}, true)
				d.recs = append(d.recs, Row{T: Some(t.id), P: Some(p), R: Some(r), M: Some("true")})
			}
		}
		top, end := d.o["t"][g.IntN(2)], d.o["t"][len(d.o["t"])-1]
		d.Authorize(p, Ask{T: Some(end.id)})
		d.Authorize(p, Ask{T: Some(top.id), N: Some(d.id("n"))})
		d.Authorize(p, Ask{T: Some(end.id), G: Some(gen.Pick(g, d.gids)), A: Some(gen.Pick(g, d.reqs).String())})
		d.Authorize(p, Ask{T: Some("nowhere")})
		d.Implicit(p)
		d.Below(top.h)
		d.Children(top.id, g.P(50))
		return
	}
	top, end := d.o["r"][g.IntN(2)], d.o["r"][len(d.o["r"])-1]
	t := d.tenant()
	d.TAssign(t.h, p, []string{top.id}, true)
	d.recs = append(d.recs, Row{T: Some(t.id), P: Some(p), R: Some(top.id), M: Some("true")})
	req := gen.Pick(g, d.reqs).String()
	d.Authorize(p, Ask{T: Some(t.id), G: Some(gen.Pick(g, d.gids)), A: Some(req)})
	d.Has(top.h, gen.Pick(g, d.gids), req, nil)
	d.Has(top.h, gen.Pick(g, d.gids), req, []string{end.id})
	d.RolesBelow(top.h)
	d.ImplicitPerms(top.h, g.P(50))
}

// deep asks the top of a long line for what only its far end has.
func (d *driver) deep(kind string) {
	g := d.g
	p := gen.Pick(g, d.ids["p"])
	as := d.someAttrs(1, 2)
	gid := gen.Pick(g, d.gids)
	req := gen.Pick(g, d.reqs)
	if len(as) > 0 {
		if q := d.aims[gen.Pick(g, as).ra.String()]; len(q) > 0 {
			req = gen.Pick(g, q)
		}
	}
	if kind == "t" {
		r := gen.Pick(g, d.o["r"])
		d.Grant(r.h, gid, hsOf(as))
		d.gave(r.id, gid, as)
		top, end := d.o["t"][0], d.o["t"][len(d.o["t"])-1]
		d.TAssign(top.h, p, []string{r.id}, true)
		d.recs = append(d.recs, Row{T: Some(top.id), P: Some(p), R: Some(r.id), M: Some("true")})
		for _, x := range []*obj{end, gen.Pick(g, d.o["t"])} {
			d.Authorize(p, Ask{T: Some(x.id)})
			d.Authorize(p, Ask{T: Some(x.id), G: Some(gid), A: Some(req.String())})
		}
		d.Implicit(p)
		d.Below(top.h)
		d.Children(top.id, g.P(50))
		return
	}
	top, end := d.o["r"][0], d.o["r"][len(d.o["r"])-1]
	d.Grant(end.h, gid, hsOf(as))
	d.gave(end.id, gid, as)
	t := d.tenant()
	d.TAssign(t.h, p, []string{top.id}, true)
	d.recs = append(d.recs, Row{T: Some(t.id), P: Some(p), R: Some(top.id), M: Some("true")})
	d.Authorize(p, Ask{T: Some(t.id), G: Some(gid), A: Some(req.String())})
	d.Has(top.h, gid, req.String(), nil)
	d.Has(top.h, gid, req.String(), []string{end.id})
	d.RolesBelow(top.h)
	d.ImplicitPerms(top.h, g.P(50))
}

// elsewhere lets a role inherit from one that is in use here or elsewhere.
func (d *driver) elsewhere() {
	g := d.g
	if len(d.o["r"]) < 2 {
		return
	}
	p, q := gen.Pick(g, d.ids["p"]), gen.Pick(g, d.ids["p"])
	a, b := gen.Pick(g, d.o["r"]), gen.Pick(g, d.o["r"])
	t, x := d.tenant(), d.tenant()
	as, gid := d.someAttrs(1, 2), gen.Pick(g, d.gids)
	d.Grant(b.h, gid, hsOf(as))
	d.gave(b.id, gid, as)
	d.rdesc(a, b)
	give := func(t *obj, p string, r *obj) {
		row := Row{T: Some(t.id), P: Some(p), R: Some(r.id)}
		switch g.IntN(4) {
		case 0:
			row.N = Some(d.id("n"))
			d.TPrNs(t.h, p, row.N.V, r.id)
		case 1:
			row.N, row.S = d.opt(60, "n"), d.opt(60, "s")
			d.Data(row)
		default:
			m := g.P(60)
			row.M = Some(strconv.FormatBool(m))
			d.TAssign(t.h, p, []string{r.id}, m)
		}
		d.recs = append(d.recs, row)
	}
	if g.P(70) {
		d.tdesc(t, x)
	}
	give(t, p, a)
	if g.P(40) {
		give(t, p, a)
	}
	switch g.IntN(5) {
	case 0:
		d.TRoles(x.h, []string{b.h})
	case 1, 2:
		give(x, q, b)
	case 3:
		give(x, p, a)
	}
	req := gen.Pick(g, d.reqs)
	if aim := d.aims[gen.Pick(g, as).ra.String()]; len(aim) > 0 {
		req = gen.Pick(g, aim)
	}
	for _, where := range []Opt{Some(t.id), Some(x.id), {}} {
		for k := 0; k < 3; k++ {
			o := Ask{T: where, N: d.opt(50, "n"), S: d.opt(50, "s"), G: Some(gid), A: Some(req.String())}
			if !where.Set {
				o.N, o.S = Some(d.id("n")), Some(d.id("s"))
			}
			d.Authorize(p, o)
		}
	}
}

// large uses everything there is of one kind in one place.
func (d *driver) large(kind string) {
	g := d.g
	d.pf.batch = [2]int{6, 14}
	p, r := gen.Pick(g, d.ids["p"]), gen.Pick(g, d.o["r"])
	t := d.tenant()
	m := g.P(50)
	assign := func(t *obj, p string, rs ...string) {
		d.TAssign(t.h, p, rs, m)
		for _, r := range rs {
			d.recs = append(d.recs, Row{T: Some(t.id), P: Some(p), R: Some(r), M: Some(strconv.FormatBool(m))})
		}
	}
	switch kind {
	case "t":
		if g.P(50) {
			for _, x := range d.o["t"] {
				if x.mgr {
					assign(x, p, r.id)
				}
			}
		} else {
			assign(t, p, r.id)
			d.tdesc(t, d.o["t"]...)
		}
	case "n":
		d.TNs(t.h, objHs(d.o["n"]))
		for _, o := range d.o["n"] {
			d.recs = append(d.recs, Row{T: Some(t.id), N: Some(o.id)})
			if g.P(50) {
				d.TPrNs(t.h, p, o.id, r.id)
				d.recs = append(d.recs, Row{T: Some(t.id), N: Some(o.id), P: Some(p), R: Some(r.id)})
			}
		}
	case "s":
		d.TScopes(t.h, objHs(d.o["s"]))
		d.TAssignS(t.h, p, append([]string{}, d.ids["s"]...), m)
		for _, o := range d.o["s"] {
			d.recs = append(d.recs, Row{T: Some(t.id), S: Some(o.id), P: Some(p)})
		}
	case "p":
		for _, o := range d.o["p"] {
			assign(t, o.id, r.id)
		}
	case "r":
		if g.P(50) {
			assign(t, p, d.ids["r"]...)
		} else {
			d.rdesc(r, d.o["r"]...)
			assign(t, p, r.id)
		}
		if g.P(50) {
			d.TRoles(t.h, objHs(d.o["r"]))
		}
	case "g":
		for _, o := range d.o["g"] {
			as := d.someAttrs(0, 1)
			d.Grant(r.h, o.id, hsOf(as))
			d.gave(r.id, o.id, as)
		}
		assign(t, p, r.id)
	case "a":
		gr := gen.Pick(g, d.o["g"])
		if g.P(50) {
			d.GAttrs(gr.h, hsOf(d.attrs))
			gr.perms = append(gr.perms, hsOf(d.attrs)...)
			d.GrantGrp(r.h, gr.h)
		} else {
			d.Grant(r.h, gr.id, hsOf(d.attrs))
		}
		d.gave(r.id, gr.id, d.attrs)
		assign(t, p, r.id)
	}
}
