package v2d

import (
	"os"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/gen"
	"verifharness/rec"
)

// Profile says what a driver run concentrates on.
type profile struct {
	nT, nR, nP, nA, nN, nS [2]int
	steps                  [2]int
	w                      map[string]int // weights of the changes
	q                      map[string]int // weights of the queries
	chain                  int            // percent of traces with a long role chain
	many                   int            // percent of traces with many tenants of one principal
	cycles                 int            // percent of tenant links that may close a cycle
	expiry                 bool
	large                  int // percent of traces with one kind of thing large in number
	sizes                  int // percent of traces sized by a constant of the sources
	noTenant               int // percent of requests without a tenant
	logging                int
	deepT                  int // percent of traces with a long tenant chain
	ladder                 int // percent of traces with a hierarchy that has very many paths
	batch                  [2]int
}

func base() profile {
	return profile{nT: [2]int{1, 5}, nR: [2]int{1, 5}, nP: [2]int{1, 3}, nA: [2]int{1, 9}, nN: [2]int{1, 3}, nS: [2]int{0, 3},
		steps: [2]int{12, 26},
		w: map[string]int{"perm": 10, "unperm": 6, "link": 6, "role": 3, "asg": 14, "unasg": 6, "ns": 5, "scope": 5, "child": 6, "tenant": 3,
			"status": 3, "def": 3, "exp": 4, "tick": 3, "rereg": 2},
		q:     map[string]int{"authorize": 12, "can": 4, "perms": 1, "kids": 1, "get": 1},
		chain: 8, many: 6, cycles: 20, expiry: true, large: 5, sizes: 4, noTenant: 15, logging: 50, deepT: 5, batch: [2]int{3, 9}}
}

func profiles(name string) profile {
	p := base()
	switch name {
	case "C01":
	case "C02":
		p.nT, p.nP, p.nA = [2]int{2, 7}, [2]int{2, 4}, [2]int{3, 14}
		p.w["child"], p.w["asg"], p.expiry = 14, 18, true
		p.w["tenant"], p.w["rereg"] = 8, 8
		p.deepT = 15
	case "C03":
		p.nT, p.nN, p.nS, p.nA = [2]int{1, 3}, [2]int{1, 4}, [2]int{1, 4}, [2]int{3, 12}
		p.w["ns"], p.w["scope"], p.w["asg"] = 14, 14, 18
	case "C04":
		p.nR, p.nT, p.chain, p.large = [2]int{2, 9}, [2]int{1, 2}, 25, 8
		p.w["link"], p.w["role"], p.w["perm"], p.w["unperm"], p.w["rereg"] = 26, 8, 12, 6, 4
		p.q = map[string]int{"authorize": 5, "can": 5, "perms": 8, "kids": 8, "get": 1}
	case "C05":
		p.steps, p.batch = [2]int{20, 40}, [2]int{2, 5}
		p.w["unperm"], p.w["unasg"], p.w["rereg"], p.w["role"] = 10, 10, 6, 6
		p.q = map[string]int{"authorize": 10, "can": 5, "perms": 4, "kids": 4, "get": 3, "same": 14}
	case "C06":
		p.w["exp"], p.w["tick"], p.w["asg"] = 30, 24, 10
		p.q = map[string]int{"authorize": 10, "can": 6, "expired": 6}
		p.nA, p.nT = [2]int{1, 6}, [2]int{1, 4}
		p.steps = [2]int{20, 36}
	case "C07":
		p.w["unasg"], p.w["asg"] = 30, 30
		p.nA, p.nP, p.nT = [2]int{2, 12}, [2]int{2, 3}, [2]int{1, 4}
	case "C08":
		p.q = map[string]int{"authorize": 1, "can": 16}
		p.nR, p.nN = [2]int{2, 6}, [2]int{1, 4}
		p.w["link"], p.w["asg"] = 12, 18
	case "C09":
		p.many, p.noTenant, p.nT = 25, 55, [2]int{2, 7}
		p.w["status"], p.w["def"], p.w["tenant"], p.w["rereg"] = 14, 12, 10, 5
		p.q = map[string]int{"authorize": 12, "can": 6, "get": 4}
	case "C10":
		p.logging = 100
		p.noTenant = 30
	case "C26":
		p.cycles, p.nT, p.deepT, p.chain, p.ladder = 70, [2]int{2, 8}, 25, 25, 6
		p.w["child"] = 24
	case "C28":
		p.q = map[string]int{"authorize": 5, "can": 3, "perms": 12, "kids": 12, "get": 2}
		p.nR = [2]int{2, 6}
		p.w["link"], p.w["perm"], p.w["unperm"] = 14, 14, 8
	}
	return p
}

type th struct {
	h, id string
	ns    []string
	kids  []*th
	sc    [][2]string
	rel   bool // is or has a child
	reg   bool
	off   bool
}

type rh struct {
	h, name string
	perms   []Perm
}

type ah struct {
	h             string
	p, t, n, s, r string
	exp           int
	held          bool
	mng           bool
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

type driver struct {
	*World
	g     gen.R
	pf    profile
	lit   gen.Literals
	perms []gen.RA
	reqs  []gen.RA
	P     []string
	N     []string
	S     []string
	RN    []string
	TN    []string
	roles []*rh
	tens  []*th
	asgs  []*ah
	links map[string][]string
	now   int
	n     int
	last  []func()
	deft  string
	asked func()
	aims  map[string][]gen.RA
}

func (d *driver) fresh(kind string) string { d.n++; return kind + strconv.Itoa(d.n) }

func (d *driver) perm() Perm {
	p := gen.Pick(d.g, d.perms)
	return Perm{gen.Pick(d.g, []string{"", "route", "page"}), p.Res, p.Act}
}

func (d *driver) addRole(name string) *rh {
	r := &rh{h: d.fresh("R"), name: name}
	d.NewRole(r.h, name)
	d.roles = append(d.roles, r)
	return r
}

func (d *driver) givePerms(r *rh, lo, hi int) {
	var ps []Perm
	for n := d.g.Between(lo, hi); n > 0; n-- {
		ps = append(ps, d.perm())
	}
	d.AddPerm(r.h, ps)
	r.perms = append(r.perms, ps...)
}

func (d *driver) addKids(dag, r string, rs []string) {
	if dag == "A" {
		d.links[r] = append(d.links[r], rs...)
	}
	d.AddKids(dag, r, rs)
}

func (d *driver) dag() string {
	if d.g.P(70) {
		return "A"
	}
	return "D"
}

func (d *driver) addTenant(id string) *th {
	t := &th{h: d.fresh("T"), id: id}
	hasDef := d.g.P(40)
	def := ""
	if hasDef {
		def = gen.Pick(d.g, d.N)
		t.ns = append(t.ns, def)
	}
	d.NewTenant(t.h, id, hasDef, def)
	d.tens = append(d.tens, t)
	return t
}

func (d *driver) giveScopes(t *th, n string, ss []string) {
	for _, s := range ss {
		t.sc = append(t.sc, [2]string{n, s})
	}
	d.AddScopes(t.h, n, ss)
}

func (d *driver) orEmpty(pct int, xs []string) string {
	if len(xs) == 0 || d.g.P(pct) {
		return ""
	}
	return gen.Pick(d.g, xs)
}

func (d *driver) newAsg() *ah {
	a := &ah{h: d.fresh("A"), p: gen.Pick(d.g, d.P), r: gen.Pick(d.g, d.RN), exp: Never}
	t := gen.Pick(d.g, d.tens)
	a.t = t.id
	if d.g.P(4) {
		a.t = gen.Pick(d.g, d.TN)
	}
	if len(t.ns) > 0 && d.g.P(55) {
		a.n = gen.Pick(d.g, t.ns)
	} else {
		a.n = d.orEmpty(60, d.N)
	}
	a.s = d.orEmpty(55, d.S)
	if d.g.P(3) {
		a.r = ""
	}
	a.mng = d.g.P(45)
	if d.g.P(88) { // make sure the tenant has the namespace and the scope
		if a.n == "" && len(t.ns) == 0 && len(d.N) > 0 {
			n := gen.Pick(d.g, d.N)
			d.AddNs(t.h, n, d.g.P(40), false)
			t.ns = append(t.ns, n)
		}
		if a.n != "" && !has(t.ns, a.n) {
			d.AddNs(t.h, a.n, false, false)
			t.ns = append(t.ns, a.n)
		}
		if a.s != "" && len(t.ns) > 0 {
			n := a.n
			if n == "" {
				n = gen.Pick(d.g, t.ns)
			}
			d.AddScopes(t.h, n, []string{a.s})
			t.sc = append(t.sc, [2]string{n, a.s})
		}
	}
	d.NewAsg(a.h, a.p, a.t, a.n, a.s, a.r, a.mng)
	d.asgs = append(d.asgs, a)
	return a
}

func (d *driver) hold(as ...*ah) {
	var hs []string
	for _, a := range as {
		hs = append(hs, a.h)
		a.held = true
	}
	if hs == nil {
		hs = []string{}
	}
	d.AddAsg(hs)
}

func (d *driver) reaches(from, to *th) bool {
	seen := map[*th]bool{}
	var f func(x *th) bool
	f = func(x *th) bool {
		if x == to {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, k := range x.kids {
			if f(k) {
				return true
			}
		}
		return false
	}
	return f(from)
}

func (d *driver) link(parent *th, kids ...*th) {
	var hs []string
	for _, k := range kids {
		if d.dup(parent.id, parent) || d.dup(k.id, k) {
			continue // two objects with one id in a hierarchy: not a configuration we judge
		}
		if d.reaches(k, parent) && !d.g.P(d.pf.cycles) {
			continue
		}
		hs = append(hs, k.h)
		parent.kids = append(parent.kids, k)
		parent.rel, k.rel = true, true
	}
	if hs == nil {
		if !d.g.P(10) {
			return
		}
		hs = []string{}
	}
	d.AddChildren(parent.h, hs)
}

func (d *driver) dup(id string, not *th) bool {
	for _, t := range d.tens {
		if t.id == id && t != not {
			return true
		}
	}
	return false
}

func (d *driver) register(ts ...*th) {
	var hs []string
	for _, t := range ts {
		hs = append(hs, t.h)
		t.reg = true
	}
	if hs == nil {
		hs = []string{}
	}
	d.AddTenants(hs)
}

func (d *driver) size(dim string, lo, hi int) int {
	return d.g.Between(lo, hi)
}

func (d *driver) setup() {
	g, pf := d.g, d.pf
	if g.P(10) {
		g = g.Joinable(d.lit)
	}
	nT, nR, nA := g.Between(pf.nT[0], pf.nT[1]), g.Between(pf.nR[0], pf.nR[1]), g.Between(pf.nA[0], pf.nA[1])
	chain := g.P(pf.chain)
	many := g.P(pf.many)
	deepT := g.P(pf.deepT)
	big := 0
	if len(d.lit.Ints) > 0 && g.P(pf.sizes) {
		if k := gen.Pick(g, d.lit.Ints); k <= 64 {
			big = k + g.Between(-1, 2)
		}
	}
	if chain {
		nR = g.Between(8, 24)
		if big > 3 {
			nR = big
		}
	}
	if many {
		nT = g.Between(8, 26)
		if big > 3 && big < 40 {
			nT = big
		}
	}
	if deepT {
		nT = g.Between(5, 12)
	}
	// one kind of thing is large in number, often about a constant of the sources
	large, much := "", 0
	if g.P(pf.large) {
		large, much = gen.Pick(g, []string{"perms", "perms", "asgs", "ns", "scopes", "roles", "tenants", "kids"}), g.Size(d.lit, 70)
		chain, many, deepT = large == "roles", large == "tenants" && g.P(50), false
		d.pf.steps = [2]int{3, 10}
		switch large {
		case "roles", "kids":
			nR = max(2, much)
		case "tenants":
			nT = max(1, much)
		case "asgs":
			nA = much
		case "perms":
			d.pf.noTenant, nT = 50, max(nT, 3)
		}
	}
	ladder, rungs := "", 0 // two on every level, each linked to both on the next
	if g.P(pf.ladder) {
		ladder, rungs = gen.Pick(g, []string{"t", "r"}), g.Between(30, 40)
		chain, many, deepT, large = false, false, false, ""
		nA = g.Between(pf.nA[0], pf.nA[1])
		d.pf.steps = [2]int{1, 4}
		if ladder == "t" {
			nT, nR = 2*rungs, g.Between(1, 3)
		} else {
			nT, nR = g.Between(1, 2), 2*rungs
		}
	}
	d.P = g.Names(g.Between(pf.nP[0], pf.nP[1]), d.lit, g.P(5))
	nN, nS := g.Between(pf.nN[0], pf.nN[1]), g.Between(pf.nS[0], pf.nS[1])
	if large == "ns" {
		nN = max(1, much)
	}
	if large == "scopes" {
		nS = much
	}
	d.N = g.Names(nN, d.lit, g.P(8))
	d.S = g.Names(nS, d.lit, false)
	d.RN = g.Names(nR, d.lit, g.P(5))
	d.TN = g.Names(nT+1, d.lit, g.P(5))
	if large == "" && g.P(12) { // the same names for everything
		x := g.Names(4, d.lit, false)
		d.P, d.N, d.S = x[:len(d.P)%4+1], x[:len(d.N)%4+1], x[:3]
	}
	// Roles
	late, sparse := g.P(25), g.P(60)
	for _, n := range d.RN {
		r := d.addRole(n)
		if g.P(88) {
			if (ladder == "r" && len(d.roles) < nR-4 || chain && sparse) && g.P(90) {
				continue
			}
			d.givePerms(r, 1, 4)
		}
	}
	if large == "perms" {
		r := gen.Pick(g, d.roles)
		var ps []Perm
		for k := len(r.perms); k < much; k++ {
			ps = append(ps, Perm{"", "~" + strconv.Itoa(k), "any"})
		}
		d.AddPerm(r.h, ps)
	}
	every := 92
	if chain && g.P(70) {
		every = 100
	}
	reg := func() {
		for _, dag := range []string{"A", "D"} {
			hs := []string{}
			for _, r := range d.roles {
				if g.P(every) {
					hs = append(hs, r.h)
				}
			}
			d.AddRoles(dag, hs)
		}
	}
	if !late {
		reg()
	}
	if chain {
		order := g.Perm(len(d.RN))
		how, mixed := g.IntN(3), g.Perm(len(order)-1)
		for i := 0; i+1 < len(order); i++ {
			j := []int{i, len(order) - 2 - i, mixed[i]}[how]
			for _, dag := range []string{"A", "D"} {
				d.addKids(dag, d.RN[order[j]], []string{d.RN[order[j+1]]})
			}
		}
		if sparse {
			d.givePerms(d.roles[order[len(order)-1]], 1, 2)
		}
		top, end := d.RN[order[g.IntN(2)]], d.RN[order[len(order)-1]]
		d.asked = func() {
			d.Perms("D", top)
			d.Kids("D", top)
			a := d.newAsg()
			a.h, a.r = d.fresh("A"), top
			d.NewAsg(a.h, a.p, a.t, a.n, a.s, a.r, a.mng)
			d.hold(a)
			q := Req{P: a.p, T: a.t, N: a.n, S: a.s}
			for _, p := range d.permsBelow(end, 1) {
				ra := d.instance(p)
				q.Res, q.Act = ra.Res, ra.Act
				d.Authorize(q)
			}
			d.Can(q, []string{end})
		}
	} else if large == "kids" {
		i := g.IntN(nR)
		for j, r := range d.RN {
			if i != j {
				for _, dag := range []string{"A", "D"} {
					d.addKids(dag, d.RN[i], []string{r})
				}
			}
		}
	} else if ladder == "r" {
		for i := 0; i+2 < nR; i++ {
			j := i &^ 1
			for _, dag := range []string{"A", "D"} {
				d.addKids(dag, d.RN[i], []string{d.RN[j+2], d.RN[j+3]})
			}
		}
	} else {
		for k := g.Between(0, nR); k > 0; k-- {
			dag := d.dag()
			d.addKids(dag, gen.Pick(g, d.RN), gen.Some(g, d.RN, 1, 3))
		}
	}
	if late {
		reg()
	}
	// Tenants
	for _, id := range d.TN[:nT] {
		t := d.addTenant(id)
		if large == "ns" && (g.P(30) || len(d.tens) == nT) {
			for _, n := range d.N {
				d.AddNs(t.h, n, g.P(2), g.P(50))
				t.ns = append(t.ns, n)
			}
		}
		for k := g.Between(0, min(4, len(d.N))); k > 0; k-- {
			n := gen.Pick(g, d.N)
			d.AddNs(t.h, n, g.P(25), g.P(50))
			t.ns = append(t.ns, n)
		}
		if large == "scopes" && len(t.ns) > 0 {
			d.giveScopes(t, gen.Pick(g, t.ns), d.S)
		}
		for k := g.Between(0, min(4, len(d.S))); k > 0 && len(t.ns) > 0 && ladder != "t"; k-- {
			d.giveScopes(t, gen.Pick(g, t.ns), gen.Some(g, d.S, 1, 3))
		}
	}
	linkFirst := g.P(50)
	links := func() {
		if deepT {
			for i := 0; i+1 < len(d.tens); i++ {
				d.link(d.tens[i], d.tens[i+1])
			}
		}
		if ladder == "t" {
			for i := 0; i+2 < len(d.tens); i++ {
				j := i &^ 1
				d.link(d.tens[i], d.tens[j+2], d.tens[j+3])
			}
			return
		}
		if large == "tenants" && g.P(60) {
			p := gen.Pick(g, d.tens)
			for _, t := range d.tens {
				if t != p {
					d.link(p, t)
				}
			}
		}
		for k := g.Between(0, min(8, nT)); k > 0 && nT > 1; k-- {
			d.link(gen.Pick(g, d.tens), gen.Some(g, d.tens, 1, 2)...)
		}
	}
	if linkFirst {
		links()
	}
	d.register(gen.Subset(g, d.tens, 90)...)
	if !linkFirst {
		links()
	}
	// Assignments
	var as []*ah
	for k := 0; k < nA; k++ {
		as = append(as, d.newAsg())
	}
	if many {
		p := gen.Pick(g, d.P)
		few, that := g.P(60), g.IntN(len(d.tens)) // one of many tenants decides
		for i, t := range d.tens {
			a := &ah{h: d.fresh("A"), p: p, t: t.id, r: gen.Pick(g, d.RN), exp: Never}
			if few && i != that {
				a.r = "nothing"
			}
			d.NewAsg(a.h, a.p, a.t, a.n, a.s, a.r, false)
			d.asgs = append(d.asgs, a)
			as = append(as, a)
		}
	}
	if ladder == "t" && g.P(90) {
		p, every := gen.Pick(g, d.P), g.P(80)
		for i, t := range d.tens {
			a := &ah{h: d.fresh("A"), p: p, t: t.id, r: gen.Pick(g, []string{"", "nothing"}), exp: Never, mng: true}
			if i >= len(d.tens)-2 || !every && g.P(20) {
				a.r = gen.Pick(g, d.RN)
			}
			d.NewAsg(a.h, a.p, a.t, a.n, a.s, a.r, a.mng)
			d.asgs = append(d.asgs, a)
			as = append(as, a)
		}
	}
	if deepT && g.P(70) {
		p := gen.Pick(g, d.P)
		for i, t := range d.tens {
			if g.P(90) {
				a := &ah{h: d.fresh("A"), p: p, t: t.id, r: "", exp: Never, mng: true}
				if i == len(d.tens)-1 {
					a.r = gen.Pick(g, d.RN)
				}
				d.NewAsg(a.h, a.p, a.t, a.n, a.s, a.r, a.mng)
				d.asgs = append(d.asgs, a)
				as = append(as, a)
			}
		}
	}
	if g.P(10) && big > 3 {
		for k := 0; k < big; k++ {
			as = append(as, d.newAsg())
		}
	}
	d.hold(as...)
	if ladder != "" {
		d.asked = func() {
			for _, p := range d.P {
				q := d.request()
				q.P = p
				if ladder == "t" {
					q.T = d.TN[g.IntN(2)]
				}
				d.Authorize(q)
				d.Can(q, gen.Pick(g, [][]string{{}, {"no such role"}, {gen.Pick(g, d.RN)}}))
			}
			if ladder == "r" {
				d.Perms("D", d.RN[g.IntN(2)])
				d.Kids("D", d.RN[g.IntN(2)])
			}
		}
	}
}

var statuses = []int{0, 0, 0, 0, 1, 2, 3, 4}
var badDurations = []any{"", "abc", "10", "1d", "h", "1h ", "--1h", "1,5h", "1h30", "ns", "9999999h",
	nil, 5, int64(time.Hour), 1.5, []byte("1h"), uint(3), (*time.Duration)(nil), time.UTC, []string{"1h"}}

func (d *driver) change(kind string) {
	g := d.g
	switch kind {
	case "perm":
		d.givePerms(gen.Pick(g, d.roles), 0, 3)
	case "unperm":
		r := gen.Pick(g, d.roles)
		var ps []Perm
		for n := g.Between(0, 3); n > 0; n-- {
			if len(r.perms) > 0 && g.P(80) {
				p := gen.Pick(g, r.perms)
				p.Cat = gen.Pick(g, []string{"", "route", p.Cat})
				ps = append(ps, p)
			} else {
				ps = append(ps, d.perm())
			}
		}
		d.RemPerm(r.h, ps)
	case "link":
		dag := d.dag()
		kids := gen.Some(g, d.RN, 1, 3)
		if g.P(5) {
			kids = []string{}
		}
		if g.P(4) {
			kids = append(kids, "no such role")
		}
		d.addKids(dag, gen.Pick(g, d.RN), kids)
	case "role":
		hs := []string{}
		for _, r := range gen.Some(g, d.roles, 0, 3) {
			hs = append(hs, r.h)
		}
		d.AddRoles(d.dag(), hs)
	case "rereg":
		if g.P(60) {
			r := d.addRole(gen.Pick(g, d.RN))
			if g.P(70) {
				d.givePerms(r, 0, 2)
			}
			d.AddRoles(d.dag(), []string{r.h})
			return
		}
		var solo []*th
		for _, t := range d.tens {
			if !t.rel || g.P(40) { // a new object is never linked: one with that id, at most, is below any tenant
				solo = append(solo, t)
			}
		}
		if len(solo) > 0 {
			t := d.addTenant(gen.Pick(g, solo).id)
			if len(d.N) > 0 && g.P(70) {
				n := gen.Pick(g, d.N)
				d.AddNs(t.h, n, g.P(30), false)
				t.ns = append(t.ns, n)
			}
			d.register(t)
		}
	case "asg":
		if g.P(25) && len(d.asgs) > 0 { // one the engine has, had, or never got
			d.hold(gen.Some(g, d.asgs, 1, 2)...)
			return
		}
		var as []*ah
		for n := g.Between(1, 3); n > 0; n-- {
			as = append(as, d.newAsg())
		}
		if g.P(93) {
			d.hold(as...)
		}
	case "unasg":
		var x Pat
		if len(d.asgs) > 0 && g.P(85) {
			a := gen.Pick(g, d.asgs)
			x = Pat{a.p, a.t, a.n, a.s, a.r}
		} else {
			x = Pat{gen.Pick(g, d.P), gen.Pick(g, d.TN), d.orEmpty(50, d.N), d.orEmpty(50, d.S), gen.Pick(g, d.RN)}
		}
		blank := func(s *string) {
			if g.P(45) {
				*s = ""
			}
		}
		blank(&x.P)
		blank(&x.T)
		blank(&x.N)
		blank(&x.S)
		blank(&x.R)
		if x == (Pat{}) && g.P(80) {
			x.P = gen.Pick(g, d.P)
		}
		var exp *time.Time
		if g.P(25) {
			at := d.At(g.IntN(60))
			exp = &at
		}
		d.RemAsg(x, g.P(30), exp)
		for _, a := range d.asgs {
			if (x.P == "" || x.P == a.p) && (x.T == "" || x.T == a.t) && (x.N == "" || x.N == a.n) && (x.S == "" || x.S == a.s) && (x.R == "" || x.R == a.r) {
				a.held = false
			}
		}
	case "ns":
		t := gen.Pick(g, d.tens)
		n := gen.Pick(g, d.N)
		d.AddNs(t.h, n, g.P(40), g.P(50))
		t.ns = append(t.ns, n)
	case "scope":
		t := gen.Pick(g, d.tens)
		n := gen.Pick(g, d.N)
		if len(t.ns) > 0 && g.P(80) {
			n = gen.Pick(g, t.ns)
		}
		ss := gen.Some(g, d.S, 0, 3)
		if ss == nil {
			ss = []string{}
		}
		d.giveScopes(t, n, ss)
	case "child":
		d.link(gen.Pick(g, d.tens), gen.Some(g, d.tens, 1, 2)...)
	case "tenant":
		var ts []*th
		for _, t := range gen.Some(g, d.tens, 1, 3) {
			for k := 0; k < 3 && len(t.kids) == 0 && g.P(50); k++ {
				t = gen.Pick(g, d.tens)
			}
			if !d.dup(t.id, t) {
				ts = append(ts, t)
			}
		}
		d.register(ts...)
	case "status":
		t := gen.Pick(g, d.tens)
		st := gen.Pick(g, statuses)
		if t.off && g.P(50) {
			st = 0
		}
		t.off = st != 0
		d.Status(t.h, st)
	case "def":
		d.deft = d.orEmpty(40, d.TN)
		d.SetDef(d.deft)
	case "exp":
		if !d.pf.expiry || len(d.asgs) == 0 {
			return
		}
		a := gen.Pick(g, d.asgs)
		switch g.IntN(12) {
		case 0, 1, 2:
			at := d.now + g.Between(-2, 6)
			if at >= d.now {
				a.exp = at
			}
			d.SetExp(a.h, at)
		case 3, 4, 5:
			dur := g.Between(0, 6)
			if g.P(15) {
				dur = -g.Between(1, 4)
			} else if g.P(8) {
				dur = g.Between(50, 3000)
			}
			a.exp = d.now + dur
			d.SetDur(a.h, dur, gen.Pick(g, []string{"", "ns", "text"}))
		case 6:
			d.BadDur(a.h, gen.Pick(g, badDurations))
		case 7, 8:
			a.exp = d.now + g.Between(-3, 4)
			d.PutExp(a.h, a.exp)
		case 9:
			at := gen.Pick(g, []int{Far, farAgo})
			a.exp = at
			if at == Far && g.P(50) {
				d.SetExp(a.h, at)
			} else {
				d.PutExp(a.h, at)
			}
		default:
			a.exp = Never
			d.ClearExp(a.h)
		}
	case "tick":
		by := g.Between(1, 3)
		// often to, or just after, the next expiry
		if g.P(60) {
			next := Never
			for _, a := range d.asgs {
				if a.exp > d.now && a.exp < next {
					next = a.exp
				}
			}
			if next < Far {
				by = next - d.now + g.Between(0, 1)
			}
		}
		d.now += by
		d.Advance(by)
	}
}

func (d *driver) find(id string) *th {
	for k := len(d.tens) - 1; k >= 0; k-- {
		if d.tens[k].id == id {
			return d.tens[k]
		}
	}
	return nil
}

// permsBelow collects permissions of a role and, roughly, of what it inherits.
func (d *driver) permsBelow(name string, depth int) []Perm {
	var out []Perm
	for _, r := range d.roles {
		if r.name == name {
			out = append(out, r.perms...)
		}
	}
	if depth > 0 {
		for _, k := range d.links[name] {
			out = append(out, d.permsBelow(k, depth-1)...)
		}
	}
	return out
}

func (d *driver) request() Req {
	g := d.g
	var q Req
	ra := gen.Pick(g, d.reqs)
	if len(d.asgs) > 0 && g.P(88) {
		a := gen.Pick(g, d.asgs)
		for k := 0; k < 6 && (!a.held && g.P(90) || a.exp < d.now || a.r == "" && g.P(90)); k++ {
			a = gen.Pick(g, d.asgs)
		}
		q = Req{P: a.p, T: a.t, N: a.n, S: a.s}
		if g.P(30) { // ask in a tenant above
			for _, t := range d.tens {
				for _, k := range t.kids {
					if k.id == a.t && g.P(50) {
						q.T = t.id
					}
				}
			}
		}
		if t := d.find(q.T); t != nil {
			if q.N == "" && len(t.ns) > 0 && g.P(60) {
				q.N = gen.Pick(g, t.ns)
			}
			if len(t.sc) > 0 {
				if q.S == "" && g.P(35) || q.S != "" && g.P(10) {
					x := gen.Pick(g, t.sc)
					q.S = x[1]
					if a.n == "" || a.n == x[0] || g.P(10) {
						q.N = x[0]
					}
				} else if q.S != "" && a.n == "" {
					for _, x := range t.sc {
						if x[1] == q.S {
							q.N = x[0]
						}
					}
				}
			}
		}
		if g.P(20) {
			q.N = ""
		}
		if ps := d.permsBelow(a.r, 4); len(ps) > 0 && g.P(75) {
			ra = d.instance(gen.Pick(g, ps))
		}
	} else {
		q = Req{P: gen.Pick(g, d.P), T: gen.Pick(g, d.TN), N: d.orEmpty(40, d.N), S: d.orEmpty(50, d.S)}
	}
	for k := gen.Pick(g, []int{0, 0, 0, 0, 1, 1, 2}); k > 0; k-- {
		switch g.IntN(5) {
		case 0:
			q.P = gen.Pick(g, d.P)
		case 1:
			q.T = gen.Pick(g, d.TN)
		case 2:
			q.N = d.orEmpty(20, d.N)
		case 3:
			q.S = d.orEmpty(20, d.S)
		case 4:
			ra = gen.Pick(g, d.reqs)
		}
	}
	if g.P(d.pf.noTenant) {
		q.T = ""
	}
	if g.P(2) {
		q.T = "no such tenant"
	}
	if x := gen.Pick(g, []*string{&q.P, &q.T, &q.N, &q.S}); g.P(10) && *x != "" {
		*x = g.Near(*x, d.lit)
	}
	q.Res, q.Act = ra.Res, ra.Act
	return q
}

// instance finds a request of the vocabulary made for the permission.
func (d *driver) instance(p Perm) gen.RA {
	if qs := d.aims[p.Res+" "+p.Act]; len(qs) > 0 {
		return gen.Pick(d.g, qs)
	}
	return gen.Pick(d.g, d.reqs)
}

func (d *driver) query(kind string) {
	g := d.g
	switch kind {
	case "authorize":
		q := d.request()
		f := func() { d.Authorize(q) }
		d.last = append(d.last, f)
		f()
	case "can":
		q := d.request()
		var rs []string
		for n := gen.Pick(g, []int{0, 1, 1, 1, 2, 3}); n > 0; n-- {
			rs = append(rs, gen.Pick(g, d.RN))
		}
		if g.P(5) {
			rs = append(rs, "")
		}
		if g.P(3) {
			rs = append(rs, "no such role")
		}
		f := func() { d.Can(q, rs) }
		d.last = append(d.last, f)
		f()
	case "perms":
		r := gen.Pick(g, d.RN)
		f := func() { d.Perms("D", r) }
		d.last = append(d.last, f)
		f()
	case "kids":
		r := gen.Pick(g, d.RN)
		f := func() { d.Kids("D", r) }
		d.last = append(d.last, f)
		f()
	case "get":
		switch g.IntN(3) {
		case 0:
			d.GetRole(gen.Pick(g, d.RN))
		case 1:
			d.GetTenant(gen.Pick(g, d.TN))
		case 2:
			d.DefTenant()
		}
	case "expired":
		if len(d.asgs) > 0 {
			h := gen.Pick(g, d.asgs).h
			if g.P(50) {
				d.Expired(h)
			} else {
				d.Expiry(h)
			}
		}
	case "same": // a question asked before
		if len(d.last) > 0 {
			gen.Pick(g, d.last)()
		}
	}
}

func pickW(g gen.R, names []string, m map[string]int) string {
	ws := make([]int, len(names))
	for i, n := range names {
		ws[i] = m[n]
	}
	return names[g.Weighted(ws)]
}

var changes = []string{"perm", "unperm", "link", "role", "asg", "unasg", "ns", "scope", "child", "tenant", "status", "def", "exp", "tick", "rereg"}
var queries = []string{"authorize", "can", "perms", "kids", "get", "expired", "same"}

var units = []time.Duration{1, 1, time.Microsecond, time.Second, time.Minute, time.Hour, 24 * time.Hour}

func (d *driver) run() {
	g := d.g
	d.setup()
	ask := func() {
		for k := g.Between(d.pf.batch[0], d.pf.batch[1]); k > 0; k-- {
			d.query(pickW(g, queries, d.pf.q))
		}
	}
	ask()
	if d.asked != nil {
		d.asked()
	}
	for k := g.Between(d.pf.steps[0], d.pf.steps[1]); k > 0; k-- {
		d.change(pickW(g, changes, d.pf.w))
		held := 0
		for _, a := range d.asgs {
			if a.held {
				held++
			}
		}
		if held < 2 && g.P(60) {
			d.hold(d.newAsg(), d.newAsg())
		}
		if d.asked != nil && g.P(5) {
			d.asked()
		}
		if g.P(60) {
			ask()
		}
	}
	ask()
}

func TestDrive(t *testing.T) {
	name := os.Getenv("PROFILE")
	if name == "" {
		t.Skip()
	}
	seed := uint64(rec.EnvInt("SEED", 1))
	start, n := rec.EnvInt("START", 0), rec.EnvInt("N", 10)
	lit := gen.Scan(gen.Repo())
	vg := gen.New(seed, 777+uint64(start/gen.Chunk))
	perms, reqs := vg.Vocabulary(30, 54, lit)
	aims := gen.Aims(perms, reqs)
	r := rec.Open()
	for i := start; i < start+n; i++ {
		synctest.Test(t, func(t *testing.T) {
			r.Run(i, nil, func() { drive(r, name, seed, i, lit, perms, reqs, aims) })
		})
	}
}

func drive(r *rec.Rec, name string, seed uint64, i int, lit gen.Literals, perms, reqs []gen.RA, aims map[string][]gen.RA) {
	g := gen.New(seed, uint64(i)+1000+gen.Hash(name))
	pf := profiles(name)
	d := &driver{g: g, pf: pf, lit: lit, perms: gen.Subset(g, perms, g.Between(25, 70)), reqs: reqs, aims: aims, links: map[string][]string{}}
	if len(d.perms) < 3 {
		d.perms = perms[:3]
	}
	d.World = NewWorld(r, g.P(pf.logging), gen.Pick(g, units))
	d.World.Scrib = name == "C28" || name == "C05" || name == "C04" || g.P(30)
	d.run()
}
