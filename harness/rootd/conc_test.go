package rootd

import (
	"strings"
	"testing"

	"verifharness/conc"
	"verifharness/gen"
	"verifharness/rec"
)

// With returns the same engine, recorded elsewhere.
func (w *World) With(r *rec.Rec) conc.World { c := *w; c.R = r; return &c }

type M = conc.M

var L = conc.L

type cgen struct {
	g                 gen.R
	mode, kind        string
	small             bool
	T, N, S, P, R     []string // ids in use; their handles are in upper case
	attrs             []string // handles of attributes
	own               map[string]bool
	locks             bool // whether locking locks or unlocks
	lockOps, grpAttrs bool
	focus             map[string]bool
	late              map[string]bool // handles not registered in the setup
	unreg             []string
}

func up(x string) string { return strings.ToUpper(x[:1]) + x[1:] }

func (c *cgen) t() string { return gen.Pick(c.g, c.T) }
func (c *cgen) n() string { return gen.Pick(c.g, c.N) }
func (c *cgen) s() string { return gen.Pick(c.g, c.S) }
func (c *cgen) p() string { return gen.Pick(c.g, c.P) }
func (c *cgen) r() string { return gen.Pick(c.g, c.R) }
func (c *cgen) as() []any { return L(gen.Some(c.g, c.attrs, 1, 2)...) }
func (c *cgen) tf() string {
	if c.g.P(60) {
		return "true"
	}
	return "false"
}

func (c *cgen) maybe(x string, pct int) string {
	if c.g.P(pct) {
		return x
	}
	return NIL
}

// ids of kinds that the threads register
func (c *cgen) regd(k string) string {
	if c.small {
		switch k {
		case "a":
			return gen.Pick(c.g, []string{"A1", "A1b"})
		case "g":
			return gen.Pick(c.g, []string{"G3", "G3b"})
		}
		return strings.ToUpper(k) + gen.Pick(c.g, []string{"4", "4b"})
	}
	switch k {
	case "t":
		return gen.Pick(c.g, []string{"T4", "T4b", "T1b", "T5"})
	case "a":
		return gen.Pick(c.g, []string{"A1", "A2", "A1b"})
	case "g":
		return gen.Pick(c.g, []string{"G1", "G3", "G3b"})
	}
	u := strings.ToUpper(k)
	return gen.Pick(c.g, []string{u + "4", u + "4b", u + "5", u + "1b"})
}

func (c *cgen) change() (e M) {
	for k := 0; k < 60; k++ {
		e = c.anyChange()
		if len(c.focus) == 0 || c.focus[e["op"].(string)] || !c.small && c.g.P(5) {
			return e
		}
	}
	return e
}

func (c *cgen) anyChange() M {
	g := c.g
	h := up(c.t())
	recs := func() M {
		switch g.IntN(16) {
		case 0:
			return M{"op": "tNs", "h": h, "ids": L(gen.Some(g, c.N, 1, 2)...)}
		case 1:
			return M{"op": "tRoles", "h": h, "ids": L(gen.Some(g, c.R, 1, 2)...)}
		case 2:
			return M{"op": "tScopes", "h": h, "ids": L(gen.Some(g, c.S, 1, 2)...)}
		case 3, 4:
			return M{"op": "tNsScope", "h": h, "n": c.n(), "s": c.s()}
		case 5, 6:
			return M{"op": "tPrNs", "h": h, "p": c.p(), "n": c.n(), "r": c.r()}
		case 7:
			return M{"op": "tDef", "h": h, "n": "n1"}
		case 8, 9:
			return M{"op": "tAssignS", "h": h, "p": c.p(), "ss": L(gen.Some(g, c.S, 1, 2)...), "m": c.tf()}
		case 10:
			return M{"op": "data", "row": M{"t": c.t(), "n": c.maybe(c.n(), 50), "s": c.maybe(c.s(), 40), "p": c.maybe(c.p(), 70), "r": c.maybe(c.r(), 60), "m": c.maybe(c.tf(), 50)}}
		case 11, 12:
			a, b := up(c.t()), up(c.t())
			if a != b || g.P(15) {
				return M{"op": "tDesc", "h": a, "hs": L(b)}
			}
		}
		rs := gen.Some(g, c.R, 1, 2)
		return M{"op": "tAssign", "h": h, "p": c.p(), "rs": L(rs...), "m": c.tf()}
	}
	regs := func() M {
		k := c.kind
		if !c.small || c.mode == "all" {
			k = gen.Pick(g, []string{"t", "n", "s", "p", "r", "r", "a", "g"})
		}
		switch g.IntN(10) {
		case 0, 1, 2, 3, 4:
			return M{"op": "reg", "k": k, "h": c.regd(k)}
		case 5: // ids nothing else uses
			if k == "a" {
				return M{"op": "regs", "k": k, "hs": L("A3", "A4")}
			}
			u := strings.ToUpper(k)
			if k == "g" {
				return M{"op": "regs", "k": k, "hs": L("G4", "G5")}
			}
			return M{"op": "regs", "k": k, "hs": L(u+"6", u+"7")}
		case 6, 7:
			return M{"op": "tAssign", "h": h, "p": gen.Pick(g, append([]string{"p4"}, c.P...)), "rs": L(gen.Pick(g, append([]string{"r4", "r4"}, c.R...))), "m": c.tf()}
		case 8:
			return M{"op": "tAssignS", "h": h, "p": gen.Pick(g, append([]string{"p4"}, c.P...)), "ss": L(gen.Pick(g, []string{"s4", "s1"})), "m": c.tf()}
		}
		return M{"op": "grantId", "r": gen.Pick(g, []string{"r4", "r1"}), "g": gen.Pick(g, []string{"g1", "g3"}), "as": L("A1")}
	}
	roles := func() M {
		r := up(c.r())
		switch g.IntN(14) {
		case 0, 1, 2, 3:
			return M{"op": "grant", "h": r, "g": gen.Pick(g, []string{"g1", "g1", "g5"}), "as": c.as()}
		case 4, 5:
			return M{"op": "grantGrp", "h": r, "g": "G2"}
		case 6, 7:
			return M{"op": "grantId", "r": gen.Pick(g, append([]string{"zz"}, c.R...)), "g": "g1", "as": L(gen.Pick(g, []string{"A1", "A2", "A4"}))}
		case 8, 9, 10:
			return M{"op": "rDesc", "h": r, "hs": L(gen.Some(g, []string{"R1", "R2", "R3"}, 1, 2)...)}
		case 11, 12:
			if c.lockOps {
				return M{"op": "lock", "h": r, "on": c.locks}
			}
		}
		if c.grpAttrs {
			return M{"op": "gAttrs", "g": "G1", "as": c.as()}
		}
		return M{"op": "grant", "h": r, "g": "g1", "as": c.as()}
	}
	switch c.mode {
	case "pair": // one id, several objects
		return M{"op": "reg", "k": c.kind, "h": c.regd(c.kind)}
	case "records":
		return recs()
	case "registry":
		return regs()
	case "roles":
		return roles()
	case "inherit": // roles coming into use, and what they inherit
		switch g.IntN(6) {
		case 0, 1:
			return M{"op": "tAssign", "h": "T1", "p": c.p(), "rs": L(c.r()), "m": c.tf()}
		case 2:
			return M{"op": "tPrNs", "h": "T1", "p": c.p(), "n": c.n(), "r": c.r()}
		case 3:
			return M{"op": "tRoles", "h": "T1", "ids": L(c.r())}
		case 4:
			return M{"op": "rDesc", "h": "R1", "hs": L("R2")}
		}
		return M{"op": "data", "row": M{"t": "t1", "n": c.maybe(c.n(), 50), "s": c.maybe(c.s(), 50), "p": c.p(), "r": c.maybe(c.r(), 80), "m": NIL}}
	}
	switch g.IntN(3) {
	case 0:
		return recs()
	case 1:
		return regs()
	}
	return roles()
}

// via uses a tenant as soon as it can be found.
func (c *cgen) via() M {
	g := c.g
	var e M
	switch g.IntN(6) {
	case 0:
		e = M{"op": "tNs", "ids": L("n1")}
	case 1:
		e = M{"op": "tScopes", "ids": L("s1")}
	case 2:
		e = M{"op": "tPrNs", "p": c.p(), "n": c.n(), "r": c.r()}
	case 3:
		e = M{"op": "tAssignS", "p": c.p(), "ss": L(c.s()), "m": c.tf()}
	case 4:
		e = M{"op": "tNsScope", "n": c.n(), "s": c.s()}
	default:
		e = M{"op": "tAssign", "p": c.p(), "rs": L(c.r()), "m": c.tf()}
	}
	return M{"op": "viaGet", "id": gen.Pick(g, []string{"t4", "t4", "t4", "t1", "t5"}), "then": map[string]any(e)}
}

func (c *cgen) ask() M {
	g := c.g
	act := gen.Pick(g, []string{"a x", "b x", "c y"})
	o := M{"t": c.maybe(c.t(), 75), "n": c.maybe(c.n(), 35), "s": c.maybe(c.s(), 35), "g": NIL, "a": NIL}
	if o["t"] == NIL && g.P(80) {
		o["n"], o["s"] = c.n(), c.s()
	}
	if c.mode == "inherit" {
		o["t"] = c.maybe("t1", 75)
		o["g"], o["a"], act = "g1", "a x", "a x"
	} else if c.mode == "roles" || g.P(40) {
		o["g"], o["a"] = gen.Pick(g, []string{"g1", "g1", "g2"}), act
	}
	p := c.p()
	if c.mode == "registry" || c.mode == "all" || c.mode == "pair" {
		p = gen.Pick(g, append([]string{"p4"}, c.P...))
		if g.P(20) {
			o["t"] = "t4"
		}
	}
	return M{"op": "authorize", "p": p, "o": o, "voc": func(r *rec.Rec) { r.Vocab("req", act) }}
}

func (c *cgen) rows(op string) M {
	e := M{"op": op, "f": gen.Pick(c.g, RowQueries), "p": c.p(), "t": c.t(), "n": c.n(), "s": c.s(), "r": c.r(), "m": NIL}
	if e["f"] == "Search" {
		for _, k := range []string{"p", "t", "n", "s", "r"} {
			e[k] = c.maybe(e[k].(string), 40)
		}
	}
	if op == "ids" {
		e["k"] = gen.Pick(c.g, []string{"t", "p", "r", "n", "s"})
	}
	return e
}

func (c *cgen) query() M {
	g := c.g
	kinds := []string{"t", "n", "s", "p", "r", "a"}
	recs := func() M {
		switch g.IntN(10) {
		case 0, 1, 2:
			return c.rows("rows")
		case 3:
			return c.rows("ids")
		case 4:
			return M{"op": "tenantsBy", "p": c.p()}
		case 5:
			return M{"op": "implicit", "p": c.p()}
		case 6:
			return M{"op": "children", "t": c.t()}
		}
		return c.ask()
	}
	regs := func() M {
		switch g.IntN(6) {
		case 0:
			return M{"op": "totals"}
		case 1:
			return M{"op": "list", "k": gen.Pick(g, kinds)}
		case 2, 3:
			k := gen.Pick(g, append([]string{"g"}, kinds...))
			if c.small {
				k = c.kind
			}
			if k == "a" {
				return M{"op": "get", "k": k, "id": gen.Pick(g, []string{"a x", "b x"})}
			}
			return M{"op": "get", "k": k, "id": gen.Pick(g, []string{k + "4", k + "1", k + "3"})}
		}
		return c.ask()
	}
	roles := func() M {
		r := up(c.r())
		switch g.IntN(9) {
		case 0, 1:
			act := gen.Pick(g, []string{"a x", "b x", "c y"})
			return M{"op": "has", "h": r, "g": gen.Pick(g, []string{"g1", "g2"}), "a": act, "allowed": L(gen.Subset(g, c.R, 20)...), "voc": func(r *rec.Rec) { r.Vocab("req", act) }}
		case 2:
			return M{"op": "perms", "h": r}
		case 3, 4:
			return M{"op": "implicitPerms", "h": r}
		case 5:
			return M{"op": "groupPerms", "h": r, "g": gen.Pick(g, []string{"g1", "g2"})}
		case 6:
			return M{"op": "rolesBelow", "h": r}
		}
		return c.ask()
	}
	switch c.mode {
	case "records":
		return recs()
	case "registry", "pair":
		if c.kind == "t" && g.P(50) || g.P(4) {
			return c.via()
		}
		return regs()
	case "roles":
		return roles()
	case "inherit":
		return c.ask()
	}
	switch g.IntN(3) {
	case 0:
		return recs()
	case 1:
		return regs()
	}
	return roles()
}

var attrKeys = []string{"a x", "b x", "* y", "c y", "a :v"}

func concWork(g gen.R, i int) conc.Work {
	c := &cgen{g: g, mode: []string{"records", "registry", "roles", "all", "inherit", "pair"}[i%6], small: i/6%3 > 0, locks: g.P(50)}
	c.T, c.N, c.S, c.P, c.R = []string{"t1", "t2", "t3"}, []string{"n1", "n2"}, []string{"s1", "s2"}, []string{"p1", "p2"}, []string{"r1", "r2", "r3"}
	c.attrs = []string{"A1", "A2", "A3", "A4", "A5"}
	c.kind = []string{"t", "n", "s", "p", "r", "a", "g"}[i/6%7]
	c.lockOps = g.P(40)
	c.grpAttrs = g.P(30)
	if c.small {
		c.T, c.N, c.S, c.P, c.R, c.attrs = []string{"t1", "t2"}, []string{"n1"}, []string{"s1"}, []string{"p1"}, []string{"r1", "r2"}, []string{"A1", "A2"}
	}
	var wk conc.Work
	add := func(e M) { wk.Setup = append(wk.Setup, e) }
	for _, k := range []string{"t", "n", "s", "p", "r", "g"} {
		for _, x := range []string{"1", "2", "3", "4", "5", "6", "7"} {
			add(M{"op": "new", "k": k, "h": strings.ToUpper(k) + x, "id": k + x})
		}
		for _, x := range []string{"1", "3", "4"} {
			add(M{"op": "new", "k": k, "h": strings.ToUpper(k) + x + "b", "id": k + x})
		}
	}
	for x, k := range attrKeys {
		add(M{"op": "newAttr", "h": "A" + string(rune('1'+x)), "key": k, "pair": strings.Replace(k, " ", "##", 1)})
	}
	add(M{"op": "newAttr", "h": "A1b", "key": attrKeys[0], "pair": strings.Replace(attrKeys[0], " ", "##", 1)})
	for _, k := range []string{"t", "n", "s", "p", "r"} {
		for _, x := range []string{"1", "2", "3"} {
			add(M{"op": "reg", "k": k, "h": strings.ToUpper(k) + x})
		}
	}
	if c.mode != "registry" || g.P(70) {
		add(M{"op": "reg", "k": "g", "h": "G1"})
	}
	if c.mode != "registry" && c.mode != "all" && c.mode != "pair" {
		add(M{"op": "reg", "k": "a", "h": "A1"})
	}
	if !c.grpAttrs || g.P(50) {
		add(M{"op": "gAttrs", "g": "G1", "as": L("A1", "A2")})
	}
	add(M{"op": "gAttrs", "g": "G3", "as": L("A1")})
	add(M{"op": "gAttrs", "g": "G2", "as": L("A2", "A4")})
	add(M{"op": "gAttrs", "g": "G3b", "as": L("A1")})
	if c.mode == "inherit" {
		add(M{"op": "grant", "h": "R2", "g": "g1", "as": L("A1")})
		add(M{"op": "rDesc", "h": "R1", "hs": L("R2")})
		add(M{"op": "tAssignS", "h": "T1", "p": "p1", "ss": L("s1"), "m": "false"})
	}
	for _, r := range c.R {
		if c.mode != "inherit" && g.P(35) {
			add(M{"op": "grant", "h": up(r), "g": "g1", "as": c.as()})
		}
	}
	save := *c
	c.mode, c.lockOps = "records", false
	for k := g.IntN(4); k > 0 && save.mode != "inherit"; k-- {
		add(c.change())
	}
	if save.mode != "registry" && save.mode != "inherit" && g.P(60) {
		add(M{"op": "tAssign", "h": "T1", "p": "p1", "rs": L("r1"), "m": c.tf()})
	}
	if g.P(30) {
		add(M{"op": "rDesc", "h": "R1", "hs": L("R2")})
	}
	*c = save
	if c.lockOps && !c.locks {
		for _, r := range c.R {
			if g.P(60) {
				add(M{"op": "lock", "h": up(r), "on": true})
			}
		}
	}
	// G2 is given under its own name: let nothing else use that
	if g.P(70) || c.small {
		c.focus = map[string]bool{}
		for k := g.Between(1, 2); k > 0; k-- {
			c.focus[c.anyChange()["op"].(string)] = true
		}
	}
	if c.small && c.mode == "roles" && c.lockOps {
		c.focus = map[string]bool{"lock": true, gen.Pick(g, []string{"grant", "grantGrp", "grantId", "rDesc"}): true}
		if g.P(60) {
			c.R = []string{"r1"}
		}
	}
	nT, qp := g.Between(2, 3), gen.Pick(g, []int{90, 60, 25})
	if c.small {
		nT, qp = 2, gen.Pick(g, []int{100, 100, 0, 0, 50})
	}
	if c.focus["lock"] && c.small {
		qp = 0
	}
	for k := 0; k < nT; k++ {
		var l []M
		lo, hi := 1, 3
		if c.small {
			hi = 2
		}
		for x := g.Between(lo, hi); x > 0; x-- {
			if k > 0 && g.P(qp) && (k < 2 || g.P(40)) {
				l = append(l, c.query())
			} else {
				l = append(l, c.change())
			}
		}
		wk.Threads = append(wk.Threads, l)
	}
	fin := func(e M) { wk.Final = append(wk.Final, e) }
	for k := 0; k < 6; k++ {
		fin(c.ask())
	}
	fin(M{"op": "rows", "f": "Data", "p": NIL, "t": NIL, "n": NIL, "s": NIL, "r": NIL, "m": NIL})
	for k := 0; k < 3; k++ {
		fin(c.rows("rows"))
	}
	for _, r := range []string{"R1", "R2", "R3"} {
		fin(M{"op": "perms", "h": r})
		fin(M{"op": "implicitPerms", "h": r})
		fin(M{"op": "rolesBelow", "h": r})
	}
	for _, t := range c.T {
		fin(M{"op": "below", "h": up(t)})
	}
	for _, k := range []string{"t", "n", "s", "p", "r", "a"} {
		fin(M{"op": "list", "k": k})
	}
	for _, k := range []string{"t", "n", "s", "p", "r", "g"} {
		for _, x := range []string{"1", "4"} {
			fin(M{"op": "get", "k": k, "id": k + x})
		}
	}
	fin(M{"op": "get", "k": "g", "id": "g3"})
	fin(M{"op": "get", "k": "a", "id": "a x"})
	fin(M{"op": "totals"})
	fin(M{"op": "available"})
	fin(M{"op": "scopesRoles", "p": "p1", "t": c.t(), "n": c.maybe("n1", 50)})
	qp = gen.Pick(g, []int{20, 50, 80})
	wk.More = func() M {
		if g.P(qp) {
			return c.query()
		}
		return c.change()
	}
	return wk
}

func TestConc(t *testing.T) {
	conc.Drive(t, concWork, func(r *rec.Rec) conc.World { return NewWorld(r) })
}
