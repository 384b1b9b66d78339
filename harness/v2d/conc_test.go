package v2d

import (
	"strings"
	"testing"
	"time"

	"verifharness/conc"
	"verifharness/gen"
	"verifharness/rec"
)

// With returns the same engine, recorded elsewhere.
func (w *World) With(r *rec.Rec) conc.World { c := *w; c.R = r; return &c }

type M = conc.M

var L = conc.L

type cgen struct {
	g     gen.R
	small bool
	P, N  []string
	RN    []string // roles in use, r1 and so on, with handles R1 and so on
	T     []string // tenants in use, t1 and so on, with handles T1 and so on
	S     []string
	A     []string // assignments
	perms []string
	mode  string
	dag   string          // the role graph of mode E
	focus map[string]bool // kinds of changes to concentrate on
}

func up(x string) string { return strings.ToUpper(x[:1]) + x[1:] }

func (c *cgen) role() string   { return gen.Pick(c.g, c.RN) }
func (c *cgen) roleH() string  { return up(c.role()) }
func (c *cgen) ten() string    { return gen.Pick(c.g, c.T) }
func (c *cgen) tenH() string   { return up(c.ten()) }
func (c *cgen) perm() string   { return gen.Pick(c.g, c.perms) }
func (c *cgen) scope() string  { return gen.Pick(c.g, append([]string{""}, c.S...)) }
func (c *cgen) ps(n int) []any { return L(gen.Some(c.g, c.perms, 1, n)...) }

func (c *cgen) req() M {
	g := c.g
	q := M{"p": gen.Pick(g, c.P), "t": c.ten(), "n": gen.Pick(g, append([]string{"", ""}, c.N...)), "s": "",
		"res": gen.Pick(g, []string{"a", "b", "c"}), "act": gen.Pick(g, []string{"x", "y"})}
	if c.small {
		q["res"], q["act"] = "a", "x"
	}
	if c.mode == "A2" || c.mode == "B" {
		q["s"] = c.scope()
	}
	if c.mode != "B" && c.mode != "D" && (g.P(45) || c.focus["setDef"]) {
		q["t"] = ""
	}
	return q
}

func (c *cgen) query() M {
	g := c.g
	k := g.IntN(100)
	switch {
	case c.mode == "E" && c.dag == "D" && k < 75:
		return M{"op": gen.Pick(g, []string{"kids", "perms"}), "d": c.dag, "r": c.role()}
	case c.mode == "D" && k < 30:
		return M{"op": "perms", "d": "D", "r": "r1"}
	case k < 60:
		return M{"op": "authorize", "req": c.req()}
	case k < 80:
		return M{"op": "can", "req": c.req(), "roles": L(gen.Some(g, []string{"r1", "r2", "r3", "r4"}, 1, 2)...)}
	case k < 88:
		return M{"op": "kids", "d": "D", "r": c.role()}
	case k < 94:
		return M{"op": "getRole", "r": gen.Pick(g, []string{"r1", "r4", "r5"})}
	}
	return M{"op": "getTenant", "t": gen.Pick(g, []string{"t1", "t2", "t3"})}
}

// change makes a call that changes something, as far as the mode goes: in each,
// a decision is the one for some moment of the call.
func (c *cgen) change() (e M) {
	for k := 0; k < 40; k++ {
		if e = c.anyChange(); len(c.focus) == 0 || c.focus[e["op"].(string)] || !c.small && c.g.P(4) {
			return e
		}
	}
	return e
}

func (c *cgen) anyChange() M {
	g := c.g
	if c.mode == "E" { // links of one role graph
		if g.P(12) {
			return M{"op": "addRoles", "d": c.dag, "hs": L(gen.Some(g, []string{"R3", "R4"}, 1, 2)...)}
		}
		return M{"op": "addKids", "d": c.dag, "r": c.role(), "rs": L(gen.Some(g, c.RN, 1, 2)...)}
	}
	if g.P(9) {
		return M{"op": "addRoles", "d": gen.Pick(g, []string{"A", "A", "D"}), "hs": L(gen.Some(g, []string{"R4", "R5", "R6"}, 1, 2)...)}
	}
	eng := func() M {
		switch g.IntN(10) {
		case 0, 1:
			return M{"op": "addTenants", "hs": L(gen.Pick(g, []string{"T1", "T2", "T3", "T1b"}))}
		case 2, 3, 4:
			return M{"op": "setDef", "t": gen.Pick(g, append([]string{"", "zz"}, c.T...))}
		}
		if g.P(55) {
			return M{"op": "addAsg", "hs": L(gen.Some(g, c.A, 1, 2)...)}
		}
		pat := M{"p": "", "t": "", "n": "", "s": "", "r": ""}
		if g.P(70) {
			pat["p"] = gen.Pick(g, c.P)
		}
		if g.P(40) {
			pat["t"] = c.ten()
		}
		if g.P(40) {
			pat["r"] = c.role()
		}
		return M{"op": "remAsg", "pat": pat}
	}
	switch c.mode {
	case "A1":
		switch g.IntN(12) {
		case 0, 1, 2:
			return M{"op": "addPerm", "h": c.roleH(), "ps": c.ps(2)}
		case 3, 4:
			return M{"op": "addKids", "d": gen.Pick(g, []string{"A", "A", "D"}), "r": c.role(), "rs": L(gen.Some(g, c.RN, 1, 2)...)}
		case 5, 6:
			a, b := c.tenH(), c.tenH()
			if a != b || g.P(20) {
				return M{"op": "addChildren", "h": a, "hs": L(b)}
			}
		}
	case "B":
		switch g.IntN(6) {
		case 0, 1:
			return M{"op": "addNs", "h": c.tenH(), "n": gen.Pick(g, append([]string{"n3"}, c.N...)), "isDef": g.P(50)}
		case 2, 3:
			return M{"op": "addScopes", "h": c.tenH(), "n": gen.Pick(g, append([]string{"n3"}, c.N...)), "ss": L(gen.Some(g, []string{"s1", "s2"}, 1, 2)...)}
		}
	case "C":
		if g.P(50) {
			return M{"op": "remPerm", "h": c.roleH(), "ps": c.ps(2)}
		}
	case "D": // one role, reached in one way
		switch g.IntN(8) {
		case 0, 1, 2:
			return M{"op": "addPerm", "h": gen.Pick(g, []string{"R1", "R1", "R1b"}), "ps": c.ps(2)}
		case 3, 4:
			return M{"op": "remPerm", "h": gen.Pick(g, []string{"R1", "R1", "R1b"}), "ps": c.ps(2)}
		case 5, 6:
			return M{"op": "addRoles", "d": gen.Pick(g, []string{"A", "D"}), "hs": L(gen.Pick(g, []string{"R1", "R1b"}))}
		}
		if g.P(50) {
			return M{"op": "addAsg", "hs": L("A1")}
		}
		return M{"op": "remAsg", "pat": M{"p": "p1", "t": "", "n": "", "s": "", "r": ""}}
	}
	return eng()
}

func concWork(g gen.R, i int) conc.Work {
	c := &cgen{g: g, P: []string{"p1", "p2"}, N: []string{"n1", "n2"}, S: []string{"s1", "s2"}, RN: []string{"r1", "r2", "r3", "r4"}, T: []string{"t1", "t2", "t3"},
		perms: []string{"a x", "a *", "b x", "b y", "* y", "c x", "* *"}, mode: []string{"A1", "A2", "B", "C", "D", "E"}[i%6], small: i/6%3 > 0, dag: gen.Pick(g, []string{"A", "D", "D"})}
	if c.small {
		c.P, c.N, c.S, c.RN, c.T = []string{"p1"}, []string{"n1"}, []string{"s1"}, []string{"r1", "r2"}, []string{"t1", "t2"}
		if c.mode != "D" {
			c.perms = []string{"a x"}
		}
		if g.P(50) {
			c.S = nil
		}
	}
	fresh := c.mode == "B" && c.small && g.P(50) // calls about a namespace no tenant has yet
	if fresh {
		c.S, c.T, c.RN = []string{"s1", "s2"}, []string{"t1"}, []string{"r1"}
	}
	var wk conc.Work
	add := func(e M) { wk.Setup = append(wk.Setup, e) }
	for _, r := range [][2]string{{"R1", "r1"}, {"R2", "r2"}, {"R3", "r3"}, {"R4", "r4"}, {"R5", "r5"}, {"R6", "r6"}, {"R1b", "r1"}} {
		add(M{"op": "newRole", "h": r[0], "name": r[1]})
	}
	for _, t := range [][2]string{{"T1", "t1"}, {"T2", "t2"}, {"T3", "t3"}, {"T1b", "t1"}} {
		def := g.P(40)
		m := M{"op": "newTenant", "h": t[0], "id": t[1], "hasDef": def, "def": ""}
		if def {
			m["def"] = "n1"
		}
		add(m)
		if !def || g.P(40) {
			add(M{"op": "addNs", "h": t[0], "n": gen.Pick(g, c.N), "isDef": g.P(30)})
		}
		if c.mode == "A2" || c.mode == "B" {
			add(M{"op": "addScopes", "h": t[0], "n": "n1", "ss": L(gen.Some(g, c.S, 0, 2)...)})
		}
	}
	asg := func(h, p, t, n, s, r string, mng bool) {
		add(M{"op": "newAsg", "h": h, "p": p, "t": t, "n": n, "s": s, "r": r, "mng": mng})
		c.A = append(c.A, h)
	}
	if c.mode == "D" {
		asg("A1", "p1", "t1", "", "", "r1", false)
		asg("A2", "p2", "t2", "", "", "r1", false)
	} else {
		n := 5
		if c.small {
			n = 3
		}
		for k := 1; k <= n; k++ {
			s := ""
			if c.mode == "A2" || c.mode == "B" {
				s = gen.Pick(g, append([]string{"", ""}, c.S...))
			}
			n := gen.Pick(g, append([]string{"", ""}, c.N...))
			if fresh {
				n, s = "n3", []string{"s1", ""}[k%2]
			}
			asg("A"+string(rune('0'+k)), gen.Pick(g, c.P), c.ten(), n, s,
				gen.Pick(g, []string{"r1", "r2", "r3"}[:min(3, len(c.RN))]), g.P(45))
		}
	}
	for _, d := range []string{"A", "D"} {
		add(M{"op": "addRoles", "d": d, "hs": L("R1", "R2", "R3")})
	}
	for _, r := range []string{"R1", "R2", "R3", "R1b"} {
		if r == "R1b" && c.mode != "D" {
			continue
		}
		if g.P(70) || fresh || c.mode == "A2" && c.small {
			add(M{"op": "addPerm", "h": r, "ps": c.ps(2)})
		}
	}
	if c.mode != "D" && (c.mode != "E" || !c.small) && g.P(50) {
		k := [][2]string{{"r1", "r2"}, {"r1", "r3"}, {"r2", "r3"}, {"r3", "r4"}}[g.IntN(4)]
		add(M{"op": "addKids", "d": "A", "r": k[0], "rs": L(k[1])})
	}
	add(M{"op": "addTenants", "hs": L("T1")})
	if g.P(80) {
		add(M{"op": "addTenants", "hs": L("T2")})
	}
	if c.mode != "D" && g.P(50) {
		k := [][2]string{{"T1", "T2"}, {"T1", "T3"}, {"T2", "T3"}}[g.IntN(3)]
		add(M{"op": "addChildren", "h": k[0], "hs": L(k[1])})
	}
	if c.mode == "D" || fresh {
		add(M{"op": "addAsg", "hs": L("A1", "A2")})
	} else {
		add(M{"op": "addAsg", "hs": L(gen.Subset(g, c.A, 50)...)})
	}
	if g.P(25) || c.mode == "A2" && c.small && g.P(50) {
		add(M{"op": "setDef", "t": c.ten()})
	}
	if g.P(65) || c.small {
		c.focus = map[string]bool{}
		for k := g.Between(1, 2); k > 0; k-- {
			c.focus[c.anyChange()["op"].(string)] = true
		}
		if c.small && c.mode == "A2" && g.P(60) {
			c.focus = map[string]bool{"setDef": true, gen.Pick(g, []string{"addAsg", "remAsg", "addTenants"}): true}
		}
	}
	if fresh {
		c.N, c.focus = []string{"n3"}, map[string]bool{"addNs": true, "addScopes": true}
	}
	nT, qp := g.Between(2, 3), gen.Pick(g, []int{90, 60, 25})
	if c.small {
		nT, qp = 2, gen.Pick(g, []int{100, 100, 0, 0, 50})
	}
	for k := 0; k < nT; k++ {
		var l []M
		lo, hi := 1, 3
		if c.small && k == 0 {
			lo = 2
		} else if c.small {
			hi = 2
		}
		for x := g.Between(lo, hi); x > 0; x-- {
			if k > 0 && g.P(qp) && (k < 2 || g.P(40)) {
				l = append(l, c.query())
			} else {
				l = append(l, c.change())
			}
		}
		wk.Threads = append(wk.Threads, l)
	}
	for k := 0; k < 6; k++ {
		wk.Final = append(wk.Final, M{"op": "authorize", "req": c.req()})
	}
	if fresh {
		for _, s := range []string{"", "s1", "s2"} {
			wk.Final = append(wk.Final, M{"op": "authorize", "req": M{"p": "p1", "t": "t1", "n": "n3", "s": s, "res": "a", "act": "x"}})
		}
	}
	for k := 0; k < 2; k++ {
		wk.Final = append(wk.Final, M{"op": "can", "req": c.req(), "roles": L("r1", "r3")})
	}
	for _, r := range []string{"r1", "r2", "r3"} {
		wk.Final = append(wk.Final, M{"op": "kids", "d": "D", "r": r}, M{"op": "perms", "d": "D", "r": r})
	}
	for _, r := range []string{"r4", "r5", "r6"} {
		wk.Final = append(wk.Final, M{"op": "getRole", "r": r}, M{"op": "kids", "d": "D", "r": r})
	}
	wk.Final = append(wk.Final, M{"op": "getRole", "r": "r1"}, M{"op": "getTenant", "t": "t1"}, M{"op": "getTenant", "t": "t3"}, M{"op": "defTenant"})
	qp = gen.Pick(g, []int{20, 50, 80})
	wk.More = func() M {
		if g.P(qp) {
			return c.query()
		}
		return c.change()
	}
	return wk
}

func TestConc(t *testing.T) {
	conc.Drive(t, concWork, func(r *rec.Rec) conc.World { return NewWorld(r, false, time.Second) })
}
