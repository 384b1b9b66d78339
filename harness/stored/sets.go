package stored

import (
	"fmt"
	"sort"

	"github.com/oarkflow/permission/utils"

	"verifharness/gen"
	"verifharness/rec"
)

// The forms in which Intersection and Union are given their items; an item of
// Lists.tla is the list of its parts.
type row struct {
	A any
	B string
}

type hidden struct {
	a string
	B any
	C int
}

type spoken struct{ s string }

func (s spoken) String() string { return s.s }

func str(s string) string { return val(s).(string) }

func sets[T any](mk func([]string) T, back func(T) []string) func(op string, xs, ys [][]string) ([][]string, [][]string) {
	return func(op string, xs, ys [][]string) ([][]string, [][]string) {
		var a, b []T
		for _, x := range xs {
			a = append(a, mk(x))
		}
		for _, y := range ys {
			b = append(b, mk(y))
		}
		var out []T
		if op == "union" {
			out = utils.Union(a, b)
		} else {
			out = utils.Intersection(a, b)
		}
		res, after := [][]string{}, [][]string{}
		for _, x := range out {
			res = append(res, back(x))
		}
		clear(out) // the result is the caller's
		for _, x := range a {
			after = append(after, back(x))
		}
		return res, after
	}
}

// sorted gives the entries of a map in a fixed order.
func sorted(entries [][2]string) []string {
	sort.Slice(entries, func(i, j int) bool { return entries[i][0] < entries[j][0] })
	out := []string{}
	for _, e := range entries {
		out = append(out, e[0], e[1])
	}
	return out
}

var forms = map[string]func(op string, xs, ys [][]string) ([][]string, [][]string){
	"record": sets(func(p []string) row { return row{val(p[0]), str(p[1])} }, func(x row) []string { return []string{tag(x.A), tag(x.B)} }),
	"hidden": sets(func(p []string) hidden { return hidden{str(p[0]), val(p[1]), 7} }, func(x hidden) []string { return []string{tag(x.a), tag(x.B)} }),
	"text":   sets(func(p []string) string { return str(p[0]) }, func(x string) []string { return []string{tag(x)} }),
	"any":    sets(func(p []string) any { return val(p[0]) }, func(x any) []string { return []string{tag(x)} }),
	"map": sets(func(p []string) map[string]any {
		m := map[string]any{}
		for i := 0; i < len(p); i += 2 {
			m[str(p[i])] = val(p[i+1])
		}
		return m
	}, func(m map[string]any) []string {
		var l [][2]string
		for k, v := range m {
			l = append(l, [2]string{tag(k), tag(v)})
		}
		return sorted(l)
	}),
	"numbered": sets(func(p []string) map[any]string {
		m := map[any]string{}
		for i := 0; i < len(p); i += 2 {
			m[val(p[i])] = str(p[i+1])
		}
		return m
	}, func(m map[any]string) []string {
		var l [][2]string
		for k, v := range m {
			l = append(l, [2]string{tag(k), tag(v)})
		}
		return sorted(l)
	}),
}

func (w *lists) Sets(op, form string, xs, ys [][]string) {
	ev := rec.Ev{"op": op, "form": form, "xs": xs, "ys": ys}
	w.R.Call(ev, func() any {
		res, after := forms[form](op, xs, ys)
		ev["after"] = after
		return res
	})
}

// Text asks for the text of a value; how tells in which form it is given.
func (w *lists) Text(how, x string) {
	w.R.Call(rec.Ev{"op": "text", "how": how, "x": x}, func() any {
		switch s := str("s:" + x); how {
		case "nil":
			return rec.Enc(utils.ToString(nil))
		case "string":
			return rec.Enc(utils.ToString(s))
		case "bytes":
			return rec.Enc(utils.ToString([]byte(s)))
		case "named":
			return rec.Enc(utils.ToString(text(s)))
		case "stringer":
			return rec.Enc(utils.ToString(spoken{s}))
		case "pointer":
			return rec.Enc(utils.ToString(&spoken{s}))
		case "there and back":
			return rec.Enc(utils.FromByte(utils.ToByte(s)))
		case "copied":
			return rec.Enc(string(utils.ToByte(s)))
		default:
			var n int64
			if _, err := fmt.Sscan(s, &n); err != nil {
				panic(err)
			}
			switch how {
			case "int":
				return rec.Enc(utils.ToString(int(n)))
			case "int64":
				return rec.Enc(utils.ToString(n))
			case "uint":
				return rec.Enc(utils.ToString(uint(n)))
			}
			return rec.Enc(utils.ToString(float64(n)))
		}
	})
}

// Pool takes slices from a pool, fills and returns them; each slice taken has
// to be empty, and those in use at the same time have to stay apart.
func (w *lists) Pool(size int, fill [][]string) {
	w.R.Call(rec.Ev{"op": "pool", "size": size, "fill": fill}, func() any {
		p := utils.NewSlicePool[string](size)
		var out [][]string
		use := func(l [][]string) {
			taken := make([][]string, len(l))
			for i := range l {
				taken[i] = p.Get()
			}
			for i, xs := range l {
				for _, x := range xs {
					taken[i] = append(taken[i], x)
				}
			}
			for _, t := range taken {
				out = append(out, append([]string{}, t...))
			}
			for _, t := range taken {
				p.Put(t)
			}
		}
		half := len(fill) / 2
		use(fill[:half])
		use(fill[half:])
		if out == nil {
			out = [][]string{}
		}
		return out
	})
}

func driveSets(g gen.R, r *rec.Rec, lit gen.Literals) {
	w := newLists(r)
	parts := []string{"", "a", "b", "|", ":", "A:", "B:", "|B:", "a|B:a", "nil", "1", "true", "%", `"`, "{", "}", " ", "é", "<nil>"}
	parts = append(parts, lit.Strings[:min(len(lit.Strings), 10)]...)
	word := func() string {
		s := ""
		for k := gen.Pick(g, []int{0, 1, 1, 2, 2, 3, 5}); k > 0; k-- {
			s += gen.Pick(g, parts)
		}
		return s
	}
	for k := g.Between(3, 12); k > 0; k-- {
		few := make([]string, g.Between(1, 4))
		for i := range few {
			few[i] = "s:" + rec.Enc(word())
		}
		if g.P(30) { // one text cut in two at several places
			a := word() + word()
			few = few[:0]
			for i := 0; i <= len(a); i++ {
				few = append(few, "s:"+rec.Enc(a[:i]), "s:"+rec.Enc(a[i:]))
			}
		}
		vs := append([]string{"nil", "i:1", "l:1", "f:1", "u:1", "s:1", "t:1", "b:true", "s:true", "s:<nil>", "s:nil"}, few...)
		form := gen.Pick(g, []string{"record", "record", "hidden", "text", "any", "map", "map", "numbered"})
		item := func() []string {
			switch form {
			case "record":
				return []string{gen.Pick(g, vs), gen.Pick(g, few)}
			case "hidden":
				return []string{gen.Pick(g, few), gen.Pick(g, vs)}
			case "text":
				return []string{gen.Pick(g, few)}
			case "any":
				return []string{gen.Pick(g, vs)}
			}
			keys, values := few, vs
			if form == "numbered" {
				keys, values = vs, few
			}
			m := map[string]string{}
			for k := g.IntN(4); k > 0; k-- {
				m[gen.Pick(g, keys)] = gen.Pick(g, values)
			}
			var l [][2]string
			for k, v := range m {
				l = append(l, [2]string{k, v})
			}
			return sorted(l)
		}
		list := func() [][]string {
			out := make([][]string, gen.Pick(g, []int{0, 1, 2, 3, 5, 8, 20}))
			for i := range out {
				out[i] = item()
			}
			return out
		}
		xs, ys := list(), list()
		for i := range ys {
			if len(xs) > 0 && g.P(40) {
				ys[i] = gen.Pick(g, xs)
			}
		}
		w.Sets("union", form, xs, ys)
		w.Sets("intersection", form, xs, ys)
		for _, how := range []string{"string", "bytes", "named", "stringer", "pointer", "there and back", "copied"} {
			w.Text(how, rec.Enc(word()))
		}
		w.Text("nil", "")
		for _, how := range []string{"int", "int64", "uint", "float64"} {
			w.Text(how, fmt.Sprint(g.IntN(1000)))
		}
		w.Text("int", fmt.Sprint(-g.IntN(100000)-1))
		fill := make([][]string, g.IntN(9))
		for i := range fill {
			fill[i] = gen.Some(g, few, 0, gen.Pick(g, []int{0, 3, 12}))
		}
		w.Pool(gen.Pick(g, []int{0, 1, 5, 100}), fill)
	}
}
