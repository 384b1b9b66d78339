package stored

import (
	"slices"

	"github.com/oarkflow/permission/ds"
	"github.com/oarkflow/permission/utils"

	"verifharness/rec"
	"verifharness/replay"
)

type lists struct {
	R *rec.Rec
	l map[string]ds.Link[any]
	s map[string][]any
}

func newLists(r *rec.Rec) *lists {
	return &lists{r, map[string]ds.Link[any]{}, map[string][]any{}}
}

func (w *lists) Empty(l string) {
	w.R.Call(rec.Ev{"op": "empty", "l": l}, func() any { w.l[l] = ds.Empty[any](); return "ok" })
}

func (w *lists) Append(l, from, x string) {
	w.R.Call(rec.Ev{"op": "append", "l": l, "from": from, "x": x}, func() any { w.l[l] = w.l[from].Append(val(x)); return "ok" })
}

func (w *lists) Concat(l, a, b string) {
	w.R.Call(rec.Ev{"op": "concat", "l": l, "a": a, "b": b}, func() any { w.l[l] = w.l[a].Concat(w.l[b]); return "ok" })
}

func (w *lists) Take(s, l string) {
	w.R.Call(rec.Ev{"op": "take", "s": s, "l": l}, func() any { w.s[s] = w.l[l].AsSlice(); return "ok" })
}

func (w *lists) Set(s string, i int, x string) {
	w.R.Call(rec.Ev{"op": "set", "s": s, "i": i, "x": x}, func() any {
		if i <= len(w.s[s]) {
			w.s[s][i-1] = val(x)
		}
		return "ok"
	})
}

func (w *lists) Extend(s, x string) {
	w.R.Call(rec.Ev{"op": "extend", "s": s, "x": x}, func() any { w.s[s] = append(w.s[s], val(x)); return "ok" })
}

func (w *lists) Slice(l string) {
	w.R.Call(rec.Ev{"op": "slice", "l": l}, func() any { return tags(w.l[l].AsSlice()) })
}

func (w *lists) IsEmpty(l string) {
	w.R.Call(rec.Ev{"op": "isEmpty", "l": l}, func() any { return w.l[l].IsEmpty() })
}

func (w *lists) Read(s string) {
	w.R.Call(rec.Ev{"op": "read", "s": s}, func() any { return tags(w.s[s]) })
}

func (w *lists) Compact(xs []string) {
	ev := rec.Ev{"op": "compact", "xs": xs}
	w.R.Call(ev, func() any {
		in := vals(xs)
		out := utils.Compact(in)
		res := tags(out)
		for i := range out { // the result is the caller's
			out[i] = "spoiled"
		}
		ev["after"] = tags(in)
		return res
	})
}

func (w *lists) Contains(xs []string, x string) {
	ev := rec.Ev{"op": "contains", "xs": xs, "x": x}
	w.R.Call(ev, func() any {
		in := vals(xs)
		res := utils.Contains(in, val(x))
		ev["after"] = tags(in)
		return res
	})
}

func (w *lists) Join(xs, ys []string, pairs [][]string) {
	ev := rec.Ev{"op": "join", "xs": xs, "ys": ys, "pairs": pairs}
	w.R.Call(ev, func() any {
		a, b := vals(xs), vals(ys)
		out := utils.JoinSlices(a, b, func(x, y any) bool {
			return slices.ContainsFunc(pairs, func(p []string) bool { return val(p[0]) == x && val(p[1]) == y })
		}, func(x, y any) []string { return []string{tag(x), tag(y)} })
		ev["after"] = tags(a)
		if out == nil {
			out = [][]string{}
		}
		return out
	})
}

func (w *lists) Filter(row, like []string) {
	w.R.Call(rec.Ev{"op": "filter", "row": row, "like": like}, func() any {
		a, b := vals(row), vals(like)
		var fields []func(*[]any) any
		for i := range a {
			fields = append(fields, func(l *[]any) any { return (*l)[i] })
		}
		return utils.FilterByFields(&b, &a, fields...)
	})
}

// Exec runs one call given in the form of Lists.tla.
func (w *lists) Exec(e replay.M) any {
	s := func(k string) string { return replay.Str(e, k) }
	switch s("op") {
	case "empty":
		w.Empty(s("l"))
	case "append":
		w.Append(s("l"), s("from"), s("x"))
	case "concat":
		w.Concat(s("l"), s("a"), s("b"))
	case "take":
		w.Take(s("s"), s("l"))
	case "set":
		w.Set(s("s"), replay.Int(e, "i"), s("x"))
	case "extend":
		w.Extend(s("s"), s("x"))
	case "slice":
		w.Slice(s("l"))
	case "isEmpty":
		w.IsEmpty(s("l"))
	case "read":
		w.Read(s("s"))
	}
	return w.R.Last
}
