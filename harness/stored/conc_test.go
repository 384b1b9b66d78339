package stored

import (
	"fmt"
	"testing"

	"verifharness/conc"
	"verifharness/gen"
	"verifharness/rec"
)

// With returns the same stores, recorded elsewhere.
func (w *tries) With(r *rec.Rec) conc.World { c := *w; c.R = r; return &c }

func concWork(g gen.R, i int) conc.Work {
	var wk conc.Work
	vs := []string{"nil", "s:a", "s:b", "i:1", "b:true"}
	if i%3 > 0 {
		vs = vs[:gen.Pick(g, []int{2, 2, 3})]
	}
	add := func(e conc.M) { wk.Setup = append(wk.Setup, e) }
	add(conc.M{"op": "newStore", "t": "t"})
	n := g.Between(1, 3)
	list := func() []string {
		ks := make([]string, n)
		for k := range ks {
			ks[k] = gen.Pick(g, vs)
		}
		return ks
	}
	var recs []string
	var keys [][]string
	for k := 0; k < 6; k++ {
		h := fmt.Sprintf("r%d", k)
		ks := list()
		if k > 0 && g.P(30) {
			ks = gen.Pick(g, keys)
		}
		recs, keys = append(recs, h), append(keys, ks)
		add(conc.M{"op": "newRecord", "h": h, "ks": conc.L(ks...)})
	}
	for _, h := range gen.Subset(g, recs, 20) {
		add(conc.M{"op": "insert", "t": "t", "h": h})
	}
	ask := func() conc.M {
		f := map[string]any{"by": "all"}
		op := gen.Pick(g, []string{"search", "searchFunc", "first", "firstFunc", "data"})
		if op != "data" {
			ks := gen.Pick(g, keys)
			switch g.IntN(4) {
			case 0:
				k := g.IntN(n)
				f = map[string]any{"by": "at", "i": float64(k + 1), "v": ks[k]}
			case 1:
				f = map[string]any{"by": "in", "hs": conc.L(gen.Some(g, recs, 1, 3)...)}
			case 2:
				f = map[string]any{"by": "like", "ks": conc.L(ks...)}
			}
		}
		return conc.M{"op": op, "t": "t", "f": f}
	}
	nT, qp := g.Between(2, 3), gen.Pick(g, []int{100, 60, 20, 0})
	for k := 0; k < nT; k++ {
		var l []conc.M
		for x := g.Between(1, 3); x > 0; x-- {
			if k > 0 && g.P(qp) {
				l = append(l, ask())
			} else if g.P(4) {
				l = append(l, conc.M{"op": "insertNil", "t": "t"})
			} else {
				l = append(l, conc.M{"op": "insert", "t": "t", "h": gen.Pick(g, recs)})
			}
		}
		wk.Threads = append(wk.Threads, l)
	}
	wk.Final = append(wk.Final, conc.M{"op": "data", "t": "t", "f": map[string]any{"by": "all"}})
	for k := 0; k < 4; k++ {
		wk.Final = append(wk.Final, ask())
	}
	qp = gen.Pick(g, []int{20, 50, 80})
	wk.More = func() conc.M {
		if g.P(qp) {
			return ask()
		}
		return conc.M{"op": "insert", "t": "t", "h": gen.Pick(g, recs)}
	}
	return wk
}

func TestConc(t *testing.T) {
	conc.Drive(t, concWork, func(r *rec.Rec) conc.World { return newTries(r) })
}
