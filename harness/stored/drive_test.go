package stored

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"testing"

	"verifharness/gen"
	"verifharness/rec"
	"verifharness/replay"
)

func TestReplayTrie(t *testing.T) {
	replay.Agree["first"], replay.Agree["firstFunc"] = replay.OneOf, replay.OneOf
	replay.Run(t, func(i int) replay.World { w := newTries(rec.Mem()); w.scrib = i%2 == 0; return w })
}

func TestReplayLists(t *testing.T) {
	replay.Agree["slice"], replay.Agree["read"] = replay.InOrder, replay.InOrder
	replay.Run(t, func(i int) replay.World { return newLists(rec.Mem()) })
}

// values that are easily confused
var pool = []string{"nil", "s:1", "i:1", "l:1", "u:1", "f:1", "r:1", "b:true", "s:true", "t:1", "p:1", "s:", "i:0", "b:false", "s:nil", "t:", "p:", "s:a", "s:A", "i:2",
	"i:49", "r:49", "s:<nil>", "f:0", "l:0", "s:0", "t:0", "i:-1", "s:a/b", "s:a b"}

func values(g gen.R, lit gen.Literals) []string {
	out := []string{}
	for n := gen.Pick(g, []int{2, 3, 5, 8, len(pool)}); n > 0; n-- {
		if g.P(12) && len(lit.Strings) > 0 {
			out = append(out, "s:"+rec.Enc(gen.Pick(g, lit.Strings)))
		} else if g.P(8) && len(lit.Ints) > 0 {
			out = append(out, "i:"+strconv.Itoa(gen.Pick(g, lit.Ints)))
		} else {
			out = append(out, gen.Pick(g, pool))
		}
	}
	if g.P(5) {
		for _, s := range gen.Pick(g, gen.Twins) {
			out = append(out, "s:"+rec.Enc(s))
		}
	}
	return out
}

func driveTrie(g gen.R, r *rec.Rec, lit gen.Literals) {
	w := newTries(r)
	w.scrib = g.P(40)
	w.hold = g.P(40)
	vs := values(g, lit)
	nst := g.Between(1, 2)
	for i := 0; i < nst; i++ {
		w.NewStore("t" + strconv.Itoa(i))
	}
	fixed := gen.Pick(g, []int{-1, -1, 1, 2, 3, 6})
	list := func() []string {
		n := fixed
		if n < 0 || g.P(5) {
			n = g.IntN(5)
		}
		ks := make([]string, n)
		for i := range ks {
			ks[i] = gen.Pick(g, vs)
		}
		return ks
	}
	var recs []string
	var keys [][]string
	total := gen.Pick(g, []int{5, 15, 15, 40, 60})
	if g.P(3) {
		total = 300 // more children than a node starts with room for
	}
	often := 25
	if g.IntN(250) == 0 {
		total, often = 1300, 2
	}
	t := func() string { return "t" + strconv.Itoa(g.IntN(nst)) }
	some := func() filter {
		ks := list()
		if len(keys) > 0 && g.P(70) {
			ks = append([]string{}, gen.Pick(g, keys)...)
		}
		switch g.IntN(12) {
		case 0:
			return filter{By: "all"}
		case 1:
			return filter{By: "none"}
		case 2, 3:
			return filter{By: "len", N: len(ks)}
		case 4, 5, 6:
			if len(ks) > 0 {
				i := g.IntN(len(ks))
				return filter{By: "at", I: i + 1, V: ks[i]}
			}
		case 7, 8:
			return filter{By: "in", Hs: gen.Some(g, recs, 1, 4)}
		}
		if g.P(50) && len(ks) > 0 {
			ks[g.IntN(len(ks))] = "nil"
		}
		return filter{By: "like", Ks: ks}
	}
	ask := func(n int) {
		for ; n > 0; n-- {
			f := some()
			if f.By == "in" && len(f.Hs) == 0 {
				f = filter{By: "all"}
			}
			op := gen.Pick(g, []string{"search", "searchFunc", "first", "firstFunc", "data"})
			if op == "data" {
				f = filter{By: "all"}
			}
			w.Ask(op, t(), f)
		}
	}
	for k := 0; k < total; k++ {
		if len(recs) == 0 || g.P(75) {
			h := fmt.Sprintf("r%d", len(recs))
			ks := list()
			if len(keys) > 0 && g.P(25) {
				ks = gen.Pick(g, keys)
			}
			if total >= 300 && g.P(80) {
				ks = append([]string{"i:" + strconv.Itoa(k)}, ks...)
			}
			w.NewRecord(h, ks)
			recs, keys = append(recs, h), append(keys, ks)
			w.Insert(t(), h)
		} else if g.P(4) {
			w.InsertNil(t())
		} else {
			w.Insert(t(), gen.Pick(g, recs))
		}
		if g.P(often) {
			ask(g.Between(1, 4))
		}
		if g.P(6) {
			w.Held()
		}
	}
	for i := 0; i < nst; i++ {
		w.Ask("data", "t"+strconv.Itoa(i), filter{By: "all"})
	}
	ask(12)
	w.Held()
}

func driveLists(g gen.R, r *rec.Rec, lit gen.Literals) {
	w := newLists(r)
	vs := values(g, lit)
	names := []string{"a", "b", "c", "d", "e"}[:g.Between(1, 5)]
	snames := []string{"s", "u", "v"}
	for _, l := range names {
		w.Empty(l)
	}
	for _, s := range snames {
		w.Take(s, gen.Pick(g, names))
	}
	size := map[string]int{}
	most := gen.Pick(g, []int{60, 60, 60, 60, 60, 60, 700})
	for k := gen.Pick(g, []int{5, 20, 40, 80}); k > 0; k-- {
		a, b, c, s, x := gen.Pick(g, names), gen.Pick(g, names), gen.Pick(g, names), gen.Pick(g, snames), gen.Pick(g, vs)
		switch g.IntN(14) {
		case 0:
			if g.P(30) {
				w.Empty(a)
				size[a] = 0
			}
		case 1, 2, 3:
			w.Append(a, a, x)
			size[a]++
		case 4:
			w.Append(a, b, x)
			size[a] = size[b] + 1
		case 5, 6, 7:
			if size[b]+size[c] < most {
				w.Concat(a, b, c)
				size[a] = size[b] + size[c]
			}
		case 8:
			w.Take(s, a)
		case 9:
			w.Set(s, g.Between(1, size[a]+1), x)
		case 10:
			w.Extend(s, x)
		case 11:
			w.Slice(a)
		case 12:
			w.IsEmpty(a)
		case 13:
			w.Read(s)
		}
		if g.P(10) {
			for _, l := range names {
				w.Slice(l)
				w.IsEmpty(l)
			}
			for _, s := range snames {
				w.Read(s)
			}
		}
	}
	for _, l := range names {
		w.Slice(l)
		w.IsEmpty(l)
	}
	for _, s := range snames {
		w.Read(s)
	}
	for k := 0; k < 6; k++ {
		w.Compact(gen.Some(g, vs, 0, gen.Pick(g, []int{3, 3, 8, 8, 30, 30, 300})))
		in := gen.Some(g, vs, 0, 6)
		if len(in) > 0 && g.P(40) {
			w.Contains(in, gen.Pick(g, in))
		} else {
			w.Contains(in, gen.Pick(g, append(vs, pool...)))
		}
		xs, ys := gen.Some(g, vs, 0, 5), gen.Some(g, vs, 0, 5)
		pairs := [][]string{{"s:never", "s:never"}}
		for _, x := range xs {
			for _, y := range ys {
				if g.P(40) {
					pairs = append(pairs, []string{x, y})
				}
			}
		}
		w.Join(xs, ys, pairs)
		row := gen.Some(g, vs, 0, 4)
		like := append([]string{}, row...)
		if len(like) > 0 && g.P(50) {
			like[g.IntN(len(like))] = gen.Pick(g, append(vs, pool...))
		}
		w.Filter(row, like)
	}
}

func TestDrive(t *testing.T) {
	name := os.Getenv("PROFILE")
	if name == "" {
		t.Skip()
	}
	seed := uint64(rec.EnvInt("SEED", 1))
	start, n := rec.EnvInt("START", 0), rec.EnvInt("N", 10)
	lit := gen.Scan(gen.Repo())
	sort.Strings(lit.Strings)
	r := rec.Open()
	for i := start; i < start+n; i++ {
		g := gen.New(seed, gen.Hash(name)+uint64(i))
		r.Run(i, nil, func() {
			switch name {
			case "C27":
				driveLists(g, r, lit)
			case "C30":
				driveSets(g, r, lit)
			default:
				driveTrie(g, r, lit)
			}
		})
	}
}
