package stored

import (
	"slices"

	"github.com/oarkflow/permission/trie"

	"verifharness/rec"
	"verifharness/replay"
)

type record struct {
	id   string
	keys []any
	by   func(row *record) bool // for filters
}

type filter struct {
	By     string
	I, N   int
	V      string
	Ks, Hs []string
}

func (f filter) ev() rec.Ev {
	e := rec.Ev{"by": f.By}
	switch f.By {
	case "at":
		e["i"], e["v"] = f.I, f.V
	case "len":
		e["n"] = f.N
	case "like":
		e["ks"] = f.Ks
	case "in":
		e["hs"] = f.Hs
	}
	return e
}

// accepts is the predicate the filter stands for.
func (f filter) accepts(row *record) bool {
	switch f.By {
	case "all":
		return true
	case "none":
		return false
	case "at":
		return f.I <= len(row.keys) && row.keys[f.I-1] == val(f.V)
	case "len":
		return len(row.keys) == f.N
	case "like":
		for i, k := range f.Ks {
			if k != "nil" && (i >= len(row.keys) || row.keys[i] != val(k)) {
				return false
			}
		}
		return true
	case "in":
		return slices.Contains(f.Hs, row.id)
	}
	panic(f.By)
}

type tries struct {
	R     *rec.Rec
	st    map[string]*trie.Trie[record]
	recs  map[string]*record
	scrib bool
	hold  bool
	held  []heldResult
}

type heldResult struct {
	l   []*record
	was []string
}

func newTries(r *rec.Rec) *tries {
	return &tries{R: r, st: map[string]*trie.Trie[record]{}, recs: map[string]*record{}}
}

func (w *tries) NewRecord(h string, ks []string) {
	w.R.Call(rec.Ev{"op": "newRecord", "h": h, "ks": ks}, func() any {
		w.recs[h] = &record{id: h, keys: vals(ks)}
		return "ok"
	})
}

func (w *tries) NewStore(t string) {
	w.R.Call(rec.Ev{"op": "newStore", "t": t}, func() any {
		w.st[t] = trie.New(func(f, row *record) bool { return f.by(row) }, func(d *record) []any { return d.keys })
		return "ok"
	})
}

func (w *tries) Insert(t, h string) {
	w.R.Call(rec.Ev{"op": "insert", "t": t, "h": h}, func() any { w.st[t].Insert(w.recs[h]); return "ok" })
}

func (w *tries) InsertNil(t string) {
	w.R.Call(rec.Ev{"op": "insertNil", "t": t}, func() any { w.st[t].Insert(nil); return "ok" })
}

func (w *tries) name(x *record) string {
	if x == nil {
		return "none"
	}
	if w.recs[x.id] != x { // not the object inserted
		return "?" + x.id
	}
	return x.id
}

func (w *tries) names(l []*record) []string {
	out := []string{}
	for _, x := range l {
		out = append(out, w.name(x))
	}
	return out
}

func (w *tries) Ask(op, t string, f filter) {
	var l []*record
	w.R.Call(rec.Ev{"op": op, "t": t, "f": f.ev()}, func() any {
		s := w.st[t]
		by := &record{by: f.accepts}
		own := func(_, row *record) bool { return f.accepts(row) }
		switch op {
		case "search":
			l = s.Search(by)
		case "searchFunc":
			l = s.SearchFunc(nil, own)
		case "data":
			l = s.Data()
		case "first":
			return w.name(s.First(by))
		case "firstFunc":
			return w.name(s.FirstFunc(nil, own))
		}
		return w.names(l)
	})
	if w.hold && l != nil && len(w.held) < 30 {
		w.held = append(w.held, heldResult{l, w.names(l)})
	} else if w.scrib {
		for i := range l {
			l[i] = &record{id: "spoiled"}
		}
		_ = append(l, &record{id: "more"}, &record{id: "more"})
	}
}

// Held reads results returned earlier once more.
func (w *tries) Held() {
	for _, h := range w.held {
		w.R.Call(rec.Ev{"op": "held", "was": h.was}, func() any { return w.names(h.l) })
	}
	w.held = nil
}

// Exec runs one call given in the form of Trie.tla.
func (w *tries) Exec(e replay.M) any {
	s := func(k string) string { return replay.Str(e, k) }
	switch s("op") {
	case "newRecord":
		w.NewRecord(s("h"), replay.Strs(e, "ks"))
	case "newStore":
		w.NewStore(s("t"))
	case "insert":
		w.Insert(s("t"), s("h"))
	case "insertNil":
		w.InsertNil(s("t"))
	default:
		f := e["f"].(map[string]any)
		w.Ask(s("op"), s("t"), filter{replay.Str(f, "by"), replay.Int(f, "i"), replay.Int(f, "n"), replay.Str(f, "v"), replay.Strs(f, "ks"), replay.Strs(f, "hs")})
	}
	return w.R.Last
}
