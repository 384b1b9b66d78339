// Package rec records the calls a driver makes on the code under test, one
// line before each call and one after it, so that a call that never returns or
// ends the process is known as well.
package rec

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"sync"
)

type Ev map[string]any

// Crashed is thrown to end a trace after a call panicked.
type Crashed struct{ Msg string }

type Rec struct {
	f     *os.File
	mu    sync.Mutex
	vocab map[string]bool
	mem   bool
	under *Rec
	lines []line
	Last  any // result of the last call, for replays
	Hook  func(tag string, ev Ev)
}

// Hooked returns a recorder that hands every call to fn, before ("B") and after it ("E").
func Hooked(fn func(tag string, ev Ev)) *Rec { return &Rec{mem: true, Hook: fn} }

// Mem returns a recorder that only remembers the last result.
func Mem() *Rec { return &Rec{mem: true, vocab: map[string]bool{}} }

func Open() *Rec {
	path := os.Getenv("OUT")
	if path == "" {
		path = "/dev/null"
	}
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &Rec{f: f, vocab: map[string]bool{}}
}

type line struct {
	tag string
	v   any
}

// Apart returns a recorder for one of several traces recorded at once, which
// are written one after the other with Flush.
func (r *Rec) Apart() *Rec { return &Rec{under: r} }

func (r *Rec) Flush() {
	for _, l := range r.lines {
		r.under.Line(l.tag, l.v)
	}
	r.lines = nil
}

// Take continues with what was recorded by another.
func (r *Rec) Take(o *Rec) {
	r.lines = append(r.lines, o.lines...)
	o.lines = nil
}

func (r *Rec) Line(tag string, v any) {
	if r.mem {
		return
	}
	if r.under != nil {
		r.lines = append(r.lines, line{tag, v})
		return
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	buf := make([]byte, 0, len(b)+2)
	buf = append(buf, tag...)
	buf = append(buf, b...)
	buf = append(buf, '\n')
	if _, err := r.f.Write(buf); err != nil {
		panic(err)
	}
}

// Trace starts a new trace.
func (r *Rec) Trace(i int, meta Ev) {
	if meta == nil {
		meta = Ev{}
	}
	meta["i"] = i
	r.Line("T", meta)
}

// Done ends a trace that ran to its end.
func (r *Rec) Done(i int) { r.Line("D", Ev{"i": i}) }

// Call runs one call of the code under test. fn returns the result to record.
func (r *Rec) Call(ev Ev, fn func() any) {
	r.begin("B", ev)
	msg, res := guard(fn)
	if msg != "" {
		ev["crash"] = msg
		ev["res"] = "crash"
		r.begin("E", ev)
		panic(Crashed{msg})
	}
	ev["res"] = res
	r.Last = res
	r.begin("E", ev)
}

func (r *Rec) begin(tag string, ev Ev) {
	if r.Hook != nil {
		r.Hook(tag, ev)
	} else {
		r.Line(tag, ev)
	}
}

func guard(fn func() any) (msg string, res any) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprint("panic: ", p)
		}
	}()
	return "", fn()
}

// Vocab records the bytes of a text the specification has to look into.
func (r *Rec) Vocab(kind, s string) string {
	e := Enc(s)
	if r.mem {
		return e
	}
	if r.under != nil {
		return r.under.Vocab(kind, s)
	}
	k := kind + "\x00" + e
	r.mu.Lock()
	seen := r.vocab[k]
	r.vocab[k] = true
	r.mu.Unlock()
	if !seen {
		b := make([]int, len(s))
		for i := range b {
			b[i] = int(s[i])
		}
		r.Line("V", Ev{"kind": kind, "s": e, "b": b})
	}
	return e
}

// Enc writes any string, one to one, in printable ASCII.
func Enc(s string) string {
	q := strconv.QuoteToASCII(s)
	return q[1 : len(q)-1]
}

func EncAll(ss []string) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = Enc(s)
	}
	return out
}

func Err(err error) any {
	if err != nil {
		return "err"
	}
	return "ok"
}

func EncKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, Enc(k))
	}
	sort.Strings(out)
	return out
}

// Run runs one trace and swallows the end of a trace after a crash.
func (r *Rec) Run(i int, meta Ev, fn func()) {
	r.Trace(i, meta)
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(Crashed); !ok {
				panic(p)
			}
		}
	}()
	fn()
	r.Done(i)
}

func EnvInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}
