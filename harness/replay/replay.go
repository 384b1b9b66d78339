// Package replay runs behaviours generated by TLC from a specification against
// the real code and compares every result with the one the specification gives.
package replay

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"testing"
	"testing/synctest"

	"verifharness/rec"
)

type M = map[string]any

type Script struct {
	Setup   []M `json:"setup"`
	Ops     []M `json:"ops"`
	Queries []M `json:"queries"`
}

type Step struct {
	P []int  `json:"p"` // the calls, as indexes into Ops
	O any    `json:"o"` // result of the last call
	A []any  `json:"a"` // answers afterwards
	S string `json:"s,omitempty"`
}

// World runs one call on the real code and returns its result in the form the
// specification gives it.
type World interface{ Exec(e M) any }

// Norm makes results comparable: sets as sorted lists.
func Norm(v any) any {
	b, _ := json.Marshal(v)
	var x any
	json.Unmarshal(b, &x)
	return norm(x)
}

func norm(x any) any {
	switch t := x.(type) {
	case []any:
		ks := make([]string, len(t))
		for i := range t {
			b, _ := json.Marshal(norm(t[i]))
			ks[i] = string(b)
		}
		sort.Strings(ks)
		return ks
	case map[string]any:
		for k := range t {
			t[k] = norm(t[k])
		}
		return t
	}
	return x
}

func Same(a, b any) bool { return reflect.DeepEqual(Norm(a), Norm(b)) }

// Run replays the script named by SCRIPT. One line is written to OUT per
// behaviour begun, and one per difference.
func Run(t *testing.T, mk func(i int) World) {
	path := os.Getenv("SCRIPT")
	if path == "" {
		t.Skip()
	}
	start, n := rec.EnvInt("START", 0), rec.EnvInt("N", 1<<60)
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	sc.Scan()
	var s Script
	if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
		t.Fatal(err)
	}
	out := rec.Open()
	calls, bad := 0, 0
	for i := 0; sc.Scan(); i++ {
		if i < start || i >= start+n {
			continue
		}
		var st Step
		if err := json.Unmarshal(sc.Bytes(), &st); err != nil {
			t.Fatal(err)
		}
		out.Trace(i, nil)
		out.Line("B", rec.Ev{"op": "behaviour", "calls": st.P})
		diff := ""
		synctest.Test(t, func(t *testing.T) {
			diff = one(mk(i), s, st, i, &calls)
		})
		if diff != "" {
			out.Line("E", rec.Ev{"op": "differs", "p": st.P, "diff": diff, "res": "differs"})
			if bad++; bad >= 5 {
				break
			}
		} else {
			out.Line("E", rec.Ev{"op": "same", "res": "ok"})
		}
	}
	out.Line("C", rec.Ev{"calls": calls})
}

func one(w World, s Script, st Step, i int, calls *int) (diff string) {
	defer func() {
		if p := recover(); p != nil {
			c, ok := p.(rec.Crashed)
			if !ok {
				panic(p)
			}
			diff = "panic: " + c.Msg
		}
	}()
	for _, e := range s.Setup {
		w.Exec(e)
		*calls++
	}
	for k, x := range st.P {
		got := w.Exec(s.Ops[x-1])
		*calls++
		last := k == len(st.P)-1
		if last && !Same(got, st.O) {
			return fmt.Sprintf("call %v returned %v, specification: %v", s.Ops[x-1], got, st.O)
		}
		if !last && (i%3 == 1 || i%3 == 2 && k == len(st.P)-2) { // asking changes nothing
			for _, q := range s.Queries {
				w.Exec(q)
				*calls++
			}
		}
	}
	for k, q := range s.Queries {
		got := w.Exec(q)
		*calls++
		if !agrees(q, got, st.A[k]) {
			return fmt.Sprintf("query %v answered %v, specification: %v", q, got, st.A[k])
		}
	}
	return ""
}

// Agree holds, per kind of query, how an answer is compared with the one the
// specification gives, where that is not equality of sets.
var Agree = map[string]func(got, want any) bool{}

// OneOf is for queries where the specification leaves a choice of answers.
func OneOf(got, want any) bool {
	for _, x := range want.([]any) {
		if Same(got, x) {
			return true
		}
	}
	return false
}

// InOrder compares lists.
func InOrder(got, want any) bool {
	a, _ := json.Marshal(got)
	b, _ := json.Marshal(want)
	var x, y any
	json.Unmarshal(a, &x)
	json.Unmarshal(b, &y)
	return reflect.DeepEqual(x, y)
}

func agrees(q M, got, want any) bool {
	if f := Agree[Str(q, "op")]; f != nil {
		return f(got, want)
	}
	return Same(got, want)
}

// Str and friends read the fields of a call.
func Str(e M, k string) string { s, _ := e[k].(string); return s }
func Int(e M, k string) int    { f, _ := e[k].(float64); return int(f) }
func Bool(e M, k string) bool  { b, _ := e[k].(bool); return b }
func Strs(e M, k string) []string {
	out := []string{}
	l, _ := e[k].([]any)
	for _, x := range l {
		s, _ := x.(string)
		out = append(out, s)
	}
	return out
}
