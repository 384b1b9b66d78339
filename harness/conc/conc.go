// Package conc runs calls of several goroutines on one engine and records when
// each call began and ended: either under the schedules of package vsync (the
// code under test is then built with its scheduling points), or freely.
package conc

import (
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/rec"
	"verifharness/replay"
	"verifharness/vsync"
)

type M = replay.M

// World is an engine under test. With returns the same engine recording elsewhere.
type World interface {
	Exec(e M) any
	With(r *rec.Rec) World
}

// Work is what the goroutines do.
type Work struct {
	Setup   []M      // beforehand
	Threads [][]M    // at once
	Final   []M      // afterwards
	More    func() M // another call, for long runs
}

// Item of a history: a call began ("c") or ended ("r"), or the workers stopped for ever ("dead").
type item = rec.Ev

type history struct{ items []item }

// run builds the world and lets the threads go. It returns the history.
func run(mk func(r *rec.Rec) World, wk Work, plan *vsync.Plan) (items []item, why string, points []int) {
	w := mk(rec.Mem())
	for _, e := range wk.Setup {
		w.Exec(e)
	}
	var mu sync.Mutex
	type stamped struct {
		at time.Time
		it item
	}
	logs := make([][]stamped, len(wk.Threads))
	var fns []func()
	for k, calls := range wk.Threads {
		n := 0
		r := rec.Hooked(func(tag string, ev rec.Ev) {
			if tag == "B" {
				n++
				it := item{"k": "c", "id": k*100 + n, "e": ev}
				if plan != nil {
					mu.Lock()
					items = append(items, it)
					mu.Unlock()
				} else {
					logs[k] = append(logs[k], stamped{time.Now(), it})
				}
				return
			}
			it := item{"k": "r", "id": k*100 + n}
			if plan != nil {
				mu.Lock()
				items = append(items, it)
				mu.Unlock()
			} else {
				logs[k] = append(logs[k], stamped{time.Now(), it})
			}
		})
		own := w.With(r)
		fns = append(fns, func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(rec.Crashed); !ok {
						panic(p)
					}
				}
			}()
			for _, e := range calls {
				own.Exec(e)
			}
		})
	}
	if plan != nil {
		why, points = vsync.Run(*plan, fns)
		if why == "hang" {
			return nil, why, points
		}
		if why != "" {
			mu.Lock()
			items = append(slices.Clone(items), item{"k": "dead"})
			mu.Unlock()
			return settle(items), why, points
		}
	} else {
		var wg, up sync.WaitGroup
		gate := make(chan struct{})
		for _, fn := range fns {
			wg.Add(1)
			up.Add(1)
			go func() { defer wg.Done(); up.Done(); <-gate; fn() }()
		}
		up.Wait()
		close(gate)
		wg.Wait()
		var all []stamped
		for _, l := range logs {
			all = append(all, l...)
		}
		sort.SliceStable(all, func(i, j int) bool {
			if all[i].at.Equal(all[j].at) { // wide rather than narrow
				return all[i].it["k"] == "c" && all[j].it["k"] == "r"
			}
			return all[i].at.Before(all[j].at)
		})
		for _, s := range all {
			items = append(items, s.it)
		}
	}
	// what is left afterwards
	qs := []rec.Ev{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(rec.Crashed); !ok {
					panic(p)
				}
			}
		}()
		own := w.With(rec.Hooked(func(tag string, ev rec.Ev) {
			if tag == "E" {
				qs = append(qs, ev)
			}
		}))
		for _, e := range wk.Final {
			own.Exec(e)
		}
	}()
	items = append(items, item{"k": "q", "qs": qs})
	return settle(items), why, points
}

// settle turns lists of results into a fixed order, so that equal histories look equal.
func settle(items []item) []item {
	for _, it := range items {
		if e, ok := it["e"].(rec.Ev); ok {
			settleOne(e)
		}
		if l, ok := it["qs"].([]rec.Ev); ok {
			for _, e := range l {
				settleOne(e)
			}
		}
	}
	return items
}

func settleOne(e rec.Ev) {
	if _, done := e["res"]; !done {
		e["res"] = "unfinished"
	}
	switch l := e["res"].(type) {
	case []string:
		slices.Sort(l)
	case []rec.Ev:
		slices.SortFunc(l, func(a, b rec.Ev) int {
			x, _ := json.Marshal(a)
			y, _ := json.Marshal(b)
			return strings.Compare(string(x), string(y))
		})
	}
}

// Drive makes workloads and runs each under many schedules (MODE=plan) or a few
// times freely (MODE=free).
func Drive(t *testing.T, make_ func(g gen.R, i int) Work, mk func(r *rec.Rec) World) {
	if os.Getenv("OUT") == "" {
		t.Skip()
	}
	out := rec.Open()
	seed, start, n := rec.EnvInt("SEED", 1), rec.EnvInt("START", 0), rec.EnvInt("N", 10)
	free := os.Getenv("MODE") == "free"
	budget := rec.EnvInt("SCHEDULES", 200)
	reps := rec.EnvInt("REPS", 6)
	for i := start; i < start+n; i++ {
		g := gen.New(uint64(seed), uint64(i)+gen.Hash("conc"+t.Name()))
		wk := make_(g, i)
		out.Run(i, nil, func() {
			// the setup, and the vocabulary of everything
			w := mk(out)
			for _, e := range wk.Setup {
				w.Exec(e)
			}
			if os.Getenv("MODE") == "storm" {
				for k := 0; k < reps; k++ {
					threads := make([][]M, g.Between(2, 5))
					for j := range threads {
						for x := rec.EnvInt("CALLS", 24); x > 0; x-- {
							threads[j] = append(threads[j], wk.More())
						}
					}
					out.Line("B", rec.Ev{"op": "storm", "rep": k})
					if crash := storm(mk, wk, threads); crash != "" {
						out.Line("E", rec.Ev{"op": "storm", "crash": crash, "res": "crash"})
						return
					}
				}
				out.Line("E", rec.Ev{"op": "runs", "n": reps, "res": reps})
				return
			}
			vocab(out, wk.Setup)
			for _, l := range wk.Threads {
				vocab(out, l)
			}
			vocab(out, wk.Final)
			seen := map[string]bool{}
			runs := 0
			one := func(p *vsync.Plan) (points []int, stop bool) {
				runs++
				out.Line("B", rec.Ev{"op": "schedule", "plan": p})
				items, why, points := run(mk, wk, p)
				if why == "hang" { // the schedule, not a judgement
					out.Line("E", rec.Ev{"op": "schedule", "res": "hang"})
					return points, true
				}
				b, _ := json.Marshal(items)
				if seen[string(b)] {
					return points, false
				}
				seen[string(b)] = true
				out.Line("E", rec.Ev{"op": "schedule", "plan": p, "alt": items, "res": why})
				return points, why != ""
			}
			if free {
				for k := 0; k < reps; k++ {
					one(nil)
				}
				out.Line("E", rec.Ev{"op": "runs", "n": runs, "res": len(seen)})
				return
			}
			// first without interruption, to learn how long each thread is
			var lens []int
			for k := range wk.Threads {
				points, stop := one(&vsync.Plan{Kind: "one", First: k, K: -1, Seed: uint64(k)})
				if stop {
					return
				}
				lens = points
			}
			total := 0
			for _, l := range lens {
				total += l
			}
			for k := range wk.Threads {
				step := max(1, lens[k]*len(wk.Threads)/max(budget, 1))
				for j := 1 + g.IntN(step); j <= lens[k]; j += step {
					if _, stop := one(&vsync.Plan{Kind: "one", First: k, K: j, Seed: uint64(j)}); stop {
						return
					}
				}
			}
			for k := 0; k < budget/2; k++ {
				p := &vsync.Plan{Kind: "rand", Seed: uint64(g.IntN(1 << 30)), P: []int{2, 3, 5, 9, 17, 33}[k%6]}
				if k%3 == 0 {
					p.Kind = "prio"
					for x := g.Between(1, 3); x > 0; x-- {
						p.At = append(p.At, 1+g.IntN(max(total, 1)))
					}
				}
				if _, stop := one(p); stop {
					return
				}
			}
			out.Line("E", rec.Ev{"op": "runs", "n": runs, "points": total, "res": len(seen)})
		})
	}
}

// storm lets several goroutines make many calls at once, with nothing that would
// order them but the code under test, and only notes whether a call crashed.
func storm(mk func(r *rec.Rec) World, wk Work, threads [][]M) (crash string) {
	w := mk(rec.Mem())
	for _, e := range wk.Setup {
		w.Exec(e)
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	crashes := make([]string, len(threads))
	for k, calls := range threads {
		own := w.With(rec.Mem())
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					c, ok := p.(rec.Crashed)
					if !ok {
						panic(p)
					}
					crashes[k] = c.Msg
				}
			}()
			<-gate
			for _, e := range calls {
				own.Exec(e)
			}
		}()
	}
	close(gate)
	wg.Wait()
	for _, c := range crashes {
		if c != "" {
			return c
		}
	}
	return ""
}

// vocab records the texts the specification looks into.
func vocab(r *rec.Rec, calls []M) {
	for _, e := range calls {
		if x, ok := e["voc"].(func(r *rec.Rec)); ok {
			x(r)
		}
		if l, ok := e["ps"].([]any); ok {
			for _, p := range l {
				r.Vocab("perm", p.(string))
			}
		}
		if q, ok := e["req"].(M); ok {
			r.Vocab("req", fmt.Sprint(q["res"], " ", q["act"]))
		}
	}
}

// L makes a list as calls have it.
func L(xs ...string) []any {
	out := []any{}
	for _, x := range xs {
		out = append(out, x)
	}
	return out
}
