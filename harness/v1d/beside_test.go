package v1d

import (
	"os"
	"sync"
	"testing"

	"verifharness/gen"
	"verifharness/rec"
)

// TestBeside drives several managers at once, each from its own goroutine, and
// asks each of them from several when it no longer changes.
func TestBeside(t *testing.T) {
	name := os.Getenv("PROFILE")
	if name == "" {
		t.Skip()
	}
	seed := uint64(rec.EnvInt("SEED", 1))
	start, n := rec.EnvInt("START", 0), rec.EnvInt("N", 10)
	lit := gen.Scan(gen.Repo())
	perms, reqs := gen.New(seed, 1778+uint64(start/gen.Chunk)).Vocabulary(30, 54, lit)
	aims := gen.Aims(perms, reqs)
	r := rec.Open()
	apart := map[int]*rec.Rec{}
	for i := start; i < start+n; i++ {
		apart[i] = r.Apart()
	}
	gen.Beside(start, n, 6, func(i int) {
		x := apart[i]
		x.Run(i, nil, func() {
			d := drive(x, name, seed, i, lit, perms, reqs, aims)
			var wg sync.WaitGroup
			var own []*rec.Rec
			for k := 0; k < 4; k++ {
				w, y := *d.World, *d
				w.R, w.kept, w.forms = r.Apart(), nil, k
				y.World, y.g, y.last = &w, gen.New(seed, uint64(4*i+k)+70000), nil
				own = append(own, w.R)
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							if _, ok := p.(rec.Crashed); !ok {
								panic(p)
							}
						}
					}()
					for n := y.g.Between(5, 25); n > 0; n-- {
						y.query(pickW(y.g, queries, y.pf.q))
					}
				}()
			}
			wg.Wait()
			for _, o := range own {
				x.Take(o)
			}
		})
	}, func(i int) { apart[i].Flush() })
}
