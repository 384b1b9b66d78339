package rootd

import (
	"os"
	"testing"

	"verifharness/gen"
	"verifharness/rec"
)

// TestBeside drives several managers at once, each from its own goroutine.
func TestBeside(t *testing.T) {
	name := os.Getenv("PROFILE")
	if name == "" {
		t.Skip()
	}
	seed := uint64(rec.EnvInt("SEED", 1))
	start, n := rec.EnvInt("START", 0), rec.EnvInt("N", 10)
	lit := gen.Scan(gen.Repo())
	perms, reqs := gen.New(seed, 1778+uint64(start/gen.Chunk)).Vocabulary(30, 54, lit)
	aims := gen.Aims(perms, reqs)
	r := rec.Open()
	apart := map[int]*rec.Rec{}
	for i := start; i < start+n; i++ {
		apart[i] = r.Apart()
	}
	gen.Beside(start, n, 6, func(i int) {
		x := apart[i]
		x.Run(i, nil, func() { drive(x, name, seed, i, lit, perms, reqs, aims) })
	}, func(i int) { apart[i].Flush() })
}
