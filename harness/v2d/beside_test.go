package v2d

import (
	"os"
	"testing"
	"testing/synctest"

	"verifharness/gen"
	"verifharness/rec"
)

// TestBeside drives several engines at once, each from its own goroutine.
func TestBeside(t *testing.T) {
	name := os.Getenv("PROFILE")
	if name == "" {
		t.Skip()
	}
	seed := uint64(rec.EnvInt("SEED", 1))
	start, n := rec.EnvInt("START", 0), rec.EnvInt("N", 10)
	lit := gen.Scan(gen.Repo())
	perms, reqs := gen.New(seed, 777+uint64(start/gen.Chunk)).Vocabulary(30, 54, lit)
	aims := gen.Aims(perms, reqs)
	r := rec.Open()
	apart := map[int]*rec.Rec{}
	for i := start; i < start+n; i++ {
		apart[i] = r.Apart()
	}
	for a := start; a < start+n; a += 6 {
		b := min(a+6, start+n)
		t.Run("", func(t *testing.T) {
			for i := a; i < b; i++ {
				x := apart[i]
				t.Run("", func(t *testing.T) {
					t.Parallel()
					synctest.Test(t, func(t *testing.T) {
						x.Run(i, nil, func() { drive(x, name, seed, i, lit, perms, reqs, aims) })
					})
				})
			}
		})
		for i := a; i < b; i++ {
			apart[i].Flush()
		}
	}
}
