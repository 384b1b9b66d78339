package gen

import "sync"

// Beside runs fn for start..start+n-1, several at once, and done for each in
// order once it and its neighbours have ended.
func Beside(start, n, width int, fn func(i int), done func(i int)) {
	for a := start; a < start+n; a += width {
		b := min(a+width, start+n)
		var wg sync.WaitGroup
		for i := a; i < b; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); fn(i) }()
		}
		wg.Wait()
		for i := a; i < b; i++ {
			done(i)
		}
	}
}
