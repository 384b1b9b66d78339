// Package matchd drives utils.MatchResource for Match.tla.
package matchd

import (
	"bufio"
	"encoding/json"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/oarkflow/permission/utils"

	"verifharness/gen"
	"verifharness/rec"
)

func ints(s string) []int {
	b := make([]int, len(s))
	for i := range b {
		b[i] = int(s[i])
	}
	return b
}

func text(b []int) string {
	var s strings.Builder
	for _, x := range b {
		s.WriteByte(byte(x))
	}
	return s.String()
}

// TestTable compares every pattern of SCRIPT with every value over its letters.
func TestTable(t *testing.T) {
	path := os.Getenv("SCRIPT")
	if path == "" {
		t.Skip()
	}
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	values := []string{""}
	last := values
	for n := rec.EnvInt("VLEN", 3); n > 0; n-- {
		var next []string
		for _, v := range last {
			for _, c := range []string{"a", "/", " ", ":", "*"} {
				next = append(next, v+c)
			}
		}
		values = append(values, next...)
		last = next
	}
	out := rec.Open()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<27)
	calls, bad := 0, 0
	for i := 0; sc.Scan(); i++ {
		var row struct {
			P []int
			M [][]int
		}
		if err := json.Unmarshal(sc.Bytes(), &row); err != nil {
			t.Fatal(err)
		}
		want := map[string]bool{}
		for _, v := range row.M {
			want[text(v)] = true
		}
		p := text(row.P)
		out.Trace(i, nil)
		out.Line("B", rec.Ev{"op": "pattern", "calls": p})
		for _, v := range values {
			calls++
			if got := utils.MatchResource(v, p); got != want[v] && bad < 5 {
				bad++
				out.Line("E", rec.Ev{"op": "differs", "p": []int{}, "diff": rec.Ev{"value": v, "pattern": p, "result": got}, "res": "differs"})
			}
		}
		out.Line("E", rec.Ev{"op": "same", "res": "ok"})
	}
	out.Line("C", rec.Ev{"calls": calls})
}

type driver struct {
	r   *rec.Rec
	g   gen.R
	lit gen.Literals
}

func (d *driver) match(v, p string) {
	d.r.Call(rec.Ev{"op": "match", "v": ints(v), "p": ints(p)}, func() any { return utils.MatchResource(v, p) })
}

var words = []string{"a", "b", "ab", "aa", "doc", "GET", "x y", "/", "//", " ", "é", "日", "\x00", "\xff", "A", ".", "%2F", "?", "[a]", "\xfe", "\xc3", "e\u0301", "\u212a", "K", "\ufffd", "ss", "ß", "\t", "\\", "\\*", "a*", ":a", "::", "**", "{id}", "\n"}

func (d *driver) word() string {
	if len(d.lit.Strings) > 0 && d.g.P(6) {
		return gen.Pick(d.g, d.lit.Strings)
	}
	return gen.Pick(d.g, words[:d.g.Between(2, len(words))])
}

func (d *driver) pattern(n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		switch d.g.IntN(10) {
		case 0, 1, 2:
			b.WriteString(d.word())
		case 3, 4:
			b.WriteString("/")
			b.WriteString(d.word())
		case 5, 6:
			b.WriteString("*")
		case 7:
			b.WriteString(gen.Pick(d.g, []string{":", ":x", ":id", "/:a", " :m"}))
		case 8:
			b.WriteString(" ")
		case 9:
			b.WriteString("/")
		}
	}
	return b.String()
}

// value makes a value from a pattern, so that it often matches.
func (d *driver) value(p string, big int) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '*':
			for n := d.g.IntN(big); n > 0; n-- {
				b.WriteString(d.word())
			}
		case ':':
			for n := d.g.IntN(big) + d.g.IntN(2); n > 0; n-- {
				b.WriteString(strings.ReplaceAll(d.word(), "/", ""))
			}
			if d.g.P(90) && b.Len() == 0 {
				b.WriteByte('q')
			}
			for i+1 < len(p) && p[i+1] != '/' && p[i+1] != ' ' {
				i++
			}
		default:
			b.WriteByte(p[i])
		}
	}
	v := []byte(b.String())
	for n := gen.Pick(d.g, []int{0, 0, 0, 1, 1, 2}); n > 0 && len(v) > 0; n-- {
		i := d.g.IntN(len(v))
		switch d.g.IntN(5) {
		case 4:
			switch c := v[i]; {
			case c >= 0x80:
				v[i] = byte(0x80 + d.g.IntN(0x80))
			case c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z':
				v[i] = c ^ 0x20
			default:
				v[i] = byte(d.g.IntN(256))
			}
		case 0:
			v = append(v[:i], v[i+1:]...)
		case 1:
			v[i] = gen.Pick(d.g, []byte("a/ :*b"))
		case 2:
			v = append(v[:i], append([]byte{gen.Pick(d.g, []byte("a/ :*"))}, v[i:]...)...)
		case 3:
			v = v[:i]
		}
	}
	return string(v)
}

// TestDrive records calls with random texts, some long and repetitive.
func TestDrive(t *testing.T) {
	name := os.Getenv("PROFILE")
	if name == "" {
		t.Skip()
	}
	seed := uint64(rec.EnvInt("SEED", 1))
	start, n := rec.EnvInt("START", 0), rec.EnvInt("N", 10)
	lit := gen.Scan(gen.Repo())
	sort.Strings(lit.Strings)
	r := rec.Open()
	for i := start; i < start+n; i++ {
		g := gen.New(seed, uint64(i)+31000)
		d := &driver{r, g, lit}
		r.Run(i, nil, func() {
			if i < 6 {
				d.long(i)
				return
			}
			for k := 0; k < 40; k++ {
				p := d.pattern(g.Between(0, gen.Pick(g, []int{3, 6, 6, 10, 16})))
				v := d.value(p, gen.Pick(g, []int{1, 2, 2, 3, 6}))
				if g.P(6) {
					v = d.value(d.pattern(4), 2)
				}
				if g.P(2) {
					v = strings.Repeat(v, 6)
				}
				d.match(v, p)
			}
		})
	}
}

// long asks about texts on which trying every division takes for ever.
func (d *driver) long(k int) {
	a := strings.Repeat("a", 2500)
	stars := strings.Repeat("*a", 200)
	switch k % 6 {
	case 0:
		d.match(a, stars+"b")
	case 1:
		d.match(a, stars)
	case 2:
		d.match(strings.Repeat("a", 199), stars)
	case 3:
		d.match(strings.Repeat("a ", 120), strings.Repeat(":x ", 40)+"*b")
		d.match(strings.Repeat("a", 200), strings.Repeat("*:x ", 30)+"b")
		d.match(strings.Repeat("a ", 150)+"b", strings.Repeat("*:x ", 30)+"b")
	case 4:
		d.match(strings.Repeat("/a", 1000), strings.Repeat("/*", 150)+"b")
		d.match(strings.Repeat("/a", 1000), strings.Repeat("*", 600)+"/a")
	case 5:
		d.match(strings.Repeat("ab", 1000)+"c", strings.Repeat("*ab", 100)+"c*")
		d.match(strings.Repeat("ab", 1000)+"c", "*"+strings.Repeat("ab", 300)+"ca")
	}
}
