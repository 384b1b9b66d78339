// Package gen makes the inputs of the drivers: identifiers that are easily
// confused, permission patterns and requests, and the constants found in the
// sources under test.
package gen

import (
	"go/scanner"
	"go/token"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type R struct {
	*rand.Rand
	one []string // identifiers of every kind come from these, if set
}

func New(seed, stream uint64) R {
	return R{Rand: rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+1, stream*0xD1342543DE82EF95+7))}
}

// Hash gives every profile its own random choices.
func Hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h << 20
}

func (r R) P(pct int) bool { return r.IntN(100) < pct }

// Between returns a number in lo..hi.
func (r R) Between(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.IntN(hi-lo+1)
}

func Pick[T any](r R, xs []T) T { return xs[r.IntN(len(xs))] }

// Size returns a large number, often about a constant of the sources.
func (r R) Size(lit Literals, max int) int {
	if len(lit.Ints) > 0 && r.P(70) {
		return Pick(r, lit.Ints) + r.Between(-1, 2)
	}
	return r.Between(9, max)
}

// Some returns between lo and hi elements, with repetition.
func Some[T any](r R, xs []T, lo, hi int) []T {
	if len(xs) == 0 {
		return nil
	}
	out := []T{}
	for n := r.Between(lo, hi); n > 0; n-- {
		out = append(out, Pick(r, xs))
	}
	return out
}

// Subset returns each element with the given chance, in random order.
func Subset[T any](r R, xs []T, pct int) []T {
	out := []T{}
	for _, i := range r.Perm(len(xs)) {
		if r.P(pct) {
			out = append(out, xs[i])
		}
	}
	return out
}

// Weighted picks an index with the given weights.
func (r R) Weighted(ws []int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	k := r.IntN(sum)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return len(ws) - 1
}

type Literals struct {
	Strings []string
	Ints    []int
	Seps    []string // strings of one or two characters
}

// Scan collects the string and small integer literals of the sources under
// test, so that special cases for particular values get such values.
func Scan(root string) Literals {
	strs, ints := map[string]bool{}, map[int]bool{}
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			if n := info.Name(); n == ".git" || n == "examples" || n == "test" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fs.AddFile(path, fs.Base(), len(src)), src, nil, 0)
		imports, group := false, false
		shift, last, before := 0, "", token.EOF // 1 << k and math.Max...8 count as numbers too
		for {
			_, tok, lit := s.Scan()
			if tok == token.INT && before == token.SHL && shift == 1 {
				if k, err := strconv.Atoi(lit); err == nil && k > 1 && k <= 8 {
					ints[1<<k] = true
				}
			}
			if tok == token.SHL {
				shift = 0
				if last == "1" {
					shift = 1
				}
			}
			switch {
			case tok == token.IDENT && lit == "MaxInt8":
				ints[127] = true
			case tok == token.IDENT && (lit == "MaxUint8" || lit == "uint8" || lit == "int8"):
				ints[255] = true
			}
			last, before = lit, tok
			if tok == token.EOF {
				break
			}
			// leave out the paths of imported packages
			switch {
			case tok == token.IMPORT:
				imports, group = true, false
			case imports && tok == token.LPAREN:
				group = true
			case imports && (tok == token.RPAREN || tok == token.SEMICOLON && !group):
				imports = false
			}
			if imports {
				continue
			}
			switch tok {
			case token.STRING:
				if v, err := strconv.Unquote(lit); err == nil && len(v) > 0 && len(v) <= 24 && !strings.Contains(v, "github.com") {
					strs[v] = true
				}
			case token.CHAR:
				if v, err := strconv.Unquote(lit); err == nil {
					strs[v] = true
				}
			case token.INT:
				if v, err := strconv.ParseInt(lit, 0, 32); err == nil && v > 2 && v <= 300 {
					ints[int(v)] = true
				}
			}
		}
		return nil
	})
	var l Literals
	for s := range strs {
		l.Strings = append(l.Strings, s)
		if len(s) <= 2 {
			l.Seps = append(l.Seps, s)
		}
	}
	for i := range ints {
		l.Ints = append(l.Ints, i)
	}
	sort.Strings(l.Strings)
	sort.Strings(l.Seps)
	sort.Ints(l.Ints)
	return l
}

func Repo() string {
	if r := os.Getenv("REPO"); r != "" {
		return r
	}
	return "/repo"
}

var families = [][]string{
	{"acme", "ACME", "Acme", "acme ", " acme", "acm", "acme2", "acme_x", "acme/x", "acme\x00"},
	{"a", "b", "c", "d", "e", "f", "g", "h"},
	{"a", "A", "aa", "a_a", "_", "__", "a_", "_a", "a_b", "b_a"},
	{"t1", "t2", "t10", "t11", "t01", "t1 ", "T1"},
	{"x", "x:y", "x y", "x/y", "x*", "*", ":x", "x,y", "x.y", "x|y"},
	{"é", "e\u0301", "É", "日本", "日", "ß", "SS"},
	{"admin", "admin_", "adm", "administrator", "user", "root", "superuser", "guest"},
	{"nil", "null", "true", "false", "0", "1", "<nil>", "00"},
	{"principal", "tenant", "role", "namespace", "scope", "default", "main", "active"},
	{"p-1", "p-10", "p-2", "p_1", "P-1"},
	{"alice", "bob", "carol", "dave", "eve", "mallory", "alice2"},
}

// Twins have equal hashes (FNV-1a and FNV-1, 32 and 64 bits, CRC-32, ...).
var Twins = [][]string{
	{"costarring", "liquid"}, {"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"}, {"d3jccgyyf521d", "rwxyu4vjdylvb"},
	{"plumless", "buckeroo"}, {"Aa", "BB", "AaAa", "BBBB", "AaBB"},
}

// Joinable makes identifiers of every kind such that different ones look alike
// once joined by some separator.
func (r R) Joinable(lit Literals) R {
	sep := r.sep(lit)
	r.one = []string{"a", "b", "a" + sep + "b", "b" + sep + "a", "a" + sep + "a", "a" + sep, sep + "b", "a" + sep + "b" + sep + "a", "b" + sep + "b"}
	if sep != "" {
		r.one = append(r.one, sep)
	}
	return r
}

func (r R) sep(lit Literals) string {
	if len(lit.Seps) > 0 && r.P(40) {
		return Pick(r, lit.Seps)
	}
	return Pick(r, []string{"/", "/", ":", ".", "_", "-", " ", "|", ",", "\x00", ""})
}

// Names returns n different identifiers, usually from one family of easily
// confused ones.
func (r R) Names(n int, lit Literals, empty bool) []string {
	seen := map[string]bool{}
	out := []string{}
	add := func(s string) {
		if !seen[s] && (s != "" || empty) {
			seen[s] = true
			out = append(out, s)
		}
	}
	fam := Pick(r, families)
	if r.P(4) {
		fam = Pick(r, Twins)
	}
	long, near := r.P(4), r.P(35)
	if r.one != nil {
		fam, long, near = r.one, false, false
	}
	for tries := 0; len(out) < n; tries++ {
		switch {
		case len(lit.Strings) > 0 && r.P(12):
			add(Pick(r, lit.Strings))
		case empty && r.P(20):
			add("")
		case r.P(12):
			add(Pick(r, Pick(r, families)))
		case near && len(out) > 0 && r.P(50):
			add(r.Near(Pick(r, out), lit))
		case tries > 12 || len(out) >= len(fam):
			add(Pick(r, fam) + strconv.Itoa(r.IntN(1000)))
		case long:
			add(strings.Repeat(Pick(r, fam), 40) + strconv.Itoa(len(out)))
		default:
			add(Pick(r, fam))
		}
	}
	return out
}

// Near returns an identifier easily taken for x: a part of it, x continued
// after a separator, or x in other letters.
func (r R) Near(x string, lit Literals) string {
	sep := r.sep(lit)
	switch r.IntN(8) {
	case 0, 1, 2:
		return x + sep + Pick(r, []string{"x", "y", "a", "1", x, ""})
	case 3:
		return Pick(r, []string{"x", "a", "1", ""}) + sep + x
	case 4:
		if len(x) > 1 {
			return x[:r.Between(1, len(x)-1)]
		}
	case 5:
		if len(x) > 1 {
			return x[r.Between(1, len(x)-1):]
		}
	case 6:
		if up := strings.ToUpper(x); up != x {
			return up
		}
		return strings.ToLower(x)
	}
	return x + x
}

type RA struct{ Res, Act string }

func (x RA) String() string { return x.Res + " " + x.Act }

var segs = []string{"a", "b", "doc", "1", "22", "x y", "A", "é"}
var acts = []string{"GET", "POST", "read", "get", "G", "GETX"}

// Chunk is the number of traces that share a vocabulary.
const Chunk = 150

// Vocabulary makes permissions and requests such that most requests match
// some, but not all, of the permissions.
func (r R) Vocabulary(np, nq int, lit Literals) (perms, reqs []RA) {
	seenP, seenQ := map[string]bool{}, map[RA]bool{}
	seg := func() string { return Pick(r, segs[:r.Between(2, len(segs))]) }
	addP := func(p RA) {
		if !seenP[p.String()] && len(perms) < np {
			seenP[p.String()] = true
			perms = append(perms, p)
		}
	}
	addQ := func(q RA) {
		if !seenQ[q] && len(reqs) < nq {
			seenQ[q] = true
			reqs = append(reqs, q)
		}
	}
	path := func() string {
		s := ""
		for n := r.Between(1, 3); n > 0; n-- {
			s += "/" + seg()
		}
		return s
	}
	addP(RA{"*", "*"})
	if r.P(50) {
		addP(RA{Pick(r, []string{"*", ":x", "/*"}), Pick(r, acts)})
	}
	for tries := 0; len(perms) < np && tries < 50*np; tries++ {
		res, act := path(), Pick(r, acts)
		form := r.IntN(12)
		switch form {
		case 4, 5:
			res = strings.Replace(res, "/"+string(res[1]), "/:id", 1)
		case 6:
			res += "/*"
		case 7:
			res += "/:x"
		}
		if r.P(25) && strings.ContainsAny(res, ":*") { // in both parts
			act = Pick(r, []string{"*", "*", ":m", "G*"})
		}
		switch form {
		case 8:
			act = Pick(r, []string{"*", ":m", "G*", "*T"})
		case 9:
			res = Pick(r, []string{"*", ":x", "/*", "/:a/:b", "/:a/*", "*a", "/a*b", "/a/*/b", "/:a b"})
		case 10:
			res = Pick(r, []string{"", "doc", "a", "/", "//"})
			act = Pick(r, []string{"", "GET", "*"})
		case 11:
			if len(lit.Strings) > 0 {
				res = Pick(r, lit.Strings)
				if a, b, ok := strings.Cut(res, " "); ok && r.P(70) {
					res, act = a, b
				} else if r.P(20) {
					res, act = path(), res
				}
			}
		}
		addP(RA{res, act})
	}
	long := 0 // requests with very long parts
	if r.P(60) {
		long = r.Between(1, 3)
	}
	for tries := 0; len(reqs) < nq && tries < 50*nq; tries++ {
		more := ""
		if long > 0 && r.P(20) {
			long--
			more = strings.Repeat(Pick(r, []string{"a", "b1", "zz"}), Pick(r, []int{33, 65, 130, 260}))
		}
		if r.P(75) && len(perms) > 0 {
			p := Pick(r, perms)
			// instantiate the pattern
			inst := func(s string) string {
				var b strings.Builder
				for i := 0; i < len(s); i++ {
					switch s[i] {
					case '*':
						b.WriteString(Pick(r, []string{"", "a", "a/b", "x y", "/"}) + more)
					case ':':
						b.WriteString(Pick(r, []string{"a", "1", "b", "zz", "x y"}) + more)
						for i+1 < len(s) && s[i+1] != '/' && s[i+1] != ' ' {
							i++
						}
					default:
						b.WriteByte(s[i])
					}
				}
				return b.String()
			}
			q := RA{inst(p.Res), inst(p.Act)}
			switch r.IntN(10) {
			case 0:
				q.Act = Pick(r, acts)
			case 1:
				q.Res += "/" + seg()
			case 2:
				q.Res = strings.ToUpper(q.Res)
			case 3:
				if len(q.Res) > 0 {
					q.Res = q.Res[:len(q.Res)-1]
				}
			case 4:
				q = p // the pattern itself
			}
			addQ(q)
			continue
		}
		switch r.IntN(8) {
		case 0:
			addQ(RA{"", Pick(r, acts)})
		case 1:
			addQ(RA{path(), ""})
		case 2:
			addQ(RA{"", ""})
		default:
			addQ(RA{path(), Pick(r, acts)})
		}
	}
	return
}

// Activity is the text of a request, or now and then one that is not of the usual form.
func (r R) Activity(a string, reqs []RA) string {
	if !r.P(5) || len(reqs) == 0 {
		return a
	}
	x := reqs[0]
	return Pick(r, []string{"", "", " ", "*", "GET", x.Res, x.String() + " ", x.Act + " " + x.Res})
}

// Match aims requests at permissions. It takes no part in judging anything.
func Match(v, p string) bool {
	if p == "" {
		return v == ""
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(v); i++ {
			if Match(v[i:], p[1:]) {
				return true
			}
		}
		return false
	case ':':
		e := 1
		for e < len(p) && p[e] != '/' && p[e] != ' ' {
			e++
		}
		for i := 1; i <= len(v) && v[i-1] != '/'; i++ {
			if Match(v[i:], p[e:]) {
				return true
			}
		}
		return false
	}
	return v != "" && v[0] == p[0] && Match(v[1:], p[1:])
}

// Aims lists, for every permission, the requests of the vocabulary it matches.
func Aims(perms, reqs []RA) map[string][]RA {
	out := map[string][]RA{}
	for _, p := range perms {
		for _, q := range reqs {
			if Match(q.String(), p.String()) {
				out[p.String()] = append(out[p.String()], q)
			}
		}
	}
	return out
}
