// Package stored drives the record store of package trie (Trie.tla), and the
// persistent list of package ds and the slice helpers of utils (Lists.tla).
package stored

import (
	"strconv"

	"verifharness/rec"
)

type pair struct{ A, B string }
type text string

// val turns the specification's form of a value into the value, and tag back.
func val(s string) any {
	if s == "nil" {
		return nil
	}
	t, v := s[:2], s[2:]
	switch t {
	case "s:":
		u, _ := strconv.Unquote(`"` + v + `"`)
		return u
	case "t:":
		u, _ := strconv.Unquote(`"` + v + `"`)
		return text(u)
	case "p:":
		u, _ := strconv.Unquote(`"` + v + `"`)
		return pair{u, ""}
	case "b:":
		return v == "true"
	}
	n, err := strconv.ParseInt(v, 10, 64)
	if err != nil {
		panic(s)
	}
	switch t {
	case "i:":
		return int(n)
	case "l:":
		return int64(n)
	case "u:":
		return uint8(n)
	case "f:":
		return float64(n)
	case "r:":
		return rune(n)
	}
	panic(s)
}

func tag(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return "s:" + rec.Enc(x)
	case text:
		return "t:" + rec.Enc(string(x))
	case pair:
		return "p:" + rec.Enc(x.A)
	case bool:
		return "b:" + strconv.FormatBool(x)
	case int:
		return "i:" + strconv.Itoa(x)
	case int64:
		return "l:" + strconv.FormatInt(x, 10)
	case uint8:
		return "u:" + strconv.Itoa(int(x))
	case float64:
		return "f:" + strconv.Itoa(int(x))
	case rune:
		return "r:" + strconv.Itoa(int(x))
	}
	return "?"
}

func tags(l []any) []string {
	out := make([]string, len(l))
	for i, v := range l {
		out[i] = tag(v)
	}
	return out
}

func vals(l []string) []any {
	out := make([]any, len(l))
	for i, v := range l {
		out[i] = val(v)
	}
	return out
}
