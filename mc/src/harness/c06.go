package main

import (
	"fmt"
	"strings"

	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// allStrings lists all concatenations of at most n tokens.
func allStrings(tok []string, n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, t := range tok {
				next = append(next, s+t)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// globRun asks KEYS for each pattern on a server holding keys.
func globRun(keys []string, pats func(func(string) bool), r *Result) *Fail {
	s := newSrv(3, 1)
	defer func() { s.end(); vrt.TakePanic() }()
	have := map[string]bool{}
	for i, k := range keys {
		if _, f := s.do(s.conn0(), []string{"SET", k, fmt.Sprint(i)}); f != nil {
			return f
		}
		have[k] = true
	}
	var bad *Fail
	pats(func(p string) bool {
		vrt.Progress.Add(1)
		r.Trans++
		rp, f := s.do(s.conn0(), []string{"KEYS", p})
		if f != nil {
			bad = f
			return false
		}
		if rp.T != '*' && !(rp.T == '-' && !model.GlobOK(p)) {
			bad = failf("KEYS %q answers %s", p, clip(rp.String()))
			return false
		}
		got := map[string]bool{}
		for _, e := range rp.Arr {
			if got[e.S] || !have[e.S] || e.T != '$' {
				bad = failf("KEYS %q lists %q, a key that does not exist or is already listed", p, e.S)
				return false
			}
			got[e.S] = true
		}
		if !model.GlobOK(p) {
			r.count("undefined_patterns_terminated", 1)
			return true
		}
		r.count("defined_patterns", 1)
		for _, k := range keys {
			if model.Glob(p, k) != got[k] {
				if got[k] {
					bad = failf("KEYS %q lists %q, which does not match", p, k)
				} else {
					bad = failf("KEYS %q omits %q, which matches", p, k)
				}
				return false
			}
		}
		r.States += int64(len(keys))
		r.sample(func() string { return fmt.Sprintf("KEYS %q: %d of %d keys", p, len(got), len(keys)) })
		return true
	})
	r.Traces++
	return bad
}

func c06Cases(thorough bool) []Case {
	var out []Case
	add := func(name string, tok []string, n int, keys []string) {
		// split by the first two tokens
		for _, a := range tok {
			for _, b := range tok {
				pre := a + b
				out = append(out, Case{fmt.Sprintf("%s/%q", name, pre), func(r *Result) *Fail {
					return globRun(keys, func(y func(string) bool) {
						var rec func(p string, d int) bool
						rec = func(p string, d int) bool {
							if !y(p) {
								return false
							}
							if d == 0 {
								return true
							}
							for _, t := range tok {
								if !rec(p+t, d-1) {
									return false
								}
							}
							return true
						}
						rec(pre, n-2)
					}, r)
				}})
			}
		}
		out = append(out, Case{name + "/short", func(r *Result) *Fail {
			return globRun(keys, func(y func(string) bool) {
				for _, p := range allStrings(tok, 1) {
					if !y(p) {
						return
					}
				}
			}, r)
		}})
	}
	d := 0
	if thorough {
		d = 1
	}
	ch := func(s string) []string { return strings.Split(s, "") }
	add("syntax", ch("abc?*[]-^"), 5+d, allStrings(ch("abc"), 3))
	add("tokens", []string{"a", "b", "?", "*", "[ab]", "[^a]", "[a-c]", "[^b-d]", "[bd]"}, 5+d, allStrings(ch("abcd"), 4))
	add("stars", []string{"a", "b", "*", "?"}, 8+d, allStrings(ch("ab"), 6))
	odd := []string{"\x00", "\xff", "\x80", "*", "?", "[", "]", "-", "^", "\n", "\r", " ", "\\", ".", "+", "$", "("}
	add("bytes", append(append([]string(nil), odd...), "[\x80-\xff]", "[^\x00]"), 3+d, append(append(allStrings(odd, 2), "é", "日本", "a\x00b"), allStrings([]string{"\x00", "\xff", "*"}, 3)[13:]...))
	// every range and every class of two bytes on every byte
	var bytes1 []string
	for i := 0; i < 256; i++ {
		bytes1 = append(bytes1, string([]byte{byte(i)}))
	}
	for a := 0; a < 256; a++ {
		a := bytes1[a]
		out = append(out, Case{fmt.Sprintf("byte-classes/%q", a), func(r *Result) *Fail {
			return globRun(append([]string{"", "ab", "\xff\x80"}, bytes1...), func(y func(string) bool) {
				for _, b := range bytes1 {
					for _, p := range []string{"[" + a + "-" + b + "]", "[^" + a + "-" + b + "]", "[" + a + b + "]", "[^" + a + b + "]"} {
						if !y(p) {
							return
						}
					}
					if thorough {
						for _, p := range []string{"[" + a + "-" + b + "x-z]", "[q" + a + "-" + b + "]?", a + b, a + "*" + b, "*[" + a + "-" + b + "]"} {
							if !y(p) {
								return
							}
						}
					}
				}
			}, r)
		}})
	}
	// patterns with many stars on long keys, and long patterns
	out = append(out, Case{"many-stars", func(r *Result) *Fail {
		keys := []string{strings.Repeat("a", 40), strings.Repeat("a", 200), strings.Repeat("ab", 60), strings.Repeat("a", 39) + "b", "b"}
		return globRun(keys, func(y func(string) bool) {
			for n := 1; n <= 24; n++ {
				for _, t := range []string{"*", "a*", "*a", "?*", "*?", "[ab]*", "[^c]*", "*b*", "ab*", "*ab"} {
					for _, e := range []string{"", "b", "c", "?", "[^a]"} {
						if !y(strings.Repeat(t, n) + e) {
							return
						}
					}
				}
			}
		}, r)
	}})
	out = append(out, Case{"unclosed", func(r *Result) *Fail {
		keys := allStrings([]string{"a", "[", "-", "]"}, 3)
		return globRun(keys, func(y func(string) bool) {
			for n := 1; n <= 300; n += 7 {
				for _, t := range []string{"[", "[a-", "[^", "[]", "*[", "[a-]", "\\", "[a", "]", "-", "[--", "[^]", "[a-b-"} {
					if !y(strings.Repeat(t, n)) {
						return
					}
				}
			}
		}, r)
	}})
	return out
}

func init() {
	checks["C06"] = &Check{Level: "model_checking", Rule: "all patterns up to a length over alphabets of literals, metacharacters and class tokens, each evaluated by KEYS on a server holding all keys up to a length; the reply must be exactly the keys that an independent matcher accepts (patterns the documentation leaves undefined only have to terminate and list existing keys once)", Cases: c06Cases, Assume: []string{"bounded: pattern and key lengths and alphabets as listed in DESIGN.md", "patterns with backslashes, empty or unclosed classes, descending ranges or dashes at the edge of a class are treated as undefined"}}
}
