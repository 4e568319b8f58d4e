package main

import (
	"fmt"
	"strings"
)

// renaming replaces the key names of steps (words "A", "B", "C").
type renaming struct {
	name string
	to   [3]string
}

func (n renaming) apply(st step) step {
	if st[0] == "@" {
		return st
	}
	out := append(step(nil), st...)
	for i := 1; i < len(out); i++ {
		switch out[i] {
		case "A":
			out[i] = n.to[0]
		case "B":
			out[i] = n.to[1]
		case "C":
			out[i] = n.to[2]
		}
	}
	return out
}

// canonical replies mention key names only in KEYS
func (n renaming) undo(s string) string {
	q := func(x string) string { return fmt.Sprintf("%q", x) }
	r := strings.NewReplacer(q(n.to[0]), q("A"), q(n.to[1]), q("B"), q(n.to[2]), q("C"))
	return r.Replace(s)
}

var segNames = func() []renaming {
	var out []renaming
	l := []string{"a", "b", "c", "d", "e", "f"}
	for i := range l {
		for j := range l {
			for k := range l {
				if i != j && j != k && i != k {
					out = append(out, renaming{l[i] + l[j] + l[k], [3]string{l[i], l[j], l[k]}})
				}
			}
		}
	}
	return append(out,
		renaming{"odd1", [3]string{"", "@a&", "a&"}},
		renaming{"odd2", [3]string{"\x00\xff", strings.Repeat("k", 300), "\r\n"}},
		renaming{"odd3", [3]string{"key:1", "key:2", "key:10"}},
		// names whose 32-bit FNV-1a sums (of the name, or of @name&) are extreme: 0, 1, 2^31-1, 2^31, 2^31+1, 2^32-2, 2^32-1
		renaming{"ext1", [3]string{"BR42qf", "UcYpGe", "yCXcFk"}},
		renaming{"ext2", [3]string{"2nNqKa", "TcJhtb", "OFuUMf"}},
		renaming{"ext3", [3]string{"tPrVhb", "LmLjNa", "5G17qk"}},
		renaming{"ext4", [3]string{"nMp5Vd", "kI3uWc", "KWYUOg"}},
		renaming{"ext5", [3]string{"w6GJGd", "1uxKQc", "UcYpGe"}})
}()

const segOps = `
	SET A 1
	SET B v EX 50
	GET A
	GET B
	DEL A B
	DEL C A C
	EXISTS A B C A
	MSET A 1 B 2 C 3
	MSET A 1 A 2
	MGET A B C A
	RENAME A B
	RENAME B C
	RENAME A A
	EXPIRE A 50
	TTL B
	PERSIST B
	INCR A
	APPEND B x
	SETNX C n
	RPUSH A x
	RPUSH B y z
	LMOVE A B LEFT RIGHT
	LMOVE B A RIGHT LEFT
	LMOVE A A LEFT RIGHT
	LRANGE B 0 -1
	LPOP A
	SADD A m n
	SADD B n o
	SMOVE A B m
	SMOVE B B n
	SUNION A B C
	SUNIONSTORE C A B
	SUNIONSTORE A A B
	SINTERSTORE C A B A
	SDIFFSTORE B A C
	SREM A m n
	SMEMBERS C
	HSET A fl 1
	HSET C fl 1 gl 2
	HINCRBY A fl 1
	HDEL C fl gl
	TYPE A
	KEYS *`

const segCore = `
	SET A 1
	MSET A 1 B 2 C 3
	MGET A B C
	DEL A C
	RENAME A B
	RENAME C A
	EXISTS A B A
	SADD A m
	SUNIONSTORE C A B
	SMOVE A B m
	LMOVE A B LEFT RIGHT
	RPUSH B x
	KEYS *`

var segInits = map[string]string{
	"empty": "", "str": "SET A 1;SET B 2;SET C 3", "sets": "SADD A m n;SADD B n;SADD C m", "lists": "RPUSH A x y;RPUSH B z", "mixed": "HSET A fl 1;RPUSH B x;SADD C m;EXPIRE C 40",
	"expired": "SET A 1;EXPIRE A 1;SADD B n;EXPIRE B 1;SADD C m;@3",
}

// segTrace runs a sequence and returns what a client saw, in canonical names.
func segTrace(seg int, n renaming, seq []step) (string, *Fail) {
	s := newSrv(seg, 1)
	defer s.end()
	var b strings.Builder
	for i, st := range seq {
		st = n.apply(st)
		if st[0] == "@" {
			(&world{s: s}).apply(st)
			continue
		}
		r, f := s.do(s.conn0(), st)
		if f != nil {
			return "", failf("[%s] with %d segments and keys %q: %s", pathString(seq[:i]), seg, n.to, f.What)
		}
		un, pr := unordered(st[0])
		v := r.Canon(un, pr)
		if st[0] == "KEYS" {
			// sort in canonical names
			var l []string
			for _, e := range r.Arr {
				l = append(l, n.undo(fmt.Sprintf("%q", e.S)))
			}
			sortStrings(l)
			v = strings.Join(l, " ")
		}
		b.WriteString(v)
		b.WriteByte('\n')
	}
	p, f := s.probe(s.conn0(), n.to[:])
	if f != nil {
		return "", failf("[%s] with %d segments and keys %q: %s", pathString(seq), seg, n.to, f.What)
	}
	if i := strings.Index(p, " KEYS["); i >= 0 {
		// the list of keys, in canonical names
		l := strings.Split(n.undo(strings.TrimSuffix(p[i+6:], "]")), " ")
		sortStrings(l)
		p = p[:i] + " KEYS " + strings.Join(l, " ")
	}
	b.WriteString(n.undo(p))
	return b.String(), nil
}

func sortStrings(l []string) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}

type segCfg struct {
	seg int
	n   renaming
}

// segCompare runs seq on the base configuration and on all others.
func segCompare(seq []step, cfgs []segCfg, r *Result) *Fail {
	base := renaming{"base", [3]string{"A", "B", "C"}}
	want, f := segTrace(16, base, seq)
	if f != nil {
		return f
	}
	r.States++
	for _, c := range cfgs {
		got, f := segTrace(c.seg, c.n, seq)
		if f != nil {
			return f
		}
		r.Trans += int64(len(seq))
		r.Traces++
		if got != want {
			return failf("[%s] with %d segments and keys %q answers\n%s\nbut with 16 segments and keys A B C\n%s", pathString(seq), c.seg, c.n.to, got, want)
		}
	}
	r.sample(func() string { return fmt.Sprintf("%s: same on %d configurations", pathString(seq), len(cfgs)) })
	return nil
}

func c19Cases(thorough bool) []Case {
	var out []Case
	var all, few []segCfg
	segs := []int{1, 2, 3, 7, 100}
	for _, s := range segs {
		for i, n := range segNames {
			all = append(all, segCfg{s, n})
			if i%30 == 0 || i >= len(segNames)-8 {
				few = append(few, segCfg{s, n})
			}
		}
	}
	ops := cmds(segOps)
	drop := func(l []step) []step {
		var o []step
		for _, st := range l {
			switch st[0] {
			case "SPOP", "SRANDMEMBER", "HRANDFIELD":
				continue
			}
			o = append(o, st)
		}
		return o
	}
	one := drop(concOps("A", "B", "C"))
	for _, st := range one {
		for k := range st {
			if st[k] == "f" {
				st[k] = "fl" // f is one of the key names
			}
		}
	}
	for _, in := range sortedNames(segInits) {
		init := prep(segInits[in])
		for i := range one {
			i := i
			out = append(out, Case{fmt.Sprintf("catalogue/%s/%s", in, one[i]), func(r *Result) *Fail {
				return segCompare(append(append([]step(nil), init...), one[i]), all, r)
			}})
		}
		for i := range ops {
			i := i
			// every operation alone on every configuration, then every pair and core triple on a few
			out = append(out, Case{fmt.Sprintf("one/%s/%s", in, ops[i]), func(r *Result) *Fail {
				return segCompare(append(append([]step(nil), init...), ops[i]), all, r)
			}})
			out = append(out, Case{fmt.Sprintf("two/%s/%s", in, ops[i]), func(r *Result) *Fail {
				for j := range ops {
					cf := few
					if thorough {
						cf = all
					}
					if f := segCompare(append(append([]step(nil), init...), ops[i], ops[j]), cf, r); f != nil {
						return f
					}
				}
				return nil
			}})
		}
		core := cmds(segCore)
		for i := range core {
			i := i
			out = append(out, Case{fmt.Sprintf("three/%s/%s", in, core[i]), func(r *Result) *Fail {
				for j := range core {
					for k := range core {
						if f := segCompare(append(append([]step(nil), init...), core[i], core[j], core[k]), few, r); f != nil {
							return f
						}
					}
				}
				return nil
			}})
		}
	}
	// concurrent pairs: other segment counts must not show outcomes the base cannot explain
	A := concOps("a", "b", "d")
	A = drop(A)
	B := append(append([]step(nil), A...), drop(concOps("b", "a", "d"))...)
	csegs := []int{1, 3, 100}
	if thorough {
		csegs = []int{1, 3, 5, 7, 100}
	}
	for _, seg := range csegs {
		for _, st := range concStates {
			switch st.name {
			case "empty", "str", "hash", "list", "set", "set-exp", "list-exp", "both-exp":
			default:
				if !thorough {
					continue
				}
			}
			for i := range A {
				seg, st, i := seg, st, i
				out = append(out, Case{fmt.Sprintf("concurrent/%s/seg%d/%s", st.name, seg, A[i]), func(r *Result) *Fail {
					for j := i; j < len(B); j++ {
						p := &prog{init: prep(st.init), threads: [][]step{{A[i]}, {B[j]}}, seg: seg, oseg: 16, keys: []string{"a", "b", "d"}}
						if f := p.explore(r); f != nil {
							return f
						}
					}
					return nil
				}})
			}
		}
	}
	// all keys behind one lock (a, c and e are, with one segment): commands
	// naming several of them against all others
	to := map[string]string{"b": "c", "d": "e"}
	collide := func(st step) step {
		o := append(step(nil), st...)
		for k := 1; k < len(o); k++ {
			if n, ok := to[o[k]]; ok {
				o[k] = n
			}
		}
		return o
	}
	names := func(st step) int {
		n := 0
		for _, w := range st[1:] {
			if w == "a" || w == "b" || w == "d" {
				n++
			}
		}
		return n
	}
	more := cmds("MGET a b d\nMGET b a a\nEXISTS a b d\nDEL a b d\nSUNION a b d\nSINTER d b a\nSDIFFSTORE d a b\nMSET a 1 b 2 d 3\nSUNIONSTORE a b d")
	for _, st := range concStates {
		switch st.name {
		case "str", "list", "set", "set-exp", "both-exp":
		default:
			if !thorough {
				continue
			}
		}
		for _, op := range append(append([]step(nil), A...), more...) {
			st, op := st, op
			if names(op) < 2 {
				continue
			}
			out = append(out, Case{fmt.Sprintf("one-lock/%s/%s", st.name, collide(op)), func(r *Result) *Fail {
				var init []step
				for _, x := range prep(st.init) {
					init = append(init, collide(x))
				}
				for _, x := range append(append([]step(nil), B...), more...) {
					p := &prog{init: init, threads: [][]step{{collide(op)}, {collide(x)}}, seg: 1, oseg: 16, keys: []string{"a", "c", "e"}}
					if f := p.explore(r); f != nil {
						return f
					}
				}
				return nil
			}})
		}
	}
	return out
}

func init() {
	checks["C19"] = &Check{Level: "model_checking", Rule: "every sequence of the alphabet up to the depth is executed on a base server (16 segments, keys A B C) and on servers with 1, 2, 3, 7 and 100 segments under 128 choices of key names (all ordered triples of six names, so that every collision pattern of the small configurations occurs, odd names, and names with extreme hash sums); replies and final keyspace must agree up to renaming; concurrent pairs on other segment counts, and pairs whose keys all share one lock, must be explained by sequential executions of the base: " + concRule, Cases: c19Cases, Assume: concAssume}
}
