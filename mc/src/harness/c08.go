package main

import (
	"fmt"
	"strings"

	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// inert checks that every refused or effect-free operation of ops leaves the
// state reached by init as it was.
func inert(init []step, keys []string, ops func(yield func(step) bool), r *Result) *Fail {
	q := &Search{Seg: 2, R: r}
	var w *world
	var before string
	var fp uint64
	var canon string
	fresh := func() *Fail {
		w = &world{s: newSrv(2, 1), db: model.NewDB()}
		for i, st := range init {
			if st[0] == "@" {
				w.apply(st)
				continue
			}
			// replies of the preparation are not this check's matter
			rp, f := w.s.do(w.s.conn0(), st)
			if f != nil {
				f.What = "after [" + pathString(init[:i]) + "]: " + f.What
				return f
			}
			_, ap := w.db.Exec(st, vrt.ClockNS())
			if ap != nil {
				ap(rp)
			}
		}
		var f *Fail
		fp = fingerprint(w.s.mgr)
		canon = w.db.Canon(vrt.ClockNS() / 1e9)
		if before == "" {
			if before, f = w.s.probe(w.s.conn0(), keys); f != nil {
				return f
			}
			fp = fingerprint(w.s.mgr)
		}
		return nil
	}
	_ = q
	var bad *Fail
	n := 0
	ops(func(op step) bool {
		if w == nil {
			if bad = fresh(); bad != nil {
				return false
			}
			r.States++
		}
		n++
		r.Trans++
		rp, f := w.s.do(w.s.conn0(), op)
		if f != nil {
			bad = f
			bad.What = "after [" + pathString(init) + "]: " + bad.What
			return false
		}
		if h := vrt.Held(); h != 0 {
			bad = failf("after [%s]: %s returns with %d lock(s) still held", pathString(init), op, h)
			return false
		}
		want, ap := w.db.Exec(op, vrt.ClockNS())
		matched := want.Match(rp)
		if ap != nil && matched {
			ap(rp)
		}
		same := w.db.Canon(vrt.ClockNS()/1e9) == canon
		refused := rp.T == '-' || (same && want.Kind == model.WError)
		if refused || (same && matched) {
			r.count("refused_or_no_op", 1)
			if fingerprint(w.s.mgr) != fp {
				after, f := w.s.probe(w.s.conn0(), keys)
				if f == nil && after != before {
					f = failf("%s answers %s but changes the keyspace from {%s} to {%s}", op, clip(rp.String()), before, after)
				}
				if f != nil {
					f.What = "after [" + pathString(init) + "]: " + f.What
					bad = f
					return false
				}
			} else if same {
				r.sample(func() string { return pathString(init) + " ; " + op.String() + " -> " + clip(rp.String()) })
				if n%2000 != 0 {
					return true // nothing changed: go on with the same server
				}
			}
		}
		w.s.end()
		vrt.TakePanic()
		w = nil
		r.Traces++
		return true
	})
	if w != nil {
		w.s.end()
		vrt.TakePanic()
	}
	return bad
}

func list(ops []step) func(func(step) bool) {
	return func(y func(step) bool) {
		for _, o := range ops {
			if !y(o) {
				return
			}
		}
	}
}

// rich states with a key of every type
var richKeys = []string{"s", "n", "h", "l", "z", "t", "x", "nope", "", "f", "1"}

var richStates = []struct{ name, init string }{
	{"small", "SET s abc;SET n 5;HSET h f 1;RPUSH l a;SADD z a;SETEX t 100 v;SETEX x 1 old;@3"},
	{"multi", "SET s abc;APPEND s def;SET n -1;HSET h f x a 2;HINCRBY h c 4;RPUSH l a f a;LPUSH l b;SADD z a f 1;SMOVE z z2 nope;SADD t a b;EXPIRE t 100;HSET x f v;EXPIRE x 1;@3"},
	{"deadlines", "SETEX s 50 3.5;SETEX n 60 9223372036854775807;HSET h f 9223372036854775807;EXPIRE h 70;RPUSH l f 1;EXPIRE l 80;SADD z f;EXPIRE z 90;RPUSH t a;EXPIRE t 100;RPUSH x a;EXPIRE x 1;@3"},
}

// option words of commands, for the generated argument lists
var optWords = map[string][]string{
	"set": {"NX", "XX", "GET", "EX", "PX", "KEEPTTL", "EXAT"}, "expire": {"NX", "XX", "GT", "LT"}, "linsert": {"BEFORE", "AFTER"}, "lmove": {"LEFT", "RIGHT"},
	"lpos": {"RANK", "COUNT", "MAXLEN"}, "hrandfield": {"WITHVALUES"},
}

// products yields every argument list of a command over a pool.
func products(cmd string, nargs int, small bool) func(func(step) bool) {
	k1 := []string{"s", "n", "h", "l", "z", "t", "x", "nope", ""}
	rest := append([]string{"s", "h", "l", "z", "nope", "1", "-1", "5", "abc", "", "f", "a", maxI, "1 "}, optWords[cmd]...)
	if small {
		k1 = []string{"s", "h", "l", "z", "nope"}
		rest = append([]string{"h", "z", "nope", "1", "-1", "abc", "f", "a"}, optWords[cmd]...)
	}
	return func(y func(step) bool) {
		args := make(step, 0, nargs+1)
		args = append(args, cmd)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == nargs {
				if cmd == "setrange" && len(args) > 2 && args[2] == maxI {
					return true
				}
				return y(append(step(nil), args...))
			}
			pool := rest
			if i == 0 {
				pool = k1
			}
			for _, w := range pool {
				args = append(args, w)
				if !rec(i + 1) {
					return false
				}
				args = args[:len(args)-1]
			}
			return true
		}
		rec(0)
	}
}

var allFams = cat2(stringFams, hashFams, listFams, setFams, keyFams, ttlFams)

func cat2(ls ...[]family) []family {
	var out []family
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}

func c08Cases(thorough bool) []Case {
	var out []Case
	// every argument list of every command over the pool
	for _, st := range richStates {
		for _, c := range append(model.Commands(), "select", "nosuch") {
			c, st := c, st
			lo, hi := model.Arity(c)
			out = append(out, Case{"product/" + st.name + "/" + c, func(r *Result) *Fail {
				for n := 0; n <= 3; n++ {
					if f := inert(prep(st.init), richKeys, products(c, n, false), r); f != nil {
						return f
					}
				}
				if lo >= 5 || hi >= 5 || hi == 0 {
					if f := inert(prep(st.init), richKeys, products(c, 4, !thorough), r); f != nil {
						return f
					}
				}
				if thorough && (hi > 5 || hi == 0) {
					return inert(prep(st.init), richKeys, products(c, 5, true), r)
				}
				return nil
			}})
		}
	}
	// the curated alphabets, from their initial states and from every state one operation away
	for _, f := range allFams {
		for _, in := range sortedNames(f.inits) {
			f, in := f, in
			init := prep(f.inits[in])
			out = append(out, Case{"family/" + f.name + "/" + in, func(r *Result) *Fail {
				if bad := inert(init, f.keys, list(f.ops), r); bad != nil {
					return bad
				}
				lim := 150
				if thorough {
					lim = 1000
				}
				for i, op := range f.ops {
					if i >= lim {
						r.count("second_level_limited", 1)
						break
					}
					if bad := inert(append(append([]step(nil), init...), op), f.keys, list(f.ops), r); bad != nil {
						return bad
					}
				}
				return nil
			}})
		}
	}
	return out
}

func init() {
	checks["C08"] = &Check{Level: "model_checking", Rule: "every command with every argument list (up to 3 arguments over a pool of 13-20 words, 4 over a smaller pool) from states holding every type with and without deadlines, and every operation of the C01-C07 alphabets from their initial states and all states one operation away: after an error reply, or a reply that the reference says has no effect, the whole keyspace with deadlines must read as before and no lock be held", Cases: c08Cases, Assume: seqAssume}
}

var _ = fmt.Sprint
var _ = strings.ToLower
