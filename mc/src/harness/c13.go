package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// keysJudge decides whether every KEYS reply of a run is right, knowing only
// when each request began and ended: keys present in every state the call can
// have overlapped must be listed, keys present in none must not.
func keysJudge(p *prog, s *Srv, calls [][]vrt.Call, reps [][]model.Reply) *Fail {
	type ev struct {
		t, k       int
		start, end int
	}
	var evs []ev // everything but KEYS
	clk := len(p.threads)
	for t := range calls {
		for k := range calls[t] {
			if t < clk && strings.EqualFold(p.threads[t][k][0], "keys") {
				continue
			}
			evs = append(evs, ev{t, k, calls[t][k].Start, calls[t][k].End})
		}
	}
	// all orders of the writers that respect real time and explain their replies
	type run struct {
		order  []int
		states []map[string]bool // states[i]: live keys after i events
	}
	var runs []run
	var order []int
	used := make([]bool, len(evs))
	var rec func(db *model.DB, now int64, states []map[string]bool)
	live := func(db *model.DB, now int64) map[string]bool {
		db.Expire(now / 1e9)
		m := map[string]bool{}
		for k := range db.Keys {
			m[k] = true
		}
		return m
	}
	rec = func(db *model.DB, now int64, states []map[string]bool) {
		if len(order) == len(evs) {
			runs = append(runs, run{append([]int(nil), order...), append([]map[string]bool(nil), states...)})
			return
		}
		for i := range evs {
			if used[i] {
				continue
			}
			ok := true
			for j := range evs {
				if !used[j] && j != i && (evs[j].end < evs[i].start || (evs[j].t == evs[i].t && evs[j].k < evs[i].k)) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			d2, n2 := db.Clone(), now
			if evs[i].t == clk {
				n2 += p.clock[evs[i].k]
			} else {
				w, ap := d2.Exec(p.threads[evs[i].t][evs[i].k], now)
				if !w.Match(reps[evs[i].t][evs[i].k]) {
					continue
				}
				if ap != nil {
					ap(reps[evs[i].t][evs[i].k])
				}
			}
			used[i] = true
			order = append(order, i)
			rec(d2, n2, append(states, live(d2, n2)))
			order = order[:len(order)-1]
			used[i] = false
		}
	}
	db := model.NewDB()
	now := int64(vrt.ClockBase)
	for _, st := range p.init {
		if st[0] == "@" {
			var n int64
			fmt.Sscan(st[1], &n)
			now += n
			continue
		}
		db.Exec(st, now)
	}
	rec(db, now, []map[string]bool{live(db, now)})
	if len(runs) == 0 {
		return nil // the writers' own replies are C09's and C12's matter
	}
	for t := range p.threads {
		for k, st := range p.threads[t] {
			if !strings.EqualFold(st[0], "keys") {
				continue
			}
			c := calls[t][k]
			r := reps[t][k]
			if r.T != '*' {
				return failf("%s answers %s", st, r.String())
			}
			must := map[string]int{}
			may := map[string]bool{}
			for _, ru := range runs {
				lo, hi := 0, len(ru.order)
				for i, e := range ru.order {
					if evs[e].end < c.Start {
						lo = i + 1
					}
				}
				for i := len(ru.order) - 1; i >= 0; i-- {
					if evs[ru.order[i]].start > c.End {
						hi = i
					}
				}
				in := map[string]int{}
				for i := lo; i <= hi; i++ {
					for k := range ru.states[i] {
						in[k]++
						may[k] = true
					}
				}
				for k, n := range in {
					if n == hi-lo+1 {
						must[k]++
					}
				}
			}
			got := map[string]bool{}
			for _, e := range r.Arr {
				if e.T != '$' {
					return failf("%s lists %s", st, e.String())
				}
				if got[e.S] {
					return failf("%s lists %q twice", st, e.S)
				}
				got[e.S] = true
				if !may[e.S] || !model.Glob(st[1], e.S) {
					return failf("%s lists %q, which did not exist (or match) at any moment of the call: %s", st, e.S, r.String())
				}
			}
			for k, n := range must {
				if n == len(runs) && model.Glob(st[1], k) && !got[k] {
					return failf("%s omits %q, which existed during the whole call: %s", st, k, r.String())
				}
			}
		}
	}
	// quiescent: KEYS lists what exists
	r, f := s.do(s.conns[0], []string{"KEYS", "*"})
	if f != nil {
		return f
	}
	var l []string
	for _, e := range r.Arr {
		l = append(l, e.S)
	}
	sort.Strings(l)
	var have []string
	for _, k := range p.keys {
		r, f := s.do(s.conns[0], []string{"EXISTS", k})
		if f != nil {
			return f
		}
		if r.I == 1 {
			have = append(have, k)
		}
	}
	sort.Strings(have)
	if strings.Join(l, " ") != strings.Join(have, " ") {
		return failf("afterwards KEYS * lists %v but the existing keys are %v", l, have)
	}
	return nil
}

// countsAgree finds every container in the server that can both count and
// list its keys and compares the two.
func countsAgree(s *Srv) *Fail {
	var bad *Fail
	seen := map[uintptr]bool{}
	n := 0
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if d > 12 || bad != nil {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			v = reflect.NewAt(v.Type().Elem(), unsafe.Pointer(v.Pointer()))
			c, k := v.MethodByName("Count"), v.MethodByName("Keys")
			if c.IsValid() && k.IsValid() {
				cf, ok1 := c.Interface().(func() int)
				kf, ok2 := k.Interface().(func() []string)
				if ok1 && ok2 {
					n++
					if a, b := cf(), len(kf()); a != b {
						bad = failf("afterwards the key count is %d but there are %d keys", a, b)
					}
					return
				}
			}
			walk(v.Elem(), d+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), d+1)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), d+1)
			}
		}
	}
	walk(reflect.ValueOf(s.mgr), 0)
	return bad
}

var keysWriters = cmds(`
	SET n 1
	SET a 2
	SET b 2
	DEL a
	DEL a b
	DEL b c a
	RENAME a n
	RENAME a b
	RENAME b a
	RENAME c b
	MSET a 1 n 2
	MSET n 1 b 2
	SETNX n 1
	SETEX a 50 x
	SADD c z
	SREM c m
	SPOP c
	RPUSH n x
	SUNIONSTORE a c
	SUNIONSTORE n c
	SINTERSTORE a c n
	SMOVE c n m
	HSET n f v
	EXPIRE a -1
	EXPIRE a 1
	GET a
	GET e
	SET e 1
	APPEND n q
	INCR n`)

var keysCore = cmds(`
	SET n 1
	DEL a b
	RENAME a b
	RENAME a n
	SET e 1
	SUNIONSTORE n c
	EXPIRE a -1
	GET e`)

var keysStates = []struct{ name, init string }{
	{"three", "SET a 1;SET b 2;SADD c m"},
	{"expired", "SET a 1;SETEX e 1 x;SADD c m;@2"},
	{"both-expired", "SETEX a 1 1;SETEX e 1 x;@2"},
	{"expiring", "SETEX a 1 1;SET b 2"},
	{"empty", ""},
}

func c13Cases(thorough bool) []Case {
	var out []Case
	keys := []string{"a", "b", "c", "e", "n"}
	segs := []int{1, 2, 3}
	if thorough {
		segs = []int{1, 2, 3, 7}
	}
	for _, seg := range segs {
		for _, st := range keysStates {
			seg, st := seg, st
			var clk []int64
			if st.name == "expiring" {
				clk = []int64{2e9}
			}
			mk := func(th ...[]step) *prog {
				return &prog{init: prep(st.init), threads: th, clock: clk, seg: seg, keys: keys, judge: keysJudge, post: countsAgree, maxRuns: 300000}
			}
			heavy := st.name == "both-expired" || st.name == "expiring"
			add := func(kind string, f func(r *Result, w step) *Fail, ws []step) {
				for _, w := range ws {
					w := w
					out = append(out, Case{fmt.Sprintf("%s/%s/seg%d/%s", kind, st.name, seg, w), func(r *Result) *Fail { return f(r, w) }})
				}
			}
			add("one-writer", func(r *Result, w step) *Fail {
				for _, pat := range []string{"*", "[ab]", "n"} {
					if f := mk(cmds("KEYS "+pat), []step{w}).explore(r); f != nil {
						return f
					}
				}
				return mk(cmds("KEYS *\nKEYS *"), []step{w}).explore(r)
			}, keysWriters)
			if seg == 1 && !thorough {
				continue
			}
			second := keysWriters
			if heavy && !thorough {
				second = keysCore
			}
			add("two-writes", func(r *Result, w step) *Fail {
				for _, w2 := range second {
					if f := mk(cmds("KEYS *"), []step{w, w2}).explore(r); f != nil {
						return f
					}
				}
				return nil
			}, second)
			if seg == 3 && !thorough {
				continue
			}
			ws := keysWriters
			if heavy || !thorough {
				ws = keysCore
			}
			add("two-writers", func(r *Result, w step) *Fail {
				for _, w2 := range ws {
					if f := mk(cmds("KEYS *"), []step{w}, []step{w2}).explore(r); f != nil {
						return f
					}
				}
				return nil
			}, keysCore)
			add("two-readers", func(r *Result, w step) *Fail {
				return mk(cmds("KEYS *"), cmds("KEYS *"), []step{w}).explore(r)
			}, keysCore)
		}
	}
	return out
}

func init() {
	checks["C13"] = &Check{Level: "model_checking", Rule: concRule + "; every KEYS reply is judged against the keys that existed during the whole call (must be listed once) and at some moment of it (may be listed), computed from all orders of the writers allowed by real time and their replies", Cases: c13Cases, Assume: concAssume}
}
