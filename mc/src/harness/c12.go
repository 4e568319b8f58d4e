package main

import "fmt"

// single-key requests used around a deadline
func expOps() []step {
	var out []step
	for _, st := range concOps("a", "b", "d") {
		// a lifetime may count from any moment of the command, so with the
		// clock moving a comparison of almost equal lifetimes has no one answer
		two := st.String() == "EXPIRE a 30 LT"
		for _, w := range st[1:] {
			if w == "b" || w == "d" {
				two = true
			}
		}
		if !two {
			out = append(out, st)
		}
	}
	return append(out, cmds("SADD a x\nRPUSH a x\nHSET a f 1\nLMOVE a a LEFT LEFT")...)
}

// requests naming several keys
func expMulti() []step {
	var out []step
	for _, ks := range [][3]string{{"a", "b", "d"}, {"b", "a", "d"}, {"d", "b", "a"}} {
	next:
		for _, st := range concOps(ks[0], ks[1], ks[2]) {
			n := 0
			for _, k := range ks {
				for _, w := range st[1:] {
					if w == k {
						n++
						break
					}
				}
			}
			if n < 2 {
				continue
			}
			for _, o := range out {
				if o.String() == st.String() {
					continue next
				}
			}
			out = append(out, st)
		}
	}
	return out
}

var expStates = []struct{ name, init string }{
	{"str", "SETEX a 1 1"},
	{"hash", "HSET a f 1;EXPIRE a 1"},
	{"list", "RPUSH a x;EXPIRE a 1"},
	{"set", "SADD a x;EXPIRE a 1"},
}

// requests combined into larger programs around a deadline
var expCores = []struct{ state, ops string }{
	{"str", "SET a v\nGET a\nSETNX a n\nINCR a\nAPPEND a z\nDEL a\nEXPIRE a 30\nPERSIST a\nTTL a\nSET a v XX\nSET a w KEEPTTL\nSETEX a 20 s\nEXISTS a"},
	{"list", "RPUSH a r\nLPOP a\nLPUSHX a p\nLLEN a\nEXPIRE a 30\nPERSIST a\nDEL a\nTYPE a\nLRANGE a 0 -1"},
	{"set", "SADD a y\nSREM a x\nSCARD a\nSPOP a\nEXPIRE a 30\nPERSIST a\nDEL a\nSMEMBERS a\nSET a v"},
	{"hash", "HSET a g 2\nHDEL a f\nHLEN a\nHINCRBY a f 1\nHSETNX a n 1\nEXPIRE a 30\nPERSIST a\nDEL a\nHGETALL a"},
}

func c12Cases(thorough bool) []Case {
	var out []Case
	keys := []string{"a"}
	segs := []int{2}
	if thorough {
		segs = []int{2, 1, 100}
	}
	ops := expOps()
	for _, seg := range segs {
		for _, st := range expStates {
			for i := range ops {
				seg, st, i := seg, st, i
				out = append(out, Case{fmt.Sprintf("deadline-passes/%s/seg%d/%s", st.name, seg, ops[i]), func(r *Result) *Fail {
					for _, c := range [][]int64{{2e9}, {1e9, 1e9}} {
						p := &prog{init: prep(st.init), threads: [][]step{{ops[i]}}, clock: c, seg: seg, keys: keys}
						if f := p.explore(r); f != nil {
							return f
						}
					}
					for j := i; j < len(ops); j++ {
						for _, c := range [][]int64{{2e9}, {1e9, 1e9}} {
							p := &prog{init: prep(st.init), threads: [][]step{{ops[i]}, {ops[j]}}, clock: c, seg: seg, keys: keys}
							if f := p.explore(r); f != nil {
								return f
							}
						}
						// the deadline is already past
						p := &prog{init: prep(st.init + ";@2"), threads: [][]step{{ops[i]}, {ops[j]}}, seg: seg, keys: keys}
						if f := p.explore(r); f != nil {
							return f
						}
					}
					return nil
				}})
			}
		}
		// requests naming several keys, of which one has a deadline, against requests on that key
		for _, st := range expStates {
			for _, m := range expMulti() {
				seg, st, m := seg, st, m
				out = append(out, Case{fmt.Sprintf("several-keys/%s/seg%d/%s", st.name, seg, m), func(r *Result) *Fail {
					for _, b := range []string{"", ";SADD b x", ";SET b 5", ";RPUSH b y"} {
						for j := -1; j < len(ops); j++ {
							th := [][]step{{m}}
							if j >= 0 {
								th = append(th, []step{ops[j]})
							}
							p := &prog{init: prep(st.init + b), threads: th, clock: []int64{2e9}, seg: seg, keys: []string{"a", "b", "d"}}
							if f := p.explore(r); f != nil {
								return f
							}
						}
					}
					return nil
				}})
			}
		}
		for _, c := range expCores {
			c := c
			core := cmds(c.ops)
			init := ""
			for _, s := range expStates {
				if s.name == c.state {
					init = s.init
				}
			}
			for i := range core {
				seg, i := seg, i
				out = append(out, Case{fmt.Sprintf("triples-expired/%s/seg%d/%s", c.state, seg, core[i]), func(r *Result) *Fail {
					for j := i; j < len(core); j++ {
						for k := j; k < len(core); k++ {
							p := &prog{init: prep(init + ";@2"), threads: [][]step{{core[i]}, {core[j]}, {core[k]}}, seg: seg, keys: keys}
							if f := p.explore(r); f != nil {
								return f
							}
						}
					}
					return nil
				}})
				out = append(out, Case{fmt.Sprintf("two-by-one/%s/seg%d/%s", c.state, seg, core[i]), func(r *Result) *Fail {
					for j := range core {
						for k := range core {
							// one client does two requests while the other does one and the deadline passes
							p := &prog{init: prep(init), threads: [][]step{{core[i], core[j]}, {core[k]}}, clock: []int64{2e9}, seg: seg, keys: keys}
							if f := p.explore(r); f != nil {
								return f
							}
						}
					}
					return nil
				}})
				out = append(out, Case{fmt.Sprintf("triples-passing/%s/seg%d/%s", c.state, seg, core[i]), func(r *Result) *Fail {
					for j := i; j < len(core); j++ {
						for k := j; k < len(core); k++ {
							p := &prog{init: prep(init), threads: [][]step{{core[i]}, {core[j]}, {core[k]}}, clock: []int64{2e9}, seg: seg, keys: keys}
							if f := p.explore(r); f != nil {
								return f
							}
						}
					}
					return nil
				}})
			}
		}
	}
	return out
}

func init() {
	checks["C12"] = &Check{Level: "model_checking", Rule: concRule + "; the clock is a thread of its own that passes the deadline at any moment; replies and final keyspace (with deadlines) are compared with those of all sequential executions, clock advances included", Cases: c12Cases, Assume: concAssume}
}
