package main

import (
	"fmt"
	"strings"
)

// deadlock-prone commands over three keys in every order, with repetitions
func multiOps(ks []string) []step {
	var out []step
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for _, p := range perms {
		x := []string{ks[p[0]], ks[p[1]], ks[p[2]]}
		all := strings.Join(x, " ")
		out = append(out, cmds("DEL "+all)...)
		out = append(out, cmds("SUNIONSTORE "+all)...)
		out = append(out, cmds("SUNION "+all)...)
		out = append(out, cmds("MGET "+all)...)
		out = append(out, cmds("MSET "+x[0]+" 1 "+x[1]+" 2 "+x[2]+" 3")...)
		out = append(out, cmds("EXISTS "+all)...)
	}
	for i := range ks {
		for j := range ks {
			out = append(out, cmds(fmt.Sprintf("RENAME %s %s\nSMOVE %s %s x\nLMOVE %s %s LEFT RIGHT\nMGET %s %s %s\nSDIFFSTORE %s %s\nDEL %s %s %s",
				ks[i], ks[j], ks[i], ks[j], ks[i], ks[j], ks[i], ks[j], ks[i], ks[i], ks[j], ks[j], ks[i], ks[j]))...)
		}
	}
	for _, k := range ks {
		out = append(out, cmds(fmt.Sprintf("SET %s v\nGET %s\nSADD %s x\nRPUSH %s x\nEXPIRE %s 50", k, k, k, k, k))...)
	}
	return out
}

func multiCore(ks []string) []step {
	return cmds(fmt.Sprintf(`
		MSET %[1]s 1 %[2]s 2
		MSET %[2]s 1 %[1]s 2
		MGET %[1]s %[2]s %[3]s
		MGET %[3]s %[2]s %[1]s
		SUNIONSTORE %[3]s %[1]s %[2]s
		SUNIONSTORE %[1]s %[2]s %[3]s
		SINTER %[2]s %[3]s %[1]s
		RENAME %[1]s %[2]s
		RENAME %[2]s %[1]s
		RENAME %[2]s %[3]s
		SMOVE %[3]s %[1]s x
		SMOVE %[1]s %[3]s x
		LMOVE %[2]s %[3]s LEFT LEFT
		DEL %[3]s %[1]s
		EXISTS %[2]s %[1]s %[2]s
		SADD %[1]s x
		GET %[2]s`, ks[0], ks[1], ks[2]))
}

func c10Cases(thorough bool) []Case {
	var out []Case
	ks := []string{"a", "b", "c"}
	inits := []struct{ name, init string }{
		{"sets", "SADD a x;SADD b x;SADD c x y"},
		{"lists", "RPUSH a x;RPUSH b x;RPUSH c x"},
		{"mixed", "SET a 1;SADD b x;RPUSH c x"},
		{"expired", "SADD a x;SADD b x;SADD c x;EXPIRE a 1;EXPIRE b 1;EXPIRE c 1;@3"},
	}
	segs := []int{1, 2}
	if thorough {
		segs = []int{1, 2, 3, 100}
	}
	for _, seg := range segs {
		for _, in := range inits {
			seg, in := seg, in
			ops := multiOps(ks)
			if in.name == "expired" && !thorough {
				ops = multiCore(ks)
			}
			for i := range ops {
				i := i
				out = append(out, Case{fmt.Sprintf("multi-pairs/%s/seg%d/%s", in.name, seg, ops[i]), func(r *Result) *Fail {
					for j := i; j < len(ops); j++ {
						p := &prog{init: prep(in.init), threads: [][]step{{ops[i]}, {ops[j]}}, seg: seg, liveOnly: true, noMem: true}
						if f := p.explore(r); f != nil {
							return f
						}
					}
					return nil
				}})
			}
			if in.name == "expired" && !thorough {
				continue
			}
			core := multiCore(ks)
			for i := range core {
				i := i
				out = append(out, Case{fmt.Sprintf("multi-triples/%s/seg%d/%s", in.name, seg, core[i]), func(r *Result) *Fail {
					for j := i; j < len(core); j++ {
						for k := j; k < len(core); k++ {
							p := &prog{init: prep(in.init), threads: [][]step{{core[i]}, {core[j]}, {core[k]}}, seg: seg, liveOnly: true, noMem: true}
							if f := p.explore(r); f != nil {
								return f
							}
						}
					}
					return nil
				}})
			}
		}
		// all commands, all pairs, everything colliding
		A := concOps("a", "b", "d")
		B := append(append([]step(nil), A...), concOps("b", "a", "d")...)
		for _, st := range concStates {
			for i := range A {
				seg, st, i := seg, st, i
				out = append(out, Case{fmt.Sprintf("pairs/%s/seg%d/%s", st.name, seg, A[i]), func(r *Result) *Fail {
					for j := i; j < len(B); j++ {
						p := &prog{init: prep(st.init), threads: [][]step{{A[i]}, {B[j]}}, seg: seg, liveOnly: true, noMem: true}
						if f := p.explore(r); f != nil {
							return f
						}
					}
					return nil
				}})
			}
		}
	}
	// deadlines passing while the requests run
	for _, seg := range segs {
		for _, in := range []struct{ name, init string }{
			{"sets", "SADD a x;SADD b x y;SADD c x;EXPIRE a 1;EXPIRE b 1;EXPIRE c 1"},
			{"lists", "RPUSH a x;RPUSH b x y;RPUSH c x;EXPIRE a 1;EXPIRE b 1;EXPIRE c 1"},
			{"strings", "SETEX a 1 1;SETEX b 1 2;SETEX c 1 3"},
			{"hashes", "HSET a f 1;HSET b f 2;EXPIRE a 1;EXPIRE b 1"},
			{"one", "SADD a x;SADD b x;RPUSH c x;EXPIRE b 1"},
		} {
			seg, in := seg, in
			out = append(out, Case{fmt.Sprintf("passing/%s/seg%d", in.name, seg), func(r *Result) *Fail {
				ops := append(append(append(multiOps(ks), concOps("a", "b", "c")...), concOps("b", "a", "c")...), cmds("KEYS *")...)
				for i := range ops {
					p := &prog{init: prep(in.init), threads: [][]step{{ops[i]}}, clock: []int64{2e9}, seg: seg, liveOnly: true, noMem: true}
					if f := p.explore(r); f != nil {
						return f
					}
				}
				return nil
			}})
			ops := append(multiCore(ks), cmds("KEYS *\nTTL b\nEXPIRE b 20\nPERSIST b\nSCARD b\nLPOP b\nHSET b g 1\nSET b v KEEPTTL\nSPOP b")...)
			for i := range ops {
				i := i
				out = append(out, Case{fmt.Sprintf("passing-pairs/%s/seg%d/%s", in.name, seg, ops[i]), func(r *Result) *Fail {
					for j := i; j < len(ops); j++ {
						p := &prog{init: prep(in.init), threads: [][]step{{ops[i]}, {ops[j]}}, clock: []int64{2e9}, seg: seg, liveOnly: true, noMem: true}
						if f := p.explore(r); f != nil {
							return f
						}
					}
					return nil
				}})
			}
		}
	}
	// KEYS with everything else
	for _, st := range concStates {
		st := st
		out = append(out, Case{"keys/" + st.name, func(r *Result) *Fail {
			for _, b := range append(concOps("a", "b", "d"), cmds("KEYS *")...) {
				for _, seg := range []int{1, 3} {
					p := &prog{init: prep(st.init), threads: [][]step{cmds("KEYS *"), {b}}, seg: seg, liveOnly: true, noMem: true}
					if f := p.explore(r); f != nil {
						return f
					}
				}
			}
			return nil
		}})
	}
	return out
}

func init() {
	checks["C10"] = &Check{Level: "model_checking", Rule: concRule + "; a schedule in which some client can never continue (including readers queued behind a waiting writer), a missing reply or a lock still held at the end is a violation", Cases: c10Cases, Assume: concAssume}
}
