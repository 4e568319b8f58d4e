package main

import "fmt"

// initial states of the concurrent programs over keys a, b (and d)
var concStates = []struct{ name, init string }{
	{"empty", ""},
	{"str", "SET a 1;SET b 2"},
	{"hash", "HSET a f 1 g 2;HSET b f 5"},
	{"list", "RPUSH a x y;RPUSH b y"},
	{"set", "SADD a x y;SADD b y z"},
	{"str-a", "SET a 1"},
	{"hash-a", "HSET a f 1"},
	{"list-a", "RPUSH a x"},
	{"set-a", "SADD a x"},
	{"set-d", "SADD a x y;SADD b y;SADD d old;EXPIRE d 100"},
	{"str-ttl", "SETEX a 100 1;SETEX b 200 2"},
	{"str-exp", "SETEX a 1 1;SET b 2;@3"},
	{"hash-exp", "HSET a f 1;EXPIRE a 1;HSET b f 5;@3"},
	{"list-exp", "RPUSH a x;EXPIRE a 1;RPUSH b y;@3"},
	{"set-exp", "SADD a x;EXPIRE a 1;SADD b x y;@3"},
	{"both-exp", "SADD a x;EXPIRE a 1;SADD b y;EXPIRE b 1;@3"},
}

func stateInit(name string) []step {
	for _, s := range concStates {
		if s.name == name {
			return prep(s.init)
		}
	}
	panic("no state " + name)
}

// concOps is a catalogue of single requests over two keys and a destination
// (K other than KEYS).
func concOps(a, b, d string) []step {
	t := cmds(`
		DEL A
		DEL A B
		DEL B A
		EXISTS A B
		EXPIRE A 30
		EXPIRE A 30 NX
		EXPIRE A 30 XX
		EXPIRE A 30 GT
		EXPIRE A 30 LT
		EXPIRE A -1
		PERSIST A
		TTL A
		RENAME A B
		RENAME A D
		TYPE A
		SET A v
		SET A w EX 20
		SET A v NX
		SET A v XX
		SET A v GET
		SET A v KEEPTTL
		SET A v PX 20000
		SET A v PXAT 99
		GET A
		GETRANGE A 0 -1
		SETRANGE A 1 ZZ
		SETRANGE A 3 y
		MGET A B
		MSET A 7 B 8
		SETEX A 20 v
		SETNX A n
		STRLEN A
		INCR A
		INCRBY A 3
		DECR A
		DECRBY A 5
		INCRBYFLOAT A 0.5
		APPEND A z
		HDEL A f
		HDEL A f g
		HGET A f
		HGETALL A
		HINCRBY A f 2
		HINCRBYFLOAT A f 0.5
		HKEYS A
		HVALS A
		HLEN A
		HMGET A f g
		HSET A f 9 n 1
		HSETNX A n 9
		HMSET A f 8 n 2
		HEXISTS A f
		HSTRLEN A f
		HRANDFIELD A
		HRANDFIELD A 2 WITHVALUES
		LINDEX A 0
		LINSERT A BEFORE x z
		LINSERT A AFTER x z
		LLEN A
		LMOVE A B LEFT RIGHT
		LMOVE B A RIGHT LEFT
		LMOVE A A LEFT RIGHT
		LPOP A
		LPOP A 2
		LPOS A y
		LPOS A y RANK -1 COUNT 0
		LPUSH A p q
		LPUSHX A z
		LRANGE A 0 -1
		LREM A 0 x
		LSET A 0 z
		LTRIM A 1 -1
		RPOP A
		RPOP A 2
		RPUSH A r
		RPUSH A r t
		LPUSHX A z y
		RPUSHX A r
		RPUSHX A r t
		SADD A z
		SADD A y z
		SCARD A
		SDIFF A B
		SDIFFSTORE D A B
		SINTER A B
		SINTERSTORE D A B
		SISMEMBER A x
		SMEMBERS A
		SMOVE A B x
		SMOVE B A y
		SMOVE A A x
		SPOP A
		SPOP A 2
		SRANDMEMBER A
		SRANDMEMBER A -2
		SREM A x
		SREM A x y
		SUNION A B
		SUNIONSTORE D A B
		SUNIONSTORE A A B
		SINTERSTORE A A B
		SDIFFSTORE A A B
		SUNIONSTORE A B
		SINTERSTORE A B
		SDIFFSTORE A B
		TTL D
		SMEMBERS D
		SADD D q`)
	for i := range t {
		for j := 1; j < len(t[i]); j++ {
			switch t[i][j] {
			case "A":
				t[i][j] = a
			case "B":
				t[i][j] = b
			case "D":
				t[i][j] = d
			}
		}
	}
	return t
}

// cores are small sets of commands per kind of initial state, combined into
// programs of three clients and of two clients with two requests each.
var cores = []struct {
	name   string
	states []string
	three  string // one request each, three clients
	two    string // two clients, two requests each
	four   string // four clients
}{
	{"str", []string{"str", "empty", "str-ttl", "str-exp"},
		"GET a\nSET a v\nSET a w NX\nINCR a\nAPPEND a z\nDEL a b\nRENAME a b\nMSET a 7 b 8\nMGET a b\nSETNX b n\nEXPIRE a 30\nSET b q KEEPTTL\nPERSIST a",
		"GET a\nINCR a\nSET b v\nMSET a 7 b 8\nMGET b a\nRENAME a b\nDEL a\nSETNX a n",
		"INCR a\nMSET a 7 b 8\nRENAME a b\nMGET a b\nDEL b"},
	{"list", []string{"list", "list-a", "list-exp"},
		"LPUSH a p\nRPUSH b r\nLPOP a\nRPOP b\nLMOVE a b LEFT RIGHT\nLMOVE b a RIGHT LEFT\nLRANGE a 0 -1\nLLEN b\nDEL a\nRENAME a b\nLREM a 0 x\nEXISTS a b",
		"LPUSH a p\nRPOP a\nLMOVE a b LEFT RIGHT\nLMOVE b a LEFT LEFT\nLRANGE b 0 -1\nLLEN a\nRENAME a b",
		"RPOP a\nLMOVE a b LEFT RIGHT\nLMOVE b a RIGHT LEFT\nEXISTS a b"},
	{"set", []string{"set", "set-a", "set-exp", "both-exp"},
		"SADD a z\nSREM a x y\nSMOVE a b x\nSMOVE b a y\nSUNION a b\nSDIFF b a\nSUNIONSTORE d a b\nSINTERSTORE a a b\nSPOP a\nSCARD b\nDEL a b\nSISMEMBER b x",
		"SADD a z\nSREM a x\nSMOVE a b x\nSMOVE b a y\nSUNION a b\nSDIFFSTORE d a b\nSPOP b",
		"SMOVE a b x\nSMOVE b a y\nSUNION b a\nSUNIONSTORE b a b"},
	{"store", []string{"set-d"},
		"SINTERSTORE d a b\nSUNIONSTORE d b a\nSDIFFSTORE d a b\nSMEMBERS d\nTTL d\nSINTERSTORE a d b\nSMOVE a b x\nPERSIST d\nDEL d",
		"SINTERSTORE d a b\nSUNIONSTORE d b a\nSMEMBERS d\nTTL d\nSDIFFSTORE a d\nSADD d q\nSREM a x",
		"SINTERSTORE d a b\nSUNIONSTORE a d b\nSMEMBERS d\nTTL d"},
	{"hash", []string{"hash", "hash-a", "hash-exp"},
		"HSET a f 9 n 1\nHDEL a f g\nHINCRBY a f 2\nHGETALL a\nHLEN a\nHSETNX a n 3\nDEL a\nRENAME a b\nHMGET a f n\nEXISTS a b",
		"HSET a f 9 n 1\nHDEL a f g\nHINCRBY a f 2\nHGETALL a\nHSETNX a n 3\nRENAME a b",
		"HINCRBY a f 2\nHDEL a f\nHGETALL a\nRENAME a b"},
}

func c09Cases(thorough bool) []Case {
	var out []Case
	segs := []int{2}
	if thorough {
		segs = []int{2, 1, 100}
	}
	A := concOps("a", "b", "d")
	B := append(append([]step(nil), A...), concOps("b", "a", "d")...)
	keys := []string{"a", "b", "d"}
	for _, seg := range segs {
		for _, st := range concStates {
			for i := range A {
				seg, st, i := seg, st, i
				out = append(out, Case{fmt.Sprintf("pairs/%s/seg%d/%s", st.name, seg, A[i]), func(r *Result) *Fail {
					for j := i; j < len(B); j++ {
						p := &prog{init: prep(st.init), threads: [][]step{{A[i]}, {B[j]}}, seg: seg, keys: keys}
						if f := p.explore(r); f != nil {
							return f
						}
					}
					return nil
				}})
			}
		}
		out = append(out, manyCases(seg, keys, thorough, false)...)
	}
	return append(out, crossCases()...)
}

// manyCases: programs of three and four clients, and of two clients with two
// requests each.
func manyCases(seg int, keys []string, thorough, live bool) []Case {
	var out []Case
	for _, c := range cores {
		for _, sn := range c.states {
			c, sn := c, sn
			if sn == "both-exp" && !thorough {
				continue
			}
			three := cmds(c.three)
			for i := range three {
				i := i
				out = append(out, Case{fmt.Sprintf("triples/%s/seg%d/%s", sn, seg, three[i]), func(r *Result) *Fail {
					for j := i; j < len(three); j++ {
						for k := j; k < len(three); k++ {
							p := &prog{init: stateInit(sn), threads: [][]step{{three[i]}, {three[j]}, {three[k]}}, seg: seg, keys: keys, liveOnly: live}
							if f := p.explore(r); f != nil {
								return f
							}
						}
					}
					return nil
				}})
			}
			two := cmds(c.two)
			for i := range two {
				i := i
				out = append(out, Case{fmt.Sprintf("twobytwo/%s/seg%d/%s", sn, seg, two[i]), func(r *Result) *Fail {
					n := len(two)
					for j := 0; j < n; j++ {
						for k := i; k < n; k++ {
							for l := 0; l < n; l++ {
								if k == i && l < j {
									continue
								}
								p := &prog{init: stateInit(sn), threads: [][]step{{two[i], two[j]}, {two[k], two[l]}}, seg: seg, keys: keys, liveOnly: live}
								if f := p.explore(r); f != nil {
									return f
								}
							}
						}
					}
					return nil
				}})
			}
			if !thorough {
				continue
			}
			four := cmds(c.four)
			for i := range four {
				i := i
				out = append(out, Case{fmt.Sprintf("four/%s/seg%d/%s", sn, seg, four[i]), func(r *Result) *Fail {
					n := len(four)
					for j := i; j < n; j++ {
						for k := j; k < n; k++ {
							for l := k; l < n; l++ {
								p := &prog{init: stateInit(sn), threads: [][]step{{four[i]}, {four[j]}, {four[k]}, {four[l]}}, seg: seg, keys: keys, liveOnly: live}
								if f := p.explore(r); f != nil {
									return f
								}
							}
						}
					}
					return nil
				}})
			}
		}
	}
	return out
}

// crossPrograms are explored with and without reduction.
func crossCases() []Case {
	var out []Case
	for _, t := range []struct{ st, a, b string }{
		{"str", "INCR a", "INCR a"}, {"str", "GET a", "SET a v"}, {"str", "SETNX a n", "DEL a"}, {"str-exp", "GET a", "SET a v"},
		{"str-exp", "SETNX a 1", "INCR a"}, {"str", "MGET a b", "MSET a 7 b 8"}, {"list-a", "LPOP a", "RPUSH a r"}, {"list", "LMOVE a b LEFT RIGHT", "LLEN b"},
		{"set", "SMOVE a b x", "SCARD b"}, {"set-exp", "SADD a q", "SISMEMBER a x"}, {"hash", "HSET a f 9", "HLEN a"}, {"str-ttl", "EXPIRE a 5", "TTL a"},
		{"str", "RENAME a b", "GET b"}, {"both-exp", "SADD a q", "SCARD a"}, {"empty", "SETNX a 1", "SETNX a 2"}, {"empty", "LPUSH a x", "SADD a x"},
	} {
		t := t
		out = append(out, Case{"reduction/" + t.st + "/" + t.a + " || " + t.b, func(r *Result) *Fail {
			p := &prog{init: stateInit(t.st), threads: [][]step{cmds(t.a), cmds(t.b)}, seg: 2, keys: []string{"a", "b"}}
			return p.crossCheck(r)
		}})
	}
	return out
}

const concRule = "stateless exploration of the real code under a controlled scheduler: every interleaving at lock, atomic and clock operations, reduced by dynamic partial-order reduction with sleep sets (one schedule per equivalence class)"

var concAssume = []string{
	"bounded: programs, initial states and segment counts as listed in DESIGN.md",
	"between two synchronisation operations a thread is not interrupted; sound for race-free code, which C11 checks",
}

func init() {
	checks["C09"] = &Check{Level: "model_checking", Rule: concRule + "; replies and final keyspace are compared with those of all sequential executions of the same code that respect real-time order", Cases: c09Cases, Assume: concAssume}
}
