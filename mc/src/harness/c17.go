package main

import (
	"fmt"
	"strconv"
	"strings"

	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// mdb models a server with several databases and connections.
type mdb struct {
	dbs []*model.DB
	sel map[int]int
}

func newMdb(n int) *mdb {
	m := &mdb{sel: map[int]int{}}
	for i := 0; i < n; i++ {
		m.dbs = append(m.dbs, model.NewDB())
	}
	return m
}

// exec returns what the reply must match.
func (m *mdb) exec(c int, st step) (func(model.Reply) bool, string, func(model.Reply)) {
	if strings.EqualFold(st[0], "select") {
		ok := false
		if len(st) == 2 {
			n, err := strconv.Atoi(st[1])
			if err == nil && n >= 0 && n < len(m.dbs) {
				m.sel[c] = n
				ok = true
			}
		}
		if ok {
			return func(r model.Reply) bool { return r.T == '+' && r.S == "OK" }, "+OK", nil
		}
		return func(r model.Reply) bool { return r.T == '-' }, "an error", nil
	}
	w, ap := m.dbs[m.sel[c]].Exec(st, vrt.ClockNS())
	return w.Match, w.String(), ap
}

// dbRun executes a sequence of steps "#n cmd..."; "#n open" and "#n close"
// manage connections.
func dbRun(dbs int, seq []step, r *Result) *Fail {
	s := newSrv(2, dbs)
	defer s.end()
	m := newMdb(dbs)
	conns := map[int]*vrt.Conn{}
	path := func(i int) string {
		return "after [" + pathString(seq[:i]) + "] with " + strconv.Itoa(dbs) + " databases: "
	}
	run := func(c int, st step) *Fail {
		rp, f := s.do(conns[c], st)
		if f != nil {
			return f
		}
		ok, want, ap := m.exec(c, st)
		if !ok(rp) {
			return failf("%s on connection %d answers %s, expected %s", st, c, clip(rp.String()), want)
		}
		if ap != nil {
			ap(rp)
		}
		return nil
	}
	for i, st := range seq {
		c, _ := strconv.Atoi(st[0][1:])
		if st[1] == "close" {
			if conns[c] != nil {
				s.drop(conns[c])
				conns[c] = nil
				delete(m.sel, c)
			}
			continue
		}
		if conns[c] == nil {
			conns[c] = s.open()
			m.sel[c] = 0
		}
		r.Trans++
		if f := run(c, st[1:]); f != nil {
			f.What = path(i) + f.What
			return f
		}
	}
	// what every connection sees
	for c := 0; c < 4; c++ {
		if conns[c] == nil {
			continue
		}
		for _, q := range []step{{"KEYS", "*"}, {"GET", "k"}, {"GET", "q"}} {
			if f := run(c, q); f != nil {
				f.What = path(len(seq)) + f.What
				return f
			}
		}
	}
	// what every database holds, seen from a fresh connection
	const fresh = 1 << 20
	conns[fresh] = s.open()
	for d := 0; d < dbs; d++ {
		if d > 0 {
			if f := run(fresh, step{"SELECT", strconv.Itoa(d)}); f != nil {
				f.What = path(len(seq)) + f.What
				return f
			}
		}
		for _, q := range []step{{"KEYS", "*"}, {"GET", "k"}, {"TTL", "k"}, {"GET", "q"}} {
			if f := run(fresh, q); f != nil {
				f.What = path(len(seq)) + "from a new connection, " + f.What
				return f
			}
		}
	}
	r.Traces++
	r.States++
	r.sample(func() string { return pathString(seq) })
	return nil
}

func onConns(n int, text string) []step {
	var out []step
	for c := 0; c < n; c++ {
		for _, st := range cmds(text) {
			out = append(out, append(step{"#" + strconv.Itoa(c)}, st...))
		}
	}
	return out
}

func c17Cases(thorough bool) []Case {
	var out []Case
	seqs := func(name string, dbs, conns, depth int, text string) {
		ops := onConns(conns, text)
		for i := range ops {
			for j := range ops {
				i, j := i, j
				out = append(out, Case{fmt.Sprintf("seq/%s/dbs%d/%s ; %s", name, dbs, pathString(ops[i:i+1]), pathString(ops[j:j+1])), func(r *Result) *Fail {
					seq := []step{ops[i], ops[j]}
					var rec func(d int) *Fail
					rec = func(d int) *Fail {
						// values tell the position at which they were written
						var q []step
						for k, st := range seq {
							st = append(step(nil), st...)
							for w := range st {
								st[w] = strings.ReplaceAll(st[w], "V", "v"+strconv.Itoa(k))
							}
							q = append(q, st)
						}
						if d == 0 {
							return dbRun(dbs, q, r)
						}
						for _, op := range ops {
							seq = append(seq, op)
							f := rec(d - 1)
							seq = seq[:len(seq)-1]
							if f != nil {
								return f
							}
						}
						return nil
					}
					return rec(depth - 2)
				}})
			}
		}
	}
	d := 1
	if thorough {
		d = 2
	}
	seqs("core", 2, 2, 4+d, "SELECT 0\nSELECT 1\nSET k V\nGET k")
	seqs("bounds", 2, 2, 3+d, "SELECT 1\nSELECT 2\nSELECT -1\nSELECT abc\nSELECT\nSELECT 0 0\nSELECT 1.0\nSELECT 9223372036854775808\nSELECT \"\\x201\"\nSELECT \"1\\x20\"\nSELECT \"\"\nSELECT 0x1\nSELECT 1e0\nSELECT 4294967297\nSELECT 18446744073709551617\nSELECT --1\nSELECT -9223372036854775808\nSET k V\nGET k")
	seqs("reconnect", 2, 2, 4+d, "SELECT 1\nSET k V\nclose")
	seqs("three", 3, 3, 3+d, "SELECT 2\nSELECT 1\nSET k V\nDEL k\nRENAME k q")
	seqs("many", 16, 2, 3+d, "SELECT 15\nSELECT 16\nSELECT 3\nSELECT 0\nSET k V\nKEYS *\nSETEX q 10 V")
	seqs("single", 1, 2, 3+d, "SELECT 0\nSELECT 1\nSELECT -1\nSET k V\nGET k\nMGET k q\nEXPIRE k 5")
	seqs("multi", 2, 2, 3+d, "SELECT 1\nMSET k V q V\nRENAME k q\nDEL k q\nEXISTS k q\nMGET k q\nselect 1\nSelect 0")

	// every command before and after every other one of another connection
	// and before and after a change of database
	each := cmds(c17Each)
	for i := range each {
		i := i
		out = append(out, Case{"each/" + each[i].String(), func(r *Result) *Fail {
			for _, w := range each {
				var seq []step
				for _, st := range prep(c17Prep) {
					seq = append(seq, append(step{"#0"}, st...))
				}
				for _, x := range []struct {
					c string
					s step
				}{{"#0", each[i]}, {"#1", w}, {"#0", each[i]}, {"#0", step{"SELECT", "1"}}, {"#0", each[i]}, {"#0", w}, {"#0", each[i]}, {"#1", each[i]}, {"#1", step{"SELECT", "1"}}, {"#1", each[i]}, {"#0", step{"SELECT", "0"}}, {"#0", each[i]}} {
					seq = append(seq, append(step{x.c}, x.s...))
				}
				if f := dbRun(2, seq, r); f != nil {
					return f
				}
			}
			return nil
		}})
	}

	// concurrent programs
	th := [][]step{}
	for _, t := range []string{
		"SELECT 1\nSET k x", "SELECT 1\nGET k", "SET k y", "GET k", "SELECT 1", "SELECT 9", "SET k z\nSELECT 1\nSET k w", "SELECT 1\nINCR n", "INCR n", "SELECT 1\nDEL k",
		"DEL k", "SELECT 1\nSELECT 0\nGET k", "SELECT 1\nRENAME k q", "SELECT -1\nSET k m", "MSET k 1 n 2", "SELECT 1\nMSET k 3 n 4", "SELECT 1\nMGET k n", "SELECT 1\nEXPIRE k 50",
	} {
		th = append(th, cmds(t))
	}
	for i := range th {
		i := i
		out = append(out, Case{"concurrent/" + pathString(th[i]), func(r *Result) *Fail {
			for _, init := range []string{"", "SET k a;#1 SELECT 1;#1 SET k b;#1 SELECT 0"} {
				for j := i; j < len(th); j++ {
					if f := (&prog{init: prep(init), threads: [][]step{th[i], th[j]}, seg: 2, dbs: 2, keys: []string{"k", "q", "n"}}).explore(r); f != nil {
						return f
					}
					for k := j; k < len(th); k++ {
						if len(th[i])+len(th[j])+len(th[k]) > 6 {
							continue
						}
						if f := (&prog{init: prep(init), threads: [][]step{th[i], th[j], th[k]}, seg: 2, dbs: 2, keys: []string{"k", "q", "n"}}).explore(r); f != nil {
							return f
						}
					}
				}
			}
			return nil
		}})
	}
	wides := []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300}
	if thorough {
		wides = append(wides, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025)
	}
	for _, n := range wides {
		n := n
		out = append(out, Case{fmt.Sprintf("wide/dbs%d", n), func(r *Result) *Fail {
			for _, c := range []int{1, 2, n, n + 1} {
				if f := wide(n, c, r); f != nil {
					f.What = clip2(f.What)
					return f
				}
			}
			return nil
		}})
		out = append(out, Case{fmt.Sprintf("wide/conns%d", n), func(r *Result) *Fail {
			for _, d := range []int{1, 2, 16} {
				if f := wide(d, n, r); f != nil {
					f.What = clip2(f.What)
					return f
				}
			}
			return nil
		}})
	}
	return out
}

const c17Prep = "SET k abc;SET n 5;HSET h f 1 g 2;RPUSH l a b a;SADD z a b;SADD y b c;SETEX t 100 v;SETEX q 100 1"

const c17Each = `
DEL k
EXISTS k
EXISTS k n nope
TYPE k
TTL t
TTL q
EXPIRE q 50
PERSIST t
RENAME k n
KEYS *
GET k
SET k x
SETNX nope x
SETEX n 77 7
MSET k 1 n 2 nope 3
MGET k n nope
GETRANGE k 0 1
SETRANGE k 1 ZZZZ
STRLEN k
APPEND k y
INCR n
DECRBY n 3
INCRBYFLOAT n 1.5
HSET h f 9 x 1
HSETNX h x 2
HGET h f
HMGET h f g x
HGETALL h
HKEYS h
HVALS h
HLEN h
HEXISTS h x
HSTRLEN h f
HDEL h f g
HINCRBY h f 4
LPUSH l x
RPUSH l y
RPUSHX l z
LPOP l
RPOP l 2
LLEN l
LRANGE l 0 -1
LINDEX l 0
LSET l 0 Q
LINSERT l BEFORE b i
LREM l 0 a
LTRIM l 1 1
LPOS l b
LMOVE l m LEFT RIGHT
SADD z x
SREM z a b
SCARD z
SISMEMBER z a
SMEMBERS z
SMOVE z y a
SPOP z 2
SRANDMEMBER z 5
SINTER z y
SUNION z y
SDIFF z y
SINTERSTORE d z y
SUNIONSTORE z z y
SDIFFSTORE y y z
PING
PING k
SELECT 1
SELECT 2
GET h
DEL k h l z y t
`

// clip2 keeps the end of a long description.
func clip2(s string) string {
	if len(s) > 600 {
		return "..." + s[len(s)-600:]
	}
	return s
}

// wide: any number of databases, any number of connections.
func wide(dbs, conns int, r *Result) *Fail {
	var seq []step
	add := func(c int, w ...string) { seq = append(seq, append(step{"#" + strconv.Itoa(c)}, w...)) }
	db := func(c int) string { return strconv.Itoa((dbs - 1 - c%dbs + dbs) % dbs) }
	for c := 0; c < conns; c++ {
		add(c, "SELECT", db(c))
	}
	add(0, "SELECT", strconv.Itoa(dbs))
	for c := 0; c < conns; c++ {
		add(c, "SET", "k", "v"+strconv.Itoa(c))
		add(c, "SETEX", "q", strconv.Itoa(100+c), "w"+strconv.Itoa(c))
	}
	for c := 0; c < conns; c++ {
		add(c, "GET", "k")
		if c%3 == 2 {
			add(c, "close")
			add(c, "GET", "k")
		}
	}
	return dbRun(dbs, seq, r)
}

func init() {
	checks["C17"] = &Check{Level: "model_checking", Rule: "every sequence of the alphabets (SELECT valid and invalid, reads, writes, disconnects, over two or three connections and 1, 2, 3 or 16 databases) up to the depth is run on a fresh server without any pruning and compared, reply by reply and database by database, with a reference; every command before and after every other one of another connection and a change of database; as many connections as databases, and more, for 31 numbers up to 300 (40 up to 1025); concurrent programs: " + concRule, Cases: c17Cases, Assume: concAssume}
}
