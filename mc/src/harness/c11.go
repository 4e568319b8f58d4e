package main

import (
	"fmt"
	"os"
	"strings"

	"gRedis/zzverif/vrt"
)

// The race detector observes every explored execution.  The scheduler's
// hand-offs are hidden from it, so that only the synchronisation of the
// program under test orders accesses, and a report means that the program
// itself leaves two accesses unordered.

var raceSeen int64 // bytes of the report file already looked at

// raceReport returns a description of the first new race between two
// accesses of the program under test.
func raceReport(r *Result) string {
	b, err := os.ReadFile(fmt.Sprintf("%s/race.%d", scratch, os.Getpid()))
	if err != nil || int64(len(b)) <= raceSeen {
		return ""
	}
	txt := string(b[raceSeen:])
	raceSeen = int64(len(b))
	for _, rep := range strings.Split(txt, "WARNING: DATA RACE")[1:] {
		a := raceSides(rep)
		if len(a) < 2 || a[0] == "" || a[1] == "" {
			r.count("reports_outside_the_program", 1)
			continue
		}
		return a[0] + " and " + a[1]
	}
	return ""
}

// raceSides finds, for both accesses of a report, the innermost frame of the
// program ("" if the innermost frame of this module is the harness).
func raceSides(rep string) []string {
	var out []string
	side := ""
	in := false
	kind := ""
	flush := func() {
		if in {
			out = append(out, side)
		}
		in, side = false, ""
	}
	lines := strings.Split(rep, "\n")
	decided := false
	for i, l := range lines {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Previous read"), strings.HasPrefix(t, "Previous write"), strings.HasPrefix(t, "Atomic"), strings.HasPrefix(t, "Previous atomic"):
			flush()
			in, decided = true, false
			kind = strings.Fields(strings.TrimPrefix(t, "Previous "))[0]
		case t == "" || strings.HasPrefix(t, "Goroutine") || strings.HasPrefix(t, "======"):
			flush()
		case in && !decided && strings.HasPrefix(t, "gRedis/"):
			decided = true
			if !strings.Contains(t, "gRedis/zzverif") {
				fn := t
				if k := strings.LastIndexByte(fn, '('); k > 0 {
					fn = fn[:k]
				}
				pos := ""
				if i+1 < len(lines) {
					pos = strings.TrimSpace(lines[i+1])
					if k := strings.LastIndexByte(pos, '/'); k >= 0 {
						pos = pos[k+1:]
					}
					if k := strings.IndexByte(pos, ' '); k >= 0 {
						pos = pos[:k]
					}
				}
				side = strings.ToLower(kind) + " in " + fn + " (" + pos + ")"
			}
		}
	}
	flush()
	return out
}

func (p *prog) races(r *Result) *Fail {
	p.liveOnly = true
	p.raceMode = true
	f := p.explore(r)
	if rep := raceReport(r); rep != "" {
		return failf("%s: data race between %s", p, rep)
	}
	if f != nil {
		r.count("programs_ended_by_other_failures", 1)
	}
	return nil
}

// natively served connections
var c11Natives = []struct {
	name string
	mk   func() *nconn
}{
	{"commands", func() *nconn {
		return natConn("SET k 1;GET k;INCR k;RPUSH l a;LRANGE l 0 -1;KEYS *;DEL k l", nil, -1, 0)
	}},
	{"hashes", func() *nconn {
		return natConn("HSET h f 1;HINCRBY h f 2;HGETALL h;SADD z a b;SMEMBERS z;SPOP z;EXPIRE h 100;TTL h", nil, -1, 0)
	}},
	{"select", func() *nconn {
		return natConn("SELECT 1;SET k 1;SELECT 0;GET k;SELECT 7;SELECT x;SELECT 1;KEYS *", nil, -1, 0)
	}},
	{"errors", func() *nconn { return natConn("nosuch;GET;SET k;LPUSH k a;INCR l;SET k v EX x", nil, -1, 0) }},
	{"bytewise", func() *nconn { return natConn("SET k abc;APPEND k def;GET k;SETRANGE k 1 zz;GET k", nil, -1, 1) }},
	{"reset", func() *nconn { return natConn("SET k 1;GET k", errReset, -1, 0) }},
	{"writefail", func() *nconn { return natConn("GET k;SET k 2;GET k;KEYS *", nil, 3, 0) }},
	{"garbage", func() *nconn {
		c := newNconn()
		c.pieces = whole([]byte("+PING\r\n:1\r\n*0\r\n*-1\r\n$3\r\nabc\r\n*1\r\n$4\r\nPING\r\n*x\r\n"))
		return c
	}},
	{"toolong", func() *nconn {
		c := newNconn()
		c.pieces = whole([]byte("$1\r\na\r\n+x\r\n$999999999999\r\n"))
		return c
	}},
	{"truncated", func() *nconn {
		c := newNconn()
		c.pieces = whole([]byte("*2\r\n$3\r\nGET\r\n$1\r"))
		return c
	}},
}

func natConn(s string, end error, wlim, chunk int) *nconn {
	all, _ := encodeAll(tmplReqs(s, "", ""))
	c := newNconn()
	c.pieces = whole(all)
	if chunk > 0 {
		c.pieces = chunks(all, chunk)
	}
	if end != nil {
		c.end = end
	}
	c.wlim = wlim
	return c
}

func c11Cases(thorough bool) []Case {
	var out []Case
	A := concOps("a", "b", "d")
	A = append(A, cmds("KEYS *\nSELECT 0\nPING x\nnosuch y\nGET a b c\nLPOP a 0\nSPOP a 2\nSRANDMEMBER a 2\nHRANDFIELD a 2 WITHVALUES\nINCR b\nSET b v\nDECR a\nINCRBY a 3\nSET a v PX 20000\nSET a v EXAT 1700000100\nGETRANGE a 0 0\nRPUSH b q\nSADD b q\nHSET b q 1")...)
	keys := []string{"a", "b", "d"}
	for _, st := range concStates {
		for i := range A {
			st, i := st, i
			out = append(out, Case{fmt.Sprintf("pairs/%s/%s", st.name, A[i]), func(r *Result) *Fail {
				for j := i; j < len(A); j++ {
					p := &prog{init: prep(st.init), threads: [][]step{{A[i]}, {A[j]}}, seg: 2, keys: keys}
					if f := p.races(r); f != nil {
						return f
					}
					if A[i][len(A[i])-1] != "*" && thorough {
						p := &prog{init: prep(st.init), threads: [][]step{{A[i]}, {A[j]}}, seg: 1, keys: keys}
						if f := p.races(r); f != nil {
							return f
						}
					}
				}
				return nil
			}})
		}
	}
	// with databases and several requests per client
	two := cmds("SELECT 1\nSELECT 0\nSET a v\nGET a\nKEYS *\nDEL a\nRPUSH b x")
	for i := range two {
		i := i
		out = append(out, Case{fmt.Sprintf("databases/%s", two[i]), func(r *Result) *Fail {
			for j := range two {
				for k := range two {
					for l := range two {
						p := &prog{threads: [][]step{{two[i], two[j]}, {two[k], two[l]}}, seg: 1, dbs: 2, keys: keys}
						if f := p.races(r); f != nil {
							return f
						}
					}
				}
			}
			return nil
		}})
	}
	for _, c := range cores {
		for _, sn := range c.states {
			c, sn := c, sn
			if sn == "both-exp" && !thorough {
				continue
			}
			three := cmds(c.three)
			for i := range three {
				i := i
				out = append(out, Case{fmt.Sprintf("triples/%s/%s", sn, three[i]), func(r *Result) *Fail {
					for j := i; j < len(three); j++ {
						for k := j; k < len(three); k++ {
							if !thorough && (i+j+k)%2 != 0 {
								continue
							}
							p := &prog{init: stateInit(sn), threads: [][]step{{three[i]}, {three[j]}, {three[k]}}, seg: 2, keys: keys}
							if f := p.races(r); f != nil {
								return f
							}
						}
					}
					return nil
				}})
			}
		}
	}
	// connection set-up, logging, read-ahead of the parser, tear-down
	for i := range c11Natives {
		i := i
		out = append(out, Case{"connections/" + c11Natives[i].name, func(r *Result) *Fail {
			for j := range c11Natives {
				for k := range c11Natives {
					for _, y := range []bool{false, true} {
						m := newManager(2, 2)
						vrt.NativeYield = y
						cs := []*nconn{c11Natives[i].mk(), c11Natives[j].mk(), c11Natives[k].mk()}
						for _, c := range cs {
							c.serve(m)
						}
						f := cs[0].settle()
						vrt.NativeYield = false
						if rep := raceReport(r); rep != "" {
							return failf("connections %s, %s and %s at once: data race between %s", c11Natives[i].name, c11Natives[j].name, c11Natives[k].name, rep)
						}
						if f != nil {
							r.count("programs_ended_by_other_failures", 1)
						}
						r.Schedules++
						r.States++
						r.Traces++
						r.Trans += 3
					}
				}
			}
			r.sample(func() string { return "connections of kind " + c11Natives[i].name + " with every pair of others" })
			return nil
		}})
	}
	return out
}

func init() {
	checks["C11"] = &Check{Level: "model_checking", Race: true, Rule: concRule + "; every explored execution of all pairs of 103 requests from 16 initial states, of two clients with two requests over two databases, of three clients, and of natively interleaved connections being set up, logging, failing and torn down is observed by the happens-before race detector with the scheduler's own hand-offs hidden, so that a report needs two accesses which the program's own synchronisation leaves unordered", Cases: c11Cases, Assume: []string{"bounded: programs and initial states as listed in DESIGN.md", "races are those of the Go memory model as the race detector decides them on each explored execution"}}
}
