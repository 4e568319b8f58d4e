package main

import (
	"fmt"
	"strconv"

	"gRedis/server"
	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// bytes that would end a reply early or forge another one
var forge = []string{"", "\r\n", "\r", "\n", "a\r\n:1\r\n", "x\r\n+OK\r\n", "$-1\r\n", "*1\r\n$1\r\na\r\n", "%s%d%!", "\x00", "\xff\xfe", "\r\n\r\n-ERR x", "a\nb", "'", "é"}

func c15Prep() [][]string {
	var out [][]string
	for _, s := range prep("SET s abc;SET n 5;HSET h f 1 g 2;RPUSH l a b a;SADD z a f 1;SETEX t 100 v") {
		out = append(out, s)
	}
	out = append(out, []string{"SET", "a\r\n:1\r\n", "x\r\n+OK\r\n"}, []string{"HSET", "\r\n", "\r\n", "\n"}, []string{"RPUSH", "a\nb", "\r", "\r\n-ERR x"}, []string{"SADD", "\x00", "a\r\n:1\r\n", "\r\n"})
	return out
}

// marked sends every request followed by a marker and checks that exactly one
// well-formed reply stands before each marker.
type marked struct {
	m    *server.Manager
	reqs [][]string
	n    int
	r    *Result
}

func (k *marked) flush() *Fail {
	if len(k.reqs) == 0 {
		return nil
	}
	var all []byte
	for i, q := range k.reqs {
		all = append(all, encode(q)...)
		all = append(all, encode([]string{"PING", fmt.Sprintf("marker-%d-%d", k.n, i)})...)
	}
	vrt.SetClock(vrt.ClockBase)
	m := newManager(2, 2)
	pre, _ := encodeAll(c15Prep())
	c := newNconn()
	c.pieces = whole(pre)
	if f := c.run(m); f != nil {
		return f
	}
	c = newNconn()
	c.pieces = whole(all)
	k.r.Traces++
	k.r.Trans += int64(2 * len(k.reqs))
	if f := c.run(m); f != nil {
		if len(k.reqs) > 1 { // find the request
			rs := k.reqs
			for _, q := range rs {
				k.reqs = [][]string{q}
				if g := k.flush(); g != nil {
					return g
				}
			}
		}
		f.What = quoteArgs(k.reqs[0]) + ": " + f.What
		return f
	}
	b := c.out
	for i, q := range k.reqs {
		k.r.States++
		l := vrt.ReplyLen(b)
		if l <= 0 {
			return failf("request %s gets no well-formed reply: %q", quoteArgs(q), clip(string(b)))
		}
		rp, err := model.ParseReply(b[:l])
		if err != nil {
			return failf("request %s gets the malformed reply %q: %v", quoteArgs(q), clip(string(b[:l])), err)
		}
		b = b[l:]
		want := fmt.Sprintf("marker-%d-%d", k.n, i)
		l = vrt.ReplyLen(b)
		mk := model.Reply{}
		if l > 0 {
			mk, _ = model.ParseReply(b[:l])
		}
		if mk.T != '$' && mk.T != '+' || mk.S != want {
			return failf("request %s answers %s, and what follows is not the reply to the next request but %q", quoteArgs(q), clip(rp.String()), clip(string(b)))
		}
		b = b[l:]
		k.r.sample(func() string { return quoteArgs(q) + " -> " + clip(rp.String()) })
	}
	if len(b) > 0 {
		return failf("%d bytes after the last reply (to %s): %q", len(b), quoteArgs(k.reqs[len(k.reqs)-1]), clip(string(b)))
	}
	k.reqs = k.reqs[:0]
	k.n++
	return nil
}

func (k *marked) add(q []string) *Fail {
	k.reqs = append(k.reqs, append([]string(nil), q...))
	if len(k.reqs) >= 100 {
		return k.flush()
	}
	return nil
}

// lists yields all argument lists of exactly n words.
func lists(cmd string, n int, first, rest []string, y func([]string) *Fail) *Fail {
	args := []string{cmd}
	var rec func(i int) *Fail
	rec = func(i int) *Fail {
		if i == n {
			return y(args)
		}
		pool := rest
		if i == 0 {
			pool = first
		}
		for _, w := range pool {
			args = append(args, w)
			if f := rec(i + 1); f != nil {
				return f
			}
			args = args[:len(args)-1]
		}
		return nil
	}
	return rec(0)
}

// request kinds for the sequences
var c15Kinds = []string{
	"SET k v", "GET k", "PING", "PING x", "nosuch", "GET", "RPUSH k a", "LRANGE k 0 -1", "HSET h f v", "HGETALL h", "SADD z a b", "SMEMBERS z",
	"DEL k", "KEYS *", "SELECT 1", "SELECT 9", "INCR k", "MGET k h nope", "LPOS k a COUNT x", "EXPIRE k 10", "SET k v EX nope",
}

// oneOrClosed: one reply and the marker's, or the connection was given up
// after at most one reply.
func oneOrClosed(out []byte) *Fail {
	l := 0
	if len(out) > 0 {
		if l = vrt.ReplyLen(out); l <= 0 {
			return failf("no well-formed reply: %s", show(out))
		}
		if _, err := model.ParseReply(out[:l]); err != nil {
			return failf("malformed reply %s: %v", show(out[:l]), err)
		}
	}
	if mk := string(out[l:]); mk != "" && mk != "$10\r\nthe-marker\r\n" && mk != "+the-marker\r\n" {
		return failf("the request answers %s, and what follows is not the reply to the next request but %q", show(out[:l]), mk)
	} else if mk == "" && len(out) > 0 && out[0] != '-' {
		return failf("the request and the one after it get one reply together: %s", show(out))
	}
	return nil
}

func c15Cases(thorough bool) []Case {
	var out []Case
	base := []string{"s", "h", "l", "z", "nope", "1", "-1", "a\r\n:1\r\n"}
	for _, c := range append(model.Commands(), "select", "nosuch") {
		c := c
		first := append(append([]string(nil), "s", "n", "h", "l", "z", "t", "nope", "\x00", "a\nb"), forge...)
		rest := append(append(append([]string(nil), "s", "h", "l", "z", "1", "-1", "0", "f", "a", "abc"), optWords[c]...), forge...)
		small := append(append([]string(nil), base...), optWords[c]...)
		small = append(small, "\r\n", "")
		for n := 0; n <= 5; n++ {
			n := n
			p1, p2 := first, rest
			if n == 4 && !thorough {
				p1, p2 = base, small
			}
			if n == 5 {
				p1, p2 = base[:6], small[3:]
			}
			out = append(out, Case{fmt.Sprintf("args/%s/%d", c, n), func(r *Result) *Fail {
				k := &marked{r: r}
				if f := lists(c, n, p1, p2, func(a []string) *Fail {
					if c == "setrange" && n > 1 && len(a[2]) > 7 {
						return nil
					}
					return k.add(a)
				}); f != nil {
					return f
				}
				return k.flush()
			}})
		}
	}
	// command names
	out = append(out, Case{"names", func(r *Result) *Fail {
		k := &marked{r: r}
		names := append(allStrings([]string{"\r", "\n", "a", "\x00", "%s", "+OK\r\n", "-", ":1\r\n", "$-1\r\n", "GET", " "}, 3), forge...)
		for _, a := range names {
			for _, b := range [][]string{nil, {"x"}, {"\r\n", "\n"}} {
				if f := k.add(append([]string{a}, b...)); f != nil {
					return f
				}
			}
		}
		for _, a := range names {
			if f := k.add([]string{"SELECT", a}); f != nil {
				return f
			}
			if f := k.add([]string{"PING", a}); f != nil {
				return f
			}
		}
		return k.flush()
	}})
	// all sequences of request kinds, pipelined, in lockstep, and with the parser ahead
	d := 4
	for i := range c15Kinds {
		i := i
		out = append(out, Case{"sequences/" + c15Kinds[i], func(r *Result) *Fail {
			seq := [][]string{words(c15Kinds[i])}
			var rec func() *Fail
			rec = func() *Fail {
				all, each := encodeAll(seq)
				if f := play(seq, whole(all), 0, r); f != nil {
					return f
				}
				if f := play(seq, lockstep(each, 0), len(each), r); f != nil {
					return f
				}
				if len(seq) >= 2 {
					vrt.NativeYield = true
					f := play(seq, lockstep(each, len(each[0])-1), 0, r)
					vrt.NativeYield = false
					if f != nil {
						return f
					}
				}
				if l := len(seq); l == 2 || l == 3 {
					// what has arrived of the next request holds no reply back
					for cut := 1; cut < len(each[l-1]); cut++ {
						if l == 3 && cut > 1 && cut != 4 && cut != len(each[l-1])-1 {
							continue
						}
						if f := play(seq, straddle(each, cut), len(each), r); f != nil {
							return f
						}
					}
				}
				r.Traces++
				n := d
				if thorough {
					n = d + 1
				}
				if len(seq) == n {
					return nil
				}
				for _, k := range c15Kinds {
					seq = append(seq, words(k))
					if f := rec(); f != nil {
						return f
					}
					seq = seq[:len(seq)-1]
				}
				return nil
			}
			return rec()
		}})
	}
	// replies of every size: arrays of n elements, strings of n bytes
	sizes := []int{0, 1, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 65537, 100000}
	if thorough {
		sizes = append(sizes, 131072, 262143, 262144, 999999, 1000000)
	}
	for _, n := range sizes {
		n := n
		out = append(out, Case{fmt.Sprintf("reply-size/%d", n), func(r *Result) *Fail {
			reqs := [][]string{{"SET", "k", text(n)}, {"GET", "k"}, {"STRLEN", "k"}, {"PING", text(n)}, {"GETRANGE", "k", "0", "-1"}, {"SET", "k", "x", "GET"}}
			if n > 0 {
				push, add, hset, mset, mget, del := []string{"RPUSH", "l"}, []string{"SADD", "z"}, []string{"HSET", "h"}, []string{"MSET"}, []string{"MGET"}, []string{"DEL"}
				for i := 0; i < n; i++ {
					e := strconv.Itoa(i)
					push = append(push, e)
					add = append(add, e)
					hset = append(hset, e, "v")
					if n <= 10001 {
						mset = append(mset, "key"+e, e)
						mget = append(mget, "key"+e)
						del = append(del, "key"+e)
					}
				}
				reqs = append(reqs, push, []string{"LRANGE", "l", "0", "-1"}, []string{"LPOS", "l", "0", "COUNT", "0"}, []string{"LPOP", "l", strconv.Itoa(n)}, add, []string{"SMEMBERS", "z"}, []string{"SINTER", "z", "z"}, hset, []string{"HGETALL", "h"}, []string{"HKEYS", "h"}, []string{"HVALS", "h"})
				if n <= 2048 {
					// each pick may walk the whole container
					reqs = append(reqs, []string{"SRANDMEMBER", "z", strconv.Itoa(n)}, []string{"HRANDFIELD", "h", strconv.Itoa(n), "WITHVALUES"}, []string{"SPOP", "z", strconv.Itoa(n)})
				}
				if n <= 10001 {
					reqs = append(reqs, mset, mget, []string{"KEYS", "key*"}, del)
				}
			}
			all, _ := encodeAll(reqs)
			for _, ps := range [][]piece{whole(all), chunks(all, 4096)} {
				if f := play(reqs, ps, 0, r); f != nil {
					return f
				}
			}
			r.Traces++
			return nil
		}})
	}
	// arrays with elements that are not bulk strings
	elems := []string{"$3\r\nGET\r\n", "$1\r\ns\r\n", "$-1\r\n", ":5\r\n", "+PING\r\n", "-x\r\n", "$0\r\n\r\n", "$4\r\nMSET\r\n", ":-9223372036854775808\r\n"}
	for i := range elems {
		i := i
		out = append(out, Case{fmt.Sprintf("elements/%q", elems[i]), func(r *Result) *Fail {
			m := newManager(2, 2)
			mark := encode([]string{"PING", "the-marker"})
			var rec func(s string, n int) *Fail
			rec = func(s string, n int) *Fail {
				req := fmt.Sprintf("*%d\r\n%s", n, s)
				b := append([]byte(req), mark...)
				for _, ps := range [][]piece{whole(b), cutAt(b, len(req)), chunks(b, 1)} {
					c := newNconn()
					c.pieces = ps
					f := c.run(m)
					if f == nil {
						f = oneOrClosed(c.out)
					}
					if f != nil {
						f.What = "client bytes " + show(b) + ": " + f.What
						return f
					}
					r.States++
					r.Trans += int64(len(ps))
				}
				r.Traces++
				if n == 4 && !thorough || n == 5 {
					return nil
				}
				for _, e := range elems {
					if f := rec(s+e, n+1); f != nil {
						return f
					}
				}
				return nil
			}
			return rec(elems[i], 1)
		}})
	}
	// large and nested replies stay contiguous while another connection is served
	out = append(out, Case{"two-connections", func(r *Result) *Fail {
		var a, b [][]string
		for i := 0; i < 60; i++ {
			a = append(a, []string{"RPUSH", "la", pattern(i * 37)}, []string{"LRANGE", "la", "0", "-1"}, []string{"GET", "la"})
			b = append(b, []string{"SADD", "sb", fmt.Sprint(i)}, []string{"SMEMBERS", "sb"}, []string{"bad\r\nname"})
		}
		for _, y := range []bool{false, true} {
			vrt.NativeYield = y
			m := newManager(2, 2)
			c1, c2 := newNconn(), newNconn()
			x, xe := encodeAll(a)
			_, ye := encodeAll(b)
			_ = xe
			c1.pieces = chunks(x, 3)
			c2.pieces, c2.endAt = lockstep(ye, 0), len(b)
			c1.serve(m)
			c2.serve(m)
			if f := c1.settle(); f != nil {
				return f
			}
			vrt.NativeYield = false
			if f := newDbs(2).compare(a, c1.out); f != nil {
				return f
			}
			if f := newDbs(2).compare(b, c2.out); f != nil {
				return f
			}
			r.States += 2
			r.Trans += int64(len(a) + len(b))
			r.Traces++
		}
		return nil
	}})
	return out
}

func init() {
	checks["C15"] = &Check{Level: "model_checking", Rule: "every command with every argument list up to 3 words (4 and 5 over smaller pools) over valid words, option words and 15 reply-forging byte strings, pipelined with a marker request after each: exactly one strictly parsed RESP value must stand before each marker's own reply and nothing after the last; all command names over 11 tokens up to length 3; all arrays of up to 4 (5) elements of 9 kinds including null bulk strings, integers and simple strings; all sequences of up to 4 (5 in the thorough tier) of 21 kinds of requests, pipelined, in lockstep, with requests cut and with the beginning of the next request (cut everywhere) already there, compared reply by reply with the reference model", Cases: c15Cases, Assume: []string{"bounded: pools and lengths as stated", "requests are RESP arrays with at least one element", "PING with an argument answers it (used as marker)"}}
}
