package main

import (
	"fmt"
	"strings"
	"time"

	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// awkward bytes
var oddBytes = []string{"\r", "\n", "\x00", "a", "$", "*", "0", "\xff", " ", "-", ":", "+"}

// templates put V into every kind of argument position and read it back
var c14Templates = []struct{ name, cmds string }{
	{"set-get", "SET k V;GET k;STRLEN k"},
	{"key", "SET V 1;GET V;EXISTS V;TYPE V;KEYS *;DEL V;KEYS *"},
	{"rename", "SET k 1;RENAME k V;KEYS *;RENAME V W;KEYS *"},
	{"hash", "HSET h V V;HGET h V;HGETALL h;HKEYS h;HVALS h;HEXISTS h V;HSTRLEN h V;HMGET h V x V;HDEL h V;HLEN h"},
	{"list", "RPUSH l V x V;LRANGE l 0 -1;LINDEX l 0;LPOS l V;LINSERT l BEFORE V y;LSET l 1 V;LREM l 0 V;LRANGE l 0 -1;LPUSH l V;RPUSH l V;LPOP l;RPOP l"},
	{"listkey", "RPUSH V a;LLEN V;LMOVE V V LEFT RIGHT;LPUSHX V b;RPOP V"},
	{"set", "SADD s V;SISMEMBER s V;SMEMBERS s;SMOVE s t V;SUNION s t;SRANDMEMBER t;SPOP t;SREM s V"},
	{"setkey", "SADD V V x;SINTERSTORE W V V;SMEMBERS W;SDIFF V W;SCARD V"},
	{"append", "SET k ab;APPEND k V;GET k;APPEND k V;STRLEN k;GET k"},
	{"neighbours", "MSET a V b W c V;APPEND a x;APPEND a yz;MGET a b c;RPUSH l V W;APPEND b q;LRANGE l 0 -1;HSET h f V g W;APPEND a V;HGETALL h;MGET a b c"},
	{"setrange", "SET k abcdef;SETRANGE k 2 V;GET k;GETRANGE k 1 4"},
	{"mset", "MSET V 1 b V;MGET V b x;MGET b V"},
	{"getset", "SET k V NX;SET k V XX GET;GETDEL k;SETNX k V;GET k"},
	{"ping", "PING V;PING;PING V"},
	{"unknown", "SET k 1;V;GET k;V x;GET k"},
	{"badopt", "SET k 1;SET k 2 V;GET k;LPOS k V V V;EXPIRE k V;GET k"},
	{"number", "SET k V;INCR k;GET k;INCRBYFLOAT k V;HINCRBY h f V;SELECT V;GET k"},
}

func tmplReqs(s, v, w string) [][]string {
	var out [][]string
	for _, c := range strings.Split(s, ";") {
		a := strings.Fields(c)
		for i := range a {
			switch a[i] {
			case "V":
				a[i] = v
			case "W":
				a[i] = w
			}
		}
		out = append(out, a)
	}
	return out
}

// deliveries runs reqs under a family of deliveries.
func deliveries(reqs [][]string, level int, r *Result) *Fail {
	all, each := encodeAll(reqs)
	r.Traces++
	try := func(ps []piece, end int) *Fail { return play(reqs, ps, end, r) }
	if f := try(whole(all), 0); f != nil {
		return f
	}
	if f := try(chunks(all, 1), 0); f != nil {
		return f
	}
	if level >= 1 {
		if f := try(lockstep(each, 0), len(each)); f != nil {
			return f
		}
		vrt.NativeYield = true
		f := try(whole(all), 0)
		if f == nil {
			f = try(chunks(all, 1), len(each))
		}
		vrt.NativeYield = false
		if f != nil {
			f.What += " (parser running ahead of the executor)"
			return f
		}
		for i := 1; i < len(all); i++ {
			if f := try(cutAt(all, i), 0); f != nil {
				return f
			}
		}
	}
	if level >= 2 {
		mx := 0
		for _, e := range each {
			if len(e) > mx {
				mx = len(e)
			}
		}
		for i := 1; i < mx; i++ {
			if f := try(lockstep(each, i), len(each)); f != nil {
				return f
			}
		}
		for n := 2; n < len(all); n++ {
			if f := try(chunks(all, n), 0); f != nil {
				return f
			}
		}
		for i := 1; i < len(all); i++ {
			for j := i + 1; j < len(all); j++ {
				if f := try(cutAt(all, i, j), 0); f != nil {
					return f
				}
			}
		}
	}
	if level >= 3 {
		for i := 1; i < len(all); i++ {
			for j := i + 1; j < len(all); j++ {
				for k := j + 1; k < len(all); k++ {
					if f := try(cutAt(all, i, j, k), 0); f != nil {
						return f
					}
				}
			}
		}
	}
	r.sample(func() string { return showReqs(reqs) + " in every delivery of its level" })
	return nil
}

// curated request streams for all pairs (and triples) of cuts
var c14Streams = []string{
	"SET k V;GET k;PING",
	"SET a V;SET b W;GET a;GET b",
	"PING;nosuch V;PING V",
	"HSET h V W;HGETALL h",
	"RPUSH l V W V;LRANGE l 0 -1",
	"MSET V W W V;MGET V W",
	"SET k V W;SELECT 1;SET k x;SELECT 0;GET k",
	"V;V V;V V V",
	"KEYS *;SADD V V W;KEYS *;SMEMBERS V",
	"APPEND k V;APPEND k W;GET k",
}

var c14Pairs = [][2]string{{"abc", "xyz12"}, {"", "\r\n"}, {"\r\n", ""}, {"$3\r\nabc\r\n", "*1\r\n$4\r\nPING\r\n"}, {"\x00\xff", "-ERR x\r\n"}, {"\n", "\r"}, {"a\r\n", "+OK\r\n"}}

// long argument sizes around powers of two
func longSizes(thorough bool) []int {
	var out []int
	for _, b := range []int{16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
		w := 3
		if b == 4096 || thorough {
			w = 40
		}
		for d := -w; d <= w; d++ {
			if b+d > 0 {
				out = append(out, b+d)
			}
		}
	}
	return out
}

func pattern(n int) string {
	// no short period, and line ends inside
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%x\r\n", i*2654435761%1000003)
	}
	return b.String()[:n]
}

func c14Cases(thorough bool) []Case {
	var out []Case
	// every value up to three bytes in every position
	depth := 3
	vals := allStrings(oddBytes, depth)
	if thorough {
		vals = append(vals, allStrings([]string{"\r", "\n", "$", "a", "\x00", "1"}, 5)...)
	}
	for _, t := range c14Templates {
		for lo := 0; lo < len(vals); lo += 400 {
			t, lo := t, lo
			hi := min(lo+400, len(vals))
			out = append(out, Case{fmt.Sprintf("values/%s/%d", t.name, lo), func(r *Result) *Fail {
				for _, v := range vals[lo:hi] {
					lv := 0
					if len(v) <= 2 || thorough && len(v) == 3 {
						lv = 1
					}
					if f := deliveries(tmplReqs(t.cmds, v, "w"), lv, r); f != nil {
						return f
					}
				}
				return nil
			}})
		}
	}
	// all one-byte arguments
	out = append(out, Case{"all-bytes", func(r *Result) *Fail {
		for b := 0; b < 256; b++ {
			for _, t := range c14Templates {
				if f := deliveries(tmplReqs(t.cmds, string([]byte{byte(b)}), "w"), 0, r); f != nil {
					return f
				}
			}
		}
		return nil
	}})
	out = append(out, Case{"all-byte-pairs", func(r *Result) *Fail {
		for a := 0; a < 256; a++ {
			var reqs [][]string
			for b := 0; b < 256; b++ {
				v := string([]byte{byte(a), byte(b)})
				reqs = append(reqs, []string{"SET", "k", v}, []string{"GET", "k"}, []string{"HSET", "h", v, v}, []string{"HGET", "h", v}, []string{"RPUSH", v, v}, []string{"LPOP", v})
			}
			all, _ := encodeAll(reqs)
			if f := play(reqs, whole(all), 0, r); f != nil {
				return f
			}
		}
		return nil
	}})
	// all pairs of cuts of curated streams
	for i, s := range c14Streams {
		for j, p := range c14Pairs {
			s, p := s, p
			lv := 2
			if thorough && (i+j)%4 == 0 {
				lv = 3
			}
			out = append(out, Case{fmt.Sprintf("cuts/%d/%d", i, j), func(r *Result) *Fail {
				return deliveries(tmplReqs(s, p[0], p[1]), lv, r)
			}})
		}
	}
	// every letter case of every command name
	for _, c := range append(model.Commands(), "select") {
		c := c
		out = append(out, Case{"case/" + c, func(r *Result) *Fail {
			lo, _ := model.Arity(c)
			if c == "select" {
				lo = 2
			}
			base := map[string][]string{"set": {"k", "v"}, "select": {"1"}, "setrange": {"k", "1", "x"}, "lmove": {"l", "l2", "LEFT", "RIGHT"}, "linsert": {"l", "BEFORE", "a", "b"}, "hincrbyfloat": {"h", "g", "1"}, "hincrby": {"h", "g", "1"}, "incrby": {"n", "1"}, "decrby": {"n", "1"}, "incrbyfloat": {"n", "1"}, "expire": {"k", "100"}, "setex": {"k", "100", "v"}, "lindex": {"l", "0"}, "lset": {"l", "0", "q"}, "lrange": {"l", "0", "-1"}, "ltrim": {"l", "0", "-1"}, "lrem": {"l", "0", "q"}, "getrange": {"k", "0", "1"}}[c]
			if base == nil {
				for i := 1; i < lo; i++ {
					base = append(base, "k")
				}
			}
			var reqs [][]string
			for m := 0; m < 1<<len(c); m++ {
				b := []byte(c)
				for i := range b {
					if m>>i&1 == 1 {
						b[i] -= 32
					}
				}
				reqs = append(reqs, append([]string{string(b)}, base...))
			}
			// in slices of 64: replies and state depend on the earlier ones
			for i := 0; i < len(reqs); i += 64 {
				rs := append([][]string{{"RPUSH", "l", "a", "q"}, {"SET", "k2", "1"}}, reqs[i:min(i+64, len(reqs))]...)
				all, _ := encodeAll(rs)
				if f := play(rs, whole(all), 0, r); f != nil {
					return f
				}
			}
			r.sample(func() string { return fmt.Sprintf("%d spellings of %s", len(reqs), c) })
			return nil
		}})
	}
	// long arguments, whole and cut near the usual buffer sizes
	for _, n := range longSizes(thorough) {
		n := n
		out = append(out, Case{fmt.Sprintf("long/%d", n), func(r *Result) *Fail {
			v := pattern(n)
			reqs := [][]string{{"SET", "k", v}, {"GET", "k"}, {"SET", v, "x"}, {"SET", "k2", "y" + v}, {"GET", "k"}, {"GET", v}, {"GET", "k2"}, {"STRLEN", "k"}, {"RPUSH", "l", v, "", v}, {"LRANGE", "l", "0", "-1"}, {v, v}, {"PING", v}}
			all, each := encodeAll(reqs)
			sets := [][]piece{whole(all), lockstep(each, 0), chunks(all, 1000), chunks(all, 4096), chunks(all, 4095), chunks(all, 1460), lockstep(each, 5), lockstep(each, n)}
			if n <= 5000 {
				sets = append(sets, chunks(all, 1))
			}
			for i, ps := range sets {
				end := 0
				if i == 1 {
					end = len(each)
				}
				if f := play(reqs, ps, end, r); f != nil {
					return f
				}
			}
			r.Traces++
			return nil
		}})
	}
	for _, n := range []int{1<<20 - 3, 1<<20 - 2, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 3, 2<<20 - 2, 2 << 20, 2<<20 + 1, 5<<20 + 7} {
		n := n
		out = append(out, Case{fmt.Sprintf("long/%d", n), func(r *Result) *Fail {
			v := pattern(n)
			reqs := [][]string{{"SET", "k", v}, {"GET", "k"}, {"STRLEN", "k"}, {"APPEND", "k", "x"}, {"GETRANGE", "k", "1048570", "1048590"}}
			all, _ := encodeAll(reqs)
			for _, ps := range [][]piece{whole(all), chunks(all, 65536), chunks(all, 100003)} {
				if f := play(reqs, ps, 0, r); f != nil {
					return f
				}
			}
			r.Traces++
			return nil
		}})
	}
	// a request at every offset around the usual buffer boundaries
	for _, b := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
		for _, tail := range c14Streams {
			b, tail := b, tail
			out = append(out, Case{fmt.Sprintf("offset/%d/%s", b, tail), func(r *Result) *Fail {
				for k, p := range c14Pairs {
					if k > 0 && b != 4096 && !thorough {
						break
					}
					reqs := tmplReqs(tail, p[0], p[1])
					tl, _ := encodeAll(reqs)
					for d := 0; d <= len(tl)+2; d++ {
						n := b - d
						if n < 64 {
							break
						}
						// SET pad <n bytes in total>
						pad := 0
						for pad = n - 40; len(encode([]string{"SET", "pad", strings.Repeat("p", max(pad, 0))})) < n; pad++ {
						}
						rs := append([][]string{{"SET", "pad", strings.Repeat("p", max(pad, 0))}}, reqs...)
						all, _ := encodeAll(rs)
						if f := play(rs, whole(all), 0, r); f != nil {
							return f
						}
						if f := play(rs, chunks(all, b), 0, r); f != nil {
							return f
						}
					}
				}
				r.Traces++
				return nil
			}})
		}
	}
	// many arguments
	for _, n := range []int{1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 100001} {
		n := n
		out = append(out, Case{fmt.Sprintf("args/%d", n), func(r *Result) *Fail {
			a := []string{"RPUSH", "l"}
			k := []string{"DEL"}
			m := []string{"SADD", "s"}
			for i := 0; i < n; i++ {
				a = append(a, fmt.Sprint(i))
				k = append(k, fmt.Sprint("k", i))
				m = append(m, fmt.Sprint(i%1000))
			}
			reqs := [][]string{a, {"LLEN", "l"}, {"LRANGE", "l", "0", "20"}, {"LINDEX", "l", "-1"}, {"SET", "k0", "x"}, k, {"GET", "k0"}, m, {"SCARD", "s"}, {"PING"}}
			all, each := encodeAll(reqs)
			for i, ps := range [][]piece{whole(all), chunks(all, 777), lockstep(each, 3)} {
				end := 0
				if i == 2 {
					end = len(each)
				}
				if f := play(reqs, ps, end, r); f != nil {
					return f
				}
			}
			r.Traces++
			return nil
		}})
	}
	// pipelining depth
	// slow clients
	sec := int64(time.Second)
	pauses := []int64{1 * sec, 11 * sec, 61 * sec, 301 * sec, 601 * sec, 3601 * sec, 86401 * sec, 400 * 86400 * sec}
	for i, s := range []string{"SET k V;GET k", "RPUSH l V W;PING;LRANGE l 0 -1", "SELECT 1;SET k V;GET k", "HSET h f V;HGET h f;DEL h;EXISTS h", "PING;PING V;nosuch"} {
		reqs := tmplReqs(s, "a\r\nb", "")
		all, each := encodeAll(reqs)
		out = append(out, Case{fmt.Sprintf("slow/%d", i), func(r *Result) *Fail {
			for _, p := range pauses {
				// between the requests, the client waiting for its replies
				for k := 0; k <= len(each); k++ {
					ps := lockstep(each, 0)
					for j := range ps {
						if j == k || k == len(each) {
							ps[j].pause = p
						}
					}
					if f := play(reqs, ps, len(each), r); f != nil {
						f.What = fmt.Sprintf("with a pause of %d s, ", p/sec) + f.What
						return f
					}
				}
				// at any byte
				for k := 0; k < len(all); k++ {
					ps := whole(all)
					if k > 0 {
						ps = cutAt(all, k)
					}
					ps[len(ps)-1].pause = p
					if f := play(reqs, ps, 0, r); f != nil {
						f.What = fmt.Sprintf("with a pause of %d s, ", p/sec) + f.What
						return f
					}
				}
				// at every byte
				ps := chunks(all, 1)
				for j := range ps {
					ps[j].pause = p
				}
				if f := play(reqs, ps, 0, r); f != nil {
					f.What = fmt.Sprintf("with pauses of %d s, ", p/sec) + f.What
					return f
				}
			}
			return nil
		}})
	}
	out = append(out, Case{"pipeline", func(r *Result) *Fail {
		for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000, 2000, 20000} {
			var reqs [][]string
			for i := 0; i < n; i++ {
				switch i % 5 {
				case 0:
					reqs = append(reqs, []string{"RPUSH", "l", fmt.Sprint("v", i)})
				case 1:
					reqs = append(reqs, []string{"SET", fmt.Sprint("k", i%7), pattern(i % 50)})
				case 2:
					reqs = append(reqs, []string{"GET", fmt.Sprint("k", i%7)})
				case 3:
					reqs = append(reqs, []string{"nosuch", fmt.Sprint(i)})
				case 4:
					reqs = append(reqs, []string{"PING", fmt.Sprint(i)})
				}
			}
			all, each := encodeAll(reqs)
			for _, y := range []bool{false, true} {
				vrt.NativeYield = y
				for i, ps := range [][]piece{whole(all), chunks(all, 7), chunks(all, 1000), lockstep(each, 0)} {
					end := 0
					if i == 3 {
						end = n
					}
					if f := play(reqs, ps, end, r); f != nil {
						return f
					}
				}
			}
			vrt.NativeYield = false
		}
		r.Traces++
		return nil
	}})
	return out
}

func init() {
	checks["C14"] = &Check{Level: "model_checking", Rule: "enumeration of (request stream, delivery) pairs on the real parser and connection handler: all values up to 3 bytes over 12 awkward bytes in every argument position of 16 command templates, delivered whole, byte by byte, in lockstep and cut at every byte; all pairs of cuts (triples in the thorough tier) and all chunk sizes of curated streams; every letter-case spelling of every command name; arguments of 1 byte to 5 MB around buffer sizes; requests at every offset around buffer boundaries; up to 100001 arguments and 20000 pipelined requests; pauses of 8 lengths (1 s to 400 days) at every byte. Replies and data are compared with the reference model", Cases: c14Cases, Assume: []string{"bounded: the streams and deliveries listed", "the network delivers bytes in order without loss (TCP)", "error wording is not compared"}}
}
