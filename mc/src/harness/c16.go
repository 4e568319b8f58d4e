package main

import (
	"fmt"
	"strconv"
	"strings"

	"gRedis/server"
	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// abuse feeds streams to connections of one server that also holds data of
// somebody else.
type abuse struct {
	r    *Result
	m    *server.Manager
	d    dbs
	last [][]byte // streams since the data was last looked at
	n    int
}

const allocSlack = 64 << 20

var sentinelReqs = [][]string{
	{"SET", "sentinel:string", "value \r\n\x00"}, {"HSET", "sentinel:hash", "f1", "v1", "f2", "v2"}, {"RPUSH", "sentinel:list", "a", "b", "c"},
	{"SADD", "sentinel:set", "m1", "m2"}, {"SETEX", "sentinel:ttl", "1000", "x"}, {"SET", "sentinel:" + strings.Repeat("a", 60), "long"},
}

var sentinelProbe = [][]string{
	{"GET", "sentinel:string"}, {"HGETALL", "sentinel:hash"}, {"LRANGE", "sentinel:list", "0", "-1"}, {"SMEMBERS", "sentinel:set"},
	{"TTL", "sentinel:ttl"}, {"GET", "sentinel:ttl"}, {"KEYS", "sentinel:*"}, {"SET", "sentinel:string", "value \r\n\x00"},
	{"HSET", "sentinel:hash", "f1", "v1"}, {"LSET", "sentinel:list", "0", "a"}, {"SADD", "sentinel:set", "m1"}, {"PING"},
}

var sentinelStream, _ = encodeAll(sentinelProbe)

func (a *abuse) fresh() *Fail {
	vrt.SetClock(vrt.ClockBase)
	a.m = newManager(2, 2)
	a.d = newDbs(2)
	pre, _ := encodeAll(sentinelReqs)
	c := newNconn()
	c.pieces = whole(pre)
	if f := c.run(a.m); f != nil {
		return f
	}
	if f := a.d.compare(sentinelReqs, c.out); f != nil {
		return f
	}
	// and something for the streams to work on
	c = newNconn()
	p, _ := encodeAll(c15Prep())
	c.pieces = whole(p)
	return c.run(a.m)
}

// look checks the other client's data.
func (a *abuse) look() *Fail {
	c := newNconn()
	c.pieces, c.endAt = whole(sentinelStream), len(sentinelProbe)
	f := c.run(a.m)
	if f == nil {
		d := dbs{a.d[0].Clone(), a.d[1].Clone()}
		f = d.compare(sentinelProbe, c.out)
	}
	return f
}

func show(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%q...%q (%d bytes)", b[:100], b[len(b)-60:], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// feed serves one stream; nreq is an upper bound of the requests in it.
func (a *abuse) feed(stream []byte, nreq int) *Fail {
	if a.m == nil {
		if f := a.fresh(); f != nil {
			return f
		}
	}
	a.r.States++
	a.r.Trans += int64(len(stream))
	before := allocated()
	c := newNconn()
	c.pieces = whole(stream)
	f := c.run(a.m)
	used := allocated() - before
	if f == nil && c.closed == 0 {
		f = failf("the handler ends without closing the connection")
	}
	if limit := uint64(allocSlack + 1000*len(stream) + nreq*4<<20); f == nil && used > limit {
		f = failf("%d bytes of input make the server allocate %d MB", len(stream), used>>20)
	}
	if f != nil {
		f.What = "client bytes " + show(stream) + ": " + f.What
		return f
	}
	a.r.sample(func() string { return show(stream) })
	a.last = append(a.last, stream)
	if len(a.last) >= 64 {
		return a.flush()
	}
	return nil
}

func (a *abuse) flush() *Fail {
	if len(a.last) == 0 {
		return nil
	}
	f := a.look()
	l := a.last
	a.last = nil
	a.r.Traces++
	a.n++
	if f != nil && len(l) > 1 {
		for _, s := range l { // find the stream
			b := &abuse{r: a.r}
			if g := b.feed(s, 1000); g != nil {
				return g
			}
			if g := b.flush(); g != nil {
				return g
			}
		}
	}
	if f != nil {
		f.What = "after client bytes " + show(l[len(l)-1]) + " on another connection: " + f.What
	}
	if a.n%50 == 0 {
		a.m = nil
	}
	return f
}

var c16Tokens = []string{
	"*1\r\n", "*2\r\n", "*3\r\n", "*0\r\n", "*-1\r\n", "*-2\r\n", "*x\r\n", "*\r\n", "*1000000000\r\n", "*2147483648\r\n", "*9223372036854775807\r\n",
	"$4\r\n", "$1\r\n", "$0\r\n", "$-1\r\n", "$-2\r\n", "$x\r\n", "$\r\n", "$536870912\r\n", "$536870913\r\n", "$9223372036854775807\r\n",
	"GET\r\n", "k\r\n", "PING\r\n", "\r\n", "\n", "\r", "+OK\r\n", "-ERR\r\n", ":1\r\n", ":x\r\n", "+\r\n", "PING", "\x00", "*1\n", "$4\n",
	"*1\r\n$4\r\nPING\r\n", "*2\r\n$3\r\nGET\r\n$1\r\ns\r\n", "$9223372036854775806\r\n", "*4611686018427387904\r\n",
}

var c16Base = []string{
	"SET k v;GET k;PING", "HSET h f v;HGETALL h", "RPUSH l a b;LRANGE l 0 -1", "SADD z a;SMEMBERS z;nosuch x", "MSET a 1 b 2;MGET a b;SELECT 1", "LPOS l a RANK 1;SPOP z 2",
}

// absurd numbers (none of which legitimately asks for much memory)
var c16Numbers = []string{
	"9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999999999", "1e400", "-1e400", "nan", "inf", "-inf", "0x7fffffff", "1e308",
	"4294967296", "-4294967296", "2147483647", "-2147483648", "536870913", "1048577", "-1048577", "0", "-1", "1", "", "1_000", "0.1", " 1",
}

var malformTargets = []string{
	"SET s NEW", "SET new1 V", "DEL s h l", "MSET s 1 n 2 new2 3", "RPUSH l x y", "SADD z x", "HSET h f NEW", "RENAME s n", "INCR n", "EXPIRE s 100", "SETRANGE s 0 0123456789", "SELECT 1",
}

// malformed breaks the frame of req at every place in every way that no
// reader of the protocol can take for a request, and looks whether it was
// executed all the same.
func malformed(req []string, r *Result) *Fail {
	enc := encode(req)
	// byte by byte: l a length, c, d the CR and LF of a header line, C, D
	// those after a payload, t a type byte, . payload
	var kind []byte
	for i := 0; i < len(enc); {
		kind = append(kind, 't')
		for i++; enc[i] != '\r'; i++ {
			kind = append(kind, 'l')
		}
		kind = append(kind, 'c', 'd')
		j := i
		for kind[j-1] == 'l' {
			j--
		}
		n, _ := strconv.Atoi(string(enc[j:i])) // the stated length
		if i += 2; strings.Count(string(kind), "t") > 1 {
			kind = append(kind, strings.Repeat(".", n)+"CD"...)
			i += n + 2
		}
	}
	vrt.SetClock(vrt.ClockBase)
	var m *server.Manager
	var want []byte
	n := 0
	probe, _ := encodeAll([][]string{
		{"GET", "s"}, {"GET", "n"}, {"HGETALL", "h"}, {"LRANGE", "l", "0", "-1"}, {"SCARD", "z"}, {"TTL", "s"}, {"EXISTS", "new1", "new2", "x", "V", "NEW"}, {"TYPE", "new1"},
	})
	look := func() ([]byte, *Fail) {
		c := newNconn()
		c.pieces = whole(probe)
		f := c.run(m)
		return c.out, f
	}
	try := func(b []byte) *Fail {
		if m == nil {
			m = newManager(2, 2)
			c := newNconn()
			p, _ := encodeAll(c15Prep())
			c.pieces = whole(p)
			f := c.run(m)
			if f == nil {
				want, f = look()
			}
			if f != nil {
				return f
			}
		}
		c := newNconn()
		c.pieces = whole(b)
		f := c.run(m)
		var got []byte
		if f == nil {
			got, f = look()
		}
		if f == nil && string(got) != string(want) {
			f = failf("the malformed request is executed: the data now reads %s, before %s", show(got), show(want))
		}
		// with SELECT there is no data to look at
		if f == nil && req[0] == "SELECT" && strings.Contains(string(c.out), "+OK") {
			f = failf("the malformed request is executed: the server answers %s", show(c.out))
		}
		if f != nil {
			f.What = "client bytes " + show(b) + ": " + f.What
			return f
		}
		r.States++
		r.Trans += int64(len(b))
		n++
		return nil
	}
	set := func(i int, x byte) []byte {
		b := append([]byte(nil), enc...)
		b[i] = x
		return b
	}
	for i, k := range kind {
		for x := 0; x < 256; x++ {
			x := byte(x)
			if x == enc[i] {
				continue
			}
			switch k {
			case 'C', 'D', 'c', 'd':
			case 'l':
				if x >= '0' && x <= '9' || x == '+' || x == '-' || x == '\n' {
					continue
				}
			case 't':
				if strings.IndexByte("*$+-:", x) >= 0 || x == '\n' {
					continue
				}
			default:
				continue
			}
			if f := try(set(i, x)); f != nil {
				return f
			}
			if k == 'C' {
				// both bytes of the end wrong
				b := set(i, x)
				b[i+1] = x
				if f := try(b); f != nil {
					return f
				}
			}
		}
		if k == 'C' {
			// the payload longer or shorter than stated, the end of the
			// line missing
			for _, ins := range []string{"x", "\n", "\r", "xx", "x\r"} {
				if f := try(append(append(append([]byte(nil), enc[:i]...), ins...), enc[i:]...)); f != nil {
					return f
				}
			}
			if f := try(append(append([]byte(nil), enc[:i]...), enc[i+1:]...)); f != nil {
				return f
			}
			if f := try(append(append([]byte(nil), enc[:i]...), enc[i+2:]...)); f != nil {
				return f
			}
			if kind[i-1] == '.' {
				if f := try(append(append([]byte(nil), enc[:i-1]...), enc[i:]...)); f != nil {
					return f
				}
			}
		}
	}
	splice := func(i, j int, x string) *Fail {
		return try(append(append(append([]byte(nil), enc[:i]...), x...), enc[j:]...))
	}
	for i, k := range kind {
		if k != 't' {
			continue
		}
		// lengths that are no decimal number, or negative
		j := i + 1
		for kind[j] == 'l' {
			j++
		}
		for _, pre := range []string{" ", "\t", "0x", "0o", "0b0", "_", "(", "\x00", "--", "+-", "1e0", "."} {
			if f := splice(i+1, i+1, pre); f != nil {
				return f
			}
		}
		for _, post := range []string{" ", "\t", ".0", "e0", "_", "_0", "\x00", "L", "%", "\r"} {
			if f := splice(j, j, post); f != nil {
				return f
			}
		}
		for _, neg := range []string{"-2", "-3", "-9", "-2147483648", "-9223372036854775808"} {
			if f := splice(i+1, j, neg); f != nil {
				return f
			}
		}
		if i == 0 {
			continue
		}
		// what is no element between two elements
		for _, line := range []string{"?x\r\n", "!\r\n", "hello\r\n", "GET\r\n", "#t\r\n", "_\r\n", "x\r\n", ":x\r\n", ":\r\n", "$x\r\n"} {
			if f := splice(i, i, line); f != nil {
				return f
			}
		}
	}
	r.Traces += int64(n)
	return nil
}

func c16Cases(thorough bool) []Case {
	var out []Case
	// all token streams
	depth := 4
	if thorough {
		depth = 5
	}
	for i := range c16Tokens {
		for j := range c16Tokens {
			pre := c16Tokens[i] + c16Tokens[j]
			out = append(out, Case{fmt.Sprintf("tokens/%q", pre), func(r *Result) *Fail {
				a := &abuse{r: r}
				var rec func(s string, d int) *Fail
				rec = func(s string, d int) *Fail {
					if f := a.feed([]byte(s), 4); f != nil {
						return f
					}
					if d == 0 {
						return nil
					}
					for _, t := range c16Tokens {
						if f := rec(s+t, d-1); f != nil {
							return f
						}
					}
					return nil
				}
				if f := rec(pre, depth-2); f != nil {
					return f
				}
				return a.flush()
			}})
		}
	}
	// all raw strings
	out = append(out, Case{"raw/256", func(r *Result) *Fail {
		a := &abuse{r: r}
		for i := 0; i < 256; i++ {
			if f := a.feed([]byte{byte(i)}, 0); f != nil {
				return f
			}
			for j := 0; j < 256; j++ {
				if f := a.feed([]byte{byte(i), byte(j)}, 0); f != nil {
					return f
				}
				if f := a.feed([]byte{byte(i), byte(j), '\r', '\n'}, 1); f != nil {
					return f
				}
			}
		}
		return a.flush()
	}})
	rd := 6
	if thorough {
		rd = 7
	}
	rb := []string{"\r", "\n", "*", "$", "1", "-", "+", ":", "a"}
	for _, x := range rb {
		for _, y := range rb {
			pre := x + y
			out = append(out, Case{fmt.Sprintf("raw/9/%q", pre), func(r *Result) *Fail {
				a := &abuse{r: r}
				var rec func(s string, d int) *Fail
				rec = func(s string, d int) *Fail {
					if f := a.feed([]byte(s), 2); f != nil {
						return f
					}
					if d == 0 {
						return nil
					}
					for _, t := range rb {
						if f := rec(s+t, d-1); f != nil {
							return f
						}
					}
					return nil
				}
				if f := rec(pre, rd-2); f != nil {
					return f
				}
				return a.flush()
			}})
		}
	}
	// mutations of well-formed streams
	for bi, s := range c16Base {
		all, _ := encodeAll(tmplReqs(s, "", ""))
		bi := bi
		out = append(out, Case{fmt.Sprintf("mutate/%d", bi), func(r *Result) *Fail {
			a := &abuse{r: r}
			for i := range all {
				if f := a.feed(append([]byte(nil), all[:i]...), 5); f != nil { // truncated
					return f
				}
				for j := i + 1; j <= len(all); j++ { // a range removed, a range repeated
					if f := a.feed(append(append([]byte(nil), all[:i]...), all[j:]...), 5); f != nil {
						return f
					}
					if f := a.feed(append(append([]byte(nil), all[:j]...), all[i:]...), 9); f != nil {
						return f
					}
				}
				for b := 0; b < 256; b++ {
					m := append([]byte(nil), all...)
					m[i] = byte(b)
					if f := a.feed(m, 5); f != nil {
						return f
					}
					m = append(append(append([]byte(nil), all[:i]...), byte(b)), all[i:]...)
					if f := a.feed(m, 5); f != nil {
						return f
					}
				}
				for _, t := range c16Tokens {
					m := append(append(append([]byte(nil), all[:i]...), t...), all[i:]...)
					if f := a.feed(m, 9); f != nil {
						return f
					}
				}
			}
			return a.flush()
		}})
		sub := []byte("\r\n*$-019+")
		for lo := 0; lo < len(all); lo += 16 {
			lo := lo
			out = append(out, Case{fmt.Sprintf("mutate2/%d/%d", bi, lo), func(r *Result) *Fail {
				a := &abuse{r: r}
				for i := lo; i < lo+16 && i < len(all); i++ {
					for j := i + 1; j < len(all); j++ {
						for _, x := range sub {
							for _, y := range sub {
								if !thorough && (x == '9' || y == '9' || x == '+' || y == '+') {
									continue
								}
								m := append([]byte(nil), all...)
								m[i], m[j] = x, y
								if f := a.feed(m, 5); f != nil {
									return f
								}
							}
						}
					}
				}
				return a.flush()
			}})
		}
	}
	// absurd numbers in every command
	for _, c := range append(model.Commands(), "select") {
		c := c
		keys := []string{"s", "n", "h", "l", "z", "nope"}
		pool := append(append([]string(nil), c16Numbers...), optWords[c]...)
		pool = append(pool, "a", "f")
		small := append([]string{"9223372036854775807", "-9223372036854775808", "2147483647", "-1048577", "1", "a", "nan"}, optWords[c]...)
		for n := 0; n <= 5; n++ {
			n := n
			_, hi := model.Arity(c)
			if n >= 4 && hi != 0 && hi < n+1 && !thorough {
				continue
			}
			out = append(out, Case{fmt.Sprintf("numbers/%s/%d", c, n), func(r *Result) *Fail {
				a := &abuse{r: r}
				p := pool
				if n >= 4 {
					p = small
				}
				if n >= 5 {
					p = append(append([]string(nil), small[:1]...), small[4:]...)
				}
				var batch []byte
				k := 0
				send := func() *Fail {
					if k == 0 {
						return nil
					}
					f := a.feed(batch, k)
					batch, k = nil, 0
					return f
				}
				f := lists(c, n, keys, p, func(q []string) *Fail {
					batch = append(batch, encode(q)...)
					if k++; k == 25 {
						return send()
					}
					return nil
				})
				if f == nil {
					f = send()
				}
				if f == nil {
					f = a.flush()
				}
				return f
			}})
		}
	}
	// malformed requests are not executed
	for _, t := range malformTargets {
		t := strings.Fields(t)
		out = append(out, Case{"malformed/" + strings.Join(t, " "), func(r *Result) *Fail {
			return malformed(t, r)
		}})
	}
	// sheer size
	big := []struct {
		name string
		b    func() []byte
	}{
		{"nested", func() []byte { return []byte(strings.Repeat("*1\r\n", 4_000_000)) }},
		{"nested2", func() []byte { return []byte(strings.Repeat("*2\r\n$1\r\na\r\n", 1_000_000)) }},
		{"nested-big", func() []byte { return []byte(strings.Repeat("*1000000000\r\n", 500_000)) }},
		{"no-line-end", func() []byte { return []byte(strings.Repeat("a", 16<<20)) }},
		{"crs", func() []byte { return []byte("*" + strings.Repeat("\r", 8<<20)) }},
		{"digits", func() []byte { return []byte("*" + strings.Repeat("1", 4<<20) + "\r\n") }},
		{"digits2", func() []byte { return []byte("$" + strings.Repeat("0", 4<<20) + "4\r\nPING\r\n") }},
		{"empty-lines", func() []byte { return []byte(strings.Repeat("\r\n", 4<<20)) }},
		{"empty-arrays", func() []byte { return []byte(strings.Repeat("*0\r\n", 500_000)) }},
		{"null-arrays", func() []byte { return []byte(strings.Repeat("*-1\r\n", 500_000)) }},
		{"null-bulks", func() []byte { return []byte(strings.Repeat("$-1\r\n", 500_000)) }},
		{"inlines", func() []byte { return []byte(strings.Repeat("+PING\r\n", 500_000)) }},
		{"null-args", func() []byte { return []byte("*500000\r\n" + strings.Repeat("$-1\r\n", 500_000)) }},
		{"int-args", func() []byte { return []byte("*500000\r\n" + strings.Repeat(":1\r\n", 500_000)) }},
		{"big-name", func() []byte { return encode([]string{strings.Repeat("x", 8<<20)}) }},
		{"big-select", func() []byte { return encode([]string{"select", strings.Repeat("9", 4<<20)}) }},
		{"big-number", func() []byte { return encode([]string{"incrby", "n", strings.Repeat("9", 4<<20)}) }},
		{"big-float", func() []byte {
			return encode([]string{"incrbyfloat", "n", strings.Repeat("9", 1<<20) + "." + strings.Repeat("3", 1<<20)})
		}},
		{"big-pattern", func() []byte { return encode([]string{"keys", strings.Repeat("*a", 20000) + "b"}) }},
		{"big-class", func() []byte { return encode([]string{"keys", "[" + strings.Repeat("a-", 100000)}) }},
		{"stars", func() []byte { return encode([]string{"keys", "sentinel:" + strings.Repeat("a*", 29) + "b"}) }},
		{"stars2", func() []byte { return encode([]string{"keys", strings.Repeat("*", 300000) + "b"}) }},
		{"questions", func() []byte { return encode([]string{"keys", strings.Repeat("*?", 30) + "b"}) }},
		{"self-union", func() []byte {
			return encode(append([]string{"sunionstore", "z"}, strings.Fields(strings.Repeat("z ", 100000))...))
		}},
		{"self-inter", func() []byte {
			return encode(append([]string{"sinter"}, strings.Fields(strings.Repeat("z ", 100000))...))
		}},
	}
	for _, b := range big {
		b := b
		out = append(out, Case{"size/" + b.name, func(r *Result) *Fail {
			a := &abuse{r: r}
			if f := a.feed(b.b(), 1); f != nil {
				return f
			}
			return a.flush()
		}})
	}
	return out
}

func init() {
	checks["C16"] = &Check{Level: "model_checking", Rule: "the real parser and connection handler are fed every stream of up to 4 (5 in the thorough tier) of 40 protocol tokens, every raw string up to 2 bytes (6 or 7 over 9 protocol bytes), every single-byte replacement and insertion, every removed or repeated range, every inserted token and pairs of replacements in 6 well-formed streams, every command with absurd numbers in all argument positions, 12 write requests with every frame byte broken (these must not be executed), and 25 oversized streams; each time nothing may panic, all goroutines must end and the connection be closed, at most 64 MB + 1000 times the input (plus 4 MB per request) may be allocated, and another client's data must read back intact through another connection", Cases: c16Cases, Assume: []string{"bounded: streams as listed", "arguments that legitimately ask for large values (SETRANGE offsets between 1 MB and 512 MB, repeated members up to 2^20) are left out", "memory is measured as bytes allocated by the process during the stream"}}
}
