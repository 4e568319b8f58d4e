package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

const (
	maxI = "9223372036854775807"
	minI = "-9223372036854775808"
)

// base second of the virtual clock
const base = 1_700_000_000

func at(d int) string   { return strconv.Itoa(base + d) }
func atms(d int) string { return strconv.Itoa((base * 1000) + d) }

type family struct {
	name  string
	inits map[string]string // name -> commands
	keys  []string
	ops   []step
	qd    int // quick depth
	td    int // thorough depth
	seg   int
	sub   int64
}

func sortedNames(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

// prep parses an initial state: commands separated by ';', "@n" advances the
// clock by n seconds.
func prep(s string) []step {
	var out []step
	for _, c := range strings.Split(s, ";") {
		c = strings.TrimSpace(c)
		if c == "" {
			continue
		}
		if c[0] == '@' {
			f, _ := strconv.ParseFloat(c[1:], 64)
			out = append(out, tick(int64(f*1e9)))
			continue
		}
		out = append(out, cmds(c)...)
	}
	return out
}

func bigList(cmd, key string, n int, f func(i int) string) string {
	var b strings.Builder
	b.WriteString(cmd + " " + key)
	for i := 0; i < n; i++ {
		b.WriteString(" " + f(i))
	}
	return b.String()
}

func casesOf(fams []family) func(bool) []Case {
	return func(thorough bool) []Case {
		var out []Case
		for _, f := range fams {
			f := f
			d := f.qd
			if thorough {
				d = f.td
			}
			for _, in := range sortedNames(f.inits) {
				in := in
				init := prep(f.inits[in])
				mk := func(name string, path []step, depth int, pre int64) {
					out = append(out, Case{name, func(r *Result) *Fail {
						q := &Search{Init: path, Ops: f.ops, Depth: depth, Keys: f.keys, Seg: f.seg, Sub: f.sub, R: r, Budget: caseBudget()}
						return q.Run()
					}})
				}
				if d <= 2 {
					mk(fmt.Sprintf("%s/%s/depth%d", f.name, in, d), init, d, 0)
					continue
				}
				// split the first step over cases so that they run in parallel
				mk(fmt.Sprintf("%s/%s/depth1", f.name, in), init, 1, 0)
				for i, op := range f.ops {
					mk(fmt.Sprintf("%s/%s/[%d]%s/depth%d", f.name, in, i, op, d), append(append([]step(nil), init...), op), d-1, 0)
				}
			}
		}
		return out
	}
}

// caseBudget bounds one case (and makes the run non-exhaustive if it bites).
func caseBudget() func() bool {
	lim := 240 * time.Second
	if *fTier == "thorough" {
		lim = 1200 * time.Second
	}
	end := time.Now().Add(lim)
	return func() bool { return time.Now().Before(end) }
}

func cross(format string, lists ...[]string) []step {
	var out []step
	var rec func(i int, args []any)
	rec = func(i int, args []any) {
		if i == len(lists) {
			out = append(out, cmds(fmt.Sprintf(format, args...))...)
			return
		}
		for _, s := range lists[i] {
			if s == "" {
				s = `""`
			}
			if spaced[s] {
				s = `"` + strings.ReplaceAll(s, " ", `\x20`) + `"`
			}
			rec(i+1, append(append([]any(nil), args...), s))
		}
	}
	rec(0, nil)
	return out
}

func cat(ls ...[]step) []step {
	var out []step
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}

// spaced are numerals with something around them: arguments that are no
// integers, though a lenient reader takes them for one.
var spaced = map[string]bool{" 5": true, "5 ": true, "1 ": true, " 1": true, "\t1": true, " 0.5": true, "0.5 ": true}

// widths are the powers of ten and two and their neighbours between lo and hi.
func widths(lo, hi int64) []string {
	var out []string
	add := func(p int64) {
		for n := p - 1; n <= p+1; n++ {
			if n >= lo && n <= hi {
				out = append(out, strconv.FormatInt(n, 10))
			}
		}
	}
	for p := int64(10); p <= hi; p *= 10 {
		add(p)
	}
	for i := 7; i < 62; i++ {
		if i < 17 || i > 29 && i < 34 || i > 50 && i < 54 {
			add(1 << i)
		}
	}
	return out
}

func stepsOf(ls ...[]string) []step {
	var out []step
	for _, l := range ls {
		out = append(out, cmds(strings.Join(l, "\n"))...)
	}
	return out
}

func cat3(format string, ws []string) []string {
	var out []string
	for _, w := range ws {
		out = append(out, fmt.Sprintf(format, w))
	}
	return out
}

// oddInt are words that look like integers and are none.
var oddInt = []string{" 1", "1 ", "0x1", "1e0", "18446744073709551617", "4294967297x", "--1"}

var idx = []string{"0", "1", "2", "3", "-1", "-2", "-3", "-4", "5", maxI, minI}

// ----------------------------------------------------------------- C01

var stringFams = []family{
	{
		name: "string-rw", keys: []string{"k", "q"}, qd: 4, td: 5, seg: 2,
		inits: map[string]string{
			"empty": "", "text": "SET k abc", "num": "SET k 10", "hash": "HSET k f v", "both": "SET k abc;SETEX q 100 5",
		},
		ops: cat(cmds(`
			SET k a
			SET k ""
			SET q 7
			SET k b NX
			SET k b XX
			SET k c GET
			SET k c EX 100
			SET k c KEEPTTL
			GET k
			GET q
			STRLEN k
			MGET k q k
			MSET k 1 q 2
			MSET k 1 k 3
			SETEX k 50 v
			SETNX k n
			SETNX q n
			INCR k
			DECR k
			INCRBY k 5
			DECRBY k 20
			INCRBYFLOAT k 1.5
			INCRBYFLOAT q -0.25
			APPEND k xyz
			APPEND k ""
			SETRANGE k 1 ZZ
			SETRANGE k 5 Z
			SETRANGE k 0 ""
			DEL k
			GETRANGE k 0 -1
			GETRANGE k 1 2
		`)),
	},
	{
		name: "string-options", keys: []string{"k"}, qd: 3, td: 4, seg: 2,
		inits: map[string]string{
			"empty": "", "text": "SET k abc", "ttl": "SETEX k 100 abc", "list": "RPUSH k a b", "set-ttl": "SADD k a;EXPIRE k 100", "expired": "SETEX k 1 old;@3",
		},
		ops: cat(
			cross("SET k new %s", []string{"NX", "XX", "GET", "KEEPTTL", "nx", "Xx", "NX GET", "XX GET", "GET NX", "KEEPTTL XX", "KEEPTTL GET", "NX KEEPTTL"}),
			cross("SET k new %s %s", []string{"EX", "PX", "EXAT", "PXAT", "ex"}, []string{"", "0", "-1", "abc", minI, "5", "100000", "1700000050", "1700000050000", " 5", "5 "}),
			cross("SET k new %s %s", []string{"EX", "ex"}, []string{maxI}),
			cross("SET k new %s %s", []string{"NX EX 10", "XX EX 10", "EX 10 NX", "EX 10 GET", "GET EX 10", "PX 10000 NX GET", "EXAT 1700000100 XX"}, []string{"", "NX", "XX", "GET", "KEEPTTL", "EX 5", "junk"}),
			cmds(`
			SET k new EX
			SET k new PX
			SET k new EXAT
			SET k new PXAT
			SET k new NX XX
			SET k new EX 10 PX 1000
			SET k new EX 10 KEEPTTL
			SET k new junk
			SET k
			SET
			GET k
			TTL k
			GET k extra
			SETEX k 0 v
			SETEX k -1 v
			SETEX k abc v
			SETEX k 9223372036854775807 v
			SETEX k 10 v
			SETNX k v`)),
	},
	{
		name: "string-range", keys: []string{"k"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{"empty": "", "abc": "SET k abc", "one": "SET k x", "nil": `SET k ""`, "long": "SET k abcdefghijklmnopqrstuvwxyz", "set": "SADD k a", "app": "SET k ab;APPEND k cd"},
		ops: cat(
			cross("GETRANGE k %s %s", idx, idx),
			cross("SETRANGE k %s %s", []string{"0", "1", "2", "3", "4", "10", "-1", "536870912", maxI, minI, "abc"}, []string{"", "X", "YYYY"}),
			cross("GETRANGE k %s %s", []string{"abc", "1.5", ""}, []string{"0", "x"}),
			cross("GETRANGE k %s 2", oddInt), cross("GETRANGE k 0 %s", oddInt), cross("SETRANGE k %s Z", oddInt),
			cmds("APPEND k 12\nSTRLEN k\nGET k"),
		),
	},
	{
		name: "string-arith", keys: []string{"k"}, qd: 3, td: 4, seg: 2,
		inits: map[string]string{"empty": "", "zero": "SET k 0", "max": "SET k " + maxI, "min": "SET k " + minI, "near": "SET k 9223372036854775800", "txt": "SET k abc", "float": "SET k 3.25", "list": "RPUSH k 1", "blank": `SET k ""`, "ttl": "SETEX k 100 41", "over": "SET k 9223372036854775808"},
		ops: cat(
			cross("%s k", []string{"INCR", "DECR", "GET"}),
			cross("%s k %s", []string{"INCRBY", "DECRBY"}, []string{"1", "-1", "7", "-8", "100", maxI, minI, "-9223372036854775807", "9223372036854775808", "abc", "", "1.5", "0"}),
			cross("%s k %s", []string{"INCRBY", "DECRBY"}, oddInt),
			cross("SET k %s", []string{" 5", "5 ", "0x1"}),
			cross("INCRBYFLOAT k %s", []string{" 0.5", "0.5 ", "0.5", "-1.25", "3", "1e3", "abc", "", "0", "1.7e308", "-1.7e308", "inf", "nan"}),
			cross("HINCRBY k f %s", []string{"1"}),
		),
	},
	{
		name: "string-wide", keys: []string{"k", "q", "r"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{
			"long": "SET k " + strings.Repeat("0123456789", 30) + ";SET q x",
			"mix":  "SET k a;RPUSH q x y;SADD r m;",
		},
		ops: cmds(`
			MGET k q r
			MGET r q k k
			MGET nope
			MSET k 1 q 2 r 3
			MSET k 1 q
			MSET k
			APPEND k tail
			APPEND q tail
			SETRANGE k 299 END
			SETRANGE k 301 END
			SETRANGE k 150 mid
			GETRANGE k 290 400
			GETRANGE k -5 -1
			STRLEN k
			STRLEN q
			SET q over
			SETEX r 10 over
			GET q
			GET r
			INCR q
			INCRBYFLOAT r 1
			SETNX q v
			SET r v GET
			SET r v NX
			SET r v XX`),
	},
}

// ----------------------------------------------------------------- C02

var hashFams = []family{
	{
		name: "hash-rw", keys: []string{"h", "g"}, qd: 4, td: 5, seg: 2,
		inits: map[string]string{"empty": "", "one": "HSET h a 1", "two": "HSET h a 1 b x", "string": "SET h v", "ttl": "HSET h a 1;EXPIRE h 100", "expired": "HSET h a 1;EXPIRE h 1;@3"},
		ops: cmds(`
			HSET h a 2
			HSET h b y c z
			HSET h a 1 a 5
			HSET h "" ""
			HMSET h a 3 b 4
			HSETNX h a n
			HSETNX h d n
			HSETNX g a n
			HGET h a
			HGET h b
			HGET h ""
			HMGET h a b nope a
			HMGET g a b
			HGETALL h
			HKEYS h
			HVALS h
			HLEN h
			HLEN g
			HEXISTS h a
			HEXISTS h nope
			HSTRLEN h a
			HSTRLEN h b
			HSTRLEN h nope
			HDEL h a
			HDEL h a b
			HDEL h a a nope
			HDEL h b c d
			HINCRBY h a 3
			HINCRBY h n -4
			HINCRBY h b 1
			HINCRBYFLOAT h a 0.5
			HINCRBYFLOAT g f 2.25
			HRANDFIELD h
			HRANDFIELD h 1
			HRANDFIELD h 2
			HRANDFIELD h -3
			HRANDFIELD h 5 WITHVALUES
			HRANDFIELD h 1 WITHVALUES
			DEL h`),
	},
	{
		name: "hash-args", keys: []string{"h"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{"empty": "", "two": "HSET h a 1 b x", "max": "HSET h a " + maxI + " b " + minI, "float": "HSET h a 1.5 b 10", "list": "RPUSH h a", "set": "SADD h a", "blank": `HSET h a "" "" z`, "three": "HSET h a 1 b 2 c 3"},
		ops: cat(
			cross("HINCRBY h %s %s", []string{"a", "b", "new"}, []string{"1", "-1", "0", maxI, minI, "abc", "", "1.5", "9223372036854775808"}),
			cross("HINCRBYFLOAT h %s %s", []string{"a", "b", "new"}, []string{"1", "-1.5", "abc", "", "1.7e308", "inf", "nan"}),
			cross("HINCRBY h a %s", oddInt), cross("HRANDFIELD h %s", oddInt), cross("HINCRBYFLOAT h a %s", []string{" 0.5", "0.5 "}),
			cross("HSET h a %s", []string{" 5", "5 ", "0x1"}),
			cross("HRANDFIELD h %s", []string{"0", "1", "2", "3", "4", "-1", "-2", "-5", "abc", "", "1000000000", minI}),
			cross("HRANDFIELD h %s %s", []string{"0", "1", "2", "4", "-1", "-3", "abc"}, []string{"WITHVALUES", "withvalues", "junk"}),
			cmds(`
			HSET h a
			HSET h a 1 b
			HMSET h a
			HMSET h a 1 b
			HGET h
			HGETALL h
			HDEL h
			HMGET h
			HSETNX h a
			HSETNX h "" v
			HSTRLEN h ""
			HSTRLEN h a
			HEXISTS h ""
			HGET h ""
			HVALS h
			HKEYS h
			HLEN h
			HDEL h a b c ""
			HDEL h ""
			HSET h x y x z y x
			HMSET h x y x z`)),
	},
	{
		name: "hash-big", keys: []string{"h"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{
			"120":  bigList("HSET", "h", 120, func(i int) string { return fmt.Sprintf("f%d v%d", i, i) }),
			"600":  bigList("HSET", "h", 600, func(i int) string { return fmt.Sprintf("f%d v%d", i, i) }),
			"long": "HSET h f " + strings.Repeat("v", 300) + " " + strings.Repeat("F", 200) + " x",
		},
		ops: cmds(`
			HLEN h
			HGET h f77
			HSET h f77 new
			HSET h f599 a f600 b
			HDEL h f0 f1 f119 nope
			HMGET h f5 f50 nope f119
			HGETALL h
			HKEYS h
			HVALS h
			HRANDFIELD h 100
			HRANDFIELD h 128
			HRANDFIELD h -200
			HRANDFIELD h 1000 WITHVALUES
			HINCRBY h cnt 5
			HSTRLEN h f
			HSETNX h f3 z`),
	},
}

// ----------------------------------------------------------------- C03

var listFams = []family{
	{
		name: "list-rw", keys: []string{"l", "m"}, qd: 4, td: 5, seg: 2,
		inits: map[string]string{"empty": "", "ab": "RPUSH l a b", "aba": "RPUSH l a b a", "two": "RPUSH l a b;RPUSH m x", "string": "SET l v;RPUSH m x", "ttl": "RPUSH l a b;EXPIRE l 100", "expired": "RPUSH l a b;EXPIRE l 1;RPUSH m x;@3"},
		ops: cmds(`
			LPUSH l a
			LPUSH l x y
			RPUSH l b
			RPUSH l p q
			RPUSH m ""
			LPUSHX l z
			RPUSHX l z
			LPUSHX m z
			LPOP l
			RPOP l
			LPOP l 1
			RPOP l 1
			LPOP l 2
			RPOP l 2
			LPOP l 10
			RPOP l 10
			LLEN l
			LRANGE l 0 -1
			LINDEX l 0
			LINDEX l -1
			LSET l 0 S
			LSET l -1 T
			LSET l 1 a
			LINSERT l BEFORE a i
			LINSERT l AFTER a i
			LINSERT l AFTER b b
			LINSERT l BEFORE b b
			LREM l 1 a
			LREM l -1 a
			LREM l 0 a
			LREM l 0 b
			LTRIM l 1 -1
			LTRIM l 0 0
			LTRIM l 5 9
			LPOS l a
			LMOVE l m LEFT RIGHT
			LMOVE l m RIGHT LEFT
			LMOVE m l LEFT LEFT
			LMOVE l l LEFT RIGHT
			LMOVE l l RIGHT LEFT
			LMOVE l l LEFT LEFT
			DEL l`),
	},
	{
		name: "list-index", keys: []string{"l"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{"empty": "", "a": "RPUSH l a", "abc": "RPUSH l a b c", "abab": "RPUSH l a b a b", "aaa": "RPUSH l a a a", "mixed": "RPUSH l b;LPUSH l a;RPUSH l c;LPUSH l a", "set": "SADD l a"},
		ops: cat(
			cross("LRANGE l %s %s", idx, idx),
			cross("LTRIM l %s %s", idx, idx),
			cross("LINDEX l %s", append([]string{"abc", "", "4", "-5"}, idx...)),
			cross("LSET l %s %s", append([]string{"abc", "", "4", "-5"}, idx...), []string{"Z"}),
			cross("LREM l %s %s", append([]string{"abc", "4"}, idx...), []string{"a", "b", "zz"}),
			cross("LINSERT l %s %s %s", []string{"BEFORE", "AFTER", "before", "junk"}, []string{"a", "b", "c", "zz"}, []string{"a", "N"}),
			cross("%s l %s", []string{"LPOP", "RPOP"}, []string{"1", "2", "3", "4", "5", "-1", "abc", "", maxI, minI, "1 2"}),
			cross("LRANGE l %s %s", []string{"abc", ""}, []string{"0", "x"}),
			cross("LINDEX l %s", oddInt), cross("LSET l %s Z", oddInt), cross("LREM l %s a", oddInt), cross("%s l %s", []string{"LPOP", "RPOP"}, oddInt),
			cross("LRANGE l %s 2", oddInt), cross("LRANGE l 0 %s", oddInt), cross("LTRIM l %s 2", oddInt), cross("LTRIM l 0 %s", oddInt),
			cross("LTRIM l %s %s", []string{"abc", ""}, []string{"0", "x"}),
		),
	},
	{
		name: "list-pos", keys: []string{"l"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{"empty": "", "a": "RPUSH l a", "abcab": "RPUSH l a b c a b", "aaaa": "RPUSH l a a a a", "bbba": "RPUSH l b b b a", "abbb": "RPUSH l a b b b", "set": "SADD l a", "abacada": "RPUSH l a b a c a d a"},
		ops: cat(
			cross("LPOS l %s %s %s %s", []string{"a", "b", "zz"},
				[]string{"RANK 1", "RANK 2", "RANK 3", "RANK 4", "RANK 5", "RANK -1", "RANK -2", "RANK -3", "RANK -4", "RANK 0", "RANK " + maxI, "RANK " + minI, "rank x", " "},
				[]string{"COUNT 0", "COUNT 1", "COUNT 2", "COUNT 3", "COUNT 9", "COUNT -1", "count x", " "},
				[]string{"MAXLEN 0", "MAXLEN 1", "MAXLEN 2", "MAXLEN 3", "MAXLEN 4", "MAXLEN 5", "MAXLEN 9", "MAXLEN -1", "maxlen x", " "}),
			cross("LPOS l a RANK %s", oddInt), cross("LPOS l a COUNT %s", oddInt), cross("LPOS l a MAXLEN %s", oddInt),
			cmds("LPOS l a junk 1\nLPOS l a RANK\nLPOS l\nLPOS l a MAXLEN 3 COUNT 2 RANK 2\nLPUSH l b\nLPOS l a COUNT 2 RANK -1\nRPUSH l a"),
		),
	},
	{
		name: "list-move", keys: []string{"l", "m"}, qd: 3, td: 4, seg: 2,
		inits: map[string]string{"one": "RPUSH l a", "three": "RPUSH l a b c;RPUSH m x y", "dst-str": "RPUSH l a b;SET m v", "src-str": "SET l v;RPUSH m x", "src-str-nodst": "SET l v", "dst-ttl": "RPUSH l a b;RPUSH m x;EXPIRE m 100", "src-ttl": "RPUSH l a;EXPIRE l 100", "dst-expired": "RPUSH m old;EXPIRE m 1;RPUSH l a;@3"},
		ops: cat(
			cross("LMOVE %s %s %s %s", []string{"l", "m"}, []string{"l", "m"}, []string{"LEFT", "RIGHT", "left", "junk"}, []string{"LEFT", "RIGHT", "junk"}),
			cmds("LMOVE l m LEFT\nLMOVE l m\nLPUSH l n\nRPOP m\nTTL l\nTTL m"),
		),
	},
	{
		name: "list-big", keys: []string{"l"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{"150": bigList("RPUSH", "l", 150, func(i int) string { return "e" + strconv.Itoa(i%40) })},
		ops: cmds(`
			LLEN l
			LRANGE l 100 140
			LRANGE l -30 -10
			LRANGE l 0 -1
			LTRIM l 20 120
			LTRIM l 149 149
			LTRIM l -100 -1
			LINDEX l 75
			LINDEX l 127
			LINDEX l -120
			LINDEX l 128
			LSET l 128 X
			LSET l -130 X
			LREM l 0 e39
			LREM l -2 e3
			LREM l 3 e3
			LPOP l 100
			RPOP l 129
			LPOP l 150
			LINSERT l BEFORE e39 N
			LINSERT l AFTER e0 N
			LPOS l e5 RANK 2
			LPOS l e5 RANK -2 COUNT 0
			LPOS l e39 COUNT 0 MAXLEN 100
			LMOVE l l RIGHT LEFT`),
	},
}

// ----------------------------------------------------------------- C04

var setFams = []family{
	{
		name: "set-rw", keys: []string{"s", "t", "d"}, qd: 4, td: 5, seg: 2,
		inits: map[string]string{"empty": "", "ab": "SADD s a b", "two": "SADD s a b;SADD t b c", "dst-str": "SADD s a;SET d v", "ttl": "SADD s a b;EXPIRE s 100;SADD d z;EXPIRE d 100"},
		ops: cmds(`
			SADD s a
			SADD s b c a a
			SADD t b
			SADD s ""
			SREM s a
			SREM s a b zz
			SREM t b c
			SREM s ""
			SCARD s
			SISMEMBER s a
			SISMEMBER s zz
			SMEMBERS s
			SMOVE s t a
			SMOVE t s b
			SMOVE s d zz
			SMOVE s s a
			SPOP s
			SPOP s 1
			SPOP s 5
			SRANDMEMBER s
			SRANDMEMBER s 2
			SRANDMEMBER s -3
			SINTER s t
			SUNION s t
			SDIFF s t
			SINTERSTORE d s t
			SUNIONSTORE d s t
			SDIFFSTORE d s t
			SDIFFSTORE s s t
			SUNIONSTORE s s t
			SINTERSTORE d s
			DEL s`),
	},
	{
		name: "set-algebra", keys: []string{"s", "t", "u", "d"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{
			"abc": "SADD s a b c;SADD t b c d;SADD u c d e", "nou": "SADD s a b;SADD t b", "not": "SADD s a b;SADD u b", "nos": "SADD t a;SADD u a b", "str": "SADD s a;SET t v;SADD u a", "expired": "SADD s a b;SADD t b;EXPIRE t 1;SADD u b c;@3", "expired-first": "SADD s a b;EXPIRE s 1;SADD t b;SADD u b;SADD d old;@3", "all-expired": "SADD s a;SADD t a;EXPIRE s 1;EXPIRE t 1;SADD d old;@3", "dst-list": "SADD s a b;SADD t b;RPUSH d x y", "dst-ttl": "SADD s a b;SADD t b;SET d x EX 100", "sub": "SADD s a;SADD t a b;SADD u a b c",
		},
		ops: cat(
			cross("%s %s", []string{"SINTER", "SUNION", "SDIFF"}, []string{"s", "t", "s t", "t s", "s t u", "u t s", "s s", "s nope", "nope s", "nope", "s t nope", "t u"}),
			cross("%s %s %s", []string{"SINTERSTORE", "SUNIONSTORE", "SDIFFSTORE"}, []string{"d", "s"}, []string{"s", "t", "s t", "t s", "s t u", "s s", "s nope", "nope s", "nope", "s t nope", "t u"}),
			cmds("SINTER\nSINTERSTORE d\nSUNIONSTORE d\nSDIFFSTORE\nSADD s new\nSREM d a\nSADD d extra"),
		),
	},
	{
		name: "set-random", keys: []string{"s", "t"}, qd: 3, td: 4, seg: 2,
		inits: map[string]string{"empty": "", "a": "SADD s a", "abc": "SADD s a b c", "blank": `SADD s ""`, "blank2": `SADD s "" a`, "list": "RPUSH s a", "ttl": "SADD s a;EXPIRE s 100", "expired": "SADD s a;EXPIRE s 1;@3"},
		ops: cat(
			cross("%s s %s", []string{"SPOP", "SRANDMEMBER"}, []string{"1", "2", "3", "4", "-1", "-2", "abc", "", "1000000000", minI, "1 2", " "}),
			cross("%s s %s", []string{"SPOP", "SRANDMEMBER"}, oddInt),
			cmds("SRANDMEMBER s 0\nSRANDMEMBER s -1000\nSADD s n\nSCARD s\nTTL s\nSMOVE s t a\nSMOVE s t b\nSMOVE t s n\nSMOVE s\nSADD s\nSREM s\nSISMEMBER s\nSCARD\nSMEMBERS"),
		),
	},
	{
		name: "set-big", keys: []string{"s", "t", "d"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{"150": bigList("SADD", "s", 150, func(i int) string { return "m" + strconv.Itoa(i) }) + ";" + bigList("SADD", "t", 140, func(i int) string { return "m" + strconv.Itoa(2*i) })},
		ops: cmds(`
			SCARD s
			SISMEMBER s m149
			SMEMBERS s
			SINTER s t
			SDIFF s t
			SUNION s t
			SINTERSTORE d s t
			SDIFFSTORE d s t
			SUNIONSTORE d s t
			SDIFFSTORE s s t
			SPOP s 100
			SPOP s 129
			SPOP s 150
			SPOP s
			SRANDMEMBER s 140
			SRANDMEMBER s -300
			SREM s m0 m1 m149 m128
			SADD s m0 x
			SMOVE s t m1`),
	},
}

// ----------------------------------------------------------------- C05

var keyFams = []family{
	{
		name: "keyspace", keys: []string{"a", "b"}, qd: 4, td: 5, seg: 2,
		inits: map[string]string{"empty": "", "str": "SET a v", "mixed": "RPUSH a x;SADD b m", "ttl": "HSET a f v;EXPIRE a 100;SET b w"},
		ops: cmds(`
			SET a 1
			SET b 2
			RPUSH a x
			SADD a m
			HSET a f v
			RPUSH b x
			LPOP a
			SREM a m
			SPOP a
			HDEL a f
			LREM a 0 x
			LTRIM a 1 0
			SMOVE a b m
			LMOVE a b LEFT LEFT
			SDIFFSTORE b a a
			SUNIONSTORE b a
			DEL a
			DEL a b
			DEL a a
			EXISTS a
			EXISTS a b a
			TYPE a
			TYPE b
			KEYS *
			KEYS a
			KEYS ?
			RENAME a b
			RENAME b a
			RENAME a a
			RENAME nope a
			EXPIRE a 50
			PERSIST a
			TTL a
			MSET a 5 b 6
			APPEND a z`),
	},
	{
		name: "crosstype", keys: []string{"S", "H", "L", "T", "n"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{
			"all":     "SET S v;HSET H f 1;RPUSH L a b;SADD T m",
			"all-ttl": "SETEX S 100 v;HSET H f 1;EXPIRE H 100;RPUSH L a b;EXPIRE L 100;SADD T m;EXPIRE T 100",
			"gone":    "SETEX S 1 v;HSET H f 1;EXPIRE H 1;RPUSH L a b;EXPIRE L 1;SADD T m;EXPIRE T 1;@3",
		},
		ops: cat(
			cross("%s %s", []string{"GET", "STRLEN", "INCR", "DECR", "HGETALL", "HKEYS", "HVALS", "HLEN", "HRANDFIELD", "LLEN", "LPOP", "RPOP", "SCARD", "SMEMBERS", "SPOP", "SRANDMEMBER", "TYPE", "EXISTS", "TTL", "PERSIST", "DEL", "MGET", "SINTER", "SUNION", "SDIFF", "LPOP", "KEYS"}, []string{"S", "H", "L", "T", "n"}),
			cross("%s %s f", []string{"HGET", "HEXISTS", "HSTRLEN", "HDEL", "HMGET", "SADD", "SREM", "SISMEMBER", "LPUSH", "RPUSH", "LPUSHX", "RPUSHX", "LPOS", "APPEND", "SETNX", "SET"}, []string{"S", "H", "L", "T", "n"}),
			cross("%s %s 0", []string{"LINDEX"}, []string{"S", "H", "L", "T", "n"}),
			cross("%s %s 2", []string{"INCRBY", "DECRBY", "INCRBYFLOAT", "SPOP", "SRANDMEMBER", "LPOP", "RPOP", "HRANDFIELD", "EXPIRE"}, []string{"S", "H", "L", "T", "n"}),
			cross("%s %s f v", []string{"HSET", "HMSET", "HSETNX"}, []string{"S", "H", "L", "T", "n"}),
			cross("%s %s 0 1", []string{"GETRANGE", "LRANGE", "LTRIM", "SETRANGE", "LSET", "LREM"}, []string{"S", "H", "L", "T", "n"}),
			cross("%s %s f 1", []string{"HINCRBY", "HINCRBYFLOAT"}, []string{"S", "H", "L", "T", "n"}),
			cross("SETEX %s 10 v", []string{"S", "H", "L", "T", "n"}),
			cross("LINSERT %s BEFORE a z", []string{"S", "H", "L", "T", "n"}),
			cross("%s %s %s", []string{"RENAME", "MGET", "DEL", "EXISTS", "SINTER", "SUNION", "SDIFF"}, []string{"S", "H", "L", "T", "n"}, []string{"S", "H", "L", "T", "n"}),
			cross("%s %s %s T", []string{"SINTERSTORE", "SUNIONSTORE", "SDIFFSTORE"}, []string{"S", "H", "L", "T", "n"}, []string{"S", "H", "L", "T", "n"}),
			cross("SMOVE %s %s m", []string{"S", "H", "L", "T", "n"}, []string{"S", "H", "L", "T", "n"}),
			cross("LMOVE %s %s LEFT RIGHT", []string{"S", "H", "L", "T", "n"}, []string{"S", "H", "L", "T", "n"}),
			cross("MSET %s 1 %s 2", []string{"S", "H", "L", "T", "n"}, []string{"S", "H", "L", "T", "n"}),
			cross("SET %s v2 %s", []string{"S", "H", "L", "T", "n"}, []string{"NX", "XX", "GET", "EX 10", "KEEPTTL"}),
		),
	},
	{
		name: "many-keys", keys: []string{"k1", "k77", "k300", "x"}, qd: 2, td: 3, seg: 100,
		inits: map[string]string{
			"300": bigList("MSET", "", 300, func(i int) string { return fmt.Sprintf("k%d v%d", i, i) }) + ";RPUSH L a b;SADD T m",
		},
		ops: cmds(`
			KEYS *
			KEYS k1*
			KEYS k?7
			KEYS [LT]
			DEL k1 k2 k3 nope
			` + bigList("DEL", "", 150, func(i int) string { return "k" + strconv.Itoa(2*i) }) + `
			` + bigList("EXISTS", "", 310, func(i int) string { return "k" + strconv.Itoa(i) }) + `
			` + bigList("MGET", "", 310, func(i int) string { return "k" + strconv.Itoa(i) }) + `
			RENAME k1 x
			RENAME L k77
			SET k300 new
			TYPE L`),
	},
}

// ----------------------------------------------------------------- C07

func ttlOps() []step {
	return cat(
		[]step{tick(1e9), tick(2e9), tick(3e8)},
		cmds(`
			EXPIRE k 1
			EXPIRE k 2
			EXPIRE k 100
			EXPIRE k -1
			EXPIRE k 2 NX
			EXPIRE k 2 XX
			EXPIRE k 2 GT
			EXPIRE k 1 LT
			EXPIRE k 3 gt
			PERSIST k
			TTL k
			TTL q
			EXISTS k
			GET k
			SET k v
			SET k v EX 1
			SET k v EX 2
			SET k v PX 1000
			SET k v PX 2000
			SET k v KEEPTTL
			SET k v NX
			SET k v NX EX 1
			SET k v XX
			SET k v GET
			SET k v XX KEEPTTL
			SET k v EXAT 1700000001
			SET k v EXAT 1699999999
			SET k v PXAT 1700000002500
			SETEX k 1 v
			SETEX k 3 w
			SETNX k n
			APPEND k z
			INCR k
			SETRANGE k 0 Q
			MSET k 1 q 2
			DEL k
			RENAME k q
			RENAME q k
			TYPE k
			KEYS *
			RPUSH k a
			LPOP k
			LPUSHX k b
			SADD k m
			SREM k m
			SMOVE k q m
			SUNIONSTORE k q
			SINTERSTORE k nope
			HSET k f 1
			HDEL k f
			HINCRBY k f 1
			LMOVE k q LEFT LEFT
			LMOVE q k LEFT LEFT
			MGET k q
			SUNION k q
			EXPIRE q 1`))
}

var ttlFams = []family{
	{
		name: "lifetime", keys: []string{"k", "q"}, qd: 4, td: 5, seg: 2,
		inits: map[string]string{
			"empty": "", "str": "SET k v", "str1": "SETEX k 1 5", "list2": "RPUSH k a;EXPIRE k 2", "set1-q": "SADD k m;EXPIRE k 1;SADD q m x;EXPIRE q 100", "hash-q1": "HSET k f 1;SETEX q 1 w",
		},
		ops: ttlOps(),
	},
	{
		name: "subsecond", keys: []string{"k", "q"}, qd: 3, td: 4, seg: 2, sub: 7e8,
		inits: map[string]string{"empty": "", "str1": "SETEX k 1 5", "px": "SET k v PX 1000", "px1": "SET k v PX 2000"},
		ops:   cat([]step{tick(2e8), tick(4e8)}, ttlOps(), cmds("SET k v PX 1000\nSET k v PX 2000\nSET k v PX 3000")),
	},
	{
		// lifetimes in milliseconds, from several fractions of a second
		name: "milliseconds", keys: []string{"k"}, qd: 3, td: 4, seg: 2, sub: 6e8,
		inits: map[string]string{"empty": "", "ahead": "SET k v;@0.399", "behind": "SETEX k 1 v;@0.4", "late": "SET k v;@0.3999"},
		ops: cat([]step{tick(1e8), tick(399e6), tick(1e9)},
			stepsOf(cat3("SET k v PX %s", []string{"1", "2", "99", "399", "400", "401", "500", "600", "601", "999", "1000", "1001", "1399", "1400", "1401", "1500", "1999", "2000", "2001", "86399999"})),
			cmds("TTL k\nSET k w KEEPTTL\nAPPEND k x\nSET k w PX 1500 XX\nSET k w PX 1500 NX")),
	},
	{
		// arguments of EXPIRE and SETEX
		name: "deadline-args", keys: []string{"k"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{"empty": "", "str": "SET k v", "list-ttl": "RPUSH k a;EXPIRE k 50", "set-past": "SADD k m;EXPIRE k 1;@3"},
		ops: cat(
			cross("EXPIRE k %s %s", []string{"0", "1", "20", "50", "51", "-1", "-50", "abc", "", "1.5", "-1000000000", "9223372036854775808", "1000000000"}, []string{" ", "NX", "XX", "GT", "LT", "gt", "junk", `""`, "NX XX", "GT LT"}),
			cross("EXPIRE k %s", oddInt), cross("SETEX k %s v", oddInt), cross("SET k v EX %s", oddInt),
			cmds("TTL k\nPERSIST k\nEXPIRE k\nEXPIRE\nTTL\nTTL k k\nPERSIST\nPERSIST k k"),
			[]step{tick(1e9), tick(21e9)},
		),
	},
	{
		// lifetimes and deadlines of every width
		name: "deadline-width", keys: []string{"k"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{"str": "SET k v", "set-ttl": "SADD k a;EXPIRE k 50"},
		ops: cat(
			stepsOf(cat3("EXPIRE k %s", widths(1, 9200000000000000)), cat3("SETEX k %s v", widths(1, 9200000000000000)), cat3("SET k v EX %s", widths(1, 9200000000000000)),
				cat3("SET k v EXAT %s", widths(1800000000, 9200000000000000)), cat3("SET k v PX %s000", widths(1, 9200000000000000)), cat3("SET k v PXAT %s000", widths(1800000000, 9200000000000000))),
			cmds("TTL k\nPERSIST k\nSET k w KEEPTTL\nAPPEND k x\nRENAME k k\nEXPIRE k 3000000000 GT\nEXPIRE k 3000000000 LT"),
			[]step{tick(1e9)},
		),
	},
	{
		// every command on an expired-but-not-yet-removed key, alone and paired with a live one
		name: "expired-everything", keys: []string{"e", "x", "d"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{
			"str":  "SETEX e 1 7;SET x 1;@2.5",
			"hash": "HSET e f 1;EXPIRE e 1;HSET x f 1;@2.5",
			"list": "RPUSH e a b;EXPIRE e 1;RPUSH x a;@2.5",
			"set":  "SADD e a b;EXPIRE e 1;SADD x a;@2.5",
		},
		ops: everyCommandOn("e", "x", "d"),
	},
	{
		// every command on a key with a deadline keeps, drops or moves it as documented
		name: "ttl-everything", keys: []string{"e", "x", "d"}, qd: 2, td: 3, seg: 2,
		inits: map[string]string{
			"str":    "SETEX e 50 7;SET x 1",
			"hash":   "HSET e f 1 g 2;EXPIRE e 50;HSET x f 1",
			"list":   "RPUSH e a b;EXPIRE e 50;RPUSH x a",
			"set":    "SADD e a b;EXPIRE e 50;SADD x a",
			"set-d":  "SADD e a b;EXPIRE e 50;SADD x a;SETEX d 70 z",
			"list-d": "RPUSH e a b;EXPIRE e 50;RPUSH x a;RPUSH d z;EXPIRE d 70",
		},
		ops: everyCommandOn("e", "x", "d"),
	},
}

// everyCommandOn lists at least one well-formed use of every command.
func everyCommandOn(e, x, d string) []step {
	t := `
		DEL E
		DEL E X
		EXISTS E
		EXISTS E X
		KEYS *
		EXPIRE E 30
		EXPIRE E 30 NX
		EXPIRE E 30 XX
		EXPIRE E 30 GT
		EXPIRE E 30 LT
		PERSIST E
		TTL E
		RENAME E D
		RENAME X E
		RENAME E E
		TYPE E
		SET E v
		SET E v NX
		SET E v XX
		SET E v GET
		SET E v KEEPTTL
		SET E v EX 20
		SET E v NX GET
		GET E
		GETRANGE E 0 -1
		SETRANGE E 1 ZZ
		MGET E X E
		MGET X E
		MSET E 1 X 2
		SETEX E 20 v
		SETNX E v
		STRLEN E
		INCR E
		INCRBY E 5
		DECR E
		DECRBY E 5
		INCRBYFLOAT E 0.5
		APPEND E z
		HDEL E f
		HEXISTS E f
		HGET E f
		HGETALL E
		HINCRBY E f 2
		HINCRBYFLOAT E f 0.5
		HKEYS E
		HLEN E
		HMGET E f g
		HMSET E n 1
		HSET E n 1
		HSETNX E f 9
		HSETNX E n 9
		HVALS E
		HSTRLEN E f
		HRANDFIELD E
		HRANDFIELD E 2
		LINDEX E 0
		LINSERT E BEFORE a z
		LLEN E
		LMOVE E X LEFT RIGHT
		LMOVE X E LEFT RIGHT
		LMOVE E D LEFT RIGHT
		LMOVE E E LEFT RIGHT
		LPOP E
		LPOP E 2
		LPOS E a
		LPUSH E z
		LPUSHX E z
		LRANGE E 0 -1
		LREM E 0 a
		LSET E 0 z
		LTRIM E 0 0
		LTRIM E 1 0
		RPOP E
		RPOP E 2
		RPUSH E z
		RPUSHX E z
		SADD E z
		SADD E a
		SCARD E
		SDIFF E X
		SDIFF X E
		SDIFFSTORE D E X
		SDIFFSTORE D X E
		SDIFFSTORE E X
		SINTER E X
		SINTER X E
		SINTERSTORE D E X
		SINTERSTORE D X E
		SINTERSTORE E X
		SISMEMBER E a
		SMEMBERS E
		SMOVE E X b
		SMOVE X E a
		SMOVE E D a
		SPOP E
		SPOP E 2
		SRANDMEMBER E
		SRANDMEMBER E 2
		SREM E a
		SREM E a b
		SUNION E X
		SUNION X E
		SUNIONSTORE D E X
		SUNIONSTORE E X
		SUNIONSTORE D E`
	out := cmds(t)
	for i := range out {
		for j := range out[i] {
			if j == 0 {
				continue
			}
			switch out[i][j] {
			case "E":
				out[i][j] = e
			case "X":
				out[i][j] = x
			case "D":
				out[i][j] = d
			}
		}
	}
	return out
}
