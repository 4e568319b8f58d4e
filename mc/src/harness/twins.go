package main

import (
	"fmt"
	"strings"
)

// Families over pairs of different byte strings that a careless comparison or
// conversion takes for the same: every command with both of them as keys,
// values, fields, elements and members.

var twins = [][2]string{
	{"7", "007"}, {"5", "+5"}, {"0", "-0"}, {"1", "1.0"}, {"10", "1e1"}, {"16", "0x10"}, {"3", "3 "}, {"3", " 3"}, {"-9223372036854775808", "9223372036854775808"},
	{"a", "A"}, {"k", "\xe2\x84\xaa"}, {"a", " a"}, {"a", "a "}, {"a", "a\n"}, {"a", "a\r\n"}, {"a", "a\x00"}, {"a", "\x00a"}, {"a", "\ta"},
	{"", "\x00"}, {"", " "}, {"", "nil"}, {"\xff", "?"}, {"\xff", "\xfe"}, {"\xff", "\xef\xbf\xbd"}, {"\xc3\xa9", "e\xcc\x81"}, {"\xc3\xa9", "\xe9"}, {"a", "aa"}, {"ab", "ba"},
	{strings.Repeat("x", 17), strings.Repeat("x", 18)}, {strings.Repeat("x", 64) + "1", strings.Repeat("x", 64) + "2"}, {"1" + strings.Repeat("x", 64), "2" + strings.Repeat("x", 64)},
	{"a\x00b", "a\x00c"}, {"a%s", "a%d"}, {"*", "a"}, {"a*", "ab"}, {"\\a", "a"}, {"\"a\"", "a"}, {"{a}1", "{a}2"},
}

// word writes s so that prep and cmds read it back whatever it holds.
func word(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, "\\x%02x", s[i])
	}
	b.WriteByte('"')
	return b.String()
}

// twinFams makes one family of every pair; X and Y stand for the two.
func twinFams(name, keys string, qd int, inits map[string]string, ops string) []family {
	var out []family
	for i, t := range twins {
		for o := 0; o < 2; o++ {
			x, y := t[o], t[1-o]
			in := func(s string) string {
				w := strings.Fields(s)
				for i := range w {
					tail := ""
					if strings.HasSuffix(w[i], ";") {
						w[i], tail = w[i][:len(w[i])-1], ";"
					}
					switch w[i] {
					case "X":
						w[i] = word(x)
					case "Y":
						w[i] = word(y)
					}
					w[i] += tail
				}
				return strings.Join(w, " ")
			}
			f := family{name: fmt.Sprintf("%s-twins-%d-%d", name, i, o), qd: qd, td: qd, seg: 2, inits: map[string]string{}}
			have := map[string]bool{}
			for _, k := range strings.Fields(keys) {
				switch k {
				case "X":
					k = x
				case "Y":
					k = y
				}
				if !have[k] {
					have[k] = true
					f.keys = append(f.keys, k)
				}
			}
			for n, s := range inits {
				f.inits[n] = in(s)
			}
			var l []string
			for _, s := range strings.Split(strings.TrimSpace(ops), "\n") {
				l = append(l, in(s))
			}
			f.ops = cmds(strings.Join(l, "\n"))
			out = append(out, f)
		}
	}
	return out
}

func stringTwins() []family {
	return twinFams("string", "k q X Y", 2, map[string]string{"value": "SET k X; SET X 1", "both": "MSET X 1 Y 2 k X q Y"}, `
SET k X
SET k Y
SET X v
SET Y w
GET k
MSET X Y Y X
MSET k Y q X
MGET X Y k
SETNX Y n
SETEX k 10 Y
SETEX Y 10 X
APPEND k Y
APPEND X Y
GETRANGE k 0 -1
STRLEN k
STRLEN Y
SET k Y GET
SET q X NX
SET k Y XX
SETRANGE k 0 Y
SETRANGE Y 1 X
INCR Y`)
}

func hashTwins() []family {
	return twinFams("hash", "h X", 2, map[string]string{"one": "HSET h X X", "both": "HSET h X Y Y X"}, `
HSET h X Y
HSET h Y Y
HMSET h X 1 Y 2
HSETNX h Y X
HSETNX h X Y
HGET h X
HGET h Y
HMGET h X Y
HGETALL h
HKEYS h
HVALS h
HLEN h
HDEL h X
HDEL h Y
HDEL h Y X
HEXISTS h X
HEXISTS h Y
HSTRLEN h X
HSTRLEN h Y
HINCRBY h n 1
HSET X X Y`)
}

func listTwins() []family {
	return twinFams("list", "l X Y", 2, map[string]string{"one": "RPUSH l X m", "both": "RPUSH l X Y m X Y"}, `
RPUSH l Y
LPUSH l X Y
RPUSHX l X
LPUSHX l Y
LSET l 0 Y
LINSERT l BEFORE Y n
LINSERT l AFTER X n
LINSERT l AFTER Y X
LREM l 0 Y
LREM l 0 X
LREM l 1 Y
LREM l -1 X
LPOS l X
LPOS l Y
LPOS l Y RANK -1
LPOS l X RANK 2
LPOS l Y COUNT 0
LRANGE l 0 -1
LINDEX l 1
LPOP l
RPOP l
LMOVE l Y LEFT RIGHT
RPUSH X Y`)
}

func setTwins() []family {
	return twinFams("set", "s t d X", 2, map[string]string{"apart": "SADD s X; SADD t Y", "both": "SADD s X Y; SADD t Y"}, `
SADD s X
SADD s Y
SADD t X Y
SREM s X
SREM s Y
SISMEMBER s X
SISMEMBER s Y
SMEMBERS s
SCARD s
SMOVE s t X
SMOVE s t Y
SMOVE t s X
SINTER s t
SUNION s t
SDIFF s t
SDIFF t s
SINTERSTORE d s t
SUNIONSTORE d s t
SDIFFSTORE s t s
SADD X Y
SPOP s`)
}

func keyTwins() []family {
	return twinFams("keys", "X Y", 2, map[string]string{"one": "SET X 1", "both": "RPUSH X a; SADD Y m", "mixed": "HSET Y f v; SETEX X 50 v"}, `
SET X 1
SET Y 2
RPUSH X a
SADD Y m
HSET X f v
DEL X
DEL Y
DEL Y X
EXISTS X
EXISTS Y
EXISTS X Y X
TYPE X
TYPE Y
RENAME X Y
RENAME Y X
RENAME X X
EXPIRE X 20
TTL Y
KEYS *
MSET Y 1`)
}

func ttlTwins() []family {
	return twinFams("ttl", "X Y", 2, map[string]string{"one": "SETEX X 2 v; SET Y w", "both": "SETEX X 2 v; SETEX Y 40 w"}, `
EXPIRE X 10
EXPIRE Y 1
EXPIRE Y 30 NX
EXPIRE X 30 XX
EXPIRE Y 1 LT
PERSIST X
PERSIST Y
TTL X
TTL Y
SET X v
SET Y v KEEPTTL
SETEX Y 1 z
MSET Y 1
RENAME X Y
DEL X
APPEND Y q
@ 1000000000
@ 3000000000`)
}
