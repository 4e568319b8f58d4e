package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Families over the size of what is stored or named: one per size, every
// operation from a container of exactly that size, with indexes and counts
// around its ends and its middle.

func sizesOf(thorough bool) []int {
	var out []int
	top := 66
	if thorough {
		top = 270
	}
	for n := 1; n <= top; n++ {
		out = append(out, n)
	}
	mid := []int{48, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048}
	if thorough {
		mid = append(mid, 300, 400, 4096, 768, 1500, 2000, 3000, 5000, 8192, 10000)
	}
	for _, m := range mid {
		for n := m - 1; n <= m+1; n++ {
			if n > top {
				out = append(out, n)
			}
		}
	}
	return out
}

func uniq(ls ...int) []string {
	var out []string
	seen := map[int]bool{}
	for _, n := range ls {
		if !seen[n] {
			seen[n] = true
			out = append(out, strconv.Itoa(n))
		}
	}
	return out
}

func rng(n int, f func(i int) string) string {
	w := make([]string, n)
	for i := range w {
		w[i] = f(i)
	}
	return strings.Join(w, " ")
}

// text is n distinguishable bytes.
func text(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i+i/36)%36]
	}
	return string(b)
}

func listSize(n int) family {
	idx := uniq(0, 1, n/2-1, n/2, n/2+1, n-2, n-1, n, n+1, -1, -2, -n/2, -n/2-1, -n+1, -n, -n-1)
	few := uniq(0, 1, n/2, n-1, n, -1, -n/2, -n, -n-1)
	cnt := uniq(1, 2, n/2+1, n-1, n, n+1)
	el := func(i int) string { return "e" + strconv.Itoa(i%(n/2+1)) }
	piv := []string{el(0), el(n / 2), el(n - 1), "nope"}
	if n > 40 {
		few = uniq(0, n/2, n-1, -1, -n, -n-1)
	}
	var cnt2 []string // counts are at least 1
	for _, c := range cnt {
		if c != "0" {
			cnt2 = append(cnt2, c)
		}
	}
	// half a list pushed at the left, half at the right
	h := n / 2
	mixed := "RPUSH l " + rng(n-h, func(i int) string { return el(h + i) })
	if h > 0 {
		mixed = "LPUSH l " + rng(h, func(i int) string { return el(h - 1 - i) }) + ";" + mixed
	}
	return family{
		name: "list-size-" + strconv.Itoa(n), keys: []string{"l", "m"}, qd: 1, td: 1, seg: 2,
		inits: map[string]string{"pushed": "RPUSH l " + rng(n, el), "mixed": mixed + ";RPUSH m x"},
		ops: cat(
			cmds("LLEN l\nLRANGE l 0 -1\nEXISTS l\nRENAME l m\nLMOVE l l RIGHT LEFT\nLMOVE l l LEFT RIGHT\nLMOVE l m LEFT LEFT\nLMOVE m l LEFT RIGHT\nLPOP l\nRPOP l\nRPUSHX l z\nLPUSHX l z y"),
			cross("LINDEX l %s", idx), cross("LSET l %s X", idx),
			cross("%s l %s %s", []string{"LRANGE", "LTRIM"}, few, few),
			cross("%s l %s", []string{"LPOP", "RPOP"}, cnt2),
			cross("LREM l %s %s", uniq(0, 1, 2, -1, -2, n, -n), piv),
			cross("LINSERT l %s %s N", []string{"BEFORE", "AFTER"}, piv),
			cross("LPOS l %s", piv), cross("LPOS l %s RANK %s COUNT 0", piv, []string{"1", "2", "-1", "-2"}),
			cross("LPOS l %s COUNT 0 MAXLEN %s", piv, uniq(1, n/2, n-1, n, n+1)),
			cross("LPOS l %s RANK -1 MAXLEN %s", piv, uniq(1, n/2, n-1, n)),
			cmds("LPUSH l "+rng(n, func(i int) string { return "p" + strconv.Itoa(i) })+"\nRPUSH m "+rng(n, func(i int) string { return "p" + strconv.Itoa(i) })),
		),
	}
}

// rep bounds how many random picks with repetition are asked of a container
// of n elements: each pick starts a walk over a map, and a walk is sorted here,
// so that the cost of the picks is quadratic in n (an artefact of the harness).
func rep(n int) int {
	if n > 2049 {
		return 101
	}
	return n
}

func hashSize(n int) family {
	f := func(i int) string { return "f" + strconv.Itoa(i) }
	fv := func(i int) string { return f(i) + " v" + strconv.Itoa(i) }
	some := []string{f(0), f(n / 2), f(n - 1), f(n)}
	return family{
		name: "hash-size-" + strconv.Itoa(n), keys: []string{"h"}, qd: 1, td: 1, seg: 2,
		inits: map[string]string{"set": "HSET h " + rng(n, fv), "twice": "HMSET h " + rng(n, fv) + ";HSET h " + rng(n/2+1, func(i int) string { return f(i) + " w" })},
		ops: cat(
			cmds("HLEN h\nHGETALL h\nHKEYS h\nHVALS h\nHRANDFIELD h\nRENAME h k"),
			cross("%s h %s", []string{"HGET", "HEXISTS", "HSTRLEN", "HDEL"}, some),
			cross("%s h %s 7", []string{"HSET", "HSETNX"}, some),
			cross("HINCRBY h %s 7", []string{"cnt", f(0)}),
			cross("HRANDFIELD h %s", uniq(1, n-1, n, n+1, -1, -rep(n), -rep(n)-1, 2*n)),
			cross("HRANDFIELD h %s WITHVALUES", uniq(1, n-1, n, n+1, -rep(n)-1)),
			cmds("HDEL h "+rng(n, f)+"\nHDEL h "+rng(n+1, f)+"\nHDEL h nope "+rng(n-1, func(i int) string { return f(i + 1) })+"\nHMGET h "+rng(n+1, f)+"\nHSET h "+rng(n, func(i int) string { return f(n/2+i) + " new" })),
		),
	}
}

func setSize(n int) family {
	m := func(i int) string { return "m" + strconv.Itoa(i) }
	some := []string{m(0), m(n / 2), m(n - 1), m(n)}
	return family{
		name: "set-size-" + strconv.Itoa(n), keys: []string{"s", "t", "d"}, qd: 1, td: 1, seg: 2,
		inits: map[string]string{
			"half":  "SADD s " + rng(n, m) + ";SADD t " + rng(n, func(i int) string { return m(n/2 + i) }),
			"small": "SADD s " + rng(n, m) + ";SADD t m0 x;SADD d old",
		},
		ops: cat(
			cmds("SCARD s\nSMEMBERS s\nSPOP s\nSRANDMEMBER s\nRENAME s t"),
			cross("%s s %s", []string{"SISMEMBER", "SREM", "SADD"}, some),
			cross("SMOVE s t %s", some), cross("SMOVE t s %s", some),
			cross("%s %s %s", []string{"SINTER", "SUNION", "SDIFF"}, []string{"s", "t"}, []string{"s", "t", "d"}),
			cross("%s %s s t", []string{"SINTERSTORE", "SUNIONSTORE", "SDIFFSTORE"}, []string{"d", "s", "t"}),
			cross("%s d t s", []string{"SINTERSTORE", "SDIFFSTORE"}),
			cross("SPOP s %s", uniq(1, n/2+1, n, n+1)),
			cross("SRANDMEMBER s %s", uniq(1, n-1, n, n+1, -1, -rep(n), -rep(n)-1, 2*n)),
			cmds("SREM s "+rng(n, m)+"\nSREM s nope "+rng(n/2+1, m)+"\nSADD s "+rng(n, func(i int) string { return m(n/2 + i) })),
		),
	}
}

func stringSize(n int) family {
	ix := uniq(0, 1, n/2, n-2, n-1, n, n+1, -1, -2, -n/2, -n, -n-1)
	var off []string
	for _, o := range uniq(0, 1, n/2, n-2, n-1, n, n+1, 2*n) {
		if o[0] != '-' {
			off = append(off, o)
		}
	}
	return family{
		name: "string-size-" + strconv.Itoa(n), keys: []string{"k", "q"}, qd: 1, td: 1, seg: 2,
		inits: map[string]string{"set": "SET k " + text(n), "grown": "SET k " + text((n+1)/2) + ";APPEND k " + text(n/2 + 1)[:n/2] + "z;SET q " + text(n)},
		ops: cat(
			cmds("STRLEN k\nGET k\nAPPEND k x\nAPPEND k "+text(n)+"\nSET q "+text(n)+" GET\nSET k "+text(n+1)+" XX GET\nSETNX q "+text(n)+"\nSETEX k 100 "+text(n)+"\nRENAME k q\nINCR k\nMSET k "+text(n)+" q "+text(n+1)+"\nMGET k q k"),
			cross("GETRANGE k %s %s", ix, ix),
			cross("SETRANGE k %s XY", off), cross("SETRANGE k %s "+text(n), off),
		),
	}
}

func keysSize(n int) family {
	k := func(i int) string { return "k" + strconv.Itoa(i) }
	kv := func(i int) string { return k(i) + " v" + strconv.Itoa(i) }
	long := text(n)
	probe := []string{k(0), k(n - 1), "x", long}
	if n == 1 {
		long = "y"
		probe = []string{k(0), "x", long}
	}
	return family{
		name: "keys-size-" + strconv.Itoa(n), keys: probe, qd: 1, td: 1, seg: 3,
		inits: map[string]string{"keys": "MSET " + rng(n, kv) + ";RPUSH x a", "name": "SET " + long + " v;EXPIRE " + long + " 50"},
		ops: cat(
			cmds("KEYS *\nKEYS k*\nKEYS ?*\nKEYS "+long+"\nKEYS "+long+"*\nKEYS *"+long+"\nKEYS "+strings.Repeat("?", n)+"\nKEYS "+strings.Repeat("*", n)),
			cross("%s "+long, []string{"TYPE", "TTL", "DEL", "EXISTS", "PERSIST", "GET"}),
			cmds("SET "+long+" w\nRENAME x "+long+"\nRENAME "+long+" x\nEXPIRE "+long+" 20"),
			cmds("DEL "+rng(n, k)+"\nDEL nope "+rng(n, k)+" x\nEXISTS "+rng(n, k)+" x "+k(0)+"\nMGET "+rng(n+1, k)+"\nMSET "+rng(n+1, func(i int) string { return k(n-i) + " w" })+"\nMSET "+rng(n, func(i int) string { return "x w" + strconv.Itoa(i) })),
			cmds("SUNIONSTORE d "+rng(n, func(i int) string { return "s" + strconv.Itoa(i) })+"\nSINTER "+rng(n, func(i int) string { return "s" + strconv.Itoa(i) })),
		),
	}
}

// widthFam: integers of every number of digits and around every power of two.
func widthFam() family {
	f := family{name: "string-width", keys: []string{"k"}, qd: 1, td: 2, seg: 2, inits: map[string]string{}}
	add := func(n int64) {
		f.inits[fmt.Sprint(n)] = fmt.Sprintf("SET k %d", n)
	}
	p := int64(1)
	for i := 0; i <= 18; i++ {
		for d := int64(-1); d <= 1; d++ {
			add(p + d)
			add(-(p + d))
		}
		if i < 18 {
			p *= 10
		}
	}
	for i := 1; i < 63; i++ {
		p := int64(1) << i
		for d := int64(-1); d <= 1; d++ {
			add(p + d)
			add(-(p + d))
		}
	}
	add(1<<63 - 1)
	add(-1 << 63)
	f.ops = cmds("GET k\nINCR k\nDECR k\nINCRBY k 1\nINCRBY k -2\nDECRBY k 2\nDECRBY k -1\nINCRBY k 0\nINCRBY k 9223372036854775807\nINCRBY k -9223372036854775808\nDECRBY k 9223372036854775807\nSTRLEN k\nAPPEND k 0\nINCRBY k 4294967296\nDECRBY k 2147483648")
	return f
}

func hashWidthFam() family {
	w := widthFam()
	f := family{name: "hash-width", keys: []string{"h"}, qd: 1, td: 2, seg: 2, inits: map[string]string{}}
	for k := range w.inits {
		f.inits[k] = "HSET h f " + k
	}
	f.ops = cmds("HGET h f\nHINCRBY h f 1\nHINCRBY h f -1\nHINCRBY h f 2\nHINCRBY h f -2\nHINCRBY h f 0\nHINCRBY h f 9223372036854775807\nHINCRBY h f -9223372036854775808\nHINCRBY h f 4294967296\nHSTRLEN h f")
	return f
}

func withSizes(fams []family, size func(n int) family, more ...family) func(bool) []Case {
	return func(thorough bool) []Case {
		all := append(append([]family(nil), fams...), more...)
		for _, n := range sizesOf(thorough) {
			all = append(all, size(n))
		}
		return casesOf(all)(thorough)
	}
}
