package model

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

const (
	TString = "string"
	THash   = "hash"
	TList   = "list"
	TSet    = "set"
)

type Val struct {
	Type string
	Str  string
	Hash map[string]string
	List []string
	Set  map[string]bool
	// deadline as a clock second; HasTTL false: none
	HasTTL bool
	Dead   int64
}

// DB is one database.
type DB struct {
	Keys map[string]*Val
}

func NewDB() *DB { return &DB{Keys: map[string]*Val{}} }

func (v *Val) clone() *Val {
	c := *v
	if v.Hash != nil {
		c.Hash = make(map[string]string, len(v.Hash))
		for k, x := range v.Hash {
			c.Hash[k] = x
		}
	}
	if v.Set != nil {
		c.Set = make(map[string]bool, len(v.Set))
		for k := range v.Set {
			c.Set[k] = true
		}
	}
	c.List = append([]string(nil), v.List...)
	return &c
}

func (d *DB) Clone() *DB {
	n := NewDB()
	for k, v := range d.Keys {
		n.Keys[k] = v.clone()
	}
	return n
}

// Canon renders the live keyspace at second now.
func (d *DB) Canon(now int64) string {
	var b strings.Builder
	for _, k := range d.sorted() {
		v := d.Keys[k]
		if v.HasTTL && now > v.Dead {
			continue
		}
		fmt.Fprintf(&b, "%q:", k)
		switch v.Type {
		case TString:
			fmt.Fprintf(&b, "s%q", v.Str)
		case THash:
			fmt.Fprintf(&b, "h")
			for _, f := range sortedKeys(v.Hash) {
				fmt.Fprintf(&b, "%q=%q,", f, v.Hash[f])
			}
		case TList:
			fmt.Fprintf(&b, "l%q", v.List)
		case TSet:
			fmt.Fprintf(&b, "S%q", setKeys(v.Set))
		}
		if v.HasTTL {
			fmt.Fprintf(&b, "@%d", v.Dead-now)
		}
		b.WriteByte(';')
	}
	return b.String()
}

func (d *DB) sorted() []string {
	ks := make([]string, 0, len(d.Keys))
	for k := range d.Keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func setKeys(m map[string]bool) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Expire drops every key whose deadline second is past.
func (d *DB) Expire(now int64) {
	for k, v := range d.Keys {
		if v.HasTTL && now > v.Dead {
			delete(d.Keys, k)
		}
	}
}

func ok() Want             { return Want{Kind: WStatus, S: "OK"} }
func status(s string) Want { return Want{Kind: WStatus, S: s} }
func errw() Want           { return Want{Kind: WError} }
func num(i int64) Want     { return Want{Kind: WInt, I: i} }
func numi(i int) Want      { return Want{Kind: WInt, I: int64(i)} }
func bulk(s string) Want   { return Want{Kind: WBulk, S: s} }
func null() Want           { return Want{Kind: WNull} }
func list(l []string) Want {
	w := Want{Kind: WList}
	for _, s := range l {
		w.Els = append(w.Els, Elem{S: s})
	}
	return w
}
func set(l []string) Want { w := list(l); w.Kind = WSet; return w }

// MaxString is the largest value size a client may build.
const MaxString = 512 << 20

func atoi(s string) (int64, bool) {
	v, err := strconv.ParseInt(s, 10, 64)
	return v, err == nil
}

func addOvf(a, b int64) (int64, bool) {
	s := a + b
	if (b > 0 && s < a) || (b < 0 && s > a) {
		return 0, true
	}
	return s, false
}

// Picked applies the outcome of a random removal.
type after func(r Reply)

// Exec runs one command at the given time (nanoseconds).  The returned
// function, if any, must be called with the actual (matching) reply: it
// applies the effect of a random choice.
func (d *DB) Exec(args []string, nowNS int64) (Want, func(r Reply)) {
	now := floorDiv(nowNS, 1e9)
	d.Expire(now)
	w, f := d.exec(args, now, nowNS)
	return w, f
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func (d *DB) get(k string) *Val { return d.Keys[k] }

// typed returns the value at k if it has type t; bad is true on another type.
func (d *DB) typed(k, t string) (v *Val, bad bool) {
	v = d.Keys[k]
	if v != nil && v.Type != t {
		return nil, true
	}
	return v, false
}

func (d *DB) drop(k string, v *Val) {
	if (v.Type == THash && len(v.Hash) == 0) || (v.Type == TList && len(v.List) == 0) || (v.Type == TSet && len(v.Set) == 0) {
		delete(d.Keys, k)
	}
}

func (d *DB) exec(a []string, now, nowNS int64) (Want, func(Reply)) {
	if len(a) == 0 {
		return errw(), nil
	}
	cmd := strings.ToLower(a[0])
	n := len(a)
	// arity
	ar, known := arity[cmd]
	if !known {
		return errw(), nil
	}
	if n < ar[0] || (ar[1] > 0 && n > ar[1]) {
		return errw(), nil
	}
	switch cmd {
	case "ping":
		if n == 1 {
			return status("PONG"), nil
		}
		return bulk(a[1]), nil
	case "del":
		c := 0
		for _, k := range a[1:] {
			if d.get(k) != nil {
				c++
				delete(d.Keys, k)
			}
		}
		return numi(c), nil
	case "exists":
		c := 0
		for _, k := range a[1:] {
			if d.get(k) != nil {
				c++
			}
		}
		return numi(c), nil
	case "keys":
		var l []string
		for _, k := range d.sorted() {
			if Glob(a[1], k) {
				l = append(l, k)
			}
		}
		return set(l), nil
	case "type":
		if v := d.get(a[1]); v != nil {
			return status(v.Type), nil
		}
		return status("none"), nil
	case "ttl":
		v := d.get(a[1])
		if v == nil {
			return num(-2), nil
		}
		if !v.HasTTL {
			return num(-1), nil
		}
		return num(v.Dead - now), nil
	case "persist":
		v := d.get(a[1])
		if v == nil || !v.HasTTL {
			return num(0), nil
		}
		v.HasTTL = false
		return num(1), nil
	case "expire":
		return d.expire(a, now), nil
	case "rename":
		v := d.get(a[1])
		if v == nil {
			return errw(), nil
		}
		delete(d.Keys, a[1])
		d.Keys[a[2]] = v
		return ok(), nil
	}
	if w, f, done := d.stringCmd(cmd, a, now, nowNS); done {
		return w, f
	}
	if w, f, done := d.hashCmd(cmd, a); done {
		return w, f
	}
	if w, f, done := d.listCmd(cmd, a); done {
		return w, f
	}
	return d.setCmd(cmd, a)
}

// arity: minimal and maximal number of words (0: no maximum).
var arity = map[string][2]int{
	"ping": {1, 2}, "del": {2, 0}, "exists": {2, 0}, "keys": {2, 2}, "expire": {3, 4}, "persist": {2, 2},
	"ttl": {2, 2}, "rename": {3, 3}, "type": {2, 2},
	"set": {3, 0}, "get": {2, 2}, "getrange": {4, 4}, "setrange": {4, 4}, "mget": {2, 0}, "mset": {3, 0},
	"setex": {4, 4}, "setnx": {3, 3}, "strlen": {2, 2}, "incr": {2, 2}, "incrby": {3, 3}, "decr": {2, 2},
	"decrby": {3, 3}, "incrbyfloat": {3, 3}, "append": {3, 3},
	"hdel": {3, 0}, "hexists": {3, 3}, "hget": {3, 3}, "hgetall": {2, 2}, "hincrby": {4, 4}, "hincrbyfloat": {4, 4},
	"hkeys": {2, 2}, "hlen": {2, 2}, "hmget": {3, 0}, "hmset": {4, 0}, "hset": {4, 0}, "hsetnx": {4, 4},
	"hvals": {2, 2}, "hstrlen": {3, 3}, "hrandfield": {2, 4},
	"lindex": {3, 3}, "linsert": {5, 5}, "llen": {2, 2}, "lmove": {5, 5}, "lpop": {2, 3}, "lpos": {3, 9},
	"lpush": {3, 0}, "lpushx": {3, 0}, "lrange": {4, 4}, "lrem": {4, 4}, "lset": {4, 4}, "ltrim": {4, 4},
	"rpop": {2, 3}, "rpush": {3, 0}, "rpushx": {3, 0},
	"sadd": {3, 0}, "scard": {2, 2}, "sdiff": {2, 0}, "sdiffstore": {3, 0}, "sinter": {2, 0}, "sinterstore": {3, 0},
	"sismember": {3, 3}, "smembers": {2, 2}, "smove": {4, 4}, "spop": {2, 3}, "srandmember": {2, 3}, "srem": {3, 0},
	"sunion": {2, 0}, "sunionstore": {3, 0},
}

// Commands is the documented command table.
func Commands() []string {
	var l []string
	for c := range arity {
		l = append(l, c)
	}
	sort.Strings(l)
	return l
}

func Arity(c string) (int, int) { x := arity[c]; return x[0], x[1] }

const maxSec = math.MaxInt64 / 1000 // beyond this a deadline in milliseconds overflows

func (d *DB) expire(a []string, now int64) Want {
	sec, isInt := atoi(a[2])
	opt := ""
	if len(a) == 4 {
		opt = strings.ToLower(a[3])
	}
	v := d.get(a[1])
	bad := func() Want {
		if v == nil {
			return errw().Or(num(0))
		}
		return errw()
	}
	if !isInt {
		return bad()
	}
	if opt != "" && opt != "nx" && opt != "xx" && opt != "gt" && opt != "lt" {
		return bad()
	}
	if sec > maxSec-now || sec < -maxSec {
		return bad()
	}
	if v == nil {
		return num(0)
	}
	dead := now + sec
	switch opt {
	case "nx":
		if v.HasTTL {
			return num(0)
		}
	case "xx":
		if !v.HasTTL {
			return num(0)
		}
	case "gt":
		if !v.HasTTL || dead <= v.Dead {
			return num(0)
		}
	case "lt":
		if v.HasTTL && dead >= v.Dead {
			return num(0)
		}
	}
	v.HasTTL, v.Dead = true, dead
	d.Expire(now)
	return num(1)
}

// ---------------------------------------------------------------- strings

func (d *DB) setStr(k, s string) *Val {
	v := &Val{Type: TString, Str: s}
	d.Keys[k] = v
	return v
}

func (d *DB) stringCmd(cmd string, a []string, now, nowNS int64) (Want, func(Reply), bool) {
	w, done := d.str1(cmd, a, now, nowNS)
	return w, nil, done
}

func (d *DB) str1(cmd string, a []string, now, nowNS int64) (Want, bool) {
	n := len(a)
	switch cmd {
	case "set":
		return d.setCommand(a, now, nowNS), true
	case "get":
		v, bad := d.typed(a[1], TString)
		if bad {
			return errw(), true
		}
		if v == nil {
			return null(), true
		}
		return bulk(v.Str), true
	case "strlen":
		v, bad := d.typed(a[1], TString)
		if bad {
			return errw(), true
		}
		if v == nil {
			return num(0), true
		}
		return numi(len(v.Str)), true
	case "getrange":
		s, ok1 := atoi(a[2])
		e, ok2 := atoi(a[3])
		v, bad := d.typed(a[1], TString)
		if !ok1 || !ok2 {
			if v == nil && !bad {
				return errw().Or(bulk("")), true
			}
			return errw(), true
		}
		if bad {
			return errw(), true
		}
		if v == nil {
			return bulk(""), true
		}
		l := int64(len(v.Str))
		var alt *Want
		if e < -l && l > 0 && s <= e {
			// Redis clamps such an end to 0, documentation is silent
			x := bulk(v.Str[:1])
			alt = &x
		}
		if s < 0 {
			if s += l; s < 0 {
				s = 0
			}
		}
		if e < 0 {
			e += l
		}
		if e >= l {
			e = l - 1
		}
		r := ""
		if e >= 0 && s <= e {
			r = v.Str[s : e+1]
		}
		w := bulk(r)
		w.Alt = alt
		return w, true
	case "setrange":
		off, isInt := atoi(a[2])
		if !isInt || off < 0 {
			return errw(), true
		}
		v, bad := d.typed(a[1], TString)
		if bad {
			return errw(), true
		}
		cur := ""
		if v != nil {
			cur = v.Str
		}
		if a[3] == "" {
			return numi(len(cur)), true
		}
		if off > MaxString || off+int64(len(a[3])) > MaxString {
			return errw(), true
		}
		b := []byte(cur)
		for int64(len(b)) < off+int64(len(a[3])) {
			b = append(b, 0)
		}
		copy(b[off:], a[3])
		if v == nil {
			v = d.setStr(a[1], "")
		}
		v.Str = string(b)
		return numi(len(b)), true
	case "append":
		v, bad := d.typed(a[1], TString)
		if bad {
			return errw(), true
		}
		if v == nil {
			v = d.setStr(a[1], "")
		}
		v.Str += a[2]
		return numi(len(v.Str)), true
	case "mget":
		w := Want{Kind: WList}
		for _, k := range a[1:] {
			v, bad := d.typed(k, TString)
			if bad || v == nil {
				w.Els = append(w.Els, Elem{Null: true})
			} else {
				w.Els = append(w.Els, Elem{S: v.Str})
			}
		}
		return w, true
	case "mset":
		if n%2 == 0 {
			return errw(), true
		}
		for i := 1; i < n; i += 2 {
			d.setStr(a[i], a[i+1])
		}
		return ok(), true
	case "setex":
		sec, isInt := atoi(a[2])
		if !isInt || sec <= 0 || sec > maxSec-now {
			return errw(), true
		}
		v := d.setStr(a[1], a[3])
		v.HasTTL, v.Dead = true, now+sec
		return ok(), true
	case "setnx":
		if d.get(a[1]) != nil {
			return num(0), true
		}
		d.setStr(a[1], a[2])
		return num(1), true
	case "incr", "decr", "incrby", "decrby":
		by := int64(1)
		if n == 3 {
			var isInt bool
			by, isInt = atoi(a[2])
			if !isInt {
				return errw(), true
			}
		}
		if cmd[0] == 'd' {
			if by == math.MinInt64 {
				return errw(), true
			}
			by = -by
		}
		v, bad := d.typed(a[1], TString)
		if bad {
			return errw(), true
		}
		cur := int64(0)
		if v != nil {
			var isInt bool
			cur, isInt = atoi(v.Str)
			if !isInt {
				return errw(), true
			}
		}
		s, ovf := addOvf(cur, by)
		if ovf {
			return errw(), true
		}
		if v == nil {
			v = d.setStr(a[1], "")
		}
		v.Str = strconv.FormatInt(s, 10)
		return num(s), true
	case "incrbyfloat":
		by, isF := atof(a[2])
		v, bad := d.typed(a[1], TString)
		if bad || !isF {
			return errw(), true
		}
		cur := 0.0
		if v != nil {
			var isF bool
			if cur, isF = atof(v.Str); !isF {
				return errw(), true
			}
		}
		s := cur + by
		if math.IsInf(s, 0) || math.IsNaN(s) {
			return errw(), true
		}
		if v == nil {
			v = d.setStr(a[1], "")
		}
		v.Str = ftoa(s)
		return bulk(v.Str), true
	}
	return Want{}, false
}

func atof(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
		return 0, false
	}
	return f, true
}

func ftoa(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func (d *DB) setCommand(a []string, now, nowNS int64) Want {
	var nx, xx, get, keep, timed bool
	var dead int64
	nt := 0
	for i := 3; i < len(a); i++ {
		o := strings.ToLower(a[i])
		switch o {
		case "nx":
			nx = true
		case "xx":
			xx = true
		case "get":
			get = true
		case "keepttl":
			keep = true
			nt++
		case "ex", "px", "exat", "pxat":
			nt++
			i++
			if i >= len(a) {
				return errw()
			}
			x, isInt := atoi(a[i])
			if !isInt || x <= 0 {
				return errw()
			}
			timed = true
			switch o {
			case "ex":
				if x > maxSec-now {
					return errw()
				}
				dead = now + x
			case "px":
				ms := floorDiv(nowNS, 1e6)
				if x > math.MaxInt64-ms {
					return errw()
				}
				dead = (ms + x) / 1000
			case "exat":
				if x > maxSec {
					return errw()
				}
				dead = x
			case "pxat":
				dead = x / 1000
			}
		default:
			return errw()
		}
	}
	if nx && xx || nt > 1 {
		return errw()
	}
	old := d.get(a[1])
	if get && old != nil && old.Type != TString {
		return errw()
	}
	w := ok()
	if get {
		w = null()
		if old != nil {
			w = bulk(old.Str)
		}
	}
	if nx && old != nil || xx && old == nil {
		if get {
			return w
		}
		return null()
	}
	v := d.setStr(a[1], a[2])
	if keep && old != nil {
		v.HasTTL, v.Dead = old.HasTTL, old.Dead
	}
	if timed {
		v.HasTTL, v.Dead = true, dead
		d.Expire(now)
	}
	return w
}

// ------------------------------------------------------------------ hashes

func (d *DB) hashCmd(cmd string, a []string) (Want, func(Reply), bool) {
	if cmd[0] != 'h' {
		return Want{}, nil, false
	}
	v, bad := d.typed(a[1], THash)
	n := len(a)
	wr := func() {
		if v == nil {
			v = &Val{Type: THash, Hash: map[string]string{}}
			d.Keys[a[1]] = v
		}
	}
	h := map[string]string{}
	if v != nil {
		h = v.Hash
	}
	r := func(w Want) (Want, func(Reply), bool) { return w, nil, true }
	switch cmd {
	case "hset", "hmset":
		if n%2 == 1 || bad {
			return r(errw())
		}
		wr()
		c := 0
		for i := 2; i < n; i += 2 {
			if _, in := v.Hash[a[i]]; !in {
				c++
			}
			v.Hash[a[i]] = a[i+1]
		}
		if cmd == "hmset" {
			return r(ok())
		}
		return r(numi(c))
	case "hrandfield":
		cnt, isInt := int64(1), true
		if n >= 3 {
			cnt, isInt = atoi(a[2])
		}
		wv := n == 4 && strings.ToLower(a[3]) == "withvalues"
		if !isInt || n == 4 && !wv || cnt < -math.MaxInt64/2 {
			if v == nil && !bad {
				return r(errw().Or(null()).orEmpty())
			}
			return r(errw())
		}
		if bad {
			return r(errw())
		}
		fs := sortedKeys(h)
		if n == 2 {
			if v == nil {
				return r(null())
			}
			return r(Want{Kind: WOneOf, From: fs})
		}
		w := Want{Kind: WPicks, From: fs, Vals: h, Distinct: cnt > 0}
		if wv {
			w.Kind = WPickVal
		}
		if cnt < 0 {
			w.N = int(-cnt)
			if v == nil {
				w.N = 0
			}
		} else {
			w.N = int(cnt)
			if cnt > int64(len(fs)) {
				w.N = len(fs)
			}
		}
		if w.N > Absurd {
			return r(errw().Or(w))
		}
		return r(w)
	}
	if bad {
		return r(errw())
	}
	switch cmd {
	case "hsetnx":
		if _, in := h[a[2]]; in {
			return r(num(0))
		}
		wr()
		v.Hash[a[2]] = a[3]
		return r(num(1))
	case "hget":
		x, in := h[a[2]]
		if !in {
			return r(null())
		}
		return r(bulk(x))
	case "hmget":
		w := Want{Kind: WList}
		for _, f := range a[2:] {
			if x, in := h[f]; in {
				w.Els = append(w.Els, Elem{S: x})
			} else {
				w.Els = append(w.Els, Elem{Null: true})
			}
		}
		return r(w)
	case "hgetall":
		w := Want{Kind: WPairs}
		for _, f := range sortedKeys(h) {
			w.Els = append(w.Els, Elem{S: f}, Elem{S: h[f]})
		}
		return r(w)
	case "hkeys":
		return r(set(sortedKeys(h)))
	case "hvals":
		var l []string
		for _, x := range h {
			l = append(l, x)
		}
		sort.Strings(l)
		return r(set(l))
	case "hlen":
		return r(numi(len(h)))
	case "hexists":
		if _, in := h[a[2]]; in {
			return r(num(1))
		}
		return r(num(0))
	case "hstrlen":
		return r(numi(len(h[a[2]])))
	case "hdel":
		c := 0
		for _, f := range a[2:] {
			if _, in := h[f]; in {
				c++
				delete(h, f)
			}
		}
		if v != nil {
			d.drop(a[1], v)
		}
		return r(numi(c))
	case "hincrby":
		by, isInt := atoi(a[3])
		if !isInt {
			return r(errw())
		}
		cur := int64(0)
		if x, in := h[a[2]]; in {
			if cur, isInt = atoi(x); !isInt {
				return r(errw())
			}
		}
		s, ovf := addOvf(cur, by)
		if ovf {
			return r(errw())
		}
		wr()
		v.Hash[a[2]] = strconv.FormatInt(s, 10)
		return r(num(s))
	case "hincrbyfloat":
		by, isF := atof(a[3])
		if !isF {
			return r(errw())
		}
		cur := 0.0
		if x, in := h[a[2]]; in {
			if cur, isF = atof(x); !isF {
				return r(errw())
			}
		}
		s := cur + by
		if math.IsInf(s, 0) || math.IsNaN(s) {
			return r(errw())
		}
		wr()
		v.Hash[a[2]] = ftoa(s)
		return r(bulk(ftoa(s)))
	}
	return Want{}, nil, false
}

// Absurd is the number of picks above which a server may refuse a random
// command instead of building the reply.
const Absurd = 1 << 20

func (w Want) orEmpty() Want {
	e := Want{Kind: WList}
	p := &w
	for p.Alt != nil {
		q := *p.Alt
		p.Alt = &q
		p = p.Alt
	}
	p.Alt = &e
	return w
}

// ------------------------------------------------------------------- lists

func (d *DB) listCmd(cmd string, a []string) (Want, func(Reply), bool) {
	switch cmd {
	case "lindex", "linsert", "llen", "lmove", "lpop", "lpos", "lpush", "lpushx", "lrange", "lrem", "lset", "ltrim", "rpop", "rpush", "rpushx":
	default:
		return Want{}, nil, false
	}
	return d.list1(cmd, a), nil, true
}

func rangeOf(l int, s, e int64) (int, int) {
	n := int64(l)
	if s < 0 {
		if s += n; s < 0 {
			s = 0
		}
	}
	if e < 0 {
		e += n
	}
	if e >= n {
		e = n - 1
	}
	if e < 0 || s > e {
		return 0, 0
	}
	return int(s), int(e) + 1
}

func (d *DB) list1(cmd string, a []string) Want {
	k := a[1]
	v, bad := d.typed(k, TList)
	n := len(a)
	argErr := func(missing Want) Want {
		if v == nil && !bad {
			return errw().Or(missing)
		}
		return errw()
	}
	wr := func() {
		if v == nil {
			v = &Val{Type: TList}
			d.Keys[k] = v
		}
	}
	var l []string
	if v != nil {
		l = v.List
	}
	at := func(i int64) (int, bool) {
		if i < 0 {
			i += int64(len(l))
		}
		if i < 0 || i >= int64(len(l)) {
			return 0, false
		}
		return int(i), true
	}
	switch cmd {
	case "llen":
		if bad {
			return errw()
		}
		return numi(len(l))
	case "lpush", "rpush", "lpushx", "rpushx":
		if bad {
			return errw()
		}
		if strings.HasSuffix(cmd, "x") && v == nil {
			return num(0)
		}
		wr()
		for _, e := range a[2:] {
			if cmd[0] == 'l' {
				v.List = append([]string{e}, v.List...)
			} else {
				v.List = append(v.List, e)
			}
		}
		return numi(len(v.List))
	case "lpop", "rpop":
		cnt := int64(1)
		if n == 3 {
			var isInt bool
			cnt, isInt = atoi(a[2])
			if !isInt || cnt < 0 {
				return argErr(null()).orEmpty2(v == nil && !bad)
			}
			if cnt == 0 {
				// nothing to pop; servers differ between empty, null and error
				if bad {
					return errw()
				}
				return Want{Kind: WList}.Or(errw())
			}
		}
		if bad {
			return errw()
		}
		if v == nil {
			return null().orEmpty2(n == 3)
		}
		if cnt > int64(len(l)) {
			cnt = int64(len(l))
		}
		var out []string
		for i := 0; i < int(cnt); i++ {
			if cmd[0] == 'l' {
				out = append(out, v.List[0])
				v.List = v.List[1:]
			} else {
				out = append(out, v.List[len(v.List)-1])
				v.List = v.List[:len(v.List)-1]
			}
		}
		d.drop(k, v)
		if n == 2 {
			return bulk(out[0])
		}
		return list(out)
	case "lrange":
		s, ok1 := atoi(a[2])
		e, ok2 := atoi(a[3])
		if !ok1 || !ok2 {
			return argErr(null()).orEmpty2(v == nil && !bad)
		}
		if bad {
			return errw()
		}
		i, j := rangeOf(len(l), s, e)
		return list(l[i:j])
	case "lindex":
		i, isInt := atoi(a[2])
		if !isInt {
			return argErr(null())
		}
		if bad {
			return errw()
		}
		p, in := at(i)
		if !in {
			return null()
		}
		return bulk(l[p])
	case "lset":
		i, isInt := atoi(a[2])
		if !isInt || bad || v == nil {
			return errw()
		}
		p, in := at(i)
		if !in {
			return errw()
		}
		l[p] = a[3]
		return ok()
	case "linsert":
		w := strings.ToLower(a[2])
		if w != "before" && w != "after" {
			return argErr(num(0))
		}
		if bad {
			return errw()
		}
		if v == nil {
			return num(0)
		}
		for i, e := range l {
			if e == a[3] {
				if w == "after" {
					i++
				}
				nl := append([]string{}, l[:i]...)
				nl = append(nl, a[4])
				v.List = append(nl, l[i:]...)
				return numi(len(v.List))
			}
		}
		return num(-1)
	case "lrem":
		c, isInt := atoi(a[2])
		if !isInt {
			return argErr(num(0))
		}
		if bad {
			return errw()
		}
		if v == nil {
			return num(0)
		}
		kill := map[int]bool{}
		if c >= 0 {
			for i := 0; i < len(l) && (c == 0 || int64(len(kill)) < c); i++ {
				if l[i] == a[3] {
					kill[i] = true
				}
			}
		} else {
			for i := len(l) - 1; i >= 0 && int64(len(kill)) < -(c+1)+1; i-- {
				if l[i] == a[3] {
					kill[i] = true
				}
			}
			if c == math.MinInt64 {
				kill = map[int]bool{}
				for i := range l {
					if l[i] == a[3] {
						kill[i] = true
					}
				}
			}
		}
		var nl []string
		for i, e := range l {
			if !kill[i] {
				nl = append(nl, e)
			}
		}
		v.List = nl
		d.drop(k, v)
		return numi(len(kill))
	case "ltrim":
		s, ok1 := atoi(a[2])
		e, ok2 := atoi(a[3])
		if !ok1 || !ok2 {
			return argErr(ok())
		}
		if bad {
			return errw()
		}
		if v == nil {
			return ok()
		}
		i, j := rangeOf(len(l), s, e)
		v.List = append([]string(nil), l[i:j]...)
		d.drop(k, v)
		return ok()
	case "lpos":
		return d.lpos(a, v, bad, l)
	case "lmove":
		f, t := strings.ToLower(a[3]), strings.ToLower(a[4])
		if f != "left" && f != "right" || t != "left" && t != "right" {
			return argErr(null())
		}
		if bad {
			return errw()
		}
		if v == nil {
			return null()
		}
		dv, dbad := d.typed(a[2], TList)
		if dbad {
			return errw()
		}
		var e string
		if f == "left" {
			e, v.List = l[0], append([]string(nil), l[1:]...)
		} else {
			e, v.List = l[len(l)-1], append([]string(nil), l[:len(l)-1]...)
		}
		if dv == nil {
			dv = &Val{Type: TList}
			d.Keys[a[2]] = dv
		}
		if t == "left" {
			dv.List = append([]string{e}, dv.List...)
		} else {
			dv.List = append(dv.List, e)
		}
		d.drop(k, v)
		return bulk(e)
	}
	return errw()
}

func (w Want) orEmpty2(c bool) Want {
	if c {
		return w.orEmpty()
	}
	return w
}

func (d *DB) lpos(a []string, v *Val, bad bool, l []string) Want {
	n := len(a)
	argErr := func() Want {
		if v == nil && !bad {
			return errw().Or(null()).orEmpty()
		}
		return errw()
	}
	rank, count, maxlen := int64(1), int64(-1), int64(0)
	if n%2 == 0 {
		return argErr()
	}
	for i := 3; i < n; i += 2 {
		x, isInt := atoi(a[i+1])
		if !isInt {
			return argErr()
		}
		switch strings.ToLower(a[i]) {
		case "rank":
			if x == 0 {
				return argErr()
			}
			if x == math.MinInt64 && !bad {
				// Redis refuses it, counting that far simply finds nothing
				return errw().Or(null()).orEmpty()
			}
			rank = x
		case "count":
			if x < 0 {
				return argErr()
			}
			count = x
		case "maxlen":
			if x < 0 {
				return argErr()
			}
			maxlen = x
		default:
			return argErr()
		}
	}
	if bad {
		return errw()
	}
	var hits []int
	step, i := 1, 0
	skip := rank - 1
	if rank < 0 {
		step, i = -1, len(l)-1
		skip = -rank - 1
	}
	for seen := int64(0); i >= 0 && i < len(l) && (maxlen == 0 || seen < maxlen); i, seen = i+step, seen+1 {
		if l[i] == a[2] {
			if skip > 0 {
				skip--
				continue
			}
			hits = append(hits, i)
		}
	}
	if count < 0 {
		if len(hits) == 0 {
			return null()
		}
		return numi(hits[0])
	}
	if count > 0 && int64(len(hits)) > count {
		hits = hits[:count]
	}
	w := Want{Kind: WList}
	for _, h := range hits {
		w.Els = append(w.Els, Elem{Int: true, I: int64(h)})
	}
	return w
}

// -------------------------------------------------------------------- sets

func (d *DB) setCmd(cmd string, a []string) (Want, func(Reply)) {
	n := len(a)
	switch cmd {
	case "sinter", "sunion", "sdiff":
		s, bad := d.algebra(cmd, a[1:])
		if bad {
			return errw(), nil
		}
		return set(setKeys(s)), nil
	case "sinterstore", "sunionstore", "sdiffstore":
		s, bad := d.algebra(strings.TrimSuffix(cmd, "store"), a[2:])
		if bad {
			return errw(), nil
		}
		delete(d.Keys, a[1])
		if len(s) > 0 {
			d.Keys[a[1]] = &Val{Type: TSet, Set: s}
		}
		return numi(len(s)), nil
	}
	k := a[1]
	v, bad := d.typed(k, TSet)
	m := map[string]bool{}
	if v != nil {
		m = v.Set
	}
	switch cmd {
	case "spop", "srandmember":
		cnt, isInt := int64(1), true
		if n == 3 {
			cnt, isInt = atoi(a[2])
		}
		if !isInt || cmd == "spop" && cnt < 0 || cnt < -math.MaxInt64/2 {
			if v == nil && !bad {
				return errw().Or(null()).orEmpty(), nil
			}
			return errw(), nil
		}
		if bad {
			return errw(), nil
		}
		if n == 3 && cnt == 0 {
			w := Want{Kind: WList}
			if cmd == "spop" {
				return w.Or(errw()), nil
			}
			return w, nil
		}
		fs := setKeys(m)
		if n == 2 {
			if v == nil {
				return null(), nil
			}
			w := Want{Kind: WOneOf, From: fs}
			if cmd == "srandmember" {
				return w, nil
			}
			return w, func(r Reply) { delete(v.Set, r.S); d.drop(k, v) }
		}
		w := Want{Kind: WPicks, From: fs, Distinct: cnt > 0}
		if cnt < 0 {
			w.N = int(-cnt)
			if v == nil {
				w.N = 0
			}
		} else {
			w.N = int(cnt)
			if cnt > int64(len(fs)) {
				w.N = len(fs)
			}
		}
		if cmd == "srandmember" {
			if w.N > Absurd {
				return errw().Or(w), nil
			}
			return w, nil
		}
		return w, func(r Reply) {
			for _, e := range r.Arr {
				delete(v.Set, e.S)
			}
			if v != nil {
				d.drop(k, v)
			}
		}
	}
	if bad {
		return errw(), nil
	}
	switch cmd {
	case "sadd":
		if v == nil {
			v = &Val{Type: TSet, Set: map[string]bool{}}
			d.Keys[k] = v
		}
		c := 0
		for _, e := range a[2:] {
			if !v.Set[e] {
				c++
				v.Set[e] = true
			}
		}
		return numi(c), nil
	case "srem":
		c := 0
		for _, e := range a[2:] {
			if m[e] {
				c++
				delete(m, e)
			}
		}
		if v != nil {
			d.drop(k, v)
		}
		return numi(c), nil
	case "scard":
		return numi(len(m)), nil
	case "sismember":
		if m[a[2]] {
			return num(1), nil
		}
		return num(0), nil
	case "smembers":
		return set(setKeys(m)), nil
	case "smove":
		if v == nil {
			// the destination's type is not looked at
			if _, dbad := d.typed(a[2], TSet); dbad {
				return num(0).Or(errw()), nil
			}
			return num(0), nil
		}
		dv, dbad := d.typed(a[2], TSet)
		if dbad {
			return errw(), nil
		}
		if !m[a[3]] {
			return num(0), nil
		}
		if a[1] == a[2] {
			return num(1), nil
		}
		delete(m, a[3])
		if dv == nil {
			dv = &Val{Type: TSet, Set: map[string]bool{}}
			d.Keys[a[2]] = dv
		}
		dv.Set[a[3]] = true
		d.drop(k, v)
		return num(1), nil
	}
	return errw(), nil
}

func (d *DB) algebra(op string, keys []string) (map[string]bool, bool) {
	var sets []map[string]bool
	for _, k := range keys {
		v, bad := d.typed(k, TSet)
		if bad {
			return nil, true
		}
		m := map[string]bool{}
		if v != nil {
			m = v.Set
		}
		sets = append(sets, m)
	}
	out := map[string]bool{}
	for e := range sets[0] {
		out[e] = true
	}
	for _, s := range sets[1:] {
		switch op {
		case "sinter":
			for e := range out {
				if !s[e] {
					delete(out, e)
				}
			}
		case "sunion":
			for e := range s {
				out[e] = true
			}
		case "sdiff":
			for e := range s {
				delete(out, e)
			}
		}
	}
	return out, false
}

// Glob is the documented pattern language; see GlobOK for the patterns it
// is defined on.
func Glob(p, s string) bool {
	// at[i]: the part of the pattern read so far matches s[:i]
	at := make([]bool, len(s)+1)
	at[0] = true
	for p != "" {
		next := make([]bool, len(s)+1)
		if p[0] == '*' {
			reached := false
			for i := range at {
				reached = reached || at[i]
				next[i] = reached
			}
			at, p = next, p[1:]
			continue
		}
		n := 1
		one := func(b byte) bool { return b == p[0] }
		switch p[0] {
		case '?':
			one = func(byte) bool { return true }
		case '[':
			e := strings.IndexByte(p, ']')
			if e < 0 {
				return false
			}
			n = e + 1
			c := p[1:e]
			not := strings.HasPrefix(c, "^")
			if not {
				c = c[1:]
			}
			one = func(b byte) bool {
				in := false
				for i := 0; i < len(c); i++ {
					if i+2 < len(c) && c[i+1] == '-' {
						if c[i] <= b && b <= c[i+2] {
							in = true
						}
						i += 2
					} else if c[i] == b {
						in = true
					}
				}
				return in != not
			}
		}
		for i := 0; i < len(s); i++ {
			next[i+1] = at[i] && one(s[i])
		}
		at, p = next, p[n:]
	}
	return at[len(s)]
}

// GlobOK reports whether the documentation defines the pattern: every class
// is closed, not empty, and a dash only appears between two bytes in
// ascending order; no backslash.
func GlobOK(p string) bool {
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '\\':
			return false
		case '[':
			e := strings.IndexByte(p[i:], ']')
			if e < 0 {
				return false
			}
			c := p[i+1 : i+e]
			if strings.HasPrefix(c, "^") {
				c = c[1:]
			}
			if c == "" {
				return false
			}
			for j := 0; j < len(c); j++ {
				if c[j] == '-' || c[j] == '\\' || c[j] == '[' || (c[j] == '^' && j == 0) {
					return false
				}
				if j+1 < len(c) && c[j+1] == '-' {
					if j+2 >= len(c) || c[j+2] < c[j] || c[j+2] == '-' {
						return false
					}
					j += 2
				}
			}
			i += e
		}
	}
	return true
}
