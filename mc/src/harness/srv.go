package main

import (
	"fmt"
	"hash/maphash"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"gRedis/config"
	"gRedis/logger"
	"gRedis/server"
	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

var scratch string

// initProgram does what the server's main does before it starts listening.
func initProgram(dir string) {
	scratch = dir
	registerAll()
	if *fProp == "C11" {
		logLevel = "debug"
	}
	setConfig(2, 1)
	if *fProp != "C22" {
		// nobody reads the log of the other checks
		os.Symlink("/dev/null", filepath.Join(dir, "redis.log"))
	}
	if err := logger.Init(config.Conf); err != nil {
		fmt.Fprintln(os.Stderr, "logger.Init:", err)
		os.Exit(3)
	}
}

// the level at which the checks let the server log
var logLevel = "error"

func setConfig(seg, dbs int) {
	config.Conf = &config.Config{Host: "127.0.0.1", Port: 6379, LogDir: scratch, LogLevel: logLevel, SegNum: seg, DbNum: dbs}
}

func newManager(seg, dbs int) *server.Manager {
	setConfig(seg, dbs)
	return server.NewManager(config.Conf)
}

// encode builds the RESP request for args.
func encode(args []string) []byte {
	n := 16
	for _, a := range args {
		n += len(a) + 16
	}
	b := make([]byte, 0, n)
	b = append(b, '*')
	b = strconv.AppendInt(b, int64(len(args)), 10)
	b = append(b, "\r\n"...)
	for _, a := range args {
		b = append(b, '$')
		b = strconv.AppendInt(b, int64(len(a)), 10)
		b = append(b, "\r\n"...)
		b = append(b, a...)
		b = append(b, "\r\n"...)
	}
	return b
}

func words(s string) []string { return strings.Fields(s) }

func quoteArgs(a []string) string {
	q := make([]string, len(a))
	for i, s := range a {
		simple := s != ""
		for j := 0; j < len(s); j++ {
			if s[j] <= ' ' || s[j] >= 127 || s[j] == '"' {
				simple = false
			}
		}
		if simple {
			q[i] = s
		} else if len(s) > 64 {
			q[i] = strconv.Quote(s[:24]) + "...(" + strconv.Itoa(len(s)) + " bytes)"
		} else {
			q[i] = strconv.Quote(s)
		}
	}
	return strings.Join(q, " ")
}

// Fail is what a check reports: the violated expectation.
type Fail struct {
	What string
}

func (f *Fail) Error() string { return f.What }

func failf(f string, a ...any) *Fail { return &Fail{What: fmt.Sprintf(f, a...)} }

// Srv is one server under the scheduler with sequential access.
type Srv struct {
	mgr   *server.Manager
	conns []*vrt.Conn
	dead  bool
}

func newSrv(seg, dbs int) *Srv {
	vrt.Begin()
	return &Srv{mgr: newManager(seg, dbs)}
}

func (s *Srv) open() *vrt.Conn {
	// a client that connects after another has left may well come from the
	// address that one had
	n := 0
	for used := true; used; {
		used = false
		for _, o := range s.conns {
			if o.RemoteAddr().String() == "client"+strconv.Itoa(n) {
				used = true
				n++
				break
			}
		}
	}
	c := vrt.NewConn("client" + strconv.Itoa(n))
	s.conns = append(s.conns, c)
	vrt.Serve(c, s.mgr.Handle)
	return c
}

// drop closes one connection and waits for its handler.
func (s *Srv) drop(c *vrt.Conn) {
	for i := range s.conns {
		if s.conns[i] == c {
			s.conns = append(append([]*vrt.Conn(nil), s.conns[:i]...), s.conns[i+1:]...)
			vrt.Drop(c)
			return
		}
	}
}

// conn0 is the default connection.
func (s *Srv) conn0() *vrt.Conn {
	if len(s.conns) == 0 {
		s.open()
	}
	return s.conns[0]
}

// trouble explains why a request got no reply.
func (s *Srv) trouble() string {
	dl, p := vrt.Deadlocked(), vrt.Panicked()
	s.end()
	if strings.HasPrefix(p, "concurrent map access") {
		vrt.TakePanic()
		return p
	}
	if p := vrt.TakePanic(); p != "" {
		return "the server panicked: " + p
	}
	if dl != "" {
		return dl
	}
	return "the server closed the connection without replying"
}

func (s *Srv) end() bool {
	if s.dead {
		return true
	}
	s.dead = true
	return vrt.End(s.conns)
}

// do executes one command and returns its parsed reply.
func (s *Srv) do(c *vrt.Conn, args []string) (model.Reply, *Fail) {
	raw := vrt.Exec(c, encode(args))
	if raw == nil {
		return model.Reply{}, failf("%s: %s", quoteArgs(args), s.trouble())
	}
	r, err := model.ParseReply(raw)
	if err != nil {
		return r, failf("%s: malformed reply %q: %v", quoteArgs(args), clip(string(raw)), err)
	}
	return r, nil
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// unordered tells how to canonicalise the reply of a command.
func unordered(cmd string) (un, pairs bool) {
	switch strings.ToLower(cmd) {
	case "smembers", "sinter", "sunion", "sdiff", "hkeys", "hvals", "keys", "spop", "srandmember", "hrandfield":
		return true, false
	case "hgetall":
		return true, true
	}
	return false, false
}

// probe reads everything observable about the given keys through c.
func (s *Srv) probe(c *vrt.Conn, keys []string) (string, *Fail) {
	var b strings.Builder
	for _, k := range keys {
		t, f := s.do(c, []string{"TYPE", k})
		if f != nil {
			return "", f
		}
		fmt.Fprintf(&b, "%q:%s", k, t.S)
		ask := func(args ...string) *Fail {
			r, f := s.do(c, args)
			if f != nil {
				return f
			}
			un, pr := unordered(args[0])
			b.WriteByte(' ')
			if args[0] == "TTL" {
				b.WriteString("ttl=")
			}
			b.WriteString(r.Canon(un, pr))
			return nil
		}
		if f := ask("EXISTS", k); f != nil {
			return "", f
		}
		if f := ask("TTL", k); f != nil {
			return "", f
		}
		var qs [][]string
		switch t.S {
		case "string":
			qs = [][]string{{"GET", k}, {"STRLEN", k}}
		case "hash":
			qs = [][]string{{"HGETALL", k}, {"HLEN", k}}
		case "set":
			qs = [][]string{{"SMEMBERS", k}, {"SCARD", k}}
		case "list":
			qs = [][]string{{"LRANGE", k, "0", "-1"}, {"LLEN", k}}
		}
		for _, q := range qs {
			if f := ask(q...); f != nil {
				return "", f
			}
		}
		b.WriteByte(';')
	}
	r, f := s.do(c, []string{"KEYS", "*"})
	if f != nil {
		return "", f
	}
	b.WriteString(" KEYS")
	b.WriteString(r.Canon(true, false))
	return b.String(), nil
}

// checkAgainst probes every key and compares with the model.
func (s *Srv) checkAgainst(c *vrt.Conn, db *model.DB, keys []string) *Fail {
	now := vrt.ClockNS()
	ask := func(args ...string) *Fail {
		r, f := s.do(c, args)
		if f != nil {
			return f
		}
		w, ap := db.Exec(args, now)
		if !w.Match(r) {
			return failf("afterwards %s answers %s, expected %s", quoteArgs(args), clip(r.String()), clip(w.String()))
		}
		if ap != nil {
			ap(r)
		}
		return nil
	}
	for _, k := range keys {
		qs := [][]string{{"TYPE", k}, {"EXISTS", k}, {"TTL", k}}
		if v := db.Keys[k]; v != nil {
			switch v.Type {
			case model.TString:
				qs = append(qs, []string{"GET", k}, []string{"STRLEN", k})
			case model.THash:
				qs = append(qs, []string{"HGETALL", k}, []string{"HLEN", k}, []string{"HKEYS", k}, []string{"HVALS", k})
				i := 0
				for fld := range v.Hash {
					qs = append(qs, []string{"HGET", k, fld})
					if i++; i > 4 {
						break
					}
				}
			case model.TSet:
				qs = append(qs, []string{"SMEMBERS", k}, []string{"SCARD", k})
				i := 0
				for m := range v.Set {
					qs = append(qs, []string{"SISMEMBER", k, m})
					if i++; i > 4 {
						break
					}
				}
			case model.TList:
				qs = append(qs, []string{"LRANGE", k, "0", "-1"}, []string{"LLEN", k})
				n := len(v.List)
				if n > 8 {
					n = 8
				}
				for i := 1; i <= n; i++ { // walk from the tail
					qs = append(qs, []string{"LINDEX", k, strconv.Itoa(-i)})
				}
			}
		}
		for _, q := range qs {
			if f := ask(q...); f != nil {
				return f
			}
		}
	}
	return ask("KEYS", "*")
}

// ------------------------------------------------------------- fingerprint

var fpSeed = maphash.MakeSeed()

type fpr struct {
	h    maphash.Hash
	ptrs map[uintptr]int
}

// fingerprint hashes everything reachable from the server, with pointers
// replaced by the order of first visit and locks ignored.
func fingerprint(v any) uint64 {
	f := &fpr{ptrs: map[uintptr]int{}}
	f.h.SetSeed(fpSeed)
	f.walk(reflect.ValueOf(v), 0)
	return f.h.Sum64()
}

func (f *fpr) n(i int64) {
	var b [8]byte
	for k := 0; k < 8; k++ {
		b[k] = byte(i >> (8 * k))
	}
	f.h.Write(b[:])
}

func (f *fpr) walk(v reflect.Value, depth int) {
	if depth > 20000 {
		return
	}
	if !v.IsValid() {
		f.n(-7)
		return
	}
	t := v.Type()
	if p := t.PkgPath(); strings.Contains(p, "zzverif/v") || p == "sync" || p == "sync/atomic" {
		if strings.HasSuffix(p, "vsync") && t.Name() == "Map" {
			f.walk(v.FieldByName("m"), depth+1)
		}
		if strings.HasSuffix(p, "vatomic") || p == "sync/atomic" {
			f.fields(v, depth)
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			f.n(-1)
			return
		}
		if e := t.Elem().PkgPath(); (strings.Contains(e, "zzverif/vsync") && t.Elem().Name() != "Map") || e == "sync" {
			return
		}
		p := v.Pointer()
		if id, ok := f.ptrs[p]; ok {
			f.n(int64(id))
			return
		}
		id := len(f.ptrs) + 1
		f.ptrs[p] = id
		f.n(int64(-1000 - id))
		f.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			f.n(-2)
			return
		}
		f.h.WriteString(v.Elem().Type().String())
		f.walk(v.Elem(), depth+1)
	case reflect.Struct:
		f.fields(v, depth)
	case reflect.Slice:
		if v.IsNil() {
			f.n(-3)
			return
		}
		f.n(int64(v.Len()))
		if v.Cap() > 0 {
			p := v.Pointer()
			id, ok := f.ptrs[p]
			if !ok {
				id = len(f.ptrs) + 1
				f.ptrs[p] = id
			}
			f.n(int64(id))
		}
		if t.Elem().Kind() == reflect.Uint8 {
			f.n(int64(v.Cap() - v.Len()))
			f.h.Write(v.Bytes())
			return
		}
		for i := 0; i < v.Len(); i++ {
			f.walk(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.walk(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			f.n(-4)
			return
		}
		f.n(int64(v.Len()))
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return keyLess(ks[i], ks[j]) })
		for _, k := range ks {
			f.walk(k, depth+1)
			f.walk(v.MapIndex(k), depth+1)
		}
	case reflect.String:
		f.n(int64(v.Len()))
		f.h.WriteString(v.String())
	case reflect.Bool:
		if v.Bool() {
			f.n(1)
		} else {
			f.n(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.n(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f.n(int64(v.Uint()))
	case reflect.Float32, reflect.Float64:
		f.h.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	}
}

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

func (f *fpr) fields(v reflect.Value, depth int) {
	for i := 0; i < v.NumField(); i++ {
		f.walk(v.Field(i), depth+1)
	}
}

var _ = io.EOF
