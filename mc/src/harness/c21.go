package main

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

const e2eWait = 10 * time.Second

// proc21 is a running server program.
type proc21 struct {
	cmd  *exec.Cmd
	err  *tail
	out  *tail
	done chan struct{}
	rc   int
	name string
}

// ownHost is a loopback address no other worker uses.
func ownHost() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 64+(p>>14)&63, (p>>7)&127, 1+p&127)
}

func launch(args []string, nofile int) (*proc21, *Fail) {
	dir := filepath.Join(scratch, "run")
	os.MkdirAll(dir, 0o755)
	p := &proc21{err: &tail{}, out: &tail{}, done: make(chan struct{}), name: fmt.Sprintf("%q", args)}
	p.cmd = exec.Command(*fServer, args...)
	if nofile > 0 {
		p.cmd = exec.Command("/bin/bash", append([]string{"-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, nofile), *fServer}, args...)...)
	}
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.err
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil, failf("the program cannot be started: %v", err)
	}
	go func() {
		p.cmd.Wait()
		p.rc = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p, nil
}

func (p *proc21) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc21) words() string {
	s := strings.TrimSpace(p.err.String() + " " + p.out.String())
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return s
}

func (p *proc21) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// up waits until the program accepts connections at addr.
func (p *proc21) up(addr string) *Fail {
	t := time.Now()
	for {
		if p.ended() {
			return failf("started with %s the program ends with status %d: %s", p.name, p.rc, p.words())
		}
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			// serving, not only listening
			c.SetDeadline(time.Now().Add(e2eWait))
			c.Write(encode([]string{"PING"}))
			_, err = c.Read(make([]byte, 64))
			c.Close()
		}
		if err == nil {
			if p.ended() {
				continue
			}
			vrt.Progress.Add(1)
			return nil
		}
		if time.Since(t) > e2eWait {
			p.kill()
			return failf("started with %s the program does not listen at %s (%v)", p.name, addr, err)
		}
		time.Sleep(3 * time.Millisecond)
	}
}

// signal asks the program to end and waits for it.
func (p *proc21) signal(s syscall.Signal) *Fail {
	if p.ended() {
		return failf("started with %s the program ended by itself with status %d: %s", p.name, p.rc, p.words())
	}
	p.cmd.Process.Signal(s)
	select {
	case <-p.done:
	case <-time.After(e2eWait):
		p.kill()
		return failf("started with %s the program does not end on %v", p.name, s)
	}
	vrt.Progress.Add(1)
	if p.rc != 0 {
		return failf("started with %s the program ends with status %d (%v) on %v: %s", p.name, p.rc, p.cmd.ProcessState, s, p.words())
	}
	return nil
}

func launchUp(addr string, args ...string) (*proc21, *Fail) {
	p, f := launch(args, 0)
	if f == nil {
		f = p.up(addr)
	}
	return p, f
}

// ccon is a client connection.
type ccon struct {
	c   *net.TCPConn
	rd  *bufio.Reader
	sel int
}

var srcN int

func dialE2E(addr string) (*ccon, *Fail) {
	// spread the client addresses: closed connections linger
	srcN++
	d := net.Dialer{Timeout: e2eWait}
	if strings.HasPrefix(addr, "127.") {
		d.LocalAddr = &net.TCPAddr{IP: net.IPv4(127, 1, byte(srcN/8000), byte(1+srcN/2000%4))}
	}
	c, err := d.Dial("tcp", addr)
	if err != nil {
		return nil, failf("the server does not accept a connection: %v", err)
	}
	return &ccon{c: c.(*net.TCPConn), rd: bufio.NewReader(c)}, nil
}

func (c *ccon) reset() {
	c.c.SetLinger(0)
	c.c.Close()
}

// reply reads one reply.
func (c *ccon) reply() (model.Reply, *Fail) {
	c.c.SetReadDeadline(time.Now().Add(e2eWait))
	var buf []byte
	var need func() error
	need = func() error {
		l, err := c.rd.ReadBytes('\n')
		buf = append(buf, l...)
		if err != nil {
			return err
		}
		switch l[0] {
		case '$':
			n, _ := strconv.Atoi(strings.TrimSpace(string(l[1:])))
			if n >= 0 {
				b := make([]byte, n+2)
				k, err := readFull(c.rd, b)
				buf = append(buf, b[:k]...)
				return err
			}
		case '*':
			n, _ := strconv.Atoi(strings.TrimSpace(string(l[1:])))
			for i := 0; i < n; i++ {
				if err := need(); err != nil {
					return err
				}
			}
		}
		return nil
	}
	if err := need(); err != nil {
		return model.Reply{}, failf("no complete reply (%q, %v)", clip(string(buf)), err)
	}
	vrt.Progress.Add(1)
	r, err := model.ParseReply(buf)
	if err != nil {
		return r, failf("malformed reply %q", clip(string(buf)))
	}
	return r, nil
}

func readFull(rd *bufio.Reader, b []byte) (int, error) {
	n := 0
	for n < len(b) {
		k, err := rd.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

// do runs one request and compares the reply with the model.
func (c *ccon) do(d dbs, args []string) *Fail {
	vrt.SetClock(time.Now().UnixNano())
	w, ap := d.exec(&c.sel, args)
	if _, err := c.c.Write(encode(args)); err != nil {
		return failf("%s cannot be sent: %v", quoteArgs(args), err)
	}
	r, f := c.reply()
	if f != nil {
		return failf("%s: %s", quoteArgs(args), f.What)
	}
	ok := w.Match(r)
	if !ok && w.Kind == model.WInt && w.I > 10 && strings.EqualFold(args[0], "ttl") {
		for k := int64(-3); k <= 3; k++ {
			ok = ok || model.Want{Kind: model.WInt, I: w.I + k}.Match(r)
		}
	}
	if !ok {
		return failf("%s answers %s, expected %s", quoteArgs(args), clip(r.String()), clip(w.String()))
	}
	if ap != nil {
		ap(r)
	}
	return nil
}

// table has every documented command, some of them several times.
var table = lines(`
PING
PING hello
SET s1 hello
GET s1
GET none
GETRANGE s1 1 3
SETRANGE s1 1 EY
GET s1
MSET a 1 b 2 c 3
MGET a b none c
SETEX e1 1000 x
TTL e1
SET e2 v EX 2000
TTL e2
SETNX s1 no
SETNX s2 yes
STRLEN s1
INCR n
INCRBY n 41
DECR n
DECRBY n 1
GET n
INCR s1
INCRBYFLOAT f 1.5
INCRBYFLOAT f 2
APPEND s2 more
GET s2
DEL a b zz
EXISTS a c s1
KEYS *1
KEYS *
EXPIRE s1 500
TTL s1
PERSIST s1
TTL s1
TTL none
RENAME s2 s3
RENAME none x
TYPE s3
TYPE none
HSET h f1 v1 f2 v2
HSETNX h f1 no
HSETNX h f3 v3
HGET h f1
HGET h none
HGETALL h
HKEYS h
HVALS h
HLEN h
HMGET h f1 none f3
HMSET h g1 w1 g2 w2
HEXISTS h g1
HSTRLEN h g1
HINCRBY h num 5
HINCRBYFLOAT h num 0.5
HRANDFIELD h
HRANDFIELD h 2
HDEL h f1 f2 none
HGETALL h
TYPE h
RPUSH l a b c d
LPUSH l z
LPUSHX l y
LPUSHX none y
RPUSHX l e
RPUSHX none e
LRANGE l 0 -1
LLEN l
LINDEX l -1
LINSERT l BEFORE b X
LINSERT l AFTER b Y
LPOS l c
LSET l 0 first
LREM l 1 a
LTRIM l 0 5
LRANGE l 0 -1
LPOP l
RPOP l
LPOP l 2
LMOVE l l2 LEFT RIGHT
LRANGE l 0 -1
LRANGE l2 0 -1
TYPE l
GET l
SADD t1 a b c
SADD t2 b c d
SCARD t1
SISMEMBER t1 a
SMEMBERS t1
SDIFF t1 t2
SINTER t1 t2
SUNION t1 t2
SDIFFSTORE td t1 t2
SINTERSTORE ti t1 t2
SUNIONSTORE tu t1 t2
SMEMBERS tu
SMOVE t1 t2 a
SRANDMEMBER t2
SRANDMEMBER t2 -3
SPOP t2
SPOP t2 2
SCARD t2
SREM t1 b none
SMEMBERS t1
TYPE t1
KEYS *
set lower case
get s3
NOSUCH x
GET
KEYS *
`)

func lines(s string) (out [][]string) {
	for _, l := range strings.Split(s, "\n") {
		if w := words(l); len(w) > 0 {
			out = append(out, w)
		}
	}
	return
}

// session runs the command table in the first and last database, a second
// connection looking on.
func session(addr string, ndb int, r *Result) *Fail {
	d := newDbs(ndb)
	var cs []*ccon
	defer func() {
		for _, c := range cs {
			c.reset()
		}
	}()
	for i := 0; i < 3; i++ {
		c, f := dialE2E(addr)
		if f != nil {
			return f
		}
		cs = append(cs, c)
	}
	do := func(i int, a ...string) *Fail {
		r.Trans++
		if f := cs[i].do(d, a); f != nil {
			f.What = fmt.Sprintf("connection %d: %s", i+1, f.What)
			return f
		}
		return nil
	}
	last := strconv.Itoa(ndb - 1)
	for _, bad := range []string{strconv.Itoa(ndb), strconv.Itoa(ndb + 1), "-1", "x"} {
		if f := do(1, "SELECT", bad); f != nil {
			return f
		}
	}
	for k := 0; k < ndb; k++ {
		if f := do(1, "SELECT", strconv.Itoa(k)); f != nil {
			return f
		}
	}
	for _, q := range table {
		if f := do(0, q...); f != nil {
			return f
		}
		if f := do(2, "KEYS", "*"); f != nil {
			return f
		}
	}
	for _, q := range table {
		if f := do(1, q...); f != nil {
			return f
		}
	}
	for i := range cs {
		for _, k := range []string{"0", last} {
			if f := do(i, "SELECT", k); f != nil {
				return f
			}
			for _, q := range []string{"KEYS *", "GET n", "HGETALL h", "LRANGE l 0 -1", "SMEMBERS t1", "TTL e2"} {
				if f := do(i, words(q)...); f != nil {
					return f
				}
			}
		}
	}
	// the whole table again, pipelined
	c := cs[2]
	vrt.SetClock(time.Now().UnixNano())
	all := append([][]string{}, lines("SELECT 0\nDEL s1 s2 s3 a b c e1 e2 n f h l l2 t1 t2 td ti tu lower")...)
	for _, q := range table {
		if strings.ToLower(q[0]) != "ttl" {
			all = append(all, q)
		}
	}
	var buf []byte
	for _, q := range all {
		buf = append(buf, encode(q)...)
	}
	if _, err := c.c.Write(buf); err != nil {
		return failf("pipelining: %v", err)
	}
	for i, q := range all {
		w, ap := d.exec(&c.sel, q)
		rp, f := c.reply()
		if f != nil {
			return failf("pipelined request %d, %s: %s", i+1, quoteArgs(q), f.What)
		}
		if !w.Match(rp) {
			return failf("pipelined request %d, %s, answers %s, expected %s", i+1, quoteArgs(q), clip(rp.String()), clip(w.String()))
		}
		if ap != nil {
			ap(rp)
		}
		r.Trans++
	}
	r.States++
	r.Traces++
	return nil
}

// grid: one way of configuring, and a session.
func grid(how int, seg, ndb int, level string, sig syscall.Signal, r *Result) *Fail {
	host := ownHost()
	port := 7000 + how
	dir := filepath.Join(scratch, "logs") // the program makes it
	os.RemoveAll(dir)
	set := [][2]string{{"host", host}, {"port", strconv.Itoa(port)}, {"logdir", dir}, {"loglevel", level}, {"segnum", strconv.Itoa(seg)}, {"dbnum", strconv.Itoa(ndb)}}
	var args, file []string
	for i, kv := range set {
		// how 0: flags; 1: file; 2, 3: halves; 4: the file overrides all flags
		if how == 0 || how == 2 && i%2 == 0 || how == 3 && i%2 == 1 {
			args = append(args, "-"+kv[0], kv[1])
		} else {
			file = append(file, kv[0]+" "+kv[1])
		}
	}
	if how == 4 {
		args = append(args, "-host", "127.0.0.1", "-port", "1", "-segnum", "9", "-dbnum", "4", "-loglevel", "panic", "-logdir", filepath.Join(scratch, "nowhere"))
	}
	if file != nil {
		p := filepath.Join(scratch, "e2e.conf")
		os.WriteFile(p, []byte(strings.Join(file, "\n")), 0o644)
		args = append(args, "-config", p)
	}
	addr := net.JoinHostPort(host, strconv.Itoa(port))
	for round := 0; round < 2; round++ {
		p, f := launchUp(addr, args...)
		if f != nil {
			return f
		}
		f = session(addr, ndb, r)
		if f == nil {
			f = p.signal(sig)
		} else if p.ended() {
			f.What += fmt.Sprintf(" (the program ended with status %d: %s)", p.rc, p.words())
		}
		if f != nil {
			p.kill()
			f.What = fmt.Sprintf("configured by %s, %d segments, %d databases, level %s: %s", []string{"flags", "file", "flags and file", "file and flags", "file over flags"}[how], seg, ndb, level, f.What)
			return f
		}
	}
	r.sample(func() string { return strings.Join(args, " ") })
	return nil
}

// hosts: addresses to listen at.
func hosts(r *Result) *Fail {
	type h struct {
		args []string
		at   []string
	}
	own := ownHost()
	for _, x := range []h{
		{[]string{"-host", own}, []string{own + ":6379"}},
		{[]string{"-host", "0.0.0.0", "-port", "7011"}, []string{own + ":7011", "127.0.0.1:7011"}},
		{[]string{"-host", "::1", "-port", "7012"}, []string{"[::1]:7012"}},
		{[]string{"-host", "::", "-port", "7013"}, []string{"[::1]:7013"}},
		{[]string{"-host", "0:0:0:0:0:0:0:1", "-port", "7014"}, []string{"[::1]:7014"}},
		{nil, []string{"127.0.0.1:6379"}},
		{[]string{"-port", "7015"}, []string{"127.0.0.1:7015"}},
	} {
		free := true
		for _, a := range x.at {
			l, err := net.Listen("tcp", a)
			if err != nil {
				free = false
				break
			}
			l.Close()
		}
		if !free {
			r.count("addresses_not_available", 1)
			continue
		}
		p, f := launchUp(x.at[0], x.args...)
		if f != nil {
			return f
		}
		for _, a := range x.at {
			if f = session(a, 16, r); f != nil {
				break
			}
			var c *ccon
			if c, f = dialE2E(a); f != nil {
				break
			}
			c.c.Write(encode(words("DEL s1 s2 s3 a b c e1 e2 n f h l l2 t1 t2 td ti tu lower")))
			c.reply()
			c.c.Write(encode(words("SELECT 15")))
			c.reply()
			c.c.Write(encode(words("DEL s1 s2 s3 a b c e1 e2 n f h l l2 t1 t2 td ti tu lower")))
			c.reply()
			c.reset()
		}
		if f == nil {
			f = p.signal(syscall.SIGTERM)
		}
		if f != nil {
			p.kill()
			f.What = fmt.Sprintf("started with %q: %s", x.args, f.What)
			return f
		}
	}
	return nil
}

// refusals: what cannot be served ends the program with an error, not a crash.
func refusals(r *Result) *Fail {
	host := ownHost()
	l, err := net.Listen("tcp", host+":7020")
	if err != nil {
		return nil
	}
	defer l.Close()
	notdir := filepath.Join(scratch, "notdir")
	os.WriteFile(notdir, nil, 0o644)
	conf := func(s string) string {
		p := filepath.Join(scratch, fmt.Sprintf("bad%d.conf", len(s)))
		os.WriteFile(p, []byte(s), 0o644)
		return p
	}
	for _, a := range [][]string{
		{"-host", "localhost"}, {"-host", "1.2.3"}, {"-host", ""}, {"-port", "x"}, {"-port", "65536"}, {"-port", "-1"}, {"-segnum", "0"}, {"-segnum", "-4"}, {"-dbnum", "0"}, {"-dbnum", "-1"}, {"-nosuchflag"},
		{"-config", filepath.Join(scratch, "missing.conf")}, {"-config", scratch}, {"-config", conf("port\n")}, {"-config", conf("host nowhere")}, {"-config", conf("\n\ndbnum 0\n")}, {"-config", conf("segnum many")},
		{"-host", host, "-port", "7020"}, {"-host", host, "-port", "7021", "-logdir", filepath.Join(notdir, "x")}, {"-host", host, "-port", "7021", "-logdir", notdir}, {"-host", "240.0.0.1", "-port", "7022"},
	} {
		p, f := launch(a, 0)
		if f != nil {
			return f
		}
		select {
		case <-p.done:
		case <-time.After(e2eWait):
			p.kill()
			return failf("started with %q the program neither serves nor ends", a)
		}
		vrt.Progress.Add(1)
		if p.rc == 0 {
			return failf("started with %q the program ends with status 0", a)
		}
		if s := p.err.String(); strings.Contains(s, "goroutine ") || strings.Contains(s, "panic:") || p.rc < 0 {
			return failf("started with %q the program crashes: %s", a, p.words())
		}
		r.States++
		r.Traces++
	}
	return nil
}

// signals: the program ends, whatever its clients are doing.
func signals(sig syscall.Signal, r *Result) *Fail {
	host := ownHost()
	addr := host + ":7030"
	kinds := []string{"", "*3\r\n$3\r\nSET\r\n", "!garbage\r\n", string(encode(words("GET k"))), "*1\r\n$4\r\nPI", "reset", "close"}
	for a := range kinds {
		for b := range kinds {
			for n := 0; n < 3; n++ {
				p, f := launchUp(addr, "-host", host, "-port", "7030", "-logdir", scratch)
				if f != nil {
					return f
				}
				var cs []*ccon
				for i, k := range []int{a, b} {
					if i >= n {
						break
					}
					c, f := dialE2E(addr)
					if f != nil {
						p.kill()
						return f
					}
					cs = append(cs, c)
					switch kinds[k] {
					case "reset":
						c.reset()
					case "close":
						c.c.Close()
					default:
						c.c.Write([]byte(kinds[k]))
					}
				}
				f = p.signal(sig)
				for _, c := range cs {
					c.reset()
				}
				if f != nil {
					f.What = fmt.Sprintf("with %d clients that sent %q and %q: %s", n, kinds[a], kinds[b], f.What)
					return f
				}
				r.States++
				r.Trans += int64(n + 1)
				r.Traces++
				if n < 2 && b > 0 {
					break
				}
			}
		}
	}
	r.sample(func() string { return fmt.Sprintf("%v with every pair of %d client states", sig, len(kinds)) })
	return nil
}

// expiry: lifetimes run on the real clock.
func expiry(r *Result) *Fail {
	host := ownHost()
	addr := host + ":7040"
	p, f := launchUp(addr, "-host", host, "-port", "7040", "-logdir", scratch)
	if f != nil {
		return f
	}
	defer p.kill()
	c, f := dialE2E(addr)
	if f != nil {
		return f
	}
	defer c.reset()
	ask := func(s string) string {
		if f != nil {
			return ""
		}
		c.c.Write(encode(words(s)))
		rp, e := c.reply()
		if e != nil {
			f = e
		}
		r.Trans++
		return rp.String()
	}
	ask("SET a v EX 2")
	ask("SETEX b 2 v")
	ask("SADD s x")
	ask("EXPIRE s 2")
	ask("HSET h f v")
	ask("EXPIRE h 2")
	ask("SET keep v EX 1000")
	ask("RPUSH l x")
	was := ask("EXISTS a b s h keep l")
	for i := 0; i < 7; i++ {
		time.Sleep(500 * time.Millisecond)
		vrt.Progress.Add(1)
	}
	got := fmt.Sprint(ask("GET a"), ask("EXISTS b s h"), ask("TTL s"), ask("EXISTS keep l"), ask("KEYS *[abhs]"))
	want := model.Reply{T: 'n'}.String() + model.Reply{T: ':', I: 0}.String() + model.Reply{T: ':', I: -2}.String() + model.Reply{T: ':', I: 2}.String()
	if f != nil {
		return f
	}
	if w := (model.Reply{T: ':', I: 6}).String(); was != w {
		return failf("after setting lifetimes of 2 s EXISTS answers %s, expected %s", was, w)
	}
	if !strings.HasPrefix(got, want) {
		return failf("3.5 s after setting lifetimes of 2 s the replies are %s, expected %s", got, want)
	}
	r.States++
	r.Traces++
	return nil
}

// crowd: many connections, then more than the program may have.
func crowd(r *Result) *Fail {
	host := ownHost()
	addr := host + ":7050"
	for _, nofile := range []int{0, 40} {
		p, f := launch([]string{"-host", host, "-port", "7050", "-logdir", scratch, "-loglevel", "error"}, nofile)
		if f == nil {
			f = p.up(addr)
		}
		if f != nil {
			return f
		}
		n := 300
		if nofile > 0 {
			n = 80
		}
		var cs []*ccon
		d := newDbs(16)
		for i := 0; i < n && f == nil; i++ {
			var c *ccon
			if c, f = dialE2E(addr); f == nil {
				cs = append(cs, c)
				if nofile == 0 {
					f = c.do(d, []string{"SET", fmt.Sprint("k", i), fmt.Sprint(i)})
				}
			}
		}
		if f == nil && nofile == 0 {
			for i, c := range cs {
				if f = c.do(d, []string{"GET", fmt.Sprint("k", (i*7+1)%n)}); f != nil {
					break
				}
			}
		}
		if nofile > 0 {
			time.Sleep(50 * time.Millisecond)
			if f == nil {
				f = cs[0].do(d, words("SET first 1")) // the first connections are served
			}
		}
		for _, c := range cs {
			c.reset()
		}
		if f == nil {
			var c *ccon
			if c, f = dialE2E(addr); f == nil {
				f = c.do(d, words("KEYS f*"))
				c.reset()
			}
		}
		if f == nil {
			f = p.signal(syscall.SIGTERM)
		}
		if f != nil {
			p.kill()
			f.What = fmt.Sprintf("%d connections, file limit %d: %s", n, nofile, f.What)
			return f
		}
		r.States += int64(n)
		r.Trans += int64(2 * n)
		r.Traces++
	}
	return nil
}

// --- histories of connecting, asking, misbehaving and leaving ---

type histOp struct {
	client int
	op     string
}

var histOps = []string{"set", "get", "sel", "partial", "garbage", "huge", "half", "close", "reset"}

type hclient struct {
	c    *ccon
	mode int // 0: not connected, 1: connected, 2: a partial request is out, 3: misbehaved, only leaves
	sel  int
}

type hist struct {
	addr string
	r    *Result
	cl   []hclient
	p    *proc21
}

// next lists the operations possible after seq.
func histNext(seq []histOp, n int) (out []histOp) {
	mode := make([]int, n)
	for _, o := range seq {
		switch o.op {
		case "connect":
			mode[o.client] = 1
		case "close", "reset":
			mode[o.client] = 0
		case "partial":
			mode[o.client] = 2
		case "rest":
			mode[o.client] = 1
		case "garbage", "huge", "half":
			mode[o.client] = 3
		}
	}
	used := 0
	for i := range mode {
		seen := false
		for _, o := range seq {
			seen = seen || o.client == i
		}
		if seen {
			used = i + 1
		}
	}
	for i := 0; i < n && i <= used; i++ {
		switch mode[i] {
		case 0:
			out = append(out, histOp{i, "connect"})
		case 1:
			for _, o := range histOps {
				out = append(out, histOp{i, o})
			}
		case 2:
			out = append(out, histOp{i, "rest"}, histOp{i, "close"}, histOp{i, "reset"})
		case 3:
			out = append(out, histOp{i, "close"}, histOp{i, "reset"})
		}
	}
	return
}

func showHist(seq []histOp) string {
	var s []string
	for _, o := range seq {
		s = append(s, fmt.Sprintf("%d:%s", o.client+1, o.op))
	}
	return strings.Join(s, " ")
}

func runHist(addr string, seq []histOp, n int, r *Result) (f *Fail) {
	cl := make([]hclient, n)
	d := newDbs(2)
	defer func() {
		for _, c := range cl {
			if c.c != nil {
				c.c.reset()
			}
		}
	}()
	for i, o := range seq {
		c := &cl[o.client]
		r.Trans++
		switch o.op {
		case "connect":
			if c.c, f = dialE2E(addr); f != nil {
				return
			}
		case "set":
			f = c.c.do(d, []string{"SET", "k", fmt.Sprint("v", i)})
		case "get":
			f = c.c.do(d, []string{"GET", "k"})
		case "sel":
			f = c.c.do(d, []string{"SELECT", strconv.Itoa(1 - c.c.sel)})
		case "partial":
			b := encode([]string{"SET", "k", fmt.Sprint("p", o.client)})
			c.c.c.Write(b[:len(b)-5])
		case "rest":
			b := encode([]string{"SET", "k", fmt.Sprint("p", o.client)})
			c.c.c.Write(b[len(b)-5:])
			d.exec(&c.c.sel, []string{"SET", "k", fmt.Sprint("p", o.client)})
			rp, e := c.c.reply()
			if e != nil {
				f = e
			} else if rp.T != '+' {
				f = failf("a SET sent in two parts answers %s", rp)
			}
		case "garbage":
			c.c.c.Write([]byte("!what\r\n$-7\r\n\r\n"))
		case "huge":
			c.c.c.Write([]byte("*2\r\n$3\r\nGET\r\n$99999999999\r\nx"))
		case "half":
			c.c.c.CloseWrite()
		case "close":
			c.c.c.Close()
			c.c = nil
		case "reset":
			c.c.reset()
			c.c = nil
		}
		if f != nil {
			f.What = fmt.Sprintf("step %d: %s", i+1, f.What)
			return
		}
	}
	// whoever is well behaved is still served, and so is a new client
	for i := range cl {
		if cl[i].c == nil {
			continue
		}
		ok := true
		for _, o := range seq {
			if o.client == i {
				switch o.op {
				case "connect":
					ok = true
				case "partial", "garbage", "huge", "half":
					ok = false
				case "rest":
					ok = true
				}
			}
		}
		if ok {
			if f = cl[i].c.do(d, []string{"GET", "k"}); f != nil {
				f.What = fmt.Sprintf("at the end, client %d: %s", i+1, f.What)
				return
			}
		}
	}
	c, f := dialE2E(addr)
	if f != nil {
		return f
	}
	defer c.reset()
	for _, q := range []string{"GET k", "DEL k", "SELECT 1", "GET k", "DEL k"} {
		if f = c.do(d, words(q)); f != nil {
			f.What = "a new client: " + f.What
			return
		}
	}
	r.States++
	r.Traces++
	return nil
}

func histories(pre []histOp, n, depth int, r *Result) *Fail {
	host := ownHost()
	addr := host + ":7060"
	p, f := launchUp(addr, "-host", host, "-port", "7060", "-logdir", scratch, "-loglevel", "error", "-dbnum", "2", "-segnum", "3")
	if f != nil {
		return f
	}
	defer p.kill()
	var rec func(seq []histOp, left int) *Fail
	rec = func(seq []histOp, left int) *Fail {
		nx := histNext(seq, n)
		if left == 0 || len(nx) == 0 {
			f := runHist(addr, seq, n, r)
			if f != nil {
				if p.ended() {
					f.What += fmt.Sprintf(" (the program ended with status %d: %s)", p.rc, p.words())
				}
				f.What = fmt.Sprintf("history %s: %s", showHist(seq), f.What)
			}
			r.sample(func() string { return showHist(seq) })
			return f
		}
		for _, o := range nx {
			if f := rec(append(seq[:len(seq):len(seq)], o), left-1); f != nil {
				return f
			}
		}
		return nil
	}
	if f := rec(pre, depth-len(pre)); f != nil {
		return f
	}
	return p.signal(syscall.SIGTERM)
}

func c21Cases(thorough bool) []Case {
	var out []Case
	out = append(out, Case{"expiry", expiry}, Case{"crowd", crowd}, Case{"hosts", hosts}, Case{"refusals", refusals})
	for _, s := range []syscall.Signal{syscall.SIGTERM, syscall.SIGINT} {
		s := s
		out = append(out, Case{fmt.Sprintf("signals/%v", s), func(r *Result) *Fail { return signals(s, r) }})
	}
	for how := 0; how < 5; how++ {
		for _, seg := range []int{1, 3, 100} {
			for _, ndb := range []int{1, 2, 16} {
				for li, lv := range levels {
					how, seg, ndb, lv := how, seg, ndb, lv
					sig := syscall.SIGTERM
					if (how+seg+ndb+li)%2 == 1 {
						sig = syscall.SIGINT
					}
					out = append(out, Case{fmt.Sprintf("grid/%d/%d/%d/%s", how, seg, ndb, lv), func(r *Result) *Fail { return grid(how, seg, ndb, lv, sig, r) }})
				}
			}
		}
	}
	n, depth := 2, 6
	if thorough {
		n, depth = 3, 7
	}
	base := []histOp{{0, "connect"}}
	for _, a := range histNext(base, n) {
		s1 := append(base[:1:1], a)
		for _, b := range histNext(s1, n) {
			s2 := append(s1[:2:2], b)
			out = append(out, Case{"histories/" + showHist(s2), func(r *Result) *Fail { return histories(s2, n, depth, r) }})
		}
	}
	return out
}

func init() {
	checks["C21"] = &Check{Level: "model_checking", Rule: "the unmodified program, started with 225 configurations (flags, file, mixed; segments, databases, levels), each with the complete command table on three connections in the first and last database, lock step and pipelined, against the reference, restarted on the same address; all histories of 6 (thorough 7) connect, command, partial request, misbehave, leave steps of 2 (thorough 3) clients; both signals with every pair of client states; refused configurations; more connections than file descriptors; lifetimes on the real clock", Cases: c21Cases,
		Assume: []string{"bounded: as listed", "the order in which the kernel delivers what different clients send is not controlled: histories are sequential (each step is answered before the next); interleavings are decided by C09 to C13 on the same code", "addresses that the sandbox does not have are left out (counted as addresses_not_available)"}}
}
