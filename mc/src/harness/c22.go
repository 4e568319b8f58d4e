package main

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"gRedis/config"
	"gRedis/logger"
	"gRedis/zzverif/vrt"
)

var levels = []string{"debug", "info", "warning", "panic", "error"}

var logFuncs = []func(...any){logger.Debug, logger.Info, logger.Warning, logger.Panic, logger.Error}

var levelRe = regexp.MustCompile(`(?i)(debug|info|warn|panic|error)`)
var msgRe = regexp.MustCompile(`msg-([0-4])-[0-9a-z%-]+-end`)

// initLog starts logging at a level into an empty file.
var initLogs int

func initLog(level string) (string, *Fail) {
	dir := filepath.Join(scratch, "log")
	os.RemoveAll(dir)
	// the logger makes its directory if it is not there
	if initLogs++; initLogs%2 == 0 {
		os.MkdirAll(dir, 0o755)
	}
	logLevel = level
	setConfig(2, 2)
	config.Conf.LogDir = dir
	if err := logger.Init(config.Conf); err != nil {
		return "", failf("logger.Init with level %s: %v", level, err)
	}
	return dir, nil
}

func logText(dir string) []byte {
	var all []byte
	fs, _ := filepath.Glob(filepath.Join(dir, "*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		all = append(all, b...)
	}
	return all
}

// judgeLog checks the log text: want maps the messages to the number of times
// they have to be there.
func judgeLog(txt []byte, want map[string]int) *Fail {
	got := map[string]int{}
	if len(txt) > 0 && txt[len(txt)-1] != '\n' {
		return failf("the last log line is not complete: %q", clip(string(txt[max(0, len(txt)-200):])))
	}
	for _, l := range strings.Split(strings.TrimSuffix(string(txt), "\n"), "\n") {
		ms := msgRe.FindAllStringSubmatchIndex(l, -1)
		if len(ms) == 0 {
			if l != "" && want != nil {
				return failf("a log line without a whole message: %q", clip(l))
			}
			continue
		}
		if len(ms) > 1 {
			return failf("several messages on one log line: %q", clip(l))
		}
		m := l[ms[0][0]:ms[0][1]]
		lv := int(l[ms[0][2]] - '0')
		first := strings.ToLower(levelRe.FindString(l))
		if first == "" || !strings.HasPrefix(levels[lv], first) {
			return failf("the log line %q carries level %q, its message was logged at %s", clip(l), first, levels[lv])
		}
		got[m]++
	}
	for m, n := range want {
		if got[m] != n {
			return failf("message %s is in the log %d times instead of %d", m, got[m], n)
		}
	}
	for m := range got {
		if want[m] == 0 {
			return failf("message %s is in the log although it is below the configured level", m)
		}
	}
	return nil
}

func msgOf(level int, id string) string { return fmt.Sprintf("msg-%d-%s-end", level, id) }

// odd message contents
var logOdd = []string{"", "%s%d%v%n", "\x00\x01", "\xff\xfe", "\r", "a\tb", "\"quoted\"", "%!s(MISSING)", strings.Repeat("x", 70000), "日本"}

// levelMatrix: every level with every function, one and several arguments,
// in every order of two calls.
func levelMatrix(conf int, r *Result) *Fail {
	for a := range levels {
		for b := range levels {
			dir, f := initLog(levels[conf])
			if f != nil {
				return f
			}
			want := map[string]int{}
			for i, lv := range []int{a, b} {
				for k, pc := range []string{"100%", "%s", "5%d-%v", "%%", "%n%"} {
					m := msgOf(lv, fmt.Sprintf("%d-pc%d-", i, k)+pc)
					logFuncs[lv](m)
					if r.Trans++; lv >= conf {
						want[m] = 1
					}
				}
				for k, odd := range logOdd {
					id := fmt.Sprintf("%d-%d", i, k)
					logFuncs[lv](msgOf(lv, id), " ", odd)
					logFuncs[lv](odd, msgOf(lv, id+"-second"), 42, nil, fmt.Errorf("boom"))
					r.Trans += 2
					if lv >= conf {
						want[msgOf(lv, id)] = 1
						want[msgOf(lv, id+"-second")] = 1
					} else {
						want[msgOf(lv, id)] = 0
					}
				}
			}
			for m, n := range want {
				if n == 0 {
					delete(want, m)
				}
			}
			r.States++
			r.Traces++
			if f := judgeLog(logText(dir), want); f != nil {
				f.What = fmt.Sprintf("level %s, messages at %s and %s: %s", levels[conf], levels[a], levels[b], f.What)
				return f
			}
		}
	}
	r.sample(func() string { return "level " + levels[conf] + ": every pair of functions" })
	return nil
}

// logServe is a connection handler that logs what it is told to.
func logServe(conn net.Conn) {
	rd := bufio.NewReader(conn)
	for {
		l, err := rd.ReadString('\n')
		if err != nil {
			conn.Close()
			return
		}
		l = strings.TrimSpace(l)
		lv := int(l[0] - '0')
		logFuncs[lv](msgOf(lv, l[2:]))
		conn.Write([]byte("+OK\r\n"))
	}
}

// logRace explores all interleavings of clients logging.
func logRace(conf int, scripts [][]int, r *Result) *Fail {
	dir, f := initLog(levels[conf])
	if f != nil {
		return f
	}
	want := map[string]int{}
	for t, s := range scripts {
		for i, lv := range s {
			if lv >= conf {
				want[msgOf(lv, fmt.Sprintf("%d-%d", t, i))] = 1
			}
		}
	}
	name := fmt.Sprintf("level %s, clients logging at %v", levels[conf], scripts)
	ex := &vrt.Explorer{MaxRuns: 30000}
	for {
		fs, _ := filepath.Glob(filepath.Join(dir, "*"))
		for _, p := range fs {
			os.Truncate(p, 0)
		}
		vrt.Begin()
		var conns []*vrt.Conn
		var scs []vrt.Script
		for t, s := range scripts {
			c := vrt.NewConn(fmt.Sprint("client", t))
			conns = append(conns, c)
			vrt.Serve(c, logServe)
			sc := vrt.Script{Conn: c}
			for i, lv := range s {
				sc.Reqs = append(sc.Reqs, []byte(fmt.Sprintf("%d-%d-%d\n", lv, t, i)))
			}
			scs = append(scs, sc)
		}
		calls := vrt.Concurrent(scs, ex)
		dl, pn := vrt.Deadlocked(), vrt.Panicked()
		steps := strings.Join(vrt.Steps(), ", ")
		tr := vrt.Seal()
		vrt.End(conns)
		vrt.TakePanic()
		if ex.Diverged != "" {
			r.count("diverged_programs", 1)
			r.Capped = true
			return nil
		}
		if dl != "" || pn != "" {
			return failf("%s: logging stops the server: %s%s | schedule: %s", name, dl, pn, steps)
		}
		for t, s := range scripts {
			if len(calls[t]) != len(s) || calls[t][len(s)-1].Reply == nil {
				return failf("%s: logging blocks client %d | schedule: %s", name, t, steps)
			}
		}
		if f := judgeLog(logText(dir), want); f != nil {
			return failf("%s: %s | schedule: %s", name, f.What, steps)
		}
		r.Traces++
		r.States++
		if !ex.Next(tr) {
			break
		}
	}
	r.Schedules += int64(ex.Runs - ex.Redundant)
	r.Trans += ex.Trans
	r.Capped = r.Capped || ex.Capped
	r.sample(func() string { return fmt.Sprintf("%s: %d schedules", name, ex.Runs) })
	return nil
}

// logStreams make the server log in all its places, with client bytes.
var logStreams = []string{
	"*1\r\n$4\r\nPING\r\n", "+PING\r\n", ":12\r\n", "-x\r\n", "$3\r\nabc\r\n", "*0\r\n", "*-1\r\n", "$-1\r\n", "*x\r\n", "$x\r\n", ":x\r\n", "?\r\n", "garbage\n", "\r\n",
	"*%s%d\r\n", "$%n%x\r\n", ":%s%s\r\n", "*\x00\xff\r\n", "$\r\r\r\n", "*99999999999999999999\r\n", "$999999999999\r\n", "*1\r\n$4\r\nPINGxx\r\n", "*2\r\n$3\r\nGET\r\n",
	"*1\r\n$6\r\n%s%d%n\r\n", "*1\r\n$9\r\na\r\n+OK\r\nb\r\n",
}

// service: the same streams at every level must give the same replies, end,
// and leave only whole lines at or above the level.
func logService(conf int, r *Result) *Fail {
	dir, f := initLog(levels[conf])
	if f != nil {
		return f
	}
	base, f2 := map[string]string{}, (*Fail)(nil)
	run := func(pre, s string, wlim int, end error) (string, *Fail) {
		c := newNconn()
		c.pieces, c.wlim, c.end = whole([]byte(pre+s)), wlim, end
		f := c.run(newManager(2, 2))
		if f != nil {
			f.What = fmt.Sprintf("level %s, client bytes %q: %s", levels[conf], pre+s, f.What)
		}
		r.States++
		r.Trans += int64(len(pre) + len(s))
		return string(c.out), f
	}
	pre := string(encode([]string{"SET", "k", "v"})) + string(encode([]string{"GET", "k"}))
	for _, s := range logStreams {
		for _, t := range logStreams {
			o, f := run(pre, s+t, -1, eof)
			if f != nil {
				return f
			}
			if !strings.HasPrefix(o, "+OK\r\n$1\r\nv\r\n") {
				return failf("level %s: replies %q to SET and GET before %q", levels[conf], clip(o), s+t)
			}
			base[s+t] = o
			if _, f := run(pre, s+t, 3, errReset); f != nil {
				return f
			}
		}
	}
	if f2 != nil {
		return f2
	}
	txt := logText(dir)
	if len(txt) > 0 && txt[len(txt)-1] != '\n' {
		return failf("level %s: the log does not end with a whole line", levels[conf])
	}
	for _, l := range bytes.Split(bytes.TrimSuffix(txt, []byte("\n")), []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		first := strings.ToLower(string(levelRe.Find(l)))
		ok := false
		for i := conf; i < len(levels); i++ {
			ok = ok || first != "" && strings.HasPrefix(levels[i], first)
		}
		if !ok {
			return failf("level %s: the log has the line %q", levels[conf], clip(string(l)))
		}
	}
	// silent logger as the reference: everything at the highest level only
	if _, f := initLog("error"); f != nil {
		return f
	}
	for s, o := range base {
		o2, f := run(pre, s, -1, eof)
		if f != nil {
			return f
		}
		if o2 != o {
			return failf("client bytes %q are answered %q at level %s and %q at level error", s, clip(o), levels[conf], clip(o2))
		}
	}
	r.Traces++
	r.sample(func() string { return fmt.Sprintf("level %s: %d streams", levels[conf], len(base)) })
	return nil
}

// several connections log natively at once
func logMany(conf int, r *Result) *Fail {
	dir, f := initLog(levels[conf])
	if f != nil {
		return f
	}
	m := newManager(2, 2)
	for round := 0; round < 20; round++ {
		var cs []*nconn
		for i := range logStreams {
			c := newNconn()
			c.pieces = chunks([]byte(logStreams[i]+logStreams[(i*7+round)%len(logStreams)]), 1+round%5)
			vrt.NativeYield = round%2 == 1
			c.serve(m)
			cs = append(cs, c)
		}
		for _, c := range cs {
			if f := c.settle(); f != nil {
				return f
			}
		}
		vrt.NativeYield = false
	}
	line := regexp.MustCompile(`(?i)(debug|info|warn|panic|error)`)
	for _, l := range strings.Split(strings.TrimSuffix(string(logText(dir)), "\n"), "\n") {
		if l != "" && !line.MatchString(l) {
			return failf("level %s: a log line without level: %q", levels[conf], clip(l))
		}
	}
	r.States += 20
	r.Traces++
	return nil
}

// a log that cannot be written
func logFull(r *Result) *Fail {
	for _, lv := range levels {
		dir := filepath.Join(scratch, "full")
		os.RemoveAll(dir)
		os.MkdirAll(dir, 0o755)
		os.Symlink("/dev/full", filepath.Join(dir, "redis.log"))
		logLevel = lv
		setConfig(2, 2)
		config.Conf.LogDir = dir
		if err := logger.Init(config.Conf); err != nil {
			r.count("full_log_refused", 1)
			continue
		}
		for _, s := range logStreams {
			for _, t := range logStreams {
				c := newNconn()
				pre := string(encode([]string{"PING", "x"}))
				c.pieces = whole([]byte(pre + s + t))
				if f := c.run(newManager(2, 2)); f != nil {
					f.What = "with a log that cannot be written: " + f.What
					return f
				}
				if !strings.HasPrefix(string(c.out), "$1\r\nx\r\n") && !strings.HasPrefix(string(c.out), "+x\r\n") {
					return failf("with a log that cannot be written PING x answers %q", clip(string(c.out)))
				}
				r.States++
			}
		}
		r.Traces++
	}
	return nil
}

// logRestart: starting again (at any level) keeps what was logged before.
func logRestart(first int, r *Result) *Fail {
	for second := range levels {
		dir, f := initLog(levels[first])
		if f != nil {
			return f
		}
		want := map[string]int{}
		for run, conf := range []int{first, second, first} {
			logLevel = levels[conf]
			setConfig(2, 2)
			config.Conf.LogDir = dir
			if err := logger.Init(config.Conf); err != nil {
				return failf("logger.Init in a directory with a log: %v", err)
			}
			for i := 0; i < 3-run; i++ {
				for lv := range levels {
					m := msgOf(lv, fmt.Sprintf("%d-%d", run, i))
					logFuncs[lv](m)
					r.Trans++
					if lv >= conf {
						want[m] = 1
					}
				}
			}
			r.States++
			if f := judgeLog(logText(dir), want); f != nil {
				f.What = fmt.Sprintf("started %d times, at levels %s, %s, %s: %s", run+1, levels[first], levels[second], levels[first], f.What)
				return f
			}
		}
		r.Traces++
	}
	return nil
}

func c22Cases(thorough bool) []Case {
	var out []Case
	for i := range levels {
		i := i
		out = append(out, Case{"matrix/" + levels[i], func(r *Result) *Fail { return levelMatrix(i, r) }})
		out = append(out, Case{"restart/" + levels[i], func(r *Result) *Fail { return logRestart(i, r) }})
		out = append(out, Case{"service/" + levels[i], func(r *Result) *Fail { return logService(i, r) }})
		out = append(out, Case{"many/" + levels[i], func(r *Result) *Fail { return logMany(i, r) }})
	}
	out = append(out, Case{"unwritable", logFull})
	for conf := range levels {
		for a := range levels {
			conf, a := conf, a
			out = append(out, Case{fmt.Sprintf("interleavings/%s/%s", levels[conf], levels[a]), func(r *Result) *Fail {
				for b := range levels {
					for c := range levels {
						for d := range levels {
							if f := logRace(conf, [][]int{{a, b}, {c, d}}, r); f != nil {
								return f
							}
							if d >= c && c >= b && b >= a {
								if f := logRace(conf, [][]int{{a}, {b}, {c}}, r); f != nil {
									return f
								}
								if thorough {
									if f := logRace(conf, [][]int{{a}, {b}, {c, d}}, r); f != nil {
										return f
									}
								}
							}
						}
					}
				}
				return nil
			}})
		}
	}
	return out
}

func init() {
	checks["C22"] = &Check{Level: "model_checking", Rule: "at each of the 5 levels: every pair of log calls with 10 odd message contents (file content compared exactly); " + concRule + " of two clients logging twice and three clients logging once at all combinations of levels (each message exactly once, whole, on its own line, carrying its level); all pairs of 25 streams that make the server log (same replies at every level, all goroutines end); a log file that cannot be written; starting up to three times at all levels on the same log (earlier messages stay)", Cases: c22Cases, Assume: []string{"bounded: as listed", "messages without line feeds (the server logs none: its lines end at the first line feed of client bytes)", "the log is the file in the log directory"}}
}
