package main

import (
	"flag"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"gRedis/config"
	"gRedis/logger"
	"gRedis/zzverif/vrt"
)

// settings is the reference's view of a configuration.
type settings struct {
	host, logdir, level string
	port, seg, db       int
}

func (s settings) conf(file string) *config.Config {
	return &config.Config{ConfigFile: file, Host: s.host, Port: s.port, LogDir: s.logdir, LogLevel: s.level, SegNum: s.seg, DbNum: s.db}
}

func (s settings) diff(c *config.Config) string {
	var d []string
	cmp := func(name string, want, got any) {
		if want != got {
			d = append(d, fmt.Sprintf("%s is %v instead of %v", name, clip(fmt.Sprint(got)), clip(fmt.Sprint(want))))
		}
	}
	cmp("host", s.host, c.Host)
	cmp("port", s.port, c.Port)
	cmp("logdir", s.logdir, c.LogDir)
	cmp("loglevel", strings.ToLower(s.level), strings.ToLower(c.LogLevel))
	cmp("segnum", s.seg, c.SegNum)
	cmp("dbnum", s.db, c.DbNum)
	return strings.Join(d, ", ")
}

// apply is the reference reading of one line; false: the file has to be
// refused.
func (s *settings) apply(line string) bool {
	f := strings.Fields(line)
	if len(f) == 0 {
		return true
	}
	num := func(dst *int, lo, hi int) bool {
		n, err := strconv.Atoi(f[1])
		if err != nil || n < lo || n > hi {
			return false
		}
		*dst = n
		return true
	}
	name := strings.ToLower(f[0])
	switch name {
	case "host", "port", "logdir", "loglevel", "segnum", "dbnum":
		if len(f) == 1 {
			return false
		}
	}
	const any = int(^uint(0) >> 1)
	switch name {
	case "host":
		if net.ParseIP(f[1]) == nil {
			return false
		}
		s.host = f[1]
	case "port":
		return num(&s.port, 0, 65535)
	case "logdir":
		s.logdir = f[1]
	case "loglevel":
		s.level = f[1]
	case "segnum":
		return num(&s.seg, 1, any)
	case "dbnum":
		return num(&s.db, 1, any)
	}
	return true
}

var confStart = []settings{
	{"127.0.0.1", "./", "info", 6379, 100, 16},
	{"0.0.0.0", "/var/log/x", "error", 1, 1, 1},
}

// lines of a configuration file: valid ones, blank ones, unknown ones,
// malformed ones.
var (
	confValid = []string{
		"host 127.0.0.1", "host 10.1.2.3", "host ::1", "host 0.0.0.0", "HOST 127.0.0.2", "hOsT\t127.0.0.3",
		"port 6380", "port 1", "port 65535", "PORT 7000", "  port   7001  ", "\tport\t7002\t", "Port 7003", "port\v7005", "\fport\v\f7006\f",
		"logdir /tmp", "logdir ./", "logdir a/b/c.d", "LOGDIR /Tmp/Log", "logdir #x", "logdir port", "logdir host", "logdir 12",
		"loglevel debug", "loglevel error", "LogLevel WARNING", "loglevel Panic",
		"segnum 1", "segnum 100", "SEGNUM 2147483647", "segNum 7",
		"dbnum 1", "dbnum 16", "DBNUM 3", "dbnum 1000000",
	}
	confNone = []string{
		"", " ", "\t", " \t ", "# comment", "#port 9", "# port 9", "; port 9", "unknown 5", "unknown", "ports 9", "por 9", "xport 9", "port: 9", "port=9", "maxclients x", "\x00\x01", "\xff\xfe port 9", "save 900 1",
	}
	confBad = []string{
		"host", "port", "logdir", "loglevel", "segnum", "dbnum", "PORT ", "\thost\t", "Dbnum  ",
		"host localhost", "host 256.1.1.1", "host 1.2.3", "host 127.0.0.1:80", "host example.com", "host 1.2.3.4/8",
		"port abc", "port -1", "port 65536", "port 1x", "port 0x10", "port 1.5", "port 99999999999999999999", "port 6379,",
		"segnum abc", "segnum 0", "segnum -1", "segnum 1x", "segnum 99999999999999999999",
		"dbnum abc", "dbnum 0", "dbnum -16", "dbnum 1e3", "dbnum 99999999999999999999",
	}
)

func confLong() []string {
	return []string{
		"# " + strings.Repeat("x", 5000), "unknown " + strings.Repeat("y ", 40000), strings.Repeat(" ", 70000), strings.Repeat("z", 140000),
		"logdir " + strings.Repeat("/d", 35000), strings.Repeat("\t", 66000) + "port 7004", "segnum" + strings.Repeat(" ", 66000) + "9", "dbnum 5" + strings.Repeat(" ", 70000),
		"# " + strings.Repeat("x", 4093), "# " + strings.Repeat("x", 4094), "# " + strings.Repeat("x", 4095), "#" + strings.Repeat("x", 65535), "#" + strings.Repeat("x", 65534),
	}
}

// confFile judges one file, loaded over the settings s.
func confFile(text string, s settings, how string, load func(file string) (*config.Config, error), r *Result) *Fail {
	file := filepath.Join(scratch, "gredis.conf")
	if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
		panic(err)
	}
	want, ok := s, true
	for _, l := range strings.Split(text, "\n") {
		ok = ok && want.apply(l)
	}
	type res struct {
		c   *config.Config
		err error
	}
	ch := make(chan res, 1)
	go func() {
		c, err := load(file)
		ch <- res{c, err}
	}()
	var got res
	select {
	case got = <-ch:
	case <-time.After(10 * time.Second):
		return failf("loading %q%s does not end", clip(text), how)
	}
	vrt.Progress.Add(1)
	r.States++
	r.Trans += int64(strings.Count(text, "\n") + 1)
	r.Traces++
	r.sample(func() string { return fmt.Sprintf("%q%s", clip(text), how) })
	if ok && got.err != nil {
		return failf("loading %q%s is refused: %v", clip(text), how, got.err)
	}
	if !ok && got.err == nil {
		return failf("loading %q%s is accepted although a line is malformed", clip(text), how)
	}
	if ok {
		if got.c == nil {
			return failf("loading %q%s gives no configuration", clip(text), how)
		}
		if d := want.diff(got.c); d != "" {
			return failf("after loading %q%s: %s", clip(text), how, d)
		}
	}
	return nil
}

// parse loads with ParseConfFile over existing settings.
func parse(text string, s settings, r *Result) *Fail {
	return confFile(text, s, "", func(file string) (*config.Config, error) {
		c := s.conf(file)
		return c, c.ParseConfFile()
	}, r)
}

// viaInit loads with Init: flags first, then the file.
func viaInit(text string, flags []string, s settings, r *Result) *Fail {
	how := fmt.Sprintf(" after flags %q", flags)
	if text == "\x00none" {
		how = fmt.Sprintf(" (no file) with flags %q", flags)
		text = ""
	}
	return confFile(text, s, how, func(file string) (*config.Config, error) {
		oldArgs, oldFlags, oldConf := os.Args, flag.CommandLine, config.Conf
		defer func() { os.Args, flag.CommandLine, config.Conf = oldArgs, oldFlags, oldConf }()
		os.Args = append([]string{"gredis"}, flags...)
		if how[1] != '(' {
			os.Args = append(os.Args, "-config", file)
		}
		flag.CommandLine = flag.NewFlagSet("gredis", flag.ContinueOnError)
		c, err := config.Init()
		if err == nil && config.Conf != c {
			err = fmt.Errorf("Init returns one configuration and publishes another")
		}
		return c, err
	}, r)
}

var confEnds = []string{"\n", "\r\n", " \n", "\t\r\n"}

func confSeq(head []string, alpha []string, more int, r *Result) *Fail {
	var rec func(cur string, n int) *Fail
	rec = func(cur string, n int) *Fail {
		for _, s := range confStart {
			for _, e := range []string{"", "\n", "\n\n"} {
				if f := parse(cur+e, s, r); f != nil {
					return f
				}
			}
		}
		if n == 0 {
			return nil
		}
		for _, l := range alpha {
			if f := rec(cur+"\n"+l, n-1); f != nil {
				return f
			}
		}
		return nil
	}
	for _, h := range head {
		if f := rec(h, more); f != nil {
			return f
		}
	}
	return nil
}

// confShort is a smaller alphabet for longer files.
var confShort = []string{"host 10.1.2.3", "port 6380", " PORT\t7000 ", "logdir /tmp", "loglevel debug", "segnum 7", "dbnum 3", "", "# port 9", "unknown 5", "port", "port x", "host bad", "dbnum 0"}

// confLevels: a level named in the file is the level the logger works at.
func confLevels(r *Result) *Fail {
	for i, l := range levels {
		for _, sp := range []string{l, strings.ToUpper(l), strings.ToUpper(l[:1]) + l[1:]} {
			dir := filepath.Join(scratch, "lv")
			os.RemoveAll(dir)
			os.MkdirAll(dir, 0o755)
			file := filepath.Join(scratch, "lv.conf")
			os.WriteFile(file, []byte("loglevel "+sp+"\nlogdir "+dir+"\n"), 0o644)
			c := confStart[0].conf(file)
			if err := c.ParseConfFile(); err != nil {
				return failf("loglevel %s is refused: %v", sp, err)
			}
			if err := logger.Init(c); err != nil {
				return failf("logger.Init: %v", err)
			}
			want := map[string]int{}
			for lv := range levels {
				logFuncs[lv](msgOf(lv, "x"))
				if lv >= i {
					want[msgOf(lv, "x")] = 1
				}
			}
			r.States++
			r.Trans += 5
			r.Traces++
			if f := judgeLog(logText(dir), want); f != nil {
				f.What = "configured with loglevel " + sp + ": " + f.What
				return f
			}
		}
	}
	return nil
}

// confOdd: paths that are no files.
func confOdd(r *Result) *Fail {
	for _, p := range []string{filepath.Join(scratch, "not-there.conf"), scratch, filepath.Join(scratch, "gredis.conf", "x")} {
		c := confStart[0].conf(p)
		done := make(chan error, 1)
		go func() { done <- c.ParseConfFile() }()
		select {
		case err := <-done:
			if err == nil {
				return failf("loading %s gives no error", filepath.Base(p))
			}
		case <-time.After(10 * time.Second):
			return failf("loading %s does not end", filepath.Base(p))
		}
		r.States++
		r.Traces++
	}
	return parse("", confStart[0], r)
}

// confFlags: every combination of flags, with files that mention some of the
// settings.
func confFlags(k int, r *Result) *Fail {
	type fl struct {
		arg []string
		set func(*settings)
	}
	opts := []fl{
		{[]string{"-host", "10.9.8.7"}, func(s *settings) { s.host = "10.9.8.7" }},
		{[]string{"-port=7100"}, func(s *settings) { s.port = 7100 }},
		{[]string{"--logdir", "/tmp/q"}, func(s *settings) { s.logdir = "/tmp/q" }},
		{[]string{"-loglevel", "error"}, func(s *settings) { s.level = "error" }},
		{[]string{"-segnum", "5"}, func(s *settings) { s.seg = 5 }},
		{[]string{"-dbnum", "2"}, func(s *settings) { s.db = 2 }},
	}
	files := []string{"\x00none", "", "port 6380", "host 127.0.0.9\n", "logdir /tmp\nloglevel debug", "dbnum 3\nsegnum 9\n", "host 127.0.0.9\nport 6380\nlogdir /x\nloglevel panic\nsegnum 3\ndbnum 4", "# nothing\n", "port x", "dbnum"}
	for m := k; m < 1<<len(opts); m += 8 {
		s := confStart[0]
		var args []string
		for i, o := range opts {
			if m&(1<<i) != 0 {
				args = append(args, o.arg...)
				o.set(&s)
			}
		}
		for _, t := range files {
			if f := viaInit(t, args, s, r); f != nil {
				return f
			}
		}
	}
	return nil
}

func c20Cases(thorough bool) []Case {
	var out []Case
	all := append(append(append([]string{}, confValid...), confNone...), confBad...)
	out = append(out, Case{"odd paths", confOdd}, Case{"levels", confLevels})
	for _, h := range all {
		h := h
		out = append(out, Case{"two lines/" + h, func(r *Result) *Fail { return confSeq([]string{h}, all, 1, r) }})
		out = append(out, Case{"line ends/" + h, func(r *Result) *Fail {
			for _, l := range append(confShort, confValid...) {
				for _, e1 := range confEnds {
					for _, e2 := range append(confEnds, "", "\r", " ") {
						for _, s := range confStart {
							if f := parse(h+e1+l+e2, s, r); f != nil {
								return f
							}
						}
					}
				}
			}
			return nil
		}})
	}
	for i, h := range confLong() {
		h := h
		out = append(out, Case{fmt.Sprint("long lines/", i), func(r *Result) *Fail {
			for _, a := range append([]string{"\x00no"}, confShort...) {
				for _, b := range append([]string{"\x00no"}, confShort...) {
					t := h
					if a != "\x00no" {
						t = a + "\n" + t
					}
					if b != "\x00no" {
						t += "\n" + b
					}
					for _, e := range []string{"", "\n"} {
						if f := parse(t+e, confStart[0], r); f != nil {
							return f
						}
					}
				}
			}
			return nil
		}})
	}
	more := 2
	if thorough {
		more = 3
	}
	for _, h := range confShort {
		for _, g := range confShort {
			hg := h + "\n" + g
			out = append(out, Case{fmt.Sprintf("sequences/%s/%s", h, g), func(r *Result) *Fail { return confSeq([]string{hg}, confShort, more, r) }})
		}
	}
	if thorough {
		for _, h := range all {
			h := h
			out = append(out, Case{"three lines/" + h, func(r *Result) *Fail { return confSeq([]string{h}, all, 2, r) }})
		}
	}
	for k := 0; k < 8; k++ {
		k := k
		out = append(out, Case{fmt.Sprint("flags/", k), func(r *Result) *Fail { return confFlags(k, r) }})
	}
	return out
}

func init() {
	checks["C20"] = &Check{Level: "model_checking", Rule: "every configuration file of up to 2 lines over an alphabet of 85 lines (valid, blank, unknown, malformed), of up to 4 (thorough 5) lines over 14 lines, all line endings, with and without a final newline, lines up to 140 kB, over two initial settings, and all 64 flag combinations x 10 files through Init; the resulting settings (or the refusal) are compared with a reference reading of the file", Cases: c20Cases,
		Assume: []string{"bounded: as listed", "nothing is claimed about extra words after a value, non-canonical numerals (+5, 007) and non-ASCII white space", "settings after a refused file are not compared"}}
}
