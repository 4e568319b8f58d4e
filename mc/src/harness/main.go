// The harness: enumerates the cases of one property's check, distributes
// them over worker processes and reports.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gRedis/zzverif/vrt"
)

// Result is what one case covered.
type Result struct {
	Case      int            `json:"case"`
	Evals     int64          `json:"evals"`
	Distinct  int64          `json:"distinct"`
	States    int64          `json:"states"`
	Trans     int64          `json:"trans"`
	Schedules int64          `json:"schedules"`
	Traces    int64          `json:"traces"`
	Capped    bool           `json:"capped,omitempty"`
	Samples   []string       `json:"samples,omitempty"`
	Counts    map[string]int `json:"counts,omitempty"`
	Fail      string         `json:"fail,omitempty"`
	Done      bool           `json:"done"`
	nsample   int
}

func (r *Result) sample(f func() string) {
	r.nsample++
	// keep the 1st, 10th, 100th, ... case as a sample
	if len(r.Samples) < 3 {
		for x := 1; x <= r.nsample; x *= 10 {
			if x == r.nsample {
				r.Samples = append(r.Samples, f())
			}
		}
	}
}

func (r *Result) count(k string, n int) {
	if r.Counts == nil {
		r.Counts = map[string]int{}
	}
	r.Counts[k] += n
}

// Case is one unit of work.
type Case struct {
	Name string
	Run  func(r *Result) *Fail
}

// Check describes how a property is decided.
type Check struct {
	Level  string // evidence level
	Rule   string
	Cases  func(thorough bool) []Case
	Assume []string
	Race   bool // needs the race detector build
	Extra  func(ev map[string]any, tot *Result)
	Par    int // number of workers (default 8)
}

var checks = map[string]*Check{}

var (
	fProp     = flag.String("prop", "", "property")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Int("seed", 1, "seed (recorded only: nothing here is random)")
	fWorker   = flag.Bool("worker", false, "worker process")
	fScratch  = flag.String("scratch", "", "scratch directory")
	fEvidence = flag.String("evidence", "", "evidence file")
	fReplay   = flag.String("replay", "", "file to write the counterexample to")
	fKnown    = flag.String("known", "", "known findings file")
	fBudget   = flag.Duration("budget", 9*time.Minute, "stop handing out cases after this time")
	fCase     = flag.Int("case", -1, "run only this case, in this process")
	fList     = flag.Bool("list", false, "list the cases")
	fWorkers  = flag.Int("workers", 0, "worker processes")
	fServer   = flag.String("server", "", "server program (end-to-end check)")
	fAll      = flag.Bool("all", false, "do not stop at the first violation")
)

func main() {
	flag.Parse()
	c := checks[*fProp]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(3)
	}
	if *fWorker {
		worker(c)
		return
	}
	if *fList {
		initProgram(*fScratch)
		for i, x := range c.Cases(*fTier == "thorough") {
			fmt.Println(i, x.Name)
		}
		return
	}
	if *fCase >= 0 {
		runtime.GOMAXPROCS(1)
		initProgram(*fScratch)
		cs := c.Cases(*fTier == "thorough")
		startWatchdog()
		r := &Result{}
		t := time.Now()
		f := cs[*fCase].Run(r)
		b, _ := json.Marshal(r)
		fmt.Println(cs[*fCase].Name, string(b), time.Since(t))
		if f != nil {
			fmt.Println("FAIL", f.What)
			os.Exit(1)
		}
		return
	}
	parent(c)
}

// rssLimit is how much memory a worker may use before it gives up; what the
// checks themselves need stays far below.
const rssLimit = 3 << 30

func startWatchdog() {
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			b, err := os.ReadFile("/proc/self/statm")
			if err != nil {
				return
			}
			var size, res int64
			fmt.Sscan(string(b), &size, &res)
			if res*int64(os.Getpagesize()) > rssLimit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Stderr.WriteString("\nVERIF-BLOAT\n")
				os.Exit(96)
			}
		}
	}()
	vrt.StartWatchdog(hangAfter, func() {
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		os.Stderr.Write(buf[:n])
		os.Stderr.WriteString("\nVERIF-HANG\n")
	})
}

const hangAfter = 40 * time.Second

func worker(c *Check) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	initProgram(*fScratch)
	cs := c.Cases(*fTier == "thorough")
	startWatchdog()
	out := os.NewFile(3, "results")
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil || i >= len(cs) {
			os.Exit(3)
		}
		r := &Result{Case: i}
		if f := cs[i].Run(r); f != nil {
			r.Fail = f.What
		}
		r.Done = true
		vrt.Progress.Add(1)
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Scanner
	err *tail
	dir string
}

// tail keeps the end of a worker's standard error.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<18 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<17:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

var procN int
var procMu sync.Mutex

func start(c *Check) *proc {
	procMu.Lock()
	procN++
	id := procN
	procMu.Unlock()
	dir := filepath.Join(*fScratch, "w"+strconv.Itoa(id))
	os.MkdirAll(dir, 0o755)
	args := []string{"-worker", "-prop", *fProp, "-tier", *fTier, "-scratch", dir, "-seed", strconv.Itoa(*fSeed), "-server", *fServer}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all")
	p := &proc{cmd: cmd, err: &tail{}, dir: dir}
	p.in, _ = cmd.StdinPipe()
	cmd.Stderr = p.err
	rd, wr, _ := os.Pipe()
	cmd.ExtraFiles = []*os.File{wr}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start worker:", err)
		os.Exit(3)
	}
	wr.Close()
	p.out = bufio.NewScanner(rd)
	p.out.Buffer(make([]byte, 1<<20), 1<<26)
	return p
}

// runOne runs case i on p; ok is false if the worker died.
func (p *proc) runOne(i int) (*Result, bool) {
	fmt.Fprintln(p.in, i)
	if p.out.Scan() {
		r := &Result{}
		if json.Unmarshal(p.out.Bytes(), r) == nil {
			return r, true
		}
	}
	p.in.Close()
	p.cmd.Wait()
	return nil, false
}

func (p *proc) stop() {
	p.in.Close()
	done := make(chan struct{})
	go func() { p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		p.cmd.Process.Kill()
		<-done
	}
	os.RemoveAll(p.dir)
}

// death turns a worker's standard error into a description.
func death(s string) string {
	if strings.Contains(s, "VERIF-HANG") {
		fr := frames(s)
		return "the server does not finish (no progress for " + hangAfter.String() + ")" + fr
	}
	if strings.Contains(s, "VERIF-BLOAT") {
		return "the server's memory grows beyond " + fmt.Sprint(int64(rssLimit)>>20) + " MB" + frames(s)
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return "the server process dies: " + l + frames(s)
		}
	}
	if len(s) > 400 {
		s = s[len(s)-400:]
	}
	return "the server process dies: " + s
}

// inconclusive reports deaths that are not the fault of the program under
// test.
func frames(s string) string {
	var fr []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "gRedis/") && !strings.Contains(l, "zzverif") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			fr = append(fr, l)
			if len(fr) == 3 {
				break
			}
		}
	}
	if len(fr) == 0 {
		return ""
	}
	return " in " + strings.Join(fr, " < ")
}

type finding struct {
	Status    string `json:"status"`
	Property  string `json:"property"`
	Signature string `json:"signature"`
	What      string `json:"what"`
}

func known() []finding {
	var fs []finding
	if b, err := os.ReadFile(*fKnown); err == nil {
		var all struct {
			Findings []finding `json:"findings"`
		}
		if json.Unmarshal(b, &all) == nil {
			for _, f := range all.Findings {
				if f.Property == *fProp && f.Status == "known" {
					fs = append(fs, f)
				}
			}
		}
	}
	return fs
}

func parent(c *Check) {
	t0 := time.Now()
	initProgram(*fScratch)
	cs := c.Cases(*fTier == "thorough")
	nw := *fWorkers
	if nw == 0 {
		nw = 8
		if c.Par > 0 {
			nw = c.Par
		}
	}
	if nw > len(cs) {
		nw = len(cs)
	}
	kn := known()
	var mu sync.Mutex
	tot := &Result{}
	next := 0
	ran := 0
	outOfTime := false
	type bad struct {
		i    int
		what string
	}
	var bads []bad
	knownHit := map[int]bool{}
	unrepro := 0
	stop, halt := false, make(chan struct{})
	var slow []string

	// confirm re-runs a failing case on fresh workers.
	confirm := func(i int, what string) (string, bool) {
		for k := 0; k < 2; k++ {
			p := start(c)
			r, alive := p.runOne(i)
			if !alive {
				w := death(p.err.String())
				os.RemoveAll(p.dir)
				return w, true
			}
			p.stop()
			if r.Fail != "" {
				return r.Fail, true
			}
		}
		return what, false
	}

	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := start(c)
			defer func() { p.stop() }()
			// a case that is still busy some time after the budget is given up
			late := func() <-chan time.Time { return time.After(time.Until(t0.Add(*fBudget + *fBudget/5))) }
			for {
				mu.Lock()
				if stop || next >= len(cs) {
					mu.Unlock()
					return
				}
				if time.Since(t0) > *fBudget {
					outOfTime = true
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				tc := time.Now()
				over, gaveUp := make(chan struct{}), make(chan bool, 1)
				go func(q *proc) {
					select {
					case <-over:
						gaveUp <- false
					case <-late():
						gaveUp <- true
						q.cmd.Process.Kill()
					case <-halt:
						gaveUp <- true
						q.cmd.Process.Kill()
					}
				}(p)
				r, alive := p.runOne(i)
				close(over)
				if <-gaveUp && !alive {
					os.RemoveAll(p.dir)
					p = start(c)
					mu.Lock()
					outOfTime = true
					mu.Unlock()
					return
				}
				what := ""
				if !alive {
					what = death(p.err.String())
					os.RemoveAll(p.dir)
					p = start(c)
				} else {
					what = r.Fail
				}
				if what != "" {
					// quick look: known findings need no confirmation
					if w2, again := confirm(i, what); again {
						what = w2
					} else {
						mu.Lock()
						unrepro++
						fmt.Printf("note: case %d (%s) failed once and not again: %s\n", i, cs[i].Name, what)
						mu.Unlock()
						what = ""
					}
				}
				mu.Lock()
				ran++
				if d := time.Since(tc); d > 5*time.Second {
					slow = append(slow, fmt.Sprintf("%6.1fs %s", d.Seconds(), cs[i].Name))
				}
				if r != nil {
					tot.Evals += r.Evals
					tot.Distinct += r.Distinct
					tot.States += r.States
					tot.Trans += r.Trans
					tot.Schedules += r.Schedules
					tot.Traces += r.Traces
					tot.Capped = tot.Capped || r.Capped
					for k, v := range r.Counts {
						tot.count(k, v)
					}
					for _, s := range r.Samples {
						if len(tot.Samples) < 12 {
							tot.Samples = append(tot.Samples, cs[i].Name+": "+s)
						}
					}
				}
				if what != "" {
					hit := -1
					for k := range kn {
						if strings.Contains(cs[i].Name+": "+what, kn[k].Signature) {
							hit = k
						}
					}
					if hit >= 0 {
						knownHit[hit] = true
					} else {
						bads = append(bads, bad{i, what})
						if !*fAll && !stop {
							stop = true
							close(halt)
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for k := range kn {
		if knownHit[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, kn[k].What)
		}
	}
	sort.Slice(bads, func(a, b int) bool { return bads[a].i < bads[b].i })
	wall := time.Since(t0).Seconds()
	cov := map[string]any{
		"cases_total": len(cs), "cases_run": ran, "samples": tot.Samples,
		"exhaustive": !outOfTime && !tot.Capped && ran == len(cs) && unrepro == 0,
		"rule":       c.Rule,
	}
	for k, v := range tot.Counts {
		cov[k] = v
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = tot.States
		cov["transitions"] = tot.Trans
		cov["traces_validated_against_impl"] = tot.Traces
		if tot.Schedules > 0 {
			cov["schedules"] = tot.Schedules
		}
	default:
		cov["evaluations"] = tot.Evals
		cov["distinct_nontrivial"] = tot.Distinct
	}
	if len(tot.Samples) == 0 {
		cov["samples"] = []string{"(none)"}
	}
	ev := map[string]any{"property": *fProp, "tier": *fTier, "seed": *fSeed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assume, "wall_s": wall, "violations": len(bads)}
	if c.Extra != nil {
		c.Extra(ev, tot)
	}
	if *fEvidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*fEvidence), 0o755)
		os.WriteFile(*fEvidence, append(b, '\n'), 0o644)
	}
	sort.Sort(sort.Reverse(sort.StringSlice(slow)))
	for i, s := range slow {
		if i < 5 && os.Getenv("VERIF_SLOW") != "" {
			fmt.Println("slow:", s)
		}
	}
	fmt.Printf("%s %s: %d/%d cases, states %d, transitions %d, schedules %d, evaluations %d, traces %d, exhaustive %v, %.1fs\n",
		*fProp, *fTier, ran, len(cs), tot.States, tot.Trans, tot.Schedules, tot.Evals, tot.Traces, cov["exhaustive"], wall)
	if ran == 0 {
		fmt.Fprintln(os.Stderr, "no case was run")
		os.Exit(3)
	}
	if len(bads) > 0 {
		rp := *fReplay
		type rec struct {
			Property, Tier, Case, What string
			Index                      int
		}
		var rs []rec
		for _, b := range bads {
			fmt.Printf("case %d %s: %s\n", b.i, cs[b.i].Name, b.what)
			rs = append(rs, rec{*fProp, *fTier, cs[b.i].Name, b.what, b.i})
		}
		j, _ := json.MarshalIndent(rs, "", " ")
		if rp != "" {
			os.MkdirAll(filepath.Dir(rp), 0o755)
			os.WriteFile(rp, append(j, '\n'), 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, rp)
		os.Exit(1)
	}
}
