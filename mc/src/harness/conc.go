package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// prog is one closed concurrent program: an initial state built
// sequentially, then clients running their requests concurrently (and,
// optionally, the clock advancing at any moment).
type prog struct {
	init    []step
	threads [][]step
	clock   []int64
	seg     int
	oseg    int // segments of the sequential executions, if different
	dbs     int
	keys    []string
	full    bool // no partial order reduction
	maxRuns int
	maxData int
	// only deadlocks, lost replies and lost locks count
	liveOnly bool
	noMem    bool
	raceMode bool // only the race detector's reports count
	seenOut  *map[string]bool
	// judge replaces the comparison with sequential executions
	judge func(p *prog, s *Srv, calls [][]vrt.Call, reps [][]model.Reply) *Fail
	// post looks at the server after the end of all connections
	post func(s *Srv) *Fail
}

func (p *prog) String() string {
	var b strings.Builder
	if len(p.init) > 0 {
		b.WriteString("{" + pathString(p.init) + "} ")
	}
	for i, t := range p.threads {
		if i > 0 {
			b.WriteString(" || ")
		}
		b.WriteString(pathString(t))
	}
	for _, a := range p.clock {
		fmt.Fprintf(&b, " || (clock +%gs)", float64(a)/1e9)
	}
	if p.seg != 2 {
		fmt.Fprintf(&b, " [segnum %d]", p.seg)
	}
	return b.String()
}

// setup creates the server, its connections and the initial state.
func (p *prog) setup() (*Srv, *Fail) {
	if p.seg == 0 {
		p.seg = 2
	}
	if p.dbs == 0 {
		p.dbs = 1
	}
	s := newSrv(p.seg, p.dbs)
	for range p.threads {
		s.open()
	}
	for _, st := range p.init {
		if st[0] == "@" {
			n, _ := strconv.ParseInt(st[1], 10, 64)
			vrt.AdvanceClock(n)
			continue
		}
		// conn1 may be addressed by a leading "#n"
		c, st := s.pickConn(st)
		if _, f := s.do(c, st); f != nil {
			return s, f
		}
	}
	return s, nil
}

func (s *Srv) pickConn(st step) (*vrt.Conn, step) {
	if len(st[0]) > 1 && st[0][0] == '#' {
		n, _ := strconv.Atoi(st[0][1:])
		for len(s.conns) <= n {
			s.open()
		}
		return s.conns[n], st[1:]
	}
	return s.conn0(), st
}

type fpClock struct {
	fp    uint64
	clock int64
}

// finals caches what a final state looks like to a client.
type finals map[fpClock]string

// probeDbs tells what every connection sees and what every database holds.
func (s *Srv) probeDbs(p *prog) (string, *Fail) {
	var b strings.Builder
	for i, c := range s.conns[:len(p.threads)] {
		v, f := s.probe(c, p.keys)
		if f != nil {
			return "", f
		}
		fmt.Fprintf(&b, "client%d sees {%s} ", i, v)
	}
	c := s.open()
	for i := 0; i < p.dbs; i++ {
		if i > 0 {
			if _, f := s.do(c, []string{"SELECT", strconv.Itoa(i)}); f != nil {
				return "", f
			}
		}
		v, f := s.probe(c, p.keys)
		if f != nil {
			return "", f
		}
		fmt.Fprintf(&b, "db%d {%s} ", i, v)
	}
	return b.String(), nil
}

var ttlRe = regexp.MustCompile(`ttl=:[0-9]+`)

func (fs finals) look(s *Srv, p *prog) (string, *Fail) {
	k := fpClock{fingerprint(s.mgr), vrt.ClockNS()}
	if v, ok := fs[k]; ok && p.dbs <= 1 {
		return v, nil
	}
	if p.dbs > 1 {
		v, f := s.probeDbs(p)
		fs[k] = v
		return v, f
	}
	v, f := s.probe(s.conns[0], p.keys)
	if f != nil {
		return "", f
	}
	if p.clock != nil {
		v = ttlRe.ReplaceAllStringFunc(v, func(m string) string {
			n, _ := strconv.ParseInt(m[5:], 10, 64)
			return "ttl=:" + strconv.FormatInt(roundTTL(n), 10)
		})
	}
	fs[k] = v
	return v, nil
}

func (p *prog) canonOf(req step, r model.Reply) string {
	un, pr := unordered(req[0])
	if len(p.clock) > 0 && strings.EqualFold(req[0], "ttl") && r.T == ':' {
		r.I = roundTTL(r.I)
	}
	return r.Canon(un, pr)
}

// roundTTL: a lifetime may count from any moment of the command that set it,
// so while the clock moves remaining lifetimes are compared in steps of ten
// seconds (all lifetimes of such programs are multiples of ten, the clock
// moves by less).
func roundTTL(v int64) int64 {
	if v <= 2 && v >= 0 {
		return 1
	} else if v < 0 {
		return v
	}
	return (v + 9) / 10 * 10
}

// oracle holds the outcomes of all sequential executions.
type oracle struct {
	p   *prog
	out map[string][][]int // outcome -> orders (sequences of thread numbers)
	n   int
}

// run executes the sequential orders of the program.  Thread len(threads)
// is the clock.
func (o *oracle) run(fin finals, r *Result) *Fail {
	p := o.p
	nt := len(p.threads)
	left := make([]int, nt+1)
	tot := 0
	for i, t := range p.threads {
		left[i] = len(t)
		tot += len(t)
	}
	left[nt] = len(p.clock)
	tot += len(p.clock)
	order := make([]int, 0, tot)
	var rec func() *Fail
	rec = func() *Fail {
		if len(order) == tot {
			return o.orders(append([]int(nil), order...), fin, r)
		}
		for i := range left {
			if left[i] == 0 {
				continue
			}
			left[i]--
			order = append(order, i)
			if f := rec(); f != nil {
				return f
			}
			order = order[:len(order)-1]
			left[i]++
		}
		return nil
	}
	return rec()
}

// orders runs one sequential order with all choices of map order per call.
func (o *oracle) orders(order []int, fin finals, r *Result) *Fail {
	choice := make([]bool, len(order))
	for {
		q := *o.p
		if q.oseg != 0 {
			q.seg = q.oseg
		}
		s, f := q.setup()
		if f != nil {
			s.end()
			return f
		}
		pos := make([]int, len(o.p.threads)+1)
		reps := make([][]string, len(o.p.threads))
		used := make([]bool, len(order))
		for k, t := range order {
			if t == len(o.p.threads) {
				vrt.AdvanceClock(o.p.clock[pos[t]])
				pos[t]++
				continue
			}
			vrt.SingleDesc, vrt.OrderUsed = choice[k], false
			rp, f := s.do(s.conns[t], o.p.threads[t][pos[t]])
			used[k] = vrt.OrderUsed
			vrt.SingleDesc = false
			if f != nil {
				s.end()
				return f
			}
			reps[t] = append(reps[t], o.p.canonOf(o.p.threads[t][pos[t]], rp))
			pos[t]++
		}
		v, f := fin.look(s, o.p)
		s.end()
		if f != nil {
			return f
		}
		o.n++
		r.count("sequential_executions", 1)
		k := outcome(reps, v)
		dup := false
		for _, x := range o.out[k] {
			if equalInts(x, order) {
				dup = true
			}
		}
		if !dup {
			o.out[k] = append(o.out[k], order)
		}
		// next combination of map orders
		i := len(order) - 1
		for ; i >= 0; i-- {
			if used[i] && !choice[i] && orderMatters(o.p, order, i) {
				choice[i] = true
				for j := i + 1; j < len(choice); j++ {
					choice[j] = false
				}
				break
			}
		}
		if i < 0 {
			return nil
		}
	}
}

func (o *oracle) size() int {
	n := 0
	for _, l := range o.out {
		n += len(l)
	}
	return n
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// orderMatters: commands whose reply is compared as a set and which change
// nothing give the same outcome in both orders.
func orderMatters(p *prog, order []int, i int) bool {
	k := 0
	for j := 0; j < i; j++ {
		if order[j] == order[i] {
			k++
		}
	}
	switch strings.ToLower(p.threads[order[i]][k][0]) {
	case "smembers", "hgetall", "hkeys", "hvals", "keys":
		return false
	}
	return true
}

func outcome(reps [][]string, final string) string {
	var b strings.Builder
	for _, t := range reps {
		for _, r := range t {
			b.WriteString(r)
			b.WriteByte('\x00')
		}
		b.WriteByte('\x01')
	}
	b.WriteString(final)
	return b.String()
}

// explains tells whether order respects the real-time order of calls.
func explains(order []int, calls [][]vrt.Call) bool {
	type ev struct{ start, end int }
	pos := make([]int, len(calls))
	evs := make([]ev, 0, len(order))
	for _, t := range order {
		c := calls[t][pos[t]]
		pos[t]++
		evs = append(evs, ev{c.Start, c.End})
	}
	for i := range evs {
		for j := i + 1; j < len(evs); j++ {
			if evs[j].end < evs[i].start { // j finished before i began
				return false
			}
		}
	}
	return true
}

// explore runs the program under every schedule.
func (p *prog) explore(r *Result) *Fail {
	fin := finals{}
	orc := &oracle{p: p, out: map[string][][]int{}}
	if !p.liveOnly && p.judge == nil {
		if f := orc.run(fin, r); f != nil {
			f.What = "sequentially, " + p.String() + ": " + f.What
			return f
		}
	}
	seen := map[string]bool{}
	fpSet := map[fpClock]bool{}
	ex := &vrt.Explorer{Full: p.full, DataChoices: p.maxData >= 0, MaxData: p.maxData, MaxRuns: p.maxRuns, NoMem: p.noMem}
	if p.maxData == 0 {
		ex.MaxData = 1
	}
	if ex.MaxRuns == 0 {
		ex.MaxRuns = 20000
		if *fTier == "thorough" {
			ex.MaxRuns = 300000
		}
	}
	vrt.OrderUsed = false
	for {
		s, f := p.setup()
		if f != nil {
			s.end()
			return f
		}
		var scripts []vrt.Script
		for i, t := range p.threads {
			sc := vrt.Script{Conn: s.conns[i]}
			for _, st := range t {
				sc.Reqs = append(sc.Reqs, encode(st))
			}
			scripts = append(scripts, sc)
		}
		if len(p.clock) > 0 {
			scripts = append(scripts, vrt.Script{Adv: p.clock})
		}
		calls := vrt.Concurrent(scripts, ex)
		where := func() string { return " | schedule: " + strings.Join(vrt.Steps(), ", ") }
		fail := func(format string, a ...any) *Fail {
			w := where()
			return failf("%s: %s%s", p, fmt.Sprintf(format, a...), w)
		}
		if ex.Diverged != "" {
			s.end()
			vrt.TakePanic()
			r.count("diverged_programs", 1)
			r.Capped = true
			return nil
		}
		if vrt.Deadlocked() != "" || vrt.Panicked() != "" {
			w := where()
			f := failf("%s: %s%s", p, s.trouble(), w)
			return f
		}
		reps := make([][]model.Reply, len(p.threads))
		canon := make([][]string, len(p.threads))
		var bad *Fail
		for i, t := range p.threads {
			for k, st := range t {
				if k >= len(calls[i]) || calls[i][k].Reply == nil {
					w := where()
					f := failf("%s: %s gets no reply: %s%s", p, st, s.trouble(), w)
					return f
				}
				rp, err := model.ParseReply(calls[i][k].Reply)
				if err != nil && bad == nil {
					bad = fail("%s: malformed reply %q", st, clip(string(calls[i][k].Reply)))
				}
				reps[i] = append(reps[i], rp)
				canon[i] = append(canon[i], p.canonOf(st, rp))
			}
		}
		if bad == nil && vrt.Held() != 0 {
			bad = fail("%d lock(s) still held after all replies", vrt.Held())
		}
		sealed := vrt.Seal()
		if p.liveOnly || p.judge != nil {
			fpSet[fpClock{fingerprint(s.mgr), vrt.ClockNS()}] = true
		}
		where = func() string { return " | schedule: " + strings.Join(vrt.StepsOf(sealed), ", ") }
		if bad == nil && p.judge != nil {
			if bad = p.judge(p, s, calls, reps); bad != nil {
				bad.What = p.String() + ": " + bad.What + where()
			}
		}
		if bad == nil && !p.liveOnly && p.judge == nil {
			v, f := fin.look(s, p)
			if f != nil {
				return failf("%s: afterwards %s%s", p, f.What, where())
			}
			o := outcome(canon, v)
			seen[o] = true
			ok := false
			for _, ord := range orc.out[o] {
				if explains(ord, calls) {
					ok = true
					break
				}
			}
			if !ok {
				if os.Getenv("VERIF_DBG") != "" {
					for k, v := range orc.out {
						fmt.Printf("%q %v\n", k, v)
					}
					fmt.Printf("GOT %q %v\n", o, calls)
				}
				bad = fail("replies %s and final state {%s} are not those of any one-at-a-time execution", showReps(p, reps), v)
			}
		}
		tr := sealed
		if bad != nil {
			s.end()
			vrt.TakePanic()
			if p.judge == nil && !p.liveOnly {
				// a program that is not deterministic under the seams cannot be judged this way
				n := orc.size()
				for k := 0; k < 12; k++ {
					if f := orc.run(finals{}, &Result{}); f != nil {
						return f
					}
				}
				if orc.size() != n {
					r.count("nondeterministic_programs", 1)
					r.Capped = true
					return nil
				}
			}
			return bad
		}
		r.Traces++
		if !s.end() {
			return failf("%s: server threads survive the end of their connections", p)
		}
		if p.post != nil {
			if f := p.post(s); f != nil {
				return failf("%s: %s", p, f.What)
			}
		}
		if !ex.Next(tr) {
			break
		}
	}
	if p.seenOut != nil {
		*p.seenOut = seen
	}
	r.Schedules += int64(ex.Runs - ex.Redundant)
	r.Trans += ex.Trans
	r.States += int64(len(fin) + len(fpSet))
	r.count("programs", 1)
	r.count("redundant_schedules_cut", ex.Redundant)
	r.count("outcomes", len(seen))
	if ex.Capped {
		r.Capped = true
		r.count("capped_programs", 1)
		if os.Getenv("VERIF_SLOW") != "" {
			fmt.Fprintln(os.Stderr, "capped:", p)
		}
	}
	if ex.Diverged != "" {
		r.count("diverged_programs", 1)
		r.Capped = true
	}
	r.sample(func() string { return fmt.Sprintf("%s: %d schedules, %d outcomes", p, ex.Runs, len(seen)) })
	return nil
}

// crossCheck explores the program with and without partial order reduction
// and compares the outcomes reached.
func (p *prog) crossCheck(r *Result) *Fail {
	var a, b map[string]bool
	q := *p
	q.seenOut, q.noMem = &a, true
	if f := q.explore(r); f != nil {
		return f
	}
	q = *p
	q.full, q.noMem, q.seenOut, q.maxRuns = true, true, &b, 400000
	r2 := &Result{}
	if f := q.explore(r2); f != nil {
		return f
	}
	if r2.Capped {
		r.count("reduction_crosscheck_capped", 1)
		return nil
	}
	r.Schedules += r2.Schedules
	r.Trans += r2.Trans
	r.count("reduction_crosschecked_programs", 1)
	r.count("reduction_crosscheck_full_schedules", int(r2.Schedules))
	for k := range b {
		if !a[k] {
			r.count("reduction_crosscheck_missed", 1)
			r.Capped = true
			fmt.Println("reduction misses an outcome of", p)
			break
		}
	}
	return nil
}

func showReps(p *prog, reps [][]model.Reply) string {
	var out []string
	for i := range reps {
		for k := range reps[i] {
			out = append(out, fmt.Sprintf("%s -> %s", p.threads[i][k], clip(reps[i][k].String())))
		}
	}
	return "(" + strings.Join(out, ", ") + ")"
}

var _ = sort.Strings
