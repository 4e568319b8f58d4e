package main

import (
	"strconv"
	"strings"

	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// A step is one command, or a clock advance: {"@", nanoseconds}.
type step []string

func tick(ns int64) step { return step{"@", strconv.FormatInt(ns, 10)} }

func (s step) String() string {
	if s[0] == "@" {
		n, _ := strconv.ParseInt(s[1], 10, 64)
		return "(clock +" + strconv.FormatFloat(float64(n)/1e9, 'f', -1, 64) + "s)"
	}
	return quoteArgs(s)
}

func pathString(p []step) string {
	q := make([]string, len(p))
	for i := range p {
		q[i] = p[i].String()
	}
	return strings.Join(q, " ; ")
}

// cmds parses a command list: one command per line, words separated by
// blanks, "" for the empty string.
func cmds(text string) []step {
	var out []step
	for _, l := range strings.Split(text, "\n") {
		w := strings.Fields(l)
		if len(w) == 0 || strings.HasPrefix(w[0], "#") {
			continue
		}
		for i := range w {
			if strings.HasPrefix(w[i], `"`) {
				if u, err := strconv.Unquote(w[i]); err == nil {
					w[i] = u
				}
			}
		}
		out = append(out, step(w))
	}
	return out
}

// Search is an explicit-state search over command sequences of the real
// server.  A state is the server's whole heap together with the model state
// and the clock; states already seen are not expanded again.
type Search struct {
	Init   []step // brings the server into the initial state (checked, too)
	Ops    []step
	Depth  int
	Keys   []string // probed keys
	Seg    int
	Sub    int64 // sub-second offset of the initial clock
	Inert  bool  // C08 mode: only check that refusals and no-ops are inert
	Budget func() bool
	Only   func(op step) bool // restrict the operations of the last level

	R *Result
}

// world is one live server with its model.
type world struct {
	s  *Srv
	db *model.DB
}

// apply executes one step on server and model and compares.
func (w *world) apply(st step) (model.Reply, *Fail) {
	if st[0] == "@" {
		n, _ := strconv.ParseInt(st[1], 10, 64)
		vrt.AdvanceClock(n)
		return model.Reply{}, nil
	}
	r, f := w.s.do(w.s.conn0(), st)
	if f != nil {
		return r, f
	}
	want, ap := w.db.Exec(st, vrt.ClockNS())
	if !want.Match(r) {
		return r, failf("%s answers %s, expected %s", st, clip(r.String()), clip(want.String()))
	}
	if ap != nil {
		ap(r)
	}
	if h := vrt.Held(); h != 0 {
		return r, failf("%s returns with %d lock(s) still held", st, h)
	}
	return r, nil
}

func (q *Search) fresh(path []step) (*world, *Fail) {
	w := &world{s: newSrv(q.Seg, 1), db: model.NewDB()}
	vrt.AdvanceClock(q.Sub)
	for i, st := range path {
		if _, f := w.apply(st); f != nil {
			f.What = "after [" + pathString(path[:i]) + "]: " + f.What
			return w, f
		}
	}
	return w, nil
}

type stKey struct {
	fp    uint64
	model string
	clock int64
}

func (q *Search) key(w *world) stKey {
	now := vrt.ClockNS()
	return stKey{fingerprint(w.s.mgr), w.db.Canon(now / 1e9), now}
}

func (q *Search) Run() *Fail {
	if q.Seg == 0 {
		q.Seg = 2
	}
	type node struct {
		path []step
		d    int
	}
	seen := map[stKey]bool{}
	w, f := q.fresh(q.Init)
	if f != nil {
		w.s.end()
		return f
	}
	k0 := q.key(w)
	seen[k0] = true
	q.R.States++
	if f := w.s.checkAgainst(w.s.conn0(), w.db, q.Keys); f != nil {
		f.What = "after [" + pathString(q.Init) + "]: " + f.What
		w.s.end()
		return f
	}
	w.s.end()
	queue := []node{{q.Init, 0}}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if q.Budget != nil && !q.Budget() {
			q.R.Capped = true
			return nil
		}
		w, f := q.fresh(n.path)
		if f != nil {
			w.s.end()
			return f
		}
		k := q.key(w)
		last := n.d+1 == q.Depth
		for _, op := range q.Ops {
			if last && q.Only != nil && !q.Only(op) {
				continue
			}
			if w == nil {
				if w, f = q.fresh(n.path); f != nil {
					w.s.end()
					return f
				}
			}
			q.R.Trans++
			r, f := w.apply(op)
			if f != nil {
				f.What = "after [" + pathString(n.path) + "]: " + f.What
				w.s.end()
				return f
			}
			nk := q.key(w)
			q.R.sample(func() string { return pathString(n.path) + " ; " + op.String() + " -> " + clip(r.String()) })
			if nk == k {
				continue // nothing changed: the same server serves the next operation
			}
			if !seen[nk] {
				seen[nk] = true
				q.R.States++
				path := append(append([]step(nil), n.path...), op)
				if f := w.s.checkAgainst(w.s.conn0(), w.db, q.Keys); f != nil {
					f.What = "after [" + pathString(path) + "]: " + f.What
					w.s.end()
					return f
				}
				if !last {
					queue = append(queue, node{path, n.d + 1})
				}
			}
			if !w.s.end() {
				return failf("after [%s ; %s]: server threads survive the end of the connection", pathString(n.path), op)
			}
			q.R.Traces++
			w = nil
			vrt.TakePanic()
		}
		if w != nil {
			w.s.end()
			q.R.Traces++
		}
	}
	return nil
}
