package vrt

import (
	"fmt"
	"unsafe"
)

// Explorer enumerates the schedules of one closed harness: depth first, with
// dynamic partial order reduction (Flanagan/Godefroid) and sleep sets.  With
// Full set it branches on every enabled thread instead (no reduction).
type Explorer struct {
	Full        bool
	DataChoices bool
	NoMem       bool // no scheduling points at memory accesses
	MaxData     int  // deviations from ascending map order per run
	MaxRuns     int

	Nodes []Node
	Runs  int
	Trans int64
	// Redundant counts runs cut by sleep sets.
	Redundant int
	Capped    bool
	Diverged  string

	objs  []ovc
	atoms map[unsafe.Pointer]int32
	prev  []int32
	last  map[int32]int32
	first bool
	data  int
}

type ovc struct {
	vc, rvc [maxThreads]int32
	svc     [maxThreads]int32 // synchronisation only
	mr, mw  [maxThreads]int32 // last accesses to a map
}

//go:norace
func (e *Explorer) objVC(id int32) *ovc {
	k := int(id) - 1_000_000 + 8 // atomic and memory objects
	if id < 1_000_000 {
		k = int(id) + 4 // clock and waits
		if k < 0 || k >= 8 {
			k = 7
		}
	}
	for len(e.objs) <= k {
		e.objs = append(e.objs, ovc{})
	}
	return &e.objs[k]
}

//go:norace
func (e *Explorer) atomObj(x *Sched, p unsafe.Pointer) int32 {
	if id, ok := e.atoms[p]; ok {
		return id
	}
	if e.atoms == nil {
		e.atoms = map[unsafe.Pointer]int32{}
	}
	id := int32(1_000_000 + len(e.atoms))
	e.atoms[p] = id // also keeps the object alive, so that its address is not reused
	return id
}

//go:norace
func (e *Explorer) beginRun() {
	e.Runs++
	e.objs = e.objs[:0]
	for k := range e.atoms {
		delete(e.atoms, k)
	}
	e.data = 0
}

//go:norace
func (e *Explorer) decide(x *Sched, en uint16) int {
	e.Trans++
	d := x.depth
	if d < len(e.Nodes) && !x.redundant {
		n := &e.Nodes[d]
		x.depth++
		if n.Data || n.Enabled != en || en&(1<<n.Chosen) == 0 {
			x.diverged = fmt.Sprintf("step %d: enabled %b, recorded %b", d, en, n.Enabled)
			e.Diverged = x.diverged
			x.redundant = true
			x.depth--
			return lowest(en)
		}
		for i, t := range x.threads {
			n.Ops[i] = t.next
		}
		return n.Chosen
	}
	if x.redundant {
		if en&(1<<x.cur) != 0 {
			return x.cur
		}
		return lowest(en)
	}
	n := Node{Enabled: en, Cur: x.cur}
	for i, t := range x.threads {
		n.Ops[i] = t.next
	}
	if !e.Full && d > 0 {
		p := &e.Nodes[d-1]
		if p.Data {
			n.Sleep = p.Sleep
		} else {
			ps := (p.Sleep | p.Done) &^ (1 << p.Chosen)
			for i := range x.threads {
				if ps&(1<<i) != 0 && !Dependent(p.Ops[i], p.Ops[p.Chosen]) {
					n.Sleep |= 1 << i
				}
			}
		}
	}
	av := en &^ n.Sleep
	if av == 0 {
		x.redundant = true
		e.Redundant++
		if en&(1<<x.cur) != 0 {
			return x.cur
		}
		return lowest(en)
	}
	if av&(1<<x.cur) != 0 {
		n.Chosen = x.cur
	} else {
		n.Chosen = lowest(av)
	}
	if e.Full {
		n.Todo = av
	} else {
		n.Todo = 1 << n.Chosen
	}
	e.Nodes = append(e.Nodes, n)
	x.depth++
	return n.Chosen
}

//go:norace
func (e *Explorer) decideData(x *Sched, n int) int {
	if x.redundant {
		return 0
	}
	d := x.depth
	if d < len(e.Nodes) {
		nd := &e.Nodes[d]
		x.depth++
		if !nd.Data {
			e.Diverged = fmt.Sprintf("step %d: data choice, recorded a scheduling choice", d)
			x.redundant = true
			x.depth--
			return 0
		}
		if nd.Chosen != 0 {
			e.data++
		}
		return nd.Chosen
	}
	nd := Node{Data: true, NAlt: n, Todo: 1}
	if e.data < e.MaxData {
		nd.Todo = (1 << n) - 1
	}
	// a data choice inherits the sleep set its transition leads to
	if d > 0 {
		p := &e.Nodes[d-1]
		if p.Data {
			nd.Sleep = p.Sleep
		} else {
			ps := (p.Sleep | p.Done) &^ (1 << p.Chosen)
			for i := 0; i < maxThreads; i++ {
				if ps&(1<<i) != 0 && !Dependent(p.Ops[i], p.Ops[p.Chosen]) {
					nd.Sleep |= 1 << i
				}
			}
		}
	}
	e.Nodes = append(e.Nodes, nd)
	x.depth++
	return 0
}

//go:norace
func lowest(m uint16) int {
	for i := 0; i < 16; i++ {
		if m&(1<<i) != 0 {
			return i
		}
	}
	return -1
}

// Next analyses the run that just finished and prepares the next schedule;
// false when the space is exhausted (or capped).  Call it while the run is
// still active (before End) or after: it only uses recorded data handed over
// by Sealed.
func (e *Explorer) Next(tr []stepInfo) bool {
	if e.Diverged != "" {
		return false
	}
	if !e.Full {
		e.races(tr)
	}
	for len(e.Nodes) > 0 {
		n := &e.Nodes[len(e.Nodes)-1]
		n.Done |= 1 << n.Chosen
		todo := n.Todo &^ n.Done
		if !n.Data {
			todo &^= n.Sleep
		}
		if todo != 0 {
			if e.MaxRuns > 0 && e.Runs >= e.MaxRuns {
				e.Capped = true
				return false
			}
			n.Chosen = lowest(todo)
			return true
		}
		e.Nodes = e.Nodes[:len(e.Nodes)-1]
	}
	return false
}

// Seal returns the trace of the run for Next.
//
//go:norace
func Seal() []stepInfo {
	tr := s.trace
	s.trace = nil
	return tr
}

// Unseal puts a sealed trace back.
//
//go:norace
func Unseal(tr []stepInfo) { s.trace = tr }

// races adds the backtracking points demanded by the run's trace.
func (e *Explorer) races(tr []stepInfo) {
	if e.last == nil {
		e.last = map[int32]int32{}
	}
	for k := range e.last {
		delete(e.last, k)
	}
	if cap(e.prev) < len(tr) {
		e.prev = make([]int32, len(tr)*2)
	}
	prev := e.prev[:len(tr)]
	waits := false
	for j := range tr {
		o := tr[j].op
		if o.Kind == KStart {
			continue
		}
		if o.Kind == KWait {
			waits = true
		}
		prev[j] = e.last[o.Obj] - 1 // previous operation on the same object
		e.last[o.Obj] = int32(j) + 1
	}
	for j := range tr {
		ej := &tr[j]
		if ej.op.Kind == KStart {
			continue
		}
		for i := j; ; {
			if waits {
				i--
			} else {
				i = int(prev[i])
			}
			if i < 0 {
				break
			}
			ei := &tr[i]
			if ei.t == ej.t || !Dependent(ei.op, ej.op) {
				continue
			}
			// i happens before j's thread already?
			if ej.vc[ei.t] >= int32(i+1) {
				continue
			}
			if ei.node < 0 || ei.node >= len(e.Nodes) {
				break
			}
			n := &e.Nodes[ei.node]
			if n.Data {
				break
			}
			if n.Enabled&(1<<ej.t) != 0 {
				n.Todo |= 1 << ej.t
				break
			}
			// some thread that must run before j can
			added := false
			for k := i + 1; k < j && !added; k++ {
				ek := &tr[k]
				if n.Enabled&(1<<ek.t) != 0 && ek.t != ei.t && ej.vc[ek.t] >= int32(k+1) {
					n.Todo |= 1 << ek.t
					added = true
				}
			}
			if !added {
				n.Todo |= n.Enabled
			}
			break
		}
	}
}

// Choices is the schedule of the current run, for replay files.
func (e *Explorer) Choices() []int {
	out := make([]int, len(e.Nodes))
	for i := range e.Nodes {
		out[i] = e.Nodes[i].Chosen
	}
	return out
}
