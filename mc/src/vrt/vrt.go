// Package vrt is the runtime of the model checker: a cooperative scheduler
// that owns every lock acquisition, atomic operation and clock read of the
// code under test, an in-memory network connection that turns "a client sends
// a request and gets its reply" into scheduler transitions, and the seams for
// time, goroutine creation and map iteration order.
//
// Exactly one model thread (= one client connection: its parser goroutine plus
// its handler goroutine) holds the token at any time.  A transition of a
// thread runs from one scheduling point to the next.
package vrt

import (
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

type Kind uint8

const (
	KStart Kind = iota // a client sends its next request
	KLock              // exclusive acquisition
	KRLock             // shared acquisition
	KAtomR
	KAtomW
	KClockR
	KClockW
	KWait // wait for a predicate
	KData // a data choice (map iteration order)
	KMemR // read of an object of the program under test
	KMemW
)

func (k Kind) String() string {
	return [...]string{"start", "Lock", "RLock", "atomic-read", "atomic-write", "clock-read", "clock-advance", "wait", "map-order", "read", "write"}[k]
}

type Op struct {
	Kind Kind
	Obj  int32
	lk   *LockState
	pred func() bool
}

func (o Op) isRead() bool {
	return o.Kind == KRLock || o.Kind == KAtomR || o.Kind == KClockR || o.Kind == KMemR
}

// Dependent is the (symmetric) dependency relation of the partial order
// reduction: two transitions commute unless their first operations touch the
// same object and at least one of them is not a shared access.
func Dependent(a, b Op) bool {
	if a.Kind == KStart || b.Kind == KStart || a.Kind == KData || b.Kind == KData {
		return false
	}
	if a.Kind == KWait || b.Kind == KWait {
		return true
	}
	return a.Obj == b.Obj && !(a.isRead() && b.isRead())
}

// LockState is the virtual state of one lock of the program under test.
type LockState struct {
	epoch   uint64
	id      int32
	w       int16 // owner thread + 1
	nr      int16
	readers [maxThreads]int8
	vc      [maxThreads]int32 // release clock of writers and readers
	rvc     [maxThreads]int32
	// the same, counting synchronisation only (not conflicting memory accesses)
	svc, srvc [maxThreads]int32
}

const maxThreads = 8

const (
	tsReady = iota
	tsRunning
	tsDone
)

type Call struct {
	Req        int // index in the thread's request list
	Start, End int // step numbers
	Reply      []byte
}

type Thread struct {
	id     int
	conn   *Conn
	reqs   [][]byte
	adv    []int64 // clock thread: nanoseconds to advance
	ri     int
	state  int
	next   Op
	wake   chan struct{}
	parked bool
	calls  []Call
	rnd    uint64 // random numbers drawn by the current request
	order  int8   // map order of the current request; -1: not chosen yet
}

// Node is one recorded scheduling decision.
type Node struct {
	Data    bool
	NAlt    int // data: number of alternatives
	Enabled uint16
	Ops     [maxThreads]Op
	Chosen  int // thread or alternative
	Todo    uint16
	Done    uint16
	Sleep   uint16
	Cur     int // thread holding the token before the decision
}

type stepInfo struct {
	node int // index into Nodes (or -1 after the run became redundant)
	t    int
	op   Op
	vc   [maxThreads]int32 // clock of t before this event
}

type Sched struct {
	epoch     uint64
	threads   []*Thread
	cur       int
	single    bool
	aborting  bool
	clockPts  bool
	dataPts   bool
	done      chan struct{}
	nextObj   int32
	steps     int
	Deadlock  string
	Panic     string
	redundant bool
	diverged  string

	ex    *Explorer
	depth int
	trace []stepInfo
	vcs   [maxThreads][maxThreads]int32
	svcs  [maxThreads][maxThreads]int32
	held  int
}

var (
	s     *Sched // nil: native mode
	epoch uint64
	// Progress is bumped at every completed run; the watchdog reads it.
	Progress atomic.Int64

	clockNS int64 // virtual clock

	live     atomic.Int64
	panicMu  sync.Mutex
	panicMsg string

	// NativeDesc makes map iteration order descending in native mode.
	NativeDesc bool
)

const ClockBase = int64(1_700_000_000) * 1e9

func SetClock(ns int64)     { clockNS = ns }
func AdvanceClock(ns int64) { clockNS += ns }
func ClockNS() int64        { return clockNS }

type abortT struct{}

func (abortT) Error() string { return "verif: run aborted" }

// Go starts a goroutine of the program under test.
func Go(f func()) {
	raceOff()
	live.Add(1)
	raceOn()
	go run(f)
}

var goneSem int64

func run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortT); !ok {
				notePanic(r)
			}
		}
		RaceReleaseMerge(unsafe.Pointer(&goneSem))
		raceOff()
		live.Add(-1)
		raceOn()
	}()
	f()
}

//go:norace
func notePanic(r any) {
	msg := fmt.Sprintf("%v", r)
	st := string(debug.Stack())
	// keep the frames of the program under test
	var fr []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "gRedis/") && !strings.Contains(l, "zzverif") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			fr = append(fr, l)
			if len(fr) == 3 {
				break
			}
		}
	}
	raceOff()
	panicMu.Lock()
	if panicMsg == "" {
		panicMsg = msg + " in " + strings.Join(fr, " < ")
	}
	panicMu.Unlock()
	if s != nil && s.Panic == "" {
		s.Panic = panicMsg
		s.aborting = true
		select {
		case s.done <- struct{}{}:
		default:
		}
	}
	raceOn()
}

// TakePanic returns and clears the first panic that escaped a goroutine of
// the program under test since the last call (it would have killed the
// server process).
func TakePanic() string {
	raceOff()
	defer raceOn()
	panicMu.Lock()
	defer panicMu.Unlock()
	m := panicMsg
	panicMsg = ""
	return m
}

func Live() int64 { return live.Load() }

// Forget drops the goroutines that are left from the count.
func Forget() { live.Store(0) }

// NativeYield makes every lock operation in native mode give other goroutines
// a chance to run first.
var NativeYield bool

// WaitGone waits until every goroutine of the program under test has ended.
func WaitGone(d time.Duration) bool {
	ok := waitGone(d)
	if ok {
		RaceAcquire(unsafe.Pointer(&goneSem))
	}
	return ok
}

func waitGone(d time.Duration) bool {
	raceOff()
	defer raceOn()
	if live.Load() == 0 {
		return true
	}
	for i := 0; i < 2000; i++ {
		runtime.Gosched()
		if live.Load() == 0 {
			return true
		}
	}
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		time.Sleep(20 * time.Microsecond)
		if live.Load() == 0 {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- scheduler

// Begin enters scheduled mode.
//
//go:norace
func Begin() {
	epoch++
	draining = false
	s = &Sched{epoch: epoch, done: make(chan struct{}, 4), single: true}
	clockNS = ClockBase
	TakePanic()
}

//go:norace
func Active() bool { return s != nil }

//go:norace
func (x *Sched) lock(l *LockState) {
	if l.epoch != x.epoch {
		*l = LockState{epoch: x.epoch}
	}
	if l.id == 0 {
		x.nextObj++
		l.id = x.nextObj
	}
}

//go:norace
func (x *Sched) enabled(t *Thread) bool {
	if t.state != tsReady {
		return false
	}
	switch t.next.Kind {
	case KLock:
		return t.next.lk.w == 0 && t.next.lk.nr == 0
	case KRLock:
		return t.next.lk.w == 0
	case KWait:
		return t.next.pred()
	}
	return true
}

// apply performs the effect of t's pending operation.
//
//go:norace
func (x *Sched) apply(t *Thread) {
	l := t.next.lk
	switch t.next.Kind {
	case KLock:
		l.w = int16(t.id) + 1
		x.held++
	case KRLock:
		l.nr++
		l.readers[t.id]++
		x.held++
	}
}

// Point is called by the shims before every synchronisation operation.
//
//go:norace
func point(op Op) {
	x := s
	if x == nil {
		return
	}
	if x.aborting {
		panic(abortT{})
	}
	t := x.threads[x.cur]
	t.next = op
	t.state = tsReady
	if x.single {
		if !x.enabled(t) {
			x.Deadlock = "a client request blocks forever on " + op.Kind.String() + " with no other request in progress"
			t.parked = true
			x.finish()
			x.park(t)
			return
		}
		x.apply(t)
		t.state = tsRunning
		return
	}
	x.yield(t)
}

// resume lets a parked thread continue.  A thread counts as parked from the
// moment it gives the token away, which may be before it really blocks.
//
//go:norace
func (t *Thread) resume() {
	if t.parked {
		t.parked = false
		raceOff()
		t.wake <- struct{}{}
		raceOn()
	}
}

//go:norace
func (x *Sched) finish() {
	select {
	case x.done <- struct{}{}:
	default:
	}
}

//go:norace
func (x *Sched) park(t *Thread) {
	raceOff()
	<-t.wake
	raceOn()
	if x.aborting {
		panic(abortT{})
	}
}

// yield hands the token to the next thread of the schedule; it returns when
// t is scheduled again.
//
//go:norace
func (x *Sched) yield(t *Thread) {
	for {
		n := x.pick()
		if n == nil {
			t.parked = true
			x.finish()
			x.park(t)
			return
		}
		if n.conn == nil { // the clock
			n.next.Kind = KClockW
			clockNS += n.adv[n.ri]
			n.calls = append(n.calls, Call{Req: n.ri, Start: x.steps, End: x.steps})
			n.ri++
			if n.ri == len(n.adv) {
				n.state = tsDone
			} else {
				n.state = tsReady
			}
			continue
		}
		x.cur = n.id
		n.state = tsRunning
		t.parked = n != t
		if n.next.Kind == KStart {
			x.startReq(n, n != t)
		} else if n != t {
			n.resume()
		}
		if n != t {
			x.park(t)
		}
		return
	}
}

// startReq delivers the next request of n; wake also resumes its handler if
// that is parked at the end of its previous reply.
//
//go:norace
func (x *Sched) startReq(n *Thread, wake bool) {
	n.calls = append(n.calls, Call{Req: n.ri, Start: x.steps, End: -1})
	req := n.reqs[n.ri]
	n.ri++
	n.order, n.rnd = -1, 0
	c := n.conn
	c.out = c.out[:0]
	if wake {
		n.resume()
	}
	c.start()
	raceOff()
	c.in <- req
	raceOn()
	RaceReleaseMerge(unsafe.Pointer(&c.sem))
}

// opDone is called by the connection when the reply is complete.
//
//go:norace
func (x *Sched) opDone(t *Thread, reply []byte) {
	k := len(t.calls) - 1
	t.calls[k].End = x.steps
	t.calls[k].Reply = append([]byte(nil), reply...)
	RaceReleaseMerge(unsafe.Pointer(&barrier))
	if t.ri < len(t.reqs) {
		t.next = Op{Kind: KStart}
		t.state = tsReady
	} else {
		t.state = tsDone
	}
	if x.single {
		if t.state == tsReady {
			x.startReq(t, false)
			t.state = tsRunning
			return
		}
		t.parked = true
		x.finish()
		x.park(t)
		return
	}
	x.yield(t)
}

var barrier int64

//go:norace
func (x *Sched) pick() *Thread {
	var en uint16
	alive := false
	for i, t := range x.threads {
		if t.state != tsDone {
			alive = true
			if x.enabled(t) {
				en |= 1 << i
			}
		}
	}
	if !alive {
		return nil
	}
	if en == 0 {
		x.Deadlock = x.describe("no request in progress can continue")
		return nil
	}
	if d := x.pendingWriterDeadlock(); d != "" {
		x.Deadlock = d
		return nil
	}
	ch := x.ex.decide(x, en)
	if ch < 0 {
		return nil
	}
	t := x.threads[ch]
	x.steps++
	x.record(t)
	x.apply(t)
	return t
}

// pendingWriterDeadlock accounts for the writer preference of sync.RWMutex:
// a thread waiting in Lock blocks later RLock calls.  If, with every waiting
// writer counted as having announced itself, nobody can continue, the real
// program can reach that very state.
//
//go:norace
func (x *Sched) pendingWriterDeadlock() string {
	anyW := false
	for _, t := range x.threads {
		if t.state == tsReady && t.next.Kind == KLock && (t.next.lk.w != 0 || t.next.lk.nr != 0) {
			anyW = true
		}
	}
	if !anyW {
		return ""
	}
	for _, t := range x.threads {
		if t.state != tsReady || !x.enabled(t) {
			continue
		}
		if t.next.Kind != KRLock {
			return ""
		}
		blocked := false
		for _, u := range x.threads {
			if u.state == tsReady && u.next.Kind == KLock && u.next.lk == t.next.lk && u.next.lk.nr != 0 {
				blocked = true
			}
		}
		if !blocked {
			return ""
		}
	}
	return x.describe("readers wait behind a waiting writer that waits for them")
}

//go:norace
func (x *Sched) describe(head string) string {
	var b strings.Builder
	b.WriteString(head)
	for _, t := range x.threads {
		if t.state == tsReady && t.conn != nil {
			fmt.Fprintf(&b, "; client %d waits in %v(#%d)", t.id, t.next.Kind, t.next.Obj)
		}
	}
	return b.String()
}

// record keeps the happens-before clocks of the partial order reduction.
//
//go:norace
func (x *Sched) record(t *Thread) {
	if x.ex == nil {
		return
	}
	si := stepInfo{node: x.depth - 1, t: t.id, op: t.next, vc: x.vcs[t.id]}
	if x.redundant {
		si.node = -1
	}
	x.trace = append(x.trace, si)
	x.vcs[t.id][t.id] = int32(len(x.trace))
	x.svcs[t.id][t.id] = int32(len(x.trace))
	o := t.next
	c, sc := &x.vcs[t.id], &x.svcs[t.id]
	switch o.Kind {
	case KLock:
		join(c, &o.lk.vc)
		join(c, &o.lk.rvc)
		join(sc, &o.lk.svc)
		join(sc, &o.lk.srvc)
	case KRLock:
		join(c, &o.lk.vc)
		join(sc, &o.lk.svc)
	case KAtomW, KClockW, KWait, KMemW:
		ov := x.ex.objVC(o.Obj)
		join(c, &ov.vc)
		join(c, &ov.rvc)
		ov.vc = *c
		if o.Kind != KMemW && o.Kind != KClockW {
			join(sc, &ov.svc)
			join(&ov.svc, sc)
		}
	case KAtomR, KClockR, KMemR:
		ov := x.ex.objVC(o.Obj)
		join(c, &ov.vc)
		join(&ov.rvc, c)
		if o.Kind == KAtomR {
			join(sc, &ov.svc)
			join(&ov.svc, sc)
		}
	}
}

// mapAccess is called with every access to a map: Go maps do not survive
// accesses that no synchronisation orders when one of them writes (the
// runtime ends the process when it notices).
//
//go:norace
func (x *Sched) mapAccess(id int32, write bool) {
	ov := x.ex.objVC(id)
	c := &x.svcs[x.cur]
	for i := range c {
		if i == x.cur {
			continue
		}
		if ov.mw[i] > c[i] || write && ov.mr[i] > c[i] {
			if x.Panic == "" {
				x.Panic = fmt.Sprintf("concurrent map access: clients %d and %d use the same map without synchronisation, which ends the server process", i, x.cur)
				x.aborting = true
				x.finish()
			}
			panic(abortT{})
		}
	}
	if write {
		ov.mw[x.cur] = c[x.cur]
	} else {
		ov.mr[x.cur] = c[x.cur]
	}
}

//go:norace
func join(a, b *[maxThreads]int32) {
	for i := range a {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

// ------------------------------------------------------------- lock shims

//go:norace
func Lock(l *LockState) bool {
	x := s
	if x == nil {
		if NativeYield {
			runtime.Gosched()
		}
		return false
	}
	if x.aborting {
		panic(abortT{})
	}
	x.lock(l)
	point(Op{Kind: KLock, Obj: l.id, lk: l})
	return true
}

//go:norace
func RLock(l *LockState) bool {
	x := s
	if x == nil {
		if NativeYield {
			runtime.Gosched()
		}
		return false
	}
	if x.aborting {
		panic(abortT{})
	}
	x.lock(l)
	if !x.single && l.readers[x.cur] > 0 {
		// recursive read lock with a writer waiting in between
		for _, u := range x.threads {
			if u.state == tsReady && u.next.Kind == KLock && u.next.lk == l {
				x.Deadlock = "recursive read lock behind a waiting writer"
				x.threads[x.cur].parked = true
				x.finish()
				x.park(x.threads[x.cur])
			}
		}
	}
	point(Op{Kind: KRLock, Obj: l.id, lk: l})
	return true
}

// TryLock never blocks.
//
//go:norace
func TryLock(l *LockState, shared bool) (ok, sched bool) {
	x := s
	if x == nil {
		return false, false
	}
	x.lock(l)
	point(Op{Kind: KAtomW, Obj: l.id})
	t := x.threads[x.cur]
	if shared {
		if l.w != 0 {
			return false, true
		}
		t.next = Op{Kind: KRLock, Obj: l.id, lk: l}
	} else {
		if l.w != 0 || l.nr != 0 {
			return false, true
		}
		t.next = Op{Kind: KLock, Obj: l.id, lk: l}
	}
	x.apply(t)
	return true, true
}

//go:norace
func Unlock(l *LockState) bool {
	x := s
	if x == nil {
		return false
	}
	if x.aborting {
		return true
	}
	x.lock(l)
	if l.w == 0 {
		panic("sync: unlock of unlocked mutex")
	}
	l.w = 0
	x.held--
	if x.ex != nil {
		l.vc = x.vcs[x.cur]
		l.svc = x.svcs[x.cur]
	}
	return true
}

//go:norace
func RUnlock(l *LockState) bool {
	x := s
	if x == nil {
		return false
	}
	if x.aborting {
		return true
	}
	x.lock(l)
	if l.nr == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	l.nr--
	x.held--
	// a lock handed to another goroutine is charged to whoever still holds it
	if l.readers[x.cur] > 0 {
		l.readers[x.cur]--
	} else {
		for i := range l.readers {
			if l.readers[i] > 0 {
				l.readers[i]--
				break
			}
		}
	}
	if x.ex != nil {
		join(&l.rvc, &x.vcs[x.cur])
		join(&l.srvc, &x.svcs[x.cur])
	}
	return true
}

// Atomic is called before an atomic operation on the given object.
//
//go:norace
func Atomic(p unsafe.Pointer, write bool) {
	x := s
	if x == nil || x.single || x.aborting {
		if x != nil && x.aborting {
			panic(abortT{})
		}
		return
	}
	id := x.ex.atomObj(x, p)
	k := KAtomR
	if write {
		k = KAtomW
	}
	point(Op{Kind: k, Obj: id})
}

type memAcc struct {
	p     unsafe.Pointer
	write bool
	isMap bool
}

var memBuf []memAcc

// Mem is inserted before statements of the program under test that access
// objects other threads might share; f names them with R and W.  The accesses
// are scheduling points: if no lock orders them, the explorer reverses them.
//
//go:norace
func Mem(f func()) {
	x := s
	if RaceBuild || x == nil || x.single || x.aborting || x.ex == nil || x.ex.NoMem {
		return
	}
	memBuf = memBuf[:0]
	collect(f)
	if len(memBuf) == 0 {
		return
	}
	var loc [12]memAcc
	n := copy(loc[:], memBuf)
	for i := 0; i < n; i++ {
		k := KMemR
		if loc[i].write {
			k = KMemW
		}
		id := x.ex.atomObj(x, loc[i].p)
		point(Op{Kind: k, Obj: id})
		if loc[i].isMap {
			x.mapAccess(id, loc[i].write)
		}
	}
}

func collect(f func()) {
	defer func() { recover() }() // a nil pointer on the way: the statement itself will tell
	f()
}

func note(p unsafe.Pointer, write, isMap bool) {
	if p == nil {
		return
	}
	for i := range memBuf {
		if memBuf[i].p == p {
			memBuf[i].write = memBuf[i].write || write
			return
		}
	}
	memBuf = append(memBuf, memAcc{p, write, isMap})
}

// Outside stands for everything the logger's calls into other packages touch.
var Outside int

func RP[T any](p *T)  { note(unsafe.Pointer(p), false, false) }
func WP[T any](p *T)  { note(unsafe.Pointer(p), true, false) }
func RS[T any](v []T) { note(unsafe.Pointer(unsafe.SliceData(v)), false, false) }
func WS[T any](v []T) { note(unsafe.Pointer(unsafe.SliceData(v)), true, false) }
func RM[M ~map[K]V, K comparable, V any](m M) {
	note(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, true)
}
func WM[M ~map[K]V, K comparable, V any](m M) {
	note(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, true)
}

// Wait blocks until pred holds (condition variables, wait groups).
//
//go:norace
func Wait(pred func() bool) bool {
	x := s
	if x == nil {
		return false
	}
	point(Op{Kind: KWait, Obj: -2, pred: pred})
	return true
}

const objClock = int32(-1)

//go:norace
func Now() int64 {
	x := s
	if x != nil && x.clockPts && !x.single {
		point(Op{Kind: KClockR, Obj: objClock})
	}
	return clockNS
}

// --------------------------------------------------------------- map order

// MapKeys fixes the order in which a map is iterated.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		switch ks := any(keys).(type) {
		case []string:
			sort.Strings(ks)
		case []int:
			sort.Ints(ks)
		default:
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		}
		if chooseOrder() == 1 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

// SingleDesc is the map order used while one request runs alone; OrderUsed
// reports that some request iterated over a map with several entries.
var SingleDesc, OrderUsed bool

// chooseOrder picks ascending or descending order, once per request.
//
//go:norace
func chooseOrder() int {
	x := s
	OrderUsed = true
	if x == nil {
		if NativeDesc {
			return 1
		}
		return 0
	}
	if x.single {
		if SingleDesc {
			return 1
		}
		return 0
	}
	if !x.dataPts || x.aborting || x.ex == nil {
		return 0
	}
	t := x.threads[x.cur]
	if t.order < 0 {
		t.order = int8(x.ex.decideData(x, 2))
	}
	return int(t.order)
}

var nativeRnd uint64

// Pick stands in for a random number below n: a request draws the numbers
// 0, 1, 2, ... (or n-1, n-2, ...) in turn, the direction being a choice like
// that of a map order.
//
//go:norace
func Pick(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	desc := chooseOrder() == 1
	k := &nativeRnd
	if x := s; x != nil && x.cur >= 0 && x.cur < len(x.threads) {
		k = &x.threads[x.cur].rnd
	}
	v := *k % n
	*k++
	if desc {
		v = n - 1 - v
	}
	return v
}

// Held is the number of locks currently held by the program under test.
//
//go:norace
func Held() int { return s.held }

// -------------------------------------------------------------- connection

// Conn is the server's end of an in-memory client connection.
type Conn struct {
	t      *Thread
	in     chan []byte
	rest   []byte
	eof    bool
	out    []byte
	closed bool
	name   string
	sem    int64
	gate   chan struct{} // opened when the first request is delivered
	open   bool
}

func NewConn(name string) *Conn {
	return &Conn{in: make(chan []byte, 1), name: name}
}

//go:norace
func (c *Conn) Read(p []byte) (int, error) {
	if len(c.rest) == 0 {
		if c.eof {
			return 0, io.EOF
		}
		raceOff()
		b, ok := <-c.in
		raceOn()
		if !ok {
			c.eof = true
			return 0, io.EOF
		}
		RaceAcquire(unsafe.Pointer(&barrierOpen))
		c.rest = b
	}
	n := len(c.rest)
	if n > len(p) {
		n = len(p)
	}
	for i := 0; i < n; i++ {
		p[i] = c.rest[i]
	}
	c.rest = c.rest[n:]
	return n, nil
}

var barrierOpen int64

//go:norace
func (c *Conn) Write(p []byte) (int, error) {
	x := s
	if x == nil || x.aborting || c.t == nil {
		return 0, io.ErrClosedPipe
	}
	for i := 0; i < len(p); i++ {
		c.out = append(c.out, p[i])
	}
	if ReplyLen(c.out) > 0 {
		x.opDone(c.t, c.out)
	}
	return len(p), nil
}

//go:norace
func (c *Conn) Close() error {
	x := s
	if c.closed {
		return nil
	}
	c.closed = true
	if x != nil && !x.aborting && c.t != nil && c.t.state == tsRunning && x.Panic == "" {
		// closed in the middle of a request: no reply will come
		k := len(c.t.calls) - 1
		if k >= 0 && c.t.calls[k].End < 0 {
			c.t.calls[k].End = x.steps
			c.t.state = tsDone
			if x.single {
				x.finish()
				return nil
			}
			if n := x.pick(); n == nil {
				x.finish()
			} else {
				x.cur = n.id
				n.state = tsRunning
				if n.next.Kind == KStart {
					x.startReq(n, true)
				} else {
					n.resume()
				}
			}
		}
	}
	return nil
}

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr                { return addr("server") }
func (c *Conn) RemoteAddr() net.Addr               { return addr(c.name) }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Serve starts the server side of c.  In scheduled mode it begins to run when
// its first request is delivered, as part of that request: whatever the server
// does for a new connection is scheduled like the rest.
//
//go:norace
func Serve(c *Conn, handle func(net.Conn)) {
	if s == nil {
		Go(func() { handle(c) })
		return
	}
	c.gate = make(chan struct{}, 1)
	Go(func() {
		raceOff()
		<-c.gate
		raceOn()
		handle(c)
	})
}

//go:norace
func (c *Conn) start() {
	if c.gate != nil && !c.open {
		c.open = true
		raceOff()
		c.gate <- struct{}{}
		raceOn()
	}
}

// Exec runs one request to completion while nothing else runs.
// A nil reply means the connection was closed, the server panicked (see
// TakePanic) or the request blocked (see Deadlocked).
//
//go:norace
func Exec(c *Conn, req []byte) []byte {
	x := s
	t := c.t
	if t == nil {
		t = &Thread{wake: make(chan struct{}, 1), conn: c}
		c.t = t
	}
	if x.aborting || c.closed {
		return nil
	}
	t.id = 0
	x.single = true
	x.ex = nil
	x.threads = append(x.threads[:0], t)
	x.cur = 0
	t.reqs, t.ri, t.calls = [][]byte{req}, 0, t.calls[:0]
	t.state = tsRunning
	RaceAcquire(unsafe.Pointer(&barrier))
	RaceRelease(unsafe.Pointer(&barrierOpen))
	x.startReq(t, true)
	raceOff()
	<-x.done
	raceOn()
	RaceAcquire(unsafe.Pointer(&barrier))
	if x.Panic != "" || x.Deadlock != "" {
		x.aborting = true
		return nil
	}
	return t.calls[0].Reply
}

//go:norace
func Deadlocked() string { return s.Deadlock }

//go:norace
func Panicked() string { return s.Panic }

// Script is one model thread of a concurrent phase: a client with its
// requests, or (Conn == nil) the clock with its advances.
type Script struct {
	Conn *Conn
	Reqs [][]byte
	Adv  []int64
}

// Concurrent runs the scripts under the explorer's current schedule.
// It returns the calls per thread.
//
//go:norace
func Concurrent(scripts []Script, ex *Explorer) [][]Call {
	x := s
	if x.aborting {
		return nil
	}
	x.single = false
	x.ex = ex
	x.threads = nil
	x.depth, x.steps, x.redundant = 0, 0, false
	x.trace = x.trace[:0]
	x.vcs = [maxThreads][maxThreads]int32{}
	x.svcs = [maxThreads][maxThreads]int32{}
	x.clockPts = false
	x.dataPts = ex.DataChoices
	ex.beginRun()
	// locks keep the release clocks of the sequential set-up phase (all zero)
	for i := range scripts {
		sc := &scripts[i]
		var t *Thread
		if sc.Conn == nil {
			t = &Thread{adv: sc.Adv, next: Op{Kind: KClockW, Obj: objClock}}
			x.clockPts = true
		} else {
			t = sc.Conn.t
			if t == nil {
				t = &Thread{wake: make(chan struct{}, 1), conn: sc.Conn}
				sc.Conn.t = t
			}
			t.reqs, t.ri, t.calls = sc.Reqs, 0, nil
			t.next = Op{Kind: KStart}
		}
		t.id = i
		t.state = tsReady
		x.threads = append(x.threads, t)
	}
	x.cur = 0
	RaceAcquire(unsafe.Pointer(&barrier))
	RaceRelease(unsafe.Pointer(&barrierOpen))
	if x.kick() {
		raceOff()
		<-x.done
		raceOn()
	}
	RaceAcquire(unsafe.Pointer(&barrier))
	res := make([][]Call, len(x.threads))
	for i, t := range x.threads {
		res[i] = append([]Call(nil), t.calls...)
	}
	if x.Panic != "" || x.Deadlock != "" {
		x.aborting = true
	}
	// leave concurrent mode
	x.single = true
	return res
}

//go:norace
func (x *Sched) kick() bool {
	for {
		n := x.pick()
		if n == nil {
			return false
		}
		if n.conn == nil {
			clockNS += n.adv[n.ri]
			n.calls = append(n.calls, Call{Req: n.ri, Start: x.steps, End: x.steps})
			n.ri++
			if n.ri == len(n.adv) {
				n.state = tsDone
			}
			continue
		}
		x.cur = n.id
		n.state = tsRunning
		x.startReq(n, true)
		return true
	}
}

// Steps returns a printable form of the executed schedule.
//
//go:norace
func Steps() []string { return StepsOf(s.trace) }

// StepsOf does the same for a sealed trace.
//
//go:norace
func StepsOf(tr []stepInfo) []string {
	var out []string
	for i, si := range tr {
		if (si.op.Kind == KMemR || si.op.Kind == KMemW) && (i == 0 || tr[i-1].t == si.t) && (i+1 == len(tr) || tr[i+1].t == si.t) {
			continue // memory accesses are shown only where the thread changes
		}
		if si.op.Kind == KStart {
			out = append(out, fmt.Sprintf("client%d: request", si.t))
		} else if si.op.Kind == KClockW {
			out = append(out, "clock advances")
		} else {
			out = append(out, fmt.Sprintf("client%d: %v #%d", si.t, si.op.Kind, si.op.Obj))
		}
	}
	return out
}

// End closes all given connections, waits for their goroutines and leaves
// scheduled mode.  It reports whether all goroutines ended.
//
//go:norace
func End(conns []*Conn) bool {
	x := s
	if x.Deadlock != "" || x.Panic != "" {
		x.aborting = true
	}
	ab := x.aborting
	draining = true
	if !ab {
		s = nil // native mode from here on; all locks are free or abandoned
	}
	for _, c := range conns {
		RaceAcquire(unsafe.Pointer(&c.sem))
		raceOff()
		close(c.in)
		raceOn()
		c.start()
		if c.t != nil {
			c.t.resume()
		}
	}
	ok := WaitGone(3 * time.Second)
	s = nil
	Progress.Add(1)
	if !ok {
		// whatever is left must not count against the next run
		live.Store(0)
	}
	return ok
}

// Drop ends one connection between requests and waits until its handler has
// closed it.
func Drop(c *Conn) bool {
	n := live.Load()
	RaceAcquire(unsafe.Pointer(&c.sem))
	close(c.in)
	c.start()
	if c.t != nil {
		c.t.resume()
	}
	for i := 0; i < 100000; i++ {
		if k := live.Load(); c.closed && (k <= n-2 || k < n && i > 2100) {
			return true // a handler and a parser, or what there was of them
		}
		runtime.Gosched()
		if i > 2000 {
			time.Sleep(20 * time.Microsecond)
		}
	}
	return false
}

// StartWatchdog kills the process with the given exit status when no run
// completes for d.
func StartWatchdog(d time.Duration, onHang func()) {
	go func() {
		last := Progress.Load()
		n := 0
		for {
			time.Sleep(time.Second)
			p := Progress.Load()
			if p != last {
				last, n = p, 0
				continue
			}
			n++
			if time.Duration(n)*time.Second >= d {
				onHang()
				os.Exit(97)
			}
		}
	}()
}

// ReplyLen returns the length of the first complete RESP value in b, 0 if b
// is incomplete and -1 if it is malformed.
func ReplyLen(b []byte) int {
	i := 0
	for i < len(b) && b[i] != '\n' {
		i++
	}
	if i >= len(b) {
		return 0
	}
	if i < 2 || b[i-1] != '\r' {
		return -1
	}
	switch b[0] {
	case '+', '-', ':':
		return i + 1
	case '$', '*':
		n, neg, j := 0, false, 1
		if b[1] == '-' {
			neg, j = true, 2
		}
		if j == i-1 {
			return -1
		}
		for ; j < i-1; j++ {
			if b[j] < '0' || b[j] > '9' || n > 1<<40 {
				return -1
			}
			n = n*10 + int(b[j]-'0')
		}
		if neg {
			if n != 1 {
				return -1
			}
			return i + 1
		}
		if b[0] == '$' {
			if len(b) < i+1+n+2 {
				return 0
			}
			if b[i+1+n] != '\r' || b[i+2+n] != '\n' {
				return -1
			}
			return i + 1 + n + 2
		}
		p := i + 1
		for k := 0; k < n; k++ {
			l := ReplyLen(b[p:])
			if l <= 0 {
				return l
			}
			p += l
		}
		return p
	}
	return -1
}

// BadUnlock reports an unlock without a lock, except while a finished run is
// being torn down (its virtual locks no longer exist).
//
//go:norace
func BadUnlock(msg string) {
	if draining {
		return
	}
	panic(msg)
}

var draining bool
