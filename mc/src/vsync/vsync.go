// Package vsync stands in for sync in the program under test: every
// acquisition is a scheduling point of the model checker.  Outside scheduled
// runs the locks are real.
package vsync

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"gRedis/zzverif/vrt"
)

type Locker = sync.Locker

type Mutex struct {
	st   vrt.LockState
	mu   sync.Mutex
	held int32
	sem  int64
}

func (m *Mutex) Lock() {
	if vrt.Lock(&m.st) {
		vrt.RaceAcquire(unsafe.Pointer(&m.sem))
		return
	}
	m.mu.Lock()
	vrt.RaceAcquire(unsafe.Pointer(&m.sem))
	heldStore(&m.held, 1)
}

func (m *Mutex) TryLock() bool {
	ok, sched := vrt.TryLock(&m.st, false)
	if sched {
		if ok {
			vrt.RaceAcquire(unsafe.Pointer(&m.sem))
		}
		return ok
	}
	if m.mu.TryLock() {
		heldStore(&m.held, 1)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	vrt.RaceRelease(unsafe.Pointer(&m.sem))
	if vrt.Unlock(&m.st) {
		return
	}
	if !heldCAS(&m.held, 1, 0) {
		vrt.BadUnlock("sync: unlock of unlocked mutex")
		return
	}
	m.mu.Unlock()
}

type RWMutex struct {
	st         vrt.LockState
	mu         sync.RWMutex
	held       int32
	rsem, wsem int64
}

func (m *RWMutex) Lock() {
	if vrt.Lock(&m.st) {
		vrt.RaceAcquire(unsafe.Pointer(&m.rsem))
		vrt.RaceAcquire(unsafe.Pointer(&m.wsem))
		return
	}
	m.mu.Lock()
	vrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	vrt.RaceAcquire(unsafe.Pointer(&m.wsem))
	heldStore(&m.held, -1)
}

func (m *RWMutex) Unlock() {
	vrt.RaceRelease(unsafe.Pointer(&m.rsem))
	if vrt.Unlock(&m.st) {
		return
	}
	if !heldCAS(&m.held, -1, 0) {
		vrt.BadUnlock("sync: Unlock of unlocked RWMutex")
		return
	}
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	if vrt.RLock(&m.st) {
		vrt.RaceAcquire(unsafe.Pointer(&m.rsem))
		return
	}
	m.mu.RLock()
	vrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	heldAdd(&m.held, 1)
}

func (m *RWMutex) RUnlock() {
	vrt.RaceReleaseMerge(unsafe.Pointer(&m.wsem))
	if vrt.RUnlock(&m.st) {
		return
	}
	for {
		h := heldLoad(&m.held)
		if h <= 0 {
			vrt.BadUnlock("sync: RUnlock of unlocked RWMutex")
			return
		}
		if heldCAS(&m.held, h, h-1) {
			break
		}
	}
	m.mu.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	ok, sched := vrt.TryLock(&m.st, false)
	if sched {
		if ok {
			vrt.RaceAcquire(unsafe.Pointer(&m.rsem))
			vrt.RaceAcquire(unsafe.Pointer(&m.wsem))
		}
		return ok
	}
	if m.mu.TryLock() {
		heldStore(&m.held, -1)
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	ok, sched := vrt.TryLock(&m.st, true)
	if sched {
		if ok {
			vrt.RaceAcquire(unsafe.Pointer(&m.rsem))
		}
		return ok
	}
	if m.mu.TryRLock() {
		heldAdd(&m.held, 1)
		return true
	}
	return false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type WaitGroup struct {
	n   int64
	sem int64
	wg  sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	vrt.RaceReleaseMerge(unsafe.Pointer(&w.sem))
	n := atomic.AddInt64(&w.n, int64(d))
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if !vrt.Active() {
		w.wg.Add(d)
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() { defer w.Done(); f() })
}
func (w *WaitGroup) Wait() {
	if vrt.Wait(func() bool { return atomic.LoadInt64(&w.n) == 0 }) {
		vrt.RaceAcquire(unsafe.Pointer(&w.sem))
		return
	}
	w.wg.Wait()
}

type Cond struct {
	L    Locker
	gen  int64
	wake int64
	wait int64
	real *sync.Cond
	once sync.Once
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) r() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

func (c *Cond) Wait() {
	if !vrt.Active() {
		c.r().Wait()
		return
	}
	my := atomic.AddInt64(&c.wait, 1)
	c.L.Unlock()
	vrt.Wait(func() bool { return atomic.LoadInt64(&c.wake) >= my })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vrt.Active() {
		c.r().Signal()
		return
	}
	if atomic.LoadInt64(&c.wake) < atomic.LoadInt64(&c.wait) {
		atomic.AddInt64(&c.wake, 1)
	}
}

func (c *Cond) Broadcast() {
	if !vrt.Active() {
		c.r().Broadcast()
		return
	}
	atomic.StoreInt64(&c.wake, atomic.LoadInt64(&c.wait))
}

// Pool hands out what was put in last: the reuse that a sync.Pool may show at
// any time, always.
type Pool struct {
	New func() any

	mu   sync.Mutex
	free []any
}

func (p *Pool) Get() any {
	vrt.Atomic(unsafe.Pointer(p), true)
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vrt.Atomic(unsafe.Pointer(p), true)
	p.mu.Lock()
	p.free = append(p.free, x)
	p.mu.Unlock()
}

// Map is sync.Map with one scheduling point per operation.
type Map struct {
	mu sync.Mutex
	m  map[any]any
}

func (m *Map) in(w bool) func() {
	vrt.Atomic(unsafe.Pointer(m), w)
	m.mu.Lock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	return m.mu.Unlock
}

func (m *Map) Load(k any) (any, bool) {
	defer m.in(false)()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	defer m.in(true)()
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	defer m.in(true)()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	defer m.in(true)()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

func (m *Map) Delete(k any) {
	defer m.in(true)()
	delete(m.m, k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	defer m.in(true)()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	defer m.in(true)()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.m[k] = n
	return true
}

func (m *Map) CompareAndDelete(k, o any) bool {
	defer m.in(true)()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	delete(m.m, k)
	return true
}

// Range visits the keys present when it starts, each with the value it then
// has, unless it has gone.
func (m *Map) Range(f func(k, v any) bool) {
	out := m.in(false)
	ks := make([]any, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	out()
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	defer m.in(true)()
	m.m = map[any]any{}
}

// bookkeeping of native locks that the race detector must not take for
// synchronisation

func heldStore(p *int32, v int32) {
	vrt.RaceOff()
	atomic.StoreInt32(p, v)
	vrt.RaceOn()
}

func heldAdd(p *int32, v int32) {
	vrt.RaceOff()
	atomic.AddInt32(p, v)
	vrt.RaceOn()
}

func heldLoad(p *int32) int32 {
	vrt.RaceOff()
	v := atomic.LoadInt32(p)
	vrt.RaceOn()
	return v
}

func heldCAS(p *int32, o, n int32) bool {
	vrt.RaceOff()
	ok := atomic.CompareAndSwapInt32(p, o, n)
	vrt.RaceOn()
	return ok
}
