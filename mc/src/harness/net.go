package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"time"

	"gRedis/server"
	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// Scripted network: the server's real connection handler runs on an in-memory
// connection whose reads, writes and end are dictated by the case.

var errReset = errors.New("read tcp 127.0.0.1:6379->127.0.0.1:50000: read: connection reset by peer")
var errPipe = errors.New("write tcp 127.0.0.1:6379->127.0.0.1:50000: write: broken pipe")

// piece is what one read at most returns; it becomes readable once the client
// has received `after` complete replies.
// Before it arrives the clock advances by pause.
type piece struct {
	data  []byte
	after int
	pause int64
}

type nconn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	pieces []piece
	pi     int
	off    int
	end    error // what Read returns after the last piece
	endAt  int   // replies needed before that
	out    []byte
	nrep   int
	parsed int
	wlim   int // bytes that can be written; -1: any number
	wpart  bool
	wdead  bool
	wblock bool // writes block until release
	inW    int  // writers blocked
	closed int
	readEnd,
	done bool // the handler returned
	// deadlines set by the server, on the checker's clock; zero: none
	rdl, wdl time.Time
}

func passed(t time.Time) bool {
	return !t.IsZero() && vrt.ClockNS() >= t.UnixNano()
}

func newNconn() *nconn {
	c := &nconn{end: io.EOF, wlim: -1}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *nconn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed > 0 {
			return 0, net.ErrClosed
		}
		if c.pi < len(c.pieces) {
			pc := &c.pieces[c.pi]
			if c.nrep >= pc.after {
				if pc.pause > 0 {
					vrt.AdvanceClock(pc.pause)
					pc.pause = 0
				}
				if passed(c.rdl) {
					return 0, os.ErrDeadlineExceeded
				}
				if c.off >= len(pc.data) {
					c.pi++
					c.off = 0
					continue
				}
				n := copy(p, pc.data[c.off:])
				c.off += n
				if c.off >= len(pc.data) {
					c.pi++
					c.off = 0
				}
				return n, nil
			}
		} else if c.nrep >= c.endAt {
			c.readEnd = true
			return 0, c.end
		}
		c.cond.Wait()
	}
}

func (c *nconn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for c.wblock && c.closed == 0 {
		c.inW++
		c.cond.Broadcast()
		c.cond.Wait()
		c.inW--
	}
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	if passed(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	if c.wdead {
		return 0, errPipe
	}
	if c.wlim >= 0 && len(c.out)+len(p) > c.wlim {
		c.wdead = true
		n := 0
		if c.wpart {
			n = c.wlim - len(c.out)
			c.out = append(c.out, p[:n]...)
		}
		return n, errPipe
	}
	c.out = append(c.out, p...)
	for {
		l := vrt.ReplyLen(c.out[c.parsed:])
		if l <= 0 {
			break
		}
		c.parsed += l
		c.nrep++
	}
	c.cond.Broadcast()
	return len(p), nil
}

func (c *nconn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed++
	c.cond.Broadcast()
	if c.closed > 1 {
		return net.ErrClosed
	}
	return nil
}

// lose ends a connection whose client stopped reading: writes fail, reads end.
func (c *nconn) lose() {
	c.mu.Lock()
	c.wblock = false
	c.wdead = true
	c.endAt = 0
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *nconn) finished() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.done
}

type maddr string

func (a maddr) Network() string { return "tcp" }
func (a maddr) String() string  { return string(a) }

func (c *nconn) LocalAddr() net.Addr  { return maddr("127.0.0.1:6379") }
func (c *nconn) RemoteAddr() net.Addr { return maddr("127.0.0.1:50000") }

func (c *nconn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *nconn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	return nil
}

func (c *nconn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.mu.Unlock()
	return nil
}

func (c *nconn) serve(m *server.Manager) {
	vrt.Go(func() {
		defer func() {
			c.mu.Lock()
			c.done = true
			c.cond.Broadcast()
			c.mu.Unlock()
		}()
		m.Handle(c)
	})
}

const goneAfter = 20 * time.Second

// settle waits until the handler of c and all its helpers are gone.
func (c *nconn) settle() *Fail {
	gone := vrt.WaitGone(goneAfter)
	vrt.Progress.Add(1)
	if p := vrt.TakePanic(); p != "" {
		vrt.Forget()
		return failf("the server panics: %s", p)
	}
	if !gone {
		left := vrt.Live()
		vrt.Forget()
		c.mu.Lock()
		defer c.mu.Unlock()
		switch {
		case !c.readEnd && c.pi < len(c.pieces):
			return failf("the server does not answer: %d complete replies, the client waits for %d", c.nrep, c.pieces[c.pi].after)
		case !c.readEnd && c.nrep < c.endAt:
			return failf("the server does not answer: %d complete replies, the client waits for %d", c.nrep, c.endAt)
		case c.done:
			return failf("the connection has ended but %d goroutine(s) serving it have not", left)
		}
		return failf("the connection has ended but its handler has not")
	}
	return nil
}

// run serves one scripted connection to its end.
func (c *nconn) run(m *server.Manager) *Fail {
	c.serve(m)
	return c.settle()
}

// one piece, several pieces, byte by byte, lockstep
func whole(b []byte) []piece { return []piece{{data: b}} }

func cutAt(b []byte, at ...int) []piece {
	var ps []piece
	last := 0
	for _, i := range at {
		if i > last && i < len(b) {
			ps = append(ps, piece{data: b[last:i]})
			last = i
		}
	}
	return append(ps, piece{data: b[last:]})
}

func chunks(b []byte, n int) []piece {
	var ps []piece
	for len(b) > n {
		ps = append(ps, piece{data: b[:n]})
		b = b[n:]
	}
	return append(ps, piece{data: b})
}

// lockstep delivers request i only after i replies; cut, if positive, cuts
// every request there as well.
func lockstep(reqs [][]byte, cut int) []piece {
	var ps []piece
	for i, r := range reqs {
		if cut > 0 && cut < len(r) {
			ps = append(ps, piece{data: r[:cut], after: i}, piece{data: r[cut:], after: i})
		} else {
			ps = append(ps, piece{data: r, after: i})
		}
	}
	return ps
}

// straddle delivers with request i also the first cut bytes of the next one,
// and more only after the i-th reply.
func straddle(reqs [][]byte, cut int) []piece {
	var ps []piece
	at := 0
	for i, r := range reqs {
		b := append([]byte(nil), r[at:]...)
		at = 0
		if i+1 < len(reqs) {
			if at = cut; at >= len(reqs[i+1]) {
				at = len(reqs[i+1]) - 1
			}
			b = append(b, reqs[i+1][:at]...)
		}
		ps = append(ps, piece{data: b, after: i})
	}
	return ps
}

func encodeAll(reqs [][]string) (all []byte, each [][]byte) {
	for _, r := range reqs {
		b := encode(r)
		each = append(each, b)
		all = append(all, b...)
	}
	return
}

// world2 is a server with several model databases for scripted connections.
type dbs []*model.DB

func newDbs(n int) dbs {
	d := make(dbs, n)
	for i := range d {
		d[i] = model.NewDB()
	}
	return d
}

// exec runs one request of a connection against the model.
func (d dbs) exec(sel *int, args []string) (model.Want, func(model.Reply)) {
	if strings.EqualFold(args[0], "select") {
		if len(args) == 2 {
			n := -1
			if v, err := atoiOK(args[1]); err {
				n = v
			}
			if n >= 0 && n < len(d) {
				*sel = n
				return model.Want{Kind: model.WStatus, S: "OK"}, nil
			}
		}
		return model.Want{Kind: model.WError}, nil
	}
	return d[*sel].Exec(args, vrt.ClockNS())
}

func atoiOK(s string) (int, bool) {
	n, err := strconv.Atoi(s)
	return n, err == nil
}

// compare checks that out holds exactly the replies the model wants.
func (d dbs) compare(reqs [][]string, out []byte) *Fail {
	rs, err := model.ParseReplies(out)
	if err != nil {
		return failf("malformed output %q: %v", clip(string(out)), err)
	}
	if len(rs) != len(reqs) {
		return failf("%d requests get %d replies: %q", len(reqs), len(rs), clip(string(out)))
	}
	sel := 0
	for i, r := range rs {
		w, ap := d.exec(&sel, reqs[i])
		if !w.Match(r) {
			return failf("request %d, %s, answers %s, expected %s", i+1, quoteArgs(reqs[i]), clip(r.String()), clip(w.String()))
		}
		if ap != nil {
			ap(r)
		}
	}
	return nil
}

func showReqs(reqs [][]string) string {
	var s []string
	for i, r := range reqs {
		if i > 6 {
			s = append(s, fmt.Sprintf("... (%d requests)", len(reqs)))
			break
		}
		s = append(s, quoteArgs(r))
	}
	return strings.Join(s, " ; ")
}

func showPieces(ps []piece) string {
	var s []string
	for i, p := range ps {
		if i > 6 {
			s = append(s, fmt.Sprintf("... (%d pieces)", len(ps)))
			break
		}
		d := string(p.data)
		if len(d) > 80 {
			d = d[:40] + "..." + d[len(d)-30:]
		}
		t := fmt.Sprintf("%q", d)
		if p.after > 0 {
			t += fmt.Sprintf("(after %d replies)", p.after)
		}
		s = append(s, t)
	}
	return strings.Join(s, " | ")
}

// play runs reqs, delivered as pieces, on a fresh server and compares with
// the model.
func play(reqs [][]string, ps []piece, endAt int, r *Result) *Fail {
	vrt.SetClock(vrt.ClockBase)
	m := newManager(2, 2)
	c := newNconn()
	c.pieces, c.endAt = ps, endAt
	r.Trans += int64(len(ps))
	r.States++
	f := c.run(m)
	if f == nil {
		f = newDbs(2).compare(reqs, c.out)
	}
	if f == nil && c.closed == 0 {
		f = failf("the server never closes the connection after its end")
	}
	if f != nil {
		f.What = fmt.Sprintf("[%s] delivered as %s: %s", showReqs(reqs), showPieces(ps), f.What)
	}
	return f
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated returns the bytes allocated so far by the process.
func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

var eof = io.EOF

var _ = runtime.GC

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
