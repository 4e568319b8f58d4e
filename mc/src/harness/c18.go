package main

import (
	"fmt"
	"runtime"
	"time"

	"gRedis/server"
	"gRedis/zzverif/model"
	"gRedis/zzverif/vrt"
)

// request streams whose client disappears
var c18Streams = []string{
	"SET k v1;APPEND k v2;GET k",
	"RPUSH l a b;LPOP l;LRANGE l 0 -1",
	"HSET h f v;HINCRBY h n 2;HGETALL h",
	"SADD z a b;SMOVE z y a;SMEMBERS y",
	"MSET a 1 b 2;MGET a b;DEL a b",
	"SET k v;RENAME k j;nosuch;GET j",
	"RPUSH l a b c;LMOVE l m LEFT RIGHT;LRANGE m 0 -1",
	"SELECT 1;SET k one;SELECT 0;SET k zero",
	"SADD z a b c;SINTERSTORE y z;SUNIONSTORE x y z;KEYS *",
	"INCR n;INCR n;GET n;PING hello",
	"SETEX k 100 v;EXPIRE k 50;TTL k;SET k w GET",
	"GET;SET k;RPUSH l x;GET l;LPUSH l y",
}

// keys used by the streams, all touched by the other client afterwards
var c18Keys = []string{"k", "l", "h", "z", "y", "a", "b", "j", "m", "x", "n"}

// others checks, through another connection, that the keyspace is what the
// model says and that every key can be read and written.
func others(m *server.Manager, d dbs) *Fail {
	var reqs [][]string
	for db := range d {
		reqs = append(reqs, []string{"SELECT", fmt.Sprint(db)})
		for _, k := range c18Keys {
			reqs = append(reqs, []string{"TYPE", k})
			if v := d[db].Keys[k]; v != nil {
				switch v.Type {
				case model.TString:
					reqs = append(reqs, []string{"GET", k})
				case model.TList:
					reqs = append(reqs, []string{"LRANGE", k, "0", "-1"})
				case model.THash:
					reqs = append(reqs, []string{"HGETALL", k})
				case model.TSet:
					reqs = append(reqs, []string{"SMEMBERS", k})
				}
				reqs = append(reqs, []string{"TTL", k})
			}
		}
		reqs = append(reqs, []string{"KEYS", "*"})
		for _, k := range c18Keys {
			reqs = append(reqs, []string{"SET", k, "new"})
		}
		reqs = append(reqs, append([]string{"DEL"}, c18Keys...), []string{"KEYS", "*"})
	}
	all, _ := encodeAll(reqs)
	c := newNconn()
	c.pieces, c.endAt = whole(all), len(reqs)
	f := c.run(m)
	if f == nil {
		f = d.compare(reqs, c.out)
	}
	if f != nil {
		f.What = "another connection afterwards: " + f.What
	}
	return f
}

// lost runs reqs on a connection that ends as described and checks the rest.
func lost(reqs [][]string, pre []byte, complete int, end error, wlim int, part bool, yield bool, r *Result) *Fail {
	vrt.SetClock(vrt.ClockBase)
	m := newManager(2, 2)
	c := newNconn()
	c.pieces, c.end, c.wlim, c.wpart = whole(pre), end, wlim, part
	if yield {
		c.pieces = chunks(pre, 1)
	}
	r.States++
	r.Trans += int64(len(pre))
	vrt.NativeYield = yield
	f := c.run(m)
	vrt.NativeYield = false
	d := newDbs(2)
	if f == nil {
		// the model executes the complete requests; replies are compared as
		// far as they could be written
		out := c.out
		sel := 0
		for i := 0; i < complete; i++ {
			w, ap := d.exec(&sel, reqs[i])
			if l := vrt.ReplyLen(out); l > 0 {
				rp, err := model.ParseReply(out[:l])
				out = out[l:]
				if err != nil || !w.Match(rp) {
					f = failf("request %d, %s, answers %s, expected %s", i+1, quoteArgs(reqs[i]), clip(rp.String()), clip(w.String()))
					break
				}
				if ap != nil {
					ap(rp)
				}
			} else {
				if l < 0 {
					f = failf("malformed output %q", clip(string(c.out)))
					break
				}
				if wlim < 0 {
					f = failf("complete request %d, %s, is not answered", i+1, quoteArgs(reqs[i]))
					break
				}
				out = nil
				if ap != nil {
					ap(model.Reply{})
				}
			}
		}
		// a remark about the broken request is fine, anything else is not
		for f == nil && len(out) > 0 && wlim < 0 {
			l := vrt.ReplyLen(out)
			if l <= 0 || out[0] != '-' {
				f = failf("%q is sent beyond the replies to the %d complete requests", clip(string(out)), complete)
				break
			}
			out = out[l:]
		}
	}
	if f == nil && c.closed == 0 {
		f = failf("the server does not close the connection")
	}
	if f == nil {
		f = others(m, d)
	}
	if f != nil {
		how := "end of stream"
		if end == errReset {
			how = "connection reset"
		}
		if wlim >= 0 {
			how += fmt.Sprintf(", writes failing after %d bytes (partial %v)", wlim, part)
		}
		f.What = fmt.Sprintf("[%s] lost after %d of its bytes (%d complete requests) by %s: %s", showReqs(reqs), len(pre), complete, how, f.What)
	}
	return f
}

// stalled: a client that sends but never reads must not stop others.
func stalled(reqs [][]string, r *Result) *Fail {
	all, _ := encodeAll(reqs)
	for first := 0; first < len(reqs); first++ {
		vrt.SetClock(vrt.ClockBase)
		m := newManager(1, 2)
		d := newDbs(2)
		// run the first requests normally, then stall in the reply of the next
		pre, _ := encodeAll(reqs[:first])
		sel0 := 0
		if first > 0 {
			c0 := newNconn()
			c0.pieces, c0.endAt = whole(pre), first
			if f := c0.run(m); f != nil {
				return f
			}
			if f := d.compare(reqs[:first], c0.out); f != nil {
				return f
			}
		}
		c := newNconn()
		c.wblock = true
		c.pieces = whole(all[len(pre):])
		c.serve(m)
		// until the server is stuck in Write
		stuck := false
		for i := 0; i < 1000000 && !stuck; i++ {
			c.mu.Lock()
			stuck = c.inW > 0
			c.mu.Unlock()
			runtime.Gosched()
			if i > 20000 {
				time.Sleep(50 * time.Microsecond)
			}
		}
		if !stuck {
			return failf("[%s]: the server never writes a reply", showReqs(reqs))
		}
		// another client uses every key meanwhile
		c2 := newNconn()
		var q [][]string
		for _, k := range c18Keys {
			q = append(q, []string{"SET", k, "w"}, []string{"GET", k}, []string{"DEL", k}, []string{"EXISTS", k})
		}
		q = append(q, []string{"KEYS", "*"})
		b, _ := encodeAll(q)
		c2.pieces, c2.endAt = whole(b), len(q)
		c2.serve(m)
		end := time.Now().Add(goneAfter)
		for !c2.finished() && time.Now().Before(end) {
			runtime.Gosched()
		}
		if !c2.finished() {
			vrt.Forget()
			return failf("while a client does not read its reply to %s, another client's requests on the same keys are not served", quoteArgs(reqs[first]))
		}
		_ = sel0
		// the model: the stalled request was executed in database sel of its connection (0)
		w, ap := d.exec(&sel0, reqs[first])
		if ap != nil {
			ap(model.Reply{})
		}
		_ = w
		rs, err := model.ParseReplies(c2.out)
		if err != nil || len(rs) != len(q) {
			return failf("another client gets %q while one does not read", clip(string(c2.out)))
		}
		// now the stalled client goes away
		c.lose()
		if f := c.settle(); f != nil {
			f.What = fmt.Sprintf("[%s] client that stopped reading at request %d goes away: %s", showReqs(reqs), first+1, f.What)
			return f
		}
		if c.closed == 0 {
			return failf("[%s] client that stopped reading goes away: the server does not close the connection", showReqs(reqs))
		}
		// and everybody else still works
		c3 := newNconn()
		c3.pieces, c3.endAt = whole(b), len(q)
		if f := c3.run(m); f != nil {
			return f
		}
		r.States++
		r.Traces++
		r.Trans += int64(len(reqs) + 2*len(q))
	}
	r.sample(func() string { return "stalled reader: " + showReqs(reqs) })
	return nil
}

func c18Cases(thorough bool) []Case {
	var out []Case
	for i, s := range c18Streams {
		i := i
		reqs := tmplReqs(s, "", "")
		all, each := encodeAll(reqs)
		completeAt := func(n int) int {
			k, p := 0, 0
			for _, e := range each {
				p += len(e)
				if p > n {
					break
				}
				k++
			}
			return k
		}
		out = append(out, Case{fmt.Sprintf("read/%d", i), func(r *Result) *Fail {
			for n := 0; n <= len(all); n++ {
				for _, e := range []error{nil, errReset} {
					if e == nil {
						e = eof
					}
					for _, y := range []bool{false, true} {
						if f := lost(reqs, all[:n], completeAt(n), e, -1, false, y, r); f != nil {
							return f
						}
					}
				}
			}
			r.Traces++
			r.sample(func() string { return fmt.Sprintf("%s lost at each of its %d bytes", showReqs(reqs), len(all)) })
			return nil
		}})
		out = append(out, Case{fmt.Sprintf("write/%d", i), func(r *Result) *Fail {
			// how much is written in full?
			c := newNconn()
			c.pieces = whole(all)
			if f := c.run(newManager(2, 2)); f != nil {
				return f
			}
			total := len(c.out)
			// write failures at every byte, with the client's own stream
			// complete or cut at every request boundary (every byte in the
			// thorough tier)
			for n := 0; n <= len(all); n++ {
				if k := completeAt(n); !thorough && n != len(all) && !(n > 0 && completeAt(n-1) != k) {
					continue
				}
				for w := 0; w <= total; w++ {
					for _, part := range []bool{false, true} {
						for _, e := range []error{eof, errReset} {
							if f := lost(reqs, all[:n], completeAt(n), e, w, part, false, r); f != nil {
								return f
							}
						}
						if f := lost(reqs, all[:n], completeAt(n), errReset, w, part, true, r); f != nil {
							return f
						}
					}
				}
			}
			r.Traces++
			return nil
		}})
		out = append(out, Case{fmt.Sprintf("stalled/%d", i), func(r *Result) *Fail { return stalled(reqs, r) }})
	}
	// many connections lost at once: nothing accumulates
	out = append(out, Case{"many", func(r *Result) *Fail {
		base := runtime.NumGoroutine()
		m := newManager(2, 2)
		for round := 0; round < 3; round++ {
			for i, s := range c18Streams {
				all, _ := encodeAll(tmplReqs(s, "", ""))
				var cs []*nconn
				for n := 0; n < len(all); n += 3 {
					c := newNconn()
					c.pieces = whole(all[:n])
					c.wlim = n % 7
					if i%2 == 1 {
						c.end = errReset
					}
					c.serve(m)
					cs = append(cs, c)
					r.States++
				}
				for _, c := range cs {
					if f := c.settle(); f != nil {
						return f
					}
					if c.closed == 0 {
						return failf("a lost connection is not closed")
					}
				}
			}
		}
		if n := runtime.NumGoroutine(); n > base+20 {
			return failf("%d goroutines are left after all connections ended (%d before)", n, base)
		}
		r.Traces++
		return nil
	}})
	return out
}

func init() {
	checks["C18"] = &Check{Level: "model_checking", Rule: "for 12 request streams the client is lost at every byte of the requests (end of stream and reset, whole and byte-wise delivery, parser level with and ahead of the executor) and at every byte of the replies (failed and partial writes, combined with the requests cut at every request boundary, every byte in the thorough tier); a client that stops reading at every reply; each time the complete requests and only those must have been executed (reference model), every goroutine must end, the socket be closed and another connection be able to read and write all keys, also while the stalled client is still there", Cases: c18Cases, Assume: []string{"bounded: streams as listed", "loss is seen as errors of the connection's Read and Write (in-memory connection); C21 uses real sockets"}}
}
