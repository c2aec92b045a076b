package zzverif

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/yields/ant"
)

func mkURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

// ---- linearizability of concurrent histories ----

type qop struct {
	kind      string // enq, deq, done, close, wait
	batch     string // "a b c " for enq
	n         int
	cancelled bool // the context was already cancelled when called
}

type qres struct {
	url string
	err string // "", eof, ctx, other
}

type qstate struct {
	pending     string // "a b c "
	closed      bool
	outstanding int
}

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, io.EOF):
		return "eof"
	case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded):
		return "ctx"
	}
	return "other: " + err.Error()
}

// queueModel is the sequential specification of the queue.
var queueModel = porcupine.Model{
	Init: func() any { return qstate{} },
	Step: func(st, in, out any) (bool, any) {
		s, op, r := st.(qstate), in.(qop), out.(qres)
		switch op.kind {
		case "enq":
			switch {
			case op.n == 0:
				return true, s // nothing to refuse
			case r.err == "eof":
				return s.closed, s
			case r.err == "ctx":
				return op.cancelled, s
			case r.err == "":
				if s.closed || op.cancelled {
					return false, s
				}
				s.pending += op.batch
				s.outstanding += op.n
				return true, s
			}
			return false, s
		case "deq":
			switch r.err {
			case "eof":
				return s.closed, s
			case "ctx":
				return op.cancelled, s
			case "":
				head, rest, ok := strings.Cut(s.pending, " ")
				if !ok || head != r.url {
					return false, s
				}
				s.pending = rest
				return true, s
			}
			return false, s
		case "done":
			s.outstanding--
			return r.err == "" && s.outstanding >= 0, s
		case "close":
			s.outstanding -= strings.Count(s.pending, " ")
			s.pending, s.closed = "", true
			return r.err == "", s
		case "wait":
			return s.outstanding == 0, s
		}
		return false, s
	},
	DescribeOperation: func(in, out any) string {
		op, r := in.(qop), out.(qres)
		return fmt.Sprintf("%s(%s cancelled=%v) -> %s %s", op.kind, op.batch, op.cancelled, r.url, r.err)
	},
}

func urlID(u *url.URL) string {
	if u == nil {
		return "nil"
	}
	return strings.TrimPrefix(u.Path, "/")
}

type hist struct {
	mu  sync.Mutex
	clk atomic.Int64
	ops []porcupine.Operation
}

func (h *hist) do(client int, in any, f func() any) any {
	call := h.clk.Add(1)
	out := f()
	ret := h.clk.Add(1)
	h.mu.Lock()
	h.ops = append(h.ops, porcupine.Operation{ClientId: client, Input: in, Call: call, Output: out, Return: ret})
	h.mu.Unlock()
	return out
}

func (h *hist) overlaps() (n int) {
	for i := range h.ops {
		for j := i + 1; j < len(h.ops); j++ {
			a, b := h.ops[i], h.ops[j]
			if a.Call < b.Return && b.Call < a.Return {
				n++
			}
		}
	}
	return
}

// order is a signature of the interleaving of calls and returns.
func (h *hist) order() string {
	ev := make([]string, 2*len(h.ops)+2)
	for _, o := range h.ops {
		if int(o.Return) < len(ev) {
			ev[o.Call] = fmt.Sprint("c", o.ClientId)
			ev[o.Return] = fmt.Sprint("r", o.ClientId)
		}
	}
	return strings.Join(ev, "")
}

// queueHistoryCase: a crawl-like use of one queue by many goroutines, with
// Close at a random moment; the recorded history must be linearizable.
func queueHistoryCase(c *C) {
	r := c.Rng
	workers := 1 + r.Intn(6)
	producers := r.Intn(3)
	waiters := r.Intn(3)
	maxURLs := 8 + r.Intn(18)
	pCancel := pick(r, 0, 0, .1)
	closeAt := -1
	if chance(r, .6) {
		closeAt = r.Intn(60)
	}
	closers := 1 + r.Intn(2)
	jitter := pick(r, 0, 0, 1, 2)
	h := &hist{}
	var made atomic.Int64
	done, cancelDone := context.WithCancel(context.Background())
	cancelDone()

	c.Bubble(func() {
		q := ant.MemoryQueue(pick(r, 0, 1, 5))
		live := context.Background()
		seeds := make([]int64, 64)
		for i := range seeds {
			seeds[i] = r.Int63()
		}
		pause := func(rr *prng) {
			switch jitter {
			case 1:
				if rr.intn(3) == 0 {
					runtime.Gosched()
				}
			case 2:
				time.Sleep(time.Duration(rr.intn(4)) * time.Millisecond)
			}
		}
		enq := func(client int, rr *prng, n int) {
			ctx, cancelled := live, false
			if rr.float() < pCancel {
				ctx, cancelled = done, true
			}
			var batch ant.URLs
			names := ""
			for i := 0; i < n; i++ {
				id := fmt.Sprintf("u%d", made.Add(1))
				names += id + " "
				batch = append(batch, mkURL("http://h/"+id))
			}
			h.do(client, qop{kind: "enq", batch: names, n: n, cancelled: cancelled}, func() any {
				err := q.Enqueue(ctx, batch)
				for i := range batch { // the slice is the caller's again
					batch[i] = nil
				}
				return qres{err: errKind(err)}
			})
			c.Count("enqueue calls", 1)
		}
		// The first URLs are there before anybody waits.
		token := make(chan struct{})
		enq(0, &prng{seeds[0]}, 1+r.Intn(3))
		var wg sync.WaitGroup
		spawn := func(f func()) {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		client := 1
		for i := 0; i < workers; i++ {
			client++
			id, rr := client, &prng{seeds[client]}
			spawn(func() {
				for {
					ctx, cancelled := live, false
					if rr.float() < pCancel {
						ctx, cancelled = done, true
					}
					out := h.do(id, qop{kind: "deq", cancelled: cancelled}, func() any {
						u, err := q.Dequeue(ctx)
						if err != nil {
							return qres{err: errKind(err)}
						}
						return qres{url: urlID(u)}
					}).(qres)
					c.Count("dequeue calls", 1)
					if out.err == "ctx" {
						time.Sleep(time.Millisecond)
						continue
					}
					if out.err != "" {
						return
					}
					pause(rr)
					if int(made.Load()) < maxURLs && rr.intn(3) > 0 {
						enq(id, rr, rr.intn(4))
					}
					pause(rr)
					h.do(id, qop{kind: "done"}, func() any { return qres{err: errKind(q.Done(live, mkURL("http://h/"+out.url)))} })
				}
			})
		}
		for i := 0; i < producers; i++ {
			client++
			id, rr := client, &prng{seeds[client]}
			// A producer acts on behalf of a URL it holds (as the engine does).
			spawn(func() {
				out := h.do(id, qop{kind: "deq"}, func() any {
					u, err := q.Dequeue(live)
					if err != nil {
						return qres{err: errKind(err)}
					}
					return qres{url: urlID(u)}
				}).(qres)
				if out.err != "" {
					return
				}
				for k := 0; k < 3; k++ {
					pause(rr)
					enq(id, rr, 1+rr.intn(3))
				}
				h.do(id, qop{kind: "done"}, func() any { return qres{err: errKind(q.Done(live, nil))} })
			})
		}
		for i := 0; i < waiters; i++ {
			client++
			id := client
			spawn(func() {
				h.do(id, qop{kind: "wait"}, func() any { q.Wait(); return qres{} })
			})
		}
		closeQ := func(id int) {
			h.do(id, qop{kind: "close"}, func() any { return qres{err: errKind(q.Close(live))} })
		}
		if closeAt >= 0 {
			for i := 0; i < closers; i++ {
				client++
				id, rr := client, &prng{seeds[client]}
				spawn(func() {
					if jitter == 2 {
						time.Sleep(time.Duration(closeAt) * time.Millisecond / 4)
					} else {
						for k := 0; k < closeAt*(1+rr.intn(3)); k++ {
							runtime.Gosched()
						}
					}
					closeQ(id)
				})
			}
		}
		// As the engine: wait for the frontier, then close.
		h.do(1, qop{kind: "wait"}, func() any { q.Wait(); return qres{} })
		closeQ(1)
		// Afterwards everything is refused.
		enq(1, &prng{seeds[63]}, 1)
		h.do(1, qop{kind: "deq"}, func() any {
			u, err := q.Dequeue(live)
			if err != nil {
				return qres{err: errKind(err)}
			}
			return qres{url: urlID(u)}
		})
		close(token)
		wg.Wait()
	})
	if c.Bad() {
		return
	}
	c.Count("operations", len(h.ops))
	c.Count("overlapping pairs", h.overlaps())
	c.Max("max history", len(h.ops))
	c.Sig(h.order())
	switch res, _ := porcupine.CheckOperationsVerbose(queueModel, h.ops, 20*time.Second); res {
	case porcupine.Illegal:
		for _, o := range h.ops {
			c.Logf("[%d,%d] client %d: %s", o.Call, o.Return, o.ClientId, queueModel.DescribeOperation(o.Input, o.Output))
		}
		c.Violate("not-linearizable", "the history of %d operations is not that of a FIFO queue", len(h.ops))
	case porcupine.Unknown:
		c.Count("undecided histories", 1)
	default:
		c.Count("linearizable histories", 1)
	}
}

// prng is a tiny per-goroutine generator.
type prng struct{ s int64 }

func (p *prng) next() uint64 {
	p.s += -7046029254386353131
	z := uint64(p.s)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (p *prng) intn(n int) int { return int(p.next() % uint64(n)) }
func (p *prng) float() float64 { return float64(p.next()>>11) / (1 << 53) }

// queueStepCase: operations are started one by one and the queue is left to
// settle after each, so who must be blocked and who must not is known exactly
// (lost wake-ups, Wait returning early or never, Close leaving sleepers).
func queueStepCase(c *C) {
	r := c.Rng
	cancelled, cancel := context.WithCancel(context.Background())
	cancel()
	live := context.Background()
	c.Bubble(func() {
		q := ant.MemoryQueue(r.Intn(4))
		type res struct {
			u   *url.URL
			err error
		}
		var (
			pending     []string
			outstanding int
			held        []string
			closed      bool
			seq         int
			asleep      []chan res // blocked dequeues
			waiting     []chan struct{}
		)
		got := map[string]bool{}
		fail := func(f string, a ...any) { c.Violate("step", f, a...) }
		// settle matches the outcome of every sleeper with the model.
		settle := func(what string) bool {
			synctest.Wait()
			c.Count("settled states", 1)
			var still []chan res
			var served []string
			for _, ch := range asleep {
				select {
				case x := <-ch:
					if x.err != nil {
						if !closed || !errors.Is(x.err, io.EOF) {
							fail("after %s a blocked Dequeue returned %v (closed=%v)", what, x.err, closed)
							return false
						}
						continue
					}
					served = append(served, "/"+urlID(x.u))
				default:
					still = append(still, ch)
				}
			}
			asleep = still
			for _, s := range served {
				if got[s] {
					fail("after %s %s was dequeued twice", what, s)
					return false
				}
				got[s] = true
			}
			// The served ones are exactly the head of the queue.
			for k := range served {
				if k >= len(pending) {
					fail("after %s Dequeue gave %v, pending were %v", what, served, pending)
					return false
				}
				ok := false
				for _, s := range served {
					ok = ok || s == pending[k]
				}
				if !ok {
					fail("after %s Dequeue gave %v, the oldest pending were %v", what, served, pending)
					return false
				}
			}
			pending = pending[len(served):]
			held = append(held, served...)
			if len(asleep) > 0 && (len(pending) > 0 || closed) {
				fail("after %s %d Dequeue calls still sleep although %d URLs are pending, closed=%v", what, len(asleep), len(pending), closed)
				return false
			}
			var w []chan struct{}
			for _, ch := range waiting {
				select {
				case <-ch:
					if outstanding != 0 {
						fail("after %s Wait returned with %d URLs unacknowledged", what, outstanding)
						return false
					}
				default:
					if outstanding == 0 {
						fail("after %s Wait still blocks though nothing is outstanding", what)
						return false
					}
					w = append(w, ch)
				}
			}
			waiting = w
			return true
		}
		var trace []string
		for k, n := 0, 12+r.Intn(30); k < n; k++ {
			var what string
			switch op := r.Intn(12); {
			case op < 4: // enqueue
				m := r.Intn(5)
				var batch ant.URLs
				var names []string
				for i := 0; i < m; i++ {
					seq++
					names = append(names, fmt.Sprintf("/%d", seq))
					batch = append(batch, mkURL(fmt.Sprintf("http://h/%d", seq)))
				}
				ctx, dead := live, false
				if chance(r, .15) {
					ctx, dead = cancelled, true
				}
				what = fmt.Sprintf("enqueue(%v, cancelled=%v)", names, dead)
				err := q.Enqueue(ctx, batch)
				for i := range batch {
					batch[i] = nil
				}
				if m > 0 {
					switch {
					case (closed || dead) && err == nil:
						fail("%s accepted (closed=%v)", what, closed)
						return
					case err != nil && !(closed && errors.Is(err, io.EOF)) && !(dead && errors.Is(err, context.Canceled)):
						fail("%s: %v (closed=%v)", what, err, closed)
						return
					case err == nil:
						pending = append(pending, names...)
						outstanding += m
					}
				}
			case op < 8: // dequeue
				if chance(r, .15) && !closed && len(pending) == 0 {
					what = "dequeue(cancelled)"
					if u, err := q.Dequeue(cancelled); !errors.Is(err, context.Canceled) {
						fail("%s on an empty queue: %v, %v", what, u, err)
						return
					}
					break
				}
				what = "dequeue"
				ch := make(chan res, 1)
				go func() { u, err := q.Dequeue(live); ch <- res{u, err} }()
				asleep = append(asleep, ch)
			case op < 10: // done
				if len(held) == 0 {
					continue
				}
				what = "done"
				i := r.Intn(len(held))
				q.Done(live, mkURL("http://h"+held[i]))
				held = append(held[:i], held[i+1:]...)
				outstanding--
			case op < 11: // wait; only while something is outstanding or nothing will come
				if outstanding == 0 && !closed {
					continue
				}
				what = "wait"
				ch := make(chan struct{})
				go func() { q.Wait(); close(ch) }()
				waiting = append(waiting, ch)
			default:
				if chance(r, .6) {
					continue
				}
				what = "close"
				if err := q.Close(live); err != nil {
					fail("Close: %v", err)
					return
				}
				outstanding -= len(pending)
				pending, closed = nil, true
			}
			trace = append(trace, what)
			c.Logf("%s", what)
			if !settle(what) {
				return
			}
		}
		q.Close(live)
		outstanding -= len(pending)
		pending, closed = nil, true
		if !settle("close") {
			return
		}
		for len(held) > 0 {
			q.Done(live, nil)
			held = held[1:]
			outstanding--
		}
		settle("done")
		c.Count("steps", len(trace))
		c.Sig(strings.Join(trace, ";"))
		if c.N < 2 {
			c.Sample(trace)
		}
	})
}

// longCase: the queue holds thousands of URLs, one caller at a time.
func longCase(c *C) {
	r := c.Rng
	ctx := context.Background()
	c.Bubble(func() {
		q := ant.MemoryQueue(pick(r, 0, 1, 100, 5000))
		var seq, head, acked, most int
		waited := make(chan struct{})
		steps := 40 + r.Intn(60)
		grow := pick(r, .5, .6, .8)
		for k := 0; k < steps; k++ {
			if k == 0 || chance(r, grow) && seq < 30000 {
				var batch ant.URLs
				for i, n := 0, 1+r.Intn(pick(r, 3, 300, 3000)); i < n; i++ {
					batch = append(batch, &url.URL{Scheme: "http", Host: "h", Path: fmt.Sprint("/", seq)})
					seq++
				}
				if err := q.Enqueue(ctx, batch); err != nil {
					c.Violate("long", "Enqueue of %d URLs: %v", len(batch), err)
					return
				}
				most = max(most, seq-head)
				if k == 0 {
					go func() { q.Wait(); close(waited) }()
				}
				continue
			}
			n := 1 + r.Intn(pick(r, 3, 300, 3000))
			ack := chance(r, .7)
			for i := 0; i < n && head < seq; i++ {
				u, err := q.Dequeue(ctx)
				if err != nil || u == nil || u.Path != fmt.Sprint("/", head) {
					c.Violate("long", "Dequeue %d gave %v, %v (%d enqueued)", head, u, err, seq)
					return
				}
				head++
				if ack && acked < seq-1 { // one is left to wait for
					q.Done(ctx, u)
					acked++
				}
			}
		}
		closed := chance(r, .3)
		if closed {
			if err := q.Close(ctx); err != nil {
				c.Violate("long", "Close: %v", err)
				return
			}
			if u, err := q.Dequeue(ctx); err != io.EOF {
				c.Violate("long", "Dequeue after Close gave %v, %v", u, err)
				return
			}
			seq = head // the others are discarded
		}
		for head < seq {
			u, err := q.Dequeue(ctx)
			if err != nil || u == nil || u.Path != fmt.Sprint("/", head) {
				c.Violate("long", "Dequeue %d gave %v, %v (%d enqueued)", head, u, err, seq)
				return
			}
			head++
		}
		for ; acked < seq; acked++ {
			synctest.Wait()
			select {
			case <-waited:
				c.Violate("long", "Wait returned with %d of %d URLs acknowledged", acked, seq)
				return
			default:
			}
			// Most at once, it is the last ones that matter.
			for acked < seq-3 {
				q.Done(ctx, nil)
				acked++
			}
			q.Done(ctx, nil)
		}
		synctest.Wait()
		select {
		case <-waited:
		default:
			c.Violate("long", "Wait blocks although all of %d URLs are acknowledged", seq)
			return
		}
		q.Close(ctx)
		c.Max("max URLs queued", most)
		c.Count("URLs of long queues", head)
		c.Sig(steps, most, head, closed)
	})
}

func TestC10(t *testing.T) {
	Run(t, "C10",
		W{"histories", 3000, 60000, queueHistoryCase},
		W{"steps", 3000, 60000, queueStepCase},
		W{"long", 200, 5000, longCase},
	)
}
