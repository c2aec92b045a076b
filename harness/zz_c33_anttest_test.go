package zzverif

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/anttest"
)

// C33: the test helpers give what they promise: Fetch a page or a failed test,
// TestQueue and BenchmarkQueue a verdict on the queue.

// fakeTB is a test that anttest.Fetch may fail.
type fakeTB struct {
	testing.TB
	mu    sync.Mutex
	fatal []string
	soft  []string
}

func (f *fakeTB) end(s string) {
	f.mu.Lock()
	f.fatal = append(f.fatal, s)
	f.mu.Unlock()
	runtime.Goexit()
}
func (f *fakeTB) note(s string)             { f.mu.Lock(); f.soft = append(f.soft, s); f.mu.Unlock() }
func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Fatalf(s string, a ...any) { f.end(fmt.Sprintf(s, a...)) }
func (f *fakeTB) Fatal(a ...any)            { f.end(fmt.Sprintln(a...)) }
func (f *fakeTB) FailNow()                  { f.end("") }
func (f *fakeTB) Errorf(s string, a ...any) { f.note(fmt.Sprintf(s, a...)) }
func (f *fakeTB) Error(a ...any)            { f.note(fmt.Sprintln(a...)) }
func (f *fakeTB) Fail()                     { f.note("") }
func (f *fakeTB) Skip(a ...any)             { f.end("skipped") }
func (f *fakeTB) Skipf(s string, a ...any)  { f.end("skipped") }
func (f *fakeTB) SkipNow()                  { f.end("skipped") }
func (f *fakeTB) Log(a ...any)              {}
func (f *fakeTB) Logf(s string, a ...any)   {}

type rtFunc func(*http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type fetchTempErr struct{}

func (fetchTempErr) Error() string   { return "temporarily out of order" }
func (fetchTempErr) Temporary() bool { return true }

// c33plan is what the server does with the requests for one URL.
type c33plan struct {
	url   string
	steps []int // statuses; 0: network error, -1: temporary network error, -2: redirect, -3: no answer
	body  string
	asked int
	ok    bool
}

func c33Fetch(c *C) {
	r := c.Rng
	n := 1 + r.Intn(4)
	plans := map[string]*c33plan{}
	var order []*c33plan
	for i := 0; i < n; i++ {
		p := &c33plan{url: fmt.Sprintf("https://h%d.test/p?%d", i, r.Intn(100))}
		p.body = fmt.Sprintf("<title>%d.%d</title>%s", i, r.Int(), strings.Repeat("x", r.Intn(3)*3000))
		// The fate of the page: temporary failures, redirects, then an end.
		temp := r.Intn(7)
		if chance(r, .5) {
			temp = r.Intn(2)
		}
		for j := 0; j < temp; j++ {
			p.steps = append(p.steps, pick(r, 503, 504, 429, -1))
		}
		for chance(r, .2) {
			p.steps = append(p.steps, -2)
		}
		end := pick(r, 200, 200, 200, 204, 404, 404, 404, 400, 401, 403, 410, 451, 500, 501, 502, 0, 0, -3)
		p.steps = append(p.steps, end)
		p.ok = temp < 5 && (end == 200 || end == 204)
		if chance(r, .08) {
			p.url = pick(r, "://x", "https://h.test/%zz", "gopher://h.test/", "", "/only/path", "https://[::1", "http://")
			p.ok = false
		}
		if plans[p.url] != nil {
			continue
		}
		plans[p.url] = p
		order = append(order, p)
	}
	var mu sync.Mutex
	rt := rtFunc(func(req *http.Request) (*http.Response, error) {
		mu.Lock()
		key := strings.TrimSuffix(req.URL.String(), "&moved")
		p := plans[key]
		if p == nil || req.URL.Host == "" || !strings.HasPrefix(req.URL.Scheme, "http") {
			mu.Unlock()
			return nil, fmt.Errorf("no such page %s", req.URL)
		}
		st := p.steps[len(p.steps)-1]
		if p.asked < len(p.steps) {
			st = p.steps[p.asked]
		}
		p.asked++
		mu.Unlock()
		resp := &http.Response{StatusCode: st, Status: fmt.Sprint(st), ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"text/html"}}, Body: io.NopCloser(strings.NewReader(p.body)), Request: req}
		switch st {
		case 0:
			return nil, errors.New("cable cut")
		case -1:
			return nil, fetchTempErr{}
		case -2:
			resp.StatusCode, resp.Status = 302, "302"
			resp.Header.Set("Location", key+"&moved")
		case -3:
			<-req.Context().Done()
			return nil, req.Context().Err()
		case 204:
			resp.Body = http.NoBody
		}
		return resp, nil
	})
	for _, p := range order {
		c.Logf("%s: %v", p.url, p.steps)
	}
	c.Bubble(func() {
		old := ant.DefaultClient.Transport
		ant.DefaultClient.Transport = rt
		defer func() { ant.DefaultClient.Transport = old }()
		var wg sync.WaitGroup
		for _, p := range order {
			wg.Add(1)
			go func() {
				defer wg.Done()
				// What ant.Fetch makes of it, first.
				page, ferr := ant.Fetch(context.Background(), p.url)
				mu.Lock()
				first := p.asked
				p.asked = 0
				mu.Unlock()
				if page != nil {
					page.Query("title")
				}
				tb := &fakeTB{TB: c.T}
				var got *ant.Page
				returned := false
				done := make(chan struct{})
				go c.guard(func() {
					defer close(done)
					got = anttest.Fetch(tb, p.url)
					returned = true
				})
				<-done
				what := fmt.Sprintf("Fetch(%q) with %v", p.url, p.steps)
				c.Sig(p.steps, p.ok, p.url)
				switch {
				case returned && len(tb.soft) > 0 && p.ok:
					c.Violate("fetch", "%s: the page was fetched but the test failed: %q", what, tb.soft)
				case returned && got == nil:
					c.Violate("fetch-nil", "%s: no page, and the test was not failed", what)
				case returned && !p.ok:
					c.Violate("fetch", "%s: a page was returned, which cannot have been fetched", what)
				case !returned && p.ok:
					c.Violate("fetch", "%s: the test was failed although the page can be fetched: %q", what, tb.fatal)
				case !returned && len(tb.fatal) != 1:
					c.Violate("fetch", "%s: failed %d times %q", what, len(tb.fatal), tb.fatal)
				case !returned:
					c.Count("failures reported", 1)
					if ferr == nil {
						c.Count("pages not found", 1)
					} else if p.steps[len(p.steps)-1] != -3 && !strings.Contains(tb.fatal[0], ferr.Error()) {
						c.Violate("fetch", "%s: failed with %q, which does not say %q", what, tb.fatal[0], ferr)
					}
					if tb.fatal[0] == "skipped" {
						c.Violate("fetch", "%s: the test was skipped", what)
					}
				default:
					c.Count("pages fetched", 1)
					b := p.body
					if p.steps[len(p.steps)-1] == 204 {
						b = ""
					}
					want, _, _ := strings.Cut(strings.TrimPrefix(b, "<title>"), "</title>")
					if title := got.Query("title").Text(); title != want {
						c.Violate("fetch", "%s: title %q, not %q", what, title, want)
					}
					if u := strings.TrimSuffix(got.URL.String(), "&moved"); u != p.url {
						c.Violate("fetch", "%s: page of %s", what, got.URL)
					}
				}
				mu.Lock()
				second := p.asked
				mu.Unlock()
				if second != first {
					c.Violate("fetch", "%s: %d requests, ant.Fetch made %d", what, second, first)
				}
			}()
		}
		wg.Wait()
	})
}

// testQueue is a queue that does right, apart from its fault.
type testQueue struct {
	mu     sync.Mutex
	urls   ant.URLs
	more   chan struct{}
	closed bool
	fault  string
	rng    *rand.Rand
	slow   time.Duration

	enq, deq, closes int
}

func newTestQueue(fault string, slow time.Duration, seed int64) *testQueue {
	return &testQueue{more: make(chan struct{}), fault: fault, slow: slow, rng: rand.New(rand.NewSource(seed))}
}

func (q *testQueue) wake() { close(q.more); q.more = make(chan struct{}) }

func (q *testQueue) nap() {
	q.mu.Lock()
	d := time.Duration(0)
	if q.slow > 0 {
		d = time.Duration(q.rng.Int63n(int64(q.slow)))
	}
	q.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
}

func (q *testQueue) Enqueue(ctx context.Context, urls ant.URLs) error {
	q.nap()
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.closed && q.fault != "accepts after close" {
		if q.fault == "closed: other error on enqueue" {
			return errors.New("closed")
		}
		return io.EOF
	}
	if err := ctx.Err(); err != nil {
		switch q.fault {
		case "ended context ignored by enqueue":
		case "ended context: other error on enqueue":
			return io.EOF
		default:
			return err
		}
	}
	if q.fault == "full" && q.enq >= 500 {
		return errors.New("full")
	}
	if q.fault == "enqueue fails" {
		return errors.New("failed")
	}
	q.enq += len(urls)
	for i, u := range urls {
		switch {
		case q.fault == "third replaced" && i == 2:
			u = urls[0]
		case q.fault == "second replaced" && i == 1:
			u = urls[0]
		case q.fault == "first replaced" && i == 0 && len(urls) > 1:
			u = urls[1]
		case q.fault == "urls changed":
			v := *u
			v.Path = "/"
			u = &v
		}
		if q.fault == "last first" {
			q.urls = append(ant.URLs{u}, q.urls...)
		} else {
			q.urls = append(q.urls, u)
		}
	}
	q.wake()
	return nil
}

func (q *testQueue) Dequeue(ctx context.Context) (*ant.URL, error) {
	q.nap()
	for {
		q.mu.Lock()
		if q.closed {
			q.mu.Unlock()
			switch q.fault {
			case "closed: other error on dequeue":
				return nil, errors.New("closed")
			case "closed: no error on dequeue":
				return nil, nil
			}
			return nil, io.EOF
		}
		if q.fault == "dequeue fails" {
			q.mu.Unlock()
			return nil, errors.New("failed")
		}
		if len(q.urls) > 0 {
			u := q.urls[0]
			if q.fault != "never removed" {
				q.urls = q.urls[1:]
			}
			q.deq++
			q.mu.Unlock()
			return u, nil
		}
		more := q.more
		q.mu.Unlock()
		select {
		case <-more:
		case <-ctx.Done():
			switch q.fault {
			case "ended context: EOF on dequeue":
				return nil, io.EOF
			case "ended context: no error on dequeue":
				return nil, nil
			}
			return nil, ctx.Err()
		}
	}
}

func (q *testQueue) Done(context.Context, *ant.URL) error { return nil }
func (q *testQueue) Wait()                                {}

func (q *testQueue) Close(context.Context) error {
	q.nap()
	q.mu.Lock()
	defer q.mu.Unlock()
	q.closes++
	if !q.closed {
		q.closed = true
		q.wake()
	}
	if q.fault == "close fails" {
		return errors.New("failed")
	}
	return nil
}

var c33faults = []string{
	"accepts after close", "closed: other error on enqueue", "ended context ignored by enqueue",
	"ended context: other error on enqueue", "full", "enqueue fails", "third replaced", "second replaced",
	"first replaced", "urls changed", "last first", "closed: other error on dequeue", "closed: no error on dequeue",
	"dequeue fails", "never removed", "ended context: EOF on dequeue", "ended context: no error on dequeue", "close fails",
}

func c33Queue(c *C) {
	r := c.Rng
	fault := ""
	memory := false
	switch c.N % 4 {
	case 0:
		memory = true
	case 1:
	default:
		fault = c33faults[(c.N/4*2+c.N%4-2)%len(c33faults)]
	}
	slow := pick(r, 0, 0, 10*time.Microsecond, 200*time.Microsecond)
	var made atomic.Int32
	mk := func(t testing.TB) ant.Queue {
		made.Add(1)
		if memory {
			return ant.MemoryQueue(r.Intn(10))
		}
		return newTestQueue(fault, slow, int64(c.N))
	}
	name := "conforming"
	if fault != "" {
		name = fault
	}
	// A test of its own process-wide output: only its verdict matters.
	ok := c.T.Run("queue", func(t *testing.T) { anttest.TestQueue(t, mk) })
	c.Sig(name, memory, slow)
	if fault == "" {
		c.Count("conforming queues accepted", 1)
		if !ok {
			c.Violate("queue", "TestQueue failed a queue that does right (memory %v, slow %v)", memory, slow)
		}
	} else {
		c.Count("faulty queues refused", 1)
		if ok {
			c.Violate("queue", "TestQueue passed a queue with this fault: %s", fault)
		}
	}
	if made.Load() == 0 {
		c.Violate("queue", "TestQueue made no queue")
	}
}

func c33Bench(c *C) {
	r := c.Rng
	n := 1 + r.Intn(3000)
	if f := flag.Lookup("test.benchtime"); f != nil {
		old := f.Value.String()
		f.Value.Set(fmt.Sprintf("%dx", n))
		defer f.Value.Set(old)
	}
	fault := pick(r, "", "", "", "full", "enqueue fails", "dequeue fails")
	if fault == "full" {
		n = 3000
		flag.Lookup("test.benchtime").Value.Set("3000x")
	}
	var mu sync.Mutex
	var qs []*testQueue
	var b *testing.B
	res := testing.Benchmark(func(bb *testing.B) {
		b = bb
		anttest.BenchmarkQueue(b, func(testing.TB) ant.Queue {
			q := newTestQueue(fault, 0, 1)
			mu.Lock()
			qs = append(qs, q)
			mu.Unlock()
			return q
		})
	})
	c.Sig("bench", n, fault)
	c.Count("queues measured", 1)
	if fault != "" {
		if !b.Failed() {
			c.Violate("bench", "BenchmarkQueue measured %d operations of a queue with this fault: %s", res.N, fault)
		}
		return
	}
	if b.Failed() || res.N != n {
		c.Violate("bench", "%d operations measured of %d", res.N, n)
	}
	last := qs[len(qs)-1]
	if last.enq != n || last.deq != n || last.closes != 1 {
		c.Violate("bench", "%d operations, %d URLs enqueued, %d dequeued, closed %d times", n, last.enq, last.deq, last.closes)
	}
}

func TestC33(t *testing.T) {
	Run(t, "C33",
		W{"fetch", 600, 12000, c33Fetch},
		W{"queue", 288, 3600, c33Queue},
		W{"bench", 60, 600, c33Bench},
	)
}
