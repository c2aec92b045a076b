package zzverif

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/yields/ant"
)

// C34: the engine keeps to the contract of Queue, so that any queue will do.

// anyQueue keeps the contract of ant.Queue and nothing more: URLs come out in
// any order and as copies, every call may take its time, Wait returns at the
// earliest moment it may, and every call is checked.
type anyQueue struct {
	c    *C
	r    *rand.Rand // under mu
	fifo bool
	copy bool
	lat  time.Duration
	wait string // "handled": until every URL is handled; "closed": or the queue is closed
	fail string // "enqueue", "dequeue", "done", "close", "close-open"
	at   int    // the call of that kind that fails
	err  error

	mu       sync.Mutex
	more     chan struct{}
	urls     []string
	given    map[string]int // dequeued and not yet done
	accepted map[string]int // enqueued
	handled  map[string]int // done
	active   int
	closed   bool
	closes   int
	calls    map[string]int
	inside   int // calls in progress, apart from Wait
	waiting  int
	failed   bool // a call has failed as told
	over     bool // Run has returned
}

var errQueue = errors.New("the queue is out of order")

// queueTempErr is an error of a queue that says that it is temporary; an
// engine has to treat it as critical all the same.
type queueTempErr struct{ error }

func (queueTempErr) Temporary() bool { return true }
func (e queueTempErr) Unwrap() error { return e.error }

func (q *anyQueue) wake() { close(q.more); q.more = make(chan struct{}) }

// enter notes a call and tells whether it is to fail.
func (q *anyQueue) enter(ctx context.Context, op string) bool {
	q.mu.Lock()
	q.inside++
	q.calls[op]++
	n := q.calls[op]
	if q.over {
		q.c.Violate("after", "%s was called after Run had returned", op)
	}
	var d time.Duration
	if q.lat > 0 {
		d = time.Duration(q.r.Int63n(int64(q.lat)))
	}
	fails := op == strings.TrimSuffix(q.fail, "-open") && n >= q.at
	q.mu.Unlock()
	q.c.Count("queue calls", 1)
	if d > 0 {
		// A queue that is far away gives up when the context ends.
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
		}
	}
	return fails
}

func (q *anyQueue) leave() { q.mu.Lock(); q.inside--; q.mu.Unlock() }

func (q *anyQueue) broken() error {
	q.mu.Lock()
	q.failed = true
	q.mu.Unlock()
	return q.err
}

func (q *anyQueue) Enqueue(ctx context.Context, urls ant.URLs) error {
	fails := q.enter(ctx, "enqueue")
	defer q.leave()
	if fails && len(urls) > 0 {
		return q.broken()
	}
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.closed {
		return io.EOF
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	for _, u := range urls {
		if u == nil {
			q.c.Violate("enqueue", "a nil URL was enqueued")
			continue
		}
		s := u.String()
		if q.accepted[s]++; q.accepted[s] > 1 {
			q.c.Violate("enqueue", "%s was enqueued twice", s)
		}
		q.active++
		q.urls = append(q.urls, s)
	}
	q.wake()
	return nil
}

func (q *anyQueue) Dequeue(ctx context.Context) (*ant.URL, error) {
	fails := q.enter(ctx, "dequeue")
	defer q.leave()
	if fails {
		return nil, q.broken()
	}
	for {
		q.mu.Lock()
		if q.closed {
			q.mu.Unlock()
			return nil, io.EOF
		}
		if err := ctx.Err(); err != nil {
			q.mu.Unlock()
			return nil, err
		}
		if len(q.urls) > 0 {
			i := 0
			if !q.fifo {
				i = q.r.Intn(len(q.urls))
			}
			s := q.urls[i]
			q.urls = append(q.urls[:i:i], q.urls[i+1:]...)
			q.given[s]++
			q.mu.Unlock()
			u, err := url.Parse(s)
			if err != nil {
				panic(err)
			}
			return u, nil
		}
		more := q.more
		q.mu.Unlock()
		select {
		case <-more:
		case <-ctx.Done():
		}
	}
}

func (q *anyQueue) Done(ctx context.Context, u *ant.URL) error {
	if u == nil {
		q.c.Violate("done", "Done was called with nil")
		return nil
	}
	s := u.String()
	fails := q.enter(ctx, "done")
	defer q.leave()
	q.mu.Lock()
	if q.given[s]--; q.given[s] < 0 {
		q.c.Violate("done", "Done was called for %s, which was dequeued %d times and is done %d times", s, q.given[s]+q.handled[s]+1, q.handled[s]+1)
	}
	q.handled[s]++
	q.active--
	q.wake()
	q.mu.Unlock()
	if fails {
		return q.broken()
	}
	return nil
}

func (q *anyQueue) Wait() {
	q.mu.Lock()
	q.waiting++
	defer func() { q.waiting--; q.mu.Unlock() }()
	for q.active > 0 && !(q.closed && q.wait == "closed") {
		more := q.more
		q.mu.Unlock()
		<-more
		q.mu.Lock()
	}
}

func (q *anyQueue) Close(ctx context.Context) error {
	fails := q.enter(ctx, "close")
	defer q.leave()
	q.mu.Lock()
	q.closes++
	if fails && q.fail == "close-open" {
		q.mu.Unlock()
		return q.broken()
	}
	if !q.closed {
		q.closed = true
		q.active -= len(q.urls)
		q.urls = nil
		q.wake()
	}
	q.mu.Unlock()
	if fails {
		return q.broken()
	}
	return nil
}

// anySite is a small site; it is the client and the scraper.
type anySite struct {
	c     *C
	q     *anyQueue
	links map[string][]string
	code  map[string]int
	bad   map[string]bool // the scraper fails
	lat   func() time.Duration

	mu      sync.Mutex
	fetched map[string]int
	scraped map[string]int
	inside  int
	broken  time.Time // when the first component failed
	late    []string  // fetched later than that, and the Done of the page that failed
	t0      time.Time
}

func (s *anySite) stop() {
	s.mu.Lock()
	if s.broken.IsZero() {
		s.broken = time.Now()
	}
	s.mu.Unlock()
}

func (s *anySite) nap(ctx context.Context) error {
	s.mu.Lock()
	d := s.lat()
	s.mu.Unlock()
	select {
	case <-time.After(d):
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

func (s *anySite) Do(req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	s.mu.Lock()
	s.fetched[u]++
	if !s.broken.IsZero() && time.Now().After(s.broken.Add(s.q.lat)) {
		s.late = append(s.late, u)
	}
	s.inside++
	s.mu.Unlock()
	defer func() { s.mu.Lock(); s.inside--; s.mu.Unlock() }()
	if err := s.nap(req.Context()); err != nil {
		return nil, err
	}
	code := s.code[u]
	if code == 0 {
		code = 200
	}
	if code >= 400 && code != 404 {
		s.stop()
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Header: http.Header{}, Body: io.NopCloser(strings.NewReader("<title>" + u)), Request: req}, nil
}

var errAnyScrape = errors.New("the scraper is out of order")

func (s *anySite) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	u := p.URL.String()
	s.mu.Lock()
	s.inside++
	s.mu.Unlock()
	defer func() { s.mu.Lock(); s.inside--; s.mu.Unlock() }()
	if err := s.nap(ctx); err != nil {
		return nil, err
	}
	if s.bad[u] {
		s.stop()
		return nil, errAnyScrape
	}
	s.mu.Lock()
	s.scraped[u]++
	s.mu.Unlock()
	var out ant.URLs
	for _, l := range s.links[u] {
		v, err := url.Parse(l)
		if err != nil {
			panic(err)
		}
		out = append(out, v)
	}
	return out, nil
}

func anyQueueCase(c *C) {
	r := c.Rng
	n := 1 + r.Intn(25)
	name := func(i int) string { return fmt.Sprintf("https://h%d.test/p%d", i%3, i) }
	s := &anySite{c: c, links: map[string][]string{}, code: map[string]int{}, bad: map[string]bool{}, fetched: map[string]int{}, scraped: map[string]int{}}
	for i := 0; i < n; i++ {
		for j := r.Intn(4); j > 0; j-- {
			s.links[name(i)] = append(s.links[name(i)], name(r.Intn(n)))
		}
		if i > 0 && chance(r, .7) {
			from := name(r.Intn(i))
			s.links[from] = append(s.links[from], name(i))
		}
		if chance(r, .1) {
			s.code[name(i)] = 404
		}
	}
	var starts []string
	for i := r.Intn(3); i >= 0; i-- {
		starts = append(starts, name(r.Intn(n)))
	}
	maxLat := pick(r, 1, 5, 100)
	s.lat = func() time.Duration { return time.Duration(1+r.Intn(maxLat)) * time.Millisecond }

	q := &anyQueue{
		c: c, r: rand.New(rand.NewSource(c.Rng.Int63())), fifo: chance(r, .3), wait: pick(r, "handled", "closed"),
		lat:   pick(r, 0, 0, time.Millisecond, 50*time.Millisecond),
		given: map[string]int{}, accepted: map[string]int{}, handled: map[string]int{}, calls: map[string]int{},
	}
	s.q = q
	q.err = errQueue
	switch r.Intn(8) {
	case 0:
		q.err = queueTempErr{errQueue}
	case 1:
		q.err = fmt.Errorf("%w: %w", errQueue, context.DeadlineExceeded)
	case 2:
		q.err = fmt.Errorf("%w: %w", errQueue, context.Canceled)
	case 3:
		q.err = &ant.FetchError{URL: &url.URL{}, Status: 503} // temporary as well
	}
	// What goes wrong: nothing, the queue, a page, the caller.
	kind := pick(r, "ok", "ok", "ok", "queue", "queue", "page", "page+close", "cancel", "cancel+close")
	cancelAt := time.Duration(1+r.Intn(maxLat*6)) * time.Millisecond
	switch kind {
	case "queue":
		q.fail = pick(r, "enqueue", "dequeue", "done", "close", "close-open")
		q.at = 1 + r.Intn(4)
		if strings.HasPrefix(q.fail, "close") {
			q.at = 1
		}
	case "page+close", "cancel+close":
		q.fail, q.at = pick(r, "close", "close-open"), 1
	}
	if strings.HasPrefix(kind, "page") {
		u := name(r.Intn(n))
		if chance(r, .5) {
			s.bad[u] = true
		} else {
			s.code[u] = 500
		}
	}
	prefill := map[string]bool{}
	if chance(r, .2) {
		for i := r.Intn(3); i >= 0; i-- {
			prefill[fmt.Sprintf("https://kept.test/k%d", i)] = true
		}
		if chance(r, .3) {
			starts = nil
		}
	}
	cfg := ant.EngineConfig{
		Scraper: s, Fetcher: &ant.Fetcher{Client: s}, Queue: q, Impolite: true,
		Workers: pick(r, 0, 1, 1, 2, 5), Concurrency: pick(r, 0, 0, 1, 2, 10),
	}
	c.Logf("%s fail=%s@%d err=%v fifo=%v wait=%s lat=%v workers=%d concurrency=%d pages=%d starts=%v kept=%d cancel=%v", kind, q.fail, q.at, q.err, q.fifo, q.wait, q.lat, cfg.Workers, cfg.Concurrency, n, starts, len(prefill), cancelAt)

	c.Bubble(func() {
		q.more = make(chan struct{})
		s.t0 = time.Now()
		for u := range prefill {
			q.urls = append(q.urls, u)
			q.active++
		}
		sort.Strings(q.urls)
		eng, err := ant.NewEngine(cfg)
		if err != nil {
			panic(err)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		cancelled := false
		if strings.HasPrefix(kind, "cancel") {
			t := time.AfterFunc(cancelAt, func() { s.mu.Lock(); cancelled = true; s.mu.Unlock(); s.stop(); cancel() })
			defer t.Stop()
		}
		ret := make(chan error, 1)
		go c.guard(func() { ret <- eng.Run(ctx, starts...) })
		var rerr error
		limit := time.NewTimer(24 * time.Hour)
		defer limit.Stop()
		select {
		case rerr = <-ret:
		case <-limit.C:
			q.mu.Lock()
			c.Violate("hang", "%s (queue fails to %q from call %d): Run did not return; %d URLs active, closed %v, calls %v\n%s", kind, q.fail, q.at, q.active, q.closed, q.calls, bubbleStacks())
			q.closed, q.active = true, 0
			q.wake()
			q.mu.Unlock()
			cancel()
			return
		}
		q.mu.Lock()
		q.over = true
		inside, failed, closes, active := q.inside, q.failed, q.closes, q.active
		s.mu.Lock()
		busy, stopped, late := s.inside, !s.broken.IsZero(), s.late
		wasCancelled := cancelled
		s.mu.Unlock()
		q.mu.Unlock()
		synctest.Wait()
		q.mu.Lock()
		waiting := q.waiting
		q.mu.Unlock()
		if inside > 0 || busy > 0 {
			c.Violate("running", "Run has returned (%v) with %d calls of the queue and %d fetches and scrapes in progress", rerr, inside, busy)
		}
		early := rerr != nil && failed && q.fail == "enqueue" && closes == 0 // the start URLs were not taken
		if closes == 0 && !early && !(wasCancelled && len(s.fetched) == 0) {
			c.Violate("close", "Run has returned (%v) without closing the queue", rerr)
		}
		q.mu.Lock()
		for u, k := range q.given {
			if k > 0 {
				c.Violate("done", "%s was dequeued but not acknowledged when Run returned (%v)", u, rerr)
			}
		}
		q.mu.Unlock()
		c.Sig(kind, q.fail, q.at, q.wait, cfg.Workers, cfg.Concurrency, len(s.fetched), closes, fmt.Sprint(rerr))

		if wasCancelled && rerr == nil {
			stopped = false // the crawl was complete, or it is wrong
		}
		switch {
		case failed && !errors.Is(rerr, q.err) && !stopped:
			c.Violate("error", "the queue failed (%s), Run returned %v", q.fail, rerr)
		case stopped && rerr == nil:
			c.Violate("error", "%s: a component failed or the crawl was cancelled, Run returned nil", kind)
		case stopped && wasCancelled && !errors.Is(rerr, context.Canceled) && !errors.Is(rerr, q.err):
			c.Violate("error", "%s: Run returned %v", kind, rerr)
		case stopped && !wasCancelled:
			var fe *ant.FetchError
			if !errors.Is(rerr, errAnyScrape) && !errors.As(rerr, &fe) && !(failed && !strings.HasPrefix(q.fail, "close") && errors.Is(rerr, q.err)) {
				c.Violate("error", "%s: a page failed, Run returned %v", kind, rerr)
			}
			c.Count("crawls that a page ended", 1)
		}
		if len(late) > 0 && !failed {
			c.Violate("late", "%s: %v fetched after the crawl had failed", kind, late)
		}
		if failed {
			c.Count("crawls with a failing queue", 1)
		}
		if failed || stopped {
			if waiting > 0 && q.fail != "close-open" {
				c.Violate("running", "Run has returned (%v), but not its call of Wait", rerr)
			}
			if waiting > 0 {
				c.Count("queues left waiting", 1)
				q.mu.Lock()
				q.closed, q.active = true, 0
				q.wake()
				q.mu.Unlock()
			}
			return
		}

		// Nothing failed: the crawl is complete.
		if rerr != nil {
			c.Violate("error", "nothing failed, Run returned %v", rerr)
		}
		if waiting > 0 || active > 0 {
			c.Violate("wait", "Run returned nil with %d URLs that are not handled (%d calls of Wait)", active, waiting)
		}
		want := map[string]bool{}
		var visit func(u string)
		visit = func(u string) {
			if want[u] {
				return
			}
			want[u] = true
			if s.code[u] == 404 {
				return
			}
			for _, l := range s.links[u] {
				visit(l)
			}
		}
		for _, u := range starts {
			visit(u)
		}
		for u := range prefill {
			visit(u)
		}
		for u := range want {
			if s.fetched[u] != 1 {
				c.Violate("visits", "%s was fetched %d times", u, s.fetched[u])
			}
			if want := 1; s.code[u] != 404 && s.scraped[u] != want {
				c.Violate("visits", "%s was scraped %d times", u, s.scraped[u])
			}
			if q.handled[u] != 1 {
				c.Violate("done", "%s was acknowledged %d times", u, q.handled[u])
			}
		}
		for u := range s.fetched {
			if !want[u] {
				c.Violate("visits", "%s was fetched, nothing links to it", u)
			}
		}
		c.Count("crawls completed", 1)
		c.Count("pages crawled", len(want))
	})
}

func TestC34(t *testing.T) { Run(t, "C34", W{"anyqueue", 4000, 120000, anyQueueCase}) }
