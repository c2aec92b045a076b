package zzverif

import (
	"context"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/yields/ant"
)

// ending is a crawl that is made to end early in some way (or not).
type ending struct {
	s       *sim
	how     string // complete, fail, cancel, deadline
	what    string
	o       outcome
	ctxErr  error
	endedAt time.Duration // when the context ended, -1
}

// endCrawl draws a crawl, a way to end it, and runs it.
func endCrawl(c *C) *ending {
	r := c.Rng
	k := genCfg(r)
	k.Deaf = pick(r, 0, .3, .6)
	k.Zero = chance(r, .1)
	k.P404 = pick(r, 0, .1)
	if chance(r, .2) {
		k.Robots = "delay"
	}
	if chance(r, .6) {
		k.Concurrency = 1 + r.Intn(3) // somebody waits for a slot
	}
	k.Limiter = pick(r, "none", "slow", "slow", "rate")
	e := &ending{endedAt: -1}
	e.how = pick(r, "complete", "fail", "fail", "fail", "cancel", "cancel", "deadline")
	if e.how == "deadline" && k.Limiter == "rate" {
		k.Limiter = "slow" // a rate limiter refuses early what the deadline cannot hold
	}
	if k.Limiter == "rate" {
		k.Pages = min(k.Pages, 12)
	}
	e.what = pick(r, "fetch", "scrape", "limit", "dedupe", "robots", "enqueue", "dequeue", "status", "client")
	if e.how == "fail" {
		switch e.what {
		case "robots":
			if k.Robots == "impolite" {
				k.Robots = "rules"
			}
		case "enqueue", "dequeue":
			k.Queue = "wrapped"
		case "limit":
			if k.Limiter == "none" {
				k.Limiter = "slow"
			}
		}
	}
	s := newSim(c, k)
	e.s = s
	if k.Limiter == "rate" {
		s.inner = ant.Limit(1 + r.Intn(3))
	}
	// Some pages need retries, so that the fetcher sleeps in its backoff.
	for _, p := range s.pages {
		if chance(r, .15) {
			for i, n := 0, 1+r.Intn(3); i < n; i++ {
				p.script = append(p.script, pick(r, 503, 429, 504, errTemp, errWrap))
			}
		}
	}
	if e.how == "fail" {
		at := 1 + r.Intn(pick(r, 1, 4, 12))
		also := -1
		if chance(r, .2) {
			also = at + 1 + r.Intn(3)
		}
		switch e.what {
		case "status", "client":
			p := s.pages[r.Intn(min(len(s.pages), 1+at))]
			p.script = append(p.script, map[string]int{"client": errPerm, "status": pick(r, 500, 403, 400, 410, 502)}[e.what])
		default:
			what := e.what
			cause := r.Intn(60)
			if what == "enqueue" || what == "dequeue" {
				for cause%10 == 2 {
					cause = r.Intn(60) // a queue says by io.EOF that it is closed
				}
			}
			bare := error(nil)
			if chance(r, .1) && what != "enqueue" && what != "dequeue" {
				bare = pick(r, io.EOF, io.ErrUnexpectedEOF, context.Canceled)
			}
			s.fault = func(kind string, page, nth int) error {
				if kind == what && (nth == at || nth == also) {
					if bare != nil {
						return bare
					}
					return fmt.Errorf("component: %w", failure(fmt.Sprintf("%s #%d", kind, nth), cause))
				}
				return nil
			}
		}
		e.what = fmt.Sprintf("%s #%d", e.what, at)
	}
	after := time.Duration(r.Intn(pick(r, 4, 60, 2500))) * time.Millisecond
	if chance(r, .5) {
		after += 500 * time.Microsecond
	}
	endAt := after
	c.Bubble(func() {
		ctx := context.Background()
		t0 := time.Now()
		stopped := make(chan struct{})
		switch e.how {
		case "cancel":
			var cancel context.CancelFunc
			ctx, cancel = context.WithCancel(ctx)
			go func() {
				defer close(stopped)
				time.Sleep(after)
				cancel()
			}()
			if chance(r, .05) {
				cancel()
				endAt = 0
			}
		case "deadline":
			var cancel context.CancelFunc
			ctx, cancel = context.WithDeadline(ctx, t0.Add(after))
			defer cancel()
			close(stopped)
		default:
			close(stopped)
		}
		e.o = s.crawl(ctx)
		if ctx.Err() != nil {
			e.ctxErr, e.endedAt = ctx.Err(), endAt
		}
		<-stopped
	})
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.failedAt >= 0 {
		c.Count("ended by failure of "+e.what[:strIndex(e.what, " ")], 1)
	} else if e.endedAt >= 0 {
		c.Count("ended by "+e.how, 1)
	} else {
		c.Count("ran to completion", 1)
	}
	return e
}

func strIndex(s, sub string) int {
	for i := range s {
		if s[i:i+1] == sub {
			return i
		}
	}
	return len(s)
}

// endAt is when the crawl had to end: the first failure or the context's end.
func (e *ending) endAt() (time.Duration, bool) {
	t, ok := e.s.failedAt, e.s.failedAt >= 0
	if e.endedAt >= 0 && (!ok || e.endedAt < t) {
		t, ok = e.endedAt, true
	}
	return t, ok
}

// returnsCase (C02): Run returns, at once, and leaves nothing running.
func returnsCase(c *C) {
	e := endCrawl(c)
	s := e.s
	if c.Bad() {
		c.Logf("%s %s", e.how, e.what)
		s.history()
		return
	}
	bad := func(key, f string, a ...any) {
		c.Logf("%s %s failedAt %v context ended %v: %v", e.how, e.what, s.failedAt, e.endedAt, e.o.err)
		s.history()
		c.Violate(key, f, a...)
	}
	if len(e.o.running) > 0 {
		sp := e.o.running[0]
		bad("running", "Run returned at %v while %d component calls were running (%s of page %d since %v)", e.o.at, len(e.o.running), sp.kind, sp.page, sp.start)
		return
	}
	if e.o.leaked != "" {
		bad("leak", "goroutines of the engine are left after Run:\n%s", e.o.leaked)
		return
	}
	limit := time.Duration(0)
	t, early := e.endAt()
	// A call in progress was told: those that listen to their context gave up.
	if early {
		for _, sp := range s.spans {
			if sp.start <= t && sp.end > t && !s.deafKind[sp.kind] {
				bad("not-told", "the crawl ended at %v (%s %s), the %s call of page %d in progress since %v listens to its context but ran on until %v", t, e.how, e.what, sp.kind, sp.page, sp.start, sp.end)
				return
			}
			if sp.start <= t && sp.end == t && sp.start < t {
				c.Count("calls interrupted", 1)
			}
		}
	}
	if early {
		limit = t
	}
	for _, sp := range s.spans {
		if !early || sp.start <= t {
			limit = max(limit, sp.end)
		}
	}
	if !early || e.o.at >= t {
		if e.o.at > limit {
			bad("late", "Run returned at %v, it had nothing to wait for after %v (%s %s, failure at %v, context ended at %v)", e.o.at, limit, e.how, e.what, s.failedAt, e.endedAt)
			return
		}
	}
	c.Sig(e.how, e.what, s.k.String(), s.order())
	if c.N < 4 {
		c.Sample(map[string]any{"config": s.k.String(), "how": e.how + " " + e.what, "ended": t.String(), "returned": e.o.at.String(), "err": fmt.Sprint(e.o.err)})
	}
}

// reportsCase (C03): failures abort the crawl and are what Run reports.
func reportsCase(c *C) {
	e := endCrawl(c)
	s := e.s
	bad := func(key, f string, a ...any) {
		c.Logf("%s %s failedAt %v context ended %v: %v", e.how, e.what, s.failedAt, e.endedAt, e.o.err)
		s.history()
		c.Violate(key, f, a...)
	}
	if c.Bad() {
		c.Logf("%s %s", e.how, e.what)
		s.history()
		return
	}
	err := e.o.err
	var fe *ant.FetchError
	isFailure := func() bool {
		for _, f := range s.failures {
			var p *permanent
			if errors.Is(err, f) {
				return true
			}
			if errors.As(f, &p) && errors.As(err, &fe) && p.what == fmt.Sprint("status ", fe.Status) {
				return true
			}
		}
		return false
	}
	switch {
	case err == nil && len(s.failures) > 0:
		bad("swallowed", "%v was returned to the engine at %v, Run returned nil", s.failures[0], s.failedAt)
		return
	case err == nil:
		fetch, scrape := s.reachable()
		got, sc := s.counts("fetch"), s.counts("scrape")
		for i := range s.pages {
			if fetch[i] && got[i] == 0 || scrape[i] && sc[i] == 0 {
				bad("incomplete", "Run returned nil although page %d was not visited (context ended at %v)", i, e.endedAt)
				return
			}
		}
		if e.endedAt >= 0 {
			for _, sp := range s.spans {
				if sp.end > e.endedAt {
					bad("cancel-swallowed", "the context ended at %v, a %s call ended at %v, Run returned nil", e.endedAt, sp.kind, sp.end)
					return
				}
			}
		}
	case isFailure():
		c.Count("failures reported", 1)
	case e.ctxErr != nil && errors.Is(err, e.ctxErr):
		c.Count("context errors reported", 1)
		if len(s.failures) > 0 && s.failedAt < e.endedAt {
			bad("wrong-error", "Run returned %v although %v was returned at %v, before the context ended at %v", err, s.failures[0], s.failedAt, e.endedAt)
			return
		}
	default:
		bad("wrong-error", "Run returned %v, which wraps neither the failures %v nor the context's error %v", err, s.failures, e.ctxErr)
		return
	}
	// Nothing starts after the failure or the end of the context.
	if t, early := e.endAt(); early {
		for _, sp := range s.spans {
			if sp.start > t && (sp.kind == "scrape" || sp.kind == "fetch" && !sp.dead) {
				bad("started", "a %s of page %d was started at %v, the crawl had failed at %v (%s %s)", sp.kind, sp.page, sp.start, t, e.how, e.what)
				return
			}
		}
		n := 0
		for _, sp := range s.spans {
			if sp.start <= t && sp.end > t {
				n++
			}
		}
		c.Max("max calls in progress when the crawl ended", n)
		c.Sig(e.how, e.what, s.k.String(), s.order())
		if c.N < 8 {
			c.Sample(map[string]any{"config": s.k.String(), "how": e.how + " " + e.what, "failed": t.String(), "err": fmt.Sprint(err)})
		}
	}
}

func TestC02(t *testing.T) { Run(t, "C02", W{"ending", 6000, 150000, returnsCase}) }
func TestC03(t *testing.T) { Run(t, "C03", W{"ending", 6000, 150000, reportsCase}) }
