package zzverif

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"
)

// slotsCase (C04): how many URLs are in process, at every instant.
//
// All latencies are whole milliseconds, so a monitor that wakes half way
// between them finds the engine settled: whatever can start has started.
func slotsCase(c *C) { slots(c, false) }

// wideCase: hundreds of URLs are there at once.
func wideCase(c *C) { slots(c, true) }

func slots(c *C, wide bool) {
	r := c.Rng
	k := genCfg(r)
	k.Pages = 2 + r.Intn(pick(r, 8, 30, 60))
	k.MaxLinks = pick(r, 2, 6, 20)
	k.Limiter, k.Queue, k.Zero, k.Deaf = "slow", "wrapped", false, 0
	k.LatMax = pick(r, 2, 5, 20)
	k.P404 = pick(r, 0, .2, .5)
	k.Workers = pick(r, 0, 1, 1, 2, 3, 5, 8)
	k.Concurrency = pick(r, 0, -1, 1, 1, 2, 3, 4, 7, 16)
	k.Robots = pick(r, "impolite", "impolite", "none", "404", "rules", "derived")
	// The lower bound needs the pages in process to be visible to the monitor:
	// no time is spent in robots.txt lookups or the de-duplicator.
	lower := chance(r, .8)
	k.DedupeLat = pick(r, 0, 2)
	if lower {
		k.DedupeLat, k.RobotsLat = 0, 0
	}
	if wide {
		k.Pages, k.Flat, k.Matcher = pick(r, 150, 400, 1300), pick(r, "hub", "start"), "none"
		k.Concurrency, k.LatMax = pick(r, 0, 0, -1, 50, 300, 1000, 1200), pick(r, 20, 100)
		k.Robots = pick(r, "impolite", "none", "404")
	}
	s := newSim(c, k)
	for _, p := range s.pages {
		if chance(r, .1) {
			p.script = append(p.script, pick(r, 503, 429, errTemp))
		}
		if wide {
			p.limitLat, p.fetchLat = 0, time.Duration(10+r.Intn(k.LatMax))*time.Millisecond
		}
	}
	n := k.Concurrency
	var o outcome
	settled, full := 0, 0
	key, what := "", ""
	c.Bubble(func() {
		over, stopped := make(chan struct{}), make(chan struct{})
		go func() {
			defer close(stopped)
			time.Sleep(500 * time.Microsecond)
			for i := 0; i < 300000; i++ { // or a hang would go unnoticed
				s.mu.Lock()
				have := len(s.inproc)
				avail := s.enq - s.fin
				want := avail
				if n > 0 {
					want = min(n, avail)
				}
				if avail > 0 {
					settled++
				}
				if n > 0 && avail > n {
					full++
				}
				if lower && have != want && key == "" {
					key, what = "unused-slot", fmt.Sprintf("at %v %d URLs are in process; %d are available and Concurrency is %d, so it should be %d", s.now(), have, avail, n, want)
				}
				s.mu.Unlock()
				select {
				case <-over:
					return
				case <-time.After(time.Millisecond):
				}
			}
		}()
		o = s.crawl(context.Background())
		close(over)
		<-stopped
	})
	bad := func(key, f string, a ...any) {
		s.history()
		c.Violate(key, f, a...)
	}
	switch {
	case c.Bad():
		s.history()
		return
	case o.err != nil:
		bad("error", "Run of a fault-free crawl returned %v", o.err)
		return
	case n > 0 && s.maxIn > n:
		bad("too-many", "%d URLs were in process at once, Concurrency is %d (Workers %d)", s.maxIn, n, k.Workers)
		return
	case key != "":
		bad(key, "%s (Workers %d)", what, k.Workers)
		return
	}
	c.Max("max URLs in process at once", s.maxIn)
	if s.maxIn > 1000 {
		c.Count("crawls with more than 1000 URLs in process", 1)
	}
	if lower {
		c.Count("settled instants judged", settled)
		c.Count("settled instants with more URLs than slots", full)
	}
	if n > 0 && s.maxIn == n {
		c.Count("crawls that used every slot", 1)
	}
	if n <= 0 {
		c.Count("unlimited crawls", 1)
	}
	if s.maxIn > 1 || full > 0 {
		c.Sig(s.k.String(), s.order())
	}
	if c.N < 8 {
		c.Sample(map[string]any{"config": s.k.String(), "max in process": s.maxIn, "settled instants": settled, "with more URLs than slots": full})
	}
}

// robotsCase (C05): what is requested against what robots.txt says.
func robotsCase(c *C) { politeCrawl(c, 0) }

// robotsManyCase: a crawl of more hosts than robots.txt are cached for.
func robotsManyCase(c *C) { politeCrawl(c, 1200+c.Rng.Intn(200)) }

func politeCrawl(c *C, nhosts int) {
	r := c.Rng
	k := genCfg(r)
	k.Pages = 5 + r.Intn(pick(r, 10, 50))
	k.MaxLinks = 4 + r.Intn(12)
	k.Hosts = 1 + r.Intn(pick(r, 2, 4, 4, 30))
	k.Robots = pick(r, "impolite", "none", "404", "rules", "derived", "derived", "derived", "derived", "delay")
	k.Zero = chance(r, .5)
	k.Matcher = pick(r, "none", "none", "none", "custom")
	if nhosts > 0 {
		k.Hosts, k.Pages, k.MaxLinks = nhosts, 2*nhosts, 3
		k.Robots, k.Concurrency = pick(r, "rules", "derived", "derived"), pick(r, 0, 10)
	}
	s := newSim(c, k)
	s.start, s.raws = nil, nil
	for i := range s.pages {
		if i == 0 || nhosts > 0 || chance(r, .3) {
			s.start = append(s.start, i)
			s.raws = append(s.raws, s.pages[i].u.spell(r))
		}
	}
	var o outcome
	c.Bubble(func() { o = s.crawl(context.Background()) })
	bad := func(key, f string, a ...any) {
		s.history()
		c.Violate(key, f, a...)
	}
	if c.Bad() {
		s.history()
		return
	}
	if o.err != nil {
		bad("error", "Run of a fault-free crawl returned %v", o.err)
		return
	}
	if len(s.odd) > 0 {
		bad("stray", "%v", s.odd)
		return
	}
	fetch, _ := s.reachable()
	got := s.counts("fetch")
	okd, den := 0, 0
	for i, p := range s.pages {
		switch ok := s.allowed(i); {
		case !ok && got[i] > 0:
			bad("disallowed", "page %d (%s) was requested, robots.txt of %s disallows it:\n%s", i, p.u.spell(nil), p.u.hostport(), s.robotsTxt[p.u.hostport()])
			return
		case ok && fetch[i] && got[i] == 0:
			bad("kept-out", "page %d (%s) was not requested, robots.txt of %s (status %d) allows it:\n%s", i, p.u.spell(nil), p.u.hostport(), s.robotsCode[p.u.hostport()], s.robotsTxt[p.u.hostport()])
			return
		case ok && fetch[i]:
			okd++
		case !ok:
			den++
		}
	}
	answered := map[string]time.Duration{}
	hosts := map[string]int{}
	for _, e := range s.ev {
		switch e.kind {
		case "robots-answer":
			answered[e.info] = e.at
		case "robots-request":
			host, ua, _ := strings.Cut(e.info, " ")
			host = strings.ToLower(host)
			hosts[host]++
			if ua != "antbot" {
				bad("user-agent", "robots.txt of %s was requested with the user agent %q", host, ua)
				return
			}
			if k.Robots == "impolite" {
				bad("impolite", "robots.txt of %s was requested although Impolite is set", host)
				return
			}
			// An answer of the same instant may not have been stored yet.
			if at, ok := answered[host]; ok && at < e.at && e.at < at+30*time.Minute && nhosts == 0 {
				bad("not-cached", "robots.txt of %s was requested at %v, the answer had arrived at %v", host, e.at, at)
				return
			}
		}
	}
	for i, p := range s.pages {
		if got[i] > 0 && k.Robots != "impolite" && hosts[p.u.hostport()] == 0 {
			bad("not-consulted", "page %d was requested but robots.txt of %s never", i, p.u.hostport())
			return
		}
	}
	if k.Workers <= 1 && k.Concurrency == 1 && o.at < 30*time.Minute {
		for h, n := range hosts {
			if n > 1 {
				bad("not-cached", "robots.txt of %s was requested %d times by a crawl of one URL at a time", h, n)
				return
			}
		}
		c.Count("sequential crawls", 1)
	}
	if len(hosts) > 1000 {
		c.Count("crawls of more than 1000 hosts", 1)
	}
	c.Count("robots.txt requests", len(answered))
	c.Count("allowed pages requested", okd)
	c.Count("disallowed pages kept out", den)
	if len(hosts) > 1 {
		c.Count("crawls of several hosts", 1)
	}
	if k.Robots == "impolite" {
		c.Count("impolite crawls", 1)
	}
	c.Sig(s.k.String(), fmt.Sprint(s.robotsTxt), s.order())
	if c.N < 10 && den > 0 {
		c.Sample(map[string]any{"robots": s.robotsTxt, "allowed": okd, "disallowed": den})
	}
}

// delayCase (C06): the virtual times of page requests to hosts with a delay.
func delayCase(c *C) { delayedCrawl(c, 0) }

// delayManyCase: a crawl of more hosts than anything keeps apart for ever.
func delayManyCase(c *C) { delayedCrawl(c, 1050+c.Rng.Intn(500)) }

func delayedCrawl(c *C, hosts int) {
	r := c.Rng
	k := genCfg(r)
	k.Pages = 3 + r.Intn(14)
	k.MaxLinks = 2 + r.Intn(8)
	k.Robots, k.Queue = "delay", "wrapped"
	k.Limiter = pick(r, "none", "slow", "slow")
	k.LatMax = pick(r, 1, 50, 1500, 4000)
	k.Deaf = 0
	k.P404 = pick(r, 0, .2)
	if hosts > 0 {
		k.Hosts, k.Pages, k.MaxLinks = hosts, 3*hosts, 6
		k.P404, k.Matcher, k.Concurrency, k.LatMax = 0, "none", 0, pick(r, 1, 1500)
	}
	s := newSim(c, k)
	for _, p := range s.pages {
		if chance(r, .1) {
			p.script = append(p.script, pick(r, 503, errTemp))
		}
	}
	cancelAt := time.Duration(-1)
	if hosts == 0 && chance(r, .25) {
		cancelAt = time.Duration(r.Intn(6000))*time.Millisecond + 333*time.Microsecond
	}
	var o outcome
	cancelled := false
	c.Bubble(func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if cancelAt >= 0 {
			t := time.AfterFunc(cancelAt, cancel)
			defer t.Stop()
		}
		o = s.crawl(ctx)
		cancelled = ctx.Err() != nil
	})
	bad := func(key, f string, a ...any) {
		s.history()
		c.Violate(key, f, a...)
	}
	if c.Bad() {
		s.history()
		return
	}
	if cancelled {
		if !errors.Is(o.err, context.Canceled) {
			bad("error", "the crawl was cancelled, Run returned %v", o.err)
			return
		}
		if o.at != cancelAt {
			bad("late", "the crawl was cancelled at %v, Run returned at %v", cancelAt, o.at)
			return
		}
		c.Count("cancelled crawls", 1)
	} else if o.err != nil {
		bad("error", "Run of a fault-free crawl returned %v", o.err)
		return
	}
	type visit struct {
		at   time.Duration
		page int
	}
	byHost := map[string][]visit{}
	seen := map[int]bool{}
	queued := map[int]time.Duration{}
	limited := map[int]time.Duration{}
	answered := map[string]time.Duration{}
	for _, e := range s.ev {
		switch e.kind {
		case "enqueued":
			queued[e.page] = e.at
		case "limit.":
			limited[e.page] = e.at
		case "robots-answer":
			if _, dup := answered[e.info]; !dup {
				answered[e.info] = e.at
			}
		case "fetch":
			if !seen[e.page] {
				seen[e.page] = true
				h := s.pages[e.page].u.hostport()
				byHost[h] = append(byHost[h], visit{e.at, e.page})
			}
		}
	}
	for h, vs := range byHost {
		d := s.delay(h)
		if d == 0 {
			for _, v := range vs {
				if at, ok := limited[v.page]; ok && k.Limiter != "none" && at != v.at {
					bad("held-up", "page %d of %s, which has no crawl delay, passed the limiter at %v but was requested at %v", v.page, h, at, v.at)
					return
				}
			}
			c.Count("requests to hosts without delay", len(vs))
			continue
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].at < vs[j].at })
		for i, v := range vs {
			if v.at < answered[h]+d {
				bad("too-soon", "page %d of %s was requested at %v, robots.txt (crawl delay %v) arrived at %v", v.page, h, v.at, d, answered[h])
				return
			}
			if v.at < queued[v.page]+d {
				bad("too-soon", "page %d of %s was requested at %v, it was enqueued at %v and the crawl delay is %v", v.page, h, v.at, queued[v.page], d)
				return
			}
			if i > 0 && v.at-vs[i-1].at < d {
				bad("too-close", "pages %d and %d of %s were requested %v apart (%v, %v), the crawl delay is %v", vs[i-1].page, v.page, h, v.at-vs[i-1].at, vs[i-1].at, v.at, d)
				return
			}
			if i > 0 {
				c.Count("spaced pairs of requests", 1)
				if v.at-vs[i-1].at == d {
					c.Count("pairs exactly the delay apart", 1)
				}
			}
		}
	}
	if len(byHost) > 1 {
		c.Count("crawls of several hosts", 1)
	}
	if len(byHost) > 1000 {
		c.Count("crawls of more than 1000 hosts", 1)
	}
	c.Sig(s.k.String(), s.order(), cancelAt)
	if c.N < 8 {
		c.Sample(map[string]any{"config": s.k.String(), "hosts": len(byHost), "returned": o.at.String(), "cancelled": cancelled})
	}
}

func TestC04(t *testing.T) {
	Run(t, "C04", W{"slots", 4000, 100000, slotsCase}, W{"wide", 40, 1000, wideCase})
}
func TestC05(t *testing.T) {
	Run(t, "C05", W{"robots", 5000, 120000, robotsCase}, W{"many", 4, 60, robotsManyCase})
}
func TestC06(t *testing.T) {
	Run(t, "C06", W{"delay", 4000, 100000, delayCase}, W{"many", 4, 60, delayManyCase})
}
