package zzverif

import (
	"context"
	"errors"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/yields/ant"
)

// crawlCase: a fault-free crawl of a random site; the event log must show
// every reachable page once and nothing else.
func crawlCase(c *C) { crawlWith(c, genCfg(c.Rng)) }

// largeCrawlCase: more pages, and hubs with many links.
func largeCrawlCase(c *C) {
	k := genCfg(c.Rng)
	k.Pages = 60 + c.Rng.Intn(240)
	k.MaxLinks = pick(c.Rng, 3, 40, 200)
	k.HTML = chance(c.Rng, .5)
	if chance(c.Rng, .4) {
		k.Flat = pick(c.Rng, "hub", "hub", "start")
		k.Pages = pick(c.Rng, 70, 140, 300, 700, 1300)
		c.Count("long lists of links", 1)
	}
	crawlWith(c, k)
}

func crawlWith(c *C, k simCfg) {
	s := newSim(c, k)
	s.plain = chance(c.Rng, .15)
	var o outcome
	c.Bubble(func() { o = s.crawl(context.Background()) })
	bad := func(key, f string, a ...any) {
		s.history()
		c.Violate(key, f, a...)
	}
	if c.Bad() {
		s.history()
		return
	}
	if o.err != nil {
		bad("error", "Run of a fault-free crawl returned %v", o.err)
		return
	}
	if len(s.odd) > 0 {
		bad("stray", "%v", s.odd)
		return
	}
	fetch, scrape := s.reachable()
	got := s.counts("fetch")
	sc := s.counts("scrape")
	for i, p := range s.pages {
		want, wants := 0, 0
		if fetch[i] {
			want = 1
		}
		if scrape[i] {
			wants = 1
		}
		switch {
		case got[i] < want:
			bad("missed", "reachable page %d (%s) was never fetched (%s)", i, p.u.spell(nil), s.k)
			return
		case want == 0 && got[i] > 0:
			bad("unreachable", "page %d (%s) is not to be visited but was fetched", i, p.u.spell(nil))
			return
		case got[i] > 1:
			bad("twice", "page %d (%s) was fetched %d times", i, p.u.spell(nil), got[i])
			return
		case sc[i] != wants:
			bad("scrapes", "page %d (%s) was scraped %d times, expected %d", i, p.u.spell(nil), sc[i], wants)
			return
		}
	}
	c.Count("pages fetched", len(fetch))
	c.Count("pages kept out", len(s.pages)-len(fetch))
	c.Max("max pages of a crawl", len(fetch))
	if s.k.Workers > 1 {
		c.Count("crawls with several workers", 1)
	}
	if len(fetch) > 1 {
		c.Sig(s.k.String(), s.order())
	}
	if c.N < 3 {
		c.Sample(map[string]any{"config": s.k.String(), "start": s.raws, "fetched": len(fetch), "not visited": len(s.pages) - len(fetch)})
	}
}

// outsideCase: URLs are enqueued from outside while the crawl runs.  A fraction
// of a millisecond of its own keeps each call apart from everything the crawl
// does before, so that it is known whether the crawl was under way; or else the
// calls coincide with it.
func outsideCase(c *C) {
	r := c.Rng
	k := genCfg(r)
	k.DedupeLat, k.Zero = 0, false
	k.Robots = pick(r, "impolite", "impolite", "none", "rules")
	apart := chance(r, .5)
	if !apart {
		k.LatMax, k.Pages = pick(r, 1, 1, 2, 4), 2+r.Intn(8)
		k.RobotsLat = r.Intn(2)
	}
	s := newSim(c, k)
	if !apart && chance(r, .5) {
		s.k.Queue = "wrapped"
		s.waitLat = time.Duration(1+r.Intn(3)) * time.Millisecond
	}
	type call struct {
		at    time.Duration
		pages []int
		raws  []string
		err   error
		alive bool
	}
	var calls [][]*call
	nth := 0
	for g := 1 + r.Intn(4); g > 0; g-- {
		var l []*call
		var at time.Duration
		for n := 1 + r.Intn(5); n > 0; n-- {
			x := &call{}
			at += time.Duration(1+r.Intn(pick(r, 3, 3, 40))) * time.Millisecond
			x.at = at
			if apart {
				nth++
				x.at -= time.Duration(nth) * 20 * time.Microsecond
			}
			for m := 1 + r.Intn(3); m > 0; m-- {
				i := r.Intn(len(s.pages))
				x.pages = append(x.pages, i)
				x.raws = append(x.raws, s.pages[i].u.spell(r))
			}
			l = append(l, x)
		}
		calls = append(calls, l)
	}
	var o outcome
	c.Bubble(func() {
		var wg sync.WaitGroup
		s.meanwhile = func(eng *ant.Engine) {
			for _, l := range calls {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, x := range l {
						time.Sleep(x.at - s.now())
						x.err = eng.Enqueue(context.Background(), x.raws...)
					}
				}()
			}
		}
		o = s.crawl(context.Background())
		wg.Wait()
	})
	bad := func(key, f string, a ...any) {
		for g, l := range calls {
			for _, x := range l {
				s.c.Logf("goroutine %d: at %v Enqueue(%q) = %v, crawl under way: %v", g, x.at, x.raws, x.err, x.alive)
			}
		}
		s.history()
		c.Violate(key, f, a...)
	}
	if c.Bad() {
		s.history()
		return
	}
	if o.err != nil {
		bad("outside-error", "Run returned %v, nothing failed but URLs were enqueued meanwhile", o.err)
		return
	}
	if len(s.odd) > 0 {
		bad("stray", "%v", s.odd)
		return
	}
	// A call at the very instant when a page ends may come after the crawl was
	// found to be over and before the queue is closed; its URL is processed and
	// later ones are refused.
	tied := func(at time.Duration) bool {
		for _, l := range calls {
			for _, y := range l {
				for _, sp := range s.spans {
					if !apart && y.at <= at && sp.end == y.at {
						return true
					}
				}
			}
		}
		return false
	}
	start, most := s.start, s.start
	n := 0
	for _, l := range calls {
		for _, x := range l {
			for _, sp := range s.spans {
				x.alive = x.alive || sp.start < x.at && sp.end > x.at
			}
			most = append(most[:len(most):len(most)], x.pages...)
			switch {
			case x.alive && x.err != nil && s.waitLat == 0 && !tied(x.at):
				bad("refused", "Enqueue at %v returned %v, the crawl was under way", x.at, x.err)
				return
			case x.err != nil && !errors.Is(x.err, io.EOF):
				bad("refused", "Enqueue at %v returned %v", x.at, x.err)
				return
			case x.alive:
				start = append(start[:len(start):len(start)], x.pages...)
				n++
			}
		}
	}
	s.start = most
	may, _ := s.reachable()
	s.start = start
	must, _ := s.reachable()
	got := s.counts("fetch")
	for i, p := range s.pages {
		switch {
		case got[i] > 1:
			bad("twice", "page %d (%s) was fetched %d times", i, p.u.spell(nil), got[i])
			return
		case got[i] > 0 && !may[i]:
			bad("unreachable", "page %d (%s) is not to be visited but was fetched", i, p.u.spell(nil))
			return
		case got[i] == 0 && must[i] && apart:
			bad("missed", "page %d (%s) was never fetched; some of the URLs were enqueued while the crawl was under way", i, p.u.spell(nil))
			return
		}
	}
	c.Count("enqueued from outside", n)
	c.Count("pages fetched", len(got))
	c.Sig(s.k.String(), s.order(), n)
}

func TestC01(t *testing.T) {
	Run(t, "C01", W{"crawl", 6000, 150000, crawlCase}, W{"large", 160, 4000, largeCrawlCase},
		W{"outside", 3000, 100000, outsideCase})
}
