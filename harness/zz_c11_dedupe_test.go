package zzverif

import (
	"context"
	"fmt"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/yields/ant"
)

// dedupeCase: many goroutines de-duplicate overlapping batches at once.
func dedupeCase(c *C) {
	r := c.Rng
	bf := chance(r, .5)
	nurls := 1 + r.Intn(pick(r, 3, 40, 400))
	workers := 1 + r.Intn(8)
	var d ant.Deduper
	kind := "map"
	if bf {
		kind = pick(r, "bf", "bf tight")
		if kind == "bf" {
			d = ant.DedupeBF(2000000, 5)
		} else {
			d = ant.DedupeBF(uint(24*nurls+64), 5)
		}
	} else {
		d = ant.DedupeMap()
	}
	names := make([]string, nurls)
	long := ""
	if chance(r, .1) { // that agree on much of what they begin with
		long = strings.Repeat("long/", pick(r, 30, 60, 300, 1000))
	}
	for i := range names {
		// Close relatives, differing in one part only, are distinct URLs.
		names[i] = fmt.Sprintf("%s://%s/%s%d%s", pick(r, "http", "https"), pick(r, "a", "b.example", "h", "h:8080", "u@h:8080"), long, i/8, pick(r, "", "/", "?q=1", "?q=2", "?Q=1", "/x", "/X", "/%2f", "//", "#f"))
	}
	// Few goroutines work on the same names in the same order, so that their
	// look-ups of one URL collide.
	type call struct {
		in, orig, out ant.URLs
		err           error
	}
	calls := make([][]*call, workers)
	same := chance(r, .5)
	var shared [][]int
	for k := 0; k < 1+r.Intn(4); k++ {
		var idx []int
		for i := 0; i < r.Intn(pick(r, 4, 30, 200)); i++ {
			idx = append(idx, r.Intn(nurls))
		}
		shared = append(shared, idx)
	}
	wanted := map[string]bool{}
	for w := range calls {
		batches := shared
		if !same {
			batches = nil
			for k := 0; k < 1+r.Intn(4); k++ {
				var idx []int
				for i := 0; i < r.Intn(pick(r, 4, 30, 200)); i++ {
					idx = append(idx, r.Intn(nurls))
				}
				batches = append(batches, idx)
			}
		}
		for _, idx := range batches {
			cl := &call{}
			for _, i := range idx {
				cl.in = append(cl.in, mkURL(names[i]))
				wanted[mkURL(names[i]).String()] = true
			}
			cl.orig = append(ant.URLs(nil), cl.in...)
			calls[w] = append(calls[w], cl)
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := range calls {
		wg.Add(1)
		yield := chance(r, .3)
		go func() {
			defer wg.Done()
			<-start
			for _, cl := range calls[w] {
				cl.out, cl.err = d.Dedupe(context.Background(), cl.in)
				if yield {
					runtime.Gosched()
				}
			}
		}()
	}
	close(start)
	wg.Wait()

	got := map[string]int{}
	n := 0
	for w := range calls {
		for _, cl := range calls[w] {
			c.Count("dedupe calls", 1)
			if cl.err != nil {
				c.Violate("error", "%s: Dedupe failed: %v", kind, cl.err)
				return
			}
			if len(cl.in) != len(cl.orig) {
				c.Violate("input", "%s: the input slice was changed", kind)
				return
			}
			// The result is a subsequence of the batch.
			j := 0
			for _, u := range cl.out {
				for j < len(cl.orig) && cl.orig[j] != u {
					j++
				}
				if j == len(cl.orig) {
					c.Violate("order", "%s: %v is not a subsequence of its batch %v", kind, cl.out, cl.orig)
					return
				}
				j++
				got[u.String()]++
				n++
			}
			// It is a new slice: writing to it leaves the input alone.
			for i := range cl.out {
				cl.out[i] = nil
			}
			for i := range cl.in {
				if cl.in[i] != cl.orig[i] {
					c.Violate("input", "%s: the input slice was changed or is shared with the result", kind)
					return
				}
			}
		}
	}
	c.Count("urls passed "+kind, n)
	missing := 0
	for u := range wanted {
		if got[u] > 1 {
			c.Violate("duplicate", "%s: %q was let through %d times (%d goroutines)", kind, u, got[u], workers)
			return
		}
		if got[u] == 0 {
			missing++
			if !bf {
				c.Violate("lost", "map: %q was never let through", u)
				return
			}
		}
	}
	limit := 0
	switch kind {
	case "bf":
		limit = len(wanted) / 200
	case "bf tight":
		limit = 2 + len(wanted)/25
	}
	c.Max("max false positives "+kind, missing)
	if missing > limit {
		c.Violate("lost", "%s: %d of %d URLs were never let through (at most %d false positives are credible)", kind, missing, len(wanted), limit)
		return
	}
	if workers > 1 && len(wanted) > 0 {
		c.Count("contended cases", 1)
	}
	c.Sig(kind, workers, names, len(wanted), n)
	if c.N < 3 {
		c.Sample(map[string]any{"deduper": kind, "goroutines": workers, "distinct urls": len(wanted), "let through": n})
	}
}

// manyCase: so many URLs that a short digest of them would collide.
func manyCase(c *C) {
	d, kind := ant.DedupeMap(), "map"
	total := 200000 + c.Rng.Intn(100000)
	if c.N%4 == 3 {
		d, kind = ant.DedupeBF(20000000, 5), "bf"
	}
	names := make([]string, total)
	for i := range names {
		names[i] = fmt.Sprintf("/%016x/%d", c.Rng.Uint64(), i)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	passed := make([]uint8, total)
	for g := 0; g < 4; g++ {
		var perm []int
		for i := g * total / 4; i < (g+1)*total/4; i++ {
			perm = append(perm, i)
		}
		perm = append(perm, c.Rng.Perm(total)[:total/10]...)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for len(perm) > 0 {
				n := min(len(perm), 5000)
				batch, at := make(ant.URLs, n), map[*url.URL]int{}
				for i := range batch {
					batch[i] = &url.URL{Scheme: "http", Host: "many.example", Path: names[perm[i]]}
					at[batch[i]] = perm[i]
				}
				perm = perm[n:]
				out, err := d.Dedupe(context.Background(), batch)
				mu.Lock()
				if err != nil {
					c.Violate("error", "%s: Dedupe failed: %v", kind, err)
				}
				for _, u := range out {
					passed[at[u]]++
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	lost := 0
	for i, n := range passed {
		switch {
		case n > 1:
			c.Violate("duplicate", "%s: URL %d of %d was let through %d times", kind, i, total, n)
			return
		case n == 0 && kind == "map":
			c.Violate("lost", "map: URL %d of %d was never let through", i, total)
			return
		case n == 0:
			lost++
		}
	}
	if lost > total/200 {
		c.Violate("lost", "bf: %d of %d URLs were never let through", lost, total)
		return
	}
	c.Count("URLs of big crawls", total)
	c.Sig("many", kind, total)
}

func TestC11(t *testing.T) {
	Run(t, "C11", W{"dedupe", 2000, 60000, dedupeCase}, W{"many", 8, 200, manyCase})
}
