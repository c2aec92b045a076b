package zzverif

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/antcache"
	"github.com/yields/ant/antcdp"
	"github.com/yields/ant/internal/normalize"
	"github.com/yields/ant/internal/robots"
	"github.com/yields/ant/internal/scan"
	"github.com/yields/ant/internal/selectors"
	"golang.org/x/net/html"
)

// The deciding monitor of C30 is the race detector (and the runtime's own
// checks of maps and wait groups).  Goroutines share nothing but the component:
// no locks, atomics or channels of the harness order their calls, which would
// hide races.  What they were answered is compared after they have all ended.

// par starts n goroutines at the same moment and waits for them.
func (c *C) par(n int, f func(g int, p *prng)) {
	var wg sync.WaitGroup
	var arrived atomic.Int32
	for g := 0; g < n; g++ {
		p := &prng{c.Rng.Int63()}
		wg.Add(1)
		go func() {
			defer wg.Done()
			arrived.Add(1)
			for int(arrived.Load()) < n {
				runtime.Gosched()
			}
			c.guard(func() { f(g, p) })
		}()
	}
	wg.Wait()
	c.Count("goroutines", n)
}

// jitter lets others run for a moment, or not.
func (p *prng) jitter() {
	switch p.intn(12) {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for i := p.intn(2000); i > 0; i-- {
			p.next()
		}
	case 3:
		if p.intn(6) == 0 {
			time.Sleep(time.Duration(p.intn(50)) * time.Microsecond)
		}
	}
}

func (p *prng) pick(xs ...string) string { return xs[p.intn(len(xs))] }

var bg = context.Background()

// oddities collects what one goroutine found odd.
type oddities []string

func (o *oddities) add(f string, a ...any) {
	if len(*o) < 5 {
		*o = append(*o, fmt.Sprintf(f, a...))
	}
}

func (c *C) judgeOdd(key string, all []oddities) {
	for g, o := range all {
		for _, s := range o {
			c.Violate(key, "goroutine %d: %s", g, s)
			return
		}
	}
}

// ---- queue -----------------------------------------------------------------------------

func raceQueueCase(c *C) {
	r := c.Rng
	q := ant.MemoryQueue(pick(r, 0, 1, 8, 100))
	producers, consumers, waiters, closers := 1+r.Intn(4), 1+r.Intn(4), r.Intn(4), pick(r, 0, 0, 1, 3)
	batches, waits := 1+r.Intn(60), 1+r.Intn(200)
	closeAfter := r.Intn(3000)
	total := producers + consumers + waiters + closers
	got := make([][]string, total)
	put := make([][]string, total)
	odd := make([]oddities, total)
	var left sync.WaitGroup
	left.Add(producers)
	var mine sync.WaitGroup // everything that was accepted is acknowledged
	early := closers > 0
	if !early {
		mine.Add(1)
		go func() {
			defer mine.Done()
			left.Wait()
			q.Wait()
			q.Close(bg)
		}()
	}
	c.par(total, func(g int, p *prng) {
		switch {
		case g < producers:
			defer left.Done()
			for i := 0; i < batches; i++ {
				var us ant.URLs
				for j := p.intn(4); j > 0; j-- {
					us = append(us, &url.URL{Scheme: "http", Host: "q.test", Path: fmt.Sprintf("/%d/%d/%d", g, i, j)})
				}
				err := q.Enqueue(bg, us)
				switch {
				case err == nil:
					for _, u := range us {
						put[g] = append(put[g], u.Path)
					}
				case !errors.Is(err, io.EOF) || !early:
					odd[g].add("Enqueue: %v", err)
				}
				p.jitter()
			}
		case g < producers+consumers:
			for {
				u, err := q.Dequeue(bg)
				if err != nil {
					if !errors.Is(err, io.EOF) {
						odd[g].add("Dequeue: %v", err)
					}
					return
				}
				got[g] = append(got[g], u.Path)
				p.jitter()
				if err := q.Done(bg, u); err != nil {
					odd[g].add("Done: %v", err)
				}
			}
		case g < producers+consumers+waiters:
			for i := 0; i < waits; i++ {
				q.Wait()
				p.jitter()
			}
		default:
			for i := 0; i < closeAfter; i++ {
				p.next()
			}
			p.jitter()
			if err := q.Close(bg); err != nil {
				odd[g].add("Close: %v", err)
			}
		}
	})
	mine.Wait()
	c.judgeOdd("answers", odd)
	seen, sent := map[string]bool{}, map[string]bool{}
	for _, l := range put {
		for _, s := range l {
			sent[s] = true
		}
	}
	for _, l := range got {
		for _, s := range l {
			if seen[s] {
				c.Violate("queue", "%s was dequeued twice", s)
			}
			if !sent[s] {
				c.Violate("queue", "%s was dequeued, it was not accepted", s)
			}
			seen[s] = true
		}
	}
	if !early && len(seen) != len(sent) {
		c.Violate("queue", "%d URLs were accepted, %d dequeued", len(sent), len(seen))
	}
	c.Count("queue operations", len(sent)+2*len(seen)+waiters*waits)
	c.Sig(producers, consumers, waiters, closers, len(seen), len(sent), c.N)
}

// ---- dedupers, limiters, matchers, normalizer --------------------------------------------

func raceDedupeCase(c *C) {
	r := c.Rng
	bloom := chance(r, .5)
	d := ant.DedupeMap()
	if bloom {
		d = ant.DedupeBF(1<<16, 5)
	}
	g, n, space := 2+r.Intn(8), 5+r.Intn(40), 20+r.Intn(400)
	shared := make(ant.URLs, 10) // batches may be the same slice
	for i := range shared {
		shared[i] = mkURL(fmt.Sprintf("http://shared.test/%d", i))
	}
	fresh := make([][]string, g)
	offered := make([]map[string]bool, g)
	c.par(g, func(g int, p *prng) {
		offered[g] = map[string]bool{}
		for i := 0; i < n; i++ {
			us := shared
			if p.intn(5) > 0 {
				us = nil
				for j := p.intn(6); j > 0; j-- {
					us = append(us, &url.URL{Scheme: "http", Host: "d.test", Path: "/p", RawQuery: fmt.Sprint(p.intn(space))})
				}
			}
			out, err := d.Dedupe(bg, us)
			if err != nil {
				panic(err)
			}
			for _, u := range us {
				offered[g][u.String()] = true
			}
			for j, u := range out {
				fresh[g] = append(fresh[g], u.String())
				out[j] = nil // the slice is new
			}
			p.jitter()
		}
	})
	seen := map[string]bool{}
	for _, l := range fresh {
		for _, s := range l {
			if seen[s] {
				c.Violate("dedupe", "%s was let through twice", s)
			}
			seen[s] = true
		}
	}
	all := map[string]bool{}
	for _, m := range offered {
		for s := range m {
			all[s] = true
		}
	}
	if miss := len(all) - len(seen); miss > 0 && (!bloom || miss > len(all)/3+2) {
		c.Violate("dedupe", "%d of %d URLs were never let through", miss, len(all))
	}
	c.Count("dedupe calls", g*n)
	c.Sig(bloom, g, n, len(seen), c.N)
}

func raceLimitCase(c *C) {
	r := c.Rng
	host := "one.test"
	ls := []ant.Limiter{
		ant.Limit(1 << 30), ant.LimitHostname(1<<30, host), ant.LimitPattern(1<<30, "one.test/*"), ant.LimitRegexp(1<<30, `^one\.test/(a|b)+$`),
	}
	type m struct {
		what string
		m    ant.Matcher
		want func(u *url.URL) bool
	}
	ms := []m{
		{"hostname", ant.MatchHostname(host), func(u *url.URL) bool { return u.Host == host }},
		{"pattern", ant.MatchPattern("one.test/a*"), func(u *url.URL) bool { return u.Host == host && strings.HasPrefix(u.Path, "/a") }},
		{"regexp", ant.MatchRegexp(`^one\.test/(a|b)+$`), func(u *url.URL) bool {
			return u.Host == host && len(u.Path) > 1 && strings.Trim(u.Path, "ab") == "/"
		}},
	}
	dead, cancel := context.WithCancel(bg)
	cancel()
	g, n := 2+r.Intn(8), 20+r.Intn(80)
	odd := make([]oddities, g)
	shared := mkURL("http://one.test/aab")
	c.par(g, func(g int, p *prng) {
		for i := 0; i < n; i++ {
			u := shared
			if p.intn(3) > 0 {
				u = &url.URL{Scheme: "http", Host: p.pick("one.test", "two.test", "one.test:80"), Path: p.pick("/", "/a", "/ab", "/abba", "/c", "/abc")}
			}
			x := ms[p.intn(len(ms))]
			if got, want := x.m.Match(u), x.want(u); got != want {
				odd[g].add("%s matcher answers %v for %s", x.what, got, u)
			}
			l := p.intn(len(ls))
			if err := ls[l].Limit(bg, u); err != nil {
				odd[g].add("limiter %d: %v for %s", l, err, u)
			}
			if p.intn(10) == 0 {
				if err := ls[0].Limit(dead, u); err == nil {
					odd[g].add("limiter answers nil, the context is cancelled")
				}
			}
			if v := *u; normalize.URL(&v).String() != u.String() && u == shared {
				odd[g].add("%s normalized is %s", u, &v)
			}
			p.jitter()
		}
	})
	c.judgeOdd("answers", odd)
	c.Count("limiter and matcher calls", 2*g*n)
	c.Sig(g, n, c.N)
}

// ---- robots cache ----------------------------------------------------------------------

func raceRobotsCase(c *C) {
	r := c.Rng
	hosts := 1 + r.Intn(6)
	rt := roundTripper(func(req *http.Request) (*http.Response, error) {
		body := "User-agent: *\nDisallow: /no/\nAllow: /no/but\nUser-agent: slow\nCrawl-delay: 0.0001\n"
		code := 200
		if strings.HasPrefix(req.URL.Host, "h1.") {
			code = 404
		}
		runtime.Gosched()
		return &http.Response{StatusCode: code, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: req, Body: io.NopCloser(strings.NewReader(body))}, nil
	})
	cache := robots.NewCache(&http.Client{Transport: rt}, pick(r, 1, 2, 1000))
	g, n := 2+r.Intn(8), 10+r.Intn(40)
	odd := make([]oddities, g)
	c.par(g, func(g int, p *prng) {
		for i := 0; i < n; i++ {
			h := p.intn(hosts)
			path := p.pick("/", "/no/x", "/no/but/y", "/a")
			q := robots.Request{URL: &url.URL{Scheme: "http", Host: fmt.Sprintf("h%d.test", h), Path: path}, UserAgent: p.pick("ant", "slow", "")}
			if p.intn(2) == 0 {
				ok, err := cache.Allowed(bg, q)
				if want := path != "/no/x" || h == 1 || q.UserAgent == "slow"; err != nil || ok != want {
					odd[g].add("Allowed(%s, %q) = %v, %v", q.URL, q.UserAgent, ok, err)
				}
			} else if err := cache.Wait(bg, q); err != nil {
				odd[g].add("Wait(%s): %v", q.URL, err)
			}
			p.jitter()
		}
	})
	c.judgeOdd("answers", odd)
	c.Count("robots calls", g*n)
	c.Sig(hosts, g, n, c.N)
}

// ---- pages, scanner, selectors, JSON ------------------------------------------------------

// freshType is a struct type no scanner has seen.
func freshType(r *rand.Rand) reflect.Type {
	var fs []reflect.StructField
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		t := pick(r, reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf([]string{}), reflect.TypeOf(struct {
			K string `css:"b"`
		}{}))
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t, Tag: reflect.StructTag(fmt.Sprintf(`css:"%s" json:"f%d_%d"`, pick(r, "a", "b", "a@href", "li > b", "title"), i, r.Int63()))})
	}
	return reflect.StructOf(fs)
}

func racePageCase(c *C) {
	r := c.Rng
	doc := genDoc(r)
	ref := parseRef(doc)
	srv := &pageServer{docs: map[string]string{"http://site.test/p": doc}, slow: chance(r, .3), fail: map[string]int{}}
	broken := chance(r, .15)
	if broken {
		srv.fail["http://site.test/p"] = len(doc) / 2
	}
	pg, err := srv.page("http://site.test/p")
	if err != nil {
		panic(err)
	}
	var want bytes.Buffer
	html.Render(&want, ref.root)
	g, n := 2+r.Intn(7), 3+r.Intn(12)
	var types []reflect.Type
	for i := 0; i < 3; i++ {
		types = append(types, freshType(r))
	}
	sels := []string{"a[href]", "div a", "p, li"}
	for i := 0; i < 3; i++ { // never compiled before
		sels = append(sels, fmt.Sprintf("%s, x%d", genSel(r), r.Int63()))
	}
	sels = append(sels, "[[")
	odd := make([]oddities, g)
	out := make([][]string, g) // operation, answer
	note := func(g int, op string, f string, a ...any) { out[g] = append(out[g], op, fmt.Sprintf(f, a...)) }
	var list ant.List
	if chance(r, .5) && !broken { // a shared list
		list = pg.Query("*")
	}
	c.par(g, func(g int, p *prng) {
		for i := 0; i < n; i++ {
			s := sels[p.intn(len(sels))]
			switch p.intn(9) {
			case 0:
				h, err := pg.HTML()
				if !broken && (err != nil || h != want.String()) {
					odd[g].add("HTML: %d bytes, %v; the page renders to %d", len(h), err, want.Len())
				}
				note(g, "html", "%v %s", err != nil, h)
			case 1:
				root, err := pg.Document()
				note(g, "document", "%p %v", root, err != nil)
			case 2:
				l := pg.Query(s)
				note(g, "query "+s, "%p %d %v", l, len(l), l)
				if !broken && len(l) != len(refSelect(ref.root, s)) {
					odd[g].add("Query(%s): %d nodes", s, len(l))
				}
				out[g] = out[g][:len(out[g])-2]
			case 3:
				note(g, "text "+s, "%q", pg.Text(s))
			case 4:
				note(g, "urls", "%q", urlStrings(pg.URLs()))
			case 5:
				us, err := pg.Next(s)
				note(g, "next "+s, "%q %v", urlStrings(us), err)
			case 6:
				t := types[p.intn(len(types))]
				v := reflect.New(t)
				err := pg.Scan(v.Interface())
				note(g, "scan "+t.String(), "%v %v", v.Elem().Interface(), err != nil)
			case 7:
				note(g, "sub "+s, "%d %v", len(list.Query(s)), list.Is(s))
			case 8:
				h, ok := list.At(p.intn(3) - 1).Attr("href")
				_, _ = h, ok
			}
			p.jitter()
		}
	})
	c.judgeOdd("answers", odd)
	first := map[string]string{}
	for _, l := range out {
		for i := 0; i < len(l); i += 2 {
			if was, ok := first[l[i]]; ok && was != l[i+1] {
				c.Violate("answers", "%s answers %.300s, then %.300s (broken page %v)", l[i], was, l[i+1], broken)
			}
			first[l[i]] = l[i+1]
		}
	}
	c.Count("page calls", g*n)
	c.Sig(doc, g, n)
}

func raceScanCase(c *C) {
	r := c.Rng
	sc := scan.NewScanner()
	cache := selectors.NewCache()
	var types []reflect.Type
	for i := 0; i < 4; i++ {
		types = append(types, freshType(r))
	}
	bad := reflect.StructOf([]reflect.StructField{{Name: "C", Type: reflect.TypeOf(make(chan int)), Tag: reflect.StructTag(fmt.Sprintf(`css:"a" json:"%d"`, r.Int63()))}})
	root := parseRef(genDoc(r)).root
	g, n := 2+r.Intn(7), 5+r.Intn(20)
	odd := make([]oddities, g)
	vals := make([][]string, g)
	c.par(g, func(g int, p *prng) {
		vals[g] = make([]string, len(types))
		for i := 0; i < n; i++ {
			switch p.intn(5) {
			case 0:
				s := p.pick("a", "b > c", "p:nth-child(2)", "x", "li, a")
				if _, err := cache.Compile(s); err != nil {
					odd[g].add("Compile(%s): %v", s, err)
				}
				if _, err := cache.Compile("]["); err == nil {
					odd[g].add("an invalid selector compiles")
				}
			case 1:
				if err := sc.Scan(reflect.New(bad).Interface(), root, scan.Options{}); err == nil {
					odd[g].add("a channel was scanned")
				}
			default:
				k := p.intn(len(types))
				v := reflect.New(types[k])
				err := sc.Scan(v.Interface(), root, scan.Options{})
				s := fmt.Sprintf("%v %v", v.Elem().Interface(), err)
				if vals[g][k] != "" && vals[g][k] != s {
					odd[g].add("%v scans as %.200s, then %.200s", types[k], vals[g][k], s)
				}
				vals[g][k] = s
			}
			p.jitter()
		}
	})
	c.judgeOdd("answers", odd)
	for k := range types {
		was := ""
		for g := range vals {
			if s := vals[g][k]; s != "" && was != "" && s != was {
				c.Violate("answers", "%v scans as %.200s, and as %.200s", types[k], was, s)
			} else if s != "" {
				was = s
			}
		}
	}
	c.Count("scans", g*n)
	c.Sig(fmt.Sprint(types), g, n)
}

// bareWriter has no lock: the scraper has to serialise the writes.
type bareWriter struct {
	buf bytes.Buffer
	p   prng
}

func (w *bareWriter) Write(b []byte) (int, error) {
	for i := range b {
		w.buf.WriteByte(b[i])
		if i%50 == 0 {
			w.p.jitter()
		}
	}
	return len(b), nil
}

func raceJSONCase(c *C) {
	r := c.Rng
	w := &bareWriter{p: prng{r.Int63()}}
	var sels []string
	if chance(r, .5) {
		sels = []string{"a.next", "a.prev"}
	}
	var sc ant.Scraper
	if chance(r, .5) {
		sc = ant.JSON(w, jsonType{}, sels...)
	} else {
		sc = ant.JSON(w, &jsonType{}, sels...)
	}
	srv := &pageServer{docs: map[string]string{}}
	g, n := 2+r.Intn(7), 1+r.Intn(8)
	pages := make([][]*ant.Page, g)
	for i := range pages {
		for j := 0; j < n; j++ {
			u := fmt.Sprintf("http://site.test/%d/%d", i, j)
			srv.docs[u] = jsonDoc(r, fmt.Sprintf("k%d.%d", i, j), false)
			pg, err := srv.page(u)
			if err != nil {
				panic(err)
			}
			pages[i] = append(pages[i], pg)
		}
	}
	odd := make([]oddities, g)
	c.par(g, func(g int, p *prng) {
		for j, pg := range pages[g] {
			us, err := sc.Scrape(bg, pg)
			if err != nil {
				odd[g].add("Scrape: %v", err)
			}
			for _, u := range us {
				if !strings.HasPrefix(u.Path, fmt.Sprintf("/k%d.%d/", g, j)) {
					odd[g].add("page k%d.%d has the link %s", g, j, u)
				}
			}
			p.jitter()
		}
	})
	c.judgeOdd("answers", odd)
	lines := strings.Split(w.buf.String(), "\n")
	seen := map[string]bool{}
	for _, l := range lines[:len(lines)-1] {
		var v jsonType
		if err := json.Unmarshal([]byte(l), &v); err != nil {
			c.Violate("answers", "the line %.300q: %v", l, err)
			return
		}
		seen[v.Key] = true
	}
	if len(seen) != g*n {
		c.Violate("answers", "%d pages were scraped, %d lines written", g*n, len(seen))
	}
	c.Count("lines", len(seen))
	c.Sig(g, n, c.N)
}

// ---- fetcher, HTTP cache, stores -----------------------------------------------------------

// stateless answers by the URL; it shares nothing between requests.
func stateless(req *http.Request) (*http.Response, error) {
	q := req.URL.Query()
	h := http.Header{"X-Key": {req.URL.Path}, "Date": {time.Now().UTC().Format(http.TimeFormat)}}
	for _, k := range []string{"Cache-Control", "Vary", "ETag", "Last-Modified"} {
		if v := q.Get(k); v != "" {
			h.Set(k, v)
		}
	}
	code := 200
	if q.Get("code") != "" {
		code = atoi(q.Get("code"))
	}
	if m := req.Header.Get("If-None-Match"); m != "" && m == h.Get("ETag") {
		return &http.Response{StatusCode: 304, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Request: req, Body: http.NoBody}, nil
	}
	body := strings.Repeat("body of "+req.URL.Path+"\n", 1+len(req.URL.Path)*7)
	return &http.Response{StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Request: req, ContentLength: int64(len(body)), Body: io.NopCloser(strings.NewReader(body))}, nil
}

type doFunc func(*http.Request) (*http.Response, error)

func (f doFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }

func raceCacheCase(c *C) {
	r := c.Rng
	var opts []antcache.Option
	kind := pick(r, "default", "disk", "disk", "custom")
	var finish func()
	switch kind {
	case "disk":
		dir, done := c.storeDir()
		defer done()
		o := []antcache.DiskOption{antcache.SweepEvery(time.Duration(pick(r, 0, 100, 1000)) * time.Microsecond), antcache.Maxsize(pick(r, int64(0), 2000, 100000))}
		if chance(r, .5) {
			o = append(o, antcache.Compress())
		}
		s, err := antcache.Open(dir, o...)
		if err != nil {
			panic(err)
		}
		opts = append(opts, antcache.WithStorage(s))
		finish = func() { s.Close() }
	case "custom":
		opts = append(opts, antcache.WithStorage(&mapStore{m: map[uint64][]byte{}}))
	}
	agg := chance(r, .4)
	if agg {
		opts = append(opts, antcache.Aggressive(pick(r, 0, time.Hour, time.Nanosecond)))
	}
	cl, err := antcache.New(doFunc(stateless), opts...)
	if err != nil {
		panic(err)
	}
	f := &ant.Fetcher{Client: cl, MinBackoff: 1, MaxBackoff: 2, MaxAttempts: 2}
	if chance(r, .5) {
		f.UserAgent = ant.StaticAgent("x")
	}
	keys := 1 + r.Intn(5)
	queries := []string{"", "Cache-Control=max-age%3D100", "Cache-Control=max-age%3D0&ETag=%221%22", "Cache-Control=no-cache&ETag=%221%22", "Vary=X-V&Cache-Control=max-age%3D100", "Cache-Control=no-store", "code=404", "code=503", "Last-Modified=Mon,%2002%20Jan%202006%2015:04:05%20GMT"}
	per := make([]string, keys)
	for i := range per {
		per[i] = fmt.Sprintf("http://cache.test/%d?%s", i, pick(r, queries...))
	}
	g, n := 2+r.Intn(7), 5+r.Intn(25)
	odd := make([]oddities, g)
	c.par(g, func(g int, p *prng) {
		for i := 0; i < n; i++ {
			k := p.intn(keys)
			u := mkURL(per[k])
			want := fmt.Sprintf("/%d", k)
			var body io.Reader
			if p.intn(3) == 0 {
				pg, err := f.Fetch(bg, u)
				if pg == nil {
					if !strings.Contains(per[k], "code=") {
						odd[g].add("Fetch(%s): %v", u, err)
					}
					continue
				}
				if pg.Header.Get("X-Key") != want {
					odd[g].add("Fetch(%s) has the headers of %s", u, pg.Header.Get("X-Key"))
				}
				pg.Header.Set("X-Key", "mine") // the caller's
				body = pg.Body()
			} else {
				req, _ := http.NewRequest(p.pick("GET", "GET", "GET", "HEAD", "POST"), per[k], nil)
				if p.intn(4) == 0 {
					req.Header.Set(p.pick("Cache-Control", "X-V", "If-None-Match", "Pragma"), p.pick("no-cache", "max-stale", `"1"`, "no-store"))
				}
				resp, err := c.resp(cl.Do(req))
				if err != nil {
					odd[g].add("Do(%s): %v", u, err)
					continue
				}
				if resp.Header.Get("X-Key") != want {
					odd[g].add("Do(%s) has the headers of %s", u, resp.Header.Get("X-Key"))
				}
				resp.Header.Set("X-Key", "mine")
				resp.Header["Date"] = append(resp.Header["Date"], "mine")
				body = resp.Body
				if resp.StatusCode == 304 || req.Method == "HEAD" {
					body = nil
					resp.Body.Close()
				}
			}
			p.jitter()
			if body != nil {
				b, err := io.ReadAll(body)
				if err != nil || !strings.HasPrefix(string(b), "body of "+want+"\n") || strings.Count(string(b), want) != strings.Count(string(b), "\n") {
					odd[g].add("%s has the body %.200q, %v", u, b, err)
				}
				for i := range b {
					b[i] = 'x' // the caller's
				}
				if p.intn(6) > 0 {
					if err := body.(io.Closer).Close(); err != nil {
						odd[g].add("%s: Close: %v", u, err)
					}
				}
			}
			p.jitter()
		}
	})
	if finish != nil {
		finish()
	}
	c.judgeOdd("answers", odd)
	c.Count("cached requests", g*n)
	c.Sig(kind, agg, strings.Join(per, " "), g, n)
}

// mapStore keeps the very slices it is given, and hands them out.
type mapStore struct {
	mu sync.RWMutex
	m  map[uint64][]byte
}

func (s *mapStore) Store(_ context.Context, k uint64, v []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[k] = v
	return nil
}

func (s *mapStore) Load(_ context.Context, k uint64) ([]byte, error) {
	s.mu.RLock()
	defer s.mu.RUnlock()
	return s.m[k], nil
}

func raceStoreCase(c *C) {
	r := c.Rng
	dir, done := c.storeDir()
	defer done()
	for i, n := 0, r.Intn(40); i < n; i++ { // something to warm up with
		putFile(dir, uint64(i), bytes.Repeat([]byte{byte(i)}, 1+r.Intn(300)), false, time.Now())
	}
	o := []antcache.DiskOption{antcache.SweepEvery(time.Duration(pick(r, 0, 50, 50, 1000)) * time.Microsecond), antcache.Maxsize(pick(r, int64(0), 500, 100000)), antcache.Maxage(pick(r, 0, time.Millisecond, time.Hour))}
	compress := chance(r, .3)
	if compress {
		o = append(o, antcache.Compress())
	}
	s, err := antcache.Open(dir, o...)
	if err != nil {
		panic(err)
	}
	g, n, keys := 2+r.Intn(7), 5+r.Intn(30), 1+r.Intn(8)
	odd := make([]oddities, g)
	c.par(g, func(g int, p *prng) {
		for i := 0; i < n; i++ {
			k := uint64(1000 + p.intn(keys))
			switch p.intn(6) {
			case 0, 1:
				if err := s.Store(bg, k, bytes.Repeat([]byte{byte(k)}, 1+p.intn(400))); err != nil {
					odd[g].add("Store(%d): %v", k, err)
				}
			case 2, 3:
				v, err := s.Load(bg, k)
				if err != nil || len(bytes.Trim(v, string([]byte{byte(k)}))) > 0 && k < 1128 {
					odd[g].add("Load(%d): %.40q, %v", k, v, err)
				}
				for i := range v {
					v[i] = 0
				}
			case 4:
				if !compress {
					if _, err := s.Load(bg, uint64(p.intn(40))); err != nil {
						odd[g].add("Load of an early entry: %v", err)
					}
				}
			case 5:
				if err := s.Wait(bg); err != nil {
					odd[g].add("Wait: %v", err)
				}
			}
			p.jitter()
		}
	})
	if err := s.Close(); err != nil {
		odd[0].add("Close: %v", err)
	}
	c.judgeOdd("answers", odd)
	c.Count("store operations", g*n)
	c.Sig(g, n, keys, c.N)
}

// ---- the engine ----------------------------------------------------------------------------

// raceEngineCase: crawls in real time, with URLs enqueued from outside
// meanwhile, and engines that share their components.
func raceEngineCase(c *C) {
	r := c.Rng
	pages := 5 + r.Intn(60)
	fan := 1 + r.Intn(5)
	link := func(i int) string { return fmt.Sprintf("http://h%d.test/%d", i%3, i) }
	flaky := chance(r, .3)
	plain := chance(r, .3) // nothing configured
	var tries sync.Map
	serve := func(req *http.Request) (*http.Response, error) {
		resp := &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req}
		var b strings.Builder
		if req.URL.Path == "/robots.txt" {
			b.WriteString("User-agent: *\nDisallow: /secret\nCrawl-delay: 0.00001\n")
		} else {
			i := atoi(strings.TrimPrefix(req.URL.Path, "/"))
			fmt.Fprintf(&b, "<title>%d</title><key>%d</key>", i, i)
			for j := 1; j <= fan; j++ {
				fmt.Fprintf(&b, `<a class="next" href="%s">x</a>`, link((i*fan+j)%pages))
			}
			if flaky && i%7 == 3 {
				if _, again := tries.LoadOrStore(i, 1); !again {
					resp.StatusCode = 503
				}
			}
		}
		runtime.Gosched()
		resp.Body = io.NopCloser(strings.NewReader(b.String()))
		return resp, nil
	}
	engines := pick(r, 1, 1, 2, 3)

	var engs []*ant.Engine
	dedup := pick(r, ant.DedupeMap, func() ant.Deduper { return ant.DedupeBF(1<<16, 6) })
	d := dedup()
	limiter := ant.Limiter(ant.LimitPattern(1<<30, "*"))
	matcher := ant.Matcher(ant.MatchRegexp(`^h\d\.test/`))
	f := &ant.Fetcher{Client: doFunc(serve), MinBackoff: time.Microsecond, MaxBackoff: time.Millisecond}
	if chance(r, .4) {
		f.Client = nil
	}
	if chance(r, .2) {
		f = ant.DefaultFetcher
	}
	was, wasf := ant.DefaultClient, *ant.DefaultFetcher
	ant.DefaultClient = &http.Client{Transport: roundTripper(serve)} // of robots.txt
	ant.DefaultFetcher.Client = ant.DefaultClient
	defer func() { ant.DefaultClient, *ant.DefaultFetcher = was, wasf }()
	w := &bareWriter{p: prng{r.Int63()}}
	js := ant.JSON(w, jsonType{}, "a.next")
	workers, conc := 1+r.Intn(8), pick(r, 0, 1, 3, 20)
	for range engines {
		k := ant.EngineConfig{Scraper: js, Fetcher: f, Deduper: d, Workers: workers, Concurrency: conc, Impolite: chance(r, .4)}
		if plain && engines == 1 {
			k.Deduper, k.Fetcher = nil, nil
		}
		if chance(r, .5) {
			k.Limiter = limiter
		}
		if chance(r, .5) {
			k.Matcher = matcher
		}
		e, err := ant.NewEngine(k)
		if err != nil {
			panic(err)
		}
		engs = append(engs, e)
	}
	cancelled := chance(r, .15)
	outside := r.Intn(4)
	more := 1 + r.Intn(30)
	total := engines + outside
	odd := make([]oddities, total)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	pause := r.Intn(2000)
	accepted := make([][]int, total)
	failedRun := make([]bool, total)
	c.par(total, func(g int, p *prng) {
		if g < engines {
			err := engs[g].Run(ctx, link(0), link(g))
			if err != nil {
				failedRun[g] = true
				if !cancelled {
					odd[g].add("Run: %v", err)
				}
			}
			return
		}
		if cancelled && g == engines {
			for i := 0; i < pause; i++ {
				p.next()
			}
			cancel()
			return
		}
		e := engs[p.intn(len(engs))]
		for i := 0; i < more; i++ {
			x := p.intn(pages)
			err := e.Enqueue(bg, link(x))
			if err == nil {
				accepted[g] = append(accepted[g], x)
			} else if !errors.Is(err, io.EOF) {
				odd[g].add("Enqueue: %v", err)
			}
			p.jitter()
		}
	})
	c.judgeOdd("answers", odd)
	lines := strings.Split(w.buf.String(), "\n")
	seen := map[string]int{}
	for _, l := range lines[:len(lines)-1] {
		var v jsonType
		if err := json.Unmarshal([]byte(l), &v); err != nil {
			c.Violate("answers", "the line %.300q: %v", l, err)
			return
		}
		if seen[v.Key]++; seen[v.Key] > 1 {
			c.Violate("answers", "page %s was scraped twice", v.Key)
		}
	}
	if !cancelled && outside == 0 && len(seen) == 0 {
		c.Violate("answers", "nothing was scraped")
	}
	c.Count("pages crawled", len(seen))
	c.Sig(engines, workers, conc, pages, fan, outside, c.N)
}

// raceCDPCase: the first use of a client, by many at once.
func raceCDPCase(c *C) {
	r := c.Rng
	b := newBrowser(c)
	defer b.close()
	b.inject = func(step, tag string) string { return "" }
	cl := &antcdp.Client{Addr: b.addr}
	g, n := 2+r.Intn(12), 1+r.Intn(3)
	pages := make([][]*cdpPage, g)
	reqs := make([][]*http.Request, g)
	for i := range pages {
		for j := 0; j < n; j++ {
			pg := b.genPage(r, fmt.Sprintf("g%dn%d", i, j))
			pages[i] = append(pages[i], pg)
			reqs[i] = append(reqs[i], pg.request(bg, r))
		}
	}
	c.par(g, func(g int, p *prng) {
		for j, pg := range pages[g] {
			resp, err, stuck := cdpDo(c, cl, reqs[g][j], cdpLimit)
			switch {
			case stuck:
				c.Violate("stuck", "%s: Do does not return", pg.url)
				return
			case err != nil:
				c.Violate("answers", "%s: Do returned %v", pg.url, err)
				return
			}
			pg.judge(c, reqs[g][j], resp, nil)
			resp.Header.Set("X-Mine", "1")
			p.jitter()
		}
	})
	c.Count("pages rendered", g*n)
	c.Sig(g, n, c.N)
}

func TestC30(t *testing.T) {
	if os.Getenv("VERIF_CASE") == "" { // GOMAXPROCS: more threads than cores preempt each other at odd moments
		runtime.GOMAXPROCS(max(4, runtime.NumCPU()/2))
	}
	Run(t, "C30",
		W{"queue", 1500, 60000, raceQueueCase},
		W{"dedupe", 400, 20000, raceDedupeCase},
		W{"limit", 300, 15000, raceLimitCase},
		W{"robots", 400, 20000, raceRobotsCase},
		W{"page", 800, 40000, racePageCase},
		W{"scan", 600, 30000, raceScanCase},
		W{"json", 400, 20000, raceJSONCase},
		W{"cache", 600, 30000, raceCacheCase},
		W{"store", 400, 20000, raceStoreCase},
		W{"engine", 400, 20000, raceEngineCase},
		W{"cdp", 80, 4000, raceCDPCase},
	)
}
