package zzverif

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/antcache"
	"github.com/yields/ant/antcdp"
)

// C32: crawls through the cache, in memory or on disk, or through the CDP
// client see the same site as one that asks the origin.

// layNode is a URL of the site: a page, or a redirect to one.
type layNode struct {
	url  string
	page int
}

type layPage struct {
	kind  string
	life  time.Duration
	ver   int
	busy  int
	code  int
	links [2][]int // nodes linked from even and odd versions
}

// layVisit is one request of the fetcher.
type layVisit struct {
	node  int
	at    time.Time
	hits  int // requests that reached the page
	cond  bool
	code  int // answered by the origin
	date  time.Time
	fresh bool
	ver   int // expected
}

type layStored struct {
	ver  int
	date time.Time
	life time.Duration
	ua   string
}

type lay struct {
	c     *C
	nodes []layNode
	byURL map[string]int
	pages []*layPage
	aggr  time.Duration // age of the aggressive strategy, or 0
	ua    string

	mu     sync.Mutex
	stored map[int]*layStored
	asked  map[int]int // requests per page in this crawl
	visits map[int][]*layVisit
	scrape map[int]int
	lat    func() time.Duration
}

func (l *lay) html(page, ver int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "<html><head><title>%d.%d</title></head><body>", page, ver)
	for _, n := range l.pages[page].links[ver%2] {
		fmt.Fprintf(&b, "<a href=\"%s\">x</a>", l.nodes[n].url)
	}
	b.WriteString(strings.Repeat("<p>fill</p>", page%5*40))
	b.WriteString("</body></html>")
	return b.String()
}

// RoundTrip is the origin.
func (l *lay) RoundTrip(req *http.Request) (*http.Response, error) {
	l.mu.Lock()
	i, ok := l.byURL[req.URL.String()]
	d := l.lat()
	l.mu.Unlock()
	if !ok {
		l.c.Violate("stray", "the origin was asked for %s", req.URL)
		return nil, fmt.Errorf("no such page")
	}
	if d > 0 {
		select {
		case <-time.After(d):
		case <-req.Context().Done():
			return nil, req.Context().Err()
		}
	}
	n := l.nodes[i]
	date := time.Now().UTC().Truncate(time.Second)
	resp := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: req, ContentLength: -1, Header: http.Header{"Date": {date.Format(http.TimeFormat)}, "Content-Type": {"text/html"}}}
	answer := func(code int, body string) (*http.Response, error) {
		resp.StatusCode, resp.Status = code, fmt.Sprint(code)
		resp.Body = io.NopCloser(strings.NewReader(body))
		return resp, nil
	}
	if canon := l.canonical(n.page); n.url != canon {
		resp.Header.Set("Location", canon)
		return answer(302, "moved")
	}
	p := l.pages[n.page]
	v, _ := req.Context().Value(ctxKey{}).(*layVisit)
	l.mu.Lock()
	defer l.mu.Unlock()
	if v == nil {
		l.c.Violate("context", "the request for %s has lost the caller's context", n.url)
		v = &layVisit{}
	}
	v.hits++
	v.cond = req.Header.Get("If-None-Match") != "" || req.Header.Get("If-Modified-Since") != ""
	l.asked[n.page]++
	if l.asked[n.page] <= p.busy {
		v.code = 503
		if p.ver%2 == 1 {
			resp.Header.Set("Cache-Control", "max-age=600")
		}
		return answer(503, "busy")
	}
	h := resp.Header
	age := fmt.Sprintf("max-age=%d", p.life/time.Second)
	tag := fmt.Sprintf(`"%d.%d"`, n.page, p.ver)
	mod := time.Date(1999, 1, 1, 0, 0, n.page*100+p.ver, 0, time.UTC).Format(http.TimeFormat)
	switch p.kind {
	case "fresh":
		h.Set("Cache-Control", age)
	case "expires":
		h.Set("Expires", date.Add(p.life).Format(http.TimeFormat))
	case "no-store":
		h.Set("Cache-Control", "no-store, "+age)
	case "no-cache":
		h.Set("Cache-Control", age+", no-cache")
		h.Set("ETag", tag)
	case "etag":
		h.Set("Cache-Control", age)
		h.Set("ETag", tag)
	case "modified":
		h.Set("Cache-Control", age)
		h.Set("Last-Modified", mod)
	case "vary":
		h.Set("Cache-Control", age)
		h.Set("Vary", "Accept, User-Agent")
	}
	h.Set("X-Version", tag)
	v.date = date
	if x := req.Header.Get("If-None-Match"); x != "" && x == h.Get("ETag") || x == "" && h.Get("Last-Modified") != "" && req.Header.Get("If-Modified-Since") == mod {
		v.code = 304
		return answer(304, "")
	}
	v.code = p.code
	return answer(p.code, l.html(n.page, p.ver))
}

func (l *lay) canonical(page int) string { return l.nodes[page].url }

// Do stands between the fetcher and the cache.
type layOuter struct {
	l     *lay
	inner ant.Client
}

func (o layOuter) Do(req *http.Request) (*http.Response, error) {
	l := o.l
	l.mu.Lock()
	i, ok := l.byURL[req.URL.String()]
	if !ok {
		l.mu.Unlock()
		l.c.Violate("stray", "the fetcher asks for %s", req.URL)
		return nil, fmt.Errorf("no such page")
	}
	p := l.pages[l.nodes[i].page]
	v := &layVisit{node: i, at: time.Now(), ver: p.ver}
	s := l.stored[i]
	if s != nil && v.at.Sub(s.date) < s.life && (l.aggr > 0 || p.kind != "no-cache" && (p.kind != "vary" || s.ua == l.ua)) {
		v.fresh, v.ver = true, s.ver
	}
	l.visits[i] = append(l.visits[i], v)
	l.mu.Unlock()
	resp, err := l.c.resp(o.inner.Do(req.WithContext(context.WithValue(req.Context(), ctxKey{}, v))))
	if err != nil {
		l.c.Violate("error", "%s: %v", req.URL, err)
		return resp, err
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	switch {
	case v.fresh && v.hits > 0:
		l.c.Violate("asked", "%s (%s) was stored %s before with a lifetime of %s, the origin was asked", req.URL, p.kind, v.at.Sub(s.date), s.life)
	case !v.fresh && v.hits != 1:
		l.c.Violate("not-asked", "%s (%s, stored: %+v) was requested at %s, the origin was asked %d times", req.URL, p.kind, s, v.at, v.hits)
	}
	switch v.code {
	case 0:
		l.c.Count("pages served from the cache", 1)
	case 304:
		l.c.Count("pages validated", 1)
	default:
		l.c.Count("pages served by the origin", 1)
	}
	if v.code == 304 && s == nil {
		l.c.Violate("conditional", "%s is not stored, the origin was asked with validators", req.URL)
		return resp, err
	}
	// What is stored by the time the crawl has ended.
	life := p.life
	may := p.kind != "plain" && p.kind != "no-store"
	if l.aggr > 0 {
		life, may = l.aggr, true
	}
	switch {
	case v.code == 304:
		s.date, s.ua = v.date, l.ua
	case (v.code == 200 || v.code == 404) && may:
		l.stored[i] = &layStored{v.ver, v.date, life, l.ua}
	}
	return resp, err
}

func (l *lay) Scrape(ctx context.Context, pg *ant.Page) (ant.URLs, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	i, ok := l.byURL[pg.URL.String()]
	if !ok {
		l.c.Violate("page-url", "a page has the URL %s", pg.URL)
		return nil, nil
	}
	l.scrape[l.nodes[i].page]++
	// Several nodes lead to the page, the versions may differ.
	var want []string
	text, err := pg.HTML()
	if err != nil {
		l.c.Violate("page", "%s: %v", pg.URL, err)
		return nil, nil
	}
	for n, vs := range l.visits {
		if l.nodes[n].page != l.nodes[i].page {
			continue
		}
		for _, v := range vs {
			h := l.html(l.nodes[n].page, v.ver)
			want = append(want, fmt.Sprint(v.ver))
			if render([]byte(h)) == text {
				// All links lead to where the version says.
				var got, exp []string
				for _, u := range pg.URLs() {
					got = append(got, u.String())
				}
				for _, x := range l.pages[l.nodes[n].page].links[v.ver%2] {
					exp = append(exp, l.nodes[x].url)
				}
				if fmt.Sprint(got) != fmt.Sprint(exp) {
					l.c.Violate("links", "%s: links %q, want %q", pg.URL, got, exp)
				}
				l.c.Count("pages compared", 1)
				return pg.URLs(), nil
			}
		}
	}
	l.c.Violate("page", "%s: the scraper was given %s, want version %s", pg.URL, abbr([]byte(text)), want)
	return nil, nil
}

// recrawlCase: several crawls through one cache.
func recrawlCase(c *C) {
	r := c.Rng
	l := &lay{c: c, byURL: map[string]int{}, stored: map[int]*layStored{}}
	n := 2 + r.Intn(12)
	redirects := chance(r, .4)
	alike, used := chance(r, .4), map[string]bool{}
	for i := 0; i < n; i++ {
		// URLs that differ in one part only are different pages.
		u := fmt.Sprintf("http://site%d.test/p%d%s", i%2, i, pick(r, "", "?q=1", "/", "/x%2Fy"))
		if alike {
			u = fmt.Sprintf("http://site%d.test/p%d", i/6%2, i/12)
			u = pick(r, u, u+"/", u+"?q=1", u+"?q=2", u+"?Q=1", "https"+u[4:], "https"+u[4:]+"?q=1", strings.Replace(u, ".test", ".test:8080", 1), u+"%2F", u+"?q=1&r=2")
			if used[u] {
				u = fmt.Sprintf("http://site%d.test/p%d?n=%d", i/6%2, i/12, i)
			}
			used[u] = true
		}
		l.nodes = append(l.nodes, layNode{u, i})
		l.pages = append(l.pages, &layPage{kind: pick(r, "fresh", "fresh", "expires", "no-store", "plain", "no-cache", "etag", "etag", "modified", "vary"),
			life: time.Duration(1+r.Intn(pick(r, 3, 60, 100000))) * time.Second, code: pick(r, 200, 200, 200, 200, 200, 404)})
	}
	if redirects {
		for i := 0; i < n; i += 1 + r.Intn(4) {
			l.nodes = append(l.nodes, layNode{fmt.Sprintf("http://site%d.test/to/%d", r.Intn(3), i), i})
		}
	}
	for i, x := range l.nodes {
		l.byURL[x.url] = i
	}
	for i, p := range l.pages {
		for v := range p.links {
			for j := r.Intn(4); j > 0; j-- {
				p.links[v] = append(p.links[v], r.Intn(len(l.nodes)))
			}
			p.links[v] = append(p.links[v], (i+1)%n)
		}
	}
	latMax := pick(r, 0, 10, 900)
	lr := r.Int63()
	l.lat = func() time.Duration {
		lr = lr*6364136223846793005 + 1442695040888963407
		return time.Duration(uint64(lr)>>33%uint64(latMax+1)) * time.Millisecond
	}
	if chance(r, .3) {
		l.aggr = time.Duration(1+r.Intn(pick(r, 5, 1000))) * time.Second
	}
	disk := chance(r, .5)
	var dir string
	if disk {
		d, done := c.storeDir()
		defer done()
		dir = d
	}
	compress := chance(r, .5)
	type crawlCfg struct {
		workers, conc int
		pause         time.Duration
		reopen        bool
		ua            string
		seed          int64
	}
	var crawls []crawlCfg
	for i := 2 + r.Intn(3); i > 0; i-- {
		crawls = append(crawls, crawlCfg{pick(r, 1, 1, 2, 4), pick(r, 0, 1, 3), time.Duration(r.Intn(pick(r, 1, 5, 100, 50000))) * time.Second, chance(r, .6), pick(r, "a/1", "a/1", "b/2"), r.Int63()})
	}
	var sig []any
	c.Bubble(func() {
		var st *antcache.Diskstore
		open := func() {
			var opts []antcache.DiskOption
			if compress {
				opts = append(opts, antcache.Compress())
			}
			var err error
			if st, err = antcache.Open(dir, append(opts, antcache.SweepEvery(0))...); err != nil {
				c.Violate("open", "Open: %v", err)
				return
			}
			if err := st.Wait(context.Background()); err != nil {
				c.Violate("open", "Wait: %v", err)
			}
		}
		var inner ant.Client = &http.Client{Transport: l}
		if !redirects {
			inner = doFunc(l.RoundTrip)
		}
		mk := func() ant.Client {
			var opts []antcache.Option
			if disk {
				opts = append(opts, antcache.WithStorage(st))
			}
			if l.aggr > 0 {
				opts = append(opts, antcache.Aggressive(l.aggr))
			}
			cl, err := antcache.New(inner, opts...)
			if err != nil {
				panic(err)
			}
			return cl
		}
		if disk {
			open()
		}
		cache := mk()
		for k, cfg := range crawls {
			if c.Bad() {
				break
			}
			if k > 0 {
				time.Sleep(cfg.pause)
				if disk && cfg.reopen {
					st.Close()
					open()
					cache = mk()
					c.Count("stores opened again", 1)
				}
				for _, p := range l.pages {
					if chance(r, .3) {
						p.ver++
					}
					p.busy = pick(r, 0, 0, 0, 1, 2)
				}
			}
			l.ua = cfg.ua
			l.asked, l.visits, l.scrape = map[int]int{}, map[int][]*layVisit{}, map[int]int{}
			eng, err := ant.NewEngine(ant.EngineConfig{Scraper: l, Fetcher: &ant.Fetcher{Client: layOuter{l, cache}, UserAgent: ant.StaticAgent(cfg.ua)}, Impolite: true, Workers: cfg.workers, Concurrency: cfg.conc})
			if err != nil {
				panic(err)
			}
			if err := eng.Run(context.Background(), l.nodes[0].url); err != nil {
				c.Violate("run", "crawl %d: %v", k, err)
				break
			}
			// Reachability over what was served.
			seen := map[int]bool{0: true}
			todo := []int{0}
			scrapes := map[int]int{}
			for len(todo) > 0 {
				i := todo[0]
				todo = todo[1:]
				vs := l.visits[i]
				if len(vs) == 0 {
					c.Violate("missed", "crawl %d: %s was not visited", k, l.nodes[i].url)
					continue
				}
				for _, v := range vs[:len(vs)-1] {
					if v.code != 503 {
						c.Violate("twice", "crawl %d: %s was requested %d times", k, l.nodes[i].url, len(vs))
					}
				}
				p := l.pages[l.nodes[i].page]
				if p.code != 200 {
					continue
				}
				scrapes[l.nodes[i].page]++
				for _, x := range p.links[vs[len(vs)-1].ver%2] {
					if !seen[x] {
						seen[x] = true
						todo = append(todo, x)
					}
				}
			}
			for i := range l.visits {
				if !seen[i] {
					c.Violate("unreachable", "crawl %d: %s was visited", k, l.nodes[i].url)
				}
			}
			if fmt.Sprint(scrapes) != fmt.Sprint(l.scrape) {
				c.Violate("scrapes", "crawl %d: scraped %v, want %v", k, l.scrape, scrapes)
			}
			c.Count("crawls", 1)
			sig = append(sig, len(seen), fmt.Sprint(l.asked))
		}
		if disk {
			st.Close()
		}
	})
	c.Sig(append(sig, n, disk, compress, l.aggr, redirects)...)
	if c.N < 5 {
		c.Sample(map[string]any{"pages": n, "nodes": len(l.nodes), "crawls": len(crawls), "disk": disk, "aggressive": l.aggr.String(), "origin requests of the last crawl": len(l.asked)})
	}
}

// renderedCase: crawls through the CDP client, also with the cache on top.
func renderedCase(c *C) {
	r := c.Rng
	b := newBrowser(c)
	defer b.close()
	b.inject = func(step, tag string) string { return "" }
	n := 2 + r.Intn(7)
	var pages []*cdpPage
	links := map[string][]string{}
	byURL := map[string]*cdpPage{}
	cached := chance(r, .5)
	for i := 0; i < n; i++ {
		pages = append(pages, b.genPage(r, fmt.Sprintf("n%d", i)))
	}
	date := time.Now().UTC().Format(http.TimeFormat)
	hasDate := func(i int) bool { return i%3 != 2 }
	for i, pg := range pages {
		byURL[pg.url] = pg
		pg.status = pick(r, 200, 200, 200, 200, 404)
		delete(pg.headers, "date")
		if hasDate(i) {
			pg.headers["date"] = date
		}
		pg.wantHdr = http.Header{"Accept": {"text/html; charset=UTF-8"}, "User-Agent": {"shown/1"}}
		var s strings.Builder
		s.WriteString("<html><head><title>" + pg.tag + "</title></head><body>é")
		for j := 1 + r.Intn(4); j > 0; j-- {
			to := pages[r.Intn(n)]
			if j == 1 {
				to = pages[(i+1)%n]
			}
			links[pg.url] = append(links[pg.url], to.url)
			s.WriteString("<a href=\"" + to.url + pick(r, "", "#f") + "\">l</a>")
		}
		s.WriteString("</body></html>")
		pg.html = s.String()
		// The script holds a copy of status and headers.
		for k := range pg.script {
			if pg.script[k].kind == "doc" {
				m, _ := json.Marshal(pg.script[k].params)
				var p map[string]any
				json.Unmarshal(m, &p)
				resp := p["response"].(map[string]any)
				resp["status"] = pg.status
				hs := map[string]any{}
				for x, y := range pg.headers {
					hs[x] = y
				}
				resp["headers"] = hs
				p["response"] = resp
				pg.script[k].params = p
			}
		}
	}
	var mu sync.Mutex
	scraped := map[string]int{}
	scr := scrapeFunc(func(ctx context.Context, p *ant.Page) (ant.URLs, error) {
		mu.Lock()
		defer mu.Unlock()
		tag := p.Text("title")
		scraped[tag]++
		for _, pg := range pages {
			if pg.tag == tag {
				if got, _ := p.HTML(); got != render([]byte(pg.html)) {
					c.Violate("page", "%s: the scraper was given %s, rendered is %s", pg.url, abbr([]byte(got)), abbr([]byte(pg.html)))
				}
				if g := *p.URL; g.String() != pg.final {
					c.Violate("page-url", "%s: the page says %s, the document came from %s", pg.url, &g, pg.final)
				}
				if p.Header.Get("X-Page") != tag {
					c.Violate("page-header", "%s: the header is %v", pg.url, p.Header)
				}
			}
		}
		return p.URLs(), nil
	})
	// What is to be visited.
	seen := map[string]bool{pages[0].url: true}
	todo := []*cdpPage{pages[0]}
	want := map[string]int{}
	for len(todo) > 0 {
		pg := todo[0]
		todo = todo[1:]
		if pg.status == 404 {
			continue
		}
		want[pg.tag] = 1
		for _, u := range links[pg.url] {
			if !seen[u] {
				seen[u] = true
				todo = append(todo, byURL[u])
			}
		}
	}
	var cl ant.Client = &antcdp.Client{Addr: b.addr}
	if cached {
		var err error
		if cl, err = antcache.New(cl, antcache.Aggressive(time.Hour)); err != nil {
			panic(err)
		}
	}
	workers, conc := 1+r.Intn(3), 1+r.Intn(5)
	for k := 0; k < 2 && !c.Bad(); k++ {
		b.mu.Lock()
		before := b.navs
		b.mu.Unlock()
		scraped = map[string]int{}
		eng, err := ant.NewEngine(ant.EngineConfig{Scraper: scr, Fetcher: &ant.Fetcher{Client: cl, UserAgent: ant.StaticAgent("shown/1"), MaxAttempts: 1}, Impolite: true, Workers: workers, Concurrency: conc})
		if err != nil {
			panic(err)
		}
		ctx, cancel := context.WithTimeout(context.Background(), cdpLimit*2)
		err = eng.Run(ctx, pages[0].url)
		cancel()
		if err != nil {
			c.Violate("run", "crawl %d: %v", k, err)
			return
		}
		if fmt.Sprint(scraped) != fmt.Sprint(want) {
			c.Violate("scrapes", "crawl %d: scraped %v, want %v", k, scraped, want)
			return
		}
		b.mu.Lock()
		navs := b.navs - before
		b.mu.Unlock()
		exp := 0
		for i, pg := range pages {
			if seen[pg.url] && (k == 0 || !cached || !hasDate(i)) {
				exp++
			}
		}
		if navs != exp {
			c.Violate("navigations", "crawl %d (cached %v): the browser was sent to %d pages, want %d of %d", k, cached, navs, exp, len(seen))
		}
		c.Count("pages rendered", navs)
	}
	var urls []string
	for u := range seen {
		urls = append(urls, u)
	}
	sort.Strings(urls)
	c.Sig(urls, workers, conc, cached)
}

type scrapeFunc func(context.Context, *ant.Page) (ant.URLs, error)

func (f scrapeFunc) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) { return f(ctx, p) }

func TestC32(t *testing.T) {
	Run(t, "C32", W{"recrawl", 1500, 40000, recrawlCase}, W{"rendered", 120, 3000, renderedCase})
}
