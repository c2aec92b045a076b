package zzverif

import (
	"context"
	"errors"
	"fmt"
	"html"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/temoto/robotstxt"
	"github.com/yields/ant"
)

// The simulator runs the real engine in virtual time against an in-memory web
// whose pages, latencies and faults are drawn from the case's PRNG.  Every
// component the engine talks to is instrumented; the oracles judge the event
// log only.

// refKey identifies the resource a URL names, independently of the code under
// test: equivalent spellings have equal keys.
func refKey(u *url.URL) string {
	scheme := strings.ToLower(u.Scheme)
	host := strings.ToLower(u.Hostname())
	port := u.Port()
	if port == map[string]string{"http": "80", "https": "443"}[scheme] {
		port = ""
	}
	user := ""
	if u.User != nil {
		user = u.User.String()
	}
	path, slash := refPath(u.EscapedPath())
	var q []string
	if u.RawQuery != "" {
		for _, p := range strings.Split(u.RawQuery, "&") {
			q = append(q, refTriplets(p))
		}
	}
	sort.Strings(q)
	return fmt.Sprintf("%q %q %q %q %q %v %q", scheme, user, host, port, path, slash, q)
}

// refPath splits an escaped path into decoded segments, dots resolved.
func refPath(esc string) (segs []string, slash bool) {
	parts := strings.Split(strings.TrimPrefix(esc, "/"), "/")
	for i, p := range parts {
		d, err := url.PathUnescape(p)
		if err != nil {
			d = p
		}
		slash = false
		switch {
		case d == ".":
			slash = true
		case d == "..":
			slash = true
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		case d == "" && i == len(parts)-1:
			slash = true
		default:
			segs = append(segs, d)
		}
	}
	if len(segs) == 0 {
		slash = true
	}
	return
}

// refOctets percent-encodes what is not ASCII.
func refOctets(s string) string {
	var b strings.Builder
	for _, c := range []byte(s) {
		if c < 0x80 {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

// refTriplets canonicalises the percent triplets of a query parameter.
func refTriplets(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		var v byte
		if s[i] == '%' && i+2 < len(s) {
			if n, err := strconv.ParseUint(s[i+1:i+3], 16, 8); err == nil {
				v = byte(n)
				if strings.IndexByte(unreserved, v) >= 0 {
					b.WriteByte(v)
				} else {
					b.WriteString(strings.ToUpper(s[i : i+3]))
				}
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (u curl) parsed() *url.URL { return mkURL(u.spell(nil)) }
func (u curl) key() string      { return refKey(u.parsed()) }
func (u curl) hostport() string {
	if u.Port != "" {
		return u.Host + ":" + u.Port
	}
	return u.Host
}

type simLink struct {
	to  int // page
	raw string
}

type simPage struct {
	u         curl
	key       string
	status    int
	links     []simLink
	fetchLat  time.Duration
	scrapeLat time.Duration
	limitLat  time.Duration
	script    []int // statuses (or errTemp, errPerm) of the first requests, before status
	size      int
}

// event is one entry of the log.
type event struct {
	at   time.Duration
	kind string // "fetch", "fetched", ...
	page int    // -1 unknown
	info string
}

// span is a component call.
type span struct {
	kind       string
	page       int
	start, end time.Duration // end < 0 while running
	err        error
	dead       bool // its context had ended before it began
	url        string
	gone       bool // the response ends the processing of the page
}

// simCfg is what a case draws.
type simCfg struct {
	Pages, Hosts, MaxLinks int
	P404                   float64
	Workers, Concurrency   int
	Deduper                string // nil map bf
	Queue                  string // nil memory wrapped
	Limiter                string // none slow rate
	Matcher                string // none custom host pattern
	Robots                 string // impolite none 404 rules delay
	LatMax                 int    // virtual ms
	RobotsLat, DedupeLat   int
	Deaf                   float64 // components that ignore their context
	HTML                   bool    // links go through an HTML page and Page.URLs
	Zero                   bool    // no latency anywhere: real interleaving only
	Redirect               bool
	SharedURLs             bool   // the scraper returns the same *URL objects every time
	Flat                   string // hub, start: every page is known from one page alone, or from the start alone
}

func genCfg(r *rand.Rand) simCfg {
	k := simCfg{
		Pages: 1 + r.Intn(pick(r, 3, 12, 40)), Hosts: 1 + r.Intn(3), MaxLinks: 1 + r.Intn(6),
		P404:    pick(r, 0, 0, .15),
		Workers: pick(r, 0, 1, 1, 2, 3, 5), Concurrency: pick(r, 0, 0, 1, 1, 2, 3, 7, 100),
		Deduper: pick(r, "nil", "map", "bf"), Queue: pick(r, "nil", "memory", "wrapped"),
		Limiter: pick(r, "none", "none", "slow"), Matcher: pick(r, "none", "none", "custom", "host", "pattern", "regexp"),
		Robots: pick(r, "impolite", "none", "404", "rules"), LatMax: pick(r, 1, 3, 10, 50),
		RobotsLat: r.Intn(10), DedupeLat: pick(r, 0, 0, 0, 3), Deaf: pick(r, 0, 0, .5), HTML: chance(r, .3),
		Zero: chance(r, .15),
	}
	k.SharedURLs = !k.HTML && chance(r, .2)
	return k
}

func (k simCfg) String() string {
	return strings.TrimSuffix(fmt.Sprintf("%+v", simCfgAlias(k)), "}")[1:]
}

type simCfgAlias simCfg

type sim struct {
	plain bool // the engine has no fetcher of its own, ant.DefaultClient serves the pages
	c     *C
	k     simCfg
	pages []*simPage
	byKey map[string]int
	start []int // start pages
	raws  []string

	robotsTxt  map[string]string // host -> text
	robotsCode map[string]int
	robotsData map[string]*robotstxt.RobotsData

	mu       sync.Mutex
	t0       time.Time
	ev       []event
	spans    []*span
	bodies   []*simBody
	attempts map[int]int
	reached  map[int]bool

	deafKind  map[string]bool // which components ignore their context
	fault     func(kind string, page int, nth int) error
	nth       map[string]int
	failedAt  time.Duration // when the first injected permanent failure was returned, -1
	failures  []error       // injected permanent failures that were returned
	enq, fin  int           // accepted and acknowledged URLs (wrapped queue)
	shared    map[int]*url.URL
	odd       []string // observations outside the simulated world
	handOver  func(p int)
	meanwhile func(*ant.Engine) // what else happens during the crawl
	waitLat   time.Duration     // the wrapped queue returns late from Wait
	inner     ant.Limiter       // a real limiter behind the instrumented one

	accept   func(curl) bool // oracle of the given matcher
	given    ant.Matcher
	tune     func(*ant.EngineConfig)
	bodyFail func(page int) int
	o        outcome                                              // of the crawl, for judges that run after it
	onPage   func(ctx context.Context, i int, pg *ant.Page) error // what else the scraper does

	inproc map[int]bool // pages between their limiter call and the end of their scrape
	maxIn  int
}

const (
	errTemp = -1 // client error with Temporary() true
	errWrap = -2 // the same, wrapped
	errPerm = -3
)

func newSim(c *C, k simCfg) *sim {
	r := c.Rng
	s := &sim{
		c: c, k: k, byKey: map[string]int{}, robotsTxt: map[string]string{}, robotsCode: map[string]int{},
		robotsData: map[string]*robotstxt.RobotsData{}, attempts: map[int]int{}, reached: map[int]bool{},
		deafKind: map[string]bool{}, nth: map[string]int{}, failedAt: -1, shared: map[int]*url.URL{}, inproc: map[int]bool{},
	}
	if k.Zero {
		s.k.LatMax, s.k.RobotsLat, s.k.DedupeLat = 0, 0, 0
	}
	for _, kind := range []string{"fetch", "scrape", "limit", "dedupe", "robots"} {
		s.deafKind[kind] = chance(r, k.Deaf)
	}
	hosts := []string{"one.example", "two.example:8080", "[::3]", "127.0.0.4:81"}
	if chance(r, .3) { // another port is another host
		hosts[1] = "one.example:8081"
	}
	for len(hosts) < k.Hosts {
		hosts = append(hosts, fmt.Sprintf("h%d.example", len(hosts)))
	}
	hosts = hosts[:k.Hosts]
	lat := func() time.Duration {
		if s.k.LatMax == 0 || chance(r, .3) {
			return 0
		}
		return time.Duration(r.Intn(s.k.LatMax+1)) * time.Millisecond
	}
	long := 0.
	if chance(r, .04) {
		long = .3
	}
	for len(s.pages) < k.Pages {
		u := curl{Scheme: "http", Host: hosts[r.Intn(len(hosts))]}
		if h, p, ok := strings.Cut(u.Host, ":"); ok && !strings.HasPrefix(u.Host, "[") {
			u.Host, u.Port = h, p
		}
		if chance(r, .15) {
			u.Scheme = "https"
		}
		for i, n := 0, pick(r, 0, 1, 1, 2, 3); i < n; i++ {
			u.Segs = append(u.Segs, pick(r, "a", "b", "c", "d", "B", "private", "x.html", "p~q", "s t", "e/f", "k", "z0", "z1", "z2", "caf\u00e9", "\u65e5"))
		}
		if chance(r, long) {
			u.Segs = append(u.Segs, strings.Repeat("long-", pick(r, 55, 55, 220, 900))+pick(r, "a", "b", "c", "d"))
		}
		u.Slash = len(u.Segs) == 0 || chance(r, .25)
		for i, n := 0, pick(r, 0, 0, 0, 1, 2); i < n; i++ {
			u.Query = append(u.Query, pick(r, "q=1", "q=2", "id=7", "secret=1", "page", "x=%26"))
		}
		sort.Strings(u.Query)
		if _, dup := s.byKey[u.key()]; dup {
			if chance(r, .05) {
				u.Segs = append(u.Segs, fmt.Sprint("n", len(s.pages)))
				u.Slash = false
			}
			if _, dup := s.byKey[u.key()]; dup {
				continue
			}
		}
		p := &simPage{u: u, key: u.key(), status: 200, fetchLat: lat(), scrapeLat: lat(), limitLat: lat(), size: r.Intn(200)}
		if chance(r, k.P404) {
			p.status = 404
		}
		s.byKey[p.key] = len(s.pages)
		s.pages = append(s.pages, p)
	}
	n := len(s.pages)
	for i, p := range s.pages {
		for j, m := 0, r.Intn(k.MaxLinks+1); j < m; j++ {
			to := r.Intn(n)
			if chance(r, .6) && i+1 < n { // deep rather than flat
				to = i + 1 + r.Intn(min(n-i-1, 3))
			}
			p.links = append(p.links, simLink{to, s.pages[to].u.spell(r)})
		}
		s.shared[i] = mkURL(p.u.spell(r))
	}
	for i, m := 0, 1+r.Intn(3); i < m; i++ {
		to := 0
		if i > 0 {
			to = r.Intn(n)
		}
		s.start = append(s.start, to)
		s.raws = append(s.raws, s.pages[to].u.spell(r))
	}
	s.flatten()
	// robots.txt of each host
	for _, h := range hosts {
		switch k.Robots {
		case "none":
			s.robotsCode[h], s.robotsTxt[h] = 200, ""
		case "404":
			s.robotsCode[h] = pick(r, 404, 401, 403, 410)
			s.robotsTxt[h] = pick(r, "", "User-agent: *\nDisallow: /\n")
		case "derived": // from the pages of the host
			s.robotsCode[h], s.robotsTxt[h] = 200, s.deriveRobots(h)
			if chance(r, .1) {
				s.robotsCode[h] = pick(r, 404, 403, 451)
			}
		case "rules":
			s.robotsCode[h], s.robotsTxt[h] = 200, genRobots(r, 0)
			if chance(r, .15) {
				s.robotsCode[h] = 404
			}
			if chance(r, .01) {
				// The rules come after a lot of others.
				pad := strings.Repeat("# comment\nUser-agent: other\nDisallow: /other\n\n", 1<<pick(r, 8, 12, 14))
				s.robotsTxt[h] = pad + s.robotsTxt[h]
			}
		case "delay":
			s.robotsCode[h], s.robotsTxt[h] = 200, genRobots(r, pick(r, 0, .5, .5, 1, 1, 2, 2, .005, 90, 4000))
		}
		if s.robotsCode[h] == 200 && chance(r, .03) {
			s.robotsCode[h] = pick(r, 203, 201)
		}
		s.robotsData[h], _ = robotstxt.FromStatusAndString(s.robotsCode[h], refOctets(refTriplets(strings.TrimPrefix(s.robotsTxt[h], "\ufeff"))))
	}
	return s
}

// flatten rewires a site in which nothing but one long list leads to a page.
func (s *sim) flatten() {
	if s.k.Flat == "" {
		return
	}
	r, twice := s.c.Rng, chance(s.c.Rng, .3)
	for _, p := range s.pages {
		p.links = nil
	}
	s.start, s.raws = []int{0}, []string{s.pages[0].u.spell(r)}
	for _, i := range r.Perm(len(s.pages)) {
		for j := 0; j < 1 || twice && j < 2; j++ {
			if s.k.Flat == "hub" {
				s.pages[0].links = append(s.pages[0].links, simLink{i, s.pages[i].u.spell(r)})
			} else {
				s.start = append(s.start, i)
				s.raws = append(s.raws, s.pages[i].u.spell(r))
			}
		}
	}
}

// genRobots writes a robots.txt; with delay > 0 for antbot, one that applies.
func genRobots(r *rand.Rand, delay float64) string {
	var b strings.Builder
	rules := func() {
		for i, n := 0, r.Intn(4); i < n; i++ {
			fmt.Fprintf(&b, "%s: %s\n", pick(r, "Disallow", "Disallow", "Allow"),
				pick(r, "/a", "/b/", "/private", "/B", "/a/b", "/*/c", "/c", "/x.html", "/*?", "/*?secret=1", "/a?q=1", "/*.html", "/p~q", "/p%7Eq", "/s%20t", "/e%2Ff", "/e%2ff", "/e/f", "/k$", "/z0", "/caf\u00e9", "/caf%c3%A9", "/*\u65e5", "/\u65e5$"))
		}
	}
	groups := []string{"*", "antbot", "otherbot", "ant"}
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	for _, g := range groups[:1+r.Intn(len(groups))] {
		fmt.Fprintf(&b, "User-agent: %s\n", pick(r, g, strings.ToUpper(g[:1])+g[1:]))
		rules()
		if delay > 0 || chance(r, .0) {
			fmt.Fprintf(&b, "Crawl-delay: %v\n", pick(r, delay, delay, delay*2))
		}
		b.WriteString("\n")
	}
	return b.String()
}

// deriveRobots writes rules that pages of the host just match or just miss.
func (s *sim) deriveRobots(host string) string {
	r := s.c.Rng
	var paths []string
	for _, p := range s.pages {
		if p.u.hostport() == host {
			paths = append(paths, p.u.parsed().RequestURI())
		}
	}
	if len(paths) == 0 {
		paths = []string{"/"}
	}
	var b strings.Builder
	if chance(r, .1) {
		b.WriteString("\ufeff")
	}
	if chance(r, .3) {
		b.WriteString("# comment\nSitemap: http://x.example/map.xml\n\n")
	}
	groups := []string{"*", "antbot", "otherbot", "ant", "antbot2", "bot"}
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	for _, g := range groups[:1+r.Intn(4)] {
		if chance(r, .3) {
			g = strings.ToUpper(g[:1]) + g[1:]
		}
		fmt.Fprintf(&b, "User-agent: %s\n", g)
		if chance(r, .1) {
			fmt.Fprintf(&b, "User-agent: %s\n", pick(r, "somebot", "*"))
		}
		for i, n := 0, r.Intn(5); i < n; i++ {
			p := paths[r.Intn(len(paths))]
			switch r.Intn(8) {
			case 0:
				p = p[:1+r.Intn(len(p))]
			case 1:
				p, _, _ = strings.Cut(p, "?")
			case 2:
				p += "$"
			case 3:
				p += pick(r, "x", "/", "?", "&z=1")
			case 4:
				i := 1 + r.Intn(len(p))
				p = p[:i] + "*" + pick(r, "", "$")
			case 5:
				p = pick(r, "/", "", "/*", "/*?*")
			case 6:
				if i := strings.LastIndex(p, "/"); i > 0 {
					p = p[:i+1]
				}
			}
			if strings.HasSuffix(p, "%") || len(p) > 1 && p[len(p)-2] == '%' {
				p = "/"
			}
			if chance(r, .3) {
				p = strings.ToLower(p)
			}
			if chance(r, .5) { // as its author would write it
				p = strings.NewReplacer("%C3%A9", "\u00e9", "%E6%97%A5", "\u65e5").Replace(p)
			}
			fmt.Fprintf(&b, "%s%s\n", pick(r, "Disallow: ", "Disallow: ", "Allow: ", "disallow:", "ALLOW:"), p+pick(r, "", "", " # note"))
		}
		b.WriteString(pick(r, "\n", "\r\n\n", "\n\n"))
	}
	return b.String()
}

// allowed is the oracle for robots.txt (the parser library is trusted).
func (s *sim) allowed(i int) bool {
	if s.k.Robots == "impolite" {
		return true
	}
	p := s.pages[i]
	d := s.robotsData[p.u.hostport()]
	if d == nil {
		return true
	}
	return d.TestAgent(robotsPath(p.u), "antbot")
}

// robotsPath is the path and query as robots.txt rules see them.
func robotsPath(u curl) string {
	return u.parsed().RequestURI()
}

// delay is the crawl delay of a page's host for the crawler.
func (s *sim) delay(host string) time.Duration {
	if s.k.Robots != "delay" {
		return 0
	}
	d := s.robotsData[host]
	if d == nil {
		return 0
	}
	if g := d.FindGroup("antbot"); g != nil {
		return g.CrawlDelay
	}
	return 0
}

// accepts is the oracle of the configured matcher.
func (s *sim) accepts(i int) bool {
	u := s.pages[i].u
	if s.accept != nil {
		return s.accept(u)
	}
	switch s.k.Matcher {
	case "custom":
		return hash64(s.pages[i].key)%4 != 0 || i == s.start[0]
	case "host":
		return u.hostport() == s.pages[s.start[0]].u.hostport()
	case "pattern": // anything but paths that end in .html
		return !strings.HasSuffix(plainPath(u), "l")
	case "regexp":
		return strings.HasPrefix(u.hostport()+plainPath(u), "one.example/")
	}
	return true
}

func plainPath(u curl) string {
	p := "/" + strings.Join(u.Segs, "/")
	if u.Slash && len(u.Segs) > 0 {
		p += "/"
	}
	return p
}

func (s *sim) matcher() ant.Matcher {
	if s.given != nil {
		return s.given
	}
	switch s.k.Matcher {
	case "custom":
		return ant.MatcherFunc(func(u *url.URL) bool {
			i := s.id(u)
			s.log("match", i, u.String())
			return i >= 0 && s.accepts(i)
		})
	case "host":
		return ant.MatchHostname(s.pages[s.start[0]].u.hostport())
	case "pattern":
		// a pattern cannot negate: list what other last letters there are
		m := []ant.Matcher{}
		for _, ch := range "abcdefghijkmnopqrstuvwxyzB/0123456789\u00e9\u65e5" {
			m = append(m, ant.MatchPattern("*/*"+string(ch)), ant.MatchPattern("*"+string(ch)))
		}
		return ant.MatcherFunc(func(u *url.URL) bool {
			for _, x := range m {
				if x.Match(u) {
					return true
				}
			}
			return false
		})
	case "regexp":
		return ant.MatchRegexp(`^one\.example/`)
	}
	return nil
}

// reachable computes the pages a crawl must fetch and must scrape.
func (s *sim) reachable() (fetch, scrape map[int]bool) {
	fetch, scrape = map[int]bool{}, map[int]bool{}
	var todo []int
	for _, i := range s.start {
		todo = append(todo, i)
	}
	seen := map[int]bool{}
	for len(todo) > 0 {
		i := todo[0]
		todo = todo[1:]
		if seen[i] || !s.accepts(i) {
			continue
		}
		seen[i] = true
		if !s.allowed(i) {
			continue
		}
		fetch[i] = true
		if s.pages[i].status != 200 {
			continue
		}
		scrape[i] = true
		for _, l := range s.pages[i].links {
			todo = append(todo, l.to)
		}
	}
	return
}

func (s *sim) now() time.Duration { return time.Since(s.t0) }

func (s *sim) id(u *url.URL) int {
	if u == nil {
		return -1
	}
	if i, ok := s.byKey[refKey(u)]; ok {
		return i
	}
	return -1
}

func (s *sim) log(kind string, page int, info string) {
	s.mu.Lock()
	s.ev = append(s.ev, event{s.now(), kind, page, info})
	s.mu.Unlock()
}

func (s *sim) begin(kind string, page int, ctx context.Context) *span {
	sp := &span{kind: kind, page: page, start: s.now(), end: -1, dead: ctx.Err() != nil}
	s.mu.Lock()
	s.spans = append(s.spans, sp)
	s.ev = append(s.ev, event{sp.start, kind, page, ""})
	if kind == "limit" || kind == "fetch" {
		s.inproc[page] = true
		s.maxIn = max(s.maxIn, len(s.inproc))
	}
	s.mu.Unlock()
	return sp
}

func (s *sim) finish(sp *span, err error) error {
	s.mu.Lock()
	sp.end, sp.err = s.now(), err
	s.ev = append(s.ev, event{sp.end, sp.kind + ".", sp.page, ""})
	if sp.kind == "scrape" || err != nil && sp.kind == "limit" || sp.gone {
		delete(s.inproc, sp.page)
	}
	s.mu.Unlock()
	return err
}

// permanent is an injected permanent failure, it may wrap a cause.
type permanent struct {
	what  string
	cause error
}

func (p *permanent) Error() string { return "injected: " + p.what }

func (p *permanent) Unwrap() error { return p.cause }

// says is an error that says it is not temporary, whatever it wraps.
type says struct{ error }

func (e says) Unwrap() error   { return e.error }
func (e says) Temporary() bool { return false }

// failure is the n-th kind of permanent failure.
//
// Many look like the end of something: of a connection, file, or context.
func failure(what string, n int) error {
	causes := []error{nil, nil, io.EOF, context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF,
		net.ErrClosed, os.ErrNotExist, http.ErrHandlerTimeout, io.ErrClosedPipe}
	p := &permanent{what, causes[n%len(causes)]}
	if t := interface{ Temporary() bool }(nil); errors.As(p, &t) || n/len(causes)%3 == 0 {
		return says{p}
	}
	return p
}

// temporary is an error that says it is temporary.
type temporary struct{ what string }

func (p *temporary) Error() string   { return "temporary: " + p.what }
func (p *temporary) Temporary() bool { return true }

// inject asks the case whether this call fails, and notes the failure.
func (s *sim) inject(kind string, page int) error {
	if s.fault == nil {
		return nil
	}
	s.mu.Lock()
	s.nth[kind]++
	n := s.nth[kind]
	s.mu.Unlock()
	err := s.fault(kind, page, n)
	if err != nil {
		s.noteFailure(err)
	}
	return err
}

func (s *sim) noteFailure(err error) {
	var p *permanent
	if !errors.As(err, &p) && err != io.EOF && err != io.ErrUnexpectedEOF && err != context.Canceled {
		return
	}
	s.mu.Lock()
	s.failures = append(s.failures, err)
	if s.failedAt < 0 {
		s.failedAt = s.now()
	}
	s.mu.Unlock()
}

// wait spends virtual time, giving up with the context unless deaf.
func (s *sim) wait(ctx context.Context, kind string, d time.Duration) error {
	if s.deafKind[kind] {
		if d > 0 {
			time.Sleep(d)
		}
		return nil
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	if d <= 0 {
		return nil
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

// simBody is an instrumented response body.
type simBody struct {
	mu      sync.Mutex
	page    int
	status  int
	r       *strings.Reader
	failAt  int // fail after so many bytes, -1
	read    int
	ended   bool // EOF or failure was returned
	closed  bool
	early   bool // closed before it ended
	after   int  // reads after close
	readErr error
	onRead  func()
}

func (b *simBody) Read(p []byte) (int, error) {
	if b.onRead != nil {
		b.onRead()
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.closed {
		b.after++
		return 0, errors.New("read on closed body")
	}
	if b.failAt >= 0 && b.read >= b.failAt {
		b.ended = true
		return 0, b.readErr
	}
	if n := 37; b.r.Size() < 1<<17 && len(p) > n {
		p = p[:n]
	}
	if b.failAt >= 0 && len(p) > b.failAt-b.read {
		p = p[:b.failAt-b.read]
	}
	n, err := b.r.Read(p)
	b.read += n
	if err != nil {
		b.ended = true
	}
	return n, err
}

func (b *simBody) Close() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	if !b.closed && !b.ended {
		b.early = true
	}
	b.closed = true
	return nil
}

func (s *sim) newBody(page, status int, text string) *simBody {
	b := &simBody{page: page, status: status, r: strings.NewReader(text), failAt: -1, readErr: errors.New("body broke")}
	s.mu.Lock()
	if s.bodyFail != nil {
		b.failAt = s.bodyFail(page)
	}
	s.bodies = append(s.bodies, b)
	s.mu.Unlock()
	return b
}

// lastBody is the body of the latest response for a page.
func (s *sim) lastBody(page int) *simBody {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := len(s.bodies) - 1; i >= 0; i-- {
		if s.bodies[i].page == page {
			return s.bodies[i]
		}
	}
	return nil
}

// endedBefore tells whether the crawl had ended, or failed, by t.
func (s *sim) endedBefore(t time.Duration) bool {
	return s.o.err != nil && s.o.at <= t || s.failedAt >= 0 && s.failedAt <= t
}

func (s *sim) html(i int) string {
	p := s.pages[i]
	var b strings.Builder
	fmt.Fprintf(&b, "<!doctype html><title>%d</title>", i)
	for _, l := range p.links {
		fmt.Fprintf(&b, "<p><a href=\"%s\">x</a>", html.EscapeString(l.raw))
	}
	b.WriteString(strings.Repeat("<i>pad</i>", p.size/10))
	return b.String()
}

// Do implements ant.Client.
func (s *sim) Do(req *http.Request) (*http.Response, error) {
	i := s.id(req.URL)
	ctx := req.Context()
	sp := s.begin("fetch", i, ctx)
	sp.url = req.URL.String()
	if i < 0 {
		s.mu.Lock()
		s.odd = append(s.odd, "fetch of "+req.URL.String())
		s.mu.Unlock()
		return nil, s.finish(sp, &permanent{what: "unknown URL " + req.URL.String()})
	}
	p := s.pages[i]
	if err := s.wait(ctx, "fetch", p.fetchLat); err != nil {
		return nil, s.finish(sp, fmt.Errorf("client: %w", err))
	}
	if err := s.inject("fetch", i); err != nil {
		return nil, s.finish(sp, err)
	}
	s.mu.Lock()
	n := s.attempts[i]
	s.attempts[i]++
	s.mu.Unlock()
	status := p.status
	if n < len(p.script) {
		status = p.script[n]
	}
	switch status {
	case errTemp:
		return nil, s.finish(sp, &temporary{"network"})
	case errWrap:
		if s.plain { // http.Client hides what it wraps twice
			return nil, s.finish(sp, &temporary{"network"})
		}
		return nil, s.finish(sp, fmt.Errorf("dial: %w", fmt.Errorf("tcp: %w", &temporary{"network"})))
	case errPerm:
		err := failure("network", s.c.N+i)
		s.noteFailure(err)
		return nil, s.finish(sp, err)
	}
	text := s.html(i)
	if status != 200 {
		text = fmt.Sprintf("error page %d", status)
	}
	resp := &http.Response{
		StatusCode: status, Status: fmt.Sprint(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"text/html"}}, Body: s.newBody(i, status, text), Request: req,
	}
	if status >= 400 && status != 404 && status != 429 && status != 503 && status != 504 {
		s.noteFailure(&permanent{what: fmt.Sprint("status ", status)})
	}
	sp.gone = status == 404
	s.finish(sp, nil)
	return resp, nil
}

// Scrape implements ant.Scraper.
func (s *sim) Scrape(ctx context.Context, pg *ant.Page) (ant.URLs, error) {
	i := s.id(pg.URL)
	sp := s.begin("scrape", i, ctx)
	if i < 0 {
		s.mu.Lock()
		s.odd = append(s.odd, "scrape of "+pg.URL.String())
		s.mu.Unlock()
		return nil, s.finish(sp, nil)
	}
	if s.handOver != nil {
		s.handOver(i)
	}
	p := s.pages[i]
	if err := s.wait(ctx, "scrape", p.scrapeLat); err != nil {
		return nil, s.finish(sp, err)
	}
	if err := s.inject("scrape", i); err != nil {
		return nil, s.finish(sp, err)
	}
	if s.onPage != nil {
		if err := s.onPage(ctx, i, pg); err != nil {
			s.noteFailure(err)
			return nil, s.finish(sp, err)
		}
	}
	var ret ant.URLs
	switch {
	case s.k.HTML:
		ret = pg.URLs()
	case s.k.SharedURLs:
		for _, l := range p.links {
			ret = append(ret, s.shared[l.to])
		}
	default:
		for _, l := range p.links {
			ret = append(ret, mkURL(l.raw))
		}
	}
	s.finish(sp, nil)
	return ret, nil
}

// Limit implements ant.Limiter.
func (s *sim) Limit(ctx context.Context, u *url.URL) error {
	i := s.id(u)
	sp := s.begin("limit", i, ctx)
	sp.url = u.String()
	var d time.Duration
	if i >= 0 && s.k.Limiter == "slow" {
		d = s.pages[i].limitLat
	}
	if err := s.wait(ctx, "limit", d); err != nil {
		return s.finish(sp, err)
	}
	if s.inner != nil {
		if err := s.inner.Limit(ctx, u); err != nil {
			return s.finish(sp, err)
		}
	}
	return s.finish(sp, s.inject("limit", i))
}

type simDeduper struct {
	s *sim
	d ant.Deduper
}

func (d simDeduper) Dedupe(ctx context.Context, urls ant.URLs) (ant.URLs, error) {
	s := d.s
	sp := s.begin("dedupe", -1, ctx)
	sp.url = fmt.Sprint(urls)
	if err := s.wait(ctx, "dedupe", time.Duration(s.k.DedupeLat)*time.Millisecond); err != nil {
		return nil, s.finish(sp, err)
	}
	if err := s.inject("dedupe", -1); err != nil {
		return nil, s.finish(sp, err)
	}
	ret, err := d.d.Dedupe(ctx, urls)
	return ret, s.finish(sp, err)
}

// simQueue wraps the memory queue, with faults.
type simQueue struct {
	s *sim
	q ant.Queue
}

func (q simQueue) Enqueue(ctx context.Context, urls ant.URLs) error {
	if err := q.s.inject("enqueue", -1); err != nil {
		return err
	}
	err := q.q.Enqueue(ctx, urls)
	if err == nil {
		q.s.mu.Lock()
		q.s.enq += len(urls)
		q.s.mu.Unlock()
		for _, u := range urls {
			q.s.log("enqueued", q.s.id(u), u.String())
		}
	}
	return err
}

func (q simQueue) Dequeue(ctx context.Context) (*ant.URL, error) {
	if err := q.s.inject("dequeue", -1); err != nil {
		return nil, err
	}
	return q.q.Dequeue(ctx)
}

func (q simQueue) Done(ctx context.Context, u *ant.URL) error {
	q.s.mu.Lock()
	q.s.fin++
	q.s.mu.Unlock()
	return q.q.Done(ctx, u)
}
func (q simQueue) Wait()                           { q.q.Wait(); time.Sleep(q.s.waitLat) }
func (q simQueue) Close(ctx context.Context) error { return q.q.Close(ctx) }

// RoundTrip serves robots.txt (through ant.DefaultClient).
func (s *sim) RoundTrip(req *http.Request) (*http.Response, error) {
	if s.plain && req.URL.Path != "/robots.txt" {
		return s.Do(req)
	}
	ctx := req.Context()
	sp := s.begin("robots", -1, ctx)
	s.mu.Lock()
	s.ev = append(s.ev, event{s.now(), "robots-request", -1, req.URL.Host + " " + req.Header.Get("User-Agent")})
	s.mu.Unlock()
	if req.URL.Path != "/robots.txt" {
		s.mu.Lock()
		s.odd = append(s.odd, "default client asked for "+req.URL.String())
		s.mu.Unlock()
	}
	if err := s.wait(ctx, "robots", time.Duration(s.k.RobotsLat)*time.Millisecond); err != nil {
		return nil, s.finish(sp, err)
	}
	if err := s.inject("robots", -1); err != nil {
		return nil, s.finish(sp, err)
	}
	host := strings.ToLower(req.URL.Host)
	code, ok := s.robotsCode[host]
	if !ok {
		code = 404
	}
	s.mu.Lock()
	s.ev = append(s.ev, event{s.now(), "robots-answer", -1, host})
	s.mu.Unlock()
	resp := &http.Response{
		StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"text/plain"}}, Body: io.NopCloser(strings.NewReader(s.robotsTxt[host])), Request: req,
	}
	s.finish(sp, nil)
	return resp, nil
}

// engine builds the engine under test.
func (s *sim) engine() *ant.Engine {
	ant.DefaultClient = &http.Client{Transport: s}
	cfg := ant.EngineConfig{
		Scraper: s, Workers: s.k.Workers, Concurrency: s.k.Concurrency, Impolite: s.k.Robots == "impolite",
		Fetcher: &ant.Fetcher{Client: s},
	}
	if s.plain {
		cfg.Fetcher = nil
		s.c.Count("engines without a fetcher of their own", 1)
	}
	if s.tune != nil {
		s.tune(&cfg)
	}
	if m := s.matcher(); m != nil {
		cfg.Matcher = m
	}
	var d ant.Deduper
	switch s.k.Deduper {
	case "map":
		d = ant.DedupeMap()
	case "bf":
		d = ant.DedupeBF(2000000, 5)
	}
	if d == nil && (s.fault != nil || s.k.DedupeLat > 0) {
		d = ant.DedupeMap()
	}
	if d != nil {
		cfg.Deduper = simDeduper{s, d}
	}
	switch s.k.Queue {
	case "memory":
		cfg.Queue = ant.MemoryQueue(4)
	case "wrapped":
		cfg.Queue = simQueue{s, ant.MemoryQueue(1)}
	}
	if s.k.Limiter != "none" {
		cfg.Limiter = s
	}
	eng, err := ant.NewEngine(cfg)
	if err != nil {
		panic(err)
	}
	return eng
}

// outcome of one run.
type outcome struct {
	err     error
	at      time.Duration // when Run returned
	running []*span       // component calls still running when Run returned
	leaked  string        // goroutines of the engine left behind
}

// crawl runs the engine; must be called in a bubble.
func (s *sim) crawl(ctx context.Context) (o outcome) {
	s.t0 = time.Now()
	eng := s.engine()
	if s.meanwhile != nil {
		s.meanwhile(eng)
	}
	o.err = eng.Run(ctx, s.raws...)
	s.mu.Lock()
	o.at = s.now()
	for _, sp := range s.spans {
		if sp.end < 0 {
			o.running = append(o.running, sp)
		}
	}
	s.mu.Unlock()
	synctest.Wait()
	if s.c.N%4 == 0 || s.c.ID == "C02" {
		o.leaked = engineStacks()
	}
	s.c.Count("crawls", 1)
	s.mu.Lock()
	s.c.Count("events", len(s.ev))
	s.mu.Unlock()
	return o
}

// engineStacks returns the stacks of goroutines that were created by the code
// under test and are still there.
func engineStacks() string {
	buf := make([]byte, 1<<20)
	var out []string
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.Contains(head, "synctest bubble") {
			continue
		}
		if i := strings.Index(g, "created by "); i >= 0 {
			by := g[i:]
			if strings.Contains(by, repoDir) && !strings.Contains(by, "/zz_") || strings.Contains(by, "errgroup") {
				out = append(out, g)
			}
		}
	}
	return strings.Join(out, "\n\n")
}

// history renders the event log for a replay file.
func (s *sim) history() {
	s.c.Logf("config %s", s.k)
	for i, p := range s.pages {
		var to []string
		for _, l := range p.links {
			to = append(to, fmt.Sprintf("%d(%s)", l.to, l.raw))
		}
		s.c.Logf("page %d %s status %d script %v links %s", i, p.u.spell(nil), p.status, p.script, strings.Join(to, " "))
	}
	s.c.Logf("start %v", s.raws)
	for h, t := range s.robotsTxt {
		s.c.Logf("robots %s %d %q", h, s.robotsCode[h], t)
	}
	for _, e := range s.ev {
		s.c.Logf("%v %s %d %s", e.at, e.kind, e.page, e.info)
	}
}

// counts of an event kind per page.
func (s *sim) counts(kind string) map[int]int {
	m := map[int]int{}
	for _, e := range s.ev {
		if e.kind == kind {
			m[e.page]++
		}
	}
	return m
}

// order is a signature of the order of fetches and scrapes.
func (s *sim) order() string {
	var b strings.Builder
	for _, e := range s.ev {
		switch e.kind {
		case "fetch", "scrape", "fetch.", "scrape.":
			fmt.Fprintf(&b, "%s%d,", e.kind[:1]+e.kind[len(e.kind)-1:], e.page)
		}
	}
	return b.String()
}
