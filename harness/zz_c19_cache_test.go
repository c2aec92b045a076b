package zzverif

import (
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/antcache"
)

// ---- the origin ----------------------------------------------------------------

// cbody is a response body that reports how it was treated.
type cbody struct {
	data    []byte
	off     int
	failAt  int // -1: no
	eofWith bool
	lat     func()
	closed  int
	sawEOF  bool
	sawErr  bool
}

var errBody = errors.New("origin body broke")

func (b *cbody) Read(p []byte) (int, error) {
	if b.lat != nil {
		b.lat()
	}
	if b.closed > 0 {
		return 0, errors.New("read of a closed body")
	}
	end := len(b.data)
	if b.failAt >= 0 {
		end = b.failAt
	}
	n := copy(p, b.data[b.off:end])
	b.off += n
	if b.off == end && (n == 0 && len(p) > 0 || b.eofWith) {
		if b.failAt >= 0 {
			b.sawErr = true
			return n, errBody
		}
		b.sawEOF = true
		return n, io.EOF
	}
	return n, nil
}

func (b *cbody) Close() error { b.closed++; return nil }

// oresp is a response the origin gave.
type oresp struct {
	id      int
	tag     string // of the caller whose request it answers
	method  string
	url     string
	final   string
	status  int
	hdr     http.Header // as it left the origin
	reqh    http.Header // of the request it answers
	body    *cbody
	at      time.Time
	clen    int64
	proto   string
	err     error
	retried bool
}

type ctxTag struct{}

// cacheOrigin is a scripted antcache.Client.
type cacheOrigin struct {
	mu    sync.Mutex
	resps []*oresp
	next  func(req *http.Request, o *oresp) // fills in status, hdr, body...
	lat   func()
}

func (co *cacheOrigin) Do(req *http.Request) (*http.Response, error) {
	if co.lat != nil {
		co.lat()
	}
	tag, _ := req.Context().Value(ctxTag{}).(string)
	co.mu.Lock()
	o := &oresp{id: len(co.resps), tag: tag, method: req.Method, url: req.URL.String(), final: req.URL.String(), reqh: req.Header.Clone(), at: time.Now(), clen: -2, proto: "HTTP/1.1"}
	co.next(req, o)
	co.resps = append(co.resps, o)
	co.mu.Unlock()
	if o.err != nil && o.body == nil {
		return nil, o.err
	}
	resp := &http.Response{StatusCode: o.status, Status: fmt.Sprintf("%d %s", o.status, http.StatusText(o.status)), Header: o.hdr.Clone(), Body: o.body, Request: req}
	resp.Proto = o.proto
	resp.ProtoMajor, resp.ProtoMinor, _ = http.ParseHTTPVersion(o.proto)
	resp.ContentLength = o.clen
	if o.clen == -2 {
		resp.ContentLength = int64(len(o.body.data))
	}
	if o.final != o.url {
		u, err := url.Parse(o.final)
		if err != nil {
			panic(err)
		}
		r2 := req.Clone(req.Context())
		r2.URL = u
		resp.Request = r2
	}
	return resp, o.err
}

func (co *cacheOrigin) count() int { co.mu.Lock(); defer co.mu.Unlock(); return len(co.resps) }

// ---- the storage ---------------------------------------------------------------

// recStore records what the cache does with its storage and injects faults.
type recStore struct {
	mu      sync.Mutex
	m       map[uint64][]byte
	stores  int
	loads   int
	failL   error
	failS   error
	keys    map[uint64]int
	lat     func()
	inner   antcache.Storage
	changed func()
}

func (s *recStore) Store(ctx context.Context, key uint64, v []byte) error {
	if s.lat != nil {
		s.lat()
	}
	s.mu.Lock()
	s.stores++
	err := s.failS
	s.mu.Unlock()
	if err != nil {
		return err
	}
	if s.inner != nil {
		return s.inner.Store(ctx, key, v)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[key] = append([]byte(nil), v...)
	return nil
}

func (s *recStore) Load(ctx context.Context, key uint64) ([]byte, error) {
	if s.lat != nil {
		s.lat()
	}
	s.mu.Lock()
	s.loads++
	err := s.failL
	s.mu.Unlock()
	if err != nil {
		return nil, err
	}
	if s.inner != nil {
		return s.inner.Load(ctx, key)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if v, ok := s.m[key]; ok {
		return append([]byte(nil), v...), nil
	}
	return nil, nil
}

// ---- reference: directives and freshness ---------------------------------------------

// refCC collects the directives of all Cache-Control lines.
func refCC(h http.Header) map[string]string {
	m := map[string]string{}
	for _, line := range h["Cache-Control"] {
		for _, d := range strings.Split(line, ",") {
			d = strings.ToLower(strings.TrimSpace(d))
			if d == "" {
				continue
			}
			k, v, _ := strings.Cut(d, "=")
			m[k] = v
		}
	}
	if len(m) == 0 && strings.EqualFold(h.Get("Pragma"), "no-cache") {
		m["no-cache"] = ""
	}
	return m
}

// secs parses delta-seconds; numbers beyond int64 saturate.
func secs(m map[string]string, k string) (int64, bool) {
	v, ok := m[k]
	if !ok {
		return 0, false
	}
	n, err := strconv.ParseInt(v, 10, 64)
	if err != nil && !errors.Is(err, strconv.ErrRange) {
		return 0, false
	}
	const big = 1 << 40
	if n > big {
		n = big
	}
	if n < -big {
		n = -big
	}
	return n, true
}

func refTime(h http.Header, k string) (time.Time, bool) {
	t, err := time.Parse(time.RFC1123, h.Get(k))
	return t, err == nil
}

// refLifetime is the explicit lifetime of a response in seconds.
func refLifetime(h http.Header) (int64, bool) {
	if n, ok := secs(refCC(h), "max-age"); ok {
		return n, true
	}
	d, ok1 := refTime(h, "Date")
	e, ok2 := refTime(h, "Expires")
	if ok1 && ok2 {
		return e.Unix() - d.Unix(), true
	}
	return 0, false
}

// refBypass: the request may not use the cache.
func refBypass(method string, h http.Header) bool {
	_, ns := refCC(h)["no-store"]
	return method != "GET" && method != "HEAD" || ns || h.Get("Authorization") != "" || h.Get("Range") != "" || h.Get("Content-Range") != ""
}

var cacheableStatus = map[int]bool{200: true, 203: true, 204: true, 206: true, 300: true, 301: true, 404: true, 405: true, 410: true, 414: true, 501: true}

func refStorable(aggressive bool, method string, reqh http.Header, status int, h http.Header) bool {
	if refBypass(method, reqh) || !cacheableStatus[status] {
		return false
	}
	if _, ok := refTime(h, "Date"); !ok {
		return false
	}
	if aggressive {
		return true
	}
	if _, ok := refCC(h)["no-store"]; ok {
		return false
	}
	n, ok := refLifetime(h)
	return ok && n > 0
}

// refVaryMatch: the nominated headers of both requests agree.
func refVaryMatch(h http.Header, stored, now http.Header) bool {
	for _, line := range h["Vary"] {
		for _, k := range strings.Split(line, ",") {
			k = http.CanonicalHeaderKey(strings.TrimSpace(k))
			if k == "*" {
				return false
			}
			if k != "" && strings.Join(stored[k], ", ") != strings.Join(now[k], ", ") {
				return false
			}
		}
	}
	return true
}

const (
	dFresh = iota
	dValidate
	dRefetch
	dAsk     // validated or fetched anew
	dUnknown // not judged
)

// mustRevalidate: a response that may never be served stale.
func mustRevalidate(h http.Header) bool {
	_, ok := refCC(h)["must-revalidate"]
	return ok
}

// refDecide says what to do with a stored response; age in seconds.
func refDecide(aggressive bool, limit time.Duration, e *entry, reqh http.Header, now time.Time) int {
	cc := refCC(reqh)
	date, _ := refTime(e.hdr, "Date")
	age := now.Sub(date)
	_, nc := cc["no-cache"]
	if aggressive {
		if nc || age >= limit {
			return dAsk
		}
		return dFresh
	}
	if !refVaryMatch(e.hdr, e.reqh, reqh) {
		return dRefetch
	}
	if _, ok := refCC(e.hdr)["no-cache"]; ok || nc {
		return dValidate
	}
	if _, ok := cc["only-if-cached"]; ok {
		return dFresh
	}
	life, _ := refLifetime(e.hdr)
	if n, ok := secs(cc, "max-age"); ok && n < life {
		life = n
	}
	a := age
	if n, ok := secs(cc, "min-fresh"); ok {
		if life > 1<<32 && n > 1<<32 {
			return dUnknown // both beyond what a cache can tell apart
		}
		life -= n
	}
	if v, ok := cc["max-stale"]; ok && !mustRevalidate(e.hdr) {
		n, ok := secs(cc, "max-stale")
		if v == "" || !ok {
			return dFresh
		}
		life += n
	}
	// Compare whole and fractional seconds.
	if life > 1<<32 || life > -1<<32 && a.Nanoseconds() < life*1e9 {
		return dFresh
	}
	return dValidate
}

// entry is what the reference believes to be stored.
type entry struct {
	from   *oresp
	status int
	hdr    http.Header
	reqh   http.Header
	body   []byte
	final  string
	// refreshed is set when hdr comes from a validation: only these are judged.
	refreshed map[string]bool
}

// ---- generators ------------------------------------------------------------------

func casing(r *rand.Rand, s string) string {
	switch r.Intn(5) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

// setCC spreads directives over header lines.
func setCC(r *rand.Rand, h http.Header, ds []string) {
	if len(ds) == 0 {
		return
	}
	r.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	cur := ""
	for i, d := range ds {
		d = casing(r, d)
		if i > 0 && chance(r, .35) {
			h.Add("Cache-Control", cur)
			cur = d
			continue
		}
		if cur != "" {
			cur += pick(r, ",", ", ", " , ", ",,", ",\t")
		}
		cur += d
	}
	h.Add("Cache-Control", cur)
}

var langs = []string{"en", "fr", "en, fr", ""}

// genReqHeader draws the headers of a request; kind steers what it is about.
func genReqHeader(r *rand.Rand, kind string) http.Header {
	h := http.Header{"Accept": {"text/html"}}
	if chance(r, .5) {
		h.Set("User-Agent", pick(r, "a", "b"))
	}
	if chance(r, .6) {
		if l := pick(r, langs...); l != "" {
			if l == "en, fr" && chance(r, .5) {
				h["Accept-Language"] = []string{"en", "fr"}
			} else {
				h.Set("Accept-Language", l)
			}
			if chance(r, .06) {
				h.Set("Accept-Language", pick(r, "EN", "En", "fR", "en;q=0.5", strings.Repeat("en, ", 40)+"fr", strings.Repeat("en, ", 40)+"de"))
			}
		}
	}
	var ds []string
	p := func(x float64, d string) {
		if chance(r, x) {
			ds = append(ds, d)
		}
	}
	n := pick(r, 0, 1, 5, 10, 30, 60, 100)
	switch kind {
	case "plain":
	case "bypass":
		switch r.Intn(5) {
		case 0:
			ds = append(ds, "no-store")
		case 1:
			h.Set("Authorization", "Bearer x")
		case 2:
			h.Set("Range", "bytes=0-1")
		case 3:
			h.Set("Content-Range", "bytes 0-1/2")
		}
		p(.2, "max-age=50")
		p(.2, "no-cache")
	default:
		p(.12, "no-cache")
		p(.12, "only-if-cached")
		p(.25, fmt.Sprint("max-age=", pick(r, n, n, n, 0, 1<<20, -5)))
		if chance(r, .06) {
			ds = append(ds, pick(r, "max-age=99999999999", "max-age=9223372036854775807", "max-age=99999999999999999999"))
			break
		}
		if chance(r, .06) {
			ds = append(ds, pick(r, "min-fresh=9223372036", "min-fresh=9223372036854775807", "min-fresh=18446744073709551616"))
			break
		}
		if chance(r, .06) {
			ds = append(ds, pick(r, "max-stale=9223372037", "max-stale=9223372036854775807"))
			break
		}
		p(.15, fmt.Sprint("min-fresh=", n))
		p(.2, pick(r, "max-stale", fmt.Sprint("max-stale=", n)))
		p(.2, pick(r, "stale-if-error", fmt.Sprint("stale-if-error=", n)))
		p(.1, "no-transform")
		if len(ds) == 0 && chance(r, .1) {
			h.Set("Pragma", pick(r, "no-cache", "No-Cache"))
		}
	}
	// A name more than once would be ambiguous.
	seen := map[string]bool{}
	out := ds[:0]
	for _, d := range ds {
		k, _, _ := strings.Cut(d, "=")
		if !seen[k] {
			out = append(out, d)
		}
		seen[k] = true
	}
	setCC(r, h, out)
	return h
}

// genRespHeader draws response headers; storable makes them most likely so.
func genRespHeader(r *rand.Rand, id int, storable bool) http.Header {
	h := http.Header{"X-Id": {fmt.Sprint(id)}, "Content-Type": {pick(r, "text/html", "text/plain; charset=\"utf-8\"", "application/octet-stream")}}
	now := time.Now().UTC()
	date := now.Add(-time.Duration(pick(r, 0, 0, 0, 1, 5, 30, 100)) * time.Second).Truncate(time.Second)
	if storable || chance(r, .85) {
		h.Set("Date", date.Format(http.TimeFormat))
	} else if chance(r, .4) {
		h.Set("Date", pick(r, "yesterday", "0", "2020-01-01"))
	}
	var ds []string
	n := pick(r, 1, 5, 10, 30, 60, 100, 3600)
	switch {
	case storable:
		if chance(r, .75) {
			ds = append(ds, fmt.Sprint("max-age=", n))
			if chance(r, .05) {
				ds[0] = pick(r, "max-age=99999999999", "max-age=9223372036854775807", "max-age=99999999999999999999", "max-age=31536000")
			}
			if chance(r, .2) {
				h.Set("Expires", date.Add(time.Duration(pick(r, -100, 0, 5, 1000))*time.Second).Format(http.TimeFormat))
			}
		} else {
			h.Set("Expires", date.Add(time.Duration(n)*time.Second).Format(http.TimeFormat))
			if chance(r, .05) {
				h.Set("Expires", "Fri, 31 Dec 9999 23:59:59 GMT")
			}
		}
	default:
		if chance(r, .6) {
			ds = append(ds, fmt.Sprint("max-age=", pick(r, n, n, 0, -1, -1000)))
		}
		if chance(r, .4) {
			h.Set("Expires", pick(r, date.Add(time.Duration(pick(r, -100, -1, 0, 1, 5, 1000))*time.Second).Format(http.TimeFormat), "0", "-1", "never"))
		}
		if chance(r, .25) {
			ds = append(ds, "no-store")
		}
	}
	if chance(r, .08) {
		ds = append(ds, "no-cache")
	}
	if chance(r, .15) {
		ds = append(ds, "must-revalidate")
	}
	for _, d := range []string{"public", "private", "proxy-revalidate", "must-understand", "immutable", "s-maxage=7", "x-no-store", "x-max-age=0"} {
		if chance(r, .08) {
			ds = append(ds, d)
		}
	}
	setCC(r, h, ds)
	if chance(r, .6) {
		h.Set("ETag", pick(r, `"e`, `W/"e`)+fmt.Sprint(id)+`"`)
	}
	if chance(r, .5) {
		h.Set("Last-Modified", now.Add(-time.Duration(r.Intn(5000))*time.Second).Format(http.TimeFormat))
	}
	if chance(r, .35) {
		for i := 0; i < 1+r.Intn(2); i++ {
			h.Add("Vary", pick(r, "Accept-Language", "accept-language, User-Agent", "User-Agent", "X-Nope", "*", "Accept,Accept-Language", ""))
		}
	}
	if chance(r, .3) {
		h["Set-Cookie"] = []string{"a=1; Path=/", "b=2"}
	}
	if chance(r, .3) {
		h.Set("X-Custom", fmt.Sprintf("c%d: with, commas; and \"quotes\"", id))
	}
	return h
}

func genBodyBytes(r *rand.Rand, id int) []byte {
	n := pick(r, 0, 1, 10, 200, 5000, 5000, 40000)
	if chance(r, .0007) {
		// Larger than any limit that means to be generous.
		b := make([]byte, 2<<20+r.Intn(16<<20))
		r.Read(b)
		return b
	}
	b := make([]byte, 0, n+20)
	b = append(b, fmt.Sprintf("<%d>", id)...)
	for len(b) < n {
		switch r.Intn(4) {
		case 0:
			b = append(b, "\r\n0\r\n\r\nHTTP/1.1 200 OK\r\n\r\n"...)
		case 1:
			b = append(b, byte(r.Intn(256)), 0, 0xff)
		default:
			b = append(b, "text text text\n"...)
		}
	}
	return b[:n]
}

func fillBody(r *rand.Rand, o *oresp) {
	b := &cbody{failAt: -1, eofWith: chance(r, .3)}
	if o.method != "HEAD" && o.status != 204 && o.status != 304 {
		b.data = genBodyBytes(r, o.id)
	}
	o.body = b
	o.hdr.Del("Content-Length")
	switch {
	case o.method == "HEAD":
		o.clen = pick[int64](r, -1, 0, 1234)
		if o.clen >= 0 {
			o.hdr.Set("Content-Length", fmt.Sprint(o.clen))
		}
	case o.status == 204, o.status == 304:
		o.clen = 0
	default:
		o.clen = int64(len(b.data))
		if chance(r, .4) {
			o.clen = -1 // chunked, or until the connection closes
		} else if chance(r, .7) {
			o.hdr.Set("Content-Length", fmt.Sprint(o.clen))
		}
	}
	o.proto = pick(r, "HTTP/1.1", "HTTP/1.1", "HTTP/2.0", "HTTP/1.0")
}

// ---- the sequential workload ---------------------------------------------------------

type cacheRun struct {
	c          *C
	r          *rand.Rand
	prop       string
	aggressive bool
	long       bool // the values of a header agree on much of what they begin with
	limit      time.Duration
	cache      *antcache.Cache
	co         *cacheOrigin
	st         *recStore // nil: the default storage
	ref        map[string]*entry
	plan       func(req *http.Request, o *oresp)
	dead       bool
	n          int
}

// bad reports a breach that belongs to one of the properties; in any case the
// reference does not follow any more.
func (cr *cacheRun) bad(props, key, f string, a ...any) {
	cr.dead = true
	if strings.Contains(props, cr.prop) {
		cr.c.Violate(key, f, a...)
	} else {
		cr.c.Count("cases cut short by another property", 1)
	}
}

func newCacheRun(c *C, prop string, aggressive bool) *cacheRun {
	r := c.Rng
	cr := &cacheRun{c: c, r: r, prop: prop, aggressive: aggressive, long: chance(r, .1), ref: map[string]*entry{}}
	cr.co = &cacheOrigin{}
	cr.co.next = func(req *http.Request, o *oresp) { cr.plan(req, o) }
	var opts []antcache.Option
	if aggressive {
		d := pick(r, 0, -time.Second, time.Minute, 10*time.Minute, time.Hour, time.Second, 1500*time.Millisecond, 8*24*time.Hour, 400*24*time.Hour)
		cr.limit = d
		if d <= 0 {
			cr.limit = 24 * time.Hour
		}
		opts = append(opts, antcache.Aggressive(d))
	}
	if chance(r, .8) {
		cr.st = &recStore{m: map[uint64][]byte{}}
		opts = append(opts, antcache.WithStorage(cr.st))
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	cache, err := antcache.New(cr.co, opts...)
	if err != nil {
		panic(err)
	}
	cr.cache = cache
	return cr
}

// defaultPlan answers with something fresh, or to a validation as mode says.
func (cr *cacheRun) answer(storable bool) {
	r := cr.r
	cr.plan = func(req *http.Request, o *oresp) {
		o.status = pick(r, 200, 200, 200, 203, 404, 301, 410, 206, 204)
		if !storable {
			o.status = pick(r, 200, 200, 200, 203, 204, 206, 300, 301, 404, 405, 410, 414, 501, 201, 302, 307, 400, 403, 500, 503)
		}
		o.hdr = genRespHeader(r, o.id, storable)
		if cr.aggressive && chance(r, .08) { // the origin's clock is ahead
			if _, ok := refTime(o.hdr, "Date"); ok {
				o.hdr.Set("Date", time.Now().UTC().Add(time.Duration(1+r.Intn(100))*time.Second).Format(http.TimeFormat))
			}
		}
		if chance(r, .15) {
			o.final = fmt.Sprintf("http://moved.test/to/%d?x=1", o.id)
		}
		fillBody(r, o)
	}
}

// how the caller treats the body it gets.
const (
	readAll = iota
	readExact
	readPart
	readNone
	neverClose
	brokenBody
)

func cloneReq(req *http.Request) (http.Header, string) { return req.Header.Clone(), req.URL.String() }

// consume reads a response the way mode says and returns the bytes.
func (cr *cacheRun) consume(resp *http.Response, mode int) (data []byte, rerr, cerr error, complete, maybe bool) {
	r := cr.r
	size := pick(r, 1, 7, 512, 4096, 1<<16)
	buf := make([]byte, size)
	limit := -1
	switch mode {
	case readPart, neverClose:
		limit = r.Intn(3000)
	case readNone:
		limit = 0
	}
	for limit != 0 {
		p := buf
		if limit > 0 && len(p) > limit {
			p = p[:limit]
		}
		n, err := resp.Body.Read(p)
		data = append(data, p[:n]...)
		if limit > 0 {
			limit -= n
			if limit <= 0 {
				limit = 0
			}
		}
		if err == io.EOF {
			complete = true
			break
		}
		if err != nil {
			rerr = err
			break
		}
		if mode == readExact && resp.ContentLength >= 0 && int64(len(data)) >= resp.ContentLength {
			break
		}
	}
	if mode == neverClose {
		return
	}
	cerr = resp.Body.Close()
	if chance(r, .2) {
		resp.Body.Close()
	}
	return
}

// step does one request and judges everything about it.  It returns the
// response's reference entry or nil.
func (cr *cacheRun) step(method, u, kind string, mode int) {
	c, r := cr.c, cr.r
	cr.n++
	h := genReqHeader(r, kind)
	if l := h.Get("Accept-Language"); cr.long && l != "" {
		h.Set("Accept-Language", strings.Repeat("xx, ", 50)+l)
	}
	req, err := http.NewRequest(method, u, nil)
	if err != nil {
		panic(err)
	}
	req.Header = h
	tag := fmt.Sprint(cr.n)
	req = req.WithContext(context.WithValue(context.Background(), ctxTag{}, tag))
	wantH, wantU := cloneReq(req)
	key := method + " " + u
	before := cr.co.count()
	storesBefore := 0
	if cr.st != nil {
		storesBefore = cr.st.stores
	}
	e := cr.ref[key]
	bypass := refBypass(method, h)
	now := time.Now()
	c.Logf("%v %s %s %v body %d (%s)", now.Sub(start2000), method, u, h, mode, kind)

	resp, err := cr.c.resp(cr.cache.Do(req))

	asked := cr.co.resps[before:]
	for _, o := range asked {
		c.Logf("  origin answered #%d to %v: %d %v (%d bytes, length %d, %s) err %v", o.id, o.reqh, o.status, o.hdr, blen(o.body), o.clen, o.proto, o.err)
	}
	if g, gu := cloneReq(req); fmt.Sprint(g) != fmt.Sprint(wantH) || gu != wantU {
		cr.bad("C19 C22", "request-changed", "the caller's request was changed from %v to %v", wantH, g)
		return
	}
	prim := map[bool]string{false: "C21", true: "C23"}[cr.aggressive]
	store := map[bool]string{false: "C20", true: "C23"}[cr.aggressive]

	var want *entry     // what the caller has to get, when it is a stored response
	var from *oresp     // what the caller has to get, when it is an answer of the origin
	canStore := false   // a complete read and Close stores it
	var stored *entry   // as this
	storeLabel := store // and else this is broken
	plainAsk := func(label string) bool {
		if len(asked) != 1 {
			cr.bad(label, "not-asked", "%s %s %v: the origin was asked %d times, want once", method, u, h, len(asked))
			return false
		}
		if fmt.Sprint(asked[0].reqh) != fmt.Sprint(wantH) || asked[0].url != u || asked[0].method != method {
			cr.bad(label, "request-changed", "%s %s %v reached the origin as %s %s %v", method, u, wantH, asked[0].method, asked[0].url, asked[0].reqh)
			return false
		}
		return true
	}
	dec := -1
	if e != nil && !bypass {
		dec = refDecide(cr.aggressive, cr.limit, e, h, now)
	}
	switch {
	case dec == dUnknown:
		cr.dead = true
		if resp != nil {
			resp.Body.Close()
		}
		return
	case bypass:
		c.Count("requests that bypass the cache", 1)
		if !plainAsk("C20 C23") {
			return
		}
		from = asked[0]
	case e == nil:
		if !plainAsk("C19 C20 C21 C22 C23") {
			return
		}
		from = asked[0]
		canStore = true
	case dec == dFresh:
		if len(asked) != 0 {
			cr.bad(prim, "not-served", "%s %s %v: the stored response %v (stored for %v) is fresh at age %v, but the origin was asked", method, u, h, e.hdr, e.reqh, age(e, now))
			return
		}
		c.Count("served from the cache", 1)
		want = e
	case dec == dRefetch || dec == dAsk:
		if len(asked) == 0 {
			cr.bad(prim, "not-asked", "%s %s %v: the stored response %v (stored for %v) may not be used at age %v, but it was", method, u, h, e.hdr, e.reqh, age(e, now))
			return
		}
		if len(asked) != 1 {
			cr.bad(prim, "asked-twice", "%s %s: the origin was asked %d times", method, u, len(asked))
			return
		}
		c.Count("stored responses not usable", 1)
		from = asked[0]
		canStore = true
		if from.status == 304 || from.err != nil {
			canStore = false
		}
	case dec == dValidate:
		storeLabel = "C22"
		if len(asked) == 0 {
			cr.bad(prim, "not-asked", "%s %s %v: the stored response %v (stored for %v) is stale at age %v, but it was used unvalidated", method, u, h, e.hdr, e.reqh, age(e, now))
			return
		}
		if len(asked) != 1 {
			cr.bad("C22", "asked-twice", "%s %s: validating asked the origin %d times", method, u, len(asked))
			return
		}
		o := asked[0]
		wh := wantH.Clone()
		own := false
		for _, v := range [][2]string{{"If-None-Match", "ETag"}, {"If-Modified-Since", "Last-Modified"}} {
			if x := wantH.Get(v[0]); x != "" {
				own = own || x != e.hdr.Get(v[1])
			} else if x := e.hdr.Get(v[1]); x != "" {
				wh.Set(v[0], x)
			}
		}
		if fmt.Sprint(o.reqh) != fmt.Sprint(wh) || o.url != u || o.method != method {
			cr.bad("C22", "validators", "validating %v asked the origin with %s %s %v, want %v", e.hdr, o.method, o.url, o.reqh, wh)
			return
		}
		_, sie := refCC(wantH)["stale-if-error"]
		switch {
		case o.err != nil:
			c.Count("validations that failed", 1)
			if err == nil || !errors.Is(err, o.err) {
				cr.bad("C22", "client-error", "validation failed with %v, Do returned %v, %v", o.err, resp, err)
				return
			}
			if o.body != nil && o.body.closed == 0 {
				cr.bad("C22", "unclosed", "the client returned a response with its error %v, it was not closed", o.err)
			}
			return
		case o.status >= 500:
			c.Count("validations answered 5xx", 1)
			if sie && mustRevalidate(e.hdr) {
				c.Count("errors handed on as the response must be revalidated", 1)
				from = o
			} else if sie {
				c.Count("stale responses served on error", 1)
				want = e
			} else {
				from = o
			}
		case o.status == 304 && own && o.reqh.Get("If-None-Match") != e.hdr.Get("ETag"):
			c.Count("304 to the client's own validators", 1)
			from = o
		case o.status == 304:
			c.Count("validations answered 304", 1)
			ne := *e
			ne.hdr = e.hdr.Clone()
			ne.refreshed = map[string]bool{}
			for _, k := range []string{"Date", "Cache-Control", "Expires", "Etag", "X-Custom", "Last-Modified", "Vary", "X-Id", "Content-Type", "Set-Cookie"} {
				if v, ok := o.hdr[k]; ok {
					ne.hdr[k] = append([]string(nil), v...)
				}
				ne.refreshed[k] = true
			}
			ne.reqh = wantH
			want = &ne
			if refStorable(cr.aggressive, method, wantH, e.status, ne.hdr) {
				stored = &ne
				canStore = true
			} else {
				c.Count("304 that forbid storing", 1)
			}
		default:
			c.Count("validations answered in full", 1)
			from = o
			canStore = true
		}
		if o.body != nil && want != nil && o.body.closed == 0 {
			cr.bad("C22", "unclosed", "the %d answer to the validation was not handed on and not closed", o.status)
			return
		}
	}
	if from != nil && from.err != nil {
		if err == nil || !errors.Is(err, from.err) {
			cr.bad("C19", "client-error", "the client failed with %v, Do returned %v, %v", from.err, resp, err)
		}
		if from.body != nil && from.body.closed == 0 && resp == nil {
			cr.bad("C19 C22", "unclosed", "the client returned a response with its error %v, it was neither closed nor handed on", from.err)
		}
		if resp != nil {
			resp.Body.Close()
		}
		return
	}
	if err != nil || resp == nil {
		cr.bad("C19 "+prim, "error", "%s %s %v failed: %v", method, u, h, err)
		return
	}

	// What the caller got.
	wstatus, whdr, wbody, wfinal := 0, http.Header(nil), []byte(nil), ""
	failAt := -1
	if want != nil {
		wstatus, whdr, wbody, wfinal = want.status, want.hdr, want.body, want.final
	} else {
		wstatus, whdr, wbody, wfinal = from.status, from.hdr, from.body.data, from.final
		failAt = from.body.failAt
	}
	label := "C19"
	if dec == dValidate {
		label = "C19 C22"
	}
	if cr.aggressive {
		label += " C23"
	}
	if resp.StatusCode != wstatus {
		cr.bad(label, "status", "%s %s: the caller got status %d, want %d", method, u, resp.StatusCode, wstatus)
		return
	}
	var only map[string]bool
	if want != nil {
		only = want.refreshed
	}
	if d := headerDiff(resp.Header, whdr, only); d != "" {
		cr.bad(label, "headers", "%s %s: %s", method, u, d)
		return
	}
	if resp.Request == nil || resp.Request.URL.String() != wfinal {
		cr.bad("C19", "final-url", "%s %s was served from %s, the response says %v", method, u, wfinal, resp.Request.URL)
		return
	}
	if resp.Body == nil {
		cr.bad(label, "body", "no body")
		return
	}
	rangeLen := resp.Header.Get("Content-Length")
	if rangeLen != "" && method == "GET" && wstatus != 304 && rangeLen != fmt.Sprint(len(wbody)) {
		cr.bad(label, "length", "%s %s: Content-Length %s, the body has %d bytes", method, u, rangeLen, len(wbody))
		return
	}
	failLoad := false
	if cr.st != nil && chance(r, .04) && canStore {
		cr.st.failS = fmt.Errorf("store broke %d", cr.n)
		failLoad = true
	}
	// The caller owns the headers it got.
	if chance(r, .2) {
		resp.Header.Set("X-Custom", "mutated by the caller")
		resp.Header.Del("Date")
	}
	if chance(r, .1) {
		time.Sleep(time.Duration(r.Intn(5)) * time.Second)
	}
	data, rerr, cerr, complete, _ := cr.consume(resp, mode)
	if failAt >= 0 {
		wbody = wbody[:failAt]
	}
	if rerr != nil && !(failAt >= 0 && errors.Is(rerr, errBody)) {
		cr.bad(label, "read-error", "%s %s: reading the body failed: %v", method, u, rerr)
		return
	}
	if complete && failAt >= 0 {
		cr.bad("C19", "truncated", "%s %s: the origin's body broke after %d bytes, the caller saw it end after %d", method, u, failAt, len(data))
		return
	}
	if len(data) > len(wbody) || !bytes.Equal(data, wbody[:len(data)]) || (complete || rerr != nil) && len(data) != len(wbody) {
		cr.bad(label, "body", "%s %s: the caller read %s, want %s", method, u, abbr(data), abbr(wbody))
		return
	}
	c.Count("bodies compared", 1)
	if mode != neverClose && from != nil && from.body.closed == 0 {
		cr.bad("C19 C22", "unclosed", "the caller closed the body, the origin's was not closed")
		return
	}
	if cr.st != nil {
		cr.st.failS = nil
	}

	// What was stored.
	if from != nil && canStore {
		if refStorable(cr.aggressive, method, wantH, from.status, from.hdr) {
			stored = &entry{from: from, status: from.status, hdr: from.hdr, reqh: wantH, body: from.body.data, final: from.final}
		}
	}
	must, may := false, false
	if stored != nil && canStore && mode != neverClose {
		must = complete && !(failAt >= 0)
		may = must || failAt < 0 && len(data) == len(wbody)
	}
	if cr.st != nil {
		did := cr.st.stores > storesBefore
		switch {
		case did && !may:
			switch {
			case stored != nil || from != nil && !complete:
				cr.bad("C19", "stored-partial", "%s %s: stored although only %d of %d bytes were read (closed: %v, broke: %v)", method, u, len(data), blen2(want, from), mode != neverClose, rerr)
			default:
				cr.bad(storeLabel, "stored", "%s %s %v: the response %d %v was stored, it may not be", method, u, wantH, wstatus, whdr)
			}
			return
		case !did && must:
			cr.bad(storeLabel, "not-stored", "%s %s %v: the response %d %v was not stored, it should be", method, u, wantH, wstatus, whdr)
			return
		}
		if cr.st.stores > storesBefore+1 {
			cr.bad("C19", "stored-twice", "%s %s: stored %d times", method, u, cr.st.stores-storesBefore)
			return
		}
		if failLoad {
			if did && cerr == nil {
				cr.bad("C19", "store-error", "the storage failed, Close returned no error")
			}
			c.Count("storage errors injected", 1)
			return
		}
		if did {
			cr.ref[key] = stored
			c.Count("responses stored", 1)
		} else {
			c.Count("responses not stored", 1)
		}
	} else if may {
		if !must {
			cr.dead = true // cannot know
			return
		}
		cr.ref[key] = stored
		c.Count("responses stored", 1)
	} else {
		c.Count("responses not stored", 1)
	}
	if cerr != nil {
		cr.bad("C19", "close-error", "%s %s: Close failed: %v", method, u, cerr)
	}
}

var start2000 = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

func blen(b *cbody) int {
	if b == nil {
		return -1
	}
	return len(b.data)
}

func blen2(e *entry, o *oresp) int {
	if e != nil {
		return len(e.body)
	}
	return len(o.body.data)
}

func age(e *entry, now time.Time) time.Duration {
	d, _ := refTime(e.hdr, "Date")
	return now.Sub(d)
}

func abbr(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%q (%d bytes)", b, len(b))
}

// unjudged headers describe the message's framing or are the cache's own.
var unjudged = map[string]bool{"Content-Length": true, "Transfer-Encoding": true, "Connection": true, "Trailer": true, "X-From-Cache": true, "Keep-Alive": true}

func headerDiff(got, want http.Header, only map[string]bool) string {
	var keys []string
	for k := range got {
		keys = append(keys, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if unjudged[k] || only != nil && !only[k] {
			continue
		}
		if strings.Join(got[k], "\x00") != strings.Join(want[k], "\x00") {
			return fmt.Sprintf("header %s is %q, want %q", k, got[k], want[k])
		}
	}
	return ""
}

// cacheCase runs a history against one cache and judges what belongs to prop.
func cacheCase(prop string) func(c *C) {
	return func(c *C) {
		c.Bubble(func() {
			r := c.Rng
			aggressive := prop == "C23" || prop == "C19" && chance(r, .3)
			cr := newCacheRun(c, prop, aggressive)
			urls := []string{"http://a.test/1", "http://a.test/2?q=1", "https://b.test/"}
			time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
			steps := 3 + r.Intn(12)
			for i := 0; i < steps && !cr.dead; i++ {
				u := pick(r, urls[:1+r.Intn(len(urls))]...)
				method := pick(r, "GET", "GET", "GET", "HEAD")
				kind := pick(r, "any", "any", "plain")
				mode := pick(r, readAll, readAll, readAll, readAll, readExact)
				storable := chance(r, .8)
				p := .1
				switch prop {
				case "C19":
					mode = pick(r, readAll, readAll, readAll, readExact, readPart, readNone, neverClose, brokenBody)
				case "C20":
					storable = chance(r, .3)
					p = .3
				case "C22":
					storable = chance(r, .85)
				case "C23":
					p = .2
				}
				if chance(r, p) {
					kind = "bypass"
					if chance(r, .3) {
						method = pick(r, "POST", "PUT", "DELETE", "OPTIONS", "get", "PATCH")
					}
				}
				cr.answer(storable)
				base := cr.plan
				cr.plan = func(req *http.Request, o *oresp) {
					base(req, o)
					cond := req.Header.Get("If-None-Match") != "" || req.Header.Get("If-Modified-Since") != ""
					q := r.Float64()
					switch {
					case cond && q < .5:
						o.status = 304
						h := http.Header{"X-Id": {fmt.Sprint(o.id)}, "Date": {time.Now().UTC().Format(http.TimeFormat)}}
						for _, k := range []string{"Cache-Control", "Expires", "Etag", "X-Custom", "Set-Cookie", "Last-Modified"} {
							if v, ok := o.hdr[k]; ok && (k == "Cache-Control" || chance(r, .5)) {
								h[k] = v
							}
						}
						if chance(r, .1) {
							h.Set("Content-Type", "text/html; charset=new")
						}
						if chance(r, .1) {
							h["Cache-Control"] = []string{pick(r, "no-store", "max-age=60", "no-cache, max-age=60", "max-age=0")}
						}
						if chance(r, .2) {
							h.Set("Content-Length", "99")
						}
						o.hdr, o.final = h, o.url
						fillBody(r, o)
						if chance(r, .2) {
							o.hdr.Set("Content-Length", "99")
						}
					case q < .6:
						o.status = pick(r, 500, 502, 503, 504, 501, 599)
						fillBody(r, o)
					case q < .64:
						o.err = failure(fmt.Sprint("client ", o.id), o.id)
						if chance(r, .5) {
							o.body = nil
						}
					case q < .7 && prop != "C23":
						o.status, o.hdr = 200, genRespHeader(r, o.id, false)
						fillBody(r, o)
					}
					if o.err == nil && mode == brokenBody && len(o.body.data) > 0 {
						o.body.failAt = r.Intn(len(o.body.data))
					}
				}
				// Come close to where something stored expires.
				if e := cr.ref[method+" "+u]; e != nil && chance(r, .7) {
					life, _ := refLifetime(e.hdr)
					d, _ := refTime(e.hdr, "Date")
					target := d.Add(time.Duration(min(life, 100000)) * time.Second)
					if cr.aggressive {
						target = d.Add(cr.limit)
					}
					target = target.Add(pick(r, -time.Second, -time.Nanosecond, 0, time.Nanosecond, time.Second, -10*time.Second, 5*time.Second, 30*time.Second, 200*time.Second, -40*time.Second))
					if w := time.Until(target); w > 0 {
						time.Sleep(w)
					}
				} else {
					time.Sleep(time.Duration(r.Intn(pick(r, 1, 2000, 20000))) * time.Millisecond)
				}
				if prop == "C22" || prop == "C21" {
					cr.stepOwn(method, u, kind, mode, chance(r, .12))
				} else {
					cr.step(method, u, kind, mode)
				}
			}
			c.Sig(cr.sig())
			if cr.n < 5 && !cr.dead {
				c.mu.Lock()
				h := append([]string(nil), c.hist...)
				c.mu.Unlock()
				c.Sample(h)
			}
		})
	}
}

// ownValidators makes the next request conditional by itself.
func (cr *cacheRun) stepOwn(method, u, kind string, mode int, own bool) {
	if !own {
		cr.step(method, u, kind, mode)
		return
	}
	e := cr.ref[method+" "+u]
	cr.ownStep(method, u, e)
}

// ownStep is a request with validators of the client's own to something that
// has to be validated.
func (cr *cacheRun) ownStep(method, u string, e *entry) {
	c, r := cr.c, cr.r
	if e == nil || cr.aggressive {
		cr.step(method, u, "plain", readAll)
		return
	}
	cr.n++
	h := e.reqh.Clone() // vary agrees
	for _, k := range []string{"Cache-Control", "Pragma", "If-None-Match", "If-Modified-Since"} {
		h.Del(k)
	}
	h.Set("Cache-Control", "no-cache")
	if !refVaryMatch(e.hdr, e.reqh, h) {
		return
	}
	etag, lm := e.hdr.Get("ETag"), e.hdr.Get("Last-Modified")
	same := false
	switch {
	case chance(r, .7) || lm == "":
		h.Set("If-None-Match", pick(r, `"client"`, etag, `"client"`))
		if h.Get("If-None-Match") == "" {
			h.Set("If-None-Match", `"client"`)
		}
		same = h.Get("If-None-Match") == etag
	case etag == "":
		h.Set("If-Modified-Since", pick(r, "Sat, 01 Jan 2000 00:00:00 GMT", lm))
		same = h.Get("If-Modified-Since") == lm
	default:
		h.Set("If-Modified-Since", "Sat, 01 Jan 2000 00:00:00 GMT")
		same = true // the stored ETag goes along and decides
	}
	req, _ := http.NewRequest(method, u, nil)
	req.Header = h.Clone()
	cr.plan = func(req *http.Request, o *oresp) {
		o.status, o.hdr = 304, http.Header{"X-Id": {fmt.Sprint(o.id)}, "X-Origin": {"304"}, "Date": {time.Now().UTC().Format(http.TimeFormat)}}
		fillBody(r, o)
	}
	before := cr.co.count()
	resp, err := cr.c.resp(cr.cache.Do(req))
	if err != nil {
		cr.bad("C22", "error", "a conditional request failed: %v", err)
		return
	}
	if n := cr.co.count() - before; n != 1 {
		cr.bad("C21 C22", "asked", "a no-cache request asked the origin %d times", n)
		return
	}
	data, _ := io.ReadAll(resp.Body)
	resp.Body.Close()
	c.Count("requests with validators of their own", 1)
	if same {
		if resp.StatusCode != e.status || !bytes.Equal(data, e.body) {
			cr.bad("C22", "validated", "%v was validated, the caller got %d with %s, want %d with %s", e.hdr, resp.StatusCode, abbr(data), e.status, abbr(e.body))
		}
		cr.dead = true
		return
	}
	c.Count("304 to the client's own validators", 1)
	if resp.StatusCode != 304 {
		cr.bad("C22", "own-validators", "the client's own validators %v were confirmed by a 304, it got %d with the stored response %v", h, resp.StatusCode, e.hdr)
	}
	if cr.co.resps[before].body.closed == 0 {
		cr.bad("C22", "unclosed", "the 304 was not closed")
	}
}

func (cr *cacheRun) sig() string {
	var b strings.Builder
	for _, o := range cr.co.resps {
		fmt.Fprint(&b, o.method, o.url, o.status, o.hdr, o.reqh, ";")
	}
	return b.String()
}

// ---- C19: concurrency, storage faults, real transports --------------------------------

// mixCase: many goroutines share one cache over a slow origin and storage.
func mixCase(c *C) {
	c.Bubble(func() {
		r := c.Rng
		var rmu sync.Mutex
		rnd := func(n int) int { rmu.Lock(); defer rmu.Unlock(); return r.Intn(n) }
		co := &cacheOrigin{}
		co.lat = func() { time.Sleep(time.Duration(rnd(20)) * time.Millisecond) }
		co.next = func(req *http.Request, o *oresp) {
			rmu.Lock()
			defer rmu.Unlock()
			o.status = 200
			o.hdr = http.Header{"X-Id": {fmt.Sprint(o.id)}, "Date": {time.Now().UTC().Format(http.TimeFormat)}, "Cache-Control": {pick(r, "max-age=1", "max-age=2", "max-age=100", "no-store")}, "Etag": {fmt.Sprintf(`"%d"`, o.id)}}
			if req.Header.Get("If-None-Match") != "" && chance(r, .5) {
				o.status = 304
			}
			n := pick(r, 0, 30, 3000)
			o.body = &cbody{failAt: -1, eofWith: chance(r, .5)}
			if o.status == 200 && req.Method == "GET" {
				o.body.data = []byte(strings.Repeat(fmt.Sprintf("<%d %s>", o.id, req.URL.Path), n/8+1))
				if chance(r, .15) {
					o.body.failAt = r.Intn(len(o.body.data))
				}
			}
			o.clen = int64(len(o.body.data))
			if chance(r, .5) {
				o.clen = -1
			}
			if chance(r, .6) {
				o.body.lat = func() { time.Sleep(time.Duration(rnd(3)) * time.Millisecond) }
			}
		}
		st := &recStore{m: map[uint64][]byte{}, lat: func() { time.Sleep(time.Duration(rnd(4)) * time.Millisecond) }}
		opts := []antcache.Option{antcache.WithStorage(st)}
		if chance(r, .3) {
			opts = opts[:0] // the default storage
		}
		if chance(r, .3) {
			opts = append(opts, antcache.Aggressive(2*time.Second))
		}
		cache, err := antcache.New(co, opts...)
		if err != nil {
			panic(err)
		}
		var mu sync.Mutex
		read := map[int]bool{} // origin responses somebody read to their end and closed, or may have
		G := 2 + r.Intn(5)
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			rmu.Lock()
			rg := rand.New(rand.NewSource(r.Int63()))
			rmu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.guard(func() {
					for i := 0; i < 6; i++ {
						time.Sleep(time.Duration(rg.Intn(pick(rg, 1, 10, 1500))) * time.Millisecond)
						method := pick(rg, "GET", "GET", "GET", "HEAD")
						u := pick(rg, "http://a.test/1", "http://a.test/2")
						tag := fmt.Sprintf("%d.%d", g, i)
						req, _ := http.NewRequestWithContext(context.WithValue(context.Background(), ctxTag{}, tag), method, u, nil)
						if chance(rg, .2) {
							req.Header.Set("Cache-Control", pick(rg, "no-cache", "max-age=0", "no-store", "only-if-cached"))
						}
						resp, err := c.resp(cache.Do(req))
						if err != nil {
							c.Violate("error", "%s %s failed: %v", method, u, err)
							return
						}
						part := chance(rg, .15)
						var data []byte
						var rerr error
						if part {
							b := make([]byte, 5)
							n, _ := resp.Body.Read(b)
							data = b[:n]
						} else {
							data, rerr = io.ReadAll(resp.Body)
						}
						id := -1
						co.mu.Lock()
						asked := -1
						for _, o := range co.resps {
							if o.tag == tag {
								asked = o.id
							}
						}
						all := append([]*oresp(nil), co.resps...)
						co.mu.Unlock()
						// A body names the response it belongs to.
						if method == "GET" && len(data) > 5 && resp.StatusCode == 200 {
							fmt.Sscanf(string(data), "<%d ", &id)
						} else {
							id = atoi(resp.Header.Get("X-Id"))
						}
						if id < 0 || id >= len(all) {
							c.Violate("foreign", "%s %s: a response of nobody: %s", method, u, abbr(data))
							return
						}
						o := all[id]
						if o.url != u || o.method != method {
							c.Violate("mixed", "%s %s was answered with what the origin answered to %s %s", method, u, o.method, o.url)
							return
						}
						if asked < 0 {
							c.Count("concurrent requests served from the cache", 1)
							mu.Lock()
							ok := read[id]
							mu.Unlock()
							if !ok && resp.StatusCode != 304 && method == "GET" && len(data) > 5 {
								c.Violate("not-complete", "%s %s was served response %d from the cache, nobody had read and closed it", method, u, id)
							}
						} else if resp.StatusCode == 200 && id != asked && all[asked].status != 304 && method == "GET" && len(data) > 5 {
							c.Violate("mixed", "%s %s asked the origin, which answered %d, but the caller got %d", method, u, asked, id)
						}
						full := o.body.data
						broke := false
						if asked == id && o.body.failAt >= 0 {
							broke = true
						}
						if broke && !part && rerr == nil {
							c.Violate("truncated", "the origin's body broke, the caller got %s without an error", abbr(data))
						}
						if !broke && (rerr != nil || !part && method == "GET" && resp.StatusCode == 200 && !bytes.Equal(data, full)) {
							c.Violate("body", "%s %s: the caller read %s (%v), response %d is %s", method, u, abbr(data), rerr, id, abbr(full))
						}
						mu.Lock()
						if !part && rerr == nil {
							read[id] = true
						}
						mu.Unlock()
						if err := resp.Body.Close(); err != nil {
							c.Violate("close", "Close failed: %v", err)
						}
						c.Count("concurrent requests", 1)
					}
				})
			}()
		}
		wg.Wait()
		c.Sig(fmt.Sprint(len(co.resps)), func() string {
			var b strings.Builder
			for _, o := range co.resps {
				fmt.Fprint(&b, o.tag, o.at.UnixNano(), o.status)
			}
			return b.String()
		}())
	})
}

// storageCase: what the storage does wrong surfaces.
func storageCase(c *C) {
	c.Bubble(func() {
		r := c.Rng
		co := &cacheOrigin{}
		co.next = func(req *http.Request, o *oresp) {
			o.status, o.hdr = 200, genRespHeader(r, o.id, true)
			o.hdr.Del("Vary")
			fillBody(r, o)
		}
		st := &recStore{m: map[uint64][]byte{}}
		var opts = []antcache.Option{antcache.WithStorage(st)}
		if chance(r, .3) {
			opts = append(opts, antcache.Aggressive(time.Hour))
		}
		cache, _ := antcache.New(co, opts...)
		get := func() (*http.Response, error) {
			req, _ := http.NewRequest("GET", "http://a.test/", nil)
			return c.resp(cache.Do(req))
		}
		var stored *oresp
		for i := 0; i < 8; i++ {
			st.failL, st.failS = nil, nil
			n := co.count()
			sn := st.stores
			switch r.Intn(3) {
			case 0:
				st.failL = fmt.Errorf("load broke %d", i)
			case 1:
				st.failS = fmt.Errorf("store broke %d", i)
			}
			resp, err := get()
			if st.failL != nil {
				c.Count("load errors injected", 1)
				if err == nil || !errors.Is(err, st.failL) {
					c.Violate("load-error", "the storage failed to load (%v), Do returned %v", st.failL, err)
				}
				if resp != nil {
					c.Violate("load-error", "the storage failed to load, Do returned a response")
				}
				continue
			}
			if err != nil {
				c.Violate("error", "Do failed: %v", err)
				return
			}
			data, rerr := io.ReadAll(resp.Body)
			cerr := resp.Body.Close()
			if rerr != nil {
				c.Violate("read-error", "reading failed: %v", rerr)
			}
			if st.stores > sn && st.failS != nil {
				c.Count("store errors injected", 1)
				if cerr == nil || !strings.Contains(cerr.Error(), st.failS.Error()) {
					c.Violate("store-error", "the storage failed to store (%v), Close returned %v", st.failS, cerr)
				}
			} else if cerr != nil {
				c.Violate("close-error", "Close failed: %v", cerr)
			}
			if co.count() > n {
				if o := co.resps[n]; !bytes.Equal(data, o.body.data) {
					c.Violate("body", "read %s, the origin sent %s", abbr(data), abbr(o.body.data))
				} else if st.failS == nil && st.stores > sn {
					stored = o
				}
			} else if stored == nil || !bytes.Equal(data, stored.body.data) {
				c.Violate("body", "read %s from the cache, stored was %v", abbr(data), stored)
			}
			if chance(r, .5) {
				time.Sleep(time.Duration(r.Intn(4000)) * time.Second)
			}
		}
		c.Sig(len(co.resps), st.stores, st.loads, c.N)
	})
}

// wireCase: real servers, real transports: what comes from the cache is what
// the first request gave, whatever framing the response came in.
func wireCase(c *C) {
	r := c.Rng
	h2 := chance(r, .3)
	type page struct {
		status  int
		hdr     http.Header
		body    []byte
		framing int
	}
	pages := map[string]*page{}
	var hits sync.Map
	for i := 0; i < 12; i++ {
		p := &page{status: pick(r, 200, 200, 203, 404, 204, 410), hdr: http.Header{}, framing: r.Intn(5)}
		p.hdr.Set("Cache-Control", "max-age=36000")
		p.hdr.Set("X-N", fmt.Sprint(i))
		p.hdr.Add("Set-Cookie", "a=1")
		p.hdr.Add("Set-Cookie", "b=2")
		p.hdr.Set("X-Long", strings.Repeat("v", r.Intn(5000)))
		if chance(r, .4) {
			p.hdr.Set("Vary", "Accept")
		}
		if p.status != 204 {
			p.body = genBodyBytes(r, i)
		}
		pages[fmt.Sprint("/p", i)] = p
	}
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		if strings.HasPrefix(req.URL.Path, "/r") {
			http.Redirect(w, req, "/p"+req.URL.Path[2:], 302)
			return
		}
		n, _ := hits.LoadOrStore(req.Method+req.URL.Path, new(int))
		*n.(*int)++
		p := pages[req.URL.Path]
		for k, v := range p.hdr {
			w.Header()[k] = v
		}
		switch p.framing {
		case 0:
			w.Header().Set("Content-Length", fmt.Sprint(len(p.body)))
		case 1: // chunked
			if p.status == 204 {
				break
			}
			w.WriteHeader(p.status)
			w.(http.Flusher).Flush()
			half := len(p.body) / 2
			w.Write(p.body[:half])
			w.(http.Flusher).Flush()
			w.Write(p.body[half:])
			return
		case 2: // gzip, which the transport decodes
			if strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") && p.status != 204 {
				var z bytes.Buffer
				gz := gzip.NewWriter(&z)
				gz.Write(p.body)
				gz.Close()
				w.Header().Set("Content-Encoding", "gzip")
				w.WriteHeader(p.status)
				w.Write(z.Bytes())
				return
			}
		case 3: // until the connection closes
			if req.ProtoMajor == 1 {
				w.Header().Set("Connection", "close")
			}
		case 4: // HTTP/1.0 style
			if hj, ok := w.(http.Hijacker); ok && p.status != 204 {
				conn, _, err := hj.Hijack()
				if err != nil {
					return
				}
				fmt.Fprintf(conn, "HTTP/1.0 %d Whatever It Is\r\nDate: %s\r\nCache-Control: max-age=36000\r\nX-N: %s\r\n\r\n", p.status, time.Now().UTC().Format(http.TimeFormat), p.hdr.Get("X-N"))
				if req.Method == "GET" {
					conn.Write(p.body)
				}
				conn.Close()
				return
			}
		}
		w.WriteHeader(p.status)
		w.Write(p.body)
	}))
	srv.EnableHTTP2 = h2
	if h2 {
		srv.StartTLS()
	} else {
		srv.Start()
	}
	defer srv.Close()
	cl := srv.Client()
	defer cl.CloseIdleConnections()
	st := &recStore{m: map[uint64][]byte{}}
	cache, err := antcache.New(cl, antcache.WithStorage(st))
	if err != nil {
		panic(err)
	}
	do := func(method, p string) (*http.Response, []byte, bool) {
		req, _ := http.NewRequest(method, srv.URL+p, nil)
		req.Header.Set("Accept", "text/html")
		resp, err := c.resp(cache.Do(req))
		if err != nil {
			c.Violate("error", "%s %s: %v", method, p, err)
			return nil, nil, false
		}
		data, err := io.ReadAll(resp.Body)
		if cerr := resp.Body.Close(); err != nil || cerr != nil {
			c.Violate("error", "%s %s: reading %v, closing %v", method, p, err, cerr)
			return nil, nil, false
		}
		return resp, data, true
	}
	for i := 0; i < 12; i++ {
		method := pick(r, "GET", "GET", "HEAD")
		p := fmt.Sprint(pick(r, "/p", "/p", "/r"), i)
		r1, d1, ok := do(method, p)
		if !ok {
			return
		}
		var final = fmt.Sprint("/p", i)
		n1, _ := hits.Load(method + final)
		was := *n1.(*int)
		r2, d2, ok := do(method, p)
		if !ok {
			return
		}
		if *n1.(*int) != was {
			c.Violate("not-cached", "%s %s (framing %d, %d) was not served from the cache", method, p, pages[final].framing, pages[final].status)
			return
		}
		if method == "GET" && !bytes.Equal(d1, pages[final].body) {
			c.Violate("body", "%s %s: %s, the origin sent %s", method, p, abbr(d1), abbr(pages[final].body))
		}
		if !bytes.Equal(d1, d2) || r1.StatusCode != r2.StatusCode {
			c.Violate("body", "%s %s (framing %d): from the cache %d %s, from the origin %d %s", method, p, pages[final].framing, r2.StatusCode, abbr(d2), r1.StatusCode, abbr(d1))
		}
		if d := headerDiff(r2.Header, r1.Header, nil); d != "" {
			c.Violate("headers", "%s %s (framing %d): %s", method, p, pages[final].framing, d)
		}
		if a, b := r1.Request.URL.String(), r2.Request.URL.String(); a != b {
			c.Violate("final-url", "%s %s was served from %s, from the cache it says %s", method, p, a, b)
		}
		c.Count("wire responses compared", 1)
		c.Sig(method, pages[final].framing, pages[final].status, h2, p[:2], len(d1))
	}
}

// engineCacheCase: a fetcher over a cache gives pages with the same links.
func engineCacheCase(c *C) {
	r := c.Rng
	doc := genDoc(r)
	srv := &pageServer{redir: map[string][2]string{"http://site.test/": {"302", "/moved/here/"}}, docs: map[string]string{"http://site.test/moved/here/": doc, "http://site.test/plain": doc}}
	rt := roundTripper(func(req *http.Request) (*http.Response, error) {
		resp, err := srv.RoundTrip(req)
		if err == nil {
			resp.Header.Set("Date", time.Now().UTC().Format(http.TimeFormat))
			resp.Header.Set("Cache-Control", "max-age=3600")
			resp.ContentLength = -1
		}
		return resp, err
	})
	cache, err := antcache.New(&http.Client{Transport: rt})
	if err != nil {
		panic(err)
	}
	f := &ant.Fetcher{Client: cache}
	for _, u := range []string{"http://site.test/", "http://site.test/plain"} {
		var links [][]string
		var from []string
		for i := 0; i < 3; i++ {
			pu, _ := url.Parse(u)
			pg, err := c.page(f.Fetch(context.Background(), pu))
			if err != nil || pg == nil {
				c.Violate("fetch", "fetch %d of %s: %v, %v", i, u, pg, err)
				return
			}
			links = append(links, urlStrings(pg.URLs()))
			from = append(from, pg.URL.String())
		}
		for i := 1; i < 3; i++ {
			if !sameStrings(links[0], links[i]) {
				c.Violate("links", "%s: fetched from %s it has links %q, from the cache (%s) %q", u, from[0], links[0], from[i], links[i])
			}
		}
		c.Count("pages fetched through the cache", 3)
	}
	c.Sig(doc)
}

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestC19(t *testing.T) {
	Run(t, "C19", W{"history", 4000, 100000, cacheCase("C19")}, W{"mix", 1500, 40000, mixCase}, W{"keys", 600, 20000, keysCase},
		W{"storage", 600, 10000, storageCase},
		W{"wire", 60, 1500, wireCase}, W{"pages", 300, 6000, engineCacheCase})
}
func TestC20(t *testing.T) { Run(t, "C20", W{"history", 6000, 150000, cacheCase("C20")}) }
func TestC21(t *testing.T) { Run(t, "C21", W{"history", 6000, 150000, cacheCase("C21")}) }
func TestC22(t *testing.T) { Run(t, "C22", W{"history", 6000, 150000, cacheCase("C22")}) }
func TestC23(t *testing.T) { Run(t, "C23", W{"history", 6000, 150000, cacheCase("C23")}) }

// craftedKeys are requests whose murmur3 sums (64 bits) are equal.
var craftedKeys = [][]string{
	{"GET http://a.test/login", "GET http://a.test/user/mallory/xKE4Ndnz1DUzS8Awo"},
	{"GET https://a.test/", "GET https://evil.test:8443/y/xxxJtkbyf5P9J_AOx05"},
	{"GET http://a.test/x?a=1", "HEAD http://a.test/x?a=xxxxxxxxxhAZJtOmkeu91vgv_"},
	{"HEAD http://a.test/x", "GET http://a.test/x?id=xxxxxxxxxeZLYUPWDw6r-bBme"},
	{"GET http://127.0.0.1/", "GET http://[::1]:8080/xxxxxxxxxxLKx45MgNJLks9Nxu"},
}

// keysCase: requests for resources that differ a little, or have equal cache
// keys, are never answered with each other's response.
func keysCase(c *C) {
	c.Bubble(func() {
		r := c.Rng
		host := pick(r, "a.test", "b.test:8080", "[::1]:80", "user@a.test")
		p := pick(r, "/x/y", "/", "/x%2Fy", "/ü")
		base := "http://" + host + p
		pool := []string{
			base, "https://" + host + p, base + "?a=1", base + "?a=2", base + "?a=1&b=2", base + "?b=2&a=1", base + "/", base + "?A=1",
			"http://www." + strings.TrimPrefix(host, "user@") + p, "http://" + strings.ToUpper("x") + host[1:] + p,
			base + "//", base + ";v=1", base + "%20", base + "?a=%26", base + "?a=&", base + "1", base + "?a=11", strings.ReplaceAll(base, "%2F", "/"),
			"http://" + host, base + "?GET:" + base, "http://other.test:81" + p, "http://other.test:8181" + p, "http://other.test:818" + "1" + p + "?",
		}
		r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		pool = pool[:2+r.Intn(len(pool)-2)]
		crafted := chance(r, .2)
		if crafted {
			pool = append(pool[:r.Intn(3)], craftedKeys[r.Intn(len(craftedKeys))]...)
		}
		answer := func(method, u string) string { return fmt.Sprintf("<<%s %s>>", method, u) }
		co := &cacheOrigin{}
		co.next = func(req *http.Request, o *oresp) {
			o.status, o.hdr = 200, http.Header{"Date": {time.Now().UTC().Format(http.TimeFormat)}, "Cache-Control": {"max-age=1000"}, "X-For": {answer(o.method, url.QueryEscape(o.url))}}
			o.body = &cbody{failAt: -1}
			if req.Method == "GET" {
				o.body.data = []byte(answer(o.method, o.url))
			}
		}
		var opts []antcache.Option
		if chance(r, .4) {
			opts = append(opts, antcache.Aggressive(time.Hour))
		}
		cache, err := antcache.New(co, opts...)
		if err != nil {
			panic(err)
		}
		for i := 0; i < 3*len(pool); i++ {
			method := pick(r, "GET", "GET", "HEAD")
			u := pick(r, pool...)
			if m, v, ok := strings.Cut(u, " "); ok && crafted {
				method, u = m, v
				c.Count("requests made to have equal keys", 1)
			}
			req, err := http.NewRequest(method, u, nil)
			if err != nil {
				continue // some variants are no URLs
			}
			u = req.URL.String()
			resp, err := c.resp(cache.Do(req))
			if err != nil {
				c.Violate("error", "%s %s: %v", method, u, err)
				return
			}
			data, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			// A trailing empty query asks for the same resource.
			same := func(a, b string) bool {
				return strings.TrimSuffix(a, "?") == strings.TrimSuffix(b, "?")
			}
			got, _ := url.QueryUnescape(strings.TrimSuffix(strings.TrimPrefix(resp.Header.Get("X-For"), "<<"+method+" "), ">>"))
			if !same(got, u) {
				c.Violate("mixed", "%s %s was answered with the response for %s (%s)", method, u, resp.Header.Get("X-For"), abbr(data))
				return
			}
			c.Count("similar resources requested", 1)
		}
		c.Sig(strings.Join(pool, " "))
	})
}
