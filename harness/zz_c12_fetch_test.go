package zzverif

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/yields/ant"
)

// step is what the scripted client does with one request.
type step struct {
	Status int    // 0: an error
	Err    string // temp, wrapped, not-temp, plain, deadline, or "" for none
	Resp   bool   // the error comes with a response
	Lat    time.Duration
	Body   int // length
	Break  int // the body fails after so many bytes, -1
	Slow   bool
}

func (st step) temporary() bool {
	switch st.Err {
	case "temp", "wrapped", "deadline":
		return true
	case "":
		return st.Status == 429 || st.Status == 503 || st.Status == 504
	}
	return false
}

type notTemporary struct{ error }

func (notTemporary) Temporary() bool { return false }

// origin is a scripted ant.Client.
type origin struct {
	mu     sync.Mutex
	t0     time.Time
	steps  []step
	deaf   bool // it ignores the request's context
	at     []time.Duration
	done   []time.Duration
	errs   []error // injected, per request
	bodies []*simBody
	heads  []http.Header
	urls   []string
	ctxEnd int // requests made although their context had ended
}

func (o *origin) Do(req *http.Request) (resp *http.Response, err error) {
	o.mu.Lock()
	n := len(o.at)
	o.at = append(o.at, time.Since(o.t0))
	o.heads = append(o.heads, req.Header.Clone())
	o.urls = append(o.urls, req.URL.String())
	o.done = append(o.done, 0)
	o.errs = append(o.errs, nil)
	o.bodies = append(o.bodies, nil)
	if req.Context().Err() != nil {
		o.ctxEnd++
	}
	st := step{Status: 200, Break: -1}
	if n < len(o.steps) {
		st = o.steps[n]
	}
	o.mu.Unlock()
	defer func() {
		o.mu.Lock()
		o.done[n], o.errs[n] = time.Since(o.t0), err
		o.mu.Unlock()
	}()
	if o.deaf {
		time.Sleep(st.Lat)
	} else {
		if err := req.Context().Err(); err != nil {
			return nil, err
		}
		if st.Lat > 0 {
			t := time.NewTimer(st.Lat)
			defer t.Stop()
			select {
			case <-t.C:
			case <-req.Context().Done():
				return nil, fmt.Errorf("client: %w", req.Context().Err())
			}
		}
	}
	if st.Status != 0 || st.Resp {
		b := &simBody{page: n, status: st.Status, r: strings.NewReader(bodyText(n, st.Body)), failAt: st.Break, readErr: errors.New("body broke")}
		if st.Slow {
			b.onRead = func() { time.Sleep(time.Millisecond) }
		}
		o.mu.Lock()
		o.bodies[n] = b
		o.mu.Unlock()
		resp = &http.Response{StatusCode: st.Status, Header: http.Header{"X-N": {fmt.Sprint(n)}}, Body: b, Request: req}
	}
	switch st.Err {
	case "temp":
		err = &temporary{fmt.Sprint("t", n)}
	case "wrapped":
		err = fmt.Errorf("get: %w", fmt.Errorf("dial: %w", &temporary{fmt.Sprint("w", n)}))
	case "deadline":
		err = fmt.Errorf("client timeout: %w", context.DeadlineExceeded)
	case "not-temp":
		err = notTemporary{fmt.Errorf("n%d", n)}
	case "plain":
		err = fmt.Errorf("p%d", n)
	}
	return resp, err
}

func bodyText(n, size int) string {
	return strings.Repeat(fmt.Sprintf("<p>body %d</p>\n", n), size/12+1)[:size]
}

// genSteps draws a client script.
func genSteps(c *C, n int) (out []step) {
	r := c.Rng
	for i := 0; i < n; i++ {
		st := step{Lat: time.Duration(r.Intn(pick(r, 1, 1, 30, 2000))) * time.Millisecond, Body: pick(r, 0, 1, 50, 5000, 70000), Break: -1}
		if chance(r, .01) {
			st.Body = 1<<17 + r.Intn(3<<20)
		}
		if chance(r, .2) {
			st.Break = r.Intn(st.Body + 1)
		}
		st.Slow = st.Body <= 50 && chance(r, .1)
		switch {
		case chance(r, .45):
			st.Status = pick(r, 503, 504, 429)
		case chance(r, .5):
			st.Err = pick(r, "temp", "wrapped", "temp", "wrapped", "deadline", "not-temp", "plain")
			st.Resp = chance(r, .3)
			if st.Resp {
				st.Status = pick(r, 200, 302, 503)
			}
		default:
			st.Status = pick(r, 200, 200, 201, 204, 206, 301, 304, 399, 400, 401, 403, 404, 404, 408, 410, 425, 428, 430, 500, 501, 502, 505, 599, 600, 999)
		}
		out = append(out, st)
	}
	return
}

// fetchCase (C12, C13): one Fetch against a scripted client.
func fetchCase(c *C) {
	r := c.Rng
	f := &ant.Fetcher{}
	attempts := 5
	if chance(r, .6) {
		f.MaxAttempts = pick(r, -1, 1, 2, 3, 6, 12)
		if f.MaxAttempts > 0 {
			attempts = f.MaxAttempts
		}
	}
	minB, maxB := 50*time.Millisecond, time.Second
	if chance(r, .6) {
		f.MinBackoff = pick(r, time.Nanosecond, time.Millisecond, 20*time.Millisecond, 300*time.Millisecond, 999*time.Millisecond, 3*time.Second, time.Duration(math.MaxInt64/5))
		minB = f.MinBackoff
		if chance(r, .1) {
			f.MinBackoff, minB = -time.Second, 50*time.Millisecond
		}
	}
	if chance(r, .6) {
		f.MaxBackoff = pick(r, 2*time.Millisecond, 60*time.Millisecond, 400*time.Millisecond, 10*time.Second, time.Hour, time.Duration(math.MaxInt64/4))
		maxB = f.MaxBackoff
	}
	if f.MinBackoff <= 0 && f.MaxBackoff <= 0 && chance(r, .5) {
		f.MinBackoff, f.MaxBackoff = 10*time.Millisecond, 100*time.Millisecond
		minB, maxB = f.MinBackoff, f.MaxBackoff
	}
	if chance(r, .04) { // equal bounds are refused as well
		f.MinBackoff = pick(r, time.Nanosecond, 20*time.Millisecond, time.Second)
		f.MaxBackoff = f.MinBackoff
		minB, maxB = f.MinBackoff, f.MaxBackoff
	}
	o := &origin{steps: genSteps(c, pick(r, 1, 2, 4, 8, 14)), deaf: chance(r, .3)}
	f.Client = o
	if chance(r, .02) { // the product of attempts and MinBackoff overflows
		f.MinBackoff = time.Duration(math.MaxInt64 / int64(4+r.Intn(6)))
		f.MaxBackoff = f.MinBackoff + time.Duration(1+r.Intn(1e9))
		f.MaxAttempts = 4
		minB, maxB, attempts = f.MinBackoff, f.MaxBackoff, 4
		o.steps = []step{{Status: 503, Break: -1}, {Err: "temp", Break: -1}, {Status: 429, Break: -1}}
	}
	if chance(r, .02) { // many attempts
		f.MaxAttempts = pick(r, 25, 70, 150)
		f.MinBackoff, f.MaxBackoff = time.Millisecond, 10*time.Second
		minB, maxB, attempts = f.MinBackoff, f.MaxBackoff, f.MaxAttempts
		o.steps = nil
		for n := attempts + pick(r, -2, -1, 0, 1, 3); len(o.steps) < n; {
			o.steps = append(o.steps, pick(r, step{Status: 503, Break: -1}, step{Err: "temp", Break: -1}, step{Status: 429, Break: -1}))
		}
		if chance(r, .7) {
			o.steps = append(o.steps, step{Status: 200, Body: 50, Break: -1})
		}
		c.Count("fetches of up to 150 attempts", 1)
	}
	if maxB > 100*time.Hour {
		o.steps = o.steps[:min(len(o.steps), 3)] // more centuries overflow the virtual clock
	}
	ends := time.Duration(-1)
	dl := false
	if chance(r, .4) {
		ends = time.Duration(r.Intn(pick(r, 10, 300, 5000)))*time.Millisecond + 500*time.Microsecond
		dl = chance(r, .4)
	}
	raw := "http://site.example/page?x=1"
	var pg *ant.Page
	var err error
	var out time.Duration
	var ctxErr error
	pageBody, pageErr := "", error(nil)
	var unclosed, leftover []string
	c.Bubble(func() {
		ctx := context.Background()
		o.t0 = time.Now()
		if ends >= 0 {
			var cancel context.CancelFunc
			if dl {
				ctx, cancel = context.WithDeadline(ctx, o.t0.Add(ends))
				defer cancel()
			} else {
				ctx, cancel = context.WithCancel(ctx)
				defer cancel()
				t := time.AfterFunc(ends, cancel)
				defer t.Stop()
			}
		}
		pg, err = f.Fetch(ctx, mkURL(raw))
		out = time.Since(o.t0)
		ctxErr = ctx.Err()
		for i, b := range o.bodies {
			if b == nil {
				continue
			}
			b.mu.Lock()
			if pg != nil && i == len(o.bodies)-1 {
				if b.closed || b.read > 0 {
					leftover = append(leftover, fmt.Sprintf("body %d of the page was touched (closed %v, %d bytes read)", i, b.closed, b.read))
				}
			} else if !b.closed || b.early || b.after > 0 {
				unclosed = append(unclosed, fmt.Sprintf("body of response %d: closed %v, closed before its end %v, %d bytes read, %d reads after close", i, b.closed, b.early, b.read, b.after))
			}
			b.mu.Unlock()
		}
		if pg != nil {
			b, e := io.ReadAll(pg.Body())
			pageBody, pageErr = string(b), e
		}
	})
	bad := func(key, f2 string, a ...any) {
		c.Logf("MaxAttempts %d MinBackoff %v MaxBackoff %v deaf %v context ends %v (deadline %v)", f.MaxAttempts, f.MinBackoff, f.MaxBackoff, o.deaf, ends, dl)
		for i := range o.at {
			st := step{}
			if i < len(o.steps) {
				st = o.steps[i]
			}
			c.Logf("request %d at %v..%v: %+v %v", i, o.at[i], o.done[i], st, o.errs[i])
		}
		c.Logf("Fetch returned at %v page %v err %v", out, pg != nil, err)
		c.Violate(key, f2, a...)
	}
	if c.Bad() {
		return
	}
	if c.ID == "C13" {
		switch {
		case len(unclosed) > 0:
			bad("body-left", "%s", strings.Join(unclosed, "; "))
		case len(leftover) > 0:
			bad("page-body", "%s", strings.Join(leftover, "; "))
		}
		for _, b := range o.bodies {
			if b != nil {
				c.Count("response bodies judged", 1)
			}
		}
		if pg != nil {
			st := step{Status: 200, Break: -1}
			n := len(o.at) - 1
			if n < len(o.steps) {
				st = o.steps[n]
			}
			want := bodyText(n, st.Body)
			if st.Break >= 0 {
				want = want[:st.Break]
			}
			if pageBody != want || (pageErr != nil) != (st.Break >= 0) {
				bad("page-body", "the page's body reads as %d bytes, %v; the response had %d (failing at %d)", len(pageBody), pageErr, len(want), st.Break)
			}
		}
		c.Sig(fmt.Sprintf("%+v", o.steps), attempts, o.at)
		return
	}
	// Walk the requests that were made; each must be called for.
	n := len(o.at)
	if n > attempts || n == 0 {
		bad("attempts", "%d requests were made, MaxAttempts is %d", n, attempts)
		return
	}
	at := func(i int) step {
		if i < len(o.steps) {
			return o.steps[i]
		}
		return step{Status: 200}
	}
	temp := func(i int) bool {
		if errors.Is(o.errs[i], context.Canceled) || errors.Is(o.errs[i], context.DeadlineExceeded) && ctxErr != nil {
			return true // decided by the context
		}
		return at(i).temporary()
	}
	for i := 0; i < n; i++ {
		if o.urls[i] != raw {
			bad("other-url", "request %d is for %s", i, o.urls[i])
			return
		}
		if i == 0 {
			continue
		}
		gap := o.at[i] - o.done[i-1]
		switch {
		case !temp(i - 1):
			bad("retried", "request %d was made after the permanent outcome %+v", i, at(i-1))
			return
		case ends >= 0 && o.at[i] > ends:
			bad("after-end", "request %d was made at %v, the context had ended at %v", i, o.at[i], ends)
			return
		case minB >= maxB:
			bad("bounds", "a request was retried although MinBackoff %v is not below MaxBackoff %v", minB, maxB)
			return
		case gap < minB || gap > maxB+bodyTime(at(i-1)):
			bad("backoff", "requests %d and %d are %v apart, the bounds are %v and %v", i-1, i, gap, minB, maxB)
			return
		}
		c.Count("retries", 1)
	}
	last := at(n - 1)
	lastErr := o.errs[n-1]
	var fe *ant.FetchError
	switch {
	case pg != nil && err != nil:
		bad("both", "Fetch returned a page and %v", err)
		return
	case ctxErr != nil && out >= ends && err != nil && errors.Is(err, ctxErr):
		c.Count("ended by the context", 1)
	case lastErr == nil && last.Status < 400:
		if pg == nil || err != nil {
			bad("no-page", "status %d: page %v, error %v", last.Status, pg != nil, err)
			return
		}
		if pg.URL == nil || pg.URL.String() != raw || pg.Header.Get("X-N") != fmt.Sprint(n-1) {
			bad("page", "the page has URL %v header %v", pg.URL, pg.Header)
			return
		}
		c.Count("pages", 1)
	case lastErr == nil && last.Status == 404:
		if pg != nil || err != nil {
			bad("404", "status 404: page %v, error %v", pg != nil, err)
			return
		}
		c.Count("not found", 1)
	case pg != nil || err == nil:
		bad("swallowed", "outcome %+v: page %v, error %v", last, pg != nil, err)
		return
	case temp(n-1) && minB >= maxB:
		c.Count("refused bounds", 1)
	case temp(n-1) && n < attempts:
		bad("gave-up", "only %d of %d requests were made after the temporary outcome %+v: %v", n, attempts, last, err)
		return
	case lastErr != nil:
		if !errors.Is(err, lastErr) {
			bad("error", "the client failed with %v, Fetch with %v", lastErr, err)
			return
		}
		c.Count("client errors", 1)
	default:
		if !errors.As(err, &fe) || fe.Status != last.Status {
			bad("error", "status %d: Fetch returned %v", last.Status, err)
			return
		}
		c.Count("status errors", 1)
	}
	if ends >= 0 && ctxErr != nil && err != nil && out > ends {
		lim := max(ends, o.done[n-1]+bodyTime(last))
		if out > lim {
			bad("late", "the context ended at %v, Fetch returned at %v", ends, out)
			return
		}
	}
	if temp(n-1) && n == attempts && ctxErr == nil {
		c.Count("attempts exhausted", 1)
	}
	c.Sig(fmt.Sprintf("%+v %v %v", o.steps[:min(n, len(o.steps))], o.at, ends), attempts, minB, maxB)
	if c.N < 6 {
		c.Sample(map[string]any{"steps": fmt.Sprintf("%+v", o.steps), "requests at": fmt.Sprint(o.at), "err": fmt.Sprint(err)})
	}
}

func bodyTime(st step) time.Duration {
	if st.Slow {
		return time.Duration(st.Body/37+3) * time.Millisecond
	}
	return 0
}

// bodiesCase (C13): every body of a crawl.
func bodiesCase(c *C) {
	r := c.Rng
	k := genCfg(r)
	k.P404 = pick(r, 0, .2)
	k.Robots = pick(r, "impolite", "rules", "none")
	k.Deaf = pick(r, 0, .5)
	k.HTML, k.SharedURLs = false, chance(r, .1)
	s := newSim(c, k)
	for _, p := range s.pages {
		p.size = pick(r, 0, 200, 20000)
		if chance(r, .01) {
			p.size = 1<<17 + r.Intn(3<<20)
		}
		if chance(r, .3) {
			for i, n := 0, 1+r.Intn(3); i < n; i++ {
				p.script = append(p.script, pick(r, 503, 429, 504, errTemp))
			}
		}
	}
	how := pick(r, "complete", "complete", "fail", "cancel", "deadline", "temp")
	after := time.Duration(r.Intn(pick(r, 10, 100)))*time.Millisecond + 500*time.Microsecond
	does := map[int]string{}
	for i := range s.pages {
		does[i] = pick(r, "nothing", "read", "part", "parse", "query", "read", "parse")
	}
	s.bodyFail = func(i int) int {
		if chance(r, .1) {
			return r.Intn(300)
		}
		return -1
	}
	tries := map[int]int{}
	failing := r.Intn(len(s.pages))
	var mu sync.Mutex
	s.onPage = func(ctx context.Context, i int, pg *ant.Page) error {
		b := s.lastBody(i)
		state := func(when string) {
			b.mu.Lock()
			closed, after := b.closed, b.after
			b.mu.Unlock()
			if closed || after > 0 {
				s.mu.Lock()
				s.odd = append(s.odd, fmt.Sprintf("body of page %d was closed %s", i, when))
				s.mu.Unlock()
			}
		}
		state("before the scraper had it")
		mu.Lock()
		tries[i]++
		n := tries[i]
		mu.Unlock()
		switch does[i] {
		case "read":
			io.Copy(io.Discard, pg.Body())
		case "part":
			io.ReadFull(pg.Body(), make([]byte, 20))
		case "parse":
			pg.Query("a")
		case "query":
			pg.Text("title")
			pg.URLs()
			pg.Document()
		}
		time.Sleep(time.Millisecond)
		if does[i] != "parse" && does[i] != "query" {
			state("while the scraper had it")
		}
		c.Count("pages given to the scraper", 1)
		if i == failing && how == "fail" {
			return failure("scraper", c.N)
		}
		if how == "temp" && i%3 == failing%3 && n <= 2 {
			return &temporary{"scraper"}
		}
		return nil
	}
	var o outcome
	c.Bubble(func() {
		ctx := context.Background()
		switch how {
		case "cancel":
			var cancel context.CancelFunc
			ctx, cancel = context.WithCancel(ctx)
			defer cancel()
			defer time.AfterFunc(after, cancel).Stop()
		case "deadline":
			var cancel context.CancelFunc
			ctx, cancel = context.WithTimeout(ctx, after)
			defer cancel()
		}
		o = s.crawl(ctx)
	})
	bad := func(key, f string, a ...any) {
		c.Logf("%s after %v, scraper %v", how, after, does)
		s.history()
		c.Violate(key, f, a...)
	}
	if c.Bad() {
		s.history()
		return
	}
	if len(s.odd) > 0 {
		bad("closed-early", "%s", s.odd[0])
		return
	}
	for _, b := range s.bodies {
		switch {
		case !b.closed:
			bad("not-closed", "a body of page %d (status %d, scraper: %s) was never closed (%s)", b.page, b.status, does[b.page], how)
			return
		case b.early:
			bad("not-drained", "a body of page %d (status %d, scraper: %s) was closed after %d bytes, before its end (%s)", b.page, b.status, does[b.page], b.read, how)
			return
		}
		c.Count("response bodies judged", 1)
	}
	c.Count("crawls ended by "+how, 1)
	c.Sig(how, s.k.String(), s.order())
	if c.N < 4 {
		c.Sample(map[string]any{"how": how, "bodies": len(s.bodies), "err": fmt.Sprint(o.err)})
	}
}

// temporaryCase (C14): temporary failures of the scraper and de-duplicator.
func temporaryCase(c *C) {
	r := c.Rng
	k := genCfg(r)
	k.Deaf, k.Matcher = 0, "none"
	k.Robots = pick(r, "impolite", "none")
	k.Pages = 1 + r.Intn(12)
	if k.Deduper == "nil" {
		k.Deduper = "map"
	}
	seq := chance(r, .5)
	if seq {
		k.Workers, k.Concurrency = 1, 1
	}
	s := newSim(c, k)
	attempts, minB, maxB := 5, 50*time.Millisecond, time.Second
	setA, setMin, setMax := pick(r, 0, 0, 1, 2, 3, 8), pick(r, 0, 0, 7*time.Millisecond, 100*time.Millisecond), pick(r, 0, 0, 200*time.Millisecond, 3*time.Second)
	if setA > 0 {
		attempts = setA
	}
	if setMin > 0 {
		minB = setMin
	}
	if setMax > 0 {
		maxB = setMax
	}
	if s.plain = chance(r, .2); s.plain {
		setA, setMin, setMax = 0, 0, 0
		attempts, minB, maxB = 5, 50*time.Millisecond, time.Second
	}
	s.tune = func(cfg *ant.EngineConfig) {
		if s.plain {
			return
		}
		cfg.Fetcher.MaxAttempts, cfg.Fetcher.MinBackoff, cfg.Fetcher.MaxBackoff = setA, setMin, setMax
	}
	if setA == 0 || setA > 2 {
		for _, p := range s.pages {
			if chance(r, .1) {
				p.script = append(p.script, pick(r, 503, errWrap))
			}
		}
	}
	mk := func(what string) error {
		switch r.Intn(3) {
		case 0:
			return fmt.Errorf("store: %w", &temporary{what})
		case 1:
			return &temporary{what}
		}
		return &ant.FetchError{Status: pick(r, 503, 504, 429)}
	}
	mkPerm := func(what string) error {
		p := failure(what, r.Intn(60))
		if chance(r, .5) {
			return says{p}
		}
		return fmt.Errorf("store: %w", p)
	}
	// Scripts: per page for the scraper, per call for the de-duplicator.
	scrapes := map[int][]error{}
	for i := range s.pages {
		if chance(r, .4) {
			for j, n := 0, pick(r, 1, 2, attempts-1, attempts, attempts+1); j < n; j++ {
				scrapes[i] = append(scrapes[i], mk(fmt.Sprintf("scrape %d #%d", i, j)))
			}
			if chance(r, .15) {
				scrapes[i] = append(scrapes[i], mkPerm("scrape"))
			}
		}
	}
	var dedupes []error
	for i := 0; i < 20; i++ {
		for chance(r, .2) {
			dedupes = append(dedupes, mk("dedupe"))
		}
		if chance(r, .02) {
			dedupes = append(dedupes, mkPerm("dedupe"))
		}
		dedupes = append(dedupes, nil)
	}
	nth := map[int]int{}
	nd := 0
	var mu sync.Mutex
	s.fault = func(kind string, page, _ int) error {
		mu.Lock()
		defer mu.Unlock()
		switch kind {
		case "scrape":
			n := nth[page]
			nth[page]++
			if n < len(scrapes[page]) {
				return scrapes[page][n]
			}
		case "dedupe":
			n := nd
			nd++
			if n < len(dedupes) {
				return dedupes[n]
			}
		}
		return nil
	}
	var o outcome
	c.Bubble(func() { o = s.crawl(context.Background()) })
	bad := func(key, f string, a ...any) {
		c.Logf("MaxAttempts %d MinBackoff %v MaxBackoff %v; Run returned %v", setA, setMin, setMax, o.err)
		s.history()
		c.Violate(key, f, a...)
	}
	if c.Bad() {
		s.history()
		return
	}
	isTemp := func(err error) bool {
		var t interface{ Temporary() bool }
		return errors.As(err, &t) && t.Temporary()
	}
	// Every call is called for, and every temporary failure is followed up.
	exhausted := []error{}
	perms := []error{}
	judge := func(what string, calls []*span, next func(i int) time.Duration) bool {
		run := 0
		for i, sp := range calls {
			if i > 0 && calls[i-1].err == nil && what[0] == 's' {
				bad("again", "%s was called again after it succeeded", what)
				return false
			}
			run++
			if sp.err == nil {
				if run > 1 {
					c.Count("successes after temporary failures", 1)
				}
				run = 0
				continue
			}
			if run > attempts {
				bad("attempts", "%s was called %d times, MaxAttempts is %d", what, run, attempts)
				return false
			}
			if !isTemp(sp.err) {
				perms = append(perms, sp.err)
				if i+1 < len(calls) && (what[0] == 's' || together(s.spans, sp, calls[i+1])) {
					bad("retried", "%s was called again after the permanent error %v", what, sp.err)
					return false
				}
				break
			}
			if run == attempts {
				exhausted = append(exhausted, sp.err)
				if i+1 < len(calls) && what[0] == 's' {
					bad("attempts", "%s was called %d times, MaxAttempts is %d", what, run+1, attempts)
					return false
				}
				run = 0
				continue
			}
			at := next(i)
			if at < 0 {
				if minB >= maxB || s.endedBefore(sp.end+maxB) {
					continue // the crawl failed elsewhere meanwhile
				}
				bad("gave-up", "%s failed temporarily with %v in attempt %d of %d and was not tried again (Run returned %v)", what, sp.err, run, attempts, o.err)
				return false
			}
			if at-sp.end < minB || at-sp.end > maxB {
				bad("backoff", "%s was tried again %v after a temporary failure, the bounds are %v and %v", what, at-sp.end, minB, maxB)
				return false
			}
			if i+1 >= len(calls) && o.err == nil {
				bad("gave-up", "%s failed temporarily with %v in attempt %d of %d and was not called again", what, sp.err, run, attempts)
				return false
			}
			c.Count("temporary failures retried", 1)
		}
		return true
	}
	byPage := map[int][]*span{}
	var dd []*span
	for _, sp := range s.spans {
		switch sp.kind {
		case "scrape":
			byPage[sp.page] = append(byPage[sp.page], sp)
		case "dedupe":
			dd = append(dd, sp)
		}
	}
	s.o = o
	for i, calls := range byPage {
		next := func(j int) time.Duration {
			after := false
			for _, sp := range s.spans { // in order of their starts
				if after && sp.page == i && (sp.kind == "fetch" || sp.kind == "scrape") {
					return sp.start
				}
				after = after || sp == calls[j]
			}
			return -1
		}
		if !judge(fmt.Sprintf("scrape of page %d", i), calls, next) {
			return
		}
	}
	if seq {
		// One de-duplicator call at a time: consecutive calls until a success.
		if !judge("dedupe", dd, func(j int) time.Duration {
			if j+1 < len(dd) {
				return dd[j+1].start
			}
			return -1
		}) {
			return
		}
	} else {
		for _, sp := range dd {
			if sp.err != nil && !isTemp(sp.err) {
				perms = append(perms, sp.err)
			} else if sp.err != nil {
				exhausted = append(exhausted, sp.err) // may be
			}
		}
	}
	switch {
	case o.err == nil:
		if len(perms) > 0 || len(exhausted) > 0 && seq {
			bad("swallowed", "Run returned nil although %v and %v", perms, exhausted)
			return
		}
		_, scrape := s.reachable()
		for i := range s.pages {
			ok := 0
			for _, sp := range byPage[i] {
				if sp.err == nil {
					ok++
				}
			}
			if scrape[i] && ok != 1 || !scrape[i] && ok > 0 {
				bad("scrapes", "page %d was scraped successfully %d times", i, ok)
				return
			}
		}
		c.Count("crawls completed", 1)
	default:
		known := minB >= maxB
		for _, e := range append(perms, exhausted...) {
			known = known || errors.Is(o.err, e)
		}
		if !known {
			bad("error", "Run returned %v; permanent failures %v, exhausted %v", o.err, perms, exhausted)
			return
		}
		c.Count("crawls that reported a failure", 1)
	}
	c.Sig(s.k.String(), attempts, minB, maxB, s.order(), fmt.Sprint(len(dedupes)))
	if c.N < 6 {
		c.Sample(map[string]any{"config": s.k.String(), "attempts": attempts, "scrape scripts": len(scrapes), "err": fmt.Sprint(o.err)})
	}
}

func TestC12(t *testing.T) { Run(t, "C12", W{"fetch", 16000, 500000, fetchCase}) }
func TestC13(t *testing.T) {
	Run(t, "C13", W{"fetch", 6000, 200000, fetchCase}, W{"bodies", 3000, 80000, bodiesCase})
}
func TestC14(t *testing.T) { Run(t, "C14", W{"temporary", 5000, 150000, temporaryCase}) }

// together reports if no other component was called between a and b.
func together(spans []*span, a, b *span) bool {
	in := false
	for _, sp := range spans { // in order of their starts
		switch {
		case sp == b:
			return true
		case in:
			return false
		}
		in = in || sp == a
	}
	return true
}
