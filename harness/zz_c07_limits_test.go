package zzverif

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/yields/ant"
)

// refGlob matches a whole string against a glob, by dynamic programming.
func refGlob(str, pat string) bool {
	type tok struct {
		r    rune
		kind byte // c, ?, *
	}
	var toks []tok
	rs := []rune(pat)
	for i := 0; i < len(rs); i++ {
		switch rs[i] {
		case '*':
			toks = append(toks, tok{0, '*'})
		case '?':
			toks = append(toks, tok{0, '?'})
		case '\\':
			i++
			toks = append(toks, tok{rs[i], 'c'})
		default:
			toks = append(toks, tok{rs[i], 'c'})
		}
	}
	s := []rune(str)
	cur := make([]bool, len(s)+1)
	cur[0] = true
	for _, t := range toks {
		next := make([]bool, len(s)+1)
		if t.kind == '*' {
			on := false
			for i := range cur {
				on = on || cur[i]
				next[i] = on
			}
		} else {
			for i := 0; i < len(s); i++ {
				if cur[i] && (t.kind == '?' || t.r == s[i]) {
					next[i+1] = true
				}
			}
		}
		cur = next
	}
	return cur[len(s)]
}

func globQuote(s string) string {
	return regexp.MustCompile(`[*?\\]`).ReplaceAllString(s, `\$0`)
}

// genGlob writes a glob that matches s or nearly does.
func genGlob(r *rand.Rand, s string) string {
	rs := []rune(s)
	var b strings.Builder
	for i := 0; i < len(rs); i++ {
		switch {
		case chance(r, .08):
			b.WriteString(pick(r, "*", "*", "**"))
			i += r.Intn(len(rs))
		case chance(r, .05):
			b.WriteString(pick(r, "?", "?*", "*?"))
		case chance(r, .02):
			b.WriteString(pick(r, "a", "/", ".", "é"))
		case chance(r, .01):
		case chance(r, .05):
			b.WriteString(`\` + string(rs[i]))
		default:
			b.WriteString(globQuote(string(rs[i])))
		}
	}
	p := b.String()
	if chance(r, .15) {
		p += pick(r, "*", "?", "/", "/*")
	}
	if chance(r, .1) {
		p = pick(r, "*", "?", "*.", "*/") + p
	}
	if chance(r, .02) {
		p = pick(r, "*", "", "*/*")
	}
	return p
}

// genRegexp writes an expression that matches s or nearly does.
func genRegexp(r *rand.Rand, s string) string {
	rs := []rune(s)
	i := r.Intn(len(rs))
	j := i + r.Intn(len(rs)-i) + 1
	p := regexp.QuoteMeta(string(rs[i:j]))
	if chance(r, .4) {
		p = pick(r, "^", "(?i)", "^.*", "[a-z.]+") + p
	}
	if chance(r, .4) {
		p += pick(r, "$", "/?$", ".*", "[^/]*$", "(/|$)")
	}
	if chance(r, .1) {
		p = pick(r, "", ".", "^$", "/$", `\?`, "#", "^https?:")
	}
	return p
}

// subject is what matchers look at: host with port, then the decoded path.
func (u curl) subject() string { return u.hostport() + plainPath(u) }

// decorated spells the URL with parts that matter to no matcher.
func (u curl) decorated(r *rand.Rand) *url.URL {
	v := u.clone()
	v.Scheme = pick(r, "http", "https")
	v.User = pick(r, "", "", "user", "u:p")
	v.Query = nil
	for i, n := 0, r.Intn(3); i < n; i++ {
		v.Query = append(v.Query, pick(r, "a=1", "q=/x/y", "*=?"))
	}
	x := mkURL(v.spell(nil))
	if chance(r, .3) {
		x.Fragment = pick(r, "frag", "/x", "?")
	}
	if chance(r, .1) {
		x.ForceQuery = true
	}
	if len(v.Segs) == 0 && chance(r, .5) {
		x.Path = "" // then the subject is the host alone
	}
	if strings.HasPrefix(x.Path, "/") && len(x.Path) > 1 && x.RawPath == "" && chance(r, .1) {
		x.Path = x.Path[1:] // matched as beginning with a slash
	}
	return x
}

func clipURL(r *rand.Rand) curl {
	for {
		u := genCurl(r)
		s := u.subject()
		if strings.ToValidUTF8(s, "") == s {
			return u
		}
	}
}

// matchCase (C08): verdicts of the built-in matchers.
func matchCase(c *C) {
	r := c.Rng
	var us []curl
	for i := 0; i < 4; i++ {
		us = append(us, clipURL(r))
	}
	base := us[r.Intn(len(us))]
	host := base.hostport()
	if chance(r, .2) {
		host = pick(r, base.Host, host+"x", "x"+host, "sub."+host, strings.TrimPrefix(host, "a."), strings.ToUpper(host))
	}
	glob, expr := genGlob(r, base.subject()), genRegexp(r, base.subject())
	mh, mp, mr := ant.MatchHostname(host), ant.MatchPattern(glob), ant.MatchRegexp(expr)
	re := regexp.MustCompile(expr)
	yes, no := 0, 0
	judge := func(what string, got, want bool, u *url.URL) bool {
		if got != want {
			kind, _, _ := strings.Cut(what, " ")
			c.Violate(kind, "%s: Match(%s) is %v, expected %v (host %q path %q)", what, u, got, want, u.Host, u.Path)
			return false
		}
		if want {
			yes++
		} else {
			no++
		}
		return true
	}
	for _, u := range us {
		for i := 0; i < 3; i++ {
			x := u.decorated(r)
			s := x.Host + x.Path
			if x.Path != "" && x.Path[0] != '/' {
				s = x.Host + "/" + x.Path
			}
			before := x.String()
			if !judge("hostname "+host, mh.Match(x), u.hostport() == host, x) ||
				!judge("pattern "+glob, mp.Match(x), refGlob(s, glob), x) ||
				!judge("regexp "+expr, mr.Match(x), re.MatchString(s), x) {
				return
			}
			if x.String() != before {
				c.Violate("changed", "matching changed %s to %s", before, x)
				return
			}
		}
	}
	c.Count("accepting verdicts", yes)
	c.Count("refusing verdicts", no)
	c.Sig(host, glob, expr, fmt.Sprint(us))
	if c.N < 3 {
		c.Sample(map[string]any{"host": host, "glob": glob, "regexp": expr, "urls": fmt.Sprint(us)})
	}
}

// filterCase (C08): what a crawl enqueues, under a built-in matcher.
func filterCase(c *C) {
	r := c.Rng
	k := genCfg(r)
	k.Robots, k.P404 = "impolite", 0
	k.Pages = 4 + r.Intn(30)
	k.MaxLinks = 4 + r.Intn(8)
	k.Matcher = pick(r, "custom", "given", "given", "given")
	k.Queue = "wrapped"
	s := newSim(c, k)
	what := ""
	if k.Matcher == "given" {
		base := s.pages[0].u
		switch r.Intn(3) {
		case 0:
			h := base.hostport()
			what = "host " + h
			s.given, s.accept = ant.MatchHostname(h), func(u curl) bool { return u.hostport() == h }
		case 1:
			p := genGlob(r, base.subject())
			if chance(r, .6) {
				p = base.hostport() + pick(r, "/*", "/?", "/a*", "*b*", "/*/*", "/*/")
			}
			what = "pattern " + p
			s.given, s.accept = ant.MatchPattern(p), func(u curl) bool { return refGlob(u.subject(), p) }
		case 2:
			p := genRegexp(r, base.subject())
			if chance(r, .6) {
				p = "^" + regexp.QuoteMeta(base.hostport()) + pick(r, "/[a-m]", "/$", ".*/$", "/[^/]*$", ".*[A-Z]")
			}
			re := regexp.MustCompile(p)
			what = "regexp " + p
			s.given, s.accept = ant.MatchRegexp(p), func(u curl) bool { return re.MatchString(u.subject()) }
		}
	}
	s.start, s.raws = nil, nil
	for i := range s.pages {
		if i == 0 || chance(r, .3) {
			s.start, s.raws = append(s.start, i), append(s.raws, s.pages[i].u.spell(r))
		}
	}
	var o outcome
	c.Bubble(func() { o = s.crawl(context.Background()) })
	bad := func(key, f string, a ...any) {
		c.Logf("matcher %s", what)
		s.history()
		c.Violate(key, f, a...)
	}
	if c.Bad() {
		s.history()
		return
	}
	if o.err != nil {
		bad("error", "Run of a fault-free crawl returned %v", o.err)
		return
	}
	fetch, _ := s.reachable()
	got := s.counts("fetch")
	enq := s.counts("enqueued")
	for i, p := range s.pages {
		if enq[i] > 0 && !s.accepts(i) {
			bad("enqueued", "page %d (%s) was enqueued, the matcher %s refuses it", i, p.u.spell(nil), what)
			return
		}
		if fetch[i] && got[i] == 0 {
			bad("refused", "page %d (%s) was not visited, the matcher %s accepts it", i, p.u.spell(nil), what)
			return
		}
	}
	asked := map[int]string{}
	for _, e := range s.ev {
		if e.kind == "match" && e.page >= 0 {
			if was, ok := asked[e.page]; ok && was != e.info {
				bad("not-normal", "the matcher was asked about %s and about %s, which are the same page", was, e.info)
				return
			}
			asked[e.page] = e.info
		}
	}
	c.Count("pages enqueued", len(enq))
	c.Count("pages refused", len(s.pages)-len(enq))
	c.Sig(what, s.k.String(), s.order())
}

// bucket is the reference token bucket: n per second, burst n, first come
// first served.
type bucket struct {
	n      float64
	tokens float64
	last   time.Duration
}

func (b *bucket) admit(at time.Duration) time.Duration {
	b.tokens = min(b.n, b.tokens+b.n*(at-b.last).Seconds())
	b.last = at
	b.tokens--
	if b.tokens >= 0 {
		return at
	}
	return at + time.Duration(-b.tokens/b.n*1e9)
}

// limiterCase (C07): one built-in limiter under concurrent calls.
func limiterCase(c *C) {
	r := c.Rng
	n := pick(r, 1, 1, 2, 3, 5, 10, 100, 500, 1000, 2000)
	many := chance(r, .008)
	if many {
		n = pick(r, 500, 1500, 2000)
	}
	base := clipURL(r)
	if len(base.Segs) == 0 {
		base.Segs, base.Slash = []string{"x"}, false
	}
	kind := pick(r, "all", "hostname", "pattern", "regexp")
	var l ant.Limiter
	match := func(u *url.URL) bool { return true }
	arg := ""
	switch kind {
	case "all":
		l = ant.Limit(n)
	case "hostname":
		arg = base.hostport()
		l, match = ant.LimitHostname(n, arg), func(u *url.URL) bool { return u.Host == arg }
	case "pattern":
		arg = pick(r, base.hostport()+"/*", base.subject(), genGlob(r, base.subject()), "*"+plainPath(base))
		if !strings.HasSuffix(arg, "*") {
			arg = strings.ReplaceAll(arg, "?", "*")
		}
		l, match = ant.LimitPattern(n, arg), func(u *url.URL) bool { return refGlob(u.Host+u.Path, arg) }
	case "regexp":
		arg = pick(r, "^"+regexp.QuoteMeta(base.hostport()), regexp.QuoteMeta(plainPath(base))+"$", genRegexp(r, base.subject()))
		re := regexp.MustCompile(arg)
		l, match = ant.LimitRegexp(n, arg), func(u *url.URL) bool { return re.MatchString(u.Host + u.Path) }
	}
	type call struct {
		u               *url.URL
		match           bool
		at, out, cancel time.Duration
		dl              bool
		err             error
	}
	calls := make([]*call, 1+r.Intn(40))
	if many {
		// The burst and what comes after it.
		calls = make([]*call, n+100+r.Intn(n))
		c.Count("limiters called more than 600 times", 1)
	}
	spread := pick(r, 1, 1000, 10000)
	cancels := chance(r, .4)
	if many {
		spread, cancels = pick(r, 1, 1, 1000), chance(r, .2)
	}
	for i := range calls {
		u := base
		if chance(r, .4) {
			u = clipURL(r)
			if chance(r, .5) {
				u.Host, u.Port = base.Host, base.Port
			}
		}
		x := u.decorated(r)
		if x.Path != "" && x.Path[0] != '/' {
			x.Path = "/" + x.Path
		}
		calls[i] = &call{u: x, match: match(x), at: time.Duration(r.Intn(spread)) * time.Millisecond, cancel: -1}
		if cancels && chance(r, .3) {
			calls[i].cancel = calls[i].at + time.Duration(r.Intn(3000))*time.Millisecond + 500*time.Microsecond
			if chance(r, .1) {
				calls[i].cancel = max(0, calls[i].at-time.Millisecond)
			}
			calls[i].dl = chance(r, .3)
		}
	}
	c.Bubble(func() {
		t0 := time.Now()
		var wg sync.WaitGroup
		for _, x := range calls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx := context.Background()
				if x.cancel >= 0 {
					if x.dl {
						var cancel context.CancelFunc
						ctx, cancel = context.WithDeadline(ctx, t0.Add(x.cancel))
						defer cancel()
					} else {
						var cancel context.CancelFunc
						ctx, cancel = context.WithCancel(ctx)
						defer cancel()
						t := time.AfterFunc(x.cancel, cancel)
						defer t.Stop()
					}
				}
				time.Sleep(x.at)
				x.err = l.Limit(ctx, x.u)
				x.out = time.Since(t0)
			}()
		}
		wg.Wait()
	})
	if c.Bad() {
		return
	}
	what := fmt.Sprintf("%s %q n=%d", kind, arg, n)
	bad := func(key, f string, a ...any) {
		for _, x := range calls {
			c.Logf("%s match %v at %v returned %v, %v (ctx ends %v)", x.u, x.match, x.at, x.out, x.err, x.cancel)
		}
		c.Violate(key, "%s: %s", what, fmt.Sprintf(f, a...))
	}
	var in, out []time.Duration
	for _, x := range calls {
		ended := x.cancel >= 0
		switch {
		case !x.match && x.out != x.at:
			bad("held-up", "%s does not match but was delayed from %v to %v", x.u, x.at, x.out)
			return
		case !x.match && x.err != nil && (!ended || x.cancel > x.at):
			bad("error", "%s does not match, Limit returned %v", x.u, x.err)
			return
		case !x.match:
			c.Count("calls that do not match", 1)
		case x.err != nil && !ended:
			bad("error", "Limit(%s) returned %v", x.u, x.err)
			return
		case x.err != nil && !x.dl && !errors.Is(x.err, context.Canceled):
			bad("error", "the context of Limit(%s) was cancelled, it returned %v", x.u, x.err)
			return
		case x.err != nil && !x.dl && x.out != max(x.at, x.cancel):
			bad("late", "the context of Limit(%s) was cancelled at %v, it returned %v at %v", x.u, x.cancel, x.err, x.out)
			return
		case ended && x.out > max(x.at, x.cancel):
			bad("late", "the context of Limit(%s) ended at %v, it returned %v at %v", x.u, x.cancel, x.err, x.out)
			return
		case x.err != nil:
			c.Count("calls whose context ended", 1)
		default:
			in, out = append(in, x.at), append(out, x.out)
		}
	}
	sort.Slice(in, func(i, j int) bool { return in[i] < in[j] })
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	for i := range out {
		for j := i; j < len(out); j++ {
			if most := float64(n) + float64(n)*(out[j]-out[i]+20*time.Microsecond).Seconds(); float64(j-i+1) > most+1e-6 {
				bad("too-fast", "%d calls were let through between %v and %v", j-i+1, out[i], out[j])
				return
			}
		}
	}
	if !cancels {
		b := bucket{n: float64(n), tokens: float64(n)}
		held := 0
		for i, at := range in {
			want := b.admit(at)
			if d := out[i] - want; d > 20*time.Microsecond || d < -20*time.Microsecond {
				key := "too-slow"
				if d < 0 {
					key = "too-fast"
				}
				bad(key, "matching call %d (arrived %v) was let through at %v, expected %v", i, at, out[i], want)
				return
			}
			if want > at {
				held++
			}
		}
		c.Count("calls delayed by a limiter", held)
	}
	c.Count("calls let through/"+kind, len(out))
	c.Sig(what, fmt.Sprint(in), fmt.Sprint(out))
	if c.N < 6 {
		c.Sample(map[string]any{"limiter": what, "matching arrivals": fmt.Sprint(in), "let through": fmt.Sprint(out)})
	}
}

// consultCase (C07): how the engine uses its limiter.
func consultCase(c *C) {
	r := c.Rng
	k := genCfg(r)
	k.Limiter, k.Deaf = "slow", 0
	k.Robots = pick(r, "impolite", "none", "rules", "delay")
	k.Pages = 2 + r.Intn(20)
	k.P404 = pick(r, 0, .2)
	s := newSim(c, k)
	if chance(r, .3) {
		s.inner = ant.Limit(1 + r.Intn(5))
	}
	for _, p := range s.pages {
		if chance(r, .2) {
			p.script = append(p.script, pick(r, 503, 429, errTemp))
		}
	}
	fail := chance(r, .4)
	if fail {
		at := 1 + r.Intn(8)
		s.fault = func(kind string, page, nth int) error {
			if kind == "limit" && nth == at {
				return failure("limiter", c.N)
			}
			return nil
		}
	}
	var o outcome
	c.Bubble(func() { o = s.crawl(context.Background()) })
	bad := func(key, f string, a ...any) {
		s.history()
		c.Violate(key, f, a...)
	}
	if c.Bad() {
		s.history()
		return
	}
	if (o.err != nil) != (s.failedAt >= 0) {
		bad("error", "Run returned %v, limiter failures %v", o.err, s.failures)
		return
	}
	limits := map[int][]*span{}
	for _, sp := range s.spans { // in order of their starts
		switch sp.kind {
		case "limit":
			limits[sp.page] = append(limits[sp.page], sp)
			if len(limits[sp.page]) > 1 {
				bad("twice", "the limiter was consulted %d times for page %d", len(limits[sp.page]), sp.page)
				return
			}
		case "fetch":
			ls := limits[sp.page]
			switch {
			case len(ls) == 0:
				bad("unlimited", "page %d was fetched at %v without consulting the limiter", sp.page, sp.start)
				return
			case ls[0].err != nil:
				bad("failed", "page %d was fetched at %v although the limiter failed with %v", sp.page, sp.start, ls[0].err)
				return
			case ls[0].end < 0 || ls[0].end > sp.start:
				bad("early", "page %d was fetched at %v, the limiter returned at %v", sp.page, sp.start, ls[0].end)
				return
			case ls[0].url != sp.url:
				bad("other-url", "the limiter was asked about %s, %s was fetched", ls[0].url, sp.url)
				return
			}
			c.Count("fetches preceded by their limiter call", 1)
		}
	}
	if s.failedAt >= 0 {
		c.Count("limiter failures", 1)
	}
	c.Sig(s.k.String(), s.order())
}

func TestC07(t *testing.T) {
	Run(t, "C07", W{"limiter", 6000, 200000, limiterCase}, W{"consult", 2500, 60000, consultCase})
}

func TestC08(t *testing.T) {
	Run(t, "C08", W{"match", 20000, 600000, matchCase}, W{"filter", 2500, 60000, filterCase})
}
