package zzverif

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/andybalholm/cascadia"
	"github.com/yields/ant"
	"golang.org/x/net/html"
)

// ---- documents -------------------------------------------------------------

var docTags = []string{"div", "p", "a", "li", "ul", "ol", "span", "b", "i", "em", "table", "tr", "td", "section",
	"article", "svg", "title", "h1", "textarea", "template", "form", "button", "br", "img", "script", "style", "nav", "x-y", "select", "option", "noscript", "math"}

var hrefPool = []string{
	"", "#", "#top", "?", "?q=1", "?q=a b", "/", "/a", "/a/b/../c", "a", "./a", "../a", "../../../a", "a/b/", ".", "..", "//o.test/x", "//o.test", "//",
	"///x", "/\u00e9t\u00e9", "a%20b", "/%zz", "%", "http://p.test/", "HTTP://P.TEST/Up", "https://p.test:8443/a?b#c", "http://u:p@h.test/", "https://[::1]/x",
	"http://[::1", "http://p.test:bad/", "http://a b/", ":foo", "http:foo", "https:foo/bar", "http:/x", "http:///x", "http://:80/x", "http:", "https:?q",
	"mailto:a@b.c", "javascript:void(0)", "JavaScript:alert(1)", "ftp://f.test/", "data:text/html,hi", "tel:123", "about:blank", "file:///etc/passwd", "ws://w.test/",
	" /lead", "/trail ", "\t/tab", "/new\nline", "http://p.test/\x7f", "a:b", "./a:b", "1:2", "http://p.test/a|b", "http://p.test/?a=1&a=2;3", "foo#bar#baz",
	"\\\\o.test\\x", "http://\u00e9.test/", "?#", "a?b/../c", ";x", "http://p.test", "https://p.test#f", "http://p.test?q", "x//y", "/./././z", "/..", "httpx://p.test/", "http2", "https",
}

var selPool = []string{
	"a", "a[href]", "[href]", "*", "li a", "ul > li", ".c1", ".c2", "#i1", "div", "p", "a.c1[href]", "a, li", "li:first-child", "li:nth-child(2n)", "span + b", "p ~ a",
	"a[href^='/']", "a[href*=test]", "a:not(.c1)", "div:has(a)", "b:contains('t1')", "[data-x]", "[data-x='1']", "title", "h1", "body", "html", "head", ":empty", "svg", "a a",
	"nothing", "td, a, p", ".c1 .c2", "*:last-child", "i:only-child", ":root", "template", "div div div", "li:nth-last-child(1)", "[class~=c2]", "x-y", "a:matches('t[0-9]')",
	// not selectors
	"", "[", "a[", "::", "a >", "..c", "a:nope", "#", "a[href", "(", "a,,b", "  ", "\x00", "a:nth-child(", "}",
}

// genSel draws a selector: one of the pool, or some put together.
func genSel(r *rand.Rand) string {
	if chance(r, .6) {
		return pick(r, selPool...)
	}
	s := ""
	for i := 1 + r.Intn(3); i > 0; i-- {
		if s != "" {
			s += pick(r, " ", " > ", ", ", " ", " + ", " ~ ")
		}
		if chance(r, .35) {
			s += pick(r, ".c1", ".c2", "[href]", ":first-child")
		} else {
			s += pick(r, "a", "li", "div", "p", "b", "span", "*", "A", "LI", "ul")
		}
		for chance(r, .4) {
			s += pick(r, ".c1", ".c2", ".C1", ".c3", "#i1", "#I1", "[href]", "[data-x]", "[data-x=x]", "[data-x=X]", ":first-child", ":last-child", ":not(.c1)", ":not(.c2)", "[class]", ":nth-child(2)", ":nth-child(1)")
		}
	}
	return s
}

type docGen struct {
	r     *rand.Rand
	b     strings.Builder
	left  int
	token int
}

func (g *docGen) text() {
	g.token++
	switch g.r.Intn(11) {
	case 9:
		fmt.Fprintf(&g.b, "\n t%d\n", g.token%7)
	case 10:
		g.b.WriteString(pick(g.r, "007", "010", "0x1F", "1_000", "99999999999", "+5", " 12 ", "1e3", "Inf", "NaN", "-0", "3000000000", "-3000000000",
			"9223372036854775807", "9223372036854775808", "18446744073709551615", "-1", "0b11", "1e400", "1e39", "16777217", "0.1", "\u0663"))
	case 0:
		g.b.WriteString("&amp;&lt;&eacute;&#x41;&bogus;")
	case 1:
		g.b.WriteString(" \n\t ")
	case 2:
		g.b.WriteString("\u00e9\u4e16\U0001f600")
	case 3:
		g.b.WriteString("\xff\xfe")
	case 4:
		fmt.Fprintf(&g.b, "%d", g.r.Intn(100)-50)
	case 5:
		fmt.Fprintf(&g.b, "%.2f", g.r.Float64()*100)
	default:
		fmt.Fprintf(&g.b, "t%d ", g.token%7)
	}
}

func (g *docGen) attrs(tag string) {
	r := g.r
	if chance(r, .25) {
		fmt.Fprintf(&g.b, ` class="%s"`, pick(r, "c1", "c2", "c1 c2", "c3", " c2  c1", ""))
	}
	if chance(r, .1) {
		fmt.Fprintf(&g.b, ` id=i%d`, r.Intn(3))
	}
	if chance(r, .1) {
		fmt.Fprintf(&g.b, ` data-x='%s'`, pick(r, "1", "2", "-7", "3.5", "x", "X", "", "t&amp;u", "12", " 4", "0x10"))
	}
	if p := map[bool]float64{true: .85, false: .06}[tag == "a"]; chance(r, p) {
		h := pick(r, hrefPool...)
		fmt.Fprintf(&g.b, ` href="%s"`, strings.ReplaceAll(html.EscapeString(h), "\x00", ""))
		if chance(r, .05) {
			g.b.WriteString(` href="/second"`)
		}
	}
	if chance(r, .03) {
		g.b.WriteString(` =broken "x' HREF=/up`)
	}
}

func (g *docGen) node(depth int) {
	r := g.r
	for g.left > 0 {
		g.left--
		switch {
		case chance(r, .35):
			g.text()
		case chance(r, .05):
			g.b.WriteString(pick(r, "<!-- c -->", "<!---->", "<!bogus>", "<![CDATA[x]]>", "</p>", "</nope>", "<", "&", "<3", "</", "<!--", "<a<b>", "<?pi?>"))
		default:
			tag := docTags[r.Intn(len(docTags))]
			if chance(r, .35) {
				tag = "a"
			}
			g.b.WriteString("<" + tag)
			g.attrs(tag)
			g.b.WriteString(pick(r, ">", ">", ">", "/>", " >"))
			if depth < 9 && chance(r, .6) {
				g.node(depth + 1)
			} else if chance(r, .7) {
				g.text()
			}
			if chance(r, .85) {
				g.b.WriteString("</" + tag + ">")
			}
		}
		if depth > 0 && chance(r, .35) {
			return
		}
	}
}

// genDoc draws an HTML text.
func genDoc(r *rand.Rand) string {
	g := &docGen{r: r, left: pick(r, 0, 1, 3, 10, 25, 60)}
	if chance(r, .4) {
		g.b.WriteString("<!DOCTYPE html><html><head><title>T</title>")
		if chance(r, .2) {
			g.b.WriteString(`<base href="http://base.test/b/">`)
		}
		if chance(r, .5) {
			g.b.WriteString("</head><body>")
		}
	}
	g.node(0)
	if chance(r, .004) { // very many, very long
		for i, n := 0, pick(r, 100, 300, 1100, 2500); i < n; i++ {
			fmt.Fprintf(&g.b, `<a href="/many/%d" class="c%d">%d</a> `, r.Intn(n), i%4, i)
		}
	}
	if chance(r, .01) {
		fmt.Fprintf(&g.b, `<a class="c1" href="/%s">long</a>`, strings.Repeat("long-", pick(r, 60, 250, 500, 2000))+fmt.Sprint(r.Intn(9)))
	}
	if chance(r, .03) { // very deep
		g.b.WriteString(strings.Repeat("<div><a href=deep>", 60))
	}
	return g.b.String()
}

// ---- reference evaluation ----------------------------------------------------

// refDoc is an independent parse of a page.
type refDoc struct {
	root *html.Node
	text string
}

func parseRef(text string) *refDoc {
	root, err := html.Parse(strings.NewReader(text))
	if err != nil {
		panic(err)
	}
	return &refDoc{root, text}
}

func walk(n *html.Node, f func(*html.Node)) {
	f(n)
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		walk(c, f)
	}
}

// refSelect is every node at or below n that the selector matches, in document order.
func refSelect(n *html.Node, sel string) (out []*html.Node) {
	s, err := cascadia.Compile(sel)
	if err != nil {
		return nil
	}
	walk(n, func(m *html.Node) {
		if s.Match(m) {
			out = append(out, m)
		}
	})
	return out
}

// refText is the concatenation of all text nodes below n, or of n itself.
func refText(n *html.Node) string {
	var b strings.Builder
	var rec func(n *html.Node)
	rec = func(n *html.Node) {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			if c.Type == html.TextNode || c.Type == html.ElementNode {
				rec(c)
			}
		}
	}
	rec(n)
	return b.String()
}

func refAttr(n *html.Node, key string) (string, bool) {
	for i := 0; i < len(n.Attr); i++ {
		if n.Attr[i].Key == key {
			return n.Attr[i].Val, true
		}
	}
	return "", false
}

// path names a node by its position in the tree.
func path(n *html.Node) string {
	var s []string
	for ; n != nil && n.Parent != nil; n = n.Parent {
		i := 0
		for p := n.PrevSibling; p != nil; p = p.PrevSibling {
			i++
		}
		s = append(s, fmt.Sprintf("%d:%s", i, n.Data))
	}
	if n == nil {
		return "<nil>"
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return "/" + strings.Join(s, "/")
}

func paths(ns []*html.Node) []string {
	out := make([]string, len(ns))
	for i, n := range ns {
		out[i] = path(n)
	}
	return out
}

// refLinks is what URLs/Next have to return.
func refLinks(d *refDoc, base *url.URL, sel string) (out []string) {
	for _, n := range refSelect(d.root, sel) {
		href, ok := refAttr(n, "href")
		if !ok {
			continue
		}
		u, err := base.Parse(href) // parses and resolves
		if err != nil {
			continue
		}
		if (u.Scheme == "http" || u.Scheme == "https") && u.Hostname() != "" {
			out = append(out, u.ResolveReference(u).String())
		}
	}
	return out
}

// urlStrings spells URLs out, without dot segments: whether they are removed
// from links that were absolute already is the normalizer's business.
func urlStrings(us ant.URLs) []string {
	var out []string
	for _, u := range us {
		if u == nil {
			out = append(out, "<nil>")
		} else {
			out = append(out, u.ResolveReference(u).String())
		}
	}
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- serving -----------------------------------------------------------------

// pageServer is a RoundTripper that serves documents by URL, with redirects.
type pageServer struct {
	mu    sync.Mutex
	redir map[string][2]string // url -> status, location
	docs  map[string]string
	fail  map[string]int // the body breaks after so many bytes
	slow  bool
	got   int
}

type brokenReader struct{}

func (brokenReader) Read([]byte) (int, error) { return 0, errors.New("body broke") }

// oneByte hands the data out in small pieces.
type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return o.r.Read(p)
}

func (s *pageServer) RoundTrip(req *http.Request) (*http.Response, error) {
	u := *req.URL
	u.Fragment = ""
	k := u.String()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got++
	resp := &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req, Body: io.NopCloser(strings.NewReader(""))}
	if rd, ok := s.redir[k]; ok {
		resp.StatusCode = atoi(rd[0])
		resp.Header.Set("Location", rd[1])
		return resp, nil
	}
	d, ok := s.docs[k]
	if !ok {
		resp.StatusCode = 404
		return resp, nil
	}
	var r io.Reader = strings.NewReader(d)
	if n, ok := s.fail[k]; ok {
		r = io.MultiReader(strings.NewReader(d[:n]), brokenReader{})
	}
	if s.slow {
		r = oneByte{r}
	}
	resp.Body = io.NopCloser(r)
	return resp, nil
}

func (s *pageServer) page(u string) (*ant.Page, error) {
	f := &ant.Fetcher{Client: &http.Client{Transport: s}}
	pu, err := url.Parse(u)
	if err != nil {
		panic(err)
	}
	p, err := f.Fetch(context.Background(), pu)
	if p == nil && err == nil {
		err = errNothing
	}
	return p, err
}

var basePool = []string{
	"http://site.test", "http://site.test/", "http://site.test/dir/page.html", "https://site.test/dir/", "https://site.test:8443/a/b/c?q=1&r=2", "http://user:pw@site.test/x",
	"http://[2001:db8::1]:8080/v6/", "http://site.test/a%20b/%C3%A9?x=%20", "http://site.test/a//b/", "http://site.test/deep/er/est/one#frag", "https://site.test?only=query", "http://site.test/;p=1/x",
}

// ---- C15 -----------------------------------------------------------------------

func linksCase(c *C) {
	r := c.Rng
	doc := genDoc(r)
	start := pick(r, basePool...)
	srv := &pageServer{redir: map[string][2]string{}, docs: map[string]string{}, fail: map[string]int{}, slow: chance(r, .2)}
	strip := func(u *url.URL) string { v := *u; v.Fragment = ""; return v.String() }
	cur, _ := url.Parse(start)
	hops := 0
	if chance(r, .5) {
		hops = 1 + r.Intn(4)
	}
	seen := map[string]bool{}
	for i := 0; i < hops; i++ {
		// A Location may be relative; the reference resolves it the way RFC 3986 says.
		loc := pick(r, "/moved", "other/", "../up", "?page=2", "https://other.test/new/place", "//cdn.test/x/y", "http://site.test/back", "./", "/a/b/c/d/")
		if chance(r, .7) {
			loc += pick(r, "", fmt.Sprint("?hop=", i))
		}
		next, err := cur.Parse(loc)
		if err != nil || seen[strip(cur)] || strip(next) == strip(cur) {
			break
		}
		seen[strip(cur)] = true
		if seen[strip(next)] {
			break
		}
		srv.redir[strip(cur)] = [2]string{pick(r, "301", "302", "303", "307", "308"), loc}
		cur = next
	}
	srv.docs[strip(cur)] = doc
	broken := chance(r, .08)
	if broken {
		srv.fail[strip(cur)] = r.Intn(len(doc) + 1)
	}
	c.Logf("start %s redirects %v final %s broken %v", start, srv.redir, cur, broken)
	c.Logf("doc %q", doc)
	pg, err := srv.page(start)
	if err != nil || pg == nil {
		c.Violate("fetch", "fetching %s through %v gave %v, %v", start, srv.redir, pg, err)
		return
	}
	if strip(pg.URL) != strip(cur) {
		c.Violate("final-url", "the page was finally served from %s, its URL is %s", strip(cur), pg.URL)
		return
	}
	d := parseRef(doc)
	judge := func(what string, sel string, got ant.URLs, err error) {
		want := refLinks(d, cur, sel)
		if broken {
			// The document could not be read: no links, or those of what was read.
			if err != nil {
				c.Violate("fail", "%s failed: %v", what, err)
			}
			return
		}
		if err != nil {
			c.Violate("fail", "%s failed: %v", what, err)
			return
		}
		if g := urlStrings(got); !sameStrings(g, want) {
			c.Violate("links", "%s on a page from %s returned\n%q, want\n%q\nof document %q", what, cur, g, want, doc)
		}
		c.Count("links returned", len(want))
		all := 0
		for _, n := range refSelect(d.root, sel) {
			if _, ok := refAttr(n, "href"); ok {
				all++
			}
		}
		c.Count("links skipped", all-len(want))
	}
	type query struct{ sel string }
	var qs []string
	for i := 0; i < 6; i++ {
		if chance(r, .4) {
			qs = append(qs, "urls")
		} else {
			qs = append(qs, genSel(r))
		}
	}
	run := func(qs []string) {
		for _, q := range qs {
			if q == "urls" {
				us := pg.URLs()
				judge("URLs", "a[href]", us, nil)
				// What is handed out belongs to the caller.
				for _, u := range us {
					if u != nil {
						u.Host, u.Path = "mutated.test", "/m"
					}
				}
			} else {
				us, err := pg.Next(q)
				judge(fmt.Sprintf("Next(%q)", q), q, us, err)
			}
		}
	}
	if chance(r, .25) {
		var wg sync.WaitGroup
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); c.guard(func() { run(qs) }) }()
		}
		wg.Wait()
		c.Count("pages queried concurrently", 1)
	} else {
		run(qs)
	}
	if hops > 0 && len(srv.redir) > 0 {
		c.Count("redirected pages", 1)
	}
	if broken {
		c.Count("pages whose body broke", 1)
	}
	if n := len(refLinks(d, cur, "a[href]")); n > 0 {
		c.Sig(cur.String(), strings.Join(refLinks(d, cur, "a[href]"), " "))
		if n < 6 {
			c.Sample(map[string]any{"page": cur.String(), "links": refLinks(d, cur, "a[href]")})
		}
	}
}

// hrefCase resolves every href of the pool, alone, against every base.
func hrefCase(c *C) {
	base := basePool[c.N%len(basePool)]
	bu, _ := url.Parse(base)
	if chance(c.Rng, .5) {
		bu, _ = bu.Parse(pick(c.Rng, "x/y", "?z", "../q/"))
	}
	for _, h := range hrefPool {
		if chance(c.Rng, .3) { // vary
			h = h + pick(c.Rng, "x", "/", "?y=1", "#z", "%41", "..", ":1")
		}
		doc := `<i>x</i><a class=n href="` + html.EscapeString(h) + `">x</a>`
		v := *bu
		v.Fragment = ""
		srv := &pageServer{docs: map[string]string{v.String(): doc}}
		pg, err := srv.page(bu.String())
		if err != nil || pg == nil {
			c.Violate("fetch", "fetching %s: %v", bu, err)
			return
		}
		d := parseRef(doc)
		want := refLinks(d, bu, "a[href]")
		if got := urlStrings(pg.URLs()); !sameStrings(got, want) {
			c.Violate("href", "href %q on %s: URLs returned %q, want %q", h, bu, got, want)
		}
		nx, err := pg.Next(".n")
		if got := urlStrings(nx); err != nil || !sameStrings(got, want) {
			c.Violate("href", "href %q on %s: Next returned %q, %v, want %q", h, bu, got, err, want)
		}
		c.Count("single hrefs resolved", 1)
		c.Sig(bu.String(), h)
	}
}

// ---- C16 -----------------------------------------------------------------------

// lists is a list of the code under test next to its reference.
type lists struct {
	got  ant.List
	want []*html.Node
}

type queryRun struct {
	c    *C
	pg   *ant.Page
	d    *refDoc
	doc  string
	root *html.Node // of the page
	mu   *sync.Mutex
	ops  int
}

func (q *queryRun) check(what string, l lists) bool {
	g, w := paths(l.got), paths(l.want)
	if !sameStrings(g, w) {
		q.c.Violate("nodes", "%s gave %q, want %q in %q", what, g, w, q.doc)
		return false
	}
	for i, n := range l.got {
		if n.Data != l.want[i].Data || n.Type != l.want[i].Type {
			q.c.Violate("nodes", "%s gave a different node at %s", what, g[i])
			return false
		}
	}
	return true
}

// chain does a few random operations starting from the page.
func (q *queryRun) chain(r *rand.Rand) {
	c := q.c
	sel := genSel(r)
	if chance(r, .2) {
		if g, w := q.pg.Text(sel), refTexts(refSelect(q.d.root, sel)); g != w {
			c.Violate("text", "Page.Text(%q) = %q, want %q in %q", sel, g, w, q.doc)
		}
		q.ops++
	}
	what := fmt.Sprintf("Page.Query(%q)", sel)
	l := lists{q.pg.Query(sel), refSelect(q.d.root, sel)}
	q.ops++
	if !q.check(what, l) {
		return
	}
	for i := 0; i < 1+r.Intn(6); i++ {
		q.ops++
		switch r.Intn(7) {
		case 0, 1:
			sel := genSel(r)
			what += fmt.Sprintf(".Query(%q)", sel)
			n := lists{got: l.got.Query(sel)}
			for _, m := range l.want {
				n.want = append(n.want, refSelect(m, sel)...)
			}
			if !q.check(what, n) {
				return
			}
			if len(n.want) > 0 && len(n.want) < 400 {
				l = n
			}
		case 2:
			k := r.Intn(2*len(l.want)+5) - len(l.want) - 2
			if chance(r, .05) {
				k = pick(r, -1<<62, 1<<62, -1<<63, 1<<63-1)
			}
			w := fmt.Sprintf("%s.At(%d)", what, k)
			n := lists{got: l.got.At(k)}
			j := k
			if k < 0 {
				j = len(l.want) + k
			}
			if j >= 0 && j < len(l.want) {
				n.want = l.want[j : j+1]
			}
			if !q.check(w, n) {
				return
			}
			if len(n.want) == 1 && chance(r, .5) {
				l, what = n, w
			}
		case 3:
			sel := genSel(r)
			want := false
			if s, err := cascadia.Compile(sel); err == nil {
				for _, n := range l.want {
					want = want || s.Match(n)
				}
			}
			if got := l.got.Is(sel); got != want {
				c.Violate("is", "%s.Is(%q) = %v, want %v in %q", what, sel, got, want, q.doc)
			}
		case 4:
			if g, w := l.got.Text(), refTexts(l.want); g != w {
				c.Violate("text", "%s.Text() = %q, want %q in %q", what, g, w, q.doc)
			}
		case 5:
			key := pick(r, "href", "class", "id", "data-x", "nope", "", "HREF")
			want, ok := "", false
			if len(l.want) > 0 {
				want, ok = refAttr(l.want[0], key)
			}
			if g, gok := l.got.Attr(key); g != want || gok != ok {
				c.Violate("attr", "%s.Attr(%q) = %q, %v, want %q, %v in %q", what, key, g, gok, want, ok, q.doc)
			}
		case 6:
			// A list put together by the caller: repeated and nested nodes.
			var n lists
			for k := 0; k < 3 && len(l.want) > 0; k++ {
				j := r.Intn(len(l.want))
				n.got = append(n.got, l.got[j])
				n.want = append(n.want, l.want[j])
				if p := l.want[j].Parent; p != nil && chance(r, .5) {
					n.got = append(n.got, l.got[j].Parent)
					n.want = append(n.want, p)
				}
			}
			l, what = n, what+"<own list>"
		}
	}
}

func refTexts(ns []*html.Node) string {
	var b strings.Builder
	for _, n := range ns {
		b.WriteString(refText(n))
	}
	return b.String()
}

func queryCase(c *C) {
	r := c.Rng
	doc := genDoc(r)
	srv := &pageServer{docs: map[string]string{"http://site.test/": doc}, slow: chance(r, .3)}
	d := parseRef(doc)
	pg, err := srv.page("http://site.test/")
	if err != nil || pg == nil {
		c.Violate("fetch", "fetch: %v", err)
		return
	}
	c.Logf("doc %q", doc)
	G := 1
	if chance(r, .35) {
		G = 2 + r.Intn(3)
	}
	var wg sync.WaitGroup
	total := make([]int, G)
	roots := make([]*html.Node, G)
	for g := 0; g < G; g++ {
		rg := rand.New(rand.NewSource(r.Int63()))
		f := func() {
			defer wg.Done()
			c.guard(func() {
				q := &queryRun{c: c, pg: pg, d: d, doc: doc}
				for i := 0; i < 4; i++ {
					q.chain(rg)
				}
				switch rg.Intn(3) {
				case 0:
					h, err := pg.HTML()
					var b bytes.Buffer
					html.Render(&b, d.root)
					if err != nil || h != b.String() {
						// x/net/html refuses to render some trees; so must HTML.
						if rerr := html.Render(io.Discard, d.root); rerr == nil || err == nil {
							c.Violate("html", "HTML() = %q, %v, want %q", h, err, b.String())
						}
					}
				case 1:
					root, err := pg.Document()
					if err != nil || root == nil {
						c.Violate("document", "Document() = %v, %v", root, err)
					}
					roots[g] = root
				}
				total[g] = q.ops
			})
		}
		wg.Add(1)
		if G == 1 {
			f()
		} else {
			go f()
		}
	}
	wg.Wait()
	var root *html.Node
	for _, x := range roots {
		if x != nil && root != nil && x != root {
			c.Violate("document", "two calls of Document gave two documents")
		}
		if x != nil {
			root = x
		}
	}
	for _, n := range total {
		c.Count("query operations compared", n)
	}
	// The queries changed nothing.
	if after, err := pg.Document(); err == nil {
		var a, b []string
		walk(after, func(n *html.Node) { a = append(a, path(n)) })
		walk(d.root, func(n *html.Node) { b = append(b, path(n)) })
		if !sameStrings(a, b) {
			c.Violate("mutated", "the document changed while it was queried: %q, was %q", a, b)
		}
		c.Max("largest document (nodes)", len(b))
	}
	if G > 1 {
		c.Count("pages queried concurrently", 1)
	}
	c.Sig(doc)
	if len(doc) < 200 && len(doc) > 20 {
		c.Sample(map[string]any{"document": doc, "goroutines": G})
	}
}

// brokenCase queries pages that cannot be parsed.
func brokenCase(c *C) {
	r := c.Rng
	doc := genDoc(r)
	cut := r.Intn(len(doc) + 1)
	srv := &pageServer{docs: map[string]string{"http://site.test/": doc}, fail: map[string]int{"http://site.test/": cut}}
	pg, err := srv.page("http://site.test/")
	if err != nil {
		return
	}
	for i := 0; i < 6; i++ {
		switch r.Intn(6) {
		case 0:
			if root, err := pg.Document(); err == nil {
				c.Violate("no-error", "the body broke, Document gave %v without an error", root)
			}
		case 1:
			if h, err := pg.HTML(); err == nil {
				c.Violate("no-error", "the body broke, HTML gave %q without an error", h)
			}
		case 2:
			if l := pg.Query("*"); len(l) != 0 {
				c.Violate("no-document", "the body broke, Query gave %d nodes", len(l))
			}
		case 3:
			if s := pg.Text("*"); s != "" {
				c.Violate("no-document", "the body broke, Text gave %q", s)
			}
		case 4:
			var l ant.List
			l.Text()
			l.At(0)
			l.At(-1)
			l.Attr("x")
			l.Is("a")
			l.Query("a")
		case 5:
			var x struct {
				A string `css:"a"`
			}
			if err := pg.Scan(&x); err == nil {
				c.Violate("no-error", "the body broke, Scan gave no error")
			}
		}
	}
	c.Count("broken pages queried", 1)
}

func sorted(s []string) []string {
	o := append([]string(nil), s...)
	sort.Strings(o)
	return o
}

func TestC15(t *testing.T) {
	Run(t, "C15", W{"links", 8000, 200000, linksCase}, W{"href", 48, 1200, hrefCase})
}
func TestC16(t *testing.T) {
	Run(t, "C16", W{"query", 6000, 150000, queryCase}, W{"broken", 300, 5000, brokenCase})
}
