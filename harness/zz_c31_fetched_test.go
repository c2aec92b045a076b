package zzverif

import (
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/yields/ant"
	"golang.org/x/net/html"
)

// C31: what a fetched page holds is what the server finally answered.

// turnAgent names another user agent every time, and remembers them.
type turnAgent struct {
	mu    sync.Mutex
	n     int
	given map[string]bool
}

func (a *turnAgent) String() string {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.n++
	s := fmt.Sprintf("agent/%d (é)", a.n)
	if a.given == nil {
		a.given = map[string]bool{}
	}
	a.given[s] = true
	return s
}

type ctxKey struct{}

// wantRequest judges one request of a fetcher.
func (c *C) wantRequest(req *http.Request, u string, host string, val any, agent func(string) bool) {
	if req.Method != "GET" {
		c.Violate("request", "the method is %q", req.Method)
	}
	if got := req.URL.String(); got != u {
		c.Violate("request", "Fetch(%s) requests %s", u, got)
	}
	if req.Host != host {
		c.Violate("request", "Fetch(%s) names the host %q", u, req.Host)
	}
	if req.Body != nil && req.Body != http.NoBody {
		c.Violate("request", "Fetch(%s) sends a body", u)
	}
	if req.Context().Value(ctxKey{}) != val {
		c.Violate("request", "the request of Fetch(%s) does not have the caller's context: %v, want %v", u, req.Context().Value(ctxKey{}), val)
	}
	for k, v := range req.Header {
		switch {
		case k == "Accept" && len(v) == 1 && strings.HasPrefix(v[0], "text/html"):
		case k == "User-Agent" && len(v) == 1 && agent(v[0]):
		default:
			c.Violate("request", "Fetch(%s) sends %s: %q", u, k, v)
		}
	}
	if len(req.Header["User-Agent"]) == 0 && !agent("") {
		c.Violate("request", "Fetch(%s) sends no user agent", u)
	}
	if len(req.Header["Accept"]) == 0 {
		c.Violate("request", "Fetch(%s) does not say what it accepts", u)
	}
	c.Count("requests judged", 1)
}

// genBody draws a body: HTML, or any bytes.
func genBody(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		b := make([]byte, r.Intn(pick(r, 1, 10, 5000, 200000)))
		r.Read(b)
		return b
	case 1:
		return []byte(pick(r, "", "x", "<", "\x00", "<html>", "<p>a<p>b", "\xef\xbb\xbf<b>bom</b>", "</html>trailing", "<plaintext><b>", "<!doctype html>"))
	case 2:
		return bytes.Repeat([]byte(genDoc(r)), 1+r.Intn(40))
	}
	return []byte(genDoc(r))
}

// chunks reads in pieces of any size, with the end together with the last or apart.
type chunks struct {
	b      []byte
	r      *rand.Rand
	fail   int // index at which it breaks, -1
	err    error
	read   int
	closed bool
	mu     sync.Mutex
}

func (k *chunks) Read(p []byte) (int, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.closed {
		return 0, errors.New("read after close")
	}
	end := len(k.b)
	if k.fail >= 0 {
		end = k.fail
	}
	n := min(len(p), end-k.read, 1+k.r.Intn(pick(k.r, 1, 30, 1<<20)))
	copy(p, k.b[k.read:k.read+n])
	k.read += n
	if k.read == end && (n == 0 || chance(k.r, .5)) {
		if k.fail >= 0 {
			return n, k.err
		}
		return n, io.EOF
	}
	return n, nil
}

func (k *chunks) Close() error {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.closed = true
	return nil
}

func render(b []byte) string {
	n, err := html.Parse(bytes.NewReader(b))
	if err != nil {
		return "unparsable: " + err.Error()
	}
	return renderNode(n)
}

func renderNode(n *html.Node) string {
	var b strings.Builder
	if err := html.Render(&b, n); err != nil {
		return "cannot be rendered: " + err.Error()
	}
	return b.String()
}

// wantBody judges the contents of a page; broken is the error of its body.
func (c *C) wantBody(r *rand.Rand, pg *ant.Page, body []byte, broken error, what string) {
	how := pick(r, "read", "html", "document", "query", "all")
	c.Count("pages judged by "+how, 1)
	want := ""
	if how != "read" && broken == nil {
		want = render(body)
	}
	one := func(how string) {
		switch how {
		case "read":
			got, err := io.ReadAll(pg.Body())
			if !bytes.Equal(got, body) {
				c.Violate("body", "%s: Body gives %s, the server sent %s", what, abbr(got), abbr(body))
			}
			if broken == nil && err != nil || broken != nil && err == nil {
				c.Violate("broken", "%s: reading Body gives %v, the body ended with %v", what, err, broken)
			}
		case "html":
			got, err := pg.HTML()
			c.judgeParsed(what+": HTML", got, err, want, broken)
		case "document":
			n, err := pg.Document()
			got := ""
			if err == nil {
				got = renderNode(n)
			}
			c.judgeParsed(what+": Document", got, err, want, broken)
		case "query":
			l := pg.Query("html")
			got := ""
			if len(l) > 0 && l[0].Parent != nil {
				got = renderNode(l[0].Parent)
			}
			if broken == nil && strings.HasPrefix(want, "cannot") == false && got != want {
				c.Violate("document", "%s: the parent of Query(html) is %s, the body is %s", what, abbr([]byte(got)), abbr([]byte(want)))
			}
			if broken != nil && len(l) > 0 {
				c.Violate("broken", "%s: Query gives nodes of a page that broke off", what)
			}
		}
	}
	if how != "all" {
		one(how)
		if how != "read" {
			one(how)
		}
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		h := pick(r, "html", "document", "query")
		wg.Add(1)
		go func() { defer wg.Done(); one(h) }()
	}
	wg.Wait()
}

func (c *C) judgeParsed(what, got string, err error, want string, broken error) {
	if broken != nil {
		if err == nil {
			c.Violate("broken", "%s gives no error and %s for a body that broke off: %v", what, abbr([]byte(got)), broken)
		} else if !errors.Is(err, broken) {
			c.Violate("broken", "%s gives %v, which does not wrap %v", what, err, broken)
		}
		return
	}
	if strings.HasPrefix(want, "cannot be rendered") {
		return
	}
	if err != nil {
		c.Violate("document", "%s gives %v", what, err)
	} else if got != want {
		c.Violate("document", "%s gives %s, the body is %s", what, abbr([]byte(got)), abbr([]byte(want)))
	}
}

// fetchedCase: a scripted client; several goroutines share one fetcher.
func fetchedCase(c *C) {
	c.Bubble(func() {
		r := c.Rng
		turn := &turnAgent{}
		f := &ant.Fetcher{}
		agent := func(s string) bool { return true }
		switch r.Intn(3) {
		case 0: // the documentation and the code disagree about the default
			agent = func(s string) bool { return s == "" || s == "antbot" }
		case 1:
			ua := pick(r, "me/1.0", "me/1.0", "me/1.0", "", "Mozilla/5.0 ("+strings.Repeat("X11; ", 300)+")")
			f.UserAgent = ant.StaticAgent(ua)
			agent = func(s string) bool { return s == ua }
		case 2:
			f.UserAgent = turn
			agent = func(s string) bool {
				turn.mu.Lock()
				defer turn.mu.Unlock()
				ok := turn.given[s]
				delete(turn.given, s)
				return ok
			}
		}
		type job struct {
			u      *url.URL
			str    string
			host   string
			fails  int
			status int
			final  *url.URL
			hdr    http.Header
			body   []byte
			k      *chunks
			broken error
			n      int
		}
		var mu sync.Mutex
		jobs := map[any]*job{}
		f.Client = doFunc(func(req *http.Request) (*http.Response, error) {
			mu.Lock()
			j := jobs[req.Context().Value(ctxKey{})]
			mu.Unlock()
			if j == nil {
				c.Violate("request", "a request without the context of its Fetch: %s", req.URL)
				return nil, errors.New("lost")
			}
			c.wantRequest(req, j.str, j.host, req.Context().Value(ctxKey{}), agent)
			// A client may change what it is given.
			req.Header.Set("X-Client", "was here")
			req.Header.Set("User-Agent", "client")
			j.n++
			if j.n <= j.fails {
				if j.n%2 == 0 {
					return nil, &temporary{"t"}
				}
				return &http.Response{StatusCode: 503, Body: io.NopCloser(strings.NewReader("busy")), Request: req, Header: http.Header{"X-Busy": {"1"}}}, nil
			}
			final := *req
			final.URL = j.final
			return &http.Response{StatusCode: j.status, Header: j.hdr, Body: j.k, Request: &final, ContentLength: -1}, nil
		})
		var wg sync.WaitGroup
		for i, n := 0, pick(r, 1, 1, 2, 5); i < n; i++ {
			u := genCurl(r)
			raw := u.spell(r)
			if chance(r, .02) && !strings.ContainsAny(raw, "?#") {
				raw += "?" + strings.Repeat("key=some+value&", pick(r, 20, 100, 700))
			}
			if chance(r, .1) {
				raw += "#frag"
			}
			p, err := url.Parse(raw)
			if err != nil || p.Host == "" {
				continue
			}
			std, err := http.NewRequest("GET", p.String(), nil)
			if err != nil {
				continue
			}
			body := genBody(r)
			if chance(r, .002) {
				// More than anything that means to be generous would allow.
				body = append(append(body, bytes.Repeat([]byte("0123456789abcde "), 1<<16*(5+r.Intn(20)))...), "<h1>end</h1>"...)
				c.Count("huge bodies", 1)
			}
			j := &job{u: p, str: std.URL.String(), host: std.Host, status: pick(r, 200, 200, 200, 200, 206, 304, 203, 299, 399, 400, 401, 403, 410, 418, 500, 505, 599, 999, 404), fails: pick(r, 0, 0, 1, 3), body: body, final: p}
			if chance(r, .4) {
				j.final = mkURL(genCurl(r).spell(r))
			}
			j.hdr = http.Header{"X-Page": {fmt.Sprint(i)}, "Content-Type": {"text/html"}, "Set-Cookie": {"a=1", "b=2"}}
			j.k = &chunks{b: j.body, r: rand.New(rand.NewSource(r.Int63())), fail: -1}
			if chance(r, .2) && len(j.body) > 0 {
				j.k.fail, j.k.err = r.Intn(len(j.body)), pick(r, io.ErrUnexpectedEOF, net.ErrClosed, context.DeadlineExceeded, errors.New("reset"))
				j.broken, j.body = j.k.err, j.body[:j.k.fail]
			}
			mu.Lock()
			jobs[i] = j
			mu.Unlock()
			jr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				before := *j.u
				hdr := j.hdr.Clone()
				pg, err := f.Fetch(context.WithValue(context.Background(), ctxKey{}, i), j.u)
				if *j.u != before {
					c.Violate("changed", "Fetch changed the URL it was given from %s to %s", &before, j.u)
				}
				if j.n != j.fails+1 {
					c.Violate("requests", "Fetch(%s) made %d requests, want %d", j.str, j.n, j.fails+1)
					return
				}
				switch {
				case j.status == 404:
					if pg != nil || err != nil {
						c.Violate("outcome", "404 gives %v, %v", pg, err)
					}
				case j.status >= 400:
					var fe *ant.FetchError
					if pg != nil || !errors.As(err, &fe) {
						c.Violate("outcome", "%d gives %v, %v", j.status, pg, err)
					} else if fe.Status != j.status || fe.URL == nil || fe.URL.String() != j.final.String() {
						c.Violate("fetch-error", "status %d of %s is reported as %d of %s", j.status, j.final, fe.Status, fe.URL)
					} else if s := err.Error(); !strings.Contains(s, fmt.Sprint(j.status)) || !strings.Contains(s, fmt.Sprintf("%q", j.final)) {
						c.Violate("fetch-error", "%d of %s: the message is %s", j.status, j.final, s)
					}
					c.Count("fetch errors judged", 1)
				default:
					if err != nil || pg == nil {
						c.Violate("outcome", "%d gives %v, %v", j.status, pg, err)
						return
					}
					if pg.URL == nil || pg.URL.String() != j.final.String() {
						c.Violate("page-url", "the page has URL %s, it was served from %s", pg.URL, j.final)
					}
					if d := headerDiff(pg.Header, hdr, nil); d != "" {
						c.Violate("page-header", "the page's header: %s", d)
					}
					c.wantBody(jr, pg, j.body, j.broken, fmt.Sprintf("%s (%d, served from %s)", j.str, j.status, j.final))
				}
			}()
		}
		wg.Wait()
		for _, j := range jobs {
			c.Sig(j.str, j.status, j.fails, len(j.body), j.broken, len(jobs))
		}
	})
}

// wirePagesCase: real servers and connections.
func wirePagesCase(c *C) {
	r := c.Rng
	type route struct {
		status  int
		body    []byte
		framing int // 0 length, 1 chunked, 2 gzip, 3 closes early, 4 until close
		hops    int
		busy    int
	}
	routes := map[string]*route{}
	n := 2 + r.Intn(12)
	for i := 0; i < n; i++ {
		rt := &route{status: pick(r, 200, 200, 200, 200, 404, 403, 500, 204, 400, 499), body: genBody(r), framing: r.Intn(5), hops: pick(r, 0, 0, 1, 4), busy: pick(r, 0, 0, 0, 1, 2)}
		if rt.status == 204 {
			rt.body, rt.framing = nil, 0
		}
		if rt.framing == 3 && (len(rt.body) < 2 || rt.status != 200) {
			rt.framing = 0
		}
		if rt.framing == 3 {
			rt.busy = 0
		}
		routes[fmt.Sprint("/p", i)] = rt
	}
	var mu sync.Mutex
	seen := map[string]int{}
	open, maxOpen := map[net.Conn]bool{}, 0
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		p, hop := req.URL.Path, 0
		fmt.Sscan(req.URL.Query().Get("hop"), &hop)
		rt := routes[p]
		if ua := req.Header["User-Agent"]; len(ua) != 1 || ua[0] != "wire/1" {
			c.Violate("request", "hop %d of %s was requested by %q", hop, p, ua)
		}
		if hop < rt.hops {
			http.Redirect(w, req, fmt.Sprintf("%s?hop=%d", p, hop+1), pick(rand.New(rand.NewSource(int64(hop))), 301, 302, 303, 307, 308))
			return
		}
		mu.Lock()
		seen[p]++
		busy := seen[p] <= rt.busy
		mu.Unlock()
		if busy {
			w.WriteHeader(pick(rand.New(rand.NewSource(int64(len(p)))), 503, 429, 504))
			w.Write(bytes.Repeat([]byte("busy"), 2000))
			return
		}
		w.Header().Set("X-Path", p)
		w.Header().Set("Content-Type", "text/html")
		switch rt.framing {
		case 1:
			w.WriteHeader(rt.status)
			for b := rt.body; len(b) > 0; {
				k := min(len(b), 1+len(b)/3)
				w.Write(b[:k])
				w.(http.Flusher).Flush()
				b = b[k:]
			}
		case 2:
			w.Header().Set("Content-Encoding", "gzip")
			w.WriteHeader(rt.status)
			z := gzip.NewWriter(w)
			z.Write(rt.body)
			z.Close()
		case 3: // promises more than it sends
			w.Header().Set("Content-Length", fmt.Sprint(len(rt.body)))
			w.WriteHeader(rt.status)
			w.Write(rt.body[:len(rt.body)/2])
			w.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		case 4:
			w.Header().Set("Connection", "close")
			w.WriteHeader(rt.status)
			w.Write(rt.body)
		default:
			w.Header().Set("Content-Length", fmt.Sprint(len(rt.body)))
			w.WriteHeader(rt.status)
			w.Write(rt.body)
		}
	}))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Config.ConnState = func(nc net.Conn, s http.ConnState) {
		mu.Lock()
		defer mu.Unlock()
		switch s {
		case http.StateNew:
			open[nc] = true
		case http.StateClosed, http.StateHijacked:
			delete(open, nc)
		}
		maxOpen = max(maxOpen, len(open))
	}
	srv.Start()
	defer srv.Close()
	tr := &http.Transport{MaxIdleConnsPerHost: 1000}
	defer tr.CloseIdleConnections()
	f := &ant.Fetcher{Client: &http.Client{Transport: tr}, UserAgent: ant.StaticAgent("wire/1"), MinBackoff: time.Microsecond, MaxBackoff: time.Millisecond}
	G := pick(r, 1, 3, 6)
	var wg sync.WaitGroup
	work := make(chan string, n)
	for p := range routes {
		work <- p
	}
	close(work)
	for g := 0; g < G; g++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for p := range work {
				rt := routes[p]
				u := mkURL(srv.URL + p)
				final := u.String()
				if rt.hops > 0 {
					final += fmt.Sprintf("?hop=%d", rt.hops)
				}
				pg, err := f.Fetch(context.Background(), u)
				var fe *ant.FetchError
				switch {
				case rt.status == 404:
					if pg != nil || err != nil {
						c.Violate("outcome", "404 gives %v, %v", pg, err)
					}
				case rt.status >= 400:
					if pg != nil || !errors.As(err, &fe) || fe.Status != rt.status || fe.URL == nil || fe.URL.String() != final {
						c.Violate("fetch-error", "%d of %s gives %v, %v", rt.status, final, pg, err)
					}
				case err != nil || pg == nil:
					c.Violate("outcome", "%s (%+v) gives %v, %v", p, rt.framing, pg, err)
				default:
					if pg.URL.String() != final {
						c.Violate("page-url", "the page has URL %s, it was served from %s", pg.URL, final)
					}
					if h := pg.Header.Get("X-Path"); h != p {
						c.Violate("page-header", "the page of %s has the header of %s", p, h)
					}
					body, broken := rt.body, error(nil)
					if rt.framing == 3 {
						body, broken = body[:len(body)/2], io.ErrUnexpectedEOF
					}
					c.wantBody(gr, pg, body, broken, fmt.Sprintf("%s, framing %d", p, rt.framing))
					c.Count("pages over the wire", 1)
				}
			}
		}()
	}
	wg.Wait()
	mu.Lock()
	c.Max("max connections", maxOpen)
	mu.Unlock()
	c.Sig(n, G, c.N)
}

func TestC31(t *testing.T) {
	Run(t, "C31", W{"fetched", 4000, 120000, fetchedCase}, W{"wire", 250, 6000, wirePagesCase})
}
