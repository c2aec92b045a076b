package zzverif

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/yields/ant/antcdp"
)

// ---- A browser that speaks the DevTools protocol ---------------------------------------

// cdpPage is what the browser does for one URL.
type cdpPage struct {
	tag       string
	url       string // requested, without fragment
	final     string
	redirects []string
	status    int
	headers   map[string]string
	protocol  string
	html      string
	cookies   []cdpCookie // set by scripts before the document is ready
	script    []cdpStep
	navErr    string
	noFrame   bool // the document's events name no frame
	block     chan struct{}
	blocked   chan struct{} // closed when the script waits for block
	blockOnce sync.Once
	wantHdr   http.Header
	wantCk    []*http.Cookie
}

type cdpCookie struct {
	Name     string `json:"name"`
	Value    string `json:"value"`
	Domain   string `json:"domain"`
	Path     string `json:"path"`
	HTTPOnly bool   `json:"httpOnly"`
	URL      string `json:"url,omitempty"`
}

// cdpStep is an event, the reply to the navigation, or a pause.
type cdpStep struct {
	kind   string // event, reply, doc, ready, sleep, block
	method string
	params any
	us     int
}

type cdpTarget struct {
	id      string
	dialled bool
	closed  bool
	sess    *cdpSession // open, or the last
	url     string      // of the committed document, with fragment
	html    string
	loader  string
	stale   []cdpStep // events of the navigation that was given up
}

type cdpSession struct {
	b       *cdpBrowser
	t       *cdpTarget
	ws      *websocket.Conn
	wmu     sync.Mutex
	gone    chan struct{}
	tag     string
	enabled map[string]bool
	headers map[string]string
	cookies []cdpCookie
	nodes   map[int]bool
	fault   string
	nav     int
}

type cdpBrowser struct {
	c    *C
	srv  *http.Server
	addr string
	stop chan struct{}
	big  bool // some pages are large

	mu       sync.Mutex
	rng      *rand.Rand
	targets  map[string]*cdpTarget
	pages    map[string]*cdpPage
	jar      []cdpCookie
	seq      int
	inject   func(step, tag string) string // the fault at a step: "", error, drop, close, garbage, hang
	hung     func(step, tag string)
	events   int
	navs     int
	sessions int
	open     int
	cmds     map[string]int
	wg       sync.WaitGroup
	closed   bool
	conns    []*websocket.Conn
}

func newBrowser(c *C) *cdpBrowser {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	b := &cdpBrowser{c: c, addr: "http://" + ln.Addr().String(), stop: make(chan struct{}), targets: map[string]*cdpTarget{}, pages: map[string]*cdpPage{}, cmds: map[string]int{}, rng: rand.New(rand.NewSource(c.Rng.Int63()))}
	b.srv = &http.Server{Handler: b}
	go b.srv.Serve(ln)
	return b
}

func (b *cdpBrowser) close() {
	close(b.stop)
	b.srv.Close()
	b.mu.Lock()
	b.closed = true
	for _, ws := range b.conns {
		ws.Close()
	}
	b.mu.Unlock()
	b.wg.Wait()
}

func (b *cdpBrowser) fault(step, tag string) string {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.inject == nil {
		return ""
	}
	return b.inject(step, tag)
}

func (b *cdpBrowser) hang(step, tag string, done <-chan struct{}) {
	if b.hung != nil {
		b.hung(step, tag)
	}
	select {
	case <-b.stop:
	case <-done:
	}
}

func (b *cdpBrowser) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b.mu.Lock()
	if b.closed {
		b.mu.Unlock()
		return
	}
	b.wg.Add(1)
	b.mu.Unlock()
	defer b.wg.Done()
	switch p := r.URL.Path; {
	case p == "/json/version":
		fmt.Fprintf(w, `{"Browser":"HeadlessChrome/120.0","Protocol-Version":"1.3","webSocketDebuggerUrl":"%s/devtools/browser/x"}`, strings.Replace(b.addr, "http", "ws", 1))
	case p == "/json/new":
		switch b.fault("new", "") {
		case "error":
			http.Error(w, "no more targets", 503)
			return
		case "drop", "close":
			cn, _, _ := w.(http.Hijacker).Hijack()
			cn.Close()
			return
		case "garbage":
			io.WriteString(w, "{not json")
			return
		case "hang":
			b.hang("new", "", r.Context().Done())
			return
		}
		b.mu.Lock()
		b.seq++
		t := &cdpTarget{id: fmt.Sprintf("T%d", b.seq), url: "about:blank", html: "<html><head></head><body></body></html>"}
		b.targets[t.id] = t
		b.mu.Unlock()
		json.NewEncoder(w).Encode(b.info(t))
	case p == "/json/list" || p == "/json":
		b.mu.Lock()
		var l []any
		for _, t := range b.targets {
			if !t.closed {
				l = append(l, b.info(t))
			}
		}
		b.mu.Unlock()
		json.NewEncoder(w).Encode(l)
	case strings.HasPrefix(p, "/json/close/"):
		b.mu.Lock()
		t := b.targets[strings.TrimPrefix(p, "/json/close/")]
		ok := t != nil && !t.closed
		if ok {
			t.closed = true
		}
		b.mu.Unlock()
		if !ok {
			http.Error(w, "No such target id", 404)
			return
		}
		io.WriteString(w, "Target is closing")
	case strings.HasPrefix(p, "/devtools/page/"):
		b.mu.Lock()
		t := b.targets[strings.TrimPrefix(p, "/devtools/page/")]
		ok := t != nil && !t.closed
		b.mu.Unlock()
		if !ok {
			http.Error(w, "No such target id", 404)
			return
		}
		b.session(w, r, t)
	default:
		http.NotFound(w, r)
	}
}

func (b *cdpBrowser) info(t *cdpTarget) map[string]string {
	return map[string]string{"description": "", "devtoolsFrontendUrl": "", "id": t.id, "title": "", "type": "page", "url": t.url,
		"webSocketDebuggerUrl": strings.Replace(b.addr, "http", "ws", 1) + "/devtools/page/" + t.id}
}

func (b *cdpBrowser) session(w http.ResponseWriter, r *http.Request, t *cdpTarget) {
	f := b.fault("dial", "")
	b.mu.Lock()
	t.dialled = true
	prev := t.sess
	b.mu.Unlock()
	switch f {
	case "error", "garbage":
		http.Error(w, "no", 500)
		return
	case "drop", "close":
		cn, _, _ := w.(http.Hijacker).Hijack()
		cn.Close()
		return
	case "hang":
		b.hang("dial", "", nil)
		return
	}
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	ws, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	b.mu.Lock()
	b.conns = append(b.conns, ws)
	if b.closed {
		ws.Close()
	}
	b.mu.Unlock()
	if prev != nil {
		// The client's end of the session before was closed before this one
		// was opened; here that is noticed a moment later at most.
		select {
		case <-prev.gone:
		case <-time.After(3 * time.Second):
			b.c.Violate("shared", "target %s is opened while another request, %s, has it open", t.id, prev.tag)
		case <-b.stop:
		}
	}
	s := &cdpSession{b: b, t: t, ws: ws, gone: make(chan struct{}), enabled: map[string]bool{}, headers: map[string]string{}, nodes: map[int]bool{}, fault: f}
	b.mu.Lock()
	t.sess = s
	b.sessions++
	b.open++
	b.mu.Unlock()
	defer func() {
		ws.Close()
		b.mu.Lock()
		b.open--
		b.mu.Unlock()
		close(s.gone)
	}()
	// Commands are taken from a goroutine so that the end of the connection is
	// noticed whatever the command loop does.
	cmds := make(chan cdpCmd, 100)
	ended := make(chan struct{})
	go func() {
		defer close(ended)
		defer close(cmds)
		for {
			_, m, err := ws.ReadMessage()
			if err != nil {
				return
			}
			var cmd cdpCmd
			if err := json.Unmarshal(m, &cmd); err != nil {
				b.c.Violate("protocol", "the client sent %q", m)
				return
			}
			cmds <- cmd
		}
	}()
	var scripts sync.WaitGroup
	for cmd := range cmds {
		if !s.command(cmd, ended, &scripts) {
			break
		}
	}
	ws.Close()
	for range cmds {
	}
	<-ended
	scripts.Wait()
}

type cdpCmd struct {
	ID     uint64          `json:"id"`
	Method string          `json:"method"`
	Params json.RawMessage `json:"params"`
}

func (s *cdpSession) write(v any) {
	s.wmu.Lock()
	defer s.wmu.Unlock()
	s.ws.WriteJSON(v)
}

func (s *cdpSession) reply(id uint64, v any) {
	if v == nil {
		v = struct{}{}
	}
	s.write(map[string]any{"id": id, "result": v})
}

func (s *cdpSession) fail(id uint64, msg string) {
	s.write(map[string]any{"id": id, "error": map[string]any{"code": -32000, "message": msg}})
}

func (s *cdpSession) event(method string, params any) {
	dom, _, _ := strings.Cut(method, ".")
	s.b.mu.Lock()
	on := s.enabled[dom]
	if on {
		s.b.events++
	}
	s.b.mu.Unlock()
	if on {
		s.write(map[string]any{"method": method, "params": params})
	}
}

// bad applies the fault f; false ends the session.
func (s *cdpSession) bad(f, step string, id uint64, ended <-chan struct{}) bool {
	switch f {
	case "error":
		s.fail(id, "injected error")
		return true
	case "drop":
		s.ws.UnderlyingConn().Close()
	case "close":
		s.wmu.Lock()
		s.ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1001, "target closed"), time.Now().Add(time.Second))
		s.wmu.Unlock()
		s.ws.Close()
	case "garbage":
		s.wmu.Lock()
		s.ws.WriteMessage(websocket.TextMessage, []byte(`{"id": nonsense}`))
		s.wmu.Unlock()
		select { // the client is to give up
		case <-ended:
		case <-s.b.stop:
		}
	case "hang":
		s.b.hang(step, s.tag, ended)
	}
	return false
}

func (s *cdpSession) command(cmd cdpCmd, ended <-chan struct{}, scripts *sync.WaitGroup) bool {
	b, t := s.b, s.t
	b.mu.Lock()
	b.cmds[cmd.Method]++
	b.mu.Unlock()
	if f := b.fault(cmd.Method, s.tag); f != "" {
		return s.bad(f, cmd.Method, cmd.ID, ended)
	}
	dom, name, _ := strings.Cut(cmd.Method, ".")
	switch {
	case name == "enable":
		b.mu.Lock()
		s.enabled[dom] = true
		stale := t.stale
		both := s.enabled["Network"] && s.enabled["Page"]
		n := 0
		if both {
			n = b.rng.Intn(len(stale) + 1)
			t.stale = stale[n:]
		}
		b.mu.Unlock()
		s.reply(cmd.ID, nil)
		if both {
			for _, st := range stale[:n] {
				s.event(st.method, st.params)
			}
		}
	case cmd.Method == "Network.setExtraHTTPHeaders":
		var p struct{ Headers map[string]string }
		json.Unmarshal(cmd.Params, &p)
		s.headers = p.Headers
		for k, v := range p.Headers {
			if strings.EqualFold(k, "X-Tag") {
				s.tag = v
			}
		}
		s.reply(cmd.ID, nil)
	case cmd.Method == "Storage.setCookies" || cmd.Method == "Network.setCookies":
		var p struct{ Cookies []cdpCookie }
		json.Unmarshal(cmd.Params, &p)
		b.mu.Lock()
		for _, k := range p.Cookies {
			s.cookies = append(s.cookies, k)
			u, _ := url.Parse(k.URL)
			if k.Domain == "" && u != nil {
				k.Domain = u.Hostname()
			}
			if k.Path == "" {
				k.Path = "/"
			}
			k.URL = ""
			b.setCookie(k)
		}
		b.mu.Unlock()
		s.reply(cmd.ID, nil)
	case cmd.Method == "Page.navigate":
		var p struct{ URL string }
		json.Unmarshal(cmd.Params, &p)
		bare, frag, _ := strings.Cut(p.URL, "#")
		b.mu.Lock()
		pg := b.pages[bare]
		b.navs++
		cur, _, _ := strings.Cut(t.url, "#")
		b.mu.Unlock()
		if pg == nil {
			b.c.Violate("url", "the client navigates to %q, which was not requested", p.URL)
			s.fail(cmd.ID, "Cannot navigate to invalid URL")
			return true
		}
		if s.tag == "" {
			s.tag = pg.tag
		}
		s.passed(pg)
		frame := "F" + t.id
		if pg.navErr != "" {
			b.mu.Lock()
			b.seq++
			l := fmt.Sprintf("L%d", b.seq)
			b.mu.Unlock()
			s.reply(cmd.ID, map[string]any{"frameId": frame, "loaderId": l, "errorText": pg.navErr})
			return true
		}
		if frag != "" && cur == bare {
			// The document stays.
			b.mu.Lock()
			t.url = p.URL
			b.mu.Unlock()
			s.event("Page.navigatedWithinDocument", map[string]any{"frameId": frame, "url": p.URL})
			s.reply(cmd.ID, map[string]any{"frameId": frame})
			return true
		}
		s.load(pg, p.URL, cmd.ID, true, scripts, ended)
	case cmd.Method == "Page.reload":
		b.mu.Lock()
		bare, _, _ := strings.Cut(t.url, "#")
		u := t.url
		pg := b.pages[bare]
		b.mu.Unlock()
		if pg == nil {
			s.reply(cmd.ID, nil)
			return true
		}
		s.load(pg, u, cmd.ID, false, scripts, ended)
	case cmd.Method == "DOM.getDocument":
		b.mu.Lock()
		b.seq++
		n := b.seq
		s.nodes[n] = true
		u := t.url
		b.mu.Unlock()
		s.reply(cmd.ID, map[string]any{"root": map[string]any{"nodeId": n, "backendNodeId": n + 1, "nodeType": 9, "nodeName": "#document", "localName": "", "nodeValue": "", "documentURL": u}})
	case cmd.Method == "DOM.getOuterHTML":
		var p struct{ NodeID int }
		json.Unmarshal(cmd.Params, &p)
		b.mu.Lock()
		ok := s.nodes[p.NodeID]
		html := t.html
		b.mu.Unlock()
		if !ok {
			s.fail(cmd.ID, "Could not find node with given id")
			return true
		}
		s.reply(cmd.ID, map[string]any{"outerHTML": html})
	case cmd.Method == "Storage.getCookies" || cmd.Method == "Network.getAllCookies" || cmd.Method == "Network.getCookies":
		b.mu.Lock()
		var l []map[string]any
		for _, k := range b.jar {
			l = append(l, map[string]any{"name": k.Name, "value": k.Value, "domain": k.Domain, "path": k.Path, "httpOnly": k.HTTPOnly,
				"expires": -1, "size": 1, "secure": false, "session": true, "priority": "Medium", "sameParty": false, "sourceScheme": "NonSecure", "sourcePort": 80})
		}
		b.mu.Unlock()
		if l == nil {
			l = []map[string]any{}
		}
		s.reply(cmd.ID, map[string]any{"cookies": l})
	default:
		s.reply(cmd.ID, nil)
	}
	return true
}

func (b *cdpBrowser) setCookie(k cdpCookie) {
	for i, x := range b.jar {
		if x.Name == k.Name && x.Domain == k.Domain && x.Path == k.Path {
			b.jar[i] = k
			return
		}
	}
	b.jar = append(b.jar, k)
}

// passed checks that the request reached the browser before it navigates.
func (s *cdpSession) passed(pg *cdpPage) {
	for k, v := range pg.wantHdr {
		if k == "Cookie" {
			continue
		}
		ok := false
		for hk, hv := range s.headers {
			if http.CanonicalHeaderKey(hk) == k && hv == strings.Join(v, ", ") {
				ok = true
			}
		}
		if !ok {
			s.b.c.Violate("headers-not-passed", "navigating to %s: the browser has the headers %v, the request has %s: %q", pg.url, s.headers, k, v)
			return
		}
	}
	for hk, hv := range s.headers {
		if http.CanonicalHeaderKey(hk) != "Cookie" {
			continue
		}
		x := http.Request{Header: http.Header{"Cookie": {hv}}}
		if got, want := fmt.Sprint(x.Cookies()), fmt.Sprint(pg.wantCk); got != want {
			s.b.c.Violate("cookies-not-passed", "navigating to %s: the browser sends the cookies %s, the request has %s", pg.url, got, want)
			return
		}
	}
	for _, k := range pg.wantCk {
		ok := false
		for _, x := range s.cookies {
			u, _, _ := strings.Cut(x.URL, "#")
			if x.Name == k.Name && x.Value == k.Value && (u == pg.url || x.Domain != "") {
				ok = true
			}
		}
		if !ok {
			s.b.c.Violate("cookies-not-passed", "navigating to %s: the browser was given the cookies %v, the request has %v", pg.url, s.cookies, k)
			return
		}
	}
}

// load runs the page's script.
func (s *cdpSession) load(pg *cdpPage, u string, id uint64, nav bool, scripts *sync.WaitGroup, ended <-chan struct{}) {
	b, t := s.b, s.t
	b.mu.Lock()
	b.seq++
	loader := fmt.Sprintf("L%d", b.seq)
	stale := t.stale
	t.stale = nil
	s.nav++
	b.mu.Unlock()
	frame := "F" + t.id
	reply := func() {
		if nav {
			s.reply(id, map[string]any{"frameId": frame, "loaderId": loader})
		} else {
			s.reply(id, nil)
		}
	}
	fill := func(v any) any { // the script's events name the frame and loader
		m, _ := json.Marshal(v)
		m = bytes.ReplaceAll(m, []byte("$FRAME"), []byte(frame))
		m = bytes.ReplaceAll(m, []byte("$LOADER"), []byte(loader))
		return json.RawMessage(m)
	}
	scripts.Add(1)
	go func() {
		defer scripts.Done()
		left := func(i int) { // what is still to come when the client goes away
			var l []cdpStep
			for _, st := range pg.script[i:] {
				if st.kind == "event" || st.kind == "doc" || st.kind == "ready" {
					l = append(l, cdpStep{kind: "event", method: st.method, params: fill(st.params)})
				}
			}
			b.mu.Lock()
			t.stale = l
			b.mu.Unlock()
		}
		for i, st := range pg.script {
			select {
			case <-ended:
				left(i)
				return
			default:
			}
			switch st.kind {
			case "sleep":
				time.Sleep(time.Duration(st.us) * time.Microsecond)
			case "block":
				pg.blockOnce.Do(func() { close(pg.blocked) })
				select {
				case <-pg.block:
				case <-b.stop:
					return
				case <-ended:
					left(i)
					return
				}
			case "reply":
				reply()
			case "event":
				s.event(st.method, fill(st.params))
			case "doc":
				// The old document's end.
				for _, x := range stale {
					s.event(x.method, x.params)
				}
				b.mu.Lock()
				_, frag, has := strings.Cut(u, "#")
				t.url = pg.final
				if has {
					t.url += "#" + frag
				}
				t.html = "<html><head></head><body>loading " + pg.tag
				t.loader = loader
				b.mu.Unlock()
				s.event(st.method, fill(st.params))
			case "ready":
				b.mu.Lock()
				t.html = pg.html
				for _, k := range pg.cookies {
					b.setCookie(k)
				}
				b.mu.Unlock()
				s.event(st.method, fill(st.params))
			case "fault":
				if f := b.fault(st.method, s.tag); f != "" {
					if f == "hang" {
						left(i)
					}
					if f != "error" {
						s.bad(f, st.method, 0, ended)
						return
					}
				}
			}
		}
	}()
}

// ---- Pages -----------------------------------------------------------------------------

// genPage makes a page with its traffic, ordered as a browser may order it.
func (b *cdpBrowser) genPage(r *rand.Rand, tag string) *cdpPage {
	pg := &cdpPage{tag: tag, block: make(chan struct{}), blocked: make(chan struct{})}
	pg.url = fmt.Sprintf("http://site%d.test/%s", r.Intn(3), tag)
	if chance(r, .3) {
		pg.url += "?q=" + tag
	}
	pg.final = pg.url
	for i := 0; i < pick(r, 0, 0, 0, 1, 2, 4); i++ {
		pg.redirects = append(pg.redirects, pg.final)
		pg.final = fmt.Sprintf("http://site%d.test/moved/%s/%d", r.Intn(3), tag, i)
	}
	pg.status = pick(r, 200, 200, 200, 404, 500, 410, 299, 403)
	pg.protocol = pick(r, "http/1.1", "h2", "h3", "http/1.0", "http/2.0", "")
	pg.headers = map[string]string{"X-Page": tag}
	for _, k := range []string{"content-type", "Cache-Control", "etag", "Link", "X-Multi", "content-length", "Content-Language"} {
		if !chance(r, .4) {
			continue
		}
		switch k {
		case "X-Multi", "Link":
			pg.headers[k] = pick(r, "a\nb", "<a>; rel=x\n<b>; rel=y\n<c>", "one")
		case "content-length":
			pg.headers[k] = "12345"
		case "content-type":
			pg.headers[k] = "text/html; charset=utf-8"
		default:
			pg.headers[k] = "v-" + tag
		}
	}
	n := pick(r, 0, 10, 100, 5000)
	if chance(r, .01) && b.big {
		n = pick(r, 300<<10, 300<<10, 5<<20)
	}
	pg.html = "<html><head><title>" + tag + "</title></head><body>" + pick(r, "héllo \u2028 <b>\"x\"</b> \U0001F600", "plain", "") + strings.Repeat("<p>x</p>", n/8) + "</body></html>"
	if chance(r, .1) {
		pg.html = pick(r, "\n", " ", "<!DOCTYPE html>\n", "<!-- x -->") + pg.html + pick(r, "", "\n", "\r\n \t", "<!-- y -->\n")
	}
	if chance(r, .03) {
		pg.html = ""
	}
	cookies := pick(r, 0, 0, 1, 3)
	if chance(r, .01) {
		cookies = pick(r, 60, 300)
	}
	for i := 0; i < cookies; i++ {
		pg.cookies = append(pg.cookies, cdpCookie{Name: fmt.Sprintf("js%d", i), Value: cookieValue(r, tag), Domain: pick(r, "site0.test", ".site1.test", "127.0.0.1"), Path: pick(r, "/", "/a"), HTTPOnly: chance(r, .5)})
	}
	pg.noFrame = chance(r, .1)

	// The script: chains of steps, merged at random.
	seq := 0
	req := func(rid, loader, frame, typ, u string, redirect any) cdpStep {
		p := map[string]any{"requestId": rid, "loaderId": loader, "documentURL": pg.url, "request": map[string]any{"url": u, "method": "GET", "headers": map[string]string{}, "initialPriority": "High", "referrerPolicy": "no-referrer"},
			"timestamp": 1.5, "wallTime": 1.5, "initiator": map[string]any{"type": "other"}, "redirectHasExtraInfo": false, "type": typ, "frameId": frame}
		if redirect != nil {
			p["redirectResponse"] = redirect
		}
		if pg.noFrame && rid == "$LOADER" {
			delete(p, "frameId")
		}
		return cdpStep{kind: "event", method: "Network.requestWillBeSent", params: p}
	}
	rsp := func(u string, status int, h map[string]string, proto string) map[string]any {
		p := map[string]any{"url": u, "status": status, "statusText": http.StatusText(status), "headers": h, "mimeType": "text/html", "charset": "", "connectionReused": false, "connectionId": 1, "encodedDataLength": 1, "securityState": "insecure"}
		if proto != "" {
			p["protocol"] = proto
		}
		return p
	}
	res := func(rid, loader, frame, typ string, resp any) cdpStep {
		p := map[string]any{"requestId": rid, "loaderId": loader, "timestamp": 1.5, "type": typ, "response": resp, "hasExtraInfo": false, "frameId": frame}
		if pg.noFrame && rid == "$LOADER" {
			delete(p, "frameId")
		}
		return cdpStep{kind: "event", method: "Network.responseReceived", params: p}
	}
	main := []cdpStep{}
	prev := pg.url
	main = append(main, req("$LOADER", "$LOADER", "$FRAME", "Document", pg.url, nil))
	for _, to := range append(append([]string{}, pg.redirects...), pg.final)[1:] {
		main = append(main, req("$LOADER", "$LOADER", "$FRAME", "Document", to, rsp(prev, 302, map[string]string{"Location": to, "X-Hop": "1"}, pg.protocol)))
		prev = to
	}
	main = append(main, cdpStep{kind: "fault", method: "before-document"})
	doc := res("$LOADER", "$LOADER", "$FRAME", "Document", rsp(pg.final, pg.status, pg.headers, pg.protocol))
	doc.kind = "doc"
	main = append(main, doc, cdpStep{kind: "fault", method: "before-ready"}, cdpStep{kind: "event", method: "Page.frameNavigated", params: map[string]any{"frame": map[string]any{"id": "$FRAME", "loaderId": "$LOADER", "url": pg.final, "securityOrigin": "", "mimeType": "text/html"}}})
	main = append(main, cdpStep{kind: "ready", method: "Page.domContentEventFired", params: map[string]any{"timestamp": 2.5}})
	main = append(main, cdpStep{kind: "event", method: "Page.loadEventFired", params: map[string]any{"timestamp": 3.5}})

	type chain struct {
		after int // index in main that must have happened
		steps []cdpStep
	}
	var chains []chain
	docAt := 0
	for i, s := range main {
		if s.kind == "doc" {
			docAt = i
		}
	}
	for i := 0; i < pick(r, 0, 0, 1, 2, 5, 12); i++ {
		seq++
		rid := fmt.Sprintf("R%s.%d", tag, seq)
		typ := pick(r, "Script", "Stylesheet", "Image", "XHR", "Fetch", "Font", "Media", "Ping", "Other", "Preflight", "EventSource")
		u := fmt.Sprintf("http://cdn.test/%s/%d", tag, seq)
		after := pick(r, 0, docAt, docAt, docAt)
		ch := chain{after, []cdpStep{req(rid, "$LOADER", "$FRAME", typ, u, nil)}}
		switch r.Intn(4) {
		case 0: // never answered
		case 1:
			ch.steps = append(ch.steps, cdpStep{kind: "event", method: "Network.loadingFailed", params: map[string]any{"requestId": rid, "timestamp": 1.5, "type": typ, "errorText": "net::ERR_FAILED"}})
		default:
			ch.steps = append(ch.steps, res(rid, "$LOADER", "$FRAME", typ, rsp(u, pick(r, 200, 404, 503), map[string]string{"X-Page": "sub", "Etag": "sub"}, "h2")),
				cdpStep{kind: "event", method: "Network.loadingFinished", params: map[string]any{"requestId": rid, "timestamp": 1.5, "encodedDataLength": 10}})
		}
		chains = append(chains, ch)
	}
	for i := 0; i < pick(r, 0, 0, 0, 1, 3); i++ { // frames
		seq++
		l := fmt.Sprintf("FL%s.%d", tag, seq)
		f := "IF" + l
		u := fmt.Sprintf("http://ads.test/%s/%d", tag, seq)
		ch := chain{docAt, []cdpStep{
			{kind: "event", method: "Page.frameAttached", params: map[string]any{"frameId": f, "parentFrameId": "$FRAME"}},
			req(l, l, f, "Document", u, nil),
		}}
		if chance(r, .7) {
			ch.steps = append(ch.steps, res(l, l, f, "Document", rsp(u, pick(r, 200, 404, 500), map[string]string{"X-Page": "frame", "Etag": "frame"}, "h2")))
		}
		chains = append(chains, ch)
	}
	// The reply of the navigation may come anywhere.
	chains = append(chains, chain{-1, []cdpStep{{kind: "reply"}}})
	// Merge.
	mi := 0
	for mi < len(main) || len(chains) > 0 {
		var can []int
		for i, ch := range chains {
			if ch.after < mi {
				can = append(can, i)
			}
		}
		if mi < len(main) && (len(can) == 0 || r.Intn(len(can)+1) == 0 || chance(r, .2)) {
			pg.script = append(pg.script, main[mi])
			mi++
		} else if len(can) > 0 {
			i := can[r.Intn(len(can))]
			pg.script = append(pg.script, chains[i].steps[0])
			if chains[i].steps = chains[i].steps[1:]; len(chains[i].steps) == 0 {
				chains = append(chains[:i], chains[i+1:]...)
			}
		}
		if chance(r, .08) {
			pg.script = append(pg.script, cdpStep{kind: "sleep", us: pick(r, 50, 300, 1500)})
		}
	}
	b.mu.Lock()
	b.pages[pg.url] = pg
	if pg.final != pg.url && b.pages[pg.final] == nil {
		b.pages[pg.final] = pg // for a reload
	}
	b.mu.Unlock()
	return pg
}

// request makes the request for a page.
func (pg *cdpPage) request(ctx context.Context, r *rand.Rand) *http.Request {
	u := pg.url
	if chance(r, .15) {
		u += "#" + pick(r, "top", "s=1")
	}
	req, err := http.NewRequestWithContext(ctx, "GET", u, nil)
	if err != nil {
		panic(err)
	}
	req.Header.Set("X-Tag", pg.tag)
	if chance(r, .5) {
		req.Header.Set("User-Agent", "ant/"+pg.tag)
	}
	if chance(r, .3) {
		req.Header.Set("Accept-Language", pick(r, "en", "de, en;q=0.5", ""))
	}
	if chance(r, .2) {
		req.Header.Set("Referer", "http://site0.test/")
	}
	if chance(r, .2) {
		req.Header.Add("Accept", "text/html")
		req.Header.Add("Accept", "image/png;q=0.1")
	}
	for i := 0; i < pick(r, 0, 0, 1, 2); i++ {
		req.AddCookie(&http.Cookie{Name: fmt.Sprintf("c%d", i), Value: cookieValue(r, fmt.Sprintf("v%s.%d", pg.tag, i))})
	}
	if chance(r, .1) { // HTTP/2 may split the header
		req.Header.Add("Cookie", fmt.Sprintf("d0=%s; d1=x", cookieValue(r, pg.tag)))
	}
	pg.wantHdr = req.Header.Clone()
	pg.wantCk = req.Cookies()
	return req
}

// cookieValue draws a value that a Cookie header can hold.
func cookieValue(r *rand.Rand, tag string) string {
	return pick(r, tag, tag, tag, "", tag+" and, more", "a="+tag+"==", tag+"%20/?&")
}

// judge compares what Do returned with what the browser has shown.
func (pg *cdpPage) judge(c *C, req *http.Request, resp *http.Response, exact []cdpCookie) {
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		c.Violate("body", "%s: reading the body: %v", pg.url, err)
		return
	}
	resp.Body.Close()
	if string(body) != pg.html {
		c.Violate("body", "%s: the body is %s, the rendered document is %s", pg.url, abbr(body), abbr([]byte(pg.html)))
	}
	if resp.ContentLength != int64(len(body)) || resp.Header.Get("Content-Length") != fmt.Sprint(len(body)) || len(resp.Header.Values("Content-Length")) != 1 {
		c.Violate("length", "%s: the body has %d bytes, ContentLength is %d and the header %q", pg.url, len(body), resp.ContentLength, resp.Header["Content-Length"])
	}
	if resp.StatusCode != pg.status {
		c.Violate("status", "%s: the status is %d, the document's is %d", pg.url, resp.StatusCode, pg.status)
	}
	if p := pg.protocol; p != "" && resp.Proto != p {
		c.Violate("protocol", "%s: the protocol is %q, the document's is %q", pg.url, resp.Proto, p)
	}
	if _, v, ok := strings.Cut(pg.protocol, "/"); ok && fmt.Sprintf("%d.%d", resp.ProtoMajor, resp.ProtoMinor) != v {
		c.Violate("protocol", "%s: the protocol's version is %d.%d, the document's protocol is %s", pg.url, resp.ProtoMajor, resp.ProtoMinor, pg.protocol)
	}
	want := http.Header{}
	for k, v := range pg.headers {
		if ck := http.CanonicalHeaderKey(k); ck != "Content-Length" {
			want[ck] = strings.Split(v, "\n")
		}
	}
	got := resp.Header.Clone()
	got.Del("Content-Length")
	got.Del("Set-Cookie")
	for k := range want {
		if fmt.Sprintf("%q", got[k]) != fmt.Sprintf("%q", want[k]) {
			c.Violate("headers", "%s: the header %s is %q, the document's is %q", pg.url, k, got[k], want[k])
		}
	}
	for k := range got {
		if want[k] == nil {
			c.Violate("headers", "%s: the header %s: %q is not the document's", pg.url, k, got[k])
		}
	}
	key := func(n, v, d, p string, h bool) string {
		return fmt.Sprintf("%s=%s; %s; %s; %v", n, v, strings.TrimPrefix(d, "."), p, h)
	}
	var gotCk, wantCk []string
	for _, k := range resp.Cookies() {
		gotCk = append(gotCk, key(k.Name, k.Value, k.Domain, k.Path, k.HttpOnly))
	}
	if exact != nil {
		for _, k := range exact {
			wantCk = append(wantCk, key(k.Name, k.Value, k.Domain, k.Path, k.HTTPOnly))
		}
		sort.Strings(gotCk)
		sort.Strings(wantCk)
		if strings.Join(gotCk, "\n") != strings.Join(wantCk, "\n") {
			c.Violate("cookies", "%s: the cookies are %q, the browser's are %q", pg.url, gotCk, wantCk)
		}
	}
	if resp.Request == nil || resp.Request.URL == nil {
		c.Violate("request", "%s: the response has no request", pg.url)
	} else {
		g := *resp.Request.URL
		if f := req.URL.Fragment; g.Fragment != f && pg.final == pg.url {
			c.Violate("url", "%s: the fragment of the response's request is %q, it was %q", pg.url, g.Fragment, f)
		}
		g.Fragment = ""
		if g.String() != pg.final {
			c.Violate("url", "%s: the response's request is for %s, the document came from %s", pg.url, &g, pg.final)
		}
	}
}

// do runs Do with a time limit; stuck tells that it had to be given up.
func cdpDo(c *C, cl *antcdp.Client, req *http.Request, limit time.Duration) (resp *http.Response, err error, stuck bool) {
	type result struct {
		resp *http.Response
		err  error
	}
	ch := make(chan result, 1)
	go func() {
		c.guard(func() {
			resp, err := c.resp(cl.Do(req))
			ch <- result{resp, err}
		})
	}()
	select {
	case x := <-ch:
		return x.resp, x.err, false
	case <-time.After(limit):
		return nil, nil, true
	}
}

const cdpLimit = 20 * time.Second

var cdpSteps = []string{"new", "dial", "Page.enable", "Network.enable", "Network.setExtraHTTPHeaders", "Storage.setCookies", "Page.navigate", "before-document", "before-ready", "DOM.getDocument", "DOM.getOuterHTML", "Storage.getCookies"}

// pagesCase: one page after the other, some of them given up while they load.
func pagesCase(c *C) {
	r := c.Rng
	b := newBrowser(c)
	b.big = true
	defer b.close()
	cl := &antcdp.Client{Addr: b.addr}
	n := 1 + r.Intn(4)
	var sig []string
	for i := 0; i < n && !c.Bad(); i++ {
		pg := b.genPage(r, fmt.Sprintf("p%d", i))
		again := 1
		if chance(r, .15) {
			again = 2 // the same page again, perhaps with a fragment only
		}
		giveUp := chance(r, .3)
		if giveUp { // at a random point of its script
			at := r.Intn(len(pg.script) + 1)
			pg.script = append(pg.script[:at:at], append([]cdpStep{{kind: "block"}}, pg.script[at:]...)...)
			ready := false
			replied := false
			for _, s := range pg.script[:at] {
				ready = ready || s.kind == "ready"
				replied = replied || s.kind == "reply"
			}
			giveUp = !ready || !replied
			if !giveUp {
				close(pg.block)
			}
		}
		for ; again > 0 && !c.Bad(); again-- {
			ctx, cancel := context.WithCancel(context.Background())
			req := pg.request(ctx, r)
			if giveUp {
				done := make(chan struct{})
				go func() {
					select {
					case <-pg.blocked:
						cancel()
					case <-done:
					}
				}()
				resp, err, stuck := cdpDo(c, cl, req, cdpLimit)
				close(done)
				cancel()
				if stuck {
					c.Violate("cancel", "%s: Do does not return though its context was cancelled", pg.url)
				} else if err == nil {
					c.Violate("early", "%s: Do returned %d before the page was there", pg.url, resp.StatusCode)
				}
				c.Count("pages given up", 1)
				break
			}
			resp, err, stuck := cdpDo(c, cl, req, cdpLimit)
			if stuck {
				c.Violate("stuck", "%s: the page is there, Do does not return\n%s", pg.url, pg.scriptText())
				cancel()
				break
			}
			if err != nil {
				c.Violate("error", "%s: Do returned %v\n%s", pg.url, err, pg.scriptText())
				cancel()
				break
			}
			b.mu.Lock()
			jar := append([]cdpCookie{}, b.jar...)
			b.mu.Unlock()
			pg.judge(c, req, resp, jar)
			if c.Bad() {
				c.Logf("%s", pg.scriptText())
			}
			cancel()
			c.Count("pages returned", 1)
			c.Count("redirects", len(pg.redirects))
		}
		sig = append(sig, pg.scriptText())
	}
	b.mu.Lock()
	c.Count("events sent", b.events)
	b.mu.Unlock()
	c.Sig(strings.Join(sig, "|"))
	if c.N < 8 {
		c.Sample(sig)
	}
}

func (pg *cdpPage) scriptText() string {
	var l []string
	for _, s := range pg.script {
		switch s.kind {
		case "sleep":
		case "event", "doc", "ready":
			m, _ := json.Marshal(s.params)
			var p struct{ RequestID, Type string }
			json.Unmarshal(m, &p)
			l = append(l, strings.TrimSpace(fmt.Sprintf("%s %s %s", s.method, p.Type, p.RequestID)))
		default:
			l = append(l, s.kind+" "+s.method)
		}
	}
	return strings.Join(l, "; ")
}

// faultsCase: an error, a lost connection or nonsense at every step.
func faultsCase(c *C) {
	r := c.Rng
	b := newBrowser(c)
	defer b.close()
	cl := &antcdp.Client{Addr: b.addr}
	step := cdpSteps[c.N%len(cdpSteps)]
	kind := pick(r, "error", "drop", "close", "garbage")
	if step == "before-document" || step == "before-ready" {
		kind = pick(r, "drop", "close", "garbage")
	}
	navErr := chance(r, .1)
	at := r.Intn(3) // the first, or a later, request
	if step == "new" {
		at = 0
	}
	hits := 0
	var armed atomic.Bool
	b.inject = func(s, tag string) string {
		// A failed creation is tried again by the library.
		if armed.Load() && s == step && (hits == 0 || s == "new") && !navErr {
			hits++
			return kind
		}
		return ""
	}
	for i := 0; i < at+2 && !c.Bad(); i++ {
		pg := b.genPage(r, fmt.Sprintf("p%d", i))
		armed.Store(i == at)
		if i == at && navErr {
			pg.navErr = pick(r, "net::ERR_NAME_NOT_RESOLVED", "net::ERR_ABORTED", "net::ERR_CONNECTION_REFUSED")
		}
		req := pg.request(context.Background(), r)
		resp, err, stuck := cdpDo(c, cl, req, cdpLimit)
		what := fmt.Sprintf("request %d, %s at %s", i, kind, step)
		if navErr {
			what = fmt.Sprintf("request %d, navigation error %s", i, pg.navErr)
		}
		switch {
		case stuck:
			c.Violate("stuck", "%s: Do does not return", what)
		case i == at:
			b.mu.Lock()
			h := hits
			b.mu.Unlock()
			if h == 0 && !navErr {
				if err == nil {
					pg.judge(c, req, resp, nil)
				}
				break // the step was not taken
			}
			if err == nil {
				c.Violate("no-error", "%s: Do returned no error (status %d)", what, resp.StatusCode)
			} else if resp != nil {
				c.Violate("no-error", "%s: Do returned a response along with %v", what, err)
			}
			if navErr && err != nil && !strings.Contains(err.Error(), pg.navErr) {
				c.Violate("error-text", "%s: Do returned %v", what, err)
			}
			c.Count("requests failed by the browser", 1)
		case err != nil:
			c.Violate("error", "%s (only request %d was hampered): Do returned %v", what, at, err)
		default:
			pg.judge(c, req, resp, nil)
			c.Count("pages returned", 1)
		}
	}
	c.Sig(step, kind, at, navErr)
}

func TestC28(t *testing.T) {
	Run(t, "C28", W{"pages", 2400, 60000, pagesCase}, W{"faults", 480, 6000, faultsCase})
}

// ---- C29: targets ------------------------------------------------------------------------

// targetsCase: requests from many goroutines, some hampered, hanging or given up.
func targetsCase(c *C) {
	r := c.Rng
	b := newBrowser(c)
	defer b.close()
	cl := &antcdp.Client{Addr: b.addr}
	g := pick(r, 1, 1, 2, 3, 5, 8, 14, 25)
	n := 2 + r.Intn(5)
	rounds := 1
	if g > 8 {
		rounds = 2 + r.Intn(2)
	}
	pFault, pHang, pCancel := pick(r, 0, .02, .05), pick(r, 0, .02, .04), pick(r, 0, 0, .2)
	if g == 1 {
		pFault, pHang = 3*pFault, 3*pHang
	}
	// What hangs is to be cancelled; a request is known by its tag, or not yet.
	var hmu sync.Mutex
	cancels := map[string]func(){}
	var faults, hangs atomic.Int64
	b.inject = func(step, tag string) string { // called with b.mu
		x := b.rng.Float64()
		switch {
		case x < pFault:
			k := pick(b.rng, "error", "drop", "close", "garbage")
			if k == "error" && strings.HasPrefix(step, "before-") {
				return ""
			}
			faults.Add(1)
			return k
		case x < pFault+pHang:
			hangs.Add(1)
			return "hang"
		}
		return ""
	}
	b.hung = func(step, tag string) {
		hmu.Lock()
		defer hmu.Unlock()
		if f := cancels[tag]; f != nil {
			f()
			return
		}
		// Some request without a tag yet: cancel all that are under way.
		for _, f := range cancels {
			f()
		}
	}
	var inflight, peak, errs, served, cancelled atomic.Int64
	pages := make([][]*cdpPage, g)
	var wg sync.WaitGroup
	for round := 0; round < rounds && !c.Bad(); round++ {
		for i := range pages {
			pages[i] = nil
			for j := 0; j < n; j++ {
				pages[i] = append(pages[i], b.genPage(r, fmt.Sprintf("r%dg%dn%d", round, i, j)))
			}
		}
		for i := 0; i < g; i++ {
			rg := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, pg := range pages[i] {
					if c.Bad() {
						return
					}
					ctx, cancel := context.WithCancel(context.Background())
					var gaveUp atomic.Bool
					giveUp := func() { gaveUp.Store(true); cancel() }
					hmu.Lock()
					cancels[pg.tag] = giveUp
					hmu.Unlock()
					if chance(rg, pCancel) {
						if w := rg.Intn(4000); w < 200 {
							giveUp()
						} else {
							time.AfterFunc(time.Duration(w)*time.Microsecond, giveUp)
						}
					}
					req := pg.request(ctx, rg)
					for now := inflight.Add(1); ; {
						p := peak.Load()
						if now <= p || peak.CompareAndSwap(p, now) {
							break
						}
					}
					resp, err, stuck := cdpDo(c, cl, req, cdpLimit)
					inflight.Add(-1)
					hmu.Lock()
					delete(cancels, pg.tag)
					hmu.Unlock()
					gu := gaveUp.Load()
					switch {
					case stuck && gu:
						c.Violate("cancel", "%s: the context was cancelled, Do does not return", pg.url)
					case stuck:
						c.Violate("stuck", "%s: Do does not return", pg.url)
					case err == nil:
						pg.judge(c, req, resp, nil)
						served.Add(1)
					case resp != nil:
						c.Violate("both", "%s: Do returned a response along with %v", pg.url, err)
					case gu:
						cancelled.Add(1)
					default:
						if e := errs.Add(1); e > faults.Load() {
							c.Violate("error", "%s: Do returned %v, the browser had %d faults for %d errors so far", pg.url, err, faults.Load(), e)
						}
					}
					cancel()
				}
			}()
		}
		wg.Wait()
	}
	if c.Bad() {
		return
	}
	// The browser's end of the last connections is closed in no time.
	settle := func(f func() (bool, string)) (string, bool) {
		var s string
		for d := time.Millisecond; d < 8*time.Second; d *= 2 {
			var ok bool
			if ok, s = f(); ok {
				return "", true
			}
			time.Sleep(d)
		}
		return s, false
	}
	if s, ok := settle(func() (bool, string) {
		b.mu.Lock()
		defer b.mu.Unlock()
		return b.open == 0, fmt.Sprintf("%d connections of %d", b.open, b.sessions)
	}); !ok {
		c.Violate("connection-leak", "all requests are done, %s are still open", s)
	}
	if s, ok := settle(func() (bool, string) {
		b.mu.Lock()
		defer b.mu.Unlock()
		used := 0
		for _, t := range b.targets {
			if t.dialled && !t.closed {
				used++
			}
		}
		c.Max("max targets", used)
		return used <= int(peak.Load()), fmt.Sprintf("%d targets exist", used)
	}); !ok {
		c.Violate("target-leak", "%s, there were never more than %d requests at once (%d faults, %d hangs)", s, peak.Load(), faults.Load(), hangs.Load())
	}
	b.mu.Lock()
	c.Count("sessions", b.sessions)
	c.Count("events sent", b.events)
	b.mu.Unlock()
	c.Count("requests served", int(served.Load()))
	c.Count("requests failed", int(errs.Load()))
	c.Count("requests cancelled", int(cancelled.Load()))
	c.Count("hangs", int(hangs.Load()))
	c.Max("max requests at once", int(peak.Load()))
	c.Sig(g, n, rounds, faults.Load(), hangs.Load(), served.Load(), c.N)
}

// hangCase: the browser stops answering at every step, and the context ends.
func hangCase(c *C) {
	r := c.Rng
	b := newBrowser(c)
	defer b.close()
	cl := &antcdp.Client{Addr: b.addr}
	step := cdpSteps[c.N%len(cdpSteps)]
	at := r.Intn(3)
	if step == "new" {
		at = 0
	}
	var armed, did atomic.Bool
	stuckc := make(chan struct{}, 10)
	b.inject = func(s, tag string) string {
		if armed.Load() && s == step && !did.Swap(true) {
			return "hang"
		}
		return ""
	}
	b.hung = func(step, tag string) { stuckc <- struct{}{} }
	timeout := chance(r, .3)
	for i := 0; i < at+2 && !c.Bad(); i++ {
		pg := b.genPage(r, fmt.Sprintf("p%d", i))
		armed.Store(i == at)
		ctx, cancel := context.WithCancel(context.Background())
		if i == at {
			if timeout {
				cancel()
				ctx, cancel = context.WithTimeout(context.Background(), 60*time.Millisecond)
			} else {
				cn := cancel
				go func() {
					select {
					case <-stuckc:
						time.Sleep(time.Duration(r.Intn(2)) * time.Millisecond)
						cn()
					case <-b.stop:
					}
				}()
			}
		}
		req := pg.request(ctx, r)
		resp, err, stuck := cdpDo(c, cl, req, cdpLimit)
		cancel()
		what := fmt.Sprintf("request %d, the browser hangs at %s", i, step)
		switch {
		case stuck && i == at:
			c.Violate("cancel", "%s, the context has ended: Do does not return", what)
		case stuck:
			c.Violate("stuck", "%s for request %d only: Do does not return", what, at)
		case i == at && err == nil:
			if did.Load() {
				c.Violate("no-error", "%s: Do returned no error", what)
			}
			pg.judge(c, req, resp, nil)
		case i == at:
			c.Count("requests given up while the browser hangs", 1)
			if !did.Load() {
				c.Count("requests given up before", 1)
			}
		case err != nil:
			c.Violate("error", "%s for request %d only: Do returned %v", what, at, err)
		default:
			pg.judge(c, req, resp, nil)
			c.Count("requests served", 1)
		}
	}
	b.mu.Lock()
	used := 0
	for _, t := range b.targets {
		if t.dialled && !t.closed {
			used++
		}
	}
	b.mu.Unlock()
	if used > 1 && !c.Bad() {
		c.Violate("target-leak", "%d targets exist, there was never more than one request at once (the browser hung at %s)", used, step)
	}
	c.Sig(step, at, timeout)
}

func TestC29(t *testing.T) {
	Run(t, "C29", W{"targets", 480, 12000, targetsCase}, W{"hang", 360, 4000, hangCase})
}
