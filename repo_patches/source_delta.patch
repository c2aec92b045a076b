From 0e27ca89526680e2ba8925a5a0c80560c9c8f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 01/49] fix: normalize URLs without splitting or merging
 distinct ones

The path lost its leading and trailing slash, dot segments were resolved
after decoding (an encoded slash became a separator) and not at the root,
default ports of IPv6 hosts and empty ports were kept, and escapes in the
query were not normalized.
---
 internal/normalize/url.go | 90 +++++++++++++++++++++++++++++++--------
 1 file changed, 73 insertions(+), 17 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index aef861b..9319660 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -5,8 +5,8 @@ package normalize
 
 import (
 	"net/url"
-	"path"
 	"sort"
+	"strconv"
 	"strings"
 )
 
@@ -34,7 +34,7 @@ func RawURL(rawurl string) (string, error) {
 func URL(u *url.URL) *url.URL {
 	u.Scheme = strings.ToLower(u.Scheme)
 	u.Host = hostname(u)
-	u.Path = pathname(u)
+	u.Path, u.RawPath = pathname(u)
 	u.RawQuery = query(u.RawQuery)
 	u.ForceQuery = false
 	u.Fragment = ""
@@ -45,35 +45,91 @@ func URL(u *url.URL) *url.URL {
 func hostname(u *url.URL) string {
 	var host = strings.ToLower(u.Host)
 
-	if j := strings.IndexByte(host, ':'); j != -1 {
-		switch port := host[j+1:]; {
-		case u.Scheme == "http" && port == "80":
-			return host[:j]
-		case u.Scheme == "https" && port == "443":
-			return host[:j]
-		}
+	switch port := u.Port(); {
+	case port == "":
+		return strings.TrimSuffix(host, ":")
+	case u.Scheme == "http" && port == "80":
+		return strings.TrimSuffix(host, ":80")
+	case u.Scheme == "https" && port == "443":
+		return strings.TrimSuffix(host, ":443")
 	}
 
 	return host
 }
 
 // Pathname normalizes the pathname.
-func pathname(u *url.URL) string {
-	switch u.Path {
-	case "", "/":
-		return "/"
-	default:
-		parts := strings.Split(u.Path, "/")
-		return path.Join(parts...)
+//
+// It returns the path and its encoded form, the segments are
+// split before they are decoded so that an encoded slash is
+// not mistaken for a separator.
+func pathname(u *url.URL) (path, rawpath string) {
+	var segments = strings.Split(escapes(u.EscapedPath()), "/")
+	var kept = make([]string, 0, len(segments))
+	var dir bool
+
+	for _, s := range segments {
+		switch dir = true; s {
+		case "", ".":
+		case "..":
+			if n := len(kept); n > 0 {
+				kept = kept[:n-1]
+			}
+		default:
+			kept, dir = append(kept, s), false
+		}
+	}
+
+	if rawpath = "/" + strings.Join(kept, "/"); dir && len(kept) > 0 {
+		rawpath += "/"
 	}
+
+	path, err := url.PathUnescape(rawpath)
+	if err != nil {
+		return u.Path, u.RawPath
+	}
+
+	return path, rawpath
 }
 
 // Query sorts the given query.
 func query(query string) string {
 	if query != "" {
-		parts := strings.Split(query, "&")
+		parts := strings.Split(escapes(query), "&")
 		sort.Strings(parts)
 		return strings.Join(parts, "&")
 	}
 	return ""
 }
+
+// Escapes normalizes the percent-encoded triplets.
+//
+// Triplets of unreserved characters are decoded, all others
+// are uppercased, anything else is left as is.
+func escapes(s string) string {
+	var b strings.Builder
+
+	for j := 0; j < len(s); j++ {
+		if s[j] == '%' && j+2 < len(s) {
+			if v, err := strconv.ParseUint(s[j+1:j+3], 16, 8); err == nil {
+				if unreserved(byte(v)) {
+					b.WriteByte(byte(v))
+				} else {
+					b.WriteString(strings.ToUpper(s[j : j+3]))
+				}
+				j += 2
+				continue
+			}
+		}
+		b.WriteByte(s[j])
+	}
+
+	return b.String()
+}
+
+// Unreserved returns true if c is an RFC 3986 unreserved character.
+func unreserved(c byte) bool {
+	return 'a' <= c && c <= 'z' ||
+		'A' <= c && c <= 'Z' ||
+		'0' <= c && c <= '9' ||
+		strings.IndexByte("-._~", c) != -1
+}
-- 
2.43.0


From 307a08aa4b14ee6c1540099d781dca79126ec71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 02/49] fix: make DedupeBF safe to use from multiple goroutines

The bloom filter was read and written without synchronization, concurrent
calls raced and let the same URL through more than once.
---
 dedupe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedupe.go b/dedupe.go
index 738bcb4..abb1c00 100644
--- a/dedupe.go
+++ b/dedupe.go
@@ -57,6 +57,7 @@ func (d *deduper) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 
 // Dedupebf implements a bloom filter deduper.
 type dedupebf struct {
+	mtx    sync.Mutex
 	filter *bloom.BloomFilter
 }
 
@@ -77,6 +78,9 @@ func DedupeBF(k, m uint) Deduper {
 func (d *dedupebf) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 	var ret = make(URLs, 0, len(urls))
 
+	d.mtx.Lock()
+	defer d.mtx.Unlock()
+
 	for _, u := range urls {
 		v := []byte(u.String())
 		if !d.filter.Test(v) {
-- 
2.43.0


From 9c097d7f8b469f5e629c33385eeed4d61c3049aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 03/49] fix: retry temporary client errors

The error of the client is wrapped before it is tested, so the type
assertion never saw its Temporary method.
---
 fetcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index fc56b88..863f01c 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -2,6 +2,7 @@ package ant
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -287,6 +288,6 @@ func (f *Fetcher) maxBackoff() time.Duration {
 
 // IsTemporary returns true if the error is temporary.
 func isTemporary(err error) bool {
-	t, ok := err.(interface{ Temporary() bool })
-	return ok && t.Temporary()
+	var t interface{ Temporary() bool }
+	return errors.As(err, &t) && t.Temporary()
 }
-- 
2.43.0


From b2264882dcfb6b6456907fb4bada564e73e46404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 04/49] fix: keep the backoff within its bounds when it
 overflows

---
 fetcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fetcher.go b/fetcher.go
index 863f01c..3bc7d52 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -255,7 +255,8 @@ func (f *Fetcher) backoff(ctx context.Context, attempt int) error {
 		return fmt.Errorf("ant: min backoff must be greater than max backoff")
 	}
 
-	if dur > max {
+	// It is less than min if the product overflows.
+	if dur < min || dur > max {
 		dur = max
 	}
 
-- 
2.43.0


From fd12038c188a8c3040981090e18f42a4040e5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 05/49] fix: stop all workers and report the cause when a crawl
 ends early

A worker waiting for a slot did not acknowledge its URL when the context
ended, so Run never returned; each worker ran its URLs in a group of its
own, so one worker's failure did not stop the others; and a canceled
crawl could return nil, or the EOF of the queue closed meanwhile.
---
 engine.go | 67 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/engine.go b/engine.go
index eda6204..a4e991e 100644
--- a/engine.go
+++ b/engine.go
@@ -135,23 +135,29 @@ func NewEngine(c EngineConfig) (*Engine, error) {
 
 // Run runs the engine with the given start urls.
 func (eng *Engine) Run(ctx context.Context, urls ...string) error {
-	var eg, subctx = errgroup.WithContext(ctx)
-
 	// Enqueue initial URLs.
 	if err := eng.Enqueue(ctx, urls...); err != nil {
 		return fmt.Errorf("ant: enqueue - %w", err)
 	}
 
+	var eg, subctx = errgroup.WithContext(ctx)
+
+	// Discard queued URLs and unblock all workers as soon as
+	// the crawl fails or is canceled.
+	var stop = context.AfterFunc(subctx, func() {
+		eng.queue.Close(ctx)
+	})
+
 	// Spawn workers.
 	for i := 0; i < eng.workers; i++ {
 		eg.Go(func() error {
-			defer eng.queue.Close(ctx)
-			return eng.run(subctx)
+			return eng.run(subctx, eg)
 		})
 	}
 
 	// Wait until all URLs are handled.
 	eng.queue.Wait()
+	stop()
 	if err := eng.queue.Close(ctx); err != nil {
 		return err
 	}
@@ -214,34 +220,50 @@ func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
 //
 // The worker is in charge of fetching a url from
 // the queue, creating a page and then calling the scraper.
-func (eng *Engine) run(ctx context.Context) error {
-	eg, subctx := errgroup.WithContext(ctx)
+//
+// The URLs are processed in the group shared by all workers, so
+// that the first failure cancels the context of all of them.
+func (eng *Engine) run(ctx context.Context, eg *errgroup.Group) error {
 	for {
 		url, err := eng.queue.Dequeue(ctx)
 
-		if errors.Is(err, io.EOF) ||
-			errors.Is(err, context.Canceled) {
-			return eg.Wait()
+		if errors.Is(err, io.EOF) {
+			return ctx.Err()
 		}
 		if err != nil {
 			return err
 		}
 
-		if eng.sema != nil {
-			if err := eng.sema.Acquire(ctx, 1); err != nil {
-				return err
-			}
+		if err := eng.acquire(ctx); err != nil {
+			eng.queue.Done(ctx, url)
+			return err
 		}
 
 		eg.Go(func() error {
-			if eng.sema != nil {
-				defer eng.sema.Release(1)
-			}
-			return eng.process(subctx, url)
+			defer eng.release()
+			return eng.process(ctx, url)
 		})
 	}
 }
 
+// Acquire blocks until a URL can be processed.
+func (eng *Engine) acquire(ctx context.Context) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+	if eng.sema != nil {
+		return eng.sema.Acquire(ctx, 1)
+	}
+	return nil
+}
+
+// Release allows another URL to be processed.
+func (eng *Engine) release() {
+	if eng.sema != nil {
+		eng.sema.Release(1)
+	}
+}
+
 // Process processes a single url.
 func (eng *Engine) process(ctx context.Context, url *URL) error {
 	defer eng.queue.Done(ctx, url)
@@ -273,6 +295,9 @@ func (eng *Engine) process(ctx context.Context, url *URL) error {
 
 	// Enqueue URLs.
 	if err := eng.enqueue(ctx, urls); err != nil {
+		if ctx.Err() != nil {
+			err = ctx.Err()
+		}
 		return fmt.Errorf("ant: enqueue - %w", err)
 	}
 
@@ -281,6 +306,10 @@ func (eng *Engine) process(ctx context.Context, url *URL) error {
 
 // Scrape scrapes the given URL and returns the next URLs.
 func (eng *Engine) scrape(ctx context.Context, url *URL) (URLs, error) {
+	if err := ctx.Err(); err != nil {
+		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
+	}
+
 	page, err := eng.fetcher.Fetch(ctx, url)
 
 	if err != nil {
@@ -293,6 +322,10 @@ func (eng *Engine) scrape(ctx context.Context, url *URL) (URLs, error) {
 
 	defer page.close()
 
+	if err := ctx.Err(); err != nil {
+		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)
+	}
+
 	urls, err := eng.scraper.Scrape(ctx, page)
 	if err != nil {
 		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)
-- 
2.43.0


From 1d002db11bf3ad1b98bb510fce26f828ee68b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 06/49] fix: retry temporary scraper and de-duplicator errors

Scraper and Deduper document that an error with a Temporary method that
returns true is retried, but it aborted the crawl.
---
 engine.go | 68 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/engine.go b/engine.go
index a4e991e..246d40b 100644
--- a/engine.go
+++ b/engine.go
@@ -305,43 +305,71 @@ func (eng *Engine) process(ctx context.Context, url *URL) error {
 }
 
 // Scrape scrapes the given URL and returns the next URLs.
+//
+// If the scraper returns a temporary error, the page is
+// fetched and scraped again.
 func (eng *Engine) scrape(ctx context.Context, url *URL) (URLs, error) {
-	if err := ctx.Err(); err != nil {
-		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
-	}
+	for attempt := 1; ; attempt++ {
+		if err := ctx.Err(); err != nil {
+			return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
+		}
 
-	page, err := eng.fetcher.Fetch(ctx, url)
+		page, err := eng.fetcher.Fetch(ctx, url)
+		if err != nil {
+			return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
+		}
 
-	if err != nil {
-		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
-	}
+		if page == nil {
+			return nil, nil
+		}
+
+		urls, err := eng.scrapePage(ctx, page)
+		if err == nil {
+			return urls, nil
+		}
 
-	if page == nil {
-		return nil, nil
+		if err := eng.retry(ctx, attempt, err); err != nil {
+			return nil, fmt.Errorf("ant: scrape %q - %w", url, err)
+		}
 	}
+}
 
+// ScrapePage scrapes the given page and closes it.
+func (eng *Engine) scrapePage(ctx context.Context, page *Page) (URLs, error) {
 	defer page.close()
 
 	if err := ctx.Err(); err != nil {
-		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)
+		return nil, err
 	}
 
-	urls, err := eng.scraper.Scrape(ctx, page)
-	if err != nil {
-		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)
-	}
-
-	return urls, nil
+	return eng.scraper.Scrape(ctx, page)
 }
 
 // Dedupe de-duplicates the given slice of URLs.
+//
+// If the de-duplicator returns a temporary error it is called again.
 func (eng *Engine) dedupe(ctx context.Context, urls URLs) (URLs, error) {
-	deduped, err := eng.deduper.Dedupe(ctx, urls)
-	if err != nil {
-		return nil, fmt.Errorf("ant: dedupe - %w", err)
+	for attempt := 1; ; attempt++ {
+		deduped, err := eng.deduper.Dedupe(ctx, urls)
+		if err == nil {
+			return deduped, nil
+		}
+
+		if err := eng.retry(ctx, attempt, err); err != nil {
+			return nil, fmt.Errorf("ant: dedupe - %w", err)
+		}
 	}
+}
 
-	return deduped, nil
+// Retry returns nil when the operation that failed with
+// the given error should be tried again.
+//
+// It uses the fetcher's backoff and maximum attempts.
+func (eng *Engine) retry(ctx context.Context, attempt int, err error) error {
+	if !isTemporary(err) || attempt >= eng.fetcher.maxAttempts() {
+		return err
+	}
+	return eng.fetcher.backoff(ctx, attempt)
 }
 
 // Limit runs all configured limiters.
-- 
2.43.0


From a9529fa1f03d0d2af2408da4fd4ef98236dc5e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 07/49] fix: match robots.txt rules against the whole encoded
 URL

The query was left out and the path decoded, so rules with either were
not obeyed; robots.txt was requested with Go's user agent.
---
 internal/normalize/url.go |  6 +++---
 internal/robots/cache.go  | 43 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index 9319660..429f702 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -63,7 +63,7 @@ func hostname(u *url.URL) string {
 // split before they are decoded so that an encoded slash is
 // not mistaken for a separator.
 func pathname(u *url.URL) (path, rawpath string) {
-	var segments = strings.Split(escapes(u.EscapedPath()), "/")
+	var segments = strings.Split(Escapes(u.EscapedPath()), "/")
 	var kept = make([]string, 0, len(segments))
 	var dir bool
 
@@ -94,7 +94,7 @@ func pathname(u *url.URL) (path, rawpath string) {
 // Query sorts the given query.
 func query(query string) string {
 	if query != "" {
-		parts := strings.Split(escapes(query), "&")
+		parts := strings.Split(Escapes(query), "&")
 		sort.Strings(parts)
 		return strings.Join(parts, "&")
 	}
@@ -105,7 +105,7 @@ func query(query string) string {
 //
 // Triplets of unreserved characters are decoded, all others
 // are uppercased, anything else is left as is.
-func escapes(s string) string {
+func Escapes(s string) string {
 	var b strings.Builder
 
 	for j := 0; j < len(s); j++ {
diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index a379cd0..0b7bca6 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -5,14 +5,17 @@
 package robots
 
 import (
+	"bytes"
 	"context"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
 	"time"
 
 	"github.com/segmentio/agecache"
 	"github.com/temoto/robotstxt"
+	"github.com/yields/ant/internal/normalize"
 )
 
 // Request represents a request.
@@ -92,14 +95,14 @@ func NewCache(c *http.Client, capacity int) *Cache {
 // The method returns an error if the context is canceled
 // or if a parsing error occurs.
 func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
-	var path = req.URL.Path
+	var path = req.URL.RequestURI()
 	var ua = req.userAgent()
 
 	if len(path) > 0 && path[0] != '/' {
 		path = "/" + path
 	}
 
-	host, err := c.lookup(ctx, req.URL)
+	host, err := c.lookup(ctx, req)
 	if err != nil {
 		return false, err
 	}
@@ -114,7 +117,7 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 func (c *Cache) Wait(ctx context.Context, req Request) error {
 	var ua = req.userAgent()
 
-	host, err := c.lookup(ctx, req.URL)
+	host, err := c.lookup(ctx, req)
 	if err != nil {
 		return err
 	}
@@ -139,7 +142,9 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 //
 // Note that there's a logical race, the method may send multiple requests
 // for the same robots.txt URL, this is intentional to speed up lookups.
-func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
+func (c *Cache) lookup(ctx context.Context, r Request) (*Host, error) {
+	var url = r.URL
+
 	if v, ok := c.lru.Get(url.Host); ok {
 		return v.(*Host), nil
 	}
@@ -150,6 +155,10 @@ func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
 		return nil, fmt.Errorf("robots: new request - %w", err)
 	}
 
+	if r.UserAgent != "" {
+		req.Header.Set("User-Agent", r.UserAgent)
+	}
+
 	resp, err := c.client.Do(req)
 	if err != nil {
 		return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)
@@ -162,7 +171,12 @@ func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
 		return s, nil
 	}
 
-	data, err := robotstxt.FromResponse(resp)
+	body, err := io.ReadAll(resp.Body)
+	if err != nil {
+		return nil, fmt.Errorf("robots: read robots.txt - %w", err)
+	}
+
+	data, err := robotstxt.FromStatusAndBytes(resp.StatusCode, encode(body))
 	if err != nil {
 		return nil, fmt.Errorf("robots: parse robots.txt - %w", err)
 	}
@@ -171,3 +185,22 @@ func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
 	c.lru.Set(url.Host, s)
 	return s, nil
 }
+
+// Encode percent-encodes the body the way normalized URLs are.
+//
+// The rules in the body are matched against encoded URLs.
+func encode(body []byte) []byte {
+	var b bytes.Buffer
+
+	body = bytes.TrimPrefix(body, []byte("\xef\xbb\xbf"))
+
+	for _, c := range []byte(normalize.Escapes(string(body))) {
+		if c < 0x80 {
+			b.WriteByte(c)
+		} else {
+			fmt.Fprintf(&b, "%%%02X", c)
+		}
+	}
+
+	return b.Bytes()
+}
-- 
2.43.0


From 5103ad719083939de9d440ddb68aa04bca80aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 08/49] fix: space concurrent requests to a host by its crawl
 delay

Every request waited for the delay on its own, so URLs processed
concurrently were requested at the same time.
---
 internal/robots/cache.go | 42 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index 0b7bca6..f67e2a0 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/segmentio/agecache"
@@ -68,6 +69,8 @@ func (h *Host) test(path, ua string) bool {
 type Cache struct {
 	lru    *agecache.Cache
 	client *http.Client
+	mtx    sync.Mutex
+	slots  map[string]time.Time
 }
 
 // NewCache returns a new cache with the client and cache capacity.
@@ -78,7 +81,11 @@ func NewCache(c *http.Client, capacity int) *Cache {
 		ExpirationType:     agecache.PassiveExpration,
 		ExpirationInterval: 1 * time.Minute,
 	})
-	return &Cache{lru: lru, client: c}
+	return &Cache{
+		lru:    lru,
+		client: c,
+		slots:  make(map[string]time.Time),
+	}
 }
 
 // Allowed returns true if the request is allowed.
@@ -113,7 +120,8 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 // Wait blocks until the given request can be sent.
 //
 // Some robots.txt define a crawl delay for all or some of the useragents.
-// The method will block until the request can go through.
+// The method will block until the request can go through, requests to the
+// same host are let through one by one with the delay between them.
 func (c *Cache) Wait(ctx context.Context, req Request) error {
 	var ua = req.userAgent()
 
@@ -124,7 +132,7 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 
 	if g, ok := host.find(ua); ok {
 		if d := g.CrawlDelay; d > 0 {
-			t := time.NewTimer(d)
+			t := time.NewTimer(c.reserve(req.URL.Host, d))
 			defer t.Stop()
 			select {
 			case <-ctx.Done():
@@ -138,6 +146,34 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 	return nil
 }
 
+// Reserve reserves the next slot of the host and returns
+// the duration to wait for it.
+func (c *Cache) reserve(host string, delay time.Duration) time.Duration {
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
+	var now = time.Now()
+	var slot = now
+
+	if last, ok := c.slots[host]; ok && last.After(now) {
+		slot = last
+	}
+
+	// Forget slots that passed a while ago.
+	if len(c.slots) > 1000 {
+		for h, t := range c.slots {
+			if t.Before(now) {
+				delete(c.slots, h)
+			}
+		}
+	}
+
+	slot = slot.Add(delay)
+	c.slots[host] = slot
+
+	return slot.Sub(now)
+}
+
 // Lookup returns a host from url.
 //
 // Note that there's a logical race, the method may send multiple requests
-- 
2.43.0


From 245a310ccb4dca4aef1717e894ec5e87eba23f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 09/49] fix: start no limiter, de-duplicator or fetch for an
 ended crawl

---
 engine.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engine.go b/engine.go
index 246d40b..b03f871 100644
--- a/engine.go
+++ b/engine.go
@@ -200,6 +200,10 @@ func (eng *Engine) Enqueue(ctx context.Context, rawurls ...string) error {
 
 // Enqueue enqueues the given parsed urls.
 func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	for j := range batch {
 		batch[j] = normalize.URL(batch[j])
 	}
@@ -374,6 +378,10 @@ func (eng *Engine) retry(ctx context.Context, attempt int, err error) error {
 
 // Limit runs all configured limiters.
 func (eng *Engine) limit(ctx context.Context, url *URL) error {
+	if err := ctx.Err(); err != nil {
+		return fmt.Errorf("limit %q - %w", url, err)
+	}
+
 	if eng.limiter != nil {
 		if err := eng.limiter.Limit(ctx, url); err != nil {
 			return fmt.Errorf("limit %q - %w", url, err)
-- 
2.43.0


From 62bb93fbf1fbe01c6d8b7a1629f58c8d84ce3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 10/49] fix: normalize copies of the URLs returned by scrapers

A scraper that returns the same URLs more than once had them changed
under it, by several goroutines at once.
---
 engine.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine.go b/engine.go
index b03f871..ae3577c 100644
--- a/engine.go
+++ b/engine.go
@@ -204,11 +204,14 @@ func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
 		return err
 	}
 
-	for j := range batch {
-		batch[j] = normalize.URL(batch[j])
+	// The URLs belong to the scraper, it may return them again.
+	var urls = make(URLs, 0, len(batch))
+	for _, u := range batch {
+		v := *u
+		urls = append(urls, normalize.URL(&v))
 	}
 
-	next, err := eng.dedupe(ctx, eng.matches(batch))
+	next, err := eng.dedupe(ctx, eng.matches(urls))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From bca9c3a9429e739d6a1d7886a830ef452359588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 11/49] fix: scan nested structs from the node that their
 selector matches

---
 internal/scan/struct.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/scan/struct.go b/internal/scan/struct.go
index 093dbb9..8142676 100644
--- a/internal/scan/struct.go
+++ b/internal/scan/struct.go
@@ -17,7 +17,8 @@ type field struct {
 
 // StructScanner implements a struct scanner.
 type structScanner struct {
-	fields []field
+	selector cascadia.Selector
+	fields   []field
 }
 
 // Struct returns a scanfunc for a struct or an error.
@@ -75,11 +76,28 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		return nil, fmt.Errorf("scan: struct %v has no css tags", t)
 	}
 
-	return (structScanner{fields}).scan, nil
+	return (structScanner{
+		selector: opts.Selector,
+		fields:   fields,
+	}).scan, nil
 }
 
 // Scan implements a scan func.
+//
+// When the struct has a selector its fields are scanned from
+// the first node that matches, if there's none they're zeroed.
 func (ss structScanner) scan(dst reflect.Value, src *html.Node) error {
+	if ss.selector != nil {
+		src = ss.selector.MatchFirst(src)
+	}
+
+	if src == nil {
+		for _, f := range ss.fields {
+			dst.FieldByIndex(f.index).SetZero()
+		}
+		return nil
+	}
+
 	for _, f := range ss.fields {
 		v := dst.FieldByIndex(f.index)
 		if err := f.scan(v, src); err != nil {
-- 
2.43.0


From b618a19f6b8b895aa6281750e9f8b5915de78f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 12/49] fix: return an error when a slice without a selector is
 scanned

---
 internal/scan/slice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index ae02771..9e12e0c 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -1,6 +1,7 @@
 package scan
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/andybalholm/cascadia"
@@ -18,6 +19,10 @@ type sliceScanner struct {
 func Slice(opts Options, t reflect.Type) (ScanFunc, error) {
 	var eltype = t.Elem()
 
+	if opts.Selector == nil {
+		return nil, fmt.Errorf("scan: cannot scan into %s without a selector", t)
+	}
+
 	f, err := ScannerOf(eltype, Options{
 		Selector: nil,
 		Attr:     opts.Attr,
-- 
2.43.0


From a485e1172ac39c26fcf7a0e0450cfa073022df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 13/49] fix: skip links that have no host

---
 page.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/page.go b/page.go
index 3974753..39e62ed 100644
--- a/page.go
+++ b/page.go
@@ -128,6 +128,10 @@ func (p *Page) resolve(selector string) URLs {
 				u = p.URL.ResolveReference(u)
 			}
 
+			if u.Hostname() == "" {
+				continue
+			}
+
 			switch u.Scheme {
 			case "https", "http":
 				ret = append(ret, u)
-- 
2.43.0


From cd4a162424199d9e76e1eab419a2123ee47ebe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 14/49] fix: store only responses whose body was read to its
 end

---
 antcache/cachereader.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 69a47cd..8a39e34 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -19,6 +19,7 @@ type cachereader struct {
 	key   uint64
 	rc    io.ReadCloser
 	buf   bytes.Buffer
+	eof   bool
 	once  sync.Once
 	ctx   context.Context
 	store func(ctx context.Context, key uint64, v []byte) error
@@ -29,14 +30,29 @@ func (cr *cachereader) Read(p []byte) (n int, err error) {
 	if n, err = cr.rc.Read(p); n > 0 {
 		cr.buf.Write(p[:n])
 	}
+	if err == io.EOF {
+		cr.eof = true
+	}
 	return n, err
 }
 
+// Complete returns true if the whole body was read.
+//
+// A body which was abandoned, or failed before its end
+// must not be stored.
+func (cr *cachereader) complete() bool {
+	return cr.eof || int64(cr.buf.Len()) == cr.resp.ContentLength
+}
+
 // Close implementation.
 func (cr *cachereader) Close() error {
 	cerr := cr.rc.Close()
 
 	cr.once.Do(func() {
+		if !cr.complete() {
+			return
+		}
+
 		resp := *cr.resp
 
 		r := bytes.NewReader(cr.buf.Bytes())
-- 
2.43.0


From a18c1003f3d9c347ec9ab00773dccd6625df0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 15/49] fix: respect all Cache-Control header lines

---
 antcache/directives.go |  2 +-
 antcache/utils.go      | 10 +---------
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/antcache/directives.go b/antcache/directives.go
index 10192f5..5d2a8b1 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -12,7 +12,7 @@ type directives map[string]string
 
 // DirectivesFrom returns directives from h.
 func directivesFrom(h http.Header) directives {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 	var d directives
 
 	for _, item := range split(c, ",") {
diff --git a/antcache/utils.go b/antcache/utils.go
index 3f340d3..c700e10 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -52,15 +52,7 @@ func matches(req *http.Request, resp *http.Response) bool {
 
 // Nostore returns true if no-store is set.
 func nostore(h http.Header) bool {
-	var c = h.Get("Cache-Control")
-
-	for _, v := range split(c, ",") {
-		if v == "no-store" {
-			return true
-		}
-	}
-
-	return false
+	return directivesFrom(h).has("no-store")
 }
 
 // Expires returns the expires timestamp.
-- 
2.43.0


From 999c09f9030044a29cc0f82c7de9a7a620dbe80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 16/49] fix: cap durations that overflow in the freshness
 calculation

---
 antcache/directives.go | 13 ++++++++++++-
 antcache/rfc7234.go    |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/antcache/directives.go b/antcache/directives.go
index 5d2a8b1..b853bff 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -1,12 +1,16 @@
 package antcache
 
 import (
+	"errors"
 	"net/http"
 	"strconv"
 	"strings"
 	"time"
 )
 
+// MaxSeconds is the largest number of seconds of a directive.
+const maxSeconds = 1 << 31
+
 // Directives represents cache-control directives.
 type directives map[string]string
 
@@ -39,10 +43,17 @@ func (d directives) has(name string) bool {
 // Duration parses directive duration by name.
 //
 // Ok is true if the directive exists and has a positive duration.
+//
+// Durations that are too large to represent are capped.
+//
+// https://tools.ietf.org/html/rfc7234#section-1.2.1
 func (d directives) duration(name string) (td time.Duration, ok bool) {
 	if v, has := d[name]; has {
 		n, err := strconv.ParseInt(v, 10, 64)
-		td, ok = (time.Duration(n) * time.Second), err == nil
+		if ok = err == nil || errors.Is(err, strconv.ErrRange); ok {
+			n = max(min(n, maxSeconds), -maxSeconds)
+			td = time.Duration(n) * time.Second
+		}
 	}
 	return
 }
diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 6d0ffb8..ccfdbd9 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -109,13 +109,13 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 
 	// the stored response is either fresh (see Section 4.2).
 	if d, ok := date(resp.Header); ok {
-		var age = time.Since(d)
+		var age = min(time.Since(d), maxSeconds*time.Second)
 		var lifetime time.Duration
 
 		if maxage, ok := resd.duration("max-age"); ok {
 			lifetime = maxage
 		} else if exp, ok := expires(resp.Header); ok {
-			lifetime = exp.Sub(d)
+			lifetime = min(exp.Sub(d), maxSeconds*time.Second)
 		}
 
 		if maxage, ok := reqd.duration("max-age"); ok {
-- 
2.43.0


From 4fbf7cc25406c6ce40316bb89339f6f5195ab9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 17/49] fix: a request's max-age must not extend the lifetime
 of a response

---
 antcache/rfc7234.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index ccfdbd9..1ca479f 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -111,15 +111,19 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 	if d, ok := date(resp.Header); ok {
 		var age = min(time.Since(d), maxSeconds*time.Second)
 		var lifetime time.Duration
+		var explicit bool
 
 		if maxage, ok := resd.duration("max-age"); ok {
-			lifetime = maxage
+			lifetime, explicit = maxage, true
 		} else if exp, ok := expires(resp.Header); ok {
-			lifetime = min(exp.Sub(d), maxSeconds*time.Second)
+			lifetime, explicit = min(exp.Sub(d), maxSeconds*time.Second), true
 		}
 
+		// The request may only lower the lifetime of the response.
 		if maxage, ok := reqd.duration("max-age"); ok {
-			lifetime = maxage
+			if !explicit || maxage < lifetime {
+				lifetime = maxage
+			}
 		}
 
 		if minfresh, ok := reqd.duration("min-fresh"); ok {
-- 
2.43.0


From 76c97c08df370567d2748b20bada12d646a5dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 18/49] fix: aggressive caches must respect no-cache requests

---
 antcache/aggressive.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/antcache/aggressive.go b/antcache/aggressive.go
index 253e076..944347b 100644
--- a/antcache/aggressive.go
+++ b/antcache/aggressive.go
@@ -67,6 +67,11 @@ func (a aggressive) store(resp *http.Response) bool {
 
 // Fresh implementation.
 func (a aggressive) fresh(resp *http.Response) freshness {
+	// The cache is bypassed when the request asks for it.
+	if directivesFrom(resp.Request.Header).has("no-cache") {
+		return transparent
+	}
+
 	if date, ok := date(resp.Header); ok {
 		if time.Since(date) < a.lifetime() {
 			return fresh
-- 
2.43.0


From 130ba27648e2d50f2859c9d0f2396b5a54b4ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 19/49] fix: respect Pragma: no-cache when there is no
 Cache-Control header

---
 antcache/directives.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/antcache/directives.go b/antcache/directives.go
index b853bff..fb9c0f7 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -31,6 +31,11 @@ func directivesFrom(h http.Header) directives {
 		}
 	}
 
+	// https://tools.ietf.org/html/rfc7234#section-5.4
+	if d == nil && strings.EqualFold(h.Get("Pragma"), "no-cache") {
+		d = directives{"no-cache": ""}
+	}
+
 	return d
 }
 
-- 
2.43.0


From 8d4ae891456b0d567231c65dd749e6590a5d9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 20/49] fix: compare the request headers that Vary nominates
 with those of the stored request

---
 antcache/cachereader.go |  2 ++
 antcache/httpcache.go   | 22 +++++++++++++++++-----
 antcache/utils.go       | 31 ++++++++++++++++++++++++-------
 3 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 8a39e34..7f0bee2 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -16,6 +16,7 @@ import (
 // a response when it is closed.
 type cachereader struct {
 	resp  *http.Response
+	hdr   http.Header
 	key   uint64
 	rc    io.ReadCloser
 	buf   bytes.Buffer
@@ -54,6 +55,7 @@ func (cr *cachereader) Close() error {
 		}
 
 		resp := *cr.resp
+		resp.Header = cr.hdr
 
 		r := bytes.NewReader(cr.buf.Bytes())
 		resp.Body = io.NopCloser(r)
diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index dc68224..bb53451 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"strings"
 )
 
 // Freshness enumerates freshness.
@@ -151,6 +152,11 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 		return nil, err
 	}
 	if resp != nil {
+		for name := range resp.Header {
+			if strings.HasPrefix(name, variedPrefix) {
+				delete(resp.Header, name)
+			}
+		}
 		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
@@ -161,7 +167,7 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if c.strategy.store(resp) {
-		c.store(key, resp)
+		c.store(key, req, resp)
 	}
 
 	return resp, nil
@@ -250,7 +256,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode == 304 {
 		c.discard(resp)
 		merge(resp.Header, newresp.Header)
-		c.store(key, resp)
+		c.store(key, resp.Request, resp)
 		return resp, nil
 	}
 
@@ -260,7 +266,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// satisfy the request and MAY replace the stored response(s).
 	if c.strategy.store(newresp) {
 		c.discard(resp)
-		c.store(key, newresp)
+		c.store(key, resp.Request, newresp)
 		return newresp, nil
 	}
 
@@ -270,17 +276,23 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	return nil, nil
 }
 
-// Store stores the given response.
+// Store stores the given response to req.
 //
 // The method overwrites the response's body with a readcloser
 // that will write the response to the storage when it is closed.
 //
 // If the response body is not closed, the response is never stored in the cache.
-func (c *Cache) store(key uint64, resp *http.Response) {
+func (c *Cache) store(key uint64, req *http.Request, resp *http.Response) {
 	rc := resp.Body
+	hdr := resp.Header.Clone()
+
+	for _, name := range vary(hdr) {
+		hdr.Set(variedPrefix+name, varied(req.Header, name))
+	}
 
 	resp.Body = &cachereader{
 		resp:  resp,
+		hdr:   hdr,
 		key:   key,
 		rc:    rc,
 		ctx:   resp.Request.Context(),
diff --git a/antcache/utils.go b/antcache/utils.go
index c700e10..7ebaa65 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -2,6 +2,7 @@ package antcache
 
 import (
 	"net/http"
+	"net/url"
 	"strings"
 	"time"
 
@@ -33,17 +34,33 @@ func keyof(req *http.Request) uint64 {
 	))
 }
 
+// VariedPrefix is the prefix of stored request headers.
+//
+// The headers of the request that are nominated by the Vary
+// header of its response are stored along with the response
+// so that they can be compared with later requests.
+const variedPrefix = "X-Antcache-Varied-"
+
+// Vary returns the names of all headers nominated by Vary.
+func vary(h http.Header) (ret []string) {
+	for _, v := range split(strings.Join(h.Values("Vary"), ","), ",") {
+		ret = append(ret, http.CanonicalHeaderKey(v))
+	}
+	return
+}
+
+// Varied returns the stored header value of key in h.
+func varied(h http.Header, key string) string {
+	return url.QueryEscape(strings.Join(h.Values(key), ", "))
+}
+
 // Matches ensures that the given request and response match.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.1
 func matches(req *http.Request, resp *http.Response) bool {
-	var vary = req.Header.Get("Vary")
-
-	for _, h := range split(vary, ",") {
-		if key := http.CanonicalHeaderKey(h); key != "" {
-			if req.Header.Get(key) != resp.Header.Get(key) {
-				return false
-			}
+	for _, key := range append(vary(resp.Header), vary(req.Header)...) {
+		if key == "*" || varied(req.Header, key) != resp.Header.Get(variedPrefix+key) {
+			return false
 		}
 	}
 
-- 
2.43.0


From eace333321f70ace83953dc2d9c964f5166074c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 21/49] fix: close responses that are dropped when the client
 fails or stale-if-error applies

---
 antcache/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index bb53451..03ba409 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -163,7 +163,7 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 
 	resp, err = c.client.Do(req)
 	if err != nil {
-		return nil, err
+		return resp, err
 	}
 
 	if c.strategy.store(resp) {
@@ -235,6 +235,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 
 	newresp, err := c.client.Do(req)
 	if err != nil {
+		c.discard(newresp)
 		return nil, fmt.Errorf("antcache: validate %d - %w", key, err)
 	}
 
@@ -246,6 +247,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
 		reqd := directivesFrom(req.Header)
 		if reqd.has("stale-if-error") {
+			c.discard(newresp)
 			return resp, nil
 		}
 		return newresp, nil
-- 
2.43.0


From 3049f6288895d0e72c22753b1e7e27a5500f515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 22/49] fix: keep the stored body when a response is validated

---
 antcache/httpcache.go | 6 ++++--
 antcache/utils.go     | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 03ba409..f05a8b2 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -256,9 +256,11 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// A 304 (Not Modified) response status code indicates that the
 	// stored response can be updated and reused; see Section 4.3.4.
 	if newresp.StatusCode == 304 {
-		c.discard(resp)
+		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
-		c.store(key, resp.Request, resp)
+		if c.strategy.store(resp) {
+			c.store(key, resp.Request, resp)
+		}
 		return resp, nil
 	}
 
diff --git a/antcache/utils.go b/antcache/utils.go
index 7ebaa65..2dc3c3f 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -13,6 +13,7 @@ import (
 func merge(a http.Header, b http.Header) {
 	for key := range b {
 		switch key {
+		case "Content-Length":
 		case "Keep-Alive":
 		case "Proxy-Authenticate":
 		case "Proxy-Authorization":
-- 
2.43.0


From c05878067e8a1443dd3d1e770ddc2408e97c163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 23/49] fix: hand on a 304 that answers the client's own
 validators

---
 antcache/httpcache.go | 7 +++++++
 antcache/utils.go     | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index f05a8b2..9c6628d 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -256,6 +256,13 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// A 304 (Not Modified) response status code indicates that the
 	// stored response can be updated and reused; see Section 4.3.4.
 	if newresp.StatusCode == 304 {
+		// The validators may be the client's own, the
+		// answer is then not about the stored response.
+		if !validates(req.Header, hdr) {
+			c.discard(resp)
+			return newresp, nil
+		}
+
 		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
 		if c.strategy.store(resp) {
diff --git a/antcache/utils.go b/antcache/utils.go
index 2dc3c3f..ffac8ae 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -28,6 +28,15 @@ func merge(a http.Header, b http.Header) {
 	}
 }
 
+// Validates returns true if the validators in the request
+// headers are those of the response headers.
+func validates(reqh, resph http.Header) bool {
+	if v := reqh.Get("If-None-Match"); v != "" {
+		return v == resph.Get("ETag")
+	}
+	return reqh.Get("If-Modified-Since") == resph.Get("Last-Modified")
+}
+
 // Keyof returns a cache key of req.
 func keyof(req *http.Request) uint64 {
 	return murmur3.Sum64([]byte(
-- 
2.43.0


From bff3b3ad7d9c1f1c06e044b2bb67d7afe3acd798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 24/49] fix: hand on the full answer to a validation instead of
 requesting it again

---
 antcache/httpcache.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 9c6628d..9641810 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -275,16 +275,11 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// none of the stored responses nominated in the conditional request
 	// is suitable.  Instead, the cache MUST use the full response to
 	// satisfy the request and MAY replace the stored response(s).
+	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.discard(resp)
 		c.store(key, resp.Request, newresp)
-		return newresp, nil
 	}
-
-	// Verification failed, cleanup and close the response readers.
-	c.discard(newresp)
-	c.discard(resp)
-	return nil, nil
+	return newresp, nil
 }
 
 // Store stores the given response to req.
-- 
2.43.0


From 75754ab4fdb513cae43c935532e0dc180e7995c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 25/49] fix: keep the URL a cached response was served from

---
 antcache/httpcache.go | 21 +++++++++++++++------
 antcache/utils.go     | 21 +++++++++++++++------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 9641810..ba0682f 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"strings"
 )
 
@@ -153,7 +154,7 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 	}
 	if resp != nil {
 		for name := range resp.Header {
-			if strings.HasPrefix(name, variedPrefix) {
+			if strings.HasPrefix(name, storedPrefix) {
 				delete(resp.Header, name)
 			}
 		}
@@ -203,12 +204,18 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 		return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
 	}
 
+	// The response may have been redirected.
+	if u, err := url.Parse(resp.Header.Get(storedURL)); err == nil && u.Host != "" {
+		resp.Request = req.WithContext(ctx)
+		resp.Request.URL = u
+	}
+
 	switch c.strategy.fresh(resp) {
 	case fresh:
 		return resp, nil
 
 	case stale:
-		return c.verify(ctx, key, resp)
+		return c.verify(ctx, key, req, resp)
 	}
 
 	return nil, nil
@@ -217,8 +224,8 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 // Verify verifies that the given response is still valid.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.3.
-func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*http.Response, error) {
-	var req = resp.Request.Clone(ctx)
+func (c *Cache) verify(ctx context.Context, key uint64, orig *http.Request, resp *http.Response) (*http.Response, error) {
+	var req = orig.Clone(ctx)
 	var hdr = resp.Header
 
 	if etag := hdr.Get("ETag"); etag != "" {
@@ -266,7 +273,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
 		if c.strategy.store(resp) {
-			c.store(key, resp.Request, resp)
+			c.store(key, orig, resp)
 		}
 		return resp, nil
 	}
@@ -277,7 +284,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// satisfy the request and MAY replace the stored response(s).
 	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.store(key, resp.Request, newresp)
+		c.store(key, orig, newresp)
 	}
 	return newresp, nil
 }
@@ -292,6 +299,8 @@ func (c *Cache) store(key uint64, req *http.Request, resp *http.Response) {
 	rc := resp.Body
 	hdr := resp.Header.Clone()
 
+	hdr.Set(storedURL, resp.Request.URL.String())
+
 	for _, name := range vary(hdr) {
 		hdr.Set(variedPrefix+name, varied(req.Header, name))
 	}
diff --git a/antcache/utils.go b/antcache/utils.go
index ffac8ae..2d17153 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -44,12 +44,21 @@ func keyof(req *http.Request) uint64 {
 	))
 }
 
-// VariedPrefix is the prefix of stored request headers.
-//
-// The headers of the request that are nominated by the Vary
-// header of its response are stored along with the response
-// so that they can be compared with later requests.
-const variedPrefix = "X-Antcache-Varied-"
+const (
+	// StoredPrefix is the prefix of all headers that are
+	// stored along with those of the response.
+	storedPrefix = "X-Antcache-"
+
+	// StoredURL is the URL the response was served from.
+	storedURL = storedPrefix + "Url"
+
+	// VariedPrefix is the prefix of stored request headers.
+	//
+	// The headers of the request that are nominated by the Vary
+	// header of its response are stored along with the response
+	// so that they can be compared with later requests.
+	variedPrefix = storedPrefix + "Varied-"
+)
 
 // Vary returns the names of all headers nominated by Vary.
 func vary(h http.Header) (ret []string) {
-- 
2.43.0


From 92a2ca00cd194d16e560697d5461ea1c12ed7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 26/49] fix: remove the oldest files when the disk cache is too
 large

Sweep went over the files from the oldest to the newest and removed those
that no longer fit, so it kept old files, removed the newest ones and counted
the expired files it was about to remove anyway.
---
 antcache/disk.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index d2646e8..155c1b4 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -332,6 +332,7 @@ func (d *Diskstore) sweep() (int, error) {
 	var now = d.now()
 	var removed int
 	var remove []file
+	var keep []file
 	var sum int64
 
 	sort.Slice(files, func(i, j int) bool {
@@ -341,17 +342,21 @@ func (d *Diskstore) sweep() (int, error) {
 	})
 
 	for _, f := range files {
-		if d.maxage > 0 {
-			if now.Sub(f.mtime) > d.maxage {
-				remove = append(remove, f)
-			}
+		if d.maxage > 0 && now.Sub(f.mtime) > d.maxage {
+			remove = append(remove, f)
+			continue
 		}
+		keep = append(keep, f)
+		sum += f.size
+	}
 
-		if d.maxsize > 0 {
-			if sum += f.size; sum > d.maxsize {
-				remove = append(remove, f)
-				sum -= f.size
+	if d.maxsize > 0 {
+		for _, f := range keep {
+			if sum <= d.maxsize {
+				break
 			}
+			remove = append(remove, f)
+			sum -= f.size
 		}
 	}
 
-- 
2.43.0


From 72b91d76c118384c51db2d2b8b4374810ca5f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 27/49] fix: do not let a sweep remove a file that was just
 stored

A sweep decided what to remove before it took the lock, and Store renamed its
file before it updated the index. A sweep in between removed the new file and
either lost it or left an index entry whose file is gone, so that Load returned
an error.
---
 antcache/disk.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/antcache/disk.go b/antcache/disk.go
index 155c1b4..6e8cbd3 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -137,6 +137,7 @@ type Diskstore struct {
 	stop     chan struct{}
 	warm     chan struct{}
 	wg       sync.WaitGroup
+	filemu   sync.Mutex // held while files are renamed or removed
 	ticker   *time.Ticker
 	readymu  sync.RWMutex
 	ready    map[uint64]file
@@ -328,6 +329,9 @@ func (d *Diskstore) sweeper() {
 
 // Sweep sweeps the directory.
 func (d *Diskstore) sweep() (int, error) {
+	d.filemu.Lock()
+	defer d.filemu.Unlock()
+
 	var files = d.files()
 	var now = d.now()
 	var removed int
@@ -467,6 +471,9 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: close %s - %w", f.Name(), err)
 	}
 
+	d.filemu.Lock()
+	defer d.filemu.Unlock()
+
 	if err := os.Rename(f.Name(), newpath); err != nil {
 		return fmt.Errorf("antcache: disk rename - %w", err)
 	}
-- 
2.43.0


From 332384ad60ae6545c3e5fba86fc11e2e9467b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 28/49] fix: sweep only once the disk cache is warm

A file that was stored and swept while the directory was being read was added
to the index again by the warmup, so that Load returned an error.
---
 antcache/disk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/antcache/disk.go b/antcache/disk.go
index 6e8cbd3..29f79bc 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -329,6 +329,9 @@ func (d *Diskstore) sweeper() {
 
 // Sweep sweeps the directory.
 func (d *Diskstore) sweep() (int, error) {
+	// Warmup would otherwise add files back that are removed here.
+	<-d.warm
+
 	d.filemu.Lock()
 	defer d.filemu.Unlock()
 
-- 
2.43.0


From 8c5b784612d64e03f6ca281951f8a25206fc992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 29/49] fix: end the disk cache's warmup when the directory
 can't be read

Any error but io.EOF made the warmup loop forever, Wait and Close never
returned.
---
 antcache/disk.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 29f79bc..598b7fc 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -254,11 +254,7 @@ func (d *Diskstore) warmup() {
 	}()
 
 	for {
-		names, err := d.dir.Readdirnames(5)
-
-		if errors.Is(err, io.EOF) {
-			break
-		}
+		names, readerr := d.dir.Readdirnames(5)
 
 		for _, name := range names {
 			var path = filepath.Join(d.path, name)
@@ -286,6 +282,13 @@ func (d *Diskstore) warmup() {
 				mtime: stat.ModTime(),
 			})
 		}
+
+		if readerr != nil {
+			if !errors.Is(readerr, io.EOF) {
+				log.Printf("antcache: disk read directory - %s", readerr)
+			}
+			break
+		}
 	}
 
 	d.readymu.Lock()
-- 
2.43.0


From 1a0b4e1a863c15092d124dd2c827540fcaf438c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 30/49] fix: ignore files that no Store has written

The warmup took files such as 007 for the entry of key 7, and directories
whose name is a number for entries.
---
 antcache/disk.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 598b7fc..e8fa071 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -264,7 +264,7 @@ func (d *Diskstore) warmup() {
 			}
 
 			n, err := strconv.ParseUint(name, 10, 64)
-			if err != nil {
+			if err != nil || strconv.FormatUint(n, 10) != name {
 				log.Printf("antcache: disk cache invalid entry - %s", name)
 				continue
 			}
@@ -275,6 +275,11 @@ func (d *Diskstore) warmup() {
 				continue
 			}
 
+			if !stat.Mode().IsRegular() {
+				log.Printf("antcache: disk cache invalid entry - %s", name)
+				continue
+			}
+
 			files = append(files, file{
 				key:   n,
 				path:  path,
-- 
2.43.0


From 18e92b91215725016ebbc39a1f7a9bef739185ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 31/49] fix: load an empty value from a compressed disk cache

Decoding an empty value into a nil buffer returns nil, which is what Load
returns for a key that was never stored.
---
 antcache/disk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index e8fa071..b268078 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -455,7 +455,7 @@ func (d *Diskstore) Load(_ context.Context, key uint64) (v []byte, err error) {
 	}
 
 	if v != nil && d.compress {
-		if v, err = snappy.Decode(nil, v); err != nil {
+		if v, err = snappy.Decode([]byte{}, v); err != nil {
 			err = fmt.Errorf(
 				"antcache: compress is on but snappy can't decode %s/%d - %w",
 				d.path,
-- 
2.43.0


From aff8615db92e321d76f64a7472de257f006b470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 32/49] fix: close the connection to a CDP target when a
 request can't be set up

When a command of tx.init failed the connection was left open while the
target went back to the pool and was used by other requests.
---
 antcdp/transport.go | 8 ++++----
 antcdp/tx.go        | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/antcdp/transport.go b/antcdp/transport.go
index edc59c6..b96e55f 100644
--- a/antcdp/transport.go
+++ b/antcdp/transport.go
@@ -34,14 +34,14 @@ func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
 		target:  target,
 	}
 
-	if err := tx.init(ctx); err != nil {
-		return nil, err
-	}
-
 	defer func() {
 		err = multierror.Append(err, tx.close())
 	}()
 
+	if err := tx.init(ctx); err != nil {
+		return nil, err
+	}
+
 	resp, err := tx.do(ctx)
 	if err != nil {
 		return nil, err
diff --git a/antcdp/tx.go b/antcdp/tx.go
index 34f948f..9528d5d 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -294,6 +294,10 @@ func (tx *tx) setCookies(ctx context.Context) error {
 
 // Close closes the transaction.
 func (tx *tx) close() (err error) {
+	if tx.conn == nil {
+		return nil
+	}
+
 	var closers = [...]io.Closer{
 		tx.conn,
 		tx.events.req,
-- 
2.43.0


From 8a124c9466cb6f36e7c3133b9ce34a4615d2a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 33/49] fix: do not wait for the requests of a page's resources

Requests of scripts, images and frames were waited for, but never taken off
the list. When one of them was seen before the document's response the request
hung until its context was done.
---
 antcdp/tx.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 9528d5d..ff259ea 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -27,7 +27,6 @@ type tx struct {
 	conn    *rpcc.Conn
 	client  *cdp.Client
 	events  struct {
-		req   network.RequestWillBeSentClient
 		res   network.ResponseReceivedClient
 		ready page.DOMContentEventFiredClient
 	}
@@ -62,11 +61,6 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	reqc, err := tx.client.Network.RequestWillBeSent(ctx)
-	if err != nil {
-		return err
-	}
-
 	resc, err := tx.client.Network.ResponseReceived(ctx)
 	if err != nil {
 		return err
@@ -77,7 +71,6 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	tx.events.req = reqc
 	tx.events.res = resc
 	tx.events.ready = ready
 	return nil
@@ -115,21 +108,12 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 	return tx.resp, nil
 }
 
-// Wait waits for the network requests to load.
+// Wait waits for the response of the page's document.
 func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
-	var ids = make(map[network.RequestID]struct{})
-	var reqc = tx.events.req
 	var resc = tx.events.res
 
 	for {
 		select {
-		case <-reqc.Ready():
-			event, err := reqc.Recv()
-			if err != nil {
-				return fmt.Errorf("antcdp: request recv - %w", err)
-			}
-			ids[event.RequestID] = struct{}{}
-
 		case <-resc.Ready():
 			event, err := resc.Recv()
 			if err != nil {
@@ -147,10 +131,7 @@ func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 				return fmt.Errorf("antcdp: merge response - %w", err)
 			}
 
-			delete(ids, event.RequestID)
-			if len(ids) == 0 {
-				return nil
-			}
+			return nil
 
 		case <-ctx.Done():
 			return ctx.Err()
@@ -300,7 +281,6 @@ func (tx *tx) close() (err error) {
 
 	var closers = [...]io.Closer{
 		tx.conn,
-		tx.events.req,
 		tx.events.res,
 		tx.events.ready,
 	}
-- 
2.43.0


From 62bd0210ae675278e79370ab68e61755d6276ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 34/49] fix: ignore the events of the page a CDP target has
 loaded before

When a request is canceled its target goes on loading the page. The next
request of the target took the response and the DOM-ready event of that page
for its own.
---
 antcdp/tx.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index ff259ea..e608400 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -71,6 +71,11 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
+	// The document is ready only after its response.
+	if err := cdp.Sync(resc, ready); err != nil {
+		return err
+	}
+
 	tx.events.res = resc
 	tx.events.ready = ready
 	return nil
@@ -93,10 +98,6 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 		return nil, err
 	}
 
-	if _, err := tx.events.ready.Recv(); err != nil {
-		return nil, fmt.Errorf("antcdp: dom ready - %w", err)
-	}
-
 	if err := tx.readbody(ctx); err != nil {
 		return nil, err
 	}
@@ -108,12 +109,27 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 	return tx.resp, nil
 }
 
-// Wait waits for the response of the page's document.
+// Wait waits for the response of the page's document and for the
+// document to be ready.
+//
+// The target may still be loading the page of an earlier request, its
+// events are ignored.
 func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 	var resc = tx.events.res
+	var readyc = tx.events.ready
+	var loaded bool
 
 	for {
 		select {
+		case <-readyc.Ready():
+			if _, err := readyc.Recv(); err != nil {
+				return fmt.Errorf("antcdp: dom ready - %w", err)
+			}
+
+			if loaded {
+				return nil
+			}
+
 		case <-resc.Ready():
 			event, err := resc.Recv()
 			if err != nil {
@@ -126,12 +142,15 @@ func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 			if id := event.FrameID; id != nil && *id != args.FrameID {
 				continue
 			}
+			if id := args.LoaderID; id != nil && *id != event.LoaderID {
+				continue
+			}
 
 			if err := tx.merge(event.Response); err != nil {
 				return fmt.Errorf("antcdp: merge response - %w", err)
 			}
 
-			return nil
+			loaded = true
 
 		case <-ctx.Done():
 			return ctx.Err()
-- 
2.43.0


From 76baf5921c5844fc3f4fb27cbc8ce59fbb472d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 35/49] fix: load a page again when only the URL's fragment has
 changed

The browser sends no response for a navigation within the document, so that
the request hung until its context was done.
---
 antcdp/tx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index e608400..cc8868b 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -94,6 +94,14 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 		return nil, fmt.Errorf("antcdp: navigate - %s", *errmsg)
 	}
 
+	// The URL differs from the one that the target has loaded in its
+	// fragment only, the browser doesn't load the page again.
+	if reply.LoaderID == nil {
+		if err := tx.client.Page.Reload(ctx, nil); err != nil {
+			return nil, fmt.Errorf("antcdp: reload - %w", err)
+		}
+	}
+
 	if err := tx.wait(ctx, *reply); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From db093fb7f2b461b9c25a69a4c483e43fdf554ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 36/49] fix: split the headers of a CDP response into their
 values

A header that a server sends more than once became one value with newlines.
---
 antcdp/tx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index cc8868b..f0018a4 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -234,7 +234,10 @@ func (tx *tx) merge(resp network.Response) error {
 		if tx.resp.Header == nil {
 			tx.resp.Header = make(http.Header)
 		}
-		tx.resp.Header.Set(k, v)
+		// The browser joins the values of a header with newlines.
+		for _, v := range strings.Split(v, "\n") {
+			tx.resp.Header.Add(k, v)
+		}
 	}
 
 	if p := resp.Protocol; p != nil {
-- 
2.43.0


From c9fae1a02f02c2f9b236aba7206814bd5ba47f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 37/49] fix: set the URL of a CDP response that was redirected

The response's request kept the original URL, so that links of the page were
resolved against it.
---
 antcdp/tx.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index f0018a4..8b02b4c 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"strconv"
 	"strings"
 
@@ -247,6 +248,18 @@ func (tx *tx) merge(resp network.Response) error {
 		tx.resp.ProtoMinor = minor
 	}
 
+	// The request is the one that led to the response, like net/http's.
+	u, err := url.Parse(resp.URL)
+	if err != nil {
+		return fmt.Errorf("antcdp: parse url - %w", err)
+	}
+
+	u.Fragment = tx.request.URL.Fragment
+	if u.String() != tx.request.URL.String() {
+		tx.resp.Request = tx.request.Clone(tx.request.Context())
+		tx.resp.Request.URL = u
+	}
+
 	tx.resp.Uncompressed = true
 	return nil
 }
-- 
2.43.0


From bbbb96bd6a3871e8cecaf55816777730fb3b770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 38/49] fix: close the CDP targets that do not fit in the pool

With more than 10 requests at once targets were dropped from the pool but
left open in the browser, each time more of them.
---
 antcdp/targets.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/antcdp/targets.go b/antcdp/targets.go
index 3fcb334..dc11846 100644
--- a/antcdp/targets.go
+++ b/antcdp/targets.go
@@ -3,10 +3,14 @@ package antcdp
 import (
 	"context"
 	"fmt"
+	"time"
 
 	"github.com/mafredri/cdp/devtool"
 )
 
+// CloseTimeout is the time to wait for a target to be closed.
+const closeTimeout = 5 * time.Second
+
 // Targets represents a pool of targets.
 type targets struct {
 	client  *devtool.DevTools
@@ -45,10 +49,20 @@ func (t *targets) acquire(ctx context.Context) (*devtool.Target, error) {
 }
 
 // Release releases the given target.
+//
+// The target is closed when there are enough idle targets.
 func (t *targets) release(target *devtool.Target) error {
 	select {
 	case t.targets <- target:
+		return nil
+
 	default:
+		ctx, cancel := context.WithTimeout(context.Background(), closeTimeout)
+		defer cancel()
+
+		if err := t.client.Close(ctx, target); err != nil {
+			return fmt.Errorf("antcdp: close target - %w", err)
+		}
+		return nil
 	}
-	return nil
 }
-- 
2.43.0


From a0e268a3a8a69cc81a14339865b7d88d799b5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 39/49] fix: heed the context while a CDP target is connected
 to

When the browser accepts the connection but doesn't answer the websocket
handshake the request hung even though its context was done.
---
 antcdp/tx.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 8b02b4c..5674acd 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -37,7 +37,7 @@ type tx struct {
 func (tx *tx) init(ctx context.Context) error {
 	var url = tx.target.WebSocketDebuggerURL
 
-	conn, err := rpcc.DialContext(ctx, url)
+	conn, err := dial(ctx, url)
 	if err != nil {
 		return fmt.Errorf("antcdp: dial %q - %w", url, err)
 	}
@@ -82,6 +82,32 @@ func (tx *tx) init(ctx context.Context) error {
 	return nil
 }
 
+// Dial connects to url.
+//
+// The context of rpcc.DialContext doesn't end the websocket handshake.
+func dial(ctx context.Context, url string) (*rpcc.Conn, error) {
+	var conn *rpcc.Conn
+	var err error
+	var done = make(chan struct{})
+
+	go func() {
+		defer close(done)
+		conn, err = rpcc.DialContext(ctx, url)
+	}()
+
+	select {
+	case <-ctx.Done():
+		go func() {
+			if <-done; conn != nil {
+				conn.Close()
+			}
+		}()
+		return nil, ctx.Err()
+	case <-done:
+		return conn, err
+	}
+}
+
 // Do sends the navigates to the page.
 func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 	var args = page.NewNavigateArgs(tx.request.URL.String())
-- 
2.43.0


From 2934d5f55d91fc7e6d230c6300227c552d51c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 40/49] fix: pass all values of a header to the browser

Only the first value of a header was sent.
---
 antcdp/tx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 5674acd..585b9d5 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -296,8 +296,12 @@ func (tx *tx) setHeaders(ctx context.Context) error {
 	var dst = make(map[string]string)
 	var src = tx.request.Header
 
-	for k := range src {
-		dst[k] = src.Get(k)
+	for k, v := range src {
+		if k == "Cookie" {
+			dst[k] = strings.Join(v, "; ")
+		} else {
+			dst[k] = strings.Join(v, ", ")
+		}
 	}
 
 	buf, err := json.Marshal(dst)
-- 
2.43.0


From 39d6a90891e9a43b5fdcadd0b4f2e5966bfedf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 41/49] fix: memory queue panicked or raced when Wait and
 Enqueue were called at once

The wait group was re-used before all calls to Wait had returned.
---
 queue.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/queue.go b/queue.go
index 01d3a91..2bc9003 100644
--- a/queue.go
+++ b/queue.go
@@ -53,7 +53,7 @@ type memoryQueue struct {
 	pending URLs
 	cond    *sync.Cond
 	stopped bool
-	wg      *sync.WaitGroup
+	active  int
 }
 
 // MemoryQueue returns a new memory queue.
@@ -62,7 +62,6 @@ func MemoryQueue(size int) Queue {
 		pending: make(URLs, 0, size),
 		cond:    sync.NewCond(&sync.RWMutex{}),
 		stopped: false,
-		wg:      &sync.WaitGroup{},
 	}
 }
 
@@ -84,7 +83,7 @@ func (mq *memoryQueue) Enqueue(ctx context.Context, urls URLs) error {
 	}
 
 	mq.pending = append(mq.pending, urls...)
-	mq.wg.Add(len(urls))
+	mq.active += len(urls)
 	mq.cond.Broadcast()
 
 	return nil
@@ -113,13 +112,27 @@ func (mq *memoryQueue) Dequeue(ctx context.Context) (*URL, error) {
 
 // Done implementation.
 func (mq *memoryQueue) Done(_ context.Context, _ *URL) error {
-	mq.wg.Done()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	if mq.active--; mq.active < 0 {
+		panic("ant: queue: too many calls to Done")
+	}
+	if mq.active == 0 {
+		mq.cond.Broadcast()
+	}
+
 	return nil
 }
 
 // Wait implementation.
 func (mq *memoryQueue) Wait() {
-	mq.wg.Wait()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	for mq.active > 0 {
+		mq.cond.Wait()
+	}
 }
 
 // Close implementation.
@@ -127,10 +140,7 @@ func (mq *memoryQueue) Close(_ context.Context) error {
 	mq.cond.L.Lock()
 	defer mq.cond.L.Unlock()
 
-	for range mq.pending {
-		mq.wg.Done()
-	}
-
+	mq.active -= len(mq.pending)
 	mq.stopped = true
 	mq.pending = mq.pending[:0]
 	mq.cond.Broadcast()
-- 
2.43.0


From fb1b850c1c843ee1ad86320068006acbdcf23e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:30 +0000
Subject: [PATCH 42/49] fix: Run failed with EOF if a page was enqueued from
 outside as the crawl ended

Enqueue returns io.EOF when the queue was closed, only other errors
of the queue are to be propagated.
---
 engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine.go b/engine.go
index ae3577c..3100723 100644
--- a/engine.go
+++ b/engine.go
@@ -305,6 +305,10 @@ func (eng *Engine) process(ctx context.Context, url *URL) error {
 		if ctx.Err() != nil {
 			err = ctx.Err()
 		}
+		// The queue was closed, it discards the URLs.
+		if err == io.EOF {
+			return nil
+		}
 		return fmt.Errorf("ant: enqueue - %w", err)
 	}
 
-- 
2.43.0


From d8dee10b97f17d5054ed80ece347388113fe6402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:55 +0000
Subject: [PATCH 43/49] fix: Diskstore.Wait returns the error of a context that
 has ended

With the directory read, the select had two ready cases and returned nil
or the context's error at random.
---
 antcache/disk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/antcache/disk.go b/antcache/disk.go
index b268078..60269c3 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -231,6 +231,10 @@ func (d *Diskstore) init() error {
 // The method returns the context's error if canceled, otherwise
 // it will block until the disk cache is warm.
 func (d *Diskstore) Wait(ctx context.Context) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
-- 
2.43.0


From d83dfc11c9022e54706b6573bcc2f238cf13966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:00 +0000
Subject: [PATCH 44/49] fix: anttest.Fetch fails the test when the page is not
 found

ant.Fetch returns a nil page and a nil error for a 404, so the test carried on
with a nil page although a page that cannot be fetched is to end it.
---
 anttest/anttest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anttest/anttest.go b/anttest/anttest.go
index 623a3fb..a2b2f49 100644
--- a/anttest/anttest.go
+++ b/anttest/anttest.go
@@ -33,6 +33,9 @@ func Fetch(t testing.TB, url string) *ant.Page {
 	if err != nil {
 		t.Fatalf("anttest: %s", err)
 	}
+	if page == nil {
+		t.Fatalf("anttest: fetch %q - not found", url)
+	}
 
 	return page
 }
-- 
2.43.0


From 4299e504a5d8473491cad9803bf3f44e0ffb7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:54 +0000
Subject: [PATCH 45/49] fix: Run reports the crawl's failure and waits when its
 queue cannot be closed

Run closed the queue twice, returned the second Close's error instead of the
failure that ended the crawl, without waiting for the workers, and never
returned if a queue that could not be closed kept Wait blocked.
---
 engine.go | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/engine.go b/engine.go
index 3100723..6d2e6ed 100644
--- a/engine.go
+++ b/engine.go
@@ -13,6 +13,9 @@ import (
 	"golang.org/x/sync/semaphore"
 )
 
+// ErrNotClosed ends the crawl when its queue cannot be closed.
+var errNotClosed = errors.New("ant: queue not closed")
+
 // EngineConfig configures the engine.
 type EngineConfig struct {
 	// Scraper is the scraper to use.
@@ -140,26 +143,54 @@ func (eng *Engine) Run(ctx context.Context, urls ...string) error {
 		return fmt.Errorf("ant: enqueue - %w", err)
 	}
 
-	var eg, subctx = errgroup.WithContext(ctx)
+	var runctx, cancel = context.WithCancelCause(ctx)
+	defer cancel(nil)
+
+	var eg, subctx = errgroup.WithContext(runctx)
 
 	// Discard queued URLs and unblock all workers as soon as
 	// the crawl fails or is canceled.
+	var closed = make(chan error, 1)
 	var stop = context.AfterFunc(subctx, func() {
-		eng.queue.Close(ctx)
+		closed <- eng.queue.Close(ctx)
 	})
 
 	// Spawn workers.
 	for i := 0; i < eng.workers; i++ {
 		eg.Go(func() error {
-			return eng.run(subctx, eg)
+			err := eng.run(subctx, eg)
+			if context.Cause(runctx) == errNotClosed {
+				return nil
+			}
+			return err
 		})
 	}
 
-	// Wait until all URLs are handled.
-	eng.queue.Wait()
-	stop()
-	if err := eng.queue.Close(ctx); err != nil {
-		return err
+	// Wait until all URLs are handled, the queue
+	// may not unblock when it cannot be closed.
+	var handled = make(chan struct{})
+	go func() {
+		defer close(handled)
+		eng.queue.Wait()
+	}()
+
+	var closeErr error
+	select {
+	case <-handled:
+		if stop() {
+			closeErr = eng.queue.Close(ctx)
+		} else {
+			closeErr = <-closed
+		}
+	case closeErr = <-closed:
+		if closeErr == nil {
+			<-handled
+		}
+	}
+
+	// The queue did not unblock the workers.
+	if closeErr != nil {
+		cancel(errNotClosed)
 	}
 
 	// Wait until all workers shutdown.
@@ -167,7 +198,7 @@ func (eng *Engine) Run(ctx context.Context, urls ...string) error {
 		return fmt.Errorf("ant: run - %w", err)
 	}
 
-	return nil
+	return closeErr
 }
 
 // Enqueue enqueues the given set of URLs.
-- 
2.43.0


From 509af63e914a4af435509d4127269adc260188af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:34 +0000
Subject: [PATCH 46/49] fix: an error of the queue's Done ends the crawl

It was dropped, unlike those of Enqueue and Dequeue.
---
 engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index 6d2e6ed..a2edf58 100644
--- a/engine.go
+++ b/engine.go
@@ -303,8 +303,12 @@ func (eng *Engine) release() {
 }
 
 // Process processes a single url.
-func (eng *Engine) process(ctx context.Context, url *URL) error {
-	defer eng.queue.Done(ctx, url)
+func (eng *Engine) process(ctx context.Context, url *URL) (err error) {
+	defer func() {
+		if e := eng.queue.Done(ctx, url); e != nil && err == nil {
+			err = fmt.Errorf("ant: done %q - %w", url, e)
+		}
+	}()
 
 	// Check robots.txt.
 	if !eng.impolite {
-- 
2.43.0


From b108ecf59f7004f81af291baba2b9741f50cd291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:36 +0000
Subject: [PATCH 47/49] fix: a response that must be revalidated is not served
 stale

---
 antcache/httpcache.go | 2 +-
 antcache/rfc7234.go   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index ba0682f..a242173 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -253,7 +253,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, orig *http.Request, resp
 	// stored response (see Section 4.2.4).
 	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
 		reqd := directivesFrom(req.Header)
-		if reqd.has("stale-if-error") {
+		if reqd.has("stale-if-error") && !directivesFrom(hdr).has("must-revalidate") {
 			c.discard(newresp)
 			return resp, nil
 		}
diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 1ca479f..bbfb960 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -130,7 +130,8 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 			age += minfresh
 		}
 
-		if reqd.has("max-stale") {
+		// A response that must be revalidated is never served stale.
+		if reqd.has("max-stale") && !resd.has("must-revalidate") {
 			ms, ok := reqd.duration("max-stale")
 
 			if !ok {
-- 
2.43.0


From 577bfe86d2511cfc22eca2841cf8e82ac428e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 48/49] fix: SweepEvery(0) can be given twice

---
 antcache/disk.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 60269c3..2240131 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -65,12 +65,13 @@ func Maxsize(size int64) DiskOption {
 // the maxsize is reached.
 func SweepEvery(d time.Duration) DiskOption {
 	return func(ds *Diskstore) error {
-		if d > 0 {
-			ds.ticker = time.NewTicker(d)
-		} else {
+		if ds.ticker != nil {
 			ds.ticker.Stop()
 			ds.ticker = nil
 		}
+		if d > 0 {
+			ds.ticker = time.NewTicker(d)
+		}
 		return nil
 	}
 }
-- 
2.43.0


From c383e3839025a3e386f12e3eccc54a256189d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:38 +0000
Subject: [PATCH 49/49] fix: the cache does not answer with the response to
 another request whose key is equal

---
 antcache/httpcache.go |  6 ++++++
 antcache/utils.go     | 14 +++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index a242173..328e8e1 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -204,6 +204,11 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 		return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
 	}
 
+	// The response may be that of another request with the same key.
+	if v := resp.Header.Get(storedFor); v != "" && v != url.QueryEscape(nameof(req)) {
+		return nil, nil
+	}
+
 	// The response may have been redirected.
 	if u, err := url.Parse(resp.Header.Get(storedURL)); err == nil && u.Host != "" {
 		resp.Request = req.WithContext(ctx)
@@ -299,6 +304,7 @@ func (c *Cache) store(key uint64, req *http.Request, resp *http.Response) {
 	rc := resp.Body
 	hdr := resp.Header.Clone()
 
+	hdr.Set(storedFor, url.QueryEscape(nameof(req)))
 	hdr.Set(storedURL, resp.Request.URL.String())
 
 	for _, name := range vary(hdr) {
diff --git a/antcache/utils.go b/antcache/utils.go
index 2d17153..664fdd4 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -39,9 +39,12 @@ func validates(reqh, resph http.Header) bool {
 
 // Keyof returns a cache key of req.
 func keyof(req *http.Request) uint64 {
-	return murmur3.Sum64([]byte(
-		req.Method + ":" + req.URL.String(),
-	))
+	return murmur3.Sum64([]byte(nameof(req)))
+}
+
+// Nameof returns the name that the cache key of req is made of.
+func nameof(req *http.Request) string {
+	return req.Method + ":" + req.URL.String()
 }
 
 const (
@@ -52,6 +55,11 @@ const (
 	// StoredURL is the URL the response was served from.
 	storedURL = storedPrefix + "Url"
 
+	// StoredFor is the request the response was stored for.
+	//
+	// Requests may have equal keys, and such requests are easy to craft.
+	storedFor = storedPrefix + "For"
+
 	// VariedPrefix is the prefix of stored request headers.
 	//
 	// The headers of the request that are nominated by the Vary
-- 
2.43.0

