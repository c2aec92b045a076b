#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A crawl visits exactly the reachable URLs, each once",
 "When no component fails, a crawl ends with a nil error after fetching and scraping every URL that is reachable from the start URLs through the links the scraper returned and that the matcher accepts. Each such URL (up to URL normalisation) is fetched and scraped exactly once and no other URL is fetched. This holds for every number of workers, every concurrency limit, every built-in de-duplicator, with and without robots.txt or a limiter, and whatever order pages complete in; URLs enqueued from other goroutines while Run is under way are crawled in the same way, and make it neither fail nor visit a URL twice.",
 ["schedules","inputs","configurations"],"every finite link graph with cycles, duplicate links and differently spelled links; every Workers/Concurrency/Deduper/Matcher/Limiter configuration; every completion order",
 "The engine tests crawl one five-page fixture with one worker and Concurrency 1; they never vary the graph, the number of workers or the order in which pages complete.",
 ["engine.go","queue.go","dedupe.go","internal/normalize/url.go","page.go"],
 [("Run/run/process loop","engine.go"),("normalise, match, dedupe, then enqueue","engine.go:enqueue"),("pending counter","queue.go")],
 [("queue","URLs accepted and not yet acknowledged","queue.go")],["Client.Do calls","Scraper.Scrape calls","return value of Engine.Run"])
p("C02","Run always returns and leaves nothing running",
 "Engine.Run returns, without waiting for anything but the component calls already in progress, once the frontier is exhausted, once a component has failed, or once its context is cancelled or its deadline has passed, for every number of workers and every concurrency limit. The calls in progress are told through their context, which ends with the crawl. When it returns, no fetch, limiter, de-duplicator or scraper call made on its behalf is still running and every goroutine it started has ended or is about to.",
 ["schedules","fault_sequences","configurations"],"every moment of cancellation or failure relative to the crawl, in every Workers/Concurrency configuration, including workers blocked on the concurrency limit or on an empty queue",
 "The only cancellation test cancels before Run starts; no test cancels or fails while a worker waits for the semaphore or the queue, and a hang would need exactly those moments.",
 ["engine.go","queue.go"],[("queue.Wait, queue.Close, errgroup.Wait","engine.go:Run"),("every dequeued URL is acknowledged","engine.go:process")],
 [("in-flight URLs","dequeued, not yet acknowledged","queue.go wg")],["return of Engine.Run","goroutines alive in the synctest bubble"])
p("C03","A permanent failure aborts the crawl and is what Run reports",
 "If the robots.txt lookup, limiter, fetch, scraper, de-duplicator or queue fails with a permanent error for some URL, Run returns a non-nil error wrapping that error, and once the error has been returned to the engine no worker starts fetching or scraping another URL. If the context is cancelled or its deadline passes before the crawl is complete, Run returns an error wrapping the context's error. Run returns nil only when the crawl is complete.",
 ["fault_sequences","schedules","configurations"],"every component that can fail, every URL at which it fails, every Workers/Concurrency setting, every cancellation instant",
 "Tests inject one error at one place with one worker; with several workers the abort depends on how failure propagates between them.",
 ["engine.go","queue.go","fetcher.go"],[("errgroup cancels the shared context","engine.go:Run/run"),("%w wrapping","engine.go")],
 None,["error returned by Run","fetch/scrape start events after the failure"])
p("C04","Concurrency bounds the number of URLs in process, no more and no less",
 "With Concurrency n > 0 at most n URLs are being processed (from their rate limit to the end of their scrape) at any instant, summed over all workers, and n of them are when at least n URLs are available. With Concurrency <= 0 there is no limit: every queued URL starts without waiting for another to finish. A slot is given back whatever the outcome of the URL (scraped, 404, disallowed by robots.txt).",
 ["schedules","configurations","inputs"],"every Workers x Concurrency setting, every mix of outcomes and latencies",
 "No test observes how many URLs are in flight; the fixture is crawled with Concurrency 1 and nothing counts.",
 ["engine.go"],[("weighted semaphore around process","engine.go:run")],[("sema","slots in use","engine.go")],["Limiter.Limit, Client.Do and Scraper.Scrape entry/exit"])
p("C05","robots.txt is obeyed",
 "Unless Impolite is set, the engine never requests a URL (path and query) that the host's robots.txt disallows for the crawler's user agent, requests every URL that it allows, and treats a host whose robots.txt answers 4xx as allowing everything. Rules of one host are never applied to another, robots.txt is requested with the crawler's user agent, and a host's rules are cached rather than requested again for every URL. With Impolite set robots.txt is never requested and nothing is filtered.",
 ["inputs","configurations","histories"],"every robots.txt built from user-agent groups, Allow/Disallow prefixes, wildcards and end anchors, every URL with or without query, several hosts per crawl",
 "Tests use one robots.txt with one Disallow prefix and one host, never a query, a wildcard, an Allow rule or two hosts.",
 ["internal/robots/cache.go","engine.go"],[("Allowed before the limiter and the fetch","engine.go:process"),("per-host cache","internal/robots/cache.go:lookup")],
 None,["requests seen by the origin, robots.txt included"])
p("C06","Crawl-delay spaces the requests to a host",
 "When a host's robots.txt gives a Crawl-delay for the crawler, no page of that host is requested sooner than that delay after robots.txt was consulted for it, and the requests for two pages of the crawl to that host are never closer together than the delay (retries of one page are spaced by the fetcher's backoff instead), whatever the number of workers. A wait is abandoned at once with the context's error when the context ends, and hosts without a delay are not held up.",
 ["schedules","inputs","configurations"],"every delay, every number of URLs arriving at once, every worker count, several hosts, cancellation at any instant",
 "The test makes one request with a delay and checks only that there is no error.",
 ["internal/robots/cache.go","engine.go"],[("Wait before fetch","engine.go:limit"),("delay slots per host","internal/robots/cache.go:Wait")],None,["virtual time of requests seen by the origin"])
p("C07","Rate limiters hold matching URLs to n per second and only those",
 "Limit(n), LimitHostname, LimitPattern and LimitRegexp let at most n + n*t matching calls through in any t seconds (burst n), let them through at that rate and not slower, never delay a URL that does not match (host for LimitHostname; host and path, ignoring scheme and query, for the other two), and return the context's error when it ends. The engine consults its limiter exactly once per URL before fetching it, with the URL it is about to fetch, and never fetches a URL whose limiter failed.",
 ["schedules","inputs","configurations"],"every rate, arrival pattern, number of concurrent callers, URL and pattern",
 "limiters_test.go is an empty test; nothing exercises any limiter but one that returns an error.",
 ["limiters.go","engine.go","internal/normalize/url.go"],[("token bucket","limiters.go"),("limit before scrape","engine.go:limit")],None,["virtual time at which Limit returns","limiter calls vs. client calls"])
p("C08","Matchers decide on host and path only, exactly as documented",
 "MatchHostname accepts exactly the URLs whose host (with port) equals the given one; MatchPattern accepts exactly those whose host followed by path matches the glob (* any run of characters, ? any one character, backslash escapes) as a whole; MatchRegexp exactly those where the expression matches host followed by path. Scheme, query, fragment and user info never change the verdict, and a path is matched as beginning with a slash. The engine enqueues a URL, start URLs included, only if its matcher accepts the normalised URL.",
 ["inputs"],"every URL and every host, glob or regular expression",
 "Tests sample about a dozen URL/pattern pairs.",
 ["matchers.go","engine.go"],[("host+path string","matchers.go"),("matches() before dedupe","engine.go:enqueue")],None,["Matcher.Match verdicts","URLs fetched"])
p("C09","URL normalisation merges equivalent URLs and only those",
 "Normalising is idempotent and gives the same URL for spellings that differ only in scheme or host case, default or empty port, empty path versus '/', dot segments, percent-encoding of unreserved characters or case of percent-escapes, order of query parameters, an empty query or a fragment. It never makes two URLs equal that differ otherwise: in scheme, user info, host, non-default port, path characters including case, trailing slash and encoded slash, or query parameters.",
 ["inputs"],"every http(s) URL the standard parser accepts, duplicate slashes aside",
 "Eleven sample URLs; none with a trailing slash, leading dot segments, an encoded slash, IPv6 host or an empty port, and no test of idempotence.",
 ["internal/normalize/url.go","engine.go"],[("URL()","internal/normalize/url.go")],None,["normalize.RawURL results","URLs requested by the engine"])
p("C10","The in-memory queue hands out every URL exactly once, in order",
 "Under any concurrent use the memory queue behaves as one FIFO: each enqueued URL is dequeued exactly once, in the order enqueued, unless discarded by Close. After Close, Dequeue reports io.EOF and Enqueue of URLs is refused with io.EOF; a cancelled context makes Enqueue refuse and an otherwise empty Dequeue fail with the context's error. Wait returns once every accepted URL was acknowledged with Done or discarded by Close, not before, and Close wakes every blocked Dequeue.",
 ["schedules","histories"],"every interleaving of concurrent Enqueue/Dequeue/Done/Wait/Close calls",
 "The suite's queue test has three readers and no Close, Done or Wait under concurrency.",
 ["queue.go","anttest/queue.go"],[("mutex + condition variable","queue.go"),("WaitGroup of unacknowledged URLs","queue.go")],
 [("pending","FIFO of URLs","queue.go"),("stopped","closed","queue.go"),("wg","accepted and not acknowledged","queue.go")],["call/return history of Queue methods"])
p("C11","A de-duplicator lets each URL through at most once",
 "Over any set of concurrent Dedupe calls on one de-duplicator, DedupeMap returns each distinct URL exactly once in total and DedupeBF at most once (and, dimensioned generously, all but a false-positive few); duplicates inside one batch count too. Each call returns URLs of its own batch only, in their original order, and never changes the input slice.",
 ["schedules","inputs"],"every partition of a URL multiset into concurrent calls, every interleaving",
 "Tests make two sequential calls; a lost or doubled URL needs concurrent calls on the same URL.",
 ["dedupe.go"],[("sync.Map LoadOrStore","dedupe.go"),("bloom filter test-and-add","dedupe.go")],None,["returned batches"])
p("C12","The fetcher retries exactly the temporary failures, boundedly",
 "Fetch makes at most MaxAttempts (default 5) requests and makes another one only after a temporary failure: status 429, 503 or 504, or a client error that says it is temporary, wrapped or not. Between two requests it waits at least MinBackoff and at most MaxBackoff (it returns an error instead of waiting if MinBackoff is not below MaxBackoff), and it returns the context's error without another request once the context ends. A status below 400 gives a page, 404 gives neither page nor error, any other status of 400 and up gives a FetchError with that status, other client errors are returned wrapped, and running out of attempts reports the last failure.",
 ["inputs","fault_sequences","configurations"],"every sequence of statuses and errors, every MaxAttempts/backoff setting, cancellation at every point",
 "Tests cover 400, 404, one 503-503-200 run and one all-503 run; no client error, no cancellation, no timing.",
 ["fetcher.go"],[("attempt loop","fetcher.go:Fetch"),("backoff","fetcher.go:backoff"),("isTemporary","fetcher.go")],None,["requests seen by the client with virtual times","Fetch result"])
p("C13","Every response body is drained and closed",
 "Every response body the fetcher receives is read to the end (or until it fails) and closed: before Fetch returns when the response is not turned into a page (retry, 404, error status, error with a response), and by the end of the crawl for every page, even if the scraper failed, returned early or never looked at the page. While a page is with the scraper its body is not closed under it unless the page was parsed.",
 ["fault_sequences","inputs","schedules"],"every outcome sequence, every scraper behaviour (reads, ignores, fails, parses), every cancellation point",
 "No test looks at Close or EOF of a body except one page.close call.",
 ["fetcher.go","engine.go","page.go"],[("discard","fetcher.go"),("defer page.close","engine.go:scrape"),("parse closes","page.go")],None,["Read/Close of instrumented bodies"])
p("C14","Temporary scraper and de-duplicator errors are retried",
 "When the scraper or de-duplicator returns an error whose Temporary method returns true, the engine tries again, with the fetcher's backoff, until it succeeds, fails permanently or the fetcher's maximum number of attempts is reached; then the crawl carries on, or Run reports the last error. Errors that are not temporary are never retried.",
 ["fault_sequences","configurations"],"every sequence of temporary and permanent errors per URL, every MaxAttempts",
 "The interface comments and the README promise it; no test injects a temporary error.",
 ["engine.go","ant.go","dedupe.go"],[("retry around scrape and dedupe","engine.go")],None,["calls of Scraper.Scrape and Deduper.Dedupe"])
p("C15","Page links are resolved completely and correctly",
 "URLs returns, in document order, the target of every a[href] of the page, and Next of every element with an href matching its selector, that parses as a URL and is an http(s) URL with a host after resolving it against the URL the page was finally served from (redirects included); everything else (other schemes, unparsable, host-less links) is skipped. Neither ever fails or panics because of what a page contains, and an invalid selector selects nothing.",
 ["inputs"],"every HTML document, every href text, every base URL, every selector",
 "Tests use two well-formed links on one base URL.",
 ["page.go","fetcher.go","internal/scan/nodes.go"],[("resolve","page.go"),("page URL is the response's request URL","fetcher.go:Fetch")],None,["URLs/Next results vs. an independent resolver"])
p("C16","Queries on pages and lists agree with the document",
 "Query, Is, At, Text and Attr on pages and lists give exactly what the CSS selector, index, text content and attributes of the parsed document give: nodes in document order per list element, negative indexes from the end, text of all descendants in order, first node's attribute. Out-of-range indexes, unmatched or invalid selectors give empty results, never a panic, and the answers do not depend on what was queried before or on concurrent queries of the same page.",
 ["inputs","schedules"],"every document, selector, index, key and order of queries, concurrent readers of one page",
 "Tests sample single calls on tiny documents, sequentially.",
 ["list.go","page.go","internal/selectors/selectors.go","internal/scan/nodes.go"],[("selector cache","internal/selectors/selectors.go"),("parse once","page.go:parse")],None,["results of concurrent calls vs. a fresh parse"])
p("C17","Scanning fills every field from the element its tag selects",
 "Scan sets each tagged field (string, int, uint, float, bytes, struct, slice of these) to the text or named attribute of the first element its css selector matches inside the enclosing element, slices to all matches in document order; unmatched fields become zero values (slices stay as they are), untagged and unexported fields are untouched. Nested structs and elements of struct slices are scanned inside the element selected for them. Unsupported types, selectors that do not compile and slices without a selector are reported as errors, not panics, and results never depend on which types were scanned before or concurrently.",
 ["inputs","programs","schedules"],"every supported struct type, every document, any order and concurrency of scans",
 "Tests scan fixed types from documents where every selector is unique, one at a time.",
 ["internal/scan/scan.go","internal/scan/struct.go","internal/scan/slice.go","internal/scan/scanner.go","page.go","list.go"],[("ScanFunc per type","internal/scan/scan.go"),("type cache","internal/scan/scanner.go")],[("types","compiled scan functions by type","internal/scan/scanner.go")],["scanned values vs. a reference evaluator"])
p("C18","The JSON scraper writes one intact line per page",
 "However many pages are scraped concurrently with one JSON scraper, the output is a sequence of complete JSON lines, exactly one per successfully scraped page, each the encoding of the value scanned from that page alone; lines never interleave or mix pages. The URLs returned are those of the given selectors in order, or all links when there are none, and write or scan errors are returned to the caller.",
 ["schedules","inputs"],"every number of concurrent pages, writers that are slow or split nothing, selectors given or not",
 "Tests scrape one page into a buffer.",
 ["json.go"],[("encoder behind a mutex","json.go:encode"),("fresh value per page","json.go:Scrape")],None,["bytes written to the writer"])
p("C19","A cached response is the origin's response, whole and for that request",
 "A response served from the cache has the status, headers (apart from the cache's own marker and headers refreshed by validation), the URL it was finally served from and byte-for-byte the body of a response the origin gave to the same method and URL, also when another request was made to have the same cache key. A response whose body was not read to its end, failed half way or was never closed is never stored, a body is passed on to the caller unchanged while being stored, and concurrent requests never mix responses. Storage errors surface: loading fails the request, storing fails Close.",
 ["histories","schedules","fault_sequences","inputs"],"every request history, body framing, partial read, mid-body error and storage fault",
 "Tests read one small complete body; none closes early, breaks a body or compares cached bytes.",
 ["antcache/httpcache.go","antcache/cachereader.go","antcache/memstore.go","antcache/utils.go"],[("tee reader storing at Close","antcache/cachereader.go"),("key of method and URL","antcache/utils.go:keyof")],None,["responses returned by Cache.Do vs. what the origin sent"])
p("C20","The default cache stores only what RFC 7234 lets it store",
 "With the default strategy a response is stored only if the request is a GET or HEAD without Authorization, Range or Content-Range and without no-store, the status is cacheable, neither side's Cache-Control (any header line, any letter case) has no-store, and the response has a Date and a positive explicit lifetime (max-age, else Expires); such responses are stored. Requests that may not use the cache go straight to the origin and leave the stored response alone.",
 ["inputs","histories"],"every combination of method, headers, status and directives",
 "Tests sample a dozen combinations through internal functions with single-line headers.",
 ["antcache/rfc7234.go","antcache/httpcache.go","antcache/directives.go","antcache/utils.go"],[("cache()/store() predicates","antcache/rfc7234.go")],None,["Storage.Store calls","requests seen by the origin"])
p("C21","The default cache serves unvalidated only what is fresh and matches",
 "With the default strategy a stored response is returned without contacting the origin exactly when neither side says no-cache, the request headers named by the stored response's Vary equal those of the request that stored it, and either the request says only-if-cached or the response's age (plus min-fresh, minus max-stale unless the response is must-revalidate) is below its lifetime: its max-age, else Expires minus Date, lowered by the request's max-age. Otherwise the origin is asked.",
 ["inputs","histories"],"every combination of directives, ages, dates and varying headers, every history of stores and requests",
 "Tests check isolated header combinations at age zero; none has Vary on the response, a repeated header line or a request max-age above the response's.",
 ["antcache/rfc7234.go","antcache/directives.go","antcache/utils.go"],[("fresh()","antcache/rfc7234.go"),("matches()","antcache/utils.go")],None,["requests seen by the origin in virtual time"])
p("C22","Validation of a stale response keeps or replaces it correctly",
 "A stored response that is stale is validated by sending the request with its ETag and Last-Modified as validators. If the origin answers 304 the caller gets the stored status and complete body with the headers updated from the 304, and the stored response is refreshed with the same body (unless the refreshed headers forbid storing); a 304 to other validators that the client had set itself is handed on; if it answers in full the caller gets that answer and it replaces the stored one when storable. A 5xx answer is handed on, or with stale-if-error replaced by the stored response (unless that is must-revalidate), and no response received while validating is left unclosed.",
 ["histories","fault_sequences","inputs"],"every history of stale hits and origin answers, body framing and stale-if-error setting",
 "The tests look at headers of a validated response, never at its body or at the next request after it.",
 ["antcache/httpcache.go"],[("verify","antcache/httpcache.go"),("merge","antcache/utils.go")],None,["conditional requests seen by the origin","bodies returned before and after"])
p("C23","The aggressive cache serves by age alone and yields to no-cache",
 "With the Aggressive(age) strategy every cacheable GET/HEAD response with a Date is stored whatever its own cache directives say, and is served without contacting the origin while younger than age (24 hours when age <= 0) and never when older. Requests with no-store, Authorization, Range or Content-Range bypass it, and a request with no-cache always reaches the origin, whose answer replaces the stored one.",
 ["inputs","histories"],"every age, elapsed time, directive combination and request history",
 "Tests check the predicates separately; no test sends no-cache to an aggressive cache.",
 ["antcache/aggressive.go","antcache/httpcache.go"],[("aggressive.cache/store/fresh","antcache/aggressive.go")],None,["requests seen by the origin in virtual time"])
p("C24","A disk store survives a crash at any point",
 "Whenever the process is killed or power is lost, re-opening the directory gives for every key either a value some Store call wrote for it in full, or nothing; never a partial, empty or mixed value. A value whose Store had returned is still there, unless a later Store of the key had begun, in which case it is one of the two, and leftover temporary files are never served. A Store that fails because writing, syncing or renaming fails returns an error, leaves no temporary file behind and the key with its old or new value.",
 ["crash_points","histories"],"every system call of a store workload as crash point; unsynced data and renames lost or kept; single and concurrent stores, compressed or not",
 "Tests never interrupt a store; the fsync-rename order is invisible to a test that does not crash.",
 ["antcache/disk.go"],[("temp file, fsync, rename, fsync of the directory","antcache/disk.go:Store/add"),("warmup ignores other names","antcache/disk.go:warmup")],None,["system calls of the storing process (strace)","values loaded after re-open"])
p("C25","A disk store is an atomic map under concurrency",
 "Under any concurrent Store, Load, sweep and warm-up, Load returns the value of the latest completed Store of the key or of one running concurrently, byte for byte, compressed or not; nil only if the key was never stored or may have been evicted. Load never returns an error, a partial value or an older value once a newer one was returned, and a Store that returned is visible at once, even while the sweeper runs.",
 ["schedules","histories"],"every interleaving of stores, loads, sweeps and the initial directory scan, on few keys",
 "Tests store and load sequentially; the windows between rename, map update and removal are only reached by concurrent sweeps.",
 ["antcache/disk.go"],[("readymu around the index","antcache/disk.go")],[("ready","index of loadable files","antcache/disk.go")],["history of Store/Load calls"])
p("C26","Sweeping removes the expired and then the oldest, nothing else",
 "A sweep removes every file older than Maxage and then, only if what remains exceeds Maxsize, the oldest files until it no longer does; everything else stays loadable, and removed entries load as absent and are gone from disk. An entry whose file cannot be removed does not keep the others and goes with a later sweep. A limit <= 0 is not enforced, and without a sweep interval nothing is removed.",
 ["inputs","configurations","histories"],"every set of files with sizes and ages, every Maxage/Maxsize",
 "Tests have two files and count removals without looking at which file went.",
 ["antcache/disk.go"],[("sweep","antcache/disk.go")],None,["directory listing and Load after a sweep tick in virtual time"])
p("C27","A disk store recovers its directory and closes cleanly",
 "After Wait returns nil, Load finds every entry that was in the directory when it was opened, with its content, and newer stores made meanwhile win; other files are ignored and left alone. Wait returns the context's error if the context ends first or had ended before. Close returns, ends the background goroutines and leaves stored entries on disk, at whatever moment it is called and even if the directory was removed meanwhile.",
 ["inputs","schedules","fault_sequences"],"every directory content, stores racing with the initial scan, directory faults",
 "Tests re-open two entries; none has foreign files, concurrent stores or a vanishing directory.",
 ["antcache/disk.go"],[("warmup","antcache/disk.go"),("Wait/Close","antcache/disk.go")],None,["Load results after Wait","goroutines after Close","process CPU progress"])
p("C28","A CDP request returns the page the browser rendered",
 "For every page load the CDP client's Do returns, as soon as the main document's response, its DOM-ready event and content are available, the main document's status, protocol and headers, the rendered HTML as body with matching Content-Length, and the browser's cookies as Set-Cookie; request headers (values of one header joined by newlines are separate values) and cookies are passed to the browser first. The response's Request carries the final URL after a redirect, with the fragment that was asked for, events of a page that an earlier, aborted request left loading are not taken for this page's, and a URL that differs from the target's page only by its fragment is loaded again. Sub-resource, frame and redirect traffic in any order never changes the result or keeps Do from returning, and navigation or protocol errors are returned as errors.",
 ["schedules","inputs","fault_sequences"],"every order of browser events, every mix of sub-resources, frames and redirects, errors at every protocol step",
 "The only test needs a real Chrome and is skipped here; it loads two static pages.",
 ["antcdp/tx.go","antcdp/transport.go","antcdp/client.go"],[("event loop","antcdp/tx.go:wait"),("merge/readbody/readcookies","antcdp/tx.go")],None,["protocol messages seen by a fake browser","response returned by Do"])
p("C29","A CDP target serves one request at a time and is not leaked",
 "At no time do two requests use the same browser target; a target is reused by later requests instead of creating one per request, and at most as many targets exist as there were simultaneous requests. When Do returns, with success or any error or cancellation, its connection to the target is closed and the target is available again (a target that could not be kept in the pool, or whose request's context ended while it was being created, is closed in the browser or available again); a cancelled context makes Do return promptly with an error.",
 ["schedules","fault_sequences"],"every number of concurrent requests, failures and cancellations at every protocol step",
 "Not tested at all without Chrome.",
 ["antcdp/targets.go","antcdp/transport.go","antcdp/tx.go"],[("target pool","antcdp/targets.go"),("deferred release and close","antcdp/transport.go:roundtrip")],None,["connections and targets seen by a fake browser"])
p("C30","Everything documented as goroutine-safe is free of data races",
 "Using one engine, queue, de-duplicator, limiter, matcher, fetcher, page, JSON scraper, HTTP cache, memory or disk store, or CDP client from many goroutines at once performs no unsynchronised conflicting memory accesses and never crashes the process.",
 ["schedules"],"every interleaving of concurrent calls on a shared component",
 "The suite runs without the race detector and almost entirely sequentially.",
 ["engine.go","queue.go","dedupe.go","limiters.go","page.go","json.go","internal/robots/cache.go","internal/scan/scanner.go","internal/selectors/selectors.go","antcache","antcdp"],[("locks, sync.Map, sync.Once","throughout")],None,["race detector reports"])
p("C31","A page is exactly what the server finally answered",
 "Every request of a fetcher is a GET for exactly the URL it was given, with the fetcher's user agent and Accept header and the caller's context and with nothing left over from another request; the URL it was given is not changed. The page it returns has the URL, the headers and the body, byte for byte, of the response finally received, and Document, HTML and queries always show the parse of that body and report a body that broke off as an error. The error of a refused fetch names the status and the URL of the response that was refused.",
 ["inputs","schedules","fault_sequences"],"every URL, user agent, sequence of failures, redirects, response and framing, every way of reading the page, bodies that break off anywhere",
 "Tests fetch one small page from one server and never share a fetcher, never cut a body off and never compare bytes.",
 ["fetcher.go","page.go"],[("fetch, headers, retry loop","fetcher.go"),("lazy parse","page.go:parse")],None,["requests at the client and on the wire","page URL, headers, body and parse"])
p("C32","Crawling through the cache or the browser sees the same site",
 "A crawl whose fetcher goes through the HTTP cache (memory or disk, also a disk store that is opened again; default or aggressive strategy) or through the CDP client visits the same URLs, each once, and gives the scraper the same pages as a crawl that asks the origin directly. While what is stored is fresh, a repeated crawl asks the origin for none of the stored pages, and what is stale or may not be stored is asked for, once, and seen as the origin has it now.",
 ["inputs","schedules","histories"],"every site, every freshness and validators of its pages, every change of the site between crawls, every storage and strategy",
 "No test puts the cache or the CDP client under an engine.",
 ["engine.go","fetcher.go","antcache/httpcache.go","antcache/disk.go","antcdp/transport.go"],[("Client in Fetcher","fetcher.go"),("RoundTrip through cache","antcache/httpcache.go"),("roundtrip through browser","antcdp/transport.go")],None,["requests at the origin","pages given to the scraper"])
p("C33","The test helpers accept what is right and fail what is wrong",
 "anttest.Fetch returns the page that ant.Fetch gives, of a 2xx response, and otherwise, whatever the reason (404 included), ends the test with a fatal failure that names the error; it never returns without a page. TestQueue passes every queue that keeps the contract, however slow and however it is made, and fails a queue that hands out URLs in another order, twice, changed or not at all, accepts URLs or hands them out after Close or with an ended context, reports those with another error than io.EOF and the context's, or fails. BenchmarkQueue enqueues and dequeues as often as it counts, fails when the queue does and closes the queue.",
 ["inputs","fault_sequences","schedules"],"every sequence of responses and failures of a page, every queue that keeps the contract, every queue with one fault that ends in a wrong answer",
 "No test of the suite covers Fetch, and TestQueue is only run on a queue that does right, which a helper that checks nothing passes too.",
 ["anttest/anttest.go","anttest/queue.go"],[("Fatalf on error and on no page","anttest/anttest.go"),("assertions of TestQueue","anttest/queue.go")],None,["verdict of the helper","page returned"])
p("C34","Any queue that keeps the contract will do",
 "With any Queue that is safe for concurrent use and does what the interface says (in whatever order it hands URLs out, however long a call takes, whether it returns the URLs it was given or copies, as soon as Wait may return) a crawl visits exactly the reachable URLs and those the queue already held, each once. The engine enqueues no URL twice, calls Done exactly once for each URL that it dequeued, after the URLs found on its page have been enqueued, closes the queue before Run returns and calls none of its methods afterwards. If Enqueue, Dequeue, Done or Close fails, Run stops and returns that error, or the failure that came before it, also when the queue cannot be closed and keeps Wait and Dequeue blocked, as long as Dequeue ends with its context.",
 ["schedules","fault_sequences","configurations"],"every order, delay and failure of a conforming queue, every site, number of workers and concurrency limit, every failing page and moment of cancellation",
 "The suite only uses the memory queue, whose calls never fail or take time and whose order is fixed.",
 ["engine.go","queue.go"],[("Run: close once, wait, unblock","engine.go:Run"),("Done after enqueue","engine.go:process")],None,["every call of the queue","requests","result of Run"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
