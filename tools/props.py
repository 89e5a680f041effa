#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for titles and statements)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','A crawl that reports success has scraped every reachable page',
 "When a crawl reports success, every URL reachable from the start URLs by following the URLs the scraper returned (through pages that exist, match the configured matcher and are allowed by robots.txt) has been fetched and handed to the scraper, whatever the number of workers, the concurrency limit and the scheduling. A temporary failure on one page never silently removes that page or what it links to from a crawl that reports success. Links of a page that are not valid http URLs are skipped, they neither fail the crawl nor keep other links from being followed.",
 ['schedules','inputs','configurations','fault_sequences'],'all link graphs, worker/concurrency settings, latencies, transient server and connection faults and interleavings of workers, scrapers and queue',
 'engine_test.go crawls one static three-page site with one configuration; lost wake-ups, early queue shutdown and dropped batches depend on the interleaving and on faults',
 ['engine.go','queue.go','dedupe.go','fetcher.go','matchers.go'],[('outstanding-URL accounting; the queue closes when the count reaches zero','queue.go'),('a page is acknowledged only after its links are queued','engine.go')],
 ['Engine.Run result','requests seen by the web server','Scraper.Scrape calls'])
p('C02','No URL is scraped more than once in a crawl',
 "Within one crawl, no URL is handed to the scraper more than once (apart from repeating a scrape that failed with a temporary error), even when it is discovered at the same moment by many pages and with any worker, concurrency and deduper setting. Spellings of one URL that differ only in scheme or host case, default port, dot segments, an empty path, unreserved percent-escapes, query order, an empty query or a fragment count as one URL; URLs naming different paths, hosts or queries do not.",
 ['schedules','inputs','configurations'],'all link graphs with duplicate and variant links, both built-in dedupers, all interleavings',
 'the tests never discover one URL from two pages at the same time, and sample one spelling per normalisation rule in isolation',
 ['engine.go','dedupe.go','internal/normalize/url.go'],[('normalise, then atomically test-and-set in the deduper before queueing','engine.go')],['Scraper.Scrape calls per normalised URL','requests per URL seen by the web server'])
p('C03','A crawl always ends, and nothing it started outlives it',
 "A crawl of a finite site ends within bounded time: by itself when all pages are handled, and promptly once its context is cancelled or expires or any page, limiter, deduper, queue or scraper returns an error, also when the concurrency limit is exhausted at that moment. When the call returns, no fetch, limiter or scraper call it started is still running or will start later, and it has left no goroutine behind.",
 ['schedules','fault_sequences','configurations'],'all cancellation and error instants, worker/concurrency settings and interleavings; slow and stalled servers',
 'one test cancels a crawl at one instant without a concurrency limit; a hang needs the cancellation to land between dequeue, semaphore and acknowledgement',
 ['engine.go','queue.go'],[('every dequeued URL is acknowledged exactly once','engine.go'),('error groups joined before return','engine.go')],['Engine.Run return','scraper/limiter/HTTP activity after return','goroutines left'])
p('C04','A failing page, scraper, limiter or deduper fails the crawl',
 "If any scraper, limiter, deduper, custom queue or non-404 fetch failure occurs in a crawl that nobody cancelled, the crawl returns an error that wraps one of the errors that occurred (it never reports success); pages answering 404 are skipped and are not failures. After the failure the crawl stops promptly instead of continuing through the rest of the site.",
 ['schedules','fault_sequences','configurations'],'all failure kinds at all positions in the crawl, several at once, all interleavings',
 'the tests return one error from the first page; masking by the cancellation of siblings, by other workers or by queue shutdown is schedule dependent',
 ['engine.go','fetcher.go','queue.go'],[('first error cancels the group and is returned by Run','engine.go')],['Engine.Run error'])
p('C05','The concurrency limit is never exceeded and never leaks',
 "With a concurrency limit of n, at no instant are more than n URLs being processed (fetched, limited or scraped) by the crawl, however many workers are configured, and every slot is given back when its URL is finished, also after an error or a 404. With work available and slots free, processing is not reduced below what the limit allows.",
 ['schedules','configurations','fault_sequences'],'all worker and concurrency settings, interleavings, page failures and 404s',
 'no test sets a concurrency limit',
 ['engine.go'],[('weighted semaphore around each processed URL','engine.go')],['limiter entry to scraper exit, per URL'])
p('C06','robots.txt exclusions are always honoured',
 "Unless the engine is configured as impolite, no URL whose path and query are disallowed for the crawler's user agent (ant.UserAgent) by its host's robots.txt is ever requested by the engine or scraped, whatever spelling a link or a rule uses for it (redirects that the HTTP client follows are the client's), and each host's robots.txt is obtained before any other request to that host. Allowed URLs are not suppressed, a host without robots.txt (4xx) allows everything, rules of one host are never applied to another, and when robots.txt cannot be obtained (network failure or a body that breaks off) the crawl fails instead of requesting pages unchecked; the rules are kept and re-fetched once they are older than an hour.",
 ['inputs','schedules','fault_sequences','configurations'],'robots.txt rule sets, hosts, link spellings, robots.txt faults and latencies, interleavings, crawl durations beyond the caching age',
 'cache_test.go checks fixed rules on a healthy server, one request at a time; the engine has no test with a disallowing robots.txt',
 ['engine.go','internal/robots/cache.go','internal/normalize/url.go'],[('per-host rule lookup before each fetch','engine.go'),('per-host LRU with age','internal/robots/cache.go')],['requests seen by the web servers'])
p('C07','A host\'s crawl-delay spaces the requests sent to it',
 "When a host's robots.txt sets a crawl delay of d for the crawler, the first requests of any two pages a polite engine fetches from that host are at least d apart (repeating a failed request is the fetcher's backoff's concern), however many workers run and however the links are discovered; hosts without a delay are not slowed by it. A cancelled crawl does not wait for the delay.",
 ['schedules','configurations'],'all discovery patterns, worker settings, delays and interleavings; several hosts; cancellations',
 'cache_test.go measures one isolated wait; spacing between concurrent requests is never observed',
 ['engine.go','internal/robots/cache.go'],[('wait before each fetch for the host\'s crawl delay','internal/robots/cache.go')],['arrival times of page requests at each host (simulated clock)'])
p('C08','Only matching URLs are crawled, and each passes the limiter first',
 "No URL the configured matcher rejects is ever queued, limited, fetched or scraped (start URLs included, redirects that the HTTP client follows aside), and only http(s) start URLs are accepted. Each page the engine fetches passed the configured limiter exactly once before its first request, and while the limiter blocks or after it fails for a URL that URL is not requested.",
 ['schedules','inputs','configurations'],'matchers of every built-in kind, link graphs, limiter delays and failures, interleavings',
 'the engine tests use no limiter and a matcher on a static site only',
 ['engine.go','matchers.go','limiters.go'],[('match before queueing, limit before fetching','engine.go')],['Limiter.Limit calls, requests at the server, Scraper.Scrape calls'])
p('C09','Built-in rate limiters hold their rate over every time window',
 "A built-in limiter of n per second, shared by any number of goroutines or attached to an engine, lets at most n + n*t matching requests pass in any window of t seconds, applies to exactly the URLs its hostname, pattern or regular expression describes (host and path, without scheme and query) and never delays the others. Waiting requests proceed at the configured rate, and a wait ends promptly with an error when its context is cancelled.",
 ['schedules','inputs','configurations'],'rates, arrival patterns, URL mixes, cancellations, interleavings, engine and stand-alone use',
 'limiters_test.go is empty',
 ['limiters.go','engine.go','internal/normalize/url.go'],[('token bucket per limiter','limiters.go')],['simulated time at which each Limit call returns; page request arrival times'])
p('C10','Fetch retries temporary failures, with backoff, and only those',
 "A fetch retries exactly when the attempt failed temporarily (status 429, 503 or 504, or a temporary network error), makes at most the configured number of attempts, waits between attempts at least the minimum backoff, never less than before the previous attempt and never more than the maximum, and returns the first successful page with that response's URL, headers and body. A 404 gives no page and no error, any other failure is returned without a retry, exhausting the attempts returns an error wrapping the last failure, and cancelling the context ends a fetch promptly, also during a backoff.",
 ['fault_sequences','schedules','configurations'],'all sequences of statuses, network errors, timeouts, redirects and truncations across attempts; backoff settings; cancellation instants',
 'fetcher_test.go uses a healthy local server with two fixed statuses and measures no backoff time or network errors',
 ['fetcher.go'],[('attempt loop with quadratic capped backoff','fetcher.go')],['requests at the server with simulated times','Fetch result'])
p('C11','Every HTTP response body is drained and closed exactly when done',
 "Every response obtained from the HTTP client by the fetcher, engine or cache, on every path (retry, 404, error status, client error with a response, cancellation, a scraper that returns early, fails or never touches the page), is read to its end (or to its read error) and closed, so no connection is leaked. A page's body is never closed before the scraper that received the page has returned, unless the page was parsed.",
 ['fault_sequences','schedules','configurations'],'all response/fault sequences, retry outcomes, scraper behaviours and cancellation instants',
 'no test observes bodies or connections; leaks need particular failure paths',
 ['fetcher.go','engine.go','page.go','antcache/httpcache.go','internal/robots/cache.go'],[('discard on failed attempts, close after scraping','fetcher.go'),('deferred page close','engine.go')],['instrumented response bodies','open connections at the simulated server'])
p('C12','Dedupers return each URL exactly once across concurrent callers',
 "Across any number of concurrent calls to one deduper, each distinct URL is returned to exactly one caller exactly once, in the order it was given (the bloom-filter deduper may additionally withhold URLs as false positives, at a rate consistent with its configured size, but never returns one twice). Concurrent use corrupts no internal state.",
 ['schedules','inputs'],'all batches, overlaps and interleavings of concurrent calls; filter sizes',
 'dedupe_test.go is sequential',
 ['dedupe.go'],[('atomic load-or-store','dedupe.go'),('bloom filter test-and-add','dedupe.go')],['results of Dedupe calls'])
p('C13','The in-memory queue is a linearizable FIFO with close and wait',
 "Concurrent use of the in-memory queue is linearizable to a FIFO queue: every URL of an accepted batch is delivered exactly once, in order, unless the queue is closed first; after close, enqueue and dequeue report end-of-queue and pending URLs are discarded. A blocked dequeue returns when a URL arrives or the queue is closed; waiting returns exactly when every accepted URL has been acknowledged or discarded by close, and never before; a cancelled or expired context never lets URLs be added.",
 ['schedules','histories'],'all concurrent histories of enqueue, dequeue, done, wait and close',
 'queue_test.go only asserts that the type implements the interface',
 ['queue.go','anttest/queue.go'],[('mutex and condition variable around the slice, wait group of outstanding URLs','queue.go')],['call/return history'])
p('C14','The JSON scraper writes whole lines, one per scraped page',
 "With concurrent pages, the JSON scraper's writer receives exactly one complete JSON object line per page scraped successfully, never interleaved, torn or attributed to another page, with the page's own data. If the writer fails, the scrape of that page fails with an error wrapping the writer's error and the page is not reported as scraped, other pages are not affected unless an incomplete line was left, and when the writer's error is temporary and left nothing behind the crawl tries again; a page whose body could not be read in full yields an error and no line.",
 ['schedules','fault_sequences','inputs'],'all interleavings of concurrent scrapes, slow, short and failing writers, truncated bodies',
 'json_test.go scrapes one page at a time into a buffer',
 ['json.go','page.go'],[('mutex around the encoder','json.go')],['bytes received by the writer','Scrape results'])
p('C15','A page is never built from a partial body',
 "If the body of a page breaks off or fails while it is read, every operation on the page that can report an error (document, HTML, scan, next URLs) reports that error, every time, and none returns data from the partial body. Using one page from several goroutines gives each the same result as using it alone, with the body read once.",
 ['fault_sequences','schedules'],'all truncation and error positions, read chunkings, orders of page calls and concurrent callers',
 'page_test.go uses complete in-memory bodies from one goroutine',
 ['page.go'],[('parse once, remember the error','page.go')],['results of page methods'])
p('C16','Temporary scraper and deduper errors are retried, not fatal',
 "When a scraper or deduper returns an error that declares itself temporary, the engine retries the call instead of failing the crawl, so a crawl whose every failure is temporary and stops before the fetcher's maximum number of attempts is reached succeeds with every page scraped successfully. An error that is not temporary is not retried, and an error that stays temporary forever does not make the crawl run forever.",
 ['fault_sequences','schedules'],'temporary failure counts and positions, interleavings',
 'no test returns a temporary error from a scraper or deduper',
 ['engine.go','ant.go','dedupe.go'],[('documented on the Scraper and Deduper interfaces','ant.go')],['Engine.Run result, Scraper.Scrape calls'])
p('C17','A URL is acknowledged exactly once, and only when handled: a resumed crawl loses nothing',
 "The engine acknowledges (Queue.Done) every URL it takes from the queue exactly once before Run returns, however the crawl ends, and never a URL it has not taken. While a crawl has neither failed nor been canceled, a URL is acknowledged only after its page was scraped (or found not to exist) and the URLs found on it were queued. So at every moment each page still to be scraped is queued, in progress, or linked from such a page, and a crawl on a queue that survives crashes of the process, resumed after any number of crashes at any points with what was in progress delivered again, has scraped every reachable page when Run reports success.",
 ['crash_points','schedules','histories'],'crash points, interleavings of workers, link graphs, redelivery orders, temporary failures',
 'no test uses a queue other than the in-memory one, none interrupts a crawl',
 ['engine.go','queue.go'],[('process acknowledges after enqueueing','engine.go')],['Queue.Enqueue, Dequeue, Done calls','pages scraped over all lives of the process'])

p('C20','The cache returns complete, unmixed bodies or nothing',
 "Every body served from the cache is byte for byte a complete body the origin sent for the same request method and URL, with that response's status and headers, and Response.Request names the URL it came from when the client followed redirects. A response whose body was not read completely and without error (truncated connection, read error, early close) is never stored, nothing is stored before the body is closed, and reading through the cache delivers exactly what the origin sent.",
 ['fault_sequences','schedules','histories'],'all origin body framings, truncation points, reader behaviours (partial reads, early and double close), concurrent requests to the same and different URLs',
 'httpcache_test.go reads complete bodies, one request at a time',
 ['antcache/httpcache.go','antcache/cachereader.go'],[('tee reader that stores on close','antcache/cachereader.go')],['bodies returned by Do compared with the origin log'])
p('C21','A standard-policy cache hit is always fresh, and fresh entries do hit',
 "With the standard policy a response is served without contacting the origin only if its age (RFC 7234: the time since its date or, when larger, since it was received plus its Age header), plus any minimum freshness the request asks for and minus any staleness it tolerates, is below its declared lifetime (max-age, else expiry minus date). A request max-age can only shorten that lifetime, a no-cache directive in request or stored response and a request header that differs from the one the stored response's Vary was selected by always force contact, and tolerated staleness never covers must-revalidate; only a request that insists on a cached answer (only-if-cached) may get an older one. A stored response that satisfies all this is served without contacting the origin, and exactly the complete responses with a cacheable status, a date and an explicit positive lifetime are stored.",
 ['histories','inputs','fault_sequences'],'all request/response directive combinations, clock advances and jumps, histories of requests',
 'rfc7234_test.go evaluates isolated decisions against the real clock',
 ['antcache/rfc7234.go','antcache/httpcache.go','antcache/utils.go'],[('freshness computation','antcache/rfc7234.go')],['origin requests per cache request under the simulated clock'])
p('C22','Uncacheable requests and responses bypass the cache entirely',
 "A request that is not GET or HEAD, carries a range, content range or authorization header or forbids storing, always goes to the origin, its response is never stored and it is never answered from storage; under the standard policy a response forbidding storage is never stored, wherever in its cache-control headers the directive appears. Requests with different methods or URLs never share an entry, even when the hashes that key the storage collide.",
 ['histories','inputs','schedules'],'all request/response header mixes and histories, concurrent requests',
 'httpcache_test.go and rfc7234_test.go check each rule once in isolation',
 ['antcache/rfc7234.go','antcache/utils.go','antcache/httpcache.go'],[('cacheability tests before lookup and before store','antcache/rfc7234.go')],['storage operations and origin requests'])
p('C23','Revalidation returns the right complete response',
 "A stale entry is validated with the stored validators: on 304 the caller gets the stored body complete, with the refreshed headers, and the refreshed entry, once read and closed, is what later requests see; on another answer, or a 304 to validators of the caller's own, the caller gets exactly that answer, never a mixture; on a server error the caller gets the server's error response, or the complete stored response if its request tolerates stale-if-error. The caller's own request is left as it was. Every response not handed to the caller is drained and closed, and a network failure while validating is reported as an error and leaves the stored entry usable.",
 ['histories','fault_sequences','schedules'],'all validation outcomes, body sizes, clock advances, concurrent validations, origin faults during validation',
 'httpcache_test.go checks only status codes of sequential validations and never reads a validated body',
 ['antcache/httpcache.go'],[('conditional request, header merge, re-store','antcache/httpcache.go')],['responses returned by Do, origin log, storage contents'])
p('C24','Storage and origin failures surface and never corrupt',
 "A storage load failure or an unreadable stored entry makes the request fail with an error wrapping the cause (never a wrong response), a store failure is reported when the body is closed, and an origin failure is returned as is and stores nothing. After failures stop, requests behave as if they had never happened, and every origin body is released.",
 ['fault_sequences','histories','schedules'],'all positions of load, store and origin faults in request histories; corrupted stored bytes; cancellations',
 'one test injects one load error and one store error',
 ['antcache/httpcache.go','antcache/cachereader.go'],[('error wrapping on load, on close and from the client','antcache/httpcache.go')],['Do and Close results, storage operations'])
p('C26','The aggressive policy serves by age alone and yields to request directives',
 "With the aggressive policy every complete GET or HEAD response with a cacheable status and a date is stored and served without contacting the origin while younger (by the age RFC 7234 defines) than the configured age (24 hours by default), whatever the response's own cache directives, and never once it is older. A request that says no-cache or no-store always reaches the origin, and a fresh answer replaces the old one.",
 ['histories','inputs'],'request/response directives, ages, clock advances, histories',
 'aggressive_test.go evaluates isolated decisions',
 ['antcache/aggressive.go','antcache/httpcache.go'],[('age test on the date header','antcache/aggressive.go')],['origin requests under the simulated clock'])

p('C30','An acknowledged disk store survives any crash',
 "Once storing a value on disk has returned success, a crash at any later point followed by reopening and waiting for warm-up yields that value, or one stored later under the same key, unless it was expired or evicted. A store interrupted by a crash leaves either the previous or the new complete value, never a torn, empty or foreign one, and reopening never fails or serves leftovers of interrupted stores.",
 ['crash_points','schedules','fault_sequences','histories'],'crashes at every file-system operation, any subset of unsynced data and directory updates lost or torn, concurrent stores, repeated crashes, with and without compression',
 'disk_test.go never crashes and runs on a real file system that loses nothing',
 ['antcache/disk.go'],[('temporary file, fsync, rename, directory fsync','antcache/disk.go')],['values loaded after recovery'])
p('C31','Concurrent disk operations are atomic per key',
 "Concurrent stores, loads and sweeps behave, per key, like an atomic register whose value may also be dropped by a sweep: a load returns nothing or exactly one value some store wrote, never a torn or another key's value, and never goes back to an older value after a newer one was seen. A failed store (disk full, write, sync or rename error) reports an error and leaves the previous value readable unless the failure struck after the new value was in place; without injected faults no operation fails.",
 ['schedules','fault_sequences','histories'],'all interleavings of store, load, sweep, warm-up and close; write, sync, rename and read faults',
 'disk_test.go calls one operation at a time',
 ['antcache/disk.go'],[('in-memory index guarded by a lock, rename into place','antcache/disk.go')],['history of Load and Store results'])
p('C32','Expiry and size limits remove exactly the right entries',
 "After a sweep no entry older than the maximum age is served or left on disk, and the total size of entries is within the maximum size, dropping the oldest entries first and no more than that takes. Entries younger than the age are kept while the total fits, the limits apply equally to entries found at start-up, and sweeping happens periodically for as long as the store is open.",
 ['histories','inputs','schedules','fault_sequences'],'store histories, sizes, ages, clock advances and jumps, reopenings, concurrent stores, removal errors',
 'disk_test.go sweeps two or three files once',
 ['antcache/disk.go'],[('periodic sweep by age and size','antcache/disk.go')],['Load results and directory contents after sweeps'])
p('C33','The disk store opens, warms up and closes under any I/O error',
 "Opening, waiting for warm-up and closing always finish within bounded time, whatever directory or file errors occur and whenever cancellation comes; entries whose files can be read are found by warm-up even next to foreign or unreadable files. Closing stops all background work and releases every file descriptor, also descriptors and temporary files of failed stores.",
 ['fault_sequences','schedules','crash_points'],'I/O errors at every directory and file operation, foreign files, close during warm-up or sweep',
 'disk_test.go warms up healthy directories',
 ['antcache/disk.go'],[('warm-up and sweeper goroutines joined by close','antcache/disk.go')],['return of Open/Wait/Close, goroutines, descriptors and files left'])

p('C40','A browser response belongs to the request that asked for it',
 "With any number of concurrent requests through the browser client, each successful response carries the status, headers, cookies and rendered body of the document navigated to for its own request and the URL it was redirected to, never those of another request, of a subresource, of a frame, or of an earlier navigation in the same tab. The request's headers are in effect before its navigation starts.",
 ['schedules','fault_sequences','inputs'],'event orders, redirects, subresources, frames, late events of earlier navigations, tab reuse, concurrent requests',
 'client_test.go needs a real Chrome, is skipped without one, and loads single pages',
 ['antcdp/tx.go','antcdp/transport.go'],[('event matching after navigation','antcdp/tx.go')],['responses versus the scripted browser'])
p('C41','A browser tab serves one request at a time and is reused',
 "A tab is never used by two requests at once, whatever the number of concurrent requests. Tabs are reused by later requests, so a sequence of requests does not create ever more tabs, and tabs that are not kept for reuse are closed in the browser.",
 ['schedules','fault_sequences'],'concurrent requests, failures, pool overflow, interleavings',
 'no test makes concurrent browser requests',
 ['antcdp/targets.go','antcdp/transport.go'],[('channel-based pool','antcdp/targets.go')],['tab sessions and tab creations at the scripted browser'])
p('C42','A browser request always ends, with an error when the browser fails',
 "Every request through the browser client returns within bounded time: promptly with an error once its context ends or the browser disconnects, refuses the navigation or answers a command with an error, and with a response once the document has loaded, also when subresources or frames never finish. It never returns a nil response with a nil error and never a partial one.",
 ['fault_sequences','schedules'],'browser disconnects, stalls, protocol errors and slow subresources at every protocol step; cancellations',
 'client_test.go is skipped without Chrome and injects no faults',
 ['antcdp/tx.go','antcdp/transport.go','antcdp/targets.go'],[('context-aware waits','antcdp/tx.go')],['Do results and simulated duration'])
p('C43','Browser connections are released after every request',
 "After a browser request returns, on every path (success, protocol error, failed setup, cancellation, disconnect), its debugger connection is closed and no goroutine it started remains. A failed request does not keep a broken tab from being replaced, so requests succeed again once the browser is healthy.",
 ['fault_sequences','schedules'],'failures at every protocol step, cancellations, restarts of the browser',
 'client_test.go is skipped without Chrome and never fails a step',
 ['antcdp/transport.go','antcdp/tx.go','antcdp/targets.go'],[('deferred transaction close','antcdp/transport.go')],['open connections at the scripted browser, goroutines left'])
p('R01','Components documented as goroutine-safe have no data races',
 "Concurrent use of the engine, fetcher, dedupers, in-memory queue, limiters, matchers, JSON scraper, HTTP cache, its in-memory and disk storages and the browser client contains no data race and does not panic, including while a crawl is cancelled or a disk store is swept or closed.",
 ['schedules'],'all interleavings of concurrent calls',
 'the tests rarely call anything concurrently and the schedules they see are those of one machine',
 ['engine.go','dedupe.go','queue.go','json.go','fetcher.go','limiters.go','antcache/httpcache.go','antcache/cachereader.go','antcache/disk.go','antcache/memstore.go','antcdp/client.go','antcdp/targets.go','internal/scan/scanner.go','internal/selectors/selectors.go','internal/robots/cache.go'],[('locks, atomic maps, channels','(each component)')],['race reports and panics under simulated schedules'])
p('N01','Scanning HTML into Go values follows the documented rules',
 "Scanning a parsed page into a struct fills each tagged field from the first (or, for slices, every) matching node in document order, converted to the field's type.",
 ['inputs','programs'],'all documents and struct types','scanner_test.go samples documents and types',
 ['internal/scan/scanner.go','internal/scan/struct.go','internal/scan/slice.go','internal/scan/scan.go','list.go'],[('reflection-driven scanner','internal/scan/scanner.go')],['List.Scan, Page.Scan'])
p('N02','URL normalisation is idempotent and preserves the resource',
 "Normalising a URL twice gives the same as normalising it once, equivalent spellings normalise to the same URL, and the result still names the same resource.",
 ['inputs'],'all URLs','url_test.go samples one URL per rule',
 ['internal/normalize/url.go'],[('rewrites of each URL part','internal/normalize/url.go')],['internal/normalize (through Engine)'])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        f.write(json.dumps(d)+'\n')
print(len(P))
