From 2774a6ed008bce4bf2560289514b40144cd187ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 01/47] fix: end canceled and failed crawls, wait for
 everything started and report the error

A worker that dequeued a URL and failed to acquire the semaphore never
acknowledged it, so Run waited for ever; a worker that returned left the
goroutines of its pages running; the failure of one worker's page closed
the queue so that the others could report success; a canceled crawl
could report success or io.EOF.
---
 engine.go | 63 +++++++++++++++++++++++++++++++++++++++----------------
 queue.go  |  8 +++----
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/engine.go b/engine.go
index eda6204..b8dc256 100644
--- a/engine.go
+++ b/engine.go
@@ -134,34 +134,51 @@ func NewEngine(c EngineConfig) (*Engine, error) {
 }
 
 // Run runs the engine with the given start urls.
+//
+// When Run returns, all goroutines it started have returned.
 func (eng *Engine) Run(ctx context.Context, urls ...string) error {
-	var eg, subctx = errgroup.WithContext(ctx)
-
 	// Enqueue initial URLs.
 	if err := eng.Enqueue(ctx, urls...); err != nil {
 		return fmt.Errorf("ant: enqueue - %w", err)
 	}
 
+	subctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
+	eg, subctx := errgroup.WithContext(subctx)
+	closed := make(chan struct{})
+
+	// Close the queue as soon as the crawl fails or is canceled
+	// so that blocked workers return.
+	go func() {
+		defer close(closed)
+		<-subctx.Done()
+		eng.queue.Close(ctx)
+	}()
+
 	// Spawn workers.
 	for i := 0; i < eng.workers; i++ {
 		eg.Go(func() error {
-			defer eng.queue.Close(ctx)
-			return eng.run(subctx)
+			return eng.run(subctx, eg)
 		})
 	}
 
 	// Wait until all URLs are handled.
 	eng.queue.Wait()
-	if err := eng.queue.Close(ctx); err != nil {
-		return err
+	err := eng.queue.Close(ctx)
+	if err != nil {
+		cancel()
 	}
 
 	// Wait until all workers shutdown.
-	if err := eg.Wait(); err != nil {
-		return fmt.Errorf("ant: run - %w", err)
+	werr := eg.Wait()
+	<-closed
+
+	if err == nil && werr != nil {
+		err = fmt.Errorf("ant: run - %w", werr)
 	}
 
-	return nil
+	return err
 }
 
 // Enqueue enqueues the given set of URLs.
@@ -213,35 +230,45 @@ func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
 // Run runs a single crawl worker.
 //
 // The worker is in charge of fetching a url from
-// the queue, creating a page and then calling the scraper.
-func (eng *Engine) run(ctx context.Context) error {
-	eg, subctx := errgroup.WithContext(ctx)
+// the queue and starting a goroutine in the given group
+// that processes it.
+func (eng *Engine) run(ctx context.Context, eg *errgroup.Group) error {
 	for {
 		url, err := eng.queue.Dequeue(ctx)
 
 		if errors.Is(err, io.EOF) ||
 			errors.Is(err, context.Canceled) {
-			return eg.Wait()
+			return ctx.Err()
 		}
 		if err != nil {
 			return err
 		}
 
-		if eng.sema != nil {
-			if err := eng.sema.Acquire(ctx, 1); err != nil {
-				return err
-			}
+		if err := eng.acquire(ctx); err != nil {
+			eng.queue.Done(ctx, url)
+			return err
 		}
 
 		eg.Go(func() error {
 			if eng.sema != nil {
 				defer eng.sema.Release(1)
 			}
-			return eng.process(subctx, url)
+			return eng.process(ctx, url)
 		})
 	}
 }
 
+// Acquire blocks until another URL may be processed.
+func (eng *Engine) acquire(ctx context.Context) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+	if eng.sema != nil {
+		return eng.sema.Acquire(ctx, 1)
+	}
+	return nil
+}
+
 // Process processes a single url.
 func (eng *Engine) process(ctx context.Context, url *URL) error {
 	defer eng.queue.Done(ctx, url)
diff --git a/queue.go b/queue.go
index 01d3a91..ea13dd8 100644
--- a/queue.go
+++ b/queue.go
@@ -75,14 +75,14 @@ func (mq *memoryQueue) Enqueue(ctx context.Context, urls URLs) error {
 	mq.cond.L.Lock()
 	defer mq.cond.L.Unlock()
 
-	if mq.stopped {
-		return io.EOF
-	}
-
 	if ctx.Err() != nil {
 		return ctx.Err()
 	}
 
+	if mq.stopped {
+		return io.EOF
+	}
+
 	mq.pending = append(mq.pending, urls...)
 	mq.wg.Add(len(urls))
 	mq.cond.Broadcast()
-- 
2.43.0


From 1dd3ed8bd50b6ffe62e232b6196ceb36791ce930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 02/47] fix: retry wrapped temporary errors

Errors of the client are wrapped, so that temporary network errors were
never recognized as temporary.
---
 fetcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index fc56b88..863f01c 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -2,6 +2,7 @@ package ant
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -287,6 +288,6 @@ func (f *Fetcher) maxBackoff() time.Duration {
 
 // IsTemporary returns true if the error is temporary.
 func isTemporary(err error) bool {
-	t, ok := err.(interface{ Temporary() bool })
-	return ok && t.Temporary()
+	var t interface{ Temporary() bool }
+	return errors.As(err, &t) && t.Temporary()
 }
-- 
2.43.0


From 92d1c1f499815d3e3fe77002dc86c3cf4153b4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 03/47] fix: make the bloom filter deduper safe for concurrent
 use

---
 dedupe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedupe.go b/dedupe.go
index 738bcb4..ed463ec 100644
--- a/dedupe.go
+++ b/dedupe.go
@@ -57,6 +57,7 @@ func (d *deduper) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 
 // Dedupebf implements a bloom filter deduper.
 type dedupebf struct {
+	mu     sync.Mutex
 	filter *bloom.BloomFilter
 }
 
@@ -77,6 +78,9 @@ func DedupeBF(k, m uint) Deduper {
 func (d *dedupebf) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 	var ret = make(URLs, 0, len(urls))
 
+	d.mu.Lock()
+	defer d.mu.Unlock()
+
 	for _, u := range urls {
 		v := []byte(u.String())
 		if !d.filter.Test(v) {
-- 
2.43.0


From 5d0d50cd8dda6606ad7b224d644c6cae9ff91fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 04/47] fix: report parse errors from Page.Next

---
 page.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/page.go b/page.go
index 3974753..1749a44 100644
--- a/page.go
+++ b/page.go
@@ -100,7 +100,12 @@ func (p *Page) URLs() URLs {
 }
 
 // Next all URLs matching the given selector.
+//
+// The method returns an error if the document could not be parsed.
 func (p *Page) Next(selector string) (URLs, error) {
+	if err := p.parse(); err != nil {
+		return nil, err
+	}
 	return p.resolve(selector), nil
 }
 
-- 
2.43.0


From fae7c95de8e613f685b9981fe5184c3c648bd3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 05/47] fix: retry temporary scraper and deduper errors

The interfaces document that temporary errors are retried, they failed
the crawl instead.
---
 engine.go | 64 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/engine.go b/engine.go
index b8dc256..12b3553 100644
--- a/engine.go
+++ b/engine.go
@@ -307,35 +307,65 @@ func (eng *Engine) process(ctx context.Context, url *URL) error {
 }
 
 // Scrape scrapes the given URL and returns the next URLs.
+//
+// The page is fetched and scraped again when the scraper
+// returns a temporary error.
 func (eng *Engine) scrape(ctx context.Context, url *URL) (URLs, error) {
-	page, err := eng.fetcher.Fetch(ctx, url)
+	for attempt := 1; ; attempt++ {
+		page, err := eng.fetcher.Fetch(ctx, url)
 
-	if err != nil {
-		return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
-	}
+		if err != nil {
+			return nil, fmt.Errorf("ant: fetch %q - %w", url, err)
+		}
 
-	if page == nil {
-		return nil, nil
-	}
+		if page == nil {
+			return nil, nil
+		}
 
-	defer page.close()
+		urls, err := eng.scraper.Scrape(ctx, page)
+		page.close()
 
-	urls, err := eng.scraper.Scrape(ctx, page)
-	if err != nil {
-		return nil, fmt.Errorf("ant: scrape %q - %w", url, err)
-	}
+		if err == nil {
+			return urls, nil
+		}
 
-	return urls, nil
+		err = fmt.Errorf("ant: scrape %q - %w", url, err)
+		if err := eng.retry(ctx, attempt, err); err != nil {
+			return nil, err
+		}
+	}
 }
 
 // Dedupe de-duplicates the given slice of URLs.
+//
+// The deduper is called again when it returns a temporary
+// error.
 func (eng *Engine) dedupe(ctx context.Context, urls URLs) (URLs, error) {
-	deduped, err := eng.deduper.Dedupe(ctx, urls)
-	if err != nil {
-		return nil, fmt.Errorf("ant: dedupe - %w", err)
+	for attempt := 1; ; attempt++ {
+		deduped, err := eng.deduper.Dedupe(ctx, urls)
+
+		if err == nil {
+			return deduped, nil
+		}
+
+		err = fmt.Errorf("ant: dedupe - %w", err)
+		if err := eng.retry(ctx, attempt, err); err != nil {
+			return nil, err
+		}
 	}
+}
 
-	return deduped, nil
+// Retry waits before another attempt is made.
+//
+// The method returns an error if no other attempt should be
+// made, because the given error is not temporary, because the
+// fetcher's max attempts are reached or because the context is
+// canceled.
+func (eng *Engine) retry(ctx context.Context, attempt int, err error) error {
+	if !isTemporary(err) || attempt >= eng.fetcher.maxAttempts() {
+		return err
+	}
+	return eng.fetcher.backoff(ctx, attempt)
 }
 
 // Limit runs all configured limiters.
-- 
2.43.0


From fa6bb364ed79b5568b7de9f921462c3b6edb2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 06/47] fix: space concurrent requests by the crawl delay

All goroutines waited for the delay at the same time and then sent their
requests at once.
---
 internal/robots/cache.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index a379cd0..c2e7d40 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"net/http"
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/segmentio/agecache"
@@ -65,6 +66,8 @@ func (h *Host) test(path, ua string) bool {
 type Cache struct {
 	lru    *agecache.Cache
 	client *http.Client
+	mu     sync.Mutex
+	slots  map[string]time.Time
 }
 
 // NewCache returns a new cache with the client and cache capacity.
@@ -75,7 +78,11 @@ func NewCache(c *http.Client, capacity int) *Cache {
 		ExpirationType:     agecache.PassiveExpration,
 		ExpirationInterval: 1 * time.Minute,
 	})
-	return &Cache{lru: lru, client: c}
+	return &Cache{
+		lru:    lru,
+		client: c,
+		slots:  make(map[string]time.Time),
+	}
 }
 
 // Allowed returns true if the request is allowed.
@@ -110,7 +117,8 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 // Wait blocks until the given request can be sent.
 //
 // Some robots.txt define a crawl delay for all or some of the useragents.
-// The method will block until the request can go through.
+// The method will block until the request can go through, concurrent
+// calls are spaced by the delay.
 func (c *Cache) Wait(ctx context.Context, req Request) error {
 	var ua = req.userAgent()
 
@@ -121,7 +129,7 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 
 	if g, ok := host.find(ua); ok {
 		if d := g.CrawlDelay; d > 0 {
-			t := time.NewTimer(d)
+			t := time.NewTimer(time.Until(c.reserve(req.URL.Host, d)))
 			defer t.Stop()
 			select {
 			case <-ctx.Done():
@@ -135,6 +143,21 @@ func (c *Cache) Wait(ctx context.Context, req Request) error {
 	return nil
 }
 
+// Reserve returns the time at which the next request can be sent to
+// the given host, requests are at least the given delay apart.
+func (c *Cache) reserve(host string, delay time.Duration) time.Time {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	slot := time.Now().Add(delay)
+	if next := c.slots[host].Add(delay); next.After(slot) {
+		slot = next
+	}
+
+	c.slots[host] = slot
+	return slot
+}
+
 // Lookup returns a host from url.
 //
 // Note that there's a logical race, the method may send multiple requests
-- 
2.43.0


From d7a3685ac85f803ee96d5689492d3a38aecb1197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 07/47] fix: drain robots.txt responses

---
 internal/robots/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index c2e7d40..e3fbba1 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -7,6 +7,7 @@ package robots
 import (
 	"context"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
 	"sync"
@@ -178,6 +179,7 @@ func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
 		return nil, fmt.Errorf("robots: GET %q - %w", rawurl, err)
 	}
 	defer resp.Body.Close()
+	defer io.Copy(io.Discard, resp.Body)
 
 	if resp.StatusCode >= 400 {
 		s := &Host{}
-- 
2.43.0


From 66f1dca0ad3c757792304bc896a62c2b3df8d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 08/47] fix: keep the leading slash, the trailing slash and
 escaped characters when normalizing paths

path.Join dropped the leading and trailing slash, and the decoded path
made different URLs equal (%2F) while equal spellings (%2a, %7e) stayed
different, so that URLs were visited twice or not at all.
---
 internal/normalize/url.go | 87 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 76 insertions(+), 11 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index aef861b..c3e93ef 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -5,8 +5,8 @@ package normalize
 
 import (
 	"net/url"
-	"path"
 	"sort"
+	"strconv"
 	"strings"
 )
 
@@ -34,10 +34,11 @@ func RawURL(rawurl string) (string, error) {
 func URL(u *url.URL) *url.URL {
 	u.Scheme = strings.ToLower(u.Scheme)
 	u.Host = hostname(u)
-	u.Path = pathname(u)
+	u.Path, u.RawPath = pathname(u)
 	u.RawQuery = query(u.RawQuery)
 	u.ForceQuery = false
 	u.Fragment = ""
+	u.RawFragment = ""
 	return u
 }
 
@@ -45,7 +46,7 @@ func URL(u *url.URL) *url.URL {
 func hostname(u *url.URL) string {
 	var host = strings.ToLower(u.Host)
 
-	if j := strings.IndexByte(host, ':'); j != -1 {
+	if j := strings.LastIndexByte(host, ':'); j != -1 {
 		switch port := host[j+1:]; {
 		case u.Scheme == "http" && port == "80":
 			return host[:j]
@@ -58,20 +59,84 @@ func hostname(u *url.URL) string {
 }
 
 // Pathname normalizes the pathname.
-func pathname(u *url.URL) string {
-	switch u.Path {
-	case "", "/":
-		return "/"
-	default:
-		parts := strings.Split(u.Path, "/")
-		return path.Join(parts...)
+//
+// The method returns the path and its encoding, an escaped
+// character that is not unreserved (`%2F`) is not the same as
+// the character, so it is kept escaped.
+func pathname(u *url.URL) (string, string) {
+	raw := dots(triplets(u.EscapedPath()))
+
+	path, err := url.PathUnescape(raw)
+	if err != nil {
+		return u.Path, u.RawPath
+	}
+
+	return path, raw
+}
+
+// Dots removes all dot segments from the given path, the
+// returned path always begins with a slash.
+func dots(path string) string {
+	parts := strings.Split(strings.TrimPrefix(path, "/"), "/")
+	ret := make([]string, 0, len(parts))
+
+	for i, part := range parts {
+		last := i == len(parts)-1
+		switch part {
+		case ".":
+		case "..":
+			if len(ret) > 0 {
+				ret = ret[:len(ret)-1]
+			}
+		default:
+			ret = append(ret, part)
+			continue
+		}
+		if last {
+			ret = append(ret, "")
+		}
 	}
+
+	return "/" + strings.Join(ret, "/")
+}
+
+// Triplets normalizes all percent-encoded triplets.
+//
+// Unreserved characters are decoded, all other triplets
+// are uppercased.
+func triplets(s string) string {
+	var b strings.Builder
+
+	for i := 0; i < len(s); i++ {
+		if s[i] == '%' && i+2 < len(s) {
+			if c, err := strconv.ParseUint(s[i+1:i+3], 16, 8); err == nil {
+				if unreserved(byte(c)) {
+					b.WriteByte(byte(c))
+				} else {
+					b.WriteString(strings.ToUpper(s[i : i+3]))
+				}
+				i += 2
+				continue
+			}
+		}
+		b.WriteByte(s[i])
+	}
+
+	return b.String()
+}
+
+// Unreserved returns true if the character is unreserved.
+func unreserved(c byte) bool {
+	return 'a' <= c && c <= 'z' ||
+		'A' <= c && c <= 'Z' ||
+		'0' <= c && c <= '9' ||
+		c == '-' || c == '.' || c == '_' || c == '~'
 }
 
 // Query sorts the given query.
 func query(query string) string {
 	if query != "" {
-		parts := strings.Split(query, "&")
+		parts := strings.Split(triplets(query), "&")
 		sort.Strings(parts)
 		return strings.Join(parts, "&")
 	}
-- 
2.43.0


From 451a710df11ce7a5c59b381461dd539d4566d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 09/47] fix: memory queue panics when URLs are enqueued while
 Wait returns

---
 queue.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/queue.go b/queue.go
index ea13dd8..632947f 100644
--- a/queue.go
+++ b/queue.go
@@ -53,7 +53,7 @@ type memoryQueue struct {
 	pending URLs
 	cond    *sync.Cond
 	stopped bool
-	wg      *sync.WaitGroup
+	active  int
 }
 
 // MemoryQueue returns a new memory queue.
@@ -62,7 +62,7 @@ func MemoryQueue(size int) Queue {
 		pending: make(URLs, 0, size),
 		cond:    sync.NewCond(&sync.RWMutex{}),
 		stopped: false,
-		wg:      &sync.WaitGroup{},
+		active:  0,
 	}
 }
 
@@ -84,7 +84,7 @@ func (mq *memoryQueue) Enqueue(ctx context.Context, urls URLs) error {
 	}
 
 	mq.pending = append(mq.pending, urls...)
-	mq.wg.Add(len(urls))
+	mq.active += len(urls)
 	mq.cond.Broadcast()
 
 	return nil
@@ -113,13 +113,23 @@ func (mq *memoryQueue) Dequeue(ctx context.Context) (*URL, error) {
 
 // Done implementation.
 func (mq *memoryQueue) Done(_ context.Context, _ *URL) error {
-	mq.wg.Done()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	mq.active--
+	mq.cond.Broadcast()
+
 	return nil
 }
 
 // Wait implementation.
 func (mq *memoryQueue) Wait() {
-	mq.wg.Wait()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	for mq.active > 0 {
+		mq.cond.Wait()
+	}
 }
 
 // Close implementation.
@@ -127,10 +137,7 @@ func (mq *memoryQueue) Close(_ context.Context) error {
 	mq.cond.L.Lock()
 	defer mq.cond.L.Unlock()
 
-	for range mq.pending {
-		mq.wg.Done()
-	}
-
+	mq.active -= len(mq.pending)
 	mq.stopped = true
 	mq.pending = mq.pending[:0]
 	mq.cond.Broadcast()
-- 
2.43.0


From 090431a946c1b1f6ee7dcafdfc20466eee59f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 10/47] fix: do not cache responses whose body was not
 completely read

A truncated body, a read error or an early close stored the part
that was read, later requests were then served the truncated page.
---
 antcache/cachereader.go | 19 +++++++++++++++++++
 antcache/httpcache.go   |  7 ++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 69a47cd..c73df38 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -14,11 +14,14 @@ import (
 
 // Cachereader is a special reader that caches
 // a response when it is closed.
+//
+// A response whose body was not completely read is not cached.
 type cachereader struct {
 	resp  *http.Response
 	key   uint64
 	rc    io.ReadCloser
 	buf   bytes.Buffer
+	err   error
 	once  sync.Once
 	ctx   context.Context
 	store func(ctx context.Context, key uint64, v []byte) error
@@ -29,14 +32,30 @@ func (cr *cachereader) Read(p []byte) (n int, err error) {
 	if n, err = cr.rc.Read(p); n > 0 {
 		cr.buf.Write(p[:n])
 	}
+	if err != nil && cr.err == nil {
+		cr.err = err
+	}
 	return n, err
 }
 
+// Complete returns true if the complete body was read without error.
+func (cr *cachereader) complete() bool {
+	if cr.err != nil {
+		return cr.err == io.EOF
+	}
+	return cr.rc == http.NoBody ||
+		(cr.resp.ContentLength >= 0 && int64(cr.buf.Len()) == cr.resp.ContentLength)
+}
+
 // Close implementation.
 func (cr *cachereader) Close() error {
 	cerr := cr.rc.Close()
 
 	cr.once.Do(func() {
+		if !cr.complete() {
+			return
+		}
+
 		resp := *cr.resp
 
 		r := bytes.NewReader(cr.buf.Bytes())
diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index dc68224..c1d132f 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -279,8 +279,13 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 func (c *Cache) store(key uint64, resp *http.Response) {
 	rc := resp.Body
 
+	// The caller may change the response's headers
+	// before the body is closed.
+	stored := *resp
+	stored.Header = resp.Header.Clone()
+
 	resp.Body = &cachereader{
-		resp:  resp,
+		resp:  &stored,
 		key:   key,
 		rc:    rc,
 		ctx:   resp.Request.Context(),
-- 
2.43.0


From 068366d8fbc9d89a6bfd7b382d0beaacd0db3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 11/47] fix: return the stored body after a successful
 validation

The stored response's body was discarded before it was returned and
stored again, so validated responses were empty. Validation responses
were leaked, a validation response that can't be stored was thrown away
and the request sent again, and a 304 to the caller's own validators
was answered with the stored response.
---
 antcache/httpcache.go | 23 ++++++++++++-----------
 antcache/utils.go     | 11 +++++++++++
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index c1d132f..106cb8d 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -151,7 +151,6 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 		return nil, err
 	}
 	if resp != nil {
-		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
 
@@ -177,7 +176,7 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 // in the storage once the response's body is closed.
 //
 // The method returns nil response and nil error when the response does not
-// exist in the cache or when it must be refreshed.
+// exist in the cache or when it cannot be used for the request.
 func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 	var ctx = req.Context()
 
@@ -199,6 +198,7 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 
 	switch c.strategy.fresh(resp) {
 	case fresh:
+		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 
 	case stale:
@@ -240,6 +240,8 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
 		reqd := directivesFrom(req.Header)
 		if reqd.has("stale-if-error") {
+			c.discard(newresp)
+			resp.Header.Set("X-From-Cache", "1")
 			return resp, nil
 		}
 		return newresp, nil
@@ -247,10 +249,14 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 
 	// A 304 (Not Modified) response status code indicates that the
 	// stored response can be updated and reused; see Section 4.3.4.
-	if newresp.StatusCode == 304 {
-		c.discard(resp)
+	//
+	// When the caller's own validators don't nominate the stored response
+	// the 304 is about the response the caller already has.
+	if newresp.StatusCode == 304 && validates(req, resp) {
+		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
 		c.store(key, resp)
+		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
 
@@ -258,16 +264,11 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// none of the stored responses nominated in the conditional request
 	// is suitable.  Instead, the cache MUST use the full response to
 	// satisfy the request and MAY replace the stored response(s).
+	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.discard(resp)
 		c.store(key, newresp)
-		return newresp, nil
 	}
-
-	// Verification failed, cleanup and close the response readers.
-	c.discard(newresp)
-	c.discard(resp)
-	return nil, nil
+	return newresp, nil
 }
 
 // Store stores the given response.
diff --git a/antcache/utils.go b/antcache/utils.go
index 3f340d3..06b76a0 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -50,6 +50,17 @@ func matches(req *http.Request, resp *http.Response) bool {
 	return true
 }
 
+// Validates returns true if the conditional request nominates resp.
+//
+// https://tools.ietf.org/html/rfc7234#section-4.3.1
+func validates(req *http.Request, resp *http.Response) bool {
+	if v := req.Header.Get("If-None-Match"); v != "" {
+		return v == resp.Header.Get("ETag")
+	}
+	v := req.Header.Get("If-Modified-Since")
+	return v != "" && v == resp.Header.Get("Last-Modified")
+}
+
 // Nostore returns true if no-store is set.
 func nostore(h http.Header) bool {
 	var c = h.Get("Cache-Control")
-- 
2.43.0


From bee1e7c3f2dfb43406c4111c7c73a2b8b80702a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 12/47] fix: consider all Cache-Control header lines

Only the first line was parsed, a no-store or no-cache directive
in a second line was ignored.
---
 antcache/directives.go | 2 +-
 antcache/utils.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/antcache/directives.go b/antcache/directives.go
index 10192f5..5d2a8b1 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -12,7 +12,7 @@ type directives map[string]string
 
 // DirectivesFrom returns directives from h.
 func directivesFrom(h http.Header) directives {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 	var d directives
 
 	for _, item := range split(c, ",") {
diff --git a/antcache/utils.go b/antcache/utils.go
index 06b76a0..2009f7c 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -63,7 +63,7 @@ func validates(req *http.Request, resp *http.Response) bool {
 
 // Nostore returns true if no-store is set.
 func nostore(h http.Header) bool {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 
 	for _, v := range split(c, ",") {
 		if v == "no-store" {
-- 
2.43.0


From 53ea94c1994a80d99fa131a47d34deb3344e26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 13/47] fix: request max-age must not extend the response's
 lifetime

---
 antcache/rfc7234.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 6d0ffb8..aeb84b4 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -111,15 +111,20 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 	if d, ok := date(resp.Header); ok {
 		var age = time.Since(d)
 		var lifetime time.Duration
+		var explicit bool
 
 		if maxage, ok := resd.duration("max-age"); ok {
-			lifetime = maxage
+			lifetime, explicit = maxage, true
 		} else if exp, ok := expires(resp.Header); ok {
-			lifetime = exp.Sub(d)
+			lifetime, explicit = exp.Sub(d), true
 		}
 
+		// The request's max-age can only shorten the lifetime
+		// that the response declares.
 		if maxage, ok := reqd.duration("max-age"); ok {
-			lifetime = maxage
+			if !explicit || maxage < lifetime {
+				lifetime = maxage
+			}
 		}
 
 		if minfresh, ok := reqd.duration("min-fresh"); ok {
-- 
2.43.0


From 4b731f56f05f74315c894bdda328c9aa1cb213fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 14/47] fix: never use a stale must-revalidate response without
 validation

---
 antcache/rfc7234.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index aeb84b4..b08c28a 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -131,7 +131,9 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 			age += minfresh
 		}
 
-		if reqd.has("max-stale") {
+		// A stale response that must be revalidated is never
+		// used without validation.
+		if reqd.has("max-stale") && !resd.has("must-revalidate") {
 			ms, ok := reqd.duration("max-stale")
 
 			if !ok {
-- 
2.43.0


From f5fa2d3f840b7f0186fc28033b54ae9b9fa2f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 15/47] fix: the aggressive cache ignores no-cache requests,
 the pragma is never considered

The aggressive cache documents that the cache can be bypassed with the
no-cache directive and the standard cache must not use a response without
validation when the request contains the no-cache pragma.
---
 antcache/aggressive.go |  5 +++++
 antcache/rfc7234.go    |  2 +-
 antcache/utils.go      | 15 +++++++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/antcache/aggressive.go b/antcache/aggressive.go
index 253e076..6842b24 100644
--- a/antcache/aggressive.go
+++ b/antcache/aggressive.go
@@ -67,6 +67,11 @@ func (a aggressive) store(resp *http.Response) bool {
 
 // Fresh implementation.
 func (a aggressive) fresh(resp *http.Response) freshness {
+	// The request bypasses the cache.
+	if nocache(resp.Request.Header) {
+		return transparent
+	}
+
 	if date, ok := date(resp.Header); ok {
 		if time.Since(date) < a.lifetime() {
 			return fresh
diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index b08c28a..996f336 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -98,7 +98,7 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 	//
 	// the stored response does not contain the no-cache cache directive
 	// (Section 5.2.2.2), unless it is successfully validated (Section 4.3)
-	if reqd.has("no-cache") || resd.has("no-cache") {
+	if nocache(req.Header) || resd.has("no-cache") {
 		return stale
 	}
 
diff --git a/antcache/utils.go b/antcache/utils.go
index 2009f7c..e900c04 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -74,6 +74,21 @@ func nostore(h http.Header) bool {
 	return false
 }
 
+// Nocache returns true if the request asks to not be
+// answered from the cache without validation.
+//
+// The pragma is considered when there's no Cache-Control header.
+//
+// https://tools.ietf.org/html/rfc7234#section-5.4
+func nocache(h http.Header) bool {
+	if len(h.Values("Cache-Control")) == 0 {
+		return directivesFrom(http.Header{
+			"Cache-Control": h.Values("Pragma"),
+		}).has("no-cache")
+	}
+	return directivesFrom(h).has("no-cache")
+}
+
 // Expires returns the expires timestamp.
 //
 // When expires does not exist or is zero, ok is false.
-- 
2.43.0


From ea7fb0eb48821a71f707c589971d731a0b36ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 16/47] fix: large cache directive durations overflow

max-age=31536000000 was parsed as a negative duration.
---
 antcache/directives.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/antcache/directives.go b/antcache/directives.go
index 5d2a8b1..710e5ea 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -1,6 +1,7 @@
 package antcache
 
 import (
+	"math"
 	"net/http"
 	"strconv"
 	"strings"
@@ -42,6 +43,13 @@ func (d directives) has(name string) bool {
 func (d directives) duration(name string) (td time.Duration, ok bool) {
 	if v, has := d[name]; has {
 		n, err := strconv.ParseInt(v, 10, 64)
+
+		// https://tools.ietf.org/html/rfc7234#section-1.2.1
+		if n > math.MaxInt32 {
+			n = math.MaxInt32
+			err = nil
+		}
+
 		td, ok = (time.Duration(n) * time.Second), err == nil
 	}
 	return
-- 
2.43.0


From cae4ffc31d13ac8853d0fb2ec9fa8bb4902dd650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 17/47] fix: honour the Vary header of stored responses

The vary header of the request was considered instead of the one of the
stored response and the nominated request headers were never stored.
---
 antcache/httpcache.go |  6 +++++-
 antcache/utils.go     | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 106cb8d..a127729 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -196,7 +196,10 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 		return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
 	}
 
-	switch c.strategy.fresh(resp) {
+	freshness := c.strategy.fresh(resp)
+	unselect(resp.Header)
+
+	switch freshness {
 	case fresh:
 		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
@@ -284,6 +287,7 @@ func (c *Cache) store(key uint64, resp *http.Response) {
 	// before the body is closed.
 	stored := *resp
 	stored.Header = resp.Header.Clone()
+	selectors(stored.Header, resp.Request)
 
 	resp.Body = &cachereader{
 		resp:  &stored,
diff --git a/antcache/utils.go b/antcache/utils.go
index e900c04..1799469 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -33,6 +33,31 @@ func keyof(req *http.Request) uint64 {
 	))
 }
 
+// Varied prefixes the stored request headers that
+// were nominated by a response's vary header.
+const varied = "X-Varied-"
+
+// Selectors stores the request headers that h nominates in h.
+//
+// https://tools.ietf.org/html/rfc7234#section-4.1
+func selectors(h http.Header, req *http.Request) {
+	unselect(h)
+	for _, name := range split(strings.Join(h.Values("Vary"), ","), ",") {
+		if v := req.Header.Values(name); len(v) > 0 {
+			h.Set(varied+name, strings.Join(v, ", "))
+		}
+	}
+}
+
+// Unselect removes stored request headers from h.
+func unselect(h http.Header) {
+	for key := range h {
+		if strings.HasPrefix(key, varied) {
+			delete(h, key)
+		}
+	}
+}
+
 // Matches ensures that the given request and response match.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.1
@@ -47,6 +72,15 @@ func matches(req *http.Request, resp *http.Response) bool {
 		}
 	}
 
+	for _, h := range split(strings.Join(resp.Header.Values("Vary"), ","), ",") {
+		if h == "*" {
+			return false
+		}
+		if strings.Join(req.Header.Values(h), ", ") != resp.Header.Get(varied+h) {
+			return false
+		}
+	}
+
 	return true
 }
 
-- 
2.43.0


From ecc4b8e0b3a5b754f437aa7f492553823527723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 18/47] fix: disk warm-up ends when reading the directory fails

---
 antcache/disk.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index d2646e8..aa028ca 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -255,10 +255,6 @@ func (d *Diskstore) warmup() {
 	for {
 		names, err := d.dir.Readdirnames(5)
 
-		if errors.Is(err, io.EOF) {
-			break
-		}
-
 		for _, name := range names {
 			var path = filepath.Join(d.path, name)
 
@@ -285,6 +281,15 @@ func (d *Diskstore) warmup() {
 				mtime: stat.ModTime(),
 			})
 		}
+
+		if errors.Is(err, io.EOF) {
+			break
+		}
+
+		if err != nil {
+			log.Printf("antcache: disk readdir %s - %s", d.path, err)
+			break
+		}
 	}
 
 	d.readymu.Lock()
-- 
2.43.0


From 944e731afcd2e8d4dae11ad202684a54b59279cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 19/47] fix: disk warm-up only takes files the store wrote

Names such as 007 and directories are not entries, taking them served and
removed files of others.
---
 antcache/disk.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index aa028ca..b25cba5 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -258,12 +258,12 @@ func (d *Diskstore) warmup() {
 		for _, name := range names {
 			var path = filepath.Join(d.path, name)
 
-			if filepath.Ext(path) == "tmp" {
+			if filepath.Ext(path) == ".tmp" {
 				continue
 			}
 
 			n, err := strconv.ParseUint(name, 10, 64)
-			if err != nil {
+			if err != nil || strconv.FormatUint(n, 10) != name {
 				log.Printf("antcache: disk cache invalid entry - %s", name)
 				continue
 			}
@@ -274,6 +274,11 @@ func (d *Diskstore) warmup() {
 				continue
 			}
 
+			if !stat.Mode().IsRegular() {
+				log.Printf("antcache: disk cache invalid entry - %s", name)
+				continue
+			}
+
 			files = append(files, file{
 				key:   n,
 				path:  path,
-- 
2.43.0


From 7ca005ab0fdb6334b185a64f4d24598096430298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 20/47] fix: disk SweepEvery may be given more than once

---
 antcache/disk.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index b25cba5..cf6f354 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -65,12 +65,13 @@ func Maxsize(size int64) DiskOption {
 // the maxsize is reached.
 func SweepEvery(d time.Duration) DiskOption {
 	return func(ds *Diskstore) error {
-		if d > 0 {
-			ds.ticker = time.NewTicker(d)
-		} else {
+		if ds.ticker != nil {
 			ds.ticker.Stop()
 			ds.ticker = nil
 		}
+		if d > 0 {
+			ds.ticker = time.NewTicker(d)
+		}
 		return nil
 	}
 }
@@ -441,7 +442,7 @@ func (d *Diskstore) Load(_ context.Context, key uint64) (v []byte, err error) {
 		if v, err = os.ReadFile(f.path); err != nil {
 			return nil, fmt.Errorf("antcache: disk read %q - %w", f.path, err)
 		}
-		d.debugf("load %d %s", key)
+		d.debugf("load %d", key)
 	}
 
 	if v != nil && d.compress {
-- 
2.43.0


From e4fcdec8b563acb39feabac297efe3ceafeb8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 21/47] fix: disk sweep removes the oldest files, and counts no
 expired ones

---
 antcache/disk.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index cf6f354..cc697ad 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -345,23 +345,24 @@ func (d *Diskstore) sweep() (int, error) {
 	var remove []file
 	var sum int64
 
+	// Newest first, the oldest are those that exceed the maxsize.
 	sort.Slice(files, func(i, j int) bool {
 		a := files[i].mtime
 		b := files[j].mtime
-		return a.Before(b)
+		return a.After(b)
 	})
 
 	for _, f := range files {
 		if d.maxage > 0 {
 			if now.Sub(f.mtime) > d.maxage {
 				remove = append(remove, f)
+				continue
 			}
 		}
 
 		if d.maxsize > 0 {
 			if sum += f.size; sum > d.maxsize {
 				remove = append(remove, f)
-				sum -= f.size
 			}
 		}
 	}
-- 
2.43.0


From 1778b7824276098d7f2c20c91a05d29cd62a41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 22/47] fix: disk sweep does not remove a file stored meanwhile

The file is renamed into place and indexed under the lock, which also keeps
the index right when syncing the directory fails.
---
 antcache/disk.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index cc697ad..e5ab9eb 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -371,7 +371,7 @@ func (d *Diskstore) sweep() (int, error) {
 	defer d.readymu.Unlock()
 
 	for _, f := range remove {
-		if _, ok := d.ready[f.key]; ok {
+		if cur, ok := d.ready[f.key]; ok && cur == f {
 			if err := os.Remove(f.path); err != nil {
 				log.Printf("antcache: disk remove - %s", err)
 				continue
@@ -474,15 +474,11 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: close %s - %w", f.Name(), err)
 	}
 
+	d.readymu.Lock()
 	if err := os.Rename(f.Name(), newpath); err != nil {
+		d.readymu.Unlock()
 		return fmt.Errorf("antcache: disk rename - %w", err)
 	}
-
-	if err := d.dir.Sync(); err != nil {
-		return fmt.Errorf("antcache: disk fsync - %w", err)
-	}
-
-	d.readymu.Lock()
 	d.ready[key] = file{
 		key:   key,
 		path:  newpath,
@@ -491,6 +487,10 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 	}
 	d.readymu.Unlock()
 
+	if err := d.dir.Sync(); err != nil {
+		return fmt.Errorf("antcache: disk fsync - %w", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From c94aa8a0efcdb0ae46f9b67c663ee4a729001b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 23/47] fix: disk sweeps begin after warm-up

---
 antcache/disk.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/antcache/disk.go b/antcache/disk.go
index e5ab9eb..e7d6b6f 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -324,6 +324,13 @@ func (d *Diskstore) sweeper() {
 		d.wg.Done()
 	}()
 
+	// Warm-up must not bring back what was swept.
+	select {
+	case <-d.stop:
+		return
+	case <-d.warm:
+	}
+
 	for {
 		select {
 		case <-d.stop:
-- 
2.43.0


From ea6f1959394965f76909fed013df6e7cd25662e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 24/47] fix: antcdp closes the connection when setting up a
 request fails

---
 antcdp/transport.go | 8 ++------
 antcdp/tx.go        | 4 ++++
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/antcdp/transport.go b/antcdp/transport.go
index edc59c6..ea26440 100644
--- a/antcdp/transport.go
+++ b/antcdp/transport.go
@@ -2,8 +2,6 @@ package antcdp
 
 import (
 	"net/http"
-
-	"github.com/hashicorp/go-multierror"
 )
 
 // Transport implements a CDP request transport.
@@ -34,14 +32,12 @@ func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
 		target:  target,
 	}
 
+	defer tx.close()
+
 	if err := tx.init(ctx); err != nil {
 		return nil, err
 	}
 
-	defer func() {
-		err = multierror.Append(err, tx.close())
-	}()
-
 	resp, err := tx.do(ctx)
 	if err != nil {
 		return nil, err
diff --git a/antcdp/tx.go b/antcdp/tx.go
index 34f948f..9528d5d 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -294,6 +294,10 @@ func (tx *tx) setCookies(ctx context.Context) error {
 
 // Close closes the transaction.
 func (tx *tx) close() (err error) {
+	if tx.conn == nil {
+		return nil
+	}
+
 	var closers = [...]io.Closer{
 		tx.conn,
 		tx.events.req,
-- 
2.43.0


From d55ee8de22db1879fcd6f00dc5eb527bcaa3c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 25/47] fix: antcdp waits for the response of its own
 navigation only

---
 antcdp/tx.go | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 9528d5d..d7dd5f0 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -27,7 +27,6 @@ type tx struct {
 	conn    *rpcc.Conn
 	client  *cdp.Client
 	events  struct {
-		req   network.RequestWillBeSentClient
 		res   network.ResponseReceivedClient
 		ready page.DOMContentEventFiredClient
 	}
@@ -62,11 +61,6 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	reqc, err := tx.client.Network.RequestWillBeSent(ctx)
-	if err != nil {
-		return err
-	}
-
 	resc, err := tx.client.Network.ResponseReceived(ctx)
 	if err != nil {
 		return err
@@ -77,7 +71,6 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	tx.events.req = reqc
 	tx.events.res = resc
 	tx.events.ready = ready
 	return nil
@@ -115,21 +108,14 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 	return tx.resp, nil
 }
 
-// Wait waits for the network requests to load.
+// Wait waits for the response of the navigation's document, the
+// responses of subresources, frames and of documents the tab
+// navigated to earlier are skipped.
 func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
-	var ids = make(map[network.RequestID]struct{})
-	var reqc = tx.events.req
 	var resc = tx.events.res
 
 	for {
 		select {
-		case <-reqc.Ready():
-			event, err := reqc.Recv()
-			if err != nil {
-				return fmt.Errorf("antcdp: request recv - %w", err)
-			}
-			ids[event.RequestID] = struct{}{}
-
 		case <-resc.Ready():
 			event, err := resc.Recv()
 			if err != nil {
@@ -142,15 +128,15 @@ func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 			if id := event.FrameID; id != nil && *id != args.FrameID {
 				continue
 			}
+			if id := args.LoaderID; id != nil && *id != event.LoaderID {
+				continue
+			}
 
 			if err := tx.merge(event.Response); err != nil {
 				return fmt.Errorf("antcdp: merge response - %w", err)
 			}
 
-			delete(ids, event.RequestID)
-			if len(ids) == 0 {
-				return nil
-			}
+			return nil
 
 		case <-ctx.Done():
 			return ctx.Err()
@@ -300,7 +286,6 @@ func (tx *tx) close() (err error) {
 
 	var closers = [...]io.Closer{
 		tx.conn,
-		tx.events.req,
 		tx.events.res,
 		tx.events.ready,
 	}
-- 
2.43.0


From d124842f282c6c9842814308863a85f9ec5c0f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 26/47] fix: antcdp reads the body when its own document is
 ready

---
 antcdp/tx.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index d7dd5f0..56f7d2d 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -28,7 +28,7 @@ type tx struct {
 	client  *cdp.Client
 	events  struct {
 		res   network.ResponseReceivedClient
-		ready page.DOMContentEventFiredClient
+		ready page.LifecycleEventClient
 	}
 }
 
@@ -66,11 +66,16 @@ func (tx *tx) init(ctx context.Context) error {
 		return err
 	}
 
-	ready, err := tx.client.Page.DOMContentEventFired(ctx)
+	ready, err := tx.client.Page.LifecycleEvent(ctx)
 	if err != nil {
 		return err
 	}
 
+	lifecycle := page.NewSetLifecycleEventsEnabledArgs(true)
+	if err := tx.client.Page.SetLifecycleEventsEnabled(ctx, lifecycle); err != nil {
+		return err
+	}
+
 	tx.events.res = resc
 	tx.events.ready = ready
 	return nil
@@ -93,8 +98,8 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 		return nil, err
 	}
 
-	if _, err := tx.events.ready.Recv(); err != nil {
-		return nil, fmt.Errorf("antcdp: dom ready - %w", err)
+	if err := tx.waitready(*reply); err != nil {
+		return nil, err
 	}
 
 	if err := tx.readbody(ctx); err != nil {
@@ -144,6 +149,26 @@ func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 	}
 }
 
+// Waitready waits for the navigation's document to be ready, other
+// documents of the tab and its frames are skipped.
+func (tx *tx) waitready(args page.NavigateReply) error {
+	for {
+		event, err := tx.events.ready.Recv()
+		if err != nil {
+			return fmt.Errorf("antcdp: dom ready - %w", err)
+		}
+
+		if event.Name != "DOMContentLoaded" || event.FrameID != args.FrameID {
+			continue
+		}
+		if id := args.LoaderID; id != nil && *id != event.LoaderID {
+			continue
+		}
+
+		return nil
+	}
+}
+
 // Readbody attempts to read the page's body.
 func (tx *tx) readbody(ctx context.Context) error {
 	doc, err := tx.client.DOM.GetDocument(ctx, nil)
-- 
2.43.0


From 1ee9b7d15d38b95d12c7880dad2c0c635df39b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 27/47] fix: antcdp returns only the cookies of the request's
 site

---
 antcdp/tx.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 56f7d2d..0006027 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -200,11 +200,12 @@ func (tx *tx) readbody(ctx context.Context) error {
 	return nil
 }
 
-// Readcookies reads the cookies from CDP.
+// Readcookies reads the cookies of the request's URL from CDP.
 func (tx *tx) readcookies(ctx context.Context) error {
-	var storage = tx.client.Storage
+	var urls = []string{tx.request.URL.String()}
+	var args = network.NewGetCookiesArgs().SetURLs(urls)
 
-	reply, err := storage.GetCookies(ctx, nil)
+	reply, err := tx.client.Network.GetCookies(ctx, args)
 	if err != nil {
 		return fmt.Errorf("antcdp: get cookies - %w", err)
 	}
-- 
2.43.0


From c7cc1c171b7b9edf0aaba842d342a99fec4cab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 28/47] fix: antcdp closes failed and superfluous tabs

---
 antcdp/targets.go   | 16 ++++++++++++++++
 antcdp/transport.go | 17 +++++++++--------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/antcdp/targets.go b/antcdp/targets.go
index 3fcb334..4870489 100644
--- a/antcdp/targets.go
+++ b/antcdp/targets.go
@@ -3,6 +3,7 @@ package antcdp
 import (
 	"context"
 	"fmt"
+	"time"
 
 	"github.com/mafredri/cdp/devtool"
 )
@@ -45,10 +46,25 @@ func (t *targets) acquire(ctx context.Context) (*devtool.Target, error) {
 }
 
 // Release releases the given target.
+//
+// If the pool is full the target is removed.
 func (t *targets) release(target *devtool.Target) error {
 	select {
 	case t.targets <- target:
 	default:
+		t.remove(target)
 	}
 	return nil
 }
+
+// Remove closes a target that will not be used again.
+//
+// The target is closed in the background, the browser
+// may not respond.
+func (t *targets) remove(target *devtool.Target) {
+	go func() {
+		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+		defer cancel()
+		t.client.Close(ctx, target)
+	}()
+}
diff --git a/antcdp/transport.go b/antcdp/transport.go
index ea26440..87cf3f3 100644
--- a/antcdp/transport.go
+++ b/antcdp/transport.go
@@ -18,14 +18,20 @@ type transport struct {
 }
 
 // Roundtrip performs a roundtrip.
-func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
+func (t *transport) roundtrip(req *http.Request) (resp *http.Response, err error) {
 	var ctx = req.Context()
 
 	target, err := t.pool.acquire(ctx)
 	if err != nil {
 		return nil, err
 	}
-	defer t.pool.release(target)
+	defer func() {
+		if err != nil {
+			t.pool.remove(target)
+		} else {
+			t.pool.release(target)
+		}
+	}()
 
 	tx := &tx{
 		request: req,
@@ -38,10 +44,5 @@ func (t *transport) roundtrip(req *http.Request) (*http.Response, error) {
 		return nil, err
 	}
 
-	resp, err := tx.do(ctx)
-	if err != nil {
-		return nil, err
-	}
-
-	return resp, nil
+	return tx.do(ctx)
 }
-- 
2.43.0


From 7f127544f2edc519d063a0b2ea68d5f9727f81ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 29/47] fix: antcdp loads URLs with a fragment again

---
 antcdp/tx.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 0006027..5f9f328 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -90,6 +90,20 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 		return nil, fmt.Errorf("antcdp: navigate - %w", err)
 	}
 
+	// The tab shows the document already and only moved to the URL's
+	// fragment, leave the document so that it is loaded.
+	if reply.LoaderID == nil && reply.ErrorText == nil {
+		blank := page.NewNavigateArgs("about:blank")
+
+		if _, err := tx.client.Page.Navigate(ctx, blank); err != nil {
+			return nil, fmt.Errorf("antcdp: navigate - %w", err)
+		}
+
+		if reply, err = tx.client.Page.Navigate(ctx, args); err != nil {
+			return nil, fmt.Errorf("antcdp: navigate - %w", err)
+		}
+	}
+
 	if errmsg := reply.ErrorText; errmsg != nil {
 		return nil, fmt.Errorf("antcdp: navigate - %s", *errmsg)
 	}
-- 
2.43.0


From 08029365741d12763fbacd6ab1fde14d5f139f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 30/47] fix: antcdp does not outwait the context when it
 creates a target

---
 antcdp/targets.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/antcdp/targets.go b/antcdp/targets.go
index 4870489..9946f0b 100644
--- a/antcdp/targets.go
+++ b/antcdp/targets.go
@@ -37,7 +37,7 @@ func (t *targets) acquire(ctx context.Context) (*devtool.Target, error) {
 		return nil, ctx.Err()
 
 	default:
-		v, err := t.client.Create(ctx)
+		v, err := t.create(ctx)
 		if err != nil {
 			return nil, fmt.Errorf("antcdp: create target - %w", err)
 		}
@@ -45,6 +45,39 @@ func (t *targets) acquire(ctx context.Context) (*devtool.Target, error) {
 	}
 }
 
+// Create creates a new target.
+//
+// Creating may block after the context is done, for example while
+// the client resolves the browser's address for another request. When
+// that happens the method returns the context's error and the target
+// is removed if it is created nevertheless.
+func (t *targets) create(ctx context.Context) (*devtool.Target, error) {
+	type result struct {
+		target *devtool.Target
+		err    error
+	}
+
+	var created = make(chan result, 1)
+
+	go func() {
+		v, err := t.client.Create(ctx)
+		created <- result{v, err}
+	}()
+
+	select {
+	case r := <-created:
+		return r.target, r.err
+
+	case <-ctx.Done():
+		go func() {
+			if r := <-created; r.err == nil {
+				t.remove(r.target)
+			}
+		}()
+		return nil, ctx.Err()
+	}
+}
+
 // Release releases the given target.
 //
 // If the pool is full the target is removed.
-- 
2.43.0


From a8d8583c27e3acaa225f2f5ea305145676b8839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 31/47] fix: antcdp does not outwait the context when it
 connects

---
 antcdp/tx.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 5f9f328..64a59c4 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -36,7 +36,7 @@ type tx struct {
 func (tx *tx) init(ctx context.Context) error {
 	var url = tx.target.WebSocketDebuggerURL
 
-	conn, err := rpcc.DialContext(ctx, url)
+	conn, err := dial(ctx, url)
 	if err != nil {
 		return fmt.Errorf("antcdp: dial %q - %w", url, err)
 	}
@@ -341,6 +341,38 @@ func (tx *tx) close() (err error) {
 	return nil
 }
 
+// Dial connects to the debugger at url.
+//
+// The websocket handshake does not respect the context, when the context
+// is done the method returns its error and the connection is closed as
+// soon as the handshake ends.
+func dial(ctx context.Context, url string) (*rpcc.Conn, error) {
+	type result struct {
+		conn *rpcc.Conn
+		err  error
+	}
+
+	var dialed = make(chan result, 1)
+
+	go func() {
+		conn, err := rpcc.DialContext(ctx, url)
+		dialed <- result{conn, err}
+	}()
+
+	select {
+	case r := <-dialed:
+		return r.conn, r.err
+
+	case <-ctx.Done():
+		go func() {
+			if r := <-dialed; r.err == nil {
+				r.conn.Close()
+			}
+		}()
+		return nil, ctx.Err()
+	}
+}
+
 // ParseProto parses a protocol s.
 func parseProto(s string) (major, minor int, ok bool) {
 	if j := strings.IndexByte(s, '/'); j != -1 {
-- 
2.43.0


From b99354fba90c6eb57e9bf5d137c4f2b609595104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 32/47] fix: the engine normalizes copies of URLs it is given

Scrapers may return URLs that they share with other goroutines, they
were changed in place while those read them.
---
 engine.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/engine.go b/engine.go
index 12b3553..950757c 100644
--- a/engine.go
+++ b/engine.go
@@ -210,9 +210,15 @@ func (eng *Engine) Enqueue(ctx context.Context, rawurls ...string) error {
 }
 
 // Enqueue enqueues the given parsed urls.
-func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
-	for j := range batch {
-		batch[j] = normalize.URL(batch[j])
+//
+// The URLs may still be used by the caller, so that copies
+// are normalized.
+func (eng *Engine) enqueue(ctx context.Context, urls URLs) error {
+	var batch = make(URLs, len(urls))
+
+	for j := range urls {
+		u := *urls[j]
+		batch[j] = normalize.URL(&u)
 	}
 
 	next, err := eng.dedupe(ctx, eng.matches(batch))
-- 
2.43.0


From eea2aa6366bb974edabb98b1b5fdc15ddd71df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 33/47] fix: antcache closes responses that come with an error

A client may return a response together with an error, such as
http.Client on a failed redirect check.
---
 antcache/httpcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index a127729..c843e98 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -156,6 +156,7 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 
 	resp, err = c.client.Do(req)
 	if err != nil {
+		c.discard(resp)
 		return nil, err
 	}
 
@@ -232,6 +233,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 
 	newresp, err := c.client.Do(req)
 	if err != nil {
+		c.discard(newresp)
 		return nil, fmt.Errorf("antcache: validate %d - %w", key, err)
 	}
 
@@ -302,7 +304,7 @@ func (c *Cache) store(key uint64, resp *http.Response) {
 
 // Discard discasrds the given reader.
 func (c *Cache) discard(resp *http.Response) {
-	if resp != nil {
+	if resp != nil && resp.Body != nil {
 		io.Copy(io.Discard, resp.Body)
 		resp.Body.Close()
 	}
-- 
2.43.0


From 99e6c06e91dfe6fbd32ada7499adf07d3b75c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:10 +0000
Subject: [PATCH 34/47] fix: robots rules apply to the query of a URL

---
 internal/robots/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index e3fbba1..6662d01 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -107,6 +107,11 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 		path = "/" + path
 	}
 
+	// Rules apply to the path and its query.
+	if q := req.URL.RawQuery; q != "" {
+		path += "?" + q
+	}
+
 	host, err := c.lookup(ctx, req.URL)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 0726323885d67d5aef9c6e1a7123f610bf549f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 35/47] fix: robots rules are compared regardless of how they
 are escaped

---
 internal/normalize/url.go | 19 +++++++++++++++++++
 internal/robots/cache.go  | 21 ++++++++++++++++++---
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index c3e93ef..40038e3 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -4,6 +4,7 @@
 package normalize
 
 import (
+	"fmt"
 	"net/url"
 	"sort"
 	"strconv"
@@ -125,6 +126,24 @@ func triplets(s string) string {
 	return b.String()
 }
 
+// Escapes normalizes how the given string is escaped.
+//
+// All triplets are normalized as they are in a path, characters
+// that must be escaped in a URL are escaped.
+func Escapes(s string) string {
+	var b strings.Builder
+
+	for i := 0; i < len(s); i++ {
+		if c := s[i]; c > '~' || strings.IndexByte("\"<>\\^`{|}", c) != -1 {
+			fmt.Fprintf(&b, "%%%02X", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+
+	return triplets(b.String())
+}
+
 // Unreserved returns true if the character is unreserved.
 func unreserved(c byte) bool {
 	return 'a' <= c && c <= 'z' ||
diff --git a/internal/robots/cache.go b/internal/robots/cache.go
index 6662d01..a6f1337 100644
--- a/internal/robots/cache.go
+++ b/internal/robots/cache.go
@@ -10,13 +10,18 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"regexp"
 	"sync"
 	"time"
 
 	"github.com/segmentio/agecache"
 	"github.com/temoto/robotstxt"
+	"github.com/yields/ant/internal/normalize"
 )
 
+// Rules matches the lines of a robots.txt that have a path.
+var rules = regexp.MustCompile(`(?im)^\s*(dis)?allow\s*:.*$`)
+
 // Request represents a request.
 //
 // If the UserAgent is empty it will
@@ -100,7 +105,7 @@ func NewCache(c *http.Client, capacity int) *Cache {
 // The method returns an error if the context is canceled
 // or if a parsing error occurs.
 func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
-	var path = req.URL.Path
+	var path = req.URL.EscapedPath()
 	var ua = req.userAgent()
 
 	if len(path) > 0 && path[0] != '/' {
@@ -117,7 +122,7 @@ func (c *Cache) Allowed(ctx context.Context, req Request) (bool, error) {
 		return false, err
 	}
 
-	return host.test(path, ua), nil
+	return host.test(normalize.Escapes(path), ua), nil
 }
 
 // Wait blocks until the given request can be sent.
@@ -192,7 +197,17 @@ func (c *Cache) lookup(ctx context.Context, url *url.URL) (*Host, error) {
 		return s, nil
 	}
 
-	data, err := robotstxt.FromResponse(resp)
+	body, err := io.ReadAll(resp.Body)
+	if err != nil {
+		return nil, fmt.Errorf("robots: read robots.txt - %w", err)
+	}
+
+	// Rules may be escaped in a different way than URLs.
+	body = rules.ReplaceAllFunc(body, func(rule []byte) []byte {
+		return []byte(normalize.Escapes(string(rule)))
+	})
+
+	data, err := robotstxt.FromStatusAndBytes(resp.StatusCode, body)
 	if err != nil {
 		return nil, fmt.Errorf("robots: parse robots.txt - %w", err)
 	}
-- 
2.43.0


From 1bbdc8615bfd8949b090571d02662489cd08a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:59 +0000
Subject: [PATCH 36/47] fix: the age of stored responses is calculated as RFC
 7234 defines it

---
 antcache/aggressive.go |  2 +-
 antcache/rfc7234.go    |  2 +-
 antcache/utils.go      | 35 +++++++++++++++++++++++++++++++++--
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/antcache/aggressive.go b/antcache/aggressive.go
index 6842b24..49ff911 100644
--- a/antcache/aggressive.go
+++ b/antcache/aggressive.go
@@ -73,7 +73,7 @@ func (a aggressive) fresh(resp *http.Response) freshness {
 	}
 
 	if date, ok := date(resp.Header); ok {
-		if time.Since(date) < a.lifetime() {
+		if age(resp.Header, date) < a.lifetime() {
 			return fresh
 		}
 	}
diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 996f336..4914010 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -109,7 +109,7 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 
 	// the stored response is either fresh (see Section 4.2).
 	if d, ok := date(resp.Header); ok {
-		var age = time.Since(d)
+		var age = age(resp.Header, d)
 		var lifetime time.Duration
 		var explicit bool
 
diff --git a/antcache/utils.go b/antcache/utils.go
index 1799469..17ac738 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -2,6 +2,7 @@ package antcache
 
 import (
 	"net/http"
+	"strconv"
 	"strings"
 	"time"
 
@@ -10,6 +11,9 @@ import (
 
 // Merge merges b headers into a.
 func merge(a http.Header, b http.Header) {
+	// The age of the previous response.
+	a.Del("Age")
+
 	for key := range b {
 		switch key {
 		case "Keep-Alive":
@@ -37,11 +41,17 @@ func keyof(req *http.Request) uint64 {
 // were nominated by a response's vary header.
 const varied = "X-Varied-"
 
-// Selectors stores the request headers that h nominates in h.
+// Received is the header of stored responses that contains
+// the time at which the response was received.
+const received = "X-Received"
+
+// Selectors stores the request headers that h nominates, and
+// the time at which the response was received in h.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.1
 func selectors(h http.Header, req *http.Request) {
 	unselect(h)
+	h.Set(received, time.Now().UTC().Format(time.RFC3339Nano))
 	for _, name := range split(strings.Join(h.Values("Vary"), ","), ",") {
 		if v := req.Header.Values(name); len(v) > 0 {
 			h.Set(varied+name, strings.Join(v, ", "))
@@ -49,8 +59,9 @@ func selectors(h http.Header, req *http.Request) {
 	}
 }
 
-// Unselect removes stored request headers from h.
+// Unselect removes all headers that selectors stored from h.
 func unselect(h http.Header) {
+	h.Del(received)
 	for key := range h {
 		if strings.HasPrefix(key, varied) {
 			delete(h, key)
@@ -145,6 +156,26 @@ func date(h http.Header) (date time.Time, ok bool) {
 	return
 }
 
+// Age returns the age of a stored response with the given date.
+//
+// A response that has been received a while ago is at least that
+// old when the clock of the server is ahead, it is older when it
+// has an age header because another cache has kept it before.
+//
+// https://tools.ietf.org/html/rfc7234#section-4.2.3
+func age(h http.Header, date time.Time) time.Duration {
+	var age = time.Since(date)
+
+	if t, err := time.Parse(time.RFC3339Nano, h.Get(received)); err == nil {
+		n, _ := strconv.ParseUint(h.Get("Age"), 10, 31)
+		if d := time.Since(t) + time.Duration(n)*time.Second; d > age {
+			age = d
+		}
+	}
+
+	return age
+}
+
 // Split splits the given str by sep.
 //
 // The method omits any empty values and normalizes
-- 
2.43.0


From 6f10237e2397ee5923de1692ed5a8d3f1d32d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 37/47] fix: cached responses are never served to requests
 whose keys collide

---
 antcache/httpcache.go | 20 +++++++++++++-------
 antcache/utils.go     | 21 +++++++++++++++++++--
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index c843e98..f37b041 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -161,7 +161,7 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if c.strategy.store(resp) {
-		c.store(key, resp)
+		c.store(key, req, resp)
 	}
 
 	return resp, nil
@@ -197,6 +197,11 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 		return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
 	}
 
+	// The response of another request that has the same key.
+	if id := resp.Header.Get(requested); id != "" && id != identity(req) {
+		return nil, nil
+	}
+
 	freshness := c.strategy.fresh(resp)
 	unselect(resp.Header)
 
@@ -260,7 +265,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode == 304 && validates(req, resp) {
 		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
-		c.store(key, resp)
+		c.store(key, resp.Request, resp)
 		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
@@ -271,25 +276,26 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// satisfy the request and MAY replace the stored response(s).
 	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.store(key, newresp)
+		c.store(key, resp.Request, newresp)
 	}
 	return newresp, nil
 }
 
-// Store stores the given response.
+// Store stores the given response to req.
 //
 // The method overwrites the response's body with a readcloser
 // that will write the response to the storage when it is closed.
 //
 // If the response body is not closed, the response is never stored in the cache.
-func (c *Cache) store(key uint64, resp *http.Response) {
+func (c *Cache) store(key uint64, req *http.Request, resp *http.Response) {
 	rc := resp.Body
 
 	// The caller may change the response's headers
-	// before the body is closed.
+	// before the body is closed, resp.Request is not
+	// req when the client followed redirects.
 	stored := *resp
 	stored.Header = resp.Header.Clone()
-	selectors(stored.Header, resp.Request)
+	selectors(stored.Header, req)
 
 	resp.Body = &cachereader{
 		resp:  &stored,
diff --git a/antcache/utils.go b/antcache/utils.go
index 17ac738..de1dd51 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -1,6 +1,8 @@
 package antcache
 
 import (
+	"crypto/sha256"
+	"fmt"
 	"net/http"
 	"strconv"
 	"strings"
@@ -37,20 +39,34 @@ func keyof(req *http.Request) uint64 {
 	))
 }
 
+// Identity returns the identity of the request, requests
+// with different identities may have equal keys.
+func identity(req *http.Request) string {
+	return fmt.Sprintf("%x", sha256.Sum256([]byte(
+		req.Method+":"+req.URL.String(),
+	)))
+}
+
 // Varied prefixes the stored request headers that
 // were nominated by a response's vary header.
 const varied = "X-Varied-"
 
+// Requested is the header of stored responses that contains
+// the identity of the request.
+const requested = "X-Requested"
+
 // Received is the header of stored responses that contains
 // the time at which the response was received.
 const received = "X-Received"
 
-// Selectors stores the request headers that h nominates, and
-// the time at which the response was received in h.
+// Selectors stores the request headers that h nominates, the
+// identity of the request and the time at which the response was
+// received in h.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.1
 func selectors(h http.Header, req *http.Request) {
 	unselect(h)
+	h.Set(requested, identity(req))
 	h.Set(received, time.Now().UTC().Format(time.RFC3339Nano))
 	for _, name := range split(strings.Join(h.Values("Vary"), ","), ",") {
 		if v := req.Header.Values(name); len(v) > 0 {
@@ -61,6 +77,7 @@ func selectors(h http.Header, req *http.Request) {
 
 // Unselect removes all headers that selectors stored from h.
 func unselect(h http.Header) {
+	h.Del(requested)
 	h.Del(received)
 	for key := range h {
 		if strings.HasPrefix(key, varied) {
-- 
2.43.0


From 979c7101f8794e563e358fd24c15c6a6760cdc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 38/47] fix: cached responses have the URL that the client was
 redirected to

---
 antcache/httpcache.go | 20 ++++++++++++++------
 antcache/utils.go     | 16 ++++++++++++++++
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index f37b041..17cc693 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 )
 
 // Freshness enumerates freshness.
@@ -203,6 +204,9 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 	}
 
 	freshness := c.strategy.fresh(resp)
+	if u, err := url.Parse(resp.Header.Get(redirected)); err == nil && u.Host != "" {
+		resp.Request = redirect(req, u)
+	}
 	unselect(resp.Header)
 
 	switch freshness {
@@ -211,17 +215,17 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 		return resp, nil
 
 	case stale:
-		return c.verify(ctx, key, resp)
+		return c.verify(ctx, key, req, resp)
 	}
 
 	return nil, nil
 }
 
-// Verify verifies that the given response is still valid.
+// Verify verifies that the given response to orig is still valid.
 //
 // https://tools.ietf.org/html/rfc7234#section-4.3.
-func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*http.Response, error) {
-	var req = resp.Request.Clone(ctx)
+func (c *Cache) verify(ctx context.Context, key uint64, orig *http.Request, resp *http.Response) (*http.Response, error) {
+	var req = orig.Clone(ctx)
 	var hdr = resp.Header
 
 	if etag := hdr.Get("ETag"); etag != "" {
@@ -265,7 +269,8 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode == 304 && validates(req, resp) {
 		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
-		c.store(key, resp.Request, resp)
+		resp.Request = redirect(orig, newresp.Request.URL)
+		c.store(key, orig, resp)
 		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
@@ -276,7 +281,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// satisfy the request and MAY replace the stored response(s).
 	c.discard(resp)
 	if c.strategy.store(newresp) {
-		c.store(key, resp.Request, newresp)
+		c.store(key, orig, newresp)
 	}
 	return newresp, nil
 }
@@ -296,6 +301,9 @@ func (c *Cache) store(key uint64, req *http.Request, resp *http.Response) {
 	stored := *resp
 	stored.Header = resp.Header.Clone()
 	selectors(stored.Header, req)
+	if u := resp.Request.URL.String(); u != req.URL.String() {
+		stored.Header.Set(redirected, u)
+	}
 
 	resp.Body = &cachereader{
 		resp:  &stored,
diff --git a/antcache/utils.go b/antcache/utils.go
index de1dd51..822ae5d 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"fmt"
 	"net/http"
+	"net/url"
 	"strconv"
 	"strings"
 	"time"
@@ -59,6 +60,20 @@ const requested = "X-Requested"
 // the time at which the response was received.
 const received = "X-Received"
 
+// Redirected is the header of stored responses that contains
+// the URL that the client has been redirected to.
+const redirected = "X-Redirected"
+
+// Redirect returns the request that req was redirected to.
+func redirect(req *http.Request, u *url.URL) *http.Request {
+	if u.String() == req.URL.String() {
+		return req
+	}
+	ret := req.Clone(req.Context())
+	ret.URL, ret.Host = u, ""
+	return ret
+}
+
 // Selectors stores the request headers that h nominates, the
 // identity of the request and the time at which the response was
 // received in h.
@@ -78,6 +93,7 @@ func selectors(h http.Header, req *http.Request) {
 // Unselect removes all headers that selectors stored from h.
 func unselect(h http.Header) {
 	h.Del(requested)
+	h.Del(redirected)
 	h.Del(received)
 	for key := range h {
 		if strings.HasPrefix(key, varied) {
-- 
2.43.0


From f8804d2890f63a9350a8e86dcbd3180f88942a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 39/47] fix: the browser's responses have the URL that it was
 redirected to

---
 antcdp/tx.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 64a59c4..2ed1f56 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"strconv"
 	"strings"
 
@@ -239,7 +240,18 @@ func (tx *tx) readcookies(ctx context.Context) error {
 }
 
 // Merge merges the given response into tx.resp.
+//
+// The response's request is the last one when the
+// browser has followed redirects.
 func (tx *tx) merge(resp network.Response) error {
+	if u, err := url.Parse(resp.URL); err == nil && u.Host != "" {
+		u.Fragment, u.RawFragment = tx.request.URL.Fragment, tx.request.URL.RawFragment
+		if u.String() != tx.request.URL.String() {
+			tx.resp.Request = tx.request.Clone(tx.request.Context())
+			tx.resp.Request.URL, tx.resp.Request.Host = u, ""
+		}
+	}
+
 	tx.resp.StatusCode = resp.Status
 	tx.resp.Status = fmt.Sprintf("%d %s", resp.Status, http.StatusText(resp.Status))
 
-- 
2.43.0


From 58e17f757e41c7a96ee9a48bbdca62f01ccdcbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:38 +0000
Subject: [PATCH 40/47] fix: an invalid expiry date is a time in the past

---
 antcache/rfc7234.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 4914010..abb02fc 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -117,6 +117,10 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 			lifetime, explicit = maxage, true
 		} else if exp, ok := expires(resp.Header); ok {
 			lifetime, explicit = exp.Sub(d), true
+		} else if resp.Header.Get("Expires") != "" {
+			// An invalid date, such as "0", is in the past.
+			// https://tools.ietf.org/html/rfc7234#section-5.3
+			explicit = true
 		}
 
 		// The request's max-age can only shorten the lifetime
-- 
2.43.0


From b3fafd7196f6753f6c9974188bd372300dc92568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:13 +0000
Subject: [PATCH 41/47] fix: the JSON scraper can be used again after its
 writer failed

---
 json.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index e2577c9..5a02392 100644
--- a/json.go
+++ b/json.go
@@ -27,7 +27,8 @@ import (
 // URLs on the page.
 func JSON(w io.Writer, t any, selectors ...string) Scraper {
 	var typ = reflect.TypeOf(t)
-	var enc = json.NewEncoder(w)
+	var lw = &linewriter{w: w}
+	var enc = json.NewEncoder(lw)
 
 	if typ.Kind() == reflect.Ptr {
 		typ = typ.Elem()
@@ -36,6 +37,7 @@ func JSON(w io.Writer, t any, selectors ...string) Scraper {
 	return &jsonscraper{
 		typ:       typ,
 		enc:       enc,
+		w:         lw,
 		selectors: selectors,
 	}
 }
@@ -44,6 +46,7 @@ func JSON(w io.Writer, t any, selectors ...string) Scraper {
 type jsonscraper struct {
 	typ       reflect.Type
 	enc       *json.Encoder
+	w         *linewriter
 	selectors []string
 	lock      sync.Mutex
 }
@@ -76,8 +79,30 @@ func (j *jsonscraper) Scrape(ctx context.Context, p *Page) (URLs, error) {
 }
 
 // Encode encodes the given v.
+//
+// An encoder keeps returning the first error of its writer, it is
+// replaced unless the writer was left with an incomplete line.
 func (j *jsonscraper) encode(v any) error {
 	j.lock.Lock()
 	defer j.lock.Unlock()
-	return j.enc.Encode(v)
+
+	err := j.enc.Encode(v)
+	if err != nil && j.w.n == 0 {
+		j.enc = json.NewEncoder(j.w)
+	}
+
+	return err
+}
+
+// Linewriter keeps the amount of bytes that were last written.
+type linewriter struct {
+	w io.Writer
+	n int
+}
+
+// Write implementation.
+func (lw *linewriter) Write(p []byte) (n int, err error) {
+	n, err = lw.w.Write(p)
+	lw.n = n
+	return
 }
-- 
2.43.0


From 622f678a933f1b789d7203e10a32a5278dbc44b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:18 +0000
Subject: [PATCH 42/47] fix: antcdp sends every value of the request's headers

---
 antcdp/tx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 2ed1f56..7b0deb5 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -284,8 +284,12 @@ func (tx *tx) setHeaders(ctx context.Context) error {
 	var dst = make(map[string]string)
 	var src = tx.request.Header
 
-	for k := range src {
-		dst[k] = src.Get(k)
+	for k, values := range src {
+		if k == "Cookie" {
+			dst[k] = strings.Join(values, "; ")
+		} else {
+			dst[k] = strings.Join(values, ", ")
+		}
 	}
 
 	buf, err := json.Marshal(dst)
-- 
2.43.0


From 6e622f571e96ae605604c3fbe9b262cdce15ad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:19 +0000
Subject: [PATCH 43/47] fix: antcdp returns the values of repeated response
 headers separately

---
 antcdp/tx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 7b0deb5..c95d5ef 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -264,7 +264,10 @@ func (tx *tx) merge(resp network.Response) error {
 		if tx.resp.Header == nil {
 			tx.resp.Header = make(http.Header)
 		}
-		tx.resp.Header.Set(k, v)
+		// The browser separates the values of repeated headers by newlines.
+		for _, value := range strings.Split(v, "\n") {
+			tx.resp.Header.Add(k, value)
+		}
 	}
 
 	if p := resp.Protocol; p != nil {
-- 
2.43.0


From 871d6f9420b36d56b0f6a340339b7a5e3de81177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:21 +0000
Subject: [PATCH 44/47] fix: antcdp reads the cookies of the page that it was
 redirected to

---
 antcdp/tx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index c95d5ef..108c84d 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -217,7 +217,7 @@ func (tx *tx) readbody(ctx context.Context) error {
 
 // Readcookies reads the cookies of the request's URL from CDP.
 func (tx *tx) readcookies(ctx context.Context) error {
-	var urls = []string{tx.request.URL.String()}
+	var urls = []string{tx.resp.Request.URL.String()}
 	var args = network.NewGetCookiesArgs().SetURLs(urls)
 
 	reply, err := tx.client.Network.GetCookies(ctx, args)
-- 
2.43.0


From c66f4aab0bf8c2b83f1093382f4b1bab792b3170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:23 +0000
Subject: [PATCH 45/47] fix: antcache understands dates in the obsolete formats

---
 antcache/utils.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/antcache/utils.go b/antcache/utils.go
index 822ae5d..a006e97 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -167,12 +167,22 @@ func nocache(h http.Header) bool {
 	return directivesFrom(h).has("no-cache")
 }
 
+// Parsetime parses an HTTP date in any of the formats that
+// RFC 7231 says recipients must accept.
+func parsetime(v string) (time.Time, error) {
+	t, err := time.Parse(time.RFC1123, v)
+	if err != nil {
+		return http.ParseTime(v)
+	}
+	return t, nil
+}
+
 // Expires returns the expires timestamp.
 //
 // When expires does not exist or is zero, ok is false.
 func expires(h http.Header) (expires time.Time, ok bool) {
 	if v := h.Get("Expires"); v != "" {
-		t, err := time.Parse(time.RFC1123, v)
+		t, err := parsetime(v)
 		expires, ok = t, (err == nil && !t.IsZero())
 	}
 	return
@@ -183,7 +193,7 @@ func expires(h http.Header) (expires time.Time, ok bool) {
 // When date does not exist or is zero, ok is false.
 func date(h http.Header) (date time.Time, ok bool) {
 	if v := h.Get("Date"); v != "" {
-		t, err := time.Parse(time.RFC1123, v)
+		t, err := parsetime(v)
 		date, ok = t, (err == nil && !t.IsZero())
 	}
 	return
-- 
2.43.0


From ee5e1f78fc99206109700a4d3bb1e8188aed1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:27 +0000
Subject: [PATCH 46/47] fix: a validation does not update the length and
 encoding of a cached body

---
 antcache/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/antcache/utils.go b/antcache/utils.go
index a006e97..f786929 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -19,6 +19,10 @@ func merge(a http.Header, b http.Header) {
 
 	for key := range b {
 		switch key {
+		// These describe the body, which is not updated.
+		case "Content-Encoding":
+		case "Content-Length":
+
 		case "Keep-Alive":
 		case "Proxy-Authenticate":
 		case "Proxy-Authorization":
-- 
2.43.0


From da66683c486c5f33331bae2567f0ff0eea219964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:13 +0000
Subject: [PATCH 47/47] fix: links without a host are skipped, they failed the
 crawl

---
 page.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/page.go b/page.go
index 1749a44..646c481 100644
--- a/page.go
+++ b/page.go
@@ -135,7 +135,9 @@ func (p *Page) resolve(selector string) URLs {
 
 			switch u.Scheme {
 			case "https", "http":
-				ret = append(ret, u)
+				if u.Hostname() != "" {
+					ret = append(ret, u)
+				}
 			}
 		}
 	}
-- 
2.43.0

