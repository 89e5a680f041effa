package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/yields/ant"
	"verifsim/plan"
)

type jsonA struct {
	Title string   `css:"h1" json:"title"`
	Items []string `css:"li.i" json:"items"`
	Nums  []int    `css:"li.i@data-n" json:"nums"`
}

type jsonB struct {
	Title string `css:"h1@data-v"`
	List  []struct {
		Text string `css:"*" json:"text"`
	} `css:"li" json:"list"`
	Missing string `css:".missing" json:",omitempty"`
}

// simWriter is a slow writer that takes data in pieces and may fail.
type simWriter struct {
	e     *Env
	p     *plan.JSON
	got   bytes.Buffer
	in    int
	calls int
	errs  []error
	whole map[int]bool // failing writes that accepted everything
	torn  bool         // a failing write accepted something

	lines []string // what failing writes were given
}

func (w *simWriter) Write(b []byte) (int, error) {
	k := w.calls
	w.calls++
	w.in++
	defer func() { w.in-- }()
	if w.in > 1 {
		w.e.V("overlap", "two writes reach the writer at once")
	}
	var fail error
	limit := len(b)
	for _, at := range w.p.FailAt {
		if at == k {
			limit = len(b) * w.p.FailFrac / 1000
			fail = newErr("writer failed", w.p.Temp)
			if limit < len(b) && k%2 == 1 && w.p.Attempts == 0 {
				fail = fmt.Errorf("write: %w", io.ErrShortWrite)
			}
			w.e.Fault("write-error")
		}
	}
	for done := 0; done < limit; {
		n := limit - done
		if w.p.Short > 0 {
			n = min(n, w.p.Short)
		}
		w.got.Write(b[done : done+n])
		done += n
		if done < limit && w.p.LatUs > 0 {
			time.Sleep(us(w.p.LatUs))
		}
	}
	if w.p.LatUs > 0 {
		time.Sleep(us(w.p.LatUs))
	}
	if fail != nil {
		w.errs = append(w.errs, fail)
		w.lines = append(w.lines, string(b))
		w.torn = w.torn || limit > 0
		return limit, fail
	}
	return len(b), nil
}

func jsonWorld(e *Env) {
	p := e.P.JSON
	w := &simWriter{e: e, p: p, whole: map[int]bool{}}
	title := func(i int) string { return fmt.Sprintf("page-%d-%s", i, p.Pages[i].Title) }
	doc := func(i int) []byte { return docHTML(title(i), p.Pages[i].Vals, p.Pages[i].Links, p.Pages[i].Pad) }
	src := newPageSource(e, p.HTTP, func(i int) ([]byte, plan.Attempt) {
		if i >= len(p.Pages) {
			return nil, plan.Attempt{Kind: "status", Code: 404}
		}
		pg := p.Pages[i]
		a := plan.Attempt{Kind: "ok", Frame: pg.Frame, Slow: pg.Slow, Lat: pg.StartUs}
		if pg.Cut < 1000 {
			a.Kind, a.Cut = "trunc", pg.Cut
		}
		d := doc(i)
		if p.Engine && i == 0 {
			s := "</body>"
			for j := 1; j < len(p.Pages); j++ {
				s = fmt.Sprintf(`<a class="next" href="/doc/%d">x</a>`, j) + s
			}
			d = bytes.Replace(d, []byte("</body>"), []byte(s), 1)
		}
		return d, a
	})
	var typ any
	want := func(i int) string {
		pg := p.Pages[i]
		var v any
		if p.Type%2 == 0 {
			a := jsonA{Title: title(i)}
			for k, s := range pg.Vals {
				a.Items = append(a.Items, s)
				a.Nums = append(a.Nums, k)
			}
			v = a
		} else {
			b := jsonB{Title: title(i)}
			for _, s := range pg.Vals {
				b.List = append(b.List, struct {
					Text string `css:"*" json:"text"`
				}{s})
			}
			v = b
		}
		x, _ := json.Marshal(v)
		return string(x)
	}
	switch p.Type {
	case 0:
		typ = jsonA{}
	case 1:
		typ = jsonB{}
	case 2:
		typ = &jsonA{}
	case 3:
		typ = &jsonB{}
	default:
		typ = map[string]string{}
	}
	sel := p.Selectors
	sc := ant.JSON(w, typ, sel...)
	badType := p.Type > 3

	type result struct {
		ok   bool
		err  error
		body *obsBody
	}
	res := map[int]*result{}
	dup := map[int]int{}
	scrape := func(i int, ctx context.Context, page *ant.Page, body *obsBody) (ant.URLs, error) {
		urls, err := sc.Scrape(ctx, page)
		e.Logf("scrape of page %d: %d urls, err %v", i, len(urls), err)
		if _, again := res[i]; again && res[i].ok {
			dup[i]++
		}
		if err == nil {
			dup[i]++
		}
		res[i] = &result{err == nil, err, body}
		bad := p.Pages[i].Cut < 1000
		switch {
		case bad && err == nil:
			e.V("partial", "page %d is reported as scraped although its body broke off", i)
		case bad && body != nil && body.err != nil && !errors.Is(err, body.err):
			e.V("wrap", "page %d: the error %v does not wrap the read error %v", i, err, body.err)
		case badType && err == nil:
			e.V("type", "scraping into a map reports no error")
		case !bad && !badType && err != nil:
			found := p.Engine && ctx.Err() != nil
			for k, x := range w.errs {
				// the writer has an incomplete line, or the page's line failed
				if w.torn || strings.Contains(nulls(w.lines[k]), nulls(want(i))) {
					found = found || errors.Is(err, x)
				}
			}
			if !found {
				e.V("error", "scraping page %d fails with %v, which is no error of writing its line", i, err)
			}
		}
		if err == nil && !(p.Engine && i == 0) {
			var x []string
			for k := 0; k < p.Pages[i].Links; k++ {
				if len(sel) == 0 || sel[0] == "a.next" && k%2 == 0 || len(sel) > 1 && false {
					x = append(x, [...]string{"http://p.test/l%d", "http://x.test/l%d", "http://p.test/doc/rel/l%d?q=1"}[k%3])
					x[len(x)-1] = strings.Replace(x[len(x)-1], "%d", itoa(k), 1)
				}
			}
			if g, want := urlList(urls), strings.Join(x, " "); g != want {
				e.V("urls", "page %d: the scraper returns the URLs %q instead of %q", i, g, want)
			}
		}
		return urls, err
	}
	var runErr error
	ok := e.within(24*time.Hour, func() {
		if p.Engine {
			bodies := map[string]*obsBody{}
			_ = bodies
			eng, err := ant.NewEngine(ant.EngineConfig{Impolite: true, Workers: 3, Fetcher: &ant.Fetcher{Client: src, MaxAttempts: max(1, p.Attempts)}, Scraper: scraperFunc(func(ctx context.Context, page *ant.Page) (ant.URLs, error) {
				i := -1
				fmt.Sscanf(page.URL.Path, "/doc/%d", &i)
				if i < 0 || i >= len(p.Pages) || strings.Contains(page.URL.Path, "rel") {
					return nil, nil
				}
				return scrape(i, ctx, page, nil)
			})})
			if err != nil {
				e.V("harness", "%v", err)
				return
			}
			runErr = eng.Run(context.Background(), "http://p.test/doc/0")
			return
		}
		var wg sync.WaitGroup
		for i := range p.Pages {
			wg.Add(1)
			go func() {
				defer wg.Done()
				u := fmt.Sprintf("http://p.test/doc/%d", i)
				_ = u
				page, body, err := src.fetch(i)
				if err != nil || page == nil {
					e.V("harness", "fetch of page %d: %v", i, err)
					return
				}
				_, err = scrape(i, context.Background(), page, nil)
				_ = body
				_ = err
			}()
		}
		wg.Wait()
	})
	if !ok {
		e.V("hang", "scraping does not end\n%s", firstLines(e.stack, 60))
		return
	}
	e.nontriv = len(res) >= 2
	// the writer must have received one line per successful page and nothing else
	out := w.got.String()
	lines := strings.Split(out, "\n")
	tail := lines[len(lines)-1]
	lines = lines[:len(lines)-1]
	count := map[int]int{}
	lookup := map[string]int{}
	for i := range p.Pages {
		lookup[nulls(want(i))] = i
	}
	for k, l := range lines {
		i, ok := lookup[nulls(l)]
		if !ok {
			var v any
			if json.Unmarshal([]byte(l), &v) != nil {
				e.V("torn", "line %d is not a JSON object: %q", k, short(l))
			} else {
				e.V("wrong", "line %d is not the data of any page: %q", k, short(l))
			}
			continue
		}
		count[i]++
	}
	if tail != "" && len(w.errs) == 0 {
		e.V("torn", "the output ends in an incomplete line %q although the writer never failed", short(tail))
	}
	for i := range p.Pages {
		r := res[i]
		if r == nil {
			if p.Engine && runErr == nil && len(w.errs) == 0 {
				e.V("lost", "page %d was not scraped", i)
			}
			continue
		}
		switch {
		case r.ok && count[i] != 1:
			e.V("lines", "page %d was scraped successfully and has %d lines", i, count[i])
		case !r.ok && count[i] > 0 && len(w.errs) == 0:
			e.V("lines", "scraping page %d failed (%v) and it has %d lines", i, r.err, count[i])
		case !r.ok && count[i] > 1:
			e.V("lines", "scraping page %d failed (%v) and it has %d lines", i, r.err, count[i])
		}
	}
	if p.Engine && p.Attempts > 0 && !badType {
		temporary := true
		for i := range p.Pages {
			n := 0
			for _, l := range w.lines {
				if strings.Contains(nulls(l), nulls(want(i))) {
					n++
				}
			}
			if n >= p.Attempts || p.Pages[i].Cut < 1000 {
				temporary = false
			}
		}
		if temporary {
			e.Probe("temporary-write-errors")
			if runErr != nil {
				e.V("temporary", "the crawl fails with %v although every failure of the writer was temporary and ended before attempt %d", runErr, p.Attempts)
			}
		}
	}
	if p.Engine {
		failed := false
		for _, r := range res {
			failed = failed || !r.ok
		}
		if failed && runErr == nil {
			e.V("engine", "the crawl reports success although a scrape failed")
		}
	}
	if len(res) > 1 {
		e.Probe("concurrent-pages")
	}
}

// nulls makes no difference between empty and missing lists.
func nulls(s string) string { return strings.ReplaceAll(s, ":null", ":[]") }

type scraperFunc func(context.Context, *ant.Page) (ant.URLs, error)

func (f scraperFunc) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) { return f(ctx, p) }
