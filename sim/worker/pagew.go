package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"html"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/yields/ant"
	xhtml "golang.org/x/net/html"
	"verifsim/plan"
)

func init() {
	worlds["page"] = pageWorld
	worlds["json"] = jsonWorld
}

// docHTML is a test document.
func docHTML(title string, items []string, links int, pad int) []byte {
	var b strings.Builder
	b.WriteString("<!doctype html><html><head><title>" + html.EscapeString(title) + "</title></head><body>")
	b.WriteString("<h1 id=\"t\" data-v=\"" + html.EscapeString(title) + "\">" + html.EscapeString(title) + "</h1><ul>")
	for i, s := range items {
		fmt.Fprintf(&b, "<li class=\"i\" data-n=\"%d\">%s</li>", i, html.EscapeString(s))
	}
	b.WriteString("</ul>")
	for i := 0; i < links; i++ {
		cls := "other"
		if i%2 == 0 {
			cls = "next"
		}
		fmt.Fprintf(&b, "<a class=\"%s\" href=\"%s\">l%d</a>", cls, [...]string{"/l%d", "http://x.test/l%d", "rel/l%d?q=1"}[i%3], i)
	}
	s := b.String()
	for i := 0; i < links; i++ {
		s = strings.Replace(s, "l%d", "l"+itoa(i), 1)
	}
	for len(s) < pad {
		s += "<p>padding " + itoa(len(s)) + "</p>"
	}
	return []byte(s + "</body></html>")
}

// pageSource makes pages through ant's fetcher, from scripted answers.
type pageSource struct {
	e      *Env
	http   bool
	bodies []*obsBody
	hc     *http.Client
	get    func(i int) (body []byte, a plan.Attempt)
}

func newPageSource(e *Env, viaHTTP bool, get func(i int) ([]byte, plan.Attempt)) *pageSource {
	s := &pageSource{e: e, http: viaHTTP, get: get}
	if viaHTTP {
		nw := newNet(e)
		nw.handlers["p.test:80"] = func(c *conn, k int) {
			defer c.Close()
			br := bufio.NewReader(c)
			for {
				req, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				var i int
				fmt.Sscanf(req.URL.Path, "/doc/%d", &i)
				b, a := get(i)
				if !serveScript(e, c, req.URL.Path, a, b, nil) {
					return
				}
			}
		}
		s.hc = &http.Client{Transport: newTransport()}
	}
	return s
}

// Do implements ant.Client.
func (s *pageSource) Do(req *http.Request) (resp *http.Response, err error) {
	var i int
	fmt.Sscanf(req.URL.Path, "/doc/%d", &i)
	if s.http {
		resp, err = s.hc.Do(req)
	} else {
		b, a := s.get(i)
		resp, err = script(s.e, req, a, b, nil, mix(s.e.P.Seed, uint64(i), uint64(len(s.bodies))))
	}
	if resp != nil && resp.Body != nil {
		ob := &obsBody{e: s.e, rc: resp.Body, what: fmt.Sprintf("page %d", i)}
		resp.Body = ob
		s.bodies = append(s.bodies, ob)
	}
	return
}

func (s *pageSource) fetch(i int) (*ant.Page, *obsBody, error) {
	f := &ant.Fetcher{Client: s, MaxAttempts: 1}
	u, _ := url.Parse(fmt.Sprintf("http://p.test/doc/%d", i))
	n := len(s.bodies)
	p, err := f.Fetch(context.Background(), u)
	var b *obsBody
	if len(s.bodies) > n {
		b = s.bodies[n]
	}
	return p, b, err
}

type scanT struct {
	Title string   `css:"h1"`
	V     string   `css:"h1@data-v"`
	Items []string `css:"li.i"`
	Nums  []int    `css:"li.i@data-n"`
	Links []struct {
		Text string `css:"*"`
	} `css:"a"`
}

// pageOp runs one operation and describes its result.
func pageOp(p *ant.Page, op string) (res string, err error, canFail bool) {
	switch op {
	case "doc":
		n, err := p.Document()
		if err != nil {
			if n != nil {
				return "document with error", err, true
			}
			return "", err, true
		}
		if n == nil {
			return "nil document", nil, true
		}
		var b bytes.Buffer
		if err := xhtml.Render(&b, n); err != nil {
			return "", err, true
		}
		return b.String(), nil, true
	case "html":
		s, err := p.HTML()
		return s, err, true
	case "scan":
		var v scanT
		err := p.Scan(&v)
		if err != nil && v.Title == "" && v.V == "" && v.Items == nil && v.Nums == nil && v.Links == nil {
			return "", err, true
		}
		return fmt.Sprintf("%#v", v), err, true
	case "next":
		u, err := p.Next("a.next")
		return urlList(u), err, true
	case "urls":
		return urlList(p.URLs()), nil, false
	case "query":
		l := p.Query("li.i")
		if len(l) == 0 {
			return "", nil, false
		}
		return fmt.Sprint(len(l), " ", l.Text()), nil, false
	case "text":
		return p.Text("h1"), nil, false
	}
	return "", nil, false
}

func urlList(u ant.URLs) string {
	var s []string
	for _, x := range u {
		s = append(s, x.String())
	}
	return strings.Join(s, " ")
}

// pageWorld uses one page from several goroutines.
func pageWorld(e *Env) {
	p := e.P.Page
	title := fmt.Sprintf("doc %d & <co>", p.Doc)
	doc := docHTML(title, p.Items, 5, p.Pad)
	at := plan.Attempt{Kind: "ok", Frame: p.Frame, Slow: p.LatUs}
	if p.Cut < 1000 {
		at = plan.Attempt{Kind: "trunc", Cut: p.Cut, Frame: p.Frame, Slow: p.LatUs, Code: p.Doc % 2}
	}
	src := newPageSource(e, p.HTTP, func(i int) ([]byte, plan.Attempt) {
		if i == 1 {
			return doc, plan.Attempt{Kind: "ok"}
		}
		return doc, at
	})
	page, body, err := src.fetch(0)
	if err != nil || page == nil {
		e.Violate("C15", "harness", "fetch: %v %v", page, err)
		return
	}
	ref := map[string]string{}
	for _, op := range []string{"doc", "html", "scan", "next", "urls", "query", "text"} {
		q, _, err := src.fetch(1)
		if err != nil {
			e.Violate("C15", "harness", "reference fetch: %v", err)
			return
		}
		res, err, _ := pageOp(q, op)
		if err != nil {
			e.Violate("C15", "reference", "%s of a complete page fails: %v", op, err)
		}
		ref[op] = res
	}
	// the reference pages share p.test; relative links resolve alike
	if !strings.Contains(ref["scan"], "doc "+itoa(p.Doc)) || ref["next"] == "" || !strings.Contains(ref["html"], "</ul>") {
		e.Violate("C15", "reference", "a page used alone gives %q %q", ref["scan"], ref["next"])
	}
	ops := 0
	partial := p.Cut < 1000
	if partial {
		e.Probe("partial-body")
	}
	var wg sync.WaitGroup
	ok := e.within(24*time.Hour, func() {
		for ci, cl := range p.Callers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, op := range cl {
					if op == "yield" {
						runtime.Gosched()
						continue
					}
					res, err, canFail := pageOp(page, op)
					ops++
					e.Logf("caller %d %s -> %d bytes err=%v", ci, op, len(res), err)
					switch {
					case partial:
						if res != "" {
							e.Violate("C15", "partial-data", "caller %d: %s of a page whose body broke off after %d of %d bytes returns %q", ci, op, body.n, len(doc), short(res))
						}
						if canFail && err == nil {
							e.Violate("C15", "no-error", "caller %d: %s of a page whose body broke off reports no error", ci, op)
						}
						if err != nil && body.err != nil && !errors.Is(err, body.err) {
							e.Violate("C15", "wrap", "caller %d: %s reports %v, which does not wrap the read error %v", ci, op, err, body.err)
						}
					case err != nil:
						e.Violate("C15", "error", "caller %d: %s of a complete page fails: %v", ci, op, err)
					case res != ref[op]:
						e.Violate("C15", "different", "caller %d: %s gives %q, a page used alone gives %q", ci, op, short(res), short(ref[op]))
					}
				}
			}()
		}
		wg.Wait()
	})
	if !ok {
		e.Violate("C15", "hang", "page operations do not return\n%s", firstLines(e.stack, 60))
		return
	}
	if ops > 0 {
		if body.overlap {
			e.Violate("C15", "read-twice", "the body is read by two goroutines at once")
		}
		if body.late > 0 {
			e.Violate("C15", "read-twice", "the body is read again after it was closed")
		}
		if msg := body.drained(); msg != "" {
			e.Violate("C11", "undrained", "%s", msg)
			e.Violate("C15", "unread", "after parsing, %s", msg)
		}
		if len(p.Callers) > 1 {
			e.Probe("several-callers")
		}
	}
	e.nontriv = ops >= 3
}
