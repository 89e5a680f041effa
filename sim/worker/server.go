package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"time"
)

// serve installs a small HTTP/1.1 server for every host of the site.
func (r *crawlRun) serve() {
	for _, h := range r.c.Hosts {
		addr := h.Name
		if !strings.Contains(addr, ":") {
			addr += ":80"
		}
		name := h.Name
		r.net.handlers[addr] = func(c *conn, k int) { r.serveConn(name, c) }
	}
}

func (r *crawlRun) serveConn(host string, c *conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		io.Copy(io.Discard, req.Body)
		if !r.answer(host, c, req) {
			return
		}
	}
}

// answer writes one response; it reports whether the connection stays open.
func (r *crawlRun) answer(host string, c *conn, req *http.Request) bool {
	path := req.URL.Path
	if path == "/robots.txt" || path == "/robots2.txt" {
		ver, _ := strconv.Atoi(req.Header.Get("X-Sim-Robots"))
		rb := r.robots(host, ver)
		if rb.Kind == "hang" {
			r.e.Fault("robots-hang")
			time.Sleep(60 * time.Second)
		}
		time.Sleep(us(rb.Lat))
		switch rb.Kind {
		case "none":
			return writeResp(c, 404, nil, []byte("<html>no robots</html>"), 0, 1000, 0)
		case "gone":
			return writeResp(c, 410, nil, []byte("<html>no robots</html>"), 1, 1000, 0)
		case "forbid":
			return writeResp(c, 403, nil, []byte("<html>no robots</html>"), 2, 1000, 0)
		case "reset":
			r.e.Fault("robots-reset")
			c.Reset()
			return false
		case "trunc":
			r.e.Fault("robots-truncated")
			return writeResp(c, 200, nil, []byte(robotsTxt(rb)), 0, 500, 0)
		case "redir":
			if path == "/robots.txt" {
				return writeResp(c, 302, []string{"Location: /robots2.txt"}, nil, 0, 1000, 0)
			}
		}
		code := 200
		if rb.Kind == "nonauth" {
			code = 203
		}
		return writeResp(c, code, []string{"Content-Type: text/plain"}, []byte(robotsTxt(rb)), rb.Pad%3, 1000, 0)
	}
	if s := strings.TrimPrefix(path, "/__r/"); s != path {
		i, err := strconv.Atoi(s)
		if err == nil && i >= 0 && i < len(r.pages) {
			return writeResp(c, 200, r.cacheHdr(), r.s.html(i), r.c.Pages[i].Frame, 1000, 0)
		}
	}
	i, n, ok := simHeader(req.Header.Get("X-Sim"))
	if !ok || i < 0 {
		return writeResp(c, 404, nil, []byte("not found"), 0, 1000, 0)
	}
	if key := normKey("http://" + req.Host + req.URL.RequestURI()); key != r.pages[i].key {
		r.e.Violate(r.e.P.Prop, "harness", "server asked for %s instead of %s", key, r.pages[i].key)
	}
	a, p := r.attempt(i, n), r.c.Pages[i]
	lat := a.Lat
	if a.Kind == "ok" || a.Kind == "redirect" {
		lat += p.Lat
	}
	time.Sleep(us(lat))
	switch a.Kind {
	case "ok":
		return writeResp(c, 200, r.cacheHdr(), r.s.html(i), p.Frame, 1000, p.Slow+a.Slow)
	case "redirect":
		r.e.Fault("redirect")
		return writeResp(c, 302, []string{"Location: /__r/" + strconv.Itoa(i)}, nil, 0, 1000, 0)
	case "trunc":
		r.e.Fault("body-truncated")
		return writeResp(c, 200, r.cacheHdr(), r.s.html(i), a.Frame, min(a.Cut, 990), a.Slow)
	case "status":
		r.e.Fault("status-" + strconv.Itoa(a.Code))
		return writeResp(c, a.Code, nil, bytes.Repeat([]byte("error page "), a.Body/11), a.Frame, 1000, a.Slow)
	case "hang":
		r.e.Fault("hang")
		time.Sleep(40 * time.Second)
		return false
	}
	r.e.Fault("net-" + a.Kind)
	c.Reset()
	return false
}

// writeResp writes a response with content-length (0), chunked (1) or
// close-delimited (2) framing; cut is the part of the body delivered, in per
// mille, before the connection breaks.
func writeResp(c *conn, code int, hdr []string, body []byte, frame, cut, slow int) bool {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", code, http.StatusText(code))
	ct := true
	for _, h := range hdr {
		b.WriteString(h + "\r\n")
		if strings.HasPrefix(h, "Content-Type:") {
			ct = false
		}
	}
	if ct {
		b.WriteString("Content-Type: text/html; charset=utf-8\r\n")
	}
	noBody := code == 204 || code == 304
	switch {
	case noBody:
	case frame == 1:
		b.WriteString("Transfer-Encoding: chunked\r\n")
	case frame == 2:
		b.WriteString("Connection: close\r\n")
	default:
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	if _, err := c.Write(b.Bytes()); err != nil {
		return false
	}
	if noBody {
		return true
	}
	send := body[:len(body)*cut/1000]
	var slept time.Duration
	for len(send) > 0 {
		n := min(len(send), 1<<10)
		if slow > 0 && slept+us(slow) <= maxDrain {
			slept += us(slow)
			time.Sleep(us(slow))
		}
		p := send[:n]
		if frame == 1 {
			p = append([]byte(fmt.Sprintf("%x\r\n", n)), append(append([]byte{}, p...), '\r', '\n')...)
		}
		if _, err := c.Write(p); err != nil {
			return false
		}
		send = send[n:]
	}
	if cut < 1000 && len(body) > 0 {
		if frame == 2 || len(body)%2 == 0 {
			c.Reset()
		} else {
			c.Close()
		}
		return false
	}
	switch frame {
	case 1:
		_, err := c.Write([]byte("0\r\n\r\n"))
		return err == nil
	case 2:
		c.Close()
		return false
	}
	return true
}
