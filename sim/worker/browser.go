package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/url"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/yields/ant/antcdp"
	"verifsim/plan"
)

func init() { worlds["cdp"] = cdpWorld }

// browser is a scripted browser: tabs, sessions, navigations and a cookie jar
// behind the debugger protocol.
type browser struct {
	r       *cdpRun
	e       *Env
	p       *plan.CDP
	tabs    []*btab
	conns   []*bconn
	navs    []*bnav
	cookies []bcookie
	counts  map[string]int
	down    bool
	fired   int // faults so far
	noFlt   bool
	creates []time.Duration
	silent  []*conn // handshakes that are never answered
	orphans bool    // a created tab may be unknown to the client
}

type bcookie struct{ name, value, host, path string }

type btab struct {
	id      string
	n       int
	gone    bool // closed or destroyed
	crashed bool
	doc     *bnav
	nav     *bnav // in progress
	conns   []*bconn
	user    *cjob // last request that navigated
	late    *time.Timer
}

type bconn struct {
	b               *browser
	t               *btab
	c               *conn
	net, page, life bool
	hdr             map[string]string
	job             *cjob
	dead            bool
	refused         string // a command that was answered with an error
}

type bnav struct {
	conn      *bconn
	host      int  // of the document, after redirects
	proto     bool // the browser tells the protocol
	id        int
	loader    string
	url       string
	job       *cjob
	page      plan.CPage
	script    bool
	at        time.Duration
	committed bool
	ready     bool
	dead      bool
	size      int
}

func (n *bnav) html() string {
	pad := strings.Repeat("x", n.size)
	if n.size > 20 {
		pad = "<p>\u00fc\u4e16" + pad + "</p>"
	}
	return fmt.Sprintf("<html><head><title>nav %d</title></head><body>%s %s<i>end %d</i></body></html>", n.id, n.url, pad, n.id)
}

// multi returns the values of the response header that is repeated.
func (n *bnav) multi() []string {
	l := []string{}
	for i := 0; i < n.page.Multi; i++ {
		l = append(l, fmt.Sprintf("m%d.%d", n.id, i))
	}
	return l
}

func (n *bnav) partial() string {
	return fmt.Sprintf("<html><head><title>nav %d</title></head><body></body></html>", n.id)
}

// fault returns the fault planned for this occurrence of a step.
func (b *browser) fault(step string) string {
	k := b.counts[step]
	b.counts[step] = k + 1
	if b.noFlt {
		return ""
	}
	for _, f := range b.p.Faults {
		if f.Step == step && f.Nth == k {
			b.fired++
			b.e.Fault("browser " + f.Kind + " at " + f.Step)
			return f.Kind
		}
	}
	return ""
}

func (b *browser) lat() {
	if b.p.LatUs > 0 {
		b.counts["lat"]++
		time.Sleep(us(int(mix(b.e.P.Seed, uint64(b.counts["lat"]), 77) % uint64(b.p.LatUs+1))))
	}
}

func (b *browser) serve(c *conn, k int) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		io.Copy(io.Discard, req.Body)
		if b.down {
			c.Reset()
			return
		}
		if strings.HasPrefix(req.URL.Path, "/devtools/page/") {
			b.upgrade(c, br, req)
			return
		}
		if !b.http(c, req) {
			return
		}
	}
}

func (b *browser) tabJSON(t *btab) map[string]any {
	return map[string]any{"description": "", "devtoolsFrontendUrl": "/devtools/inspector.html?ws=127.0.0.1:9222/devtools/page/" + t.id, "id": t.id, "title": "", "type": "page", "url": "about:blank", "webSocketDebuggerUrl": "ws://127.0.0.1:9222/devtools/page/" + t.id}
}

func (b *browser) http(c *conn, req *http.Request) bool {
	step := strings.TrimPrefix(req.URL.Path, "/json/")
	id := ""
	if i := strings.IndexByte(step, '/'); i >= 0 {
		step, id = step[:i], step[i+1:]
	}
	b.e.Logf("browser http %s %s", req.Method, req.URL.Path)
	if step == "new" && req.Method != "PUT" {
		return writeResp(c, 405, nil, []byte("Using unsafe HTTP verb GET to invoke /json/new. This action supports only PUT verb."), 0, 1000, 0)
	}
	f := b.fault(step)
	b.lat()
	switch f {
	case "drop", "partial", "crash", "gone":
		c.Reset()
		return false
	case "hang":
		time.Sleep(10 * time.Minute)
		return false
	case "garbage":
		return writeResp(c, 200, nil, []byte("{garbage"), 0, 1000, 0)
	case "error", "http500":
		return writeResp(c, 500, nil, []byte("browser error"), 0, 1000, 0)
	}
	var v any
	switch step {
	case "version":
		v = map[string]any{"Browser": "HeadlessChrome/120.0", "Protocol-Version": "1.3", "webSocketDebuggerUrl": "ws://127.0.0.1:9222/devtools/browser/1"}
	case "new":
		t := &btab{id: fmt.Sprintf("T%d", len(b.tabs)), n: len(b.tabs)}
		t.doc = &bnav{id: -1, loader: "L-" + t.id, url: "about:blank", committed: true, ready: true}
		b.creating()
		b.tabs = append(b.tabs, t)
		b.e.Logf("tab %s created", t.id)
		for _, x := range b.p.Tabs {
			if x.Tab == t.n && !b.noFlt {
				time.AfterFunc(time.Duration(x.AtUs)*time.Microsecond, func() {
					if !t.gone && !b.noFlt {
						b.fired++
						b.e.Fault("tab " + x.Kind)
						if x.Kind == "crash" {
							b.crash(t)
						} else {
							b.destroy(t)
						}
					}
				})
			}
		}
		v = b.tabJSON(t)
	case "list", "":
		l := []any{}
		for _, t := range b.tabs {
			if !t.gone {
				l = append(l, b.tabJSON(t))
			}
		}
		v = l
	case "close":
		for _, t := range b.tabs {
			if t.id == id && !t.gone {
				b.e.Logf("tab %s closed", t.id)
				b.destroy(t)
				b.e.Probe("tab closed by the client")
				return writeResp(c, 200, nil, []byte("Target is closing"), 0, 1000, 0)
			}
		}
		return writeResp(c, 404, nil, []byte("No such target id: "+id), 0, 1000, 0)
	case "activate":
		return writeResp(c, 200, nil, []byte("Target activated"), 0, 1000, 0)
	default:
		return writeResp(c, 404, nil, []byte("unknown command"), 0, 1000, 0)
	}
	j, _ := json.Marshal(v)
	return writeResp(c, 200, []string{"Content-Type: application/json"}, j, 0, 1000, 0)
}

func (b *browser) crash(t *btab) {
	t.crashed = true
	b.emit(t, "Inspector.targetCrashed", map[string]any{})
}

func (b *browser) destroy(t *btab) {
	t.gone = true
	if t.late != nil {
		t.late.Stop()
	}
	for _, n := range []*bnav{t.doc, t.nav} {
		if n != nil {
			n.dead = true
		}
	}
	for _, c := range t.conns {
		c.dead = true
		c.c.Close()
	}
}

// restart loses everything.
func (b *browser) restart(d time.Duration) {
	b.e.Fault("browser restart")
	b.fired++
	b.down = true
	for _, t := range b.tabs {
		if !t.gone {
			b.destroy(t)
		}
	}
	for _, c := range b.r.net.conns {
		if !c.peer.IsClosed() {
			c.peer.Reset()
		}
	}
	b.cookies = nil
	time.AfterFunc(d, func() { b.down = false })
}

func (b *browser) upgrade(c *conn, br *bufio.Reader, req *http.Request) {
	id := strings.TrimPrefix(req.URL.Path, "/devtools/page/")
	f := b.fault("handshake")
	b.lat()
	switch f {
	case "hang":
		b.silent = append(b.silent, c)
		time.Sleep(10 * time.Minute)
		return
	case "drop", "crash", "gone":
		c.Reset()
		return
	case "partial":
		c.Write([]byte("HTTP/1.1 101 Switching"))
		c.Reset()
		return
	case "error", "http500":
		writeResp(c, 500, nil, []byte("no session"), 0, 1000, 0)
		return
	case "garbage":
		c.Write([]byte("garbage\r\n\r\n"))
		return
	}
	var t *btab
	for _, x := range b.tabs {
		if x.id == id && !x.gone {
			t = x
		}
	}
	if t == nil {
		writeResp(c, 404, nil, []byte("No such target id: "+id), 0, 1000, 0)
		return
	}
	h := sha1.Sum([]byte(req.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	fmt.Fprintf(c, "HTTP/1.1 101 WebSocket Protocol Handshake\r\nUpgrade: WebSocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n", base64.StdEncoding.EncodeToString(h[:]))
	k := &bconn{b: b, t: t, c: c}
	b.e.Logf("session on tab %s", t.id)
	for _, o := range t.conns {
		if !o.c.peer.IsClosed() {
			b.e.only("C41", "shared tab", "a second debugger connection to tab %s is opened while one is in use", t.id)
		}
	}
	t.conns = append(t.conns, k)
	b.conns = append(b.conns, k)
	for {
		msg, err := readFrame(br, k)
		if err != nil {
			break
		}
		if !k.handle(msg) {
			break
		}
	}
	k.dead = true
	for i, o := range t.conns {
		if o == k {
			t.conns = append(t.conns[:i:i], t.conns[i+1:]...)
			break
		}
	}
}

// readFrame reads one message of the client.
func readFrame(br *bufio.Reader, k *bconn) ([]byte, error) {
	var msg []byte
	for {
		var h [2]byte
		if _, err := io.ReadFull(br, h[:]); err != nil {
			return nil, err
		}
		n := int64(h[1] & 127)
		switch n {
		case 126:
			var x [2]byte
			if _, err := io.ReadFull(br, x[:]); err != nil {
				return nil, err
			}
			n = int64(binary.BigEndian.Uint16(x[:]))
		case 127:
			var x [8]byte
			if _, err := io.ReadFull(br, x[:]); err != nil {
				return nil, err
			}
			n = int64(binary.BigEndian.Uint64(x[:]))
		}
		var mask [4]byte
		if h[1]&128 != 0 {
			if _, err := io.ReadFull(br, mask[:]); err != nil {
				return nil, err
			}
		}
		p := make([]byte, n)
		if _, err := io.ReadFull(br, p); err != nil {
			return nil, err
		}
		for i := range p {
			p[i] ^= mask[i%4]
		}
		switch h[0] & 15 {
		case 8:
			return nil, io.EOF
		case 9:
			k.frame(10, true, p)
			continue
		case 10:
			continue
		}
		msg = append(msg, p...)
		if h[0]&128 != 0 {
			return msg, nil
		}
	}
}

func wsFrame(op byte, fin bool, p []byte) []byte {
	var b bytes.Buffer
	if fin {
		op |= 128
	}
	b.WriteByte(op)
	switch {
	case len(p) < 126:
		b.WriteByte(byte(len(p)))
	case len(p) < 1<<16:
		b.WriteByte(126)
		binary.Write(&b, binary.BigEndian, uint16(len(p)))
	default:
		b.WriteByte(127)
		binary.Write(&b, binary.BigEndian, uint64(len(p)))
	}
	b.Write(p)
	return b.Bytes()
}

func (k *bconn) frame(op byte, fin bool, p []byte) {
	b := wsFrame(op, fin, p)
	if n := k.b.p.Chunk; n > 0 {
		for len(b) > n {
			k.c.Write(b[:n])
			b = b[n:]
		}
	}
	k.c.Write(b)
}

func (k *bconn) send(v any) {
	if k.dead || k.t.crashed {
		return
	}
	j, _ := json.Marshal(v)
	if k.b.p.Ping && len(j)%3 == 0 {
		k.frame(9, true, []byte("ping"))
	}
	op := byte(1)
	if n := k.b.p.Frag; n > 0 {
		for len(j) > n {
			k.frame(op, false, j[:n])
			j, op = j[n:], 0
		}
	}
	k.frame(op, true, j)
}

// emit sends an event to the sessions of the tab.
func (b *browser) emit(t *btab, method string, params map[string]any) {
	for _, k := range t.conns {
		on := true
		switch {
		case strings.HasPrefix(method, "Network."):
			on = k.net
		case method == "Page.lifecycleEvent":
			on = k.page && k.life
		case strings.HasPrefix(method, "Page."):
			on = k.page
		}
		if on {
			k.send(map[string]any{"method": method, "params": params})
		}
	}
}

func (b *browser) ts() float64 { return 1000 + float64(b.e.Us())/1e6 }

type bmsg struct {
	ID     int64
	Method string
	Params json.RawMessage
}

func (k *bconn) handle(msg []byte) bool {
	b := k.b
	var m bmsg
	if err := json.Unmarshal(msg, &m); err != nil {
		b.e.V("protocol", "the client sent %.100q", msg)
		return false
	}
	f := b.fault(m.Method)
	b.lat()
	b.e.Logf("%s %s %.200s", k.t.id, m.Method, m.Params)
	switch f {
	case "hang":
		return true
	case "drop":
		k.c.Reset()
		return false
	case "partial":
		k.c.Write(wsFrame(1, true, []byte(`{"id":12345,"result":{}}`))[:9])
		k.c.Reset()
		return false
	case "garbage":
		k.frame(1, true, []byte("{garbage]"))
		return true
	case "crash":
		b.crash(k.t)
		return true
	case "gone":
		b.destroy(k.t)
		return false
	case "error", "http500":
		k.refused = m.Method
		k.send(map[string]any{"id": m.ID, "error": map[string]any{"code": -32000, "message": "injected " + m.Method}})
		return true
	}
	if k.t.crashed || k.dead {
		return true
	}
	res, err := k.command(m)
	if res == nil && err == "" {
		return true
	}
	if err != "" {
		k.send(map[string]any{"id": m.ID, "error": map[string]any{"code": -32000, "message": err}})
		return true
	}
	k.send(map[string]any{"id": m.ID, "result": res})
	return true
}

func hostOf(raw string) (host, path string) {
	u, err := url.Parse(raw)
	if err != nil {
		return "", ""
	}
	return u.Hostname(), u.Path
}

func (b *browser) setCookie(name, value, rawurl, domain, path string) {
	h, _ := hostOf(rawurl)
	if domain != "" {
		h = strings.TrimPrefix(domain, ".")
	}
	if path == "" {
		path = "/"
	}
	for i, c := range b.cookies {
		if c.name == name && c.host == h && c.path == path {
			b.cookies[i].value = value
			return
		}
	}
	b.cookies = append(b.cookies, bcookie{name, value, h, path})
}

func cookieJSON(l []bcookie) map[string]any {
	out := []any{}
	for _, c := range l {
		out = append(out, map[string]any{"name": c.name, "value": c.value, "domain": c.host, "path": c.path, "expires": -1, "size": len(c.name) + len(c.value), "httpOnly": false, "secure": false, "session": true})
	}
	return map[string]any{"cookies": out}
}

func (b *browser) cookiesFor(urls ...string) []bcookie {
	var l []bcookie
	for _, c := range b.cookies {
		for _, u := range urls {
			if h, p := hostOf(u); h == c.host && strings.HasPrefix(p+"/", c.path) {
				l = append(l, c)
				break
			}
		}
	}
	return l
}

// command executes one command; a nil result with no error is no reply yet.
func (k *bconn) command(m bmsg) (map[string]any, string) {
	b, t := k.b, k.t
	ok := map[string]any{}
	var a struct {
		URL       string
		URLs      []string
		Headers   map[string]string
		Enabled   bool
		NodeID    *int
		BackendID *int `json:"backendNodeId"`
		Cookies   []struct{ Name, Value, URL, Domain, Path string }
		Name      string
		Value     string
		Domain    string
		Path      string
	}
	if len(m.Params) > 0 {
		if err := json.Unmarshal(m.Params, &a); err != nil {
			return nil, "Invalid parameters: " + err.Error()
		}
	}
	switch m.Method {
	case "Page.enable":
		k.page = true
	case "Page.disable":
		k.page = false
	case "Network.enable":
		k.net = true
	case "Network.disable":
		k.net = false
	case "Page.setLifecycleEventsEnabled":
		k.life = a.Enabled
		if d := t.doc; k.life && d != nil && k.page { // what has happened
			for _, n := range []string{"init", "DOMContentLoaded", "load", "networkIdle"} {
				if n == "init" || d.ready {
					k.send(map[string]any{"method": "Page.lifecycleEvent", "params": map[string]any{"frameId": t.id, "loaderId": d.loader, "name": n, "timestamp": b.ts()}})
				}
			}
		}
	case "Network.setExtraHTTPHeaders":
		k.hdr = a.Headers
	case "Storage.setCookies", "Network.setCookies":
		for _, c := range a.Cookies {
			if c.URL == "" && c.Domain == "" {
				return nil, "Invalid cookie fields"
			}
			b.setCookie(c.Name, c.Value, c.URL, c.Domain, c.Path)
		}
	case "Network.setCookie":
		b.setCookie(a.Name, a.Value, a.URL, a.Domain, a.Path)
		return map[string]any{"success": true}, ""
	case "Storage.getCookies", "Network.getAllCookies":
		return cookieJSON(b.cookies), ""
	case "Network.getCookies":
		if len(a.URLs) == 0 {
			a.URLs = []string{t.doc.url}
		}
		return cookieJSON(b.cookiesFor(a.URLs...)), ""
	case "Page.getFrameTree":
		return map[string]any{"frameTree": map[string]any{"frame": map[string]any{"id": t.id, "loaderId": t.doc.loader, "url": t.doc.url, "securityOrigin": "", "mimeType": "text/html"}}}, ""
	case "DOM.enable", "DOM.disable", "Inspector.enable", "Runtime.enable", "Page.stopLoading", "Page.bringToFront", "Network.setCacheDisabled", "Target.setAutoAttach":
	case "DOM.getDocument":
		return map[string]any{"root": map[string]any{"nodeId": t.doc.id*10 + 20, "backendNodeId": t.doc.id*10 + 21, "nodeType": 9, "nodeName": "#document", "localName": "", "nodeValue": "", "childNodeCount": 1, "documentURL": t.doc.url}}, ""
	case "DOM.getOuterHTML":
		d := t.doc
		if a.NodeID != nil && *a.NodeID != d.id*10+20 || a.BackendID != nil && *a.BackendID != d.id*10+21 {
			return nil, "Could not find node with given id"
		}
		s := d.partial()
		if d.ready {
			s = d.html()
		}
		return map[string]any{"outerHTML": s}, ""
	case "Page.navigate":
		return k.navigate(m.ID, a.URL)
	case "Page.close":
		b.destroy(t)
		return nil, ""
	default:
		b.e.V("harness", "the scripted browser does not know %s", m.Method)
		return nil, "'" + m.Method + "' wasn't found"
	}
	return ok, ""
}

func (k *bconn) navigate(id int64, raw string) (map[string]any, string) {
	b, t := k.b, k.t
	u, err := url.Parse(raw)
	if err != nil || u.Scheme == "" {
		return nil, "Cannot navigate to invalid URL"
	}
	frag := u.Fragment
	u.Fragment = ""
	plain := u.String()
	if frag != "" && t.doc.url == plain && t.doc.committed && t.nav == nil {
		b.emit(t, "Page.navigatedWithinDocument", map[string]any{"frameId": t.id, "url": raw})
		b.e.Probe("navigation within the document")
		return map[string]any{"frameId": t.id}, ""
	}
	n := &bnav{id: len(b.navs), url: plain, at: b.e.Now()}
	n.loader = fmt.Sprintf("L%d", n.id)
	b.navs = append(b.navs, n)
	if plain == "about:blank" {
		n.page = plan.CPage{Status: 200}
	} else if j := b.r.header(k, raw); j != nil {
		n.job, n.page, n.size, n.host = j, j.p.Page, j.p.Page.Size, j.p.Host
		for _, o := range t.conns {
			if o != k && !o.c.peer.IsClosed() {
				b.e.only("C41", "shared tab", "tab %s is navigated for request %d while another request is using it", t.id, j.id)
			}
		}
		t.user, k.job, n.conn = j, j, k
		j.navd = true
	}
	b.start(t, n, k, id)
	return nil, ""
}

// start replaces what the tab is doing.
func (b *browser) start(t *btab, n *bnav, k *bconn, id int64) {
	if t.late != nil {
		t.late.Stop()
	}
	if t.nav != nil {
		t.nav.dead = true
	}
	t.nav = n
	go b.load(t, n, k, id)
}

func (b *browser) load(t *btab, n *bnav, k *bconn, id int64) {
	p := n.page
	reply := func() {
		if k == nil {
			return
		}
		res := map[string]any{"frameId": t.id, "loaderId": n.loader}
		if p.NavErr != "" {
			res["errorText"] = p.NavErr
		}
		k.send(map[string]any{"id": id, "result": res})
		k = nil
	}
	doc := n.url != "about:blank"
	req := func(rid, loader, url, typ, frame string) map[string]any {
		return map[string]any{"requestId": rid, "loaderId": loader, "documentURL": n.url, "request": map[string]any{"url": url, "method": "GET", "headers": map[string]any{}, "initialPriority": "VeryHigh", "referrerPolicy": "no-referrer"}, "timestamp": b.ts(), "wallTime": 1.7e9, "initiator": map[string]any{"type": "other"}, "redirectHasExtraInfo": false, "type": typ, "frameId": frame}
	}
	res := func(rid, loader, url, typ, frame string, status int, hdr map[string]any) map[string]any {
		r := map[string]any{"url": url, "status": status, "statusText": "", "headers": hdr, "mimeType": "text/html", "connectionReused": false, "connectionId": 1, "encodedDataLength": 10, "securityState": "insecure"}
		if !p.Old {
			r["protocol"] = "http/1.1"
			n.proto = true
		}
		ev := map[string]any{"requestId": rid, "loaderId": loader, "timestamp": b.ts(), "type": typ, "response": r, "hasExtraInfo": false}
		if !p.NoFrame || frame != t.id {
			ev["frameId"] = frame
		}
		return ev
	}
	if p.Early && p.NavErr == "" {
		reply()
	}
	if doc {
		b.emit(t, "Network.requestWillBeSent", req(n.loader, n.loader, n.url, "Document", t.id))
	}
	sub := func(i int, before bool) {
		s := p.Subs[i]
		if s.Before != before {
			return
		}
		rid, typ, frame, loader := fmt.Sprintf("%s.%d", n.loader, i), "Script", t.id, n.loader
		if s.Doc {
			frame = fmt.Sprintf("%s-F%d", t.id, i)
			loader = fmt.Sprintf("%sF%d", n.loader, i)
			typ, rid = "Document", loader
		}
		u := fmt.Sprintf("%s/sub%d", n.url, i)
		b.emit(t, "Network.requestWillBeSent", req(rid, loader, u, typ, frame))
		if s.Never {
			return
		}
		go func() {
			time.Sleep(us(s.Lat))
			if n.dead || t.gone || t.doc != n && t.nav != n {
				return
			}
			b.emit(t, "Network.responseReceived", res(rid, loader, u, typ, frame, 299, map[string]any{"X-Sub": "yes", "X-Nav": "sub"}))
			b.emit(t, "Network.loadingFinished", map[string]any{"requestId": rid, "timestamp": b.ts(), "encodedDataLength": 10})
			if s.Doc {
				b.emit(t, "Page.lifecycleEvent", map[string]any{"frameId": frame, "loaderId": loader, "name": "DOMContentLoaded", "timestamp": b.ts()})
			}
		}()
	}
	for i := range p.Subs {
		sub(i, true)
	}
	time.Sleep(us(p.Lat))
	for i := 0; i < p.Redirect && !n.dead; i++ {
		from := n.url
		n.url = fmt.Sprintf("%s/to/%d/", from, i)
		if i == p.Redirect-1 && p.Moved > 0 && n.job != nil {
			n.host = (p.Moved - 1) % max(1, b.r.p.Hosts)
			n.url = fmt.Sprintf("http://s%d.test/moved/%d", n.host, n.job.id)
			b.e.Probe("redirected to another host")
		}
		ev := req(n.loader, n.loader, n.url, "Document", t.id)
		ev["redirectResponse"] = map[string]any{"url": from, "status": 302, "statusText": "Found", "headers": map[string]any{"X-Nav": "redirect"}, "mimeType": "", "connectionReused": false, "connectionId": 1, "encodedDataLength": 10, "securityState": "insecure"}
		b.emit(t, "Network.requestWillBeSent", ev)
		time.Sleep(us(p.Lat))
	}
	if n.dead || t.gone || t.crashed {
		if k != nil && !t.gone && !t.crashed {
			p.NavErr = "net::ERR_ABORTED"
			reply()
		}
		return
	}
	if p.NavErr != "" {
		b.emit(t, "Network.loadingFailed", map[string]any{"requestId": n.loader, "timestamp": b.ts(), "type": "Document", "errorText": p.NavErr})
		n.url, n.size = "chrome-error://chromewebdata/", 0
	} else if doc {
		h, _ := hostOf(n.url)
		if n.job != nil {
			for i := 0; i < p.Cookies; i++ {
				name, val := n.job.srvCookie(n, i)
				b.cookies = append(b.cookies, bcookie{name, val, h, "/"})
			}
		}
		hdr := map[string]any{"X-Nav": fmt.Sprint(n.id), "Content-Type": "text/html; charset=utf-8", "Content-Length": "7"}
		if p.NoHdr {
			hdr = map[string]any{}
			b.e.Probe("response without headers")
		}
		if p.Multi > 0 { // Chrome separates the values of repeated headers by newlines
			hdr["X-Multi"] = strings.Join(n.multi(), "\n")
		}
		b.emit(t, "Network.responseReceived", res(n.loader, n.loader, n.url, "Document", t.id, p.Status, hdr))
	}
	old := t.doc
	if old != nil {
		old.dead = true
	}
	t.doc, t.nav, n.committed = n, nil, true
	for i := range p.Subs {
		sub(i, false)
	}
	reply()
	b.emit(t, "Page.frameNavigated", map[string]any{"frame": map[string]any{"id": t.id, "loaderId": n.loader, "url": n.url, "securityOrigin": "", "mimeType": "text/html"}})
	b.emit(t, "Page.lifecycleEvent", map[string]any{"frameId": t.id, "loaderId": n.loader, "name": "init", "timestamp": b.ts()})
	if doc {
		b.emit(t, "Network.loadingFinished", map[string]any{"requestId": n.loader, "timestamp": b.ts(), "encodedDataLength": 10})
	}
	time.Sleep(us(p.ReadyLat))
	if n.dead || t.gone || t.crashed {
		return
	}
	n.ready = true
	b.emit(t, "Page.domContentEventFired", map[string]any{"timestamp": b.ts()})
	b.emit(t, "Page.lifecycleEvent", map[string]any{"frameId": t.id, "loaderId": n.loader, "name": "DOMContentLoaded", "timestamp": b.ts()})
	if p.LateUs > 0 {
		t.late = time.AfterFunc(time.Duration(p.LateUs)*time.Microsecond, func() {
			if n.dead || t.gone || t.crashed || t.nav != nil {
				return
			}
			b.e.Probe("page navigated itself")
			if n.job != nil {
				n.job.self = true
			}
			x := &bnav{id: len(b.navs), url: n.url + "/next", at: b.e.Now(), script: true, size: 30}
			x.loader = fmt.Sprintf("L%d", x.id)
			x.page = plan.CPage{Status: 203, Lat: p.Lat, ReadyLat: p.ReadyLat}
			b.navs = append(b.navs, x)
			b.start(t, x, nil, 0)
		})
	}
	time.Sleep(us(p.ReadyLat / 2))
	for _, s := range p.Subs {
		if s.Never {
			return
		}
	}
	if !n.dead && !t.gone && !t.crashed {
		b.emit(t, "Page.loadEventFired", map[string]any{"timestamp": b.ts()})
		b.emit(t, "Page.lifecycleEvent", map[string]any{"frameId": t.id, "loaderId": n.loader, "name": "load", "timestamp": b.ts()})
	}
}

// cjob is one request.
type cjob struct {
	r          *cdpRun
	id         int
	p          plan.CJob
	url        string
	start, end time.Duration
	running    bool
	ended      bool
	canceled   time.Duration // when its context ended, 0: never
	done       chan struct{}
	self       bool // its page navigated itself
	nav        *bnav
	err        error
	fired      int // faults before it started
	must       bool
	navd       bool // its navigation started
	lost       bool // it ended while its tab may have been created
}

func (j *cjob) active() bool { return j.running }

func (j *cjob) srvCookie(n *bnav, i int) (string, string) {
	return fmt.Sprintf("h%d_s%d_%d", n.host, j.id, i), fmt.Sprintf("sv%d", j.id*10+i)
}

// values are the values of a request header.
func (j *cjob) values(i int) []string {
	l := []string{fmt.Sprint(j.id*100 + i)}
	for k := 0; k < j.p.Values; k++ {
		l = append(l, fmt.Sprintf("%d.%d", j.id*100+i, k))
	}
	return l
}

// fields splits a header value that lists values.
func fields(v string) []string {
	l := strings.Split(v, ",")
	for i := range l {
		l[i] = strings.Trim(l[i], " ")
	}
	return l
}

func (j *cjob) reqCookie(i int) (string, string) {
	return fmt.Sprintf("h%d_r%d_%d", j.p.Host, j.id, i), fmt.Sprintf("rv%d", j.id*10+i)
}

type cdpRun struct {
	e      *Env
	p      *plan.CDP
	net    *simNet
	b      *browser
	client *antcdp.Client
	jobs   []*cjob
	active int
	peak   int
}

// header checks that the headers and cookies of a request are in effect when
// its navigation starts; it returns the request.
func (r *cdpRun) header(k *bconn, raw string) *cjob {
	get := func(name string) string {
		for h, v := range k.hdr {
			if strings.EqualFold(h, name) {
				return v
			}
		}
		return ""
	}
	id, err := strconv.Atoi(get("X-Job"))
	if err != nil || id < 0 || id >= len(r.jobs) {
		r.e.only("C40", "headers", "navigation to %s starts without the headers of a request: %v", raw, k.hdr)
		// The request is still known by its URL.
		for _, j := range r.jobs {
			if j.url == raw && j.running {
				return j
			}
		}
		return nil
	}
	j := r.jobs[id]

	if strip(j.url) != strip(raw) {
		r.e.only("C40", "headers", "navigation to %s has the headers of the request for %s", raw, j.url)
	}
	for i := 0; i < j.p.Hdr; i++ {
		if v, w := get(fmt.Sprintf("X-H%d", i)), j.values(i); !slices.Equal(fields(v), w) {
			r.e.only("C40", "headers", "navigation to %s starts with header X-H%d %q instead of %q", raw, i, v, w)
		}
	}
	for h := range k.hdr {
		if strings.HasPrefix(strings.ToUpper(h), "X-H") {
			if i, _ := strconv.Atoi(h[3:]); i >= j.p.Hdr {
				r.e.only("C40", "headers", "navigation to %s starts with header %s that its request does not have", raw, h)
			}
		}
	}
	have := map[string]string{}
	for _, c := range r.b.cookiesFor(raw) {
		have[c.name] = c.value
	}
	for i := 0; i < j.p.Cookies; i++ {
		if n, v := j.reqCookie(i); have[n] != v && r.b.fired == j.fired {
			r.e.only("C40", "cookies", "navigation to %s starts without cookie %s of its request", raw, n)
		}
	}
	if !j.running && r.e.Now() > j.end+time.Second {
		r.e.only("C42 C43", "navigation after return", "navigation for request %d starts after it has returned", id)
	}
	return j
}

func (r *cdpRun) add(p plan.CJob) *cjob {
	j := &cjob{r: r, id: len(r.jobs), p: p, done: make(chan struct{})}
	h := p.Host % max(1, r.p.Hosts)
	j.p.Host = h
	j.url = fmt.Sprintf("http://s%d.test/j/%d", h, j.id)
	if p.Same > 0 && p.Same-1 < j.id {
		o := r.jobs[p.Same-1]
		j.url, j.p.Host = strings.TrimSuffix(o.url, "#"+o.p.Frag), o.p.Host
	}
	if p.Frag != "" {
		j.url += "#" + p.Frag
	}
	r.jobs = append(r.jobs, j)
	return j
}

// span is how long the browser takes for a page without faults.
func (r *cdpRun) span(j *cjob) time.Duration {
	p := j.p.Page
	return us(p.Lat*(p.Redirect+1)+p.ReadyLat) + us(40*r.p.LatUs) + 3*time.Second
}

func (r *cdpRun) run(j *cjob) {
	e := r.e
	ctx, cancel := context.WithCancel(context.Background())
	if j.p.CancelUs > 0 {
		if j.p.Deadline {
			ctx, cancel = context.WithTimeout(context.Background(), time.Duration(j.p.CancelUs)*time.Microsecond)
		} else {
			t := time.AfterFunc(time.Duration(j.p.CancelUs)*time.Microsecond, func() { cancel() })
			defer t.Stop()
		}
		defer context.AfterFunc(ctx, func() {
			if j.running {
				j.canceled = e.Now()
				e.Fault("request cancelled")
			}
		})()
	}
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, "GET", j.url, nil)
	if err != nil {
		panic(err)
	}
	req.Header.Set("X-Job", fmt.Sprint(j.id))
	for i := 0; i < j.p.Hdr; i++ {
		k := fmt.Sprintf("X-H%d", i)
		if j.p.Lower {
			k = strings.ToLower(k)
		}
		req.Header[k] = j.values(i)
	}
	for i := 0; i < j.p.Cookies; i++ {
		n, v := j.reqCookie(i)
		req.AddCookie(&http.Cookie{Name: n, Value: v})
	}
	j.fired = r.b.fired
	j.start = e.Now()
	j.running = true
	r.active++
	r.peak = max(r.peak, r.active)
	e.Logf("request %d %s", j.id, j.url)
	resp, err := r.client.Do(req)
	r.active--
	j.running = false
	j.ended = true
	j.end = e.Now()
	j.err = err
	j.lost = err != nil && ctx.Err() != nil && !j.navd
	e.Logf("request %d done: %v %v", j.id, resp != nil, err)
	r.judge(j, resp, err)
	close(j.done)
}

func (r *cdpRun) judge(j *cjob, resp *http.Response, err error) {
	e := r.e
	faults := r.b.fired > 0
	switch {
	case err != nil && resp != nil:
		e.only("C42", "both", "request %d returned a response and the error %v", j.id, err)
	case err == nil && resp == nil:
		e.only("C42", "nil response", "request %d returned neither a response nor an error", j.id)
		return
	}
	if err != nil {
		e.Probe("request failed")
		if strings.TrimSpace(err.Error()) == "" {
			e.only("C42", "empty error", "request %d returned an empty error", j.id)
		}
		if !faults && j.canceled == 0 && j.p.Page.NavErr == "" && !j.self && (j.p.CancelUs == 0 || j.end < j.start+time.Duration(j.p.CancelUs)*time.Microsecond) {
			e.only("C40 C41 C42 C43", "request failed", "request %d failed without a fault: %v", j.id, err)
		}
		if j.must {
			e.only("C43", "not recovered", "request %d failed although the browser is healthy: %v", j.id, err)
		}
		return
	}
	body, rerr := io.ReadAll(resp.Body)
	if rerr != nil {
		e.only("C40 C42", "body", "request %d: reading the body: %v", j.id, rerr)
		return
	}
	resp.Body.Close()
	if j.p.Page.NavErr != "" {
		e.only("C42", "refused navigation", "request %d succeeded although its navigation was refused: %s", j.id, j.p.Page.NavErr)
		return
	}
	if j.self {
		e.Probe("page navigated itself during its request")
		return
	}
	s := string(body)
	x := resp.Header.Get("X-Nav")
	if x == "" && j.p.Page.NoHdr {
		_, x, _ = strings.Cut(s, "<title>nav ")
		x, _, _ = strings.Cut(x, "<")
	}
	id, perr := strconv.Atoi(x)
	if perr != nil || id < 0 || id >= len(r.b.navs) {
		e.only("C40", "foreign response", "request %d has the status %d and headers of another response (X-Nav %q)", j.id, resp.StatusCode, x)
		return
	}
	n := r.b.navs[id]
	switch {
	case n.job != j:
		what := "a navigation of the page itself"
		if n.job != nil {
			what = fmt.Sprintf("request %d", n.job.id)
		}
		e.only("C40", "foreign response", "request %d has the status %d and headers of %s", j.id, resp.StatusCode, what)
		return
	case resp.StatusCode != n.page.Status || !strings.HasPrefix(resp.Status, fmt.Sprintf("%d ", n.page.Status)):
		e.only("C40", "status", "request %d has status %d %q instead of %d", j.id, resp.StatusCode, resp.Status, n.page.Status)
	case s == n.partial() && s != n.html():
		e.only("C40 C42", "partial body", "request %d has the body of a document that is still loading", j.id)
	case s != n.html():
		e.only("C40 C42", "foreign body", "request %d has a body of another document: %.80q instead of %.80q", j.id, s, n.html())
	}
	if n.proto && (!strings.EqualFold(resp.Proto, "http/1.1") || resp.ProtoMajor != 1 || resp.ProtoMinor != 1) {
		e.only("C40", "protocol", "request %d has the protocol %q, version %d.%d, instead of http/1.1", j.id, resp.Proto, resp.ProtoMajor, resp.ProtoMinor)
	}
	if n.conn != nil && n.conn.refused != "" {
		e.only("C42", "ignored error", "request %d succeeded although the browser answered %s with an error", j.id, n.conn.refused)
	}
	if resp.Header.Get("X-Sub") != "" {
		e.only("C40", "foreign headers", "request %d has headers of a subresource", j.id)
	}
	if resp.ContentLength != int64(len(body)) || resp.Header.Get("Content-Length") != fmt.Sprint(len(body)) {
		e.only("C40", "length", "request %d has %d bytes and says %d and %q", j.id, len(body), resp.ContentLength, resp.Header.Get("Content-Length"))
	}
	if resp.Request == nil || resp.Request.Header.Get("X-Job") != fmt.Sprint(j.id) {
		e.only("C40", "request", "the response of request %d names another request", j.id)
	} else if got := strip(resp.Request.URL.String()); got != n.url {
		e.only("C40", "url", "the response of request %d says it is for %s, the browser was redirected to %s", j.id, got, n.url)
	}
	multi := []string{}
	for _, v := range resp.Header.Values("X-Multi") {
		multi = append(multi, fields(v)...)
	}
	if w := n.multi(); !slices.Equal(multi, w) {
		e.only("C40", "header values", "the response of request %d has header X-Multi %q instead of %q", j.id, resp.Header.Values("X-Multi"), w)
	}
	have := map[string]string{}
	for _, c := range resp.Cookies() {
		have[c.Name] = c.Value
		if !strings.HasPrefix(c.Name, fmt.Sprintf("h%d_", n.host)) {
			e.only("C40", "foreign cookie", "the response of request %d from host s%d has cookie %s of another site", j.id, n.host, c.Name)
		}
	}
	want := map[string]string{}
	for i := 0; i < n.page.Cookies; i++ {
		k, v := j.srvCookie(n, i)
		want[k] = v
	}
	for i := 0; i < j.p.Cookies && n.host == j.p.Host; i++ {
		k, v := j.reqCookie(i)
		want[k] = v
	}
	names := make([]string, 0, len(want))
	for k := range want {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if have[k] != want[k] && r.p.RestartUs == 0 {
			e.only("C40", "cookie missing", "the response of request %d has no cookie %s=%s", j.id, k, want[k])
		}
	}
	if faults {
		e.Probe("request succeeded after faults")
	}
}

// wait waits for the requests and checks that they end in time.
func (r *cdpRun) wait(jobs []*cjob) bool {
	e := r.e
	for _, j := range jobs {
		for !j.ended {
			d := 2 * time.Second
			if !j.running {
				d = 30 * time.Second
			}
			select {
			case <-j.done:
			case <-time.After(d):
			}
			if j.ended || !j.running {
				continue
			}
			now := e.Now()
			if e.Is("C40", "C41") {
				// Stalled threads are no reason to judge these runs:
				// that requests end is what C42 and C43 say.
				if now > j.start+us(int(r.p.DownUs))+10*time.Minute {
					e.Probe("request given up")
					return false
				}
				continue
			}
			late, why := false, ""
			switch {
			case j.canceled > 0 && now > j.canceled+time.Second:
				late, why = true, fmt.Sprintf("its context ended at %v", j.canceled)
			case j.p.CancelUs == 0 && now > j.start+r.span(j)+us(int(r.p.DownUs)):
				late, why = true, fmt.Sprintf("it began at %v and the page takes at most %v", j.start, r.span(j))
			}
			if late {
				e.stack = allStacks()
				e.V("hang", "request %d has not returned at %v: %s", j.id, now, why)
				return false
			}
		}
		// Judged late only when seen: the exact times are checked too.
		if j.canceled > 0 && j.end > j.canceled+time.Second {
			e.only("C42", "slow", "request %d returned at %v, its context ended at %v", j.id, j.end, j.canceled)
		}
	}
	return true
}

func (r *cdpRun) clean(after string) {
	e := r.e
	time.Sleep(12 * time.Second)
	for _, k := range r.b.conns {
		if !k.c.peer.IsClosed() {
			e.only("C43", "connection leak", "a debugger connection to tab %s is open after %s", k.t.id, after)
		}
	}
	var left []string
	shakes := 0
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "main.(*browser)") || strings.Contains(g, "main.(*cdpRun)") || strings.Contains(g, "main.cdpWorld") {
			continue
		}
		if strings.Contains(g, "github.com/yields/ant") || strings.Contains(g, "mafredri/cdp") || strings.Contains(g, "gorilla/websocket") {
			left = append(left, g)
			if strings.Contains(g, "websocket.(*Dialer)") {
				shakes++
			}
		}
	}
	silent := 0
	for _, c := range r.b.silent {
		if !c.peer.IsClosed() {
			silent++
		}
	}
	switch {
	case len(left) == 0 && silent == 0:
	case silent > 0 && len(left) <= 3*silent && shakes <= silent:
		// Nothing else remains but what waits for these handshakes.
		e.only("C43", "unanswered handshake", "a connection whose WebSocket handshake the browser never answers, and a goroutine waiting for it, remain after %s", after)
	case len(left) > 0:
		e.only("C43", "goroutine left", "a goroutine remains after %s\n%s", after, strings.Join(left, "\n\n"))
	}
}

// creating checks that a tab is needed.
func (b *browser) creating() {
	b.creates = append(b.creates, b.e.Now())
	if b.fired > 0 {
		return
	}
	first := b.e.Now()
	waiting := 0
	for _, j := range b.r.jobs {
		if j.ended && (j.err != nil || j.canceled > 0) {
			return
		}
		if !j.running {
			continue
		}
		used := false
		for _, t := range b.tabs {
			if t.user == j {
				used = true
			}
		}
		if !used {
			waiting++
			first = min(first, j.start)
		}
	}
	idle := 0
	for _, t := range b.tabs {
		if !t.gone && t.user != nil && t.user.ended && t.user.end < first {
			idle++
		}
	}
	if idle >= waiting {
		b.e.only("C41", "tab not reused", "a tab is created although %d tabs are idle and %d requests need one", idle, waiting)
	}
}

func cdpWorld(e *Env) {
	log.SetOutput(io.Discard)
	p := e.P.CDP
	r := &cdpRun{e: e, p: p}
	r.net = newNet(e)
	b := &browser{r: r, e: e, p: p, counts: map[string]int{}}
	r.b = b
	r.client = &antcdp.Client{}
	switch p.Addr {
	case 1:
		r.client.Addr = "http://localhost:9222"
	case 2:
		r.client.Addr = "http://127.0.0.1:9222"
	}
	r.net.handlers["127.0.0.1:9222"] = b.serve
	r.net.handlers["localhost:9222"] = b.serve
	r.net.dialPlan = func(addr string, n int) (string, time.Duration) {
		if b.down {
			return "refuse", 0
		}
		switch b.fault("dial") {
		case "":
			return "", 0
		case "hang":
			return "hang", 0
		}
		return "refuse", 0
	}
	if p.RestartUs > 0 {
		time.AfterFunc(time.Duration(p.RestartUs)*time.Microsecond, func() {
			if !b.noFlt {
				b.restart(time.Duration(p.DownUs) * time.Microsecond)
			}
		})
	}
	for _, j := range p.Jobs {
		r.add(j)
	}
	n := len(r.jobs)
	for _, j := range r.jobs {
		go func() {
			if a := j.p.After; a > 0 && a-1 < j.id {
				<-r.jobs[a-1].done
			}
			time.Sleep(us(j.p.StartUs))
			r.run(j)
		}()
	}
	if !r.wait(r.jobs) {
		return
	}
	r.clean("every request returned")
	e.nontriv = n > 0

	// Faults stop.
	b.noFlt = true
	b.down = false
	lost := false
	for _, j := range r.jobs {
		lost = lost || j.lost
	}
	if e.Is("C41") && b.fired == 0 && !lost {
		open := 0
		for _, t := range b.tabs {
			if !t.gone {
				open++
			}
		}
		made := len(b.creates)
		for i := 0; i < open; i++ {
			j := r.add(plan.CJob{Host: i, Page: plan.CPage{Status: 200, Size: 10, Lat: 2000000}})
			go r.run(j)
		}
		if !r.wait(r.jobs[n:]) {
			return
		}
		if len(b.creates) > made {
			e.V("tab not kept", "%d tabs are open and no request is running, but %d requests create %d more", open, open, len(b.creates)-made)
		}
		e.Probe("idle tabs checked")
		return
	}
	if e.Is("C42", "C43") {
		k := len(b.tabs) + 4
		for i := 0; i < k; i++ {
			j := r.add(plan.CJob{Host: i, Page: plan.CPage{Status: 200, Size: 10, Lat: 1000}, CancelUs: 5000000})
			j.must = i >= k-3
			go r.run(j)
			if !r.wait([]*cjob{j}) {
				return
			}
		}
		r.clean("the browser recovered")
	}
}

// strip removes the fragment.
func strip(s string) string { s, _, _ = strings.Cut(s, "#"); return s }
