package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/textproto"
	"net/url"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/yields/ant/antcache"
	"verifsim/plan"
)

func init() { worlds["cache"] = cacheWorld }

var cacheURLs = []string{"http://c.test/a", "http://c.test/a?x=1", "http://c.test/a/", "http://c.test/A", "http://d.test/a", "http://c.test/a?x=2", "http://c.test/b", "http://d.test/a?x=1", "http://c.test:8080/a", "http://c.test/a%2Fb", "http://c.test/a/b", "http://c.test/a?x=1&y=2",
	// these have the same 64-bit murmur3 hash (with "GET:" in front), so that they
	// share the key of their entries as long as keys are such hashes
	collide: "http://c.test/login/accounts/index.html?user=1&session=00000", "http://d.test/evil/page?q=00.sf=ESS2,F8T-f,g$rAU5sZtha/@7@qF", "http://c.test/evil/page?q=003frqXoOoIM;)C~)x~Lob=inx-ph3VB2Z"}

const collide = 12

func (r *cacheRun) url(u int) string {
	return cacheURLs[r.p.URLs[u].At]
}

// oresp is one answer of the origin.
type oresp struct {
	serial int
	url    int
	gen    int
	method string
	status int
	hdr    http.Header
	body   []byte            // complete body
	cut    int               // bytes delivered before the connection breaks, -1: all
	val    bool              // a 304
	sel    map[string]string // the request headers that Vary may nominate
	at     time.Duration
	from   string // the URL it is the answer to, after redirects

	// the cache received it between these times, unless the clock jumped
	recvLo, recvHi time.Time
	recvJumps      int
	recvUnsure     bool
}

// varies returns true if the response is not selected by a request with
// the given headers.
func (o *oresp) varies(req http.Header) bool {
	for _, name := range strings.Split(strings.Join(o.hdr["Vary"], ","), ",") {
		name = http.CanonicalHeaderKey(strings.TrimSpace(name))
		if name == "*" || o.sel[name] != req.Get(name) && (name == "X-Lang" || name == "X-Dev") {
			return true
		}
	}
	return false
}

// contact is one request the cache sent to the origin.
type contact struct {
	rid  int
	req  http.Header
	resp *oresp
	err  error
	body *obsBody
	cond bool
	lent bool // the response was handed to the caller
}

type centry struct {
	rec  *oresp
	hdr  http.Header
	from string
}

type cacheRun struct {
	e        *Env
	p        *plan.Cache
	aggr     bool
	age      time.Duration
	gen      []int
	conds    map[[2]int]int
	atts     map[[2]int]int
	serial   int
	recs     map[int]*oresp
	contacts []*contact
	hc       *http.Client
	c        *antcache.Cache
	model    map[string]*centry // exact content per method and URL
	unsure   map[string]bool
	stored   int // successful stores (recording storage)
	stores   int
	closing  int // callers inside Close
	jumps    int
	rid      int
	seq      bool
	hits     int
	st       *recStorage
}

func (r *cacheRun) etag(u, g int) string { return fmt.Sprintf("\"u%dg%d\"", u, g) }

func lastMod(g int) string {
	return time.Unix(1600000000+int64(g)*3600, 0).UTC().Format(http.TimeFormat)
}

func hdrAdd(h http.Header, kv string) {
	k, v, _ := strings.Cut(kv, ":")
	k = textproto.CanonicalMIMEHeaderKey(k)
	h[k] = append(h[k], strings.TrimSpace(v))
}

// find returns the resource at a URL, or at the one it redirects to.
func (r *cacheRun) find(rawurl string) int {
	for i := range r.p.URLs {
		if r.url(i) == rawurl || r.moved(i) == rawurl {
			return i
		}
	}
	return -1
}

// moved returns the URL that a URL redirects to.
func (r *cacheRun) moved(u int) string { return fmt.Sprintf("http://%s/to/%d/", movedHost, u) }

const movedHost = "m.test"

// redirects says whether the URL currently redirects elsewhere.
func (r *cacheRun) redirects(u int, rawurl string) bool {
	if u < 0 || len(r.p.URLs[u].Gens) == 0 || rawurl == r.moved(u) {
		return false
	}
	return r.p.URLs[u].Gens[r.gen[u]].Redir
}

// origin decides the answer to a request; kind is what happens on the wire.
func (r *cacheRun) origin(method string, rawurl string, h http.Header) (*oresp, string, plan.Attempt) {
	e := r.e
	u := r.find(rawurl)
	if u < 0 || len(r.p.URLs[u].Gens) == 0 {
		return &oresp{url: u, status: 404, cut: -1, hdr: http.Header{}, method: method}, "ok", plan.Attempt{Kind: "ok"}
	}
	g := r.gen[u]
	cg := r.p.URLs[u].Gens[g]
	r.serial++
	o := &oresp{serial: r.serial, url: u, gen: g, method: method, status: 200, cut: -1, hdr: http.Header{}, at: e.Now(), from: rawurl}
	r.recs[o.serial] = o
	if cg.Status > 0 {
		o.status = cg.Status
	}
	inm, ims := h.Get("If-None-Match"), h.Get("If-Modified-Since")
	cond := inm != "" || ims != ""
	kind, att := "ok", plan.Attempt{Kind: "ok"}
	now := time.Now().UTC()
	cc, dated := cg.CC, !cg.NoDate
	if cond {
		k := r.conds[[2]int{u, g}]
		r.conds[[2]int{u, g}] = k + 1
		mode := ""
		if len(cg.Cond) > 0 {
			mode = cg.Cond[min(k, len(cg.Cond)-1)]
		}
		match := cg.ETag && inm != "" && inm == r.etag(u, g) || inm == "" && cg.LastMod && ims == lastMod(g)
		switch mode {
		case "", "min":
			if match && o.status == 200 && (method == "GET" || method == "HEAD") {
				o.status, o.val = 304, true
			}
			if mode == "min" && o.val {
				cc = nil
			}
		case "nostore":
			cc = []string{"no-store"}
		case "500", "503", "404":
			e.Fault("validation-" + mode)
			o.status, _ = strconv.Atoi(mode)
			cc = nil
		case "reset":
			kind = "reset"
		}
	} else {
		k := r.atts[[2]int{u, g}]
		r.atts[[2]int{u, g}] = k + 1
		if len(cg.Att) > 0 {
			att = cg.Att[min(k, len(cg.Att)-1)]
		}
		switch att.Kind {
		case "status":
			o.status = att.Code
			e.Fault("status-" + itoa(att.Code))
		case "reset", "refuse", "errresp", "temp", "perm":
			kind = att.Kind
		}
	}
	if dated {
		d := now.Add(time.Duration(cg.DateOff) * time.Second)
		layout := [...]string{http.TimeFormat, "Monday, 02-Jan-06 15:04:05 GMT", time.ANSIC}[cg.DateFmt]
		o.hdr.Set("Date", d.Format(layout))
		if cg.ExpRaw != "" && (cond || u%2 == 1) {
			o.hdr.Set("Expires", cg.ExpRaw)
		} else if cg.Expires != 0 {
			o.hdr.Set("Expires", d.Add(time.Duration(cg.Expires)*time.Second).Format(layout))
		}
	}
	for _, l := range cc {
		o.hdr["Cache-Control"] = append(o.hdr["Cache-Control"], strings.TrimSpace(l))
	}
	if cg.Age != "" && !(o.val && o.serial%2 == 0) {
		o.hdr.Set("Age", cg.Age)
	}
	if cg.ETag {
		o.hdr.Set("Etag", r.etag(u, g))
	}
	if cg.LastMod {
		o.hdr.Set("Last-Modified", lastMod(g))
	}
	if cg.Vary != "" {
		o.hdr["Vary"] = strings.Split(cg.Vary, "|")
		o.sel = map[string]string{"X-Lang": h.Get("X-Lang"), "X-Dev": h.Get("X-Dev")}
	}
	o.hdr.Set("X-Gen", itoa(g))
	o.hdr.Set("Content-Type", "text/html; charset=utf-8")
	if o.val {
		o.hdr.Set("X-Val", itoa(o.serial))
		return o, kind, att
	}
	o.hdr.Set("X-Serial", itoa(o.serial))
	o.hdr["X-Multi"] = []string{"one", "two"}
	if o.status != 204 && o.status != 304 {
		b := fmt.Sprintf("serial %d url %d gen %d status %d %s", o.serial, u, g, o.status, method)
		if cg.Size == 0 && o.status == 200 && o.gen%2 == 1 {
			b = ""
		}
		o.body = []byte(b)
		for len(o.body) < cg.Size {
			o.body = fmt.Appendf(o.body, " %x", mix(uint64(o.serial), uint64(len(o.body))))
		}
	}
	if att.Kind == "trunc" && method != "HEAD" && len(o.body) > 1 {
		o.cut = min(len(o.body)*min(att.Cut, 990)/1000, len(o.body)-1)
		e.Fault("body-truncated")
	}
	return o, kind, att
}

// Do is the seam between the cache and the origin.
func (r *cacheRun) Do(req *http.Request) (*http.Response, error) {
	ct := &contact{req: req.Header.Clone()}
	ct.rid, _ = strconv.Atoi(req.Header.Get("X-Req"))
	ct.cond = req.Header.Get("If-None-Match") != "" || req.Header.Get("If-Modified-Since") != ""
	r.contacts = append(r.contacts, ct)
	r.e.Logf("request %d reaches the origin: %s %s cond=%v", ct.rid, req.Method, req.URL, ct.cond)
	var resp *http.Response
	var err error
	if r.hc != nil {
		resp, err = r.hc.Do(req)
		if resp != nil {
			s := resp.Header.Get("X-Serial")
			if s == "" {
				s = resp.Header.Get("X-Val")
			}
			n, _ := strconv.Atoi(s)
			ct.resp = r.recs[n]
		}
	} else {
		resp, err = r.stub(req, ct)
	}
	ct.err = err
	if resp != nil {
		ct.body = &obsBody{e: r.e, rc: resp.Body, what: fmt.Sprintf("origin answer to request %d (status %d)", ct.rid, resp.StatusCode)}
		if resp.Body == http.NoBody {
			ct.body.eof = true
		} else {
			resp.Body = ct.body
		}
	}
	if ct.resp != nil {
		ct.resp.recvLo, ct.resp.recvJumps = time.Now().Round(0), r.jumps // the wall clock
	}
	r.e.Logf("origin answers request %d: %v err %v", ct.rid, ct.resp.desc(), err)
	return resp, err
}

func (o *oresp) desc() string {
	if o == nil {
		return "nothing"
	}
	return fmt.Sprintf("status %d serial %d gen %d %v", o.status, o.serial, o.gen, o.hdr["Cache-Control"])
}

func (r *cacheRun) lat(u int) (time.Duration, time.Duration, int) {
	if u < 0 || u >= len(r.p.URLs) || len(r.p.URLs[u].Gens) == 0 {
		return 0, 0, 0
	}
	g := r.p.URLs[u].Gens[r.gen[u]]
	return us(g.Lat), us(g.Slow), g.Frame
}

func (r *cacheRun) stub(req *http.Request, ct *contact) (*http.Response, error) {
	ctx := req.Context()
	fail := func(err error) (*http.Response, error) {
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	if u := r.find(req.URL.String()); r.redirects(u, req.URL.String()) {
		r.e.Probe("redirect")
		req = req.Clone(ctx)
		req.URL, _ = url.Parse(r.moved(u))
	}
	o, kind, _ := r.origin(req.Method, req.URL.String(), req.Header)
	lat, slow, frame := r.lat(o.url)
	if err := sleepCtx(ctx, lat); err != nil {
		return fail(err)
	}
	var ferr error
	switch kind {
	case "ok":
	case "errresp":
		r.e.Fault("error-with-response")
		ferr = newErr("client error with response", false)
	default:
		r.e.Fault("net-" + kind)
		return fail(netErr(kind, req.URL.Host))
	}
	ct.resp = o
	if o.val && frame == 3 { // how the body would be sent
		o.hdr.Set("Content-Encoding", "gzip")
	}
	resp := &http.Response{Status: fmt.Sprintf("%d %s", o.status, http.StatusText(o.status)), StatusCode: o.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: o.hdr.Clone(), Request: req}
	noBody := o.status == 204 || o.status == 304
	switch {
	case noBody:
		if o.val304len() {
			resp.Header.Set("Content-Length", "0")
		}
		resp.Body = http.NoBody
		return resp, ferr
	case frame == 1:
		resp.ContentLength = -1
		resp.TransferEncoding = []string{"chunked"}
	case frame == 2:
		resp.ContentLength = -1
		resp.Close = true
	case frame == 3: // a client that has decompressed it
		resp.ContentLength = -1
		resp.Uncompressed = true
	case frame == 5:
		resp.ContentLength = -1
		resp.Proto, resp.ProtoMajor, resp.ProtoMinor = "HTTP/2.0", 2, 0
	default:
		if frame == 4 {
			resp.Proto, resp.ProtoMajor, resp.ProtoMinor = "HTTP/2.0", 2, 0
		}
		resp.ContentLength = int64(len(o.body))
		resp.Header.Set("Content-Length", itoa(len(o.body)))
	}
	if req.Method == "HEAD" || len(o.body) == 0 && frame == 0 {
		resp.Body = http.NoBody
		return resp, ferr
	}
	data, end := o.body, io.EOF
	if o.cut >= 0 {
		data, end = data[:o.cut], io.ErrUnexpectedEOF
	}
	seed := mix(r.e.P.Seed, uint64(o.serial))
	piece := 1 << (4 + seed%9)
	if len(data) > 20000 {
		piece = max(piece, 4096)
	}
	resp.Body = &stubBody{ctx: ctx, data: data, end: end, slow: slow, piece: piece, seed: seed}
	return resp, ferr
}

// val304len reports whether the 304 declares the length of its own, empty body.
func (o *oresp) val304len() bool { return o.val && o.serial%5 == 1 }

func (r *cacheRun) serveHTTP(host string, c *conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		io.Copy(io.Discard, req.Body)
		rawurl := "http://" + host + req.URL.RequestURI()
		if u := r.find(rawurl); r.redirects(u, rawurl) {
			r.e.Probe("redirect")
			lat, _, _ := r.lat(u)
			time.Sleep(lat / 2)
			if !writeResp(c, 307, []string{"Location: " + r.moved(u)}, nil, 0, 1000, 0) {
				return
			}
			continue
		}
		o, kind, _ := r.origin(req.Method, rawurl, req.Header)
		lat, slow, frame := r.lat(o.url)
		time.Sleep(lat)
		if kind != "ok" {
			r.e.Fault("net-reset")
			c.Reset()
			return
		}
		var hdr []string
		for k, vs := range o.hdr {
			for _, v := range vs {
				hdr = append(hdr, k+": "+v)
			}
		}
		if o.val304len() {
			hdr = append(hdr, "Content-Length: 0")
		}
		sortStr(hdr)
		// keep the order of header lines
		for _, k := range []string{"X-Multi", "Cache-Control"} {
			var rest []string
			for _, h := range hdr {
				if !strings.HasPrefix(h, k+":") {
					rest = append(rest, h)
				}
			}
			hdr = rest
			for _, v := range o.hdr[k] {
				hdr = append(hdr, k+": "+v)
			}
		}
		if req.Method == "HEAD" {
			var b bytes.Buffer
			fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n%s\r\nContent-Length: %d\r\n\r\n", o.status, http.StatusText(o.status), strings.Join(hdr, "\r\n"), len(o.body))
			if _, err := c.Write(b.Bytes()); err != nil {
				return
			}
			continue
		}
		cut := 1000
		if o.cut >= 0 {
			cut = min(990, o.cut*1000/len(o.body))
			if frame == 2 {
				// a close-delimited body can only be cut visibly by a reset
				if len(o.body)*cut/1000 >= len(o.body) {
					cut = 500
				}
			}
		}
		body := o.body
		if frame == 3 && strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") && len(body) > 0 {
			var b bytes.Buffer
			z := gzip.NewWriter(&b)
			z.Write(body)
			z.Close()
			body, hdr = b.Bytes(), append(hdr, "Content-Encoding: gzip")
		}
		if !writeResp(c, o.status, hdr, body, frame, cut, int(slow/time.Microsecond)) {
			return
		}
	}
}

// recStorage is a storage with latency and faults.
type recStorage struct {
	r      *cacheRun
	m      map[uint64][]byte
	loads  int
	stores int
	errs   map[int]error // injected per request: filled by ctx rid
	last   error
	lastK  string
	nstore int
	during bool // a store happened outside Close
	fs     *simfs
	ds     *antcache.Diskstore
}

// open opens the disk store behind the storage.
func (s *recStorage) open() bool {
	e, p := s.r.e, s.r.p
	path := s.fs.mount(&plan.Epoch{Torn: mix(p.Torn, uint64(s.fs.epoch))})
	o := []antcache.DiskOption{antcache.Maxage(0), antcache.Maxsize(0), antcache.SweepEvery(0)}
	if p.Compress {
		o = append(o, antcache.Compress())
	}
	ds, err := antcache.Open(path, o...)
	if err == nil {
		err = ds.Wait(context.Background())
	}
	if err != nil {
		e.V("open", "the disk store cannot be opened again: %v", err)
		return false
	}
	s.ds = ds
	return true
}

// restart ends the disk store and opens it again.
func (s *recStorage) restart(how int) {
	e := s.r.e
	if how == 1 {
		e.Fault("restart")
		if err := s.ds.Close(); err != nil {
			e.V("close", "the disk store cannot be closed: %v", err)
		}
	} else {
		s.fs.doCrash()
	}
	s.open()
}

func (s *recStorage) fail(kind string, k int) bool {
	for _, f := range s.r.p.Fails {
		if f.Kind == kind && f.At == k {
			return true
		}
	}
	return false
}

func (s *recStorage) Load(ctx context.Context, key uint64) ([]byte, error) {
	k := s.loads
	s.loads++
	time.Sleep(us(s.r.p.StLat))
	if s.fail("load", k) {
		s.r.e.Fault("storage-load")
		s.last, s.lastK = newErr("storage load", false), "load"
		return nil, s.last
	}
	var v []byte
	if s.ds != nil {
		var err error
		if v, err = s.ds.Load(ctx, key); err != nil {
			s.r.e.V("disk", "the disk store fails without a fault: %v", err)
			return nil, err
		}
		if v == nil {
			return nil, nil
		}
	} else {
		var ok bool
		if v, ok = s.m[key]; !ok {
			return nil, nil
		}
	}
	if s.fail("corrupt", k) {
		s.r.e.Fault("storage-corrupt")
		s.last, s.lastK = io.ErrUnexpectedEOF, "corrupt"
		switch k % 3 {
		case 0:
			return []byte{}, nil
		case 1:
			return []byte("\x00\x01garbage"), nil
		default:
			return append([]byte{}, v[:min(len(v), 12)]...), nil
		}
	}
	return append([]byte{}, v...), nil
}

func (s *recStorage) Store(ctx context.Context, key uint64, v []byte) error {
	k := s.stores
	s.stores++
	if s.r.closing == 0 {
		s.r.e.Violate("C20", "early-store", "a response is stored although no caller is closing its body")
	}
	time.Sleep(us(s.r.p.StLat))
	if s.fail("store", k) {
		s.r.e.Fault("storage-store")
		s.last, s.lastK = newErr("storage store", false), "store"
		return s.last
	}
	if s.ds != nil {
		if err := s.ds.Store(ctx, key, v); err != nil {
			s.r.e.V("disk", "the disk store fails without a fault: %v", err)
			return err
		}
	} else {
		s.m[key] = append([]byte{}, v...)
	}
	s.nstore++
	return nil
}

// ccOf parses all Cache-Control header lines.
func ccOf(h http.Header) map[string]string {
	m := map[string]string{}
	for _, l := range h["Cache-Control"] {
		for _, d := range strings.Split(l, ",") {
			d = strings.ToLower(strings.TrimSpace(d))
			if d == "" {
				continue
			}
			k, v, _ := strings.Cut(d, "=")
			m[k] = v
		}
	}
	return m
}

func secs(m map[string]string, k string) (time.Duration, bool) {
	v, ok := m[k]
	if !ok {
		return 0, false
	}
	n, err := strconv.ParseInt(v, 10, 64)
	if errors.Is(err, strconv.ErrRange) && n > 0 || n > 1<<31-1 {
		return (1<<31 - 1) * time.Second, true
	}
	return time.Duration(n) * time.Second, err == nil
}

func has(m map[string]string, k string) bool { _, ok := m[k]; return ok }

// freshRef says whether the reference allows (can) or demands (must) that a
// stored response is served without contact at the given wall clock time.
func (r *cacheRun) freshRef(req, resp http.Header, now time.Time) (can, must bool) {
	// RFC 7234 section 4.2.3: by its date, by the time since it was received
	// and by the time other caches kept it.
	var lo, hi time.Duration
	if date, err := http.ParseTime(resp.Get("Date")); err == nil {
		lo, hi = now.Sub(date), now.Sub(date)
	}
	n, _ := strconv.Atoi(resp.Get("X-Val"))
	if n == 0 {
		n, _ = strconv.Atoi(resp.Get("X-Serial"))
	}
	if o := r.recs[n]; o != nil && !o.recvLo.IsZero() {
		if o.recvUnsure || o.recvHi.IsZero() {
			can, _ = r.freshAt(req, resp, lo)
			return can, false
		}
		kept := time.Duration(0)
		if k, err := strconv.Atoi(resp.Get("Age")); err == nil && k > 0 {
			kept = time.Duration(k) * time.Second
		}
		lo, hi = max(lo, now.Sub(o.recvHi)+kept), max(hi, now.Sub(o.recvLo)+kept)
	}
	can, _ = r.freshAt(req, resp, lo)
	_, must = r.freshAt(req, resp, hi)
	return can, must
}

func (r *cacheRun) freshAt(req, resp http.Header, age time.Duration) (can, must bool) {
	qd, sd := ccOf(req), ccOf(resp)
	nocache := has(qd, "no-cache") || len(req["Cache-Control"]) == 0 && strings.Contains(strings.ToLower(req.Get("Pragma")), "no-cache")
	date, derr := http.ParseTime(resp.Get("Date"))
	if r.aggr {
		if nocache || has(qd, "no-store") || derr != nil {
			return false, false
		}
		ok := age < r.age
		return ok, ok
	}
	if nocache || has(sd, "no-cache") {
		return false, false
	}
	if has(qd, "only-if-cached") {
		return true, false
	}
	if derr != nil {
		return false, false
	}
	lifetime, explicit := secs(sd, "max-age")
	if !explicit {
		if t, err := http.ParseTime(resp.Get("Expires")); err == nil {
			lifetime, explicit = t.Sub(date), true
		} else if resp.Get("Expires") != "" {
			explicit = true // RFC 7234 section 5.3: it has expired
		}
	}
	qa, hasQA := secs(qd, "max-age")
	anyStale := has(qd, "max-stale") && qd["max-stale"] == ""
	if !explicit {
		return hasQA || anyStale, false
	}
	if has(sd, "must-revalidate") && age >= lifetime {
		return false, false
	}
	if hasQA && qa < lifetime {
		lifetime = qa
	}
	if n, ok := secs(qd, "min-fresh"); ok {
		age += n
	}
	// Whether tolerated staleness may stretch a request's own max-age over a
	// response that must be revalidated is open.
	strict := has(sd, "must-revalidate") && lifetime <= age
	if n, ok := secs(qd, "max-stale"); ok {
		age -= n
	}
	if anyStale {
		return true, !strict
	}
	ok := lifetime > age
	return ok, ok && !strict
}

func bypassRef(method string, h http.Header) bool {
	return method != "GET" && method != "HEAD" || h.Get("Range") != "" || h.Get("Content-Range") != "" || h.Get("Authorization") != "" || has(ccOf(h), "no-store")
}

// storable says whether a response may (can) and must be stored.
func (r *cacheRun) storable(method string, req http.Header, o *oresp) (can, must bool) {
	if bypassRef(method, req) {
		return false, false
	}
	switch o.status {
	case 200, 203, 204, 300, 301, 404, 405, 410, 414, 501:
	default:
		return false, false
	}
	date, err := http.ParseTime(o.hdr.Get("Date"))
	if err != nil {
		return false, false
	}
	if r.aggr {
		return true, true
	}
	cc := ccOf(o.hdr)
	if has(cc, "no-store") {
		return false, false
	}
	if d, ok := secs(cc, "max-age"); ok {
		return d > 0, d > 0
	}
	if t, err := http.ParseTime(o.hdr.Get("Expires")); err == nil {
		return t.After(date), t.After(date)
	}
	return false, false
}

func (r *cacheRun) key(method string, u int) string { return fmt.Sprintf("%s %d", method, u) }

// polProp is the property that owns freshness under the policy.
func (r *cacheRun) polProp() string {
	if r.aggr {
		return "C26"
	}
	return "C21"
}

var hopHeaders = map[string]bool{"Connection": true, "Content-Length": true, "Transfer-Encoding": true, "X-From-Cache": true}

func hdrDiff(got, want http.Header) string {
	for k, v := range want {
		if !hopHeaders[k] && strings.Join(got[k], "|") != strings.Join(v, "|") {
			return fmt.Sprintf("%s is %q instead of %q", k, got[k], v)
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok && !hopHeaders[k] {
			return fmt.Sprintf("unexpected %s: %q", k, v)
		}
	}
	return ""
}

func (r *cacheRun) request(ci, k int, q plan.CReq) {
	e := r.e
	time.Sleep(time.Duration(q.AtMs) * time.Millisecond)
	u := q.URL
	if u >= len(r.p.URLs) || len(r.p.URLs[u].Gens) == 0 {
		return
	}
	if q.Restart > 0 && r.seq && r.st != nil && r.st.ds != nil {
		r.st.restart(q.Restart)
	}
	if q.Bump && r.gen[u]+1 < len(r.p.URLs[u].Gens) {
		r.gen[u]++
		e.Logf("resource %d becomes generation %d", u, r.gen[u])
	}
	method := q.Method
	if method == "" {
		method = "GET"
	}
	r.rid++
	rid := r.rid
	ctx, cancel, at := ctxFor(e, q.CancelUs, q.CancelUs%3 == 1)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, method, r.url(u), nil)
	if err != nil {
		e.V("harness", "%v", err)
		return
	}
	req.Header.Set("X-Req", itoa(rid))
	for _, l := range q.CC {
		req.Header["Cache-Control"] = append(req.Header["Cache-Control"], l)
	}
	for _, h := range q.Hdr {
		hdrAdd(req.Header, h)
	}
	switch q.Own {
	case 1:
		req.Header.Set("If-None-Match", r.etag(u, r.gen[u]))
	case 2:
		req.Header.Set("If-None-Match", r.etag(u, (r.gen[u]+1)%3))
	case 3:
		req.Header.Set("If-Modified-Since", lastMod(r.gen[u]))
	}
	own := q.Own > 0
	reqHdr := req.Header.Clone()
	key := r.key(method, u)
	ent, unsure := r.model[key], r.unsure[key] || !r.seq
	bypass := bypassRef(method, reqHdr)

	jumps, t0 := r.jumps, time.Now()
	loads, nst := 0, 0
	if r.st != nil {
		loads, nst = r.st.loads, r.st.stores
		r.st.last = nil
	}
	e.Logf("client %d request %d: %s url %d %v own=%d", ci, rid, method, u, q.CC, q.Own)
	resp, derr := r.c.Do(req)
	t1 := time.Now()
	steady := r.jumps == jumps
	e.Logf("request %d: %v err %v", rid, respDesc(resp), derr)
	if !reflect.DeepEqual(req.Header, reqHdr) || req.Method != method || req.URL.String() != r.url(u) {
		e.Violate("C23", "caller-request", "request %d: the caller's request has changed to %s %s %v", rid, req.Method, req.URL, req.Header)
	}
	var cts []*contact
	for _, c := range r.contacts {
		if c.rid == rid {
			cts = append(cts, c)
			if c.resp != nil {
				c.resp.recvHi = t1.Round(0)
				c.resp.recvUnsure = c.resp.recvJumps != r.jumps
			}
		}
	}
	cancelled := at >= 0 && e.Now() >= at
	var lastCt *contact
	if len(cts) > 0 {
		lastCt = cts[len(cts)-1]
	}
	if resp != nil && lastCt != nil && lastCt.err == nil && lastCt.resp != nil && (resp.Header.Get("X-Serial") == itoa(lastCt.resp.serial) || resp.Header.Get("X-Val") == itoa(lastCt.resp.serial) && resp.StatusCode == 304) {
		lastCt.lent = true
	}
	// answers the caller did not get must have been used up
	for _, c := range cts {
		if c.body == nil || c.lent {
			continue
		}
		if c.err != nil && resp != nil {
			continue // handed over together with the error
		}
		if c.body.rc == http.NoBody {
			continue
		}
		if msg := c.body.drained(); msg != "" {
			for _, p := range []string{"C23", "C24", "C11"} {
				e.Violate(p, "leak", "request %d: the caller does not get it and %s", rid, msg)
			}
		}
	}
	if derr != nil {
		if resp != nil && resp.Body != nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
		r.checkError(rid, derr, lastCt, bypass, cancelled, r.seq)
		return
	}
	if r.seq && r.st != nil && r.st.last != nil && r.st.lastK != "store" && !bypass {
		e.Violate("C24", "swallowed", "request %d gets an answer although loading the stored response failed (%s: %v)", rid, r.st.lastK, r.st.last)
	}
	if lastCt != nil && lastCt.err != nil && !cancelled {
		e.Violate("C24", "swallowed", "request %d gets an answer although the origin failed: %v", rid, lastCt.err)
		if lastCt.cond {
			e.Violate("C23", "swallowed", "request %d gets an answer although validating failed: %v", rid, lastCt.err)
		}
	}
	if r.seq && bypass && r.st != nil && r.st.loads > loads {
		e.Probe("bypass-consults-storage")
	}
	if len(cts) == 0 {
		r.hits++
		e.Probe("hit")
	}

	// who answered?
	sv := resp.Header.Get("X-Val")
	ss := resp.Header.Get("X-Serial")
	var rec *oresp
	if resp.StatusCode == 304 {
		n, _ := strconv.Atoi(sv)
		rec = r.recs[n]
		if lastCt == nil || rec == nil || lastCt.resp != rec {
			e.Violate("C23", "mixture", "request %d gets a 304 that is not the origin's answer to it", rid)
			e.Violate("C20", "mixture", "request %d gets a 304 that is not the origin's answer to it", rid)
			return
		}
		if !own {
			e.Violate("C23", "bare-304", "request %d, which has no validators of its own, gets a 304", rid)
		}
	} else {
		n, _ := strconv.Atoi(ss)
		rec = r.recs[n]
	}
	if rec == nil {
		e.Violate("C20", "foreign", "request %d gets an answer no origin sent", rid)
		e.Violate("C24", "foreign", "request %d gets an answer no origin sent", rid)
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		return
	}
	direct := lastCt != nil && lastCt.resp == rec && lastCt.err == nil // the origin's answer to this very request
	e.Logf("request %d is answered by serial %d (direct %v)", rid, rec.serial, direct)
	if rec.url != u {
		e.Violate("C20", "foreign", "request %d for %s gets the answer to %s", rid, r.url(u), r.url(rec.url))
		e.Violate("C22", "shared", "request %d for %s gets the answer to %s", rid, r.url(u), r.url(rec.url))
	}
	if rec.method != method {
		e.Violate("C20", "foreign", "%s request %d gets the answer to a %s", method, rid, rec.method)
		e.Violate("C22", "shared", "%s request %d gets the answer to a %s", method, rid, rec.method)
	}
	if resp.StatusCode != rec.status {
		e.Violate("C20", "status", "request %d: serial %d is served with status %d instead of %d", rid, rec.serial, resp.StatusCode, rec.status)
	}
	if rec.varies(reqHdr) && !direct && !r.aggr {
		e.Violate("C21", "vary", "request %d with X-Lang %q, X-Dev %q gets the answer that varies by %q, selected by %v", rid, reqHdr.Get("X-Lang"), reqHdr.Get("X-Dev"), rec.hdr["Vary"], rec.sel)
	}
	from, known := rec.from, direct
	validated := !direct && lastCt != nil && lastCt.err == nil && lastCt.resp != nil && lastCt.resp.val
	want := rec.hdr
	if !direct {
		exact := r.seq && !r.unsure[key] && ent != nil && ent.rec == rec
		switch {
		case validated:
			from, known = lastCt.resp.from, true
		case exact:
			from, known = ent.from, true
		}
		switch {
		case exact && validated:
			want = mergeRef(ent.hdr, lastCt.resp.hdr)
		case exact:
			want = ent.hdr
		case sv != "":
			// refreshed by an earlier or this validation
			n, _ := strconv.Atoi(sv)
			v := r.recs[n]
			if v == nil || !v.val || v.url != u || v.gen != rec.gen {
				e.Violate("C23", "mixture", "request %d, answered by serial %d: its headers were refreshed by an answer for something else", rid, rec.serial)
				e.Violate("C20", "mixture", "request %d, answered by serial %d: its headers were refreshed by an answer for something else", rid, rec.serial)
				return
			}
			want = mergeRef(rec.hdr, v.hdr)
			if _, ok := v.hdr["Cache-Control"]; !ok {
				// an earlier validation may have set it
				got := strings.Join(resp.Header["Cache-Control"], "|")
				for _, o := range r.recs {
					if o != nil && o.val && o.serial < v.serial && o.url == u && o.gen == rec.gen && len(o.hdr["Cache-Control"]) > 0 && strings.Join(o.hdr["Cache-Control"], "|") == got {
						want["Cache-Control"] = o.hdr["Cache-Control"]
						break
					}
				}
			}
			fallthrough
		default:
			if validated && sv != itoa(lastCt.resp.serial) {
				e.Violate("C23", "headers", "request %d, serial %d validated: the headers are not those of the 304", rid, rec.serial)
			}
		}
	}
	if got := resp.Request.URL.String(); known && got != from || !known && got != r.url(u) && got != r.moved(u) {
		e.Violate("C20", "request", "request %d, answered by serial %d: the response's request is for %s, it was for %s", rid, rec.serial, got, from)
		if validated {
			e.Violate("C23", "request", "request %d, serial %d validated: the response's request is for %s, it was for %s", rid, rec.serial, got, from)
		}
	}
	d := hdrDiff(resp.Header, want)
	if v := resp.Header.Get("Content-Length"); v != "" && v != itoa(len(rec.body)) {
		d = fmt.Sprintf("Content-Length is %s instead of %d", v, len(rec.body))
	}
	if d != "" {
		e.Violate("C20", "headers", "request %d, answered by serial %d: %s", rid, rec.serial, d)
		if validated {
			e.Violate("C23", "headers", "request %d, serial %d validated: %s", rid, rec.serial, d)
		}
	}
	if validated && lastCt.resp.gen != rec.gen {
		e.Violate("C23", "mixture", "request %d: generation %d is served although the origin confirmed generation %d", rid, rec.gen, lastCt.resp.gen)
	}

	// was it right to answer from storage, or to ask?
	r.judge(rid, method, u, reqHdr, ent, unsure, bypass, own, rec, want, direct, validated, cts, lastCt, t0, t1, steady, cancelled)

	// use the body
	exp := rec.body
	if method == "HEAD" {
		exp = nil
	}
	full := !direct || rec.cut < 0
	stop := -1
	if q.Read < 1000 {
		stop = len(exp) * q.Read / 1000
	}
	if q.Mutate {
		resp.Header.Set("X-Serial", "0")
		resp.Header.Del("Date")
		resp.Header.Set("Cache-Control", "max-age=100000")
	}
	var got []byte
	var rerr error
	chunk := q.Chunk
	if chunk <= 0 || len(exp) > 20000 {
		chunk = 4096
	}
	eof := false
	for stop < 0 || len(got) < stop {
		n := chunk
		if stop >= 0 {
			n = min(n, stop-len(got))
		}
		b := make([]byte, n)
		n, err := resp.Body.Read(b)
		got = append(got, b[:n]...)
		if err == io.EOF {
			eof = true
			break
		}
		if err != nil {
			rerr = err
			break
		}
	}
	cancelled = at >= 0 && e.Now() >= at
	e.Logf("request %d: read %d of %d bytes eof=%v err=%v", rid, len(got), len(exp), eof, rerr)
	switch {
	case len(got) > len(exp) || !bytes.Equal(got, exp[:len(got)]):
		e.Violate("C20", "body", "request %d, answered by serial %d: the body read is %q, the origin sent %q", rid, rec.serial, short(string(got)), short(string(exp)))
	case eof && len(got) < len(exp):
		e.Violate("C20", "body", "request %d, answered by serial %d: the body ends after %d of %d bytes without an error", rid, rec.serial, len(got), len(exp))
	case rerr != nil && full && !cancelled:
		e.Violate("C20", "body", "request %d, answered by serial %d: reading fails after %d of %d bytes: %v", rid, rec.serial, len(got), len(exp), rerr)
	}
	time.Sleep(time.Duration(q.HoldMs) * time.Millisecond)
	if q.NoClose {
		if direct && lastCt != nil {
			lastCt.lent = true
		}
		return
	}
	if r.st != nil {
		r.st.last = nil
	}
	before := 0
	if r.st != nil {
		before = r.st.nstore
		nst = r.st.stores
	}
	r.closing++
	cerr := resp.Body.Close()
	if q.Twice {
		resp.Body.Close()
	}
	r.closing--
	e.Logf("request %d: close %v", rid, cerr)
	cancelled = at >= 0 && e.Now() >= at
	if direct && lastCt.body.rc != http.NoBody && lastCt.body.closed == 0 {
		for _, p := range []string{"C24", "C11"} {
			e.Violate(p, "leak", "request %d: closing the response does not close the body of the origin's answer", rid)
		}
	}

	// what must have been stored?
	sreq := reqHdr
	var can, must bool
	switch {
	case direct && !rec.val:
		can, must = r.storable(method, sreq, rec)
		if rec.status >= 500 && (lastCt.cond || ent != nil || unsure) {
			must = false // a failed validation keeps the stored response
		}
	case validated:
		can, must = true, true
	}
	var srec = &centry{rec: rec, hdr: want.Clone(), from: from}
	complete := eof && rerr == nil
	maybe := !complete && rerr == nil && len(got) == len(exp) && full
	if validated {
		// the stored body is complete whatever the caller reads
		maybe = !complete && rerr == nil
	}
	if !complete && !maybe {
		can, must = false, false
	}
	if maybe {
		must = false
	}
	if cancelled {
		must = false
	}
	if r.st != nil && r.seq {
		tried := r.st.stores > nst
		ok := r.st.nstore > before
		prop := "C20"
		why := "its body was not read completely and without error"
		if complete {
			prop, why = r.polProp(), "it must not be stored"
			if bypass || !r.aggr && (has(ccOf(rec.hdr), "no-store") || has(ccOf(sreq), "no-store")) {
				prop = "C22"
			}
		}
		switch {
		case tried && !can && direct:
			e.Violate(prop, "stored", "request %d: the response (status %d, %v) is stored although %s", rid, rec.status, rec.hdr["Cache-Control"], why)
		case tried && !can:
			e.Violate("C20", "stored", "request %d: the response served from storage is stored again although %s", rid, why)
		case !tried && must && validated:
			e.Violate("C23", "not-stored", "request %d: the refreshed response is not stored", rid)
		case !tried && must:
			e.Violate(r.polProp(), "not-stored", "request %d: the response (status %d, %v) is not stored", rid, rec.status, rec.hdr["Cache-Control"])
		}
		if r.st.last != nil && r.st.lastK == "store" {
			if cerr == nil || !errors.Is(cerr, r.st.last) {
				e.Violate("C24", "store-error", "request %d: storing fails with %q but closing the body reports %v", rid, r.st.last, cerr)
			}
		} else if cerr != nil && !cancelled {
			e.Violate("C24", "close-error", "request %d: closing the body fails: %v", rid, cerr)
		}
		if ok {
			r.model[key] = srec
			r.collided(method, u)
			delete(r.unsure, key)
		}
		return
	}
	if cerr != nil && !cancelled && r.st == nil {
		e.Violate("C24", "close-error", "request %d: closing the body fails: %v", rid, cerr)
	}
	if r.seq {
		switch {
		case must:
			r.model[key] = srec
			r.collided(method, u)
			delete(r.unsure, key)
		case can:
			r.unsure[key] = true
			r.collided(method, u)
		}
	}
}

func respDesc(r *http.Response) string {
	if r == nil {
		return "no response"
	}
	return fmt.Sprintf("status %d serial %s val %s", r.StatusCode, r.Header.Get("X-Serial"), r.Header.Get("X-Val"))
}

// collided forgets entries that may be overwritten as their URLs' hashes collide.
func (r *cacheRun) collided(method string, u int) {
	if r.p.URLs[u].At < collide {
		return
	}
	for o, x := range r.p.URLs {
		if o != u && x.At >= collide {
			r.unsure[r.key(method, o)] = true
		}
	}
}

func mergeRef(a, b http.Header) http.Header {
	ret := a.Clone()
	ret.Del("Age")
	for k, v := range b {
		if !hopHeaders[k] && k != "Content-Encoding" { // those of the body
			ret[k] = v
		}
	}
	return ret
}

func (r *cacheRun) checkError(rid int, err error, ct *contact, bypass, cancelled, seq bool) {
	e := r.e
	if cancelled {
		e.Fault("cancel")
		return
	}
	if ct != nil && ct.err != nil {
		if !errors.Is(err, ct.err) {
			e.Violate("C24", "wrap", "request %d: the origin failed with %v but Do returns %v", rid, ct.err, err)
			if ct.cond {
				e.Violate("C23", "wrap", "request %d: validating failed with %v but Do returns %v", rid, ct.err, err)
			}
		}
		return
	}
	if !seq {
		if r.st != nil && (len(r.p.Fails) > 0) {
			return
		}
	} else if r.st != nil && r.st.last != nil {
		if bypass {
			e.Violate("C22", "bypass", "request %d must bypass the cache but fails with a storage error: %v", rid, err)
		}
		if r.st.lastK == "load" && !errors.Is(err, r.st.last) {
			e.Violate("C24", "wrap", "request %d: loading failed with %v but Do returns %v", rid, r.st.last, err)
		}
		return
	}
	for _, p := range []string{"C24", "C20", "C23", r.polProp()} {
		e.Violate(p, "error", "request %d fails although nothing failed: %v", rid, err)
	}
}

func (r *cacheRun) judge(rid int, method string, u int, req http.Header, ent *centry, unsure, bypass, own bool, rec *oresp, want http.Header, direct, validated bool, cts []*contact, ct *contact, t0, t1 time.Time, steady, cancelled bool) {
	e := r.e
	pol := r.polProp()
	if cancelled {
		return
	}
	if bypass {
		if len(cts) != 1 {
			e.Violate("C22", "bypass", "request %d (%s %v) must go to the origin once, it contacts it %d times", rid, method, req["Cache-Control"], len(cts))
		}
		if !direct {
			e.Violate("C22", "bypass", "request %d (%s %v) is not answered by the origin", rid, method, req["Cache-Control"])
		}
		return
	}
	if len(cts) == 0 {
		// a hit: judge it by what was served
		can0, _ := r.freshRef(req, want, t0)
		can1, _ := r.freshRef(req, want, t1)
		if steady && !can0 && !can1 {
			prop := pol
			d, _ := http.ParseTime(want.Get("Date"))
			e.Violate(prop, "stale-hit", "request %d %v is answered without contact by serial %d (age %v, %v, expires %q)", rid, req["Cache-Control"], rec.serial, t0.Sub(d), want["Cache-Control"], want.Get("Expires"))
		}
		if ent == nil && !unsure {
			e.Violate("C20", "phantom", "request %d is answered from storage although nothing complete was stored for it", rid)
		}
		if ent != nil && !unsure && ent.rec != rec {
			e.Violate("C20", "old", "request %d is answered by serial %d, the stored response is serial %d", rid, rec.serial, ent.rec.serial)
			e.Violate("C23", "old", "request %d is answered by serial %d, the stored response is serial %d", rid, rec.serial, ent.rec.serial)
			e.Violate(pol, "old", "request %d is answered by serial %d, the stored response is serial %d", rid, rec.serial, ent.rec.serial)
		}
		return
	}
	// the origin was asked
	if !unsure && ent != nil && steady {
		_, m0 := r.freshRef(req, ent.hdr, t0)
		_, m1 := r.freshRef(req, ent.hdr, t1)
		vary := ent.rec.varies(req)
		if m0 && m1 && (!vary || r.aggr) && !own {
			d, _ := http.ParseTime(ent.hdr.Get("Date"))
			e.Violate(pol, "missed-hit", "request %d %v contacts the origin although serial %d is fresh (age %v, %v, expires %q)", rid, req["Cache-Control"], ent.rec.serial, t1.Sub(d), ent.hdr["Cache-Control"], ent.hdr.Get("Expires"))
		}
		if !m0 && !vary && !r.aggr && !own {
			c := cts[0]
			if t := ent.hdr.Get("Etag"); t != "" && c.req.Get("If-None-Match") != t {
				e.Violate("C23", "validators", "request %d is validated with If-None-Match %q, the stored entity tag is %q", rid, c.req.Get("If-None-Match"), t)
			}
			if t := ent.hdr.Get("Last-Modified"); t != "" && c.req.Get("If-Modified-Since") != t {
				e.Violate("C23", "validators", "request %d is validated with If-Modified-Since %q, the stored time is %q", rid, c.req.Get("If-Modified-Since"), t)
			}
		}
	}
	if len(cts) > 1 {
		e.Violate("C23", "extra", "request %d contacts the origin %d times", rid, len(cts))
		e.Violate("C20", "extra", "request %d contacts the origin %d times", rid, len(cts))
	}
	a := ct.resp
	if a == nil || ct.err != nil {
		return
	}
	sie := has(ccOf(req), "stale-if-error")
	switch {
	case direct:
		if a.status >= 500 && sie && ct.cond && !own && ent != nil && !unsure && !r.aggr {
			e.Violate("C23", "stale-if-error", "request %d tolerates stale-if-error but gets the origin's status %d instead of the stored response", rid, a.status)
		}
		if a.val && !own {
			e.Violate("C23", "bare-304", "request %d gets the origin's 304", rid)
		}
	case a.val:
		e.Probe("validated")
		if ent != nil && !unsure && ent.rec != rec {
			e.Violate("C23", "mixture", "request %d is answered by serial %d after serial %d was confirmed", rid, rec.serial, ent.rec.serial)
		}
	case a.status >= 500 && a.status < 600 && sie:
		e.Probe("stale-if-error")
		if ent != nil && !unsure && ent.rec != rec {
			e.Violate("C23", "mixture", "request %d is answered by serial %d, the stored response is serial %d", rid, rec.serial, ent.rec.serial)
		}
	default:
		for _, p := range []string{"C23", "C20"} {
			e.Violate(p, "other-answer", "request %d gets serial %d although the origin answered it with status %d serial %d", rid, rec.serial, a.status, a.serial)
		}
	}
}

func cacheWorld(e *Env) {
	p := e.P.Cache
	r := &cacheRun{e: e, p: p, aggr: p.Policy == "aggressive", gen: make([]int, len(p.URLs)), conds: map[[2]int]int{}, atts: map[[2]int]int{}, recs: map[int]*oresp{}, model: map[string]*centry{}, unsure: map[string]bool{}}
	r.age = time.Duration(p.AgeS) * time.Second
	if p.AgeS <= 0 {
		r.age = 24 * time.Hour
	}
	if p.Client == "http" {
		nw := newNet(e)
		for _, h := range []string{"c.test", "d.test", "c.test:8080", movedHost} {
			a := h
			if !strings.Contains(h, ":") {
				a += ":80"
			}
			nw.handlers[a] = func(c *conn, k int) { r.serveHTTP(h, c) }
		}
		r.hc = &http.Client{Transport: newTransport()}
	}
	var opts []antcache.Option
	if r.aggr {
		opts = append(opts, antcache.Aggressive(time.Duration(p.AgeS)*time.Second))
	}
	if p.Storage == "rec" || p.Storage == "disk" {
		r.st = &recStorage{r: r, m: map[uint64][]byte{}}
		if p.Storage == "disk" {
			log.SetOutput(io.Discard)
			f := newSimfs(e)
			f.short, f.eintr = p.ShortIO, p.EINTR
			f.snap()
			syscall.Sim = f
			r.st.fs = f
			if !r.st.open() {
				return
			}
		}
		opts = append(opts, antcache.WithStorage(r.st))
	}
	for _, u := range p.URLs {
		if u.At < 0 || u.At >= len(cacheURLs) {
			return
		}
	}
	c, err := antcache.New(r, opts...)
	if err != nil {
		e.V("harness", "%v", err)
		return
	}
	r.c = c
	for _, j := range p.Jumps {
		go func() {
			time.Sleep(time.Duration(j.AtMs) * time.Millisecond)
			runtime.SimWallJump(j.ByS * 1e9)
			r.jumps++
			e.Fault("wall-clock-jump")
		}()
	}
	r.seq = len(p.Clients) == 1
	n := 0
	ok := e.within(60*24*time.Hour, func() {
		var wg sync.WaitGroup
		for ci, cl := range p.Clients {
			n += len(cl)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k, q := range cl {
					r.request(ci, k, q)
				}
			}()
		}
		wg.Wait()
		if !r.seq {
			// afterwards the cache must behave as if used by one client
			r.seq = true
			if r.st != nil {
				r.st.last = nil
			}
			for u := range p.URLs {
				r.unsure["GET "+itoa(u)] = true
				r.unsure["HEAD "+itoa(u)] = true
			}
			for u := range p.URLs {
				for k := 0; k < 3; k++ {
					q := plan.CReq{URL: u, Read: 1000, Restart: int(mix(p.Torn, uint64(u), uint64(k)) % 5)}
					if k == 0 {
						q.CC = []string{"no-cache"}
					}
					r.request(100, k, q)
				}
			}
		}
	})
	if !ok {
		for _, q := range []string{"C20", "C24"} {
			e.Violate(q, "hang", "requests do not end\n%s", firstLines(e.stack, 60))
		}
		return
	}
	e.nontriv = n >= 3 && len(r.contacts) > 0
	if r.hits > 0 {
		e.Probe("runs-with-hits")
	}
}
