// Package plan describes one simulated execution completely: the workload, the
// faults and the scheduler configuration.  A plan is plain data, so that it
// can be written to a replay file and shrunk.
package plan

// Plan is one simulated execution.
type Plan struct {
	Prop   string
	World  string
	Seed   uint64 // program visible randomness (select, maps, rand)
	Sched  Sched
	Crawl  *Crawl  `json:",omitempty"`
	Fetch  *Fetch  `json:",omitempty"`
	Queue  *Queue  `json:",omitempty"`
	Dedup  *Dedup  `json:",omitempty"`
	Limit  *Limit  `json:",omitempty"`
	JSON   *JSON   `json:",omitempty"`
	Page   *PageP  `json:",omitempty"`
	Cache  *Cache  `json:",omitempty"`
	Disk   *Disk   `json:",omitempty"`
	CDP    *CDP    `json:",omitempty"`
	Race   *Race   `json:",omitempty"`
	Resume *Resume `json:",omitempty"`
	Note   string  `json:",omitempty"`
}

// Sched configures the scheduler.
type Sched struct {
	Seed     uint64
	Fifo     bool
	YieldP   uint32
	SiteMod  uint32
	StallP   uint32
	StallMax uint32 // microseconds
	Pct      uint32
	PctSpan  uint32
	StepCap  uint64
}

// Attempt is how a server answers one request.
type Attempt struct {
	Kind  string // ok, status, refuse, dns, reset, hang, trunc, temp, perm, timeout, redirect
	Code  int    `json:",omitempty"`
	Lat   int    `json:",omitempty"` // microseconds before the answer
	Body  int    `json:",omitempty"` // body size for error answers
	Frame int    `json:",omitempty"` // 0 content-length, 1 chunked, 2 close-delimited
	Cut   int    `json:",omitempty"` // per mille of the body delivered before a truncation
	Slow  int    `json:",omitempty"` // microseconds between body pieces
	To    int    `json:",omitempty"` // redirect target page
}

// Link points to a page using a spelling variant.
type Link struct {
	To   int
	Var  int
	Var2 int `json:",omitempty"` // another variation of the spelling
}

// Page is one page of a site.
type Page struct {
	Host     int
	Path     string
	Query    string    `json:",omitempty"`
	Links    []Link    `json:",omitempty"`
	Attempts []Attempt `json:",omitempty"` // answers to successive requests; the last repeats; empty means ok
	ScrLat   int       `json:",omitempty"` // scraper latency, microseconds
	ScrFail  []string  `json:",omitempty"` // outcomes of successive scrapes: "", perm, temp, panic
	ScrMode  int       `json:",omitempty"` // how the scraper uses the page
	Size     int       `json:",omitempty"` // padding of the body
	Frame    int       `json:",omitempty"` // body framing of ok answers
	Slow     int       `json:",omitempty"` // microseconds between body pieces of ok answers
	Lat      int       `json:",omitempty"` // latency of ok answers
	Level    int       `json:",omitempty"` // pages of one level are available together
	Junk     bool      `json:",omitempty"` // the page also contains links that are not crawlable
	Enq      []Link    `json:",omitempty"` // URLs the scraper passes to Engine.Enqueue itself
	EnqLate  bool      `json:",omitempty"` // after its latency instead of before
}

// Rule is one robots.txt rule.
type Rule struct {
	Allow bool `json:",omitempty"`
	Path  string
}

// Robots is one host's robots.txt during a period.
type Robots struct {
	Kind        string // ok, redir, nonauth(203), none(404), gone(410), forbid(403), refuse, reset, trunc, hang
	Pad         int    `json:",omitempty"` // comment lines before the rules
	Style       int    `json:",omitempty"` // how the file is written
	Lat         int    `json:",omitempty"`
	Rules       []Rule `json:",omitempty"` // for our user agent
	Other       []Rule `json:",omitempty"` // for another user agent
	Star        []Rule `json:",omitempty"` // for *
	DelayMs     int    `json:",omitempty"` // crawl delay for our user agent
	StarDelayMs int    `json:",omitempty"`
	Until       int64  `json:",omitempty"` // seconds of simulated time after which the next entry applies
}

// Served says whether the rules reach the crawler.
func (r Robots) Served() bool {
	return r.Kind == "" || r.Kind == "ok" || r.Kind == "redir" || r.Kind == "nonauth"
}

// Host is one web host.
type Host struct {
	Name   string
	TLS    bool     `json:",omitempty"`
	Robots []Robots `json:",omitempty"`
}

// Fail makes the k-th call of a component fail.
type Fail struct {
	At   int
	Kind string // perm, temp
}

// Crawl is an engine workload.
type Crawl struct {
	Workers  int
	Conc     int
	Deduper  string // "", map, bf, bftiny
	Impolite bool
	Client   string // stub, http
	NoQueue  bool   `json:",omitempty"` // use the engine's default queue
	DedupLat int    `json:",omitempty"` // deduper latency, microseconds
	Matcher  string `json:",omitempty"` // "", host:X, pattern:X, regexp:X, func:N
	Limiter  string `json:",omitempty"` // "", rec, limit:N, host:N:X, pattern:N:X, regexp:N:X
	LimLat   int    `json:",omitempty"` // microseconds a recording limiter waits
	LimFail  []Fail `json:",omitempty"`
	DedFail  []Fail `json:",omitempty"`
	EnqFail  []Fail `json:",omitempty"`
	DeqFail  []Fail `json:",omitempty"`

	CloseFail string `json:",omitempty"` // the queue's first close fails: before or after it has closed

	MaxTry int `json:",omitempty"`

	AnyPattern bool `json:",omitempty"` // robots.txt may have patterns that do not begin with /*

	Hosts    []Host
	Pages    []Page
	Starts   []Link
	CancelUs int64  `json:",omitempty"` // cancel the context at this simulated time
	Deadline bool   `json:",omitempty"` // by deadline instead of cancel
	CancelEv int    `json:",omitempty"` // cancel at the n-th recorded event
	Wide     bool   `json:",omitempty"` // levels must reach the full concurrency
	BadStart string `json:",omitempty"` // an additional start URL that must be refused
	ScrIdle  bool   `json:",omitempty"` // scrapers ignore their context
	Cache    string `json:",omitempty"` // put an HTTP cache in front of the client: rfc, aggressive
	Pre      []Link `json:",omitempty"` // URLs passed to Engine.Enqueue before Run
	Share    bool   `json:",omitempty"` // scrapers return the same URL values again and again
}

// Fetch is a fetcher workload: concurrent fetches of scripted URLs.
type Fetch struct {
	Client   string // stub, http
	Max      int
	MinMs    int
	MaxMs    int
	ClientTO int // http.Client timeout ms
	UA       string
	Jobs     []FetchJob
	SameURL  bool
}

// FetchJob is one Fetch call.
type FetchJob struct {
	StartUs  int
	Attempts []Attempt
	CancelUs int64 `json:",omitempty"`
	Deadline bool  `json:",omitempty"`
	BodyLen  int
}

// Queue is a queue workload: sequences of operations per client.
type Queue struct {
	Clients  [][]QOp
	MaxBatch int
	Flood    int `json:",omitempty"` // queue so many URLs first
}

// QOp is a queue operation.
type QOp struct {
	Op string // enq, deq, done, wait, close, cenq, cdeq, sleep
	N  int
}

// Dedup is a deduper workload.
type Dedup struct {
	Kind    string // map, bf
	M, K    int
	URLs    int
	Clients [][][]int // per client, per call, URL indexes
}

// Limit is a limiter workload.
type Limit struct {
	Kind    string // limit, host, pattern, regexp
	N       int
	Arg     string
	Clients []LimClient
}

// LimClient issues limiter calls.
type LimClient struct {
	Ops []LimOp
}

// LimOp is a call.
type LimOp struct {
	SleepUs  int
	URL      string
	CancelUs int64 `json:",omitempty"`
}

// JSON is a JSON scraper workload.
type JSON struct {
	Selectors []string `json:",omitempty"`
	Pages     []JSONPage
	Short     int   `json:",omitempty"` // the writer stores pieces of at most this size
	FailAt    []int `json:",omitempty"` // writes that fail
	FailFrac  int   `json:",omitempty"` // per mille of the data accepted by a failing write
	Temp      bool  `json:",omitempty"` // write errors are temporary
	Attempts  int   `json:",omitempty"` // attempts of the engine, 0: 1
	LatUs     int   `json:",omitempty"`
	Engine    bool  `json:",omitempty"`
	HTTP      bool  `json:",omitempty"`
	Type      int   `json:",omitempty"`
}

// JSONPage is one page to scrape.
type JSONPage struct {
	StartUs int      `json:",omitempty"`
	Title   string   `json:",omitempty"`
	Vals    []string `json:",omitempty"`
	Cut     int      // per mille of the body delivered; 1000 = all
	Links   int      `json:",omitempty"`
	Pad     int      `json:",omitempty"`
	Slow    int      `json:",omitempty"`
	Frame   int      `json:",omitempty"`
}

// PageP is a page workload: one page used by several goroutines.
type PageP struct {
	Doc     int
	Items   []string   `json:",omitempty"`
	Pad     int        `json:",omitempty"`
	Cut     int        // per mille; 1000 = complete
	LatUs   int        `json:",omitempty"`
	Frame   int        `json:",omitempty"`
	HTTP    bool       `json:",omitempty"`
	Callers [][]string // operations per goroutine
}

// Cache is an HTTP cache workload.
type Cache struct {
	Policy   string // rfc, aggressive
	AgeS     int    `json:",omitempty"` // age of the aggressive policy
	Storage  string // mem, rec (recording, with faults), disk (the disk store behind rec)
	Torn     uint64 `json:",omitempty"` // what a power loss destroys (disk)
	Compress bool   `json:",omitempty"`
	ShortIO  int    `json:",omitempty"`
	EINTR    int    `json:",omitempty"`
	StLat    int    `json:",omitempty"` // storage latency, microseconds
	Client   string // stub, http
	Fails    []Fail `json:",omitempty"` // storage faults: load, store, corrupt at the n-th load or store
	URLs     []CURL
	Clients  [][]CReq
	Jumps    []Jump `json:",omitempty"`
}

// Jump moves the wall clock.
type Jump struct {
	AtMs int64
	ByS  int64
}

// CURL is an origin resource.
type CURL struct {
	At   int    `json:",omitempty"` // index of the URL
	Gens []CGen // successive generations
}

// CGen is one generation of a resource.
type CGen struct {
	Status  int       `json:",omitempty"` // 0: 200
	Size    int       `json:",omitempty"`
	CC      []string  `json:",omitempty"` // Cache-Control header lines
	Expires int       `json:",omitempty"` // seconds relative to the date; 0 none
	ExpRaw  string    `json:",omitempty"` // an Expires header that is no date, from the second answer on
	NoDate  bool      `json:",omitempty"`
	DateOff int       `json:",omitempty"` // seconds added to the date
	DateFmt int       `json:",omitempty"` // 1, 2: dates have one of the obsolete formats
	Age     string    `json:",omitempty"` // Age header
	ETag    bool      `json:",omitempty"`
	LastMod bool      `json:",omitempty"`
	Vary    string    `json:",omitempty"` // header lines separated by |
	Frame   int       `json:",omitempty"` // 0 length, 1 chunked, 2 until the end, 3 gzip, 4 HTTP/2 with a length, 5 without
	Cond    []string  `json:",omitempty"` // answers to successive validations: "" honest, min (bare 304), 200, nostore, 500, 503, 404, reset; the last repeats
	Att     []Attempt `json:",omitempty"` // answers to successive other requests: ok, reset, trunc, status, errresp
	Lat     int       `json:",omitempty"`
	Slow    int       `json:",omitempty"`
	Redir   bool      `json:",omitempty"` // the client is redirected to where it is
}

// CReq is one request through the cache.
type CReq struct {
	AtMs     int64 `json:",omitempty"` // sleep before the request
	URL      int
	Method   string   `json:",omitempty"` // empty: GET
	CC       []string `json:",omitempty"` // Cache-Control header lines
	Hdr      []string `json:",omitempty"` // extra "K: V"
	Own      int      `json:",omitempty"` // 1: If-None-Match of the current generation, 2: of another one
	Read     int      // per mille of the body read before closing; 1000 = to EOF
	Chunk    int      `json:",omitempty"`
	Twice    bool     `json:",omitempty"` // close twice
	NoClose  bool     `json:",omitempty"`
	Mutate   bool     `json:",omitempty"` // change the received headers
	Bump     bool     `json:",omitempty"` // advance the resource to its next generation first
	Restart  int      `json:",omitempty"` // first restart the disk store: 1 closed, 2 power loss (one client only)
	HoldMs   int64    `json:",omitempty"` // time between reading and closing
	CancelUs int64    `json:",omitempty"`
}

// Disk is a disk store workload.
type Disk struct {
	Maxage   int64 // seconds; 0 default, <0 off
	Maxsize  int64 // 0 default, <0 off
	SweepS   int64 // 0 default, <0 off
	SweepUs  int64 `json:",omitempty"` // instead, in microseconds
	Compress bool
	Keys     int
	Epochs   []Epoch
	Pre      []PreFile // files in the directory before the first open
	Foreign  bool
	LatUs    int
	Crashy   bool
	ShortIO  int // max bytes per read/write system call (0 = unlimited)
	EINTR    int // per mille of system calls interrupted
	WallJump []Jump
	Opts     int `json:",omitempty"` // order and repetition of options
}

// PreFile is a file found at start-up.
type PreFile struct {
	Name string
	Key  int
	Size int
	AgeS int64
}

// Epoch is the life of the store between two opens.
type Epoch struct {
	Clients  [][]DOp
	Faults   []SysFault
	CrashAt  int    // crash at the n-th file system call of the epoch (0 = none, -1 = when the clients are done)
	Dir      string `json:",omitempty"` // missing, file, relative
	Torn     uint64
	WaitWarm bool
	CloseUs  int64 // close while clients run (0: after they finish)
	CancelUs int64 `json:",omitempty"`
}

// DOp is a disk operation.
type DOp struct {
	Op      string // store, load, sleep, wait, tick (sleep until SleepMs microseconds after a sweep is due)
	Key     int
	Size    int
	SleepMs int64
}

// SysFault makes the n-th matching system call fail.
type SysFault struct {
	Call  string // open, create, write, fsync, fsyncdir, close, rename, unlink, stat, fstat, getdents, read, opendir
	Nth   int
	Count int    // how many times (0 = once, <0 = for ever)
	Err   string // EIO, ENOSPC, EMFILE, EINTR, EACCES
	Short int    // for write: bytes accepted first (per mille)
	Name  string `json:",omitempty"` // only calls on this file name
}

// CDP is a browser workload.
type CDP struct {
	Jobs      []CJob
	Faults    []CFault `json:",omitempty"`
	Tabs      []CTab   `json:",omitempty"`
	LatUs     int      // latency of commands
	Hosts     int
	RestartUs int64 `json:",omitempty"`
	DownUs    int64 `json:",omitempty"`
	Chunk     int   `json:",omitempty"` // writes of the browser are split
	Frag      int   `json:",omitempty"` // messages of the browser are fragmented
	Addr      int   `json:",omitempty"`
	Ping      bool  `json:",omitempty"`
}

// CJob is one request to the browser.
type CJob struct {
	StartUs  int
	After    int `json:",omitempty"` // starts when job After-1 has ended
	Host     int `json:",omitempty"`
	Same     int `json:",omitempty"` // same URL as job Same-1
	Frag     string
	Page     CPage
	Hdr      int   `json:",omitempty"`
	Values   int   `json:",omitempty"` // further values of each header
	Lower    bool  `json:",omitempty"` // header names are not canonical
	Cookies  int   `json:",omitempty"`
	CancelUs int64 `json:",omitempty"`
	Deadline bool  `json:",omitempty"`
}

// CPage is how the browser loads a page.
type CPage struct {
	Status   int
	Size     int
	Lat      int    // until the response
	ReadyLat int    `json:",omitempty"` // until the document is ready
	Redirect int    `json:",omitempty"`
	Moved    int    `json:",omitempty"` // the last redirect leads to host Moved-1
	Multi    int    `json:",omitempty"` // a response header has so many values
	NoHdr    bool   `json:",omitempty"` // the response has no headers
	Subs     []CSub `json:",omitempty"`
	NavErr   string `json:",omitempty"`
	Early    bool   `json:",omitempty"` // the reply to navigate precedes the response
	LateUs   int64  `json:",omitempty"` // the page navigates itself so long after it is ready
	Cookies  int    `json:",omitempty"`
	NoFrame  bool   `json:",omitempty"` // response events name no frame
	Old      bool   `json:",omitempty"` // no protocol version reported
}

// CSub is a subresource.
type CSub struct {
	Before bool `json:",omitempty"` // requested before the document's response
	Lat    int
	Never  bool `json:",omitempty"`
	Doc    bool `json:",omitempty"` // a frame's document
}

// CFault is a browser fault.
type CFault struct {
	Step string // method, "handshake", "new", "version", "close", "dial"
	Nth  int
	Kind string // error, drop, partial, hang, crash, gone, http500, garbage
}

// CTab is a failure of a tab.
type CTab struct {
	AtUs int64
	Tab  int
	Kind string // crash, gone
}

// Race runs the world of another property under the race detector.
type Race struct {
	Of string // the property whose workload is run
}

// Resume is a crawl on a persistent queue that survives crashes.
type Resume struct {
	Workers int
	Conc    int
	Pages   []RPage
	Starts  []int
	Dedup   string `json:",omitempty"`
	Match   uint64 `json:",omitempty"` // pages a matcher rejects (0: no matcher)
	Limiter int    `json:",omitempty"` // latency of a limiter in microseconds (0: none)
	QLat    int    `json:",omitempty"` // latency of the queue
	Lives   []Life
	Direct  bool `json:",omitempty"` // the scraper builds its URLs itself
}

// RPage is a page of a resumed crawl.
type RPage struct {
	Links  []int    `json:",omitempty"`
	Lat    int      `json:",omitempty"`
	ScrLat int      `json:",omitempty"`
	Answer []string `json:",omitempty"` // answers to successive requests: "", 404, 503, timeout, perm; the last repeats
	Scr    []string `json:",omitempty"` // outcomes of successive scrapes: "", temp, perm
}

// Life is one execution of the process.
type Life struct {
	Crash  int  `json:",omitempty"` // at the n-th event
	Cancel int  `json:",omitempty"`
	Starts bool `json:",omitempty"` // pass the start URLs again
	Front  bool `json:",omitempty"` // deliver what was in flight first
}
