package sim

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"mime"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"path"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/cybozu-go/aptutil/cacher"
)

// Simulation of go-apt-cacher: the real program (main function included)
// serves simulated clients from simulated upstream hosts, with its two
// directories on the simulated disk.

const (
	cMeta = "/cache/meta"
	cItem = "/cache/items"
	cConf = "/etc/cacher.toml"
	cPort = "3142"

	// largest total of scheduler stalls in one run, with some reserve
	stallSlack = int64(12e9)
)

// CPrefix is one mapped prefix and its upstream archive.
type CPrefix struct {
	Name  string   `json:"name"`
	Host  string   `json:"host"`
	Base  string   `json:"base"`
	Repo  RepoSpec `json:"repo"`
	Slash bool     `json:"slash,omitempty"` // the URL ends with a slash
	Odd   []string `json:"odd,omitempty"`   // further paths (relative) upstream answers with 200
}

// CReq is one client request.
type CReq struct {
	Method string `json:"method,omitempty"`
	Target string `json:"target"`
	Hdr    string `json:"hdr,omitempty"`   // further header lines
	Range  string `json:"range,omitempty"` // Range header
	GapMs  int    `json:"gap,omitempty"`   // wait before sending
	ReadMs int    `json:"read,omitempty"`  // pause between reads of the body
	Chunk  int    `json:"chunk,omitempty"` // bytes per read
	Abort  int    `json:"abort,omitempty"` // 1: close right after sending, 2: in mid-body, 3: reset in mid-body, 4: after Abort ms
	Raw    string `json:"raw,omitempty"`   // send this instead of a request
	Cond   int    `json:"cond,omitempty"`  // 1: only if changed since the client got it, 2: If-Range with what the client got
}

// seen is what clients know of a path.
type seen struct {
	body     []byte
	at       int64
	lm, etag string
}

// CConn is one client connection.
type CConn struct {
	At   int     `json:"at,omitempty"` // ms after the start of the step
	Pipe bool    `json:"pipe,omitempty"`
	Slow bool    `json:"slow,omitempty"` // small window
	Reqs []*CReq `json:"reqs"`
}

// CPub publishes the next version of a prefix' archive.
type CPub struct {
	Ms     int    `json:"ms,omitempty"`
	Req    int    `json:"req,omitempty"` // when this upstream request of the prefix arrives
	Path   string `json:"path,omitempty"`
	After  bool   `json:"after,omitempty"` // publish after the old content was chosen as the answer
	Prefix int    `json:"prefix"`
	seen   int
	done   bool
}

// CStep is one phase of a run.
type CStep struct {
	Op     string        `json:"op"` // work publish sleep down up stop kill power reconf
	Ms     int           `json:"ms,omitempty"`
	Prefix int           `json:"prefix,omitempty"`
	Conns  []*CConn      `json:"conns,omitempty"`
	Faults []*Fault      `json:"faults,omitempty"`
	FS     []*FSFault    `json:"fs,omitempty"`
	Boot   bool          `json:"boot,omitempty"` // faults are active during the start already
	Limit  int64         `json:"limit,omitempty"`
	Crash  []*CrashPoint `json:"crash,omitempty"`
	Pubs   []*CPub       `json:"pubs,omitempty"`
	TermMs int           `json:"term,omitempty"`
	KillMs int           `json:"kill,omitempty"`
	Power  *CrashMode    `json:"power,omitempty"`
	Slow   int           `json:"slow,omitempty"` // ms per upstream request
	How    string        `json:"how,omitempty"`  // down: refused, dns, blackhole
	Drop   []int         `json:"drop,omitempty"` // reconf: prefixes no longer configured
	Cap    int           `json:"cap,omitempty"`
	Bad    *BadConf      `json:"bad,omitempty"`
}

// CPlan is a cacher scenario.
type CPlan struct {
	Prefixes []CPrefix `json:"prefixes"`
	Interval int       `json:"interval"`
	Period   int       `json:"period"`
	Cap      int       `json:"cap"`      // units, see cacher.SimUnit
	MaxConns int       `json:"maxconns"` // -1: default
	Log      string    `json:"log,omitempty"`
	Omit     bool      `json:"omit,omitempty"`     // settings equal to their defaults are left out
	DirStyle string    `json:"dirstyle,omitempty"` // appended to the directories
	Mkdirs   bool      `json:"mkdirs,omitempty"`   // the directories exist before the first start
	Link     LinkCfg   `json:"link"`
	CLink    LinkCfg   `json:"clink"`
	FsyncMs  int       `json:"fsync,omitempty"`
	Close    float64   `json:"close,omitempty"`
	Chunked  float64   `json:"chunked,omitempty"`
	Steps    []*CStep  `json:"steps"`
	TermConn []*CConn  `json:"termconns,omitempty"` // clients during the final shutdown
	TermFlt  []*Fault  `json:"termfaults,omitempty"`
	TermAt   int       `json:"termat,omitempty"`
}

// creq is a request that was sent.
type creq struct {
	id      int
	spec    *CReq
	method  string
	P       string // cache path
	prefix  string
	bad     bool // not a well formed request
	mapped  bool
	first   bool // nothing was outstanding on the connection when it was sent
	a       int64
	b       int64 // answered (0: not yet)
	n       *Node
	status  int
	hdr     http.Header
	cl      int64
	body    []byte
	whole   bool // complete answer
	cut     bool // head seen, body ended early
	err     string
	aborted bool
	closed  bool
	want    []byte // audit: expected content
	prev    *seen  // the request is conditional on this
}

// conditional: the request has a header such as If-Match.
func (q *creq) conditional() bool { return q.prev != nil || strings.Contains(q.spec.Hdr, "If-") }

// condition makes the header lines that refer to what the clients got before.
func (c *csim) condition(q *creq) string {
	k := c.seen[q.P]
	if q.spec.Cond == 0 || k == nil || strings.Contains(q.spec.Hdr, "If-") {
		return ""
	}
	q.prev = k
	if q.spec.Cond == 1 {
		h := ""
		if k.etag != "" {
			h = "If-None-Match: " + k.etag + "\r\n"
		}
		lm := k.lm
		if lm == "" {
			lm = time.Unix(0, k.at).UTC().Format(http.TimeFormat)
		}
		return h + "If-Modified-Since: " + lm + "\r\n"
	}
	v := k.etag
	if v == "" {
		v = k.lm
	}
	if v == "" || q.spec.Range == "" {
		q.prev = nil
		return ""
	}
	return "If-Range: " + v + "\r\n"
}

type held struct {
	P     string
	ino   *Inode
	data  []byte
	sums  Sums
	at    int64
	sure  uint64
	maybe uint64
}

type cinfo struct {
	seq uint64
	l   []Listed // every one must match
}

// listing is the life of one entry of a held index.
type listing struct {
	l        Listed
	idx      string
	from, to int64
	seq      uint64
}

type neg struct {
	n      *Node
	status int
	ansAt  int64
	until  int64
	id     int
}

type pendEvict struct {
	P     string
	why   string
	total int64
	size  int64
}

type csim struct {
	unread   map[*Inode]bool
	before   map[string]bool
	p        *CPlan
	plan     *Plan
	up       *Upstream
	sites    []*Site
	gate     *Gate
	mainFn   func()
	node     *Node
	nodes    int
	drop     map[string]bool
	cap      int
	maxc     int
	st       *CStep
	step     int
	reqs     []*creq
	pend     map[string][]*creq
	nopen    int
	ansQ     WaitQ
	byP      map[string][]*Req
	asked    map[string]bool
	seen     map[string]*seen // by cache path
	held     map[string]*held
	info     map[string]*cinfo
	opaque   map[string]uint64
	hist     map[string][]*listing
	valid    map[string]int64
	neg      map[string]*neg
	seq      uint64
	evict    *pendEvict
	metaGone map[string]uint64 // removed and not replaced yet
	expect   map[*Node]string  // why the end of a process is expected
	noted    map[*Node]bool
	diskAt   int64 // first disk fault that fired (0: none)
	tainted  bool  // the running process met a disk fault
	unlinkF  bool
	https    bool
	oldTmp   map[*Inode]string // temporary files that existed before the last start
	stop     bool              // give up (violation that makes the rest meaningless)
	stalls   bool
	dialBad  map[string][]int64
	curSt    int // conns still running in this step
	broken   bool
}

const inf = int64(1) << 62

func ExecCacher(p *Plan, mainFn func()) {
	BudgetProps = "C06,C16,C12,R01"
	c := &csim{p: p.C, plan: p, mainFn: mainFn, drop: map[string]bool{}, pend: map[string][]*creq{}, byP: map[string][]*Req{}, asked: map[string]bool{}, seen: map[string]*seen{},
		unread: map[*Inode]bool{}, held: map[string]*held{}, info: map[string]*cinfo{}, opaque: map[string]uint64{}, hist: map[string][]*listing{}, valid: map[string]int64{},
		neg: map[string]*neg{}, expect: map[*Node]string{}, noted: map[*Node]bool{}, oldTmp: map[*Inode]string{}, dialBad: map[string][]int64{}, metaGone: map[string]uint64{}}
	c.exec()
}

func (c *csim) exec() {
	cp := c.p
	if cacher.SimUnit != 4096 {
		W.Probe("big-unit")
	} else {
		W.Probe("small-unit")
	}
	c.stalls = c.plan.Sched.DelayThr != 0 || c.plan.Sched.Explicit
	r := NewRand(c.plan.Seed ^ 0xcac4e)
	W.FS.dentSeed = c.plan.Seed
	c.up = NewUpstream(r.Fork("up"))
	c.up.Close, c.up.Chunked = cp.Close, cp.Chunked
	c.up.Props = "C07"
	c.up.DownHow = "refused"
	c.cap = cp.Cap
	c.maxc = cp.MaxConns
	if c.maxc < 0 {
		c.maxc = 10
	}
	hosts := map[string]bool{}
	for i := range cp.Prefixes {
		x := &cp.Prefixes[i]
		if !hosts[x.Host] {
			hosts[x.Host] = true
			c.up.AddHost(x.Host, cp.Link)
			c.up.HostLim[x.Host] = c.maxc
			h := x.Host
			df := W.Net.hosts[h].DialFault
			W.Net.hosts[h].DialFault = func() string {
				f := df()
				if f != "" {
					c.dialBad[h] = append(c.dialBad[h], Now())
				}
				return f
			}
		}
		s := &Site{Name: x.Name, Host: x.Host, Base: x.Base, Repo: NewRepo(x.Repo), Extra: map[string][]byte{}}
		s.Repo.Version(0)
		for _, o := range x.Odd {
			s.Extra[x.Base+o] = []byte("odd content of " + x.Name + " " + o + "\n")
		}
		c.sites = append(c.sites, s)
		c.up.Sites = append(c.up.Sites, s)
	}
	c.up.OnReq = c.onReq
	frng := r.Fork("fsync")
	if cp.FsyncMs > 0 {
		W.FS.FsyncLat = func(*Node) int64 { return int64(frng.N(cp.FsyncMs * 1000000)) }
	}
	c.gate = &Gate{OnPower: c.power}
	c.gate.install(W.FS)
	W.FS.Gate = c.fsGate
	W.FS.MkdirAll("/cache")
	if cp.Mkdirs {
		W.FS.MkdirAll(cMeta)
		W.FS.MkdirAll(cItem)
	}
	for _, p := range []string{"/etc/passwd", "/cache/secret.cache", "/cache/other/secret.cache", "/secret.cache", "/etc/passwd.cache"} {
		W.FS.WriteFile(p, []byte("secret "+p+"\n"))
	}
	W.FS.Observer = append(W.FS.Observer, c.observe)
	W.OnOutput = func(n *Node, b []byte) {
		if bytes.Contains(b, []byte("panic serving")) {
			c.tryDisk("C16"+runtimeCheck(string(b)), "handler-panic:"+StackSite(string(b)), "a request handler panicked: %.300s", b)
		}
	}
	for i, st := range cp.Steps {
		if c.stop {
			return
		}
		c.step, c.st = i, st
		c.doStep()
	}
	if !c.stop {
		c.settle()
	}
}

// tryDisk reports a violation unless disk faults of this process excuse it.
func (c *csim) tryDisk(props, class, f string, a ...any) {
	if c.tainted {
		return
	}
	W.Violate(props, class, f, a...)
}

func (c *csim) config() []byte {
	var b bytes.Buffer
	// settings that are the documented defaults may be left out
	def := func(key string, v, d int) {
		if !c.p.Omit || v != d {
			fmt.Fprintf(&b, "%s = %d\n", key, v)
		}
	}
	if !c.p.Omit {
		fmt.Fprintf(&b, "listen_address = \":%s\"\n", cPort)
	}
	def("check_interval", c.p.Interval, 600)
	def("cache_period", c.p.Period, 3)
	def("cache_capacity", c.cap, 1)
	fmt.Fprintf(&b, "meta_dir = %q\ncache_dir = %q\n", cMeta+c.p.DirStyle, cItem+c.p.DirStyle)
	if c.p.MaxConns >= 0 {
		fmt.Fprintf(&b, "max_conns = %d\n", c.p.MaxConns)
	}
	lv := c.p.Log
	if lv == "" {
		lv = "error"
	}
	fmt.Fprintf(&b, "[log]\nlevel = %q\n[mapping]\n", lv)
	for _, x := range c.p.Prefixes {
		if c.drop[x.Name] {
			continue
		}
		u := confURL(x.Host, x.Base, x.Slash)
		if c.https {
			u = strings.Replace(u, "http:", "https:", 1)
		}
		fmt.Fprintf(&b, "%q = %q\n", x.Name, u)
	}
	return b.Bytes()
}

func (c *csim) site(name string) (*CPrefix, *Site) {
	for i := range c.p.Prefixes {
		if c.p.Prefixes[i].Name == name {
			return &c.p.Prefixes[i], c.sites[i]
		}
	}
	return nil, nil
}

func prefixOf(p string) string { return strings.SplitN(p, "/", 2)[0] }

func isMetaName(p string) bool {
	b := path.Base(p)
	for _, e := range []string{".gz", ".bz2", ".xz", ".lzma", ".lz"} {
		if strings.HasSuffix(b, e) {
			b = strings.TrimSuffix(b, e)
			break
		}
	}
	switch b {
	case "Release", "Release.gpg", "InRelease", "Packages", "Sources", "Index":
		return true
	}
	return false
}

func refreshed(p string) bool {
	switch path.Base(p) {
	case "Release", "InRelease", "Release.gpg":
		return true
	}
	return false
}

func unsupported(p string) bool {
	if !isMetaName(p) {
		return false
	}
	switch path.Ext(p) {
	case "", ".gz", ".bz2", ".xz", ".gpg":
		return false
	}
	return true
}

func matchSums(l Listed, s Sums) bool {
	return l.Size == s.Size && (l.MD5 == "" || l.MD5 == s.MD5) && (l.SHA1 == "" || l.SHA1 == s.SHA1) && (l.SHA256 == "" || l.SHA256 == s.SHA256)
}

func (c *csim) publish(i int) {
	if i >= len(c.sites) {
		return
	}
	s := c.sites[i]
	s.Ver++
	s.Repo.Version(s.Ver)
	W.Logf("upstream %s publishes version %d", s.Name, s.Ver)
	W.Fault("upstream-update")
}

// ---- upstream side ----

func (c *csim) onReq(r *Req) {
	if c.st != nil {
		for _, p := range c.st.Pubs {
			if p.done || p.Req == 0 || r.Site == nil || p.Prefix >= len(c.sites) || r.Site != c.sites[p.Prefix] || !strings.Contains(r.Path, p.Path) {
				continue
			}
			p.seen++
			if p.seen != p.Req {
				continue
			}
			p.done = true
			if p.After {
				i := p.Prefix
				After(time.Millisecond+c.up.MinLat, func() { c.publish(i) })
			} else {
				c.publish(p.Prefix)
			}
		}
	}
	if r.Site == nil {
		W.Violate("C15", "wrong-upstream", "upstream request %s %s is below no mapped URL", r.Host, r.Path)
		return
	}
	if c.drop[r.Site.Name] && r.T0 > c.node.startAt+1e9 {
		W.Violate("C15", "wrong-upstream", "upstream request for %s, which is not mapped any more", r.Site.Name)
	}
	P := path.Join(r.Site.Name, r.Rel)
	r.P = P
	c.byP[P] = append(c.byP[P], r)
	if !c.asked[P] && !c.asked[strings.TrimSuffix(P, ".gpg")] {
		W.Violate("C15,C04", "unasked-upstream", "upstream request %s%s (cache path %s) although no client asked for it", r.Host, r.Path, P)
	}
	// (C04) one download per path
	for _, o := range c.byP[P] {
		if o != r && o.T1 == 0 {
			o, r := o, r
			After(time.Microsecond, func() {
				if (o.T1 == 0 || o.T1 > r.T0) && (r.T1 == 0 || r.T1 > r.T0) {
					W.Violate("C04", "parallel-download", "two upstream requests for %s in progress at once", P)
				}
			})
		}
	}
	// (C04) no download of what is cached and valid
	if since, ok := c.valid[P]; ok && !refreshed(P) && !c.tainted && since < Now() && c.quiet(P, since) {
		W.Violate("C04", "needless-download", "upstream request for %s, cached and valid for %.3f s", P, float64(Now()-since)/1e9)
	}
	// (C05) nothing during the cache period
	if n := c.neg[P]; n != nil {
		if n.n == c.node && Now() < n.until && !refreshed(P) && c.quiet(P, n.ansAt) {
			W.Violate("C05", "asked-again", "upstream request for %s %.3f s before the cache period of status %d ends", P, float64(n.until-Now())/1e9, n.status)
		}
		delete(c.neg, P)
	}
}

// quiet: no client request for P that started up to t is still going on
// (its decision to download may be older).
func (c *csim) quiet(P string, t int64) bool {
	for _, q := range c.reqs {
		if q.P == P && q.a <= t && q.n == c.node && (q.b == 0 || q.aborted) {
			return false
		}
	}
	return true
}

// ---- disk side ----

// noteFull notices that an operation failed as the disk is full.
func (c *csim) noteFull() {
	if W.Faults["disk-full"] > 0 && W.FS.Limit > 0 {
		c.tainted = true
		if c.diskAt == 0 {
			c.diskAt = Now()
		}
	}
}

func (c *csim) fsGate(n *Node, class, p string, mut bool) (e syscall.Errno) {
	e = c.gate.gate(n, class, p, mut)
	if e != 0 || c.gate.short {
		if c.diskAt == 0 {
			c.diskAt = Now()
		}
		c.tainted = true
		if class == "unlink" {
			c.unlinkF = true
		}
		// an index that cannot be read back lists nothing
		if in := W.FS.Lstat(p); in != nil && strings.HasPrefix(p, cMeta+"/") {
			if !strings.HasSuffix(p, ".cache") {
				c.unread[in] = true
			} else if W.Net.listeners[cPort] == nil {
				P := strings.TrimSuffix(p[len(cMeta)+1:], ".cache")
				c.opaque[prefixOf(P)] = c.seq
			}
		}
	}
	c.noteFull()
	if n.Exited {
		return
	}
	if class == "open" || class == "read" {
		if strings.HasSuffix(p, ".cache") && !strings.HasPrefix(p, cMeta+"/") && !strings.HasPrefix(p, cItem+"/") || p == "/etc/passwd" {
			W.Violate("C15", "outside-read", "%s of %s", class, p)
		}
	}
	if class == "open" && e == 0 && strings.HasPrefix(p, cItem+"/") && strings.HasSuffix(p, ".cache") {
		P := strings.TrimSuffix(p[len(cItem)+1:], ".cache")
		if h := c.held[P]; h != nil {
			c.seq++
			h.maybe = c.seq
			if _, ok := c.valid[P]; ok {
				h.sure = c.seq
			}
		}
	}
	return
}

func below(p string) (dir, P string, file bool) {
	for _, d := range []string{cMeta, cItem} {
		if strings.HasPrefix(p, d+"/") {
			rel := p[len(d)+1:]
			if strings.HasSuffix(rel, ".cache") {
				return d, strings.TrimSuffix(rel, ".cache"), true
			}
			return d, rel, false
		}
	}
	return "", "", false
}

func (c *csim) observe(ev *FSEvent) {
	if ev.Node == nil || ev.Op == "fsync" {
		return
	}
	if ev.Op == "write" || ev.Op == "truncate" || ev.Op == "chmod" {
		for _, h := range c.sortedHeld() {
			if h.ino == ev.Ino && ev.Op != "chmod" {
				W.Violate("C03,C01,C14", "cached-modified", "%s to the cached file of %s", ev.Op, h.P)
			}
		}
		if d, _, _ := below(ev.Path); d == "" {
			W.Violate("C15", "outside", "%s of %s", ev.Op, ev.Path)
		}
		return
	}
	d, P, file := below(ev.Path)
	if d == "" {
		if ev.Op == "mkdir" && (ev.Path == cMeta || ev.Path == cItem) {
			return
		}
		W.Violate("C15", "outside", "%s of %s", ev.Op, ev.Path)
		return
	}
	if ev.Ino != nil && ev.Ino.Typ == tDir {
		return
	}
	switch ev.Op {
	case "link", "rename", "create", "symlink":
		if file {
			c.onCached(d, P, ev)
		}
		if ev.Op == "rename" {
			if d2, P2, f2 := below(ev.Path2); f2 {
				c.onGone(d2, P2)
			}
		}
	case "unlink":
		if file {
			c.onGone(d, P)
		}
	}
}

func (c *csim) total() int64 {
	var t int64
	for P, h := range c.held {
		if !isMetaName(P) {
			t += int64(len(h.data))
		}
	}
	return t
}

func (c *csim) capBytes() int64 { return int64(c.cap) * int64(cacher.SimUnit) }

func (c *csim) onCached(d, P string, ev *FSEvent) {
	c.seq++
	data := ev.Ino.Data
	W.Logf("cached %s (%d bytes)", P, len(data))
	pre := prefixOf(P)
	x, site := c.site(pre)
	if x == nil {
		W.Violate("C15", "foreign-file", "file %s cached for no prefix", P)
		return
	}
	if (d == cMeta) != isMetaName(P) {
		W.Violate("C09,C08", "wrong-storage", "%s is stored in %s", P, d)
	}
	ok := false
	for _, r := range c.byP[P] {
		if r.Full && bytes.Equal(r.Body, data) {
			ok = true
		}
	}
	if !ok {
		W.Violate("C01,C14,C15", "bad-cached", "cached %s holds %d bytes that upstream never delivered completely for that path", P, len(data))
	}
	if d == cItem {
		c.resolveEvict(P, int64(len(data)))
		if t := c.total(); t > c.capBytes() && !c.tainted {
			W.Violate("C09", "over-capacity", "%d bytes are cached, more than the capacity %d, when %s is added", t, c.capBytes(), P)
		}
		W.Probe("items-cached")
	} else {
		W.Probe("metas-cached")
	}
	delete(c.neg, P)
	delete(c.metaGone, P)
	h := &held{P: P, ino: ev.Ino, data: data, sums: SumsOf(data), at: Now(), sure: c.seq, maybe: c.seq}
	c.held[P] = h
	// listings
	c.dropListings(P)
	if d == cMeta && path.Base(P) != "Release.gpg" {
		rel := P[len(pre):]
		rel = strings.TrimPrefix(rel, "/")
		if site.genuine(rel, data) && !c.unread[ev.Ino] && Readable(rel, data) {
			for _, l := range listOf(rel, data) {
				f := path.Join(pre, l.Path)
				if prefixOf(f) != pre {
					continue
				}
				l.Path = f
				c.hist[f] = append(c.hist[f], &listing{l: l, idx: P, from: Now(), to: inf, seq: c.seq})
				c.info[f] = &cinfo{seq: c.seq, l: []Listed{l}}
			}
		} else {
			c.opaque[pre] = c.seq
			W.Probe("opaque-index")
		}
	}
	c.seq++
	c.info[P] = &cinfo{seq: c.seq, l: []Listed{{Path: P, Size: len(data), MD5: h.sums.MD5, SHA1: h.sums.SHA1, SHA256: h.sums.SHA256}}}
	c.revalidate(pre)
}

func listOf(rel string, data []byte) []Listed {
	b := path.Base(rel)
	if strings.HasPrefix(b, "Packages") || strings.HasPrefix(b, "Sources") {
		return ReadIndex(rel, data)
	}
	l, _ := ReadRelease(rel, data)
	return l
}

func (s *Site) genuine(rel string, data []byte) bool {
	if s.Repo.odd[string(data)] {
		return false // damaged in ways the oracle does not interpret
	}
	for v := s.Ver + 1; v >= 0; v-- {
		if b, ok := s.Repo.Get(v, rel); ok && bytes.Equal(b, data) {
			return true
		}
	}
	return false
}

func (c *csim) dropListings(idx string) {
	for _, l := range c.hist {
		for _, x := range l {
			if x.idx == idx && x.to == inf {
				x.to = Now()
			}
		}
	}
}

func (c *csim) onGone(d, P string) {
	h := c.held[P]
	if h == nil {
		return
	}
	if d == cItem {
		c.resolveEvict("", 0)
		ev := &pendEvict{P: P, total: c.total(), size: int64(len(h.data))}
		if c.tainted {
			c.evict = nil
		} else {
			if ev.total <= c.capBytes() {
				ev.why = "needless"
			} else {
				for _, o := range c.sortedHeld() {
					if o != h && !isMetaName(o.P) && o.maybe < h.sure {
						ev.why = "order: " + o.P + " was used longer ago"
					}
				}
			}
			c.evict = ev
		}
	}
	if d == cMeta && !c.tainted {
		// (C11) Release files and indices are replaced, never removed
		n := c.node
		c.seq++
		id := c.seq
		c.metaGone[P] = id
		After(5*time.Second+time.Duration(stallSlack), func() {
			if c.metaGone[P] == id && n == c.node && !n.Exited && !c.tainted {
				W.Violate("C11,C08", "removed", "cached %s was removed without a replacement", P)
			}
		})
	}
	W.Logf("removed %s", P)
	delete(c.held, P)
	c.dropListings(P)
	c.revalidate(prefixOf(P))
}

func (c *csim) sortedHeld() []*held {
	var l []*held
	for _, h := range c.held {
		l = append(l, h)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].P < l[j].P })
	return l
}

// resolveEvict judges the last removal from the item cache: it was a
// replacement if the same name is added next, else an eviction.
func (c *csim) resolveEvict(P string, size int64) {
	e := c.evict
	c.evict = nil
	if e == nil || e.P == P || c.tainted {
		return
	}
	W.Probe("evictions")
	switch {
	case e.why == "needless":
		if P == "" || e.total+size <= c.capBytes() {
			W.Violate("C09,C11", "needless-eviction", "%s was removed although %d bytes were cached, capacity %d", e.P, e.total, c.capBytes())
		}
	case e.why != "":
		W.Violate("C09", "lru-order", "%s was evicted, but %s", e.P, e.why)
	}
}

func (c *csim) revalidate(pre string) {
	for P, h := range c.held {
		if prefixOf(P) != pre {
			continue
		}
		i := c.info[P]
		ok := i != nil && i.seq > c.opaque[pre]
		if ok {
			for _, l := range i.l {
				ok = ok && matchSums(l, h.sums)
			}
		}
		if _, was := c.valid[P]; was && !ok {
			delete(c.valid, P)
		} else if ok && !was {
			c.valid[P] = Now()
		}
	}
	for P := range c.valid {
		if c.held[P] == nil {
			delete(c.valid, P)
		}
	}
}

// scan rebuilds the model from the disk, as a starting process does.
func (c *csim) scan() {
	now := Now()
	for _, l := range c.hist {
		for _, x := range l {
			if x.to == inf {
				x.to = now
			}
		}
	}
	c.held = map[string]*held{}
	c.info = map[string]*cinfo{}
	c.opaque = map[string]uint64{}
	c.valid = map[string]int64{}
	c.neg = map[string]*neg{}
	c.evict = nil
	c.oldTmp = map[*Inode]string{}
	c.seq++
	for _, d := range []string{cMeta, cItem} {
		in := W.FS.Stat(d)
		if in == nil || in.Typ != tDir {
			continue
		}
		in.Walk("", func(rel string, f *Inode) {
			if f.Typ != tFile {
				return
			}
			if !strings.HasSuffix(rel, ".cache") {
				c.oldTmp[f] = d + "/" + rel
				return
			}
			P := strings.TrimSuffix(rel, ".cache")
			if (d == cMeta) != isMetaName(P) {
				return
			}
			c.held[P] = &held{P: P, ino: f, data: f.Data, sums: SumsOf(f.Data), at: now}
		})
	}
	var pres []string
	for _, x := range c.p.Prefixes {
		pres = append(pres, x.Name)
	}
	for _, h := range c.sortedHeld() {
		pre := prefixOf(h.P)
		_, site := c.site(pre)
		if site == nil || !isMetaName(h.P) || path.Base(h.P) == "Release.gpg" {
			continue
		}
		rel := strings.TrimPrefix(h.P[len(pre):], "/")
		if !site.genuine(rel, h.data) || !Readable(rel, h.data) {
			c.opaque[pre] = c.seq + 1
			continue
		}
		for _, l := range listOf(rel, h.data) {
			f := path.Join(pre, l.Path)
			if prefixOf(f) != pre {
				continue
			}
			l.Path = f
			c.hist[f] = append(c.hist[f], &listing{l: l, idx: h.P, from: now, to: inf, seq: c.seq})
			if c.info[f] == nil {
				c.info[f] = &cinfo{seq: c.seq}
			}
			c.info[f].l = append(c.info[f].l, l)
		}
	}
	c.seq++
	for _, h := range c.sortedHeld() {
		P := h.P
		if isMetaName(P) && c.info[P] == nil {
			c.info[P] = &cinfo{seq: c.seq, l: []Listed{{Path: P, Size: len(h.data), MD5: h.sums.MD5, SHA1: h.sums.SHA1, SHA256: h.sums.SHA256}}}
		}
	}
	for _, p := range pres {
		c.revalidate(p)
	}
	c.seq++
}

// ---- process control ----

func (c *csim) power(mode CrashMode) {
	W.Logf("POWER LOSS")
	if c.node != nil && !c.node.Exited {
		c.expect[c.node] = "power"
		W.Kill(c.node)
	}
	W.FS.Crash(mode)
}

func (c *csim) kill() {
	if c.node != nil && !c.node.Exited {
		W.Fault("kill")
		c.expect[c.node] = "kill"
		W.Kill(c.node)
	}
}

func (c *csim) noteEnd() {
	n := c.node
	if n == nil || !n.Exited || c.noted[n] {
		return
	}
	c.noted[n] = true
	if n.Code == -1 && c.expect[n] == "" {
		c.expect[n] = "crash point"
	}
	if c.expect[n] != "" && n.Code != -2 {
		if c.expect[n] == "term" && n.Code > 0 && !c.tainted {
			W.Violate("C12", "shutdown-status", "go-apt-cacher, told to stop, ended with code %d: %s", n.Code, tail(string(W.Stderr), 300))
		}
		return
	}
	if c.tainted {
		W.Probe("died-of-disk-fault")
		return
	}
	if n.Code == -2 {
		W.Violate("C16,C06,C14"+runtimeCheck(n.Panic), "crash:"+n.PanicSite(), "go-apt-cacher panicked: %s", n.Panic)
	} else {
		W.Violate("C16,C06", "unexpected-exit", "go-apt-cacher ended with code %d: %s", n.Code, tail(string(W.Stderr), 300))
	}
	c.stop = true
}

// ensure makes sure a process is running.
func (c *csim) ensure() bool {
	c.noteEnd()
	if c.node != nil && !c.node.Exited {
		return true
	}
	for try := 0; try < 3 && !c.stop; try++ {
		if c.start() {
			return true
		}
		if c.stop {
			return false
		}
		// a disk fault or crash point hit the start: try again without
		c.gate.Faults, c.gate.Crash = nil, nil
		W.FS.Limit = 0
	}
	if !c.stop {
		Die("cannot start")
	}
	return false
}

func (c *csim) start() bool {
	W.FS.WriteFile(cConf, c.config())
	c.scan()
	c.tainted = false
	os.Args = []string{"go-apt-cacher", "-f", cConf}
	c.nodes++
	n := W.StartNode(fmt.Sprintf("cacher%d", c.nodes), c.mainFn)
	n.startAt = Now()
	c.node = n
	c.gate.Node = n
	end := Now() + 120e9
	for W.Net.listeners[cPort] == nil && !n.Exited && Now() < end {
		Sleep(5 * time.Millisecond)
	}
	if W.Net.listeners[cPort] != nil && !n.Exited {
		if c.nodes > 1 {
			W.Probe("restarts")
		}
		return true
	}
	c.noted[n] = true
	if n.Exited && (c.tainted || n.Code == -1) {
		return false
	}
	switch {
	case !n.Exited:
		W.Violate("C08,C16", "start-hangs", "go-apt-cacher does not listen 120 s after its start")
	case n.Code == -2:
		W.Violate("C08,C16"+runtimeCheck(n.Panic), "start-crash:"+n.PanicSite(), "go-apt-cacher panicked while starting: %s", n.Panic)
	default:
		W.Violate("C08,C16", "start-failed", "go-apt-cacher ended with code %d while starting: %s", n.Code, tail(string(W.Stderr), 300))
	}
	c.stop = true
	return false
}

// term sends SIGTERM and watches the shutdown.
func (c *csim) term() {
	n := c.node
	if n == nil || n.Exited {
		return
	}
	c.expect[n] = "term"
	W.Fault("sigterm")
	W.Signal(n)
	tainted := c.tainted
	After(120*time.Second, func() {
		if !n.Exited {
			if !tainted {
				W.Violate("C12", "shutdown-hang", "go-apt-cacher is still running 120 s after SIGTERM")
			}
			W.Kill(n)
		}
	})
}

func (c *csim) waitExit() {
	if c.node != nil && c.node.SigAt > 0 {
		W.WaitExit(c.node, 200*time.Second)
	}
}

// ---- clients ----

func (c *csim) runConn(cc *CConn) {
	defer func() {
		c.curSt--
		c.ansQ.WakeAll()
	}()
	if cc.At > 0 {
		Sleep(time.Duration(cc.At) * time.Millisecond)
	}
	link := c.p.CLink
	if cc.Slow {
		link.Window = 2048
	}
	conn := W.Net.Connect(cPort, link)
	if conn == nil || c.node == nil {
		return
	}
	n := c.node
	br := bufio.NewReaderSize(conn, 4096)
	var qs []*creq
	defer func() {
		for _, q := range qs {
			if q.b == 0 && !q.aborted {
				q.err = "no answer"
				c.answered(q)
			}
		}
		if !conn.Closed() {
			conn.Close()
		}
	}()
	send := func(s *CReq, first bool) *creq {
		q := c.newReq(s, n)
		q.first = first
		qs = append(qs, q)
		txt := s.Raw
		if txt == "" {
			h := s.Hdr
			if s.Range != "" {
				h += "Range: " + s.Range + "\r\n"
			}
			if !q.bad {
				h += c.condition(q)
			}
			txt = fmt.Sprintf("%s %s HTTP/1.1\r\nHost: cacher.test\r\n%s\r\n", q.method, s.Target, h)
		}
		q.a = Now()
		W.Logf("client %d: %s %s%s", q.id, q.method, s.Target, s.Raw)
		_, err := conn.Write([]byte(txt))
		if err != nil {
			q.err = err.Error()
		}
		return q
	}
	read := func(q *creq) bool {
		s := q.spec
		if s.Abort == 1 || s.Abort == 4 {
			if s.Abort == 4 {
				Sleep(time.Duration(s.Chunk) * time.Millisecond)
			}
			q.aborted = true
			W.Fault("client-abort")
			conn.Close()
			c.answered(q)
			return false
		}
		resp, err := http.ReadResponse(br, &http.Request{Method: q.method})
		if err != nil {
			q.err = err.Error()
			c.answered(q)
			return false
		}
		q.status, q.hdr, q.cl = resp.StatusCode, resp.Header, resp.ContentLength
		chunk := s.Chunk
		if chunk <= 0 {
			chunk = 32768
		}
		buf := make([]byte, chunk)
		for k := 0; ; k++ {
			m, err := resp.Body.Read(buf)
			q.body = append(q.body, buf[:m]...)
			if err == io.EOF {
				q.whole = true
				break
			}
			if err != nil {
				q.cut = true
				q.err = err.Error()
				c.answered(q)
				return false
			}
			if s.Abort == 2 || s.Abort == 3 {
				q.aborted = true
				W.Fault("client-abort")
				if s.Abort == 3 {
					conn.Reset()
				} else {
					conn.Close()
				}
				c.answered(q)
				return false
			}
			if s.ReadMs > 0 && k < 20 {
				Sleep(time.Duration(s.ReadMs) * time.Millisecond)
			}
		}
		c.answered(q)
		return !resp.Close && q.status != 400
	}
	if cc.Pipe {
		for i, s := range cc.Reqs {
			send(s, i == 0)
		}
		for _, q := range qs {
			if !read(q) {
				return
			}
		}
		return
	}
	for _, s := range cc.Reqs {
		if s.GapMs > 0 {
			Sleep(time.Duration(s.GapMs) * time.Millisecond)
		}
		if conn.PeerClosed() {
			return
		}
		q := send(s, true)
		if !read(q) {
			return
		}
	}
}

func (c *csim) newReq(s *CReq, n *Node) *creq {
	q := &creq{id: len(c.reqs), spec: s, method: s.Method, n: n, cl: -1}
	if q.method == "" {
		q.method = "GET"
	}
	q.bad = s.Raw != ""
	if !q.bad {
		u, err := url.ParseRequestURI(s.Target)
		if err != nil {
			q.bad = true
		} else {
			q.P = strings.TrimPrefix(path.Clean("/"+u.Path), "/")
			q.prefix = prefixOf(q.P)
			x, _ := c.site(q.prefix)
			q.mapped = x != nil && !c.drop[q.prefix]
		}
	}
	if q.mapped && (q.method == "GET" || q.method == "HEAD") {
		c.asked[q.P] = true
	}
	c.reqs = append(c.reqs, q)
	if !q.bad {
		c.pend[q.P] = append(c.pend[q.P], q)
	}
	c.nopen++
	return q
}

func (c *csim) answered(q *creq) {
	if q.closed {
		return
	}
	q.closed = true
	if !q.aborted {
		q.b = Now()
	}
	c.nopen--
	l := c.pend[q.P]
	for i, o := range l {
		if o == q {
			c.pend[q.P] = append(l[:i:i], l[i+1:]...)
			break
		}
	}
	W.Logf("client %d: status %d, %d bytes whole=%v %s", q.id, q.status, len(q.body), q.whole, q.err)
	if !q.aborted {
		c.judge(q)
	}
	c.ansQ.WakeAll()
}

// ---- oracle for answers ----

// allowedVersions lists the bodies an answer for P in [a,b] may be based on;
// reason explains the rejected ones.
func (c *csim) versionOK(P string, body []byte, a, b int64) (props, class, why string) {
	found := false
	for _, r := range c.byP[P] {
		if r.Full && r.T1 <= b && bytes.Equal(r.Body, body) {
			found = true
		}
	}
	if !found {
		for _, r := range c.byP[P] {
			if len(body) < len(r.Body) && bytes.HasPrefix(r.Body, body) {
				return "C01,C03,C14,C08", "short-body", "is cut short"
			}
		}
		var ps []string
		for p2 := range c.byP {
			ps = append(ps, p2)
		}
		sort.Strings(ps)
		for _, p2 := range ps {
			if p2 == P {
				continue
			}
			for _, r := range c.byP[p2] {
				if len(body) > 0 && bytes.Equal(r.Body, body) && r.Status == 200 && !r.Bad {
					return "C15,C03,C01", "other-file", "is that of another file (" + p2 + ")"
				}
			}
		}
		for _, r := range c.byP[P] {
			if len(body) > 0 && r.Status != 200 && bytes.Equal(r.Body, body) {
				return "C05,C01,C03", "error-body", fmt.Sprintf("was the body of an answer with status %d", r.Status)
			}
		}
		return "C01,C03,C14,C08", "foreign-body", "was never delivered by upstream"
	}
	// listings held
	pre := prefixOf(P)
	s := SumsOf(body)
	active := false
	match := false
	var newest uint64
	for _, x := range c.hist[P] {
		if x.from < a && x.to > a {
			active = true
			if x.seq > newest {
				newest = x.seq
			}
		}
		if x.from <= b && x.to >= a && matchSums(x.l, s) {
			match = true
		}
	}
	if active && !match && c.opaque[pre] < newest {
		_, site := c.site(pre)
		rel := strings.TrimPrefix(P[len(pre):], "/")
		if site != nil && site.genuine(rel, body) {
			if c.diskAt > 0 && c.diskAt <= b {
				return "C02,C01,C14", "stale-content", "is an old version that no index held by the cacher lists any more"
			}
			return "C02,C01", "stale-content", "is an old version that no index held by the cacher lists any more"
		}
		return "C01,C14", "listing-mismatch", "contradicts the checksums in every index the cacher holds"
	}
	return "", "", ""
}

func (c *csim) checkBody(q *creq, body []byte) bool {
	props, class, why := c.versionOK(q.P, body, q.a, q.b)
	if class == "" {
		return true
	}
	W.Violate(props, class, "answer to %s (%d bytes) %s", q.P, len(body), why)
	return false
}

func (c *csim) inShutdown(q *creq) bool { return q.n.SigAt > 0 && q.b >= q.n.SigAt }

func (c *csim) judge(q *creq) {
	c.noteFull()
	n := q.n
	if q.bad {
		if q.status == 0 && !q.n.Exited && q.err != "" && !c.inShutdown(q) {
			W.Probe("bad-request-closed")
		}
		return
	}
	// not answered or cut off
	if !q.whole {
		switch {
		case n.Exited && n.Code < 0, c.tainted:
			return
		case n.SigAt > 0:
			margin := int64(1e9)
			if c.stalls {
				margin = stallSlack
			}
			if q.first && q.a+margin+c.p.CLink.Lat+c.p.CLink.NsPerKB < n.SigAt {
				W.Violate("C12", "shutdown-drop", "request %s sent %.3f s before SIGTERM got no complete answer", q.P, float64(n.SigAt-q.a)/1e9)
			}
			return
		case q.status == 0:
			if !q.first {
				return // a pipelined request on a connection the server closed
			}
			if q.a > 0 && q.spec.GapMs > 0 {
				return // the server may have closed the idle connection at that instant
			}
			W.Violate("C06,C16", "no-response", "the connection of request %s %s ended without a response: %s", q.method, q.P, q.err)
		default:
			W.Violate("C03,C14", "cut-off", "the answer to %s ended early (%d of %d bytes)", q.P, len(q.body), q.cl)
		}
		return
	}
	W.Probe("answers")
	if q.method != "GET" && q.method != "HEAD" {
		if q.status/100 == 2 {
			W.Violate("C15,C16", "method", "%s is answered with status %d", q.method, q.status)
		}
		return
	}
	if !q.mapped {
		if q.status != 404 && !c.inShutdown(q) {
			W.Violate("C15", "unmapped", "%s of %s, whose prefix is not mapped, is answered with status %d", q.method, q.spec.Target, q.status)
		}
		W.Probe("unmapped-checked")
		return
	}
	loop := 0
	for _, r := range c.byP[q.P] {
		if r.T0 >= q.a && r.T0 <= q.b && r.Status/100 != 3 {
			loop++
		}
	}
	others := 0
	for _, o := range c.reqs {
		if o.P == q.P && o.a <= q.b && (o.b == 0 || o.b >= q.a) {
			others++
		}
	}
	if !refreshed(q.P) && loop > 30+3*others {
		W.Violate("C06", "request-loop", "%d upstream requests for %s while one client request waited", loop, q.P)
	}
	switch q.status {
	case 200:
		W.Probe("answers-200")
		if q.method == "HEAD" {
			c.checkLen(q, q.cl)
		} else {
			if c.checkBody(q, q.body) {
				c.seen[q.P] = &seen{body: q.body, at: q.b, lm: q.hdr.Get("Last-Modified"), etag: q.hdr.Get("ETag")}
			}
			if q.cl >= 0 && q.cl != int64(len(q.body)) {
				W.Violate("C03", "length", "answer to %s declares %d bytes and has %d", q.P, q.cl, len(q.body))
			}
		}
	case 304:
		if q.prev == nil {
			c.checkStatus(q)
			break
		}
		// what the client holds has to be an acceptable answer
		W.Probe("not-modified")
		c.checkBody(q, q.prev.body)
	case 206:
		W.Probe("answers-206")
		if q.hdr.Get("Content-Range") == "" && !strings.HasPrefix(q.hdr.Get("Content-Type"), "multipart/") {
			c.checkStatus(q)
		} else {
			c.checkRange(q)
		}
	case 416:
		W.Probe("answers-416")
		cr := q.hdr.Get("Content-Range")
		k, err := strconv.ParseInt(strings.TrimPrefix(cr, "bytes */"), 10, 64)
		if err == nil {
			c.checkLen(q, k)
		}
	default:
		c.checkStatus(q)
	}
	c.checkNeg(q)
	// (C11) cached and valid files are always available
	if since, ok := c.valid[q.P]; ok && since < q.a && !c.tainted && !c.inShutdown(q) && q.n == c.node {
		W.Probe("valid-cached-answers")
		if q.status != 200 && q.status != 206 && q.status != 416 && !(q.conditional() && (q.status == 304 || q.status == 412)) {
			W.Violate("C11,C06,C16", "cached-unavailable", "%s is cached and valid, but the answer is status %d", q.P, q.status)
		} else if h := c.held[q.P]; q.status == 200 && q.method == "GET" && !bytes.Equal(h.data, q.body) {
			W.Violate("C11,C03", "cached-other", "the answer to %s is not the cached valid content", q.P)
		}
	}
}

func (c *csim) candidates(q *creq) [][]byte {
	var l [][]byte
	for _, r := range c.byP[q.P] {
		if r.Full && r.T1 <= q.b {
			l = append(l, r.Body)
		}
	}
	return l
}

func (c *csim) checkLen(q *creq, n int64) {
	if n < 0 {
		return
	}
	var class, props, why string
	found := false
	for _, b := range c.candidates(q) {
		if int64(len(b)) != n {
			continue
		}
		found = true
		if p, cl, w := c.versionOK(q.P, b, q.a, q.b); cl == "" {
			return
		} else {
			props, class, why = p, cl, w
		}
	}
	if !found {
		W.Violate("C03,C01", "head-length", "%s of %s announces length %d, which no version delivered by upstream has", q.method, q.P, n)
		return
	}
	W.Violate(props, class, "%s of %s announces length %d: the content %s", q.method, q.P, n, why)
}

func parseRange(s string) (a, b, n int, ok bool) {
	k, err := fmt.Sscanf(s, "bytes %d-%d/%d", &a, &b, &n)
	return a, b, n, err == nil && k == 3
}

func (c *csim) checkRange(q *creq) {
	type part struct {
		a, b, n int
		data    []byte
	}
	var ps []part
	mt, params, _ := mime.ParseMediaType(q.hdr.Get("Content-Type"))
	if mt == "multipart/byteranges" {
		if q.method == "HEAD" {
			return
		}
		mr := multipart.NewReader(bytes.NewReader(q.body), params["boundary"])
		for {
			p, err := mr.NextPart()
			if err != nil {
				break
			}
			a, b, n, ok := parseRange(p.Header.Get("Content-Range"))
			d, err := io.ReadAll(p)
			if !ok || err != nil {
				W.Violate("C03", "multipart", "bad part in a ranged answer to %s", q.P)
				return
			}
			ps = append(ps, part{a, b, n, d})
		}
		if len(ps) == 0 {
			W.Violate("C03", "multipart", "ranged answer to %s has no parts", q.P)
		}
	} else {
		a, b, n, ok := parseRange(q.hdr.Get("Content-Range"))
		if !ok {
			W.Violate("C03", "content-range", "ranged answer to %s without a usable Content-Range (%s %s; %q)", q.P, q.method, q.spec.Range, fmt.Sprint(q.hdr))
			return
		}
		if q.method == "HEAD" {
			c.checkLen(q, int64(n))
			return
		}
		if b == a-1 && len(q.body) == 0 {
			c.checkLen(q, int64(n)) // an empty range
			return
		}
		ps = append(ps, part{a, b, n, q.body})
	}
	var class, props, why string
	for _, v := range c.candidates(q) {
		ok := true
		for _, p := range ps {
			if p.n != len(v) || p.a < 0 || p.b < p.a || p.b >= len(v) || !bytes.Equal(v[p.a:p.b+1], p.data) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if q.prev != nil && q.spec.Cond == 2 && !bytes.Equal(v, q.prev.body) {
			props, class, why = "C03,C02", "mixed-versions", "is that of another version than the one asked for with If-Range"
			continue
		}
		if p, cl, w := c.versionOK(q.P, v, q.a, q.b); cl == "" {
			return
		} else {
			props, class, why = p, cl, w
		}
	}
	if class == "" {
		W.Violate("C03,C01", "range-content", "ranged answer to %s (%s; %s) is no part of a version upstream delivered", q.P, q.spec.Range, fmt.Sprint(q.hdr))
		return
	}
	W.Violate(props, class, "ranged answer to %s: the content %s", q.P, why)
}

func simpleAttempt(r *Req) bool {
	return (r.Fault == "" || r.Fault == "status" || r.Fault == "notfound") && r.Status != 200 && r.Status >= 204 && r.Status/100 != 3 && r.T1 != 0 && r.Sent
}

func (c *csim) dialFailed(host string, from, to int64) bool {
	for _, t := range c.dialBad[host] {
		if t >= from && t <= to {
			return true
		}
	}
	return false
}

func oddName(P string) bool {
	if strings.Contains(P, ".cache/") || strings.IndexByte(P, 0) >= 0 || len(P) > 3000 {
		return true
	}
	for _, s := range strings.Split(P, "/") {
		if len(s) > 240 {
			return true
		}
	}
	return false
}

func (c *csim) checkStatus(q *creq) {
	st := q.status
	if st == 404 && unsupported(q.P) {
		return
	}
	if (st == 304 || st == 412) && q.conditional() || c.inShutdown(q) {
		return
	}
	w0 := q.a - int64(c.p.Period)*1e9 - stallSlack
	_, site := c.site(q.prefix)
	reason := false
	var last *Req
	for _, r := range c.byP[q.P] {
		if r.T0 > q.b || r.T1 != 0 && r.T1 < w0 {
			continue
		}
		if r.Status == st {
			if simpleAttempt(r) && r.T1 <= q.b {
				last = r
			}
			reason = true
			continue
		}
		if st < 500 {
			continue
		}
		// an error of the cacher itself needs a failed download
		switch {
		case simpleAttempt(r) && r.T1 <= q.b && r.T1-r.T0 < 5e9:
			// its status would have been passed on
		case r.Fault != "" || r.Status != 200 || !r.Full:
			reason = true
		case int64(len(r.Body)) > c.capBytes() && !isMetaName(q.P):
			reason = true
		default:
			s := SumsOf(r.Body)
			for _, x := range c.hist[q.P] {
				if !matchSums(x.l, s) {
					reason = true
				}
			}
		}
	}
	if st >= 500 && !reason {
		// the path may be unsuitable for a file name, the host unreachable,
		// the disk failing, or an unreadable index lists strange checksums
		reason = c.dialFailed(site.Host, w0-140e9, q.b) || c.tainted || c.diskAt > 0 && c.diskAt <= q.b && c.node != nil || oddName(q.P) || c.conflict(q.P) || c.opaque[q.prefix] > 0
	}
	if !reason {
		W.Violate("C05,C06", "unexplained-status", "%s of %s is answered with status %d, for which no upstream answer for that path in the last %d s is a reason", q.method, q.P, st, c.p.Period)
		return
	}
	W.Probe("error-answers")
	if last != nil && q.n == c.node && c.neg[q.P] == nil && !refreshed(q.P) {
		l := c.byP[q.P]
		if l[len(l)-1] == last {
			t := min(last.T1, q.b)
			c.neg[q.P] = &neg{n: q.n, status: st, ansAt: q.b, until: t + int64(c.p.Period)*1e9, id: q.id}
		}
	}
}

// conflict: the file name of P needs a directory where another item is, or
// the reverse.
func (c *csim) conflict(P string) bool {
	for p2 := range c.byP {
		if strings.HasPrefix(p2+"/", P+".cache/") || strings.HasPrefix(P+"/", p2+".cache/") {
			return true
		}
	}
	return false
}

// checkNeg: (C05) the remembered status is given during the cache period,
// and tried again after it.
func (c *csim) checkNeg(q *creq) {
	if since, ok := c.valid[q.P]; ok && since < q.b && c.neg[q.P] != nil && q.status != c.neg[q.P].status {
		delete(c.neg, q.P) // the file of an earlier process became known to be valid
	}
	if n := c.neg[q.P]; n != nil && n.n == q.n && n.id != q.id && q.a > n.ansAt && q.b < n.until && !c.inShutdown(q) {
		W.Probe("remembered-status")
		if q.status != n.status {
			W.Violate("C05", "status-forgotten", "%s is answered with status %d %.3f s before the cache period of status %d ends", q.P, q.status, float64(n.until-q.b)/1e9, n.status)
		}
	}
	if q.status < 400 || c.inShutdown(q) || unsupported(q.P) || q.status == 416 || q.conditional() && q.status == 412 {
		return
	}
	_, site := c.site(q.prefix)
	w0 := q.a - int64(c.p.Period)*1e9 - stallSlack
	for _, r := range c.byP[q.P] {
		if r.T1 == 0 || r.T1 >= w0 {
			return
		}
	}
	if c.dialFailed(site.Host, w0-140e9, q.b) || c.tainted {
		return
	}
	W.Violate("C05,C06", "status-stuck", "%s is answered with status %d without asking upstream, although the last attempt ended more than %d s before", q.P, q.status, c.p.Period)
}

// ---- steps ----

func (c *csim) hosts() []string {
	m := map[string]bool{}
	var l []string
	for _, x := range c.p.Prefixes {
		if !m[x.Host] {
			m[x.Host] = true
			l = append(l, x.Host)
		}
	}
	return l
}

func (c *csim) down(how string) {
	if how == "" {
		how = "refused"
	}
	c.up.DownHow = how
	W.Fault("upstream-down")
	for _, h := range c.hosts() {
		c.up.Down[h] = true
		c.dialBad[h] = append(c.dialBad[h], Now())
		W.Net.ResetHost(h)
	}
}

func (c *csim) upAgain() {
	for _, h := range c.hosts() {
		delete(c.up.Down, h)
	}
}

func (c *csim) clearFaults() {
	c.up.Faults = nil
	c.up.MinLat = 0
	c.gate.Faults, c.gate.Crash = nil, nil
	W.FS.Limit = 0
}

func (c *csim) setFaults(st *CStep) {
	c.gate.Faults, c.gate.Crash = st.FS, st.Crash
	if st.Limit > 0 {
		W.FS.Limit = W.FS.used + st.Limit
	}
}

func (c *csim) doStep() {
	st := c.st
	W.Logf("step %d %s", c.step, st.Op)
	switch st.Op {
	case "publish":
		c.publish(st.Prefix)
	case "sleep":
		Sleep(time.Duration(st.Ms) * time.Millisecond)
	case "down":
		c.down(st.How)
	case "up":
		c.upAgain()
	case "stop":
		c.term()
		c.waitExit()
	case "kill":
		c.kill()
	case "power":
		m := CrashMode{}
		if st.Power != nil {
			m = *st.Power
		}
		c.power(m)
	case "reconf":
		c.term()
		c.waitExit()
		c.noteEnd()
		c.drop = map[string]bool{}
		for _, i := range st.Drop {
			if i < len(c.p.Prefixes) {
				c.drop[c.p.Prefixes[i].Name] = true
			}
		}
		if st.Cap > 0 {
			c.cap = st.Cap
		}
	case "bad":
		c.doBad(st)
	case "work":
		c.work(st)
	default:
		Die("unknown step %q", st.Op)
	}
	c.noteEnd()
}

func (c *csim) work(st *CStep) {
	c.clearFaults()
	if st.Boot {
		c.setFaults(st)
	}
	if !c.ensure() {
		return
	}
	c.up.Faults = st.Faults
	c.up.T0 = Now()
	c.up.MinLat = time.Duration(st.Slow) * time.Millisecond
	if !st.Boot {
		c.setFaults(st)
	}
	step, n := c.step, c.node
	for _, p := range st.Pubs {
		if p.Req == 0 {
			p := p
			After(time.Duration(p.Ms)*time.Millisecond, func() {
				if c.step == step {
					p.done = true
					c.publish(p.Prefix)
				}
			})
		}
	}
	if st.TermMs > 0 {
		After(time.Duration(st.TermMs)*time.Millisecond, func() {
			if c.node == n {
				c.term()
			}
		})
	}
	if st.KillMs > 0 {
		After(time.Duration(st.KillMs)*time.Millisecond, func() {
			if c.node == n && !n.Exited && c.step == step {
				if st.Power != nil {
					c.power(*st.Power)
				} else {
					c.kill()
				}
			}
		})
	}
	c.curSt = 0
	for _, cc := range st.Conns {
		c.curSt++
		cc := cc
		GoSim(func() { c.runConn(cc) })
	}
	ms := st.Ms
	if ms == 0 {
		ms = 600000
	}
	end := Now() + int64(ms)*1e6
	for c.curSt > 0 && Now() < end && !n.Exited {
		c.ansQ.WaitUntil(min(end, Now()+1e9))
	}
	if st.TermMs > 0 {
		for n.SigAt == 0 && !n.Exited && Now() < c.up.T0+int64(st.TermMs)*1e6+1e6 {
			Sleep(100 * time.Millisecond)
		}
		c.waitExit()
	}
	if st.KillMs > 0 && !n.Exited {
		for !n.Exited && Now() < c.up.T0+int64(st.KillMs)*1e6+1e6 {
			Sleep(10 * time.Millisecond)
		}
	}
	if n.SigAt > 0 {
		c.waitExit()
	}
}

// get performs one request and waits for the answer.
func (c *csim) get(target string, want []byte) *creq {
	first := len(c.reqs)
	c.curSt++
	spec := &CReq{Target: target}
	GoSim(func() { c.runConn(&CConn{Reqs: []*CReq{spec}}) })
	// other clients may still be at work
	mine := func() *creq {
		for _, q := range c.reqs[first:] {
			if q.spec == spec {
				return q
			}
		}
		return nil
	}
	end := Now() + 2400e9
	for {
		q := mine()
		if q != nil && q.closed {
			return q
		}
		if Now() >= end || c.node.Exited {
			return nil
		}
		if q == nil {
			Sleep(time.Millisecond)
			if mine() == nil {
				return nil
			}
			continue
		}
		c.ansQ.WaitUntil(min(end, Now()+1e9))
	}
}

func (c *csim) temps() []string {
	var l []string
	for _, d := range []string{cMeta, cItem} {
		in := W.FS.Stat(d)
		if in == nil || in.Typ != tDir {
			continue
		}
		in.Walk("", func(rel string, f *Inode) {
			if f.Typ == tFile && !strings.HasSuffix(rel, ".cache") {
				if _, old := c.oldTmp[f]; !old {
					l = append(l, d+"/"+rel)
				}
			}
		})
	}
	return l
}

func (c *csim) waitAnswers() bool {
	end := Now() + 2400e9
	for c.nopen > 0 && Now() < end && !c.node.Exited {
		c.ansQ.WaitUntil(min(end, Now()+5e9))
	}
	c.noteEnd()
	if c.stop {
		return false
	}
	if c.node.Exited {
		Sleep(10 * time.Second)
	}
	for _, q := range c.reqs {
		if !q.closed && !c.node.Exited && q.n == c.node {
			n := 0
			for _, r := range c.byP[q.P] {
				if r.T0 > q.a {
					n++
				}
			}
			W.Violate("C06,C05,R01", "no-answer", "%s of %s is not answered %.0f s after all faults ended (%d upstream requests for it meanwhile)", q.method, q.P, 2400.0, n)
			if W.LogKeep {
				b := make([]byte, 1<<20)
				W.Logf("stacks:\n%s", b[:runtime.Stack(b, true)])
			}
			c.stop = true
			return false
		}
	}
	return true
}

func (c *csim) settle() {
	c.st = nil
	c.step = -1
	c.clearFaults()
	c.upAgain()
	hadDisk := c.diskAt > 0
	if c.node != nil && c.node.SigAt > 0 {
		c.waitExit()
	}
	if !c.ensure() {
		return
	}
	if !c.waitAnswers() {
		return
	}
	if !c.ensure() {
		return
	}
	// (C08) temporary files of earlier processes are gone
	c.checkOldTemps()
	if !c.quiesce() || c.stop {
		return
	}
	// (C11) while upstream is unreachable
	c.serveCached(20)
	if c.stop || !c.alive() {
		return
	}
	c.upAgain()
	for round := 0; round < 2; round++ {
		for i := range c.sites {
			c.publish(i)
		}
		c.before = map[string]bool{}
		for P := range c.held {
			c.before[P] = true
		}
		// refreshes that began while upstream was down may take long
		// to fail; later there is no reason for a delay.
		slack := 45 * time.Second
		if round > 0 && !c.stalls {
			slack = c.refreshTime()
		}
		Sleep(time.Duration(c.p.Interval)*time.Second + slack)
		if !c.alive() {
			return
		}
		c.checkFresh(slack)
	}
	Sleep(time.Duration(c.p.Period)*time.Second + time.Second)
	c.audit(hadDisk)
	if c.stop || !c.alive() {
		return
	}
	c.capacityProbe()
	if c.stop || !c.alive() {
		return
	}
	// (C12) shutdown with work going on
	c.up.Faults = c.p.TermFlt
	c.up.T0 = Now()
	c.curSt = 0
	for _, cc := range c.p.TermConn {
		c.curSt++
		cc := cc
		GoSim(func() { c.runConn(cc) })
	}
	Sleep(time.Duration(c.p.TermAt) * time.Millisecond)
	if !c.alive() {
		return
	}
	c.term()
	c.waitExit()
	W.Probe("shutdowns")
	Sleep(30 * time.Second)
	c.noteEnd()
	if c.stop {
		return
	}
	// (C08, C11) restart without upstream
	c.clearFaults()
	c.down("refused")
	if !c.ensure() {
		return
	}
	c.serveCached(20)
	if !c.alive() {
		return
	}
	c.checkOldTemps()
	W.Probe("settled")
}

// checkOldTemps: (C08) temporary files of earlier processes are gone.
func (c *csim) checkOldTemps() {
	var l []string
	for in, p := range c.oldTmp {
		if W.FS.Lstat(p) == in && !c.unlinkF {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	for _, p := range l {
		W.Violate("C08,C13", "old-temp", "temporary file %s of an earlier process is still there", p)
	}
}

func (c *csim) alive() bool {
	c.noteEnd()
	return !c.stop && !c.node.Exited
}

// quiesce: (C13, C09) with nothing going on nothing is left behind.
func (c *csim) quiesce() bool {
	c.down("refused")
	end := Now() + 60e9
	for {
		fds := append(c.node.OpenFDs(cMeta+"/"), c.node.OpenFDs(cItem+"/")...)
		tmp := c.temps()
		busy := c.up.InProgress()
		if len(fds) == 0 && len(tmp) == 0 && busy == 0 {
			break
		}
		if Now() >= end {
			if len(tmp) > 0 && !c.unlinkF {
				W.Violate("C13", "temp-leak", "no download is running, but there are temporary files: %v", tmp)
			}
			if len(fds) > 0 && !c.closeFault() {
				W.Violate("C13", "fd-leak", "no request or download is running, but files are open: %v", fds)
			}
			break
		}
		Sleep(time.Second)
		if !c.alive() {
			return false
		}
	}
	c.resolveEvict("", 0)
	if t := c.total(); t > c.capBytes() && !c.tainted {
		W.Violate("C09", "over-capacity-idle", "%d bytes are cached, capacity %d", t, c.capBytes())
	}
	W.Probe("quiet-checked")
	return true
}

func (c *csim) closeFault() bool {
	for k := range W.Faults {
		if strings.HasPrefix(k, "disk-close-") {
			return true
		}
	}
	return false
}

func esc(P string) string { return (&url.URL{Path: "/" + P}).EscapedPath() }

// serveCached requests what is on the disk; the answers are judged as usual.
func (c *csim) serveCached(limit int) {
	var l []string
	for _, h := range c.sortedHeld() {
		if !c.drop[prefixOf(h.P)] {
			l = append(l, h.P)
		}
	}
	rr := NewRand(uint64(len(l)) + c.plan.Seed)
	for len(l) > limit {
		i := rr.N(len(l))
		l = append(l[:i], l[i+1:]...)
	}
	for _, P := range l {
		if !c.alive() {
			return
		}
		_, ok := c.valid[P]
		q := c.get(esc(P), nil)
		if q == nil || !q.closed {
			if c.alive() {
				W.Violate("C06", "no-answer", "%s is not answered while upstream is unreachable", P)
				c.stop = true
			}
			return
		}
		if ok {
			W.Probe("served-while-down")
		}
	}
}

// refreshTime: how long refreshing everything once takes at most when
// nothing fails, one file after the other.
func (c *csim) refreshTime() time.Duration {
	l := &c.p.Link
	d := 2 * time.Second
	for _, h := range c.sortedHeld() {
		switch path.Base(h.P) {
		case "Release", "Release.gpg", "InRelease":
			n := int64(len(h.data) + 2048)
			d += time.Duration(8*l.Lat + n*l.NsPerKB/1024 + 1e6*int64(50+10*c.p.FsyncMs))
			if l.Window > 0 {
				d += time.Duration(n / int64(l.Window) * 2 * l.Lat)
			}
		}
	}
	return min(d, 45*time.Second)
}

// checkFresh: (C10) cached Release files follow upstream.
func (c *csim) checkFresh(slack time.Duration) {
	for _, h := range c.sortedHeld() {
		pre := prefixOf(h.P)
		_, site := c.site(pre)
		if site == nil || c.drop[pre] {
			continue
		}
		switch path.Base(h.P) {
		case "Release", "InRelease":
		default:
			continue
		}
		if len(c.hist[h.P]) > 0 {
			continue // listed in another Release file
		}
		if c.opaque[pre] > 0 && strings.Contains(h.P, "/binary-") {
			continue // perhaps listed in another Release file
		}
		rel := strings.TrimPrefix(h.P[len(pre):], "/")
		want, ok := c.up.lookup(site, site.Host, site.Base+rel)
		if !ok {
			continue
		}
		W.Probe("refresh-checked")
		if !bytes.Equal(h.data, want) {
			W.Violate("C10,C02", "not-refreshed", "%s was not updated within check_interval (%d s) + %v after upstream changed", h.P, c.p.Interval, slack)
			continue
		}
		if path.Base(h.P) == "Release" {
			if !c.before[h.P] {
				continue // fetched only after upstream changed
			}
			want, ok := c.up.lookup(site, site.Host, site.Base+rel+".gpg")
			if ok && c.held[h.P+".gpg"] == nil {
				Sleep(5 * time.Second) // it may be being replaced
			}
			if g := c.held[h.P+".gpg"]; ok && (g == nil || !bytes.Equal(g.data, want)) {
				W.Violate("C10", "gpg-not-refreshed", "%s was updated, its signature was not", h.P)
			}
		}
	}
}

// audit: with everything healthy again, what upstream has is served.
func (c *csim) audit(hadDisk bool) {
	rr := NewRand(c.plan.Seed ^ 0xa0d17)
	for i := range c.p.Prefixes {
		x, site := &c.p.Prefixes[i], c.sites[i]
		if c.drop[x.Name] {
			continue
		}
		ver := site.Repo.Version(site.Ver)
		var rels, idx, items []string
		for f := range ver.Files {
			P := path.Join(x.Name, f)
			switch {
			case unsupported(P):
			case refreshed(P) && len(c.hist[P]) == 0 || strings.HasPrefix(path.Base(P), "Release") && isMetaName(P):
				rels = append(rels, f)
			case isMetaName(P):
				idx = append(idx, f)
			default:
				items = append(items, f)
			}
		}
		for f := range ver.Files {
			if isMetaName(f) && !unsupported(f) {
				for _, l := range listOf(f, ver.Files[f]) {
					if b := site.Repo.pool[l.Path]; b != nil {
						items = append(items, l.Path)
					}
				}
			}
		}
		sort.Strings(rels)
		sort.Strings(idx)
		sort.Strings(items)
		items = uniq(items)
		for len(items) > 8 {
			k := rr.N(len(items))
			items = append(items[:k], items[k+1:]...)
		}
		for len(idx) > 10 {
			k := rr.N(len(idx))
			idx = append(idx[:k], idx[k+1:]...)
		}
		for _, f := range append(append(rels, idx...), items...) {
			P := path.Join(x.Name, f)
			want, ok := c.up.lookup(site, site.Host, site.Base+f)
			if !ok {
				continue
			}
			if !c.alive() {
				return
			}
			if !isMetaName(P) && int64(len(want)) > c.capBytes() {
				q := c.get(esc(P), want)
				if q == nil && c.alive() {
					W.Violate("C06", "no-answer", "%s, which is bigger than the cache, is not answered", P)
					c.stop = true
					return
				}
				W.Probe("oversize-audited")
				if q != nil && c.alive() {
					n := 0
					for _, r := range c.byP[P] {
						if r.T0 >= q.a && r.T0 <= q.b {
							n++
						}
					}
					if n > 3 {
						W.Violate("C06", "request-loop", "%s, which is bigger than the cache, is requested from upstream %d times for one client request", P, n)
					}
				}
				continue
			}
			q := c.get(esc(P), want)
			if q == nil {
				if c.alive() {
					W.Violate("C06", "no-answer", "%s is not answered although upstream has it", P)
					c.stop = true
				}
				return
			}
			W.Probe("audited")
			if q.status == 200 && bytes.Equal(q.body, want) {
				continue
			}
			// known checksums that contradict the current content?
			bad := false
			for _, l := range c.hist[P] {
				if !matchSums(l.l, SumsOf(want)) && l.to == inf {
					bad = true
				}
			}
			i := c.info[P]
			if i != nil {
				for _, l := range i.l {
					if !matchSums(l, SumsOf(want)) {
						bad = true
					}
				}
			}
			if c.opaque[x.Name] > 0 && (i == nil || i.seq < c.opaque[x.Name]) {
				continue
			}
			if bad {
				W.Probe("audit-stale-listing")
				continue
			}
			props := "C06,C16"
			changed := false
			for _, r := range c.byP[P] {
				if r.Status != 200 {
					props += ",C05"
					break
				}
			}
			for _, r := range c.byP[P] {
				changed = changed || r.Full && !bytes.Equal(r.Body, want)
			}
			if changed {
				props += ",C10,C02"
			}
			if hadDisk {
				props += ",C14"
			}
			if c.nodes > 1 {
				props += ",C08"
			}
			W.Violate(props, "not-recovered", "%s: status %d (%d bytes) although upstream serves it and nothing contradicts it", P, q.status, len(q.body))
			c.stop = true
			return
		}
	}
}

func uniq(l []string) []string {
	var o []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			o = append(o, s)
		}
	}
	return o
}

// capacityProbe: (C07, C06) all max_conns slots of every host are usable.
func (c *csim) capacityProbe() {
	if c.maxc == 0 || c.maxc > 12 {
		return
	}
	for _, h := range c.hosts() {
		var pre string
		for _, x := range c.p.Prefixes {
			if x.Host == h && !c.drop[x.Name] {
				pre = x.Name
			}
		}
		if pre == "" {
			continue
		}
		c.up.MinLat = 2 * time.Second
		if c.stalls {
			c.up.MinLat = 15 * time.Second
		}
		c.up.HostMax[h] = 0
		id := len(c.reqs)
		k := c.maxc + 2
		for i := 0; i < k; i++ {
			i := i
			c.curSt++
			GoSim(func() {
				c.runConn(&CConn{Reqs: []*CReq{{Target: fmt.Sprintf("/%s/probe/none%d.deb", pre, i)}}})
			})
		}
		end := Now() + 600e9
		for Now() < end && !c.node.Exited {
			done := len(c.reqs) >= id+k
			for _, q := range c.reqs[id:] {
				done = done && q.closed
			}
			if done {
				break
			}
			c.ansQ.WaitUntil(min(end, Now()+1e9))
		}
		c.up.MinLat = 0
		if !c.alive() {
			return
		}
		W.Probe("capacity-checked")
		if c.up.HostMax[h] < c.maxc {
			W.Violate("C07,C06", "capacity-lost", "only %d of %d connections to %s are used although %d files are requested at once", c.up.HostMax[h], c.maxc, h, k)
		}
	}
}
