package sim

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"net/http"
	"strings"
	"time"
)

// Upstream HTTP servers with scripted faults. They speak raw HTTP/1.1 so
// that replies can be cut, corrupted or delayed at any point.

type Fault struct {
	Kind  string `json:"kind"`
	Path  string `json:"path,omitempty"` // substring of the URL path; empty: any
	Skip  int    `json:"skip,omitempty"`
	Count int    `json:"count,omitempty"` // 0: once; -1: always
	Arg   int    `json:"arg,omitempty"`
	Arg2  int    `json:"arg2,omitempty"`
	From  int    `json:"from,omitempty"` // active from this simulated ms (relative to the step)
	To    int    `json:"to,omitempty"`
	Slow  int    `json:"slow,omitempty"` // ms over which the body is sent

	seen, used int
}

// Site is one archive below a base path of a host.
type Site struct {
	Name  string // identification for properties (mirror id or prefix)
	Host  string
	Base  string // "/debian/"
	Repo  *Repo
	Ver   int               // currently published version
	Extra map[string][]byte // odd paths (absolute URL path) of hostile listings
	Limit int               // max_conns to check; 0 unlimited
	Cur   int
	Peak  int
	// first version index at or after which a path's version window starts
	PubAt []int64 // publish time of each version
}

type Req struct {
	Seq    int
	Site   *Site
	Host   string
	Path   string // URL path
	P      string // cache path (cacher runs)
	Rel    string // path relative to the site
	Method string
	T0, T1 int64 // received; answered or abandoned (0: not yet)
	Status int
	Fault  string
	Ver    int
	Body   []byte // complete true body handed over
	Full   bool   // a complete 200 answer was read by the client
	Bad    bool   // content is not what upstream holds
	Sent   bool   // the server delivered everything it wanted to
	Hdr    http.Header
}

type Upstream struct {
	Sites   []*Site
	Faults  []*Fault
	Log     []*Req
	T0      int64 // origin of fault windows
	Close   float64
	Rng     *Rand
	MinLat  time.Duration // processing time per request
	OnReq   func(r *Req)
	OnDone  func(r *Req)
	HostCur map[string]int
	HostMax map[string]int
	HostLim map[string]int
	PathCur map[string]int
	Down    map[string]bool // unreachable hosts (refused)
	DownHow string
	Chunked float64
	Props   string // properties reported for an exceeded connection limit
}

func NewUpstream(r *Rand) *Upstream {
	return &Upstream{Rng: r, HostCur: map[string]int{}, HostMax: map[string]int{}, HostLim: map[string]int{}, PathCur: map[string]int{}, Down: map[string]bool{}}
}

// AddHost registers a server name.
func (u *Upstream) AddHost(name string, link LinkCfg) {
	h := W.Net.AddHost(&Host{Name: name, Link: link})
	h.Serve = func(c *Conn) { u.serve(c) }
	h.DialFault = func() string {
		if u.Down[name] {
			return u.DownHow
		}
		if f := u.match(func(f *Fault) bool { return strings.HasPrefix(f.Kind, "dial-") && (f.Path == "" || f.Path == name) }); f != nil {
			return strings.TrimPrefix(f.Kind, "dial-")
		}
		return ""
	}
}

func (u *Upstream) match(ok func(f *Fault) bool) *Fault {
	ms := int((Now() - u.T0) / 1e6)
	for _, f := range u.Faults {
		if !ok(f) || ms < f.From || (f.To != 0 && ms >= f.To) {
			continue
		}
		if f.seen < f.Skip {
			f.seen++
			continue
		}
		n := f.Count
		if n == 0 {
			n = 1
		}
		if n < 0 && (f.Kind == "noreply" || f.Kind == "reset") {
			// net/http may retry these for ever without aptutil's doing:
			// each retry takes a connection dialled for an earlier one
			n = 60
		}
		if n > 0 && f.used >= n {
			continue
		}
		f.used++
		return f
	}
	return nil
}

func (u *Upstream) site(host, p string) *Site {
	var best *Site
	for _, s := range u.Sites {
		if s.Host == host && strings.HasPrefix(p, s.Base) && (best == nil || len(s.Base) > len(best.Base)) {
			best = s
		}
	}
	return best
}

func (u *Upstream) serve(c *Conn) {
	br := bufio.NewReaderSize(c, 8192)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			c.Close()
			return
		}
		if !u.handle(c, req) {
			return
		}
	}
}

func (u *Upstream) begin(r *Req) {
	r.Seq = len(u.Log)
	u.Log = append(u.Log, r)
	u.HostCur[r.Host]++
	u.PathCur[r.Path]++
	if u.HostCur[r.Host] > u.HostMax[r.Host] {
		u.HostMax[r.Host] = u.HostCur[r.Host]
	}
	if s := r.Site; s != nil {
		s.Cur++
		if s.Cur > s.Peak {
			s.Peak = s.Cur
		}
		if s.Limit > 0 && s.Cur > s.Limit {
			u.overLimit(s.Name, s.Limit, func(q *Req) bool { return q.Site == s })
		}
	}
	if l := u.HostLim[r.Host]; l > 0 && u.HostCur[r.Host] > l {
		u.overLimit(r.Host, l, func(q *Req) bool { return q.Host == r.Host })
	}
	if u.OnReq != nil {
		u.OnReq(r)
	}
}

// overLimit reports more requests in progress than allowed, unless some of
// them end at this very instant (a connection being closed by the client).
func (u *Upstream) overLimit(what string, limit int, sel func(*Req) bool) {
	var l []*Req
	for _, q := range u.Log {
		if q.T1 == 0 && sel(q) {
			l = append(l, q)
		}
	}
	After(time.Microsecond, func() {
		n := 0
		txt := ""
		for _, q := range l {
			if q.T1 == 0 || q.T1 > q.T0 && q.T1 == Now() {
				n++
				txt += " " + q.Path
			}
		}
		if n > limit {
			W.Violate(u.Props, "max-conns", "%d requests of %s in progress, limit %d:%s", n, what, limit, txt)
		}
	})
}

func (u *Upstream) end(r *Req) {
	if r.T1 != 0 {
		return
	}
	r.T1 = Now()
	u.HostCur[r.Host]--
	u.PathCur[r.Path]--
	if r.Site != nil {
		r.Site.Cur--
	}
	if u.OnDone != nil {
		u.OnDone(r)
	}
}

// InProgress lists requests not finished.
func (u *Upstream) InProgress() int {
	n := 0
	for _, r := range u.Log {
		if r.T1 == 0 {
			n++
		}
	}
	return n
}

func (u *Upstream) lookup(s *Site, host, p string) ([]byte, bool) {
	if s == nil {
		for _, x := range u.Sites {
			if x.Host == host {
				if b, ok := x.Extra[p]; ok {
					return b, true
				}
			}
		}
		return nil, false
	}
	if b, ok := s.Extra[p]; ok {
		return b, true
	}
	return s.Repo.Get(s.Ver, p[len(s.Base):])
}

// handle answers one request; false when the connection is finished.
func (u *Upstream) handle(c *Conn, req *http.Request) bool {
	host := c.Host
	p := req.URL.Path
	s := u.site(host, p)
	if s != nil && strings.Contains(s.Base, "/pa/th") && !strings.HasPrefix(req.URL.EscapedPath(), encBase(s.Base)) {
		s = nil
	}
	r := &Req{Site: s, Host: host, Path: p, Method: req.Method, T0: Now(), Hdr: req.Header}
	if s != nil {
		r.Rel = p[len(s.Base):]
		r.Ver = s.Ver
	}
	u.begin(r)
	c.OnPeerClose(func() { u.end(r) })
	f := u.match(func(f *Fault) bool {
		return !strings.HasPrefix(f.Kind, "dial-") && strings.Contains(p, f.Path)
	})
	kind := ""
	if f != nil {
		kind = f.Kind
		r.Fault = kind
		W.Fault("up-" + kind)
	}
	W.Logf("upstream %s %s fault=%s", req.Method, p, kind)
	fin := func() bool { // abandon the connection
		c.Close()
		u.end(r)
		return false
	}
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	if u.MinLat > 0 {
		Sleep(u.MinLat)
	}
	switch kind {
	case "reset":
		c.Reset()
		u.end(r)
		return false
	case "noreply":
		return fin()
	case "hang":
		c.WaitPeerClosed(ms(f.Arg))
		return fin()
	case "delay":
		Sleep(ms(f.Arg))
	case "garbage":
		c.Write([]byte("\x16\x03\x01 not http at all\r\n\r\n"))
		c.WaitDrained(ms(1000))
		return fin()
	}
	if s != nil {
		r.Ver = s.Ver
	}
	body, ok := u.lookup(s, host, p)
	truth := body
	status := 200
	if !ok {
		status = 404
		body = []byte("404 not found\n")
		if s != nil && s.Repo != nil && s.Repo.Spec.HashMiss != 0 && strings.Contains(p, "/by-hash/") {
			status = s.Repo.Spec.HashMiss
		}
	}
	var hdr bytes.Buffer
	closing := u.Rng.P(u.Close)
	chunked := u.Rng.P(u.Chunked)
	noCL := false
	declared := -1
	cut := -1
	redirect := ""
	switch kind {
	case "status":
		status = f.Arg
		body = []byte(fmt.Sprintf("status %d\n", status))
		if f.Arg2 > 0 {
			body = bytes.Repeat([]byte("e"), f.Arg2)
		}
		if status == 204 || status == 304 {
			body = nil
		}
	case "redirect":
		if !strings.Contains(req.URL.RawQuery, "again") || f.Arg2 == 1 {
			status = 302
			if f.Arg != 0 {
				status = f.Arg
			}
			redirect = "http://" + host + req.URL.EscapedPath() + "?again=1"
			body = []byte("moved\n")
		}
	case "redirect-far":
		status = 302
		redirect = "http://nowhere.test" + req.URL.EscapedPath()
		body = []byte("moved\n")
	case "earlyhint":
		c.Write([]byte("HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n"))
	case "corrupt":
		if len(body) > 0 && ok {
			b := append([]byte(nil), body...)
			b[f.Arg%len(b)] ^= 0x41
			body = b
		}
	case "grow":
		if ok {
			body = append(append([]byte(nil), body...), "tail"...)
		}
	case "stale":
		if s != nil && ok {
			for k := s.Ver - 1; k >= 0; k-- {
				if b, ok2 := s.Repo.Get(k, r.Rel); ok2 && !bytes.Equal(b, body) {
					body = b
					r.Ver = k
					break
				}
			}
		}
	case "next":
		if s != nil && ok {
			if b, ok2 := s.Repo.Get(s.Ver+1, r.Rel); ok2 {
				body = b
			}
		}
	case "swap":
		if ok {
			body = Bytes("swap"+p, len(body))
		}
	case "swaplen":
		if ok {
			body = Bytes("swap"+p, len(body)+3)
		}
	case "mangle":
		if ok && isMetaName(p) {
			body = mangleAny(p, uint64(f.Arg)*7919+uint64(f.used), body)
		}
	case "html200":
		status = 200
		body = []byte("<html><body>It works! " + strings.Repeat("x", f.Arg) + "</body></html>\n")
	case "empty200":
		status = 200
		body = nil
	case "notfound":
		status = 404
		body = []byte("gone\n")
	case "unparsable":
		status = 200
		body = []byte("this is no control data at all\n\x00\x01\n")
	case "shortcl":
		if len(body) > 0 {
			body = body[:f.Arg%len(body)]
		}
	case "trunc":
		cut = f.Arg
	case "truncchunked":
		chunked = true
		cut = f.Arg
	case "truncclose":
		noCL = true
		if len(body) > 0 {
			body = body[:f.Arg%len(body)]
		}
	case "resetmid":
		cut = f.Arg
	case "gzip":
		var o bytes.Buffer
		w := gzip.NewWriter(&o)
		w.Write(body)
		w.Close()
		if strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") {
			body = o.Bytes()
			hdr.WriteString("Content-Encoding: gzip\r\n")
		}
	case "gzipcut":
		var o bytes.Buffer
		w := gzip.NewWriter(&o)
		w.Write(body)
		w.Close()
		if strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") && len(body) > 0 {
			body = o.Bytes()[:o.Len()-9-f.Arg%(max(1, o.Len()-20))]
			hdr.WriteString("Content-Encoding: gzip\r\n")
		}
	case "chunked":
		chunked = true
	case "badchunk":
		chunked = true
	case "noclen":
		noCL = true
	case "biglen":
		chunked, noCL = false, false
		declared = len(body) + 1000
		cut = len(body)
	case "headers":
		for i := 0; i < 40; i++ {
			fmt.Fprintf(&hdr, "X-Odd-%d: %s\r\n", i, strings.Repeat("v", f.Arg%3000))
		}
	case "badheader":
		hdr.WriteString("Bad Header Line\r\nContent-Type\r\n")
	}
	r.Status = status
	r.Body = body
	r.Bad = status == 200 && (!ok || !bytes.Equal(body, truth)) && kind != "gzip"
	if kind == "gzip" && status == 200 {
		r.Body = truth
	}
	if redirect != "" {
		fmt.Fprintf(&hdr, "Location: %s\r\n", redirect)
	}
	bodyless := req.Method == "HEAD" || status == 204 || status == 304 || status/100 == 1
	var out bytes.Buffer
	fmt.Fprintf(&out, "HTTP/1.1 %03d %s\r\nServer: sim\r\nContent-Type: application/octet-stream\r\n", status, http.StatusText(status))
	out.Write(hdr.Bytes())
	if noCL {
		closing = true
	}
	if closing {
		out.WriteString("Connection: close\r\n")
	}
	switch {
	case noCL || status == 204 || status == 304:
	case chunked:
		out.WriteString("Transfer-Encoding: chunked\r\n")
	default:
		if declared < 0 {
			declared = len(body)
		}
		fmt.Fprintf(&out, "Content-Length: %d\r\n", declared)
	}
	out.WriteString("\r\n")
	head := out.Len()
	if !bodyless {
		if chunked && !noCL {
			for i := 0; i < len(body); {
				n := min(len(body)-i, 1+u.Rng.N(4000))
				if kind == "badchunk" && i > 0 {
					out.WriteString("zz\r\n")
				} else {
					fmt.Fprintf(&out, "%x\r\n", n)
				}
				out.Write(body[i : i+n])
				out.WriteString("\r\n")
				i += n
			}
			if kind == "badchunk" {
				out.WriteString("0x\r\n\r\n")
			} else {
				out.WriteString("0\r\n\r\n")
			}
		} else {
			out.Write(body)
		}
	}
	wire := out.Bytes()
	broken := false
	if cut >= 0 && kind != "biglen" && len(wire) > head {
		// keep the head and a part of the body (Arg modulo its length)
		wire = wire[:head+cut%(len(wire)-head)]
		broken = true
	}
	if kind == "biglen" || kind == "badchunk" || kind == "badheader" || kind == "gzipcut" && hdr.Len() > 0 {
		broken = true
	}
	if broken {
		closing = true
	}
	write := func(b []byte) bool {
		_, err := c.Write(b)
		return err == nil
	}
	okw := true
	switch kind {
	case "stall":
		k := head + (len(wire)-head)/2
		okw = write(wire[:k])
		if okw && k < len(wire) {
			c.WaitPeerClosed(ms(f.Arg))
			okw = write(wire[k:])
		}
	case "slow":
		n := 8
		for i := 0; i < n && okw; i++ {
			okw = write(wire[len(wire)*i/n : len(wire)*(i+1)/n])
			if i < n-1 {
				Sleep(ms(f.Arg / n))
			}
		}
	default:
		if f != nil && f.Slow > 0 && len(wire) > head {
			okw = write(wire[:head])
			body := wire[head:]
			for i := 0; i < 5 && okw; i++ {
				Sleep(ms(f.Slow / 5))
				okw = write(body[len(body)*i/5 : len(body)*(i+1)/5])
			}
		} else {
			okw = write(wire)
		}
	}
	if !okw {
		return fin()
	}
	if kind == "resetmid" && broken {
		c.WaitDrained(ms(2000))
		c.Reset()
		u.end(r)
		return false
	}
	r.Sent = !broken
	if broken {
		c.WaitDrained(ms(5000))
		return fin()
	}
	c.Mark(func(full bool) {
		r.Full = full && status == 200
		if status/100 != 1 || status == 101 {
			u.end(r) // otherwise the client waits for the final status
		}
	})
	if closing {
		c.CloseWrite()
		c.WaitPeerClosed(60 * time.Second)
		if !c.closed {
			c.Close()
		}
		u.end(r)
		return false
	}
	return true
}
