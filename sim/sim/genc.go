package sim

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

// Plan generator for go-apt-cacher runs.

type ctarget struct {
	pre  int
	P    string // cache path
	kind string // rel, idx, item, hash, none
}

type cgen struct {
	r       *Rand
	profile string
	p       *CPlan
	repos   []*Repo
	all     []ctarget // everything upstream has or had
	hot     []ctarget
	stalls  bool
}

func (g *cgen) targets() {
	for i, x := range g.p.Prefixes {
		repo := NewRepo(x.Repo)
		g.repos = append(g.repos, repo)
		seen := map[string]bool{}
		add := func(rel, kind string) {
			if !seen[rel] {
				seen[rel] = true
				g.all = append(g.all, ctarget{i, path.Join(x.Name, rel), kind})
			}
		}
		for v := 0; v < 3; v++ {
			ver := repo.Version(v)
			var l []string
			for f := range ver.Files {
				l = append(l, f)
			}
			sort.Strings(l)
			for _, f := range l {
				switch {
				case strings.Contains("/"+f, "/by-hash/"):
					add(f, "hash")
				case refreshed(f):
					add(f, "rel")
				case isMetaName(f):
					add(f, "idx")
					if !unsupported(f) {
						for _, e := range listOf(f, ver.Files[f]) {
							if repo.pool[e.Path] != nil {
								add(e.Path, "item")
							}
						}
					}
				default:
					add(f, "item")
				}
			}
		}
		for _, h := range x.Repo.Hostile {
			if p := path.Clean(h.Path); p != "." && !strings.HasPrefix(p, "..") && !strings.HasPrefix(p, "/") {
				add(p, "item")
			}
		}
	}
}

func (g *cgen) some(kinds ...string) ctarget {
	var l []ctarget
	for _, t := range g.all {
		if contains(kinds, t.kind) {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return Pick(g.r, g.all...)
	}
	return Pick(g.r, l...)
}

func (g *cgen) none() ctarget {
	r := g.r
	i := r.N(len(g.p.Prefixes))
	x := g.p.Prefixes[i]
	return ctarget{i, path.Join(x.Name, Pick(r, "pool/none.deb", "dists/none/Release", "dists/none/InRelease", "dists/stable/main/binary-none/Packages.gz", "pool/x/none_1.dsc", "none",
		"dists/stable/main/binary-amd64/Packages.lzma", "dists/stable/main/binary-amd64/Packages.lz", "dists/stable/main/i18n/Translation-de.bz2")), "none"}
}

func (g *cgen) pickHot() {
	r := g.r
	n := r.Range(3, 6)
	for i := 0; i < n; i++ {
		var t ctarget
		switch g.profile {
		case "C09":
			t = g.some("item")
		case "C10":
			t = g.some(Pick(r, "rel", "rel", "idx"))
		case "C02":
			t = g.some(Pick(r, "rel", "idx", "idx", "item"))
		case "C05":
			t = Pick(r, g.none(), g.some("item", "idx"), g.some("rel"))
		default:
			t = g.some(Pick(r, "rel", "idx", "idx", "item", "item", "hash"))
			if r.P(0.1) {
				t = g.none()
			}
		}
		g.hot = append(g.hot, t)
	}
	if g.profile == "C09" {
		for i := 0; i < 6; i++ {
			g.hot = append(g.hot, g.some("item"))
		}
	}
}

func (g *cgen) target() ctarget {
	r := g.r
	switch x := r.N(10); {
	case x < 7:
		return Pick(r, g.hot...)
	case x < 9:
		return g.some("rel", "idx", "item", "hash")
	}
	return g.none()
}

func (g *cgen) req(t ctarget) *CReq {
	r := g.r
	q := &CReq{Target: esc(t.P)}
	if r.P(0.12) {
		q.Method = "HEAD"
	}
	pr := 0.08
	if g.profile == "C03" {
		pr = 0.35
	}
	if r.P(pr) {
		n := r.N(5000)
		q.Range = Pick(r, "bytes=0-0", "bytes=0-", fmt.Sprintf("bytes=%d-", n), fmt.Sprintf("bytes=-%d", 1+n), fmt.Sprintf("bytes=%d-%d", n/10, n/10+n%700),
			"bytes=0-9,20-29", fmt.Sprintf("bytes=%d-%d,%d-%d", n%50, n%50+10, n%400, n%400+100), "bytes=99999999-")
		if r.P(0.7) {
			q.Cond = 2
		}
	} else if pr > 0.08 && r.P(0.2) || r.P(0.2) || g.profile == "C02" && r.P(0.3) {
		q.Cond = 1
	}
	pr = 0.1
	if g.profile == "C03" {
		pr = 0.4
	}
	if r.P(pr) {
		q.ReadMs = Pick(r, 10, 100, 1000)
		q.Chunk = Pick(r, 100, 1000, 4000)
	}
	if r.P(0.05) {
		q.Hdr = Pick(r, "If-Modified-Since: Thu, 01 Jan 2037 00:00:00 GMT\r\n", "If-None-Match: *\r\n", "Accept-Encoding: gzip\r\n", "Cache-Control: no-cache\r\n", "If-Range: \"x\"\r\n", "Connection: close\r\n",
			"If-Match: \"zz\"\r\n", "If-Unmodified-Since: Thu, 01 Jan 2015 00:00:00 GMT\r\n")
	}
	pr = 0.05
	if g.profile == "C13" || g.profile == "C07" {
		pr = 0.25
	}
	if r.P(pr) {
		q.Abort = r.Range(1, 4)
		if q.Abort == 4 {
			q.Chunk = Pick(r, 1, 50, 500, 3000)
		}
	}
	return q
}

// conn draws a client connection.
func (g *cgen) conn(span int) *CConn {
	r := g.r
	c := &CConn{At: r.N(span + 1)}
	if r.P(0.15) {
		c.Pipe = true
	}
	c.Slow = r.P(0.1) || g.profile == "C03" && r.P(0.4)
	if r.P(0.35) {
		// like apt: indices, then packages
		t := g.some("rel")
		ses := []ctarget{t}
		for _, k := range []string{"idx", "idx", "item", "item"} {
			var l []ctarget
			for _, x := range g.all {
				if x.pre == t.pre && x.kind == k {
					l = append(l, x)
				}
			}
			if len(l) > 0 {
				ses = append(ses, Pick(r, l...))
			}
		}
		for _, t := range ses {
			c.Reqs = append(c.Reqs, g.req(t))
		}
		return c
	}
	for k := r.Range(1, 4); k > 0; k-- {
		q := g.req(g.target())
		if r.P(0.2) {
			q.GapMs = Pick(r, 1, 100, 1000, 5000)
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

func (g *cgen) burst(n int) []*CConn {
	var l []*CConn
	t := g.target()
	at := g.r.N(2000)
	for i := 0; i < n; i++ {
		c := &CConn{At: at + Pick(g.r, 0, 0, 1, 20, 300), Reqs: []*CReq{g.req(t)}}
		if g.r.P(0.3) {
			c.Reqs = append(c.Reqs, g.req(t))
		}
		l = append(l, c)
	}
	return l
}

func (g *cgen) names() []string {
	l := []string{"InRelease", "/Release", "Packages", ".deb", "/by-hash/"}
	for _, t := range g.hot {
		p := g.p.Prefixes[t.pre]
		rel := strings.TrimPrefix(t.P, p.Name)
		l = append(l, rel, rel)
	}
	return l
}

func (g *cgen) work() *CStep {
	r := g.r
	st := &CStep{Op: "work", Ms: Pick(r, 500, 5000, 30000, 120000)}
	span := Pick(r, 0, 50, st.Ms/2, st.Ms)
	for k := r.Range(1, 5); k > 0; k-- {
		st.Conns = append(st.Conns, g.conn(span))
	}
	if r.P(0.4) || g.profile == "C04" {
		st.Conns = append(st.Conns, g.burst(r.Range(2, 6))...)
	}
	return st
}

var cTransient = []string{"reset", "noreply", "status", "trunc", "truncchunked", "resetmid", "badchunk", "garbage", "dial-refused", "dial-dns", "biglen", "badheader", "notfound", "gzipcut"}

func (g *cgen) fault(kind int) *Fault {
	r := g.r
	names := g.names()
	var f *Fault
	switch kind {
	case 0:
		f = &Fault{Kind: Pick(r, cTransient...), Count: Pick(r, 1, 1, 2, 4, -1), Skip: Pick(r, 0, 0, 0, 1, 3), Arg: r.N(60000)}
		if f.Kind == "status" {
			f.Arg = Pick(r, 500, 502, 503, 404, 403, 401, 410, 429, 400, 206, 204, 304, 504, 203, 201, 226, 299, 451, 600, 799, 999)
			if g.profile == "C16" {
				f.Arg = Pick(r, 99, 101, 102, 103, 199, 600, 999, 204, 206, 304, 416, 300, 0, 299, 418, 511)
			}
			if r.P(0.3) {
				f.Arg2 = Pick(r, 10, 5000, 40000)
			}
		}
		if r.P(0.25) {
			f.Slow = Pick(r, 500, 3000, 20000)
		}
		if g.profile == "C07" && r.P(0.3) {
			f.Kind, f.Arg, f.Arg2, f.Count, f.Slow = "status", Pick(r, 404, 500, 503), Pick(r, 10, 5000, 40000), Pick(r, 4, -1), Pick(r, 3000, 20000)
		}
	case 1:
		f = genContent(r, names)
		if r.P(map[string]float64{"C16": 0.5, "C06": 0.3, "C15": 0.2, "C08": 0.2, "C01": 0.1}[g.profile]) {
			f.Kind = "mangle"
		}
	default:
		f = genSlow(r, names)
		if r.P(0.3) {
			f.Kind, f.Arg = Pick(r, "delay", "slow", "stall"), Pick(r, 500, 3000, 20000)
		}
	}
	f.Path = ""
	if r.P(0.7) && !strings.HasPrefix(f.Kind, "dial-") {
		f.Path = Pick(r, names...)
	}
	return f
}

func (g *cgen) pub(st *CStep) {
	r := g.r
	for k := r.Range(1, 2); k > 0; k-- {
		pb := &CPub{Prefix: r.N(len(g.p.Prefixes)), After: r.P(0.5)}
		if r.P(0.7) {
			pb.Req = r.Range(1, 6)
			if r.P(0.6) {
				pb.Path, pb.Req = Pick(r, g.names()...), r.Range(1, 3)
			}
		} else {
			pb.Ms = r.Range(1, st.Ms)
		}
		st.Pubs = append(st.Pubs, pb)
	}
}

func (g *cgen) fs() *FSFault {
	r := g.r
	f := &FSFault{Class: Pick(r, "open", "create", "read", "write", "fsync", "link", "unlink", "mkdir", "stat", "seek", "close", ""), Errno: Pick(r, "EIO", "EIO", "ENOSPC", "EMFILE", "EACCES"), Skip: Pick(r, 0, 0, 1, 2, 4, 8), Count: Pick(r, 1, 1, 1, 3, -1), Path: "/cache/"}
	if r.P(0.4) {
		f.Path = Pick(r, "_tmp", ".cache", cMeta, cItem, "Packages", ".deb", "Release")
	}
	if f.Class == "write" && r.P(0.4) {
		f.Errno = "SHORT"
	}
	return f
}

var oddRaw = []string{
	"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "GET /%00 HTTP/1.1\r\nHost: x\r\n\r\n", "GARBAGE\r\n\r\n", "GET\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc", "GET /x HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nhello",
	"GET /x HTTP/9.9\r\nHost: x\r\n\r\n", "GET /x HTTP/1.0\r\n\r\n", "GET /%zz HTTP/1.1\r\nHost: x\r\n\r\n", "OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n", "CONNECT a.test:80 HTTP/1.1\r\nHost: a.test\r\n\r\n",
	"POST /x HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "GET x HTTP/1.1\r\nHost: x\r\n\r\n", "GET http://a.test HTTP/1.1\r\nHost: a.test\r\n\r\n", "GET http:// HTTP/1.1\r\nHost: a\r\n\r\n",
	"GET ?a=b HTTP/1.1\r\nHost: x\r\n\r\n", "GET a.test:80 HTTP/1.1\r\nHost: x\r\n\r\n", "HEAD http://a.test?x HTTP/1.1\r\nHost: a.test\r\n\r\n",
	"GET /x HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 3\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "GET mailto:a@b HTTP/1.1\r\nHost: x\r\n\r\n", "", "\r\n\r\n\r\n",
}

// oddTarget draws an unusual request target.
func (g *cgen) oddTarget() string {
	r := g.r
	x := Pick(r, g.p.Prefixes...).Name
	y := Pick(r, g.p.Prefixes...).Name
	t := Pick(r, g.hot...).P
	d := strings.SplitN(t, "/", 2)
	rest := d[len(d)-1]
	return Pick(r,
		"/", "//", "/.", "/..", "/"+x, "/"+x+"/", "/"+x+"//", "/"+x+"/.", "/"+x+"/..", "/"+x+"/../", "/../"+x, "/"+x+"/../../../etc/passwd", "/../../etc/passwd", "/%2e%2e/%2e%2e/etc/passwd",
		"/"+x+"/../"+y+"/"+rest, "/"+x+"/%2e%2e/"+y+"/"+rest, "/"+x+"/./"+rest, "//"+x+"//"+rest, "/"+x+"%2f"+rest, "/"+strings.ToUpper(x)+"/"+rest, "/"+x+"x/"+rest, "/"+x[:len(x)-1]+"/"+rest,
		"/"+x+"/"+rest+"/", "/"+x+"/"+rest+"/.", "/"+x+"/"+rest+"?q=1", "/"+x+"/"+rest+"?", "/"+x+"/a/../"+rest, "/"+x+"/%61/../"+rest, "/nosuch/"+rest, "/"+rest, "/etc/passwd", "/secret", "/other/secret",
		"/"+x+"/../secret", "/"+x+"/../../secret", "/"+x+"/%00", "/"+x+"/a%00b", "/"+x+"/a%0ab", "/"+x+"/a%20b", "/"+x+"/%ff%fe", "/"+x+"/"+strings.Repeat("n", 251), "/"+x+"/"+strings.Repeat("n", 249), "/"+x+"/"+strings.Repeat("m", 300),
		"/"+x+"/"+strings.Repeat("d/", 100)+"x", "/"+x+"/"+strings.Repeat("long/", 900)+"x", "/"+x+"/"+rest+".cache", "/"+x+"/"+rest+".cache/x", "/"+x+"/"+rest+"/x", "/"+x+"/dir.cache", "/"+x+"/dir.cache/y.deb", "/"+x+"/dir", "/"+x+"/dir/z.deb", "/_tmp123", "/"+x+"/_tmp123",
		"http://a.test/"+x+"/"+rest, "http://"+x+"/"+rest, "http://a.test", "http://a.test/", "/"+x+"/Release", "/"+x+"/InRelease", "/"+x+"/Packages.gz", "/"+x+"/Packages", "/"+x+"/Sources.xz", "/"+x+"/Index", "/Release", "/InRelease", "/Packages", "/"+x+"/..%2f..%2fsecret",
		"/"+x+"/odd.deb", "/"+x+"/odd/Release", "/"+x+"/pool/+x~1%3a2.deb", "/"+x+"/pool/%2Bx~1:2.deb", "/"+x+"/a;b=c", "/"+x+"/a%3fb", "/"+x+"/a%23b", "/"+x+"/a%25b", "/"+x+"/%252e%252e/x", "/"+x+"/a\\b", "/.cache", "/"+x+"/.cache", "/"+x+".cache/x", "/"+x+"/x/.cache")
}

func (g *cgen) odd() *CConn {
	r := g.r
	c := &CConn{At: r.N(1000)}
	for k := r.Range(1, 4); k > 0; k-- {
		if r.P(0.12) {
			c.Reqs = append(c.Reqs, &CReq{Raw: Pick(r, oddRaw...)})
			break
		}
		q := &CReq{Target: g.oddTarget()}
		if strings.ContainsAny(q.Target, " \n") {
			q.Target = "/"
		}
		switch r.N(8) {
		case 0:
			q.Method = Pick(r, "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "PATCH", "FOO", "get", "PROPFIND")
		case 1:
			q.Method = "HEAD"
		case 2:
			q.Range = Pick(r, "bytes=", "bytes=a-b", "bytes=5-1", "bytes=-0", "bytes=0-0,0-0,0-0", "bytes=--1", "items=0-1", "bytes=9223372036854775807-", "bytes=0-9223372036854775807", "bytes=-99999999999999999999",
				"bytes="+strings.Repeat("0-1,", 200)+"0-1")
		case 3:
			q.Hdr = Pick(r, "X: "+strings.Repeat("y", 5000)+"\r\n", "Host: other\r\n", "Content-Length: 0\r\n", "Range: bytes=0-1\r\nRange: bytes=1-2\r\n", "Upgrade: h2c\r\nConnection: Upgrade\r\n", "Expect: banana\r\n", "Content-Length: -1\r\n", "Transfer-Encoding: gzip\r\n")
			if !strings.HasPrefix(q.Hdr, "X") && !strings.HasPrefix(q.Hdr, "Content-Length: 0") && !strings.HasPrefix(q.Hdr, "Range") && !strings.HasPrefix(q.Hdr, "Upgr") {
				q = &CReq{Raw: "GET " + q.Target + " HTTP/1.1\r\nHost: x\r\n" + q.Hdr + "\r\n"}
				c.Reqs = append(c.Reqs, q)
				return c
			}
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

// longHang: upstream accepts requests and never completes the answers, so
// that only the time limit of the cacher ends them.
func (g *cgen) longHang() {
	r, m := g.r, g.p
	m.Interval = 600
	if r.P(0.7) {
		m.MaxConns = r.Range(1, 2)
	}
	st := g.work()
	for k := r.Range(1, 3); k > 0; k-- {
		f := &Fault{Kind: Pick(r, "hang", "stall"), Count: r.Range(1, 3), Skip: Pick(r, 0, 0, 1, 3), Arg: Pick(r, 600000, 1900000, 3000000)}
		if r.P(0.5) {
			f.Path = Pick(r, g.names()...)
		}
		st.Faults = append(st.Faults, f)
	}
	for k := r.N(4); k > 0; k-- {
		// come while the others are stuck
		c := g.conn(1000)
		c.At += Pick(r, 60000, 1000000, 1810000, 2500000)
		st.Conns = append(st.Conns, c)
	}
	st.Ms = 18000000
	m.Steps = append(m.Steps, st, &CStep{Op: "sleep", Ms: 18000000})
}

// evictedStatus: a file is downloaded, evicted by others and then gone from
// upstream, so that two results of the same file are remembered one after
// the other.
func (g *cgen) evictedStatus() {
	r, m := g.r, g.p
	m.Cap = Pick(r, 1, 1, 2)
	m.Period = Pick(r, 5, 10, 10, 30)
	m.Interval = Pick(r, 30, 600)
	t := g.some("item")
	get := func(t ctarget, at int) *CConn { return &CConn{At: at, Reqs: []*CReq{{Target: esc(t.P)}}} }
	st := &CStep{Op: "work", Ms: m.Period * 3000}
	rel := strings.TrimPrefix(t.P, m.Prefixes[t.pre].Name)
	st.Faults = append(st.Faults, &Fault{Kind: Pick(r, "notfound", "notfound", "status"), Arg: Pick(r, 403, 503, 410), Path: rel, Skip: 1, Count: -1})
	st.Conns = append(st.Conns, get(t, 0))
	for k := r.Range(2, 6); k > 0; k-- {
		st.Conns = append(st.Conns, get(g.some("item"), r.N(m.Period*300)+100))
	}
	for k := r.Range(3, 8); k > 0; k-- {
		st.Conns = append(st.Conns, get(t, r.N(m.Period*2500)+m.Period*200))
	}
	m.Steps = append(m.Steps, st)
}

// thrash: more files are wanted at once than the cache can hold, so that a
// file may be gone again before those who wait for it have looked, again and
// again; upstream also answers with wrong content now and then.
func (g *cgen) thrash(r *Rand) {
	m := g.p
	m.Cap = 1
	m.MaxConns = Pick(r, 0, 5, 10, 20)
	m.Period = Pick(r, 0, 0, 1, 3)
	m.Interval = 600
	get := func(t ctarget, at int) *CConn { return &CConn{At: at, Reqs: []*CReq{{Target: esc(t.P)}}} }
	var idx, items []ctarget
	for _, t := range g.all {
		switch t.kind {
		case "item":
			items = append(items, t)
		case "idx":
			idx = append(idx, t)
		}
	}
	if len(items) == 0 {
		return
	}
	st := &CStep{Op: "work", Ms: 20000}
	for _, t := range idx {
		st.Conns = append(st.Conns, get(t, r.N(1000)))
	}
	m.FsyncMs = 0
	m.Link.Lat, m.CLink.Lat = 1e6, 0
	n := r.Range(4, 14)
	l := make([]ctarget, n)
	for i := range l {
		l[i] = Pick(r, items...)
	}
	for k := r.Range(2, 6); k > 0; k-- {
		at := 2000 + r.N(15000)
		for _, t := range l {
			for j := r.Range(1, 3); j > 0; j-- {
				st.Conns = append(st.Conns, get(t, at+r.N(Pick(r, 1, 1, 1, 5, 60))))
			}
		}
	}
	for k := r.N(4); k > 0; k-- {
		f := &Fault{Kind: Pick(r, contentKinds...), Count: r.Range(1, 4), Skip: r.N(4), Arg: r.N(60000)}
		f.Path = strings.TrimPrefix(Pick(r, l...).P, m.Prefixes[0].Name)
		st.Faults = append(st.Faults, f)
	}
	m.Steps = append(m.Steps, st)
}

// nestedRelease: a Release file listed in another one changes together with
// it upstream, while clients poll both.
func (g *cgen) nestedRelease(r *Rand) {
	m := g.p
	m.Interval = Pick(r, 2, 5, 5, 30)
	var top, sub []ctarget
	for _, t := range g.all {
		switch {
		case t.pre != 0 || t.kind != "rel" || strings.HasSuffix(t.P, ".gpg"):
		case strings.Contains(t.P, "/binary-"):
			sub = append(sub, t)
		default:
			top = append(top, t)
		}
	}
	if len(top) == 0 || len(sub) == 0 {
		return
	}
	s := Pick(r, sub...)
	st := &CStep{Op: "work", Ms: m.Interval * 6000}
	get := func(t ctarget, at int) {
		st.Conns = append(st.Conns, &CConn{At: at, Reqs: []*CReq{{Target: esc(t.P)}}})
	}
	l := []ctarget{s}
	for _, t := range top {
		if r.P(0.8) {
			l = append(l, t)
		}
	}
	for _, t := range l {
		get(t, r.N(m.Interval*1000))
	}
	for k := r.Range(8, 20); k > 0; k-- {
		get(s, m.Interval*1000+r.N(m.Interval*5000))
	}
	for k := r.Range(0, 4); k > 0; k-- {
		get(Pick(r, top...), m.Interval*1000+r.N(m.Interval*5000))
	}
	for k := r.Range(1, 3); k > 0; k-- {
		st.Pubs = append(st.Pubs, &CPub{Ms: m.Interval*1000 + r.N(m.Interval*4000)})
	}
	if r.P(0.5) {
		f := &Fault{Kind: Pick(r, "status", "notfound", "delay", "stale", "reset"), Path: Pick(r, "InRelease", "/dists/"), Skip: r.Range(1, 4), Count: Pick(r, 1, 2, 4), Arg: 1000}
		if f.Kind == "status" {
			f.Arg = Pick(r, 500, 503, 403)
		}
		st.Faults = append(st.Faults, f)
	}
	m.Steps = append(m.Steps, st)
}

// unlinkFails: evicted files cannot be removed; later they are wanted again.
func (g *cgen) unlinkFails() {
	r, m := g.r, g.p
	m.Cap = Pick(r, 1, 1, 2, 3)
	st := g.work()
	st.FS = append(st.FS, &FSFault{Class: "unlink", Errno: Pick(r, "EIO", "EACCES", "EMFILE"), Skip: Pick(r, 0, 0, 1, 3), Count: Pick(r, 1, 3, -1), Path: ".cache"})
	for k := r.Range(4, 12); k > 0; k-- {
		st.Conns = append(st.Conns, &CConn{At: r.N(st.Ms), Reqs: []*CReq{{Target: esc(g.some("item").P)}}})
	}
	m.Steps = append(m.Steps, st)
}

// indexFails: new indices cannot be stored; then the files they list are wanted.
func (g *cgen) indexFails() {
	r, m := g.r, g.p
	m.Steps = append(m.Steps, g.work())
	st := g.work()
	g.pub(st)
	st.FS = append(st.FS, &FSFault{Class: Pick(r, "link", "unlink", "mkdir", "stat", "fsync", "seek"), Errno: Pick(r, "EIO", "ENOSPC", "EACCES"), Skip: Pick(r, 0, 0, 1, 3), Count: Pick(r, 1, 3, -1), Path: Pick(r, "Packages", "Packages", "Release", cMeta)})
	for k := r.Range(4, 12); k > 0; k-- {
		st.Conns = append(st.Conns, &CConn{At: r.N(st.Ms), Reqs: []*CReq{{Target: esc(g.some(Pick(r, "item", "item", "idx")).P)}}})
	}
	m.Steps = append(m.Steps, st)
}

// indexGone: upstream no longer has, or refuses, indices that are cached.
func (g *cgen) indexGone() {
	r, m := g.r, g.p
	m.Steps = append(m.Steps, g.work())
	st := g.work()
	for k := r.Range(1, 3); k > 0; k-- {
		st.Faults = append(st.Faults, &Fault{Kind: "status", Arg: Pick(r, 404, 410, 403, 401, 500, 503), Count: Pick(r, 2, -1), Path: Pick(r, "Release", "Packages", "Sources", "/dists/")})
	}
	m.Steps = append(m.Steps, st)
}

// syncThenPower: syncing files fails while they are downloaded; then the
// power goes.
func (g *cgen) syncThenPower() {
	r, m := g.r, g.p
	st := g.work()
	st.FS = append(st.FS, &FSFault{Class: "fsync", Errno: Pick(r, "EIO", "ENOSPC", "EDQUOT"), Skip: Pick(r, 0, 0, 1, 3), Count: Pick(r, 1, 3, -1), Path: "/cache/"})
	m.Steps = append(m.Steps, st)
	if r.P(0.3) {
		m.Steps = append(m.Steps, g.work())
	}
	m.Steps = append(m.Steps, &CStep{Op: "power", Power: genPower(r)}, g.work())
}

// GenCacher makes the plan of one simulated run.
func GenCacher(profile string, seed uint64) *Plan {
	if profile == "P03" {
		r := NewRand(seed).Fork("cacherP03")
		p := GenCacher(Pick(r, "C01", "C03", "C08", "C11", "C15"), seed)
		p.C.Steps = addBad(r, p.C.Steps, func() *CStep {
			return &CStep{Op: "bad", Bad: genBadCacher(r, p.C)}
		})
		return p
	}
	r := NewRand(seed).Fork("cacher" + profile)
	p := &Plan{Kind: "cacher", C: &CPlan{}}
	m := p.C
	g := &cgen{r: r, profile: profile, p: m, stalls: true}
	np := Pick(r, 1, 1, 2)
	switch profile {
	case "C15":
		np = Pick(r, 2, 2, 3)
	case "C07":
		np = 2
	case "C10":
		np = Pick(r, 1, 1, 1, 2)
	}
	nested := (profile == "C01" || profile == "C02" || profile == "C10") && r.Fork("nested").P(0.08)
	thrash := r.Fork("thrash").P(map[string]float64{"C01": 0.15, "C06": 0.15, "C03": 0.08, "C09": 0.08, "C13": 0.05, "R01": 0.05}[profile])
	hosts := []string{"a.test", "b.test"}
	used := map[string]bool{}
	for i := 0; i < np; i++ {
		name := Pick(r, "ubuntu", "debian", "sec-1", "x_y", "a.b")
		if profile == "C15" && i > 0 && r.P(0.5) {
			// names that are prefixes of each other
			name = m.Prefixes[0].Name + Pick(r, "x", "-", "0")
		} else if r.P(0.5) || used[name] {
			name += fmt.Sprint(i)
		}
		if used[name] {
			name += fmt.Sprint("-", i)
		}
		used[name] = true
		spec := GenRepo(r.Fork(fmt.Sprint("repo", i)), true)
		spec.Pad = 0
		if i == 0 && nested && !spec.Flat {
			spec.ArchRel, spec.RelVer = true, true
		}
		spec.PkgSize = Pick(r, 20, 200, 1500, 1500, 3500)
		if thrash {
			spec.PkgSize = 3500
		}
		spec.Churn = Pick(r, 30, 60, 100)
		if len(spec.Sections) > 1 && r.P(0.5) {
			spec.Sections = spec.Sections[:1]
		}
		if len(spec.Archs) > 1 && r.P(0.5) {
			spec.Archs = spec.Archs[:1]
		}
		switch profile {
		case "C09":
			spec.PkgSize = Pick(r, 200, 1500, 1500, 3500)
			spec.Pkgs = r.Range(5, 10)
			spec.Archs = spec.Archs[:min(1, len(spec.Archs))]
		case "C10":
			spec.RelFiles = Pick(r, []string{"Release", "Release.gpg", "InRelease"}, []string{"Release", "Release.gpg"}, []string{"InRelease"})
		}
		x := CPrefix{Name: name, Host: hosts[r.N(2)], Base: genBase(r, i, "debian", "ubuntu/x", "d"), Repo: spec, Slash: r.Fork("slash").P(0.3)}
		if profile == "C07" && r.P(0.7) {
			x.Host = hosts[0]
		}
		if profile == "C16" || profile == "C15" {
			x.Odd = pickSome(r, 2, "odd.deb", "odd/Release", "dir.cache", "dir.cache/y.deb", "dir", "dir/z.deb", "a b", "pool/+x~1:2.deb", strings.Repeat("n", 249), strings.Repeat("n", 251), "Release", "Packages", ".cache", "a?b", "a%b", "a;b=c", "_tmp123")
			if r.P(0.5) {
				sort.Strings(x.Odd)
			}
		}
		m.Prefixes = append(m.Prefixes, x)
	}
	if profile == "C15" && r.P(0.6) {
		// an archive that lists files of another prefix
		x := &m.Prefixes[0]
		y := m.Prefixes[1]
		for k := r.Range(1, 2); k > 0; k-- {
			tmp := NewRepo(y.Repo)
			var l []string
			for f := range tmp.Version(0).Files {
				l = append(l, f)
			}
			for f := range tmp.pool {
				l = append(l, f)
			}
			sort.Strings(l)
			f := Pick(r, l...)
			x.Repo.Hostile = append(x.Repo.Hostile, HostileEntry{Where: Pick(r, "release", "packages", "sources"), Path: Pick(r, "../", "pool/../../", "../../") + y.Name + "/" + f})
		}
		x.Repo.Sources = true
	}
	if profile == "C15" && r.P(0.3) {
		x := &m.Prefixes[len(m.Prefixes)-1]
		x.Repo.Hostile = append(x.Repo.Hostile, HostileEntry{Where: Pick(r, "release", "packages", "sources"), Path: genHostile(r, x.Name)})
	}
	if p := map[string]float64{"C16": 0.4, "C06": 0.15, "C08": 0.15, "C15": 0.2}[profile]; r.P(p) {
		x := &m.Prefixes[r.N(len(m.Prefixes))]
		x.Repo.Mangle = genMangle(r)
		x.Repo.Sources = x.Repo.Sources || r.P(0.5)
	}
	if p := map[string]float64{"C01": 0.2, "C06": 0.1, "C02": 0.05, "C05": 0.05}[profile]; r.P(p) {
		x := &m.Prefixes[r.N(len(m.Prefixes))]
		x.Repo.Wrong = genWrong(r)
	}
	if x := r.Fork("style"); x.P(0.3) {
		m.Omit = x.P(0.7)
		m.DirStyle = Pick(x, "", "/", "/.", "//", "/x/..")
	}
	m.Cap = Pick(r, 1, 2, 4, 8, 64)
	m.Interval = Pick(r, 2, 5, 30, 600)
	m.Period = Pick(r, 0, 1, 3, 3, 10)
	m.MaxConns = Pick(r, -1, 0, 1, 2, 3, 5)
	m.Log = Pick(r, "error", "error", "debug", "info", "warn")
	m.Mkdirs = r.P(0.5)
	m.Link = genLink(r)
	m.CLink = genLink(r)
	if m.CLink.Lat > 20e6 {
		m.CLink.Lat = 1e6
	}
	if r.P(0.25) {
		m.FsyncMs = Pick(r, 1, 20)
	}
	m.Close = Pick(r, 0.0, 0, 0.3, 1)
	m.Chunked = Pick(r, 0.0, 0, 0.3, 1)
	switch profile {
	case "C09":
		m.Cap = r.Range(1, 4)
	case "C07":
		m.MaxConns = Pick(r, 0, 1, 1, 2, 3)
	case "C02", "C04", "C10":
		m.Interval = Pick(r, 2, 2, 5, 30)
	case "C03":
		m.Cap = Pick(r, 1, 1, 2, 4)
	case "C06", "C13":
		m.Period = Pick(r, 0, 0, 1, 3)
	case "C05":
		m.Period = Pick(r, 1, 3, 3, 10, 30)
	case "C12":
		if r.P(0.3) {
			m.Period, m.Interval = 3600, 600
		}
	}
	g.targets()
	g.pickHot()
	add := func(st *CStep) { m.Steps = append(m.Steps, st) }
	faults := func(st *CStep, kind, n int) {
		for ; n > 0; n-- {
			st.Faults = append(st.Faults, g.fault(kind))
		}
	}
	// kinds of trouble: 0 transient, 1 content, 2 slow, 3 publishes, 4 disk,
	// 5 kill/power, 6 down, 7 stop, 8 none, 9 odd requests, 10 reconf, 11 sleep
	var kinds []int
	switch profile {
	case "C01":
		kinds = []int{1, 1, 1, 0, 3, 5}
	case "C02":
		kinds = []int{3, 3, 3, 2, 1, 7}
	case "C03":
		kinds = []int{8, 2, 3, 3, 7, 0}
	case "C04":
		kinds = []int{2, 2, 2, 3, 0}
	case "C05":
		kinds = []int{0, 0, 0, 6, 1}
	case "C06":
		kinds = []int{0, 0, 1, 1, 2, 6, 3, 9}
	case "C07":
		kinds = []int{0, 0, 2, 2, 8, 1}
	case "C08":
		kinds = []int{5, 5, 5, 7, 4}
	case "C09":
		kinds = []int{8, 8, 8, 3, 7, 5, 0}
	case "C10":
		kinds = []int{0, 6, 7, 5, 3, 1, 2}
	case "C11":
		kinds = []int{6, 6, 8, 0, 7}
	case "C12":
		kinds = []int{12, 12, 10, 8}
	case "C13":
		kinds = []int{0, 0, 1, 2, 6}
	case "C14":
		kinds = []int{4}
	case "C15":
		kinds = []int{9, 9, 8, 3, 10}
	case "C16":
		kinds = []int{9, 9, 9, 0, 0, 1}
	default:
		kinds = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
	}
	if r.P(0.6) {
		add(g.work())
	}
	var trouble func(st *CStep, kind int)
	trouble = func(st *CStep, kind int) {
		switch kind {
		case 0:
			faults(st, 0, r.Range(1, 4))
		case 1:
			faults(st, 1, r.Range(1, 3))
		case 2:
			faults(st, 2, r.Range(1, 3))
			if r.P(0.5) {
				st.Slow = Pick(r, 50, 500, 3000)
			}
		case 3:
			g.pub(st)
			if r.P(0.5) {
				faults(st, 2, r.Range(1, 2))
			}
		case 4:
			for k := Pick(r, 1, 1, 2); k > 0; k-- {
				st.FS = append(st.FS, g.fs())
			}
			if r.P(0.2) {
				st.Limit = int64(r.Range(1, 20000))
			}
			if r.P(0.2) && len(m.Steps) > 0 {
				add(&CStep{Op: "kill"})
				st.Boot = true
			}
		case 5:
			pw := r.P(0.7)
			if r.P(0.4) {
				st.KillMs = Pick(r, r.Range(1, 200), r.Range(1, 5000))
				if pw {
					st.Power = genPower(r)
				}
			} else {
				c := genCrash(r, pw)
				if r.P(0.5) {
					c.Class, c.Nth = Pick(r, "link", "unlink", "write", "fsync", "create", "mkdir"), Pick(r, 1, 1, 2, 4, 9)
				}
				st.Crash = append(st.Crash, c)
				st.Boot = r.P(0.3)
				if st.Boot && r.P(0.6) {
					add(&CStep{Op: "kill"})
				}
			}
			if r.P(0.3) {
				faults(st, 1, 1)
			}
		case 9:
			for k := r.Range(1, 5); k > 0; k-- {
				st.Conns = append(st.Conns, g.odd())
			}
			if r.P(0.3) {
				faults(st, r.N(2), 1)
			}
		case 12:
			g.stalls = false
			st.TermMs = r.Range(1, st.Ms)
			faults(st, Pick(r, 2, 2, 0), r.N(3))
			if r.P(0.4) {
				st.Faults = append(st.Faults, &Fault{Kind: "hang", Count: -1, Arg: Pick(r, 3000, 600000), Skip: r.N(4)})
			}
			if r.P(0.4) {
				st.Slow = Pick(r, 50, 500, 3000)
			}
		}
	}
	rounds := Pick(r, 1, 2, 2, 3)
	for k := 0; k < rounds; k++ {
		kind := Pick(r, kinds...)
		if r.P(0.3) {
			add(&CStep{Op: "publish", Prefix: r.N(np)})
		}
		switch kind {
		case 6:
			add(&CStep{Op: "down", How: Pick(r, "refused", "refused", "dns", "blackhole")})
			add(g.work())
			if r.P(0.7) {
				add(&CStep{Op: "up"})
			}
		case 7:
			add(&CStep{Op: Pick(r, "stop", "kill", "power"), Power: genPower(r)})
			if r.P(0.4) {
				add(&CStep{Op: "publish", Prefix: r.N(np)})
			}
		case 10:
			g.stalls = false
			var d []int
			for i := 0; i < np; i++ {
				if r.P(0.5) {
					d = append(d, i)
				}
			}
			st := &CStep{Op: "reconf", Drop: d}
			if r.P(0.3) {
				st.Cap = Pick(r, 1, 2, 8)
			}
			add(st)
		case 11:
			add(&CStep{Op: "sleep", Ms: Pick(r, 100, 5000, 100000)})
		}
		st := g.work()
		trouble(st, kind)
		if r.P(0.25) {
			trouble(st, Pick(r, 0, 1, 2, 3, 8))
		}
		add(st)
		if r.P(0.3) {
			add(&CStep{Op: "sleep", Ms: Pick(r, 100, 1000, 3500, 12000)})
		}
		if profile == "C05" && len(st.Conns) > 0 {
			// the same requests again, around the end of the cache period
			again := &CStep{Op: "work", Ms: 30000}
			for _, cc := range st.Conns {
				for _, q := range cc.Reqs {
					if q.Abort == 0 && r.P(0.7) {
						again.Conns = append(again.Conns, &CConn{At: r.N(max(1, m.Period*1500)), Reqs: []*CReq{{Target: q.Target}}})
					}
				}
			}
			if r.P(0.4) {
				again.Faults = st.Faults
			}
			add(again)
		}
	}
	if r.P(0.3) && profile != "C12" {
		add(g.work())
	}
	if r.P(0.15) {
		add(&CStep{Op: "reconf"})
		g.stalls = false
	}
	switch {
	case (profile == "C07" || profile == "C06" || profile == "C13") && r.P(0.1):
		g.longHang()
	case profile == "C05" && r.P(0.15):
		g.evictedStatus()
	case profile == "C14" && r.P(0.15) || profile == "C08" && r.P(0.05):
		g.syncThenPower()
	case profile == "C14" && r.P(0.15):
		g.unlinkFails()
	case profile == "C14" && r.P(0.2):
		g.indexFails()
	case profile == "C11" && r.P(0.25):
		g.indexGone()
	}
	if thrash {
		g.thrash(r.Fork("thrashsteps"))
	}
	if nested {
		g.nestedRelease(r.Fork("nestedsteps"))
	}
	// shutdown at the end of the run
	nt := r.N(3)
	if profile == "C12" {
		nt = r.Range(1, 6)
	}
	for k := 0; k < nt; k++ {
		c := g.conn(2000)
		m.TermConn = append(m.TermConn, c)
	}
	if nt > 0 {
		m.TermAt = r.N(3000)
		for k := r.N(3); k > 0; k-- {
			m.TermFlt = append(m.TermFlt, g.fault(Pick(r, 0, 2, 2)))
		}
		if profile == "C12" && r.P(0.3) {
			m.TermFlt = append(m.TermFlt, &Fault{Kind: "hang", Count: -1, Arg: 600000, Skip: r.N(4)})
		}
	}
	p.Sched = GenSched(r.Fork("sched"), g.stalls)
	return p
}
