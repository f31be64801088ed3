package sim

import (
	"bytes"
	"fmt"
	"net/url"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Simulation of go-apt-mirror: the real program (main function included)
// runs as one or more simulated processes on the simulated disk and network.

const (
	mdir     = "/spool/mirror"
	mconf    = "/etc/mirror.toml"
	mconfTop = "/etc"
)

// MMirror is one configured mirror and its upstream.
type MMirror struct {
	ID       string   `json:"id"`
	Host     string   `json:"host"`
	Base     string   `json:"base"`
	Repo     RepoSpec `json:"repo"`
	Suites   []string `json:"suites"`
	Sections []string `json:"sections,omitempty"`
	Archs    []string `json:"archs,omitempty"`
	Source   bool     `json:"source,omitempty"`
	Off      bool     `json:"off,omitempty"`   // not in the configuration file
	Slash    bool     `json:"slash,omitempty"` // the URL ends with a slash
}

// MPub publishes the next upstream version of a mirror.
type MPub struct {
	Ms     int    `json:"ms,omitempty"`   // at this time of the step
	Req    int    `json:"req,omitempty"`  // or when request number Req of that mirror arrives
	Path   string `json:"path,omitempty"` // (counting only paths containing this)
	Mirror int    `json:"mirror"`
	seen   int
	done   bool
}

// MStep is one action of the operator.
type MStep struct {
	Op       string        `json:"op"`             // run, publish, power, wait, config
	Conf     *MMirror      `json:"conf,omitempty"` // new settings of Mirror
	Bad      *BadConf      `json:"bad,omitempty"`
	IDs      []string      `json:"ids,omitempty"`
	Mirror   int           `json:"mirror,omitempty"`
	Faults   []*Fault      `json:"faults,omitempty"`
	Absorb   bool          `json:"absorb,omitempty"` // the faults are transient and few: the run must succeed
	FS       []*FSFault    `json:"fs,omitempty"`
	Crash    []*CrashPoint `json:"crash,omitempty"`
	TermMs   int           `json:"term,omitempty"`
	KillMs   int           `json:"kill,omitempty"`
	Power    *CrashMode    `json:"power,omitempty"`
	Pubs     []*MPub       `json:"pubs,omitempty"`
	Limit    int64         `json:"limit,omitempty"` // free disk space during the step
	SecondMs []int         `json:"second,omitempty"`
	Slow     int           `json:"slow,omitempty"` // ms per upstream request
	WaitMs   int           `json:"wait,omitempty"`
	Bound    int           `json:"bound,omitempty"` // seconds the run may take
}

type MPlan struct {
	MaxConns int       `json:"maxconns"` // -1: default
	Mirrors  []MMirror `json:"mirrors"`
	DirStyle string    `json:"dirstyle,omitempty"` // appended to the directory
	Link     LinkCfg   `json:"link"`
	FsyncMs  int       `json:"fsync,omitempty"`
	Close    float64   `json:"close,omitempty"`
	Chunked  float64   `json:"chunked,omitempty"`
	Log      string    `json:"log,omitempty"`
	NoWait   bool      `json:"nowait,omitempty"` // CANCELLATION_DELAY_SECONDS=0
	Steps    []*MStep  `json:"steps"`
}

// snap is the recorded content of a published tree.
type snap struct {
	target  string
	files   map[string][]byte
	inodes  map[*Inode]string
	dirs    map[*Inode]string
	problem string
}

type msim struct {
	stepRuns int // number of runs before this step
	p        *MPlan
	up       *Upstream
	sites    []*Site
	gate     *Gate
	pub      map[string]*snap // by mirror id: what the link pointed to last
	ever     map[string]bool
	snaps    map[string]*snap // by link target
	// current step
	step  int
	st    *MStep
	run   *mrun
	runs  []*mrun
	trees map[*Inode]*mrun // new trees (top directories)
	// trees (nil: no link) a power loss may bring back because no run that
	// published the mirror after them has reported success
	maybe     map[string][]*snap
	lockIno   *Inode
	lastRun   int64
	prevBad   string // how the previous run ended badly
	powered   bool
	slowMs    int
	mainFn    func()
	wantNew   map[string]bool
	activeMut map[int32]*mrun
}

// mrun is one process run.
type mrun struct {
	n        *Node
	ids      []string
	before   map[string]*snap
	reqFrom  int
	mut      bool // changed anything except creating the lock file
	mutAt    int64
	start    int64
	pubs     map[string]*snap // links moved in this run
	faulty   bool
	holders  bool // another run was working when this one started
	verAt    map[string]int
	second   bool
	released bool
}

func ExecMirror(p *Plan, mainFn func()) {
	BudgetProps = "M07,M12,R01"
	m := &msim{p: p.M, mainFn: mainFn, pub: map[string]*snap{}, ever: map[string]bool{}, snaps: map[string]*snap{},
		maybe: map[string][]*snap{}, trees: map[*Inode]*mrun{}, wantNew: map[string]bool{}}
	m.exec(p)
}

func (m *msim) exec(p *Plan) {
	mp := m.p
	cp := *mp
	mp = &cp // the configuration changes, the plan does not
	mp.Mirrors = append([]MMirror(nil), mp.Mirrors...)
	m.p = mp
	if mp.NoWait {
		os.Setenv("CANCELLATION_DELAY_SECONDS", "0")
	}
	r := NewRand(p.Seed ^ 0xabcdef)
	W.FS.dentSeed = p.Seed
	m.up = NewUpstream(r.Fork("up"))
	m.up.Close, m.up.Chunked = mp.Close, mp.Chunked
	m.up.Props = "M09"
	hosts := map[string]bool{}
	for i := range mp.Mirrors {
		mm := &mp.Mirrors[i]
		if !hosts[mm.Host] {
			hosts[mm.Host] = true
			m.up.AddHost(mm.Host, mp.Link)
		}
		s := &Site{Name: mm.ID, Host: mm.Host, Base: mm.Base, Repo: NewRepo(mm.Repo), Extra: map[string][]byte{}}
		s.Limit = mp.MaxConns
		if s.Limit < 0 {
			s.Limit = 10
		}
		s.Repo.Version(0)
		for _, h := range mm.Repo.Hostile {
			m.addHostile(mm, s, h)
		}
		m.sites = append(m.sites, s)
		m.up.Sites = append(m.up.Sites, s)
	}
	m.up.OnReq = m.onReq
	frng := r.Fork("fsync")
	if mp.FsyncMs > 0 {
		W.FS.FsyncLat = func(*Node) int64 { return int64(frng.N(mp.FsyncMs * 1000000)) }
	}
	m.gate = &Gate{OnPower: m.power}
	m.gate.install(W.FS)
	// initial disk
	W.FS.MkdirAll(mdir)
	W.FS.WriteFile(mconf, m.config())
	W.FS.WriteFile("/etc/passwd", []byte("root:x:0:0\n"))
	W.FS.WriteFile("/spool/other/keep.txt", []byte("keep\n"))
	W.FS.WriteFile("/pool/main/keep", []byte("keep\n"))
	W.FS.Observer = append(W.FS.Observer, m.observe)
	for i, st := range mp.Steps {
		m.step, m.st = i, st
		m.doStep()
	}
	for _, s := range m.sites {
		if s.Peak > 1 {
			W.Probe("parallel-downloads")
		}
	}
}

func (m *msim) addHostile(mm *MMirror, s *Site, h HostileEntry) {
	body := s.Repo.hostile(h.Path)
	base := &url.URL{Scheme: "http", Host: mm.Host, Path: mm.Base}
	cands := []string{h.Path, path.Clean(h.Path)}
	if h.Where == "release" {
		for _, su := range mm.Repo.Suites {
			d := "dists/" + su
			if mm.Repo.Flat {
				d = strings.TrimSuffix(su, "/")
			}
			cands = append(cands, path.Join(d, path.Clean(h.Path)), path.Join(d, h.Path))
		}
	}
	for _, c := range cands {
		u := base.ResolveReference(&url.URL{Path: c})
		s.Extra[u.Path] = body
		s.Extra[path.Clean("/"+u.Path)] = body
		s.Extra[path.Join("/", mm.Base, c)] = body
	}
}

func q(l []string) string {
	o := []string{}
	for _, s := range l {
		o = append(o, fmt.Sprintf("%q", s))
	}
	return "[" + strings.Join(o, ", ") + "]"
}

// encBase is the path of a configured URL as it is written, and as upstream
// has to see it: the slash in "pa/th" is not a separator of directories.
func encBase(base string) string {
	return strings.ReplaceAll((&url.URL{Path: base}).EscapedPath(), "/pa/th", "/pa%2Fth")
}

func confURL(host, base string, slash bool) string {
	u := "http://" + host + strings.TrimSuffix(encBase(base), "/")
	if slash {
		u += "/"
	}
	return u
}

func (m *msim) config() []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "dir = %q\n", mdir+m.p.DirStyle)
	if m.p.MaxConns >= 0 {
		fmt.Fprintf(&b, "max_conns = %d\n", m.p.MaxConns)
	}
	lv := m.p.Log
	if lv == "" {
		lv = "error"
	}
	fmt.Fprintf(&b, "[log]\nlevel = %q\n", lv)
	for _, mm := range m.p.Mirrors {
		if mm.Off {
			continue
		}
		fmt.Fprintf(&b, "[mirror.%s]\nurl = %q\nsuites = %s\n", mm.ID, confURL(mm.Host, mm.Base, mm.Slash), q(mm.Suites))
		if len(mm.Sections) > 0 {
			fmt.Fprintf(&b, "sections = %s\n", q(mm.Sections))
		}
		if len(mm.Archs) > 0 {
			fmt.Fprintf(&b, "architectures = %s\n", q(mm.Archs))
		}
		fmt.Fprintf(&b, "mirror_source = %v\n", mm.Source)
	}
	return b.Bytes()
}

func (m *msim) mirror(id string) (*MMirror, *Site) {
	for i := range m.p.Mirrors {
		if m.p.Mirrors[i].ID == id {
			return &m.p.Mirrors[i], m.sites[i]
		}
	}
	return nil, nil
}

func (m *msim) publish(i int) {
	if i >= len(m.sites) {
		return
	}
	s := m.sites[i]
	s.Ver++
	s.Repo.Version(s.Ver)
	W.Logf("upstream %s publishes version %d", s.Name, s.Ver)
	W.Fault("upstream-update")
}

func (m *msim) onReq(r *Req) {
	if m.st == nil {
		return
	}
	for _, p := range m.st.Pubs {
		if p.done || p.Req == 0 || r.Site == nil || p.Mirror >= len(m.sites) || r.Site != m.sites[p.Mirror] || !strings.Contains(r.Path, p.Path) {
			continue
		}
		p.seen++
		if p.seen == p.Req {
			p.done = true
			m.publish(p.Mirror)
			r.Ver = r.Site.Ver
		}
	}
}

func (m *msim) power(mode CrashMode) {
	W.Logf("POWER LOSS")
	ids := []int{}
	for id, n := range W.Nodes {
		if !n.Exited {
			ids = append(ids, int(id))
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		W.Kill(W.Nodes[int32(id)])
	}
	// the trees reachable through the links before the loss
	W.FS.Crash(mode)
	m.powered = true
	m.trees = map[*Inode]*mrun{}
	m.lockIno = nil
}

// ---- published trees ----

func takeSnap(root *Inode, target string) *snap {
	s := &snap{target: target, files: map[string][]byte{}, inodes: map[*Inode]string{}, dirs: map[*Inode]string{root: ""}}
	root.Walk("", func(rel string, in *Inode) {
		switch in.Typ {
		case tFile:
			s.files[rel] = in.Data
			s.inodes[in] = rel
		case tDir:
			s.dirs[in] = rel
		case tLink:
			s.files[rel] = []byte("link:" + in.Target)
		}
	})
	return s
}

// same compares a directory with a recorded tree.
func (s *snap) diff(root *Inode) string {
	if root == nil || root.Typ != tDir {
		return "tree directory is gone"
	}
	t := takeSnap(root, s.target)
	var names []string
	for n := range s.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		b, ok := t.files[n]
		if !ok {
			return "missing " + n
		}
		if !bytes.Equal(b, s.files[n]) {
			return "changed " + n
		}
	}
	if len(t.files) != len(s.files) {
		return "extra files"
	}
	for _, in := range sortedInodes(t.inodes) {
		if in.Mode&0444 != 0444 {
			return fmt.Sprintf("unreadable (mode %o) %s", in.Mode, t.inodes[in])
		}
	}
	return ""
}

func sortedInodes(m map[*Inode]string) []*Inode {
	l := make([]*Inode, 0, len(m))
	for in := range m {
		l = append(l, in)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Ino < l[j].Ino })
	return l
}

// linkState returns the target and tree the link of id shows now.
func (m *msim) linkState(id string) (string, *Inode) {
	l := W.FS.Lstat(mdir + "/" + id)
	if l == nil {
		return "", nil
	}
	t := l.Target
	if l.Typ != tLink {
		t = "(not a link)"
	}
	d := W.FS.Stat(mdir + "/" + id)
	return t, d
}

// observe sees every change of the simulated disk.
func (m *msim) observe(ev *FSEvent) {
	if ev.Op == "fsync" || ev.Node == nil {
		return
	}
	run := m.runOf(ev.Node)
	// (M13) containment
	if run != nil {
		m.contain(ev, run)
	}
	// (M01/M06) published trees are immutable
	ids := m.pubIDs()
	for _, id := range ids {
		s := m.pub[id]
		var what string
		switch ev.Op {
		case "write", "truncate", "chmod":
			if rel, ok := s.inodes[ev.Ino]; ok {
				what = "file " + rel
			}
		default:
			if rel, ok := s.dirs[ev.Dir]; ok {
				what = "entry " + path.Join(rel, ev.Name)
			} else if ev.Dir2 != nil {
				if rel, ok := s.dirs[ev.Dir2]; ok {
					what = "entry below " + rel
				}
			} else if (ev.Op == "rmdir" || ev.Op == "rename") && ev.Ino != nil {
				if _, ok := s.dirs[ev.Ino]; ok {
					what = "the tree itself"
				}
			}
		}
		if what != "" {
			W.Violate("M01,M05,M06", "published-modified", "%s of %s in the published tree of %s (%s)", ev.Op, what, id, ev.Path)
		}
	}
	// the links themselves
	if ev.Dir != nil && ev.Dir.Path() == mdir {
		m.checkLink(ev, ev.Name)
	}
	if ev.Dir2 != nil && ev.Dir2.Path() == mdir {
		m.checkLink(ev, path.Base(ev.Path2))
	}
	// removal of a directory above a published tree
	if ev.Op == "rename" || ev.Op == "rmdir" {
		for _, id := range ids {
			if t, d := m.linkState(id); d == nil {
				W.Violate("M01,M06", "published-gone", "after %s of %s the link of %s (-> %s) leads nowhere", ev.Op, ev.Path, id, t)
			}
		}
	}
}

func (m *msim) pubIDs() []string {
	l := []string{}
	for id := range m.pub {
		l = append(l, id)
	}
	sort.Strings(l)
	return l
}

func (m *msim) runOf(n *Node) *mrun {
	for _, r := range m.runs {
		if r.n == n {
			return r
		}
	}
	return nil
}

func (m *msim) isID(name string) bool {
	mm, _ := m.mirror(name)
	return mm != nil
}

func (m *msim) checkLink(ev *FSEvent, name string) {
	if !m.isID(name) {
		return
	}
	t, d := m.linkState(name)
	old := m.pub[name]
	if old != nil && d == nil {
		W.Violate("M01,M02,M06", "link-lost", "%s %s: published link of %s is missing or leads nowhere (-> %q)", ev.Op, ev.Path, name, t)
		return
	}
	if d == nil {
		return
	}
	if old != nil && old.target == t {
		return
	}
	m.newTree(name, t, d, m.runOf(ev.Node))
}

// newTree is called at the instant the link of a mirror shows a new tree.
func (m *msim) newTree(id, target string, d *Inode, run *mrun) {
	s := takeSnap(d, target)
	m.maybe[id] = append(m.maybe[id], m.pub[id])
	m.pub[id] = s
	m.ever[id] = true
	m.snaps[target] = s
	W.Logf("mirror %s publishes %s (%d files)", id, target, len(s.files))
	if run != nil {
		run.pubs[id] = s
	}
	mm, site := m.mirror(id)
	m.checkTree(mm, site, s, run)
}

// contain checks where a process changes the disk.
func (m *msim) contain(ev *FSEvent, run *mrun) {
	mark := func() {
		if !run.mut {
			run.mut = true
			run.mutAt = Now()
			for _, o := range m.runs {
				if o != run && o.mut && !o.n.Exited && !o.released {
					W.Violate("M08", "two-updaters", "run %d changes %s while run %d is working on the directory", run.n.ID, ev.Path, o.n.ID)
				}
			}
			if run.holders {
				W.Violate("M08", "intruder", "run %d, started while another run was working, changes %s", run.n.ID, ev.Path)
			}
		}
	}
	bad := func(why string) {
		props := "M13"
		if m.st.Op == "bad" {
			props = "P03,M13"
		}
		W.Violate(props, "outside:"+ev.Op, "%s of %s: %s", ev.Op, ev.Path, why)
	}
	switch ev.Op {
	case "write", "truncate", "chmod":
		p := path.Clean(ev.Path)
		if p == mdir+"/.lock" {
			return
		}
		mark()
		// reachable through a tree of this run?
		ok := false
		for _, t := range m.treesOf(run) {
			if strings.HasPrefix(p, t.Path()+"/") {
				ok = true
			}
		}
		if !ok {
			bad("not in a tree of this run")
		}
		return
	}
	chk := func(dir *Inode, name string, op string) {
		dp := dir.Path()
		if dp == mdir {
			switch {
			case name == ".lock":
				if op == "create" {
					if m.lockIno != nil {
						W.Violate("M08,M06", "lock-replaced", "the lock file was created again")
					}
					m.lockIno = ev.Ino
					return
				}
				mark()
				W.Violate("M06,M08", "lock-removed", "%s of the lock file", op)
			case op == "mkdir":
				mark()
				if !strings.HasPrefix(name, ".") {
					bad("directory that is no tree")
				}
				m.trees[ev.Ino] = run
			case op == "symlink", op == "unlink", op == "rmdir", op == "rename":
				mark()
			default:
				mark()
				bad("unexpected entry in the mirror directory")
			}
			return
		}
		mark()
		if op == "unlink" || op == "rmdir" {
			// cleanup: anywhere below the mirror directory (published
			// trees are protected by the immutability check)
			if !strings.HasPrefix(dp, mdir+"/") {
				bad("removal outside the mirror directory")
			}
			return
		}
		top := dir
		for top.Parent != top && top.Parent.Path() != mdir {
			top = top.Parent
		}
		if m.trees[top] != run {
			bad("not in a tree of this run")
		} else if op == "link" && dir == top {
			// only temporary files and meta data live beside the tree
			bad("mirrored file outside the published part of the tree")
		}
	}
	chk(ev.Dir, ev.Name, ev.Op)
	if ev.Dir2 != nil && ev.Dir2 != ev.Dir {
		chk(ev.Dir2, path.Base(ev.Path2), "unlink")
	}
}

func (m *msim) treesOf(run *mrun) []*Inode {
	var l []*Inode
	for t, r := range m.trees {
		if r == run {
			l = append(l, t)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Ino < l[j].Ino })
	return l
}

// ---- what a complete tree is ----

func ext(p string) string { return path.Ext(path.Base(p)) }

func noExt(p string) string { return strings.TrimSuffix(p, ext(p)) }

// selected says whether the configuration selects the files of index p.
func (mm *MMirror) selected(p string) bool {
	base := noExt(path.Base(p))
	if base == "Index" || base == "Release" {
		return true
	}
	if strings.HasSuffix(mm.Suites[0], "/") {
		return base == "Packages" || base == "Sources" && mm.Source
	}
	pn := "/" + noExt(p)
	for _, s := range mm.Sections {
		for _, a := range append([]string{"all"}, mm.Archs...) {
			if strings.HasSuffix(pn, "/"+s+"/binary-"+a+"/Packages") {
				return true
			}
		}
		if mm.Source && strings.HasSuffix(pn, "/"+s+"/source/Sources") {
			return true
		}
	}
	return false
}

var releaseNames = []string{"Release", "Release.gpg", "Release.gz", "Release.bz2", "InRelease", "InRelease.gz", "InRelease.bz2"}

func suiteDir(s string) string {
	if strings.HasSuffix(s, "/") {
		return strings.TrimSuffix(strings.TrimPrefix(s, "/"), "/")
	}
	return "dists/" + s
}

// answers tells how upstream answered plain requests for rel in this run.
func (m *msim) answers(run *mrun, site *Site, rel string) (n200, n404, other int) {
	for _, r := range m.up.Log[run.reqFrom:] {
		if r.Site != site || r.Rel != rel {
			continue
		}
		switch {
		case r.Status == 404:
			n404++
		case r.Status == 200:
			n200++
		default:
			other++
		}
	}
	return
}

func (m *msim) checkTree(mm *MMirror, site *Site, s *snap, run *mrun) {
	fail := func(props, class, f string, a ...any) {
		if s.problem == "" {
			s.problem = fmt.Sprintf(f, a...)
		}
		W.Violate(props, class, "tree published for %s: %s", mm.ID, fmt.Sprintf(f, a...))
	}
	if run == nil {
		W.Violate("M01", "no-run", "link of %s moved without a run", mm.ID)
		return
	}
	if run.pubs[mm.ID] == nil {
		Die("bookkeeping")
	}
	allowed := map[string]bool{}
	required := map[string]bool{}
	type need struct {
		l      Listed
		byhash bool
		index  bool
	}
	var indices []need
	plain := map[string][]Listed{}
	odd := len(mm.Repo.Hostile) > 0
	for _, suite := range mm.Suites {
		dir := suiteDir(suite)
		found := 0
		bh := true
		seen := map[string]bool{}
		var lists []Listed
		for _, rn := range releaseNames {
			rp := path.Join(dir, rn)
			b, ok := s.files[rp]
			if !ok {
				// must not be missing if upstream served it in this run
				n200, n404, other := m.answers(run, site, rp)
				if _, has := site.Repo.Version(site.Ver).Files[rp]; has && n200+n404+other == 0 && run.verAt[mm.ID] == site.Ver {
					fail("M04", "release-unasked", "%s, which upstream has, was not requested", rp)
				}
				if n200 > 0 && !seen[rp] {
					full := false
					for _, r := range m.up.Log[run.reqFrom:] {
						if r.Site == site && r.Rel == rp && r.Full {
							full = true
						}
					}
					if full {
						fail("M01,M04,M05", "release-missing", "%s was served by upstream but is not in the tree", rp)
					}
				}
				continue
			}
			seen[rp] = true
			allowed[rp] = true
			found++
			// must be what upstream handed out in this run
			okc := false
			for _, r := range m.up.Log[run.reqFrom:] {
				if r.Site == site && r.Rel == rp && r.Status == 200 && bytes.Equal(r.Body, b) {
					okc = true
				}
			}
			if !okc {
				fail("M01,M04,M05", "release-foreign", "%s is not what upstream served in this run", rp)
			}
			if rn == "Release.gpg" {
				continue
			}
			l, h := ReadRelease(rp, b)
			bh = bh && h
			lists = append(lists, l...)
		}
		if found == 0 {
			fail("M01,M04,M05", "no-release", "suite %q has no Release file", suite)
		}
		dup := map[string]bool{}
		for _, l := range lists {
			if dup[l.key()] {
				continue
			}
			dup[l.key()] = true
			base := path.Base(l.Path)
			if !mm.Source && strings.HasPrefix(base, "Sources") && noExt(base) == "Sources" {
				continue
			}
			plain[l.Path] = append(plain[l.Path], l)
			indices = append(indices, need{l, bh, true})
			allowed[l.Path] = true
		}
	}
	for _, m := range mm.Repo.Mangle {
		if site.Ver >= m.From && run.verAt[mm.ID] < m.To {
			// the damaged control data is not interpreted here
			W.Probe("damaged-lists")
			return
		}
	}
	oddSet := map[string]bool{}
	if odd {
		// odd paths: content rules are checked for what is there; hostile
		// entries may be placed anywhere inside the tree
		for _, h := range mm.Repo.Hostile {
			for _, suite := range mm.Suites {
				for _, c := range []string{h.Path, path.Join(suiteDir(suite), h.Path), path.Join(suiteDir(suite), path.Clean(h.Path))} {
					cp := strings.TrimPrefix(path.Clean("/"+c), "/")
					allowed[cp], oddSet[cp] = true, true
				}
			}
		}
	}
	isHostile := func(p string) bool {
		if !odd {
			return false
		}
		if oddSet[strings.TrimPrefix(path.Clean("/"+p), "/")] {
			return true
		}
		for _, h := range mm.Repo.Hostile {
			if strings.HasSuffix(path.Clean("/"+p), path.Clean("/"+h.Path)) || strings.HasSuffix(p, h.Path) {
				return true
			}
		}
		return false
	}
	checked := map[string]bool{}
	items := map[string][]Listed{}
	for _, n := range indices {
		l := n.l
		if isHostile(l.Path) {
			continue
		}
		var names []string
		if n.byhash {
			d := path.Dir(l.Path)
			if l.MD5 != "" {
				names = append(names, path.Join(d, "by-hash/MD5Sum", l.MD5))
			}
			if l.SHA1 != "" {
				names = append(names, path.Join(d, "by-hash/SHA1", l.SHA1))
			}
			if l.SHA256 != "" {
				names = append(names, path.Join(d, "by-hash/SHA256", l.SHA256))
			}
		}
		pb, pok := s.files[l.Path]
		var body []byte
		have := false
		if pok && l.Match(pb) {
			body, have = pb, true
		}
		hashed := 0
		for _, hn := range names {
			if b, ok := s.files[hn]; ok {
				hashed++
				allowed[hn] = true
				if !l.Match(b) {
					fail("M01,M03,M11", "byhash-content", "%s does not hold the content it is named after", hn)
				} else if !have {
					body, have = b, true
				}
			}
		}
		if pok && !have {
			// another listed version may be under the plain name
			okOther := false
			for _, o := range plain[l.Path] {
				if o.Match(pb) {
					okOther = true
				}
			}
			if !okOther && !checked[l.Path] {
				checked[l.Path] = true
				fail("M01,M03,M04", "index-content", "%s does not match the checksums its Release file lists", l.Path)
				continue
			}
		}
		if !have {
			n200, n404, _ := m.answers(run, site, l.Path)
			if n404 == 0 {
				fail("M01,M04,M05,M11", "index-missing", "%s is listed and upstream did not answer 404, but it is not in the tree", l.Path)
			} else if n200 > 0 && len(plain[l.Path]) == 1 && !m.changing() {
				fail("M01,M04,M05,M11", "index-missing", "%s is listed and upstream has content for it, but it is not in the tree", l.Path)
			}
			continue
		}
		if n.byhash && hashed < len(names) && !odd {
			fail("M11", "byhash-missing", "%s is not published under all its by-hash names", l.Path)
		}
		if n.byhash && !pok && !odd {
			fail("M11,M01,M04", "byhash-only", "%s is published only under by-hash names", l.Path)
		}
		// by-hash names computed from the content are fine as well
		d := SumsOf(body)
		for _, hn := range []string{"MD5Sum/" + d.MD5, "SHA1/" + d.SHA1, "SHA256/" + d.SHA256} {
			hp := path.Join(path.Dir(l.Path), "by-hash", hn)
			if n.byhash {
				if b, ok := s.files[hp]; ok && !bytes.Equal(b, body) {
					fail("M01,M03,M11", "byhash-content", "%s does not hold the content it is named after", hp)
				}
				allowed[hp] = true
			}
		}
		required[l.Path] = true
		if !mm.selected(l.Path) {
			continue
		}
		base := path.Base(l.Path)
		switch {
		case ext(base) != "" && ext(base) != ".gz" && ext(base) != ".bz2" && ext(base) != ".xz":
		case noExt(base) == "Packages" || noExt(base) == "Sources":
			for _, it := range ReadIndex(l.Path, body) {
				if plain[it.Path] == nil && !isHostile(it.Path) {
					items[it.Path] = append(items[it.Path], it)
				}
			}
		case noExt(base) == "Index":
			l2, _ := ReadRelease(l.Path, body)
			for _, it := range l2 {
				if plain[it.Path] == nil && !isHostile(it.Path) {
					items[it.Path] = append(items[it.Path], it)
				}
			}
		}
	}
	anyHash := false
	for _, n := range indices {
		anyHash = anyHash || n.byhash
	}
	var ips []string
	for p := range items {
		ips = append(ips, p)
	}
	sort.Strings(ips)
	for _, p := range ips {
		allowed[p] = true
		b, ok := s.files[p]
		if !ok {
			props := "M01,M04,M05"
			if anyHash {
				props += ",M11"
			}
			fail(props, "item-missing", "%s is listed by a selected index but is not in the tree", p)
			continue
		}
		for _, l := range items[p] {
			if !l.Match(b) {
				fail("M01,M03,M04", "item-content", "%s does not match its listed checksums", p)
				break
			}
		}
	}
	var names []string
	for n := range s.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !allowed[n] && !odd {
			fail("M04", "extra-file", "%s is in the tree although neither upstream's indices nor the configuration select it", n)
		}
	}
	for _, in := range sortedInodes(s.inodes) {
		if in.Mode&0444 != 0444 {
			fail("M01,M04", "unreadable", "%s has mode %o", s.inodes[in], in.Mode)
		}
	}
	dl := make([]*Inode, 0)
	for in := range s.dirs {
		dl = append(dl, in)
	}
	sort.Slice(dl, func(i, j int) bool { return dl[i].Ino < dl[j].Ino })
	for _, in := range dl {
		if in.Mode&0555 != 0555 {
			fail("M01,M04", "unreadable", "directory %s has mode %o", s.dirs[in], in.Mode)
		}
	}
	W.Probe("trees-checked")
	W.Probes["files-checked"] += len(s.files)
}

// changing: upstream published a new version during this step.
func (m *msim) changing() bool {
	for _, p := range m.st.Pubs {
		if p.done || p.Req == 0 {
			return true
		}
	}
	for _, f := range m.st.Faults {
		if f.Kind == "notfound" || f.Kind == "status" {
			return true
		}
	}
	return false
}

// ---- steps ----

func (m *msim) doStep() {
	st := m.st
	W.Logf("step %d %s", m.step, st.Op)
	switch st.Op {
	case "publish":
		m.publish(st.Mirror)
	case "config":
		if st.Mirror < len(m.p.Mirrors) {
			mm, c := &m.p.Mirrors[st.Mirror], st.Conf
			mm.Suites, mm.Sections, mm.Archs, mm.Source, mm.Off = c.Suites, c.Sections, c.Archs, c.Source, c.Off
			W.FS.WriteFile(mconf, m.config())
			W.Fault("config-change")
		}
	case "wait":
		Sleep(time.Duration(st.WaitMs) * time.Millisecond)
	case "power":
		m.power(*st.Power)
		m.afterPower()
	case "run":
		m.doRun()
	case "bad":
		m.doBad(st)
	default:
		Die("unknown step %q", st.Op)
	}
}

func (m *msim) startRun(ids []string, second bool) *mrun {
	run := &mrun{ids: ids, before: map[string]*snap{}, reqFrom: len(m.up.Log), start: Now(), pubs: map[string]*snap{}, verAt: map[string]int{}, second: second}
	if len(ids) == 0 {
		for _, mm := range m.p.Mirrors {
			if !mm.Off {
				run.ids = append(run.ids, mm.ID)
			}
		}
	}
	for id, s := range m.pub {
		run.before[id] = s
	}
	for _, s := range m.sites {
		run.verAt[s.Name] = s.Ver
	}
	for _, o := range m.runs {
		if o.mut && !o.n.Exited {
			run.holders = true
		}
	}
	os.Args = append([]string{"go-apt-mirror", "-f", mconf}, ids...)
	m.runs = append(m.runs, run)
	run.n = W.StartNode(fmt.Sprintf("mirror%d", len(m.runs)), m.mainFn)
	return run
}

func (m *msim) doRun() {
	st := m.st
	// runs are at least two seconds apart, as they are in practice
	if d := m.lastRun + 2100e6 - Now(); d > 0 && m.lastRun > 0 {
		Sleep(time.Duration(d))
	}
	for _, s := range m.sites {
		s.Peak = 0
	}
	m.up.Faults = st.Faults
	m.up.T0 = Now()
	m.up.MinLat = time.Duration(st.Slow) * time.Millisecond
	m.gate.Faults = st.FS
	m.gate.Crash = st.Crash
	m.gate.Fired = 0
	if st.Limit > 0 {
		W.FS.Limit = W.FS.used + st.Limit
	}
	m.powered = false
	m.stepRuns = len(m.runs)
	step := m.step
	run := m.startRun(st.IDs, false)
	m.gate.Node = run.n
	for _, p := range st.Pubs {
		if p.Req == 0 {
			p := p
			After(time.Duration(p.Ms)*time.Millisecond, func() {
				if m.step == step {
					p.done = true
					m.publish(p.Mirror)
				}
			})
		}
	}
	if st.TermMs > 0 {
		After(time.Duration(st.TermMs)*time.Millisecond, func() {
			if !run.n.Exited {
				W.Fault("sigterm")
				W.Signal(run.n)
			}
		})
	}
	if st.KillMs > 0 {
		After(time.Duration(st.KillMs)*time.Millisecond, func() {
			if !run.n.Exited {
				if st.Power != nil {
					m.power(*st.Power)
				} else {
					W.Fault("kill")
					W.Kill(run.n)
				}
			}
		})
	}
	var seconds []*mrun
	for _, ms := range st.SecondMs {
		Sleep(time.Duration(ms) * time.Millisecond)
		if m.powered {
			break
		}
		W.Fault("second-run")
		seconds = append(seconds, m.startRun(st.IDs, true))
	}
	bound := 2 * time.Hour
	if st.Bound > 0 {
		bound = time.Duration(st.Bound) * time.Second
	}
	left := run.start + int64(bound) - Now()
	if !W.WaitExit(run.n, time.Duration(left)) {
		props := "M07,M09"
		if st.TermMs > 0 || sigCrash(st.Crash) {
			props = "M12"
		}
		if m.p.MaxConns == 0 {
			props += ",M09"
		}
		if len(st.FS) > 0 || st.Limit > 0 {
			props += ",M14"
		}
		W.Violate(props, "no-termination", "the run has not returned after %v of simulated time (requests in progress: %d)", bound, m.up.InProgress())
		if W.LogKeep {
			b := make([]byte, 1<<20)
			W.Logf("stacks:\n%s", b[:runtime.Stack(b, true)])
		}
		W.Finish("stuck")
	}
	for _, s := range seconds {
		if !W.WaitExit(s.n, bound) {
			W.Violate("M08,M07", "no-termination2", "a second run has not returned")
			W.Finish("stuck")
		}
	}
	W.FS.Limit = 0
	m.lastRun = Now()
	m.afterRun(run, seconds)
	m.gate.Faults, m.gate.Crash, m.gate.Node = nil, nil, nil
	m.up.Faults = nil
	if st.Power != nil && !m.powered && st.KillMs == 0 {
		// power loss after the run
		m.power(*st.Power)
	}
	if m.powered {
		m.afterPower()
	}
}

// cancelBound: 5 s grace period of the framework, the longest back-off
// (16 s), reaction to closed connections and injected scheduler stalls
// (at most 10 s per run), doubled.
const cancelBound = 75e9

func sigCrash(l []*CrashPoint) bool {
	for _, c := range l {
		if c.Sig {
			return true
		}
	}
	return false
}

// checkPublished compares what the links show with what was published.
func (m *msim) checkPublished(props, when string) {
	for _, id := range m.pubIDs() {
		s := m.pub[id]
		t, d := m.linkState(id)
		if t != s.target {
			W.Violate(props, "link-changed", "%s: link of %s shows %q, expected %q", when, id, t, s.target)
			continue
		}
		if x := s.diff(d); x != "" {
			W.Violate(props, "tree-damaged", "%s: published tree of %s: %s", when, id, x)
		}
	}
}

func (m *msim) afterPower() {
	W.Probe("power-loss-checked")
	for _, mm := range m.p.Mirrors {
		id := mm.ID
		t, d := m.linkState(id)
		// of runs at the same time, the one that published last counts
		var last *mrun
		for _, r := range m.runs[m.stepRuns:] {
			if last == nil || r.pubs[id] != nil && (last.pubs[id] == nil || r.n.EndAt > last.n.EndAt) {
				last = r
			}
		}
		if last == nil {
			last = m.runs[len(m.runs)-1]
		}
		old, nw := last.before[id], last.pubs[id]
		if !m.ever[id] {
			if t != "" {
				W.Violate("M02", "power-phantom", "after power loss %s shows a link to %s that was never published", id, t)
			}
			continue
		}
		var ok []*snap
		durableNew := nw != nil && last.n.Code == 0 && last.n.Exited
		if nw != nil {
			ok = append(ok, nw)
		}
		if !durableNew && (old != nil || nw != nil) {
			if old != nil {
				ok = append(ok, old)
			}
		}
		if nw == nil && old == nil {
			ok = append(ok, m.pub[id])
		}
		never := false
		if !durableNew {
			for _, x := range m.maybe[id] {
				if x == nil {
					never = true
				} else {
					ok = append(ok, x)
				}
			}
		}
		m.maybe[id] = nil
		if d == nil {
			if (never || nw != nil && old == nil && !durableNew) && t == "" {
				// the very first publication may be lost
				delete(m.pub, id)
				m.ever[id] = false
				continue
			}
			W.Violate("M02", "power-link-lost", "after power loss the link of %s is missing or leads nowhere (-> %q)", id, t)
			continue
		}
		var s *snap
		for _, x := range ok {
			if x.target == t {
				s = x
			}
		}
		if s == nil {
			cls := "power-wrong-tree"
			if durableNew {
				cls = "power-success-lost"
			}
			W.Violate("M02", cls, "after power loss the link of %s shows %s", id, t)
			continue
		}
		if x := s.diff(d); x != "" {
			W.Violate("M02,M14", "power-damage", "after power loss the published tree of %s is damaged: %s", id, x)
			continue
		}
		m.pub[id] = takeSnap(d, t)
		m.snaps[t] = m.pub[id]
	}
	if m.prevBad == "" {
		m.prevBad = "power loss"
	}
	if l := W.FS.Lstat(mdir + "/.lock"); l != nil {
		m.lockIno = l
	}
}

func (m *msim) afterRun(run *mrun, seconds []*mrun) {
	st := m.st
	n := run.n
	W.Logf("run ended code=%d", n.Code)
	if m.powered {
		m.prevBad = "power loss"
		return
	}
	for _, r := range append([]*mrun{run}, seconds...) {
		if r.n.Code == -2 {
			W.Violate("M05,M07"+runtimeCheck(r.n.Panic), "panic:"+r.n.PanicSite(), "the program panicked: %s", r.n.Panic)
		}
	}
	for _, r := range append([]*mrun{run}, seconds...) {
		if r.n.Code == 0 {
			for id, s := range r.pubs {
				if m.pub[id] == s {
					m.maybe[id] = nil
				}
			}
		}
	}
	m.checkPublished("M01,M05,M06", "after the run")
	killed := n.Code == -1
	sig := (st.TermMs > 0 || sigCrash(st.Crash)) && W.Faults["sigterm"] > 0
	disk := m.gate.Fired > 0 && len(st.FS) > 0 || st.Limit > 0
	netf := len(st.Faults) > 0
	pubd := len(st.Pubs) > 0
	hostile := false
	for _, mm := range m.p.Mirrors {
		if (mm.Off || len(mm.Repo.Hostile)+len(mm.Repo.Mangle)+len(mm.Repo.Wrong) > 0) && contains(run.ids, mm.ID) {
			hostile = true
		}
	}
	healthy := !killed && !sig && !disk && !hostile && !pubd && (!netf || st.Absorb) && len(seconds) == 0
	if pubd && st.Absorb {
		healthy = !killed && !sig && !disk && !hostile && len(seconds) == 0
	}
	// (M05) success means every requested mirror was updated completely
	if n.Code == 0 {
		W.Probe("runs-ok")
		for _, id := range run.ids {
			if run.pubs[id] == nil {
				W.Violate("M05,M04", "false-success", "the run reported success but did not publish %s", id)
			}
		}
		m.checkDenied(run)
	} else if !killed {
		W.Probe("runs-failed")
	}
	if healthy && n.Code != 0 {
		props := "M04,M07"
		if netf {
			props = "M07"
		}
		if pubd {
			props = "M11"
			if netf {
				props = "M11,M07"
			}
		}
		switch m.prevBad {
		case "power loss", "kill":
			props = "M02"
		case "cancel":
			props = "M12"
		case "disk":
			props = "M14"
		case "second":
			props = "M08"
		case "badconf":
			props = "P03"
		case "failed":
			props = "M05,M07"
		}
		W.Violate(props, "healthy-run-failed", "a run with healthy conditions failed (exit code %d, previous trouble: %q): %s", n.Code, m.prevBad, tail(string(W.Stderr), 300))
	}
	// (M06) cleanup after success
	if n.Code == 0 && len(seconds) == 0 {
		W.Probe("cleanup-checked")
		want := map[string]bool{".lock": true}
		for _, id := range m.pubIDs() {
			want[id] = true
			t := m.pub[id].target
			rel := strings.TrimPrefix(t, mdir+"/")
			want[strings.SplitN(rel, "/", 2)[0]] = true
		}
		for _, name := range W.FS.List(mdir) {
			if !want[name] {
				W.Violate("M06", "leftover", "after a successful run %s is left in the mirror directory", name)
			}
		}
		if W.FS.Lstat(mdir+"/.lock") == nil {
			W.Violate("M06,M08", "lock-gone", "the lock file is gone")
		}
		// and nothing but files and metadata inside the tree directories
		for _, id := range run.ids {
			if s := run.pubs[id]; s != nil {
				for _, name := range W.FS.List(path.Dir(s.target)) {
					if strings.HasPrefix(name, "_tmp") && !disk {
						W.Violate("M06", "temp-left", "temporary file %s left in the tree directory of %s", name, id)
					}
				}
			}
		}
	}
	// (M10) reuse
	if !killed {
		m.checkReuse(run, disk)
	}
	// (M09) capacity stays usable: with slow answers and many items the
	// configured parallelism must be reached
	if n.Code == 0 && st.Slow >= 200 && m.p.FsyncMs == 0 && len(seconds) == 0 {
		for i, id := range idList(m.p.Mirrors) {
			s := m.sites[i]
			if !contains(run.ids, id) || s.Limit <= 0 {
				continue
			}
			m.checkCapacity(run, id, s)
		}
	}
	// (M12) cancellation
	if sig && !killed {
		W.Probe("cancelled-runs")
	}
	if n.SigAt > 0 && !killed {
		if d := n.EndAt - n.SigAt; d > cancelBound {
			W.Violate("M12", "cancel-slow", "the run ended %.1f s after it was told to stop", float64(d)/1e9)
		} else if n.Code != 0 {
			W.Probe("cancel-effective")
		}
	}
	for _, s := range seconds {
		if s.n.Code == 0 && s.n.EndAt < n.EndAt {
			W.Violate("M08", "second-success", "a second run reported success while the first was working")
		}
		if !s.mut && s.n.Code == 0 {
			W.Violate("M08", "second-silent", "a second run that did nothing reported success")
		}
		if s.holders && s.n.EndAt-s.start > 10e9 {
			W.Violate("M08", "second-slow", "a second run needed %.1f s to give up", float64(s.n.EndAt-s.start)/1e9)
		}
		W.Probe("second-runs")
	}
	switch {
	case killed:
		m.prevBad = "kill"
	case sig && n.Code != 0:
		m.prevBad = "cancel"
	case disk && n.Code != 0:
		m.prevBad = "disk"
	case len(seconds) > 0:
		m.prevBad = "second"
	case n.Code != 0:
		m.prevBad = "failed"
	default:
		m.prevBad = ""
	}
}

// checkDenied: a run that got nothing but server errors for a file must not
// report success.
func (m *msim) checkDenied(run *mrun) {
	bad := map[string]bool{}
	var l []string
	for _, r := range m.up.Log[run.reqFrom:] {
		if r.Site == nil || !contains(run.ids, r.Site.Name) || strings.Contains(r.Rel, "/by-hash/") {
			continue
		}
		k := r.Site.Name + " " + r.Rel
		if _, ok := bad[k]; !ok {
			bad[k] = true
			l = append(l, k)
		}
		bad[k] = bad[k] && r.Status >= 500
	}
	for _, k := range l {
		if bad[k] {
			W.Violate("M05,M07", "denied-success", "the run reported success although upstream answered every request for %s with a server error", k)
		}
	}
}

func idList(l []MMirror) []string {
	o := []string{}
	for _, m := range l {
		o = append(o, m.ID)
	}
	return o
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func tail(s string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return strings.TrimSpace(s)
}

func (m *msim) checkReuse(run *mrun, disk bool) {
	st := m.st
	full := map[string]int{}
	for _, r := range m.up.Log[run.reqFrom:] {
		if r.Site == nil || !contains(run.ids, r.Site.Name) {
			continue
		}
		base := path.Base(r.Rel)
		isRel := contains(releaseNames, base) && !strings.Contains(r.Rel, "/binary-")
		if !isRel && len(r.Site.Repo.Spec.Mangle)+len(r.Site.Repo.Spec.Wrong) == 0 && r.Fault != "stale" && r.Fault != "next" {
			if old := run.before[r.Site.Name]; old != nil {
				truth, ok := r.Site.Repo.Get(r.Ver, r.Rel)
				have, ok2 := old.files[r.Rel]
				if sp := &r.Site.Repo.Spec; ok && (!ok2 || !bytes.Equal(have, truth)) && sp.ByHash && sp.RelSums&SumSHA256 != 0 && !sp.Flat && len(truth) > 0 && !strings.Contains(r.Rel, "/by-hash/") {
					if _, ok3 := old.files[path.Join(path.Dir(r.Rel), "by-hash/SHA256", SumsOf(truth).SHA256)]; ok3 {
						W.Violate("M10", "refetched-byhash", "%s of %s was requested although the published mirror holds its content by hash", r.Rel, r.Site.Name)
					}
				}
				if ok && ok2 && bytes.Equal(have, truth) && old.plain(r.Rel, truth) {
					W.Violate("M10", "refetched", "%s of %s was requested although the published mirror holds it unchanged", r.Rel, r.Site.Name)
				}
			}
		}
		if r.Full && !r.Bad {
			full[r.Site.Name+"\x00"+r.Rel]++
		}
	}
	hostile := false
	for _, mm := range m.p.Mirrors {
		hostile = hostile || len(mm.Repo.Hostile)+len(mm.Repo.Mangle)+len(mm.Repo.Wrong) > 0
	}
	if !disk && len(st.Pubs) == 0 && run.n.Code == 0 && len(st.SecondMs) == 0 && !hostile {
		var ks []string
		for k, n := range full {
			if n > 1 {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if m.gzFault() {
				break
			}
			W.Violate("M10", "fetched-twice", "%s was fetched completely %d times in one run", strings.Replace(k, "\x00", " ", 1), full[k])
		}
	}
	if len(full) > 0 {
		W.Probe("reuse-checked")
	}
}

// plain tells whether a by-hash file's content is the one under its plain
// name too (when upstream changes during a run, the tree may hold by-hash
// files of two generations).
func (s *snap) plain(rel string, data []byte) bool {
	i := strings.Index("/"+rel, "/by-hash/")
	if i < 0 {
		return true
	}
	dir := rel[:i]
	for p, b := range s.files {
		if strings.HasPrefix(p, dir) && !strings.Contains("/"+p[len(dir):], "/") && bytes.Equal(b, data) {
			return true
		}
	}
	return false
}

func (m *msim) gzFault() bool {
	for _, f := range m.st.Faults {
		if strings.HasPrefix(f.Kind, "redirect") {
			return true
		}
	}
	return false
}

// checkCapacity: in the fault-free tail of a run with slow answers, the
// number of requests in progress must reach max_conns.
func (m *msim) checkCapacity(run *mrun, id string, s *Site) {
	var last int64
	for _, r := range m.up.Log[run.reqFrom:] {
		if r.Site == s && r.Fault != "" && r.T1 > last {
			last = r.T1
		}
	}
	var l []*Req
	for _, r := range m.up.Log[run.reqFrom:] {
		if r.Site == s && strings.Contains(r.Rel, ".deb") && r.T0 > last+20e9 {
			l = append(l, r)
		}
	}
	if last == 0 {
		l = nil
		for _, r := range m.up.Log[run.reqFrom:] {
			if r.Site == s && strings.Contains(r.Rel, ".deb") {
				l = append(l, r)
			}
		}
	}
	if len(l) < 3*s.Limit+2 {
		return
	}
	W.Probe("capacity-checked")
	peak := 0
	for _, a := range l {
		n := 0
		for _, b := range m.up.Log[run.reqFrom:] {
			if b.Site == s && b.T0 <= a.T0 && b.T1 > a.T0 {
				n++
			}
		}
		peak = max(peak, n)
	}
	if peak < s.Limit {
		W.Violate("M09", "capacity-lost", "at most %d downloads of %s run in parallel although max_conns is %d and %d files were waiting", peak, id, s.Limit, len(l))
	}
}
