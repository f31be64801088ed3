package sim

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/cybozu-go/aptutil/apt"
	"github.com/cybozu-go/aptutil/cacher"
	"github.com/ulikunitz/xz"
)

// Library level workloads: goroutines of one simulated process call the
// exported functions of packages apt and cacher with faulty and slow streams
// and files, concurrently.

// LPlan is a library level scenario.
type LPlan struct {
	Repo    RepoSpec   `json:"repo,omitempty"`
	Threads []*LThr    `json:"threads,omitempty"` // extract and copy jobs
	Store   *LStore    `json:"store,omitempty"`
	FS      []*FSFault `json:"fs,omitempty"`
}

// LThr is one goroutine.
type LThr struct {
	At   int     `json:"at,omitempty"`
	Jobs []*LJob `json:"jobs,omitempty"`
	Ops  []*LOp  `json:"ops,omitempty"`
}

// LStream describes how a stream behaves.
type LStream struct {
	Via   string `json:"via,omitempty"`   // "" scripted reader or writer, file: simulated file, bytes: bytes.Reader
	Chunk int    `json:"chunk,omitempty"` // largest read (0: whatever fits); negative: random up to -Chunk
	Seed  uint64 `json:"seed,omitempty"`
	Zero  bool   `json:"zero,omitempty"` // some reads return 0, nil
	Slow  int    `json:"slow,omitempty"` // microseconds between reads
	Fail  string `json:"fail,omitempty"` // err, unexpected, once (then goes on), eof (ends early), short (writers)
	At    int    `json:"at,omitempty"`   // byte position of the failure, in 1/1000000 of the length
	Snap  bool   `json:"snap,omitempty"` // eof: at the end of an entry
	With  bool   `json:"with,omitempty"` // the error comes together with data
}

// LJob is one call of ExtractFileInfo or CopyWithFileInfo.
type LJob struct {
	Kind   string   `json:"kind"` // extract copy
	File   int      `json:"file,omitempty"`
	Ver    int      `json:"ver,omitempty"`
	Ext    string   `json:"ext,omitempty"`
	Long   int      `json:"long,omitempty"`   // length of an inserted field
	Mangle uint64   `json:"mangle,omitempty"` // damaged content: only compared with an undisturbed read
	Size   int      `json:"size,omitempty"`   // copy
	Path   string   `json:"path,omitempty"`   // copy
	Src    LStream  `json:"src"`
	Dst    *LStream `json:"dst,omitempty"`
}

type stream struct {
	d    []byte
	s    LStream
	r    *Rand
	pos  int
	fail int
	done bool
	zero int
	hit  bool
}

var errStream = errors.New("simulated stream failure")

func newStream(d []byte, s LStream) *stream {
	x := &stream{d: d, s: s, r: NewRand(s.Seed), fail: -1}
	if s.Fail != "" {
		x.fail = s.At
	}
	return x
}

func (x *stream) failure() error {
	x.hit = true
	switch x.s.Fail {
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "eof":
		return io.EOF
	}
	return errStream
}

func (x *stream) Read(p []byte) (int, error) {
	runtime.SimEnter()
	defer runtime.SimLeave()
	if x.s.Slow > 0 {
		Sleep(time.Duration(x.s.Slow) * time.Microsecond)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if x.s.Zero && x.zero < 3 && x.r.P(0.2) {
		x.zero++
		return 0, nil
	}
	x.zero = 0
	n := len(p)
	switch c := x.s.Chunk; {
	case c > 0:
		n = min(n, c)
	case c < 0:
		n = min(n, 1+x.r.N(-c))
	}
	end := len(x.d)
	if x.fail >= 0 && !x.done {
		end = x.fail
	}
	n = copy(p[:n], x.d[x.pos:end])
	x.pos += n
	if x.pos < end {
		return n, nil
	}
	if x.fail >= 0 && !x.done {
		if n > 0 && !x.s.With {
			return n, nil
		}
		x.done = x.s.Fail == "once"
		W.Fault("stream-" + x.s.Fail)
		return n, x.failure()
	}
	if n > 0 && !x.s.With {
		return n, nil
	}
	return n, io.EOF
}

// sink is a scripted writer.
type sink struct {
	b    bytes.Buffer
	s    LStream
	r    *Rand
	fail int
	hit  bool
}

func (x *sink) Write(p []byte) (int, error) {
	runtime.SimEnter()
	defer runtime.SimLeave()
	if x.s.Slow > 0 {
		Sleep(time.Duration(x.s.Slow) * time.Microsecond)
	}
	if x.fail >= 0 && x.b.Len()+len(p) > x.fail && !(x.s.Fail == "once" && x.hit) {
		n := x.fail - x.b.Len()
		if x.s.Fail == "zero" {
			n = 0
		}
		n = max(0, min(n, len(p)))
		x.hit = true
		x.b.Write(p[:n])
		W.Fault("sink-" + x.s.Fail)
		if x.s.Fail == "short" && n < len(p) {
			return n, nil
		}
		return n, errStream
	}
	return x.b.Write(p)
}

type lsim struct {
	p     *LPlan
	plan  *Plan
	gate  *Gate
	node  *Node
	repo  *Repo
	metas []string
}

func ExecLib(p *Plan) {
	BudgetProps = "C09,A01,A02"
	l := &lsim{p: p.L, plan: p}
	W.FS.dentSeed = p.Seed
	l.gate = &Gate{OnPower: func(CrashMode) {}, Faults: p.L.FS}
	l.gate.install(W.FS)
	if p.L.Store != nil {
		(&lstore{lsim: l, s: p.L.Store}).run()
		return
	}
	l.repo = NewRepo(p.L.Repo)
	seen := map[string]bool{}
	for v := 0; v < 2; v++ {
		for f := range l.repo.Version(v).Files {
			if k := lkind(f); k != "" && !seen[strings.TrimSuffix(f, ext(path.Base(f)))] && ext(path.Base(f)) != ".lzma" {
				f = strings.TrimSuffix(f, ext(path.Base(f)))
				seen[f] = true
				l.metas = append(l.metas, f)
			}
		}
	}
	sort.Strings(l.metas)
	W.FS.MkdirAll("/w")
	l.process("lib", p.L.Threads, func(t int, th *LThr) {
		for i, j := range th.Jobs {
			if j.Kind == "copy" {
				l.copyJob(t, i, j)
			} else {
				l.extractJob(t, i, j)
			}
		}
	})
}

// lkind is the kind of a list.
func lkind(f string) string {
	b := path.Base(f)
	b = strings.TrimSuffix(b, ext(b))
	switch b {
	case "Release", "InRelease", "Packages", "Sources", "Index":
		return b
	}
	return ""
}

// process runs one goroutine per thread in a new simulated process.
func (l *lsim) process(name string, thr []*LThr, f func(t int, th *LThr)) bool {
	l.node = W.StartNode(name, func() {
		ch := make(chan int)
		for t, th := range thr {
			go func() {
				runtime.SimEnter()
				Sleep(time.Duration(th.At) * time.Microsecond)
				f(t, th)
				real(func() { ch <- t })
			}()
		}
		for range thr {
			<-ch
		}
	})
	l.gate.Node = l.node
	if !W.WaitExit(l.node, 2*time.Hour) {
		W.Violate("C09,A01,A02", "lib-stuck", "calls have not returned after two simulated hours")
		return false
	}
	if l.node.Code == -2 {
		W.Violate("C09,A01,A02"+runtimeCheck(l.node.Panic), "lib-panic:"+l.node.PanicSite(), "panic: %s", l.node.Panic)
		return false
	}
	return true
}

// real runs code of the program; everything else in this file is invisible
// to the race detector.
func real(f func()) {
	runtime.SimLeave()
	f()
	runtime.SimEnter()
}

func toListed(fi *apt.FileInfo) Listed {
	h := func(p string, n int) string {
		s := path.Base(p)
		if len(s) != n {
			return ""
		}
		return s
	}
	return Listed{Path: fi.Path(), Size: int(fi.Size()), MD5: h(fi.MD5SumPath(), 32), SHA1: h(fi.SHA1Path(), 40), SHA256: h(fi.SHA256Path(), 64)}
}

func listKey(l []Listed) string {
	var o []string
	for _, x := range l {
		o = append(o, x.key())
	}
	sort.Strings(o)
	return strings.Join(o, "\n")
}

func infosOf(fis []*apt.FileInfo) []Listed {
	var o []Listed
	for _, fi := range fis {
		o = append(o, toListed(fi))
	}
	return o
}

// reader opens the source of a job.
func (l *lsim) reader(name string, d []byte, s LStream) (r io.Reader, hit func() bool, done func()) {
	switch s.Via {
	case "file":
		if s.Fail == "eof" {
			d = d[:s.At]
		}
		W.FS.WriteFile(name, d)
		f, err := os.Open(name)
		if err != nil {
			return nil, nil, nil
		}
		n := l.gate.Fired
		return f, func() bool { return l.gate.Fired > n }, func() { f.Close() }
	case "bytes":
		return bytes.NewReader(d), func() bool { return false }, func() {}
	}
	x := newStream(d, s)
	return x, func() bool { return x.hit }, func() {}
}

// xzBlocks compresses d in blocks of at most n bytes.
func xzBlocks(d []byte, n int) []byte {
	var o bytes.Buffer
	w, err := xz.WriterConfig{DictCap: 1 << 16, BlockSize: int64(n)}.NewWriter(&o)
	if err != nil {
		Die("xz: %v", err)
	}
	w.Write(d)
	w.Close()
	return o.Bytes()
}

// addLong inserts a long field into every paragraph.
func addLong(b []byte, n int) []byte {
	var o []string
	first := true
	for _, ln := range strings.Split(string(b), "\n") {
		o = append(o, ln)
		if first && (strings.HasPrefix(ln, "Package:") || strings.HasPrefix(ln, "Origin:") || strings.HasPrefix(ln, "Suite:") || strings.HasPrefix(ln, "Codename:")) {
			o = append(o, "X-Long: "+strings.Repeat("l", n))
			first = false
		}
	}
	return []byte(strings.Join(o, "\n"))
}

func (l *lsim) extractJob(t, i int, j *LJob) {
	if len(l.metas) == 0 {
		return
	}
	base := l.metas[j.File%len(l.metas)]
	v := l.repo.Version(j.Ver)
	var plain []byte
	for _, e := range []string{"", ".gz", ".xz", ".bz2"} {
		if b, ok := v.Files[base+e]; ok {
			if d, ok := uncompress(base+e, b); ok {
				plain = d
				break
			}
		}
	}
	if plain == nil {
		return
	}
	if j.Long > 0 {
		plain = addLong(plain, j.Long)
	}
	if j.Mangle != 0 {
		plain = Mangle(j.Mangle, plain)
	}
	p := base + j.Ext
	parts := 1
	if x := NewRand(j.Src.Seed).Fork("parts"); x.P(0.3) {
		parts = x.Range(2, 4)
	}
	data := compressN(j.Ext, plain, parts)
	if j.Ext == ".xz" && j.Src.Snap && len(plain) < 5000 {
		data = xzBlocks(plain, 50+int(j.Src.Seed%400))
	}
	read := func(pp string, d []byte) ([]Listed, bool) {
		if k := lkind(pp); k == "Packages" || k == "Sources" {
			return ReadIndex(base, d), false
		}
		return ReadRelease(base, d)
	}
	want, byhash := read(p, plain)
	src := j.Src
	src.At = int(int64(len(data)) * int64(src.At) / 1000000)
	if src.Snap && j.Ext == "" {
		sep := "\n"
		if k := lkind(p); k == "Packages" || k == "Sources" {
			sep = "\n\n"
		}
		src.At = bytes.LastIndex(data[:src.At], []byte(sep)) + len(sep)
		if src.At < len(sep) {
			src.At = 0
		}
	}
	if src.Snap && j.Ext == ".xz" && len(data) < 5000 && src.Fail == "eof" {
		// between two blocks
		for c := src.At &^ 3; c >= 12; c -= 4 {
			if _, ok := uncompress(".xz", data[:c]); ok {
				W.Probe("xz-block-cut")
				src.At = c
				break
			}
		}
	}
	if parts > 1 && src.Fail == "eof" && src.At > 0 && (j.Ext == ".gz" || j.Ext == ".bz2") {
		// data that end between two parts look like complete data
		for src.At > 0 {
			if _, ok := uncompress(j.Ext, data[:src.At]); !ok {
				break
			}
			src.At--
		}
	}
	if j.Mangle != 0 {
		// the undisturbed call tells what is expected
		var fis []*apt.FileInfo
		var err error
		real(func() { fis, _, err = apt.ExtractFileInfo(p, bytes.NewReader(data)) })
		if err != nil {
			W.Probe("damaged-rejected")
			if j.Src.Fail != "" || j.Src.Via == "file" {
				return
			}
			r, _, done := l.reader("", data, src)
			var err2 error
			real(func() { _, _, err2 = apt.ExtractFileInfo(p, r) })
			done()
			if err2 == nil {
				W.Violate("A01", "fragments-accepted", "%s is rejected when read at once (%v) but accepted when read in pieces", p, err)
			}
			return
		}
		want = infosOf(fis)
	}
	r, hit, done := l.reader(fmt.Sprintf("/w/%d.%d", t, i), data, src)
	if r == nil {
		return
	}
	var fis []*apt.FileInfo
	var para apt.Paragraph
	var err error
	real(func() { fis, para, err = apt.ExtractFileInfo(p, r) })
	failed := hit()
	done()
	W.Logf("extract %s %d bytes, %s: %d entries, failed=%v err=%v", p, len(data), j.Src.Via, len(fis), failed, err)
	got := infosOf(fis)
	eof := j.Src.Fail == "eof"
	switch {
	case err != nil:
		if !failed && !eof {
			W.Violate("A01", "extract-error", "reading %s (%d bytes, %d entries) in pieces without any failure: %v", p, len(data), len(want), err)
			return
		}
		W.Probe("extract-failed")
	case listKey(got) == listKey(want):
		if failed || eof {
			W.Probe("extract-whole-despite-failure")
		} else {
			W.Probe("extract-ok")
		}
		if j.Mangle == 0 {
			if k := lkind(p); k == "Release" || k == "InRelease" {
				if apt.SupportByHash(para) != byhash && !failed && !eof {
					W.Violate("A01", "fields-lost", "reading %s in pieces lost the field Acquire-By-Hash", p)
				}
			}
		}
	case eof && j.Ext == "":
		// an early end of plain data looks like a shorter file: exactly the
		// entries before the cut, if it is at the end of one
		cut := plain[:src.At]
		if j.Mangle != 0 || len(cut) > 0 && cut[len(cut)-1] != '\n' {
			return
		}
		if k := lkind(p); (k == "Packages" || k == "Sources") && !bytes.HasSuffix(cut, []byte("\n\n")) {
			return
		}
		part, _ := read(p, cut)
		W.Probe("extract-cut")
		if listKey(part) != listKey(got) {
			W.Violate("A01", "cut-list", "reading the first %d of %d bytes of %s gave %d entries instead of %d", len(cut), len(plain), p, len(got), len(part))
		}
	default:
		W.Violate("A01", "list-differs", "reading %s (%d bytes, failure %q injected: %v) gave %d entries and no error; the file lists %d", p, len(data), j.Src.Fail, failed || eof, len(got), len(want))
	}
}

func (l *lsim) copyJob(t, i int, j *LJob) {
	data := Bytes(fmt.Sprint("copy", j.Src.Seed), j.Size)
	src := j.Src
	src.At = int(int64(len(data)) * int64(src.At) / 1000000)
	r, hit, done := l.reader(fmt.Sprintf("/w/s%d.%d", t, i), data, src)
	if r == nil {
		return
	}
	defer done()
	end := data
	if j.Src.Fail == "eof" {
		end = data[:src.At]
	}
	var w io.Writer
	var got func() []byte
	var dstHit func() bool
	if j.Dst.Via == "file" {
		name := fmt.Sprintf("/w/d%d.%d", t, i)
		f, err := os.Create(name)
		if err != nil {
			return
		}
		defer f.Close()
		n := l.gate.Fired
		w, got, dstHit = f, func() []byte { b, _ := W.FS.ReadFile(name); return b }, func() bool { return l.gate.Fired > n }
	} else {
		x := &sink{s: *j.Dst, r: NewRand(j.Dst.Seed), fail: -1}
		if j.Dst.Fail != "" {
			x.fail = int(int64(len(end)) * int64(j.Dst.At) / 1000000)
		}
		w, got, dstHit = x, x.b.Bytes, func() bool { return x.hit }
	}
	var fi *apt.FileInfo
	var err error
	real(func() { fi, err = apt.CopyWithFileInfo(w, r, j.Path) })
	srcFailed := hit() && (j.Src.Fail != "eof" || j.Src.Via == "file")
	dstFailed := dstHit()
	out := append([]byte(nil), got()...)
	W.Logf("copy %d bytes: err=%v srcfail=%v dstfail=%v out=%d", len(data), err, srcFailed, dstFailed, len(out))
	scripted := j.Src.Via != "file" && j.Dst.Via != "file"
	switch {
	case err != nil:
		W.Probe("copy-failed")
		if fi != nil {
			W.Violate("A02", "info-with-error", "copying %d bytes failed (%v) and still returned file information", len(data), err)
		}
		if !srcFailed && !dstFailed {
			W.Violate("A02", "copy-error", "copying %d bytes without any failure: %v", len(end), err)
		}
	case scripted && (srcFailed || dstFailed):
		W.Violate("A02", "copy-failure-lost", "copying %d bytes (source failure %q: %v, destination failure %q: %v) reported success", len(data), j.Src.Fail, srcFailed, j.Dst.Fail, dstFailed)
	case fi == nil:
		W.Violate("A02", "copy-no-info", "copying returned neither information nor an error")
	default:
		W.Probe("copy-ok")
		s := SumsOf(end)
		g := toListed(fi)
		if !bytes.Equal(out, end) {
			W.Violate("A02", "copy-differs", "copying %d bytes reported success but %d bytes reached the destination (equal prefix %d)", len(end), len(out), commonPrefix(out, end))
		} else if g.Path != j.Path || g.Size != s.Size || g.MD5 != s.MD5 || g.SHA1 != s.SHA1 || g.SHA256 != s.SHA256 {
			W.Violate("A02", "copy-info", "information returned for a copy of %d bytes does not describe them: %+v instead of %s %+v", len(end), g, j.Path, s)
		}
	}
}

func commonPrefix(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

// ---- the item store ----

// LOp is one call of a cacher.Storage.
type LOp struct {
	Op   string `json:"op"` // insert lookup delete list
	P    int    `json:"p,omitempty"`
	V    int    `json:"v,omitempty"`
	Gap  int    `json:"gap,omitempty"`  // microseconds before the call
	Slow int    `json:"slow,omitempty"` // microseconds between reads or writes
	Bad  string `json:"bad,omitempty"`  // insert: path that must be refused
}

// LPhase is the life of one process.
type LPhase struct {
	Cap    int           `json:"cap"` // bytes, 0: none
	Thr    []*LThr       `json:"thr"`
	FS     []*FSFault    `json:"fs,omitempty"`
	Crash  []*CrashPoint `json:"crash,omitempty"`
	Reload bool          `json:"reload,omitempty"` // Load is called a second time at the end
}

// LStore is a history of a store directory.
type LStore struct {
	Sizes  [][]int   `json:"sizes"` // of each version of each path
	Phases []*LPhase `json:"phases"`
}

var storePaths = []string{"a", "b/c", "b/d", "pool/x_1.deb", "dists/s/Release", "b", "e.cache", "p/q/r/s"}

const storeDir = "/store"

type lop struct {
	thr      int
	op       *LOp
	inv, ret uint64
	res      string
	list     string
}

type lstore struct {
	*lsim
	s     *LStore
	st    *cacher.Storage
	ops   []*lop
	open  int
	ev    uint64
	ph    *LPhase
	ready chan struct{}
	bad   bool // disk faults fired in this phase
	over  bool
}

func (l *lstore) content(p, v int) []byte {
	return Bytes(fmt.Sprint("item", p, "/", v), l.s.Sizes[p][v])
}

func (l *lstore) fi(p, v int) *apt.FileInfo {
	return infoOf(l.content(p, v), storePaths[p])
}

func infoOf(d []byte, p string) (fi *apt.FileInfo) {
	real(func() {
		var err error
		fi, err = apt.CopyWithFileInfo(io.Discard, bytes.NewReader(d), p)
		if err != nil {
			Die("copy: %v", err)
		}
	})
	return fi
}

// disk lists the stored items as path index*16+version.
func (l *lstore) disk(note bool) (items []int, total int) {
	d := W.FS.Lstat(storeDir)
	if d == nil {
		return
	}
	d.Walk("", func(rel string, in *Inode) {
		if in.Typ != tFile || !strings.HasSuffix(rel, ".cache") {
			return
		}
		rel = strings.TrimPrefix(rel, "/")
		total += len(in.Data)
		for p, n := range storePaths {
			if n+".cache" != rel {
				continue
			}
			for v := range l.s.Sizes[p] {
				if bytes.Equal(in.Data, l.content(p, v)) {
					items = append(items, p*16+v)
					return
				}
			}
		}
		if note {
			W.Violate("C09", "store-content", "%s in the store holds %d bytes that were never inserted under that path", rel, len(in.Data))
		}
	})
	sort.Ints(items)
	return
}

func (l *lstore) size(it int) int { return l.s.Sizes[it/16][it%16] }

func (l *lstore) total(s []int) int {
	n := 0
	for _, it := range s {
		n += l.size(it)
	}
	return n
}

func (l *lstore) run() {
	// versions with equal content are one
	for _, ph := range l.s.Phases {
		for _, th := range ph.Thr {
			for _, op := range th.Ops {
				for v := op.V - 1; v >= 0; v-- {
					if bytes.Equal(l.content(op.P, v), l.content(op.P, op.V)) {
						op.V = v
					}
				}
			}
		}
	}
	for i, ph := range l.s.Phases {
		l.ph, l.ops, l.ev, l.open, l.over, l.bad, l.ready = ph, nil, 0, 0, false, false, make(chan struct{})
		l.gate.Crash = ph.Crash
		l.gate.Faults = nil
		start, total := l.disk(true)
		var loaded []int
		ok := l.process(fmt.Sprintf("store%d", i), ph.Thr, func(t int, th *LThr) {
			if t == 0 {
				l.openStore(start, total, &loaded)
			} else {
				real(func() { <-l.ready })
			}
			for _, op := range th.Ops {
				l.call(t, op)
			}
		})
		l.st = nil
		if !ok {
			return
		}
		if l.node.Code == -1 {
			W.Probe("store-killed")
		}
		if loaded == nil {
			continue // ended before it was ready
		}
		l.linear(loaded[1:])
		if len(W.Viol) > 0 {
			return
		}
		if l.node.Code == 0 && !l.over && !l.bad {
			W.Probe("store-phases")
		}
	}
}

// openStore loads the directory.
func (l *lstore) openStore(start []int, total int, loaded *[]int) {
	c := uint64(l.ph.Cap)
	if cacher.SimUnit == 4096 {
		c <<= 18 // the build scales capacities down
	}
	var s *cacher.Storage
	var err error
	real(func() {
		s = cacher.NewStorage(storeDir, c)
		err = s.Load()
	})
	if err != nil {
		W.Violate("C09", "store-load", "Load: %v", err)
	}
	items, now := l.disk(true)
	left := l.total(items)
	if l.ph.Cap > 0 && now > l.ph.Cap {
		W.Violate("C09", "store-load-capacity", "after Load the files take %d bytes, the capacity is %d", now, l.ph.Cap)
	}
	if l.ph.Cap == 0 || total <= l.ph.Cap {
		if len(items) != len(start) {
			W.Violate("C09", "store-load-lost", "Load with capacity %d removed items of %d bytes in total", l.ph.Cap, total)
		}
	} else {
		W.Probe("store-load-evicts")
		// evicting stops as soon as the rest fits
		need := false
		in := map[int]bool{}
		for _, it := range items {
			in[it] = true
		}
		for _, it := range start {
			if !in[it] && left+l.size(it) > l.ph.Cap {
				need = true
			}
		}
		if !need && l.ph.Cap > 0 {
			W.Violate("C09", "store-load-purge", "Load with capacity %d kept %d of %d bytes though more fits", l.ph.Cap, left, total)
		}
	}
	*loaded = append([]int{-1}, items...)
	l.gate.Faults = l.ph.FS
	W.Logf("loaded %v", items)
	l.st = s
	real(func() { close(l.ready) })
}

func (l *lstore) call(t int, op *LOp) {
	if op.Gap > 0 {
		Sleep(time.Duration(op.Gap) * time.Microsecond)
	}
	var tmp *os.File
	var fi *apt.FileInfo
	if op.Op == "insert" {
		r := newStream(l.content(op.P, op.V), LStream{Slow: op.Slow, Chunk: 300})
		var err error
		real(func() {
			if tmp, err = l.st.TempFile(); err == nil {
				fi, err = apt.CopyWithFileInfo(tmp, r, storePaths[op.P])
			}
		})
		if tmp != nil {
			defer real(func() {
				tmp.Close()
				os.Remove(tmp.Name())
			})
		}
		if err != nil {
			return
		}
		if op.Bad != "" {
			fi = infoOf(l.content(op.P, op.V), op.Bad)
		}
	} else if op.Op == "lookup" {
		fi = l.fi(op.P, op.V)
	}
	rec := &lop{thr: t, op: op}
	l.ev++
	rec.inv, rec.ret = l.ev, ^uint64(0)
	l.ops = append(l.ops, rec)
	l.open++
	var f *os.File
	fired := l.gate.Fired
	switch op.Op {
	case "insert":
		var err error
		real(func() { err = l.st.Insert(tmp.Name(), fi) })
		switch err {
		case nil:
			rec.res = "ok"
		case cacher.ErrTooLarge:
			rec.res = "toolarge"
		case cacher.ErrBadPath:
			rec.res = "badpath"
		default:
			rec.res = "err:" + err.Error()
		}
	case "lookup":
		var err error
		real(func() { f, err = l.st.Lookup(fi) })
		switch err {
		case nil:
			rec.res = "hit"
		case cacher.ErrNotFound:
			rec.res = "miss"
		default:
			rec.res = "err:" + err.Error()
		}
	case "delete":
		rec.res = "ok"
		var err error
		real(func() { err = l.st.Delete(storePaths[op.P]) })
		if err != nil {
			rec.res = "err:" + err.Error()
		}
	case "list":
		rec.res = "list"
		var o []string
		var all []Listed
		real(func() { all = infosOf(l.st.ListAll()) })
		for _, x := range all {
			o = append(o, fmt.Sprintf("%s %d", x.Path, x.Size))
		}
		sort.Strings(o)
		rec.list = strings.Join(o, ",")
	}
	l.ev++
	rec.ret = l.ev
	l.open--
	if l.gate.Fired > fired {
		l.bad = true
	}
	W.Logf("thread %d %s %d/%d: %s", t, op.Op, op.P, op.V, rec.res+rec.list)
	if l.open == 0 && !l.bad && l.ph.Cap > 0 {
		W.Probe("store-capacity-checked")
		if _, n := l.disk(false); n > l.ph.Cap {
			l.over = true
			W.Violate("C09", "store-capacity", "after %s the files in the store take %d bytes, the capacity is %d", op.Op, n, l.ph.Cap)
		}
	}
	if f != nil {
		var b bytes.Buffer
		buf := make([]byte, 700)
		for {
			n, err := f.Read(buf)
			b.Write(buf[:n])
			if err == io.EOF {
				break
			}
			if err != nil {
				f.Close()
				return
			}
			if op.Slow > 0 {
				Sleep(time.Duration(op.Slow) * time.Microsecond)
			}
		}
		f.Close()
		W.Probe("store-hits")
		if !bytes.Equal(b.Bytes(), l.content(op.P, op.V)) {
			W.Violate("C09,C03", "store-handle", "a file returned by Lookup for %s (%d bytes) gave %d other bytes", storePaths[op.P], l.size(op.P*16+op.V), b.Len())
		}
	}
}

// lstate is the model: items from the least to the most recently used; the
// first g were found by Load and have no order among themselves.
type lstate struct {
	g  int
	it []int
}

func (s lstate) key() string { return fmt.Sprint(s.g, s.it) }

func (s lstate) without(i int) lstate {
	n := lstate{g: s.g, it: make([]int, 0, len(s.it)+1)}
	n.it = append(append(n.it, s.it[:i]...), s.it[i+1:]...)
	if i < s.g {
		n.g--
	}
	return n
}

func (s lstate) find(p int) int {
	for i, it := range s.it {
		if it/16 == p {
			return i
		}
	}
	return -1
}

// next lists the states an operation may lead to with the result it gave.
func (l *lstore) next(s lstate, o *lop) []lstate {
	p, v := o.op.P, o.op.V
	i := s.find(p)
	fault := l.bad && strings.HasPrefix(o.res, "err:")
	used := func(i int) lstate {
		n := s.without(i)
		n.it = append(n.it, s.it[i])
		return n
	}
	gone := func() lstate {
		if i < 0 {
			return s
		}
		return s.without(i)
	}
	pending := o.ret == ^uint64(0)
	switch o.op.Op {
	case "insert":
		if o.op.Bad != "" {
			if pending || o.res == "badpath" || fault {
				return []lstate{s}
			}
			return nil
		}
		large := l.ph.Cap > 0 && l.size(p*16+v) > l.ph.Cap
		if large {
			if pending || o.res == "toolarge" || fault {
				return []lstate{s}
			}
			return nil
		}
		if fault {
			return []lstate{s, gone()}
		}
		if !pending && o.res != "ok" {
			return nil
		}
		n := gone()
		n = lstate{n.g, append(n.it[:len(n.it):len(n.it)], p*16+v)}
		return l.evict(n)
	case "lookup":
		switch {
		case pending:
			if i < 0 {
				return []lstate{s}
			}
			return []lstate{s, used(i)}
		case o.res == "hit":
			if i >= 0 && s.it[i]%16 == v {
				return []lstate{used(i)}
			}
		case o.res == "miss":
			if i < 0 {
				return []lstate{s}
			}
			if s.it[i]%16 != v {
				return []lstate{s, used(i)}
			}
		case fault && i >= 0:
			return []lstate{s, used(i)}
		}
		return nil
	case "delete":
		if fault {
			return []lstate{s, gone()}
		}
		if !pending && o.res != "ok" {
			return nil
		}
		return []lstate{gone()}
	case "list":
		if pending {
			return []lstate{s}
		}
		var x []string
		for _, it := range s.it {
			x = append(x, fmt.Sprintf("%s %d", storePaths[it/16], l.size(it)))
		}
		sort.Strings(x)
		if strings.Join(x, ",") == o.list {
			return []lstate{s}
		}
		return nil
	}
	return nil
}

func (l *lstore) evict(s lstate) []lstate {
	if l.ph.Cap == 0 || l.total(s.it) <= l.ph.Cap {
		return []lstate{s}
	}
	if s.g == 0 {
		return l.evict(s.without(0))
	}
	var o []lstate
	seen := map[string]bool{}
	for i := 0; i < s.g; i++ {
		for _, x := range l.evict(s.without(i)) {
			if k := x.key(); !seen[k] {
				seen[k] = true
				o = append(o, x)
			}
		}
	}
	return o
}

// linear searches for a sequential order of the calls that explains all
// results and respects real time.
func (l *lstore) linear(start []int) {
	n := len(l.ops)
	if n == 0 {
		return
	}
	if n > 64 {
		Die("too many operations")
	}
	for i, o := range l.ops {
		for _, x := range l.ops[:i] {
			if x.thr != o.thr && x.ret > o.inv {
				W.Probe("store-overlaps")
			}
		}
	}
	sort.Ints(start)
	seen := map[string]bool{}
	nodes, deepest := 0, 0
	var stuck *lop
	var dfs func(done uint64, cnt int, s lstate) bool
	dfs = func(done uint64, cnt int, s lstate) bool {
		limit := ^uint64(0)
		rest := false
		for i, o := range l.ops {
			if done>>i&1 == 0 {
				limit = min(limit, o.ret)
				rest = rest || o.ret != ^uint64(0)
			}
		}
		if !rest {
			return true
		}
		k := fmt.Sprint(done, s.key())
		if seen[k] {
			return false
		}
		seen[k] = true
		nodes++
		if nodes > 300000 {
			return true
		}
		for i, o := range l.ops {
			if done>>i&1 == 1 || o.inv > limit {
				continue
			}
			for _, ns := range l.next(s, o) {
				if dfs(done|1<<i, cnt+1, ns) {
					return true
				}
			}
			if cnt >= deepest {
				deepest, stuck = cnt, o
			}
		}
		return false
	}
	if !dfs(0, 0, lstate{len(start), start}) {
		W.Violate("C09", "store-order", "no order of the %d calls explains their results (capacity %d); at best %d are explained, then %s %s -> %s%s", n, l.ph.Cap, deepest, stuck.op.Op, storePaths[stuck.op.P], stuck.res, stuck.list)
		return
	}
	if nodes > 300000 {
		W.Probe("store-search-limit")
	} else {
		W.Probe("store-linearized")
	}
}
