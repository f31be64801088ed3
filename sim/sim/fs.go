package sim

import (
	"fmt"
	"sort"
	"strings"
	"syscall"
)

// In-memory file system with page-cache/durable separation.

const (
	tFile = 'f'
	tDir  = 'd'
	tLink = 'l'
)

type Inode struct {
	Ino    uint64
	Typ    byte
	Mode   uint32
	Data   []byte
	Nlink  int
	Target string // symlink
	Mtime  int64

	// durable content of a file
	SyncData []byte
	Synced   bool // Data == SyncData
	Ever     bool // fsynced at least once (or came from a crash image)

	// directories
	Ents   map[string]*Inode
	Parent *Inode
	PName  string
	pend   []*dirOp

	flockX *OpenFile
	flockS map[*OpenFile]bool
	flockQ WaitQ
	opens  int
}

// dirOp is one not yet durable change of a directory entry. old is the
// entry before the change (nil: none), new the entry after it.
type dirOp struct {
	seq  uint64
	name string
	old  *Inode
	new  *Inode
	// rename inside one directory: second name changed by the same op
	name2 string
	old2  *Inode
	new2  *Inode
	peer  *dirOp // rename across directories
	dir   *Inode
}

type OpenFile struct {
	ino    *Inode
	flags  int
	pos    int64
	path   string
	node   *Node
	fd     int
	refs   int
	dents  []dent
	dpos   int
	closed bool
}

type dent struct {
	name string
	ino  *Inode
}

// FSEvent describes a mutation that has just been applied.
type FSEvent struct {
	Op    string // create write truncate chmod link symlink rename unlink rmdir mkdir fsync
	Node  *Node
	Dir   *Inode // directory whose entry changed
	Name  string
	Path  string // absolute path of the entry (entries) or of the opened name (data)
	Ino   *Inode // inode created, changed or removed
	Old   *Inode // entry replaced by a rename
	Dir2  *Inode // rename: source directory
	Path2 string // rename: source path; link: existing path
}

type FS struct {
	Root     *Inode
	nextIno  uint64
	opSeq    uint64 // directory operations
	commit   uint64 // last operation a journal commit covers
	Observer []func(*FSEvent)
	Gate     func(n *Node, class, path string, mutating bool) syscall.Errno // fault injection; may kill
	WriteCap func(n *Node, path string, want int) (int, syscall.Errno)
	FsyncLat func(n *Node) int64
	Limit    int64 // bytes; 0 none
	used     int64
	dentSeed uint64
	Muts     uint64
}

func NewFS() *FS {
	f := &FS{dentSeed: 1}
	f.Root = f.newInode(tDir, 0755)
	f.Root.Parent = f.Root
	return f
}

func (f *FS) newInode(t byte, mode uint32) *Inode {
	f.nextIno++
	in := &Inode{Ino: f.nextIno + 1000, Typ: t, Mode: mode, Mtime: Now()}
	if t == tDir {
		in.Ents = map[string]*Inode{}
	}
	return in
}

// Path returns the absolute path of a directory (or of a file by parent+name).
func (in *Inode) Path() string {
	if in.Parent == in {
		return "/"
	}
	if in.Parent == nil {
		return "?"
	}
	p := in.Parent.Path()
	if p == "/" {
		return "/" + in.PName
	}
	return p + "/" + in.PName
}

func join(d *Inode, name string) string {
	p := d.Path()
	if p == "/" {
		return "/" + name
	}
	return p + "/" + name
}

func splitPath(p string) []string {
	var l []string
	for _, c := range strings.Split(p, "/") {
		if c == "" || c == "." {
			continue
		}
		l = append(l, c)
	}
	return l
}

type walkRes struct {
	dir  *Inode // directory holding the last component
	name string
	ino  *Inode // nil: does not exist
}

// walk resolves p. follow says whether a final symlink is followed.
func (f *FS) walk(base *Inode, p string, follow bool) (walkRes, syscall.Errno) {
	if p == "" {
		return walkRes{}, syscall.ENOENT
	}
	if len(p) >= 4096 {
		return walkRes{}, syscall.ENAMETOOLONG
	}
	if strings.IndexByte(p, 0) >= 0 {
		return walkRes{}, syscall.EINVAL
	}
	mustDir := strings.HasSuffix(p, "/") || strings.HasSuffix(p, "/.")
	cur := base
	if cur == nil || p[0] == '/' {
		cur = f.Root
	}
	comps := splitPath(p)
	if len(comps) == 0 {
		return walkRes{cur, ".", cur}, 0
	}
	links := 0
	for i := 0; i < len(comps); i++ {
		c := comps[i]
		if len(c) > 255 {
			return walkRes{}, syscall.ENAMETOOLONG
		}
		if cur.Typ != tDir {
			return walkRes{}, syscall.ENOTDIR
		}
		last := i == len(comps)-1
		if c == ".." {
			cur = cur.Parent
			if last {
				return walkRes{cur, ".", cur}, 0
			}
			continue
		}
		n := cur.Ents[c]
		if n == nil {
			if last {
				return walkRes{cur, c, nil}, 0
			}
			return walkRes{}, syscall.ENOENT
		}
		if n.Typ == tLink && (!last || follow || mustDir) {
			links++
			if links > 40 {
				return walkRes{}, syscall.ELOOP
			}
			t := splitPath(n.Target)
			if strings.HasPrefix(n.Target, "/") {
				cur = f.Root
			}
			rest := append([]string{}, comps[i+1:]...)
			comps = append(append([]string{}, t...), rest...)
			i = -1
			if len(comps) == 0 {
				return walkRes{cur, ".", cur}, 0
			}
			continue
		}
		if last {
			if mustDir && n.Typ != tDir {
				return walkRes{}, syscall.ENOTDIR
			}
			return walkRes{cur, c, n}, 0
		}
		cur = n
	}
	return walkRes{cur, ".", cur}, 0
}

// Stat resolves a path following links (harness use).
func (f *FS) Stat(p string) *Inode {
	r, e := f.walk(nil, p, true)
	if e != 0 {
		return nil
	}
	return r.ino
}

func (f *FS) Lstat(p string) *Inode {
	r, e := f.walk(nil, p, false)
	if e != 0 {
		return nil
	}
	return r.ino
}

// ReadFile reads a file (harness use).
func (f *FS) ReadFile(p string) ([]byte, bool) {
	in := f.Stat(p)
	if in == nil || in.Typ != tFile {
		return nil, false
	}
	return in.Data, true
}

// MkdirAll and WriteFile create durable files (harness use: initial state).
func (f *FS) MkdirAll(p string) *Inode {
	cur := f.Root
	for _, c := range splitPath(p) {
		n := cur.Ents[c]
		if n == nil {
			n = f.newInode(tDir, 0755)
			n.Parent, n.PName = cur, c
			n.Nlink = 1
			cur.Ents[c] = n
		}
		cur = n
	}
	return cur
}

func (f *FS) WriteFile(p string, data []byte) *Inode {
	i := strings.LastIndexByte(p, '/')
	d := f.MkdirAll(p[:i])
	n := f.newInode(tFile, 0644)
	n.Data = data
	n.SyncData = data
	n.Synced, n.Ever = true, true
	n.Nlink = 1
	if o := d.Ents[p[i+1:]]; o != nil {
		f.unref(o)
	}
	d.Ents[p[i+1:]] = n
	f.used += int64(len(data))
	return n
}

// Remove takes a file away (harness use).
func (f *FS) Remove(p string) {
	i := strings.LastIndexByte(p, '/')
	if d := f.Stat(p[:i]); d != nil && d.Ents[p[i+1:]] != nil {
		f.unref(d.Ents[p[i+1:]])
		delete(d.Ents, p[i+1:])
	}
}

// List returns sorted names of a directory (harness use).
func (f *FS) List(p string) []string {
	in := f.Stat(p)
	if in == nil || in.Typ != tDir {
		return nil
	}
	return in.Names()
}

func (in *Inode) Names() []string {
	l := make([]string, 0, len(in.Ents))
	for n := range in.Ents {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// Walk visits every entry below d in name order.
func (d *Inode) Walk(rel string, fn func(rel string, in *Inode)) {
	for _, n := range d.Names() {
		in := d.Ents[n]
		r := n
		if rel != "" {
			r = rel + "/" + n
		}
		fn(r, in)
		if in.Typ == tDir {
			in.Walk(r, fn)
		}
	}
}

// ---- entry changes ----

func (f *FS) setEnt(d *Inode, name string, n *Inode) *dirOp {
	f.opSeq++
	op := &dirOp{seq: f.opSeq, name: name, old: d.Ents[name], new: n, dir: d}
	if n == nil {
		delete(d.Ents, name)
	} else {
		d.Ents[name] = n
		if n.Typ == tDir {
			n.Parent, n.PName = d, name
		}
	}
	d.Mtime = Now()
	d.pend = append(d.pend, op)
	return op
}

func (f *FS) unref(n *Inode) {
	n.Nlink--
	if n.Nlink <= 0 && n.opens == 0 && n.Typ == tFile {
		f.used -= int64(len(n.Data))
	}
}

func (f *FS) emit(ev *FSEvent) {
	f.Muts++
	for _, o := range f.Observer {
		o(ev)
	}
}

// setData replaces the content of a file.
func (f *FS) setData(in *Inode, data []byte) {
	f.used += int64(len(data)) - int64(len(in.Data))
	in.Data = data
	in.Synced = false
	in.Mtime = Now()
}

func (f *FS) syncFile(in *Inode) {
	if in.Synced {
		return
	}
	f.commit = f.opSeq
	in.SyncData = append([]byte(nil), in.Data...)
	in.Synced, in.Ever = true, true
}

func dropOp(d *Inode, op *dirOp) {
	for i, o := range d.pend {
		if o == op {
			d.pend = append(d.pend[:i:i], d.pend[i+1:]...)
			return
		}
	}
}

func (f *FS) syncDir(d *Inode) {
	for _, op := range d.pend {
		if op.peer != nil {
			dropOp(op.peer.dir, op.peer)
		}
	}
	d.pend = nil
	f.commit = f.opSeq
}

// closeAll closes the descriptors of an ended process.
func (f *FS) closeAll(n *Node) {
	fds := make([]int, 0, len(n.fds))
	for fd := range n.fds {
		fds = append(fds, fd)
	}
	sort.Ints(fds)
	for _, fd := range fds {
		f.closeFD(n, fd)
	}
}

func (f *FS) closeFD(n *Node, fd int) {
	of := n.fds[fd]
	delete(n.fds, fd)
	of.refs--
	if of.refs > 0 {
		return
	}
	of.closed = true
	f.unflock(of)
	of.ino.opens--
	if of.ino.opens == 0 && of.ino.Nlink <= 0 && of.ino.Typ == tFile {
		f.used -= int64(len(of.ino.Data))
	}
}

func (f *FS) unflock(of *OpenFile) {
	in := of.ino
	if in.flockX == of {
		in.flockX = nil
		in.flockQ.WakeAll()
	}
	if in.flockS[of] {
		delete(in.flockS, of)
		in.flockQ.WakeAll()
	}
}

// ---- power loss ----

// CrashMode says what survives a power loss.
type CrashMode struct {
	Seed    uint64
	Ordered bool // one global journal prefix instead of per-directory prefixes
	Keep    int  // 0: as it comes, 1: nearly everything
}

// Crash applies a power loss: every process must have been ended before.
func (f *FS) Crash(m CrashMode) {
	r := NewRand(m.Seed)
	// collect directories reachable now or through pending ops
	seen := map[*Inode]bool{}
	var dirs []*Inode
	files := map[*Inode]bool{}
	var fl []*Inode
	var visit func(in *Inode)
	visit = func(in *Inode) {
		if in == nil {
			return
		}
		if in.Typ != tDir {
			if !files[in] {
				files[in] = true
				fl = append(fl, in)
			}
			return
		}
		if seen[in] {
			return
		}
		seen[in] = true
		dirs = append(dirs, in)
		for _, n := range in.Names() {
			visit(in.Ents[n])
		}
		for _, op := range in.pend {
			visit(op.old)
			visit(op.new)
			visit(op.old2)
			visit(op.new2)
		}
	}
	visit(f.Root)
	lost, kept := 0, 0
	cut := uint64(0)
	if m.Ordered {
		var seqs []uint64
		for _, d := range dirs {
			for _, op := range d.pend {
				seqs = append(seqs, op.seq)
			}
		}
		sort.Slice(seqs, func(i, j int) bool { return seqs[i] < seqs[j] })
		n := pickKeep(r, m.Keep, len(seqs))
		if n > 0 {
			cut = seqs[n-1]
		}
		if cut < f.commit {
			cut = f.commit
		}
	}
	undo := map[*dirOp]bool{}
	for _, d := range dirs {
		n := 0
		if m.Ordered {
			for n < len(d.pend) && d.pend[n].seq <= cut {
				n++
			}
		} else {
			n = pickKeep(r, m.Keep, len(d.pend))
		}
		kept += n
		lost += len(d.pend) - n
		for _, op := range d.pend[n:] {
			undo[op] = true
		}
	}
	// a rename across directories: the removal happens only with the insertion
	for _, d := range dirs {
		for i, op := range d.pend {
			if op.peer != nil && op.new == nil && undo[op.peer] && !undo[op] {
				for _, o := range d.pend[i:] {
					undo[o] = true
				}
				break
			}
		}
	}
	for _, d := range dirs {
		for i := len(d.pend) - 1; i >= 0; i-- {
			op := d.pend[i]
			if !undo[op] {
				break
			}
			put := func(name string, n *Inode) {
				if n == nil {
					delete(d.Ents, name)
				} else {
					d.Ents[name] = n
				}
			}
			put(op.name, op.old)
			if op.name2 != "" {
				put(op.name2, op.old2)
			}
		}
		d.pend = nil
	}
	// file contents
	dmg := 0
	for _, in := range fl {
		if in.Typ != tFile {
			continue
		}
		if !in.Synced {
			old := in.SyncData
			if !in.Ever {
				old = nil
			}
			switch r.N(5) {
			case 0, 1:
				in.Data = old
			case 2:
				// size updated, data not written
				z := make([]byte, len(in.Data))
				copy(z, old)
				in.Data = z
			case 3:
				in.Data = append([]byte(nil), in.Data[:r.N(len(in.Data)+1)]...)
			case 4:
			}
			dmg++
		}
		in.SyncData = in.Data
		in.Synced, in.Ever = true, true
		in.Nlink, in.opens = 0, 0
		in.flockX, in.flockS = nil, nil
	}
	// recompute links and parents; directories no longer reachable vanish
	f.used = 0
	var re func(d *Inode)
	re = func(d *Inode) {
		for _, n := range d.Names() {
			c := d.Ents[n]
			c.Nlink++
			if c.Typ == tDir {
				c.Parent, c.PName = d, n
				re(c)
			} else if c.Nlink == 1 {
				f.used += int64(len(c.Data))
			}
		}
	}
	for _, d := range dirs {
		d.Nlink = 0
		d.flockX, d.flockS = nil, nil
	}
	re(f.Root)
	W.Fault("power-loss")
	if lost > 0 {
		W.Fault("lost-dir-entries")
	}
	if dmg > 0 {
		W.Fault("lost-unsynced-data")
	}
	W.Logf("power loss ordered=%v kept=%d lost=%d unsynced-files=%d", m.Ordered, kept, lost, dmg)
}

func pickKeep(r *Rand, keep, n int) int {
	if n == 0 {
		return 0
	}
	switch r.N(4) {
	case 0:
		return 0
	case 1:
		if keep > 0 {
			return n
		}
		return r.N(n + 1)
	default:
		return r.N(n + 1)
	}
}

// Dump lists the tree (debugging).
func (f *FS) Dump() string {
	var b strings.Builder
	f.Root.Walk("", func(rel string, in *Inode) {
		fmt.Fprintf(&b, "%c %o %8d /%s %s\n", in.Typ, in.Mode, len(in.Data), rel, in.Target)
	})
	return b.String()
}
