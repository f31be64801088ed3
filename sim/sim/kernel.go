package sim

import (
	"encoding/binary"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"syscall"
	"time"
	"unsafe"
)

// System call layer: every file system call of a simulated process ends up
// here instead of in the operating system.

const fdBase = 1 << 20

func curNode() *Node {
	n := W.Nodes[runtime.SimNode()]
	if n == nil {
		Die("system call from unknown process %d", runtime.SimNode())
	}
	return n
}

// enter is the common prologue: preemption point, death check, fault gate.
func enter(class, path string, mutating bool) (*Node, syscall.Errno) {
	runtime.SimYield()
	n := curNode()
	n.Ops++
	if g := W.FS.Gate; g != nil {
		if e := g(n, class, path, mutating); e != 0 {
			runtime.SimCheckDead()
			return n, e
		}
		runtime.SimCheckDead()
	}
	return n, 0
}

func errOf(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func (n *Node) dirBase(dirfd int) (*Inode, syscall.Errno) {
	if dirfd == -100 {
		return W.FS.Root, 0
	}
	of := n.fds[dirfd]
	if of == nil {
		return nil, syscall.EBADF
	}
	return of.ino, 0
}

func atPath(base *Inode, p string) string {
	if p != "" && p[0] == '/' {
		return p
	}
	return join(base, p)
}

// canon is the path used for fault matching.
func canon(n *Node, dirfd int, p string) string {
	b, e := n.dirBase(dirfd)
	if e != 0 {
		return p
	}
	return atPath(b, p)
}

func pre(dirfd int, p, class string, mut bool) (*Node, *Inode, string, syscall.Errno) {
	n0 := curNode()
	ap := canon(n0, dirfd, p)
	n, e := enter(class, ap, mut)
	if e != 0 {
		return n, nil, ap, e
	}
	b, e := n.dirBase(dirfd)
	return n, b, ap, e
}

func kOpenat(dirfd int, path string, flags int, mode uint32) (int, error) {
	class := "open"
	if flags&syscall.O_CREAT != 0 {
		class = "create"
	}
	n, base, ap, e := pre(dirfd, path, class, flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0)
	if e != 0 {
		return -1, e
	}
	f := W.FS
	follow := flags&syscall.O_NOFOLLOW == 0 && flags&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL
	w, e := f.walk(base, path, follow)
	if e != 0 {
		return -1, e
	}
	acc := flags & 3
	if w.ino == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT
		}
		if path[len(path)-1] == '/' {
			return -1, syscall.EISDIR
		}
		if f.Limit > 0 && f.used >= f.Limit {
			W.Fault("disk-full")
			return -1, syscall.ENOSPC
		}
		if w.dir.Nlink == 0 && w.dir != f.Root {
			return -1, syscall.ENOENT
		}
		in := f.newInode(tFile, mode&0777&^n.umask)
		in.Nlink = 1
		f.setEnt(w.dir, w.name, in)
		w.ino = in
		f.emit(&FSEvent{Op: "create", Node: n, Dir: w.dir, Name: w.name, Path: join(w.dir, w.name), Ino: in})
	} else {
		if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			return -1, syscall.EEXIST
		}
		if w.ino.Typ == tLink {
			return -1, syscall.ELOOP
		}
		if w.ino.Typ == tDir && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
			return -1, syscall.EISDIR
		}
		if flags&syscall.O_DIRECTORY != 0 && w.ino.Typ != tDir {
			return -1, syscall.ENOTDIR
		}
		if flags&syscall.O_TRUNC != 0 && w.ino.Typ == tFile && len(w.ino.Data) > 0 {
			f.setData(w.ino, nil)
			f.emit(&FSEvent{Op: "truncate", Node: n, Path: ap, Ino: w.ino})
		}
	}
	of := &OpenFile{ino: w.ino, flags: flags &^ (syscall.O_CREAT | syscall.O_EXCL | syscall.O_TRUNC), path: ap, node: n, refs: 1}
	w.ino.opens++
	of.fd = n.newFD(of)
	runtime.SimCheckDead()
	return of.fd, nil
}

func (n *Node) newFD(of *OpenFile) int {
	fd := fdBase
	for n.fds[fd] != nil {
		fd++
	}
	n.fds[fd] = of
	return fd
}

// OpenFDs lists the open descriptors of a process on paths below prefix.
func (n *Node) OpenFDs(prefix string) []string {
	var l []string
	for _, of := range n.fds {
		if len(of.path) >= len(prefix) && of.path[:len(prefix)] == prefix {
			l = append(l, of.path)
		}
	}
	sort.Strings(l)
	return l
}

func kClose(fd int) error {
	if fd < fdBase {
		return nil
	}
	n, e := enter("close", "", false)
	of := n.fds[fd]
	if of == nil {
		return syscall.EBADF
	}
	W.FS.closeFD(n, fd)
	return errOf(e)
}

func getFD(fd int, class string, mut bool) (*Node, *OpenFile, syscall.Errno) {
	n0 := curNode()
	of := n0.fds[fd]
	p := ""
	if of != nil {
		p = of.path
	}
	n, e := enter(class, p, mut)
	if e != 0 {
		return n, nil, e
	}
	of = n.fds[fd]
	if of == nil {
		return n, nil, syscall.EBADF
	}
	return n, of, 0
}

func kRead(fd int, p []byte) (int, error) {
	if fd < fdBase {
		return 0, nil
	}
	_, of, e := getFD(fd, "read", false)
	if e != 0 {
		return -1, e
	}
	if of.ino.Typ == tDir {
		return -1, syscall.EISDIR
	}
	if of.flags&3 == syscall.O_WRONLY {
		return -1, syscall.EBADF
	}
	if of.pos >= int64(len(of.ino.Data)) {
		return 0, nil
	}
	c := copy(p, of.ino.Data[of.pos:])
	of.pos += int64(c)
	return c, nil
}

func kPread(fd int, p []byte, off int64) (int, error) {
	_, of, e := getFD(fd, "read", false)
	if e != 0 {
		return -1, e
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	if off >= int64(len(of.ino.Data)) {
		return 0, nil
	}
	return copy(p, of.ino.Data[off:]), nil
}

func doWrite(n *Node, of *OpenFile, p []byte, off int64) (int, syscall.Errno) {
	f := W.FS
	if of.flags&3 == syscall.O_RDONLY {
		return -1, syscall.EBADF
	}
	c := len(p)
	var e syscall.Errno
	if f.WriteCap != nil {
		c, e = f.WriteCap(n, of.path, c)
	}
	if f.Limit > 0 {
		grow := off + int64(c) - int64(len(of.ino.Data))
		if grow > 0 && f.used+grow > f.Limit {
			room := f.Limit - f.used
			if room < 0 {
				room = 0
			}
			c -= int(grow - room)
			if c < 0 {
				c = 0
			}
			W.Fault("disk-full")
			if c == 0 {
				e = syscall.ENOSPC
			}
		}
	}
	if c == 0 && e != 0 {
		return -1, e
	}
	d := of.ino.Data
	old := int64(len(d))
	end := off + int64(c)
	if off == old {
		d = append(d, p[:c]...)
	} else {
		nd := make([]byte, max(old, end))
		copy(nd, d)
		copy(nd[off:], p[:c])
		d = nd
	}
	f.setDataGrown(of.ino, d, old)
	f.emit(&FSEvent{Op: "write", Node: n, Path: of.path, Ino: of.ino})
	return c, 0
}

func (f *FS) setDataGrown(in *Inode, d []byte, old int64) {
	f.used += int64(len(d)) - old
	in.Data = d
	in.Synced = false
	in.Mtime = Now()
}

func kWrite(fd int, p []byte) (int, error) {
	if fd < fdBase {
		if fd == 1 || fd == 2 {
			if len(W.Stderr) < 1<<20 {
				W.Stderr = append(W.Stderr, p...)
			}
			if W.OnOutput != nil {
				W.OnOutput(W.Nodes[runtime.SimNode()], p)
			}
			return len(p), nil
		}
		return -1, syscall.EBADF
	}
	n, of, e := getFD(fd, "write", true)
	if e != 0 {
		return -1, e
	}
	pos := of.pos
	if of.flags&syscall.O_APPEND != 0 {
		pos = int64(len(of.ino.Data))
	}
	c, e := doWrite(n, of, p, pos)
	if e != 0 {
		return -1, e
	}
	of.pos = pos + int64(c)
	return c, nil
}

func kPwrite(fd int, p []byte, off int64) (int, error) {
	n, of, e := getFD(fd, "write", true)
	if e != 0 {
		return -1, e
	}
	c, e := doWrite(n, of, p, off)
	if e != 0 {
		return -1, e
	}
	return c, nil
}

func kSeek(fd int, off int64, wh int) (int64, error) {
	_, of, e := getFD(fd, "seek", false)
	if e != 0 {
		return -1, e
	}
	switch wh {
	case 0:
	case 1:
		off += of.pos
	case 2:
		off += int64(len(of.ino.Data))
	default:
		return -1, syscall.EINVAL
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	of.pos = off
	of.dents, of.dpos = nil, 0
	return off, nil
}

func kFsync(fd int) error {
	class := "fsync"
	if of := curNode().fds[fd]; of != nil && of.ino.Typ == tDir {
		class = "fsyncdir"
	}
	n, of, e := getFD(fd, class, false)
	if e != 0 {
		return e
	}
	f := W.FS
	if f.FsyncLat != nil {
		if d := f.FsyncLat(n); d > 0 {
			time.Sleep(time.Duration(d))
			runtime.SimCheckDead()
		}
	}
	if of.ino.Typ == tDir {
		f.syncDir(of.ino)
	} else {
		f.syncFile(of.ino)
	}
	f.emit(&FSEvent{Op: "fsync", Node: n, Path: of.path, Ino: of.ino})
	return nil
}

func fillStat(in *Inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Dev = 1
	st.Ino = in.Ino
	st.Nlink = uint64(in.Nlink)
	st.Mode = in.Mode
	switch in.Typ {
	case tFile:
		st.Mode |= syscall.S_IFREG
		st.Size = int64(len(in.Data))
	case tDir:
		st.Mode |= syscall.S_IFDIR
		st.Size = 4096
	case tLink:
		st.Mode |= syscall.S_IFLNK
		st.Size = int64(len(in.Target))
	}
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	st.Mtim.Sec = in.Mtime / 1e9
	st.Mtim.Nsec = in.Mtime % 1e9
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

func kFstat(fd int, st *syscall.Stat_t) error {
	if fd < fdBase {
		*st = syscall.Stat_t{Mode: syscall.S_IFCHR | 0666}
		return nil
	}
	_, of, e := getFD(fd, "stat", false)
	if e != 0 {
		return e
	}
	fillStat(of.ino, st)
	return nil
}

func kFstatat(dirfd int, path string, st *syscall.Stat_t, flags int) error {
	_, base, _, e := pre(dirfd, path, "stat", false)
	if e != 0 {
		return e
	}
	w, e := W.FS.walk(base, path, flags&0x100 == 0)
	if e != 0 {
		return e
	}
	if w.ino == nil {
		return syscall.ENOENT
	}
	fillStat(w.ino, st)
	return nil
}

func kMkdirat(dirfd int, path string, mode uint32) error {
	n, base, _, e := pre(dirfd, path, "mkdir", true)
	if e != 0 {
		return e
	}
	f := W.FS
	for len(path) > 1 && path[len(path)-1] == '/' {
		path = path[:len(path)-1]
	}
	w, e := f.walk(base, path, false)
	if e != 0 {
		return e
	}
	if w.ino != nil {
		return syscall.EEXIST
	}
	if f.Limit > 0 && f.used >= f.Limit {
		W.Fault("disk-full")
		return syscall.ENOSPC
	}
	in := f.newInode(tDir, mode&0777&^n.umask)
	in.Nlink = 1
	f.setEnt(w.dir, w.name, in)
	f.emit(&FSEvent{Op: "mkdir", Node: n, Dir: w.dir, Name: w.name, Path: join(w.dir, w.name), Ino: in})
	runtime.SimCheckDead()
	return nil
}

func kUnlinkat(dirfd int, path string, flags int) error {
	class := "unlink"
	if flags&0x200 != 0 {
		class = "rmdir"
	}
	n, base, _, e := pre(dirfd, path, class, true)
	if e != 0 {
		return e
	}
	f := W.FS
	w, e := f.walk(base, path, false)
	if e != 0 {
		return e
	}
	if w.ino == nil {
		return syscall.ENOENT
	}
	if flags&0x200 != 0 {
		if w.ino.Typ != tDir {
			return syscall.ENOTDIR
		}
		if w.name == "." {
			return syscall.EINVAL
		}
		if len(w.ino.Ents) > 0 {
			return syscall.ENOTEMPTY
		}
	} else if w.ino.Typ == tDir {
		return syscall.EISDIR
	}
	p := join(w.dir, w.name)
	f.setEnt(w.dir, w.name, nil)
	f.unref(w.ino)
	f.emit(&FSEvent{Op: class, Node: n, Dir: w.dir, Name: w.name, Path: p, Ino: w.ino})
	runtime.SimCheckDead()
	return nil
}

func kLinkat(ofd int, op string, nfd int, np string, flags int) error {
	n, nb, _, e := pre(nfd, np, "link", true)
	if e != 0 {
		return e
	}
	f := W.FS
	ob, e := n.dirBase(ofd)
	if e != 0 {
		return e
	}
	o, e := f.walk(ob, op, flags&0x400 != 0)
	if e != 0 {
		return e
	}
	if o.ino == nil {
		return syscall.ENOENT
	}
	if o.ino.Typ == tDir {
		return syscall.EPERM
	}
	w, e := f.walk(nb, np, false)
	if e != 0 {
		return e
	}
	if w.ino != nil {
		return syscall.EEXIST
	}
	o.ino.Nlink++
	f.setEnt(w.dir, w.name, o.ino)
	f.emit(&FSEvent{Op: "link", Node: n, Dir: w.dir, Name: w.name, Path: join(w.dir, w.name), Ino: o.ino, Path2: join(o.dir, o.name)})
	runtime.SimCheckDead()
	return nil
}

func kSymlinkat(target string, nfd int, np string) error {
	n, nb, _, e := pre(nfd, np, "symlink", true)
	if e != 0 {
		return e
	}
	f := W.FS
	w, e := f.walk(nb, np, false)
	if e != 0 {
		return e
	}
	if w.ino != nil {
		return syscall.EEXIST
	}
	in := f.newInode(tLink, 0777)
	in.Target = target
	in.Nlink = 1
	f.setEnt(w.dir, w.name, in)
	f.emit(&FSEvent{Op: "symlink", Node: n, Dir: w.dir, Name: w.name, Path: join(w.dir, w.name), Ino: in})
	runtime.SimCheckDead()
	return nil
}

func kRenameat(ofd int, op string, nfd int, np string) error {
	n, nb, _, e := pre(nfd, np, "rename", true)
	if e != 0 {
		return e
	}
	f := W.FS
	ob, e := n.dirBase(ofd)
	if e != 0 {
		return e
	}
	o, e := f.walk(ob, op, false)
	if e != 0 {
		return e
	}
	if o.ino == nil {
		return syscall.ENOENT
	}
	w, e := f.walk(nb, np, false)
	if e != 0 {
		return e
	}
	if w.ino == o.ino {
		return nil
	}
	if w.ino != nil {
		if w.ino.Typ == tDir && o.ino.Typ != tDir {
			return syscall.EISDIR
		}
		if w.ino.Typ != tDir && o.ino.Typ == tDir {
			return syscall.ENOTDIR
		}
		if w.ino.Typ == tDir && len(w.ino.Ents) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	if o.ino.Typ == tDir {
		for d := w.dir; ; d = d.Parent {
			if d == o.ino {
				return syscall.EINVAL
			}
			if d.Parent == d {
				break
			}
		}
	}
	old := w.ino
	p2, p1 := join(o.dir, o.name), join(w.dir, w.name)
	if o.dir == w.dir {
		a := f.setEnt(w.dir, w.name, o.ino)
		b := f.setEnt(o.dir, o.name, nil)
		dropOp(o.dir, b)
		a.name2, a.old2, a.new2 = o.name, b.old, nil
	} else {
		a := f.setEnt(w.dir, w.name, o.ino)
		b := f.setEnt(o.dir, o.name, nil)
		a.peer, b.peer = b, a
		if o.ino.Typ == tDir {
			o.ino.Parent, o.ino.PName = w.dir, w.name
		}
	}
	if old != nil {
		f.unref(old)
	}
	f.emit(&FSEvent{Op: "rename", Node: n, Dir: w.dir, Name: w.name, Path: p1, Ino: o.ino, Old: old, Dir2: o.dir, Path2: p2})
	runtime.SimCheckDead()
	return nil
}

func kReadlinkat(dirfd int, path string, buf []byte) (int, error) {
	_, base, _, e := pre(dirfd, path, "stat", false)
	if e != 0 {
		return -1, e
	}
	w, e := W.FS.walk(base, path, false)
	if e != 0 {
		return -1, e
	}
	if w.ino == nil {
		return -1, syscall.ENOENT
	}
	if w.ino.Typ != tLink {
		return -1, syscall.EINVAL
	}
	return copy(buf, w.ino.Target), nil
}

func chmod(n *Node, in *Inode, path string, mode uint32) {
	in.Mode = mode & 07777
	W.FS.emit(&FSEvent{Op: "chmod", Node: n, Path: path, Ino: in})
}

func kFchmodat(dirfd int, path string, mode uint32) error {
	n, base, ap, e := pre(dirfd, path, "chmod", true)
	if e != 0 {
		return e
	}
	w, e := W.FS.walk(base, path, true)
	if e != 0 {
		return e
	}
	if w.ino == nil {
		return syscall.ENOENT
	}
	chmod(n, w.ino, ap, mode)
	return nil
}

func kFchmod(fd int, mode uint32) error {
	n, of, e := getFD(fd, "chmod", true)
	if e != 0 {
		return e
	}
	chmod(n, of.ino, of.path, mode)
	return nil
}

func kFtruncate(fd int, length int64) error {
	n, of, e := getFD(fd, "truncate", true)
	if e != 0 {
		return e
	}
	return errOf(truncate(n, of.ino, of.path, length))
}

func truncate(n *Node, in *Inode, path string, length int64) syscall.Errno {
	if in.Typ != tFile || length < 0 || length > 1<<30 {
		return syscall.EINVAL
	}
	d := make([]byte, length)
	copy(d, in.Data)
	W.FS.setData(in, d)
	W.FS.emit(&FSEvent{Op: "truncate", Node: n, Path: path, Ino: in})
	return 0
}

func kTruncate(path string, length int64) error {
	n, base, ap, e := pre(-100, path, "truncate", true)
	if e != 0 {
		return e
	}
	w, e := W.FS.walk(base, path, true)
	if e != 0 {
		return e
	}
	if w.ino == nil {
		return syscall.ENOENT
	}
	return errOf(truncate(n, w.ino, ap, length))
}

func kFlock(fd int, how int) error {
	_, of, e := getFD(fd, "flock", false)
	if e != 0 {
		return e
	}
	in := of.ino
	if how&^syscall.LOCK_NB == syscall.LOCK_UN {
		W.FS.unflock(of)
		return nil
	}
	ex := how&syscall.LOCK_EX != 0
	for {
		busy := in.flockX != nil && in.flockX != of
		if ex {
			for o := range in.flockS {
				if o != of {
					busy = true
				}
			}
		}
		if !busy {
			break
		}
		if how&syscall.LOCK_NB != 0 {
			return syscall.EWOULDBLOCK
		}
		in.flockQ.Wait()
		runtime.SimCheckDead()
	}
	W.FS.unflock(of)
	if ex {
		in.flockX = of
	} else {
		if in.flockS == nil {
			in.flockS = map[*OpenFile]bool{}
		}
		in.flockS[of] = true
	}
	return nil
}

func kFcntl(fd, cmd, arg int) (int, error) {
	if fd < fdBase {
		return 0, nil
	}
	n := curNode()
	of := n.fds[fd]
	if of == nil {
		return -1, syscall.EBADF
	}
	switch cmd {
	case syscall.F_GETFL:
		return of.flags, nil
	case syscall.F_SETFL:
		if arg&syscall.O_NONBLOCK != 0 {
			return -1, syscall.EINVAL
		}
		return 0, nil
	case syscall.F_GETFD, syscall.F_SETFD:
		return 0, nil
	case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
		of.refs++
		return n.newFD(of), nil
	case syscall.F_SETLK, syscall.F_SETLKW:
		return 0, nil
	}
	return -1, syscall.EINVAL
}

func kDup(fd int) (int, error) {
	n := curNode()
	of := n.fds[fd]
	if of == nil {
		return -1, syscall.EBADF
	}
	of.refs++
	return n.newFD(of), nil
}

func kGetdents(fd int, buf []byte) (int, error) {
	_, of, e := getFD(fd, "readdir", false)
	if e != 0 {
		return -1, e
	}
	if of.ino.Typ != tDir {
		return -1, syscall.ENOTDIR
	}
	if of.dents == nil {
		of.dents = []dent{}
		for _, nm := range of.ino.Names() {
			of.dents = append(of.dents, dent{nm, of.ino.Ents[nm]})
		}
		seed := W.FS.dentSeed
		key := func(s string) uint64 {
			h := fnv.New64a()
			h.Write([]byte(s))
			r := NewRand(h.Sum64() ^ seed)
			return r.U64()
		}
		sort.SliceStable(of.dents, func(i, j int) bool { return key(of.dents[i].name) < key(of.dents[j].name) })
		of.dpos = 0
	}
	out := 0
	for of.dpos < len(of.dents) {
		d := of.dents[of.dpos]
		rl := (19 + len(d.name) + 1 + 7) &^ 7
		if out+rl > len(buf) {
			if out == 0 {
				return -1, syscall.EINVAL
			}
			break
		}
		b := buf[out : out+rl]
		clear(b)
		binary.LittleEndian.PutUint64(b, d.ino.Ino)
		binary.LittleEndian.PutUint64(b[8:], uint64(of.dpos+1))
		binary.LittleEndian.PutUint16(b[16:], uint16(rl))
		b[18] = map[byte]byte{tFile: syscall.DT_REG, tDir: syscall.DT_DIR, tLink: syscall.DT_LNK}[d.ino.Typ]
		copy(b[19:], d.name)
		out += rl
		of.dpos++
	}
	return out, nil
}

func kFaccess(dirfd int, path string) error {
	_, base, _, e := pre(dirfd, path, "stat", false)
	if e != 0 {
		return e
	}
	w, e := W.FS.walk(base, path, true)
	if e != 0 {
		return e
	}
	if w.ino == nil {
		return syscall.ENOENT
	}
	return nil
}

func kUtimens(dirfd int, path string, ts *[2]syscall.Timespec, flag int) error {
	_, base, _, e := pre(dirfd, path, "utimens", false)
	if e != 0 {
		return e
	}
	w, e := W.FS.walk(base, path, flag&0x100 == 0)
	if e != 0 {
		return e
	}
	if w.ino == nil {
		return syscall.ENOENT
	}
	if ts != nil {
		w.ino.Mtime = ts[1].Sec*1e9 + ts[1].Nsec
	}
	return nil
}

func fillStatfs(b *syscall.Statfs_t) {
	*b = syscall.Statfs_t{}
	b.Type = 0xef53
	b.Bsize = 4096
	lim := W.FS.Limit
	if lim == 0 {
		lim = 1 << 40
	}
	b.Blocks = uint64(lim / 4096)
	b.Bfree = uint64((lim - W.FS.used) / 4096)
	b.Bavail = b.Bfree
	b.Files, b.Ffree = 1<<20, 1<<19
	b.Namelen = 255
}

func installKernel() {
	_ = unsafe.Sizeof(0)
	syscall.SimHookOpenat = kOpenat
	syscall.SimHookClose = kClose
	syscall.SimHookRead = kRead
	syscall.SimHookWrite = kWrite
	syscall.SimHookPread = kPread
	syscall.SimHookPwrite = kPwrite
	syscall.SimHookSeek = kSeek
	syscall.SimHookFsync = kFsync
	syscall.SimHookFdatasync = kFsync
	syscall.SimHookFstat = kFstat
	syscall.SimHookFstatat = kFstatat
	syscall.SimHookMkdirat = kMkdirat
	syscall.SimHookUnlinkat = kUnlinkat
	syscall.SimHookLinkat = kLinkat
	syscall.SimHookSymlinkat = kSymlinkat
	syscall.SimHookRenameat = kRenameat
	syscall.SimHookReadlinkat = kReadlinkat
	syscall.SimHookFchmodat = kFchmodat
	syscall.SimHookFchmodat2 = func(d int, p string, m uint32, fl int) error { return kFchmodat(d, p, m) }
	syscall.SimHookFchmod = kFchmod
	syscall.SimHookFtruncate = kFtruncate
	syscall.SimHookTruncate = kTruncate
	syscall.SimHookFlock = kFlock
	syscall.SimHookFcntl = kFcntl
	syscall.SimHookDup = kDup
	syscall.SimHookDup2 = func(int, int) error { return syscall.ENOSYS }
	syscall.SimHookDup3 = func(int, int, int) error { return syscall.ENOSYS }
	syscall.SimHookGetdents = kGetdents
	syscall.SimHookFaccessat = func(d int, p string, m uint32) error { return kFaccess(d, p) }
	syscall.SimHookFaccessat2 = func(d int, p string, m uint32, fl int) error { return kFaccess(d, p) }
	syscall.SimHookUtimensat = kUtimens
	syscall.SimHookStatfs = func(p string, b *syscall.Statfs_t) error { fillStatfs(b); return nil }
	syscall.SimHookFstatfs = func(fd int, b *syscall.Statfs_t) error { fillStatfs(b); return nil }
	syscall.SimHookCopyFileRange = func(int, *int64, int, *int64, int, int) (int, error) { return 0, syscall.ENOSYS }
	syscall.SimHookGetcwd = func(b []byte) (int, error) { copy(b, "/\x00"); return 2, nil }
	syscall.SimHookChdir = func(string) error { return syscall.EPERM }
	syscall.SimHookFchdir = func(int) error { return syscall.EPERM }
	syscall.SimHookFallocate = func(int, uint32, int64, int64) error { return syscall.EOPNOTSUPP }
	syscall.SimHookFchown = func(int, int, int) error { return nil }
	syscall.SimHookFchownat = func(int, string, int, int, int) error { return nil }
	syscall.SimHookMknodat = func(int, string, uint32, int) error { return syscall.EPERM }
	syscall.SimHookSyncFileRange = func(int, int64, int64, int) error { return nil }
	_ = os.O_RDONLY
}
