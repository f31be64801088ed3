package sim

import (
	"runtime"
	"strings"
	"syscall"
)

// FSFault makes file system calls fail.
type FSFault struct {
	Class string `json:"class"`          // open create read write fsync fsyncdir link symlink rename unlink rmdir mkdir stat readdir chmod seek close flock; empty: any mutating
	Path  string `json:"path,omitempty"` // part of the path, or its end if the last byte is $
	Skip  int    `json:"skip,omitempty"`
	Count int    `json:"count,omitempty"` // 0: once, -1: until the step ends
	Errno string `json:"errno"`           // EIO ENOSPC EMFILE EACCES EDQUOT SHORT
	seen  int
	used  int
}

// CrashPoint stops a process (or the machine) right before a system call.
type CrashPoint struct {
	Class string     `json:"class,omitempty"` // count only calls of this class; empty: mutating calls and syncs
	Nth   int        `json:"nth"`
	Path  string     `json:"path,omitempty"`
	Power *CrashMode `json:"power,omitempty"` // power loss instead of SIGKILL
	Sig   bool       `json:"sig,omitempty"`   // SIGTERM instead
	seen  int
	done  bool
}

var errnos = map[string]syscall.Errno{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EMFILE": syscall.EMFILE,
	"EACCES": syscall.EACCES, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "ENOMEM": syscall.ENOMEM}

// Gate decides about every system call of the simulated processes.
type Gate struct {
	Faults  []*FSFault
	Crash   []*CrashPoint
	Node    *Node // process the crash points apply to
	OnPower func(m CrashMode)
	Fired   int
	short   bool
}

func (g *Gate) install(f *FS) {
	f.Gate = g.gate
	f.WriteCap = func(n *Node, path string, want int) (int, syscall.Errno) {
		if g.short {
			g.short = false
			return want / 2, syscall.ENOSPC
		}
		return want, 0
	}
}

func (g *Gate) gate(n *Node, class, path string, mutating bool) syscall.Errno {
	if g.Node == n {
		for _, c := range g.Crash {
			if c.done || !pathMatch(path, c.Path) {
				continue
			}
			if c.Class == "" {
				if !mutating && class != "fsync" && class != "fsyncdir" {
					continue
				}
			} else if c.Class != class {
				continue
			}
			c.seen++
			if c.seen < c.Nth {
				continue
			}
			c.done = true
			g.Fired++
			W.Logf("crash point before %s %s", class, path)
			switch {
			case c.Sig:
				W.Fault("sigterm")
				W.Signal(n)
			case c.Power != nil:
				g.OnPower(*c.Power)
				runtime.SimCheckDead()
			default:
				W.Fault("kill")
				W.Kill(n)
				runtime.SimCheckDead()
			}
		}
	}
	for _, f := range g.Faults {
		if f.Class == "" {
			if !mutating {
				continue
			}
		} else if f.Class != class {
			continue
		}
		if !pathMatch(path, f.Path) {
			continue
		}
		if f.seen < f.Skip {
			f.seen++
			continue
		}
		k := f.Count
		if k == 0 {
			k = 1
		}
		if k > 0 && f.used >= k {
			continue
		}
		f.used++
		g.Fired++
		W.Fault("disk-" + class + "-" + f.Errno)
		W.Logf("disk fault %s %s %s", f.Errno, class, path)
		if f.Errno == "SHORT" {
			if class == "write" {
				g.short = true
				return 0
			}
			return syscall.EIO
		}
		e := errnos[f.Errno]
		if e == 0 {
			Die("unknown errno %q", f.Errno)
		}
		return e
	}
	return 0
}

// pathMatch: pat is a part of the path, or its end if pat ends with $.
func pathMatch(path, pat string) bool {
	if x := strings.TrimSuffix(pat, "$"); x != pat {
		return strings.HasSuffix(path, x)
	}
	return strings.Contains(path, pat)
}
