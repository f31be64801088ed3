package sim

import (
	"fmt"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/cybozu-go/well"
)

// Node is one simulated process.
type Node struct {
	ID      int32
	Name    string
	Exited  bool
	Code    int    // exit code; -1 killed, -2 crashed by a panic
	startAt int64  // set by the scenario
	Panic   string // panic message
	Stack   string
	EndAt   int64
	SigAt   int64 // first SIGTERM
	fds     map[int]*OpenFile
	nextFD  int
	umask   uint32
	Ops     uint64 // system calls so far
}

// StartNode starts main as a new simulated process.
func (w *World) StartNode(name string, main func()) *Node {
	w.nextNode++
	if w.nextNode >= 250 {
		Die("too many simulated processes")
	}
	n := &Node{ID: w.nextNode, Name: name, fds: map[int]*OpenFile{}, nextFD: 1 << 20, umask: 022}
	w.Nodes[n.ID] = n
	// a new process has its own HTTP connection pool
	http.DefaultTransport = http.DefaultTransport.(*http.Transport).Clone()
	w.Logf("start %s (node %d)", name, n.ID)
	go func() {
		runtime.SimSetNode(n.ID)
		runtime.SimUnquiet()
		well.SimInit()
		main()
		os.Exit(0)
	}()
	return n
}

func (w *World) nodeEnd(n *Node, code int) {
	if n.Exited {
		return
	}
	n.Exited = true
	n.Code = code
	n.EndAt = Now()
	runtime.SimKill(n.ID)
	w.FS.closeAll(n)
	w.Net.nodeDied(n.ID)
	w.Logf("end %s (node %d) code=%d %s", n.Name, n.ID, code, n.Panic)
	w.nodeQ.WakeAll()
}

// Kill ends a simulated process as SIGKILL does.
func (w *World) Kill(n *Node) { w.nodeEnd(n, -1) }

// Signal delivers SIGTERM.
func (w *World) Signal(n *Node) {
	w.Logf("SIGTERM %s (node %d)", n.Name, n.ID)
	if n.SigAt == 0 {
		n.SigAt = Now()
	}
	well.SimSignal(n.ID, syscall.SIGTERM)
}

// WaitExit waits until n ended or simulated time t; false on timeout.
func (w *World) WaitExit(n *Node, limit time.Duration) bool {
	end := Now() + int64(limit)
	for !n.Exited {
		if !w.nodeQ.WaitUntil(end) && !n.Exited {
			return false
		}
	}
	return true
}

// AsNode runs f with the identity of n in the calling goroutine.
func (w *World) AsNode(n *Node, f func()) {
	old := runtime.SimNode()
	runtime.SimSetNode(n.ID)
	f()
	runtime.SimSetNode(old)
}

// hooks called by the patched runtime

func onExit(code int) {
	n := W.Nodes[runtime.SimNode()]
	W.nodeEnd(n, code)
}

func onPanic(e any) {
	n := W.Nodes[runtime.SimNode()]
	if n.Exited {
		return
	}
	n.Panic = fmt.Sprint(e)
	n.Stack = string(debug.Stack())
	W.Logf("PANIC node %d: %s", n.ID, n.Panic)
	W.nodeEnd(n, -2)
}

// PanicSite names the first frames of the panic inside the program.
func (n *Node) PanicSite() string { return StackSite(n.Stack) }

// StackSite extracts the innermost function of /repo in a stack dump.
func StackSite(st string) string {
	lines := strings.Split(st, "\n")
	for i, l := range lines {
		if strings.Contains(l, "aptutil/") && !strings.HasPrefix(l, "\t") && i > 0 {
			l = strings.TrimPrefix(l, "created by ")
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			if j := strings.LastIndex(l, "/"); j >= 0 {
				l = l[j+1:]
			}
			return l
		}
	}
	return "?"
}

func onBudget() {
	st := string(debug.Stack())
	runtime.SimSetNode(0)
	site := StackSite(st)
	if BudgetProps != "" {
		W.Violate(BudgetProps, "livelock:"+site, "step budget used up at simulated time %.3f s in %s: the program keeps running without making progress", W.Elapsed(), site)
	}
	W.Finish("budget:" + site)
}

// runtimeCheck returns ",R01" for a panic raised by a consistency check of
// the Go run time or of package sync.
func runtimeCheck(msg string) string {
	for _, x := range []string{"closed channel", "close of nil channel", "negative WaitGroup", "WaitGroup is reused", "concurrent map", "unlock of unlocked"} {
		if strings.Contains(msg, x) {
			return ",R01"
		}
	}
	return ""
}
