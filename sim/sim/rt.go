// Package sim is the simulator: clock, scheduler control, disk, network,
// upstream servers and simulated processes. It runs the real code of
// go-apt-mirror and go-apt-cacher on a patched Go runtime (see /verif/gen).
package sim

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strings"
	"time"
)

// Rand is a splitmix64 generator; every choice of a run derives from Rands
// seeded by the plan.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p.
func (r *Rand) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

func Pick[T any](r *Rand, l ...T) T { return l[r.N(len(l))] }

func (r *Rand) Fork(tag string) *Rand {
	h := fnv.New64a()
	h.Write([]byte(tag))
	return NewRand(r.U64() ^ h.Sum64())
}

// Bytes returns n reproducible bytes for a tag.
func Bytes(tag string, n int) []byte {
	h := fnv.New64a()
	h.Write([]byte(tag))
	r := NewRand(h.Sum64())
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.U64()
		for j := 0; j < 8 && i+j < n; j++ {
			b[i+j] = byte(v >> (8 * j))
		}
	}
	return b
}

// WaitQ is a queue of parked goroutines. The simulator runs on one thread
// and switches goroutines only at explicit points, so no locks are needed
// (and none are used, so that the race detector sees no false ordering).
type WaitQ struct{ l []*waiter }

type waiter struct {
	h    runtime.SimGHandle
	done bool
	t    *time.Timer
}

// Wait parks until woken.
func (q *WaitQ) Wait() { q.WaitUntil(0) }

// WaitUntil parks until woken or simulated time t (0: none). It reports
// whether it was woken (false: timeout).
func (q *WaitQ) WaitUntil(t int64) bool {
	w := &waiter{h: runtime.SimG()}
	woken := true
	if t > 0 {
		d := t - runtime.SimNow()
		if d <= 0 {
			return false
		}
		node := runtime.SimNode()
		runtime.SimSetNode(0)
		w.t = time.AfterFunc(time.Duration(d), func() {
			if !w.done {
				w.done = true
				woken = false
				q.drop(w)
				runtime.SimReady(w.h)
			}
		})
		runtime.SimSetNode(node)
	}
	q.l = append(q.l, w)
	runtime.SimPark()
	if w.t != nil && woken {
		w.t.Stop()
	}
	return woken
}

func (q *WaitQ) drop(w *waiter) {
	for i, x := range q.l {
		if x == w {
			q.l = append(q.l[:i:i], q.l[i+1:]...)
			return
		}
	}
}

// WakeAll readies every waiter.
func (q *WaitQ) WakeAll() {
	l := q.l
	q.l = nil
	for _, w := range l {
		if !w.done {
			w.done = true
			runtime.SimReady(w.h)
		}
	}
}

// Now is the simulated monotonic time in nanoseconds.
func Now() int64 { return runtime.SimNow() }

// After runs f as a simulator goroutine at now+d.
func After(d time.Duration, f func()) {
	node := runtime.SimNode()
	runtime.SimSetNode(0)
	time.AfterFunc(d, f)
	runtime.SimSetNode(node)
}

// GoSim runs f as a simulator (not simulated process) goroutine.
func GoSim(f func()) {
	node := runtime.SimNode()
	runtime.SimSetNode(0)
	go f()
	runtime.SimSetNode(node)
}

// Sleep sleeps in simulated time.
func Sleep(d time.Duration) { time.Sleep(d) }

func Sum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

// ---- run-global state ----

// World is the state of one simulated run.
type World struct {
	Start    int64
	FS       *FS
	Net      *Net
	Seq      uint64 // event sequence number
	logHash  uint64
	logBuf   []string
	LogKeep  bool
	Faults   map[string]int // fault kinds that really happened
	Probes   map[string]int
	Viol     []Violation
	Nodes    map[int32]*Node
	nodeQ    WaitQ
	nextNode int32
	Finish   func(reason string) // writes the result and exits; set by the runner
	Stderr   []byte
	OnOutput func(n *Node, b []byte)
}

// Violation is a broken property.
type Violation struct {
	Props []string // properties it breaks
	Class string   // stable class for minimisation and known findings
	Msg   string
}

var W *World

func NewWorld() *World {
	W = &World{
		Start:  Now(),
		Faults: map[string]int{},
		Probes: map[string]int{},
		Nodes:  map[int32]*Node{},
	}
	W.FS = NewFS()
	W.Net = NewNet()
	installKernel()
	installNet()
	return W
}

// Logf records an event. It never draws randomness or yields.
func (w *World) Logf(f string, a ...any) {
	w.Seq++
	s := fmt.Sprintf("%d t=%.6f ", w.Seq, float64(Now()-w.Start)/1e9) + fmt.Sprintf(f, a...)
	h := w.logHash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	w.logHash = h
	if w.LogKeep {
		w.logBuf = append(w.logBuf, s)
	}
}

func (w *World) LogHash() uint64  { return w.logHash }
func (w *World) LogText() string  { return strings.Join(w.logBuf, "\n") + "\n" }
func (w *World) Fault(k string)   { w.Faults[k]++ }
func (w *World) Probe(k string)   { w.Probes[k]++ }
func (w *World) Elapsed() float64 { return float64(Now()-w.Start) / 1e9 }

// Violate records a violation (first of each class per run).
func (w *World) Violate(props string, class string, f string, a ...any) {
	for _, v := range w.Viol {
		if v.Class == class {
			return
		}
	}
	msg := fmt.Sprintf(f, a...)
	w.Viol = append(w.Viol, Violation{Props: strings.Split(props, ","), Class: class, Msg: msg})
	w.Logf("VIOLATION %s %s: %s", props, class, msg)
}

// Die aborts the run because of a harness error.
func Die(f string, a ...any) {
	runtime.SimSetNode(0)
	fmt.Fprintf(os.Stderr, "sim: internal error: "+f+"\n", a...)
	os.Exit(4)
}
