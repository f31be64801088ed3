package sim

import (
	"encoding/json"
	"flag"
	"fmt"
	"mime"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"
)

// SchedPlan configures the scheduler.
type SchedPlan struct {
	Mode     uint32      `json:"mode"`
	PickThr  uint32      `json:"pick,omitempty"`
	YieldThr uint32      `json:"yield,omitempty"`
	DelayThr uint32      `json:"delay,omitempty"`
	Delays   [8]int64    `json:"delays,omitempty"`
	Seed     uint64      `json:"seed"`
	Rand     uint64      `json:"rand"`
	Budget   uint64      `json:"budget"`
	Explicit bool        `json:"explicit,omitempty"`
	Picks    [][2]uint64 `json:"picks,omitempty"`
	Yields   [][2]uint64 `json:"yields,omitempty"`
}

// Plan is everything one run depends on.
type Plan struct {
	Kind    string    `json:"kind"`
	Profile string    `json:"profile"`
	Seed    uint64    `json:"seed"`
	Sched   SchedPlan `json:"sched"`
	M       *MPlan    `json:"mirror,omitempty"`
	C       *CPlan    `json:"cacher,omitempty"`
	L       *LPlan    `json:"lib,omitempty"`
}

// Result of one run.
type Result struct {
	Seed    uint64         `json:"seed"`
	Profile string         `json:"profile"`
	Reason  string         `json:"reason"`
	Viol    []Violation    `json:"viol,omitempty"`
	Faults  map[string]int `json:"faults"`
	Probes  map[string]int `json:"probes"`
	SimSec  float64        `json:"simsec"`
	Steps   uint64         `json:"steps"`
	Picks   uint64         `json:"picks"`
	Hash    string         `json:"hash"`
	LogHash string         `json:"loghash"`
	Lost    bool           `json:"lost,omitempty"`
	Plan    *Plan          `json:"plan,omitempty"`
	Log     string         `json:"log,omitempty"`
}

func thr(p float64) uint32 {
	if p <= 0 {
		return 0
	}
	if p >= 1 {
		return ^uint32(0)
	}
	return uint32(p * (1 << 32))
}

// GenSched draws a scheduler configuration.
func GenSched(r *Rand, stalls bool) SchedPlan {
	s := SchedPlan{Seed: r.U64() >> 1, Rand: r.U64() >> 1, Budget: 20_000_000}
	switch r.N(10) {
	case 0:
		// plain round robin
	case 1, 2, 3:
		s.Mode, s.PickThr = 1, thr(0.9)
		s.YieldThr = thr(Pick(r, 0.02, 0.1, 0.4))
	case 4, 5:
		s.Mode, s.PickThr = 1, thr(0.3)
		s.YieldThr = thr(Pick(r, 0.002, 0.01, 0.05))
	default:
		s.Mode = 2
		s.YieldThr = thr(Pick(r, 0.001, 0.005, 0.03, 0.15))
	}
	if stalls && r.P(0.5) {
		s.DelayThr = thr(Pick(r, 0.0005, 0.002, 0.01))
		for i := range s.Delays {
			s.Delays[i] = Pick(r, int64(1e3), int64(1e6), int64(5e6), int64(50e6), int64(300e6), int64(1e9))
		}
	}
	return s
}

func dec(l [][2]uint64) []runtime.SimDecision {
	o := make([]runtime.SimDecision, len(l))
	for i, x := range l {
		o[i] = runtime.SimDecision{At: x[0], Val: uint32(x[1])}
	}
	return o
}

func enc(l []runtime.SimDecision) [][2]uint64 {
	o := make([][2]uint64, len(l))
	for i, x := range l {
		o[i] = [2]uint64{x.At, uint64(x.Val)}
	}
	return o
}

// Program describes one harness binary.
type Program struct {
	Gen  func(profile string, seed uint64) *Plan
	Exec func(p *Plan)
}

// Main is the entry point of a harness binary:
//
//	<bin> -profile P -seed N [-log] [-decisions]
//	<bin> -plan FILE [-log] [-decisions]
func Main(pr Program) {
	fs := flag.NewFlagSet("sim", flag.ExitOnError)
	profile := fs.String("profile", "", "")
	seed := fs.String("seed", "0", "")
	planFile := fs.String("plan", "", "")
	logKeep := fs.Bool("log", false, "")
	decisions := fs.Bool("decisions", false, "")
	showPlan := fs.Bool("showplan", false, "")
	fs.Parse(os.Args[1:])
	var plan *Plan
	if *planFile != "" {
		b, err := os.ReadFile(*planFile)
		if err != nil {
			Die("%v", err)
		}
		plan = &Plan{}
		if err := json.Unmarshal(b, plan); err != nil {
			Die("%v", err)
		}
	} else {
		s, err := strconv.ParseUint(*seed, 10, 64)
		if err != nil {
			Die("%v", err)
		}
		plan = pr.Gen(*profile, s)
		plan.Seed, plan.Profile = s, *profile
	}
	orig, err := json.Marshal(plan)
	if err != nil {
		Die("%v", err)
	}
	if *showPlan {
		fmt.Printf("%s\n", orig)
		return
	}
	debug.SetGCPercent(-1)
	_ = time.Now().Local().String()
	w := NewWorld()
	w.LogKeep = *logKeep
	var finished bool
	w.Finish = func(reason string) {
		if finished {
			return
		}
		finished = true
		if runtime.SimRace {
			w.Probe("race-detector")
		}
		if n := runtime.SimRaceErrors(); n > 0 {
			w.Violate("R01", "race", "%d data races", n)
		}
		picks, _, steps, hash, _ := runtime.SimStats()
		res := Result{Seed: plan.Seed, Profile: plan.Profile, Reason: reason, Viol: w.Viol, Faults: w.Faults, Probes: w.Probes,
			SimSec: w.Elapsed(), Steps: steps, Picks: picks, Hash: fmt.Sprintf("%016x", hash), LogHash: fmt.Sprintf("%016x", w.logHash)}
		if len(w.Viol) > 0 || *decisions {
			var p2 Plan
			json.Unmarshal(orig, &p2)
			if *decisions && !p2.Sched.Explicit {
				p, y, lost := runtime.SimLogs()
				res.Lost = lost
				p2.Sched.Explicit = true
				p2.Sched.Picks, p2.Sched.Yields = enc(p), enc(y)
			}
			res.Plan = &p2
		}
		if *logKeep {
			res.Log = w.LogText()
		}
		b, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		os.Stdout.Write(append(b, '\n'))
		os.Exit(0)
	}
	sc := plan.Sched
	cfg := runtime.SimSched{Seed: sc.Seed, RandSeed: sc.Rand, Mode: sc.Mode, PickThr: sc.PickThr, YieldThr: sc.YieldThr,
		DelayThr: sc.DelayThr, Delays: sc.Delays, Budget: sc.Budget, Explicit: sc.Explicit, Picks: dec(sc.Picks), Yields: dec(sc.Yields)}
	runtime.SimStart(&cfg, onBudget, onPanic, onExit)
	// package mime reads files under a lock that all simulated processes share
	warm := &Node{ID: 249, Name: "warm", fds: map[int]*OpenFile{}, nextFD: 1 << 20}
	w.Nodes[249] = warm
	w.AsNode(warm, func() { mime.TypeByExtension(".x") })
	delete(w.Nodes, 249)
	pr.Exec(plan)
	w.Finish("done")
}

// onBudget handling is in node.go; the hook decides whether a used up step
// budget is a violation (a livelock) of the running scenario.
var BudgetProps = ""
