// Command drv runs the simulation checks: it spreads seeds over worker
// processes, collects violations, minimises them and writes evidence.
//
//	drv check PROPERTY [tier]
//	drv replay FILE
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Violation struct {
	Props []string
	Class string
	Msg   string
}

type Result struct {
	Seed    uint64         `json:"seed"`
	Profile string         `json:"profile"`
	Reason  string         `json:"reason"`
	Viol    []Violation    `json:"viol"`
	Faults  map[string]int `json:"faults"`
	Probes  map[string]int `json:"probes"`
	SimSec  float64        `json:"simsec"`
	Steps   uint64         `json:"steps"`
	Picks   uint64         `json:"picks"`
	Hash    string         `json:"hash"`
	LogHash string         `json:"loghash"`
	Lost    bool           `json:"lost"`
	Plan    map[string]any `json:"plan"`
	Log     string         `json:"log"`
}

var verif = func() string {
	if v := os.Getenv("VERIF"); v != "" {
		return v
	}
	return "/verif"
}()

func bin(kind string) string { return filepath.Join(verif, ".build", kind+"sim") }

func fatal(format string, a ...any) {
	fmt.Printf("ERROR: "+format+"\n", a...)
	os.Exit(2)
}

func childEnv() []string {
	var e []string
	for _, s := range os.Environ() {
		k := strings.SplitN(s, "=", 2)[0]
		switch {
		case strings.HasPrefix(k, "GO"), k == "TZ", strings.HasPrefix(strings.ToLower(k), "http"), strings.HasSuffix(strings.ToLower(k), "_proxy"), k == "CANCELLATION_DELAY_SECONDS":
			continue
		}
		e = append(e, s)
	}
	return append(e, "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "TZ=UTC", "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0")
}

// child outcome
type outcome struct {
	res     *Result
	crash   string // trace of a run time failure
	timeout bool
	err     string
}

func runChild(kind string, limit time.Duration, args ...string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin(kind), args...)
	cmd.Env = childEnv()
	cmd.Dir = "/"
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	err := cmd.Run()
	if ctx.Err() != nil {
		return outcome{timeout: true, err: "wall clock limit"}
	}
	lines := bytes.Split(bytes.TrimSpace(out.Bytes()), []byte("\n"))
	if err == nil {
		r := &Result{}
		if e := json.Unmarshal(lines[len(lines)-1], r); e == nil {
			for i := range r.Viol {
				if r.Viol[i].Class == "race" {
					r.Viol[i].Msg = crashResult(kind, eb.String()).Msg
				}
			}
			return outcome{res: r}
		}
	}
	txt := eb.String()
	if strings.Contains(txt, "fatal error:") && strings.Contains(txt, "github.com/cybozu-go/aptutil/") && !strings.Contains(txt, "fatal error: sim:") ||
		strings.Contains(txt, "WARNING: DATA RACE") {
		return outcome{crash: txt}
	}
	if len(txt) > 3000 {
		txt = txt[:3000]
	}
	return outcome{err: fmt.Sprintf("%v: %s", err, txt)}
}

// crashResult turns a crash of the whole program (concurrent map access, a
// data race report) into a violation.
func crashResult(kind, txt string) Violation {
	first := ""
	for _, l := range strings.Split(txt, "\n") {
		if strings.Contains(l, "fatal error:") {
			first = strings.TrimSpace(l)
			break
		}
		if strings.Contains(l, "WARNING: DATA RACE") {
			first = "data race"
			break
		}
	}
	var at []string
	for _, l := range strings.Split(txt, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/cybozu-go/aptutil/") && strings.Contains(l, "(") {
			f := l[len("github.com/cybozu-go/aptutil/"):]
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			if len(at) == 0 || at[len(at)-1] != f {
				at = append(at, f)
			}
			if len(at) == 4 {
				break
			}
		}
	}
	cls := "crash"
	if first == "data race" {
		cls = "race"
	}
	// the process ends in the middle of its work
	var props []string
	switch {
	case cls == "race":
		props = []string{"R01"}
	case strings.HasSuffix(kind, "lib"):
		props = []string{"R01", "C09", "A01", "A02"}
	case strings.HasSuffix(kind, "cacher"):
		props = []string{"R01", "C04", "C06", "C11", "C16"}
		if strings.Contains(strings.Join(at, " "), "(*Storage)") {
			props = append(props, "C09")
		}
		if strings.Contains(strings.Join(at, " "), "Semaphore") {
			props = append(props, "C07")
		}
	default:
		props = []string{"R01", "M05", "M07"}
	}
	return Violation{Props: props, Class: cls, Msg: first + " in " + strings.Join(at, ", ")}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type known struct {
	prop, class string
	re          *regexp.Regexp
	line        string
	seen        int
}

// known-findings.txt: lines "finding: property=<id> class=<class> msg=/<regexp>/ <description>"
func loadKnown() []*known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fatal("%v", err)
	}
	re := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) msg=/(.*)/ (.*)$`)
	var out []*known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		m := re.FindStringSubmatch(l)
		if m == nil {
			fatal("bad line in known-findings.txt: %s", l)
		}
		out = append(out, &known{prop: m[1], class: m[2], re: regexp.MustCompile(m[3]), line: m[4]})
	}
	return out
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: drv check PROPERTY | drv replay FILE")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2])
	case "replay":
		replay(os.Args[2])
	case "kinds":
		sp, ok := specs[os.Args[2]]
		if !ok {
			fatal("unknown property %s", os.Args[2])
		}
		m := map[string]bool{}
		for _, l := range sp.loads {
			m[l.kind] = true
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, " "))
	default:
		fatal("unknown command")
	}
}

type task struct {
	l    load
	seed uint64
	idx  int
}

func check(prop string) {
	sp, ok := specs[prop]
	if !ok {
		fatal("unknown property %s", prop)
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fatal("VERIF_SEED: %v", err)
		}
		seed = uint64(v)
	}
	budget := 20 * time.Second
	minRuns := 1200
	hard := 300 * time.Second
	if tier == "thorough" {
		budget, minRuns, hard = 720*time.Second, 3000, 800*time.Second
	}
	if sp.minRuns > 0 && tier == "quick" {
		minRuns = sp.minRuns
	}
	if s := os.Getenv("VERIF_SECONDS"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(v) * time.Second
			minRuns = 1
		}
	}
	workers := 8
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	fmt.Printf("property %s tier=%s VERIF_SEED=%d budget=%v\n", prop, tier, seed, budget)
	kn := loadKnown()

	var mu sync.Mutex
	var (
		idx      int
		runs     int
		errs     []string
		slow     []string
		faults   = map[string]int{}
		probes   = map[string]int{}
		hashes   = map[string]bool{}
		nontriv  = map[string]bool{}
		perProf  = map[string]int{}
		reasons  = map[string]int{}
		simsec   float64
		steps    uint64
		picks    uint64
		samples  []any
		found    *finding
		foundIdx = 1 << 60
		other    = map[string]int{}
		detN     int
		detBad   []string
		crashes  int
	)
	total := 0.0
	for _, l := range sp.loads {
		total += l.weight
	}
	// a fixed, evenly interleaved sequence of loads
	pick := func(i int) load {
		x := float64((uint64(i)*2654435761)%1000003) / 1000003 * total
		for _, l := range sp.loads {
			if x < l.weight {
				return l
			}
			x -= l.weight
		}
		return sp.loads[len(sp.loads)-1]
	}
	next := func() (task, bool) {
		mu.Lock()
		defer mu.Unlock()
		if found != nil || len(errs) > 20 {
			return task{}, false
		}
		el := time.Since(start)
		if el > hard || (el > budget && idx >= minRuns) {
			return task{}, false
		}
		i := idx
		idx++
		return task{pick(i), seed*1000003 + uint64(i), i}, true
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				t, ok := next()
				if !ok {
					return
				}
				s := strconv.FormatUint(t.seed, 10)
				o := runChild(t.l.kind, 150*time.Second, "-profile", t.l.profile, "-seed", s)
				if o.res != nil && t.idx%97 == 5 && len(o.res.Viol) == 0 {
					// determinism: the same seed again
					o2 := runChild(t.l.kind, 150*time.Second, "-profile", t.l.profile, "-seed", s)
					mu.Lock()
					detN++
					if o2.res == nil || o2.res.Hash != o.res.Hash || o2.res.LogHash != o.res.LogHash || o2.res.Steps != o.res.Steps {
						detBad = append(detBad, fmt.Sprintf("%s/%s/%s", t.l.kind, t.l.profile, s))
					}
					mu.Unlock()
				}
				mu.Lock()
				runs++
				perProf[t.l.kind+":"+t.l.profile]++
				var viol []Violation
				switch {
				case o.timeout:
					slow = append(slow, fmt.Sprintf("%s/%s/%s", t.l.kind, t.l.profile, s))
				case o.crash != "":
					crashes++
					viol = []Violation{crashResult(t.l.kind, o.crash)}
				case o.res == nil:
					errs = append(errs, fmt.Sprintf("%s/%s/%s: %s", t.l.kind, t.l.profile, s, o.err))
				default:
					r := o.res
					reasons[r.Reason]++
					n := 0
					for k, v := range r.Faults {
						faults[k] += v
						n += v
					}
					for k, v := range r.Probes {
						probes[k] += v
						n += v
					}
					simsec += r.SimSec
					steps += r.Steps
					picks += r.Picks
					h := t.l.kind + r.Hash + r.LogHash
					hashes[h] = true
					if n > 0 {
						nontriv[h] = true
					}
					if len(samples) < 3 && n > 0 {
						samples = append(samples, map[string]any{"profile": t.l.kind + ":" + t.l.profile, "seed": t.seed, "simulated_s": r.SimSec, "steps": r.Steps, "scheduling_decisions": r.Picks, "faults": r.Faults, "oracle_probes": r.Probes, "schedule_hash": r.Hash, "log_hash": r.LogHash})
					}
					viol = r.Viol
				}
				for _, v := range viol {
					if !has(v.Props, prop) {
						k := strings.Join(v.Props, ",") + " " + v.Class
						if other[k]++; other[k] <= 3 && os.Getenv("VERIF_DEBUG") != "" {
							fmt.Printf("other: %s %s %d: %s\n", k, t.l.profile, t.seed, v.Msg)
						}
						continue
					}
					kf := false
					for _, k := range kn {
						if k.prop == prop && k.class == v.Class && k.re.MatchString(v.Msg) {
							k.seen++
							kf = true
							break
						}
					}
					if kf {
						continue
					}
					if t.idx < foundIdx {
						foundIdx = t.idx
						found = &finding{t: t, v: v, crash: o.crash}
					}
					break
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchWall := time.Since(start)
	for _, k := range kn {
		if k.prop == prop && k.seen > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", prop, k.line, k.seen)
		} else if k.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this run)\n", prop, k.line)
		}
	}
	path := ""
	nviol := 0
	if found != nil {
		nviol = 1
		var ok bool
		path, ok = found.confirm(prop, tier)
		if !ok {
			errs = append(errs, fmt.Sprintf("violation of %s/%s seed %d (%s: %s) did not repeat", found.t.l.kind, found.t.l.profile, found.t.seed, found.v.Class, found.v.Msg))
			nviol = 0
		}
	}
	perHour := float64(runs) / searchWall.Hours()
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed), "level": sp.level, "wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": assumptions,
		"coverage": map[string]any{
			"evaluations":         runs,
			"distinct_nontrivial": len(nontriv),
			"rule": "One evaluation is one simulated execution of the real program code, generated from one seed: configuration, upstream content, history of operations, schedule and faults (profiles: " + sp.desc + "). " +
				"Two executions are distinct if the hash over all scheduling decisions or the hash over the event log differs; one is non-trivial if at least one fault fired or at least one oracle evaluation (probe) took place in it.",
			"samples":                             samples,
			"simulated_runs_per_hour":             int(perHour),
			"seeds_per_hour":                      int(perHour),
			"simulated_seconds":                   simsec,
			"runs_per_profile":                    perProf,
			"faults_injected":                     faults,
			"probes":                              probes,
			"distinct_executions":                 len(hashes),
			"system_steps":                        steps,
			"scheduling_decisions":                picks,
			"run_endings":                         reasons,
			"determinism_rechecked_runs":          detN,
			"determinism_mismatches":              len(detBad),
			"wall_limit_exceeded":                 len(slow),
			"violations_of_other_properties_seen": other,
			"real_code":                           realCode[sp.comp],
			"simulated":                           stubCode,
			"known_findings_met": func() int {
				n := 0
				for _, k := range kn {
					if k.prop == prop {
						n += k.seen
					}
				}
				return n
			}(),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%d runs (%d distinct), %.0f simulated s, %d runs/h, faults %v\nprobes %v\n", runs, len(hashes), simsec, int(perHour), total2(faults), sortedMap(probes))
	if len(other) > 0 {
		fmt.Printf("violations of other properties seen: %v\n", sortedMap(other))
	}
	if len(detBad) > 0 {
		fmt.Printf("NOTE: %d of %d repeated runs differed: %v\n", len(detBad), detN, detBad)
	}
	if len(slow) > 0 {
		fmt.Printf("NOTE: wall clock limit exceeded by %v\n", slow)
	}
	if nviol > 0 {
		fmt.Printf("%s: %s\n", found.v.Class, found.v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		os.Exit(1)
	}
	for _, e := range errs {
		fmt.Println("ERROR:", e)
	}
	if len(errs) > 0 || len(slow) > 2+runs/100 {
		os.Exit(2)
	}
	for _, p := range sp.need {
		if probes[p] == 0 && faults[p] == 0 {
			fatal("the condition %q was never reached in %d runs: this check covers nothing", p, runs)
		}
	}
	fmt.Println("OK")
}

func total2(m map[string]int) string {
	n := 0
	for _, v := range m {
		n += v
	}
	return fmt.Sprintf("%d of %d kinds", n, len(m))
}

func sortedMap(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var o []string
	for _, k := range ks {
		o = append(o, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(o, " ")
}
