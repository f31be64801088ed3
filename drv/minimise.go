package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type finding struct {
	t     task
	v     Violation
	crash string
}

// Replay file.
type Replay struct {
	Property string         `json:"property"`
	Kind     string         `json:"kind"`
	Profile  string         `json:"profile"`
	Seed     uint64         `json:"seed"`
	Class    string         `json:"class"`
	Msg      string         `json:"msg"`
	Hash     string         `json:"schedule_hash,omitempty"`
	LogHash  string         `json:"log_hash,omitempty"`
	Steps    uint64         `json:"steps,omitempty"`
	Plan     map[string]any `json:"plan,omitempty"`
	Note     string         `json:"note,omitempty"`
	Log      []string       `json:"log,omitempty"`
}

var tmpN int
var tmpMu sync.Mutex

func tmpFile(b []byte) string {
	tmpMu.Lock()
	tmpN++
	p := filepath.Join(verif, ".build", fmt.Sprintf("plan-%d-%d.json", os.Getpid(), tmpN))
	tmpMu.Unlock()
	if err := os.WriteFile(p, b, 0644); err != nil {
		fatal("%v", err)
	}
	return p
}

func runPlan(kind string, plan map[string]any, args ...string) outcome {
	b, err := json.Marshal(plan)
	if err != nil {
		fatal("%v", err)
	}
	p := tmpFile(b)
	defer os.Remove(p)
	return runChild(kind, 60*time.Second, append([]string{"-plan", p}, args...)...)
}

func decodePlan(b []byte) map[string]any {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var m map[string]any
	if err := d.Decode(&m); err != nil {
		return nil
	}
	return m
}

func clone(x any) any {
	switch v := x.(type) {
	case map[string]any:
		o := map[string]any{}
		for k, e := range v {
			o[k] = clone(e)
		}
		return o
	case []any:
		o := make([]any, len(v))
		for i, e := range v {
			o[i] = clone(e)
		}
		return o
	}
	return x
}

// match tells whether an outcome shows the same violation.
func (f *finding) match(prop string, o outcome) (Violation, bool) {
	if f.crash != "" {
		if o.crash == "" {
			return Violation{}, false
		}
		v := crashResult(f.t.l.kind, o.crash)
		return v, v.Class == f.v.Class
	}
	if o.res == nil {
		return Violation{}, false
	}
	for _, v := range o.res.Viol {
		if has(v.Props, prop) && v.Class == f.v.Class {
			return v, true
		}
	}
	return Violation{}, false
}

type edit struct {
	desc  string
	apply func(m map[string]any)
}

// edits lists simplifications of a plan, coarse ones first.
func edits(plan map[string]any) []edit {
	var out []edit
	var walk func(path []any, x any, depth int)
	get := func(m map[string]any, path []any) any {
		var cur any = m
		for _, k := range path {
			switch key := k.(type) {
			case string:
				mm, ok := cur.(map[string]any)
				if !ok {
					return nil
				}
				cur = mm[key]
			case int:
				l, ok := cur.([]any)
				if !ok || key >= len(l) {
					return nil
				}
				cur = l[key]
			}
		}
		return cur
	}
	set := func(m map[string]any, path []any, val any) {
		parent := get(m, path[:len(path)-1])
		switch key := path[len(path)-1].(type) {
		case string:
			if mm, ok := parent.(map[string]any); ok {
				if val == nil {
					delete(mm, key)
				} else {
					mm[key] = val
				}
			}
		case int:
			if l, ok := parent.([]any); ok && key < len(l) {
				l[key] = val
			}
		}
	}
	skip := map[string]bool{"seed": true, "rand": true, "budget": true, "kind": true, "profile": true, "picks": true, "yields": true, "explicit": true, "op": true}
	walk = func(path []any, x any, depth int) {
		p := append([]any(nil), path...)
		switch v := x.(type) {
		case []any:
			n := len(v)
			for size := n; size >= 1; size /= 2 {
				for i := 0; i < n; i += size {
					i, j := i, min(i+size, n)
					out = append(out, edit{fmt.Sprintf("drop %v[%d:%d]", p, i, j), func(m map[string]any) {
						l, ok := get(m, p).([]any)
						if !ok || j > len(l) {
							return
						}
						nl := append(append([]any{}, l[:i]...), l[j:]...)
						if len(nl) == 0 {
							set(m, p, nil)
						} else {
							set(m, p, nl)
						}
					}})
				}
			}
			for i, e := range v {
				walk(append(p, i), e, depth+1)
			}
		case map[string]any:
			var ks []string
			for k := range v {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if skip[k] {
					continue
				}
				q := append(append([]any(nil), p...), k)
				switch v[k].(type) {
				case json.Number, bool, string, map[string]any:
					out = append(out, edit{fmt.Sprintf("unset %v", q), func(m map[string]any) { set(m, q, nil) }})
				}
				walk(q, v[k], depth+1)
			}
		case json.Number:
			if v.String() != "0" && v.String() != "1" {
				out = append(out, edit{fmt.Sprintf("%v=1", p), func(m map[string]any) { set(m, p, json.Number("1")) }})
				if f, err := v.Int64(); err == nil && f > 3 {
					out = append(out, edit{fmt.Sprintf("%v/2", p), func(m map[string]any) { set(m, p, json.Number(fmt.Sprint(f/2))) }})
				}
			}
		}
	}
	for _, k := range []string{"mirror", "cacher", "lib"} {
		if x, ok := plan[k]; ok {
			walk([]any{k}, x, 0)
		}
	}
	// simpler scheduling
	out = append(out,
		edit{"no stalls", func(m map[string]any) { set(m, []any{"sched", "delay"}, nil) }},
		edit{"no yields", func(m map[string]any) { set(m, []any{"sched", "yield"}, nil) }},
		edit{"round robin", func(m map[string]any) {
			set(m, []any{"sched", "mode"}, json.Number("0"))
			set(m, []any{"sched", "yield"}, nil)
			set(m, []any{"sched", "pick"}, nil)
		}})
	return out
}

func size(plan map[string]any) int {
	b, _ := json.Marshal(plan)
	return len(b)
}

// confirm repeats the failing run, minimises it and writes the replay file.
func (f *finding) confirm(prop, tier string) (string, bool) {
	kind := f.t.l.kind
	s := fmt.Sprint(f.t.seed)
	rp := &Replay{Property: prop, Kind: kind, Profile: f.t.l.profile, Seed: f.t.seed, Class: f.v.Class, Msg: f.v.Msg}
	ok := false
	for i := 0; i < 3 && !ok; i++ {
		o := runChild(kind, 150*time.Second, "-profile", f.t.l.profile, "-seed", s)
		_, ok = f.match(prop, o)
	}
	if !ok {
		return "", false
	}
	plan := showPlan(kind, f.t.l.profile, s)
	if plan == nil {
		return "", false
	}
	deadline := time.Now().Add(40 * time.Second)
	if tier == "thorough" {
		deadline = time.Now().Add(120 * time.Second)
	}
	if _, ok := f.match(prop, runPlan(kind, plan)); ok {
		plan = f.shrink(prop, plan, deadline)
	}
	// turn the schedule into an explicit list of decisions and shrink that
	o := runPlan(kind, plan, "-decisions")
	if o.res != nil && !o.res.Lost && o.res.Plan != nil {

		xp := decodePlan(rawPlan(kind, plan))
		if xp != nil {
			if _, ok := f.match(prop, runPlan(kind, xp)); ok {
				xp = f.shrinkDecisions(prop, xp, deadline.Add(15*time.Second))
				plan = xp
			}
		}
	}
	o = runPlan(kind, plan, "-log")
	if v, ok := f.match(prop, o); ok && o.res != nil {
		rp.Msg, rp.Hash, rp.LogHash, rp.Steps = v.Msg, o.res.Hash, o.res.LogHash, o.res.Steps
		rp.Log = tailLines(o.res.Log, 400)
		f.v = v
	}
	rp.Plan = plan
	rp.Note = "replay: bash /verif/tools/replay.sh <this file>; the log below is the event log of the run"
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, f.t.seed))
	if err := os.WriteFile(p, b, 0644); err != nil {
		fatal("%v", err)
	}
	return p, true
}

func tailLines(s string, n int) []string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return l
}

func (f *finding) shrink(prop string, plan map[string]any, deadline time.Time) map[string]any {
	kind := f.t.l.kind
	for round := 0; round < 6; round++ {
		progress := false
		list := edits(plan)
		for i := 0; i < len(list) && time.Now().Before(deadline); {
			n := min(8, len(list)-i)
			cand := make([]map[string]any, n)
			good := make([]bool, n)
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				c := clone(plan).(map[string]any)
				list[i+k].apply(c)
				if size(c) >= size(plan) && !strings.Contains(list[i+k].desc, "=1") && !strings.Contains(list[i+k].desc, "/2") {
					continue
				}
				if a, b := mustJSON(c), mustJSON(plan); a == b {
					continue
				}
				cand[k] = c
				wg.Add(1)
				go func() {
					defer wg.Done()
					_, good[k] = f.match(prop, runPlan(kind, c))
				}()
			}
			wg.Wait()
			took := -1
			for k := 0; k < n; k++ {
				if good[k] {
					took = k
					break
				}
			}
			if took < 0 {
				i += n
				continue
			}
			plan = cand[took]
			progress = true
			old := i + took
			list = edits(plan)
			// go on at about the same place
			i = min(old, len(list))
			if strings.HasPrefix(list[min(old, len(list)-1)].desc, "drop") && old > 2 {
				i = max(0, old-2)
			}
		}
		if !progress || time.Now().After(deadline) {
			break
		}
	}
	return plan
}

func mustJSON(x any) string {
	b, _ := json.Marshal(x)
	return string(b)
}

func (f *finding) shrinkDecisions(prop string, plan map[string]any, deadline time.Time) map[string]any {
	kind := f.t.l.kind
	for _, key := range []string{"picks", "yields"} {
		sched, _ := plan["sched"].(map[string]any)
		if sched == nil {
			return plan
		}
		l, _ := sched[key].([]any)
		chunk := len(l)
		for chunk >= 1 && time.Now().Before(deadline) {
			removed := false
			for i := 0; i < len(l) && time.Now().Before(deadline); {
				// try up to 8 chunks in parallel
				var starts []int
				for j := i; j < len(l) && len(starts) < 8; j += chunk {
					starts = append(starts, j)
				}
				good := make([]bool, len(starts))
				cands := make([]map[string]any, len(starts))
				var wg sync.WaitGroup
				for k, st := range starts {
					c := clone(plan).(map[string]any)
					nl := append(append([]any{}, l[:st]...), l[min(st+chunk, len(l)):]...)
					c["sched"].(map[string]any)[key] = nl
					cands[k] = c
					wg.Add(1)
					go func() {
						defer wg.Done()
						_, good[k] = f.match(prop, runPlan(kind, c))
					}()
				}
				wg.Wait()
				took := -1
				for k := range starts {
					if good[k] {
						took = k
						break
					}
				}
				if took < 0 {
					i = starts[len(starts)-1] + chunk
					continue
				}
				plan = cands[took]
				l, _ = plan["sched"].(map[string]any)[key].([]any)
				i = starts[took]
				removed = true
			}
			if chunk == 1 && !removed {
				break
			}
			if chunk > 1 {
				chunk = (chunk + 1) / 2
			}
		}
	}
	return plan
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	rp := &Replay{}
	if err := d.Decode(rp); err != nil {
		fatal("%v", err)
	}
	f := &finding{t: task{l: load{kind: rp.Kind, profile: rp.Profile}, seed: rp.Seed}, v: Violation{Class: rp.Class}}
	if rp.LogHash == "" {
		f.crash = "x"
	}
	o := runPlan(rp.Kind, rp.Plan, "-log")
	if o.res != nil {
		fmt.Println(o.res.Log)
	} else {
		fmt.Println(o.crash, o.err)
	}
	v, ok := f.match(rp.Property, o)
	if !ok {
		fmt.Println("the violation does not occur in this tree")
		os.Exit(0)
	}
	if o.res != nil && (o.res.LogHash != rp.LogHash || o.res.Hash != rp.Hash) {
		fmt.Printf("the violation occurs, but the run differs (log hash %s, recorded %s)\n", o.res.LogHash, rp.LogHash)
	} else {
		fmt.Println("the recorded run was repeated exactly")
	}
	fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Msg, rp.Property, file)
	os.Exit(1)
}
