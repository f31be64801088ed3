package main

// load is one kind of generated run.
type load struct {
	kind    string // simulator binary
	profile string
	weight  float64
}

type spec struct {
	loads   []load
	level   string
	desc    string
	comp    string   // which components run
	need    []string // probes that must have been reached
	minRuns int
}

func m(l ...any) []load { return loads("mirror", l) }
func c(l ...any) []load { return loads("cacher", l) }

func loads(kind string, l []any) []load {
	var o []load
	for i := 0; i < len(l); i += 2 {
		w := 0.0
		switch x := l[i+1].(type) {
		case int:
			w = float64(x)
		case float64:
			w = x
		}
		o = append(o, load{kind, l[i].(string), w})
	}
	return o
}

const ex = "exploration"

var specs = map[string]spec{
	"M01": {loads: m("M01", 4, "M03", 1, "M11", 1, "M05", 1), desc: "histories of runs with network, content, disk, crash and power faults; every published tree is compared with upstream", need: []string{"trees-checked", "files-checked", "power-loss-checked"}},
	"M02": {loads: m("M02", 5, "M14", 1), desc: "kill and power loss at file-system calls and arbitrary instants, with directory entries and unsynced data lost", need: []string{"power-loss-checked", "power-loss"}},
	"M03": {loads: m("M03", 5, "M11", 1, "M04", 0.5), desc: "corrupt, stale, swapped, truncated and padded upstream content", need: []string{"trees-checked", "up-corrupt", "up-swap"}},
	"M04": {loads: m("M04", 5, "M11", 1), desc: "repository and configuration shapes; completeness and exactness of the published tree", need: []string{"trees-checked", "files-checked"}},
	"M05": {loads: m("M05", 5, "M03", 1, "M14", 1, "M12", 0.5), desc: "runs with several mirrors failing in every way", need: []string{"runs-failed", "runs-ok"}},
	"M06": {loads: m("M06", 5, "M02", 1), desc: "histories of runs over subsets of mirrors with failures and crashes", need: []string{"cleanup-checked"}},
	"M07": {loads: m("M07", 5, "M09", 1, "M05", 1), desc: "transient network and HTTP trouble that ends; slow and stalled peers", need: []string{"runs-ok"}},
	"M08": {loads: m("M08", 1), desc: "concurrent runs on one mirror directory", need: []string{"second-runs"}},
	"M09": {loads: m("M09", 5, "M07", 1), desc: "connection limits under faults", need: []string{"capacity-checked", "parallel-downloads"}},
	"M10": {loads: m("M10", 5, "M04", 1), desc: "reuse of unchanged files over histories of upstream versions", need: []string{"reuse-checked"}},
	"M11": {loads: m("M11", 1), desc: "upstream changing while a run is going on, by-hash archives", need: []string{"trees-checked", "upstream-update"}},
	"M12": {loads: m("M12", 1), desc: "SIGTERM at arbitrary instants and file-system calls", need: []string{"cancelled-runs", "cancel-effective"}},
	"M13": {loads: m("M13", 1), desc: "hostile paths in Release, Packages and Sources files", need: []string{"runs-failed", "trees-checked"}},
	"M14": {loads: m("M14", 5, "M02", 1, "M06", 0.5), desc: "errors of single file-system calls, full disks, later power loss", need: []string{"power-loss-checked", "runs-failed"}},

	"C01": {loads: c("C01", 5, "C02", 1, "C14", 0.7, "C08", 0.7), desc: "corrupt, stale, swapped and truncated upstream content under concurrent requests, refreshes, evictions and restarts; every answer is compared with what upstream delivered and with the listings held", need: []string{"answers-200", "up-corrupt", "up-swap", "metas-cached", "evictions"}},
	"C02": {loads: c("C02", 5, "C01", 1, "C10", 1), desc: "upstream changing while downloads are running, short check intervals", need: []string{"answers-200", "refresh-checked", "upstream-update"}},
	"C03": {loads: c("C03", 5, "C09", 1), desc: "slow clients, ranges, HEAD, replacement and eviction while sending", need: []string{"answers-206", "answers-416", "evictions"}},
	"C04": {loads: c("C04", 5, "C07", 1, "C02", 0.5), desc: "bursts of requests for the same files during refreshes and changes", need: []string{"answers-200", "valid-cached-answers", "quiet-checked"}},
	"C05": {loads: c("C05", 5, "C06", 1), desc: "error statuses, recoveries and requests around the cache period", need: []string{"remembered-status", "error-answers", "up-status"}},
	"C06": {loads: c("C06", 5, "C01", 1, "C16", 1, "C05", 0.5), desc: "every upstream fault; bounded answers, recovery and capacity afterwards", need: []string{"audited", "capacity-checked", "oversize-audited"}},
	"C07": {loads: c("C07", 5, "C06", 1), desc: "connection limits over prefixes sharing hosts under faults", need: []string{"capacity-checked"}},
	"C08": {loads: c("C08", 5, "C14", 1, "C12", 0.5), desc: "kill and power loss at file-system calls and arbitrary instants, unparsable index files, restarts", need: []string{"restarts", "power-loss", "kill", "opaque-index"}},
	"C09": {loads: append(c("C09", 5, "C03", 1), loads("lib", []any{"C09", 4})...), desc: "small capacities, item sizes around them, concurrent inserts and lookups, restarts; goroutines calling the store directly, with every history of calls explained by a sequential LRU model", need: []string{"evictions", "items-cached", "restarts", "store-linearized", "store-overlaps", "store-load-evicts"}},
	"C10": {loads: c("C10", 5, "C02", 1, "C11", 1), desc: "long histories of upstream changes and outages", need: []string{"refresh-checked"}},
	"C11": {loads: c("C11", 5, "C10", 1, "C05", 0.5), desc: "outages of every kind with restarts; cached files are requested meanwhile", need: []string{"served-while-down", "restarts"}},
	"C12": {loads: c("C12", 5, "C06", 1), desc: "SIGTERM at arbitrary instants with requests, downloads and refreshes going on and changed configurations", need: []string{"shutdowns"}},
	"C13": {loads: c("C13", 5, "C06", 1, "C14", 1), desc: "faults and aborted clients, then the directories and descriptors are inspected", need: []string{"quiet-checked", "client-abort"}},
	"C14": {loads: c("C14", 1), desc: "errors of single file-system calls, full disks", need: []string{"items-cached", "settled"}},
	"C15": {loads: c("C15", 5, "C16", 1), desc: "hostile request paths and listings over several prefixes", need: []string{"unmapped-checked", "answers-200"}},
	"C16": {loads: c("C16", 5, "C15", 1, "C06", 0.5), desc: "odd requests, odd upstream answers and file names", need: []string{"unmapped-checked", "answers-200", "up-status"}},
}

func init() {
	specs["A01"] = spec{loads: loads("lib", []any{"A01", 1}), comp: "lib", desc: "index files read by several goroutines from streams and files that are slow, cut into pieces, end early or fail at any byte", need: []string{"extract-ok", "extract-failed", "extract-cut", "xz-block-cut", "damaged-rejected"}}
	specs["A02"] = spec{loads: loads("lib", []any{"A02", 1}), comp: "lib", desc: "copies between streams and files that are slow, cut into pieces, end early, write short or fail at any byte", need: []string{"copy-ok", "copy-failed"}}
	specs["R01"] = spec{
		loads: append(loads("race-cacher", []any{"C04", 3, "C02", 2, "C06", 1, "C12", 1, "C10", 1, "C09", 1, "C16", 0.5, "C01", 1, "C08", 0.5, "C05", 1}),
			loads("race-mirror", []any{"R01", 2, "M05", 1, "M09", 1, "M12", 0.5, "M07", 0.5})...),
		comp: "both", minRuns: 300,
		desc: "mixed concurrent workloads of both programs, built with the race detector",
		need: []string{"answers-200", "refresh-checked", "evictions", "shutdowns", "runs-ok", "race-detector"},
	}
	specs["P03"] = spec{loads: append(m("P03", 3), c("P03", 2)...), comp: "programs", desc: "starts of both programs with invalid configurations and arguments, at any place in histories of runs, failures and crashes", need: []string{"bad-config-checked", "https-checked"}}
	r := specs["R01"]
	r.loads = append(r.loads, loads("race-lib", []any{"C09", 1, "A01", 0.3})...)
	r.need = append(r.need, "store-overlaps")
	specs["R01"] = r
	for k, s := range specs {
		if s.level == "" {
			s.level = ex
		}
		if s.comp == "" {
			s.comp = "mirror"
			if k[0] == 'C' {
				s.comp = "cacher"
			}
		}
		specs[k] = s
	}
}

var realCode = map[string][]string{
	"mirror":   {"cmd/go-apt-mirror main (flag and TOML handling)", "package mirror (all of it)", "package apt", "well (environments, signal handling)", "cybozu-go/log", "net/http client and transport", "os, compress/*, encoding/json, time, context, sync (Go standard library above the system-call layer)", "Go run time scheduler and channels (deciding points replaced)"},
	"both":     {"cmd/go-apt-mirror and cmd/go-apt-cacher main", "packages mirror, cacher and apt (all of them, instrumented by the race detector)", "well, cybozu-go/log", "net/http client, server and transport, os, compress/*, encoding/json, time, context, sync (instrumented)", "Go run time scheduler and channels (deciding points replaced)"},
	"programs": {"cmd/go-apt-mirror and cmd/go-apt-cacher main (flag and TOML handling)", "packages mirror, cacher and apt (all of them)", "well, cybozu-go/log", "net/http client, server and transport, os, compress/*, encoding/json, time, context, sync (Go standard library above the system-call layer)", "Go run time scheduler and channels (deciding points replaced)"},
	"cacher":   {"cmd/go-apt-cacher main (flag and TOML handling)", "package cacher (all of it)", "package apt", "well (HTTP server and client, environments, signal handling)", "net/http server, client and transport", "os, encoding/json, time, context, sync (Go standard library above the system-call layer)", "Go run time scheduler and channels (deciding points replaced)"},
	"lib":      {"package apt, package cacher storage as used by the workload", "Go standard library above the system-call layer", "Go run time scheduler and channels (deciding points replaced)"},
}

var stubCode = []string{
	"file system (in memory, with durable and volatile state, at the system-call layer of os and syscall)",
	"network (in memory connections with latency, segmentation, windows, refusal, reset; DNS)",
	"clock and timers (discrete event time)",
	"scheduling of goroutines, select choices, random numbers (seeded)",
	"upstream archives (generated repositories, scripted HTTP servers)",
	"process boundaries, signals, kill and power loss",
}

var assumptions = []string{
	"the simulated file system models POSIX semantics: fsync of a file makes its data durable, fsync of a directory makes its entries durable; without them a power loss may keep or lose them (in order or out of order)",
	"checksums in generated repositories are collision free",
	"the run time's memory model effects are not explored except by the race detector build (R01)",
	"search over seeds is sampling: a clean run is evidence, not proof",
}
