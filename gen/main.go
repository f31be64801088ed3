// Command gen writes the build overlay of the simulator: patched copies of a
// few standard library files (scheduler, clock, randomness, system calls,
// dialling and listening), of the well module (one environment per simulated
// process) and instrumented copies of /repo's current source files.
//
// usage: gen <repo> <outdir> <stdpatchdir> <modcache>
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo, out, self, goroot string
	replace                 = map[string]string{}
	scaled                  bool // cacher.NewStorage was found
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gen: "+f+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func emit(orig, name string, data []byte) {
	p := filepath.Join(out, name)
	must(os.MkdirAll(filepath.Dir(p), 0755))
	old, err := os.ReadFile(p)
	if err != nil || !bytes.Equal(old, data) {
		must(os.WriteFile(p, data, 0644))
	}
	replace[orig] = p
}

type edit struct{ from, to string }

// patchStd applies textual edits to a standard library file; every anchor
// must occur exactly once.
func patchStd(rel string, edits ...edit) { patchAll(rel, nil, edits...) }

// patchAll also applies the edits all to every occurrence.
func patchAll(rel string, all []edit, edits ...edit) {
	p := filepath.Join(goroot, "src", rel)
	b, err := os.ReadFile(p)
	must(err)
	s := string(b)
	for _, e := range all {
		s = strings.ReplaceAll(s, e.from, e.to)
	}
	for _, e := range edits {
		if strings.Count(s, e.from) != 1 {
			die("%s: anchor found %d times: %q", rel, strings.Count(s, e.from), e.from)
		}
		s = strings.Replace(s, e.from, e.to, 1)
	}
	emit(p, filepath.Join("std", rel), []byte(s))
}

// hookFuncs inserts "if runtime.SimNode() != 0 && SimHook<x> != nil { return ... }"
// at the start of the named functions and returns the hook declarations.
func hookFuncs(rel string, pkgPrefix string, names map[string]string, declared map[string]bool, decls *bytes.Buffer) {
	p := filepath.Join(goroot, "src", rel)
	src, err := os.ReadFile(p)
	must(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
	must(err)
	type ins struct {
		off  int
		text string
	}
	var inss []ins
	found := map[string]bool{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Body == nil {
			continue
		}
		hook, ok := names[fd.Name.Name]
		if !ok {
			continue
		}
		found[fd.Name.Name] = true
		var args []string
		for i, fl := range fd.Type.Params.List {
			for j, n := range fl.Names {
				if n.Name == "_" {
					n.Name = fmt.Sprintf("simp%d_%d", i, j)
				}
				args = append(args, n.Name)
			}
		}
		ret := "return "
		if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 {
			die("%s: no result", fd.Name.Name)
		}
		inss = append(inss, ins{fset.Position(fd.Body.Lbrace).Offset + 1,
			fmt.Sprintf(" if runtime.SimNode() != 0 && %sSimHook%s != nil { runtime.SimEnter(); defer runtime.SimLeave(); %s%sSimHook%s(%s) };", pkgPrefix, hook, ret, pkgPrefix, hook, strings.Join(args, ", "))})
		if !declared[hook] {
			declared[hook] = true
			var b bytes.Buffer
			printer.Fprint(&b, fset, fd.Type)
			fmt.Fprintf(decls, "var SimHook%s %s\n", hook, b.String())
		}
	}
	for n := range names {
		if !found[n] {
			die("%s: function %s not found", rel, n)
		}
	}
	sort.Slice(inss, func(i, j int) bool { return inss[i].off > inss[j].off })
	s := string(src)
	for _, i := range inss {
		s = s[:i.off] + i.text + s[i.off:]
	}
	if !strings.Contains(s, "\"runtime\"") {
		s = addImport(s, f, fset, "runtime", "")
	}
	emit(p, filepath.Join("std", rel), []byte(s))
}

func addImport(s string, f *ast.File, fset *token.FileSet, path, alias string) string {
	off := fset.Position(f.Name.End()).Offset
	if alias != "" {
		alias += " "
	}
	return s[:off] + "; import " + alias + "\"" + path + "\"" + s[off:]
}

// instrument inserts runtime.SimYield() before every statement.
func instrument(path string, pkgName string, yields bool) []byte {
	src, err := os.ReadFile(path)
	must(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	must(err)
	var offs []int
	add := func(list []ast.Stmt) {
		for _, st := range list {
			switch st.(type) {
			case *ast.EmptyStmt:
				continue
			}
			offs = append(offs, fset.Position(st.Pos()).Offset)
		}
	}
	if yields {
		ast.Inspect(f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				skip := false
				for _, st := range b.List {
					switch st.(type) {
					case *ast.CaseClause, *ast.CommClause:
						skip = true
					}
				}
				if !skip {
					add(b.List)
				}
			case *ast.CaseClause:
				add(b.Body)
			case *ast.CommClause:
				add(b.Body)
			case *ast.LabeledStmt:
				// goto targets: also yield after the label when the
				// labelled statement is not a loop/switch/select.
				switch b.Stmt.(type) {
				case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.EmptyStmt, *ast.BlockStmt:
				default:
					offs = append(offs, fset.Position(b.Stmt.Pos()).Offset)
				}
			}
			return true
		})
	}
	// capacities are scaled down: 1 GiB becomes 4096 bytes
	scale, scaleOff := "", 0
	if f.Name.Name == "cacher" {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Body == nil || fd.Name.Name != "NewStorage" {
				continue
			}
			for _, fl := range fd.Type.Params.List {
				if id, ok := fl.Type.(*ast.Ident); ok && id.Name == "uint64" && len(fl.Names) == 1 {
					scale = " " + fl.Names[0].Name + " = simScale(" + fl.Names[0].Name + "); "
					scaleOff = fset.Position(fd.Body.Lbrace).Offset + 1
					scaled = true
				}
			}
		}
	}
	s := string(src)
	sort.Sort(sort.Reverse(sort.IntSlice(offs)))
	last := -1
	done := scale == ""
	for _, o := range offs {
		if o == last {
			continue
		}
		last = o
		if !done && o < scaleOff {
			done = true
			s = s[:scaleOff] + scale + s[scaleOff:]
		}
		s = s[:o] + "simrt.SimYield(); " + s[o:]
	}
	if !done {
		s = s[:scaleOff] + scale + s[scaleOff:]
	}
	if len(offs) > 0 {
		s = addImport(s, f, fset, "runtime", "simrt")
	}
	if pkgName != "" {
		a, b := fset.Position(f.Name.Pos()).Offset, fset.Position(f.Name.End()).Offset
		s = s[:a] + pkgName + s[b:]
	}
	return []byte("//line " + path + ":1\n" + s)
}

func goFiles(dir string) []string {
	l, err := filepath.Glob(filepath.Join(dir, "*.go"))
	must(err)
	var r []string
	for _, p := range l {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		r = append(r, p)
	}
	return r
}

func main() {
	if len(os.Args) != 4 {
		die("usage: gen <repo> <outdir> <verifdir>")
	}
	repo, out, self = os.Args[1], os.Args[2], os.Args[3]
	b, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	goroot = strings.TrimSpace(string(b))
	b, err = exec.Command("go", "env", "GOMODCACHE").Output()
	must(err)
	modcache := strings.TrimSpace(string(b))

	// --- runtime ---
	rtsrc, err := os.ReadFile(filepath.Join(self, "gen", "zsim_runtime.go.txt"))
	must(err)
	emit(filepath.Join(goroot, "src/runtime/zsim.go"), "std/runtime/zsim.go", rtsrc)
	patchStd("runtime/proc.go",
		edit{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		edit{"	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n",
			"	if simOn {\n		if w := pp.timers.wakeTime(); w != 0 {\n			if w > faketime {\n				faketime = w\n			}\n			goto top\n		}\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n"},
		edit{"	} else {\n		lock(&sched.lock)\n		globrunqput(gp)\n		unlock(&sched.lock)\n	}\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n",
			"	} else if simOn {\n		runqput(pp, gp, false)\n	} else {\n		lock(&sched.lock)\n		globrunqput(gp)\n		unlock(&sched.lock)\n	}\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n"},
		edit{"	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	newg.simNode = callergp.simNode\n	newg.simPrio = 0\n	newg.simQuiet = 0\n	if newg.simNode == 0 {\n		newg.simQuiet = 1\n	}\n"},
		edit{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if simOn {\n		simPick(pp)\n	}\n"},
	)
	patchStd("runtime/runtime2.go",
		edit{"	stackguard1 uintptr // offset known to cmd/internal/obj/*\n\n	_panic    *_panic // innermost panic",
			"	stackguard1 uintptr // offset known to cmd/internal/obj/*\n\n	_panic    *_panic // innermost panic"},
		edit{"	parentGoid      uint64 ", "	simNode         int32\n	simQuiet        int32\n	simPrio         uint32\n	parentGoid      uint64 "},
	)
	// the simulator's own memory accesses are invisible to the race detector
	patchStd("runtime/race_amd64.s",
		edit{"	MOVQ	g_racectx(R14), RARG0	// goroutine context\n	// Check that addr is within [arenastart", "	CMPL	g_simQuiet(R14), $0\n	JNE	ret\n	MOVQ	g_racectx(R14), RARG0	// goroutine context\n	// Check that addr is within [arenastart"},
		edit{"racecallatomic_ok:\n", "racecallatomic_ok:\n	CMPL	g_simQuiet(R14), $0\n	JNE	racecallatomic_ignore\n"},
	)
	patchAll("runtime/race.go", []edit{{"if getg().raceignore != 0 ||", "if getg().raceignore != 0 || getg().simQuiet != 0 ||"}})
	for _, n := range []string{"race", "norace"} {
		d, err := os.ReadFile(filepath.Join(self, "gen", "zsim_"+n+".go.txt"))
		must(err)
		emit(filepath.Join(goroot, "src/runtime/zsim_"+n+".go"), "std/runtime/zsim_"+n+".go", d)
	}
	patchStd("runtime/rand.go",
		edit{"	seed := &globalRand.seed\n", "	seed := &globalRand.seed\n	startupRand = nil\n	for i := range seed {\n		seed[i] = byte(i*7 + 3)\n	}\n	globalRand.state.Init(*seed)\n	globalRand.init = true\n	unlock(&globalRand.lock)\n	if true {\n		return\n	}\n"},
		edit{"	mp := getg().m\n	c := &mp.chacha8\n", "	if simOn {\n		return simMix(&simRandSt)\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"},
	)
	patchStd("runtime/select.go",
		edit{"		j := cheaprandn(uint32(norder + 1))\n", "		var j uint32\n		if simOn {\n			j = uint32(simMix(&simSelSt)>>33) % uint32(norder+1)\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"},
	)
	patchStd("runtime/panic.go",
		edit{"	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return", "	if simOn && gp.simNode != 0 && simPanicFn != nil {\n		runningPanicDefers.Add(-1)\n		gp.simQuiet++\n		simPanicFn(e)\n		simDead[gp.simNode] = true\n		simParkForever()\n	}\n	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return"},
	)
	tf, err := os.ReadFile(filepath.Join(goroot, "src/runtime/time_fake.go"))
	must(err)
	s := string(tf)
	i := strings.Index(s, "	// Write with the playback header.")
	if i < 0 {
		die("time_fake.go changed")
	}
	s = s[:i] + "	return write1(fd, p, n)\n}\n"
	s = strings.Replace(s, "	return faketime / 1e9, int32(faketime % 1e9), faketime\n", "	w := faketime + simWallOff\n	return w / 1e9, int32(w % 1e9), faketime\n", 1)
	s = strings.Replace(s, "var faketime int64 = 1257894000000000000", "var faketime int64 = 1700000000000000000", 1)
	emit(filepath.Join(goroot, "src/runtime/time_fake.go"), "std/runtime/time_fake.go", []byte(s))

	// --- time.AfterFunc keeps the simulated process ---
	patchStd("time/sleep.go",
		edit{"func AfterFunc(d Duration, f func()) *Timer {\n	return newTimer(when(d), 0, goFunc, f, nil)\n}\n",
			"func AfterFunc(d Duration, f func()) *Timer {\n	if node := simNode(); node != 0 {\n		f0 := f\n		f = func() {\n			if simSetNode(node) {\n				f0()\n			}\n		}\n	}\n	return newTimer(when(d), 0, goFunc, f, nil)\n}\n\nfunc simNode() int32\nfunc simSetNode(int32) bool\n"},
	)

	// --- system calls ---
	var decls bytes.Buffer
	declared := map[string]bool{}
	same := func(l ...string) map[string]string {
		m := map[string]string{}
		for _, n := range l {
			m[n] = strings.ToUpper(n[:1]) + n[1:]
		}
		return m
	}
	hookFuncs("syscall/zsyscall_linux_amd64.go", "", same(
		"faccessat", "faccessat2", "linkat", "openat", "readlinkat", "symlinkat", "utimensat", "Getcwd", "Chdir", "Close",
		"Dup", "Dup3", "Dup2", "Fallocate", "Fchdir", "Fchmod", "fchmodat", "fchmodat2", "Fchownat", "fcntl", "Fdatasync", "Flock", "Fsync", "Getdents",
		"Mkdirat", "Mknodat", "read", "write", "Fchown", "Fstat", "Fstatfs", "Ftruncate", "pread", "pwrite", "Renameat",
		"Seek", "Statfs", "Truncate", "fstatat", "unlinkat", "SyncFileRange"), declared, &decls)
	hookFuncs("internal/syscall/unix/at.go", "syscall.", map[string]string{
		"Unlinkat": "Unlinkat", "Openat": "Openat", "Readlinkat": "Readlinkat", "Mkdirat": "Mkdirat", "Fchownat": "Fchownat",
		"Renameat": "Renameat", "Linkat": "Linkat", "Symlinkat": "Symlinkat"}, declared, &decls)
	hookFuncs("internal/syscall/unix/at_fstatat.go", "syscall.", map[string]string{"Fstatat": "Fstatat"}, declared, &decls)
	hookFuncs("internal/syscall/unix/copy_file_range_unix.go", "syscall.", map[string]string{"CopyFileRange": "CopyFileRange"}, declared, &decls)
	hookFuncs("internal/syscall/unix/fcntl_unix.go", "syscall.", map[string]string{"Fcntl": "Fcntl"}, declared, &decls)
	su, err := os.ReadFile(filepath.Join(goroot, "src/syscall/syscall_unix.go"))
	must(err)
	// system calls must not order memory accesses for the race detector
	var ioEdits []edit
	for _, l := range strings.Split(string(su), "\n") {
		if strings.Contains(l, "(unsafe.Pointer(&ioSync))") {
			ioEdits = append(ioEdits, edit{l, l[:strings.Index(l, "race.")] + "_ = &ioSync"})
		}
	}
	patchAll("syscall/syscall_unix.go", ioEdits,
		edit{"	if faketime && (fd == 1 || fd == 2) {\n", "	if runtime.SimNode() != 0 && SimHookWrite != nil && (fd == 1 || fd == 2) {\n		runtime.SimEnter()\n		defer runtime.SimLeave()\n		return SimHookWrite(fd, p)\n	}\n	if faketime && (fd == 1 || fd == 2) {\n"},
	)
	emit(filepath.Join(goroot, "src/syscall/zsim.go"), "std/syscall/zsim.go", []byte("package syscall\n\n"+decls.String()))

	patchStd("internal/syscall/unix/getrandom.go",
		edit{"	ret, supported := vgetrandom(p, uint32(flags))\n", "	if runtime.SimActive() {\n		runtime.SimFillRand(p)\n		return len(p), nil\n	}\n	ret, supported := vgetrandom(p, uint32(flags))\n"},
		edit{"import (\n", "import (\n	\"runtime\"\n"})

	patchStd("os/proc.go",
		edit{"	if code == 0 && testlog.PanicOnExit0() {\n", "	if runtime.SimNode() != 0 {\n		runtime.SimExit(code)\n	}\n	if code == 0 && testlog.PanicOnExit0() {\n"},
	)

	// --- net ---
	patchStd("net/dial.go",
		edit{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
			"var SimDial func(d *Dialer, ctx context.Context, network, address string) (Conn, error)\nvar SimListen func(ctx context.Context, network, address string) (Listener, error)\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDial != nil && runtime.SimNode() != 0 {\n		return SimDial(d, ctx, network, address)\n	}\n"},
		edit{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
			"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil && runtime.SimNode() != 0 {\n		return SimListen(ctx, network, address)\n	}\n"},
		edit{"import (\n", "import (\n	\"runtime\"\n"},
	)

	// --- well: one default environment per simulated process ---
	well := filepath.Join(modcache, "github.com/cybozu-go/well@v1.10.0")
	// (files of the module cache cannot be overlaid: a patched copy of the
	// module is used through a replace directive)
	wcopy := func(name string, data []byte) {
		p := filepath.Join(out, "well", name)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		old, err := os.ReadFile(p)
		if err != nil || !bytes.Equal(old, data) {
			must(os.WriteFile(p, data, 0644))
		}
	}
	for _, p := range append(goFiles(well), filepath.Join(well, "go.mod")) {
		base := filepath.Base(p)
		d, err := os.ReadFile(p)
		must(err)
		switch base {
		case "default.go":
			d, err = os.ReadFile(filepath.Join(self, "gen", "well_default.go.txt"))
			must(err)
		case "signal.go":
			s := strings.Replace(string(d), "	signal.Notify(ch, stopSignals...)\n", "	simRegisterSignal(ch)\n", 1)
			s = strings.Replace(s, "	\"os/signal\"\n", "", 1)
			d = []byte(s)
		case "http.go", "server.go":
			d = instrument(p, "", true)
		case "env.go":
			d = instrument(p, "", true)
		}
		if strings.HasSuffix(base, ".go") && base != "default.go" {
			d = bytes.ReplaceAll(d, []byte("defaultEnv"), []byte("simEnv()"))
		}
		wcopy(base, d)
	}

	// --- /repo ---
	for _, dir := range []string{"apt", "mirror", "cacher"} {
		for _, p := range goFiles(filepath.Join(repo, dir)) {
			emit(p, filepath.Join("repo", dir, filepath.Base(p)), instrument(p, "", true))
		}
	}
	unit := "package cacher\n\n// SimUnit is the number of bytes of a configured GiB in the simulation.\nconst SimUnit = "
	if scaled {
		unit += "4096\n\nfunc simScale(c uint64) uint64 { return (c + 1<<18 - 1) >> 18 }\n"
	} else {
		unit += "1 << 30\n"
	}
	emit(filepath.Join(repo, "cacher", "zsim_unit.go"), "repo/cacher/zsim_unit.go", []byte(unit))
	// any further package directories below (new ones a change may add)
	filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil || !info.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		if strings.HasPrefix(info.Name(), ".") && rel != "." {
			return filepath.SkipDir
		}
		if rel == "." || rel == "apt" || rel == "mirror" || rel == "cacher" || rel == "cmd" || strings.HasPrefix(rel, "cmd/") {
			return nil
		}
		for _, f := range goFiles(p) {
			emit(f, filepath.Join("repo", rel, filepath.Base(f)), instrument(f, "", true))
		}
		return nil
	})
	// the two main packages become importable packages of the harness
	for cmd, pkg := range map[string]string{"go-apt-mirror": "mirrormain", "go-apt-cacher": "cachermain"} {
		for _, p := range goFiles(filepath.Join(repo, "cmd", cmd)) {
			b := instrument(p, pkg, false)
			emit(filepath.Join(self, "sim", pkg, filepath.Base(p)), filepath.Join("repo/cmd", cmd, filepath.Base(p)), b)
		}
		emit(filepath.Join(self, "sim", pkg, "zsim_main.go"), filepath.Join("repo/cmd", cmd, "zsim_main.go"),
			[]byte("package "+pkg+"\n\n// Main runs the program's main function.\nfunc Main() { main() }\n"))
	}

	j, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644))
}
