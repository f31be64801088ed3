package sim

import (
	"fmt"
	"strings"
)

// Plan generator for go-apt-mirror runs. A profile (usually a property id)
// weights the kinds of trouble; every oracle watches every run.

func pickSome[T any](r *Rand, min int, l ...T) []T {
	for {
		var o []T
		for _, x := range l {
			if r.P(0.55) {
				o = append(o, x)
			}
		}
		if len(o) >= min {
			return o
		}
	}
}

// GenRepo draws an archive.
func GenRepo(r *Rand, small bool) RepoSpec {
	s := RepoSpec{Seed: r.U64() >> 1}
	s.Flat = r.P(0.15)
	exts := []string{"", ".gz", ".xz"}
	s.Exts = pickSome(r, 1, exts...)
	if r.P(0.3) {
		for _, e := range exts {
			if !contains(s.Exts, e) && r.P(0.6) {
				s.Ghost = append(s.Ghost, e)
			}
		}
	}
	if r.P(0.1) {
		s.Exts = append(s.Exts, ".lzma")
	}
	if s.Flat {
		s.Suites = Pick(r, []string{"/"}, []string{"flat/"}, []string{"./"}, []string{"a/b/", "c/"})
		if len(s.Suites) == 1 && s.Suites[0] == "./" {
			s.Suites = []string{"sub/"}
		}
	} else {
		s.Suites = pickSome(r, 1, "stable", "stable-updates")
		if r.P(0.1) {
			s.Suites = append(s.Suites, "bionic/updates")
		}
		s.Sections = pickSome(r, 1, "main", "contrib", "non-free", "free", "main/debian-installer")
		if len(s.Sections) > 2 {
			s.Sections = s.Sections[:2]
		}
		s.Archs = pickSome(r, 1, "amd64", "i386", "arm64")
		if len(s.Archs) > 2 {
			s.Archs = s.Archs[:2]
		}
		if r.P(0.2) {
			s.Archs = append(s.Archs, "all")
		}
	}
	s.Sources = r.P(0.4)
	s.ByHash = r.P(0.5)
	s.KeepHash = r.Range(1, 3)
	if s.ByHash && r.P(0.2) {
		s.KeepHash = 0
	}
	s.RelFiles = Pick(r, []string{"Release", "Release.gpg", "InRelease"}, []string{"Release", "Release.gpg", "InRelease"}, []string{"InRelease"}, []string{"Release", "Release.gpg"},
		[]string{"Release"}, []string{"Release", "Release.gz", "InRelease"})
	if f := r.Fork("relfiles"); f.P(0.12) {
		s.RelFiles = Pick(f, []string{"Release.gz"}, []string{"Release.bz2", "Release.gpg"}, []string{"InRelease.gz"}, []string{"InRelease.bz2"}, []string{"Release", "Release.gpg", "Release.gz", "Release.bz2", "InRelease", "InRelease.gz", "InRelease.bz2"}, []string{"InRelease", "InRelease.bz2"}, []string{"Release.gz", "Release.bz2"})
	}
	s.RelSums = Pick(r, 7, 7, SumMD5|SumSHA256, SumSHA256, SumMD5, SumSHA1, SumMD5|SumSHA1)
	s.ItemSums = Pick(r, 7, 7, SumMD5|SumSHA256, SumSHA256, SumMD5, SumSHA1)
	s.Pkgs = r.Range(1, 4)
	s.PkgSize = Pick(r, 20, 200, 1500, 40000)
	s.Churn = Pick(r, 0, 30, 60, 100)
	s.I18n = r.P(0.2) && !s.Flat
	s.ArchRel = r.P(0.2) && !s.Flat
	s.MixSums = r.Fork("mixsums").P(0.15)
	if f := r.Fork("insums"); f.P(0.15) {
		switch k := f.N(8) &^ s.RelSums; {
		case f.P(0.3) && k != 0:
			s.InSums = k // nothing in common
		case f.P(0.5) && k != 0:
			s.InSums = s.RelSums | k
		default:
			s.InSums = s.RelSums & Pick(f, 3, 5, 6)
		}
	}
	s.RelVer = s.ArchRel && r.P(0.6)
	s.Contents = r.P(0.2)
	s.Style = r.N(32) & Pick(r, 0, 31, 12, 1, 2)
	if r.Fork("names").P(0.2) {
		s.Style |= 32
	}
	if small {
		s.PkgSize = Pick(r, 20, 200, 1500)
	}
	if r.P(0.1) {
		s.Pad = 3000
	}
	if r.P(0.15) {
		s.Exts[r.N(len(s.Exts))] = ".bz2"
	}
	return s
}

// genBase draws the path of an upstream URL.
func genBase(r *Rand, i int, names ...string) string {
	b := fmt.Sprintf("/%s%d/", Pick(r, names...), i)
	if f := r.Fork("base"); f.P(0.1) {
		b = fmt.Sprintf("/%s%d/", Pick(f, "pa/th", "pa/th", "x/pa/th", "with space", "a+b~", "p%q"), i)
	}
	return b
}

func genLink(r *Rand) LinkCfg {
	l := LinkCfg{Lat: Pick(r, int64(10e3), int64(1e6), int64(20e6), int64(150e6))}
	if r.P(0.4) {
		l.NsPerKB = Pick(r, int64(10e3), int64(1e6), int64(20e6))
	}
	if r.P(0.3) {
		l.Seg = Pick(r, 100, 1000, 7)
		if l.Seg == 7 {
			l.Seg = 64
		}
		l.Window = 4096
	}
	return l
}

func genMirrorConf(r *Rand, id, host, base string, spec RepoSpec) MMirror {
	m := MMirror{ID: id, Host: host, Base: base, Repo: spec, Slash: r.Fork("slash").P(0.3)}
	m.Suites = spec.Suites
	if len(m.Suites) > 1 && r.P(0.3) {
		m.Suites = m.Suites[:1]
	}
	if !spec.Flat {
		m.Sections = pickSome(r, 1, spec.Sections...)
		m.Archs = pickSome(r, 1, spec.Archs...)
		if r.P(0.1) {
			m.Archs = append(m.Archs, "ppc64el") // not offered upstream
		}
	}
	m.Source = r.P(0.4)
	return m
}

// fault helpers

var transientKinds = []string{"reset", "noreply", "status5", "trunc", "truncchunked", "resetmid", "badchunk", "garbage", "dial-refused", "dial-dns", "dial-slow", "gzipcut"}
var contentKinds = []string{"corrupt", "shortcl", "grow", "stale", "next", "swap", "swaplen", "html200", "empty200", "truncclose", "unparsable"}
var slowKinds = []string{"delay", "stall", "slow", "chunked", "noclen", "redirect", "earlyhint", "headers"}

func (m *MPlan) fileNames(r *Rand, i int) []string {
	// distinctive path fragments of requests
	spec := m.Mirrors[i].Repo
	l := []string{"InRelease", "/Release", "Packages", ".deb"}
	for _, s := range spec.Sections {
		l = append(l, "/"+s+"/binary-"+spec.Archs[0], "/pool/"+s+"/"+strings.ReplaceAll(s, "/", "")+"0_", "/pool/"+s+"/"+strings.ReplaceAll(s, "/", "")+"1_")
	}
	for _, e := range spec.Exts {
		l = append(l, "Packages"+e)
	}
	if spec.Sources {
		l = append(l, "Sources", ".dsc")
	}
	if spec.ByHash {
		l = append(l, "/by-hash/")
	}
	return l
}

func genTransient(r *Rand, names []string, total int) []*Fault {
	var l []*Fault
	for total > 0 {
		n := r.Range(1, min(total, Pick(r, 1, 2, 5)))
		total -= n
		f := &Fault{Kind: Pick(r, transientKinds...), Count: n, Skip: Pick(r, 0, 0, 0, 1, 2, 5, 12)}
		if strings.HasPrefix(f.Kind, "dial-") {
			f.Skip = Pick(r, 0, 0, 1, 2)
		} else if r.P(0.6) {
			f.Path = Pick(r, names...)
		}
		switch f.Kind {
		case "status5":
			f.Kind, f.Arg = "status", Pick(r, 500, 502, 503, 504, 599)
			if r.P(0.2) {
				f.Arg2 = 20000
			}
		default:
			f.Arg = r.N(60000)
		}
		l = append(l, f)
	}
	return l
}

func genSlow(r *Rand, names []string) *Fault {
	f := &Fault{Kind: Pick(r, slowKinds...), Count: Pick(r, 1, 2, 5, -1), Skip: r.N(4)}
	if r.P(0.5) {
		f.Path = Pick(r, names...)
	}
	switch f.Kind {
	case "delay", "stall", "slow":
		f.Arg = Pick(r, 50, 700, 4000, 20000)
		if f.Count < 0 {
			f.Arg = min(f.Arg, 700)
		}
	case "headers":
		f.Arg = r.N(3000)
	case "redirect":
		f.Arg = Pick(r, 301, 302, 307, 308)
	}
	return f
}

func genContent(r *Rand, names []string) *Fault {
	f := &Fault{Kind: Pick(r, contentKinds...), Count: Pick(r, 1, 1, 2, -1), Skip: Pick(r, 0, 0, 1, 3), Arg: r.N(60000)}
	var l []string
	for _, n := range names {
		if !strings.Contains(n, "Release") {
			l = append(l, n)
		}
	}
	f.Path = Pick(r, l...)
	return f
}

func genHard(r *Rand, names []string) *Fault {
	if x := r.Fork("denied"); x.P(0.15) {
		// server errors to the end for one file only
		return &Fault{Kind: "status", Arg: Pick(x, 500, 501, 502, 503, 504, 507, 599), Count: -1, Path: Pick(x, append([]string{"Release.gpg", "Release.gz", "Release.bz2", "Release.xz", "InRelease", "/Release"}, names...)...)}
	}
	if x := r.Fork("gone"); x.P(0.25) {
		// listed packages that upstream does not have or does not give
		f := &Fault{Kind: Pick(x, "notfound", "notfound", "status"), Arg: Pick(x, 403, 404, 410, 451), Count: Pick(x, 1, -1, -1), Skip: Pick(x, 0, 0, 1, 2), Path: Pick(x, "/pool/", "/pool/", ".deb", "0_", "1_", ".dsc", ".tar", "Release")}
		for _, n := range names {
			if strings.Contains(n, "/pool/") && x.P(0.3) {
				f.Path = n
			}
		}
		return f
	}
	f := &Fault{Kind: Pick(r, "status", "status", "notfound", "reset", "noreply", "trunc", "resetmid", "dial-refused", "dial-blackhole", "status5", "hang", "biglen", "badheader"), Count: Pick(r, 1, 6, 7, -1, -1), Skip: Pick(r, 0, 0, 1, 3, 8), Arg: r.N(60000)}
	if !strings.HasPrefix(f.Kind, "dial-") {
		f.Path = Pick(r, names...)
	}
	switch f.Kind {
	case "status":
		f.Arg = Pick(r, 400, 401, 403, 410, 429, 204, 206, 301, 304)
	case "status5":
		f.Kind, f.Arg = "status", Pick(r, 500, 503)
	case "hang":
		f.Arg = Pick(r, 3000, 60000)
		f.Count = Pick(r, 1, 2)
	case "dial-blackhole":
		f.Count = Pick(r, 1, 6)
	}
	return f
}

var fsClasses = []string{"open", "create", "read", "write", "fsync", "fsyncdir", "link", "symlink", "rename", "unlink", "mkdir", "stat", "readdir", "chmod", "seek", "close", "rmdir", "flock", ""}

func genFS(r *Rand, id string) *FSFault {
	f := &FSFault{Class: Pick(r, fsClasses...), Errno: Pick(r, "EIO", "EIO", "ENOSPC", "EMFILE", "EACCES", "EDQUOT"), Skip: Pick(r, 0, 0, 1, 2, 3, 5, 9, 20, 50), Count: Pick(r, 1, 1, 1, 3, -1)}
	if r.P(0.4) {
		f.Path = Pick(r, "_tmp", "info.json", ".tmp", "Packages", ".deb", "by-hash", "/."+id, "Release", mdir)
	}
	if r.P(0.15) {
		// the last steps: saving, the link, cleanup
		f.Path, f.Skip, f.Count = mdir+"$", Pick(r, 0, 0, 1), 1
		f.Class = Pick(r, "fsyncdir", "fsyncdir", "readdir", "open")
		if r.P(0.3) {
			f.Class, f.Path = Pick(r, "symlink", "rename", "stat", "unlink"), Pick(r, "/"+id+"$", "/"+id+".tmp$")
		}
	}
	if f.Class == "write" && r.P(0.4) {
		f.Errno = "SHORT"
	}
	return f
}

func genPower(r *Rand) *CrashMode {
	return &CrashMode{Seed: r.U64() >> 1, Ordered: r.P(0.4), Keep: r.N(2)}
}

func genCrash(r *Rand, power bool) *CrashPoint {
	c := &CrashPoint{}
	switch r.N(5) {
	case 0:
		c.Nth = r.Range(1, 12)
	case 1, 2:
		c.Nth = r.Range(1, 250)
	default:
		c.Class = Pick(r, "rename", "symlink", "fsyncdir", "fsync", "link", "unlink", "rmdir", "mkdir", "create", "write", "chmod", "stat", "readdir")
		c.Nth = r.Range(1, 4)
		switch c.Class {
		case "fsyncdir", "unlink", "link", "fsync", "rmdir", "mkdir", "write", "chmod", "stat":
			c.Nth = Pick(r, 1, 2, 3, r.Range(1, 40))
		}
	}
	if power {
		c.Power = genPower(r)
	}
	return c
}

// GenMirror makes the plan of one simulated run.
func GenMirror(profile string, seed uint64) *Plan {
	if profile == "P03" {
		r := NewRand(seed).Fork("mirrorP03")
		p := GenMirror(Pick(r, "M01", "M04", "M05", "M06", "M02"), seed)
		p.M.Steps = addBad(r, p.M.Steps, func() *MStep {
			st := &MStep{Op: "bad", Bad: genBadMirror(r, p.M)}
			if len(p.M.Mirrors) > 1 && r.P(0.3) {
				st.IDs = []string{p.M.Mirrors[st.Bad.Item].ID}
			}
			if r.P(0.1) {
				st.Power = genPower(r)
			}
			return st
		})
		return p
	}
	r := NewRand(seed).Fork("mirror" + profile)
	p := &Plan{Kind: "mirror", M: &MPlan{}}
	m := p.M
	stalls := true
	m.MaxConns = Pick(r, 1, 2, 3, 5, 10, -1)
	nm := Pick(r, 1, 1, 1, 2, 2, 3)
	if x := r.Fork("style"); x.P(0.2) {
		m.DirStyle = Pick(x, "/", "/.", "//")
	}
	m.Link = genLink(r)
	m.Close = Pick(r, 0.0, 0, 0.3, 1)
	m.Chunked = Pick(r, 0.0, 0, 0.3, 1)
	m.Log = Pick(r, "error", "error", "debug", "info", "critical")
	if r.P(0.25) {
		m.FsyncMs = Pick(r, 1, 20)
	}
	m.NoWait = r.P(0.5)
	switch profile {
	case "M06", "M05":
		nm = Pick(r, 1, 2, 3)
	case "M08", "M10", "M13":
		nm = Pick(r, 1, 1, 2)
	case "M09":
		nm = Pick(r, 1, 2)
		m.MaxConns = Pick(r, 0, 1, 2, 3, 4)
	case "M07":
		m.MaxConns = Pick(r, 0, 1, 1, 2, 5, 10)
	}
	hosts := []string{"a.test", "b.test"}
	for i := 0; i < nm; i++ {
		id := Pick(r, "ubuntu", "debian", "sec-1", "x_y") + fmt.Sprint(i)
		spec := GenRepo(r.Fork(fmt.Sprint("repo", i)), true)
		switch profile {
		case "M11":
			spec.ByHash = true
			spec.KeepHash = Pick(r, 3, 3, 3, 1, 0)
			spec.Churn = 60
		case "M09":
			if r.P(0.5) {
				spec.Pkgs = r.Range(6, 14)
				spec.Pad = min(spec.Pad, 300)
				spec.ByHash = r.P(0.3)
			}
		case "M03":
			spec.ByHash = r.P(0.6)
		case "M13":
			for k := r.Range(1, 2); k > 0; k-- {
				spec.Hostile = append(spec.Hostile, HostileEntry{Where: Pick(r, "release", "packages", "sources"), Path: genHostile(r, id)})
			}
			if r.P(0.5) {
				spec.ByHash = true
			}
		}
		if p := map[string]float64{"M05": 0.15, "M13": 0.5}[profile]; r.P(p) {
			spec.Mangle = genMangle(r)
			if profile == "M13" && r.P(0.7) {
				spec.Hostile = nil
			}
		}
		if p := map[string]float64{"M03": 0.2, "M05": 0.1, "M11": 0.05}[profile]; r.P(p) {
			spec.Wrong = genWrong(r)
			if spec.Wrong[0].Some && spec.Wrong[0].Where == "packages" {
				spec.Style |= 8
			}
		}
		if spec.ByHash && spec.InSums&spec.RelSums == 0 {
			spec.InSums = 0
		}
		if x := r.Fork("hashonly"); spec.ByHash && x.P(0.4) {
			k := spec.RelSums
			if spec.InSums != 0 {
				k &= spec.InSums
			}
			spec.HashOnly = k & Pick(x, 1, 2, 4, 3, 5, 6)
			spec.HashMiss = Pick(x, 0, 0, 403, 410, 400)
		}
		if x := r.Fork("multi"); x.P(0.15) {
			spec.Multi = x.Range(2, 4)
		}
		mm := genMirrorConf(r, id, hosts[r.N(2)], genBase(r, i, "debian", "ubuntu/x"), spec)
		if profile == "M13" {
			mm.Source = mm.Source || r.P(0.6)
			mm.Repo.Sources = mm.Repo.Sources || r.P(0.6)
		}
		m.Mirrors = append(m.Mirrors, mm)
	}
	step := func() *MStep {
		st := &MStep{Op: "run"}
		if nm > 1 && r.P(0.3) {
			for _, mm := range m.Mirrors {
				if r.P(0.5) {
					st.IDs = append(st.IDs, mm.ID)
				}
			}
		}
		return st
	}
	clean := func() *MStep { return &MStep{Op: "run"} }
	pubs := func(prob float64) {
		for i := range m.Mirrors {
			if r.P(prob) {
				m.Steps = append(m.Steps, &MStep{Op: "publish", Mirror: i})
			}
		}
	}
	add := func(st *MStep) { m.Steps = append(m.Steps, st) }
	names := func() []string { return m.fileNames(r, r.N(nm)) }
	slow := func(st *MStep) {
		for k := r.N(3); k > 0; k-- {
			st.Faults = append(st.Faults, genSlow(r, names()))
		}
		st.Absorb = true
	}
	trouble := func(st *MStep, kind int) {
		switch kind {
		case 0: // transient
			st.Faults = append(st.Faults, genTransient(r, names(), Pick(r, 1, 2, 3, 5, 5))...)
			st.Absorb = true
		case 1: // content
			for k := r.Range(1, 3); k > 0; k-- {
				st.Faults = append(st.Faults, genContent(r, names()))
			}
		case 2: // hard
			for k := r.Range(1, 2); k > 0; k-- {
				st.Faults = append(st.Faults, genHard(r, names()))
			}
		case 3: // disk
			for k := Pick(r, 1, 1, 1, 2); k > 0; k-- {
				st.FS = append(st.FS, genFS(r, m.Mirrors[r.N(nm)].ID))
			}
			if r.P(0.2) {
				st.Limit = int64(r.Range(1, 60000))
			}
			if r.P(0.25) {
				st.Power = genPower(r)
			}
		case 4: // cancel
			stalls = false
			if r.P(0.5) {
				st.TermMs = Pick(r, r.Range(1, 100), r.Range(1, 2000), r.Range(1, 30000))
			} else {
				c := genCrash(r, false)
				c.Sig = true
				st.Crash = append(st.Crash, c)
			}
			if r.P(0.6) {
				st.Slow = Pick(r, 50, 300, 1000, 3000)
			}
			if r.P(0.4) {
				st.Faults = append(st.Faults, genHard(r, names()))
			}
			if r.P(0.25) {
				// upstream hangs when the run is told to stop
				st.Faults = append(st.Faults, &Fault{Kind: Pick(r, "hang", "stall", "dial-blackhole"), Arg: 400000, Skip: r.N(6), Count: Pick(r, 1, 3)})
				if x := r.Fork(fmt.Sprint("hang", len(m.Steps))); x.P(0.5) {
					st.Faults[len(st.Faults)-1].Path = Pick(x, append([]string{"Packages", ".deb", ".deb", "/pool/"}, names()...)...)
					st.Faults[len(st.Faults)-1].Skip = x.N(3)
				}
				if len(st.Crash) == 0 {
					st.TermMs = max(st.TermMs, 1500)
				}
			}
		case 5: // kill or power loss
			pw := r.P(0.75)
			if r.P(0.25) {
				st.KillMs = Pick(r, r.Range(1, 200), r.Range(1, 5000))
				if pw {
					st.Power = genPower(r)
				}
			} else {
				st.Crash = append(st.Crash, genCrash(r, pw))
			}
		case 6: // upstream changes in mid-run
			for k := r.Range(1, 2); k > 0; k-- {
				pb := &MPub{Mirror: r.N(nm)}
				if r.P(0.7) {
					pb.Req = r.Range(1, 12)
					if r.P(0.5) {
						pb.Path, pb.Req = Pick(r, names()...), r.Range(1, 4)
					}
				} else {
					pb.Ms = r.Range(1, 2000)
				}
				st.Pubs = append(st.Pubs, pb)
			}
			if profile == "M11" && r.P(0.4) {
				st.Slow = Pick(r, 20, 200)
			}
			// absorbed if the old indices stay available by hash
			st.Absorb = true
			for _, pb := range st.Pubs {
				n := 0
				for _, q := range st.Pubs {
					if q.Mirror == pb.Mirror {
						n++
					}
				}
				rp := m.Mirrors[pb.Mirror].Repo
				if !rp.ByHash || rp.KeepHash < n {
					st.Absorb = false
				}
			}
		case 7: // second run
			stalls = false
			st.Slow = Pick(r, 100, 500, 2000)
			for k := r.Range(1, 3); k > 0; k-- {
				st.SecondMs = append(st.SecondMs, Pick(r, 0, r.Range(1, 50), r.Range(1, 500), r.Range(1, 3000)))
			}
		}
	}
	var kinds []int
	switch profile {
	case "M01":
		kinds = []int{0, 1, 2, 3, 4, 5, 6, 6}
	case "M02":
		kinds = []int{5}
	case "M03":
		kinds = []int{1, 1, 1, 1, 0}
	case "M04":
		kinds = []int{0, 8, 8, 8, 2}
	case "M05":
		kinds = []int{1, 2, 2, 3, 4}
	case "M06":
		kinds = []int{1, 2, 3, 4, 5, 5, 5, 8}
	case "M07":
		kinds = []int{0, 0, 0, 0, 2, 1, 9}
	case "M08":
		kinds = []int{7}
	case "M09":
		kinds = []int{0, 8, 1, 2}
	case "M10":
		kinds = []int{8, 8, 0, 2, 4, 5, 3, 6}
	case "M11":
		kinds = []int{6, 6, 6, 6, 9}
	case "M12":
		kinds = []int{4}
	case "M13":
		kinds = []int{8, 8, 0}
	case "M14":
		kinds = []int{3}
	default: // R01 and anything else
		kinds = []int{0, 1, 2, 3, 4, 5, 6, 8, 8}
	}
	off := map[int]bool{}
	conf := func() {
		p := map[string]float64{"M04": 0.4, "M06": 0.4, "M10": 0.3, "M01": 0.25}[profile]
		if p == 0 {
			p = 0.1
		}
		if profile == "M13" || profile == "M09" || !r.P(p) {
			return
		}
		i := r.N(nm)
		mm := genMirrorConf(r, m.Mirrors[i].ID, m.Mirrors[i].Host, m.Mirrors[i].Base, m.Mirrors[i].Repo)
		mm.Repo = RepoSpec{}
		if len(off)+1 < nm && r.P(0.35) {
			mm.Off = true
			off[i] = true
		} else {
			delete(off, i)
		}
		add(&MStep{Op: "config", Mirror: i, Conf: &mm})
	}
	if r.P(0.75) && profile != "M13" {
		st := step()
		if len(st.IDs) == 0 || r.P(0.5) {
			st.IDs = nil
		}
		if r.P(0.3) {
			slow(st)
		}
		add(st)
	}
	rounds := Pick(r, 1, 1, 2, 3)
	if profile == "M02" || profile == "M06" {
		rounds = Pick(r, 1, 2, 3, 4)
	}
	for k := 0; k < rounds; k++ {
		pubs(Pick(r, 0.3, 0.9))
		conf()
		st := step()
		kind := Pick(r, kinds...)
		if kind == 9 { // upstream changes and transient faults
			kind = 6
			trouble(st, 6)
			i := st.Pubs[0].Mirror
			if r.P(0.5) && m.Mirrors[i].Repo.ByHash {
				// every index changes after the Release files were read, and
				// the fallback to a by-hash name suffers all five faults
				st.Pubs = []*MPub{{Mirror: i, Path: "/Packages", Req: 1}}
				st.Absorb = m.Mirrors[i].Repo.KeepHash > 0
				m.MaxConns = Pick(r, 1, 1, m.MaxConns)
				k := Pick(r, "reset", "noreply", "trunc", "resetmid", "status")
				f := &Fault{Kind: k, Path: "/by-hash/", Count: 5, Arg: Pick(r, 500, 503)}
				if r.P(0.4) {
					f.Path, f.Count = Pick(r, "Packages", "by-hash/SHA256", "by-hash/MD5Sum"), r.Range(1, 5)
				}
				st.Faults = append(st.Faults, f)
			} else {
				st.Faults = append(st.Faults, genTransient(r, append(names(), "Packages", "Packages", "by-hash"), 5)...)
			}
		} else {
			trouble(st, kind)
		}
		if profile == "M09" {
			st.Slow = Pick(r, 0, 200, 300)
			if x := r.Fork(fmt.Sprint("long", k)); x.P(0.12) {
				// downloads that take very long, but do not fail
				st.Faults = append(st.Faults, &Fault{Kind: Pick(x, "stall", "delay"), Arg: Pick(x, 70000, 400000, 700000), Count: x.Range(1, 3), Skip: x.N(8)})
			}
		}
		if x := r.Fork(fmt.Sprint("disk", k)); profile == "M07" && x.P(0.1) {
			st.FS = append(st.FS, genFS(x, m.Mirrors[x.N(nm)].ID))
			st.Absorb = false
		}
		if r.P(0.2) && kind != 8 && kind != 7 && kind != 4 && profile != "M09" {
			// two troubles at once
			k2 := Pick(r, 0, 1, 2, 3, 5, 6)
			ab := st.Absorb
			trouble(st, k2)
			st.Absorb = st.Absorb && ab && (k2 == 6) == (kind == 6) && k2 == 6
		}
		if kind == 8 {
			slow(st)
		}
		add(st)
		if profile == "M10" && r.P(0.5) {
			add(clean())
		}
	}
	if r.P(0.8) {
		pubs(0.3)
		conf()
		st := clean()
		if profile == "M09" {
			st.Slow = Pick(r, 0, 200)
		}
		add(st)
	}
	if r.P(0.25) {
		add(&MStep{Op: "power", Power: genPower(r)})
		if r.P(0.5) {
			add(clean())
		}
	}
	if pr := map[string]float64{"M02": 0.12, "M14": 0.08, "M06": 0.05}[profile]; r.P(pr) {
		// the link has moved but is not synced when the run dies, the next
		// run fails, and then the power fails
		pubs(0.9)
		st := clean()
		if r.P(0.5) {
			st.Crash = append(st.Crash, &CrashPoint{Class: "fsyncdir", Path: mdir + "$", Nth: Pick(r, 1, 2, 2)})
		} else {
			st.FS = append(st.FS, &FSFault{Class: "fsyncdir", Path: mdir + "$", Errno: "EIO", Count: Pick(r, 1, 1, 2)})
		}
		add(st)
		if r.P(0.7) {
			st = step()
			if r.P(0.3) {
				trouble(st, 2)
			} else {
				st.Faults = append(st.Faults, &Fault{Kind: Pick(r, "reset", "noreply"), Count: -1, Arg: r.N(1000)})
			}
			st.Absorb = false
			if r.P(0.3) {
				st.Power = genPower(r)
			}
			add(st)
		}
		add(&MStep{Op: "power", Power: genPower(r)})
		add(clean())
	}
	if nm > 1 && r.P(map[string]float64{"M06": 0.12, "M02": 0.04, "M01": 0.04}[profile]) {
		// killed in the last steps of publishing, then that mirror is
		// removed from the configuration
		i := r.N(nm)
		mm := m.Mirrors[i]
		mm.Repo, mm.Off = RepoSpec{}, true
		st := clean()
		st.IDs = []string{mm.ID}
		st.Crash = append(st.Crash, &CrashPoint{Class: Pick(r, "fsyncdir", "rename"), Path: Pick(r, mdir+"$", "/"+mm.ID, mm.ID+".tmp$"), Nth: 1})
		if len(off) == 0 {
			add(&MStep{Op: "publish", Mirror: i})
			add(st)
			add(&MStep{Op: "config", Mirror: i, Conf: &mm})
			add(clean())
		}
	}
	if len(m.Steps) == 0 || m.Steps[0].Op == "power" {
		m.Steps = append([]*MStep{clean()}, m.Steps...)
	}
	if profile == "M12" || profile == "M08" || profile == "M09" {
		stalls = false
	}
	p.Sched = GenSched(r.Fork("sched"), stalls)
	return p
}

func genHostile(r *Rand, id string) string {
	return Pick(r,
		"../../../../../../etc/evil", "/etc/evil2", "../"+id+"x/evil", "../../"+id, "../../.lock", "../../../other/keep.txt",
		"./../../../x/y", "a/../../../../b", "pool/../../info.json", "../info.json", "..", "../..", ".", "./", "a//b///c", "pool/./x/../y",
		"pool/%2e%2e/z", "a b", "dists/../../../esc", "....//x", "../../../passwd/x", strings.Repeat("d/", 40)+"deep", strings.Repeat("n", 300), "x/..", "pool/x/../../..", "..\\..\\w",
		"../../."+id+".20200101_000000/evil", "/", "//etc/evil3", "../../../../pool/main/keep",
		"%2e%2e/%2e%2e/%2e%2e/%2e%2e/etc/evil4", "..%2f..%2f..%2f..%2fspool%2fother%2fevil5", "%2fetc%2fevil6", "pool/%2e%2e/%2e%2e/%2e%2e/."+id+"/x")
}
