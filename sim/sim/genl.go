package sim

// GenLib draws a library level scenario.
func GenLib(profile string, seed uint64) *Plan {
	r := NewRand(seed).Fork("lib" + profile)
	p := &Plan{Kind: "lib", L: &LPlan{}, Sched: GenSched(r, true)}
	switch profile {
	case "A01":
		genExtract(r, p.L)
	case "A02":
		genCopy(r, p.L)
	case "C09":
		p.L.Store = genStore(r)
	default:
		Die("unknown profile %q", profile)
	}
	return p
}

func genStream(r *Rand, fails ...string) LStream {
	s := LStream{Seed: r.U64() >> 1, Chunk: Pick(r, 0, 0, 1, 2, 13, 100, 4096, -3, -50, -5000), Zero: r.P(0.2), With: r.P(0.4)}
	if r.P(0.3) {
		s.Slow = Pick(r, 1, 50, 2000)
	}
	s.Snap = r.P(0.7)
	if r.P(0.5) {
		s.Fail = fails[r.N(len(fails))]
		s.At = r.N(1000001)
		if r.P(0.15) {
			s.At = Pick(r, 0, 1000000, 999999, 990000, 500000)
		}
	}
	return s
}

func genExtract(r *Rand, l *LPlan) {
	l.Repo = GenRepo(r, true)
	l.Repo.Contents = false
	l.Repo.I18n = r.P(0.3) && !l.Repo.Flat
	if r.P(0.3) {
		l.Repo.Pkgs = r.Range(5, 30)
	}
	if r.P(0.1) {
		l.Repo.Pad = 9000
	}
	for t := r.Range(1, 3); t > 0; t-- {
		th := &LThr{At: Pick(r, 0, 0, 10, 1000)}
		for k := r.Range(1, 4); k > 0; k-- {
			j := &LJob{Kind: "extract", File: r.N(1000), Ver: r.N(2), Ext: Pick(r, "", "", ".gz", ".xz", ".bz2"),
				Src: genStream(r, "err", "err", "unexpected", "once", "eof", "eof")}
			if r.P(0.2) {
				j.Long = Pick(r, 5000, 66000, 300000, 1000000)
				if j.Ext == ".bz2" {
					j.Long = Pick(r, 5000, 20000)
				}
			}
			if r.P(0.15) {
				j.Mangle = r.U64()>>1 | 1
			}
			if r.P(0.3) {
				j.Src.Via = "file"
				if j.Src.Fail != "eof" {
					j.Src.Fail = ""
					if r.P(0.5) {
						l.FS = append(l.FS, &FSFault{Class: "read", Path: "/w/", Skip: r.N(6), Errno: Pick(r, "EIO", "ENOMEM")})
					}
				}
			}
			if j.Ext == ".xz" {
				j.Src.Zero = false // package xz takes a read of nothing for a failure
			}
			if j.Long > 0 && j.Src.Slow > 0 {
				j.Src.Slow = 1
			}
			if j.Long > 20000 && j.Src.Chunk > -5000 && j.Src.Chunk != 0 {
				j.Src.Chunk = 4096
			}
			th.Jobs = append(th.Jobs, j)
		}
		l.Threads = append(l.Threads, th)
	}
}

func genCopy(r *Rand, l *LPlan) {
	for t := r.Range(1, 4); t > 0; t-- {
		th := &LThr{At: Pick(r, 0, 0, 10, 1000)}
		for k := r.Range(1, 5); k > 0; k-- {
			j := &LJob{Kind: "copy", Size: Pick(r, 0, 1, r.N(300), r.N(9000), r.N(70000), 32768, 32769, 65536, r.N(300000)), Path: Pick(r, "a", "pool/x.deb", "d/./e", ""),
				Src: genStream(r, "err", "unexpected", "once", "eof")}
			if r.P(0.4) {
				j.Src.Fail = ""
			}
			if j.Size > 10000 && j.Src.Chunk != 0 && j.Src.Chunk < 1000 && j.Src.Chunk > -1000 {
				j.Src.Chunk *= 100
			}
			d := genStream(r, "short", "err", "once", "zero")
			if r.P(0.4) {
				d.Fail = ""
			}
			j.Dst = &d
			switch r.N(6) {
			case 0:
				j.Src.Via = "bytes"
				j.Src.Fail = ""
			case 1:
				j.Src.Via = "file"
				if j.Src.Fail != "eof" {
					j.Src.Fail = ""
				}
				if r.P(0.5) {
					l.FS = append(l.FS, &FSFault{Class: "read", Path: "/w/s", Skip: r.N(5), Errno: Pick(r, "EIO", "ENOMEM")})
				}
			}
			if r.P(0.35) {
				j.Dst.Via = "file"
				j.Dst.Fail = ""
				if r.P(0.5) {
					l.FS = append(l.FS, &FSFault{Class: "write", Path: "/w/d", Skip: r.N(5), Count: Pick(r, 0, 0, 3), Errno: Pick(r, "EIO", "ENOSPC", "SHORT", "EDQUOT")})
				}
			}
			th.Jobs = append(th.Jobs, j)
		}
		l.Threads = append(l.Threads, th)
	}
}

func genStore(r *Rand) *LStore {
	s := &LStore{}
	for range storePaths {
		var v []int
		for k := 0; k < 3; k++ {
			v = append(v, Pick(r, 0, 1, r.N(100), r.N(100), r.N(100), r.N(1000), r.N(3000)))
		}
		if r.P(0.3) {
			v[1] = v[0]
		}
		s.Sizes = append(s.Sizes, v)
	}
	np := r.Range(2, len(storePaths))
	if lru := r.P(0.4); lru {
		// many items that fit, used and replaced many times
		s.Sizes = nil
		for range storePaths {
			a := r.Range(5, 60)
			s.Sizes = append(s.Sizes, []int{a, Pick(r, a, r.Range(5, 60)), r.Range(5, 60)})
		}
		ph := &LPhase{Cap: r.Range(60, 300)}
		nt := Pick(r, 1, 1, 1, 2)
		for t := 0; t < nt; t++ {
			th := &LThr{}
			for k := r.Range(20, 60) / nt; k > 0; k-- {
				op := &LOp{Op: Pick(r, "insert", "insert", "insert", "lookup", "lookup", "lookup", "lookup", "delete", "list"), P: r.N(len(storePaths)), V: Pick(r, 0, 0, 0, 0, 0, 1, 2)}
				op.Gap = Pick(r, 0, 0, 0, 10)
				th.Ops = append(th.Ops, op)
			}
			ph.Thr = append(ph.Thr, th)
		}
		s.Phases = append(s.Phases, ph)
		return s
	}
	for n := r.Range(1, 3); n > 0; n-- {
		ph := &LPhase{Cap: Pick(r, 0, 50, 100, 200, 200, 400, 1000, 1000, 3000)}
		total := 0
		for t := r.Range(1, 4); t > 0; t-- {
			th := &LThr{At: Pick(r, 0, 0, 10, 1000)}
			for k := r.Range(2, 12); k > 0 && total < 60; k-- {
				op := &LOp{Op: Pick(r, "insert", "insert", "insert", "lookup", "lookup", "lookup", "delete", "list"), P: r.N(np), V: Pick(r, 0, 0, 0, 1, 1, 2)}
				op.Gap = Pick(r, 0, 0, 0, 10, 100, 1000)
				if r.P(0.3) {
					op.Slow = Pick(r, 1, 50, 1000)
				}
				if op.Op == "insert" && r.P(0.05) {
					op.Bad = Pick(r, "/abs", "x/", "a//b", ".", "a/../b", "./a")
				}
				th.Ops = append(th.Ops, op)
				total++
			}
			ph.Thr = append(ph.Thr, th)
		}
		if r.P(0.2) {
			ph.FS = append(ph.FS, &FSFault{Class: Pick(r, "", "link", "unlink", "open", "read", "mkdir", "stat"), Path: storeDir, Skip: r.N(12), Count: Pick(r, 0, 0, 3), Errno: Pick(r, "EIO", "ENOSPC", "EMFILE", "EACCES")})
		}
		if r.P(0.25) {
			ph.Crash = append(ph.Crash, &CrashPoint{Nth: 1 + r.N(40)})
		}
		s.Phases = append(s.Phases, ph)
	}
	return s
}
