package sim

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// Starts with configurations that must be rejected (P03).

// BadConf is a defect of a configuration file or command line.
type BadConf struct {
	Kind string   `json:"kind"`
	Item int      `json:"item,omitempty"` // mirror or prefix
	Arg  string   `json:"arg,omitempty"`
	List []string `json:"list,omitempty"`
}

var badTOML = []string{"\n[[[", "\n= 3", "\nx = ", "\n[log]\n[log]\n", "\"", "\nmax_conns 3"}
var badURLs = []string{"ftp://a.test/x", "file:///srv/x", "a.test/debian", "/debian", "http//a.test/", "http://[::1/x", "://a.test", "http://a.test:port/x", "http://a%zz/x", "gopher://a.test", "", "rsync://a.test/debian", "httpx://a.test/x", "ht tp://a.test"}

func genBadMirror(r *Rand, m *MPlan) *BadConf {
	b := &BadConf{Item: r.N(len(m.Mirrors))}
	b.Kind = Pick(r, "syntax", "key", "mkey", "type", "mtype", "url", "url", "nourl", "nosuites", "mixed", "mixed", "flatsections", "flatarchs", "id", "id", "arg", "arg", "dir", "dir", "log", "noconf", "https")
	switch b.Kind {
	case "syntax":
		b.Arg = Pick(r, badTOML...)
	case "key":
		b.Arg = Pick(r, "maxconns = 3", "directory = \"/x\"", "check_interval = 3", "mirrors = 1")
	case "mkey":
		b.Arg = Pick(r, "section = [\"main\"]", "archs = [\"amd64\"]", "source = true", "suite = \"x\"")
	case "type":
		b.Arg = Pick(r, "max_conns = \"three\"", "max_conns = [1]", "max_conns = 1.5", "max_conns = true")
	case "mtype":
		b.Arg = Pick(r, "suites = \"stable\"", "mirror_source = \"maybe\"", "suites = [1]", "sections = 3")
	case "url":
		b.Arg = Pick(r, badURLs...)
	case "mixed":
		b.List = Pick(r, []string{"stable", "flat/"}, []string{"flat/", "stable"}, []string{"stable", "testing", "x/"}, []string{"a/", "b/", "stable"}, []string{"stable", "/"}, []string{"/", "stable"}, []string{"a", "b/", "c"}, []string{"a/", "b", "c/"})
	case "flatsections":
		b.List = Pick(r, []string{"/"}, []string{"flat/"}, []string{"a/", "b/"})
		b.Arg = Pick(r, "sections = [\"main\"]", "sections = [\"main\", \"contrib\"]")
	case "flatarchs":
		b.List = Pick(r, []string{"/"}, []string{"flat/"}, []string{"a/", "b/"})
		b.Arg = Pick(r, "architectures = [\"amd64\"]", "architectures = [\"amd64\", \"all\"]")
	case "id":
		b.Arg = Pick(r, "Ubuntu", "a.b", "../x", "a/b", "a b", "", "x\n", "ubuntU", "ü", "../../etc/x", ".hidden", "x+y", "~x", "a:b", "x.")
	case "arg":
		b.Arg = Pick(r, "nosuch", "", "../x", "UBUNTU", ".", "debian/", "-")
	case "dir":
		b.Arg = Pick(r, "spool/other", "spool/mirror", ".", "other", "-", "/spool/none", "/etc/passwd", "")
	case "log":
		b.Arg = Pick(r, "level = \"verbose\"", "format = \"xml\"")
	}
	return b
}

func (m *msim) badConfig(b *BadConf) []byte {
	save := m.p.Mirrors
	defer func() { m.p.Mirrors = save }()
	m.p.Mirrors = append([]MMirror(nil), save...)
	mm := &m.p.Mirrors[b.Item%len(save)]
	mm.Off = false
	head, tail, more := "", "", ""
	switch b.Kind {
	case "syntax":
		tail = b.Arg
	case "key", "type":
		head = b.Arg + "\n"
	case "mkey", "mtype":
		more = b.Arg + "\n"
	case "nosuites":
		mm.Suites = nil
	case "mixed":
		mm.Suites, mm.Sections, mm.Archs = b.List, nil, nil
		if b.List[0][len(b.List[0])-1] != '/' {
			mm.Sections, mm.Archs = []string{"main"}, []string{"amd64"}
		}
	case "flatsections", "flatarchs":
		mm.Suites, mm.Sections, mm.Archs = b.List, nil, nil
		more = b.Arg + "\n"
	}
	c := m.config()
	if b.Kind == "type" {
		var keep [][]byte
		for _, l := range bytes.SplitAfter(c, []byte("\n")) {
			if !bytes.HasPrefix(l, []byte("max_conns")) {
				keep = append(keep, l)
			}
		}
		c = bytes.Join(keep, nil)
	}
	// the section of the mirror concerned
	sec := fmt.Sprintf("[mirror.%s]\n", mm.ID)
	i := bytes.Index(c, []byte(sec))
	j := len(c)
	if k := bytes.Index(c[i+len(sec):], []byte("[mirror.")); k >= 0 {
		j = i + len(sec) + k
	}
	s := string(c[i:j])
	dropKey := func(key string) {
		var o []string
		for _, l := range strings.SplitAfter(s, "\n") {
			if !strings.HasPrefix(l, key+" =") {
				o = append(o, l)
			}
		}
		s = strings.Join(o, "")
	}
	switch b.Kind {
	case "https":
		s = strings.Replace(s, `"http:`, `"https:`, 1)
	case "url":
		dropKey("url")
		s += fmt.Sprintf("url = %q\n", b.Arg)
	case "nourl":
		dropKey("url")
	case "nosuites":
		if b.Item&1 == 0 {
			dropKey("suites")
		}
	case "mtype":
		dropKey(strings.SplitN(b.Arg, " ", 2)[0])
	case "id":
		s = strings.Replace(s, sec, fmt.Sprintf("[mirror.%q]\n", b.Arg), 1)
	}
	s += more
	out := head + string(c[:i]) + s + string(c[j:]) + tail
	switch b.Kind {
	case "dir":
		d := fmt.Sprintf("dir = %q\n", mdir+m.p.DirStyle)
		n := fmt.Sprintf("dir = %q\n", b.Arg)
		if b.Arg == "-" {
			n = ""
		}
		out = strings.Replace(out, d, n, 1)
	case "log":
		out = strings.Replace(out, "[log]\n", "[log]\n"+b.Arg+"\n", 1)
		if strings.HasPrefix(b.Arg, "level") {
			var o []string
			for _, l := range strings.SplitAfter(out, "\n") {
				if !strings.HasPrefix(l, "level =") || l == b.Arg+"\n" {
					o = append(o, l)
				}
			}
			out = strings.Join(o, "")
		}
	}
	return []byte(out)
}

var keepFiles = []string{"/etc/passwd", "/spool/other/keep.txt", "/pool/main/keep"}

func fileText(p string) string {
	b, ok := W.FS.ReadFile(p)
	if !ok {
		return "(none)"
	}
	return string(b)
}

func (m *msim) doBad(st *MStep) {
	b := st.Bad
	good := b.Kind == "https"
	if d := m.lastRun + 2100e6 - Now(); d > 0 && m.lastRun > 0 {
		Sleep(time.Duration(d))
	}
	W.FS.WriteFile(mconf, m.badConfig(b))
	var before []string
	for _, f := range keepFiles {
		before = append(before, fileText(f))
	}
	m.up.Faults, m.up.T0, m.up.MinLat = nil, Now(), 0
	m.gate.Faults, m.gate.Crash, m.gate.Node, m.gate.Fired = nil, nil, nil, 0
	m.powered = false
	m.stepRuns = len(m.runs)
	ids := append([]string(nil), st.IDs...)
	if b.Kind == "arg" {
		i := b.Item % (len(ids) + 1)
		ids = append(ids[:i:i], append([]string{b.Arg}, ids[i:]...)...)
	}
	if good {
		ids = []string{m.p.Mirrors[b.Item%len(m.p.Mirrors)].ID}
	}
	from := len(m.up.Log)
	if b.Kind == "noconf" {
		W.FS.Remove(mconf)
	}
	W.Net.Dialed = nil
	run := m.startRun(ids, false)
	m.lastRun = Now()
	what := fmt.Sprintf("%s %q %v", b.Kind, b.Arg, b.List)
	W.Fault("bad-config")
	W.Fault("bad-config:" + b.Kind)
	bound := 120 * time.Second
	if good {
		bound = 2 * time.Hour
	}
	if !W.WaitExit(run.n, bound) {
		W.Violate("P03", "bad-config-runs", "go-apt-mirror is still running %v after its start with the configuration %s", bound, what)
		W.Finish("stuck")
	}
	m.lastRun = Now()
	if good {
		W.Probe("https-checked")
		if W.Net.Dialed[m.p.Mirrors[b.Item%len(m.p.Mirrors)].Host+":443"] == 0 {
			W.Violate("P03", "https-rejected", "go-apt-mirror (exit code %d) did not connect to an https upstream: %s", run.n.Code, tail(string(W.Stderr), 200))
		}
	} else {
		judgeBad("go-apt-mirror", run.n, len(m.up.Log)-from, what)
	}
	m.checkPublished("P03,M01,M05", "after a run with an invalid configuration")
	for i, f := range keepFiles {
		if fileText(f) != before[i] {
			W.Violate("P03,M13", "bad-config-damage", "a run with an invalid configuration (%s) changed %s", what, f)
		}
	}
	W.FS.WriteFile(mconf, m.config())
	if m.prevBad == "" && !good {
		m.prevBad = "badconf"
	}
	if st.Power != nil {
		m.power(*st.Power)
		m.afterPower()
	}
}

func judgeBad(prog string, n *Node, reqs int, what string) {
	W.Probe("bad-config-checked")
	switch {
	case n.Code == -2:
		W.Violate("P03"+runtimeCheck(n.Panic), "bad-config-crash:"+n.PanicSite(), "%s crashed with an invalid configuration (%s): %s", prog, what, n.Panic)
	case n.Code <= 0:
		W.Violate("P03", "bad-config-accepted", "%s ended with code %d with an invalid configuration (%s)", prog, n.Code, what)
	}
	if reqs > 0 {
		W.Violate("P03", "bad-config-contact", "%s sent %d requests to upstream with an invalid configuration (%s)", prog, reqs, what)
	}
}

// ---- go-apt-cacher ----

func genBadCacher(r *Rand, p *CPlan) *BadConf {
	b := &BadConf{Item: r.N(len(p.Prefixes))}
	b.Kind = Pick(r, "syntax", "key", "type", "url", "url", "prefix", "prefix", "interval", "metadir", "cachedir", "equal", "equal", "cap", "conns", "log", "noconf", "https")
	switch b.Kind {
	case "syntax":
		b.Arg = Pick(r, badTOML...)
	case "key":
		b.Arg = Pick(r, "maxconns = 3", "capacity = 1", "interval = 3", "dir = \"/x\"")
	case "type":
		b.Arg = Pick(r, "max_conns = \"three\"", "cache_capacity = 1.5", "check_interval = \"600\"", "cache_period = \"3s\"")
	case "url":
		b.Arg = Pick(r, badURLs...)
	case "prefix":
		b.Arg = Pick(r, "Ubuntu", "a/b", "a b", "", "ü", "/x", "x/", "a:b", "x\n", "ubuntU", "~x", "x+y", "../x")
	case "interval":
		b.Arg = Pick(r, "0", "-1", "-600")
	case "metadir", "cachedir":
		b.Arg = Pick(r, "", "-", "var/x", ".", "./spool", "../x")
	case "equal":
		b.Arg = Pick(r, "%s", "%s/", "%s/.", "%s/x/..", "/%s", "%s//")
	case "cap":
		b.Arg = Pick(r, "0", "-1", "-100")
	case "conns":
		b.Arg = Pick(r, "-1", "-2", "-100")
	case "log":
		b.Arg = Pick(r, "level = \"verbose\"", "format = \"xml\"")
	}
	return b
}

func (c *csim) badConfig(b *BadConf) []byte {
	lines := strings.SplitAfter(string(c.config()), "\n")
	set := func(key, val string) {
		for i, l := range lines {
			if strings.HasPrefix(l, key+" =") {
				lines[i] = ""
			}
		}
		if val != "-" {
			lines = append([]string{key + " = " + val + "\n"}, lines...)
		}
	}
	dir := func(a string) string {
		if a == "-" {
			return a
		}
		return fmt.Sprintf("%q", a)
	}
	switch b.Kind {
	case "syntax":
		lines = append(lines, b.Arg)
	case "key":
		lines = append([]string{b.Arg + "\n"}, lines...)
	case "type":
		kv := strings.SplitN(b.Arg, " = ", 2)
		set(kv[0], kv[1])
	case "url":
		n := c.p.Prefixes[b.Item%len(c.p.Prefixes)].Name
		for i, l := range lines {
			if strings.HasPrefix(l, fmt.Sprintf("%q =", n)) {
				lines[i] = ""
			}
		}
		lines = append(lines, fmt.Sprintf("%q = %q\n", n, b.Arg))
	case "prefix":
		lines = append(lines, fmt.Sprintf("%q = %q\n", b.Arg, "http://"+c.p.Prefixes[0].Host+"/x"))
	case "interval":
		set("check_interval", b.Arg)
	case "metadir":
		set("meta_dir", dir(b.Arg))
	case "cachedir":
		set("cache_dir", dir(b.Arg))
	case "equal":
		if b.Item&1 == 0 {
			set("meta_dir", dir(fmt.Sprintf(b.Arg, cItem)))
		} else {
			set("cache_dir", dir(fmt.Sprintf(b.Arg, cMeta)))
		}
	case "cap":
		set("cache_capacity", b.Arg)
	case "conns":
		set("max_conns", b.Arg)
	case "log":
		set("level", "-")
		set("format", "-")
		for i, l := range lines {
			if l == "[log]\n" {
				lines[i] = l + b.Arg + "\n"
			}
		}
	}
	return []byte(strings.Join(lines, ""))
}

// cachedFiles lists what the two directories keep.
func cachedFiles() (map[string]string, int64) {
	l := map[string]string{}
	var items int64
	for _, d := range []string{cMeta, cItem} {
		in := W.FS.Stat(d)
		if in == nil || in.Typ != tDir {
			continue
		}
		in.Walk("", func(rel string, f *Inode) {
			if f.Typ == tFile && strings.HasSuffix(rel, ".cache") {
				l[d+"/"+rel] = string(f.Data)
				if d == cItem {
					items += int64(len(f.Data))
				}
			}
		})
	}
	return l, items
}

func (c *csim) doBad(st *CStep) {
	b := st.Bad
	c.term()
	c.waitExit()
	c.noteEnd()
	if c.stop {
		return
	}
	c.clearFaults()
	if b.Kind == "https" {
		c.doHTTPS(b)
		return
	}
	c.scan()
	c.tainted = false
	what := fmt.Sprintf("%s %q", b.Kind, b.Arg)
	W.FS.WriteFile(cConf, c.badConfig(b))
	if b.Kind == "noconf" {
		W.FS.Remove(cConf)
	}
	Sleep(3 * time.Second) // what the old process has sent arrives
	before, items := cachedFiles()
	from := len(c.up.Log)
	os.Args = []string{"go-apt-cacher", "-f", cConf}
	c.nodes++
	n := W.StartNode(fmt.Sprintf("cacher%d", c.nodes), c.mainFn)
	n.startAt = Now()
	c.node = n
	c.gate.Node = nil
	c.noted[n] = true
	W.Fault("bad-config")
	W.Fault("bad-config:" + b.Kind)
	end := Now() + 120e9
	for !n.Exited && W.Net.listeners[cPort] == nil && Now() < end {
		Sleep(5 * time.Millisecond)
	}
	if !n.Exited {
		W.Violate("P03", "bad-config-runs", "go-apt-cacher is running (listening: %v) with an invalid configuration (%s)", W.Net.listeners[cPort] != nil, what)
		c.stop = true
		return
	}
	judgeBad("go-apt-cacher", n, len(c.up.Log)-from, what)
	after, _ := cachedFiles()
	for _, f := range sortedKeys(before) {
		x, ok := after[f]
		switch {
		case !ok && strings.HasPrefix(f, cItem+"/") && items > c.capBytes():
			// did not fit any more
		case !ok:
			W.Violate("P03", "bad-config-damage", "a start with an invalid configuration (%s) removed %s", what, f)
		case x != before[f]:
			W.Violate("P03", "bad-config-damage", "a start with an invalid configuration (%s) changed %s", what, f)
		}
	}
	c.node = nil
	W.FS.WriteFile(cConf, c.config())
}

func sortedKeys[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// addBad spreads starts with bad configurations over a history.
func addBad[T any](r *Rand, steps []T, mk func() T) []T {
	for k := Pick(r, 1, 2, 3, 4); k > 0; k-- {
		i := r.N(len(steps) + 1)
		steps = append(steps[:i:i], append([]T{mk()}, steps[i:]...)...)
	}
	return steps
}

// doHTTPS starts the cacher with an https upstream (which refuses).
func (c *csim) doHTTPS(b *BadConf) {
	c.down("refused")
	c.https = true
	W.Net.Dialed = nil
	x := &c.p.Prefixes[b.Item%len(c.p.Prefixes)]
	if c.ensure() && !c.drop[x.Name] {
		c.get("/"+x.Name+"/pool/https.deb", nil)
		W.Probe("https-checked")
		if !c.stop && W.Net.Dialed[x.Host+":443"] == 0 {
			W.Violate("P03", "https-rejected", "go-apt-cacher did not connect to an https upstream for a request")
		}
		c.term()
		c.waitExit()
		c.noteEnd()
	}
	c.https = false
	c.upAgain()
}
