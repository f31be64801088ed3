package sim

import (
	"bytes"
	"compress/bzip2"
	"compress/gzip"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/ulikunitz/xz"
)

// Generator of Debian archives with several published versions.

const (
	SumMD5 = 1 << iota
	SumSHA1
	SumSHA256
)

// RepoSpec describes an upstream archive; everything in it derives from here.
type RepoSpec struct {
	Seed     uint64         `json:"seed"`
	Flat     bool           `json:"flat,omitempty"`
	Suites   []string       `json:"suites"`
	Sections []string       `json:"sections,omitempty"`
	Archs    []string       `json:"archs,omitempty"`
	Sources  bool           `json:"sources,omitempty"`
	ByHash   bool           `json:"byhash,omitempty"`
	Multi    int            `json:"multi,omitempty"`    // gzip and bzip2 data are written in this many parts
	HashMiss int            `json:"hashmiss,omitempty"` // status of by-hash names upstream lacks (0: 404)
	HashOnly int            `json:"hashonly,omitempty"` // kinds of by-hash names upstream has (0: all)
	Exts     []string       `json:"exts"`               // variants of each index that exist and are listed
	Ghost    []string       `json:"ghost,omitempty"`    // variants listed but not served (404)
	Unlisted []string       `json:"unlisted,omitempty"`
	RelFiles []string       `json:"rel"`              // Release, Release.gpg, InRelease
	RelSums  int            `json:"relsums"`          // checksum kinds in Release
	InSums   int            `json:"insums,omitempty"` // those in InRelease, if different
	ItemSums int            `json:"itemsums"`         // checksum kinds in Packages/Sources
	Pkgs     int            `json:"pkgs"`
	PkgSize  int            `json:"pkgsize"`
	Churn    int            `json:"churn"`    // percent of packages updated per version
	KeepHash int            `json:"keephash"` // older by-hash generations served
	I18n     bool           `json:"i18n,omitempty"`
	ArchRel  bool           `json:"archrel,omitempty"` // main/binary-amd64/Release
	RelVer   bool           `json:"relver,omitempty"`  // which changes with the version
	Contents bool           `json:"contents,omitempty"`
	Style    int            `json:"style,omitempty"` // bit 1: comments, 2: blank lines, 4: folded fields, 8: same items in several indices, 16: empty index, 32: unusual file names
	Hostile  []HostileEntry `json:"hostile,omitempty"`
	Pad      int            `json:"pad,omitempty"` // extra bytes per package stanza
	Mangle   []MangleSpec   `json:"mangle,omitempty"`
	MixSums  bool           `json:"mixsums,omitempty"` // the kinds of checksums differ between indices
	Wrong    []MangleSpec   `json:"wrong,omitempty"`   // one listed checksum or size is wrong
}

// HostileEntry is an odd path listed by upstream.
type HostileEntry struct {
	Where string `json:"where"` // release, packages, sources
	Path  string `json:"path"`
}

// MangleSpec damages control data of one kind, consistently with the
// checksums that list it, from some version on.
type MangleSpec struct {
	Where string `json:"where"` // release, packages, sources
	From  int    `json:"from"`
	To    int    `json:"to"`
	Seed  uint64 `json:"seed"`
	Some  bool   `json:"some,omitempty"` // in some of the indices only, so that they contradict each other
}

// RepoVersion is one published state.
type RepoVersion struct {
	N     int
	Files map[string][]byte // everything served, by path relative to the base URL
	Lists map[string]int    // index paths listed in the Release files of this version
}

type Repo struct {
	Spec RepoSpec
	vers []*RepoVersion
	pool map[string][]byte
	odd  map[string]bool // damaged control data
}

func NewRepo(s RepoSpec) *Repo {
	return &Repo{Spec: s, pool: map[string][]byte{}, odd: map[string]bool{}}
}

// Version returns (generating if needed) version n (0,1,2...).
func (r *Repo) Version(n int) *RepoVersion {
	for len(r.vers) <= n {
		r.vers = append(r.vers, r.build(len(r.vers)))
	}
	return r.vers[n]
}

type Sums struct {
	Size              int
	MD5, SHA1, SHA256 string
}

func SumsOf(b []byte) Sums {
	a, c, d := md5.Sum(b), sha1.Sum(b), sha256.Sum256(b)
	return Sums{len(b), hex.EncodeToString(a[:]), hex.EncodeToString(c[:]), hex.EncodeToString(d[:])}
}

func compress(ext string, b []byte) []byte {
	var o bytes.Buffer
	switch ext {
	case "":
		return b
	case ".gz":
		w := gzip.NewWriter(&o)
		w.Write(b)
		w.Close()
	case ".xz":
		w, err := xz.WriterConfig{DictCap: 1 << 16}.NewWriter(&o)
		if err != nil {
			Die("xz: %v", err)
		}
		w.Write(b)
		w.Close()
	case ".bz2":
		return Bzip2(b, 20000)
	default:
		// a compression the programs do not understand
		o.WriteString("unknown" + ext + "\n")
		o.Write(b)
	}
	return o.Bytes()
}

// compressN compresses b in n parts, one after the other.
func compressN(ext string, b []byte, n int) []byte {
	if n < 2 || len(b) < n || ext != ".gz" && ext != ".bz2" {
		return compress(ext, b)
	}
	var o []byte
	for i := 0; i < n; i++ {
		o = append(o, compress(ext, b[len(b)*i/n:len(b)*(i+1)/n])...)
	}
	return o
}

func (r *Repo) pkgVer(name string, n int) int {
	v := 1
	for i := 1; i <= n; i++ {
		h := NewRand(r.Spec.Seed ^ uint64(len(name))*7919).Fork(fmt.Sprint(name, i))
		if h.N(100) < r.Spec.Churn {
			v++
		}
	}
	return v
}

func (r *Repo) poolFile(p string) []byte {
	if b, ok := r.pool[p]; ok {
		return b
	}
	h := NewRand(r.Spec.Seed).Fork("size" + p)
	n := 1 + h.N(2*r.Spec.PkgSize)
	if h.N(12) == 0 {
		n = 0
	}
	b := Bytes(fmt.Sprint(r.Spec.Seed, "/", p), n)
	r.pool[p] = b
	return b
}

// fileName varies the names of packages as real archives do, and a little more.
func (r *Repo) fileName(name string) string {
	if r.Spec.Style&32 == 0 {
		return name
	}
	h := NewRand(r.Spec.Seed).Fork("name" + name)
	return Pick(h, name, name, "lib"+name+"++-dev", name+"_1%3a2+dfsg~rc1", "l/lib"+name+"/"+name, "."+name, "_tmp"+name, "A:"+name, name+".cache", name+"..", "dir/Release/"+name, name+"%", "@"+name+"=&;", "ü"+name, "-"+name, "by-hash/SHA256/"+name)
}

func (r *Repo) packages(n int, sec, arch, prefix string) []byte {
	s := r.Spec
	if s.MixSums {
		s.ItemSums = Pick(NewRand(s.Seed).Fork(sec+"/"+arch), SumMD5, SumSHA1, SumSHA256, SumMD5|SumSHA256, 7)
	}
	var b bytes.Buffer
	if s.Style&1 != 0 {
		b.WriteString("# generated\n")
	}
	if s.Style&2 != 0 {
		b.WriteString("\n\n")
	}
	if s.Style&16 != 0 && sec == s.lastSection() {
		return b.Bytes()
	}
	for i := 0; i < s.Pkgs; i++ {
		name := fmt.Sprintf("%s%d", strings.ReplaceAll(sec, "/", ""), i)
		a := arch
		if s.Style&8 != 0 && i == 0 {
			a = "all" // listed in every architecture's index
		}
		v := r.pkgVer(name+a, n)
		fn := r.fileName(name)
		p := fmt.Sprintf("%s%s/%s_%d_%s.deb", prefix, sec, fn, v, a)
		if s.Flat {
			p = fmt.Sprintf("./%s%s_%d_%s.deb", prefix, fn, v, a)
		}
		c := path.Clean(p)
		d := SumsOf(r.poolFile(c))
		fmt.Fprintf(&b, "Package: %s\nVersion: %d\nArchitecture: %s\n", name, v, a)
		if s.Style&4 != 0 {
			fmt.Fprintf(&b, "Depends: foo,\n bar,\n\tbaz\n")
		}
		fmt.Fprintf(&b, "Filename: %s\nSize: %d\n", p, d.Size)
		if s.ItemSums&SumMD5 != 0 {
			fmt.Fprintf(&b, "MD5sum: %s\n", d.MD5)
		}
		if s.ItemSums&SumSHA1 != 0 {
			fmt.Fprintf(&b, "SHA1: %s\n", d.SHA1)
		}
		if s.ItemSums&SumSHA256 != 0 {
			fmt.Fprintf(&b, "SHA256: %s\n", d.SHA256)
		}
		if s.Style&1 != 0 {
			b.WriteString("# comment: ignored\n")
		}
		fmt.Fprintf(&b, "Description: package %s\n the long: text\n .\n end\n", name)
		if s.Pad > 0 {
			fmt.Fprintf(&b, "Pad: %x\n", Bytes(name, s.Pad/2))
		}
		b.WriteString("\n")
		if s.Style&2 != 0 {
			b.WriteString("\n")
		}
	}
	for _, h := range s.Hostile {
		if h.Where == "packages" {
			d := SumsOf(r.hostile(h.Path))
			fmt.Fprintf(&b, "Package: odd\nFilename: %s\nSize: %d\nMD5sum: %s\nSHA1: %s\nSHA256: %s\n\n", h.Path, d.Size, d.MD5, d.SHA1, d.SHA256)
		}
	}
	return b.Bytes()
}

func (s RepoSpec) lastSection() string {
	if len(s.Sections) == 0 {
		return ""
	}
	return s.Sections[len(s.Sections)-1]
}

// hostile is the content upstream serves for an odd path.
func (r *Repo) hostile(p string) []byte {
	return []byte("hostile content of " + p + "\n")
}

func (r *Repo) sources(n int, sec, prefix string) []byte {
	s := r.Spec
	var b bytes.Buffer
	for i := 0; i < (s.Pkgs+1)/2; i++ {
		name := fmt.Sprintf("src%s%d", strings.ReplaceAll(sec, "/", ""), i)
		v := r.pkgVer(name, n)
		dir := fmt.Sprintf("%s%s/%s", prefix, sec, r.fileName(name))
		if s.Flat {
			dir = strings.TrimSuffix(prefix, "/")
			if dir == "" {
				dir = "."
			}
		}
		fmt.Fprintf(&b, "Package: %s\nBinary: a,\n b\nDirectory: %s\n", name, dir)
		files := []string{fmt.Sprintf("%s_%d.dsc", name, v), fmt.Sprintf("%s_%d.tar.gz", name, v)}
		sec := func(title string, f func(Sums) string) {
			fmt.Fprintf(&b, "%s:\n", title)
			for _, fn := range files {
				d := SumsOf(r.poolFile(path.Join(dir, fn)))
				fmt.Fprintf(&b, " %s %d %s\n", f(d), d.Size, fn)
			}
		}
		if s.ItemSums&SumMD5 != 0 {
			sec("Files", func(d Sums) string { return d.MD5 })
		}
		if s.ItemSums&SumSHA1 != 0 {
			sec("Checksums-Sha1", func(d Sums) string { return d.SHA1 })
		}
		if s.ItemSums&SumSHA256 != 0 {
			sec("Checksums-Sha256", func(d Sums) string { return d.SHA256 })
		}
		b.WriteString("\n")
	}
	for _, h := range s.Hostile {
		if h.Where == "sources" {
			d := SumsOf(r.hostile(h.Path))
			fmt.Fprintf(&b, "Package: odd\nDirectory: %s\nFiles:\n %s %d %s\n\n", path.Dir(h.Path), d.MD5, d.Size, path.Base(h.Path))
		}
	}
	return b.Bytes()
}

func (r *Repo) build(n int) *RepoVersion {
	s := r.Spec
	v := &RepoVersion{N: n, Files: map[string][]byte{}, Lists: map[string]int{}}
	for _, suite := range s.Suites {
		dir := "dists/" + suite
		prefix := "pool/"
		if s.Flat {
			dir = strings.TrimSuffix(suite, "/")
			prefix = ""
			if dir != "" {
				prefix = dir + "/"
			}
		}
		type ent struct {
			rel  string
			data []byte
		}
		var ents []ent
		mangle := func(where, name string, b []byte) []byte {
			for _, m := range s.Mangle {
				if m.Where == where && n >= m.From && n < m.To {
					b = Mangle(m.Seed+uint64(n), b)
					r.odd[string(b)] = true
				}
			}
			for _, m := range s.Wrong {
				if m.Where == where && n >= m.From && n < m.To && !(m.Some && NewRand(m.Seed).Fork(suite+"/"+name).P(0.5)) {
					b = WrongSum(m.Seed, b)
				}
			}
			return b
		}
		addIndex := func(rel string, plain []byte) {
			plain = mangle(strings.ToLower(path.Base(rel)), rel, plain)
			if r.odd[string(plain)] {
				for _, e := range s.Exts {
					r.odd[string(compressN(e, plain, s.Multi))] = true
				}
			}
			for _, e := range s.Exts {
				ents = append(ents, ent{rel + e, compressN(e, plain, s.Multi)})
			}
			for _, e := range s.Ghost {
				ents = append(ents, ent{"\x00" + rel + e, compressN(e, plain, s.Multi)})
			}
		}
		if s.Flat {
			addIndex("Packages", r.packages(n, "", "amd64", prefix))
			if s.Sources {
				addIndex("Sources", r.sources(n, "", prefix))
			}
		} else {
			for _, sec := range s.Sections {
				for _, a := range s.Archs {
					addIndex(sec+"/binary-"+a+"/Packages", r.packages(n, sec, a, prefix))
					if s.ArchRel {
						rb := "Archive: " + suite + "\n"
						if s.RelVer {
							rb += fmt.Sprintf("Version: %d\n", n/2)
						}
						ents = append(ents, ent{sec + "/binary-" + a + "/Release", []byte(rb + "Component: " + sec + "\nArchitecture: " + a + "\n")})
					}
				}
				if s.Sources {
					addIndex(sec+"/source/Sources", r.sources(n, sec, prefix))
				}
				if s.I18n {
					t := []byte(fmt.Sprintf("translation %s %d\n", sec, n/2))
					ents = append(ents, ent{sec + "/i18n/Translation-en.xz", compress(".xz", t)})
					d := SumsOf(compress(".xz", t))
					ents = append(ents, ent{sec + "/i18n/Index", []byte(fmt.Sprintf("SHA1:\n %s %d Translation-en.xz\n", d.SHA1, d.Size))})
				}
			}
		}
		if s.Contents {
			ents = append(ents, ent{"Contents-amd64.gz", compress(".gz", []byte(fmt.Sprintf("contents %d\n", n)))})
		}
		mkhead := func(sums int, name string) []byte {
			var head bytes.Buffer
			fmt.Fprintf(&head, "Origin: Sim\nSuite: %s\nVersion: %d\nDate: Thu, 01 Jan 2026 00:%02d:00 UTC\n", suite, n, n%60)
			if s.ByHash {
				head.WriteString("Acquire-By-Hash: yes\n")
			}
			list := func(title string, f func(Sums) string) {
				fmt.Fprintf(&head, "%s:\n", title)
				for _, e := range ents {
					d := SumsOf(e.data)
					fmt.Fprintf(&head, " %s %16d %s\n", f(d), d.Size, strings.TrimPrefix(e.rel, "\x00"))
				}
				for _, h := range s.Hostile {
					if h.Where == "release" {
						d := SumsOf(r.hostile(h.Path))
						fmt.Fprintf(&head, " %s %d %s\n", f(d), d.Size, h.Path)
					}
				}
			}
			if sums&SumMD5 != 0 {
				list("MD5Sum", func(d Sums) string { return d.MD5 })
			}
			if sums&SumSHA1 != 0 {
				list("SHA1", func(d Sums) string { return d.SHA1 })
			}
			if sums&SumSHA256 != 0 {
				list("SHA256", func(d Sums) string { return d.SHA256 })
			}
			return append([]byte(nil), mangle("release", name, head.Bytes())...)
		}
		head := mkhead(s.RelSums, "Release")
		inhead := head
		if s.InSums != 0 || s.splitWrong() {
			sums := s.InSums
			if sums == 0 {
				sums = s.RelSums
			}
			inhead = mkhead(sums, "InRelease")
		}
		put := func(p string, b []byte) {
			if (r.odd[string(head)] || r.odd[string(inhead)]) && noExt(p) != "Release.gpg" && !strings.Contains(p, "/") && strings.Contains(p, "Release") {
				r.odd[string(b)] = true
			}
			v.Files[path.Join(dir, p)] = b
		}
		for _, e := range ents {
			v.Lists[path.Join(dir, strings.TrimPrefix(e.rel, "\x00"))] = 1
			if strings.HasPrefix(e.rel, "\x00") {
				continue
			}
			put(e.rel, e.data)
			if s.ByHash {
				d := SumsOf(e.data)
				base := path.Dir(e.rel) + "/by-hash/"
				kinds := s.HashOnly
				if kinds == 0 {
					kinds = 7
				}
				if kinds&SumMD5 != 0 {
					put(base+"MD5Sum/"+d.MD5, e.data)
				}
				if kinds&SumSHA1 != 0 {
					put(base+"SHA1/"+d.SHA1, e.data)
				}
				if kinds&SumSHA256 != 0 {
					put(base+"SHA256/"+d.SHA256, e.data)
				}
			}
		}
		for _, rf := range s.RelFiles {
			switch rf {
			case "Release":
				put(rf, head)
			case "Release.gpg":
				put(rf, []byte(fmt.Sprintf("-----BEGIN PGP SIGNATURE-----\n\n%x\n-----END PGP SIGNATURE-----\n", Bytes(string(head), 24))))
			case "Release.gz", "Release.bz2":
				put(rf, compressN(path.Ext(rf), head, s.Multi))
			case "InRelease", "InRelease.gz", "InRelease.bz2":
				nl := ""
				if len(inhead) > 0 && !bytes.HasSuffix(inhead, []byte("\n")) {
					nl = "\n"
				}
				put(rf, compress(strings.TrimPrefix(rf, "InRelease"), []byte(fmt.Sprintf("-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA512\n\n%s%s-----BEGIN PGP SIGNATURE-----\n\n%x\n-----END PGP SIGNATURE-----\n", inhead, nl, Bytes(string(inhead), 24)))))
			}
		}
	}
	// older by-hash generations
	for k := 1; k <= s.KeepHash && k <= n; k++ {
		for p, b := range r.vers[n-k].Files {
			if strings.Contains("/"+p, "/by-hash/") {
				if _, ok := v.Files[p]; !ok {
					v.Files[p] = b
				}
			}
		}
	}
	return v
}

// Get returns what upstream serves at version n.
func (r *Repo) Get(n int, p string) ([]byte, bool) {
	if b, ok := r.Version(n).Files[p]; ok {
		return b, true
	}
	b, ok := r.pool[p]
	return b, ok
}

// ---- independent reading of control data (oracle side) ----

type Listed struct {
	Path              string
	Size              int
	MD5, SHA1, SHA256 string
}

func (l Listed) Match(b []byte) bool {
	s := SumsOf(b)
	return l.Size == s.Size && (l.MD5 == "" || l.MD5 == s.MD5) && (l.SHA1 == "" || l.SHA1 == s.SHA1) && (l.SHA256 == "" || l.SHA256 == s.SHA256)
}

func (l Listed) key() string {
	return fmt.Sprint(l.Path, "|", l.Size, "|", l.MD5, "|", l.SHA1, "|", l.SHA256)
}

func uncompress(p string, b []byte) ([]byte, bool) {
	var o bytes.Buffer
	switch path.Ext(p) {
	case ".gz":
		r, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, false
		}
		if _, err := o.ReadFrom(r); err != nil {
			return nil, false
		}
	case ".bz2":
		if _, err := o.ReadFrom(bzip2.NewReader(bytes.NewReader(b))); err != nil {
			return nil, false
		}
	case ".xz":
		r, err := xz.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, false
		}
		if _, err := o.ReadFrom(r); err != nil {
			return nil, false
		}
	default:
		return b, true
	}
	return o.Bytes(), true
}

// paragraphs splits control data; each field maps to its lines.
func paragraphs(b []byte) []map[string][]string {
	var out []map[string][]string
	cur := map[string][]string{}
	field := ""
	flush := func() {
		if len(cur) > 0 {
			out = append(out, cur)
		}
		cur = map[string][]string{}
		field = ""
	}
	pgp := 0
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSuffix(l, "\r")
		switch {
		case pgp == 1:
			if l == "" {
				pgp = 2
			}
		case l == "-----BEGIN PGP SIGNED MESSAGE-----":
			pgp = 1
		case pgp == 2 && l == "-----BEGIN PGP SIGNATURE-----":
			flush()
			return out
		case l == "":
			flush()
		case l[0] == '#':
		case l[0] == ' ' || l[0] == '\t':
			if field != "" {
				cur[field] = append(cur[field], strings.TrimSpace(l))
			}
		default:
			i := strings.IndexByte(l, ':')
			if i < 0 {
				continue
			}
			field = l[:i]
			v := strings.TrimSpace(l[i+1:])
			if v != "" {
				cur[field] = append(cur[field], v)
			} else if cur[field] == nil {
				cur[field] = []string{}
			}
		}
	}
	flush()
	return out
}

func mergeSums(m map[string]*Listed, dir string, lines []string, set func(l *Listed, sum string)) {
	for _, ln := range lines {
		f := strings.Fields(ln)
		if len(f) != 3 {
			continue
		}
		var size int
		fmt.Sscan(f[1], &size)
		p := path.Join(dir, f[2])
		l := m[p]
		if l == nil {
			l = &Listed{Path: p, Size: size}
			m[p] = l
		}
		set(l, f[0])
	}
}

func sorted(m map[string]*Listed) []Listed {
	var l []Listed
	for _, x := range m {
		l = append(l, *x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Path < l[j].Path })
	return l
}

// ReadRelease lists the files of a Release, InRelease or Index file.
func ReadRelease(p string, b []byte) (l []Listed, byhash bool) {
	b, ok := uncompress(p, b)
	if !ok {
		return nil, false
	}
	ps := paragraphs(b)
	if len(ps) == 0 {
		return nil, false
	}
	d := ps[0]
	dir := path.Dir(p)
	m := map[string]*Listed{}
	mergeSums(m, dir, d["MD5Sum"], func(l *Listed, s string) { l.MD5 = s })
	mergeSums(m, dir, d["SHA1"], func(l *Listed, s string) { l.SHA1 = s })
	mergeSums(m, dir, d["SHA256"], func(l *Listed, s string) { l.SHA256 = s })
	for _, x := range []string{"Release", "Release.gpg", "InRelease"} {
		delete(m, path.Join(dir, x))
	}
	bh := d["Acquire-By-Hash"]
	return sorted(m), len(bh) == 1 && bh[0] == "yes"
}

// Readable is false for an index that breaks the format where the format leaves no doubt:
// what such a file lists, if anything, is not specified.
func Readable(p string, b []byte) bool {
	b, ok := uncompress(p, b)
	if !ok || !wellFormed(b) {
		return false
	}
	num := func(s string) bool {
		_, err := strconv.ParseUint(s, 10, 64)
		return err == nil
	}
	hexa := func(s string) bool {
		_, err := hex.DecodeString(s)
		return err == nil
	}
	base := path.Base(p)
	keys := []string{"MD5Sum", "SHA1", "SHA256"}
	switch {
	case strings.HasPrefix(base, "Packages"):
		for _, d := range paragraphs(b) {
			if len(d["Filename"]) == 0 || len(d["Size"]) == 0 || !num(d["Size"][0]) {
				return false
			}
			for _, k := range []string{"MD5sum", "SHA1", "SHA256"} {
				if !hexa(first(d[k])) {
					return false
				}
			}
		}
		return true
	case strings.HasPrefix(base, "Sources"):
		keys = []string{"Files", "Checksums-Sha1", "Checksums-Sha256"}
	case !strings.Contains(base, "Release") && base != "Index":
		return true
	}
	for _, d := range paragraphs(b) {
		if keys[0] == "Files" && len(d["Directory"]) == 0 {
			return false
		}
		for _, k := range keys {
			for _, ln := range d[k] {
				if f := strings.Fields(ln); len(f) != 0 && (len(f) != 3 || !num(f[1]) || !hexa(f[0])) {
					return false
				}
			}
		}
		if keys[0] != "Files" {
			break
		}
	}
	return true
}

// wellFormed is false if some line cannot be part of control data.
func wellFormed(b []byte) bool {
	field, pgp := false, 0
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSuffix(l, "\r")
		switch {
		case len(l) >= 1<<20-2:
			return false
		case pgp == 1:
			if l == "" {
				pgp = 2
			}
		case l == "-----BEGIN PGP SIGNED MESSAGE-----":
			pgp = 1
		case pgp == 2 && l == "-----BEGIN PGP SIGNATURE-----":
			return true
		case l == "":
			field = false
		case l[0] == '#':
		case l[0] == ' ' || l[0] == '\t':
			if !field {
				return false
			}
		case !strings.Contains(l, ":"):
			return false
		default:
			field = true
		}
	}
	return true
}

// ReadIndex lists the files of a Packages or Sources file.
func ReadIndex(p string, b []byte) []Listed {
	b, ok := uncompress(p, b)
	if !ok {
		return nil
	}
	var out []Listed
	base := path.Base(p)
	for _, d := range paragraphs(b) {
		switch {
		case strings.HasPrefix(base, "Packages"):
			l := Listed{Path: path.Clean(first(d["Filename"])), MD5: first(d["MD5sum"]), SHA1: first(d["SHA1"]), SHA256: first(d["SHA256"])}
			fmt.Sscan(first(d["Size"]), &l.Size)
			out = append(out, l)
		case strings.HasPrefix(base, "Sources"):
			m := map[string]*Listed{}
			dir := first(d["Directory"])
			mergeSums(m, dir, d["Files"], func(l *Listed, s string) { l.MD5 = s })
			mergeSums(m, dir, d["Checksums-Sha1"], func(l *Listed, s string) { l.SHA1 = s })
			mergeSums(m, dir, d["Checksums-Sha256"], func(l *Listed, s string) { l.SHA256 = s })
			out = append(out, sorted(m)...)
		}
	}
	return out
}

func first(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return l[0]
}

// Mangle damages control data in some way a broken or hostile archive may.
func Mangle(seed uint64, b []byte) []byte {
	r := NewRand(seed)
	lines := strings.Split(string(b), "\n")
	field := func() string {
		for i := 0; i < 20; i++ {
			l := lines[r.N(len(lines))]
			if k := strings.IndexByte(l, ':'); k > 0 && l[0] != ' ' && l[0] != '#' {
				return l[:k]
			}
		}
		return "Size"
	}
	ins := func(i int, l string) {
		lines = append(lines[:i:i], append([]string{l}, lines[i:]...)...)
	}
	for k := Pick(r, 1, 1, 1, 2, 4); k > 0; k-- {
		i := r.N(len(lines))
		switch r.N(14) {
		case 0: // a field is missing everywhere
			f := field() + ":"
			var o []string
			skip := false
			for _, l := range lines {
				if strings.HasPrefix(l, f) {
					skip = true
					continue
				}
				if skip && l != "" && (l[0] == ' ' || l[0] == '\t') {
					continue
				}
				skip = false
				o = append(o, l)
			}
			lines = append(o, "")
		case 1: // in one place
			lines = append(lines[:i:i], append(lines[i+1:], "")...)
		case 2: // an empty value everywhere
			f := field() + ":"
			for j, l := range lines {
				if strings.HasPrefix(l, f) {
					lines[j] = f
				}
			}
		case 3:
			ins(i, lines[i])
		case 4: // odd numbers
			v := Pick(r, "-1", "99999999999999999999", "0x10", "1e3", "1.5", "", "18446744073709551615", "-0", " 7 7", "a")
			for j, l := range lines {
				if strings.HasPrefix(l, "Size:") && r.P(0.5) {
					lines[j] = "Size: " + v
				} else if f := strings.Fields(l); len(f) == 3 && l[0] == ' ' && r.P(0.5) {
					lines[j] = " " + f[0] + " " + v + " " + f[2]
				}
			}
		case 5: // odd checksums
			v := Pick(r, "", "zz", "abc", "d41d8cd98f00b204e9800998ecf8427", strings.Repeat("0", 300), "D41D8CD98F00B204E9800998ECF8427E", "d41d8cd98f00b204e9800998ecf8427e00")
			for j, l := range lines {
				for _, f := range []string{"MD5sum:", "SHA1:", "SHA256:"} {
					if strings.HasPrefix(l, f) && len(l) > len(f) && r.P(0.5) {
						lines[j] = f + " " + v
					}
				}
				if f := strings.Fields(l); len(f) == 3 && l[0] == ' ' && r.P(0.3) {
					lines[j] = " " + v + " " + f[1] + " " + f[2]
				}
			}
		case 6:
			ins(i, Pick(r, "no colon here", ": empty name", ":", " lonely continuation", "\t", " ", "Size", "\x00\x00", "\xff\xfe: \x80", "#", "A: "+strings.Repeat("v", 70000), strings.Repeat("k", 70000)+": v", "B: "+strings.Repeat("w", 1100000)))
		case 7:
			lines = append([]string{Pick(r, " continuation first", "", "\r", "\ufeffOrigin: x", "-----BEGIN PGP SIGNED MESSAGE-----")}, lines...)
		case 8: // odd names
			v := Pick(r, "", "/", ".", "..", "../x", "a/../../b", "pool/", "x\x00y", strings.Repeat("n/", 3000)+"z", "Release", "dists", "InRelease", "%", "a b c")
			for j, l := range lines {
				for _, f := range []string{"Filename:", "Directory:"} {
					if strings.HasPrefix(l, f) && r.P(0.5) {
						lines[j] = f + " " + v
					}
				}
				if f := strings.Fields(l); len(f) == 3 && l[0] == ' ' && r.P(0.3) {
					lines[j] = " " + f[0] + " " + f[1] + " " + v
				}
			}
		case 9:
			for j := range lines {
				lines[j] += "\r"
			}
		case 10: // cut anywhere
			s := strings.Join(lines, "\n")
			lines = strings.Split(s[:r.N(len(s)+1)], "\n")
		case 11: // paragraphs split or joined
			if r.P(0.5) {
				ins(i, "")
			} else {
				var o []string
				for _, l := range lines {
					if l != "" {
						o = append(o, l)
					}
				}
				lines = append(o, "")
			}
		case 12: // folded where it should not be
			for j, l := range lines {
				if k := strings.Index(l, ": "); k > 0 && l[0] != ' ' && r.P(0.2) {
					lines[j] = l[:k+1] + "\n " + l[k+2:]
				} else if l != "" && l[0] == ' ' && r.P(0.1) {
					lines[j] = l[1:]
				}
			}
		case 13:
			f := Pick(r, "MD5Sum", "SHA1", "SHA256", "Files", "Checksums-Sha1", "Checksums-Sha256", "Acquire-By-Hash", "Filename", "Directory", "Size")
			ins(i, f+": "+Pick(r, "x", "", "yes", "\n x", "\n a b c d", "\n d41d8cd98f00b204e9800998ecf8427e 0", "\n d41d8cd98f00b204e9800998ecf8427e 0 ok\n"))
		}
	}
	return []byte(strings.Join(lines, "\n"))
}

// WrongSum makes one listed checksum wrong, or the size of a package.
func WrongSum(seed uint64, b []byte) []byte {
	r := NewRand(seed)
	lines := strings.Split(string(b), "\n")
	var l []int
	for i, x := range lines {
		f := strings.Fields(x)
		switch {
		case len(f) == 3 && x[0] == ' ' && len(f[0]) >= 32:
			l = append(l, i)
		case len(f) == 2 && (f[0] == "MD5sum:" || f[0] == "SHA1:" || f[0] == "SHA256:"):
			l = append(l, i)
		case len(f) == 2 && f[0] == "Size:":
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return b
	}
	i := Pick(r, l...)
	f := strings.Fields(lines[i])
	switch {
	case f[0] == "Size:":
		lines[i] = "Size: " + Pick(r, f[1]+"0", "0", "1"+f[1])
	default:
		k := 3 - len(f) // the field with the checksum: "SHA1: sum" or "sum size name"
		c := []byte(f[k])
		j := r.N(len(c))
		if c[j] == '0' {
			c[j] = '1'
		} else {
			c[j] = '0'
		}
		lines[i] = strings.Replace(lines[i], f[k], string(c), 1)
	}
	return []byte(strings.Join(lines, "\n"))
}

// splitWrong: Release and InRelease may contradict each other.
func (s *RepoSpec) splitWrong() bool {
	for _, m := range s.Wrong {
		if m.Some && m.Where == "release" {
			return true
		}
	}
	return false
}

func genWrong(r *Rand) []MangleSpec {
	from := Pick(r, 0, 0, 1)
	m := MangleSpec{Where: Pick(r, "release", "packages", "packages", "sources"), From: from, To: from + Pick(r, 1, 2, 9), Seed: r.U64() >> 1}
	m.Some = r.P(0.5)
	return []MangleSpec{m}
}

// mangleAny damages possibly compressed control data.
func mangleAny(p string, seed uint64, b []byte) []byte {
	e := ext(path.Base(p))
	if e == ".gz" || e == ".xz" || e == ".bz2" {
		if d, ok := uncompress(p, b); ok {
			return compress(e, Mangle(seed, d))
		}
	}
	return Mangle(seed, b)
}

// genMangle draws damage for some of the versions.
func genMangle(r *Rand) []MangleSpec {
	var l []MangleSpec
	for k := r.Range(1, 2); k > 0; k-- {
		from := Pick(r, 0, 0, 1)
		l = append(l, MangleSpec{Where: Pick(r, "release", "packages", "packages", "sources"), From: from, To: from + Pick(r, 1, 2, 9), Seed: r.U64() >> 1})
	}
	return l
}
