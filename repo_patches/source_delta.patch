From 084d1b0cecc490dc4f7c0a06cdff0ffeeb2d3ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 01/31] fix: mirror: max_conns = 0 must mean unlimited, not
 deadlock

mirror.toml documents 0 as "no limit", but the semaphore was created with
capacity 0, so that the first download blocked forever.
---
 mirror/mirror.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 3baa163..744f67c 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -83,9 +83,13 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 		return nil, errors.Wrap(err, id)
 	}
 
-	sem := make(chan struct{}, c.MaxConns)
-	for i := 0; i < c.MaxConns; i++ {
-		sem <- struct{}{}
+	// no semaphore is needed if the number of connections is unlimited.
+	var sem chan struct{}
+	if c.MaxConns > 0 {
+		sem = make(chan struct{}, c.MaxConns)
+		for i := 0; i < c.MaxConns; i++ {
+			sem <- struct{}{}
+		}
 	}
 
 	transport := clonedTransport(http.DefaultTransport)
@@ -118,6 +122,27 @@ func clonedTransport(rt http.RoundTripper) *http.Transport {
 	return t.Clone()
 }
 
+// acquireSemaphore waits for a free download slot.
+func (m *Mirror) acquireSemaphore(ctx context.Context) error {
+	if m.semaphore == nil {
+		return ctx.Err()
+	}
+
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-m.semaphore:
+		return nil
+	}
+}
+
+// releaseSemaphore returns a download slot.
+func (m *Mirror) releaseSemaphore() {
+	if m.semaphore != nil {
+		m.semaphore <- struct{}{}
+	}
+}
+
 func (m *Mirror) storeLink(fi *apt.FileInfo, fp string, byhash bool) error {
 	if byhash {
 		return m.storage.StoreLinkWithHash(fi, fp)
@@ -304,7 +329,7 @@ func (m *Mirror) download(ctx context.Context,
 	defer func() {
 		r.tempfile = tempfile
 		ch <- r
-		m.semaphore <- struct{}{}
+		m.releaseSemaphore()
 	}()
 
 	var retries uint
@@ -491,10 +516,8 @@ func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string]
 	results := make(chan *dlResult, len(releases))
 
 	for _, p := range releases {
-		select {
-		case <-ctx.Done():
-			return nil, false, ctx.Err()
-		case <-m.semaphore:
+		if err := m.acquireSemaphore(ctx); err != nil {
+			return nil, false, err
 		}
 
 		go m.download(ctx, p, nil, false, results)
@@ -625,10 +648,8 @@ func (m *Mirror) reuseOrDownload(ctx context.Context, fil []*apt.FileInfo,
 			}
 		}
 
-		select {
-		case <-ctx.Done():
-			return nil, ctx.Err()
-		case <-m.semaphore:
+		if err := m.acquireSemaphore(ctx); err != nil {
+			return nil, err
 		}
 
 		env.Go(func(ctx context.Context) error {
-- 
2.43.0


From 48cd1aa22e9f83d0cc1512c02bee5cb1da77255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 02/31] fix: mirror: do not store files outside of the mirror

Paths listed in index files come from upstream.  Paths with leading ".."
were joined to the storage directory as is, so that files could be linked
anywhere on the file system.
---
 mirror/storage.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mirror/storage.go b/mirror/storage.go
index f4dd9aa..d2fc40d 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/cybozu-go/aptutil/apt"
@@ -112,9 +113,22 @@ func (s *Storage) Save() error {
 	return nil
 }
 
+// checkPath returns non-nil error if p does not point a file
+// in the directory of mirrored files.
+func checkPath(p string) error {
+	p = filepath.Clean(p)
+	if p == "." || p == "/" || p == ".." || strings.HasPrefix(p, "../") {
+		return errors.New("invalid path: " + p)
+	}
+	return nil
+}
+
 // StoreLink stores a hard link to a file into this storage.
 func (s *Storage) StoreLink(fi *apt.FileInfo, fullpath string) error {
 	p := fi.Path()
+	if err := checkPath(p); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	_, ok := s.info[p]
@@ -140,6 +154,9 @@ func (s *Storage) StoreLink(fi *apt.FileInfo, fullpath string) error {
 // with additional hard links for by-hash retrieval.
 func (s *Storage) StoreLinkWithHash(fi *apt.FileInfo, fullpath string) error {
 	p := fi.Path()
+	if err := checkPath(p); err != nil {
+		return err
+	}
 	md5p := fi.MD5SumPath()
 	sha1p := fi.SHA1Path()
 	sha256p := fi.SHA256Path()
-- 
2.43.0


From f6b436e96d3f8d71a6f7c2e00ee83dfb1280bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 03/31] fix: mirror: check the result of fsync of info.json

---
 mirror/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index d2fc40d..4ba0397 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -104,7 +104,10 @@ func (s *Storage) Save() error {
 		return err
 	}
 
-	f.Sync()
+	err = f.Sync()
+	if err != nil {
+		return err
+	}
 	err = DirSyncTree(s.dir)
 	if err != nil {
 		return errors.Wrap(err, "DirSyncTree(s.dir)")
-- 
2.43.0


From d7bea088d5745b5b5341a8e7fdf9469e887fe951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 04/31] fix: mirror: close response bodies before retrying

Bodies were closed when download returned.  Until then failed requests
kept their connections, in addition to the one used by the retry, which
exceeds max_conns.
---
 mirror/mirror.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 744f67c..b394fca 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -332,6 +332,15 @@ func (m *Mirror) download(ctx context.Context,
 		m.releaseSemaphore()
 	}()
 
+	var resp *http.Response
+	closeResp := func() {
+		if resp != nil {
+			closeRespBody(resp)
+			resp = nil
+		}
+	}
+	defer closeResp()
+
 	var retries uint
 	targets := []string{p}
 	if byhash && fi != nil {
@@ -341,6 +350,7 @@ func (m *Mirror) download(ctx context.Context,
 	}
 
 RETRY:
+	closeResp()
 	if tempfile != nil {
 		closeAndRemoveFile(tempfile)
 		tempfile = nil
@@ -377,7 +387,8 @@ RETRY:
 		ProtoMinor: 1,
 		Header:     header,
 	}
-	resp, err := m.client.Do(req.WithContext(ctx))
+	var err error
+	resp, err = m.client.Do(req.WithContext(ctx))
 	if err != nil {
 		if retries < httpRetries {
 			retries++
@@ -386,7 +397,6 @@ RETRY:
 		r.err = err
 		return
 	}
-	defer closeRespBody(resp)
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("downloaded", map[string]interface{}{
-- 
2.43.0


From 411344a48687feed55967a9b90bd9ea0e7cec4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 05/31] fix: mirror: a missing by-hash file does not make an
 index optional

When the index at its canonical path did not match its checksums and
the by-hash retrieval got 404, the index was taken as non-existent and
the mirror was published without it.  Try the remaining by-hash names,
then fail.
---
 mirror/mirror.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index b394fca..591ff22 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -341,6 +341,7 @@ func (m *Mirror) download(ctx context.Context,
 	}
 	defer closeResp()
 
+	mismatch := false
 	var retries uint
 	targets := []string{p}
 	if byhash && fi != nil {
@@ -413,6 +414,14 @@ RETRY:
 	}
 
 	if r.status != 200 {
+		if mismatch {
+			// p exists, but its contents are different.
+			if len(targets) > 1 {
+				targets = targets[1:]
+				goto RETRY
+			}
+			r.err = errors.New("invalid checksum for " + p)
+		}
 		return
 	}
 
@@ -442,6 +451,7 @@ RETRY:
 	}
 
 	if fi != nil && !fi.Same(fi2) {
+		mismatch = true
 		if len(targets) > 1 {
 			targets = targets[1:]
 			log.Warn("try by-hash retrieval", map[string]interface{}{
-- 
2.43.0


From c86ba8862f506f37221b4af57f2a8613efbdd4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 06/31] fix: mirror: do not try by-hash names of unlisted
 checksums

by-hash paths of checksums that are not listed are empty strings, which
resolve to the URL of the repository itself.
---
 mirror/mirror.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 591ff22..db12118 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -345,9 +345,11 @@ func (m *Mirror) download(ctx context.Context,
 	var retries uint
 	targets := []string{p}
 	if byhash && fi != nil {
-		targets = append(targets, fi.SHA256Path())
-		targets = append(targets, fi.SHA1Path())
-		targets = append(targets, fi.MD5SumPath())
+		for _, t := range []string{fi.SHA256Path(), fi.SHA1Path(), fi.MD5SumPath()} {
+			if t != "" {
+				targets = append(targets, t)
+			}
+		}
 	}
 
 RETRY:
-- 
2.43.0


From 3b24420adaf7cf4d1c712d3aef5b5ece8a991796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 07/31] fix: mirror: compare whole section names

"free" selected indices of "non-free", too.
---
 mirror/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mirror/config.go b/mirror/config.go
index 07af65f..66ba908 100644
--- a/mirror/config.go
+++ b/mirror/config.go
@@ -131,19 +131,19 @@ func (mc *MirrConfig) MatchingIndex(p string) bool {
 		return false
 	}
 
-	pNoExt := p[0 : len(p)-len(path.Ext(p))]
+	pNoExt := "/" + p[0:len(p)-len(path.Ext(p))]
 	var archs []string
 	archs = append(archs, "all")
 	archs = append(archs, mc.Architectures...)
 	for _, section := range mc.Sections {
 		for _, arch := range archs {
-			t := path.Join(path.Clean(section), "binary-"+arch, "Packages")
+			t := path.Join("/", path.Clean(section), "binary-"+arch, "Packages")
 			if strings.HasSuffix(pNoExt, t) {
 				return true
 			}
 		}
 		if mc.Source {
-			t := path.Join(path.Clean(section), "source", "Sources")
+			t := path.Join("/", path.Clean(section), "source", "Sources")
 			if strings.HasSuffix(pNoExt, t) {
 				return true
 			}
-- 
2.43.0


From 0011719771dbf21540705a14176ff81f3d48ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 08/31] fix: mirror: remove temporary links left by a crash

If the process was killed between making ID.tmp and renaming it, cleanup
took the link as in use and kept it with its directory.  If the directory
was lost by a power failure, cleanup even failed.
---
 mirror/control.go | 8 +++++++-
 mirror/mirror.go  | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mirror/control.go b/mirror/control.go
index 5ba5db3..775f9f0 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/cybozu-go/log"
@@ -13,7 +14,8 @@ import (
 )
 
 const (
-	lockFilename = ".lock"
+	lockFilename  = ".lock"
+	tmpLinkSuffix = ".tmp"
 )
 
 func updateMirrors(ctx context.Context, c *Config, mirrors []string) error {
@@ -68,6 +70,10 @@ func gc(ctx context.Context, c *Config) error {
 		if (dentry.Mode() & os.ModeSymlink) == 0 {
 			continue
 		}
+		if id := strings.TrimSuffix(dentry.Name(), tmpLinkSuffix); id != dentry.Name() && validID.MatchString(id) {
+			// left by an interrupted run
+			continue
+		}
 		p, err := filepath.EvalSymlinks(filepath.Join(c.Dir, dentry.Name()))
 		if err != nil {
 			return errors.Wrap(err, "gc")
diff --git a/mirror/mirror.go b/mirror/mirror.go
index db12118..9743174 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -184,7 +184,7 @@ func (m *Mirror) extractItems(indices []*apt.FileInfo, indexMap map[string][]*ap
 }
 
 func (m *Mirror) replaceLink() error {
-	tname := filepath.Join(m.dir, m.id+".tmp")
+	tname := filepath.Join(m.dir, m.id+tmpLinkSuffix)
 	os.Remove(tname)
 	err := os.Symlink(filepath.Join(m.storage.Dir(), m.id), tname)
 	if err != nil {
-- 
2.43.0


From 483cbc2575d0ceb51ff82fed4decaed317ffa9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 09/31] fix: apt: skip consecutive and leading blank lines

A blank line that separates no paragraphs was taken as the end of file,
so that the rest of the file was silently ignored.
---
 apt/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apt/parser.go b/apt/parser.go
index 2f7bcb0..1227f65 100644
--- a/apt/parser.go
+++ b/apt/parser.go
@@ -63,6 +63,11 @@ L:
 	for p.s.Scan() {
 		switch l := p.s.Text(); {
 		case len(l) == 0:
+			if len(ret) == 0 {
+				// blank lines do not make an empty paragraph
+				p.lastField = ""
+				continue
+			}
 			break L
 		case l[0] == '#':
 			continue
-- 
2.43.0


From c7be9857f42626731b9be4b94ae90551c229259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 10/31] fix: cacher: report failed downloads instead of
 retrying forever

Get looped on upstream when the answer of upstream could not be validated
or stored, because the download was recorded as successful nevertheless.
It also looped, or missed the outcome, when cache_period was zero or short.
---
 cacher/cacher.go | 64 ++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 82a486c..7761912 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -36,6 +36,12 @@ func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	return ret
 }
 
+// task represents a download.
+type task struct {
+	done   chan struct{} // closed when the download ends
+	status int           // the outcome, valid after done is closed
+}
+
 // Cacher downloads and caches APT indices and deb files.
 type Cacher struct {
 	meta          *Storage
@@ -49,9 +55,9 @@ type Cacher struct {
 	fiLock sync.RWMutex
 	info   map[string]*apt.FileInfo
 
-	dlLock     sync.RWMutex
-	dlChannels map[string]chan struct{}
-	results    map[string]int
+	dlLock    sync.RWMutex
+	downloads map[string]*task // downloads in progress
+	results   map[string]*task // finished downloads, kept for cachePeriod
 
 	hostLock sync.Mutex
 	hostSem  map[string]chan struct{}
@@ -118,8 +124,8 @@ func NewCacher(config *Config) (*Cacher, error) {
 		client:        &http.Client{},
 		maxConns:      config.MaxConns,
 		info:          make(map[string]*apt.FileInfo),
-		dlChannels:    make(map[string]chan struct{}),
-		results:       make(map[string]int),
+		downloads:     make(map[string]*task),
+		results:       make(map[string]*task),
 		hostSem:       make(map[string]chan struct{}),
 	}
 
@@ -246,38 +252,43 @@ func (c *Cacher) Download(p string, valid *apt.FileInfo) <-chan struct{} {
 	if u == nil {
 		return nil
 	}
+	return c.startDownload(p, u, valid).done
+}
 
+// startDownload starts to download an item unless that is in progress.
+func (c *Cacher) startDownload(p string, u *url.URL, valid *apt.FileInfo) *task {
 	c.dlLock.Lock()
 	defer c.dlLock.Unlock()
 
-	ch, ok := c.dlChannels[p]
+	t, ok := c.downloads[p]
 	if ok {
-		return ch
+		return t
 	}
 
-	ch = make(chan struct{})
-	c.dlChannels[p] = ch
+	t = &task{done: make(chan struct{})}
+	c.downloads[p] = t
 	well.Go(func(ctx context.Context) error {
-		c.download(ctx, p, u, valid)
+		c.download(ctx, t, p, u, valid)
 		return nil
 	})
-	return ch
+	return t
 }
 
 // download is a goroutine to download an item.
-func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.FileInfo) {
+func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, valid *apt.FileInfo) {
 	c.acquireSemaphore(u.Host)
 
+	// This is http.StatusOK only after the item has been cached.
 	statusCode := http.StatusInternalServerError
 
 	defer func() {
 		c.releaseSemaphore(u.Host)
 		c.dlLock.Lock()
-		ch := c.dlChannels[p]
-		delete(c.dlChannels, p)
-		c.results[p] = statusCode
+		t.status = statusCode
+		delete(c.downloads, p)
+		c.results[p] = t
 		c.dlLock.Unlock()
-		close(ch)
+		close(t.done)
 
 		// invalidate result cache after some interval
 		well.Go(func(ctx context.Context) error {
@@ -321,8 +332,8 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	}
 
 	defer closeRespBody(resp)
-	statusCode = resp.StatusCode
-	if statusCode != 200 {
+	if resp.StatusCode != http.StatusOK {
+		statusCode = resp.StatusCode
 		return
 	}
 
@@ -415,6 +426,7 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		}
 	}
 	c.info[p] = fi
+	statusCode = http.StatusOK
 	log.Info("downloaded and cached", map[string]interface{}{
 		"path": p,
 	})
@@ -462,17 +474,17 @@ RETRY:
 
 	// not found in storage.
 	c.dlLock.RLock()
-	ch, chOk := c.dlChannels[p]
-	result, resultOk := c.results[p]
+	t, ok := c.results[p]
 	c.dlLock.RUnlock()
 
-	if resultOk && result != http.StatusOK {
-		return result, nil, nil
+	if ok && t.status != http.StatusOK {
+		return t.status, nil, nil
 	}
-	if chOk {
-		<-ch
-	} else {
-		<-c.Download(p, fi)
+
+	t = c.startDownload(p, u, fi)
+	<-t.done
+	if t.status != http.StatusOK {
+		return t.status, nil, nil
 	}
 	goto RETRY
 }
-- 
2.43.0


From ffed5ad1513c979babcfbcdbecadfbe34235b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:33 +0000
Subject: [PATCH 11/31] fix: cacher: keep the result of a newer download

The timer of an older result removed the newer one before its
cache_period was over.
---
 cacher/cacher.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 7761912..9c885dc 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -298,7 +298,9 @@ func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, va
 			case <-time.After(c.cachePeriod):
 			}
 			c.dlLock.Lock()
-			delete(c.results, p)
+			if c.results[p] == t {
+				delete(c.results, p)
+			}
 			c.dlLock.Unlock()
 			return nil
 		})
-- 
2.43.0


From b978bf5f5c87e435ddc425defcc97daf22156403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 12/31] fix: cacher: do not let old downloads replace newer
 checksums

A download in progress while a newer Release or Packages file arrived
replaced the newer checksums of the item with its own, outdated ones.
Requests now also see the checksums and the storage consistently.
---
 cacher/cacher.go | 95 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 34 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 9c885dc..76cab03 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -25,6 +25,7 @@ import (
 const (
 	gib            = 1 << 30
 	requestTimeout = 30 * time.Minute
+	maxRetries     = 10
 )
 
 // addPrefix add prefix for each *FileInfo in fil.
@@ -40,6 +41,7 @@ func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 type task struct {
 	done   chan struct{} // closed when the download ends
 	status int           // the outcome, valid after done is closed
+	stale  bool          // a newer checksum became known meanwhile, ditto
 }
 
 // Cacher downloads and caches APT indices and deb files.
@@ -252,11 +254,16 @@ func (c *Cacher) Download(p string, valid *apt.FileInfo) <-chan struct{} {
 	if u == nil {
 		return nil
 	}
-	return c.startDownload(p, u, valid).done
+	c.fiLock.RLock()
+	base := c.info[p]
+	c.fiLock.RUnlock()
+	return c.startDownload(p, u, valid, base).done
 }
 
 // startDownload starts to download an item unless that is in progress.
-func (c *Cacher) startDownload(p string, u *url.URL, valid *apt.FileInfo) *task {
+//
+// base is the information currently known for the item, if any.
+func (c *Cacher) startDownload(p string, u *url.URL, valid, base *apt.FileInfo) *task {
 	c.dlLock.Lock()
 	defer c.dlLock.Unlock()
 
@@ -268,14 +275,14 @@ func (c *Cacher) startDownload(p string, u *url.URL, valid *apt.FileInfo) *task
 	t = &task{done: make(chan struct{})}
 	c.downloads[p] = t
 	well.Go(func(ctx context.Context) error {
-		c.download(ctx, t, p, u, valid)
+		c.download(ctx, t, p, u, valid, base)
 		return nil
 	})
 	return t
 }
 
 // download is a goroutine to download an item.
-func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, valid *apt.FileInfo) {
+func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, valid, base *apt.FileInfo) {
 	c.acquireSemaphore(u.Host)
 
 	// This is http.StatusOK only after the item has been cached.
@@ -286,7 +293,9 @@ func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, va
 		c.dlLock.Lock()
 		t.status = statusCode
 		delete(c.downloads, p)
-		c.results[p] = t
+		if !t.stale {
+			c.results[p] = t
+		}
 		c.dlLock.Unlock()
 		close(t.done)
 
@@ -374,6 +383,9 @@ func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, va
 		return
 	}
 	if valid != nil && !valid.Same(fi) {
+		c.fiLock.RLock()
+		t.stale = c.info[p] != base
+		c.fiLock.RUnlock()
 		log.Warn("downloaded data is not valid", map[string]interface{}{
 			"url": u.String(),
 		})
@@ -405,6 +417,15 @@ func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, va
 	c.fiLock.Lock()
 	defer c.fiLock.Unlock()
 
+	// Do not replace checksums that became known during the download.
+	if cur := c.info[p]; cur != nil && cur != base && !cur.Same(fi) {
+		t.stale = true
+		log.Warn("downloaded data is outdated", map[string]interface{}{
+			"url": u.String(),
+		})
+		return
+	}
+
 	// To keep consistency between Cacher and Storage so that
 	// both have the same set of FileInfo, storage.Insert need to be
 	// guarded by c.fiLock.
@@ -455,38 +476,44 @@ func (c *Cacher) Get(p string) (statusCode int, f *os.File, err error) {
 		storage = c.meta
 	}
 
-RETRY:
-	c.fiLock.RLock()
-	fi, ok := c.info[p]
-	c.fiLock.RUnlock()
-
-	if ok {
-		f, err := storage.Lookup(fi)
-		switch err {
-		case nil:
-			return http.StatusOK, f, nil
-		case ErrNotFound:
-		default:
-			log.Error("lookup failure", map[string]interface{}{
-				"error": err.Error(),
-			})
-			return http.StatusInternalServerError, nil, err
+	for i := 0; i < maxRetries; i++ {
+		// c.info and storage must be consistent.  See also download.
+		c.fiLock.RLock()
+		fi, ok := c.info[p]
+		if ok {
+			f, err = storage.Lookup(fi)
+		}
+		c.fiLock.RUnlock()
+
+		if ok {
+			switch err {
+			case nil:
+				return http.StatusOK, f, nil
+			case ErrNotFound:
+			default:
+				log.Error("lookup failure", map[string]interface{}{
+					"error": err.Error(),
+				})
+				return http.StatusInternalServerError, nil, err
+			}
 		}
-	}
 
-	// not found in storage.
-	c.dlLock.RLock()
-	t, ok := c.results[p]
-	c.dlLock.RUnlock()
+		// not found in storage.
+		c.dlLock.RLock()
+		t, ok := c.results[p]
+		c.dlLock.RUnlock()
 
-	if ok && t.status != http.StatusOK {
-		return t.status, nil, nil
-	}
+		if ok && t.status != http.StatusOK {
+			return t.status, nil, nil
+		}
 
-	t = c.startDownload(p, u, fi)
-	<-t.done
-	if t.status != http.StatusOK {
-		return t.status, nil, nil
+		t = c.startDownload(p, u, fi, fi)
+		<-t.done
+		if !t.stale && t.status != http.StatusOK {
+			return t.status, nil, nil
+		}
 	}
-	goto RETRY
+
+	// The item is replaced or evicted again and again.
+	return http.StatusInternalServerError, nil, nil
 }
-- 
2.43.0


From c4c02b0cad0a6e4903a00d8fe31fed54a3ee1f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 13/31] fix: cacher: refuse items larger than the capacity

Such an item evicted everything else and then itself.
---
 cacher/cacher.go  | 10 +++++++++-
 cacher/storage.go |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 76cab03..3252a41 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -429,7 +429,15 @@ func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, va
 	// To keep consistency between Cacher and Storage so that
 	// both have the same set of FileInfo, storage.Insert need to be
 	// guarded by c.fiLock.
-	if err := storage.Insert(tempfile.Name(), fi); err != nil {
+	switch err := storage.Insert(tempfile.Name(), fi); err {
+	case nil:
+	case ErrTooLarge:
+		log.Warn("the cache is too small for an item", map[string]interface{}{
+			"path": p,
+			"size": fi.Size(),
+		})
+		return
+	default:
 		log.Error("could not save an item", map[string]interface{}{
 			"path":  p,
 			"error": err.Error(),
diff --git a/cacher/storage.go b/cacher/storage.go
index d54033e..77daf34 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -20,6 +20,10 @@ var (
 	// ErrNotFound is returned by Storage.Lookup for non-existing items.
 	ErrNotFound = errors.New("not found")
 
+	// ErrTooLarge is returned by Storage.Insert if the item is larger
+	// than the capacity of the storage.
+	ErrTooLarge = errors.New("too large item")
+
 	// ErrBadPath is returned by Storage.Insert if path is bad
 	ErrBadPath = errors.New("bad path")
 )
@@ -218,6 +222,10 @@ func (cm *Storage) Insert(filename string, fi *apt.FileInfo) error {
 		return ErrBadPath
 	}
 
+	if cm.capacity > 0 && fi.Size() > cm.capacity {
+		return ErrTooLarge
+	}
+
 	destpath := filepath.Join(cm.dir, p+fileSuffix)
 	dirpath := filepath.Dir(destpath)
 
-- 
2.43.0


From e6a9178d0af86bc3065f6d9f17780f8e339a071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 14/31] fix: cacher: do not wait for downloads that never start

Once the program is told to stop, well.Go does not start goroutines, so
requests and refreshes waited for their downloads forever.  The refresh of
a Release file cached for a prefix that is no longer mapped waited forever,
too.
---
 cacher/cacher.go  | 27 ++++++++++++++++++++++-----
 cacher/handler.go |  2 +-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 3252a41..6f447ab 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -223,12 +223,21 @@ func (c *Cacher) maintRelease(ctx context.Context, p string, withGPG bool) {
 		case <-ctx.Done():
 			return
 		case <-ticker.C:
-			ch1 := c.Download(p, nil)
+			chs := []<-chan struct{}{c.Download(p, nil)}
 			if withGPG {
-				ch2 := c.Download(p+".gpg", nil)
-				<-ch2
+				chs = append(chs, c.Download(p+".gpg", nil))
+			}
+			for _, ch := range chs {
+				if ch == nil {
+					// the prefix is not mapped (any longer).
+					return
+				}
+				select {
+				case <-ctx.Done():
+					return
+				case <-ch:
+				}
 			}
-			<-ch1
 		}
 	}
 }
@@ -470,6 +479,10 @@ func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, va
 // an upstream server, a pointer to os.File for the cache file,
 // and error.
 func (c *Cacher) Get(p string) (statusCode int, f *os.File, err error) {
+	return c.get(context.Background(), p)
+}
+
+func (c *Cacher) get(ctx context.Context, p string) (statusCode int, f *os.File, err error) {
 	u := c.um.URL(p)
 	if u == nil {
 		return http.StatusNotFound, nil, nil
@@ -516,7 +529,11 @@ func (c *Cacher) Get(p string) (statusCode int, f *os.File, err error) {
 		}
 
 		t = c.startDownload(p, u, fi, fi)
-		<-t.done
+		select {
+		case <-ctx.Done():
+			return http.StatusServiceUnavailable, nil, nil
+		case <-t.done:
+		}
 		if !t.stale && t.status != http.StatusOK {
 			return t.status, nil, nil
 		}
diff --git a/cacher/handler.go b/cacher/handler.go
index 2aaa68d..790fea3 100644
--- a/cacher/handler.go
+++ b/cacher/handler.go
@@ -32,7 +32,7 @@ func (c cacheHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		})
 	}
 
-	status, f, err := c.Get(p)
+	status, f, err := c.get(r.Context(), p)
 
 	switch {
 	case err != nil:
-- 
2.43.0


From d385db071ae94d0470de6536bc6831884c54255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:13 +0000
Subject: [PATCH 15/31] fix: cacher: start with broken meta data in the cache

Broken meta data are cached and served as is, but prevented the next start.
---
 cacher/cacher.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 6f447ab..9996204 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -144,7 +144,11 @@ func NewCacher(config *Config) (*Cacher, error) {
 		fil, _, err := apt.ExtractFileInfo(t[1], f)
 		f.Close()
 		if err != nil {
-			return nil, errors.Wrap(err, "ExtractFileInfo("+fi.Path()+")")
+			log.Error("invalid meta data", map[string]interface{}{
+				"path":  fi.Path(),
+				"error": err.Error(),
+			})
+			// do not return; broken meta data are accepted as is.
 		}
 		fil = addPrefix(t[0], fil)
 		for _, fi2 := range fil {
-- 
2.43.0


From 123f43ed0e7896d070c025dbda82ea8a238b4f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 16/31] fix: cacher: remove temporary files left by a crash

---
 cacher/storage.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cacher/storage.go b/cacher/storage.go
index 77daf34..2fe2e3d 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/cybozu-go/aptutil/apt"
@@ -14,6 +15,7 @@ import (
 
 const (
 	fileSuffix = ".cache"
+	tempPrefix = "_tmp"
 )
 
 var (
@@ -165,6 +167,15 @@ func (cm *Storage) Load() error {
 			return err
 		}
 		if filepath.Ext(subpath) != fileSuffix {
+			if filepath.Dir(subpath) == "." && strings.HasPrefix(subpath, tempPrefix) {
+				// left by a process that did not end normally.
+				if err := os.Remove(path); err != nil {
+					log.Warn("failed to remove a temporary file", map[string]interface{}{
+						"path":  path,
+						"error": err.Error(),
+					})
+				}
+			}
 			return nil
 		}
 		subpath = subpath[:len(subpath)-len(fileSuffix)]
@@ -204,7 +215,7 @@ func (cm *Storage) Load() error {
 // opens the file for reading and writing,
 // and returns the resulting *os.File.
 func (cm *Storage) TempFile() (*os.File, error) {
-	return ioutil.TempFile(cm.dir, "_tmp")
+	return ioutil.TempFile(cm.dir, tempPrefix)
 }
 
 // Insert inserts or updates a cache item.
-- 
2.43.0


From 9cbdfe6cf318d8d46729f3beb97a2a6c10275616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:20 +0000
Subject: [PATCH 17/31] fix: cacher: accept requests without a path

A request target such as "http://host" made the handler panic, and paths
like "/../x" were passed on with the dots.
---
 cacher/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cacher/handler.go b/cacher/handler.go
index 790fea3..84133ea 100644
--- a/cacher/handler.go
+++ b/cacher/handler.go
@@ -24,7 +24,7 @@ func (c cacheHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	p := path.Clean(r.URL.Path[1:])
+	p := path.Clean("/" + r.URL.Path)[1:]
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("request path", map[string]interface{}{
-- 
2.43.0


From 6c1a928e223ce3a4913deb68399e1dec6ef380ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:24 +0000
Subject: [PATCH 18/31] fix: cacher: do not crash when an item cannot be saved

Names that are not suitable for files made the program crash.  A file
left after a failed removal made it crash, too.
---
 cacher/cacher.go  |  3 +--
 cacher/storage.go | 11 ++++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 9996204..2098b07 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -455,8 +455,7 @@ func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, va
 			"path":  p,
 			"error": err.Error(),
 		})
-		// panic because go-apt-cacher cannot continue working
-		panic(err)
+		return
 	}
 
 	for _, fi2 := range fil {
diff --git a/cacher/storage.go b/cacher/storage.go
index 2fe2e3d..e5c73bb 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -254,12 +254,13 @@ func (cm *Storage) Insert(filename string, fi *apt.FileInfo) error {
 	cm.mu.Lock()
 	defer cm.mu.Unlock()
 
-	if existing, ok := cm.cache[p]; ok {
-		err = os.Remove(destpath)
+	existing, ok := cm.cache[p]
+	err = os.Remove(destpath)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if ok {
 		if err != nil {
-			if !os.IsNotExist(err) {
-				return err
-			}
 			log.Warn("cache file was removed already", map[string]interface{}{
 				"path": p,
 			})
-- 
2.43.0


From 7767f40685994b140d74d26641fd2cb739a48d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:27 +0000
Subject: [PATCH 19/31] fix: cacher: do not pass on informational status codes

Status codes below 100 made the handler panic, and a switch of protocols
made the download wait forever.
---
 cacher/cacher.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 2098b07..d9a0ec4 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -355,6 +355,17 @@ func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, va
 		return
 	}
 
+	if resp.StatusCode < http.StatusOK {
+		// such as 101 Switching Protocols; these have no ordinary body.
+		resp.Body.Close()
+		log.Warn("GET failed", map[string]interface{}{
+			"url":    u.String(),
+			"status": resp.StatusCode,
+		})
+		statusCode = http.StatusBadGateway
+		return
+	}
+
 	defer closeRespBody(resp)
 	if resp.StatusCode != http.StatusOK {
 		statusCode = resp.StatusCode
-- 
2.43.0


From 9a08e97254de12de7c9b7cb27f43215388dca913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 20/31] fix: cacher: ignore listed files outside of the prefix

Indices of one prefix could define the checksums of items of another one
with paths like "../other/file".
---
 cacher/cacher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index d9a0ec4..f0ce677 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -32,6 +32,10 @@ const (
 func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	ret := make([]*apt.FileInfo, 0, len(fil))
 	for _, fi := range fil {
+		if t := path.Clean(fi.Path()); t == ".." || strings.HasPrefix(t, "../") {
+			// outside of the prefix
+			continue
+		}
 		ret = append(ret, fi.AddPrefix(prefix))
 	}
 	return ret
-- 
2.43.0


From 5c559135529d9c07a9452e84a8bfc51b332ac370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:36 +0000
Subject: [PATCH 21/31] fix: cacher: do not validate unlisted items against
 evicted data

---
 cacher/cacher.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index f0ce677..0bd6f02 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -58,8 +58,9 @@ type Cacher struct {
 	client        *http.Client
 	maxConns      int
 
-	fiLock sync.RWMutex
-	info   map[string]*apt.FileInfo
+	fiLock   sync.RWMutex
+	info     map[string]*apt.FileInfo
+	unlisted map[string]struct{} // items whose info is that of the cached data
 
 	dlLock    sync.RWMutex
 	downloads map[string]*task // downloads in progress
@@ -130,6 +131,7 @@ func NewCacher(config *Config) (*Cacher, error) {
 		client:        &http.Client{},
 		maxConns:      config.MaxConns,
 		info:          make(map[string]*apt.FileInfo),
+		unlisted:      make(map[string]struct{}),
 		downloads:     make(map[string]*task),
 		results:       make(map[string]*task),
 		hostSem:       make(map[string]chan struct{}),
@@ -165,6 +167,7 @@ func NewCacher(config *Config) (*Cacher, error) {
 		p := fi.Path()
 		if _, ok := c.info[p]; !ok {
 			c.info[p] = fi
+			c.unlisted[p] = struct{}{}
 			c.maintMeta(p)
 		}
 	}
@@ -475,10 +478,11 @@ func (c *Cacher) download(ctx context.Context, t *task, p string, u *url.URL, va
 
 	for _, fi2 := range fil {
 		c.info[fi2.Path()] = fi2
+		delete(c.unlisted, fi2.Path())
 	}
-	if apt.IsMeta(p) {
-		_, ok := c.info[p]
-		if !ok {
+	if _, ok := c.info[p]; !ok {
+		c.unlisted[p] = struct{}{}
+		if apt.IsMeta(p) {
 			// As this is the first time that downloaded meta file p,
 			c.maintMeta(p)
 		}
@@ -519,6 +523,10 @@ func (c *Cacher) get(ctx context.Context, p string) (statusCode int, f *os.File,
 		// c.info and storage must be consistent.  See also download.
 		c.fiLock.RLock()
 		fi, ok := c.info[p]
+		valid := fi
+		if _, unlisted := c.unlisted[p]; unlisted {
+			valid = nil
+		}
 		if ok {
 			f, err = storage.Lookup(fi)
 		}
@@ -546,7 +554,7 @@ func (c *Cacher) get(ctx context.Context, p string) (statusCode int, f *os.File,
 			return t.status, nil, nil
 		}
 
-		t = c.startDownload(p, u, fi, fi)
+		t = c.startDownload(p, u, valid, fi)
 		select {
 		case <-ctx.Done():
 			return http.StatusServiceUnavailable, nil, nil
-- 
2.43.0


From 1ae464f9a329e531b91349022fccb02da7a1547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 22/31] fix: cacher: start refreshes only after the known
 checksums are complete

---
 cacher/cacher.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 0bd6f02..47b0673 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -163,15 +163,21 @@ func NewCacher(config *Config) (*Cacher, error) {
 	}
 
 	// add meta files w/o checksums (Release, Release.gpg, and InRelease).
+	var unlisted []string
 	for _, fi := range metas {
 		p := fi.Path()
 		if _, ok := c.info[p]; !ok {
 			c.info[p] = fi
 			c.unlisted[p] = struct{}{}
-			c.maintMeta(p)
+			unlisted = append(unlisted, p)
 		}
 	}
 
+	// c must not be accessed without locks from here on.
+	for _, p := range unlisted {
+		c.maintMeta(p)
+	}
+
 	return c, nil
 }
 
-- 
2.43.0


From 95cabc8bde823ee0cfe50ac9fdd307abdc3cd206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 23/31] fix: apt: detect xz data that end between two blocks

The xz reader takes such data for complete, so that a truncated index
was read as a shorter or empty one without an error.
---
 apt/meta.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/apt/meta.go b/apt/meta.go
index 0249cbb..00a0398 100644
--- a/apt/meta.go
+++ b/apt/meta.go
@@ -323,6 +323,42 @@ func getFilesFromIndex(p string, r io.Reader) ([]*FileInfo, Paragraph, error) {
 	return getFilesFromRelease(p, r)
 }
 
+// tailReader remembers the last four bytes read from r.
+type tailReader struct {
+	r    io.Reader
+	tail [4]byte
+}
+
+func (t *tailReader) Read(p []byte) (int, error) {
+	n, err := t.r.Read(p)
+	if n >= len(t.tail) {
+		copy(t.tail[:], p[n-len(t.tail):n])
+	} else if n > 0 {
+		copy(t.tail[:], t.tail[n:])
+		copy(t.tail[len(t.tail)-n:], p[:n])
+	}
+	return n, err
+}
+
+// xzReader reports xz data that ends between two blocks as broken.
+// xz.Reader takes this for a regular end.
+type xzReader struct {
+	*xz.Reader
+	src *tailReader
+}
+
+func (x *xzReader) Read(p []byte) (int, error) {
+	n, err := x.Reader.Read(p)
+	if err == io.EOF {
+		// complete data end with a stream footer or stream padding
+		t := x.src.tail
+		if string(t[2:]) != "YZ" && t != [4]byte{} {
+			err = io.ErrUnexpectedEOF
+		}
+	}
+	return n, err
+}
+
 // ExtractFileInfo parses debian repository index files such as
 // Release, Packages, or Sources and return a list of *FileInfo
 // listed in the file.
@@ -353,11 +389,12 @@ func ExtractFileInfo(p string, r io.Reader) ([]*FileInfo, Paragraph, error) {
 		r = bzip2.NewReader(r)
 		base = base[:len(base)-4]
 	case ".xz":
-		xzr, err := xz.NewReader(r)
+		src := &tailReader{r: r}
+		xzr, err := xz.NewReader(src)
 		if err != nil {
 			return nil, nil, err
 		}
-		r = xzr
+		r = &xzReader{xzr, src}
 		base = base[:len(base)-3]
 	default:
 		return nil, nil, errors.New("unsupported file extension: " + ext)
-- 
2.43.0


From b82d5f5dbf76632c92fa0a50e4b9be41cb446002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 24/31] fix: cacher: do not modify file information that
 ListAll returned

Storage.Lookup filled in delayed checksums in place, while callers of
ListAll may be reading them.
---
 cacher/cacher.go  | 2 +-
 cacher/storage.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 47b0673..45f55db 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -164,7 +164,7 @@ func NewCacher(config *Config) (*Cacher, error) {
 
 	// add meta files w/o checksums (Release, Release.gpg, and InRelease).
 	var unlisted []string
-	for _, fi := range metas {
+	for _, fi := range meta.ListAll() {
 		p := fi.Path()
 		if _, ok := c.info[p]; !ok {
 			c.info[p] = fi
diff --git a/cacher/storage.go b/cacher/storage.go
index e5c73bb..f0368e2 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -303,7 +303,10 @@ func calcChecksum(dir string, e *entry) error {
 	if err != nil {
 		return err
 	}
-	e.FileInfo.CalcChecksums(data)
+	// do not modify e.FileInfo as ListAll may have returned it.
+	fi := apt.MakeFileInfoNoChecksum(e.Path(), 0)
+	fi.CalcChecksums(data)
+	e.FileInfo = fi
 	return nil
 }
 
-- 
2.43.0


From c232a04bfe20b7dc6fa6792941a1f386ce97e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 25/31] fix: mirror: sync the links before cleanup removes old
 trees

---
 mirror/control.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mirror/control.go b/mirror/control.go
index 775f9f0..d11b346 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -82,6 +82,13 @@ func gc(ctx context.Context, c *Config) error {
 		using[filepath.Base(filepath.Dir(p))] = true
 	}
 
+	// make sure that the symlinks survive a crash before removing
+	// what they were pointing to.
+	err = DirSync(c.Dir)
+	if err != nil {
+		return errors.Wrap(err, "gc")
+	}
+
 	// remove unused dentries.
 	for _, dentry := range dentries {
 		if using[dentry.Name()] {
-- 
2.43.0


From 788dfdc387979b35cc889ac3ef1c330e08bfe378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 26/31] fix: mirror: reject a relative dir before cleaning it
 up

---
 mirror/control.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mirror/control.go b/mirror/control.go
index d11b346..8b288ec 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -122,6 +122,12 @@ func gc(ctx context.Context, c *Config) error {
 // (or keys in c.Mirrors).  If mirrors is an empty list, all mirrors
 // will be updated.
 func Run(c *Config, mirrors []string) error {
+	// a relative dir would only be found invalid later, and the cleanup
+	// would remove everything in it.
+	if !filepath.IsAbs(c.Dir) {
+		return errors.New("dir must be an absolute path: " + c.Dir)
+	}
+
 	lockFile := filepath.Join(c.Dir, lockFilename)
 	f, err := os.Open(lockFile)
 	switch {
-- 
2.43.0


From e7e5050ba5a8e53f50e8a238cdde7b5b5d6bee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 27/31] fix: mirror: reject a mirror without url

---
 mirror/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mirror/config.go b/mirror/config.go
index 66ba908..a236f5e 100644
--- a/mirror/config.go
+++ b/mirror/config.go
@@ -56,6 +56,9 @@ func isFlat(suite string) bool {
 
 // Check vaildates the configuration.
 func (mc *MirrConfig) Check() error {
+	if mc.URL.URL == nil {
+		return errors.New("no url")
+	}
 	if len(mc.Suites) == 0 {
 		return errors.New("no suites")
 	}
-- 
2.43.0


From 6ceb7a711854062e817fb2afef5cfc802bb5800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 28/31] fix: cacher: reject negative check_interval and
 max_conns

---
 cacher/cacher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 45f55db..8cbcf96 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -72,9 +72,12 @@ type Cacher struct {
 
 // NewCacher constructs Cacher.
 func NewCacher(config *Config) (*Cacher, error) {
-	if config.CheckInterval == 0 {
+	if config.CheckInterval <= 0 {
 		return nil, errors.New("invaild check_interval")
 	}
+	if config.MaxConns < 0 {
+		return nil, errors.New("max_conns must be >= 0")
+	}
 	checkInterval := time.Duration(config.CheckInterval) * time.Second
 	cachePeriod := time.Duration(config.CachePeriod) * time.Second
 
-- 
2.43.0


From c3ff36ddf1a72bb5cb3ea1ef24034383122b2502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 29/31] fix: cacher: validate refreshed Release files listed in
 other ones

---
 cacher/cacher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 8cbcf96..2ba0585 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -270,6 +270,8 @@ func closeRespBody(r *http.Response) {
 // Download downloads an item and caches it.
 //
 // If valid is not nil, the downloaded data is validated against it.
+// Otherwise, the data is validated against checksums for the item
+// listed in other meta files, if any.
 //
 // The caller receives a channel that will be closed when the item
 // is downloaded and cached.  If prefix of p is not registered
@@ -285,6 +287,9 @@ func (c *Cacher) Download(p string, valid *apt.FileInfo) <-chan struct{} {
 	}
 	c.fiLock.RLock()
 	base := c.info[p]
+	if _, unlisted := c.unlisted[p]; valid == nil && !unlisted {
+		valid = base
+	}
 	c.fiLock.RUnlock()
 	return c.startDownload(p, u, valid, base).done
 }
-- 
2.43.0


From dac56aa7ab6dd075ba4aa5eed8c64ccd14dbc086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 30/31] fix: mirror: reject contradicting checksums of an item

---
 apt/fileinfo.go  | 28 ++++++++++++++++++++++++++++
 mirror/mirror.go |  7 +++++++
 2 files changed, 35 insertions(+)

diff --git a/apt/fileinfo.go b/apt/fileinfo.go
index 7d4d0ee..39ee6fd 100644
--- a/apt/fileinfo.go
+++ b/apt/fileinfo.go
@@ -45,6 +45,34 @@ func (fi *FileInfo) Same(t *FileInfo) bool {
 	return true
 }
 
+// Merge returns information that has checksums of both fi and t.
+//
+// If fi and t are not for the same file, Merge returns nil.
+func (fi *FileInfo) Merge(t *FileInfo) *FileInfo {
+	if fi.path != t.path || fi.size != t.size {
+		return nil
+	}
+
+	merged := *fi
+	for _, sums := range []struct {
+		dst *[]byte
+		src []byte
+	}{
+		{&merged.md5sum, t.md5sum},
+		{&merged.sha1sum, t.sha1sum},
+		{&merged.sha256sum, t.sha256sum},
+	} {
+		switch {
+		case sums.src == nil:
+		case *sums.dst == nil:
+			*sums.dst = sums.src
+		case !bytes.Equal(*sums.dst, sums.src):
+			return nil
+		}
+	}
+	return &merged
+}
+
 // Path returns the indentifying path string of the file.
 func (fi *FileInfo) Path() string {
 	return fi.path
diff --git a/mirror/mirror.go b/mirror/mirror.go
index 9743174..2aa8868 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -177,6 +177,13 @@ func (m *Mirror) extractItems(indices []*apt.FileInfo, indexMap map[string][]*ap
 				// already included in Release/InRelease
 				continue
 			}
+			if known, ok := itemMap[fipath]; ok {
+				// listed in another index, too.
+				fi = known.Merge(fi)
+				if fi == nil {
+					return errors.New("inconsistent checksum for " + fipath)
+				}
+			}
 			itemMap[fipath] = fi
 		}
 	}
-- 
2.43.0


From 4103029b597b27c10aac35186ea867b1b3addd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 31/31] fix: mirror: accept Release and InRelease with
 different kinds of checksums

---
 mirror/mirror.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 2aa8868..4ae35a5 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -490,8 +490,9 @@ func addFileInfoToList(fi *apt.FileInfo, m map[string][]*apt.FileInfo, byhash bo
 		return nil
 	}
 
-	for _, existing := range fil {
-		if existing.Same(fi) {
+	for i, existing := range fil {
+		if merged := existing.Merge(fi); merged != nil {
+			fil[i] = merged
 			return nil
 		}
 	}
-- 
2.43.0

