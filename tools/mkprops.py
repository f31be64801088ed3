#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the list is easier to edit here).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
M='mirror/mirror.go';MC='mirror/control.go';MS='mirror/storage.go';MD='mirror/dirsync.go';MF='mirror/flock.go';MG='mirror/config.go'
C='cacher/cacher.go';CS='cacher/storage.go';CH='cacher/handler.go';CU='cacher/urlmap.go'
AF='apt/fileinfo.go';AM='apt/meta.go';AP='apt/parser.go'

p('M01','A published mirror is complete and consistent at every instant',
 'At every instant during any run of go-apt-mirror, a client following the published link of a mirror that has been published before sees one complete tree: every Release-type file the tree holds, every index they list that upstream offers and the configuration selects, and every package or source file those indices list, each matching its listed size and checksums. The link always exists once the first update has succeeded, and it moves from the old complete tree to the new complete tree in one step. Files of the tree the link points to are never modified or removed.',
 ['schedules','fault_sequences','histories'],
 'Every interleaving of the concurrent downloads, link switch and cleanup; every sequence of update runs against a changing upstream, including failing and cancelled ones; observed after every single file-system operation.',
 'The existing tests cover storage helpers only; TestMirror skips itself, so no test ever looks at the published tree while an update runs.',
 [M,MC,MS],[('symlink replaced with rename','mirror/mirror.go:replaceLink'),('tree filled completely before the switch','mirror/mirror.go:Update'),('cleanup skips trees in use','mirror/control.go:gc')],
 [('DIR/ID','published symlink','file system'),('DIR/.ID.DATETIME','new tree under construction','file system')],['every file-system call'])
p('M02','Power loss or kill at any point leaves a complete published mirror',
 'If the machine loses power (losing anything not yet synced to disk) or the process is killed at any point of an update, then after restart every mirror published before still has its link pointing to a complete, undamaged tree, either the one from before the update or the new one. Once an update has reported success the new tree survives any later power loss. The next update run after such an interruption succeeds when upstream and disk are healthy.',
 ['crash_points','schedules','histories'],
 'Every crash point between two file-system operations of one or several updates, every legal subset of unsynced data and directory entries lost, repeated crashes, including crashes during the recovery run.',
 'Unit tests never crash the process and run on a file system that loses nothing.',
 [M,MS,MD,MC],[('downloaded files fsynced before linking','mirror/mirror.go:download'),('tree and info.json synced before the switch','mirror/storage.go:Save'),('directory synced around the rename','mirror/mirror.go:replaceLink'),('directory tree sync','mirror/dirsync.go')],
 [('info.json','checksums used by the next run','DIR/.ID.DATETIME')],['durable state of the simulated disk at the crash'])
p('M03','Only content that matches its listed checksums is ever published',
 'Whatever bytes upstream, proxies or the network deliver for an index, package or source file (corrupted, truncated, stale, swapped or replaced by an error page with status 200), a file enters a published mirror only if its size and every checksum listed for it match. If no matching content can be obtained for a listed file that upstream serves, the update fails and nothing is published. This holds for freshly downloaded and for reused files.',
 ['fault_sequences','inputs','schedules'],
 'Every kind and position of content damage on any response of any file, with any set of listed checksum types, combined with retries, by-hash fallback and reuse from an earlier tree.',
 'No existing test downloads anything; checksum comparison is only tested on literals.',
 [M,AF,MS],[('checksums computed while copying','apt/fileinfo.go:CopyWithFileInfo'),('comparison before storing','mirror/mirror.go:download'),('comparison before reuse','mirror/storage.go:Lookup')],(),['content of the published tree'])
p('M04','A successful update mirrors exactly what upstream and config select',
 'When an update run succeeds, each updated mirror holds, for every configured suite, the Release-type files upstream served, every index file they list that upstream has, and every file listed by the Packages and Sources indices selected by the configured sections, architectures and source setting, byte for byte as upstream served them and readable by any user. Sources are left out when source mirroring is off. A missing optional index (404) is the only listed file that may be absent.',
 ['configurations','inputs','schedules','fault_sequences'],
 'Any repository layout (flat or not, several suites and sections, any compression, any checksum sets, by-hash or not), any max_conns, every completion order of the parallel downloads, with absorbed transient faults.',
 'No existing test runs an update; completeness depends on completion order and on the repository layout.',
 [M,MG,AM,AP,MS],[('index selection','mirror/config.go:MatchingIndex'),('item extraction','mirror/mirror.go:extractItems'),('result collection','mirror/mirror.go:recvResult'),('file modes','mirror/mirror.go:download')],(),['published tree after success'])
p('M05','A failed or interrupted update is reported and changes nothing published',
 'If an update of a mirror cannot be completed (upstream failure, bad content, disk error, cancellation), the run returns an error and the published link and tree of that mirror stay exactly as they were, or, when the failure comes only after the new tree has been put in place, show that complete new tree. Other mirrors of the same run are each either untouched or completely updated. An update run never reports success unless every requested mirror was completely updated.',
 ['fault_sequences','schedules'],
 'Every failure kind at every step and every cancellation instant, with several mirrors updated concurrently.',
 'No existing test makes an update fail.',
 [M,MC],[('errors propagate through the environments','mirror/control.go:updateMirrors'),('link switched last','mirror/mirror.go:Update')],(),['return value of a run','published links'])
p('M06','Cleanup removes every unused tree and never a used one',
 'After a successful run the mirror directory holds only the lock file, the published links and the trees they point to; leftovers of failed, cancelled or crashed earlier runs are gone. Cleanup never deletes or damages a tree a published link points to, the tree of a mirror not updated in this run, or the lock file, at any moment and in any order relative to updates of several mirrors.',
 ['histories','schedules','crash_points'],
 'Histories of runs over all or some mirrors with failures, cancellations and crashes at any point, including crashes inside cleanup.',
 'Cleanup has no test at all.',
 [MC],[('used set from symlinks','mirror/control.go:gc')],(),['directory listing after each run','every unlink/rmdir'])
p('M07','Transient upstream faults are absorbed; an update always terminates',
 'If each requested file suffers at most five transient faults in one run (connection errors, dropped connections, 5xx replies, truncated bodies), the update still succeeds. If faults persist or upstream denies a needed file, the run ends with an error. In every case the run returns within a simulated time bounded by the retry back-off and response times, and it never deadlocks.',
 ['fault_sequences','schedules','configurations'],
 'Every placement of transient and permanent faults over the requests of a run, every max_conns value, every schedule of download, collection and cancellation.',
 'No existing test exercises retries, time-outs or concurrent completion.',
 [M],[('retry with exponential back-off','mirror/mirror.go:download'),('result channel sized to the batch','mirror/mirror.go:downloadFiles')],(),['return value and simulated time of a run'])
p('M08','Only one updater works on a mirror directory at a time',
 'While one run is working on a mirror directory, any other run started on the same directory returns an error promptly and changes nothing. The exclusion ends when the first run ends, for whatever reason including a crash, and a later run is then admitted.',
 ['schedules','crash_points'],
 'Every relative timing of two or three runs on the same directory, including simultaneous first-time creation of the lock file and crash of the holder.',
 'TestFlock checks the lock wrapper alone, not that a run holds it from first to last change.',
 [MC,MF],[('exclusive non-blocking flock held for the whole run','mirror/control.go:Run')],(),['file-system changes per process'])
p('M09','Concurrent downloads of a mirror never exceed max_conns',
 'At any instant the number of upstream requests of one mirror that are in progress (sent and not yet completely answered or abandoned) is at most max_conns, also while retrying; max_conns = 0 means no limit and the update still completes. Capacity is never lost: after errors, retries and by-hash fallbacks the configured parallelism remains usable.',
 ['schedules','configurations','fault_sequences'],
 'Every max_conns value, every schedule and fault placement, counted at the simulated upstream.',
 'No existing test counts connections or sets max_conns.',
 [M],[('token semaphore','mirror/mirror.go:reuseOrDownload')],(),['requests in progress at upstream'])
p('M10','Unchanged files are reused and never downloaded again',
 'In an update run, a file whose listed checksums equal those of the file already held by the published mirror is taken from there and not requested from upstream, and every other needed file is fetched successfully only once. This also holds after failed, cancelled or crashed runs in between.',
 ['histories','schedules','crash_points'],
 'Histories of updates against an upstream that changes some files between runs, with and without by-hash, with interruptions in between.',
 'Storage.Lookup is tested on literals; no test observes requests of a second update.',
 [M,MS],[('lookup by path and by hash','mirror/storage.go:Lookup'),('persisted checksums','mirror/storage.go:Save/Load')],(),['requests seen by upstream'])
p('M11','By-hash retrieval rides out upstream updates in mid-run',
 'When the Release files announce by-hash support, an update that races with an upstream index update still succeeds as long as upstream keeps the old indices under their by-hash names, and the published tree is consistent with the Release files it holds. Every by-hash name published holds content with exactly that hash, and each index is published under its plain name and its by-hash names. A listed index that cannot be obtained with matching content from any of its names, although upstream has some content for it, makes the update fail.',
 ['schedules','histories','fault_sequences'],
 'Every instant of an upstream switch relative to the downloads of a run, Release and InRelease from different upstream versions, any completion order.',
 'TestAcquireByHash parses a flag; no test performs by-hash retrieval.',
 [M,MS,AM],[('by-hash targets','mirror/mirror.go:download'),('hash links','mirror/storage.go:StoreLinkWithHash'),('several candidates per index','mirror/mirror.go:addFileInfoToList')],(),['published tree','requests seen by upstream'])
p('M12','Cancelling an update ends it promptly and safely',
 'When a running update is cancelled at any instant, the run returns within a bounded simulated time with an error (or success if it had already finished), without deadlock and without publishing an incomplete tree. A following run succeeds normally.',
 ['schedules','fault_sequences'],
 'Every cancellation instant and every schedule of the goroutines of the run, with slow or failing upstream.',
 'No existing test cancels anything.',
 [M,MC],[('context propagation','mirror/mirror.go:reuseOrDownload'),('environment cancel','mirror/control.go:updateMirrors')],(),['return value and simulated time of a run'])
p('M13','Upstream cannot make the mirror touch anything outside its directory',
 'Whatever paths upstream Release, Packages or Sources files list (absolute, with .. components, empty, odd), go-apt-mirror never creates, modifies, links or deletes anything outside the new tree it is building, apart from the documented link, lock and cleanup operations in its own directory. Hostile paths make the update fail or are confined inside the tree.',
 ['inputs','fault_sequences'],
 'Every hostile path in any index at any nesting, on first and later updates.',
 'Existing tests use benign paths only.',
 [MS,M,AM],[('path joining','mirror/storage.go:StoreLink/StoreLinkWithHash'),('path cleaning','apt/meta.go')],(),['target of every file-system change'])
p('M14','Disk errors never lead to a damaged published mirror',
 'If file-system operations fail during an update (write, sync, link, rename, mkdir or read errors, full disk), the run either fails with each published mirror unchanged (or, when the failure comes only after the link has moved, completely updated) or succeeds with a complete mirror that also survives a later power loss. When the disk works again, the next run succeeds without manual repair.',
 ['fault_sequences','crash_points'],
 'A failure of any single or several file-system operations at any point, combined with later power loss.',
 'No existing test injects a file-system error.',
 [M,MS,MD,MC,AF],[('error checks on write, sync, chmod, link, rename','mirror/mirror.go, mirror/storage.go')],(),['published tree','durable state after faults'])
p('C01','Cached answers carry content that matches the known checksums',
 'Every complete 200 answer of go-apt-cacher carries exactly one body that upstream delivered completely for that path, and if the cacher already held an index listing checksums for the path when the request arrived, the body matches a listing from an index the cacher held while serving it. Truncated, corrupted, stale or swapped upstream data that contradicts a known checksum is never served or cached as good.',
 ['fault_sequences','schedules','inputs'],
 'Any damage on any upstream answer, any order and overlap of client requests, refreshes and evictions.',
 'No existing cacher test downloads anything or serves a request.',
 [C,CS,CH,AF],[('validation against known checksums','cacher/cacher.go:download'),('checksum comparison on lookup','cacher/storage.go:Lookup')],
 [('known checksums per path','what an answer must match','Cacher')],['responses seen by clients','deliveries of upstream'])
p('C02','After a newer Release is visible, contradicting old files are not served',
 'Once any client has been served a Release or InRelease file (or an index) in some version, every request that starts later for a file listed in it is answered with an error or with content matching a listing in an index the cacher holds at that time; content of an old version that no index held by the cacher lists any more is never served. This holds whatever downloads were in flight when the new version arrived.',
 ['schedules','histories'],
 'Every interleaving of the periodic refresh, in-flight downloads started under the old version, and client requests.',
 'The race needs a refresh to land inside a running download; no test runs either.',
 [C],[('checksum map updated together with the storage','cacher/cacher.go:download'),('comparison on each lookup','cacher/cacher.go:Get')],(),['responses seen by clients'])
p('C03','Each response is one whole version, also under eviction and replacement',
 'A response to GET (whole or ranged) or HEAD reflects a single version of the file: its length header and body belong together and no mixture of versions, short body or foreign content appears, even when the cached file is replaced or evicted while it is being sent to slow clients.',
 ['schedules','fault_sequences'],
 'Every interleaving of slow readers with replacement, eviction and concurrent downloads of the same or other paths.',
 'No existing test serves a response.',
 [C,CS,CH],[('new inode per insert, unlink on eviction','cacher/storage.go:Insert'),('open handle per response','cacher/storage.go:Lookup')],(),['responses seen by clients'])
p('C04','Concurrent requests for one file share one upstream download',
 'At any time at most one upstream request per path is in progress, however many clients ask for it and whatever refreshes run; all waiting clients are answered from that one download. A file that is cached and still valid is served without contacting upstream.',
 ['schedules'],
 'Every interleaving of any number of clients, the periodic refresh and completing downloads.',
 'No existing test issues concurrent requests.',
 [C],[('table of running downloads','cacher/cacher.go:Download')],(),['requests seen by upstream'])
p('C05','Upstream error statuses are passed on and remembered for cache_period only',
 'When upstream answers a file request with a status other than 200, clients asking for that file get that status (an error status in place of an informational one below 200), and for cache_period from the end of that attempt further client requests for it get the same status without another upstream request. (A failure that only results from a newer index having arrived during the download is not remembered.) After cache_period the next request tries upstream again and a recovered file is served. An error for one path never affects another path.',
 ['schedules','histories','fault_sequences'],
 'Every timing of requests, upstream failures and recoveries relative to the period, with files that were cached, evicted or invalidated before.',
 'Timing behaviour; no existing test covers it.',
 [C],[('result table with delayed removal','cacher/cacher.go:download')],(),['responses seen by clients','requests seen by upstream'])
p('C06','Every client request is answered in bounded time',
 'As long as upstream answers or fails each request within some time bound, every client request gets an answer within a bounded simulated time: the file, an upstream status or an error, also when upstream keeps serving content that contradicts the known checksums, drops connections, or serves a file bigger than the cache. No request loops on upstream or hangs forever, and failures never use up the capacity for later requests.',
 ['fault_sequences','schedules','configurations'],
 'Every sequence of upstream faults (bad content, truncation, resets, error statuses), any max_conns and cache capacity, any number of clients.',
 'Liveness under faults; no existing test covers it.',
 [C],[('retry loop','cacher/cacher.go:Get'),('completion signal','cacher/cacher.go:download')],(),['response time of each request','requests seen by upstream'])
p('C07','Upstream connections per host never exceed max_conns',
 'At any instant at most max_conns upstream requests per upstream host are in progress, counted over client-triggered downloads and periodic refreshes of all prefixes mapped to the host; 0 means no limit. Failed or aborted downloads give their slot back.',
 ['schedules','configurations','fault_sequences'],
 'Every max_conns value and every schedule of downloads, failures and refreshes over several hosts.',
 'No existing test counts connections.',
 [C],[('per-host semaphore','cacher/cacher.go:acquireSemaphore')],(),['requests in progress at upstream'])
p('C08','The cacher restarts from whatever a crash or earlier run left',
 'After a kill or power loss at any point (losing unsynced data), or after a normal stop, starting go-apt-cacher on the same directories succeeds, and everything it then serves from the cache is complete content once delivered by upstream that satisfies the same checksum rules as before. This includes the case that upstream had delivered unparsable index files. Temporary files of interrupted downloads do not accumulate.',
 ['crash_points','histories','fault_sequences'],
 'Every crash point and every legal loss of unsynced state, repeated crashes, any content accepted before the crash.',
 'TestStorageLoad loads a hand-made directory only.',
 [C,CS],[('fsync before link','cacher/cacher.go:download'),('scan and re-read of indices at start','cacher/cacher.go:NewCacher, cacher/storage.go:Load')],(),['start-up result','responses after restart'])
p('C09','The item cache respects its capacity and evicts in LRU order',
 'After every completed operation the total size of the files kept in a size-limited cache is at most its capacity, both by its own account and on disk, and what was evicted is always the least recently inserted or looked-up items. Concurrent insert, lookup, delete and list calls behave as if executed one at a time in some order consistent with real time. Metadata storage without a limit never evicts.',
 ['schedules','histories'],
 'Every history of insert, overwrite, lookup, delete and list calls from several goroutines, every capacity and size mix, with restarts in between.',
 'Existing tests run a few fixed sequential sequences.',
 [CS],[('priority queue with access clock','cacher/storage.go:maint'),('mutex','cacher/storage.go')],(),['results of calls','directory listing'])
p('C10','Release files are refreshed periodically, forever',
 'Once a Release (with its signature) or InRelease file has been cached, upstream changes to it become visible to clients within check_interval plus the download time, for as long as the process runs: upstream failures, restarts of the cacher and any number of earlier refreshes do not stop later ones. (A Release file that is itself listed in another cached one follows that listing.) Files whose checksums changed are then fetched anew.',
 ['histories','schedules','fault_sequences'],
 'Long simulated histories with upstream outages, changes and restarts.',
 'Needs simulated hours; no existing test starts a refresh.',
 [C],[('ticker per Release file','cacher/cacher.go:maintRelease')],(),['requests seen by upstream','responses seen by clients'])
p('C11','Cached valid files stay available while upstream is down',
 'While upstream is unreachable or failing, every file that is cached and matches the newest checksums the cacher holds is still served with status 200 and correct content, also after a restart; failed refresh attempts never remove, replace or invalidate cached files.',
 ['fault_sequences','histories'],
 'Every kind and length of upstream outage starting at any point, including inside a refresh, with restarts.',
 'No existing test simulates an outage.',
 [C,CS],[('lookup before download','cacher/cacher.go:Get')],(),['responses seen by clients'])
p('C12','The cacher shuts down in bounded time',
 'After the process is told to stop, all requests being handled are answered and the process terminates, reporting success, within a bounded simulated time, whatever requests, downloads and refreshes were running, and also when cached Release files belong to a prefix that is no longer configured.',
 ['schedules','histories','configurations'],
 'Every stop instant relative to requests, downloads and refresh ticks, with configuration changes between restarts.',
 'No existing test stops a server.',
 [C,CH],[('environment-managed goroutines','cacher/cacher.go'),('graceful HTTP shutdown','cacher/server.go')],(),['process end'])
p('C13','Downloads leave no temporary files or open files behind',
 'When no download is running and all responses are finished, the cache directories contain only cached files, no temporary files, and the cacher holds no open file descriptors on them, whatever mixture of successes, failures, aborts and validation errors happened before.',
 ['fault_sequences','schedules'],
 'Every mixture and placement of upstream and disk faults, aborted clients and concurrent requests.',
 'Leaks need fault paths that no test takes.',
 [C,CS,CH],[('deferred close and remove','cacher/cacher.go:download'),('deferred close','cacher/handler.go')],(),['directory listing','descriptor table of the simulated kernel'])
p('C14','Disk errors never make the cacher serve or keep bad data',
 'When file operations fail while downloading or serving (write, sync, read, open or create errors, full disk), the affected request gets an error or a cut-off response but never a complete answer with wrong or truncated content, nothing wrong is cached, and after the disk works again the same file is served correctly (a fatal stop followed by a restart counts as an error).',
 ['fault_sequences'],
 'A failure of any file operation at any point, in any combination with client requests and refreshes.',
 'No existing test injects a file-system error.',
 [C,CS,CH,AF],[('error checks on copy and sync','cacher/cacher.go:download')],(),['responses seen by clients'])
p('C15','Requests map to the configured upstream and stay inside the cache',
 'A request path is served only from the upstream its first component is mapped to, with the rest of the path appended to that upstream URL; unmapped prefixes get 404 without any upstream request or file-system change. Whatever a client asks for, including paths with .., encoded or doubled slashes, nothing is read, created or deleted outside the two cache directories, and content of one prefix is never served for another.',
 ['inputs','schedules'],
 'Any request path (hostile encodings included) from concurrent clients, any set of prefixes.',
 'TestURLMap checks a handful of literals without the server.',
 [CU,CH,C,CS],[('prefix table','cacher/urlmap.go:URL'),('path cleaning','cacher/handler.go'),('path checks','cacher/storage.go:Insert')],(),['requests seen by upstream','every file-system change'])
p('C16','No request or upstream answer brings the cacher down',
 'With a working disk, no client request (any method, target form or path) and no upstream answer (any status, headers, body, redirect or connection fault) makes the cacher process crash or a request handler panic; later requests are served normally.',
 ['inputs','fault_sequences','schedules'],
 'Any request line and path and any upstream answer, in any order and overlap.',
 'No existing test sends a request through the server.',
 [C,CH,CS],[('request path handling','cacher/handler.go'),('insert failures','cacher/cacher.go:download')],(),['process end, panics'])
p('R01','Concurrent operation is free of data races and lock-ups',
 'Under any interleaving of client requests, downloads, refreshes and cache maintenance in go-apt-cacher, and of parallel downloads and mirrors in go-apt-mirror, no two goroutines access the same memory without synchronisation, no lock order deadlocks, and no internal consistency check of the Go runtime (map misuse, double close, negative counters) fails.',
 ['schedules'],
 'Every schedule of the goroutines of both programs under mixed workloads.',
 'The existing tests are sequential, so the race detector they run under sees no concurrency.',
 [C,CS,M,MS,MC],[('fiLock, dlLock, hostLock, Storage.mu','cacher'),('Storage.mu, channels, environments','mirror')],(),['race detector and runtime checks under simulated schedules'])
p('A01','A failing or slow stream never silently shortens an extracted file list',
 'Reading the file list of an index from a stream gives the same result however the stream is cut into reads. If reading the stream fails at any byte, or compressed data end early or are damaged anywhere (also between compressed blocks), the result is an error or exactly the full list; uncompressed data that end at the end of an entry give exactly the entries before it. Entries are never dropped, merged or altered silently in these cases.',
 ['fault_sequences','inputs'],
 'Any index content, any fragmentation, any read error or premature end at any byte, for plain, gzip, bzip2 and xz data.',
 'Existing tests read intact files in one go.',
 [AM,AP],[('scanner error check','apt/parser.go:Read'),('decompressor errors','apt/meta.go:ExtractFileInfo')],(),['returned list and error'])
p('A02','Checksums returned by a copy describe exactly the bytes written',
 'When copying a stream while computing checksums succeeds, the returned size and checksums are those of exactly the bytes that reached the destination, which are exactly the bytes of the source; if the source fails or the destination fails or writes short at any point, the copy reports an error and returns no file information.',
 ['fault_sequences','inputs'],
 'Any fragmentation of reads and writes and a failure at any byte on either side.',
 'TestFileInfo copies one literal without faults.',
 [AF],[('multi-writer copy','apt/fileinfo.go:CopyWithFileInfo')],(),['returned info and error','destination bytes'])
p('P01','Debian control data is parsed according to policy',
 'Parsing a control file yields its paragraphs in order with field names and all (multi-line) values, skipping comments, PGP armour and any number of blank separator lines, and rejects malformed lines.',
 ['inputs'],'Any control file.','A handful of literals are tested.',
 [AP],[('line parser','apt/parser.go')],(),['returned paragraphs'])
p('P02','File information survives JSON and compares by size and checksums',
 'Encoding file information to JSON and decoding it yields equal information, and comparison holds exactly when path, size and every checksum present agree.',
 ['inputs'],'Any file information.','A handful of literals are tested.',
 [AF],[('MarshalJSON/UnmarshalJSON/Same','apt/fileinfo.go')],(),['returned values'])
p('P03','Invalid configurations are rejected at start',
 'A configuration that cannot be followed is rejected when a program starts: file missing or not valid TOML, unknown keys, values of a wrong type, invalid log settings; for go-apt-mirror a dir that is not an absolute path to an existing directory, a mirror id outside [a-z0-9_-]+, a missing or unparsable url or one that is neither http nor https, no suites, flat and other suites mixed, sections or architectures with flat suites, a mirror named on the command line that is not configured; for go-apt-cacher meta_dir or cache_dir that are not absolute or are the same directory, a check_interval or cache_capacity that is not positive, a negative max_conns, a prefix outside [a-z0-9._-]+, an unparsable mapped URL or one that is neither http nor https. The process then ends promptly with an error status, without a crash, before any request to upstream, and published mirrors, cached files and everything outside the configured directories stay as they were, whatever earlier runs or crashes left; with the configuration corrected the program works as before. Configurations without such a defect, with http and https URLs alike, are accepted.',
 ['configurations','histories'],'Every kind of defect at every place of the configuration and command line, at any point of a history of runs, failures and crashes.','A handful of literals are tested, none through a program start with a state to lose.',
 [MG,'mirror/mirror.go','mirror/control.go','cacher/config.go',CU,C,'cmd/go-apt-mirror/main.go','cmd/go-apt-cacher/main.go'],[('Check, NewMirror, Run','mirror/config.go, mirror/mirror.go, mirror/control.go'),('NewCacher, Register','cacher/cacher.go, cacher/urlmap.go'),('unknown keys','cmd/go-apt-mirror/main.go, cmd/go-apt-cacher/main.go')],(),['exit status','upstream request log','published trees, cached files, other files'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
