#!/usr/bin/env python3
# Generates /verif/properties.jsonl. Kept as a script so that wording lives in one place.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})
J = "src/ferryd/jobs/"; C = "src/ferryd/core/"; D = "src/ferryd/"
NOTEST = "No existing test touches this: the 16 tests cover manager construction, one manifest, XML/zip parsing, one delta and rune escaping. "

p("C01", "Accepted jobs are never lost",
  "Every job the daemon has accepted (a request answered with success, or a complete manifest upload noticed while it runs) is executed to completion at least once and ends as exactly one record in the success or failure history, across any number of kills and restarts. Until it is finished it is listed by the status call; no kill makes it vanish from both places, and a request that could not be queued is answered with an error.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of clients and workers, all kill points (including between finishing, retiring and recording a job), all queue-storage failures",
  NOTEST + "Losing a job needs a kill or a storage failure inside a push, claim or retire.",
  [J+"store.go", J+"worker.go", J+"processor.go", D+"handlers.go", D+"monitor.go"],
  [("queued jobs live in a database until retired", J+"store.go"), ("claimed jobs are un-claimed at start-up", J+"store.go setup"), ("worker retires a job only after it ran", J+"worker.go")],
  [("Sync/Async buckets", "queued and claimed jobs", J+"store.go"), ("CompletedSuccess/CompletedFailure", "history ring", J+"store.go")],
  ["status API", "list APIs", "effects on repositories"])
p("C02", "Queued jobs run one at a time in the order accepted",
  "Repository jobs (everything except background delta jobs) run strictly one at a time in the order in which they were accepted, so the resulting repositories are those of the serial execution in acceptance order; a job interrupted by a kill runs again before any later job.",
  ["schedules", "crash_points", "histories"],
  "all interleavings of concurrent clients, uploads and the worker; queue lengths beyond one; kills while jobs are queued",
  NOTEST + "Ordering depends on concurrent pushes, sequence-number allocation and restart order.",
  [J+"store.go", J+"processor.go", J+"worker.go", "src/libdb/leveldb.go"],
  [("big-endian sequence keys", "src/libdb/leveldb.go NextSequence"), ("one sequential worker", J+"processor.go"), ("store mutex", J+"store.go")],
  observe=["status API (order, begin/end times)", "resulting repository contents"])
p("C03", "Each job runs exactly once while the daemon stays up",
  "While the daemon is not killed, every accepted job, sequential or background, is handed to exactly one worker and executed exactly once, however many workers poll and clients push at the same time; two jobs never overwrite or merge with each other.",
  ["schedules", "configurations", "histories"],
  "all interleavings of N background workers, the sequential worker and concurrent pushes, claims and retirements",
  NOTEST + "Double claims and key collisions need concurrent workers and pushes at particular points.",
  [J+"store.go", J+"worker.go", J+"processor.go", "src/libdb/leveldb.go"],
  [("claim marks the entry under a mutex", J+"store.go claimJobInternal"), ("sequence allocated under the same mutex", J+"store.go pushJobInternal")],
  observe=["job store API (linearizability against a queue model)", "history records", "execution effects"])
p("C04", "Job history and status are faithful and bounded",
  "The status listing reports each finished job once, with its description, outcome and error, and with queued, begin and end times in order; the success and failure histories each keep the most recent 100 jobs and never more, in any mix and across restarts. A reset clears exactly the chosen history, and later jobs are recorded as usual; the status call answers whatever jobs are queued.",
  ["histories", "schedules", "crash_points"],
  "all sequences of completions (beyond 100), resets and restarts, with status reads interleaved anywhere",
  NOTEST + "Needs more than 100 jobs, wrap-around, resets and restarts.",
  [J+"store.go", D+"handlers.go", "src/libferry/types.go"],
  [("ring index record", J+"store.go markCompletion"), ("reset", J+"store.go resetInternal")],
  [("IndexRecord", "last written ring slot", J+"store.go")],
  ["GET /api/v1/status", "reset APIs"])
p("C05", "Reference counts match the repositories",
  "After any completed sequence of operations, each pool item's reference count equals the number of repositories (and delta listings) that hold it, its file exists in the pool exactly while the count is above zero, and there are no stray pool files. A kill or a failed operation may leave a count too high (a leak), never too low: no file in use is ever freed.",
  ["histories", "crash_points", "fault_sequences"],
  "all sequences of add, upload, clone, pull, copy, remove, trim and delete over several repositories sharing packages, with kills and I/O errors anywhere",
  NOTEST + "Needs sequences over several repositories that share packages, plus crashes between the count, the link and the entry.",
  [C+"pool.go", C+"repo.go"],
  [("RefCount in the pool entry", C+"pool.go"), ("one reference per repository entry", C+"repo.go")],
  [("PoolEntry.RefCount", "instances of the file", C+"pool.go")],
  ["GET /api/v1/list/pool", "pool directory"])
p("C06", "Published packages are always present and intact",
  "At every instant, every package a repository's published index names is present in that repository at its listed path with exactly the listed size and SHA-1, except packages that a removal, trim or delete in progress is taking out; content that was accepted is never altered afterwards, whatever is imported (also by way of a symbolic link), copied, retried or killed.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every instant of every run, including mid-operation, after kills, full disks and I/O errors, and re-imports of the same or conflicting files",
  NOTEST + "Transient or crash-induced truncation of hard-linked files is invisible to an end-state test.",
  [C+"util.go", C+"repo.go", C+"pool.go", C+"repo_index.go"],
  [("hard links from the pool", C+"util.go LinkOrCopyFile"), ("index written after the files", C+"api.go"), ("SHA-1 and size stored at import", C+"pool.go")],
  observe=["repo/<id>/eopkg-index.xml and the files it names, as a mirror would read them"])
p("C07", "The index describes exactly the published packages",
  "Whenever an indexing operation succeeds, the repository's index lists exactly one entry for every non-obsolete package name it holds, namely the available package with the highest release, with the metadata of that package unchanged (text in any language included), plus the distribution, components and groups of its assets; names are sorted and the same content always yields the same bytes. The compressed copies decompress to that index and all checksum files match.",
  ["histories", "inputs"],
  "all operation sequences, release orders, obsoletes, languages and index sizes",
  NOTEST + "Depends on the whole operation history, release arithmetic and index sizes beyond one I/O buffer.",
  [C+"repo_index.go", C+"repo.go", C+"escape.go", "src/libeopkg/metadata.go", "src/libeopkg/distribution.go"],
  [("Published link maintained on insert and remove", C+"repo.go"), ("emitIndex", C+"repo_index.go")],
  [("RepoEntry.Published", "tip of a package", C+"repo.go")],
  ["the nine index files of a repository"])
p("C08", "Index files are replaced atomically",
  "At every instant each visible index file (plain, compressed and checksums) is absent or a complete file of some index generation, never partial or empty, and the plain index is never older than a successful indexing operation; an indexing operation that fails before publishing leaves the previous index files as they were, and leftovers of failed or killed attempts never prevent later indexing.",
  ["schedules", "crash_points", "fault_sequences"],
  "every instant, kill point and single or repeated I/O or compressor failure during indexing",
  NOTEST + "Needs failures and kills inside the multi-file publish sequence and a reader at every instant.",
  [C+"repo_index.go", "src/libeopkg/util.go"],
  [("write to .new, then rename", C+"repo_index.go Index"), ("cleanup on abort", C+"repo_index.go Index")],
  observe=["repo/<id>/eopkg-index.xml*"])
p("C09", "Create, import, clone, pull and copy do exactly what they say",
  "Create makes an empty indexed repository and refuses an existing one; a full clone has exactly the source's packages and assets, a tip clone exactly the published ones; pull brings in exactly the published packages that are missing or newer and refuses when the target is newer; copy brings in exactly the packages of that source name and release (any release if not positive), and re-indexes unless asked not to. The source is never changed, and adding what is already there changes nothing.",
  ["histories", "inputs"],
  "all histories of repositories from which these operations start, and all arguments",
  NOTEST + "Results depend on arbitrary prior histories of both repositories.",
  [C+"api.go", C+"repo.go", J+"clone_repo.go", J+"pull_repo.go", J+"copy_source.go", J+"create_repo.go", J+"bulk_add.go", D+"handlers.go", "src/libferry/main.go"],
  [("CreateRepo/CloneFrom/PullFrom/CopySourceFrom", C+"repo.go")],
  observe=["repository contents and index through the API"])
p("C10", "Remove, trim and delete take out exactly the right packages",
  "Remove-source takes out exactly the packages of that source name and release (any release if not positive) and fails if there are none; trim-packages keeps exactly the highest maxKeep releases of every name; trim-obsolete takes out every release of each obsolete name and of its -dbginfo companion, and nothing else; delete takes out the repository with all its files. In each case the next lower release becomes the published one, the index is refreshed, and nothing else changes.",
  ["histories", "inputs"],
  "all repository histories and arguments",
  NOTEST + "Results depend on arbitrary prior histories.",
  [C+"api.go", C+"repo.go", J+"remove_source.go", J+"trim_packages.go", J+"trim_obsoletes.go", J+"delete_repo.go"],
  [("UnrefPackage recomputes the tip", C+"repo.go"), ("TrimObsolete/TrimPackages/RemoveSource/DeleteRepo", C+"repo.go")],
  observe=["repository contents and index through the API", "repo directory"])
p("C11", "Repositories are isolated from each other",
  "An operation on one repository never changes the package set, published tips, files, assets or index of any other repository, even when they share packages, when names are prefixes of one another, and when the operation fails or is killed half-way.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "all operation histories over several repositories sharing packages, all repository names, kills and failures anywhere",
  NOTEST + "Needs several repositories, shared hard links and overlapping names.",
  [C+"repo.go", C+"pool.go", "src/libdb/leveldb.go", C+"util.go"],
  [("bucket key prefixes", "src/libdb/leveldb.go"), ("reference counted pool", C+"pool.go")],
  observe=["contents, files and indexes of all bystander repositories"])
p("C12", "Only verified, complete, strictly newer uploads are accepted",
  "A manifest upload changes a repository only if the manifest is valid, its target exists, every listed file lies in the upload directory (a symbolic link that leads elsewhere is refused) and matches its SHA-256, and every package is strictly newer than the published one of its name; otherwise it is recorded as failed and the uploads stay. On success all its packages are in the index and the manifest and its files are consumed; files outside the upload directory are never read into a repository or removed.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all manifests and payloads, all orders in which their files arrive, all prior repository states, with concurrent uploads and requests",
  NOTEST + "Only a manifest parse is tested; acceptance depends on arrival order, payload state and repository history.",
  [J+"transit_job.go", C+"transit_manifest.go", C+"repo.go", D+"monitor.go"],
  [("ValidatePayload", C+"transit_manifest.go"), ("strict insert", C+"repo.go AddPackage"), ("directory watch", D+"monitor.go")],
  observe=["incoming directory", "index", "history"])
p("C13", "A kill at any point leaves a consistent, working daemon",
  "After the process is killed at any instant and started again, it comes up without manual repair, serves requests, and every package it lists as held by a repository still has its pool entry and file; packages and repositories not being changed at that moment are exactly as before, and every repository can be indexed again.",
  ["crash_points", "schedules", "histories"],
  "every kill point (before and after every file-system effect of every operation and of start-up itself), repeated kills included",
  NOTEST + "No test kills the daemon.",
  [C+"repo.go", C+"pool.go", C+"repo_index.go", C+"util.go", D+"server.go", D+"lockfile.go", J+"store.go"],
  [("order of database and file updates", C+"repo.go"), ("job recovery", J+"store.go"), ("stale lock recovery", D+"lockfile.go")],
  observe=["restart", "API", "files"])
p("C14", "A job interrupted by a kill is finished after restart",
  "When a kill interrupts a job and the daemon is restarted, the job is run again and, with its inputs still valid, completes: the repositories and indexes end as if the job had run once without interruption.",
  ["crash_points", "histories"],
  "every job type and every kill point inside its execution, including repeated kills",
  NOTEST + "Idempotence of every job at every internal point is never tested.",
  [J+"store.go", C+"repo.go", C+"api.go", J+"transit_job.go"],
  [("unclaim at start-up", J+"store.go"), ("already-included checks", C+"repo.go buildSaneEntry")],
  observe=["final repository contents and indexes against the uninterrupted model"])
p("C15", "Disk and tool failures fail the job, not the data or the daemon",
  "When a file operation or compressor run fails, or the disk fills up, the affected job is recorded as failed (or its effect still complete), the daemon keeps serving, published files and other repositories stay intact, no success is reported for work that was not done, and once the fault is gone the same and later requests succeed.",
  ["fault_sequences", "schedules", "histories"],
  "all placements and durations of I/O errors, short writes, full disks and failing tools across all operations",
  NOTEST + "No test injects an error.",
  [C+"util.go", C+"repo.go", C+"pool.go", C+"repo_index.go", "src/libeopkg/util.go", J+"worker.go"],
  [("errors are returned and recorded", J+"worker.go"), ("index cleanup on abort", C+"repo_index.go")],
  observe=["history", "API", "files"])
p("C16", "Malformed input never takes the daemon down",
  "No request body, manifest, package file, asset file, package name or repository name makes the daemon crash, hang or stop processing later jobs, not even a named pipe in place of a package or an upload that is cut short while it is read; the job is recorded as failed and repositories are left as they were, and nothing outside the daemon's base directory is touched.",
  ["inputs", "histories", "schedules"],
  "all malformed, truncated and incomplete packages, manifests, assets, bodies and names, at any position in a job history",
  NOTEST + "Only well-formed samples are parsed by the tests.",
  ["src/libeopkg/package.go", "src/libeopkg/main.go", "src/libeopkg/metadata.go", C+"transit_manifest.go", D+"handlers.go", C+"repo.go"],
  [("parse errors are returned", "src/libeopkg/package.go"), ("handler validation", J+"main.go")],
  observe=["daemon liveness", "history", "files outside the base directory"])
p("C17", "Progress: requests and jobs finish in bounded time",
  "Once faults stop, every API call is answered and every accepted job finishes within a bounded time (a few polling intervals per queued job), with any number of clients, workers and uploads and whatever the wall clock does; uploads are still noticed after the file watcher reported an error; there is no deadlock.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings, worker counts, wall-clock jumps, watcher errors, slow disks and earlier faults",
  NOTEST + "Liveness and deadlock freedom need schedules and clocks under control.",
  [J+"worker.go", J+"processor.go", J+"store.go", D+"server.go", D+"monitor.go"],
  [("workers poll on a timer", J+"worker.go"), ("timer re-armed after every attempt", J+"worker.go setTime")],
  observe=["API answers and history within a simulated-time budget"])
p("C18", "Graceful shutdown finishes running work and exits",
  "On an interrupt or termination signal the daemon finishes the job in progress, keeps the queued ones for the next start, releases its lock and socket and exits within a bounded time without crashing, even with requests, uploads and background jobs in flight.",
  ["schedules", "histories"],
  "all instants of the signal relative to jobs, requests and uploads",
  NOTEST + "Shutdown is never tested.",
  [D+"server.go", D+"monitor.go", J+"processor.go", J+"worker.go", D+"lockfile.go"],
  [("Close order", D+"server.go"), ("worker exit channel", J+"worker.go")],
  observe=["process exit", "socket and lock files", "next start"])
p("C19", "One daemon per base directory",
  "At most one daemon operates on a base directory at any time, for all interleavings of start-ups, shutdowns and kills; a second one refuses to start and harms nothing, a starting daemon never takes away the socket that another living program listens on, and the lock of a dead daemon never prevents a start, whatever its process id was.",
  ["schedules", "crash_points", "histories"],
  "all interleavings of several processes starting, stopping and being killed, with process ids reused and of different lengths",
  NOTEST + "Needs several processes racing on one lock file.",
  [D+"lockfile.go", D+"server.go", D+"main.go"],
  [("pid file plus flock", D+"lockfile.go")],
  [("ferryd.lock", "owner pid", D+"lockfile.go")],
  ["which processes get past the lock"])
p("C20", "The database layer is atomic per batch and isolates buckets",
  "A batch update is applied as a whole or not at all, whatever error or kill interrupts it; reads return the last completed write; iteration visits exactly the bucket's own keys in order; sequence keys are unique and increasing; and neither reads nor writes of one bucket see or change another bucket with a different name.",
  ["histories", "crash_points", "schedules", "inputs"],
  "all sequences of puts, deletes, batches, nested buckets and iterations by concurrent callers, with kills and reopen anywhere",
  "There are no tests of the database layer.",
  ["src/libdb/leveldb.go", "src/libdb/main.go", "src/libdb/transcoder.go"],
  [("leveldb batch", "src/libdb/leveldb.go Update"), ("prefixed keys", "src/libdb/leveldb.go Bucket")],
  observe=["libdb API against a map model, after reopen too"])
p("C21", "Deltas are correct, referenced and collected",
  "A delta that is produced contains exactly the files of the newer package that the older one lacks plus its metadata; the index lists for each package exactly the held deltas that lead to its published release; a delta is dropped when either end leaves the repository; pairs without benefit are remembered and not retried; and a failed or killed production never publishes a partial delta.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "all package pairs and operation histories, with kills and faults during production",
  "One delta between two fixed packages is produced by a test; inclusion, reuse, garbage collection, failure memory and faults are not tested.",
  ["src/libeopkg/delta.go", C+"repo.go", C+"pool.go", C+"repo_index.go", J+"delta.go"],
  [("DeltaProducer", "src/libeopkg/delta.go"), ("delta GC on removal", C+"repo.go UnrefPackage"), ("skip entries", C+"pool.go")],
  observe=["delta packages", "index", "manager API"])
p("C22", "The command line client forwards faithfully and never hides a failure",
  "Each ferryctl command sends the daemon exactly one request that says what its arguments say: every repository name, source name, number and flag unchanged, whatever characters they contain; an import names exactly the x86_64 packages in the files and directories given. Invalid arguments, a path that cannot be read (anywhere below an imported directory) or an unreachable daemon send nothing and are reported; a refused, broken off or unanswered request is reported, never passed over in silence; a listing shows exactly what the daemon answered.",
  ["inputs", "fault_sequences", "crash_points", "histories"],
  "all argument vectors, directory trees and answers, with unreadable directories, dead, slow, refusing and disconnecting daemons, and kills of either side",
  "There are no tests of the command line front end or of the client library.",
  ["src/ferryctl/cmd/import.go", "src/ferryctl/cmd/status.go", "src/ferryctl/cmd/copy_source.go", "src/ferryctl/cmd/clone_repo.go", "src/libferry/main.go"],
  [("cobra commands", "src/ferryctl/cmd"), ("HTTP client on the unix socket", "src/libferry/main.go")],
  observe=["requests on the socket", "process output"])
p("C23", "What was published is purged from the CDN, and a CDN in trouble harms nothing",
  "With a Cloudflare token, zone and a list for a repository (/etc/ferryd/REPO) configured, a job that published the repository's index completes only after the CDN was asked, later than the last index file was replaced, to drop exactly the listed URLs (the non-empty lines) in that zone; without them, or for a repository without listed URLs, nothing is sent. A purge that is refused, errors, is answered with nonsense or never answered makes the job fail with a reason, within bounded time, and changes nothing else: the index stays published and complete, the repository holds what the job made of it, and the daemon goes on.",
  ["fault_sequences", "histories", "schedules", "crash_points"],
  "all histories of publishing jobs and all behaviours of the remote service (errors, refusals, throttling, nonsense, lost answers, delays, silence), with kills during the purge",
  "There are no tests of the purge; it needs a remote service that misbehaves.",
  ["src/ferryd/core/purge_cloudflare.go", C+"repo_index.go"],
  [("purgeCloudflare at the end of Index", C+"repo_index.go"), ("API client", "src/ferryd/core/purge_cloudflare.go")],
  observe=["requests to the CDN", "job records", "published files"])
p("C24", "Only the owner and the group of the daemon can give it orders",
  "Whoever can write to the daemon's socket can delete repositories. Whenever the daemon takes a connection, the socket it listens on belongs to the user and group the daemon runs as and is closed to everybody else (mode 0660), whatever the umask was, whoever started it and whatever was there before; if it cannot protect the socket, it serves nobody. A socket handed over by systemd keeps the mode it was given.",
  ["fault_sequences", "schedules", "crash_points", "inputs"],
  "all umasks, start-ups after kills and clean stops, leftovers at the socket's place, inherited sockets, failures of chmod, and clients that connect as soon as the socket is there",
  NOTEST + "Starting the daemon under different umasks and with failing system calls is not tested.",
  [D+"server.go", D+"main.go"],
  [("chown and chmod after listening, before serving", D+"server.go Bind")],
  observe=["mode of the socket whenever a connection is accepted"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
