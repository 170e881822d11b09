From f3c196b56b2d58fa27163620a58eab17997e2685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 01/48] fix: index the target of a source copy unless asked not
 to

The skipIndex flag was inverted: a plain copy left the index of the target
repository untouched, and --skip-index was the only way to get it rebuilt.
---
 src/ferryd/core/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index 71e97de..f66d02d 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -123,10 +123,10 @@ func (m *Manager) CopySource(repoID, target, sourceID string, release int, skipI
 	}
 
 	if skipIndex {
-		return m.Index(target)
-	} else {
 		return nil
 	}
+
+	return m.Index(target)
 }
 
 // TrimObsolete will ask the repo to remove obsolete packages
-- 
2.43.0


From 58cad5a420b45d18bfb2bb071e5b81b08e1e00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 02/48] fix: trim every available package of an obsolete name

Only -dbginfo packages were ever removed, and of those only the first
available one, because the callback returned as soon as it saw an obsolete
name.
---
 src/ferryd/core/repo.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index c0344f5..6e0a634 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -1179,16 +1179,15 @@ func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
 
 			// Check if its obsolete, if its automatically obsolete through our
 			// dbginfo trick, warn in the console
-			if r.dist != nil && r.dist.IsObsolete(nom) {
+			if r.dist.IsObsolete(nom) || r.dist.IsObsolete(entry.Name) {
 				if nom != entry.Name {
 					// Scream really loudly, but remove it because its "just" dbginfo.
 					log.WithFields(log.Fields{
 						"repo": r.ID,
 						"name": poolEntry.Meta.Name,
 					}).Error("Abandoned obsolete package. Removing!")
-					removalIDs = append(removalIDs, id)
 				}
-				return nil
+				removalIDs = append(removalIDs, id)
 			}
 		}
 
-- 
2.43.0


From 2d5c97b9aef83129a78a569d6677f3e950e53520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 03/48] fix: copy files without destroying or half-writing the
 target

Copying a file onto itself (a pull of a repository into itself, or a package
which is already hard linked) truncated it, a missing source counted as
success, and a failed copy left a partial file under the final name.
---
 src/ferryd/core/util.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index b70fa06..5606e63 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -38,25 +38,41 @@ func CopyFile(source, dest string) error {
 	// Stat the source first
 	st, err = os.Stat(source)
 	if err != nil {
+		return err
+	}
+	// Already the same file (i.e. hard linked), opening it with O_TRUNC would
+	// destroy the contents.
+	if dstSt, e := os.Stat(dest); e == nil && os.SameFile(st, dstSt) {
 		return nil
 	}
 	if src, err = os.Open(source); err != nil {
 		return err
 	}
 	defer src.Close()
-	if dst, err = os.OpenFile(dest, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, st.Mode()); err != nil {
+	// Never write through an existing (maybe hard linked) target, and never
+	// leave a partial one behind
+	tmp := dest + ".new"
+	if dst, err = os.OpenFile(tmp, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, st.Mode()); err != nil {
 		return err
 	}
 	// Copy the files
 	if _, err = io.Copy(dst, src); err != nil {
 		dst.Close()
+		os.Remove(tmp)
+		return err
+	}
+	if err = dst.Close(); err != nil {
+		os.Remove(tmp)
 		return err
 	}
-	dst.Close()
 	// If it fails, meh.
-	os.Chtimes(dest, st.ModTime(), st.ModTime())
-	os.Chown(dest, os.Getuid(), os.Getgid())
-	os.Chmod(dest, 00644)
+	os.Chtimes(tmp, st.ModTime(), st.ModTime())
+	os.Chown(tmp, os.Getuid(), os.Getgid())
+	os.Chmod(tmp, 00644)
+	if err = os.Rename(tmp, dest); err != nil {
+		os.Remove(tmp)
+		return err
+	}
 	return nil
 }
 
-- 
2.43.0


From b8e70f444ecd1610949779b15f81d922455f62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 04/48] fix: drop a package's pool reference and repository
 entry in one write

When ferryd died, or the database failed, between the two, the repository
listed a package that the pool no longer knew, and every later index, trim
or removal of that repository failed.
---
 src/ferryd/core/repo.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 6e0a634..8ffd54f 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -497,9 +497,6 @@ func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id strin
 // Additionally, we'll locate stray deltas which lead either TO or FROM the given
 // package as they'll now be useless to anyone.
 func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) error {
-	newHighest := 0
-	var newHighestID string
-
 	// Require a pool entry to remove it
 	poolEntry, err := pool.GetEntry(db, pkgID)
 	if err != nil {
@@ -512,6 +509,18 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 		return err
 	}
 
+	// The reference and our entry must go together, an entry without its pool
+	// item can neither be indexed nor removed again.
+	return db.Update(func(db libdb.Database) error {
+		return r.unrefPackageInternal(db, pool, entry, pkgID)
+	})
+}
+
+// unrefPackageInternal does the work of UnrefPackage within a transaction
+func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, entry *RepoEntry, pkgID string) error {
+	newHighest := 0
+	var newHighestID string
+
 	// Try to remove it from disk first
 	if err := r.removePackageInternal(db, pool, pkgID); err != nil {
 		return err
-- 
2.43.0


From 1ea63940b97033de4eb29949edf4b86df86f0803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 05/48] fix: refuse packages with unusable metadata

A package without history, summary, description or source name crashed the
daemon, and one whose names contain a path separator was stored outside of
its directory.
---
 src/libeopkg/main.go     |  2 +-
 src/libeopkg/metadata.go | 11 +++++++++++
 src/libeopkg/package.go  |  3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libeopkg/main.go b/src/libeopkg/main.go
index 4cf8ee0..27ce317 100644
--- a/src/libeopkg/main.go
+++ b/src/libeopkg/main.go
@@ -47,7 +47,7 @@ type LocalisedField struct {
 // FixMissingLocalLanguage should be used on a set of LocalisedField to restore
 // the missing "en" that is required in the very first field set.
 func FixMissingLocalLanguage(fields *[]LocalisedField) {
-	if fields == nil {
+	if fields == nil || len(*fields) == 0 {
 		return
 	}
 	field := &(*fields)[0]
diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 0ee0ef4..ef9c80e 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -175,6 +175,17 @@ type Metadata struct {
 	Package MetaPackage `xml:"Package"` // Meta on the package itself
 }
 
+// isSane ensures that the fields we can't live without are set, and that those
+// used to form paths are really a single path component
+func (m *Metadata) isSane() bool {
+	for _, nom := range []string{m.Package.Name, m.Package.Source.Name} {
+		if nom == "" || nom == "." || nom == ".." || strings.ContainsRune(nom, filepath.Separator) {
+			return false
+		}
+	}
+	return len(m.Package.History) > 0
+}
+
 // GetPathComponent will get the source part of the string which is used
 // in all subdirectories of the repository.
 //
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index e6aa1ab..ae6489d 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -110,6 +110,9 @@ func (p *Package) ReadMetadata() error {
 	if err = dec.Decode(metadata); err != nil {
 		return err
 	}
+	if !metadata.isSane() {
+		return ErrEopkgCorrupted
+	}
 	p.Meta = metadata
 	// Clean up extra junk
 	for i := range p.Meta.Package.Summary {
-- 
2.43.0


From 4faa4f2e9e66d0c7d04082f1d734b96b868b2da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 06/48] fix: overwrite stale compressed indexes

xz and zstd refuse to replace an existing file, so the leftovers of an
interrupted index run made every following index of that repository fail.
---
 src/libeopkg/util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libeopkg/util.go b/src/libeopkg/util.go
index b4d7ec5..10f73a9 100644
--- a/src/libeopkg/util.go
+++ b/src/libeopkg/util.go
@@ -57,6 +57,7 @@ func XzFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"xz",
 		"-6",
+		"-f", // A stale output of an interrupted run must not block us
 		"-T", "8",
 		inputPath,
 	}
@@ -92,6 +93,7 @@ func ZstdFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"zstd",
 		"-3",
+		"-f", // A stale output of an interrupted run must not block us
 		"-T8",
 		inputPath,
 	}
-- 
2.43.0


From 41efe12d39904f98303761800e5b3d7e6f164612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 07/48] fix: tell the client when its job could not be queued

The error of the job store was dropped, so a request that was never stored
was answered with success.
---
 src/ferryd/handlers.go         | 44 +++++++++++++++++++++++++---------
 src/ferryd/jobs/delta_repo.go  |  4 +++-
 src/ferryd/jobs/processor.go   |  7 +++---
 src/ferryd/jobs/pull_repo.go   |  4 +++-
 src/ferryd/jobs/transit_job.go |  4 +++-
 src/ferryd/monitor.go          |  7 +++++-
 6 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/ferryd/handlers.go b/src/ferryd/handlers.go
index 09b19a8..7cb0cee 100644
--- a/src/ferryd/handlers.go
+++ b/src/ferryd/handlers.go
@@ -146,7 +146,9 @@ func (s *Server) CreateRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository creation requested")
-	s.jproc.PushJob(jobs.NewCreateRepoJob(id))
+	if err := s.jproc.PushJob(jobs.NewCreateRepoJob(id)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // DeleteRepo will handle remote requests for repository deletion
@@ -155,7 +157,9 @@ func (s *Server) DeleteRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository deletion requested")
-	s.jproc.PushJob(jobs.NewDeleteRepoJob(id))
+	if err := s.jproc.PushJob(jobs.NewDeleteRepoJob(id)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // DeltaRepo will handle remote requests for repository deltaing
@@ -164,7 +168,9 @@ func (s *Server) DeltaRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository delta requested")
-	s.jproc.PushJob(jobs.NewDeltaRepoJob(id))
+	if err := s.jproc.PushJob(jobs.NewDeltaRepoJob(id)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // IndexRepo will handle remote requests for repository indexing
@@ -173,7 +179,9 @@ func (s *Server) IndexRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository indexing requested")
-	s.jproc.PushJob(jobs.NewIndexRepoJob(id))
+	if err := s.jproc.PushJob(jobs.NewIndexRepoJob(id)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // ImportPackages will bulk-import the packages in the request
@@ -192,7 +200,9 @@ func (s *Server) ImportPackages(w http.ResponseWriter, r *http.Request, p httpro
 		"npackages": len(req.Path),
 	}).Info("Repository bulk import requested")
 
-	s.jproc.PushJob(jobs.NewBulkAddJob(id, req.Path))
+	if err := s.jproc.PushJob(jobs.NewBulkAddJob(id, req.Path)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // CloneRepo will proxy a job to clone an existing repository
@@ -212,7 +222,9 @@ func (s *Server) CloneRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 		"fullClone": req.CopyAll,
 	}).Info("Repository clone requested")
 
-	s.jproc.PushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
+	if err := s.jproc.PushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // PullRepo will proxy a job to pull an existing repository
@@ -231,7 +243,9 @@ func (s *Server) PullRepo(w http.ResponseWriter, r *http.Request, p httprouter.P
 		"target": target,
 	}).Info("Repository pull requested")
 
-	s.jproc.PushJob(jobs.NewPullRepoJob(req.Source, target))
+	if err := s.jproc.PushJob(jobs.NewPullRepoJob(req.Source, target)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // RemoveSource will proxy a job to remove an existing set of packages by source name + relno
@@ -251,7 +265,9 @@ func (s *Server) RemoveSource(w http.ResponseWriter, r *http.Request, p httprout
 		"repo":    target,
 	}).Info("Source removal requested")
 
-	s.jproc.PushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release))
+	if err := s.jproc.PushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // CopySource will proxy a job to copy a package by source&relno into target
@@ -273,7 +289,9 @@ func (s *Server) CopySource(w http.ResponseWriter, r *http.Request, p httprouter
 		"skipIndex":  req.SkipIndex,
 	}).Info("Source copy requested")
 
-	s.jproc.PushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
+	if err := s.jproc.PushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // TrimPackages will proxy a job to remove excess fat from a repo
@@ -292,7 +310,9 @@ func (s *Server) TrimPackages(w http.ResponseWriter, r *http.Request, p httprout
 		"maxKeep": req.MaxKeep,
 	}).Info("Package trim requested")
 
-	s.jproc.PushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep))
+	if err := s.jproc.PushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // TrimObsolete will proxy a job to remove obsolete packages from a repo
@@ -301,7 +321,9 @@ func (s *Server) TrimObsolete(w http.ResponseWriter, r *http.Request, p httprout
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Obsoletes trim requested")
-	s.jproc.PushJob(jobs.NewTrimObsoleteJob(id))
+	if err := s.jproc.PushJob(jobs.NewTrimObsoleteJob(id)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // ResetCompleted will ask the job store to remove completed jobs. This is blocking.
diff --git a/src/ferryd/jobs/delta_repo.go b/src/ferryd/jobs/delta_repo.go
index 60f70ba..44b12cf 100644
--- a/src/ferryd/jobs/delta_repo.go
+++ b/src/ferryd/jobs/delta_repo.go
@@ -72,7 +72,9 @@ func (j *DeltaRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) e
 
 	// Fire off parallel delta jobs for every package in this repository
 	for _, name := range packageNames {
-		jproc.PushJob(NewDeltaJob(j.repoID, name))
+		if err := jproc.PushJob(NewDeltaJob(j.repoID, name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/processor.go b/src/ferryd/jobs/processor.go
index a62515e..54e03f0 100644
--- a/src/ferryd/jobs/processor.go
+++ b/src/ferryd/jobs/processor.go
@@ -107,10 +107,9 @@ func (j *Processor) Begin() {
 
 // PushJob will automatically determine which queue to push a job to and place
 // it there for immediate execution
-func (j *Processor) PushJob(job *JobEntry) {
+func (j *Processor) PushJob(job *JobEntry) error {
 	if job.sequential {
-		j.store.PushSequentialJob(job)
-	} else {
-		j.store.PushAsyncJob(job)
+		return j.store.PushSequentialJob(job)
 	}
+	return j.store.PushAsyncJob(job)
 }
diff --git a/src/ferryd/jobs/pull_repo.go b/src/ferryd/jobs/pull_repo.go
index 58eb3f6..bf91876 100644
--- a/src/ferryd/jobs/pull_repo.go
+++ b/src/ferryd/jobs/pull_repo.go
@@ -74,7 +74,9 @@ func (j *PullRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) er
 	// Create delta job in this repository on the changed names
 	// Don't cause indexing because it causes noise
 	for _, pkg := range changedNames {
-		jproc.PushJob(NewDeltaIndexJob(j.targetID, pkg))
+		if err := jproc.PushJob(NewDeltaIndexJob(j.targetID, pkg)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/transit_job.go b/src/ferryd/jobs/transit_job.go
index 5701274..07620fe 100644
--- a/src/ferryd/jobs/transit_job.go
+++ b/src/ferryd/jobs/transit_job.go
@@ -111,7 +111,9 @@ func (j *TransitJobHandler) Execute(jproc *Processor, manager *core.Manager) err
 		if ent != nil {
 			return err
 		}
-		jproc.PushJob(NewDeltaIndexJob(repo, p.Name))
+		if err := jproc.PushJob(NewDeltaIndexJob(repo, p.Name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 6e7870b..fb14db1 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -91,5 +91,10 @@ func (s *Server) processTransitManifest(name string) {
 	log.WithFields(log.Fields{
 		"id": name,
 	}).Info("Received transit manifest upload")
-	s.jproc.PushJob(jobs.NewTransitJob(fullpath))
+	if err := s.jproc.PushJob(jobs.NewTransitJob(fullpath)); err != nil {
+		log.WithFields(log.Fields{
+			"id":    name,
+			"error": err,
+		}).Error("Failed to queue transit manifest upload")
+	}
 }
-- 
2.43.0


From e10406fbf29120294b5bd0c9f2b06c9ff5388f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 08/48] fix: keep the status available while an unusable job is
 queued

A job without a handler, such as an import of no packages at all, made the
status request fail until it was dealt with.
---
 src/ferryd/jobs/store.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 292070b..fb05c0a 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -19,6 +19,7 @@ package jobs
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"sync"
 	"time"
 
@@ -358,14 +359,15 @@ func (s *JobStore) cloneCurrentJobs(ret *[]*libferry.Job, bucketID []byte) error
 			}
 
 			// Now stuff the job into the ret
-			hnd, err := NewJobHandler(j)
-			if err != nil {
-				return err
-			}
-
 			r := &libferry.Job{
-				Description: hnd.Describe(),
-				Timing:      j.Timing,
+				Timing: j.Timing,
+			}
+			// A job that can't be handled will fail when it is its turn, until
+			// then it must not hide the others.
+			if hnd, err := NewJobHandler(j); err == nil {
+				r.Description = hnd.Describe()
+			} else {
+				r.Description = fmt.Sprintf("Job of type '%v' (%v)", j.Type, err)
 			}
 			*ret = append(*ret, r)
 
-- 
2.43.0


From c06f1bf0f44f17d30a22c1f3f05fd8739145a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 09/48] fix: retire a job and record its outcome in one write

A crash between the two lost the job: it was no longer queued and appeared
in neither the completed nor the failed list.
---
 src/ferryd/jobs/store.go | 55 ++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index fb05c0a..874aa7a 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -212,8 +212,9 @@ func (s *JobStore) ClaimSequentialJob() (*JobEntry, error) {
 	return s.claimJobInternal([]byte(BucketSequentialJobs))
 }
 
-// Used to mark the completion of a job and store in the appropriate bucket
-func (s *JobStore) markCompletion(j *JobEntry) error {
+// Used to mark the completion of a job and store in the appropriate bucket,
+// as part of the transaction which removes it from the queue
+func (s *JobStore) markCompletion(db libdb.Database, j *JobEntry) error {
 	var bucketID []byte
 	if j.failure != nil {
 		bucketID = BucketFailJobs
@@ -223,7 +224,7 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 
 	// We're already locked at this point so its safe to work out our next
 	// index
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
+	bucket := db.Bucket(bucketID).Bucket(BucketRecord)
 	record := IndexRecord{
 		Index: 0,
 	}
@@ -251,22 +252,20 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 	binary.BigEndian.PutUint64(nextID, record.Index)
 
 	// We'll need to figure out how to truncate our buckets..
-	return s.db.Update(func(db libdb.Database) error {
-		bucket := db.Bucket(bucketID)
+	bucket = db.Bucket(bucketID)
 
-		storeJob := libferry.Job{
-			Timing:      j.Timing,
-			Description: j.description,
-		}
+	storeJob := libferry.Job{
+		Timing:      j.Timing,
+		Description: j.description,
+	}
 
-		// Mark relevant failure fields
-		if j.failure != nil {
-			storeJob.Error = j.failure.Error()
-			storeJob.Failed = true
-		}
+	// Mark relevant failure fields
+	if j.failure != nil {
+		storeJob.Error = j.failure.Error()
+		storeJob.Failed = true
+	}
 
-		return bucket.PutObject(nextID, &storeJob)
-	})
+	return bucket.PutObject(nextID, &storeJob)
 }
 
 // RetireAsyncJob removes a completed asynchronous job
@@ -274,14 +273,12 @@ func (s *JobStore) RetireAsyncJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketAsyncJobs).DeleteObject(j.id)
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketAsyncJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // RetireSequentialJob removes a completed synchronous job
@@ -289,14 +286,12 @@ func (s *JobStore) RetireSequentialJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketSequentialJobs).DeleteObject(j.id)
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketSequentialJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // pushJobInternal is identical between sync and async jobs, it
-- 
2.43.0


From ebcd688b91895a8712b8a1295473090318178d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 10/48] fix: do not treat an unreadable path as missing

---
 src/ferryd/core/repo.go | 3 ---
 src/ferryd/core/util.go | 3 ++-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 8ffd54f..41c5eb9 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -142,9 +142,6 @@ func (r *RepositoryManager) bakeRepo(id string) (*Repository, error) {
 
 	// Create all required paths
 	for _, p := range paths {
-		if PathExists(p) {
-			continue
-		}
 		if err := os.MkdirAll(p, 00755); err != nil {
 			return nil, err
 		}
diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 5606e63..e40ba11 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -162,12 +162,13 @@ func WriteSha256sum(inpPath, outPath string) error {
 }
 
 // PathExists is a trivial helper to figure out if a path exists or not
+// A path that we're unable to check isn't missing, using it will report why.
 func PathExists(path string) bool {
 	_, err := os.Stat(path)
 	if err == nil {
 		return true
 	}
-	return false
+	return !os.IsNotExist(err)
 }
 
 // ProduceDelta will attempt to batch the delta production between the
-- 
2.43.0


From 0296f2fb47ea8c8d25df2286e67f1503c7df13d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 11/48] fix: let an interrupted repository deletion be run
 again

---
 src/ferryd/core/repo.go | 52 ++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 41c5eb9..c4a048d 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -278,37 +278,35 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		if err != nil {
 			return err
 		}
+		// The repository goes away last, so that an interrupted deletion can
+		// simply be run again.
+		deletionPaths := []string{
+			repo.path,
+			repo.assetPath,
+			repo.deltaPath,
+			repo.deltaStagePath,
+		}
+
+		// Clean up the repo paths.
+		for _, p := range deletionPaths {
+			if !PathExists(p) {
+				continue
+			}
+			// Just continue, warn in the log - do what we can here
+			if err := os.RemoveAll(p); err != nil {
+				log.WithFields(log.Fields{
+					"repo":  id,
+					"path":  p,
+					"error": err,
+				}).Warning("Failed to remove repository path")
+			}
+		}
+
 		// Now remove the repository object itself
 		return repoBucket.DeleteObject([]byte(repo.ID))
 	})
 
-	if err != nil {
-		return err
-	}
-
-	deletionPaths := []string{
-		repo.path,
-		repo.assetPath,
-		repo.deltaPath,
-		repo.deltaStagePath,
-	}
-
-	// Clean up the repo paths.
-	for _, p := range deletionPaths {
-		if !PathExists(p) {
-			continue
-		}
-		// Just continue, warn in the log - do what we can here
-		if err := os.RemoveAll(p); err != nil {
-			log.WithFields(log.Fields{
-				"repo":  id,
-				"path":  p,
-				"error": err,
-			}).Warning("Failed to remove repository path")
-		}
-	}
-
-	return nil
+	return err
 }
 
 // GetEntry will return the package entry for the given ID
-- 
2.43.0


From 37adc986a249af507e3aa2349beca496b488e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 12/48] fix: keep iteration within the bucket

---
 src/libdb/leveldb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 4dee577..69fbb34 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -56,7 +56,7 @@ func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	handle.db = ldb
 	handle.prefix = []byte("|rootBucket|")
 	handle.keyPrefix = []byte("|rootBucket|-")
-	handle.prefixBytes = util.BytesPrefix(handle.prefix)
+	handle.prefixBytes = util.BytesPrefix(handle.keyPrefix)
 	handle.seqLock = &sync.Mutex{}
 	handle.initClosable()
 	return handle, nil
@@ -157,7 +157,7 @@ func (l *levelDbHandle) Bucket(id []byte) Database {
 		db:          l.db,
 		prefix:      newID,
 		keyPrefix:   []byte(fmt.Sprintf("%s-", string(newID))),
-		prefixBytes: util.BytesPrefix(newID),
+		prefixBytes: util.BytesPrefix([]byte(fmt.Sprintf("%s-", string(newID)))),
 		batch:       l.batch,
 		seqLock:     l.seqLock,
 	}
-- 
2.43.0


From fd1a8a8f59984e2a2f7dc74d7045538027414cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 13/48] fix: refuse manifest files outside of the upload
 directory

---
 src/ferryd/core/transit_manifest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 3088258..31e2b1b 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -149,6 +149,11 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 			return nil, ErrInvalidPayload
 		}
 
+		// Only ever touch files that were uploaded alongside the manifest
+		if !filepath.IsLocal(f.Path) {
+			return nil, ErrInvalidPayload
+		}
+
 		if !strings.HasSuffix(f.Path, ".eopkg") {
 			return nil, ErrIllegalUpload
 		}
-- 
2.43.0


From 995e772cd0494bd3ed3fc07e6d3b58ca642337ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 14/48] fix: do not mangle runes split between index writes

---
 src/ferryd/core/escape.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/escape.go b/src/ferryd/core/escape.go
index c16991f..d14ab7b 100644
--- a/src/ferryd/core/escape.go
+++ b/src/ferryd/core/escape.go
@@ -9,7 +9,8 @@ import (
 
 // EscapedWriter is a writer that escapes non-ASCII sequences written to it using HTML encoding.
 type EscapedWriter struct {
-	w io.Writer
+	w       io.Writer
+	partial []byte // Incomplete rune left over from the last write
 }
 
 // NewEscapedWriter returns an initialised EscapedWriter.
@@ -22,7 +23,17 @@ func (e *EscapedWriter) Write(b []byte) (n int, err error) {
 	n = len(b)
 	escaped := make([]byte, 0, len(b))
 
+	// A rune may be split between two writes
+	if len(e.partial) > 0 {
+		b = append(e.partial, b...)
+		e.partial = nil
+	}
+
 	for len(b) > 0 {
+		if !utf8.FullRune(b) {
+			e.partial = append([]byte(nil), b...)
+			break
+		}
 		r, size := utf8.DecodeRune(b)
 		escaped = e.appendRune(escaped, r)
 		b = b[size:]
-- 
2.43.0


From e1f87f2e60f24f214218ac128b3f1418651f33e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 15/48] fix: check all packages before adding the first

---
 src/ferryd/core/api.go  |  5 +++++
 src/ferryd/core/repo.go | 48 ++++++++++++++++++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index f66d02d..65d43b8 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -185,6 +185,11 @@ func (m *Manager) AddPackages(repoID string, packages []string, anal bool) error
 		return err
 	}
 
+	// Accept the whole set or nothing
+	if err := repo.CheckPackages(m.db, m.pool, packages, anal); err != nil {
+		return err
+	}
+
 	for _, pkg := range packages {
 		if err := repo.AddPackage(m.db, m.pool, pkg, anal); err != nil {
 			return err
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index c4a048d..ea61ecf 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -724,10 +724,53 @@ func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string,
 		return r.AddLocalPackage(db, pool, pkg)
 	}
 
+	if err = r.checkNewer(db, pool, pkg); err != nil {
+		return err
+	}
+
+	// Hey look buddy, you made it.
+	return r.AddLocalPackage(db, pool, pkg)
+}
+
+// CheckPackages ensures that all of the packages may be added, in the given
+// order, before any of them is.
+func (r *Repository) CheckPackages(db libdb.Database, pool *Pool, filenames []string, anal bool) error {
+	releases := make(map[string]int)
+	for _, filename := range filenames {
+		meta, err := r.checkPackage(db, pool, filename, anal)
+		if err != nil {
+			return err
+		}
+		if last, ok := releases[meta.Name]; anal && ok && last >= meta.GetRelease() {
+			return fmt.Errorf("package is listed after a newer or identical release: %v", filename)
+		}
+		releases[meta.Name] = meta.GetRelease()
+	}
+	return nil
+}
+
+// checkPackage ensures that a single package may be added
+func (r *Repository) checkPackage(db libdb.Database, pool *Pool, filename string, anal bool) (*libeopkg.MetaPackage, error) {
+	pkg, err := libeopkg.Open(filename)
+	if err != nil {
+		return nil, err
+	}
+	defer pkg.Close()
+	if err = pkg.ReadMetadata(); err != nil {
+		return nil, err
+	}
+	if anal {
+		err = r.checkNewer(db, pool, pkg)
+	}
+	return &pkg.Meta.Package, err
+}
+
+// checkNewer ensures that the package is newer than the one we published
+func (r *Repository) checkNewer(db libdb.Database, pool *Pool, pkg *libeopkg.Package) error {
 	// Do we have this?
 	localPkg, err := r.GetEntry(db, pkg.Meta.Package.Name)
 	if err != nil {
-		return r.AddLocalPackage(db, pool, pkg)
+		return nil
 	}
 
 	// We have this package, so Published link must work
@@ -749,8 +792,7 @@ func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string,
 		return fmt.Errorf("attempted to re-include an existing package through upload: %v", pkg.ID)
 	}
 
-	// Hey look buddy, you made it.
-	return r.AddLocalPackage(db, pool, pkg)
+	return nil
 }
 
 // GetPackageNames will traverse the buckets and find all package names as stored
-- 
2.43.0


From 102a040172f8835ee9c5b8cdd7e607a7cf6a90ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 16/48] fix: refuse repository names which are not plain file
 names

---
 src/ferryd/core/repo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index ea61ecf..57cf8ef 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -204,6 +204,11 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
+	// The name is also a directory name, it mustn't lead elsewhere
+	if id == "" || id == "." || id == ".." || strings.ContainsAny(id, "/\x00") {
+		return nil, fmt.Errorf("The repository name '%s' is invalid", id)
+	}
+
 	// Make sure someone isn't intentionally fucking with us
 	rbase := filepath.Join(r.repoBase, id)
 	if PathExists(rbase) {
-- 
2.43.0


From 2e12ace7566abfa6bbd745d617c883e147c89138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 17/48] fix: rely on the lock rather than the PID in the lock
 file

---
 src/ferryd/lockfile.go | 59 ++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index ec7746a..5dadeb5 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -93,32 +93,30 @@ func (l *LockFile) GetOwnerProcess() string {
 
 // Lock will attempt to lock the file, or return an error if this fails
 func (l *LockFile) Lock() error {
-	pid, err := l.readPID()
-
-	// Bail now.
-	if err != ErrDeadLockFile && err != ErrOwnedLockFile && err != nil {
-		return err
-	}
+	l.conlock.Lock()
 
-	// Not gonna test our *own* PID
-	if pid > 0 && pid != l.ourPID {
-		// Process is still active
-		// Unix this always works
-		p, _ := os.FindProcess(pid)
-		if err2 := p.Signal(syscall.Signal(0)); err2 == nil {
-			if p.Pid != l.ourPID {
-				l.owningPID = p.Pid
+	// Finally lock it. The kernel drops the lock along with its owner, so don't
+	// go by the PID in the file, it could belong to anyone by now.
+	for {
+		if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
+			l.conlock.Unlock()
+			if err == syscall.EWOULDBLOCK {
+				l.owningPID, _ = l.readPID()
 				return ErrOwnedLockFile
 			}
+			return err
 		}
-	}
-
-	l.conlock.Lock()
-
-	// Finally lock it.
-	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
-		l.conlock.Unlock()
-		return err
+		// Did the last owner remove the file before we had it locked?
+		if l.current() {
+			break
+		}
+		l.fd.Close()
+		w, err := os.OpenFile(l.path, os.O_RDWR|os.O_CREATE, 00644)
+		if err != nil {
+			l.conlock.Unlock()
+			return err
+		}
+		l.fd = w
 	}
 
 	l.owner = true
@@ -133,6 +131,16 @@ func (l *LockFile) Lock() error {
 	return nil
 }
 
+// current determines if the open file is still the one at our path
+func (l *LockFile) current() bool {
+	st, err := l.fd.Stat()
+	if err != nil {
+		return false
+	}
+	cur, err := os.Stat(l.path)
+	return err == nil && os.SameFile(st, cur)
+}
+
 // Unlock will attempt to unlock the file, or return an error if this fails
 func (l *LockFile) Unlock() error {
 	if l.fd == nil || !l.owner {
@@ -177,6 +185,10 @@ func (l *LockFile) writePID() error {
 	}
 	l.conlock.Lock()
 	defer l.conlock.Unlock()
+	// The last owner's PID could be the longer one
+	if err := l.fd.Truncate(0); err != nil {
+		return err
+	}
 	if _, err := fmt.Fprintf(l.fd, "%d", l.ourPID); err != nil {
 		return err
 	}
@@ -191,7 +203,8 @@ func (l *LockFile) Clean() error {
 		return nil
 	}
 
-	l.fd.Close()
+	// Must still be locked when it goes away
+	defer l.fd.Close()
 	if l.owner {
 		return os.Remove(l.path)
 	}
-- 
2.43.0


From f058b6dd6fa1dc526f529ae575324aea3de06a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 18/48] fix: replace the socket left behind by a killed ferryd

---
 src/ferryd/server.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 1fecf22..dc21e89 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -160,6 +160,9 @@ func (s *Server) Bind() error {
 		systemdEnabled = true
 	} else {
 		l, e := net.Listen("unix", s.socketPath)
+		if errors.Is(e, syscall.EADDRINUSE) && s.removeStaleSocket() {
+			l, e = net.Listen("unix", s.socketPath)
+		}
 		if e != nil {
 			return e
 		}
@@ -201,6 +204,20 @@ func (s *Server) Bind() error {
 	return nil
 }
 
+// removeStaleSocket removes the socket that a killed ferryd left behind
+func (s *Server) removeStaleSocket() bool {
+	st, err := os.Lstat(s.socketPath)
+	if err != nil || st.Mode()&os.ModeSocket == 0 {
+		return false
+	}
+	conn, err := net.Dial("unix", s.socketPath)
+	if err == nil {
+		conn.Close()
+		return false
+	}
+	return errors.Is(err, syscall.ECONNREFUSED) && os.Remove(s.socketPath) == nil
+}
+
 // Serve will continuously serve on the unix socket until dead
 func (s *Server) Serve() error {
 	if s.socket == nil {
-- 
2.43.0


From bdae2cdd9bdc35a23bf181d3140f05536805c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 19/48] fix: release socket and lock last when shutting down

---
 src/ferryd/server.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index dc21e89..0f60ec7 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"errors"
 	"net"
 	"net/http"
@@ -37,6 +38,9 @@ import (
 	"github.com/getsolus/ferryd/src/ferryd/jobs"
 )
 
+// shutdownTimeout is how long we'll wait for clients when shutting down
+const shutdownTimeout = 5 * time.Second
+
 // Server sits on a unix socket accepting connections from authenticated
 // client, i.e. root or those in the "ferry" group
 type Server struct {
@@ -59,6 +63,7 @@ type Server struct {
 	watchChan  chan bool         // Allow terminating the watcher
 	watchGroup *sync.WaitGroup   // Allow blocking watch terminate.
 	socketPath string
+	closed     chan struct{} // Closed once Close has finished
 }
 
 // NewServer will return a newly initialised Server which is currently unbound
@@ -72,6 +77,7 @@ func NewServer() (*Server, error) {
 		router:      router,
 		timeStarted: time.Now().UTC(),
 		watchGroup:  &sync.WaitGroup{},
+		closed:      make(chan struct{}),
 	}
 
 	// Before we can actually bind the socket, we must lock the file
@@ -240,6 +246,8 @@ func (s *Server) Serve() error {
 	if e := s.srv.Serve(s.socket); e != http.ErrServerClosed {
 		return e
 	}
+	// Serving stops early on, wait for everything else
+	<-s.closed
 	return nil
 }
 
@@ -248,20 +256,28 @@ func (s *Server) Close() {
 	if !s.running {
 		return
 	}
-	if s.lockFile != nil {
-		s.lockFile.Unlock()
-		s.lockFile.Clean()
-		s.lockFile = nil
-	}
+	s.running = false
 	s.StopWatching()
 	s.jproc.Close()
+
+	// Requests being answered still need the store and the manager
+	ctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	if err := s.srv.Shutdown(ctx); err != nil {
+		s.srv.Close()
+	}
 	s.store.Close()
 	s.manager.Close()
-	s.running = false
-	s.srv.Shutdown(nil)
 
 	// We don't technically fully own it if systemd created it
 	if !systemdEnabled {
 		os.Remove(s.socketPath)
 	}
+
+	// Only now may another ferryd take over
+	if s.lockFile != nil {
+		s.lockFile.Clean()
+		s.lockFile = nil
+	}
+	close(s.closed)
 }
-- 
2.43.0


From 22b0e9c968ea163edcc2168c05d86822530fdf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 20/48] fix: open a database whose creation was interrupted

---
 src/libdb/leveldb.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 69fbb34..663dda0 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -20,9 +20,12 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"os"
+	"path/filepath"
 	"sync"
 
 	"github.com/syndtr/goleveldb/leveldb"
+	"github.com/syndtr/goleveldb/leveldb/errors"
 	"github.com/syndtr/goleveldb/leveldb/util"
 )
 
@@ -49,6 +52,13 @@ type levelDb struct {
 
 func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	ldb, err := leveldb.OpenFile(storagePath, nil)
+	if errors.IsCorrupted(err) {
+		// Not a database yet if we got killed before it was fully created
+		current := filepath.Join(storagePath, "CURRENT")
+		if _, serr := os.Lstat(current); os.IsNotExist(serr) {
+			ldb, err = leveldb.RecoverFile(storagePath, nil)
+		}
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fde9f586e0e95b481cc2c517264513a2fbac8694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 21/48] fix: remove pool files only after their entries are
 gone

---
 src/ferryd/core/pool.go | 49 ++++++++++++++++++------------
 src/ferryd/core/repo.go | 67 +++++++++++++++++++++++++++++------------
 2 files changed, 78 insertions(+), 38 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index d0204ae..7ad23d2 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -254,8 +254,8 @@ func (p *Pool) RefEntry(db libdb.Database, id string) error {
 }
 
 // UnrefEntry will unref a given ID from the repository.
-// Should the refcount hit 0, the package will then be removed from the pool
-// storage.
+// Should the refcount hit 0, the entry will then be removed. Its file stays
+// around for removeUnreferenced.
 func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 	entry, err := p.GetEntry(db, id)
 	if err != nil {
@@ -267,27 +267,38 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 	}
 
 	// RefCount is 0 so we now need to delete this entry
-	pkgPath := filepath.Join(p.poolDir, entry.Meta.GetPathComponent(), id)
-	if err := os.Remove(pkgPath); err != nil {
-		log.WithFields(log.Fields{
-			"path":  pkgPath,
-			"error": err,
-		}).Warning("Failed to remove package")
-	}
-
-	// Warn if unable to delete parents
-	if err := RemovePackageParents(pkgPath); err != nil {
-		log.WithFields(log.Fields{
-			"path":  pkgPath,
-			"error": err,
-		}).Warning("Failed to remove package parents")
-	}
-
-	// Now remove from DB
 	b := db.Bucket([]byte(DatabaseBucketPool))
 	return b.DeleteObject([]byte(id))
 }
 
+// removeUnreferenced will remove the files of those entries which are no longer
+// in the pool. This must happen after the entries are gone for good, if that
+// fails we'd have lost the file of a package that is still in use.
+func (p *Pool) removeUnreferenced(db libdb.Database, entries []*PoolEntry) {
+	b := db.Bucket([]byte(DatabaseBucketPool))
+	for _, entry := range entries {
+		if used, err := b.HasObject([]byte(entry.Name)); err != nil || used {
+			continue
+		}
+
+		pkgPath := p.GetMetaPoolPath(entry.Name, entry.Meta)
+		if err := os.Remove(pkgPath); err != nil {
+			log.WithFields(log.Fields{
+				"path":  pkgPath,
+				"error": err,
+			}).Warning("Failed to remove package")
+		}
+
+		// Warn if unable to delete parents
+		if err := RemovePackageParents(pkgPath); err != nil {
+			log.WithFields(log.Fields{
+				"path":  pkgPath,
+				"error": err,
+			}).Warning("Failed to remove package parents")
+		}
+	}
+}
+
 // MarkDeltaFailed will insert a record indicating that it is not possible
 // to actually produce a given delta ID
 func (p *Pool) MarkDeltaFailed(db libdb.Database, id string, delta *DeltaInformation) error {
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 57cf8ef..45f418b 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -249,6 +249,9 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 	delete(r.repos, id)
 
+	// Pool entries that lost a reference
+	var removed []*PoolEntry
+
 	// Let's iterate over every one of our packages here and start up an unref
 	// cycle
 	err = db.Update(func(db libdb.Database) error {
@@ -264,16 +267,24 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 			// First up, find all the packages to unref
 			for _, id := range entry.Available {
-				if err := repo.removePackageInternal(db, pool, id); err != nil {
+				poolEntry, err := repo.removePackageInternal(db, pool, id)
+				if err != nil {
 					return err
 				}
+				if poolEntry != nil {
+					removed = append(removed, poolEntry)
+				}
 			}
 
 			// Next up, find all the deltas to unref
 			for _, id := range entry.Deltas {
-				if err := repo.removeDeltaInternal(db, pool, id); err != nil {
+				poolEntry, err := repo.removeDeltaInternal(db, pool, id)
+				if err != nil {
 					return err
 				}
+				if poolEntry != nil {
+					removed = append(removed, poolEntry)
+				}
 			}
 
 			// Remove all IDs for this package, now we must remove this entry
@@ -310,8 +321,12 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		// Now remove the repository object itself
 		return repoBucket.DeleteObject([]byte(repo.ID))
 	})
+	if err != nil {
+		return err
+	}
 
-	return err
+	pool.removeUnreferenced(db, removed)
+	return nil
 }
 
 // GetEntry will return the package entry for the given ID
@@ -451,13 +466,13 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 }
 
 // Internal helper to remove packages
-func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id string) error {
+func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id string) (*PoolEntry, error) {
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
 
 	poolEntry, err := pool.GetEntry(db, id)
 	if err != nil {
-		return nil
+		return nil, nil
 	}
 
 	pkgDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
@@ -482,12 +497,12 @@ func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id str
 	}
 
 	// Tell the pool we no longer need this guy
-	return pool.UnrefEntry(db, id)
+	return poolEntry, pool.UnrefEntry(db, id)
 }
 
 // removeDeltaInternal has the same job as removePackageInternal, but in future should
 // be extended to remove the skip records
-func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id string) error {
+func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id string) (*PoolEntry, error) {
 	return r.removePackageInternal(db, pool, id)
 }
 
@@ -511,36 +526,50 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 
 	// The reference and our entry must go together, an entry without its pool
 	// item can neither be indexed nor removed again.
-	return db.Update(func(db libdb.Database) error {
-		return r.unrefPackageInternal(db, pool, entry, pkgID)
+	removed := []*PoolEntry{poolEntry}
+	err = db.Update(func(db libdb.Database) error {
+		deltas, err := r.unrefPackageInternal(db, pool, entry, pkgID)
+		removed = append(removed, deltas...)
+		return err
 	})
+	if err != nil {
+		return err
+	}
+
+	r.insertMut.Lock()
+	defer r.insertMut.Unlock()
+	pool.removeUnreferenced(db, removed)
+	return nil
 }
 
-// unrefPackageInternal does the work of UnrefPackage within a transaction
-func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, entry *RepoEntry, pkgID string) error {
+// unrefPackageInternal does the work of UnrefPackage within a transaction, and
+// returns the deltas that went along with the package.
+func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, entry *RepoEntry, pkgID string) ([]*PoolEntry, error) {
 	newHighest := 0
 	var newHighestID string
 
 	// Try to remove it from disk first
-	if err := r.removePackageInternal(db, pool, pkgID); err != nil {
-		return err
+	if _, err := r.removePackageInternal(db, pool, pkgID); err != nil {
+		return nil, err
 	}
 
 	// Deltas remaining after removals
 	var remainDeltas []string
+	var removedDeltas []*PoolEntry
 
 	// Check out all the deltas
 	for _, deltaID := range entry.Deltas {
 		pkgDelta, err := pool.GetEntry(db, deltaID)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		// We found a delta that is referencing us, we must garbage collect it now
 		if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {
-			if err := r.removeDeltaInternal(db, pool, pkgDelta.Name); err != nil {
-				return err
+			if _, err := r.removeDeltaInternal(db, pool, pkgDelta.Name); err != nil {
+				return nil, err
 			}
+			removedDeltas = append(removedDeltas, pkgDelta)
 		} else {
 			remainDeltas = append(remainDeltas, pkgDelta.Name)
 		}
@@ -558,7 +587,7 @@ func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, entry *
 		}
 		availEntry, err := pool.GetEntry(db, id)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		// Learn highest relno here, it's going to be the published ID
 		curRel := availEntry.Meta.GetRelease()
@@ -578,11 +607,11 @@ func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, entry *
 
 	// Is this package set now "empty"? Then remove it from our indexes
 	if len(entry.Available) < 1 {
-		return rootBucket.DeleteObject([]byte(entry.Name))
+		return removedDeltas, rootBucket.DeleteObject([]byte(entry.Name))
 	}
 
 	// Stuff it back into the DB with the modified bits in place.
-	return r.putEntry(db, entry)
+	return removedDeltas, r.putEntry(db, entry)
 }
 
 // RefPackage will dupe a package from the pool into our own storage
-- 
2.43.0


From a1130b9a8bd5f79171c78bde4a7495d8341d8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 22/48] fix: recover a database without a usable manifest

A kill during the creation that follows a failed one left a CURRENT file
naming an empty manifest.
---
 src/libdb/leveldb.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 663dda0..0d7c77b 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -20,8 +20,6 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
-	"os"
-	"path/filepath"
 	"sync"
 
 	"github.com/syndtr/goleveldb/leveldb"
@@ -53,11 +51,8 @@ type levelDb struct {
 func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	ldb, err := leveldb.OpenFile(storagePath, nil)
 	if errors.IsCorrupted(err) {
-		// Not a database yet if we got killed before it was fully created
-		current := filepath.Join(storagePath, "CURRENT")
-		if _, serr := os.Lstat(current); os.IsNotExist(serr) {
-			ldb, err = leveldb.RecoverFile(storagePath, nil)
-		}
+		// Not fully created yet, or without a usable manifest, if we got killed
+		ldb, err = leveldb.RecoverFile(storagePath, nil)
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9a8e73174d7e7b35caf2252ae1127289de56e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 23/48] fix: do not reuse job ids when the job database cannot
 be read

NextSequence took a failed read for an empty bucket, so that the new job
overwrote the first one in the queue.
---
 src/ferryd/jobs/store.go | 4 +++-
 src/libdb/leveldb.go     | 4 ++++
 src/libdb/main.go        | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 874aa7a..6854972 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -310,7 +310,9 @@ func (s *JobStore) pushJobInternal(j *JobEntry, bk []byte) error {
 		bucket := db.Bucket(bk)
 		// Use next natural sequence in the bucket
 
-		j.id = bucket.NextSequence()
+		if j.id = bucket.NextSequence(); j.id == nil {
+			return errors.New("Cannot determine the next job id")
+		}
 		return bucket.PutObject(j.id, j)
 	})
 }
diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 0d7c77b..2c383aa 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -199,6 +199,7 @@ func (l *levelDbHandle) Update(f WriterFunc) error {
 
 // NextSequence will return the next natural key to be used for inserts,
 // when the application only needs a unique record, not a specific key.
+// It is nil when the existing keys cannot be read.
 func (l *levelDbHandle) NextSequence() []byte {
 	l.seqLock.Lock()
 	defer l.seqLock.Unlock()
@@ -207,6 +208,9 @@ func (l *levelDbHandle) NextSequence() []byte {
 	defer iter.Release()
 	var retKey uint64
 	if !iter.Last() {
+		if iter.Error() != nil {
+			return nil
+		}
 		retKey = 0
 	} else {
 		key := iter.Key()
diff --git a/src/libdb/main.go b/src/libdb/main.go
index 08ca462..f2422a1 100644
--- a/src/libdb/main.go
+++ b/src/libdb/main.go
@@ -71,7 +71,8 @@ type Database interface {
 	Bucket(id []byte) Database
 
 	// NextSequence returns the next natural sequence for insert-order-centric applications
-	// Note this will cause implementations to lock while finding the natural sequence
+	// Note this will cause implementations to lock while finding the natural sequence,
+	// and to return nil if they fail to read it
 	NextSequence() []byte
 
 	// Convert view of current database or bucket into a read-only one.
-- 
2.43.0


From fa0bc2d721872773d5aeca57d36934f62bd3fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 24/48] fix: keep the deltas of a package when another release
 of it is added

---
 src/ferryd/core/repo.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 45f418b..1fd4f11 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -670,6 +670,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	if entry != nil {
 		repoEntry.Available = entry.Available
 		repoEntry.Published = entry.Published
+		repoEntry.Deltas = entry.Deltas
 
 		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)
 		if err == nil {
-- 
2.43.0


From a9f9434b348cc79d6bfa1ad502dabae05e889d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 25/48] fix: produce a delta again after an interrupted attempt

---
 src/libeopkg/util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libeopkg/util.go b/src/libeopkg/util.go
index 10f73a9..d5ef90f 100644
--- a/src/libeopkg/util.go
+++ b/src/libeopkg/util.go
@@ -74,6 +74,7 @@ func XzFile(inputPath string, keepOriginal bool) error {
 func UnxzFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"unxz",
+		"-f", // A stale output of an interrupted run must not block us
 		"-T", "8",
 		inputPath,
 	}
@@ -110,6 +111,7 @@ func ZstdFile(inputPath string, keepOriginal bool) error {
 func UnzstdFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"unzstd",
+		"-f", // A stale output of an interrupted run must not block us
 		"-T8",
 		inputPath,
 	}
-- 
2.43.0


From 7194beceda96548bcd76c9fd0d1cf9623c5c54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 26/48] fix: index the repository after an existing delta was
 reused

---
 src/ferryd/jobs/delta.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/jobs/delta.go b/src/ferryd/jobs/delta.go
index bbfc8ad..22fef07 100644
--- a/src/ferryd/jobs/delta.go
+++ b/src/ferryd/jobs/delta.go
@@ -34,7 +34,7 @@ type DeltaJobHandler struct {
 	repoID      string
 	packageName string
 	indexRepo   bool
-	nDeltas     int // Track how many deltas we actually produce
+	nDeltas     int // Track how many deltas we actually include
 }
 
 // NewDeltaJob will return a job suitable for adding to the job processor
@@ -131,6 +131,8 @@ func (j *DeltaJobHandler) executeInternal(manager *core.Manager) error {
 				log.WithFields(fields).Error("Failed to ref existing delta")
 				return err
 			}
+			// New to this repository all the same, so the index must learn of it
+			j.nDeltas++
 			log.WithFields(fields).Info("Reused existing delta")
 			continue
 		}
@@ -196,7 +198,7 @@ func (j *DeltaJobHandler) Execute(_ *Processor, manager *core.Manager) error {
 		return nil
 	}
 	// Ask that our repository now be reindexed because we've added deltas but
-	// only if we've successfully produced some delta packages
+	// only if we've successfully included some delta packages
 	if j.nDeltas < 1 {
 		return nil
 	}
-- 
2.43.0


From 7c08750c4f839856e85acc699a6dc49a7793773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 27/48] fix: index deltas which an interrupted job included

---
 src/ferryd/jobs/delta.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/jobs/delta.go b/src/ferryd/jobs/delta.go
index 22fef07..ee8ea7f 100644
--- a/src/ferryd/jobs/delta.go
+++ b/src/ferryd/jobs/delta.go
@@ -34,7 +34,7 @@ type DeltaJobHandler struct {
 	repoID      string
 	packageName string
 	indexRepo   bool
-	nDeltas     int // Track how many deltas we actually include
+	nDeltas     int // Track how many deltas there are
 }
 
 // NewDeltaJob will return a job suitable for adding to the job processor
@@ -110,8 +110,10 @@ func (j *DeltaJobHandler) executeInternal(manager *core.Manager) error {
 			return err
 		}
 
-		// Package has this delta already? Continue.
+		// Package has this delta already? Continue, but an interrupted run may not
+		// have got as far as indexing it.
 		if hasDelta {
+			j.nDeltas++
 			continue
 		}
 
@@ -197,8 +199,8 @@ func (j *DeltaJobHandler) Execute(_ *Processor, manager *core.Manager) error {
 	if !j.indexRepo {
 		return nil
 	}
-	// Ask that our repository now be reindexed because we've added deltas but
-	// only if we've successfully included some delta packages
+	// Ask that our repository now be reindexed but only if there are some
+	// delta packages
 	if j.nDeltas < 1 {
 		return nil
 	}
-- 
2.43.0


From 3b11387bede37d33ea200450c4581a5478edca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 28/48] fix: fail a delta when its archive could not be
 completed

---
 src/libeopkg/delta.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libeopkg/delta.go b/src/libeopkg/delta.go
index 3f0c75f..1c67f1f 100644
--- a/src/libeopkg/delta.go
+++ b/src/libeopkg/delta.go
@@ -178,14 +178,16 @@ func (d *DeltaProducer) produceInstallBall() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	defer outF.Close()
 	tw = tar.NewWriter(outF)
 
 	if err = d.copyInstallPartial(tw); err != nil {
 		return filename, err
 	}
 
-	tw.Flush()
-	tw.Close()
+	if err = tw.Close(); err != nil {
+		return "", err
+	}
 
 	if err = XzFile(installTar, false); err != nil {
 		return "", err
-- 
2.43.0


From ef7accab95e662c1ba226a801930f6e378245314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 29/48] fix: do not take an unreadable database entry for a
 missing one

---
 src/ferryd/core/pool.go  |  4 ++++
 src/ferryd/core/repo.go  | 43 ++++++++++++++++++++++++++++++----------
 src/ferryd/jobs/store.go |  4 +++-
 src/libdb/leveldb.go     |  4 ++++
 4 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index 7ad23d2..2de7d97 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -163,6 +163,8 @@ func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *Delta
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
+	} else if err != libdb.ErrNotFound {
+		return nil, err
 	}
 
 	// Validate these source/target packages *actually* exist
@@ -189,6 +191,8 @@ func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copy
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
+	} else if err != libdb.ErrNotFound {
+		return nil, err
 	}
 
 	st, err := os.Stat(pkg.Path)
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 1fd4f11..e3fcae3 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -180,6 +180,9 @@ func (r *RepositoryManager) GetRepo(db libdb.Database, id string) (*Repository,
 	var rTmp Repository
 	rootBucket := db.Bucket([]byte(DatabaseBucketRepo))
 	if err := rootBucket.GetObject([]byte(id), &rTmp); err != nil {
+		if err != libdb.ErrNotFound {
+			return nil, err
+		}
 		return nil, fmt.Errorf("The specified repository '%s' does not exist", id)
 	}
 
@@ -471,8 +474,10 @@ func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id str
 	defer r.insertMut.Unlock()
 
 	poolEntry, err := pool.GetEntry(db, id)
-	if err != nil {
+	if err == libdb.ErrNotFound {
 		return nil, nil
+	} else if err != nil {
+		return nil, err
 	}
 
 	pkgDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
@@ -629,7 +634,10 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
 	targetPath := filepath.Join(targetDir, pkgID)
 
-	repoEntry := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
+	repoEntry, err := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
+	if err != nil {
+		return err
+	}
 	// Already included
 	if repoEntry == nil {
 		return nil
@@ -655,7 +663,7 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 
 // buildSaneEntry will either return a plain entry if none exists already, otherwise it will
 // take an existing entry and correctly set up the available/published fields
-func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeopkg.MetaPackage, newID string) *RepoEntry {
+func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeopkg.MetaPackage, newID string) (*RepoEntry, error) {
 	// Fallback in case one actually doesn't exist yet
 	repoEntry := &RepoEntry{
 		SchemaVersion: RepoSchemaVersion,
@@ -663,8 +671,11 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 		Published:     newID,
 	}
 
-	// Not so worried about the error, just having the entry
-	entry, _ := r.GetEntry(db, newPkg.Name)
+	// Only start over if there is no entry, not when we failed to read it
+	entry, err := r.GetEntry(db, newPkg.Name)
+	if err != nil && err != libdb.ErrNotFound {
+		return nil, err
+	}
 
 	// Clone across the relevant field now
 	if entry != nil {
@@ -683,8 +694,10 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 					"repo":       r.ID,
 				}).Error("Duplicate release number detected. Fix immediately!")
 			}
-		} else {
+		} else if err == libdb.ErrNotFound {
 			repoEntry.Published = newID
+		} else {
+			return nil, err
 		}
 	}
 
@@ -695,7 +708,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 				"id":   id,
 				"repo": r.ID,
 			}).Info("Skipping already included package")
-			return nil
+			return nil, nil
 		}
 	}
 
@@ -703,7 +716,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	repoEntry.Available = append(repoEntry.Available, newID)
 	sort.Strings(repoEntry.Available)
 
-	return repoEntry
+	return repoEntry, nil
 }
 
 // AddLocalPackage will do the real work of adding an open & loaded eopkg to the repository
@@ -715,7 +728,10 @@ func (r *Repository) AddLocalPackage(db libdb.Database, pool *Pool, pkg *libeopk
 	pkgTarget := filepath.Join(pkgDir, pkg.ID)
 
 	// Already have a package, so let's copy the existing bits over
-	repoEntry := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
+	repoEntry, err := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
+	if err != nil {
+		return err
+	}
 
 	// nil == already included
 	if repoEntry == nil {
@@ -804,8 +820,10 @@ func (r *Repository) checkPackage(db libdb.Database, pool *Pool, filename string
 func (r *Repository) checkNewer(db libdb.Database, pool *Pool, pkg *libeopkg.Package) error {
 	// Do we have this?
 	localPkg, err := r.GetEntry(db, pkg.Meta.Package.Name)
-	if err != nil {
+	if err == libdb.ErrNotFound {
 		return nil
+	} else if err != nil {
+		return err
 	}
 
 	// We have this package, so Published link must work
@@ -1048,7 +1066,10 @@ func (r *Repository) PullFrom(db libdb.Database, pool *Pool, sourceRepo *Reposit
 			return err
 		}
 
-		localEntry, _ := r.GetEntry(db, entry.Name)
+		localEntry, err := r.GetEntry(db, entry.Name)
+		if err != nil && err != libdb.ErrNotFound {
+			return err
+		}
 
 		// We haven't got this, copy the published version
 		if localEntry == nil {
diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 6854972..281e1cf 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -230,8 +230,10 @@ func (s *JobStore) markCompletion(db libdb.Database, j *JobEntry) error {
 	}
 
 	// Try to grab it, otherwise reset it
-	if err := bucket.GetObject(IndexRecordKey, &record); err != nil {
+	if err := bucket.GetObject(IndexRecordKey, &record); err == libdb.ErrNotFound {
 		record.Index = 0
+	} else if err != nil {
+		return err
 	} else {
 		// Grabbed an existing record, so increment the key
 		record.Index++
diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 2c383aa..089202f 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -42,6 +42,10 @@ type levelDbHandle struct {
 	seqLock     *sync.Mutex    // Must ensure we have atomic view of DB for sequence
 }
 
+// ErrNotFound is returned when there is no such object, as opposed to any
+// failure to read it
+var ErrNotFound = leveldb.ErrNotFound
+
 // levelDb is our concrete type
 type levelDb struct {
 	levelDbHandle
-- 
2.43.0


From 6a9dd626242d86bd0c569fafa14c84b8f32859da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 30/48] fix: reset a history in one transaction

---
 src/ferryd/jobs/store.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 281e1cf..c08a00c 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -418,19 +418,11 @@ func (s *JobStore) resetInternal(bucketID []byte) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
-	hasIndex, err := bucket.HasObject(IndexRecordKey)
-	if err != nil {
-		return err
-	}
-	if hasIndex {
-		if err := bucket.DeleteObject(IndexRecordKey); err != nil {
+	// batch delete the jobs, and the pointer along with them
+	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketRecord).DeleteObject(IndexRecordKey); err != nil {
 			return err
 		}
-	}
-
-	// batch delete the jobs
-	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
 		return db.ForEach(func(k, v []byte) error {
 			return db.DeleteObject(k)
 		})
-- 
2.43.0


From 8e909d49fb3e98db9258f7d0688f7746c77a3de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 31/48] fix: retry to retire a job when that fails

---
 src/ferryd/jobs/worker.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/jobs/worker.go b/src/ferryd/jobs/worker.go
index 5226b33..99f652a 100644
--- a/src/ferryd/jobs/worker.go
+++ b/src/ferryd/jobs/worker.go
@@ -141,16 +141,22 @@ func (w *Worker) Start() {
 			job.Timing.End = time.Now().UTC()
 
 			// Mark the job as dealt with
-			err = w.reaper(job)
-
-			// Report failure in retiring the job
-			if err != nil {
+			for err = w.reaper(job); err != nil; err = w.reaper(job) {
+				// Report failure in retiring the job
 				log.WithFields(log.Fields{
 					"error": err,
 					"id":    job.GetID(),
 					"type":  job.Type,
 					"async": !w.sequential,
 				}).Error("Error in retiring job")
+
+				// Nobody else will, and it'd be listed as running forever
+				w.setTime()
+				select {
+				case <-w.exit:
+					return
+				case <-w.timer.C:
+				}
 			}
 
 			// We had a job, so we must reset the timeout period
-- 
2.43.0


From de4c7f280e32a26005da4dc7310061ae8d938f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 32/48] fix: remove the file of a package after its database
 entry

---
 src/ferryd/core/repo.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index e3fcae3..4f01c65 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -480,29 +480,33 @@ func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id str
 		return nil, err
 	}
 
+	// Tell the pool we no longer need this guy
+	return poolEntry, pool.UnrefEntry(db, id)
+}
+
+// removePackageFile will remove the file of a package from our tree. This must
+// happen after the package is out of the DB, if that fails we'd go on to
+// publish a package without a file.
+func (r *Repository) removePackageFile(poolEntry *PoolEntry) {
 	pkgDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
 	pkgTarget := filepath.Join(pkgDir, poolEntry.Name)
 
-	// If we cant unlink the file it aint getting out of the DB either...
-	if err = os.Remove(pkgTarget); err != nil {
+	if err := os.Remove(pkgTarget); err != nil {
 		log.WithFields(log.Fields{
 			"repo":  r.ID,
-			"id":    id,
+			"id":    poolEntry.Name,
 			"error": err,
 		}).Warning("Failed to remove target for package")
 	}
 
 	// This is a "we tried but oh noes, not fatal.
-	if err = RemovePackageParents(pkgTarget); err != nil {
+	if err := RemovePackageParents(pkgTarget); err != nil {
 		log.WithFields(log.Fields{
 			"repo":  r.ID,
-			"id":    id,
+			"id":    poolEntry.Name,
 			"error": err,
 		}).Warning("Failed to remove parent structure for package")
 	}
-
-	// Tell the pool we no longer need this guy
-	return poolEntry, pool.UnrefEntry(db, id)
 }
 
 // removeDeltaInternal has the same job as removePackageInternal, but in future should
@@ -543,6 +547,9 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 
 	r.insertMut.Lock()
 	defer r.insertMut.Unlock()
+	for _, entry := range removed {
+		r.removePackageFile(entry)
+	}
 	pool.removeUnreferenced(db, removed)
 	return nil
 }
@@ -553,7 +560,7 @@ func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, entry *
 	newHighest := 0
 	var newHighestID string
 
-	// Try to remove it from disk first
+	// Drop our reference first
 	if _, err := r.removePackageInternal(db, pool, pkgID); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9ba189c45bfb3d347331dce599ae836c883a0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:52 +0000
Subject: [PATCH 33/48] fix: write large batches through the database journal

---
 src/libdb/leveldb.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 089202f..ac22136 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -24,6 +24,7 @@ import (
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/errors"
+	"github.com/syndtr/goleveldb/leveldb/opt"
 	"github.com/syndtr/goleveldb/leveldb/util"
 )
 
@@ -46,6 +47,12 @@ type levelDbHandle struct {
 // failure to read it
 var ErrNotFound = leveldb.ErrNotFound
 
+// Batches larger than the write buffer must go through the journal like all
+// others. leveldb would otherwise use a transaction, which loses an earlier
+// write if that isn't flushed yet when we get killed, and blocks all writers
+// for good once it fails to commit.
+var options = &opt.Options{DisableLargeBatchTransaction: true}
+
 // levelDb is our concrete type
 type levelDb struct {
 	levelDbHandle
@@ -53,10 +60,10 @@ type levelDb struct {
 }
 
 func newLevelDBHandle(storagePath string) (*levelDb, error) {
-	ldb, err := leveldb.OpenFile(storagePath, nil)
+	ldb, err := leveldb.OpenFile(storagePath, options)
 	if errors.IsCorrupted(err) {
 		// Not fully created yet, or without a usable manifest, if we got killed
-		ldb, err = leveldb.RecoverFile(storagePath, nil)
+		ldb, err = leveldb.RecoverFile(storagePath, options)
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 366d590fbd95e2cccc0631a909446669913d33e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:37 +0000
Subject: [PATCH 34/48] fix: escape repository names in request paths

A name like 'a?b', 'unstable#1' or 'a%20b' addressed a different repository,
and one like '50%' could not be addressed at all.
---
 src/libferry/main.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/libferry/main.go b/src/libferry/main.go
index b06a13d..bb199b0 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -24,6 +24,7 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"net/url"
 	"time"
 )
 
@@ -143,25 +144,25 @@ func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}
 
 // CreateRepo will attempt to create a repository in the daemon
 func (c *Client) CreateRepo(id string) error {
-	uri := c.formURI("/api/v1/create/repo/" + id)
+	uri := c.formURI("/api/v1/create/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeleteRepo will attempt to delete a remote repository
 func (c *Client) DeleteRepo(id string) error {
-	uri := c.formURI("/api/v1/remove/repo/" + id)
+	uri := c.formURI("/api/v1/remove/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeltaRepo will attempt to reproduce deltas in the given repo
 func (c *Client) DeltaRepo(id string) error {
-	uri := c.formURI("/api/v1/delta/repo/" + id)
+	uri := c.formURI("/api/v1/delta/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // IndexRepo will attempt to index a repository in the daemon
 func (c *Client) IndexRepo(id string) error {
-	uri := c.formURI("/api/v1/index/repo/" + id)
+	uri := c.formURI("/api/v1/index/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -171,7 +172,7 @@ func (c *Client) ImportPackages(repoID string, pkgs []string) error {
 	iq := ImportRequest{
 		Path: pkgs,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/import/"+repoID), &iq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/import/"+url.PathEscape(repoID)), &iq, &Response{})
 }
 
 // CloneRepo will ask the backend to clone an existing repository into a new repository
@@ -180,7 +181,7 @@ func (c *Client) CloneRepo(repoID, newClone string, copyAll bool) error {
 		CloneName: newClone,
 		CopyAll:   copyAll,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/clone/"+repoID), &cq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/clone/"+url.PathEscape(repoID)), &cq, &Response{})
 }
 
 // PullRepo will ask the backend to pull from target into repoID
@@ -188,7 +189,7 @@ func (c *Client) PullRepo(sourceID, targetID string) error {
 	pq := PullRepoRequest{
 		Source: sourceID,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/pull/"+targetID), &pq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/pull/"+url.PathEscape(targetID)), &pq, &Response{})
 }
 
 // RemoveSource will ask the backend to remove packages by source name
@@ -197,7 +198,7 @@ func (c *Client) RemoveSource(repoID, sourceID string, relno int) error {
 		Source:  sourceID,
 		Release: relno,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+repoID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+url.PathEscape(repoID)), &sq, &Response{})
 }
 
 // CopySource will ask the backend to copy packages by source name
@@ -208,7 +209,7 @@ func (c *Client) CopySource(fromID, targetID, sourceID string, relno int, skipIn
 		Release:   relno,
 		SkipIndex: skipIndex,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+fromID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+url.PathEscape(fromID)), &sq, &Response{})
 }
 
 // TrimPackages will request that packages in the repo are trimmed to maxKeep
@@ -216,12 +217,12 @@ func (c *Client) TrimPackages(repoID string, maxKeep int) error {
 	tq := TrimPackagesRequest{
 		MaxKeep: maxKeep,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+repoID), &tq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+url.PathEscape(repoID)), &tq, &Response{})
 }
 
 // TrimObsolete will request that all packages marked obsolete are removed
 func (c *Client) TrimObsolete(repoID string) error {
-	uri := c.formURI("/api/v1/trim/obsoletes/" + repoID)
+	uri := c.formURI("/api/v1/trim/obsoletes/" + url.PathEscape(repoID))
 	return c.getBasicResponse(uri, &Response{})
 }
 
-- 
2.43.0


From 0c79628b7605121385255f101fa01aa1a0c5821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:39 +0000
Subject: [PATCH 35/48] fix: report refusals with a long or an empty body

A body without known length was not looked at, and neither was the status
code, so such a refusal was taken for success.
---
 src/libferry/main.go | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/libferry/main.go b/src/libferry/main.go
index bb199b0..16f2b3c 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -22,6 +22,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"net"
 	"net/http"
 	"net/url"
@@ -94,6 +95,22 @@ func (c *Client) GetPoolItems() ([]PoolItem, error) {
 	return lq.Item, nil
 }
 
+// readBasicResponse reads the body, which has no known length when it is a long
+// one, and turns a refusal into an error.
+func readBasicResponse(resp *http.Response, outT interface{}) error {
+	if e := json.NewDecoder(resp.Body).Decode(outT); e != nil && e != io.EOF {
+		return e
+	}
+	fc := outT.(*Response)
+	if fc.Error {
+		return errors.New(fc.ErrorString)
+	}
+	if resp.StatusCode >= http.StatusBadRequest {
+		return errors.New(resp.Status)
+	}
+	return nil
+}
+
 // A helper to wrap the trivial functionality, chaining off
 // the appropriate errors, etc.
 func (c *Client) getBasicResponse(url string, outT interface{}) error {
@@ -102,16 +119,7 @@ func (c *Client) getBasicResponse(url string, outT interface{}) error {
 		return e
 	}
 	defer resp.Body.Close()
-	if resp.ContentLength > 0 {
-		if e = json.NewDecoder(resp.Body).Decode(outT); e != nil {
-			return e
-		}
-	}
-	fc := outT.(*Response)
-	if !fc.Error {
-		return nil
-	}
-	return errors.New(fc.ErrorString)
+	return readBasicResponse(resp, outT)
 }
 
 // A helper to wrap the trivial functionality, chaining off
@@ -129,17 +137,7 @@ func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}
 	}
 
 	defer resp.Body.Close()
-	if resp.ContentLength > 0 {
-		if e = json.NewDecoder(resp.Body).Decode(outT); e != nil {
-			return e
-		}
-	}
-
-	fc := outT.(*Response)
-	if !fc.Error {
-		return nil
-	}
-	return errors.New(fc.ErrorString)
+	return readBasicResponse(resp, outT)
 }
 
 // CreateRepo will attempt to create a repository in the daemon
-- 
2.43.0


From 56ad01f8c4e259406bf2787a0ce54d56346bbccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 36/48] fix: a purge refused without details crashed the daemon

---
 src/ferryd/core/purge_cloudflare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ferryd/core/purge_cloudflare.go b/src/ferryd/core/purge_cloudflare.go
index dc545bb..6665df6 100644
--- a/src/ferryd/core/purge_cloudflare.go
+++ b/src/ferryd/core/purge_cloudflare.go
@@ -69,5 +69,8 @@ func purgeCloudflare(target string) error {
 	if result.Success {
 		return nil
 	}
+	if len(result.Errors) == 0 {
+		return errors.New("Cloudflare refused the purge")
+	}
 	return errors.New("Cloudflare response " + result.Errors[0].Message)
 }
-- 
2.43.0


From f996e72d18a9df06f5635b52d1a971a4626e8a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:57 +0000
Subject: [PATCH 37/48] fix: a purge that is never answered blocked the job
 queue for good

---
 src/ferryd/core/purge_cloudflare.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/purge_cloudflare.go b/src/ferryd/core/purge_cloudflare.go
index 6665df6..4bc1fd5 100644
--- a/src/ferryd/core/purge_cloudflare.go
+++ b/src/ferryd/core/purge_cloudflare.go
@@ -24,10 +24,14 @@ import (
 	"path/filepath"
 	"slices"
 	"strings"
+	"time"
 )
 
 const FerrydDir = "/etc/ferryd"
 
+// purgeTimeout is how long a purge may take, including all of its retries
+const purgeTimeout = 2 * time.Minute
+
 func purgeCloudflare(target string) error {
 	// Check if we have an api token
 	apiKey := os.Getenv("CLOUDFLARE_API_TOKEN")
@@ -60,7 +64,9 @@ func purgeCloudflare(target string) error {
 		return err
 	}
 
-	ctx := context.Background()
+	// The job queue waits for this, so never wait forever for an answer
+	ctx, cancel := context.WithTimeout(context.Background(), purgeTimeout)
+	defer cancel()
 	result, err := api.PurgeCache(ctx, zoneId, cloudflare.PurgeCacheRequest{Files: files})
 	if err != nil {
 		return err
-- 
2.43.0


From bc872ee58503407ba8ace9fdae46bfdb5a4f08b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 38/48] fix: an empty list of files to purge made every index
 fail

Cloudflare refuses a purge of nothing.
---
 src/ferryd/core/purge_cloudflare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ferryd/core/purge_cloudflare.go b/src/ferryd/core/purge_cloudflare.go
index 4bc1fd5..da3fe4e 100644
--- a/src/ferryd/core/purge_cloudflare.go
+++ b/src/ferryd/core/purge_cloudflare.go
@@ -58,6 +58,9 @@ func purgeCloudflare(target string) error {
 	files := slices.DeleteFunc(strings.Split(string(content), "\n"), func(e string) bool {
 		return e == ""
 	})
+	if len(files) == 0 {
+		return nil
+	}
 
 	api, err := cloudflare.NewWithAPIToken(apiKey)
 	if err != nil {
-- 
2.43.0


From e03bf2d42ae65a0909d4614fed17aa4078acba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:02 +0000
Subject: [PATCH 39/48] fix: a failed purge without message left a failed job
 without reason

---
 src/ferryd/core/purge_cloudflare.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/purge_cloudflare.go b/src/ferryd/core/purge_cloudflare.go
index da3fe4e..98c68d0 100644
--- a/src/ferryd/core/purge_cloudflare.go
+++ b/src/ferryd/core/purge_cloudflare.go
@@ -19,6 +19,7 @@ package core
 import (
 	"context"
 	"errors"
+	"fmt"
 	"github.com/cloudflare/cloudflare-go"
 	"os"
 	"path/filepath"
@@ -72,7 +73,7 @@ func purgeCloudflare(target string) error {
 	defer cancel()
 	result, err := api.PurgeCache(ctx, zoneId, cloudflare.PurgeCacheRequest{Files: files})
 	if err != nil {
-		return err
+		return fmt.Errorf("Cloudflare purge: %w", err)
 	}
 
 	if result.Success {
-- 
2.43.0


From ad9c6b24c6223ce3db87f78c0e02e983599c5e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:02 +0000
Subject: [PATCH 40/48] fix: do not publish an index that could not be written
 completely

---
 src/ferryd/core/repo_index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/repo_index.go b/src/ferryd/core/repo_index.go
index 6a8f0ba..cc16c27 100644
--- a/src/ferryd/core/repo_index.go
+++ b/src/ferryd/core/repo_index.go
@@ -319,7 +319,9 @@ func (r *Repository) Index(db libdb.Database, pool *Pool) error {
 
 	// Write the index file
 	errAbort = r.emitIndex(db, pool, f)
-	f.Close()
+	if err := f.Close(); err != nil && errAbort == nil {
+		errAbort = err
+	}
 	if errAbort != nil {
 		return errAbort
 	}
-- 
2.43.0


From abdf5f9c572358895c6fa92fb0374dec601550da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:05 +0000
Subject: [PATCH 41/48] fix: don't cut the source name within a character

---
 src/libeopkg/metadata.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index ef9c80e..6952768 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -200,10 +200,12 @@ func (m *Metadata) isSane() bool {
 //
 func (m *MetaPackage) GetPathComponent() string {
 	nom := strings.ToLower(m.Source.Name)
-	letter := nom[0:1]
+	// Half a character can't be written to the index
+	chars := []rune(nom)
+	letter := string(chars[0:1])
 	var path string
-	if strings.HasPrefix(nom, "lib") && len(nom) > 3 {
-		path = filepath.Join(nom[0:4], nom)
+	if strings.HasPrefix(nom, "lib") && len(chars) > 3 {
+		path = filepath.Join(string(chars[0:4]), nom)
 	} else {
 		path = filepath.Join(letter, nom)
 	}
-- 
2.43.0


From 044bfbd676045ca773c09ee90d581c499ebafcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 42/48] fix: refuse packages named like a database key before
 adding them

---
 src/ferryd/core/repo.go |  6 ++++++
 src/libdb/leveldb.go    | 14 +++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 4f01c65..b454a5b 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -817,6 +817,12 @@ func (r *Repository) checkPackage(db libdb.Database, pool *Pool, filename string
 	if err = pkg.ReadMetadata(); err != nil {
 		return nil, err
 	}
+	// Don't find out once we already stored half of it
+	for _, key := range []string{pkg.ID, pkg.Meta.Package.Name} {
+		if err = libdb.CheckKey([]byte(key)); err != nil {
+			return nil, err
+		}
+	}
 	if anal {
 		err = r.checkNewer(db, pool, pkg)
 	}
diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index ac22136..6d812b8 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -102,10 +102,18 @@ func (l *levelDbHandle) HasObject(id []byte) (bool, error) {
 	return l.db.Has(l.getRealKey(id), nil)
 }
 
-func (l *levelDbHandle) PutObject(id []byte, inObject interface{}) error {
+// CheckKey ensures that an object may be stored with the given key
+func CheckKey(id []byte) error {
 	if bytes.HasPrefix(id, bucketPrefix) || bytes.HasPrefix(id, rootBucketPrefix) {
 		return fmt.Errorf("key uses reserved bucket notation: %v", string(id))
 	}
+	return nil
+}
+
+func (l *levelDbHandle) PutObject(id []byte, inObject interface{}) error {
+	if err := CheckKey(id); err != nil {
+		return err
+	}
 
 	tr := NewGobEncoderLight()
 	by, err := tr.EncodeType(inObject)
@@ -120,8 +128,8 @@ func (l *levelDbHandle) PutObject(id []byte, inObject interface{}) error {
 }
 
 func (l *levelDbHandle) DeleteObject(id []byte) error {
-	if bytes.HasPrefix(id, bucketPrefix) || bytes.HasPrefix(id, rootBucketPrefix) {
-		return fmt.Errorf("key uses reserved bucket notation: %v", string(id))
+	if err := CheckKey(id); err != nil {
+		return err
 	}
 
 	if l.batch != nil {
-- 
2.43.0


From 1b6a0f2b45973a44d5823a5c915c227637e4afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:11 +0000
Subject: [PATCH 43/48] fix: an error of the watcher stopped all uploads from
 being noticed

---
 src/ferryd/monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index fb14db1..5f79023 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -61,6 +61,11 @@ func (s *Server) WatchIncoming() {
 						s.processTransitManifest(filepath.Base(event.Name))
 					}
 				}
+			case err := <-s.watcher.Errors:
+				// Nothing else is reported until someone takes this
+				log.WithFields(log.Fields{
+					"error": err,
+				}).Error("Failed to watch for transit manifest uploads")
 			case <-s.watchChan:
 				return
 			}
-- 
2.43.0


From f7c40bcc1cc43ee91fcfd5e81a31f776ab41dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:27 +0000
Subject: [PATCH 44/48] fix: never write through the leftover of an interrupted
 delta

---
 src/libeopkg/delta.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libeopkg/delta.go b/src/libeopkg/delta.go
index 1c67f1f..bb2f245 100644
--- a/src/libeopkg/delta.go
+++ b/src/libeopkg/delta.go
@@ -329,6 +329,11 @@ func (d *DeltaProducer) Commit() (string, error) {
 		return "", err
 	}
 	fpath := filepath.Join(d.baseDir, ComputeDeltaName(&d.old.Meta.Package, &d.new.Meta.Package))
+	// An interrupted run may have left this behind, linked to what was included
+	// since then. Never write through it.
+	if err = os.Remove(fpath); err != nil && !os.IsNotExist(err) {
+		return "", err
+	}
 	out, err := os.Create(fpath)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 614012b0bcb7269b76bc4cc571b491ba5baa36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:21 +0000
Subject: [PATCH 45/48] fix: store the package rather than a symbolic link to
 it

---
 src/ferryd/core/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index e40ba11..9e3e63c 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -83,7 +83,8 @@ func LinkOrCopyFile(source, dest string, forceCopy bool) error {
 	if forceCopy {
 		return CopyFile(source, dest)
 	}
-	if os.Link(source, dest) == nil {
+	// A hard link to a symbolic link is just another symbolic link
+	if st, err := os.Lstat(source); err == nil && st.Mode().IsRegular() && os.Link(source, dest) == nil {
 		return nil
 	}
 	return CopyFile(source, dest)
-- 
2.43.0


From 689adfc2587b5d296734cdc4f583291ddf9a2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:24 +0000
Subject: [PATCH 46/48] fix: refuse uploads that lead out of the upload
 directory by a symbolic link

---
 src/ferryd/core/transit_manifest.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 31e2b1b..44312f9 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -166,9 +166,21 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 // that they actually exist, and that the hashes match to prevent any corrupted
 // uploads being inadvertently imported
 func (t *TransitManifest) ValidatePayload() error {
+	dir, err := filepath.EvalSymlinks(t.dir)
+	if err != nil {
+		return err
+	}
 	for i := range t.File {
 		f := &t.File[i]
 		path := filepath.Join(t.dir, f.Path)
+		// Symbolic links mustn't lead out of the upload directory either
+		target, err := filepath.EvalSymlinks(path)
+		if err != nil {
+			return err
+		}
+		if rel, err := filepath.Rel(dir, target); err != nil || !filepath.IsLocal(rel) {
+			return ErrInvalidPayload
+		}
 		sha, err := FileSha256sum(path)
 		if err != nil {
 			return err
-- 
2.43.0


From 952a746533a19698ff6804fe06aa250fb396aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:28 +0000
Subject: [PATCH 47/48] fix: an upload truncated while its checksum was
 computed crashed the daemon

---
 src/ferryd/core/util.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 9e3e63c..807b8ce 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -20,6 +20,7 @@ import (
 	"crypto/sha1"
 	"crypto/sha256"
 	"encoding/hex"
+	"hash"
 	"io"
 	"io/ioutil"
 	"os"
@@ -116,30 +117,28 @@ func RemovePackageParents(path string) error {
 	return nil
 }
 
-// FileSha1sum is a quick wrapper to grab the sha1sum for the given file
-func FileSha1sum(path string) (string, error) {
-	mfile, err := MapFile(path)
+// fileSum feeds the contents of the file to the given hash. The file isn't
+// mapped for this, reading a mapped file that somebody truncates is fatal.
+func fileSum(path string, h hash.Hash) (string, error) {
+	file, err := os.Open(path)
 	if err != nil {
 		return "", err
 	}
-	defer mfile.Close()
-	h := sha1.New()
-	// Pump from memory into hash for zero-copy sha1sum
-	h.Write(mfile.Data)
+	defer file.Close()
+	if _, err := io.Copy(h, file); err != nil {
+		return "", err
+	}
 	return hex.EncodeToString(h.Sum(nil)), nil
 }
 
+// FileSha1sum is a quick wrapper to grab the sha1sum for the given file
+func FileSha1sum(path string) (string, error) {
+	return fileSum(path, sha1.New())
+}
+
 // FileSha256sum is a quick wrapper to grab the sha256sum for the given file
 func FileSha256sum(path string) (string, error) {
-	mfile, err := MapFile(path)
-	if err != nil {
-		return "", err
-	}
-	defer mfile.Close()
-	h := sha256.New()
-	// Pump from memory into hash for zero-copy sha1sum
-	h.Write(mfile.Data)
-	return hex.EncodeToString(h.Sum(nil)), nil
+	return fileSum(path, sha256.New())
 }
 
 // WriteSha1sum will take the sha1sum of the input path and then dump it to
-- 
2.43.0


From aeb1603e4d7d2e09c56189737f7eba5e0c64553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:31 +0000
Subject: [PATCH 48/48] fix: a named pipe in place of a package blocked the job
 queue for good

---
 src/ferryd/core/util.go |  3 +++
 src/libeopkg/package.go |  3 +++
 src/libeopkg/util.go    | 13 +++++++++++++
 3 files changed, 19 insertions(+)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 807b8ce..7c1d86e 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -120,6 +120,9 @@ func RemovePackageParents(path string) error {
 // fileSum feeds the contents of the file to the given hash. The file isn't
 // mapped for this, reading a mapped file that somebody truncates is fatal.
 func fileSum(path string, h hash.Hash) (string, error) {
+	if err := libeopkg.CheckRegular(path); err != nil {
+		return "", err
+	}
 	file, err := os.Open(path)
 	if err != nil {
 		return "", err
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index ae6489d..6bb6167 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -59,6 +59,9 @@ func Open(path string) (*Package, error) {
 		Path: path,
 		ID:   filepath.Base(path),
 	}
+	if err := CheckRegular(path); err != nil {
+		return nil, err
+	}
 	zipFile, err := zip.OpenReader(path)
 	if err != nil {
 		return nil, err
diff --git a/src/libeopkg/util.go b/src/libeopkg/util.go
index d5ef90f..f31f5dd 100644
--- a/src/libeopkg/util.go
+++ b/src/libeopkg/util.go
@@ -27,6 +27,19 @@ import (
 // package format with a hash-indexed self deduplicating archive to
 // mitigate delta issues, reduce sizes, and ensure verification at all stages
 
+// CheckRegular will return an error unless the path is that of a regular file.
+// Opening a named pipe, for example, would block for good.
+func CheckRegular(path string) error {
+	st, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
+	if !st.Mode().IsRegular() {
+		return fmt.Errorf("'%s' is not a regular file", path)
+	}
+	return nil
+}
+
 // ComputeDeltaName will determine the target name for the delta eopkg
 func ComputeDeltaName(oldPackage, newPackage *MetaPackage) string {
 	return fmt.Sprintf("%s-%d-%d-%s-%s.delta.eopkg",
-- 
2.43.0

