#!/usr/bin/env python3
# Writes known-findings.json: what /repo still does wrong, and what was repaired.
import json, os
O = []
def known(prop, key, what): O.append({"property": prop, "key": key, "what": what})
def fixed(prop, commit, what): O.append({"property": prop, "key": "fixed:%s" % commit, "what": "fixed: property=%s %s %s" % (prop, commit, what), "fixed": commit})
known("C14", "rerun-create", "a create-repository job killed after it made the repository and before it was retired runs again, finds the repository and is recorded as failed ('already exists'), although the repository is there")
known("C14", "rerun-clone", "a clone job killed after it made the target (complete or in part) runs again, finds the target and is recorded as failed; a partial target stays partial")
known("C14", "rerun-delete", "a delete-repository job killed after the repository's entry was gone runs again and is recorded as failed ('does not exist'), although the repository was deleted")
known("C14", "rerun-rmsrc", "a remove-source job killed after the packages were gone and before it was retired runs again, finds none and is recorded as failed; the index was then not refreshed if the kill came before indexing")
known("C14", "rerun-upload", "an upload job killed after its packages were added and before it was retired runs again, finds them not newer and is recorded as failed; manifest and files then stay in the upload directory")
known("C15", "db-stuck", "after a write of the job or repository database failed in the journal, the database library refuses every later write until the daemon is restarted, so queued jobs stay listed and are not retired although the fault is gone")
known("C20", "libdb-key-collision", "the key of an entry is bucket + '-' + key, so bucket 'a' with key 'b-c' and bucket 'a-b' with key 'c' are the same entry")
for l in """C09 f3c196b a plain copy-source left the target's index as it was and --skip-index rebuilt it
C10 58cad5a trim-obsolete removed only -dbginfo packages and only the first release of each
C06 2d5c97b copying a published file onto itself truncated it; a failed copy left a partial file under the final name
C13 b8e70f4 a kill between dropping the pool reference and the repository entry left a listed package without pool entry
C16 1ea6394 a package without history, summary, description or source name crashed the daemon; names with a path separator escaped the directory
C08 4faa4f2 a left-over compressed index made every later index of the repository fail
C01 41efe12 a request whose job could not be stored was answered with success
C04 e10406f the status request failed while an import of no packages was queued
C01 c06f1bf a kill between the two writes of a retirement lost the job from the queue and from both histories
C15 ebcd688 an unreadable path was taken for a missing one
C13 0296f2f an interrupted delete could not be run again and left the files
C20 37adc98 iterating a bucket visited the entries of buckets whose name it is a prefix of
C12 fd1a8a8 manifest entries with ../ read and removed files outside the upload directory
C07 995e772 text with multi-byte characters was mangled in the index where a rune was split between two writes
C12 e1f87f2 an upload with one package too old had already added the ones before it
C16 102a040 repository names with a path separator or .. were created outside the repository directory
C19 2e12ace the lock file of a dead daemon prevented a start when its PID belonged to another process; two daemons could start together
C13 f058b6d the socket left by a killed daemon prevented the next start
C18 bdae2cd the shutdown closed a channel still in use and released the lock before the last job had ended
C13 22b0e9c a database whose creation was killed before its CURRENT file existed could never be opened again
C15 fde9f58 a failed database write during a removal left the entry of a package whose file was already gone
C13 a1130b9 a database whose creation was killed with CURRENT naming an empty or missing manifest could never be opened again
C01 9a8e731 a job accepted while the job database could not be read got the id of a queued job and replaced it
C21 fa0bc2d the deltas of a package were forgotten, with their references and files left, when another release of it was added
C21 a9f9434 a delta whose production was killed could never be produced again, since the unpacked file was in the way
C21 7194bec a delta reused from the pool was not put into the index
C21 7c08750 the deltas included by a killed job were not put into the index when the job was run again
C21 3b11387 a failed write at the end of a delta's archive was ignored and the delta published
C15 ef7acca a repository, package or delta entry which could not be read was taken for a missing one (a repository created over an existing one, a reference count restarted at one, a package listed twice)
C15 6a9dd62 clearing a history whose second write failed left it with a size but without entries, or with entries but an old position
C15 8e909d4 a finished job whose retirement failed stayed claimed and listed as running until the restart
C13 de4c7f2 a removed package's file was unlinked before its database entry, so a kill or failed write between left an entry without file
C20 9ba189c a batch larger than the write buffer lost an acknowledged write when the database was closed or the daemon killed soon after, and blocked every writer for good when its commit failed
C22 366d590 repository names were put into request paths unescaped, so that a?b, unstable#1 and a%20b addressed other repositories
C22 0c79628 refusals with a long body (no Content-Length) or an empty one were taken for success
C23 56ad01f a purge refused without details crashed the daemon, again after every restart
C23 f996e72 a purge that was never answered blocked the job queue for good
C23 bc872ee with an empty list of URLs every index of the repository failed, since a purge of nothing is refused
C23 e03bf2d a job whose purge was refused with 403 was listed as failed without a reason
C08 ad9c6b2 an error reported when the index file was closed was ignored and the incomplete index published
C07 abdf5f9 the path of a package whose source name starts with a multi-byte character was cut within it, so that the index listed a path which does not exist
C16 044bfbd a package named like a reserved database key was refused only after its pool item and file were stored, which stayed behind
C17 1b6a0f2 after an error of the file watcher (such as a queue overflow) no upload was noticed any more until the restart
C21 f7c40bc the archive of a delta was written through the leftover of an interrupted production, which may be linked to a file in the pool and a repository
C06 614012b importing a package by way of a symbolic link stored the link, which leads nowhere from the pool, so that the published package was missing
C12 689adfc a symbolic link in the upload directory made a manifest read files from outside of it into a repository
C16 952a746 truncating an upload while the daemon computed its checksum crashed the daemon (a fault in the mapped file)
C16 aeb1603 a named pipe in place of an uploaded or imported package blocked the job queue for good""".splitlines():
    a, b, c = l.split(" ", 2)
    fixed(a, b, c)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.json"), "w") as f:
    f.write("[\n" + ",\n".join(" " + json.dumps(o) for o in O) + "\n]\n")
