#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, once)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INO, GEN, DWG, SNAP = ("src/efsw/FileWatcherInotify.cpp", "src/efsw/FileWatcherGeneric.cpp",
                       "src/efsw/DirWatcherGeneric.cpp", "src/efsw/DirectorySnapshot.cpp")
FW, CAPI, FS, FI = ("src/efsw/FileWatcher.cpp", "src/efsw/FileWatcherCWrapper.cpp",
                    "src/efsw/platform/posix/FileSystemImpl.cpp", "src/efsw/FileInfo.cpp")
SYS, LOG, IMPL, WG = ("src/efsw/platform/posix/SystemImpl.cpp", "src/efsw/Log.cpp",
                      "src/efsw/FileWatcherImpl.cpp", "src/efsw/WatcherGeneric.cpp")
TESTS = ("the test program checks a few fixed sequences on a real disk with sleeps between the "
         "steps, on whatever schedule the machine happens to produce")

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, note=note, state=state or []))


prop("C01", "Native events mirror the watched tree",
     "Starting from the content of the watched tree at a quiet moment, applying the reported "
     "Add, Delete and Moved events of a native watch in order yields the content of the tree at "
     "the next quiet moment, for every directory the watch covered throughout. Every content "
     "change of a file in such a directory is followed by a Modified event for it. Renames and "
     "moves of a directory are separated by a quiet moment from other structural changes of the "
     "same subtree; everything else may overlap freely.",
     ["histories", "schedules", "configurations"],
     "all sequences of creations, writes, truncations, deletions, renames, moves, hard links and "
     "special files by several concurrent actors, all interleavings with the watcher's thread, "
     "recursive and plain watches, with and without synthetic events",
     TESTS + "; the property is about every sequence and every interleaving",
     [INO], [("event loop and rename pairing", INO + ":run"),
             ("translation of inotify events", INO + ":handleAction"),
             ("moves out of the tree", INO + ":handleMovedOutside")],
     ["FileWatchListener callbacks", "file system"],
     "A run compares the tree with the model only at quiet moments; directories that are new in "
     "the window, or moved within it, are not required (C03, C04, C19 cover them).")

prop("C02", "Events of a directory are complete, in order, without duplicates",
     "For a directory covered by a native watch, the reported events correspond one to one and in "
     "order to the changes the operating system announced for it: create gives Add, write and "
     "close-after-write give Modified, delete gives Delete, a rename inside the directory gives "
     "Moved with the old name (or Delete and Add when its halves arrive apart), a move in gives "
     "Add and Modified, a move out gives Delete. Nothing is lost, invented, repeated or reordered.",
     ["histories", "schedules"],
     "all bursts of changes in one or several directories, all ways the kernel batches, coalesces "
     "and splits its event queue, all interleavings with the reader",
     TESTS + "; ordering across a queue split or between racing writers never occurs there",
     [INO], [("parsing the event buffer", INO + ":run"), ("cookies of renames", INO + ":run"),
             ("actions", INO + ":handleAction")],
     ["FileWatchListener callbacks"],
     "The reference is the simulated kernel's own record of what it queued, after coalescing.")

prop("C03", "A recursive watch covers every directory of the tree, a plain one only its root",
     "At every quiet moment a new file in any readable local directory under the root of a "
     "recursive watch is reported exactly once by that watch with the directory's current path, "
     "whatever directories were created, removed, renamed or moved before. A change outside the "
     "root, or below it for a plain watch, is never reported. The process holds exactly one "
     "kernel watch per covered directory.",
     ["histories", "schedules", "configurations"],
     "all histories of directory creation, removal, rename and move, interleaved with the "
     "watcher's thread, including unreadable directories for an unprivileged user",
     TESTS + "; coverage after an arbitrary history of directory changes is not sampled",
     [INO, DWG], [("watching new directories", INO + ":checkForNewWatcher"),
                  ("scan of a new directory", INO + ":addWatch"),
                  ("path update after renames", INO + ":handleAction"),
                  ("forgetting removed subtrees", INO + ":removeWatchTree")],
     ["FileWatchListener callbacks", "inotify watches"],
     "Decided by probing: after each quiet moment a fresh file is created in every directory of "
     "the machine and every event is judged.")

prop("C04", "Moves between, into and out of watched directories",
     "Moving a file or directory between directories of a native watch is reported as Delete at "
     "the source and Add then Modified at the destination; moving in from outside as Add then "
     "Modified; moving out as Delete; renaming in place as Moved. A directory that moved keeps "
     "being covered under its new path, one that moved out is not covered any more, and events of "
     "other names are unaffected.",
     ["histories", "schedules"],
     "all sequences of moves of files and directories within, between, into and out of watched "
     "trees, with every batching of the two halves of a rename",
     TESTS + "; the two halves of a rename hardly ever reach the reader apart there",
     [INO], [("pairing by cookie", INO + ":run"), ("moved out", INO + ":handleMovedOutside"),
             ("moved in", INO + ":handleAction"), ("re-use of a kernel watch", INO + ":addWatch")],
     ["FileWatchListener callbacks"], "Exact sequences, mirror and probes together.")

prop("C05", "Every event carries the right listener, watch, directory and name",
     "A callback reaches exactly the listener registered for the watch whose tree changed, with "
     "that watch's id, a directory string that is the watched path (with a final slash) extended "
     "by the path inside it, and a file name that is a single component. Several watches and "
     "watchers with equal listeners, equal relative names or paths that are prefixes of each "
     "other never receive each other's events.",
     ["histories", "schedules", "configurations"],
     "all mixes of native and polling watchers and watches over disjoint trees, given as absolute "
     "or relative paths, while the trees change and watches are removed",
     TESTS + "; mostly with one watch",
     [INO, DWG, GEN, FW], [("labels", INO + ":handleAction"), ("labels", DWG + ":handleAction"),
                           ("watch lookup", INO + ":run")],
     ["FileWatchListener callbacks"], "Checked on every callback of every run.")

prop("C06", "After removeWatch returns, that watch is silent and others are unaffected",
     "Once removeWatch has returned on any thread no callback of that watch starts, and none is "
     "still running unless the caller is itself inside it. Other watches keep reporting "
     "everything, and the same directory can be added again and reports again from then on. "
     "Removing what is no watch of the caller (an unknown id or path, or a directory inside a "
     "recursive watch) changes nothing.",
     ["schedules", "histories"],
     "all interleavings of removal by id or path from one or several threads with event delivery, "
     "directory changes and re-adding (no directory being renamed while it is being added)",
     TESTS + "; removal never races with delivery there",
     [INO, GEN, DWG], [("locks around delivery", INO + ":handleAction"),
                       ("removal", INO + ":removeWatchLocked"), ("removal", GEN + ":removeWatch"),
                       ("deferred deletion", GEN + ":deleteWatch")],
     ["FileWatchListener callbacks", "directories()"],
     "Callbacks are stamped with the global sequence number of the simulation.")

prop("C07", "Destroying a watcher is bounded, final and clean",
     "Destroying a watcher at any moment, started or not, busy or idle, returns within two "
     "polling periods plus two seconds, and from then on no callback runs, no thread, file "
     "descriptor, kernel watch or heap block of it remains. Other watchers are unaffected.",
     ["schedules", "crash_points", "histories"],
     "destruction at every point of scanning, waiting, delivering and directory changes, of one "
     "of several native and polling watchers, also while listeners are slow",
     TESTS + "; destruction happens when everything is idle",
     [INO, GEN, FW, CAPI, "src/efsw/Thread.cpp"],
     [("stop flag and join", INO + ":~FileWatcherInotify"),
      ("stop flag and join", GEN + ":~FileWatcherGeneric"), ("C release", CAPI + ":efsw_release")],
     ["threads", "file descriptors", "heap", "callbacks"], "Leaks are found by reachability.")

prop("C08", "The whole API may be used from any threads at the same time",
     "Any calls on the same or different watchers, on any threads, concurrently with event "
     "delivery, finish without data race, use of freed memory, deadlock or exception, including "
     "the error log functions and construction of watchers.",
     ["schedules", "programs"],
     "all concurrent programs over the C++ and C interface, with every interleaving at "
     "synchronisation, system call and shared memory access granularity",
     TESTS + "; a race needs a particular interleaving, and the tests use one user thread",
     [INO, GEN, DWG, LOG, CAPI, "src/efsw/Mutex.cpp", "src/efsw/System.cpp"],
     [("locks", INO + ":mWatchesLock, mRealWatchesLock, mInitLock"), ("lock", GEN + ":mWatchesLock"),
      ("lock", LOG + ":LastErrorMutex"), ("lock", CAPI + ":g_callbacksMutex")],
     ["memory accesses", "lock operations"],
     "Happens-before race detection on every instrumented access under the simulated schedule; "
     "overlapping watches included (memory safety only).")

prop("C09", "A listener may call the watcher it is called from",
     "Inside a callback a listener may add, remove (also its own) and list watches, call watch(), "
     "read and clear the last error and change the watched tree; the calls return without "
     "deadlock, take effect as outside of callbacks, and the arguments of the running callback "
     "stay valid until it returns. The events of all other watches stay complete.",
     ["programs", "schedules"],
     "all choices of re-entrant calls at any callback of any event kind, for native and polling "
     "watchers, with concurrent changes",
     TESTS + "; no listener of the tests calls back",
     [INO, GEN, DWG], [("recursive mutexes", "src/efsw/Mutex.hpp"),
                       ("deferred deletion", INO + ":mDeletedWatches"),
                       ("deferred deletion", GEN + ":deleteWatch"),
                       ("checks of Listener after callbacks", INO + ":handleAction")],
     ["FileWatchListener callbacks"], "")

prop("C10", "addWatch, removeWatch and directories are linearizable",
     "Concurrent addWatch, removeWatch and directories calls on one watcher behave as if executed "
     "one at a time in an order consistent with real time: a directory is registered at most "
     "once, a duplicate add fails with FileRepeated, directories() returns exactly the registered "
     "set, and ids of live watches are distinct and positive.",
     ["schedules", "histories"],
     "all short concurrent histories over one to three directories, native and polling, running "
     "or not yet started, with the trees changing meanwhile",
     TESTS + "; there is no concurrent caller",
     [INO, GEN], [("registry", INO + ":mRealWatches"), ("registry", GEN + ":mWatches"),
                  ("duplicate test", INO + ":pathInWatches")],
     ["return values"], "Histories are checked against a sequential map with a linearizability "
                        "search.")

prop("C11", "addWatch fails cleanly with the right error",
     "addWatch on a path that is missing, not a directory, not readable, already watched, out of "
     "scope or remote returns the documented error code and nothing else changes: directories(), "
     "existing watches, kernel watches, file descriptors and memory stay as they were, the last "
     "error code and text say what happened (and nothing after they were cleared), and the call "
     "succeeds once the cause is gone.",
     ["inputs", "fault_sequences", "histories"],
     "all reasons for refusal, in any order, mixed with successful calls, tree changes and "
     "failing system calls, native and polling, C++ and C",
     "the tests cover single refusals on a quiet watcher, never a failing system call",
     [INO, GEN, FW, LOG, IMPL], [("checks", INO + ":addWatch"), ("checks", GEN + ":addWatch"),
                                 ("last error", LOG + ":createLastError")],
     ["return values", "directories()", "inotify watches", "last error"], "")

prop("C12", "Lost events are announced",
     "When the operating system drops events of a native watcher because its queue overflows, "
     "every live watch of that watcher gets handleMissedFileActions with its own id and "
     "directory, and none otherwise. The watcher carries on: what happens after the loss is "
     "reported as before.",
     ["fault_sequences", "schedules"],
     "overflow at any point, once or repeatedly, with any queue length, slow listeners, several "
     "watches and watchers, also watches added or removed meanwhile",
     "the tests never overflow the kernel queue",
     [INO, CAPI], [("overflow event", INO + ":handleOverflow"),
                   ("C callback", CAPI + ":handleMissedFileActions")],
     ["handleMissedFileActions"], "")

prop("C13", "Without inotify the default watcher falls back to polling",
     "If the native backend cannot be initialised, a default-constructed watcher still works: "
     "it polls at its polling frequency and fulfils what is promised for polling watchers, "
     "leaks nothing, and watchers created later use the native backend again.",
     ["fault_sequences", "schedules"],
     "every failure of the initialisation (EMFILE, ENFILE, ENOMEM, ENOSYS) at every creation, C "
     "and C++",
     "the tests cannot make inotify_init fail",
     [FW, INO, GEN], [("fallback", FW + ":FileWatcher"), ("mInitOK", INO + ":FileWatcherInotify")],
     ["FileWatchListener callbacks"], "")

prop("C14", "Transient system call failures do not lose events or wedge the watcher",
     "Interrupted or momentarily failing waits and reads lose no event. A directory that cannot "
     "be watched, listed or examined because a system call failed costs at most the events of "
     "that directory, never those of others, and a polling watcher converges again once the "
     "failures stop; failing thread creation leaves a watcher that can be started again.",
     ["fault_sequences", "schedules"],
     "all placements of EINTR, EAGAIN, ENOSPC, ENOMEM, EMFILE, EACCES, EIO, ENOENT and delays in "
     "poll, read, inotify_add_watch, inotify_rm_watch, stat, opendir, readdir, statfs and thread "
     "creation",
     "the tests run without failing system calls",
     [INO, GEN, SNAP, FS], [("wait loop", INO + ":run"), ("addWatch errors", INO + ":addWatch"),
                            ("snapshot", SNAP + ":scan")],
     ["FileWatchListener callbacks"], "")

prop("C15", "Polling events mirror the watched tree",
     "Starting from the content at a quiet moment, applying the events of a polling watch in order "
     "yields the regular files and directories of its tree within two polling periods after the "
     "last change, whatever happened between two polls, including removal and reappearance of the "
     "root, file and directory trading places, inode reuse and changes during a scan.",
     ["histories", "schedules", "configurations"],
     "all sequences of changes by several actors between and during polls, all polling "
     "frequencies, slow file systems, recursive and plain watches",
     TESTS + "; with a polling watcher only single changes are tried",
     [GEN, DWG, SNAP, FI], [("snapshot difference", SNAP + ":scan"),
                            ("reporting", DWG + ":watch"), ("new directories", DWG + ":createDirectory"),
                            ("removed directories", DWG + ":removeDirectory"),
                            ("renamed directories", DWG + ":moveDirectory")],
     ["FileWatchListener callbacks"], "")

prop("C16", "A single change is reported exactly by the polling watcher",
     "A single change between two polls is reported by its exact net events: Add, Delete or "
     "Modified of the name, Moved with the old name for a rename in one directory, Delete and Add "
     "otherwise; a new, moved-in or removed directory reports each entry of its content exactly "
     "once, and nothing is reported for names that did not change except Modified of the "
     "directories whose content changed.",
     ["inputs", "histories"],
     "all single changes on all small trees, for recursive and plain watches, with every inode "
     "numbering and directory size behaviour of file systems",
     TESTS + "; a few single changes, and not what must stay silent",
     [SNAP, DWG, FI], [("difference", SNAP + ":scan"), ("rename by inode", SNAP + ":nodeInFiles"),
                       ("content of new directories", DWG + ":addChildren")],
     ["FileWatchListener callbacks"], "")

prop("C17", "Events arrive in bounded time and idle watchers stay cheap",
     "Every reported event arrives within 300 ms (native) or one polling period plus the duration "
     "of a poll (polling) after the change, and an idle watcher makes a bounded number of system calls per second, also when "
     "the wall clock jumps forwards or backwards, timers fire early or late, or the process has "
     "many file descriptors open.",
     ["schedules", "fault_sequences", "configurations"],
     "all polling frequencies, clock jumps at any time, interrupted and early waits, descriptor "
     "numbers beyond FD_SETSIZE",
     "the tests run on the real clock with few descriptors",
     [INO, GEN, SYS], [("wait", INO + ":run"), ("sleep", SYS + ":sleep")],
     ["time of callbacks", "system calls"], "")

prop("C18", "Symbolic links are followed exactly as configured",
     "A symbolic link to a directory inside a recursive watch is descended into only if following "
     "is enabled and the target lies in the link's directory or out of scope links are allowed, "
     "and then its events carry the target's real path; otherwise nothing below it is reported. "
     "A directory that several links, or a link and the watch itself, lead to is reported once, and "
     "links that form a cycle do no harm. Adding a link itself as a watch obeys the same scope rule and reports under the real path.",
     ["inputs", "configurations", "histories"],
     "all placements and targets of links, cyclic ones included, all settings of both options, native and "
     "polling, links present before or created while watching",
     "the tests cover a handful of links with one setting",
     [INO, DWG, GEN, IMPL, "src/efsw/FileSystem.cpp"],
     [("scope rule", IMPL + ":linkAllowed"), ("resolution", "src/efsw/FileSystem.cpp:getLinkRealPath"),
      ("native", INO + ":addWatch"), ("polling", DWG + ":createDirectory")],
     ["FileWatchListener callbacks", "return values"], "")

prop("C19", "Synthetic events close the gap of new directories",
     "With synthetic events enabled on a recursive native watch, every file and directory that "
     "exists under the root at a quiet moment has been reported by an Add (or Moved) since it "
     "appeared, however quickly new directory trees were filled; without the option no Add is "
     "reported for an entry that the system did not announce.",
     ["schedules", "histories"],
     "all interleavings of building directory trees with the watcher's scan of them",
     TESTS + "; the window between mkdir and the scan is not controlled",
     [INO], [("synthetic Add events", INO + ":addWatch")], ["FileWatchListener callbacks"], "")

prop("C20", "The C interface behaves like the C++ one",
     "Through the C functions every event reaches exactly the function, parameter and watcher "
     "handle it was registered with, options and missed-event callbacks included, strings stay "
     "valid during the callback, setters and getters agree, error results and the last error equal "
     "those of the C++ interface, and releasing a watcher frees its callbacks but not those of "
     "others, even if a new watcher gets the same address.",
     ["programs", "schedules", "inputs"],
     "all programs over the C interface with several watchers created and released in any order, "
     "shared functions and parameters, concurrently with events",
     "the C tests use one watcher and never release one while others run",
     [CAPI], [("callback table", CAPI + ":g_callbacks"), ("release", CAPI + ":efsw_release"),
              ("forwarding", CAPI + ":handleFileAction")],
     ["C callbacks", "return values"], "")

prop("C21", "Resources do not accumulate",
     "However often directories come and go and watches are added and removed, at a quiet moment "
     "the kernel watches equal the covered directories, file descriptors stay constant and live "
     "heap memory returns to its former level. (The registration of a C callback, one for each "
     "function and parameter, lives until its watcher is released.)",
     ["histories", "fault_sequences"],
     "all repeated cycles of adding, removing, creating, moving and deleting, with failures in "
     "between",
     "the tests do not measure resources",
     [INO, GEN, DWG, SNAP, FS], [("deferred deletion", INO + ":run"),
                                 ("forgetting subtrees", INO + ":removeWatchTree"),
                                 ("closedir", FS + ":filesInfoFromPath")],
     ["inotify watches", "file descriptors", "heap"], "")

prop("C22", "Remote directories are refused and the working directory is preserved",
     "A native watcher refuses a directory on a remote file system with FileRemote and skips "
     "remote subdirectories while covering their siblings; a polling watcher accepts a remote "
     "root. FUSE mounts of block devices count as local. No call and no event ever changes the "
     "working directory of the process, not even for a moment or when system calls fail.",
     ["configurations", "fault_sequences"],
     "all placements of file systems and mounts, failing stat, chdir, getcwd, statfs and mount "
     "table reads",
     "the tests have no remote file system",
     [FS, FW, INO], [("magic numbers", FS + ":isRemoteFS"), ("mount point", FS + ":findMountPoint"),
                     ("mount table", FS + ":findDevicePath")],
     ["return values", "working directory"], "")

prop("C23", "Watching starts with watch(), loses nothing before it, and starts once",
     "No callback runs before watch() is called. Changes made after addWatch returned are "
     "reported even if watch() is called later, and calling watch() again, from any thread and "
     "after a failed attempt, neither duplicates events nor starts a second thread.",
     ["schedules", "programs"],
     "all orders and interleavings of addWatch, changes and repeated watch() calls, native and "
     "polling",
     TESTS + "; watch() is called once, at a fixed point",
     [INO, GEN], [("start", INO + ":watch"), ("start", GEN + ":watch"),
                  ("initial snapshot", WG + ":WatcherGeneric")],
     ["FileWatchListener callbacks", "threads"], "")

prop("C24", "A watched root that disappears does no harm and can be watched again",
     "When the root of a watch is removed, renamed or replaced, what was deleted inside is "
     "reported, other watches keep working, and removeWatch followed by addWatch on the path "
     "(once it exists again) covers the new directory completely, with a new id. (While "
     "a watch of the same watcher still follows that directory under a former name the answer is "
     "FileRepeated.)",
     ["histories", "schedules"],
     "all interleavings of removing, renaming and recreating roots with delivery and with "
     "removeWatch and addWatch",
     TESTS + "; roots stay in place",
     [INO, GEN, DWG, SNAP], [("stale watches", INO + ":addWatch"), ("removal", INO + ":removeWatchLocked"),
                             ("missing root", SNAP + ":scan")],
     ["FileWatchListener callbacks", "return values"], "")


def main():
    built = sys.argv[1].split(",") if len(sys.argv) > 1 else []
    if not built:
        import subprocess
        built = subprocess.run([os.path.join(HERE, "build", "sim"), "list"],
                               stdout=subprocess.PIPE).stdout.decode().split()
    props = [p for p in P if p["id"] in built]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks = []
    for p in props:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 run.py check %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check %s" % p["id"],
            "technique": "deterministic simulation with fault injection: the real library under a "
                         "seeded scheduler, simulated Linux kernel, clock and allocator",
            "level": "exploration",
            "level_note": "Seeded search, not proof. " + (p["note"] + " " if p["note"] else "") +
                          "Trusts the simulated kernel (cross-checked against the real one by "
                          "sim/conform) and sequentially consistent memory.",
        })
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo: the seam is the C and C++ library symbol level, see DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
