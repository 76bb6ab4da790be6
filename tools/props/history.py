LINK = ["-Wl,--allow-multiple-definition"]
HOT = ("clink_lib", "clink_core", "readline")
BUILDS = {
    "hist_model": dict(hot=HOT, link=LINK, srcs=["memfs.cpp"]),
    "hist_sched": dict(hot=HOT, link=LINK, srcs=["memfs.cpp"]),
}
FS = "The file system under the sessions is an in-memory stand-in for the Win32 file calls (memfs.cpp): byte-exact files, share modes, whole-file locks, delete-on-close; a write is atomic per call."
PROPS = [
dict(
    id="H01", title="History operations behave like one ordered list per session",
    statement="For every sequence of adding, removing, clearing, loading, pruning and compacting that sessions perform on a history, and of sessions starting, ending or dying, each session sees exactly the lines (with their timestamps) that a plain ordered list would hold: nothing lost, repeated, resurrected, reordered or attributed to another line. Removing by position removes the line that the position showed, or nothing.",
    over=["histories", "configurations"],
    forall="All sequences up to the depth bound of operations of two sessions (shared, separate, mixed; the three duplicate modes; with a fresh, an untagged, an overfull and a large, mostly deleted history file), over an alphabet of colliding lines.",
    why="The unit tests replay some twenty fixed sequences, mostly of one session; the failures found here need particular combinations (prune then remove by position, clear by one session then remove by another).",
    files=["clink/lib/src/history_db.cpp", "clink/lib/src/history_timeformatter.cpp"],
    mechanism=[("bank handles, removals file and concurrency tag", "clink/lib/src/history_db.cpp"), ("index map from list positions to line ids", "clink/lib/src/history_db.cpp history_db::load_internal")],
    technique="explicit-state breadth-first search over operation sequences, executing the real code, against a reference model",
    level="model_checking",
    level_note="Every transition of the reference model is executed on the real history code and everything observable is compared; bounded by depth, two sessions and a small alphabet. " + FS,
    runs=[dict(harness="hist_model", shards=8)],
    counts={"states": "states", "transitions": "transitions", "traces_validated_against_impl": "finished"},
    at_least={"transitions": 10000},
    assumptions=[FS, "States are merged when the model, all files (tags renamed) and loaded positions agree (64-bit hash)."]),
dict(
    id="H02", title="Concurrent sessions never corrupt or lose history",
    statement="When two sessions use the same history at the same time, then whatever the order in which their file accesses interleave, the result is one that the operations' individual steps give in some order: every line that was added and not removed is there exactly once, and no session waits forever.",
    over=["schedules", "configurations"],
    forall="All interleavings, up to a preemption bound, of the file-system calls of every pair of operations (add, remove, clear, compact, load and prune, remove by position, start, end) from several starting states and all modes.",
    why="Unit tests run sessions one after another; the losses found here need one session to be between two particular file-system calls of another.",
    files=["clink/lib/src/history_db.cpp"],
    mechanism=[("whole-file locks on the bank files", "clink/lib/src/history_db.cpp bank_lock"), ("reaping of sessions that ended", "clink/lib/src/history_db.cpp history_db::reap")],
    technique="stateless exploration of all interleavings of file-system calls up to a preemption bound, outcomes checked against a micro-step model",
    level="model_checking",
    level_note="Real code on fibers under a controlled scheduler; the set of allowed outcomes comes from exhaustively exploring a micro-step model, and every schedule's outcome is checked for membership. " + FS,
    runs=[dict(harness="hist_sched", args=["--mode", "sched"], shards=8)],
    counts={"states": "model_states", "transitions": "model_transitions", "traces_validated_against_impl": "schedules"},
    at_least={"schedules": 10000},
    assumptions=[FS, "Scheduling points are the file-system calls: sessions are separate processes and share nothing else.", "Preemption bound 2 (3 in the thorough tier)."]),
dict(
    id="H03", title="A session that dies mid-operation damages no history",
    statement="If a session's process ends between any two file accesses of any history operation, every other and every later session works normally and sees what some prefix of that operation's steps leaves: no other line is lost, changed or joined to another.",
    over=["crash_points", "histories", "configurations"],
    forall="Every file-system call of every operation (add, remove, clear, compact, prune, remove by position, start, end) from several starting states and all modes, followed by operations of the surviving session.",
    why="No test ends a session in the middle of an operation.",
    files=["clink/lib/src/history_db.cpp"],
    mechanism=[("delete-on-close alive file and reaping", "clink/lib/src/history_db.cpp history_db::reap"), ("deleted lines are marked in place", "clink/lib/src/history_db.cpp write_lock::remove")],
    technique="exhaustive enumeration of crash points of the real code over an in-memory file system, outcomes checked against a micro-step model",
    level="model_checking",
    level_note="Every file-system call of each operation is a crash point; what survives is checked for membership in the model's prefix outcomes. Process death only: what was written stays written. Compaction rewrites the file in place and is a recorded finding. " + FS,
    runs=[dict(harness="hist_sched", args=["--mode", "crash"], shards=8)],
    counts={"states": "model_states", "transitions": "model_transitions", "traces_validated_against_impl": "crashes"},
    at_least={"crashes": 1000},
    assumptions=[FS, "A crash of the process, not of the machine: completed writes are not lost or torn."]),
]
