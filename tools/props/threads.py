BUILDS = {"lib_recog": dict(hot=("clink_lib", "clink_core"), cflags=("-fno-threadsafe-statics",), wrap=["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_create", "pthread_join", "pthread_detach"], link=("-Wl,--allow-multiple-definition",))}
PROPS = [
dict(id="R01", title="Commands are colored by what they are, however the lookup thread runs",
    statement="Whether a command of the input line is executable is looked up on a background thread. However that thread and the input interleave, an answer that is given as known is always true for the current directory and the path, with the file that would run, and once nothing happens any more every command of the line is known. Input is never stuck, and refreshing the line ends.",
    over=["schedules", "histories"], forall="Every history of up to 2 lines of up to 3 commands each, and of 3 lines of 1 command each (5 commands: in one directory, in another, in both, in the path, nowhere), edited further or ended, with 0 to 2 events handled in between and with or without a change of directory, under every schedule of both threads with up to 3 preemptions or timeouts for one line, 2 for two commands in all (3) and 1 for more (2); also with the lookup awaited.",
    technique="stateless model checking: exhaustive enumeration of schedules up to a preemption bound on the real code under a controlled scheduler", level="exploration",
    level_note="Real recognizer and thread function; threads are fibers, with mutexes, events, timed waits and file lookups as scheduling points; the file system and the input loop are stand-ins.",
    why="The tests have no second thread; what is wrong shows only when the lookup ends between two particular steps of the input loop.",
    files=["clink/lib/src/recognizer.cpp"],
    mechanism=[("queue and thread", "clink/lib/src/recognizer.cpp recognizer::proc"), ("cache that goes out of date", "clink/lib/src/recognizer.cpp recognizer::clear"), ("waiting at the end of a line", "clink/lib/src/recognizer.cpp recognizer::end_line")],
    runs=[dict(harness="lib_recog", args=["--mode", m]) for m in ("lines", "now")],
    counts={"evaluations": "schedules", "transitions": "steps", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one history under one schedule; nontrivial: the schedule has a preemption.", at_least={"schedules": 200000}),
dict(id="R02", title="The file a command name stands for is the one that CMD would run",
    statement="A command word, with whatever quotes, carets, environment variables, directory or extension, is found executable exactly when a file of that name exists in its directory, or in the first of the current directory and the directories of PATH that has one, with its own extension or the first one of PATHEXT that exists there, and the file given is that one. Otherwise it is found unrecognized. Asking again gives the same answer.",
    over=["inputs", "configurations"], forall="25 command words with 5 values of PATH, 4 of PATHEXT and every set of up to 2 of 45 existing files, directories included.",
    technique="exhaustive enumeration of words, search paths and file systems on the real code with a modelled file system, against an independent lookup", level="exploration",
    level_note="Real recognizer and its thread function; the file system is a stand-in. PATH entries in quotes, remote drives and drive-relative names are left out.",
    why="The tests have no commands to look up; which file is found depends on the word, PATH, PATHEXT and all the files together.",
    files=["clink/lib/src/recognizer.cpp"],
    mechanism=[("search along PATH", "clink/lib/src/recognizer.cpp search_for_executable"), ("extensions", "clink/lib/src/recognizer.cpp search_for_extension")],
    runs=[dict(harness="lib_recog", args=["--mode", "find"])],
    counts={"evaluations": "schedules", "transitions": "answers", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one word looked up in one configuration; nontrivial: a file is found.", at_least={"schedules": 100000}),
]
