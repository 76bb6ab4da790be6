BUILDS = {
    "app_queue": dict(hot=("clink_app", "clink_core", "clink_lib"), link=("-Wl,--allow-multiple-definition",), cflags=("-fno-access-control", "-fno-threadsafe-statics")),
    "app_autorun": dict(hot=("clink_app", "clink_core"), link=("-Wl,--allow-multiple-definition",)),
}
PROPS = [
dict(id="G01", title="Installing and uninstalling autorun leaves other programs' commands alone",
    statement="After 'clink autorun install' cmd.exe's AutoRun value ends with exactly one command that starts this clink with exactly the given arguments; after 'uninstall' it has none. The other commands in the value stay as they are, in order and joined as before, whatever they are and however clink's command is written, and no other value and no other user's value is touched; uninstalling from all users only takes out this installation's commands. Without access nothing is changed and an error is reported.",
    over=["inputs", "histories"], forall="Every value of up to 3 (4) commands out of 4 others and 7 ways to write clink's, joined by & or && with 4 ways of spacing, with every sequence of up to 2 (3) of 5 verbs, for the current user or all users, with and without access; every argument of up to 5 (6) characters out of 7, and every length up to 4000; every combination of 8 values of 3 users.",
    technique="exhaustive enumeration of values and verb sequences on the real code with a stand-in registry, against a reference model", level="exploration",
    level_note="Real autorun verb with its argument parsing; the registry is a stand-in.",
    why="No test covers autorun; what goes wrong depends on how the value is put together, and then loses other programs' commands.",
    files=["clink/app/src/loader/autorun.cpp"],
    mechanism=[("extent of clink's entry", "clink/app/src/loader/autorun.cpp find_clink_entry"), ("removing it", "clink/app/src/loader/autorun.cpp uninstall_autorun_from_key"), ("appending it", "clink/app/src/loader/autorun.cpp install_autorun")],
    runs=[dict(harness="app_autorun", args=["--mode", m]) for m in ("edit", "args", "users")],
    counts={"evaluations": "evaluations", "transitions": "runs", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one sequence of verbs on one value (or one list of arguments, or one combination of users); nontrivial: at least two commands or arguments.", at_least={"evaluations": 700000}),
dict(id="Q01", title="CMD is given exactly the commands entered, in order, each once",
    statement="Each time CMD prompts for a command it is given the next command the user entered: lines that make several commands (through an alias with $T, a paste of several lines, a directory shortcut or onfilterinput) are handed out one after the other, in order, each exactly once, with aliases and shortcuts expanded, and the rest of a pasted line goes on to be edited. Questions and programs that read input in between get what is meant for them and never lose, reorder or consume a queued command, and 'More?' continues the command. The history ends up with exactly the lines that were entered at a prompt, as they were entered, and cmd.get_errorlevel's extra command is invisible and gives each command's own exit code.",
    over=["inputs", "histories"], forall="Every sequence of up to 6 (7) requests by CMD (command prompt, More?, a question read by characters, set /p with and without text) with up to 2 (3) of the user's 33 ways to enter lines (typed, aliased, pasted with and without a partial last line, directory shortcuts, cd -, !!, Lua filters, excluded commands) among them; with and without cmd.get_errorlevel.",
    technique="exhaustive enumeration of request and entry sequences on the real code against a reference model of CMD and of the queue", level="exploration",
    level_note="The real ReadConsoleW hook with its editor, Lua, aliases, queue and history; CMD, keyboard and screen are models.",
    why="No test covers the hook; what is lost or reordered depends on what CMD asks for while lines are still queued.",
    files=["clink/app/src/host/host_cmd.cpp", "clink/app/src/host/host.cpp", "clink/lib/src/line_queue.cpp"],
    mechanism=[("what each kind of prompt gets", "clink/app/src/host/host_cmd.cpp host_cmd::read_console"), ("queueing and dequeuing", "clink/lib/src/line_queue.cpp"), ("filters and shortcuts", "clink/app/src/host/host.cpp host::edit_line")],
    runs=[dict(harness="app_queue", args=["--mode", m]) for m in ("queue", "errorlevel")],
    counts={"evaluations": "evaluations", "transitions": "runs", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one sequence of requests and entries; nontrivial: at least one line was queued.", at_least={"evaluations": 75000}),
]
