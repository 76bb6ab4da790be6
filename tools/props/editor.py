BUILDS = {"ed_history": dict(hot=("lua", "clink_lua", "clink_lib", "clink_core"), cflags=("-fno-access-control",), link=("-Wl,--allow-multiple-definition",)), "ed_keys": dict(hot=("lua", "clink_lua", "clink_lib", "clink_core"), cflags=("-fno-access-control",), link=("-Wl,--allow-multiple-definition",)), "ed_suggest": dict(hot=("lua", "clink_lua", "clink_lib", "clink_core"), cflags=("-fno-access-control",), link=("-Wl,--allow-multiple-definition",)), "ed_complete": dict(hot=("lua", "clink_lua", "clink_lib", "clink_core"), cflags=("-fno-access-control",), link=("-Wl,--allow-multiple-definition",)), "lib_expand": dict(hot=("clink_lib", "clink_core"), link=("-Wl,--allow-multiple-definition",)), "lib_shortcut": dict(hot=("clink_lib", "clink_core"), link=("-Wl,--allow-multiple-definition",)), "app_complete": dict(hot=("lua", "clink_lua", "clink_lib", "clink_core"), cflags=("-fno-access-control",), link=("-Wl,--allow-multiple-definition",)), "lua_args": dict(hot=("lua", "clink_lua", "clink_lib", "clink_core"), cflags=("-fno-access-control",), link=("-Wl,--allow-multiple-definition",)), "term_keys": dict(hot=("clink_terminal", "clink_core"), link=("-Wl,--allow-multiple-definition",)), "lib_matches": dict(hot=("clink_lib", "clink_core"), link=("-Wl,--allow-multiple-definition",)), "lib_words": dict(hot=("clink_lib", "clink_core"), link=("-Wl,--allow-multiple-definition",)), "lib_history": dict(hot=("clink_lib", "clink_core", "readline"), link=("-Wl,--allow-multiple-definition",)), "lib_listing": dict(hot=("clink_lib", "clink_terminal", "clink_core", "readline"), cflags=("-fno-access-control",), link=("-Wl,--allow-multiple-definition",)), "lib_bind": dict(hot=("clink_lib",)), "lib_display": dict(hot=("clink_lib", "clink_terminal", "clink_core", "readline"), link=("-Wl,--allow-multiple-definition",))}
PROPS = [
dict(id="B01", title="Key sequences resolve to the longest bound chord",
    statement="Keys are held back only while they are the start of a longer bound chord. Then the longest bound chord that the keys start with is proposed first, then shorter ones, in binding order, and the catch-all last, each with exactly its own keys and numeric parameters; a handler can claim it, pass it on or switch the binding group, and the remaining keys resolve the same way.",
    over=["inputs", "histories"], forall="Every list of up to 3 (one group) and up to 4 (two groups) chords of up to 3 keys, with every key stream of 4 (5) keys and every sequence of handler decisions; every set of up to 4 of 8 chords with numeric parameters with 20000 (100000) streams; every chord text of up to 6 (7) characters of the notation.",
    technique="exhaustive enumeration of bindings, key streams and handler decisions on the real code, against a reference model", level="exploration",
    level_note="Real binder and resolver; chords of up to 15 keys; the handlers are enumerated decisions.",
    why="The tests resolve one chord at a time, without competing chords, leftover keys or group changes.",
    files=["clink/lib/src/binder.cpp", "clink/lib/src/bind_resolver.cpp", "clink/lib/src/input_params.cpp"],
    mechanism=[("trie of keys with sibling links", "clink/lib/src/binder.cpp"), ("walking back to shorter chords", "clink/lib/src/bind_resolver.cpp next"), ("chord notation", "clink/lib/src/binder.cpp translate_chord")],
    runs=[dict(harness="lib_bind", args=["--mode", m]) for m in ("plain", "params", "chord")],
    counts={"evaluations": "evaluations", "transitions": "proposals", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one stream with one sequence of decisions (or one chord text); nontrivial: at least two proposals (or a chord of at least two keys).", at_least={"evaluations": 1000000}),
dict(id="D01", title="The screen shows exactly the prompt, the input line and the cursor",
    statement="After every update the terminal shows the prompt and the input line laid out from scratch for the terminal's width, with colors, control characters, wide characters, line breaks, right side prompt, modified mark, scroll markers and the hint or history expansion preview below it in place, and the cursor at the insertion point, whatever was shown before. Nothing stale or extra remains, also when the input line wraps, scrolls vertically or horizontally, or fills the terminal. Enter leaves what is shown intact and starts the next output below it.",
    over=["inputs", "histories"], forall="Every pair of contents of a bounded alphabet and length (with blanks, wide and combining characters, emoji, control characters, line breaks, faces, a marked region) with every cursor position of interest, triples of shorter ones, and every sequence of up to 3 cursor moves, insertions, deletions and kills in long lines, in 5 to 8 geometries per mode; every sequence of up to 3 (4) contents, hints, delayed hints, expansion previews, modified marks and Enter.",
    technique="exhaustive enumeration of display histories of the real display code on a terminal model, against an independent layout", level="exploration",
    level_note="Real display code, readline and printer; the terminal is a model (deferred wrap, as in Windows 10 and later), 4 to 14 columns wide.",
    why="The tests check a few outputs of a line that is typed at its end; the incremental update depends on the pair of old and new contents, the geometry and the prompt.",
    files=["clink/lib/src/display_readline.cpp"],
    mechanism=[("incremental update of a row", "clink/lib/src/display_readline.cpp update_line"), ("layout", "clink/lib/src/display_readline.cpp display_lines"), ("deferred wrap", "clink/lib/src/display_readline.cpp finish_pending_wrap")],
    runs=[dict(harness="lib_display", args=["--mode", m]) for m in ("pairs", "wide", "faces", "scroll", "horz", "end", "hints")],
    counts={"evaluations": "evaluations", "transitions": "displays", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one sequence of contents displayed and compared; nontrivial: it changes what is displayed.", at_least={"evaluations": 1000000}),
dict(id="D02", title="Replacing the prompt while editing leaves exactly the new prompt and line",
    statement="When an asynchronous prompt filter or a transient prompt replaces the prompt during editing, the terminal afterwards shows the new prompt with its right side prompt and the unchanged input line exactly as if they had been displayed there from the start. Nothing of the old prompt remains, whatever the numbers of rows of both prompts, whether they wrap, and wherever the input line is scrolled; the rows above the prompt stay untouched.",
    over=["inputs", "histories"], forall="Every sequence of up to 3 steps (quick) or 4 (thorough), each replacing the prompt (one, several or blank rows, wrapped, exactly full; three right side prompts) or the input line (empty, wrapped, multiple rows, scrolled; cursor at either end), optionally followed by a transient prompt, also with a hint shown, in 2 or 3 geometries.",
    technique="exhaustive enumeration of prompt replacement histories of the real display code on a terminal model, against an independent layout", level="exploration",
    level_note="Real rl_module::set_prompt, display code and readline; the terminal is a model (deferred wrap).",
    why="No test replaces a prompt; the result depends on the shapes of both prompts and on where the cursor is.",
    files=["clink/lib/src/rl/rl_module.cpp", "clink/lib/src/display_readline.cpp"],
    mechanism=[("replacing the prompt", "clink/lib/src/rl/rl_module.cpp rl_module::set_prompt"), ("defer erasing the old rows", "clink/lib/src/display_readline.cpp defer_clear_lines")],
    runs=[dict(harness="lib_display", args=["--mode", "prompt"])],
    counts={"evaluations": "evaluations", "transitions": "displays", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one sequence of prompts and contents displayed and compared.", at_least={"evaluations": 100000}),
dict(id="D03", title="A mouse click puts the cursor on the character under it",
    statement="Clicking on any cell of the displayed input line gives the position in the line of the character shown there, for wide characters, control characters, line breaks, wrapped prompts and lines scrolled vertically or horizontally. Clicking right of a row's text gives the end of that row, and the position is always within the line and never inside a character.",
    over=["inputs"], forall="Every cell of the input line in every display of a bounded set of contents, cursors and geometries, also after each of a set of earlier displays that leave the line scrolled.",
    technique="exhaustive enumeration of clicked cells over display states of the real display code, against the owner map of an independent layout", level="exploration",
    level_note="Real translate_xy_to_readline and display code with the console's cursor position supplied by the terminal model.",
    why="No test clicks; the mapping depends on wrapping, widths, scroll offsets and the prompt.",
    files=["clink/lib/src/display_readline.cpp", "clink/lib/src/rl/rl_module.cpp"],
    mechanism=[("cell to position", "clink/lib/src/display_readline.cpp translate_xy_to_readline")],
    runs=[dict(harness="lib_display", args=["--mode", "click"])],
    counts={"evaluations": "clicks", "transitions": "displays", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one cell clicked in one displayed state.", at_least={"clicks": 1000000}),
dict(id="D04", title="Listing matches shows each match once, in order, in aligned columns",
    statement="When matches are listed, every match appears exactly once and in order (down the columns, or across with completions horizontal), with its directory mark, shortened prefix and description, below the input line, and the prompt follows below. The columns line up, are separated, and none crosses the edge of the terminal; only matches longer than the terminal go on in the next row. Descriptions are shown with their match, shortened with an ellipsis only where they don't fit.",
    over=["inputs"], forall="Every list of up to 19 (40) matches whose widths follow one of 125 patterns of five widths, plain, with a common prefix, with wide characters and with directories, or with one of 8 patterns of descriptions; across and down, fitted or equal columns, condensed or not, in terminals 8 to 60 columns wide.",
    technique="exhaustive enumeration of match lists and terminal widths on the real display code, against what a terminal model shows", level="exploration",
    level_note="Real display_matches, calculate_columns and rl_module; the pager and its prompt are turned off.",
    why="No test lists matches on a terminal; the layout depends on the number, the widths, the descriptions and the terminal together.",
    files=["clink/lib/src/display_matches.cpp", "clink/lib/src/column_widths.cpp", "clink/lib/src/match_adapter.cpp"],
    mechanism=[("columns", "clink/lib/src/column_widths.cpp calculate_columns"), ("rows and padding", "clink/lib/src/display_matches.cpp display_match_list_internal")],
    runs=[dict(harness="lib_listing", args=["--mode", m]) for m in ("names", "described")],
    counts={"evaluations": "evaluations", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one list shown on one terminal; nontrivial: it has several columns.", at_least={"evaluations": 500000}),
dict(id="W01", title="Command lines are split into the commands and words that CMD sees",
    statement="A command line is split at unquoted, unescaped &, &&, | and || into commands, and each command into its words, with redirections and their file names recognised wherever they stand, internal commands separated from a following slash or backslash, parentheses and @ skipped, rem lines kept whole, and doskey aliases recognised where they apply. Every word has its exact place, and is rightly marked as quoted, redirection, alias or first word. For completion the words depend only on the text before the cursor, and the last word ends at the cursor.",
    over=["inputs"], forall="Every command line of up to 4 (5) pieces of a grammar of 44 pieces (command words, arguments with quotes, carets, delimiters and flags, redirections, separators), with three kinds of blanks, with and without enhanced doskey, in parentheses or after @, with every cursor position; every internal command with every delimiter; every text of up to 5 (6) characters of a 12-character alphabet for the general rules.",
    technique="exhaustive enumeration of the derivations of a grammar whose words are known by construction, on the real code", level="exploration",
    level_note="Real tokenisers and collector; the console's alias table is a stand-in with two aliases.",
    why="The tests list some 60 lines; what a word is depends on how redirections, quotes, carets, separators and blanks combine.",
    files=["clink/lib/src/cmd_tokenisers.cpp", "clink/lib/src/word_collector.cpp", "clink/lib/src/line_state.cpp", "clink/lib/src/alias_cache.cpp"],
    mechanism=[("state machine of redirections and separators", "clink/lib/src/cmd_tokenisers.cpp c_transition"), ("words and quotes", "clink/lib/src/word_collector.cpp collect_words")],
    runs=[dict(harness="lib_words", args=["--mode", m]) for m in ("grammar", "texts")],
    counts={"evaluations": "evaluations", "transitions": "collected", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one line split in both modes; nontrivial: at least two words.", at_least={"evaluations": 1000000}),
dict(id="M01", title="Completion offers exactly the candidates that match, each once, in order",
    statement="However many candidates the generators give, in whatever order and with whatever types, each one that matches what was typed (prefix, or pattern if wildcards are enabled, or substring if enabled and nothing else matches) and is not hidden by the settings is offered exactly once, and nothing else is; directories end with a path separator and slashes are as configured. The order is the given one if sorting is off, and a consistent sort order with directories where configured otherwise. This stays so when the selection is narrowed and widened, restricted, copied or handed over from the background, and the common prefix is the longest one of everything offered.",
    over=["inputs", "histories"], forall="Every list of up to 3 (4) of 28 candidates in 5 slash modes with 3 typed separators; every list of up to 2 or 3 (3 or 4) with 23 needles in 64 configurations, 3 ways of ignoring case and 3 places for directories; every sequence of up to 4 (5) of 16 operations; all triples of 162 candidates for the sort order; 65534 to 131072 candidates.",
    technique="exhaustive enumeration of candidate lists, needles, configurations and operation sequences on the real code, against a specification", level="exploration",
    level_note="Real match store, pipeline and iterator; the file system is a stand-in with three directories and two files; collation is the system's.",
    why="The tests complete a few file trees; duplicates, late types, sort ties and repeated selections depend on the combination of candidates.",
    files=["clink/lib/src/matches_impl.cpp", "clink/lib/src/match_pipeline.cpp", "clink/lib/src/slash_translation.cpp", "clink/core/include/core/str_compare.h"],
    mechanism=[("dedup and late types", "clink/lib/src/matches_impl.cpp add_match, done_building"), ("selection and sorting", "clink/lib/src/match_pipeline.cpp"), ("compaction", "clink/lib/src/matches_impl.cpp coalesce")],
    runs=[dict(harness="lib_matches", args=["--mode", m]) for m in ("build", "select", "seq", "order", "many")],
    counts={"evaluations": "evaluations", "transitions": "operations", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one list of candidates with one needle or one sequence of operations; nontrivial: several candidates, of which the needle selects some but not all.", at_least={"evaluations": 10000000}),
dict(id="K01", title="Every key, character and click typed reaches the editor once, in order",
    statement="Everything typed, pasted or clicked in the console reaches the editor as exactly its bytes, once and in order, however often and in whatever order input is looked for, peeked at and read meanwhile, also when the window is resized or the terminal is asked a question meanwhile; the terminal's response is never taken for input. Surrogate pairs become one UTF-8 character, key releases and unbound keys give nothing. Every key with every modifier has its own sequence, except the documented equivalences, no sequence is the beginning of another, and its name gives that key.",
    over=["inputs", "schedules"], forall="Every sequence of up to 3 (of 10 to 15 of them up to 4 or 5) of 25 console events with every pattern of available(), peek() and read() in the first 1 to 5 steps; every split of up to 3 (4) of 18 events around 4 requests to the terminal that are answered (with or without key releases) or not, with 8 states before; every sequence of up to 4 (5) of 17 mouse and key events; every key of a US keyboard with every modifier in 8 configurations.",
    technique="exhaustive enumeration of console input sequences interleaved with every pattern of reader operations on the real code, against the bytes each event stands for", level="exploration",
    level_note="Real win_terminal_in, key tables and name tables; the console APIs are stand-ins, including the terminal's responses.",
    why="The tests bypass the console; what is lost or doubled depends on when input is looked for while a surrogate, click, resize or response is half way in.",
    files=["clink/terminal/src/win_terminal_in.cpp", "clink/terminal/src/ecma48_iter.cpp"],
    mechanism=[("peek, discard or keep each record", "clink/terminal/src/win_terminal_in.cpp read_console, peek_record"), ("requests and the records of their responses", "clink/terminal/src/win_terminal_in.cpp send_terminal_request"), ("key tables", "clink/terminal/src/win_terminal_in.cpp get_keytable, find_key_name")],
    runs=[dict(harness="term_keys", args=["--mode", m]) for m in ("text", "request", "mouse", "keys")],
    counts={"evaluations": "evaluations", "transitions": "reads", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one sequence of events with one pattern of reader operations, or one key with modifiers; nontrivial: at least two bytes arrive.", at_least={"evaluations": 1500000}),
dict(id="A01", title="Argument completion and coloring follow the argmatcher's definition",
    statement="At every point of a command line an argmatcher offers exactly the words its definition gives for that position: the slot's words, the flags, the linked argmatcher's, files, or nothing; and every typed word is colored as the definition says. That holds whatever way the definition is built (order of calls, nesting, delayed, merged, hidden, unsorted), for flags anywhere, after loops and the end of flags. Redirections, quotes, blanks, doskey aliases, chained commands, and callbacks that expand, skip, repeat or link do not change what the same words mean.",
    over=["inputs"], forall="1518 definitions of up to two slots and two flags with linked argmatchers of 10 kinds and 6 options (thorough: further levels of links), built in 19 ways, with every line of up to 2 (3) words of their vocabulary and unknown words, then nothing or a flag's start; the same lines in 13 other spellings or reached through aliases, chaining and callbacks; every sequence of up to 2 (3) of 20 flags with attached values and arguments with 15 to 19 unfinished words.",
    technique="exhaustive enumeration of definitions and command lines through the real line editor, Lua engine and scripts, against a reference model", level="exploration",
    level_note="Real line_editor_impl, Lua scripts of the library and match pipeline; the console, the file system and the alias table are stand-ins, commands are not looked up.",
    why="The tests complete a few dozen lines; what a word means depends on how links, flags, loops and pops combine with every spelling.",
    files=["clink/lua/scripts/arguments.lua", "clink/lua/scripts/generator.lua", "clink/lua/src/lua_match_generator.cpp", "clink/lua/src/lua_word_classifier.cpp", "clink/lib/src/line_editor_impl.cpp"],
    mechanism=[("reader of the words", "clink/lua/scripts/arguments.lua _argreader"), ("definition", "clink/lua/scripts/arguments.lua _argmatcher"), ("words and matches of the editor", "clink/lib/src/line_editor_impl.cpp update_matches")],
    runs=[dict(harness="lua_args", args=["--mode", m]) for m in ("tree", "build", "ways", "parts")],
    counts={"evaluations": "evaluations", "states": "argmatchers", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one command line completed (and classified); nontrivial: at least two words are offered.", at_least={"evaluations": 500000}),
dict(id="N01", title="Completion offers exactly the commands, files and variables that apply",
    statement="Where a command is typed, completion offers exactly what the exec settings say can run there: programs of PATH or of the directory typed, with the extensions of PATHEXT, CMD's commands, aliases, and the current directory's files and directories; after a leading space only files when exec.space_prefix says so. For arguments it offers the files and directories that the word's beginning selects (only directories for cd and the like), seen from the directory that a preceding cd or pushd in the line leads to, hidden and system ones as set. After a percent sign that begins a variable it offers exactly the environment variables, and completing changes neither the current directory nor anything else.",
    over=["inputs", "configurations"], forall="376 (4096) configurations of ten exec and files settings and four values of PATH and PATHEXT with 16 leads to a command, and 16 (32) with 18 leads to an argument, each with 39 beginnings of a word, quoted and not; 180 contexts of a percent sign with 11 beginnings of a name.",
    technique="exhaustive enumeration of settings, environments and command lines through the real line editor, Lua engine and the app's scripts, against a reference over the same virtual file system", level="exploration",
    level_note="Real line_editor_impl, Lua scripts exec, dir, env and set, path and match code; the file system, environment, alias table and console are stand-ins.",
    why="The tests complete a handful of commands in one configuration; what is offered depends on the settings, PATH, PATHEXT, the directory before the word, quotes and preceding commands together.",
    files=["clink/app/scripts/exec.lua", "clink/app/scripts/dir.lua", "clink/app/scripts/env.lua", "clink/app/scripts/set.lua", "clink/lua/scripts/generator.lua", "clink/lua/src/os_api.cpp", "clink/lua/src/match_builder_lua.cpp"],
    mechanism=[("commands", "clink/app/scripts/exec.lua exec_matches"), ("files", "clink/lua/scripts/generator.lua, clink/lua/src/os_api.cpp glob"), ("variables", "clink/app/scripts/env.lua, clink/app/scripts/set.lua")],
    runs=[dict(harness="app_complete", args=["--mode", m]) for m in ("exec", "files", "vars")],
    counts={"evaluations": "evaluations", "states": "configurations", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one line completed in one configuration; nontrivial: at least two names must be offered.", at_least={"evaluations": 300000}),
dict(id="U01", title="Accepting a suggestion inserts exactly what it showed",
    statement="What is shown as a suggestion always continues the line as it is; accepting it whole, by a word, by a full word or by a command inserts exactly that much of what was shown, and the rest stays suggested. Typing what the suggestion says keeps it, typing anything else, deleting or leaving the end of the line takes it back, and no key inserts a suggestion that was made for another line. Otherwise keys do to the line just what they do without suggestions.",
    over=["inputs", "histories", "schedules"], forall="8 kinds of suggestion with up to 6 settings of comparing, 20 lines typed before, and every sequence of up to 2 of 16 keys and of up to 3 (4) of the main ones, each key either after the editor was idle or queued right behind the one before.",
    technique="exhaustive enumeration of suggestions and key sequences on the real line editor, against a reference model", level="exploration",
    level_note="Real line_editor_impl, suggestions, readline and Lua; the suggester is a stand-in that answers as the case says.",
    why="The tests accept one suggestion after one line; what is inserted depends on the keys before, the case and accents of what was typed, and on when the suggestion is generated.",
    files=["clink/lib/src/suggestions.cpp", "clink/lib/src/line_editor_impl.cpp", "clink/lib/src/rl/rl_commands.cpp"],
    mechanism=[("the suggestion kept with its line", "clink/lib/src/suggestions.cpp suggestion_manager"), ("when it is generated", "clink/lib/src/line_editor_impl.cpp try_suggest")],
    runs=[dict(harness="ed_suggest", args=["--mode", "accept"])],
    counts={"evaluations": "evaluations", "transitions": "steps", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one sequence of keys with one suggestion; nontrivial: something is accepted.", at_least={"evaluations": 500000}),
dict(id="U02", title="The suggestion is the one that the strategies choose",
    statement="The strategies are asked in the order listed, and the first with an answer decides: history suggests the most recent command that the line is the beginning of, match_prev_cmd the most recent one entered after the same command as now, completion the first match for the last word. In the suggestion list every strategy contributes its suggestions in that order, none twice, up to the limits set. Only what continues the typed line, compared as the settings say, is suggested.",
    over=["inputs", "configurations", "histories"], forall="12 lists of strategies, every history of up to 3 (4) of 6 commands and some long ones, 5 sets of matches, 10 typed lines, inline and as a list, with the settings that matter.",
    technique="exhaustive enumeration of histories, matches, settings and lines on the real scripts and editor, against a reference", level="exploration",
    level_note="Real suggest.lua, Lua engine, history, matches and line editor; the terminal is a stand-in.",
    why="The tests try a handful of histories; which command is suggested depends on the order and repetition of commands, the settings and the matches together.",
    files=["clink/app/scripts/suggest.lua", "clink/lua/src/internal_api.cpp", "clink/lua/src/suggest.cpp", "clink/lib/src/suggestions.cpp"],
    mechanism=[("strategies", "clink/app/scripts/suggest.lua"), ("searching the history", "clink/lua/src/internal_api.cpp history_suggester")],
    runs=[dict(harness="ed_suggest", args=["--mode", "choose"])],
    counts={"evaluations": "evaluations", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is the suggestions for one line with one history, set of matches and settings; nontrivial: something is suggested.", at_least={"evaluations": 400000}),
dict(id="U03", title="Going through the suggestion list shows each suggestion and can be taken back",
    statement="In the suggestion list the up, down, page and wheel keys and clicks go to the suggestion next in the list, a page away or clicked, as configured wrapping through the typed line, and never beyond the ends; the selected one is in view. The line is then exactly that suggestion as listed, also when the typed line was edited inside since; going back before the first, Esc or undo bring the typed line back, and typing goes on from the line shown. Esc hides the list until something else is typed, and no key or wheel turn leaves stray characters.",
    over=["inputs", "histories"], forall="Lists of 1, 2, 5, 12 and 30 suggestions, wrapping, context rows and terminals of 5, 12 and 25 rows, 5 typed lines, with every sequence of 3 (4) and, in the main ones, 4 (5) of 17 keys, wheel turns and clicks.",
    technique="exhaustive enumeration of key sequences on the real line editor, against a reference model", level="exploration",
    level_note="Real line_editor_impl, suggestion list, readline and Lua; the suggester and terminal are stand-ins.",
    why="The tests do not navigate the list; where a key leads depends on the selection, the scrolled part and edits before.",
    files=["clink/lib/src/suggestionlist_impl.cpp", "clink/lib/src/suggestions.cpp"],
    mechanism=[("navigating", "clink/lib/src/suggestionlist_impl.cpp on_input"), ("showing and taking back", "clink/lib/src/suggestionlist_impl.cpp apply_suggestion")],
    runs=[dict(harness="ed_suggest", args=["--mode", "list"])],
    counts={"evaluations": "evaluations", "transitions": "steps", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one sequence of keys with one list; nontrivial: the selection changes.", at_least={"evaluations": 500000}),
dict(id="I01", title="A directory shortcut becomes exactly the cd it stands for",
    statement="A line that is nothing but an existing directory with a slash at its end, two or more dots, ~, - or a cd to - becomes exactly the command that changes to that directory, drive included, with whatever blanks, quotes, carets, variables and slashes it is written. Every other line, also one with arguments, redirections, several commands, a CMD command's name before the slash or an alias named cd, stays byte for byte for CMD. When only cd - is recognised nothing else is changed.",
    over=["inputs"], forall="Every sequence of up to 4 (5) of 25 pieces (dots, slashes, drives, names that exist and don't, quotes, blanks, carets, separators, cd, chdir, /d, dash), and of 27 pieces with directories of unusual names, in 3 modes.",
    technique="exhaustive enumeration of lines on the real code, against the documented rules over a virtual file system", level="exploration",
    level_note="Real intercept_directory with os and path functions; file attributes, current directory and aliases are stand-ins.",
    why="The tests try a few dozen lines; whether something else is taken for a directory depends on the sequence of quotes, blanks, slashes and operators.",
    files=["clink/lib/src/intercept.cpp"],
    mechanism=[("recognising the line", "clink/lib/src/intercept.cpp intercept_directory"), ("cd - and drives", "clink/lib/src/intercept.cpp")],
    runs=[dict(harness="lib_shortcut", args=[])],
    counts={"evaluations": "evaluations", "transitions": "previous", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one line in one mode; nontrivial: the line becomes another.", at_least={"evaluations": 1000000}),
dict(id="X01", title="A doskey macro expands to exactly what its text and the arguments say",
    statement="Every command of a line whose name is a doskey macro is replaced by the macro's text with $1 to $9, $* and the $ codes filled in from that command's words, and everything else of the line stays byte for byte: separators, redirections, parentheses, quotes, escapes, commands that a leading blank or semicolon protects. Without doskey.enhanced only the first command is expanded, with the whole rest as its arguments. The cursor stays on the same character, or within the expansion of the command it was in; expanding with or without a cursor gives the same text.",
    over=["inputs"], forall="Every first command of 7 lead-ins, 3 names, up to 2 (3) of 9 arguments, spacings and tails, every two commands of those with up to one argument joined by 4 separators, and some three, with 14 macros, doskey.enhanced on and off, every cursor position; 8 to 200 arguments of up to 600 characters.",
    technique="exhaustive enumeration of command lines, macros and cursor positions on the real expander, against a reference built from the parts of the line", level="exploration",
    level_note="Real doskey::resolve with its tokenisers; the console's alias table is a stand-in.",
    why="The tests expand about thirty lines; what is lost or misplaced depends on how separators, quotes, parentheses, blanks and the cursor combine.",
    files=["clink/lib/src/doskey.cpp", "clink/lib/src/cmd_tokenisers.cpp", "clink/core/src/str_tokeniser.cpp"],
    mechanism=[("finding and expanding one macro", "clink/lib/src/doskey.cpp resolve_impl"), ("the rest of the line", "clink/lib/src/doskey.cpp resolve, find_command_end")],
    runs=[dict(harness="lib_expand", args=["--mode", "doskey"])],
    counts={"evaluations": "evaluations", "transitions": "points", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one line with one macro and setting, expanded with every cursor position; nontrivial: something expands and there are several words.", at_least={"evaluations": 500000}),
dict(id="X02", title="Environment variables in a line expand to their values and nothing else changes",
    statement="Expanding a text replaces each %NAME% of a defined variable by its value, without expanding the value again, and leaves everything else, single percent signs and undefined names included, byte for byte. The result doesn't depend on where the cursor is. The cursor stays on the same character, or goes to the end of the value that replaces the name it was in.",
    over=["inputs"], forall="Every sequence of up to 6 (7) of 10 pieces (percent signs, names with and without percent signs, defined, undefined, non-ASCII, blanks), and of up to 2 (3) with long values, names in other case and CMD's own variables, with every cursor position.",
    technique="exhaustive enumeration of texts and cursor positions on the real expander, against a reference", level="exploration",
    level_note="Real os::expand_env with the environment of the process.",
    why="The tests expand a dozen texts; pairing percent signs and moving the cursor depend on the sequence of several.",
    files=["clink/core/src/os.cpp"],
    mechanism=[("expansion and cursor", "clink/core/src/os.cpp expand_env")],
    runs=[dict(harness="lib_expand", args=["--mode", "env"])],
    counts={"evaluations": "evaluations", "transitions": "points", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one text expanded with every cursor position; nontrivial: something expands and something stays.", at_least={"evaluations": 500000}),
dict(id="E01", title="What completion and coloring give depends only on the line as it is",
    statement="Whatever keys led to a line (typing, deleting, recalling other lines, undoing, completing, listing, cycling through matches and leaving the cycle), completing there offers exactly what it offers when the same line is entered afresh with the cursor at the same place, and the line's colors are those of the same line entered afresh. Matches of an earlier line, word or cursor position are never offered or inserted.",
    over=["inputs", "histories"], forall="From 4 starting lines, every sequence of up to 3 (4) of 22 keys and every further one of up to 4 (5) of 9 of them, with an argmatcher whose words depend on what precedes them.",
    technique="exhaustive enumeration of key sequences through the real line editor, against a fresh editor with the same line", level="exploration",
    level_note="Real line_editor_impl with readline and the Lua scripts; the console, files and clock are stand-ins. While menu-complete cycles, its matches stay by design.",
    why="The tests type one line each; stale matches come from a sequence of commands that leaves the caches of words, matches and colors behind.",
    files=["clink/lib/src/line_editor_impl.cpp", "clink/lib/src/rl/rl_module.cpp", "readline/readline/complete.c"],
    mechanism=[("when to generate and select again", "clink/lib/src/line_editor_impl.cpp update_internal, is_key_same"), ("when to color again", "clink/lib/src/line_editor_impl.cpp before_display_readline")],
    runs=[dict(harness="ed_keys", args=["--mode", "fresh"])],
    counts={"evaluations": "evaluations", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one sequence of keys; nontrivial: several words are offered in the end.", at_least={"evaluations": 60000}),
dict(id="E02", title="Undo goes back through earlier states of the line to the empty line",
    statement="After any editing, undoing step by step gives only lines that the line was before (typed text may be undone in parts), in reverse order, and ends with the empty line. That includes replacing a selection, pasting, cutting, killing and yanking, transposing, changing case, resetting the line, and editing after undoing.",
    over=["histories"], forall="Every sequence of up to 3 (4) of 21 editing commands and every further one of up to 5 (6) of 9 of them, each undone completely.",
    technique="exhaustive enumeration of editing sequences through the real line editor, against the recorded states", level="exploration",
    level_note="Real line_editor_impl, rl_buffer and readline; the console, clipboard and clock are stand-ins. yank-pop is left out (readline records it as two steps).",
    why="The tests hardly undo; a lost or misgrouped undo record shows only for particular sequences.",
    files=["clink/lib/src/rl/rl_buffer.cpp", "clink/lib/src/rl/rl_commands.cpp", "readline/readline/undo.c", "readline/readline/text.c"],
    mechanism=[("undo groups of the selection", "clink/lib/src/rl/rl_commands.cpp cua_selection_event_hook, clink_paste"), ("records", "readline/readline/undo.c rl_do_undo"), ("the buffer's edits", "clink/lib/src/rl/rl_buffer.cpp")],
    runs=[dict(harness="ed_keys", args=["--mode", "undo"])],
    counts={"evaluations": "evaluations", "transitions": "undone", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one sequence of edits undone completely; nontrivial: at least three steps are undone.", at_least={"evaluations": 50000}),
dict(id="E03", title="Selecting, copying, cutting, pasting and replacing text do what they say",
    statement="The selection is exactly the text between where selecting began and the cursor; typing, pasting, deleting and cutting replace or remove exactly the selection, copying and cutting put exactly it (or without one the whole line) on the clipboard, and copying changes nothing else. Any other editing or moving ends the selection and acts as if there had been none. Multi-byte characters are never split.",
    over=["histories"], forall="From 2 starting lines, every sequence of up to 3 (4) of 18 commands and every further one of up to 5 (6) of 9 of them.",
    technique="exhaustive enumeration of command sequences through the real line editor, against a model of the line, cursor, selection and clipboard after every step", level="exploration",
    level_note="Real line_editor_impl and readline; the console, clipboard and clock are stand-ins.",
    why="No test selects text.",
    files=["clink/lib/src/rl/rl_commands.cpp", "clink/lib/src/rl/rl_buffer.cpp", "readline/readline/text.c"],
    mechanism=[("selection", "clink/lib/src/rl/rl_commands.cpp cua_selection_manager, cua_delete, cua_after_command"), ("copy and paste", "clink/lib/src/rl/rl_commands.cpp cua_copy, clink_paste")],
    runs=[dict(harness="ed_keys", args=["--mode", "select"])],
    counts={"evaluations": "evaluations", "transitions": "steps", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one sequence of commands; nontrivial: some command acts on a selection.", at_least={"evaluations": 100000}),
dict(id="E04", title="Completing inserts exactly the chosen match, quoted as needed, and nothing else",
    statement="Completing replaces the word before the cursor by the match (or what all matches have in common) such that the line, read with CMD's quoting, has exactly that file name as the word; everything before the word and after the cursor stays. Names with characters special to CMD get quotes; at the end of the line one file is followed by the closing quote and its append character, a directory isn't. Cycling visits every match once, then what they have in common, around and backwards alike, and inserting all matches gives each as one word.",
    over=["inputs"], forall="Every one and two of 14 names as files and directories, and 48 directory trees, with 20 typed words (quoted or not, with paths) and 6 texts after the cursor; the same names as arguments with three kinds of append character; five completion commands.",
    technique="exhaustive enumeration of names, typed words and commands through the real line editor, against a reading of the resulting line", level="exploration",
    level_note="Real line_editor_impl, readline and Lua scripts; the console and the file system are stand-ins. match.expand_abbrev is off; closing quotes are required at the end of the line only, as readline does.",
    why="The tests complete a few names; quoting depends on the characters of all the names, the typed quotes and what follows.",
    files=["readline/readline/complete.c", "clink/lib/src/rl/rl_module.cpp", "clink/lib/src/line_editor_impl.cpp"],
    mechanism=[("replacing and quoting", "readline/readline/complete.c insert_match, make_quoted_replacement, append_to_match"), ("word break and append character", "clink/lib/src/rl/rl_module.cpp adjust_completion_word, alternative_matches"), ("cycling", "readline/readline/complete.c rl_menu_complete")],
    runs=[dict(harness="ed_complete", args=["--mode", m]) for m in ("insert", "cycle")],
    counts={"evaluations": "evaluations", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one set of names, typed word and following text; nontrivial: several names match.", at_least={"evaluations": 100000}),
dict(id="H05", title="History expansion inserts exactly the event and words asked for",
    statement="Expanding a line replaces each event designator (!!, !n, !-n, !str, !?str?, !#, ^a^b^) with its words and modifiers by the text the documentation defines for the history as it is at that time, also after lines were added, edited or removed; everything else, and what history.expand_mode says is quoted, stays byte for byte. A line that asks for something that doesn't exist is left unchanged. Previewing gives the same expansions with their positions and has no effect; neither changes the history or the position in it.",
    over=["inputs", "histories"], forall="Every text of up to 5 (6) of 21 characters with 5 histories and 4 modes; every combination of 21 events, 26 word designators and up to 2 (3) of 26 modifiers in 8 contexts; every sequence of up to 5 (6) of 22 steps that expand, add, remove or replace lines.",
    technique="exhaustive enumeration of lines and of history edits on the real expander, against a reference", level="exploration",
    level_note="Real history_db::expand and readline's expander; the modifier :G and words with $( are not covered.",
    why="No test covers the expander; pairing designators, quotes and substitutions, and cached lookups, depend on combinations and on what was expanded before.",
    files=["clink/lib/src/history_db.cpp", "readline/readline/histexpand.c", "readline/readline/histsearch.c", "readline/readline/history.c"],
    mechanism=[("which ! expand", "clink/lib/src/history_db.cpp history_expand_control"), ("events, words and modifiers", "readline/readline/histexpand.c"), ("cached event lookup", "readline/readline/histexpand.c history_event_lookup_cache")],
    runs=[dict(harness="lib_history", args=["--mode", m]) for m in ("chars", "parts", "edits")],
    counts={"evaluations": "evaluations", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one line previewed and expanded in one history; nontrivial: something expands.", at_least={"evaluations": 1000000}),
dict(id="H04", title="Going through history shows its lines, and what is edited stays apart",
    statement="The keys for previous, next, first and last history line, and for searching by the beginning or a part of lines, show the history line next in that direction (that matches, each found line once), and going past the newest brings the typed line back. Lines edited on the way stay edited until a line is entered, and removing a line removes exactly the unmodified line shown and goes on to the next one. Entering adds the line as edited and changes no other; with sticky search a reused line isn't added again and the next line goes on from there, and operate-and-get-next begins with the history line that follows.",
    over=["histories", "inputs"], forall="Every sequence of 4 (5) of 17 keys (three of them with a numeric argument), and of 5 (6) of the 7 main ones, from four histories (with equal lines, case differences, empty); every sequence of 6 (7) of 7 keys that spans up to 6 lines, with and without sticky search.",
    technique="exhaustive enumeration of key sequences on the real line editor, against a model of the list, its edited lines and the typed line", level="exploration",
    level_note="Real editor, readline and sticky search; the harness hands the lines on as the host does.",
    why="No test uses the history keys; what is shown depends on the position, what was edited on the way, and the search that is going on.",
    files=["readline/readline/misc.c", "readline/readline/search.c", "clink/lib/src/sticky_search.cpp"],
    mechanism=[("previous and next", "readline/readline/misc.c rl_get_previous_history"), ("search", "readline/readline/search.c rl_history_search_internal"), ("replaying", "clink/lib/src/sticky_search.cpp save_sticky_search_position")],
    runs=[dict(harness="ed_history", args=["--mode", m]) for m in ("keys", "replay")],
    counts={"evaluations": "evaluations", "transitions": "steps", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One evaluation is one key sequence, compared after every key; nontrivial: it leaves the typed line.", at_least={"evaluations": 100000}),
]

NOT_APPLICABLE = [
dict(id="Z01", title="CMD works as before with clink injected",
    statement="Injecting clink into CMD.EXE, by hand or by autorun, replaces its line input and nothing else: commands, their output and exit codes stay as they are, and when clink can't be loaded CMD works without it.",
    over=["inputs", "configurations"], forall="Every command and every version of CMD.EXE clink is injected into.",
    why="The tests never start CMD.EXE.",
    files=["clink/app/src/utils/hook_setter.cpp", "clink/process/src/process.cpp", "clink/app/src/loader/inject.cpp", "clink/app/src/host/host_cmd.cpp"],
    mechanism=[("import and inline hooks", "clink/app/src/utils/hook_setter.cpp"), ("remote thread", "clink/process/src/process.cpp")],
    reason="It is about the code of CMD.EXE and the Windows loader, which are not here (Wine has its own cmd): there are no behaviours to enumerate."),
dict(id="Z02", title="Updating clink installs exactly the released files or nothing",
    statement="The updater downloads the newest release and replaces the program's files as a whole; if anything fails, the old version keeps working.",
    over=["histories", "crash_points"], forall="Every failure of the network, the download and the file system.",
    why="The tests don't update.",
    files=["clink/app/scripts/update.lua"],
    mechanism=[("download, verify, install", "clink/app/scripts/update.lua")],
    reason="The steps are PowerShell programs, an installer and GitHub's servers: none of them can run in this sandbox, and replacing them all by stand-ins would leave nothing of the property."),
]
