BUILDS = {"core_text": dict(libs=["clink_core", "clink_process", "lua", "readline", "wildmatch"], hot=("clink_core",)),
          "core_settings": dict(libs=["clink_core", "clink_process", "lua", "readline", "wildmatch"], hot=("clink_core",))}
NOTE = "Real code, every input of the bounded space, against a reference implementation written from the documented meaning; says nothing about longer inputs or characters outside the alphabet."
def prop(mode, harness="core_text", **kw):
    return dict(over=["inputs"], technique="exhaustive enumeration of a bounded input space on the real code, against a reference model", level="exploration", level_note=NOTE,
                runs=[dict(harness=harness, args=["--mode", mode])], counts={"evaluations": "evaluations", "distinct_nontrivial": "distinct_nontrivial"}, **kw)
PROPS = [
prop("utf", id="C01", title="Text survives conversion between UTF-8 and UTF-16",
    statement="Every text converts between UTF-8 and UTF-16 and back unchanged, iterating over either form yields the same characters, and unpaired surrogates become replacement characters. Into a buffer of any size the conversion stores whole characters only, terminates them, never writes outside the buffer, and leaves the rest to be converted next.",
    forall="Every code point; every sequence of up to 4 (5) boundary code points with every buffer size; every sequence of up to 5 (6) UTF-16 units including unpaired surrogates; byte sequences up to 5 for staying inside the text.",
    why="The tests convert a few boundary characters and truncate only ASCII text.",
    files=["clink/core/src/str_convert.cpp", "clink/core/src/str_iter.cpp", "clink/core/include/core/str.h"],
    mechanism=[("conversion into a bounded builder", "clink/core/src/str_convert.cpp"), ("decoding iterators", "clink/core/src/str_iter.cpp")],
    rule="One evaluation is one character sequence put through both conversions, both iterators and every buffer size; nontrivial: well-formed text with at least one character, or a sequence with a surrogate.",
    at_least={"evaluations": 1000000}),
prop("tok", id="C02", title="Tokens split at delimiters outside quotes, and cover the text",
    statement="Splitting text at delimiters yields exactly the maximal runs between delimiters that are not inside quotes, in order, at the right place and with the delimiter that precedes each, whichever way the tokens are fetched and whether or not the text is terminated.",
    forall="Every text up to length 6 (8) over letters, delimiters, a self-closing quote and a bracket pair, for three delimiter and quote configurations and all four ways of fetching.",
    why="The tests split a handful of texts.",
    files=["clink/core/src/str_tokeniser.cpp", "clink/core/include/core/str_tokeniser.h"],
    mechanism=[("skipping delimiters, tracking the closing quote", "clink/core/src/str_tokeniser.cpp next_impl")],
    rule="One evaluation is one text with one configuration, split in every way; nontrivial: at least two tokens.",
    at_least={"evaluations": 100000}),
prop("path", id="C03", title="Path operations keep what a path refers to",
    statement="Normalising a path keeps what it refers to, never lengthens it and is idempotent; drive-relative, rooted, network and device paths keep their root. Splitting a path into directory and name, or walking up to its root, and joining the pieces again refers to the same thing, and walking up always ends at a root.",
    forall="Every string up to length 8 (9) over letter, dot and both separators, and every such suffix up to 6-8 after drive, network, namespace and device prefixes, with both separators as the preferred one.",
    why="The tests normalise and split some eighty fixed paths.",
    files=["clink/core/src/path.cpp", "clink/core/include/core/path.h"],
    mechanism=[("component rewriting in place", "clink/core/src/path.cpp normalise"), ("roots of drives, shares and namespaces", "clink/core/src/path.cpp past_drive, is_unc")],
    rule="One evaluation is one path put through every operation; nontrivial: it has both a directory and a name.",
    at_least={"evaluations": 100000}),
prop("compare", id="C04", title="Text comparison follows the comparison mode",
    statement="Comparing two texts reports how much of the first is the longest common prefix under the chosen mode (exact, ignoring case, also equating hyphen and underscore; optionally ignoring accents; treating either separator and runs of separators alike), and equality exactly when both are used up.",
    forall="Every pair of texts of up to 3 characters over 8 (11) characters with case, accent, separator and punctuation variants and one beyond the basic plane, in 12 modes, narrow and wide.",
    why="The tests compare some thirty pairs.",
    files=["clink/core/include/core/str_compare.h", "clink/core/src/str_compare.cpp"],
    mechanism=[("folding one character at a time", "clink/core/include/core/str_compare.h str_compare_impl")],
    rule="One evaluation is one pair in one mode; nontrivial: different texts with a common prefix.",
    at_least={"evaluations": 1000000}),
prop("wild", id="C05", title="Wildcard matching decides as the pattern means",
    statement="A wildcard pattern matches a path exactly when each star can stand for some run of characters (not across separators unless asked for), each question mark for one character or none at the end, and everything else for itself with runs of separators alike.",
    forall="Every pattern up to length 5 (6) over letters, both wildcards, dot and separator with every path up to length 5 (6), and patterns of up to 7 (9) wildcard pieces with every name up to 9, in the three star modes.",
    why="The tests match some sixty pairs; wrong backtracking needs particular repetitions.",
    files=["clink/core/include/core/match_wild.h"],
    mechanism=[("backtracking stack", "clink/core/include/core/match_wild.h match_wild_impl")],
    rule="One evaluation is one pattern and path in one star mode; nontrivial: they match and are not equal.",
    at_least={"evaluations": 1000000}),
dict(id="S01", title="Settings keep exactly what was set, in memory and on file",
    statement="Setting or clearing settings (one or several, from the command line or from a session) changes exactly those in the file; after loading, each setting has its value from the file, otherwise its default, with a defaults file taken into account. Saving from a session leaves every setting in memory as it was, invalid values change nothing, and settings whose script is not loaded keep their value and comment.",
    over=["histories"], forall="Every pair of 79 operations (set, clear, save from a session, several at once in memory or on file, load, a script's setting declared or withdrawn) and every sequence of 3 (4) of a selection of 22, from four starting states (with and without a settings file and a defaults file), on real files; every value of up to 3 (4) of 11 characters and long ones.",
    technique="exhaustive enumeration of operation sequences on the real code and real files, against a reference model", level="exploration",
    level_note="Real code and real files under Wine; the model holds the map in the file, the map in memory and what was loaded without being declared. One process; values have no leading blanks or line breaks.",
    why="The tests set and save a few values; losing or mixing up values needs particular sequences.",
    files=["clink/core/src/settings.cpp", "clink/core/include/core/settings.h"],
    mechanism=[("saving from a session in a sandbox", "clink/core/src/settings.cpp sandboxed_set_setting, rollback_settings_values"), ("values kept for scripts that are not loaded", "clink/core/src/settings.cpp get_loaded_map")],
    runs=[dict(harness="core_settings", args=["--mode", "store"])], counts={"histories": "sequences", "transitions": "transitions", "distinct_nontrivial": "distinct_nontrivial"},
    rule="One history is a sequence of operations, checked after each; nontrivial: its first two operations differ.", at_least={"sequences": 10000}),
prop("color", harness="core_settings", id="S02", title="Color settings mean what they say, and read back as they are shown",
    statement="A color text is accepted exactly when it follows the documented grammar, and then gives codes that set exactly the named foreground, background and styles. Any list of codes is shown as a text that is accepted again and means the same.",
    forall="Every sequence of up to 4 (5) of 18 color words, and every list of up to 4 (5) of 17 codes, shown in both notations.",
    why="The tests parse and format a fixed list of colors.",
    files=["clink/core/src/settings.cpp"],
    mechanism=[("parsing", "clink/core/src/settings.cpp parse_color"), ("formatting", "clink/core/src/settings.cpp format_color")],
    rule="One evaluation is one text or list of codes; nontrivial: a valid color, or more than one code.", at_least={"evaluations": 50000}),
]
