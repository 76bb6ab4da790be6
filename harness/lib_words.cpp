// Words of command lines: every line that a grammar derives from a bounded number of pieces, with the
// words known by construction; and every short text over an alphabet, against invariants.
//   --mode grammar | texts
#include "mc.h"
#include <core/base.h>
#include <core/str.h>
#include <core/os.h>
#include <core/settings.h>
#include "line_state.h"
#include "word_collector.h"
#include "cmd_tokenisers.h"

using std::string;
using std::vector;

static string g_mode;
extern setting_bool g_enhanced_doskey;
static bool g_enhanced = true;

// Two doskey aliases: al, and g&h.
static DWORD WINAPI my_alias(LPWSTR name, LPWSTR out, DWORD size, LPWSTR)
{
    const wchar_t* v = nullptr;
    if (!wcscmp(name, L"al")) v = L"dir $*";
    if (!wcscmp(name, L"g&h")) v = L"git $*";
    if (!v) { SetLastError(ERROR_FILE_NOT_FOUND); return 0; }
    wcscpy(out, v);
    return DWORD(wcslen(v) * 2);
}
extern "C" void* __imp_GetConsoleAliasW = (void*)my_alias;

struct w { int off, len; bool cmd, redir, quoted, alias; };
static bool operator==(const w& a, const w& b) { return a.off == b.off && a.len == b.len && a.cmd == b.cmd && a.redir == b.redir && a.quoted == b.quoted && a.alias == b.alias; }
static string show(const string& line, const vector<w>& v)
{
    string o;
    for (auto& x : v)
    {
        char b[60];
        sprintf(b, "%d,%d%s%s%s%s", x.off, x.len, x.cmd ? "c" : "", x.redir ? "r" : "", x.quoted ? "q" : "", x.alias ? "A" : "");
        o += string("[") + b + " " + line.substr(x.off, x.len) + "]";
    }
    return o;
}
struct result { vector<w> ws; vector<std::pair<int, int>> cmds; int command_offset; };

static cmd_command_tokeniser* g_ct;
static cmd_word_tokeniser* g_wt;
static word_collector* g_wc;

static const char* const c_internal[] = { "assoc", "break", "call", "cd", "chdir", "cls", "color", "copy", "date", "del", "dir", "dpath", "echo", "endlocal", "erase", "exit", "for", "ftype", "goto",
    "if", "md", "mkdir", "mklink", "move", "path", "pause", "popd", "prompt", "pushd", "rd", "rem", "ren", "rename", "rmdir", "set", "setlocal", "shift", "start", "time", "title", "type", "ver", "verify", "vol" };
static bool is_internal(const string& t)
{
    string u;
    for (size_t i = 0; i < t.size(); ++i) if (t[i] != '^' || ++i < t.size()) u += char(tolower((unsigned char)t[i]));
    for (auto n : c_internal) if (u == n) return true;
    return false;
}
static bool g_wrong_internal;

static result collect(const string& line, int cursor, bool stop)
{
    result r;
    g_wrong_internal = false;
    words ws;
    commands cs;
    g_ct->begin_line();
    g_wt->begin_line();
    // A copy without anything useful behind it.
    string copy = line;
    r.command_offset = g_wc->collect_words(copy.c_str(), uint32(line.size()), cursor, ws, stop ? collect_words_mode::stop_at_cursor : collect_words_mode::whole_command, &cs);
    for (auto& x : ws) r.ws.push_back({ int(x.offset), int(x.length), x.command_word, x.is_redir_arg, !!x.quoted, x.is_alias });
    for (auto& c : cs) r.cmds.push_back({ int(c.offset), int(c.length) });
    mc::stat("collected");
    // The per command states partition the words.
    command_line_states st;
    st.set(copy.c_str(), uint32(line.size()), cursor, ws, stop ? collect_words_mode::stop_at_cursor : collect_words_mode::whole_command, cs);
    size_t i = 0;
    bool ok = true;
    for (auto& ls : st.get_linestates(copy.c_str(), uint32(line.size())))
    {
        size_t k = 0;
        for (auto& x : ls.get_words())
        {
            if (i >= ws.size() || x.offset != ws[i].offset || x.length != ws[i].length) ok = false;
            else if (ws[i].command_word != (k == 0)) ok = false;
            ++i, ++k;
        }
        // Whether the command is one of CMD's own.
        bool seeking = true;
        for (auto& x : ls.get_words())
        {
            const bool internal = seeking && !x.is_redir_arg && !x.quoted && !x.is_alias && is_internal(copy.substr(x.offset, x.length));
            if (!x.is_redir_arg) seeking = false;
            if (x.is_cmd_command != internal) g_wrong_internal = true;
        }
        if (!ls.get_word_count() && line.size()) ok = false;
    }
    if (i != ws.size() || !ok) r.cmds.push_back({ -1, -1 });
    return r;
}

static bool bad(const string& line, const char* key, const string& msg)
{
    mc::violation(g_mode + ":" + line, line, string(key) + ": line |" + line + "| " + msg);
    return false;
}

//------------------------------------------------------------------------------
// The grammar.
struct piece
{
    char kind;              // c command word, a argument, r redirection (spaced), g redirection (glued), s separator
    const char* text;
    vector<w> words;        // relative to the text
    bool last = false;      // consumes the rest of the line (unclosed quote)
};
#define Q true
#define N false
static const vector<piece> c_pieces = {
    { 'c', "a", { { 0, 1, 1, 0, N } } },
    { 'c', "\"c d\"", { { 1, 3, 1, 0, Q } } },
    { 'c', "cd", { { 0, 2, 1, 0, N } } },
    { 'c', "\"cd\"", { { 1, 2, 1, 0, Q } } },
    { 'c', "cd\\x", { { 0, 2, 1, 0, N }, { 2, 2, 0, 0, N } } },
    { 'c', "cd/d", { { 0, 2, 1, 0, N }, { 2, 2, 0, 0, N } } },
    { 'c', "e/f", { { 0, 1, 1, 0, N }, { 1, 2, 0, 0, N } } },
    { 'c', "x^&y", { { 0, 4, 1, 0, N } } },
    { 'c', "p\"q r\"s", { { 0, 7, 1, 0, N } } },
    { 'c', "al", { { 0, 2, 1, 0, N, true } } },
    { 'c', "g&h", { { 0, 3, 1, 0, N, true } } },
    { 'c', "\"c&d\"", { { 1, 3, 1, 0, Q } } },
    { 'c', "rem", { { 0, 3, 1, 0, N } } },
    { 'c', "-f:b", { { 0, 3, 1, 0, N }, { 3, 1, 0, 0, N } } },
    { 'a', "b", { { 0, 1, 0, 0, N } } },
    { 'a', "\"b c\"", { { 1, 3, 0, 0, Q } } },
    { 'a', "\"b&c|d>e\"", { { 1, 7, 0, 0, Q } } },
    { 'a', "b^&c", { { 0, 4, 0, 0, N } } },
    { 'a', "b^ c", { { 0, 1, 0, 0, N }, { 3, 1, 0, 0, N } } },
    { 'a', "b\"c d\"e", { { 0, 7, 0, 0, N } } },
    { 'a', "x1", { { 0, 2, 0, 0, N } } },
    { 'a', "1", { { 0, 1, 0, 0, N } } },
    { 'a', "b=c", { { 0, 1, 0, 0, N }, { 2, 1, 0, 0, N } } },
    { 'a', "b,c;d", { { 0, 1, 0, 0, N }, { 2, 1, 0, 0, N }, { 4, 1, 0, 0, N } } },
    { 'a', "-f", { { 0, 2, 0, 0, N } } },
    { 'a', "-f:b", { { 0, 3, 0, 0, N }, { 3, 1, 0, 0, N } } },
    { 'a', "-f=b", { { 0, 3, 0, 0, N }, { 3, 1, 0, 0, N } } },
    { 'a', "/f", { { 0, 2, 0, 0, N } } },
    { 'a', "+f", { { 0, 2, 0, 0, N } } },
    { 'a', "22", { { 0, 2, 0, 0, N } } },
    { 'a', "b+c", { { 0, 1, 0, 0, N }, { 2, 1, 0, 0, N } } },
    { 'a', "b=+c", { { 0, 1, 0, 0, N }, { 3, 1, 0, 0, N } } },
    { 'a', "b/c\\d", { { 0, 5, 0, 0, N } } },
    { 'a', "\xc3\xa9\xe4\xb8\xad", { { 0, 5, 0, 0, N } } },
    { 'r', ">f", { { 1, 1, 0, 1, N } } },
    { 'r', ">x/y", { { 1, 3, 0, 1, N } } },
    { 'r', "> f", { { 2, 1, 0, 1, N } } },
    { 'r', ">>f", { { 2, 1, 0, 1, N } } },
    { 'r', "2>f", { { 2, 1, 0, 1, N } } },
    { 'r', "<f", { { 1, 1, 0, 1, N } } },
    { 'r', "2>&1", { } },
    { 'r', ">\"f g\"", { { 2, 3, 0, 1, Q } } },
    { 'r', ">&2", { } },
    { 'r', "1>>&2", { } },
    { 'r', ">>&2", { } },
    { 'r', "0<&3", { } },
    { 'r', "1>> f", { { 4, 1, 0, 1, N } } },
    { 'g', ">f", { { 1, 1, 0, 1, N } } },
    { 'g', ">> f", { { 3, 1, 0, 1, N } } },
    { 's', "&", {} },
    { 's', "&&", {} },
    { 's', "|", {} },
    { 's', "||", {} },
    { 's', " & ", {} },
    { 's', "&  ", {} },
    { 's', " || ", {} },
    { 'z', "\"b c", { { 1, 3, 0, 0, Q } } },
    { 'z', "b\"c & d", { { 0, 7, 0, 0, N } } },
};
#undef Q
#undef N

struct derivation
{
    string line;
    vector<w> ws;
    bool need_command = true;   // at the start of a command
    bool first = true;          // next word starts the command (is marked as its first word)
    bool rem = false;
    int ncmd = 0;
    char last = 0;
    int cmd_start = 0;
};

static bool add(derivation& d, const piece& p, const char* gap)
{
    if (d.last == 'z') return false;
    const bool command_seen = !d.need_command;
    switch (p.kind)
    {
    case 'c': if (command_seen) return false; break;
    case 'a': case 'z': if (!command_seen) return false; break;
    case 'g': if (!command_seen || d.last == 'r' || d.last == 'g') return false; if (d.line.back() >= '0' && d.line.back() <= '9' && strchr(" \t", d.line[d.line.size() - 2])) return false; break;
    case 's': if (!command_seen) return false; break;
    }
    if (p.text[0] == '+' && *gap == '\t') return false;    // only special after a space
    // An alias name ends at a blank.
    if (p.kind == 'g' && d.ws.back().alias && d.last == 'c')
    {
        if (d.ws.back().len == 3) return false;
        d.ws.back().alias = false;
    }
    if (p.kind == 's' && p.text[0] != ' ' && d.last == 'c' && d.ws.back().alias && d.ws.back().len == 3) return false;
    if (d.rem && p.kind == 's' && p.text[0] == ' ' && d.last != 's')
    {
        // Separators are nothing special after rem.
        d.ws.push_back({ int(d.line.size()) + 1, int(strlen(p.text)) - 2, false, false, false, false });
        d.line += p.text;
        d.last = 's';
        return true;
    }
    if (d.rem && p.kind != 'a' && p.kind != 'z') return false;
    if (p.kind != 'g' && p.kind != 's' && d.last && d.last != 's') d.line += gap;
    const int at = int(d.line.size());
    const bool space_before = at && d.line[at - 1] == ' ';
    d.line += p.text;
    if (p.kind == 's')
    {
        d.need_command = d.first = true;
        d.last = 's';
        d.ncmd++;
        return true;
    }
    for (auto x : p.words)
    {
        x.off += at;
        x.cmd = d.first;
        // Aliases are only looked up at the very start, and with doskey.enhanced also after a separator and up to one space.
        if (x.alias && at && (!g_enhanced || d.last != 's' || d.line.compare(at < 2 ? 0 : at - 2, 2, "  ") == 0)) { x.alias = false; if (!strcmp(p.text, "g&h")) return false; }
        d.first = false;
        d.ws.push_back(x);
    }
    if (p.kind == 'c') { d.need_command = false; if (!strcmp(p.text, "rem")) d.rem = true; }
    (void)space_before;
    d.last = p.kind;
    return true;
}

static bool check_line(const string& line, const vector<w>& want, int cursor_word)
{
    if (mc::S().replaying && line != mc::S().replay) return true;
    mc::current(line);
    mc::stat("evaluations");
    auto r = collect(line, int(line.size()), false);
    if (want.empty() && r.ws.size() == 1 && r.ws[0] == w{ int(line.size()), 0, true, false, false, false }) return true;
    if (!(r.ws == want)) return bad(line, "words", show(line, r.ws) + " expected " + show(line, want));
    if (!r.cmds.empty() && r.cmds.back().first < 0) return bad(line, "states", "the commands' words are not the line's words");
    if (g_wrong_internal) return bad(line, "internal", "an internal command isn't marked, or another is");
    return true;
}

static bool stop_checks(const string& line, const vector<w>& want, bool all_cursors)
{
    if (mc::S().replaying && line != mc::S().replay) return true;
    // At the end: the same words, plus an empty one when the last one does not end here.
    auto r = collect(line, int(line.size()), true);
    vector<w> w2 = want;
    const int n = int(line.size());
    bool need = w2.empty();
    if (!need)
    {
        const w& e = w2.back();
        need = e.off + e.len + (e.quoted && e.off + e.len < n && line[e.off + e.len] == '"') < n;
    }
    if (need)
    {
        // An empty word at the cursor; it belongs to a new command after a separator.
        if (r.ws.size() != w2.size() + 1) return bad(line, "end word", show(line, r.ws) + " expected an empty word at the end after " + show(line, w2));
        w e = r.ws.back();
        if (e.off != n || e.len) return bad(line, "end word", show(line, r.ws) + " expected an empty word at the cursor");
        r.ws.pop_back();
    }
    if (!(r.ws == w2)) return bad(line, "stop", show(line, r.ws) + " expected " + show(line, w2));
    if (!r.cmds.empty() && r.command_offset != r.cmds.back().first && r.cmds.back().first <= n) return bad(line, "command", "the cursor's command begins at " + std::to_string(r.command_offset));
    if (!all_cursors) return true;
    for (int c = 0; c < n; ++c)
    {
        auto a = collect(line, c, true);
        auto b = collect(line.substr(0, c), c, true);
        if (!(a.ws == b.ws)) return bad(line, "cursor", "with the cursor at " + std::to_string(c) + ": " + show(line, a.ws) + " but without the rest of the line " + show(line, b.ws));
    }
    return true;
}

static void grammar(derivation d, int depth, const char* gap, mc::ull& index, bool cursors)
{
    if (mc::enough()) return;
    if (mc::S().replaying)
    {
        // Only what the line begins with.
        const string& t = mc::S().replay;
        const size_t at = t.find_first_not_of("(@ ");
        if (at == string::npos || t.compare(at, d.line.size(), d.line)) return;
    }
    if (d.last)
    {
        if (mc::mine(index++))
        {
            if (check_line(d.line, d.ws, 0)) stop_checks(d.line, d.ws, cursors);
            if (d.last != 's' && d.last != 'z')
            {
                // Trailing blanks add nothing.
                string t = d.line + gap;
                if (check_line(t, d.ws, 0)) stop_checks(t, d.ws, false);
            }
            // The same command in parentheses, or with @ in front.
            if (!d.ncmd && d.last != 'z' && !d.rem && !d.ws.empty() && !d.ws[0].alias)
            {
                static const char* const c_wraps[][2] = { { "(", ")" }, { "( ", " )" }, { "((", "))" }, { "@", "" }, { "(@", ")" } };
                for (auto& wr : c_wraps)
                {
                    // CMD takes @2>f differently.
                    if (strchr(wr[0], '@') && strchr("0123456789", d.line[0])) continue;
                    string t = wr[0] + d.line + wr[1];
                    auto ws = d.ws;
                    for (auto& x : ws) { x.off += int(strlen(wr[0])); x.alias = false; }
                    check_line(t, ws, 0);
                }
            }
            if (d.ws.size() > 1) mc::stat("distinct_nontrivial");
        }
    }
    if (!depth) return;
    for (auto& p : c_pieces)
    {
        derivation n = d;
        if (add(n, p, gap)) grammar(n, depth - 1, gap, index, cursors);
    }
}

//------------------------------------------------------------------------------
// Every internal command, and some that are none, followed by each delimiter.
static void names(mc::ull& index)
{
    vector<string> all(std::begin(c_internal), std::end(c_internal));
    for (auto n : { "foo", "cdd", "mor", "setlocalx", "re", "xrem" }) all.push_back(n);
    for (auto& n : all)
        for (int form = 0; form < 2; ++form)
        {
            string name = n;
            if (form == 1) for (auto& c : name) c = char(toupper(c));
            for (const string pre : { "", "@", "(", "a & ", "a&", "> f " })
            for (char c : string("\\/.:,;=+[](  "))
            {
                if (!mc::mine(index++)) continue;
                string u;
                for (char x : name) if (x != '^') u += char(tolower(x));
                const bool internal = is_internal(u);
                const bool blank = strchr(" ,;=(", c), arg = strchr("+[]", c), slash = c == '/';
                string line = pre + name + c + "x";
                if (pre == "(") line += ")";
                const int at = int(pre.size()), len = int(name.size());
                vector<w> want;
                if (pre[0] == 'a') want.push_back({ 0, 1, true, false, false, false });
                if (pre[0] == '>') want.push_back({ 2, 1, true, true, false, false });
                const bool first = pre[0] != '>';
                if (!blank && !internal && !slash) want.push_back({ at, len + 2, first, false, false, false });
                else
                {
                    want.push_back({ at, len, first, false, false, false });
                    if (blank || (internal && arg)) want.push_back({ at + len + 1, 1, false, false, false, false });
                    else want.push_back({ at + len, 2, false, false, false, false });
                }
                check_line(line, want, 0);
                mc::stat("distinct_nontrivial");
            }
        }
}

//------------------------------------------------------------------------------
// Every text: invariants.
static void invariants(const string& line)
{
    mc::current(line);
    mc::stat("evaluations");
    const int n = int(line.size());
    for (int stop = 0; stop < 2; ++stop)
        for (int c = stop ? 0 : n; c <= n; ++c)
        {
            auto r = collect(line, c, !!stop);
            const int limit = stop ? c : n;
            auto fail = [&](const char* k) { bad(line, k, show(line, r.ws) + (stop ? " stop at " : " whole ") + std::to_string(c)); };
            if (!r.cmds.empty() && r.cmds.back().first < 0) return fail("states");
            if (r.ws.empty()) return fail("no word at all");
            int end = 0;
            for (auto& x : r.ws)
            {
                if (x.off < end || x.off + x.len > limit) return fail("overlap or out of bounds");
                end = x.off + x.len;
            }
            if (!r.ws[0].cmd) return fail("first word not marked");
            int prev = 0;
            for (auto& k : r.cmds)
            {
                if (k.first < prev || k.first + k.second > limit) return fail("command ranges");
                prev = k.first + k.second;
            }
            // Nothing but delimiters, quotes and redirections between the words; a word never spans one.
            if (stop)
            {
                const w& e = r.ws.back();
                int close = e.off + e.len;
                if (e.quoted && close < c && line[close] == '"') ++close;
                if (close != c) return fail("the last word does not reach the cursor");
                auto b = collect(line.substr(0, c), c, true);
                if (!(b.ws == r.ws)) return fail("depends on the text after the cursor");
            }
            if (r.ws.size() > 1) mc::stat("distinct_nontrivial");
        }
}
static void strings(const string& alphabet, int n, const std::function<void(const string&)>& f, string cur = "")
{
    f(cur);
    if (!n || mc::enough()) return;
    for (char c : alphabet) strings(alphabet, n - 1, f, cur + c);
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    cmd_command_tokeniser ct;
    cmd_word_tokeniser wt;
    word_collector wc(&ct, &wt);
    g_ct = &ct; g_wt = &wt; g_wc = &wc;
    const bool th = mc::thorough();
    if (mc::S().replaying)
    {
        const string& line = mc::S().replay;
        for (int stop = 0; stop < 2; ++stop)
            for (int c = stop ? 0 : int(line.size()); c <= int(line.size()); ++c)
            {
                auto r = collect(line, c, !!stop);
                string cm;
                for (auto& k : r.cmds) cm += " " + std::to_string(k.first) + "+" + std::to_string(k.second);
                printf("LOG %s %d: %s cmds%s\n", stop ? "stop" : "whole", c, mc::esc(show(line, r.ws)).c_str(), cm.c_str());
            }
        if (g_mode == "texts") invariants(line);
    }
    mc::ull index = 0;
    if (g_mode == "grammar")
    {
        names(index);
        for (int e = 0; e < 2; ++e)
        for (auto gap : { " ", "  ", "\t" })
        {
            g_enhanced = !e;
            g_enhanced_doskey.set(g_enhanced ? "true" : "false");
            if (e && *gap == '\t') continue;
            derivation d;
            grammar(d, (th ? 5 : 4) - (e || *gap == '\t' || gap[1]), gap, index, *gap == ' ' && !gap[1]);
        }
    }
    else if (!mc::S().replaying)
        strings("a \"^&|<>(1/=-", th ? 6 : 5, [&](const string& s) { if (mc::mine(index++)) invariants(s); });
    return mc::done();
}
