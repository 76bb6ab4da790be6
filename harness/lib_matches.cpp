// Completion candidates: every list of candidates over an alphabet, every needle, every configuration and
// every sequence of operations up to a bound, against a specification of what must be offered.
//   --mode build | select | seq | order | many
#include "mc.h"
#include <core/base.h>
#include <core/str.h>
#include <core/path.h>
#include <core/settings.h>
#include <core/str_compare.h>
#include "line_state.h"
#include "matches_impl.h"
#include "match_generator.h"
#include "match_pipeline.h"
#include "slash_translation.h"
extern "C" {
#include <readline/readline.h>
#include <readline/rlprivate.h>
extern int _rl_match_hidden_files;
extern int rl_complete_with_tilde_expansion;
extern int rl_backslash_path_sep;
extern char rl_preferred_path_separator;
}
bool compare_matches(const char* l, match_type l_type, const char* r, match_type r_type);

using std::string;
using std::vector;
static string g_mode;

// The file system: "d", "sub" and "e" are directories, "a" and "sub\ab" are files.
static DWORD attr_of(const wchar_t* p)
{
    string s;
    for (; *p; ++p) s += char(*p == '/' ? '\\' : *p);
    while (s.size() && s.back() == '\\') s.pop_back();
    if (s == "d" || s == "sub" || s == "e") return FILE_ATTRIBUTE_DIRECTORY;
    if (s == "a" || s == "sub\\ab") return FILE_ATTRIBUTE_ARCHIVE;
    return INVALID_FILE_ATTRIBUTES;
}
static DWORD WINAPI my_attr(LPCWSTR p) { DWORD a = attr_of(p); if (a == INVALID_FILE_ATTRIBUTES) SetLastError(ERROR_FILE_NOT_FOUND); return a; }
static HANDLE WINAPI my_find(LPCWSTR p, WIN32_FIND_DATAW* fd)
{
    DWORD a = attr_of(p);
    if (a == INVALID_FILE_ATTRIBUTES) { SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    memset(fd, 0, sizeof(*fd));
    fd->dwFileAttributes = a;
    return HANDLE(0x1234);
}
static BOOL WINAPI my_close(HANDLE) { return TRUE; }
extern "C" void* __imp_GetFileAttributesW = (void*)my_attr;
extern "C" void* __imp_FindFirstFileW = (void*)my_find;
extern "C" void* __imp_FindClose = (void*)my_close;

typedef unsigned short mt;
enum { none = 1, word, arg, cmd, alias, file, dir, LINK = 0x10, HID = 0x40, SYS = 0x100, HIST = 0x8000 };

struct cand { const char* text; int type; };
static const vector<cand> c_all = {
    { "a", word }, { "a", none }, { "a", file }, { "ab", word }, { "Ab", word }, { "A", file }, { "a b", word },
    { "d", none }, { "d", dir }, { "d\\", none }, { "d/", none }, { "d\\", dir }, { "d", word }, { "d", word|HIST }, { "d", none|HIST },
    { "sub\\ab", file }, { "sub/ab", none }, { "sub/ab", word }, { ".h", file }, { "h", file|HID }, { "s", file|SYS|HID },
    { "-a", arg }, { "--a", arg }, { "_a", arg }, { "zab", cmd }, { "a", none|HIST }, { "sub/", dir|LINK }, { "", word },
    { "sub\\ab", none }, { ".d\\", none },
};
struct config
{
    int slash = 1;          // off, system, slash, backslash, auto
    char sep = 0;           // the first separator in the word being completed
    int files = -1;         // matches are files: not said, no, yes
    bool deprecated = false;
    bool nosort = false;
    int ic = 1;
    bool wild = false, sub = false, rlhidden = true, hidden = true, system = false;
    int dirs = 1;
    string show() const
    {
        char b[120];
        sprintf(b, "slash%d sep%d files%d dep%d nosort%d ic%d wild%d sub%d rlh%d hid%d sys%d dirs%d", slash, sep, files, deprecated, nosort, ic, wild, sub, rlhidden, hidden, system, dirs);
        return b;
    }
};
static bool is_sep(char c) { return c == '/' || c == '\\'; }
static void apply(const config& c)
{
    static setting* ss[7] = {};
    if (!ss[0])
    {
        const char* n[] = { "match.translate_slashes", "match.wild", "match.substring", "match.sort_dirs", "files.hidden", "files.system" };
        for (int i = 0; i < 6; ++i) ss[i] = settings::find(n[i]);
    }
    static config last;
    static bool any = false;
    static const char* sl[] = { "off", "system", "slash", "backslash", "auto" };
    static const char* sd[] = { "before", "with", "after" };
    if (!any || last.slash != c.slash) ss[0]->set(sl[c.slash]);
    if (!any || last.wild != c.wild) ss[1]->set(c.wild ? "true" : "false");
    if (!any || last.sub != c.sub) ss[2]->set(c.sub ? "true" : "false");
    if (!any || last.dirs != c.dirs) ss[3]->set(sd[c.dirs]);
    if (!any || last.hidden != c.hidden) ss[4]->set(c.hidden ? "true" : "false");
    if (!any || last.system != c.system) ss[5]->set(c.system ? "true" : "false");
    _rl_match_hidden_files = c.rlhidden;
    rl_complete_with_tilde_expansion = 0;
    rl_completion_type = 9;
    last = c, any = true;
}

//------------------------------------------------------------------------------
// The generator under the pipeline.
struct item { string text; int type; int tag; };
static vector<item> g_given;
static config g_cfg;
class generator : public match_generator
{
public:
    bool generate(const line_states&, match_builder& b, bool) override
    {
        fill(b);
        return true;
    }
    static void fill(match_builder& b)
    {
        if (g_cfg.files >= 0) b.set_matches_are_files(g_cfg.files != 0);
        if (g_cfg.deprecated) b.set_deprecated_mode();
        if (g_cfg.nosort) b.set_no_sort();
        for (auto& x : g_given)
        {
            char tag[12];
            sprintf(tag, "%d", x.tag);
            match_desc d(x.text.c_str(), nullptr, tag, match_type(x.type));
            b.add_match(d);
        }
    }
    void get_word_break_info(const line_state&, word_break_info&) const override {}
};
static generator g_gen;

static vector<item> listing(const matches& m)
{
    vector<item> out;
    for (unsigned i = 0; i < m.get_match_count(); ++i)
    {
        const char* t = m.get_match(i);
        const char* d = m.get_match_description(i);
        out.push_back({ t ? t : "(null)", int(m.get_match_type(i)), d ? atoi(d) : -1 });
    }
    return out;
}
static string show(const vector<item>& v)
{
    string o;
    for (auto& x : v)
    {
        char b[24];
        sprintf(b, ":%x#%d", x.type, x.tag);
        o += "{" + x.text + b + "}";
    }
    return o;
}
static string case_text(const string& op);
static bool bad(const string& key, const string& msg)
{
    mc::violation(key, case_text(msg.substr(0, msg.find(' '))), key + ": " + g_cfg.show() + " given " + show(g_given) + " | " + msg);
    return false;
}

static words g_words;
static string g_line;
static line_states g_states;
static void make_line()
{
    g_line = string("x ") + (g_cfg.sep ? string(1, g_cfg.sep) : string());
    g_words.clear();
    struct word w0 = {}; w0.offset = 0; w0.length = 1; w0.command_word = true;
    struct word w1 = {}; w1.offset = 2; w1.length = unsigned(g_line.size() - 2);
    g_words.push_back(w0); g_words.push_back(w1);
    g_states.clear();
    g_states.emplace_back(g_line.c_str(), unsigned(g_line.size()), unsigned(g_line.size()), unsigned(g_line.size()), 0u, 0u, unsigned(g_line.size()), g_words);
}
static void generate(matches_impl& m)
{
    match_pipeline p(m);
    p.reset();
    make_line();
    p.generate(g_states, &g_gen);
}

//------------------------------------------------------------------------------
// What the candidates must look like once they are all there.
static string translate(const string& t, char sep)
{
    string o = t;
    for (auto& c : o) if (is_sep(c)) c = sep;
    return o;
}
struct form { string text; int type; };
static bool same(const form& a, const form& b) { return a.text == b.text && (a.type == b.type || ((a.type | b.type) & HIST)); }
static void forms(const item& x, form& added, form& final)
{
    added = { x.text, x.type };
    int base = x.type & 7;
    const bool ends = is_sep(x.text.back());
    if (base == none && ends && !(x.type & HIST)) { added.type = (x.type & ~7) | dir; base = dir; }
    if (base == dir && !ends) added.text += '\\';
    const char sep = g_cfg.slash == 2 ? '/' : g_cfg.slash == 4 && g_cfg.sep ? g_cfg.sep : '\\';
    if (g_cfg.slash && (base == dir || base == file || (base == none && (x.type & HIST) && g_cfg.files == 1))) added.text = translate(added.text, sep);
    final = added;
    if (base == none && !(x.type & HIST) && (g_cfg.deprecated ? g_cfg.files == 1 : g_cfg.files != 0))
    {
        wchar_t wt[100];
        MultiByteToWideChar(CP_UTF8, 0, x.text.c_str(), -1, wt, 100);
        DWORD a = attr_of(wt);
        const bool d = a != INVALID_FILE_ATTRIBUTES && (a & FILE_ATTRIBUTE_DIRECTORY);
        final.type = d ? dir : file;
        if (d) final.text += sep;
    }
}
// Exactly the candidates, each once.
static bool check_built(const vector<item>& got, const char* when)
{
    const size_t n = g_given.size();
    static vector<form> add, fin;
    add.resize(n), fin.resize(n);
    for (size_t i = 0; i < n; ++i) if (g_given[i].text.size()) forms(g_given[i], add[i], fin[i]);
    vector<bool> in(n, false);
    for (size_t i = 0; i < got.size(); ++i)
    {
        const int t = got[i].tag;
        if (t < 0 || t >= int(n)) return bad("built", string(when) + ": not a candidate: " + show(got));
        if (in[t]) return bad("built", string(when) + ": twice: " + show(got));
        in[t] = true;
        if (g_given[t].text.empty() || fin[t].text != got[i].text || fin[t].type != got[i].type)
            return bad("built", string(when) + ": wrong text or type (want " + fin[t].text + " " + std::to_string(fin[t].type) + "): " + show(got));
    }
    for (size_t i = 0; i < n; ++i)
    {
        if (g_given[i].text.empty()) continue;
        bool ok = in[i];
        for (size_t k = 0; k < n; ++k)
            if (k != i && in[k] && in[i] && same(fin[i], fin[k])) return bad("built", string(when) + ": duplicates: " + show(got));
        // (A duplicate of a duplicate of what is there is covered, too.)
        vector<bool> seen(n, false);
        vector<size_t> todo = { i };
        seen[i] = true;
        while (!ok && !todo.empty())
        {
            size_t j = todo.back();
            todo.pop_back();
            for (size_t k = 0; k < n; ++k)
                if (!seen[k] && g_given[k].text.size() && (same(fin[j], fin[k]) || same(add[j], add[k])))
                {
                    seen[k] = true;
                    todo.push_back(k);
                    if (in[k]) ok = true;
                }
        }
        if (!ok) return bad("built", string(when) + ": candidate " + std::to_string(i) + " lost: " + show(got));
    }
    return true;
}

//------------------------------------------------------------------------------
// What a needle selects.
static string fold(const string& s)
{
    string o;
    for (char c : s)
    {
        if (g_cfg.ic && c >= 'A' && c <= 'Z') c |= 0x20;
        if (g_cfg.ic > 1 && c == '-') c = '_';
        if (c == '\\') c = '/';
        if (c == '/' && o.size() && o.back() == '/') continue;
        o += c;
    }
    return o;
}
static bool ref_prefix(const string& n, const string& t)
{
    string a = fold(n), b = fold(t);
    return b.compare(0, a.size(), a) == 0;
}
static bool ref_wild(const char* p, const char* f, bool pathish)
{
    if (!*p) return !*f;
    if (*p == '*')
    {
        const char* q = p;
        while (*q == '*' || *q == '?') ++q;
        if (!*q) return true;
        for (;; ++f)
        {
            if (ref_wild(q, f, pathish)) return true;
            if (!*f || (is_sep(*f) && pathish)) return false;
        }
    }
    if (*p == '?')
        return *f ? !is_sep(*f) && ref_wild(p + 1, f + 1, pathish) : ref_wild(p + 1, f, pathish);
    return *f && *p == *f && ref_wild(p + 1, f + 1, pathish);
}
static string base_name(const string& s)
{
    size_t i = s.size();
    while (i && !is_sep(s[i - 1])) --i;
    return s.substr(i);
}
static bool visible(const item& x, const string& needle)
{
    if (x.type & SYS) { if (!g_cfg.system) return false; }
    else if (x.type & HID) { if (!g_cfg.hidden || !g_cfg.rlhidden) return false; }
    string t = x.text;
    while (t.size() && is_sep(t.back())) t.pop_back();
    return g_cfg.rlhidden || base_name(needle)[0] == '.' || base_name(t)[0] != '.';
}
static bool wild_ok(const string& pat, const item& x)
{
    string t = x.text;
    while (t.size() && is_sep(t.back())) t.pop_back();
    const int b = x.type & 7;
    return ref_wild(fold(pat).c_str(), fold(t).c_str(), b == file || b == dir);
}
static bool can_sub(const string& n)
{
    if (!g_cfg.sub || n.empty() || n[0] == '~' || n[0] == '*') return false;
    if (!g_cfg.wild)
    {
        size_t e = n.find_last_not_of('*') + 1;
        if (n.find('?') != string::npos || n.find('*') < e) return false;
    }
    return true;
}
static vector<item> want_selected(const vector<item>& all, const string& n, bool restrict)
{
    vector<item> out;
    const bool wild = restrict || g_cfg.wild;
    const string star = restrict ? "" : "*";
    for (auto& x : all)
        if (visible(x, n) && (wild ? wild_ok(n + star, x) : ref_prefix(n, x.text))) out.push_back(x);
    if (out.empty() && can_sub(n))
    {
        const string b = base_name(n);
        const string pat = n.substr(0, n.size() - b.size()) + "*" + b + star;
        for (auto& x : all) if (visible(x, n) && wild_ok(pat, x)) out.push_back(x);
    }
    return out;
}
static bool less_sym(const item& a, const item& b, bool& eq)
{
    // Where directories go, then the number of leading minus signs, then the text.
    eq = false;
    auto is_dir = [](const item& x) { return (x.type & 7) == dir || ((x.type & 7) == none && !(x.type & HIST) && is_sep(x.text.back())); };
    const bool ad = is_dir(a), bd = is_dir(b);
    if (g_cfg.dirs != 1 && ad != bd) return g_cfg.dirs == 0 ? ad : bd;
    string x = a.text, y = b.text;
    if (ad && x.size() > 1 && is_sep(x.back())) x.pop_back();
    if (bd && y.size() > 1 && is_sep(y.back())) y.pop_back();
    size_t m = 0, n = 0;
    while (x[m] == '-') ++m;
    while (y[n] == '-') ++n;
    if (m != n) return m < n;
    for (DWORD f : { DWORD(NORM_LINGUISTIC_CASING|LINGUISTIC_IGNORECASE|8), DWORD(NORM_LINGUISTIC_CASING|8) })
    {
        wchar_t wx[100], wy[100];
        int i = MultiByteToWideChar(CP_UTF8, 0, x.data(), int(x.size()), wx, 100), j = MultiByteToWideChar(CP_UTF8, 0, y.data(), int(y.size()), wy, 100);
        int c = CompareStringW(LOCALE_USER_DEFAULT, f, wx, i, wy, j);
        if (c != CSTR_EQUAL) return c == CSTR_LESS_THAN;
    }
    eq = true;
    return false;
}
static bool check_selected(const matches_impl& m, const vector<item>& want, const string& what, bool sorted)
{
    auto got = listing(m);
    std::map<int, int> count;
    for (auto& x : want) count[x.tag]++;
    bool ok = got.size() == want.size();
    for (auto& x : got) if (--count[x.tag] < 0) ok = false;
    if (!ok) return bad("selected", what + ": selected " + show(got) + " instead of " + show(want));
    if (sorted)
        for (size_t i = 0; i < got.size(); ++i)
            for (size_t k = i + 1; k < got.size(); ++k)
            {
                bool eq;
                const bool wrong = g_cfg.nosort ? got[i].tag > got[k].tag : less_sym(got[k], got[i], eq);
                if (wrong) return bad("sorted", what + ": order " + show(got));
            }
    // The longest common prefix.
    str<> lcd;
    m.get_lcd(lcd);
    string l = lcd.c_str();
    if (got.empty()) { if (l.size()) return bad("lcd", what + ": lcd |" + l + "| of nothing"); }
    else
    {
        auto common = [&](const string& p) { for (auto& x : got) if (!ref_prefix(p, x.text)) return false; return true; };
        const string& f = got[0].text;
        if (f.compare(0, l.size(), l)) return bad("lcd", what + ": lcd |" + l + "| is not the start of " + show(got));
        if (!common(l)) return bad("lcd", what + ": lcd |" + l + "| is not common to " + show(got));
        if (l.size() < f.size() && common(f.substr(0, l.size() + 1))) return bad("lcd", what + ": lcd |" + l + "| is too short for " + show(got));
    }
    return true;
}
static bool check_iter(const matches_impl& m, const vector<item>& all, const string& pat)
{
    // A pattern iterates over what it matches, in order (visibility does not matter).
    vector<item> want;
    for (auto& x : all) if (wild_ok(pat, x)) want.push_back(x);
    if (want.empty() && can_sub(pat))
    {
        const string b = base_name(pat);
        const string p2 = pat.substr(0, pat.size() - b.size()) + "*" + b;
        for (auto& x : all) if (wild_ok(p2, x)) want.push_back(x);
    }
    vector<item> got;
    matches_iter it = m.get_iter(pat.c_str());
    while (it.next())
    {
        const char* d = it.get_match_description();
        got.push_back({ it.get_match(), int(it.get_match_type()), d ? atoi(d) : -1 });
        if (got.size() > 50) break;
    }
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i].tag == want[i].tag && got[i].text == want[i].text;
    return ok || bad("iter", "pattern " + pat + " gives " + show(got) + " instead of " + show(want));
}

static const char* c_needles[] = { "", "a", "A", "ab", "b", "a*", "*b", "?b", ".", "d", "d\\", "d/", "sub/", "sub\\a", "sub\\b", "-", "--", "_", "~", "x", "a?", "b*", "a ", "b**", "b?*" };

static void set_given(const vector<int>& idx)
{
    g_given.clear();
    for (size_t i = 0; i < idx.size(); ++i) g_given.push_back({ c_all[idx[i]].text, c_all[idx[i]].type, int(i) });
}
static string case_text(const string& op)
{
    string o = g_mode + ";";
    for (auto& x : g_given) o += x.text + ":" + std::to_string(x.type) + ",";
    return o + ";" + g_cfg.show() + ";" + op;
}

//------------------------------------------------------------------------------
static void lists(int n, const vector<int>& from, const std::function<void(const vector<int>&)>& f)
{
    vector<int> cur;
    std::function<void()> rec = [&]() {
        f(cur);
        if (int(cur.size()) >= n || mc::enough()) return;
        for (int i : from) { cur.push_back(i); rec(); cur.pop_back(); }
    };
    rec();
}
static matches_impl* g_m;

static void one_build()
{
    apply(g_cfg);
    str_compare_scope sc(g_cfg.ic, false);
    generate(*g_m);
    mc::stat("evaluations");
    mc::tick();
    auto got = listing(*g_m);
    if (got.size() > 1) mc::stat("distinct_nontrivial");
    if (!check_built(got, "built")) return;
    // In another object, filled while it is being typed and handed over when it is ready.
    {
        auto tk = make_match_builder_toolkit(7, g_states.back());
        generator::fill(*tk->get_builder());
        match_pipeline p(*g_m);
        p.reset();
        g_m->transfer(static_cast<matches_impl&>(*tk->get_matches()));
        g_m->done_building();
        if (g_m->get_word_break_position() != 2) { bad("built", "handed over without the word break position"); return; }
        if (!check_built(listing(*g_m), "handed over")) return;
    }
    // A copy has the same.
    static matches_impl copy;
    copy.copy(*g_m);
    auto l1 = listing(*g_m), l2 = listing(copy);
    if (show(l1) != show(l2)) { bad("copy", "copy has " + show(l2) + " instead of " + show(l1)); return; }
    match_pipeline p(copy);
    p.select("");
    check_selected(copy, want_selected(l1, "", false), "everything after copying", false);
}
static void one_select(const char* needle)
{
    apply(g_cfg);
    str_compare_scope sc(g_cfg.ic, false);
    generate(*g_m);
    mc::stat("evaluations");
    mc::tick();
    auto all = listing(*g_m);
    if (!check_iter(*g_m, all, needle)) return;
    match_pipeline p(*g_m);
    p.select(needle);
    p.sort();
    auto want = want_selected(all, needle, false);
    if (want.size() && want.size() < all.size()) mc::stat("distinct_nontrivial");
    check_selected(*g_m, want, string("needle ") + needle, true);
}
// Sequences of operations: digits s0..: select, r: restrict, k: keep some, c: continue with a copy, t: hand over.
static const vector<string> c_ops = { "s", "sa", "sab", "sb", "s.", "sd", "ssub/", "sA", "rab*", "ra*", "r*b", "rx*", "r?b*", "k0", "k1", "c", "t" };
static bool run_seq(const vector<string>& ops)
{
    apply(g_cfg);
    str_compare_scope sc(g_cfg.ic, false);
    static matches_impl a, b;
    matches_impl* m = &a;
    matches_impl* other = &b;
    generate(*m);
    auto all = listing(*m);
    string hist;
    for (auto& op : ops)
    {
        hist += op + ";";
        match_pipeline p(*m);
        const string arg = op.substr(1);
        mc::stat("operations");
        if (op[0] == 's')
        {
            p.select(arg.c_str());
            p.sort();
            if (!check_selected(*m, want_selected(all, arg, false), hist, true)) return false;
        }
        else if (op[0] == 'r')
        {
            str<> n(arg.c_str());
            auto want = want_selected(all, arg, true);
            p.restrict(n);
            if (string(n.c_str()) != arg.substr(0, arg.find_first_of("*?"))) return bad("restrict", hist + " needle becomes " + n.c_str());
            if (!check_selected(*m, want, hist, false)) return false;
            all = want;
        }
        else if (op[0] == 'k')
        {
            auto cur = listing(*m);
            vector<string> texts;
            vector<item> want;
            for (size_t i = 0; i < cur.size(); ++i) if (int(i % 2) == arg[0] - '0') texts.push_back(cur[i].text);
            vector<char*> keep = { (char*)"lcd" };
            for (auto& t : texts) keep.push_back((char*)t.c_str());
            keep.push_back(nullptr);
            for (auto& x : all) for (auto& t : texts) if (x.text == t) { want.push_back(x); break; }
            p.restrict(&keep[0]);
            if (!check_selected(*m, want, hist, false)) return false;
            all = want;
        }
        else if (op[0] == 'c') { other->copy(*m); std::swap(m, other); other->clear(); }
        else { match_pipeline q(*other); q.reset(); other->transfer(*m); std::swap(m, other); }
    }
    return true;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    const bool th = mc::thorough();
    rl_backslash_path_sep = 1;
    rl_preferred_path_separator = '\\';
    matches_impl m;
    g_m = &m;
    mc::ull index = 0;
    vector<int> every, some;
    for (int i = 0; i < int(c_all.size()); ++i) every.push_back(i);
    // The harness enumerates quickly enough that a replay is the enumeration, stopped at the recorded case.
    if (g_mode == "build")
    {
        for (int slash = 0; slash < 5; ++slash)
            for (char sep : { '\0', '/', '\\' })
                for (int files = -1; files < 2; ++files)
                    for (int dep = 0; dep < 2; ++dep)
                    {
                        if (sep && slash != 4) continue;
                        g_cfg = config();
                        g_cfg.slash = slash, g_cfg.sep = sep, g_cfg.files = files, g_cfg.deprecated = !!dep;
                        lists(th ? 4 - (dep || slash % 2 == 0) : 3, every, [&](const vector<int>& v) {
                            if (mc::mine(index++)) { set_given(v); one_build(); }
                        });
                    }
    }
    else if (g_mode == "select")
    {
        for (int bits = 0; bits < 64; ++bits)
            for (int ic = 0; ic < 3; ++ic)
                for (int dirs = 0; dirs < 3; ++dirs)
                {
                    g_cfg = config();
                    g_cfg.wild = bits & 1, g_cfg.sub = bits & 2, g_cfg.rlhidden = !(bits & 4), g_cfg.hidden = !(bits & 8), g_cfg.system = bits & 16, g_cfg.nosort = bits & 32;
                    g_cfg.ic = ic, g_cfg.dirs = dirs;
                    if (g_cfg.nosort && dirs != 1) continue;
                    const bool main = bits < 4 && ic == 1 && dirs == 1;
                    lists(th ? (main ? 4 : 3) : main ? 3 : 2, every, [&](const vector<int>& v) {
                        if (!mc::mine(index++) || mc::enough()) return;
                        set_given(v);
                        for (auto n : c_needles) one_select(n);
                    });
                }
    }
    else if (g_mode == "seq")
    {
        const vector<vector<int>> sets = { { 0, 3, 4, 24, 6 }, { 3, 8, 15, 18, 21, 12 }, { 24, 4, 3, 15, 0, 19 }, { 7, 13, 9, 16, 26 } };
        for (int bits = 0; bits < 8; ++bits)
            for (auto& s : sets)
            {
                g_cfg = config();
                g_cfg.wild = bits & 1, g_cfg.sub = bits & 2, g_cfg.nosort = bits & 4;
                set_given(s);
                vector<string> ops;
                std::function<void()> rec = [&]() {
                    if (mc::mine(index++)) { mc::stat("evaluations"); mc::tick(); if (ops.size() > 1) mc::stat("distinct_nontrivial"); if (!run_seq(ops)) return; }
                    if (int(ops.size()) >= (th ? 5 : 4) || mc::enough()) return;
                    for (auto& o : c_ops) { ops.push_back(o); rec(); ops.pop_back(); }
                };
                rec();
            }
    }
    else if (g_mode == "order")
    {
        // The order is a strict weak order, whatever the types.
        vector<item> xs;
        for (auto t : { "a", "A", "b", "a\\", "A\\", "b\\", "-a", "--a", "-", "a-", "a2", "a10", ".a", "_a", "a b", "a'", "\xc3\xa9", "\xc3\x89" })
            for (int ty = none; ty <= dir; ++ty)
                for (int h : { 0, int(HIST) }) if (!h || ty == none || ty == word) xs.push_back({ t, ty | h, 0 });
        for (int dirs = 0; dirs < 3; ++dirs)
        {
            g_cfg = config();
            g_cfg.dirs = dirs;
            apply(g_cfg);
            const size_t n = xs.size();
            vector<char> lt(n * n);
            for (size_t i = 0; i < n; ++i)
                for (size_t k = 0; k < n; ++k)
                {
                    lt[i * n + k] = compare_matches(xs[i].text.c_str(), match_type(xs[i].type), xs[k].text.c_str(), match_type(xs[k].type));
                    bool eq;
                    bool w = less_sym(xs[i], xs[k], eq);
                    if (!eq && w != !!lt[i * n + k]) { g_given = { xs[i], xs[k] }; bad("order", "compared wrongly"); }
                    mc::stat("evaluations");
                }
            for (size_t i = 0; i < n && !mc::enough(); ++i)
            {
                if (!mc::mine(index++)) continue;
                for (size_t k = 0; k < n; ++k)
                    for (size_t j = 0; j < n; ++j)
                    {
                        const bool ik = lt[i * n + k], kj = lt[k * n + j], ij = lt[i * n + j], ki = lt[k * n + i], jk = lt[j * n + k], ji = lt[j * n + i];
                        mc::stat("distinct_nontrivial");
                        if ((ik && ki) || (ik && kj && !ij) || (!ik && !ki && !kj && !jk && (ij || ji))) { g_given = { xs[i], xs[k], xs[j] }; bad("order", "not an order"); }
                    }
            }
        }
    }
    else if (g_mode == "many" && mc::S().shard == 0)
    {
        for (int n : { 65534, 65535, 65536, 65537, 70000, 131072 })
        {
            g_cfg = config();
            g_given.clear();
            for (int i = 0; i < n; ++i) { char b[20]; sprintf(b, "f%06d", i); g_given.push_back({ b, word, i }); }
            apply(g_cfg);
            str_compare_scope sc(1, false);
            generate(m);
            mc::tick();
            match_pipeline p(m);
            p.select("f");
            mc::stat("evaluations");
            mc::stat("distinct_nontrivial");
            const unsigned got = m.get_match_count();
            g_given.resize(1);
            if (int(got) != n) { bad("many", std::to_string(n) + " candidates, " + std::to_string(got) + " offered"); break; }
            p.select("f000009");
            mc::tick();
            if (m.get_match_count() != 1) bad("many", "one of many not found");
        }
    }
    return mc::done();
}
