// History expansion (!!, !n, !str, !?str?, words, modifiers, ^a^b^) against a reference.
//   --mode chars | parts | edits
#include "mc.h"
#include "utf8_locale.h"
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include <lib/history_db.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include "term.h"
extern "C" {
#include <readline/readline.h>
#include <readline/history.h>
extern int history_host_backslash_escape;
extern int history_prev_use_curr;
}
void set_test_harness();
void set_noasync_recognizer();
void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user);

using std::string;
using std::vector;

static term::out g_term;
static string g_mode;
static const char* const c_modes[] = { "on", "not_squoted", "not_dquoted", "not_quoted" };
static int s_quotes = 0;                    // Index in c_modes.

//------------------------------------------------------------------------------
// The reference.
struct segment { size_t start, len; string text; bool operator == (const segment& o) const { return start == o.start && len == o.len && text == o.text; } };
struct outcome { int code = 0; string text; vector<segment> segs; };
struct failed {};

static const string c_spaces = " \t\n";
static bool in(char c, const char* set) { return c && strchr(set, c); }
static bool digit(char c) { return c >= '0' && c <= '9'; }

struct reference
{
    const vector<string>* hist = nullptr;
    string sub_from, sub_to;                // What :& repeats.
    bool have_from = false;
    bool vague = false;                     // The outcome isn't claimed.

    string line;
    string out;
    string sought; bool have_sought = false;
    string found; 
    char at(size_t i) const { return i < line.size() ? line[i] : 0; }

    // The words of a line as a shell would split them.
    static size_t word_end(const string& s, size_t i)
    {
        auto c = [&](size_t k) { return k < s.size() ? s[k] : char(0); };
        if (in(c(i), "()")) return i + 1;
        size_t d = i;
        while (digit(c(d))) d++;
        if (d > i)
        {
            if (!c(d)) return d;
            if (in(c(d), "<>")) i = d;      // A redirected handle belongs to the operator.
        }
        if (i == d && in(c(i), "<>;&|"))
        {
            if (c(i + 1) == c(i)) return i + (c(i) == '<' && in(c(i + 2), "-<") ? 3 : 2);
            if (c(i + 1) == '&' && in(c(i), "<>"))
            {
                for (i += 2; digit(c(i)); ++i) ;
                return i + (c(i) == '-');
            }
            if ((c(i) == '&' && c(i + 1) == '>') || (c(i) == '>' && c(i + 1) == '|')) return i + 2;
            return i + 1;
        }
        char quote = 0;
        for (i = d; c(i); ++i)
        {
            if (quote) { if (c(i) == quote) quote = 0; }
            else if (in(c(i), "\"'`")) quote = c(i);
            else if (in(c(i), " \t\n;&()|<>")) break;
        }
        return i;
    }
    static vector<std::pair<size_t, size_t>> words(const string& s)
    {
        vector<std::pair<size_t, size_t>> w;
        for (size_t i = 0;;)
        {
            while (i < s.size() && in(s[i], " \t\n")) i++;
            if (i >= s.size()) return w;
            size_t e = word_end(s, i);
            w.push_back({ i, e - i });
            i = e;
        }
    }
    // Words first..last joined; false if there are no such words.
    static bool pick(const string& s, int first, int last, string& res)
    {
        auto w = words(s);
        const int n = int(w.size());
        if (!n || first >= n || last >= n || last < first - 1 || last < -1) return false;
        res.clear();
        for (int i = first; i <= last; ++i) { if (i > first) res += ' '; res += s.substr(w[i].first, w[i].second); }
        return true;
    }

    string nth(long n) { if (n < 1 || n > long(hist->size())) throw failed(); return (*hist)[n - 1]; }

    string event(size_t& i, char quote)
    {
        // line[i] follows the '!'.
        if (in(at(i), ":$*%^")) return nth(long(hist->size()));
        if (at(i) == '#') { i++; return out; }
        if (at(i) == '!') { i++; return nth(long(hist->size())); }
        const bool back = at(i) == '-' && digit(at(i + 1));
        if (back) i++;
        if (digit(at(i)))
        {
            long n = 0;
            for (; digit(at(i)); ++i) n = n * 10 + (at(i) - '0');
            return nth(back ? long(hist->size()) + 1 - n : n);
        }
        const bool inside = at(i) == '?';
        if (inside) i++;
        string what;
        for (; at(i) && at(i) != '\n'; ++i)
        {
            char c = at(i);
            if (inside ? c == '?' : (in(c, " \t:^$*%") || (quote && c == quote) || (c == '-' && !what.empty()))) break;
            what += c;
        }
        if (inside && at(i) == '?') i++;
        if (what.empty()) { if (!inside || !have_sought) throw failed(); what = sought; }
        for (size_t k = hist->size(); k--;)
        {
            const string& h = (*hist)[k];
            size_t p = inside ? h.rfind(what) : h.compare(0, what.size(), what) == 0 ? 0 : string::npos;
            if (p == string::npos) continue;
            if (inside)
            {
                sought = what; have_sought = true;
                found.clear();
                for (auto& w : words(h)) if (p >= w.first && p < w.first + w.second) found = h.substr(w.first, w.second);
            }
            return h;
        }
        throw failed();
    }

    string select(size_t& i, const string& ev)
    {
        size_t k = i;
        const bool colon = at(k) == ':';
        if (colon) k++;
        string res;
        if (at(k) == '%') { i = k + 1; return found; }
        if (at(k) == '*') { i = k + 1; if (!pick(ev, 1, int(words(ev).size()) - 1, res)) res.clear(); return int(words(ev).size()) > 1 ? res : string(); }
        const int end = int(words(ev).size()) - 1;
        if (at(k) == '$') { i = k + 1; return pick(ev, end, end, res) ? res : ev; }
        int first, last;
        if (at(k) == '-') first = 0;
        else if (at(k) == '^') { first = 1; k++; }
        else if (colon && digit(at(k))) { for (first = 0; digit(at(k)); ++k) first = first * 10 + (at(k) - '0'); }
        else return ev;
        if (at(k) == '^') { last = 1; k++; if (last < first) throw failed(); }
        else if (at(k) == '*') { last = end; k++; }
        else if (at(k) != '-') last = first;
        else
        {
            k++;
            if (digit(at(k))) { for (last = 0; digit(at(k)); ++k) last = last * 10 + (at(k) - '0'); if (last < first) throw failed(); }
            else if (at(k) == '$') { k++; last = end; }
            else if (at(k) == '^') { k++; last = 1; if (last < first) throw failed(); }
            else last = end - 1;
        }
        i = k;
        if (!pick(ev, first, last, res)) throw failed();
        return res;
    }

    string pattern(size_t& i, char delim)
    {
        string p;
        for (; at(i) && at(i) != delim; ++i)
        {
            if (at(i) == '\\' && at(i + 1) && at(i + 1) == delim) i++;
            p += at(i);
        }
        if (at(i)) i++;
        return p;
    }

    string modify(size_t& i, string text, bool& print)
    {
        bool global = false;
        char quotes = 0;
        while (at(i) == ':')
        {
            char c = at(++i);
            if (c == 'g' || c == 'a') { global = true; c = at(++i); }
            else if (c == 'G') { vague = true; c = at(++i); }
            i++;
            size_t p;
            switch (c)
            {
            case 'q': case 'x': quotes = c; break;
            case 'p': print = true; break;
            case 't': p = text.find_last_of("/\\"); if (p != string::npos) text.erase(0, p + 1); break;
            case 'h': p = text.find_last_of("/\\"); if (p != string::npos) text.erase(p); break;
            case 'r': p = text.rfind('.'); if (p != string::npos) text.erase(p); break;
            case 'e': p = text.rfind('.'); if (p != string::npos) text.erase(0, p); break;
            case 's':
            case '&':
                if (c == 's')
                {
                    if (!at(i)) break;      // Nothing to substitute.
                    char delim = uint8(at(i)) >= 0x80 ? 0 : at(i);
                    i++;
                    string from = pattern(i, delim);
                    if (!from.empty()) { sub_from = from; have_from = true; }
                    else if (!have_from && have_sought) { sub_from = sought; have_from = true; }
                    sub_to.clear();
                    string to = pattern(i, delim);
                    for (size_t k = 0; k < to.size(); ++k)
                    {
                        if (to[k] == '&' && have_from) sub_to += sub_from;
                        else
                        {
                            if (to[k] == '\\' && k + 1 < to.size() && to[k + 1] == '&' && have_from) k++;
                            sub_to += to[k];
                        }
                    }
                }
                if (!have_from) throw failed();
                p = text.find(sub_from);
                if (p == string::npos) throw failed();
                do
                {
                    text.replace(p, sub_from.size(), sub_to);
                    p = text.find(sub_from, p + sub_to.size());
                } while (global && p != string::npos);
                global = false;
                break;
            default:
                throw failed();
            }
        }
        if (quotes)
        {
            string q = "'";
            for (char c : text)
            {
                if (c == '\'') q += "'\\''";
                else if (quotes == 'x' && in(c, " \t\n")) { q += '\''; q += c; q += '\''; }
                else q += c;
            }
            text = q + "'";
        }
        return text;
    }

    static bool quoted(const string& s, size_t upto)
    {
        if (s_quotes == 0) return false;
        char q = 0;
        for (size_t i = 0; i < upto; ++i)
            if (s[i] == '"' || s[i] == '\'') q = q == s[i] ? 0 : s[i];
        return (q == '\'' && s_quotes != 2) || (q == '"' && s_quotes != 1);
    }

    outcome expand(const string& typed)
    {
        outcome o;
        vague = false;
        out.clear();
        const bool quick = typed[0] == '^';
        line = quick ? "!!:s" + typed : typed;
        bool any = quick;
        for (size_t i = 0; !any && i < line.size(); ++i)
            any = line[i] == '!' && at(i + 1) && !in(at(i + 1), " \t\n\r=") && !quoted(line, i);
        if (!any) { o.text = line; return o; }
        bool dquote = false, squote = false, print = false;
        try
        {
            for (size_t i = 0; i < line.size(); ++i)
            {
                char c = line[i];
                if (c == '"') dquote = !dquote;
                if (c == '\'') { if (squote) squote = false; else if (!dquote) squote = true; }
                if (c != '!' || !at(i + 1) || in(at(i + 1), " \t\n\r=") || (dquote && at(i + 1) == '"') || quoted(out, out.size()))
                {
                    out += c;
                    continue;
                }
                size_t e = i + 1;
                string ev = event(e, squote ? '\'' : dquote ? '"' : 0);
                string text = select(e, ev);
                text = modify(e, text, print);
                const size_t start = quick ? (i ? i - 4 : 0) : i;
                o.segs.push_back({ start, (quick ? e - 4 : e) - start, text });
                out += text;
                i = e - 1;
            }
        }
        catch (failed&)
        {
            o.code = -1;
            o.text = typed;
            o.segs.clear();
            return o;
        }
        o.text = out;
        o.code = print ? 2 : o.segs.empty() ? 0 : 1;
        return o;
    }
};

//------------------------------------------------------------------------------
static reference s_ref;
static vector<string> s_list;
static void set_list(const vector<string>& list)
{
    clear_history();
    s_list = list;
    s_ref.hist = &s_list;
    for (auto& l : list) add_history(l.c_str());
}
static void set_quotes(int m)
{
    s_quotes = m;
    settings::find("history.expand_mode")->set(c_modes[m]);
}
// What :& repeats and what !?? looks for is made known.
static void normalise()
{
    if (!s_list.empty()) s_ref.expand("!?b?");
    {
        str<> out("!?b?");
        history_db::expand(out.c_str(), out);
    }
    str<> out("!#:s/Q/R/");
    history_db::expand(out.c_str(), out);
    s_ref.sub_from = "Q"; s_ref.sub_to = "R"; s_ref.have_from = true;
}

static string show(const outcome& o)
{
    string s = std::to_string(o.code) + " \"" + o.text + "\"";
    for (auto& g : o.segs) s += " [" + std::to_string(g.start) + "+" + std::to_string(g.len) + " \"" + g.text + "\"]";
    return s;
}

static bool check(const string& cs, const string& typed)
{
    mc::stat("evaluations");
    reference before = s_ref;
    outcome want = s_ref.expand(typed);
    if (s_ref.vague) { s_ref = before; mc::stat("not_claimed"); return true; }
    mc::current(cs);

    // As the preview and the coloring do it.
    outcome got;
    const int where = where_history(), prev = history_prev_use_curr;
    {
        save_history_expansion_state();
        using_history();
        char* text = nullptr;
        history_return_expansions = 1;
        got.code = history_expand(const_cast<char*>(typed.c_str()), &text);
        got.text = got.code < 0 ? typed : text ? text : "(null)";
        free(text);
        for (history_expansion* e = history_expansions; e; e = e->next) got.segs.push_back({ size_t(e->start), size_t(e->len), e->result ? e->result : "(null)" });
        history_free_expansions(&history_expansions);
        restore_history_expansion_state();
    }
    if (got.code != want.code || got.text != want.text || !(got.segs == want.segs))
    {
        mc::violation(g_mode + " " + cs, cs, "previewing " + typed + " gives " + show(got) + ", not " + show(want));
        return false;
    }

    // As it is done on Enter.  The preview changes nothing: not what :& repeats, nor what !?? looks for.
    s_ref = before;
    want = s_ref.expand(typed);
    str<> line(typed.c_str());
    int code = history_db::expand(line.c_str(), line);
    if (code != want.code || want.text != line.c_str())
    {
        mc::violation(g_mode + " " + cs, cs, "expanding " + typed + " gives " + std::to_string(code) + " \"" + line.c_str() + "\", not " + show(want));
        return false;
    }
    if (where_history() != where || history_prev_use_curr != prev || history_length != int(s_list.size()))
    {
        mc::violation(g_mode + " " + cs, cs, "expanding " + typed + " changes the history position");
        return false;
    }
    for (size_t i = 0; i < s_list.size(); ++i)
        if (s_list[i] != history_list()[i]->line) { mc::violation(g_mode + " " + cs, cs, "expanding " + typed + " changes the history"); return false; }
    if (want.code > 0 && want.text.size() > 1) mc::stat("distinct_nontrivial");
    return true;
}

//------------------------------------------------------------------------------
static const vector<vector<string>> c_lists = {
    {},
    { "ab", "a b" },
    { "b 'a b' \"b a\" c", "ab /a.b\\c.a 1", "2>ab;a 'b\"" },
    { "as/b", "!b a", "\xc3\xa9" "a-b a", "a" },
    { "b^a b", "%a$ b*a:", "a  b aa 12 aab" },
};
static bool one(const string& typed, int list, int quotes)
{
    string cs = std::to_string(list) + ";" + std::to_string(quotes) + ";" + typed;
    if (typed.find_first_of("s&^?%") != string::npos) normalise();
    return check(cs, typed);
}

static const char* const c_chars[] = { "!", "?", "^", ":", "$", "*", "-", "%", "#", "1", "2", "a", "b", "\"", "'", " ", "s", "/", "&", "\\", "\xc3\xa9" };
static void chars_all()
{
    const int n = sizeof(c_chars) / sizeof(*c_chars), depth = mc::thorough() ? 6 : 5;
    for (int list = 0; list < int(c_lists.size()); ++list)
    {
        set_list(c_lists[list]);
        for (int quotes = 0; quotes < 4; ++quotes)
        {
            set_quotes(quotes);
            size_t serial = 0;
            std::function<void(string, int, bool, bool)> rec = [&](string s, int d, bool bang, bool quote) {
                if (mc::enough()) return;
                // The setting for quotes matters only where there are some.
                if (d && (d > 2 || mc::S().shard == 0) && (bang || d < 4) && (quote || quotes == 0)) one(s, list, quotes);
                if (d == depth) return;
                for (int i = 0; i < n; ++i)
                {
                    if (d == 2 && !mc::mine(serial++)) continue;
                    // The last two characters begin nothing.
                    if (!bang && d >= depth - 1) return;
                    rec(s + c_chars[i], d + 1, bang || i == 0 || (d == 0 && i == 2), quote || i == 13 || i == 14);
                }
            };
            rec("", 0, false, false);
        }
    }
}

static const char* const c_events[] = { "!!", "!", "!1", "!2", "!3", "!-1", "!-2", "!-4", "!-0", "!0", "!a", "!ab", "!b", "!?b?", "!?a b?", "!?b", "!?zz?", "!#", "!2>", "!\xc3", "!%" };
static const char* const c_words[] = { "", ":0", ":1", ":2", "^", ":^", "$", ":$", "*", ":*", ":2*", ":1-2", ":0-1", ":2-1", "-", ":-", ":1-", ":2-", "-$", ":1-$", ":-2", "%", ":%", ":9", ":0-^", ":1^" };
static const char* const c_mods[] = { ":h", ":t", ":r", ":e", ":p", ":q", ":x", ":s/a/b/", ":s/a/b", ":gs/a/&b/", ":as/b//", ":s/b/\\&/", ":s//x/", ":s/a/", ":s", ":s/", ":&", ":g&", ":z", ":", ":gh", ":s;a;;", ":s/\\//-/", ":s/aa/a", ":s\xc3\xa9" "a\\", ":s\xc3\xa9" "a" };
static const char* const c_around[][2] = { { "", "" }, { "a ", " b" }, { "\"", "\"" }, { "'", "'" }, { "'a\" ", " \"!a'" }, { "! !a!= ", "!!" }, { "!?b ", "? !?? !%" }, { "^b^a^ ", "!-1 x" } };
static void parts_all()
{
    size_t serial = 0;
    for (int list = 0; list < int(c_lists.size()); ++list)
    {
        set_list(c_lists[list]);
        for (auto& around : c_around)
            for (int quotes = 0; quotes < 4; ++quotes)
            {
                if (quotes && !strpbrk(around[0], "\"'")) continue;
                set_quotes(quotes);
                for (auto ev : c_events)
                    for (auto w : c_words)
                    {
                        if (mc::enough()) return;
                        if (!mc::mine(serial++)) continue;
                        std::function<void(string, int)> rec = [&](string m, int d) {
                            one(string(around[0]) + ev + w + m + around[1], list, quotes);
                            if (d == (&around == c_around ? 2 + mc::thorough() : &around == c_around + 1 ? 2 : 1 + mc::thorough())) return;
                            for (auto x : c_mods) rec(m + x, d + 1);
                        };
                        rec("", 0);
                    }
            }
    }
}

// The history is edited between the expansions: lines are added, removed and replaced, as the editor does it.
static const char* const c_typed[] = { "!a", "!?b?", "!ac", "!!:s/a/x/", "!!:&", "^b^y^", "!?b?:%" };
static const char* const c_lines[] = { "ab", "ac b", "c" };
static bool edits_case(const vector<int>& ops)
{
    string cs;
    for (int o : ops) cs += (cs.empty() ? "" : ";") + std::to_string(o);
    set_list({ "ab 1", "ac 2", "cb 3" });
    {
        str<> out("!zz");
        history_db::expand(out.c_str(), out);
    }
    normalise();
    for (int o : ops)
    {
        if (o < 7)
        {
            if (!check(cs, c_typed[o])) return false;
            continue;
        }
        o -= 7;
        if (o < 3) { add_history(c_lines[o]); s_list.push_back(c_lines[o]); continue; }
        o -= 3;
        if (o < 3)
        {
            if (o >= int(s_list.size())) continue;
            free_history_entry(remove_history(o));
            s_list.erase(s_list.begin() + o);
            continue;
        }
        o -= 3;
        const int at = o / 3;
        if (at >= int(s_list.size())) continue;
        free_history_entry(replace_history_entry(at, c_lines[o % 3], nullptr));
        s_list[at] = c_lines[o % 3];
    }
    return true;
}
static void edits_all()
{
    set_quotes(3);
    const int n = 7 + 3 + 3 + 9, depth = mc::thorough() ? 6 : 5;
    size_t serial = 0;
    vector<int> ops;
    std::function<void()> rec = [&]() {
        if (mc::enough()) return;
        // Only what ends with an expansion shows something new.
        if (!ops.empty() && ops.back() < 7 && (ops.size() >= 3 || mc::S().shard == 0)) edits_case(ops);
        if (int(ops.size()) == depth) return;
        for (int i = 0; i < (int(ops.size()) == depth - 1 ? 7 : n); ++i)
        {
            if (ops.size() == 2 && !mc::mine(serial++)) continue;
            ops.push_back(i);
            rec();
            ops.pop_back();
        }
    };
    rec();
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    set_noasync_recognizer();
    set_test_harness();
    static printer pr(g_term);
    static printer_context ctx(&g_term, &pr);
    settings::TEST_set_ever_loaded();
    _rl_utf8locale = 1;
    initialise_readline("clink", "Z:\\nonexistent", "", true);
    history_database db("\\\\.\\nul", 1, false);
    using_history();
    if (mc::S().replaying)
    {
        if (g_mode == "edits")
        {
            vector<int> ops;
            for (auto& f : mc::split(mc::S().replay, ';')) ops.push_back(atoi(f.c_str()));
            set_quotes(3);
            edits_case(ops);
            return mc::done();
        }
        vector<string> f = mc::split(mc::S().replay, ';');
        string typed = mc::S().replay.substr(f[0].size() + f[1].size() + 2);
        set_list(c_lists[atoi(f[0].c_str())]);
        set_quotes(atoi(f[1].c_str()));
        one(typed, atoi(f[0].c_str()), atoi(f[1].c_str()));
        return mc::done();
    }
    if (g_mode == "chars") chars_all();
    else if (g_mode == "parts") parts_all();
    else edits_all();
    return mc::done();
}
