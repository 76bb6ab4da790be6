// Going through the history with keys in the real line editor, against a model of the list, the edited
// lines and the typed line; and several lines one after the other, as the host has them.
//   --mode keys | replay
#include "ed_session.h"
#include <lib/sticky_search.h>
extern "C" int rl_has_saved_history(void);
extern "C" int _rl_history_point_at_end_of_anchored_search, _rl_search_case_fold;
int32 host_add_history(int32, const char*, const char**) { return 0; }
int32 host_remove_history(int32, const char*) { return 1; }

static string g_mode;
static bool bad(const string& cs, const string& msg) { mc::violation(g_mode + " " + cs, cs, msg); return false; }
struct op { const char* name; const char* command; const char* keys; bool core = false; };
static vector<op> s_ops;
static vector<string> s_bytes;
static const char c_two[] = "\x1c" "2";
static void bind_ops()
{
    rl_bind_keyseq(c_two, rl_named_function("digit-argument"));
    char c = 'A';
    for (auto& o : s_ops)
    {
        if (!o.command) { s_bytes.push_back(o.keys); continue; }
        rl_command_func_t* f = rl_named_function(o.command);
        if (!f) { printf("no command %s\n", o.command); exit(3); }
        string k = string("\x1c") + c++;
        rl_bind_keyseq(k.c_str(), f);
        // What is typed before it.
        s_bytes.push_back(string(o.keys ? o.keys : "") + k);
    }
}

//------------------------------------------------------------------------------
struct start { vector<string> lines; bool at_end, fold, sticky; };
static vector<start> s_starts;
static bool same(char a, char b, bool fold) { return a == b || (fold && tolower(uint8(a)) == tolower(uint8(b))); }

struct model
{
    const start& cfg;
    vector<string> given, lines;        // as entered; as edited
    vector<bool> edited;
    int pos;                            // which one is shown; lines.size(): the typed line
    string typed, cur;
    bool have_typed = false;            // the typed line is put aside
    int at = 0;
    bool reused = false;                // nothing is shown yet, but going back begins at pos itself
    // Searching.
    int family = 0;                     // the last key: 0 another one, 1 by beginning, 2 by any part
    string needle, found;
    bool any = false;
    int spos = -1, captured = -1;
    model(const start& c) : cfg(c), given(c.lines), lines(c.lines), edited(c.lines.size()), pos(int(c.lines.size())) {}
    int n() const { return int(lines.size()); }
    void show(int i) { pos = i; cur = lines[i]; at = int(cur.size()); }
    void back_to_typed() { pos = n(); if (have_typed) { cur = typed; at = int(cur.size()); have_typed = false; } }
    void keep() { if (pos < n() && !reused) lines[pos] = cur; }
    void up(int count)
    {
        if (!count || !n()) return;
        keep();
        int to = pos - (count - (reused ? 1 : 0));
        bool fail = !reused && pos == 0;
        reused = false;
        if (fail) return;
        if (!have_typed && pos == n()) typed = cur, have_typed = true;
        else if (!have_typed) typed = "", have_typed = true;
        show(to < 0 ? 0 : to);
    }
    void down(int count)
    {
        if (!count) return;
        keep();
        reused = false;
        if (!have_typed && pos < n()) typed = "", have_typed = true;
        if (pos + count < n()) show(pos + count);
        else if (pos < n()) back_to_typed();
    }
    // The next line with the text, from a position on.
    int find(int i, int dir, int& col) const
    {
        if (i < 0 || i > n()) return -1;
        col = -1;
        if (!n()) return -1;
        if (i == n()) { if (dir > 0) return -1; i--; }
        for (; i >= 0 && i < n(); i += dir)
        {
            const string& l = lines[i];
            int where = -1;
            for (size_t k = 0; k + needle.size() <= l.size(); ++k)
            {
                bool ok = true;
                for (size_t j = 0; j < needle.size() && ok; ++j) ok = same(l[k + j], needle[j], cfg.fold);
                if (ok && (family != 1 || k == 0) && (where < 0 || dir < 0)) where = int(k);
            }
            if (where >= 0) { col = where; return i; }
        }
        return -1;
    }
    void search(int dir, int fam, int count = 1)
    {
        if (family != fam)
        {
            spos = reused ? n() : pos;
            needle = cur.substr(0, at);
            any = false;
        }
        family = fam;
        if (needle.empty()) { if (dir < 0) up(count); else down(count); return; }
        if (reused) { pos = n(); reused = false; }
        int hit = -1, col = -1;
        for (;;)
        {
            int i = find(spos + dir, dir, col);
            if (i < 0) break;
            spos = hit = i;
            if (any && found == lines[i]) continue;
            found = lines[i], any = true;
            if (!--count) break;
        }
        if (hit < 0) { at = fam == 1 && cfg.at_end ? int(cur.size()) : std::min(int(needle.size()), int(cur.size())); return; }
        if (spos < pos) up(pos - spos); else down(spos - pos);
        at = fam == 1 ? (cfg.at_end ? int(cur.size()) : int(needle.size())) : col >= 0 ? col : int(cur.size());
    }
    bool searching() const { return family && !needle.empty(); }
    int effective() const { return searching() ? spos : pos; }
    void remove()
    {
        const int old = effective();
        if (reused || old >= n() || (pos < n() && edited[pos]) || cur != lines[old]) return;
        bool none = false;
        if (searching())
        {
            int f = family;
            search(-1, f);
            if (effective() == old) { search(1, f); none = effective() == old; }
        }
        else
        {
            up(1);
            if (effective() == old) { down(1); none = effective() == old; }
        }
        lines.erase(lines.begin() + old);
        given.erase(given.begin() + old);
        edited.erase(edited.begin() + old);
        if (none) { cur = "", at = 0, pos = n(), have_typed = false; return; }
        if (searching() && old < spos) spos--;
        if (old < pos) pos--;
    }
};
static string describe(const string& line, int at) { if (at < 0 || at > int(line.size())) return "[" + line + "] with the cursor at " + std::to_string(at); return "[" + line.substr(0, at) + "|" + line.substr(at) + "]"; }

static bool run_case(const vector<int>& seq)
{
    const start& cfg = s_starts[seq[0]];
    _rl_history_point_at_end_of_anchored_search = cfg.at_end;
    _rl_search_case_fold = cfg.fold;
    settings::find("history.sticky_search")->set(cfg.sticky ? "true" : "false");
    clear_sticky_search_position();
    vector<string> have = cfg.lines;    // what the host has
    model m(cfg);
    string done = "history " + join(cfg.lines, ",") + ":";
    std::unique_ptr<session> s;
    auto begin = [&]() {
        rl_clear_history();
        for (auto& h : have) add_history(h.c_str());
        using_history();
        s.reset(new session(false));
    };
    begin();
    bool ok = true, nontrivial = false;
    for (size_t k = 1; k < seq.size() && ok; ++k)
    {
        const string o = s_ops[seq[k]].name;
        done += " " + o;
        mc::stat("steps");
        if (m.searching()) m.captured = m.spos;
        const int family = m.family;
        if (o != "SBack" && o != "SFwd" && o != "PBack" && o != "PFwd" && o != "Remove" && o != "SBack2") m.family = 0;
        if (o == "a" || o == "B")
        {
            if (m.reused) { m.reused = false; m.pos = m.n(); }
            m.cur.insert(m.at++, o);
            if (m.pos < m.n()) m.edited[m.pos] = true;
        }
        else if (o == "Back") { if (m.at) { m.cur.erase(--m.at, 1); if (m.pos < m.n()) m.edited[m.pos] = true; } }
        else if (o == "Home") m.at = 0;
        else if (o == "Left") { if (m.at) m.at--; }
        else if (o == "Up") m.up(1);
        else if (o == "Down") m.down(1);
        else if (o == "Up2") m.up(2);
        else if (o == "Down2") m.down(2);
        else if (o == "SBack2") m.search(-1, 1, 2);
        else if (o == "First") m.up(m.pos + 1);
        else if (o == "Last") { m.keep(); m.reused = false; if (m.pos < m.n()) { if (!m.have_typed) m.typed = "", m.have_typed = true; m.back_to_typed(); } }
        else if (o == "SBack") m.search(-1, 1);
        else if (o == "SFwd") m.search(1, 1);
        else if (o == "PBack") m.search(-1, 2);
        else if (o == "PFwd") m.search(1, 2);
        else if (o == "Remove") { m.remove(); (void)family; }
        const bool enter = o == "Enter" || o == "Next";
        if (m.cur != s->e->line() || m.pos < m.n()) nontrivial = true;
        s->key(s_bytes[seq[k]]);
        if (!enter)
        {
            string got = describe(s->e->line(), s->e->cursor()), want = describe(m.cur, m.at);
            if (got != want) ok = bad([&] { string c; for (int i : seq) c += (c.empty() ? "" : ",") + std::to_string(i); return c; }(), done + " gives " + got + " instead of " + want);
            continue;
        }
        // What the host does with the line.
        str<> out;
        s->e->e->get_line(out);
        bool add = true;
        if (rl_has_saved_history()) add = false;
        else if (!out.empty() && !can_sticky_search_add_history(out.c_str())) add = false;
        if (add) clear_sticky_search_position();
        if (add && !out.empty()) have.push_back(out.c_str());
        s.reset();
        const string got = out.c_str();
        // Which line was reused, if any.
        model next(cfg);
        vector<string> want_have = m.given;
        const bool on_line = m.pos < m.n();
        int reuse = -1;
        if (cfg.sticky && o == "Enter" && !m.cur.empty())
        {
            int base = on_line ? m.pos : m.captured < m.n() ? m.captured : -1;
            if (base >= 0 && (on_line ? m.given : m.lines)[base] == m.cur) reuse = base;
        }
        if (o == "Enter" && reuse < 0 && !m.cur.empty()) want_have.push_back(m.cur);
        if (got != m.cur || have != want_have)
            ok = bad([&] { string c; for (int i : seq) c += (c.empty() ? "" : ",") + std::to_string(i); return c; }(),
                done + " enters [" + got + "], history " + join(have, ",") + " instead of [" + m.cur + "], history " + join(want_have, ","));
        next.given = next.lines = want_have;
        next.edited.assign(want_have.size(), false);
        next.pos = next.n();
        if (reuse >= 0) next.pos = reuse, next.reused = true;
        if (o == "Next")
        {
            int from = m.searching() ? m.spos : m.captured >= 0 && false ? m.captured : m.pos;
            if (from + 1 < next.n()) { next.typed = "", next.have_typed = true; next.show(from + 1); }
        }
        m.~model();
        new (&m) model(next);
        if (!ok) break;
        begin();
        string now = describe(s->e->line(), s->e->cursor()), want = describe(m.cur, m.at);
        if (now != want) ok = bad([&] { string c; for (int i : seq) c += (c.empty() ? "" : ",") + std::to_string(i); return c; }(), done + " begins the next line with " + now + " instead of " + want);
    }
    s.reset();
    mc::stat("evaluations");
    if (nontrivial) mc::stat("distinct_nontrivial");
    return ok;
}
static string name_of(const vector<int>& seq) { string r = join(s_starts[seq[0]].lines, ",") + ":"; for (size_t i = 1; i < seq.size(); ++i) r += string(" ") + s_ops[seq[i]].name; return r; }

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    init_session();
    const bool replay = g_mode == "replay";
    if (replay)
    {
        s_ops = { { "a", 0, "a" }, { "Up", "previous-history", 0 }, { "Down", "next-history", 0 }, { "SBack", "history-search-backward", 0 }, { "Last", "end-of-history", 0 },
            { "Enter", "accept-line", 0 }, { "Next", "operate-and-get-next", 0 } };
        s_starts = { { { "a", "b", "ab" }, false, false, true }, { { "a", "b", "ab" }, true, false, false }, { {}, false, false, true } };
    }
    else
    {
        s_ops = { { "a", 0, "a", true }, { "B", 0, "B" }, { "Back", "backward-delete-char", 0, true }, { "Home", "beginning-of-line", 0 }, { "Left", "backward-char", 0 }, { "Up", "previous-history", 0, true }, { "Down", "next-history", 0, true },
            { "First", "beginning-of-history", 0 }, { "Last", "end-of-history", 0 }, { "SBack", "history-search-backward", 0, true }, { "SFwd", "history-search-forward", 0 },
            { "PBack", "history-substring-search-backward", 0, true }, { "PFwd", "history-substring-search-forward", 0 }, { "Remove", "remove-history", 0, true },
            { "Up2", "previous-history", c_two }, { "Down2", "next-history", c_two }, { "SBack2", "history-search-backward", c_two } };
        s_starts = { { { "ab", "b", "aBc", "ab" }, false, false, false }, { { "b", "Bab", "b" }, true, true, false }, { { "a", "a" }, false, false, false }, { {}, false, false, false } };
    }
    bind_ops();
    if (mc::S().replaying)
    {
        vector<int> seq;
        for (auto& x : mc::split(mc::S().replay, ',')) seq.push_back(atoi(x.c_str()));
        run_case(seq);
        return mc::done();
    }
    const int depth = (replay ? 6 : 4) + (mc::thorough() ? 1 : 0);
    size_t count = 0;
    vector<int> seq;
    int others = 0;
    std::function<void()> rec = [&]() {
        if (mc::enough()) return;
        // A sequence shows whatever its beginnings show.
        if (int(seq.size()) - 1 == depth + (others ? 0 : 1))
        {
            if (mc::mine(count++))
            {
                mc::tick();
                string c;
                for (int i : seq) c += (c.empty() ? "" : ",") + std::to_string(i);
                mc::current(c);
                run_case(seq);
                if (count % 4001 == 1) mc::sample(name_of(seq));
            }
            return;
        }
        for (size_t i = 0; i < s_ops.size(); ++i) { const bool o = !s_ops[i].core; if (o && int(seq.size()) > depth) continue; others += o; seq.push_back(int(i)); rec(); seq.pop_back(); others -= o; }
    };
    for (size_t s = 0; s < s_starts.size(); ++s) { seq = { int(s) }; rec(); }
    return mc::done();
}
