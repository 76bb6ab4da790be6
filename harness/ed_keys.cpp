// Keys typed into the real line editor.
//   --mode fresh | undo | select
#include "ed_session.h"

static string g_mode;
static bool bad(const string& cs, const string& msg) { mc::violation(g_mode + " " + cs, cs, msg); return false; }

//------------------------------------------------------------------------------
// Keys: what is typed, or a command.
struct op { const char* name; const char* command; const char* keys; bool core; };
static vector<op> s_ops;
static vector<string> s_bytes;
static void bind_ops()
{
    s_bytes.clear();
    char c = 'A';
    for (auto& o : s_ops)
    {
        if (!o.command) { s_bytes.push_back(o.keys); continue; }
        rl_command_func_t* f = rl_named_function(o.command);
        if (!f) { printf("no command %s\n", o.command); exit(3); }
        string k = string("\x1c") + c++;
        if (c == '[') c = 'a';
        rl_bind_keyseq(k.c_str(), f);
        s_bytes.push_back(k);
    }
}
// A case: the number of the starting line, then the keys.
static vector<string> s_starts;
static string name_of(const vector<int>& seq) { string s = "[" + s_starts[seq[0]] + "]"; for (size_t i = 1; i < seq.size(); ++i) s += string(" ") + s_ops[seq[i]].name; return s; }
static string code_of(const vector<int>& seq) { string s; for (int i : seq) s += (s.empty() ? "" : ",") + std::to_string(i); return s; }

// All sequences of up to a number of keys, and longer ones of the core keys.
template <class F> static void sequences(int starts, int depth, int core_depth, F f)
{
    vector<int> seq;
    size_t n = 0;
    int others = 0;
    std::function<void()> rec = [&]() {
        if (mc::enough()) return;
        if (seq.size() > 1 && mc::mine(n++)) { mc::tick(); mc::current(code_of(seq)); f(seq); if (n % 1009 == 1) mc::sample(name_of(seq)); }
        const int len = int(seq.size()) - 1;
        if (len >= core_depth || (len >= depth && others)) return;
        for (size_t i = 0; i < s_ops.size(); ++i)
        {
            if (len >= depth && !s_ops[i].core) continue;
            others += !s_ops[i].core;
            seq.push_back(int(i)); rec(); seq.pop_back();
            others -= !s_ops[i].core;
        }
    };
    for (int s = 0; s < starts; ++s) { seq = { s }; rec(); }
}

//------------------------------------------------------------------------------
// Whatever was typed before, completion and coloring are those of the line as it is.
struct answer { vector<string> offers; string classes; };
static std::map<string, answer> s_fresh;
static const answer& fresh(const string& line, int at)
{
    string k = std::to_string(at) + ":" + line;
    auto i = s_fresh.find(k);
    if (i != s_fresh.end()) return i->second;
    session s;
    answer a;
    a.offers = s.e->complete(line, at);
    a.classes = s.classes();
    return s_fresh[k] = a;
}
static bool fresh_case(const vector<int>& seq)
{
    string line, cls;
    int at;
    vector<string> got;
    bool cycling = false;
    {
        // Recalling lines changes readline's copies of them.
        clear_history();
        for (const char* h : { "cmd aa -", "cmd bb -", "cmd aa x1", "co aa x" }) add_history(h);
        using_history();
        session s;
        s.type(s_starts[seq[0]]);
        for (size_t i = 1; i < seq.size(); ++i)
        {
            string was = s.e->line();
            int was_at = s.e->cursor();
            s.key(s_bytes[seq[i]]);
            const string o = s_ops[seq[i]].name;
            if (o == "Menu" || o == "OldMenu") cycling = true;
            else if (s.e->line() != was || s.e->cursor() != was_at) cycling = false;
        }
        line = s.e->line();
        at = s.e->cursor();
        cls = s.classes();
        got = s.offers();
    }
    const answer& a = fresh(line, at);
    mc::stat("evaluations");
    if (a.offers.size() > 1) mc::stat("distinct_nontrivial");
    string what = name_of(seq) + " gives [" + line.substr(0, at) + "|" + line.substr(at) + "]";
    // While cycling through matches they stay the same.
    if (got != a.offers && !cycling) return bad(code_of(seq), what + ", which offers " + join(got) + " instead of " + join(a.offers));
    if (cls != a.classes) return bad(code_of(seq), what + ", which is colored " + cls + " instead of " + a.classes);
    return true;
}
static void fresh_ops()
{
    s_starts = { "", "cmd aa ", "cmd \"aa\" -", "cmd aa x1 & " };
    s_ops = {
        { "cmd", 0, "cmd" }, { "sp", 0, " ", true }, { "aa", 0, "aa" }, { "bb", 0, "bb" }, { "-", 0, "-" }, { "x", 0, "x", true }, { "\"", 0, "\"" }, { "&", 0, "&" },
        { "Back", "backward-delete-char", 0, true }, { "Left", "backward-char", 0, true }, { "Home", "beginning-of-line", 0 }, { "End", "end-of-line", 0 },
        { "Up", "previous-history", 0, true }, { "Down", "next-history", 0, true }, { "KillWord", "backward-kill-word", 0 }, { "Yank", "yank", 0 }, { "Undo", "undo", 0, true },
        { "Tab", "complete", 0, true }, { "Menu", "menu-complete", 0, true }, { "OldMenu", "old-menu-complete", 0 }, { "List", "possible-completions", 0 }, { "Transpose", "transpose-words", 0 } };
}

//------------------------------------------------------------------------------
// Undoing returns to earlier states, down to the empty line.
static bool undo_case(const vector<int>& seq)
{
    const int undo = int(s_ops.size()) - 1;
    vector<string> states = { "" };
    vector<string> back;
    {
        session s(false);
        // What was killed before is the same for all.
        for (int i = 0; i < 10; ++i) { rl_last_func = nullptr; s.e->e->m_buffer.insert("kk"); rl_kill_text(0, 2); }
        rl_last_func = nullptr;
        s.e->e->m_buffer.reset();
        s.type(s_starts[seq[0]]);
        states.push_back(s.e->line());
        for (size_t i = 1; i < seq.size(); ++i) { s.key(s_bytes[seq[i]]); states.push_back(s.e->line()); }
        for (int k = 0; k < 40; ++k)
        {
            string was = s.e->line();
            if (was.empty()) break;
            s.key(s_bytes[undo]);
            if (s.e->line() == was) { string w = was; bool same = true; for (int m = 0; m < 12 && same; ++m) { s.key(s_bytes[undo]); same = s.e->line() == was; } if (same) break; }
            back.push_back(s.e->line());
        }
        mc::stat("undone", back.size());
    }
    mc::stat("evaluations");
    if (back.size() > 2) mc::stat("distinct_nontrivial");
    string what = name_of(seq) + " (" + join(states, " | ") + ") is undone as " + join(back, " | ");
    if (back.empty() ? !states.back().empty() : !back.back().empty()) return bad(code_of(seq), what + ", which isn't the empty line");
    size_t at = states.size();
    for (auto& b : back)
    {
        while (at && states[at - 1] != b) --at;
        if (!at)
        {
            // What was typed in one go can be undone in parts.
            if (states[1].compare(0, b.size(), b) == 0) { at = 2; continue; }
            return bad(code_of(seq), what + ", where " + b + " never was");
        }
    }
    return true;
}
static void undo_ops()
{
    s_starts = { "ab \"cd\" e" };
    s_ops = {
        { "x", 0, "x", true }, { "sp", 0, " ", true }, { "Back", "backward-delete-char", 0, true }, { "Del", "delete-char", 0 }, { "Left", "backward-char", 0, true }, { "Home", "beginning-of-line", 0 },
        { "WordLeft", "backward-word", 0 }, { "KillWord", "backward-kill-word", 0, true }, { "KillEnd", "kill-line", 0 }, { "Yank", "yank", 0, true }, { "Transpose", "transpose-chars", 0, true },
        { "Upcase", "upcase-word", 0 }, { "SelLeft", "cua-backward-char", 0, true }, { "SelAll", "cua-select-all", 0 }, { "Cut", "cua-cut", 0 }, { "Paste", "clink-paste", 0, true },
        { "KillAll", "kill-whole-line", 0 }, { "RubSpace", "delete-horizontal-space", 0 }, { "Words", "transpose-words", 0 }, { "Reset", "clink-reset-line", 0 }, { "Undo", "undo", 0 } };
}

//------------------------------------------------------------------------------
// Selecting text.
struct text_model
{
    string t;
    int at = 0, anchor = -1;
    string clip;
    int lo() const { return std::min(at, anchor); }
    int hi() const { return std::max(at, anchor); }
    bool sel() const { return anchor >= 0; }
    void prev() { if (at) do --at; while (at && (t[at] & 0xc0) == 0x80); }
    void next() { if (at < int(t.size())) do ++at; while (at < int(t.size()) && (t[at] & 0xc0) == 0x80); }
    static bool alnum(char c) { return isalnum(uint8(c)) || (c & 0x80); }
    void word_left() { while (at && !alnum(t[at - 1])) --at; while (at && alnum(t[at - 1])) --at; }
    void word_right() { int n = int(t.size()); while (at < n && !alnum(t[at])) ++at; while (at < n && alnum(t[at])) ++at; }
    void drop() { if (!sel()) return; int a = lo(), b = hi(); t.erase(a, b - a); at = a; anchor = -1; }
    void insert(const string& s) { t.insert(at, s); at += int(s.size()); }
};
static bool select_case(const vector<int>& seq)
{
    text_model m;
    s_clip.text = m.clip = "pq";
    session s(false);
    s.type(s_starts[seq[0]]);
    m.t = s_starts[seq[0]];
    m.at = int(m.t.size());
    mc::stat("evaluations");
    bool nontrivial = false;
    string done;
    for (size_t k = 1; k < seq.size(); ++k)
    {
        const int i = seq[k];
        const string o = s_ops[i].name;
        done += (done.empty() ? "" : " ") + o;
        nontrivial |= m.sel() && m.at != m.anchor;
        const bool move = o.compare(0, 3, "Sel") == 0;
        if (move && !m.sel()) m.anchor = m.at;
        if (o == "x") { m.drop(); m.insert("x"); }
        else if (o == "w") { m.drop(); m.insert("\xe1\xba\xbd"); }
        else if (o == "Left" || o == "SelLeft") m.prev();
        else if (o == "Right" || o == "SelRight") m.next();
        else if (o == "Home" || o == "SelHome") m.at = 0;
        else if (o == "End" || o == "SelEnd") m.at = int(m.t.size());
        else if (o == "SelWordLeft") m.word_left();
        else if (o == "SelWordRight") m.word_right();
        else if (o == "SelAll") { m.anchor = 0; m.at = int(m.t.size()); }
        else if (o == "Copy" || o == "Cut")
        {
            if (!m.sel()) { if (!m.t.empty()) m.clip = m.t; }
            else if (m.lo() < m.hi()) m.clip = m.t.substr(m.lo(), m.hi() - m.lo());
            if (o == "Cut") m.drop();
        }
        else if (o == "Paste") { m.drop(); m.insert(m.clip); }
        else if (o == "Back") { if (m.sel() && m.at != m.anchor) m.drop(); else { int e = m.at; m.prev(); m.t.erase(m.at, e - m.at); } }
        else if (o == "Del") { if (m.sel() && m.at != m.anchor) m.drop(); else { int b = m.at; m.next(); m.t.erase(b, m.at - b); m.at = b; } }
        if (!move && o != "Copy" && o != "Cut") m.anchor = -1;
        s.key(s_bytes[i]);
        mc::stat("steps");
        char buf[100];
        sprintf(buf, "cursor %d, selected from %d", s.e->cursor(), cua_get_anchor());
        string got = "[" + s.e->line() + "] " + buf + ", clipboard [" + s_clip.text + "]";
        sprintf(buf, "cursor %d, selected from %d", m.at, m.anchor);
        string want = "[" + m.t + "] " + buf + ", clipboard [" + m.clip + "]";
        if (got != want) return bad(code_of(seq), done + " gives " + got + " instead of " + want);
    }
    if (nontrivial) mc::stat("distinct_nontrivial");
    return true;
}
static void select_ops()
{
    s_starts = { "ab \xc3\xa9" "d", "" };
    s_ops = {
        { "x", 0, "x", true }, { "w", 0, "\xe1\xba\xbd" }, { "Left", "backward-char", 0, true }, { "Right", "forward-char", 0 }, { "Home", "beginning-of-line", 0 }, { "End", "end-of-line", 0 },
        { "SelLeft", "cua-backward-char", 0, true }, { "SelRight", "cua-forward-char", 0, true }, { "SelHome", "cua-beg-of-line", 0 }, { "SelEnd", "cua-end-of-line", 0 },
        { "SelWordLeft", "cua-backward-word", 0, true }, { "SelWordRight", "cua-forward-word", 0 }, { "SelAll", "cua-select-all", 0, true },
        { "Copy", "cua-copy", 0 }, { "Cut", "cua-cut", 0, true }, { "Paste", "clink-paste", 0, true }, { "Back", "backward-delete-char", 0, true }, { "Del", "delete-char", 0 } };
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    ed::files() = { "fa", "fb", "gd\\" };
    init_session();
    run_lua("clink.argmatcher('cmd'):addarg({'aa'..clink.argmatcher():addarg({'x1','x2'}):addflags('-m', '-n'), 'bb'..clink.argmatcher():addarg({'xy', 'xz'}):addflags('-p', '-q')})");
    if (g_mode == "fresh") fresh_ops();
    if (g_mode == "undo") undo_ops();
    if (g_mode == "select") select_ops();
    bind_ops();
    auto f = g_mode == "fresh" ? fresh_case : g_mode == "undo" ? undo_case : select_case;
    if (mc::S().replaying)
    {
        vector<int> seq;
        for (auto& x : mc::split(mc::S().replay, ',')) seq.push_back(atoi(x.c_str()));
        f(seq);
        return mc::done();
    }
    const int depth = mc::thorough() ? 4 : 3;
    sequences(int(s_starts.size()), depth, depth + (g_mode == "fresh" ? 1 : 2), f);
    return mc::done();
}
