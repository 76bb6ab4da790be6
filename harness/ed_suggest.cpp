// Suggestions in the real line editor.
//   --mode accept | choose
#include "ed_session.h"
#include <core/str_compare.h>
#include <lib/suggestions.h>
#include <host_callbacks.h>
#include <line_editor_integration.h>
#include <lua/suggest.h>
bool can_suggest_internal(const line_state& line);

static string g_mode;
static bool bad(const string& cs, const string& msg) { mc::violation(g_mode + " " + cs, cs, msg); return false; }
static void set(const char* name, const char* value) { if (!settings::find(name)->set(value)) { printf("no setting %s %s\n", name, value); exit(3); } }

//------------------------------------------------------------------------------
struct callbacks : host_callbacks
{
    std::function<void(const line_states&, matches*, int32)> give;
    void filter_prompt() override {}
    void filter_transient_prompt(bool) override {}
    bool can_suggest(const line_state& line) override { return give && can_suggest_internal(line); }
    bool suggest(const line_states& lines, matches* m, int32 gen) override { give(lines, m, gen); return true; }
    bool filter_matches(char**) override { return false; }
    bool call_lua_rl_global_function(const char*, const line_state*) override { return false; }
    const char** copy_dir_history(int32*) override { return nullptr; }
    void send_event(const char*) override {}
    void send_oncommand_event(line_state&, const char*, bool, recognition, const char*) override {}
    void send_oninputlinechanged_event(const char*) override {}
    bool has_event_handler(const char*) override { return false; }
    bool get_command_word(line_state&, str_base&, bool&, recognition&, str_base&) override { return false; }
};
static callbacks s_callbacks;
struct live : session
{
    live(bool words) : session(words) { set_active_line_editor(e->e, &s_callbacks); }
    ~live() { clear_suggestion(); set_active_line_editor(nullptr, nullptr); }
};

//------------------------------------------------------------------------------
// What counts as the same character.
static bool s_case, s_accent, s_original;
static vector<string> chars(const string& s)
{
    vector<string> v;
    for (size_t i = 0; i < s.size();)
    {
        size_t n = 1;
        while (i + n < s.size() && (s[i + n] & 0xc0) == 0x80) ++n;
        v.push_back(s.substr(i, n));
        i += n;
    }
    return v;
}
static string fold(string c)
{
    if (s_case) { if (c.size() == 1) c[0] = char(tolower(uint8(c[0]))); else if (c == "\xc3\x89") c = "\xc3\xa9"; }
    if (s_accent) { if (c == "\xc3\x89") c = "E"; else if (c == "\xc3\xa9") c = "e"; }
    return c;
}
// Whether typed is how text begins; where the rest begins.
static bool begins(const string& typed, const string& text, size_t& rest)
{
    auto a = chars(typed), b = chars(text);
    if (a.size() > b.size()) return false;
    rest = 0;
    for (size_t i = 0; i < a.size(); ++i) { if (fold(a[i]) != fold(b[i])) return false; rest += b[i].size(); }
    return true;
}

//------------------------------------------------------------------------------
struct offer { string text; int offset = -1; };
static bool blank(char c) { return c == ' ' || c == '\t'; }
// Where the last word begins.
static int last_word(const string& l)
{
    bool q = false;
    int at = 0;
    for (size_t i = 0; i < l.size(); ++i)
    {
        if (l[i] == '"') { q = !q; if (q) at = int(i + 1); }
        else if (!q && (blank(l[i]) || l[i] == '&')) at = int(i + 1);
    }
    return at;
}
static const char* c_lines[] = { "git checkout master", "git commit -m \"a b\" --all", "Git Push", "cd \"c:\\a b\\c\" && dir /w", "\xc3\xa9t\xc3\xa9 la fin", "\"x y\" 'z  w", "git  x  y" };
static const char* c_words[] = { "checkout", "Commit", "gitk.exe", "\xc3\x89" "clair", "a b\\c\"", "xx yy", "tt" };
enum { whole_line, last_of_line, appended, middle, inside, mismatch, beyond, first_then, kinds };
static int s_kind;
static offer suggestion_for(const string& l)
{
    offer o;
    size_t rest;
    const int w = last_word(l);
    if (l.find_first_not_of(' ') == string::npos) return o;
    switch (s_kind)
    {
    case whole_line: for (auto* h : c_lines) if (begins(l, h, rest) && rest < strlen(h)) { o.text = h; o.offset = 0; break; } break;
    case last_of_line: for (auto* h : c_words) if (begins(l.substr(w), h, rest) && rest < strlen(h)) { o.text = h; o.offset = w; break; } break;
    case appended: o.text = blank(l.back()) ? "$* end" : " $* end"; o.offset = int(l.size()); break;
    case middle: for (auto* h : c_lines) if (begins(l, h, rest) && rest < strlen(h) && l.find(' ') != string::npos) { o.offset = int(l.find(' ')) + 1; o.text = string(h).substr(o.offset); break; } break;
    case inside: for (auto* h : c_words) if (int(l.size()) > w + 1 && begins(l.substr(w), h, rest) && rest < strlen(h)) { auto f = chars(h)[0]; o.offset = w + int(chars(l.substr(w))[0].size()); o.text = string(h).substr(f.size()); break; } break;
    case mismatch: o.text = "zzz"; o.offset = int(l.size()) - 1; while (o.offset && (l[o.offset] & 0xc0) == 0x80) --o.offset; break;
    case beyond: o.text = l + " more"; o.offset = int(l.size()) + 3; break;
    case first_then: o.text = l; o.offset = 0; break;
    }
    return o;
}
static bool valid(const string& l, const offer& o)
{
    size_t rest;
    return o.offset >= 0 && o.offset <= int(l.size()) && begins(l.substr(o.offset), o.text, rest);
}
static bool more(const string& l, const offer& o) { size_t rest; return o.offset >= 0 && o.offset <= int(l.size()) && begins(l.substr(o.offset), o.text, rest) && rest < o.text.size(); }
static offer current()
{
    suggestions s;
    offer o;
    if (get_suggestions(s) && !s.empty()) { o.text = s[0].m_suggestion.c_str(); o.offset = int(s[0].m_suggestion_offset); }
    return o;
}

//------------------------------------------------------------------------------
// Keys: what is typed, or a command.
struct op { const char* name; const char* command; const char* keys; bool core; };
static vector<op> s_ops;
static vector<string> s_bytes;
static void bind_ops()
{
    s_bytes.clear();
    char c = 'A';
    for (auto& o : s_ops)
    {
        if (!o.command) { s_bytes.push_back(o.keys); continue; }
        rl_command_func_t* f = rl_named_function(o.command);
        if (!f) { printf("no command %s\n", o.command); exit(3); }
        string k = string("\x1c") + c++;
        if (c == '[') c = 'a';
        rl_bind_keyseq(k.c_str(), f);
        s_bytes.push_back(k);
    }
}
static vector<string> s_starts;
enum { to_end, word, full_word };
static bool alnum(const string& c) { return isalnum(uint8(c[0])) || c.size() > 1; }
// How much of the suggestion an accepting key takes.
static string taken(const string& l, const offer& o, int action)
{
    size_t rest = 0;
    begins(l.substr(o.offset), o.text, rest);
    const string r = o.text.substr(rest);
    if (action == to_end) return r;
    auto c = chars(r);
    size_t i = 0;
    if (action == word)
    {
        while (i < c.size() && !alnum(c[i])) ++i;
        while (i < c.size() && alnum(c[i])) ++i;
    }
    else
    {
        bool q = std::count(l.begin(), l.end(), '"') & 1;
        while (i < c.size() && blank(c[i][0])) ++i;
        for (; i < c.size(); ++i) { if (c[i] == "\"") q = !q; else if (!q && blank(c[i][0])) break; }
    }
    string t;
    for (size_t k = 0; k < i; ++k) t += c[k];
    return t;
}
static string check_accept(const string& l, const offer& o, int action, const string& got)
{
    const string t = taken(l, o, action);
    if (got.size() < t.size() || got.compare(got.size() - t.size(), t.size(), t)) return "does not end with " + t;
    const string head = got.substr(0, got.size() - t.size());
    auto a = chars(l), b = chars(head);
    if (!s_original) return head == l ? "" : "changes what was typed";
    if (a.size() != b.size()) return "changes what was typed";
    // Typed characters may take the capitals of the suggestion; in the last word they do.
    size_t n = 0, at = 0;
    auto s = chars(o.text);
    size_t first = 0;
    for (size_t p = 0; p < size_t(o.offset); ++first) p += a[first].size();
    const size_t w = action == to_end && !o.offset ? 0 : std::max(last_word(l), o.offset);
    for (; n < a.size(); at += a[n].size(), ++n)
    {
        const bool in = n >= first;
        if (in && at >= w) { if (b[n] != s[n - first]) return "does not take the suggestion's capitals"; }
        else if (b[n] != a[n] && !(in && b[n] == s[n - first])) return "changes what was typed";
    }
    return "";
}

//------------------------------------------------------------------------------
static int action_of(const string& name) { return name == "End" || name == "Right" || name == "Line" || name == "F1" ? to_end : name == "Word" || name == "CtrlRight" ? word : name == "Full" || name == "ShiftRight" ? full_word : -1; }
// A case: kind, settings, starting line, then keys (negative: typed before the one before was dealt with).
static bool accept_case(const vector<int>& seq)
{
    s_kind = seq[0];
    const int cfg = seq[1];
    s_original = cfg & 1;
    s_case = cfg & 2;
    s_accent = cfg & 4;
    set("autosuggest.original_case", s_original ? "true" : "false");
    set("match.ignore_case", s_case ? "on" : "off");
    set("match.ignore_accent", s_accent ? "true" : "false");
    live s(false);
    string code;
    for (int i : seq) code += (code.empty() ? "" : ",") + std::to_string(i);
    s.key(s_starts[seq[2]]);
    mc::stat("evaluations");
    bool nontrivial = false;
    string done = "[" + s_starts[seq[2]] + "]";
    offer kept;         // After accepting a part.
    for (size_t k = 3; k < seq.size();)
    {
        // One batch.
        vector<int> batch{ abs(seq[k]) - 1 };
        size_t e = k + 1;
        for (; e < seq.size() && seq[e] < 0; ++e) batch.push_back(-seq[e] - 1);
        const string before = s.e->line();
        const int at = s.e->cursor();
        const offer o = current();
        string bytes, names;
        for (int i : batch) { bytes += s_bytes[i]; names += (names.empty() ? "" : "+") + string(s_ops[i].name); }
        done += " " + names;
        s.key(bytes);
        mc::stat("steps");
        const string after = s.e->line();
        const int after_at = s.e->cursor();
        const offer now = current();
        const string what = done + ": with [" + before + "] and suggestion [" + o.text + "] at " + std::to_string(o.offset) + " the line becomes [" + after + "], which ";
        // The line before the last key of the batch.
        string l = before;
        bool erased = false, known = true, moved = at != int(before.size());
        for (size_t b = 0; b + 1 < batch.size(); ++b)
        {
            const op& p = s_ops[batch[b]];
            if (!p.command) { if (moved) known = false; l += p.keys; }
            else if (string(p.name) == "Back") { if (moved) known = false; else { auto c = chars(l); if (!c.empty()) l.erase(l.size() - c.back().size()); erased = true; } }
            else known = false;
        }
        const op& last = s_ops[batch.back()];
        const int action = last.command ? action_of(last.name) : -1;
        if (known && action >= 0)
        {
            const bool can = !moved && more(l, o);
            const bool plain = after == l;
            if (can && !(plain && erased))
            {
                nontrivial = true;
                const string why = check_accept(l, o, action, after);
                if (!why.empty()) return bad(code, what + why);
                if (after_at != int(after.size())) return bad(code, what + "leaves the cursor inside");
                // Accepting a part keeps the rest; accepting all leaves nothing.
                const bool part = after.size() < l.size() + taken(l, o, to_end).size();
                if (part && (now.text != o.text || now.offset != o.offset)) return bad(code, what + "loses the suggestion's rest: now [" + now.text + "]");
                if (!part && more(after, now)) return bad(code, what + "has a suggestion right after accepting one: [" + now.text + "]");
                kept = part ? o : offer();
            }
            else if (!plain) return bad(code, what + "accepts what is not a suggestion for [" + l + "]");
        }
        else if (known && !last.command && !moved && after != l + last.keys) return bad(code, what + "is not the typed text");
        for (int i : batch) if (!known && action_of(s_ops[i].name) > to_end) kept = o;
        // A suggestion is the one for this line.
        if (now.offset >= 0 && more(after, now) && after_at == int(after.size()))
        {
            const offer f = suggestion_for(after);
            const bool own = f.offset == now.offset && f.text == now.text;
            const bool rest = kept.offset == now.offset && kept.text == now.text;
            if (!own && !rest) return bad(code, what + "shows [" + now.text + "] at " + std::to_string(now.offset) + ", not its own suggestion [" + f.text + "]");
        }
        else if (!last.command && after_at == int(after.size()) && after != before && batch.size() == 1)
        {
            const offer f = suggestion_for(after);
            if (valid(after, f) && more(after, f)) return bad(code, what + "has no suggestion, but there is [" + f.text + "]");
        }
        if (after_at != int(after.size()) && has_suggestion() && now.offset >= 0) return bad(code, what + "shows a suggestion though the cursor is inside");
        k = e;
    }
    if (nontrivial) mc::stat("distinct_nontrivial");
    return true;
}
static void accept_all()
{
    s_callbacks.give = [](const line_states& lines, matches*, int32) {
        const line_state& l = lines.back();
        const string line(l.get_line(), l.get_length());
        offer o = suggestion_for(line);
        suggestions s;
        if (o.offset >= 0 && o.offset <= int(line.size())) s.add(o.text.c_str(), o.offset, "test", -1, -1, "", -1);
        set_suggestions(line.c_str(), l.get_end_word_offset(), &s);
    };
    set("autosuggest.enable", "true");
    set("autosuggest.inline", "true");
    set("autosuggest.async", "false");
    set("autosuggest.hint", "false");
    s_starts = { "", "g", "gi", "GI", "git ", "git c", "git C", "git co", "git commit -m \"a", "cd \"c", "cd \"C:\\a b", "\xc3\xa9", "\xc3\x89t", "e", "\"X", "\"x y\" ", "git x", "x \"a", "Git p", "git  x " };
    s_ops = {
        { "c", 0, "c", true }, { "O", 0, "O" }, { "sp", 0, " ", true }, { "q", 0, "\"" }, { "i", 0, "i" }, { "acute", 0, "\xc3\xa9" },
        { "Back", "backward-delete-char", 0, true }, { "Left", "backward-char", 0 }, { "Undo", "undo", 0 },
        { "End", "end-of-line", 0 }, { "Right", "forward-char", 0, true }, { "CtrlRight", "forward-word", 0, true }, { "ShiftRight", "cua-forward-char", 0 },
        { "Line", "clink-insert-suggested-line", 0 }, { "Full", "clink-insert-suggested-full-word", 0, true }, { "Word", "clink-insert-suggested-word", 0 }, { "F1", "win-copy-up-to-char", 0 } };
    s_ops.pop_back();
}
static void accept_run()
{
    const int depth = mc::thorough() ? 3 : 2;
    const int core_depth = depth + 1;
    size_t n = 0;
    vector<int> seq;
    std::function<void(int)> rec = [&](int others) {
        if (mc::enough()) return;
        const int len = int(seq.size()) - 3;
        if (len > 0 && mc::mine(n++))
        {
            mc::tick();
            string code;
            for (int i : seq) code += (code.empty() ? "" : ",") + std::to_string(i);
            mc::current(code);
            accept_case(seq);
            if (n % 10007 == 1) mc::sample(code);
        }
        if (len >= core_depth || (len >= depth && others)) return;
        for (size_t i = 0; i < s_ops.size(); ++i)
        {
            if (len >= depth && !s_ops[i].core) continue;
            for (int queued = 0; queued < (len ? 2 : 1); ++queued)
            {
                seq.push_back(queued ? -int(i) - 1 : int(i) + 1);
                rec(others + !s_ops[i].core);
                seq.pop_back();
            }
        }
    };
    for (int kind = 0; kind < kinds; ++kind)
        for (int cfg : { 0, 1, 2, 3, 7, 4 })
        {
            if (kind > middle && (cfg == 0 || cfg == 4)) continue;
            for (size_t s = 0; s < s_starts.size(); ++s) { seq = { kind, cfg, int(s) }; rec(0); }
        }
}

//------------------------------------------------------------------------------
// Which suggestions the strategies give.
struct item { string text; int offset; string source; bool operator == (const item& o) const { return text == o.text && offset == o.offset && source == o.source; } };
struct scene { vector<string> history; vector<string> matches; vector<string> strategy; bool add = false, list = false, words = false; int top = 3; };
static bool caseless_equal(const string& a, const string& b) { size_t r; return begins(a, b, r) && r == b.size(); }
static vector<item> from_history(const scene& c, const string& l, bool prev)
{
    vector<item> v;
    const int n = int(c.history.size());
    if (!n || (prev && !c.add)) return v;
    const size_t limit = c.list ? 10 : 1;
    for (int sub = 0; sub < (c.list && !prev ? 2 : 1) && v.empty(); ++sub)
        for (int i = n; i-- && v.size() < limit;)
        {
            const string& h = c.history[i];
            size_t rest;
            bool ok = begins(l, h, rest) && rest < h.size();
            if (sub) for (size_t at = 0; at < h.size() && !ok; ++at) ok = begins(l, h.substr(at), rest);
            if (prev && (!i || !caseless_equal(c.history[n - 1], c.history[i - 1]))) ok = false;
            if (ok) v.push_back({ h, 0, prev ? "match_prev_cmd" : "history" });
        }
    return v;
}
static vector<item> from_completion(const scene& c, const string& l)
{
    vector<item> v;
    const int w = last_word(l);
    const string typed = l.substr(w);
    const bool quoted = w && l[w - 1] == '"';
    if (typed.empty()) return v;
    vector<string> offered;
    for (auto& m : c.matches) { size_t rest; if (begins(typed, m, rest)) offered.push_back(m); }
    for (auto& m : offered)
    {
        if (v.size() >= (c.list ? 30 : 1)) break;
        bool needs = !c.words && m.find_first_of(" &") != string::npos, q = quoted;
        if (m == typed || (needs && !quoted && !c.list)) continue;
        string t = m;
        if (needs && !quoted) { t = "\"" + t; q = true; }
        if (m.back() != '\\') t += q ? "\" " : " ";
        v.push_back({ t, w, "completion" });
    }
    return v;
}
static vector<item> expected(const scene& c, const string& l)
{
    vector<string> names = c.strategy;
    if (c.list) { auto h = std::find(names.begin(), names.end(), "history"); if (h != names.end()) { names.erase(h); names.insert(names.begin(), "history"); } }
    vector<vector<item>> all;
    for (auto& n : names)
    {
        auto v = n == "history" ? from_history(c, l, false) : n == "match_prev_cmd" ? from_history(c, l, true) : from_completion(c, l);
        if (v.empty()) continue;
        if (!c.list) return { v[0] };
        all.push_back(v);
    }
    // The list: without duplicates, a few from history, the others evenly.
    std::set<string> seen;
    auto full = [&](const item& i) { string f = l.substr(0, i.offset) + i.text; while (!f.empty() && isspace(uint8(f.back()))) f.pop_back(); return f; };
    vector<item> out, rest;
    size_t first = 0;
    if (!all.empty() && all[0][0].source == "history")
    {
        first = 1;
        for (auto& i : all[0]) { if (seen.count(full(i))) continue; if (int(out.size()) >= c.top) rest.push_back(i); else { seen.insert(full(i)); out.push_back(i); } }
    }
    vector<vector<item>> others;
    for (size_t k = first; k < all.size(); ++k)
    {
        vector<item> u;
        for (auto& i : all[k]) if (seen.insert(full(i)).second) u.push_back(i);
        others.push_back(u);
    }
    bool any = false;
    for (auto& u : others) any |= !u.empty();
    if (!any) { for (auto& i : rest) if (seen.insert(full(i)).second) out.push_back(i); return out; }
    vector<size_t> keep(others.size());
    size_t total = out.size();
    for (bool more = true; more && total < 30;)
    {
        more = false;
        for (size_t k = 0; k < others.size() && total < 30; ++k) if (keep[k] < others[k].size()) { ++keep[k]; ++total; more = true; }
    }
    for (size_t k = 0; k < others.size(); ++k) out.insert(out.end(), others[k].begin(), others[k].begin() + keep[k]);
    return out;
}
static string text(const vector<item>& v) { string s; for (auto& i : v) s += (s.empty() ? "[" : ", [") + i.text + "] at " + std::to_string(i.offset) + " from " + i.source; return s.empty() ? "nothing" : s; }

static suggester* s_suggester;
static live* s_live;
static bool choose_case(const scene& c, const string& cs, const string& l)
{
    if (mc::S().replaying && cs != mc::S().replay) return true;
    mc::current(cs);
    mc::stat("evaluations");
    auto* e = s_live->e->e;
    str_compare_scope compare(s_case ? str_compare_scope::caseless : str_compare_scope::exact, s_accent);
    s_live->e->complete(l);
    clear_suggestion();
    e->try_suggest();
    suggestions s;
    get_suggestions(s);
    vector<item> got;
    for (uint32 i = 0; i < s.size(); ++i) got.push_back({ s[i].m_suggestion.c_str(), int(s[i].m_suggestion_offset), s[i].m_source.c_str() });
    auto want = expected(c, l);
    // One that doesn't begin with what is typed is no suggestion.
    if (!c.list && !want.empty() && !more(l, { want[0].text, want[0].offset })) want.clear();
    if (!c.list && !got.empty() && !more(l, { got[0].text, got[0].offset })) got.clear();
    if (want.size() > (c.list ? 1 : 0)) mc::stat("distinct_nontrivial");
    if (!(got == want)) return bad(cs, "suggests " + text(got) + " instead of " + text(want));
    return true;
}
static const vector<string> c_past = { "git a", "git B", "GIT c d", "gi", "x git", "\xc3\xa9 git" };
static const vector<string> c_typed = { "g", "git", "git ", "Git B", "gi", "x", "x \"gi", "git a", "e", "t" };
static const vector<vector<string>> c_matches = { {}, { "git", "git a", "gitk" }, { "a", "B", "gd\\", "Gi t", "gix&t" } };
static void choose_scenes(const std::function<void(const scene&, const string&)>& f, bool list)
{
    static const vector<vector<string>> strategies = { { "history" }, { "completion" }, { "match_prev_cmd" }, { "history", "completion" }, { "completion", "history" }, { "match_prev_cmd", "history" }, { "history", "match_prev_cmd" }, { "completion", "match_prev_cmd" }, { "match_prev_cmd", "completion" },
        { "match_prev_cmd", "history", "completion" }, { "completion", "history", "match_prev_cmd" }, { "history", "completion", "match_prev_cmd" } };
    size_t serial = 0;
    const int depth = mc::thorough() ? 4 : 3;
    vector<vector<string>> pasts;
    vector<string> past;
    std::function<void()> rec = [&]() { pasts.push_back(past); if (int(past.size()) == depth) return; for (auto& p : c_past) { past.push_back(p); rec(); past.pop_back(); } };
    rec();
    if (list)
    {
        // Longer ones.
        vector<string> many, twice;
        for (int i = 0; i < 14; ++i) { many.push_back("git n" + std::to_string(i)); twice.push_back("git m" + std::to_string(i / 3)); twice.push_back("git m" + std::to_string(i % 5) + " "); }
        pasts.push_back(many);
        pasts.push_back(twice);
        many.insert(many.end(), twice.begin(), twice.end());
        pasts.push_back(many);
    }
    auto matches = c_matches;
    vector<string> lots;
    for (int i = 0; i < 40; ++i) { char b[20]; sprintf(b, "git%02d", i); lots.push_back(b); }
    matches.push_back(lots);
    matches.push_back({ "gd &x", "git", "git a" });
    for (auto& st : strategies)
    {
        string sn = join(st);
        set("autosuggest.strategy", sn.c_str());
        for (size_t m = 0; m < matches.size(); ++m)
        {
            if (m && std::find(st.begin(), st.end(), "completion") == st.end()) continue;
            string code = "mt = {";
            for (auto& x : matches[m]) { code += "'"; for (char ch : x) { if (ch == '\\') code += '\\'; code += ch; } code += "',"; }
            run_lua(code + "} ty = " + (m >= 3 ? "'word'" : "'file'"));
            for (size_t h = 0; h < pasts.size(); ++h)
                for (int v = 0; v < (list ? 2 : 4); ++v)
                {
                    if ((v & 1) && std::find(st.begin(), st.end(), "match_prev_cmd") == st.end() && !mc::thorough()) continue;
                    if (!mc::mine(serial++)) continue;
                    scene c;
                    c.history = pasts[h];
                    c.strategy = st;
                    c.matches = matches[m];
                    c.list = list;
                    c.words = m >= 3;
                    c.add = v & 1;
                    s_case = list || !(v & 2);
                    c.top = list && (h & 1) ? 1 : 3;
                    set("history.dupe_mode", c.add ? "add" : "erase_prev");
                    set("match.ignore_case", s_case ? "on" : "off");
                    set("match.ignore_accent", "true");
                    s_accent = true;
                    set("suggestionlist.num_history", c.top == 1 ? "1" : "3");
                    clear_history();
                    for (auto& x : c.history) add_history(x.c_str());
                    using_history();
                    f(c, string(list ? "list " : "inline ") + sn + (c.add ? " add" : "") + (s_case ? "" : " case") + " matches " + std::to_string(m) + " history " + join(c.history, "|"));
                    if (mc::enough()) return;
                }
        }
    }
    clear_history();
}
static void choose_run()
{
    lua_load_script(*s_lua, app, suggest);
    run_lua("mt = {} mg = clink.generator(1) function mg:generate(ls, mb) for _, m in ipairs(mt) do mb:addmatch({match=m, type=m:sub(-1) == '\\\\' and 'dir' or ty}) end return true end");
    suggester sug(*s_lua);
    s_suggester = &sug;
    s_callbacks.give = [](const line_states& lines, matches* m, int32 gen) { s_suggester->suggest(lines, m, gen); };
    for (int list = 0; list < 2; ++list)
    {
        set("suggestionlist.default", list ? "true" : "false");
        live l(true);
        s_live = &l;
        l.key("g");
        if (is_suggestion_list_active(true) != !!list) { printf("the list is %s\n", list ? "off" : "on"); exit(3); }
        choose_scenes([](const scene& c, const string& cs) { mc::tick(); for (auto& t : c_typed) choose_case(c, cs + " typed " + t, t); }, list);
    }
    s_callbacks.give = nullptr;
}

//------------------------------------------------------------------------------
// The list of suggestions.
static int s_many;
static vector<offer> list_for(const string& l)
{
    vector<offer> v;
    if (l.empty() || l.back() == 'z') return v;
    const int n = l.back() == 'y' ? 1 : s_many;
    for (int i = 0; i < n; ++i)
    {
        offer o;
        const string tail = string(l.size() & 1 ? "long enough tail" : "tail").substr(0, 4 + i % 5) + std::to_string(i);
        if (i % 3 == 0) { o.offset = 0; o.text = i % 2 ? "other " + tail : l + tail; }
        else if (i % 3 == 1) { o.offset = last_word(l); o.text = l.substr(o.offset) + tail; }
        else { o.offset = int(l.size()); o.text = " \"" + tail + "\""; }
        v.push_back(o);
    }
    return v;
}
enum list_key { k_up, k_down, k_pgup, k_pgdn, k_wheelup, k_wheeldown, k_wheelup3, k_wheeldown3, k_click0, k_click2, k_esc, k_c, k_y, k_z, k_back, k_left, k_undo, k_keys };
static const char* c_list_names[] = { "Up", "Down", "PgUp", "PgDn", "WheelUp1", "WheelDown1", "WheelUp3", "WheelDown3", "Click0", "Click2", "Esc", "c", "y", "z", "Back", "Left", "Undo" };
static const vector<string> c_list_starts = { "g", "git c", "a \"b", "z", "" };
static bool list_case(const vector<int>& seq)
{
    string code;
    for (int i : seq) code += (code.empty() ? "" : ",") + std::to_string(i);
    s_many = seq[0];
    const bool wrap = seq[1] & 1;
    const int context = seq[1] & 2 ? 3 : 0;
    rl_variable_bind("menu-complete-wraparound", wrap ? "on" : "off");
    set("clink.scroll_offset", context ? "3" : "0");
    ed::s_rows = seq[1] & 4 ? 5 : seq[1] & 8 ? 12 : 25;
    live s(false);
    auto& impl = s.e->e->m_suggestionlist;
    string line = c_list_starts[seq[2]], typed = line;
    s.key(line);
    mc::stat("evaluations");
    auto L = list_for(line);
    string owner = line;
    int at = int(line.size()), index = -1, top = 0, typed_at = at;
    bool hidden = false, nontrivial = false;
    vector<std::pair<string, int>> undo;
    string done = "[" + line + "]";
    // The list belongs to what is typed.
    auto edited = [&]() { index = -1; hidden = false; if (at == int(line.size())) { L = list_for(line); owner = line; } top = 0; typed = line; };
    const int room = std::min(ed::s_rows - 3, ed::s_rows / 2);
    for (size_t k = 3; k < seq.size(); ++k)
    {
        const int key = seq[k];
        const int count = int(L.size()), wanted = std::min(count, 10), rows = wanted > room && room < 3 ? 0 : std::min(wanted, room), ofs = std::min(context, std::max(0, (rows - 1) / 2));
        const bool on = rows && !hidden;
        if (key >= k_wheelup && key <= k_wheeldown3 && !s.e->e->accepts_mouse_input(mouse_input_type::wheel)) continue;
        if ((key == k_click0 || key == k_click2) && !s.e->e->accepts_mouse_input(mouse_input_type::left_click)) continue;
        string bytes;
        int to = -2;        // Navigates to this one.
        bool mouse = false;
        switch (key)
        {
        case k_up: bytes = "\x1b[A"; if (on) to = index >= 0 ? index - 1 : wrap ? count - 1 : -1; break;
        case k_down: bytes = "\x1b[B"; if (on) to = index + 1 < count ? index + 1 : wrap ? -1 : count - 1; break;
        case k_pgup: bytes = "\x1b[5~"; if (on && index > 0) to = std::max(0, index <= top + ofs ? index - (rows - ofs) : top + ofs); break;
        case k_pgdn: bytes = "\x1b[6~"; if (on && index >= 0 && index < count - 1) { const int bottom = top + rows - ofs - 1; to = std::min(count - 1, index == bottom ? index + rows - ofs : bottom); } break;
        // The wheel stops at both ends, and doesn't leave the list.
        case k_wheelup: case k_wheelup3: bytes = key == k_wheelup ? "\x1b[$1A" : "\x1b[$3A"; if (on && index >= 0) to = std::max(0, index - (key == k_wheelup ? 1 : 3)); break;
        case k_wheeldown: case k_wheeldown3: bytes = key == k_wheeldown ? "\x1b[$1B" : "\x1b[$3B"; if (on) to = std::min(count - 1, index + (key == k_wheeldown ? 1 : 3)); break;
        case k_click0: case k_click2:
            bytes = "\x1b[$5;" + std::to_string(impl.m_mouse_offset + (key == k_click2 ? 2 : 0)) + "L";
            if (!on) continue;
            if (key == k_click2 && rows < 3) continue;
            to = top + (key == k_click2 ? 2 : 0);
            mouse = true;
            break;
        case k_esc: bytes = get_bindable_esc() ? get_bindable_esc() : "\x07"; break;
        case k_c: case k_y: case k_z: bytes = c_list_names[key]; break;
        case k_back: bytes = "\x08"; break;
        case k_left: bytes = "\x02"; break;
        case k_undo: bytes = "\x1f"; break;
        }
        const bool wheel = key >= k_wheelup && key <= k_wheeldown3;
        if (wheel && to == index) to = -2;
        const string before = s.e->line();
        s.key(bytes);
        mc::stat("steps");
        done += string(" ") + c_list_names[key];
        const string got = s.e->line();
        const int got_at = s.e->cursor();
        bool given_up = false;
        if (to != -2)
        {
            nontrivial = true;
            if (index < 0) typed_at = at;
            index = to;
            if (index < 0) { line = typed; at = typed_at; }
            else
            {
                line = owner.substr(0, L[index].offset) + L[index].text;
                at = int(line.size());
            }
            if (index < top) top = std::max(0, index);
            else top = std::max(top, index - (rows - 1));
            if (!mouse && ofs)
            {
                const int last = std::max(0, count - rows);
                if (top > std::max(0, index - ofs)) top = std::max(0, index - ofs);
                else if (top < std::min(last, index + ofs - rows + 1)) top = std::min(last, index + ofs - rows + 1);
            }
        }
        else switch (key)
        {
        case k_esc:
            if (!on) { given_up = true; break; }
            if (index >= 0) at = typed_at;
            line = typed;
            hidden = true;
            L.clear();
            index = -1;
            break;
        case k_c: case k_y: case k_z: line.insert(at, c_list_names[key]); ++at; edited(); break;
        // Erasing doesn't bring a hidden list back.
        case k_back: if (at) { const bool erasing = hidden && at == int(line.size()); line.erase(--at, 1); if (!erasing) edited(); else typed = line; } break;
        case k_left: if (at) { --at; if (hidden) hidden = false; } break;
        case k_undo: given_up = true; break;
        }
        // From inside the line the cursor may come back to the end.
        if (line == typed && index < 0 && line != before && at < int(line.size())) at = got_at;
        const string what = done + " of " + std::to_string(count) + ": [" + before + "] becomes [" + got + "]";
        if (given_up)
        {
            // Undo has its own property; go on only from the typed line.
            if (key == k_undo && index >= 0 && got != typed) return bad(code, what + " instead of the typed line [" + typed + "]");
            if (key != k_undo || index < 0) break;
            line = typed;
            at = got_at;
            index = -1;
            top = 0;
        }
        if (got != line) return bad(code, what + " instead of [" + line + "]");
        if (got_at != at) return bad(code, what + " with the cursor at " + std::to_string(got_at) + " instead of " + std::to_string(at));
        if (on && !L.empty() && !hidden)
        {
            if (impl.m_index != index) return bad(code, what + " and " + std::to_string(impl.m_index) + " is selected instead of " + std::to_string(index));
            if (impl.m_count != int(L.size())) return bad(code, what + " and the list has " + std::to_string(impl.m_count) + " instead of " + std::to_string(L.size()));
            if (impl.m_top != top) return bad(code, what + " and the list begins with " + std::to_string(impl.m_top) + " instead of " + std::to_string(top));
        }
        else if (L.empty() && impl.m_count) return bad(code, what + " and there is a list of " + std::to_string(impl.m_count));
    }
    if (nontrivial) mc::stat("distinct_nontrivial");
    return true;
}
static void list_run()
{
    s_callbacks.give = [](const line_states& lines, matches*, int32) {
        const line_state& l = lines.back();
        const string line(l.get_line(), l.get_length());
        suggestions s;
        for (auto& o : list_for(line)) s.add(o.text.c_str(), o.offset, "test", -1, -1, "", -1);
        set_suggestions(line.c_str(), l.get_end_word_offset(), &s);
    };
    set("suggestionlist.default", "true");
    clear_history();
    if (mc::S().replaying)
    {
        vector<int> seq;
        for (auto& x : mc::split(mc::S().replay, ',')) seq.push_back(atoi(x.c_str()));
        list_case(seq);
        return;
    }
    int depth = 0;
    size_t n = 0;
    vector<int> seq;
    std::function<void()> rec = [&]() {
        if (mc::enough()) return;
        const int len = int(seq.size()) - 3;
        if (len == depth)
        {
            if (!mc::mine(n++)) return;
            mc::tick();
            string code;
            for (int i : seq) code += (code.empty() ? "" : ",") + std::to_string(i);
            mc::current(code);
            list_case(seq);
            if (n % 10007 == 1) mc::sample(code);
            return;
        }
        for (int key = 0; key < k_keys; ++key) { seq.push_back(key); rec(); seq.pop_back(); }
    };
    for (int many : { 1, 2, 5, 12, 30 })
        for (int cfg : { 0, 1, 2, 3, 4, 6, 8, 11 })
            for (size_t st = 0; st < c_list_starts.size(); ++st)
            {
                if ((st && many > 12) || (cfg && st > 1)) continue;
                seq = { many, cfg, int(st) };
                depth = (!st && (many == 2 || many == 12) && (cfg == 0 || cfg == 3) ? 4 : 3) + (mc::thorough() && !st);
                rec();
            }
}

//------------------------------------------------------------------------------
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    init_session();
    accept_all();
    if (g_mode == "choose") { choose_run(); return mc::done(); }
    if (g_mode == "list") { list_run(); return mc::done(); }
    bind_ops();
    if (mc::S().replaying)
    {
        vector<int> seq;
        for (auto& x : mc::split(mc::S().replay, ',')) seq.push_back(atoi(x.c_str()));
        accept_case(seq);
        return mc::done();
    }
    accept_run();
    return mc::done();
}
