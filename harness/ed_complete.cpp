// Completion commands in the real line editor.
//   --mode insert | cycle
#include "ed_session.h"
#include <core/str_compare.h>

static string g_mode;
static bool bad(const string& cs, const string& msg) { mc::violation(g_mode + " " + cs, cs, msg); return false; }
static bool replay_print;

//------------------------------------------------------------------------------
static string lower(string s) { for (auto& c : s) c = char(tolower(uint8(c))); return s; }
// A word as CMD and the programs it starts see it: up to an unquoted blank, without its quotes.
struct word_of { string text; size_t end; bool open; };
static word_of parse(const string& line, size_t at, bool verbatim = false)
{
    if (verbatim)
    {
        // Arguments aren't quoted.
        word_of v = { "", line.size(), false };
        for (char c : line) if (c == '"') v.open = !v.open; else v.text += c;
        if (!v.text.empty() && line.back() == ' ') { v.text.pop_back(); --v.end; }
        return v;
    }
    word_of w = { "", at, false };
    for (; w.end < line.size() && (w.open || line[w.end] != ' '); ++w.end)
    {
        if (line[w.end] == '"') w.open = !w.open;
        else w.text += line[w.end];
    }
    return w;
}
static bool special(const string& s) { return s.find_first_of(" &()[]{}^=;!%'+,`~") != string::npos; }

// A case: names; what is typed; what follows.
// From: files, arguments, arguments with an append character, arguments that suppress appending.
struct scene { vector<string> files; string typed, after; int from; };
static string code_of(const scene& s) { return join(s.files, "/") + "|" + s.typed + "|" + s.after + "|" + std::to_string(s.from); }

static const char c_complete[] = "\x1c" "c", c_menu[] = "\x1c" "m", c_back[] = "\x1c" "b", c_old[] = "\x1c" "o", c_insert[] = "\x1c" "i";
static void bind_all()
{
    rl_bind_keyseq(c_complete, rl_named_function("complete"));
    rl_bind_keyseq(c_menu, rl_named_function("menu-complete"));
    rl_bind_keyseq(c_back, rl_named_function("menu-complete-backward"));
    rl_bind_keyseq(c_old, rl_named_function("old-menu-complete"));
    rl_bind_keyseq(c_insert, rl_named_function("insert-completions"));
}

static bool scene_case(const scene& sc)
{
    string before = "cmd ";
    if (sc.from)
    {
        before = "arg ";
        string l = "clink.argmatcher('arg'):reset():addarg({";
        for (auto& f : sc.files) l += "{ match=[[" + f + "]]" + (sc.from == 2 ? ", appendchar=':'" : sc.from == 3 ? ", suppressappend=true" : "") + " }, ";
        run_lua(l + "}):nofiles()");
        ed::files().clear();
    }
    else
        ed::files() = sc.files;
    const bool quoted = !sc.typed.empty() && sc.typed[0] == '"';
    string t = sc.typed.substr(quoted);
    if (quoted && !t.empty() && t.back() == '"') t.pop_back();
    size_t slash = t.rfind('\\');
    const string dir = slash == string::npos ? "" : t.substr(0, slash + 1), base = t.substr(dir.size());
    vector<string> cands;
    for (auto& f : sc.files)
    {
        string n = f.substr(0, f.size() - (f.back() == '\\'));
        size_t l = n.rfind('\\');
        if (lower(l == string::npos ? "" : n.substr(0, l + 1)) != lower(dir)) continue;
        n = f.substr(l == string::npos ? 0 : l + 1);
        if (lower(n).compare(0, base.size(), lower(base)) == 0) cands.push_back(n);
    }
    const bool verbatim = sc.from != 0;
    const string cs = code_of(sc);
    mc::current(cs);
    mc::stat("evaluations");
    if (cands.size() > 1) mc::stat("distinct_nontrivial");
    auto run = [&](const char* key, int times, vector<string>& offers) {
        session s(true);
        s.e->keys(before);
        // Not typed, so that nothing completes meanwhile.
        s.e->e->m_buffer.insert((sc.typed + sc.after).c_str());
        s.e->e->m_buffer.set_cursor(before.size() + sc.typed.size());
        vector<std::pair<string, int>> r;
        for (int i = 0; i < times; ++i) { s.key(key); r.push_back({ s.e->line(), s.e->cursor() }); }
        offers.clear();
        for (matches_iter i = s.e->e->m_matches.get_iter(); i.next();) offers.push_back(i.get_match());
        return r;
    };
    auto shown = [&](const string& l, int at) { return "[" + l.substr(0, at) + "|" + l.substr(at) + "]"; };
    const string start = shown(before + sc.typed + sc.after, int(before.size() + sc.typed.size()));
    vector<string> offers;
    if (g_mode == "insert")
    {
        auto r = run(c_complete, 1, offers)[0];
        const string what = start + " of " + join(sc.files, ", ") + " completes to " + shown(r.first, r.second);
        if (replay_print) printf("%s\n", what.c_str());
        if (r.first.compare(0, before.size(), before)) return bad(cs, what + ": what is before the word changes");
        if (cands.empty()) return r.first == before + sc.typed + sc.after || bad(cs, what + ": the line changes");
        // What follows stays; a quote or blank may be used instead of inserting one.
        string tail = r.first.substr(r.second);
        string word = r.first.substr(before.size(), r.second - before.size());
        string want_tail = sc.after;
        word_of w = parse(word, 0, verbatim);
        if (sc.from == 2 && cands.size() == 1 && !w.text.empty() && sc.after.empty()) w.text.pop_back();
        string expect;
        if (cands.size() == 1) expect = dir + cands[0];
        else
        {
            string lcd = cands[0];
            for (auto& c : cands) { size_t i = 0; while (i < lcd.size() && i < c.size() && tolower(lcd[i]) == tolower(c[i])) ++i; lcd.resize(i); }
            expect = dir + lcd;
        }
        if (lower(w.text) != lower(expect)) return bad(cs, what + " instead of " + expect);
        if (!verbatim && special(expect) && word[0] != '"') return bad(cs, what + ", without quotes");
        // The quote and the word are ended only at the end of the line.
        if (!sc.after.empty())
            ;
        else if (cands.size() == 1 && cands[0].back() != '\\')
        {
            if (sc.from == 2)
            {
                if (word.back() != ':') return bad(cs, what + ", without a colon");
                word.pop_back();
                w = parse(word, 0, verbatim);
            }
            if (w.open) return bad(cs, what + ", with the quote open");
            if (sc.from == 3 ? w.end != word.size() : sc.from < 2 && word.back() != ' ') return bad(cs, what + ", the word isn't ended right");
        }
        else if (w.end != word.size()) return bad(cs, what + ", with the word ended");
        if (tail != sc.after) return bad(cs, what + ": what follows changes");
        return true;
    }
    // Cycling through the matches, and inserting them all.
    vector<string> order;
    for (const char* key : { c_menu, c_back, c_old, c_insert })
    {
        if (verbatim && key == c_insert) continue;
        const int n = int(cands.size());
        auto r = run(key, key == c_insert ? 1 : n + 2, offers);
        string what = start + " of " + join(sc.files, ", ") + (key == c_menu ? " cycles" : key == c_back ? " cycles back" : key == c_old ? " cycles the old way" : " inserts");
        for (auto& x : r) what += " " + shown(x.first, x.second);
        if (replay_print) printf("%s; offered %s\n", what.c_str(), join(offers).c_str());
        vector<string> seen;
        for (size_t i = 0; i < r.size(); ++i)
        {
            const string& l = r[i].first;
            const int at = r[i].second;
            if (l.compare(0, before.size(), before)) return bad(cs, what + ": what is before the word changes");
            if (l.substr(at) != sc.after) return bad(cs, what + ": what follows changes");
            string word = l.substr(before.size(), at - before.size());
            if (cands.empty()) { if (word != sc.typed) return bad(cs, what + ": the line changes"); continue; }
            if (key == c_insert)
            {
                size_t p = 0;
                while (p < word.size())
                {
                    word_of w = parse(word, p);
                    if (!verbatim && special(w.text) && word[p] != '"') return bad(cs, what + ", without quotes");
                    seen.push_back(lower(w.text));
                    p = w.end + 1;
                }
                continue;
            }
            if (sc.from == 2 && word.size() && word.back() == ':') word.pop_back();
            word_of w = parse(word, 0, verbatim);
            if (word == sc.typed && n > 1 && lower(w.text) != lower(dir + cands[0]) && lower(w.text) != lower(dir + cands[1])) { seen.push_back("*"); continue; }
            if (!verbatim && special(w.text) && word[0] != '"') return bad(cs, what + ", without quotes");
            seen.push_back(lower(w.text));
        }
        if (cands.empty()) continue;
        vector<string> want, got(seen);
        for (auto& c : cands) want.push_back(lower(dir + c));
        std::sort(want.begin(), want.end());
        if (got.size() > want.size()) got.resize(want.size());
        std::sort(got.begin(), got.end());
        if (got != want) return bad(cs, what + ", which isn't each of them");
        // Then the typed text again, and around.
        if (key != c_insert && n > 1)
        {
            // (What they have in common.)
            string c = lower(parse(r[n].first.substr(before.size(), r[n].second - before.size()), 0, verbatim).text);
            bool ok = r[n + 1] == r[0] && c.compare(0, t.size(), lower(t)) == 0;
            for (auto& x : want) ok = ok && x.compare(0, c.size(), c) == 0;
            if (!ok) return bad(cs, what + ", and doesn't go around");
        }
        vector<string>& o = order;
        seen.resize(n);
        if (key == c_back) std::reverse(seen.begin(), seen.end());
        if (o.empty()) o = seen;
        else if (o != seen) return bad(cs, what + ", in another order");
    }
    return true;
}

static void scenes(int from, const std::function<void(const scene&)>& f)
{
    const char* names[] = { "a", "ab", "a b", "a&b", "a%", "a'c", "b", "aB", "a(b)", "a b c", "a=1", "a^", "a@x", "a-b" };
    vector<string> typed = { "", "a", "A", "\"", "\"a", "\"a b", "ab", "x", "\"a&", "b", "\"a\"", "\"a b\"", "\"\"", "d\\", "d\\a", "D\\A", "\"d e\\", "\"d e\\a", "\"d e\\A\"", "d", "\"d", "D\\E\\", "d\\e\\a" };
    vector<string> after = { "", " z", "\"", "\" z", " \"z\"", "b" };
    vector<vector<string>> sets;
    const int n = sizeof(names) / sizeof(names[0]);
    for (int i = 0; i < n; ++i)
    {
        sets.push_back({ names[i] });
        sets.push_back({ string(names[i]) + "\\" });
        for (int j = i + 1; j < n; ++j)
        {
            if (lower(names[i]) == lower(names[j])) continue;
            sets.push_back({ names[i], names[j] });
            sets.push_back({ string(names[i]) + "\\", names[j] });
        }
    }
    if (from)
        for (size_t i = sets.size(); i--; ) { bool dirs = false; for (auto& x : sets[i]) dirs |= x.back() == '\\'; if (dirs) sets.erase(sets.begin() + i); }
    if (!from)
    for (const char* a : { "a", "ab", "a b", "a b\\" })
        for (const char* b : { "b", "aB", "a c\\" })
            for (const char* d : { "d\\", "d e\\", "d\\e\\" })
            {
                vector<string> s = { d, string(d) + a, string(d) + b };
                if (string(d) == "d\\e\\") s.insert(s.begin(), "d\\");
                sets.push_back(s);
                s.push_back("a");
                sets.push_back(s);
            }
    for (auto& s : sets)
        for (auto& t : typed)
            for (auto& a : after)
                if (!(t.size() > 1 && t.back() == '"' && a[0] == '"')) f({ s, t, a, from });
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    init_session();
    bind_all();
    settings::find("match.expand_abbrev")->set("false");
    // As while editing.
    str_compare_scope compare(str_compare_scope::relaxed, false);
    if (mc::S().replaying)
    {
        replay_print = true;
        auto p = mc::split(mc::S().replay, '|');
        p.resize(4);
        scene_case({ mc::split(p[0], '/'), p[1], p[2], atoi(p[3].c_str()) });
        return mc::done();
    }
    size_t n = 0;
    for (int from = 0; from < 4; ++from)
    if (mc::thorough() || g_mode != "cycle" || from % 2 == 0)
    scenes(from, [&](const scene& s) { if (!mc::mine(n++) || mc::enough()) return; mc::tick(); scene_case(s); if (n % 499 == 1) mc::sample(code_of(s)); });
    return mc::done();
}
