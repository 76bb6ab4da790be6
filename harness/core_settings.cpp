// Settings.  --mode store: every sequence of operations on the settings and their file, against a
// model of what is in memory and what is in the file.  --mode color: every colour text of up to some
// tokens, and every list of codes, against the meaning of colours.
#include "mc.h"
#include <core/base.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <core/settings.h>
#include <deque>
#include <memory>

using std::string;
using std::vector;
using std::map;

static string g_mode;
static bool bad(const string& cs, const string& msg) { mc::violation(g_mode + " " + cs, cs, msg); return false; }

//==============================================================================
// Colours.
struct look
{
    int fg = -1, bg = -1;               // -1 default, 0-15, or 0x1000000 | rgb.
    int bold = -1; bool italic = false, underline = false, reverse = false;
    bool operator == (const look& o) const { return fg == o.fg && bg == o.bg && (bold > 0) == (o.bold > 0) && italic == o.italic && underline == o.underline && reverse == o.reverse; }
};

static const char* const c_names[] = { "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white" };

// What a colour text means; false if it is not a colour.  An empty text is no colour at all.
static bool ref_color(const vector<string>& tokens, look& out)
{
    out = look();
    int color[2] = { -2, -2 }, bright[2] = { 0, 0 };
    bool deflt[2] = { false, false }, hex[2] = { false, false };
    int where = 0;
    bool bold_seen = false, ul_seen = false;
    for (auto& t : tokens)
    {
        auto is = [&](const char* n) { return !_strnicmp(t.c_str(), n, 3); };
        if (t == "on") { if (where) return false; where = 1; }
        else if (is("normal") || is("default")) { if (color[where] >= 0 || deflt[where]) return false; deflt[where] = true; }
        else if (is("bold") || is("nobold") || is("dim")) { if (where || bold_seen) return false; bold_seen = true; out.bold = is("bold"); }
        else if (is("bright")) { if (hex[where] || bright[where]) return false; bright[where] = 1; }
        else if (is("underline") || is("nounderline")) { if (where || ul_seen) return false; ul_seen = true; out.underline = is("underline"); }
        else if (is("italic")) { if (where || out.italic) return false; out.italic = true; }
        else if (is("reverse")) { if (out.reverse) return false; out.reverse = true; }
        else if (t[0] == '#')
        {
            if (color[where] >= 0 || bright[where]) return false;
            if (t.size() != 4 && t.size() != 7) return false;
            unsigned v = 0;
            for (size_t i = 1; i < t.size(); ++i)
            {
                if (!isxdigit((unsigned char)t[i])) return false;
                const unsigned d = isdigit((unsigned char)t[i]) ? t[i] - '0' : tolower(t[i]) - 'a' + 10;
                v = t.size() == 4 ? v << 8 | d * 17 : v << 4 | d;
            }
            color[where] = 0x1000000 | v; hex[where] = true;
        }
        else
        {
            int i = 0;
            while (i < 8 && !is(c_names[i])) ++i;
            if (i == 8 || color[where] >= 0) return false;
            color[where] = i;
        }
    }
    for (int w = 0; w < 2; ++w)
    {
        int c = color[w];
        if (c >= 0 && !hex[w] && bright[w]) c += 8;
        (w ? out.bg : out.fg) = c < 0 ? -1 : c;
    }
    return true;
}

// What a list of SGR codes does, starting from whatever.
static bool sgr(const string& codes, look& out)
{
    out = look();
    vector<int> v;
    for (auto& s : mc::split(codes, ';')) v.push_back(s.empty() ? 0 : atoi(s.c_str()));
    for (size_t i = 0; i < v.size(); ++i)
    {
        const int x = v[i];
        if (x == 0) out = look();
        else if (x == 1) out.bold = 1; else if (x == 22) out.bold = 0;
        else if (x == 3) out.italic = true; else if (x == 23) out.italic = false;
        else if (x == 4) out.underline = true; else if (x == 24) out.underline = false;
        else if (x == 7) out.reverse = true; else if (x == 27) out.reverse = false;
        else if (x >= 30 && x < 38) out.fg = x - 30; else if (x >= 90 && x < 98) out.fg = x - 90 + 8;
        else if (x >= 40 && x < 48) out.bg = x - 40; else if (x >= 100 && x < 108) out.bg = x - 100 + 8;
        else if (x == 39) out.fg = -1; else if (x == 49) out.bg = -1;
        else if (x == 38 || x == 48)
        {
            if (i + 4 >= v.size() || v[i + 1] != 2) return false;
            (x == 38 ? out.fg : out.bg) = 0x1000000 | v[i + 2] << 16 | v[i + 3] << 8 | v[i + 4];
            i += 4;
        }
        else return false;
    }
    return true;
}

static bool same_code_after_format(const string& cs, const string& code, bool exact)
{
    for (int compat = 0; compat < 2; ++compat)
    {
        str<> text, again;
        settings::format_color(code.c_str(), text, !!compat);
        if (!settings::parse_color(text.c_str(), again))
            return bad(cs, "the codes " + code + " are shown as \"" + text.c_str() + "\", which is not a colour");
        look a, b;
        if (again.equals(code.c_str())) continue;
        if (!sgr(code, a) || !sgr(again.c_str(), b) || !(a == b))
            return bad(cs, "the codes " + code + " are shown as \"" + text.c_str() + "\", which means " + again.c_str());
    }
    return true;
}

static bool color_case(const string& cs)
{
    mc::current(cs);
    if (cs[0] == '=')       // A list of codes.
    {
        mc::stat("evaluations");
        if (cs.size() > 4) mc::stat("distinct_nontrivial");
        return same_code_after_format(cs, cs.substr(1), false);
    }
    vector<string> tokens;
    for (auto& t : mc::split(cs, ' ')) if (!t.empty()) tokens.push_back(t);
    look want, got;
    const bool ok = ref_color(tokens, want);
    str<> code;
    const bool r = settings::parse_color(cs.c_str(), code);
    mc::stat("evaluations");
    if (r != ok) return bad(cs, r ? "accepted, but is not a colour" : "a colour was refused");
    if (!ok) return true;
    if (tokens.empty()) return code.empty() || cs[0] ? true : bad(cs, "no colour gives codes");
    mc::stat("distinct_nontrivial");
    if (!sgr(code.c_str(), got) || !(got == want)) return bad(cs, string("means ") + code.c_str());
    if (string(code.c_str()).compare(0, 1, "0")) return bad(cs, "does not start from the default colours");
    return same_code_after_format(cs, code.c_str(), true);
}
static void color_all()
{
    const vector<string> vocab { "on", "default", "bold", "dim", "bright", "underline", "nounderline", "italic", "reverse", "red", "black", "white", "yel", "#f80", "#0a0b0c", "#12", "nope", "nor" };
    mc::ull serial = 0;
    std::function<void(string, int)> go = [&](string s, int left) {
        if (mc::mine(serial++)) color_case(s);
        if (!left || mc::enough()) return;
        for (auto& v : vocab) go(s.empty() ? v : s + " " + v, left - 1);
    };
    go("", mc::thorough() ? 5 : 4);
    const vector<string> codes { "0", "1", "22", "3", "4", "7", "30", "37", "97", "39", "41", "100", "49", "38;2;1;2;255", "48;2;0;0;10", "24", "5" };
    std::function<void(string, int)> go2 = [&](string s, int left) {
        if (mc::mine(serial++) && !s.empty()) color_case("=" + s);
        if (!left || mc::enough()) return;
        for (auto& v : codes) go2(s.empty() ? v : s + ";" + v, left - 1);
    };
    go2("", mc::thorough() ? 5 : 4);
    for (int i = 0; i < 16; ++i)
        for (int j = 0; j < 16; ++j)
            color_case(string(i > 7 ? "bright " : "") + c_names[i & 7] + " on " + (j > 7 ? "bright " : "") + c_names[j & 7]);
}

//==============================================================================
// The settings and their file.
static const char* const c_file = "clink_settings";
static const char* const c_defaults = "default_settings";

static setting_int* A; static setting_str* B; static setting_color* C; static setting_enum* E; static setting_bool* F;
static std::unique_ptr<setting_int> X;

struct desc { const char* name; const char* dflt; };
// The names the operations use.  x.script is declared by a script, y.script never is.
static const vector<desc> c_settings { { "a.int", "1" }, { "b.str", "d f" }, { "c.color", "0;1" }, { "e.enum", "two" }, { "f.bool", "True" }, { "x.script", "3" } };
// What a text means for a setting: its canonical value, or nothing when it is invalid.
static bool canonical(const string& name, const string& text, string& out)
{
    if (name == "a.int" || name == "x.script")
    {
        if (text.empty() || (text[0] != '-' && !isdigit((unsigned char)text[0]))) return false;
        out = std::to_string(atoi(text.c_str()));
    }
    else if (name == "b.str") out = text;
    else if (name == "c.color")
    {
        if (text == "red on blue") out = "0;31;44"; else if (text == "sgr 5;31") out = "5;31"; else if (text.empty()) out = "";
        else if (text == "#102030") out = "0;38;2;16;32;48"; else if (text == "bold") out = "0;1";
        else if (text == "sgr 0;38;2;16;32;48") out = "0;38;2;16;32;48";
        else return false;
    }
    else if (name == "e.enum")
    {
        static const char* const o[] = { "zero", "one", "two" };
        for (int i = 0; i < 3; ++i) if (!_stricmp(text.c_str(), o[i]) || text == std::to_string(i)) { out = o[i]; return true; }
        return false;
    }
    else if (name == "f.bool")
    {
        if (!_stricmp(text.c_str(), "true") || text == "1" || text == "on") out = "True";
        else if (!_stricmp(text.c_str(), "false") || text == "0" || text == "off") out = "False";
        else return false;
    }
    else out = text;
    return true;
}

struct pair_op { const char* name; const char* value; };
static vector<pair_op> c_sets { { "a.int", "7" }, { "a.int", "1" }, { "a.int", "abc" }, { "b.str", "p = q " }, { "b.str", "" }, { "c.color", "red on blue" }, { "c.color", "#102030" },
    { "c.color", "sgr 5;31" }, { "c.color", "" }, { "e.enum", "zero" }, { "e.enum", "2" }, { "f.bool", "off" }, { "x.script", "9" }, { "x.script", "8" }, { "y.script", "v w" }, { "y.script", "u" } };
static const size_t c_num_sets = c_sets.size();
// Strings of all kinds of characters, for a declared setting and for one that is not.
static void more_values()
{
    static std::deque<string> keep;
    const vector<string> chars { "a", " ", "=", "#", "\"", ";", "[", "\\", "%", "\t", "\xc3\xa9" };
    vector<string> level { "" };
    for (int n = 0; n < (mc::thorough() ? 4 : 3); ++n)
    {
        vector<string> next;
        for (auto& l : level) for (auto& c : chars) { if (l.empty() && (c == " " || c == "\t")) continue; next.push_back(l + c); }
        for (auto& v : next) for (const char* n : { "b.str", "y.script" }) { keep.push_back(v); c_sets.push_back({ n, keep.back().c_str() }); }
        level.swap(next);
    }
    for (size_t n : { 100, 255, 256, 257, 4095, 4096, 9000 })
        for (const char* name : { "b.str", "y.script" }) { keep.push_back(string(n, 'v') + "w"); c_sets.push_back({ name, keep.back().c_str() }); }
    for (const char* v : { "0", "-3", "2147483647", "-2147483648" }) c_sets.push_back({ "a.int", v });
}
static const vector<const char*> c_clears { "a.int", "b.str", "c.color", "e.enum", "f.bool", "x.script", "y.script" };

struct world
{
    int defaults = 0;
    map<string, string> P;              // The file: canonical values that are set there.
    map<string, string> comments;
    map<string, string> V;              // In memory.
    map<string, string> L;              // Read from the file, but not declared.
    bool declared = false;
    string trace;

    string dflt(const string& n) const
    {
        if (defaults && n == "a.int") return "5";
        if (defaults && n == "c.color") return "0;31;44";
        for (auto& d : c_settings) if (n == d.name) return d.dflt;
        return "";
    }
    bool known(const string& n) const { return n == "x.script" ? declared : n != "y.script"; }
    string eff(const string& n) const { auto i = P.find(n); return i == P.end() ? dflt(n) : i->second; }

    void write(const char* f, const string& t) { FILE* o = fopen(f, "wb"); fwrite(t.data(), 1, t.size(), o); fclose(o); }
    static string read(const char* f) { string t; FILE* o = fopen(f, "rb"); if (!o) return t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof(b), o)) > 0) t.append(b, n); fclose(o); return t; }

    void start(int seed)
    {
        defaults = seed & 1;
        X.reset();
        remove(c_file); remove(c_defaults);
        if (defaults) write(c_defaults, "a.int = 5\r\nc.color = red on blue\r\n");
        if (seed & 2)
        {
            write(c_file, "# name: Something\r\n# type: string\r\ny.script = old value\r\n\r\n# of a script\r\nx.script = 4\r\nB.STR =  s t\r\ne.enum = ONE\r\n# a note\r\n");
            P["y.script"] = "old value"; P["x.script"] = "4"; P["b.str"] = "s t"; P["e.enum"] = "one";
            comments["y.script"] = "# name: Something\n# type: string\n"; comments["x.script"] = "# of a script\n";
        }
        do_load();
    }
    void do_load()
    {
        if (!settings::load(c_file, c_defaults)) bad(trace, "load failed");
        model_load();
    }
    void model_load()
    {
        V.clear(); L.clear();
        for (auto& d : c_settings) if (known(d.name)) V[d.name] = eff(d.name);
        for (auto& p : P) if (!known(p.first)) L[p.first] = p.second;
    }
    void model_set(map<string, string>& m, const string& n, const string& v) { string c; if (canonical(n, v, c)) m[n] = c; }

    bool run(const string& op)
    {
        trace += trace.find(';') == trace.size() - 1 ? op : "," + op;
        const int i = atoi(op.c_str() + 1);
        string c;
        switch (op[0])
        {
        case 'l': do_load(); break;
        case 's':   // clink set name value
            {
                const auto& o = c_sets[i];
                do_load();
                setting* s = settings::find(o.name);
                if (!s) break;
                if (s->set(o.value) != canonical(o.name, o.value, c)) return bad(trace, string(o.name) + " = \"" + o.value + "\" gave the wrong answer");
                model_set(V, o.name, o.value);
                if (!settings::save(c_file)) return bad(trace, "save failed");
                model_set(P, o.name, o.value);
            }
            break;
        case 'c':   // clink set name clear
            {
                do_load();
                setting* s = settings::find(c_clears[i]);
                if (!s) break;
                s->set();
                V[c_clears[i]] = dflt(c_clears[i]);
                if (!settings::save(c_file)) return bad(trace, "save failed");
                P.erase(c_clears[i]); comments.erase(c_clears[i]);
            }
            break;
        case 'b':   // From a running session: one setting, in the file only.
            {
                const auto& o = c_sets[i];
                const bool ok = settings::sandboxed_set_setting(o.name, o.value);
                if (ok != canonical(o.name, o.value, c)) return bad(trace, string("saving ") + o.name + " = \"" + o.value + "\" gave the wrong answer");
                model_set(P, o.name, o.value);
            }
            break;
        case 'n':   // The same, back to the default.
            if (!settings::find(c_clears[i])) break;
            if (!settings::sandboxed_set_setting(c_clears[i], nullptr)) return bad(trace, string("clearing ") + c_clears[i] + " failed");
            P.erase(c_clears[i]); comments.erase(c_clears[i]);
            break;
        case 'o': case 'p':     // Several at once (a theme), in memory or in the file.
            {
                vector<settings::setting_name_value> v;
                v.emplace_back(c_sets[i].name, c_sets[i].value, settings::section::set);
                const char* clear = c_clears[(i * 3 + 1) % c_clears.size()];
                if (!strcmp(clear, c_sets[i].name)) clear = "b.str";
                v.emplace_back(clear, nullptr, settings::section::clear);
                if (op[0] == 'o')
                {
                    settings::overlay(v);
                    if (known(c_sets[i].name)) model_set(V, c_sets[i].name, c_sets[i].value); else L[c_sets[i].name] = c_sets[i].value;
                    if (known(clear)) V[clear] = dflt(clear); else L.erase(clear);
                }
                else
                {
                    if (!settings::sandboxed_overlay(v)) return bad(trace, "saving several failed");
                    model_set(P, c_sets[i].name, c_sets[i].value);
                    P.erase(clear); comments.erase(clear);
                }
            }
            break;
        case 'd':   // A script declares its setting, or goes away.
            declared = !declared;
            if (declared)
            {
                X.reset(new setting_int("x.script", "Of a script", 3));
                X->deferred_load();
                V["x.script"] = dflt("x.script");
                if (L.count("x.script")) model_set(V, "x.script", L["x.script"]);
            }
            else { X.reset(); V.erase("x.script"); }
            break;
        }
        return true;
    }

    bool check()
    {
        for (auto& v : V)
        {
            setting* s = settings::find(v.first.c_str());
            if (!s) return bad(trace, v.first + " is gone");
            str<> t; s->get(t);
            if (v.second != t.c_str()) return bad(trace, v.first + " is \"" + t.c_str() + "\" instead of \"" + v.second + "\"");
        }
        // The file, read independently.
        map<string, string> got, notes;
        string note;
        for (auto l : mc::split(read(c_file), '\n'))
        {
            if (!l.empty() && l.back() == '\r') l.pop_back();
            if (l.empty()) { continue; }
            if (l[0] == '#') { note += l + "\n"; continue; }
            const size_t e = l.find('=');
            if (e == string::npos) return bad(trace, "the file has a line \"" + l + "\"");
            string n = l.substr(0, e), v = l.substr(e + 1), canon;
            while (!n.empty() && n.back() == ' ') n.pop_back();
            size_t k = 0; while (k < v.size() && isspace((unsigned char)v[k])) ++k;
            v = v.substr(k);
            for (auto& ch : n) ch = char(tolower((unsigned char)ch));
            if (canonical(n, v, canon)) got[n] = canon; else return bad(trace, "the file has \"" + l + "\"");
            notes[n] = note;
            note.clear();
        }
        for (auto& d : c_settings)
        {
            const string have = got.count(d.name) ? got[d.name] : dflt(d.name);
            if (have != eff(d.name)) return bad(trace, string("the file says that ") + d.name + " is \"" + have + "\" instead of \"" + eff(d.name) + "\"");
        }
        if (got.count("y.script") != P.count("y.script") || (P.count("y.script") && got["y.script"] != P["y.script"]))
            return bad(trace, "the file has \"" + (got.count("y.script") ? got["y.script"] : string("nothing")) + "\" for a setting that is not declared instead of \"" + (P.count("y.script") ? P["y.script"] : "nothing") + "\"");
        if (comments.count("y.script") && P.count("y.script") && notes["y.script"] != comments["y.script"]) return bad(trace, "the notes before a setting that is not declared became \"" + notes["y.script"] + "\"");
        return true;
    }
};

static bool store_case(int seed, const vector<string>& ops)
{
    world w;
    w.trace = std::to_string(seed) + ";";
    mc::current(w.trace + mc::join(ops, ","));
    w.start(seed);
    mc::stat("sequences");
    for (size_t i = 0; i < ops.size(); ++i)
    {
        if (!w.run(ops[i])) return false;
        mc::stat("transitions");
        if (!w.check()) return false;       // (Every prefix is a sequence of its own too, but the file system is slow.)
    }
    if (ops.size() >= 2 && ops[0] != ops[1]) mc::stat("distinct_nontrivial");
    return true;
}
static void store_all()
{
    vector<string> ops { "l", "d" };
    for (size_t i = 0; i < c_num_sets; ++i) for (char c : string("sbop")) ops.push_back(string(1, c) + std::to_string(i));
    for (size_t i = 0; i < c_clears.size(); ++i) for (char c : string("cn")) ops.push_back(string(1, c) + std::to_string(i));
    mc::ull serial = 0;
    // All pairs of all operations; longer ones of a selection.
    for (int seed = 0; seed < 4; ++seed)
        for (auto& a : ops) for (auto& b : ops)
        {
            if (mc::enough()) return;
            if (mc::mine(serial++)) { store_case(seed, { a, b }); mc::sample(std::to_string(seed) + ";" + a + "," + b); }
        }
    // All kinds of values.
    for (size_t i = c_num_sets; i < c_sets.size(); ++i)
        for (char c : string("sbp"))
        {
            if (mc::enough()) return;
            if (mc::mine(serial++)) store_case(c == 'p' ? 2 : 0, { string(1, c) + std::to_string(i), "l", "s0" });
        }
    vector<string> few;
    for (auto& o : ops)
    {
        if (o.size() < 2) { few.push_back(o); continue; }
        const int i = atoi(o.c_str() + 1);
        if (strchr("cn", o[0]) ? (i == 0 || i == 5) : (i == 0 || i == 5 || i == 12 || i == 14) && !(o[0] == 's' && i == 14)) few.push_back(o);
    }
    const int depth = mc::thorough() ? 4 : 3;
    std::function<void(int, vector<string>&)> go = [&](int seed, vector<string>& v) {
        if (mc::enough()) return;
        if (int(v.size()) == depth) { if (mc::mine(serial++)) store_case(seed, v); return; }
        for (auto& o : few) { v.push_back(o); go(seed, v); v.pop_back(); }
    };
    for (int seed = 0; seed < 4; ++seed) { vector<string> v; go(seed, v); }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    if (g_mode == "store")
    {
        char dir[600];
        sprintf(dir, "%s\\set%u", getenv("TEMP"), unsigned(GetCurrentProcessId()));
        CreateDirectoryA(dir, nullptr); SetCurrentDirectoryA(dir);
        A = new setting_int("a.int", "An integer", 1);
        B = new setting_str("b.str", "A string", "d f");
        C = new setting_color("c.color", "A colour", "bold");
        E = new setting_enum("e.enum", "An enum", "zero,one,two", 2);
        F = new setting_bool("f.bool", "A bool", true);
    }
    more_values();
    if (mc::S().replaying)
    {
        const string& c = mc::S().replay;
        if (g_mode == "color") color_case(c);
        else { auto f = mc::split(c, ';'); store_case(atoi(f[0].c_str()), mc::split(f[1], ',')); }
        return mc::done();
    }
    if (g_mode == "color") color_all();
    if (g_mode == "store") store_all();
    return mc::done();
}
