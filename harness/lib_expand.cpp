// Expanding an input line: doskey macros and environment variables, with the cursor.
//   --mode doskey | env
#include "mc.h"
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include <core/os.h>
#include <lib/doskey.h>

using std::string;
using std::vector;

static string g_mode;
static bool bad(const string& cs, const string& msg) { mc::violation(g_mode + " " + cs, cs, msg); return false; }

//------------------------------------------------------------------------------
static std::map<string, string> s_aliases;
static string narrow(LPCWSTR p) { string s; for (; *p; ++p) s += char(*p); return s; }
static DWORD WINAPI get_alias_w(LPWSTR name, LPWSTR buf, DWORD bytes, LPWSTR)
{
    auto i = s_aliases.find(narrow(name));
    if (i == s_aliases.end()) { SetLastError(ERROR_GEN_FAILURE); return 0; }
    if (bytes < (i->second.size() + 1) * 2) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return 0; }
    size_t n = 0;
    for (char c : i->second) buf[n++] = uint8(c);
    buf[n] = 0;
    return DWORD(n * 2);
}
extern "C" { void* __imp_GetConsoleAliasW = (void*)get_alias_w; }

//------------------------------------------------------------------------------
// A command: what precedes it, its name, its arguments with the blanks before each, the blanks at its end, the separator after it.
struct arg { string blanks, text; };
struct command { string lead, name; vector<arg> args; string tail, close, sep; };

// Expands one macro.  at: where each input position of the arguments and the text after them goes (-1: unknown).
struct expansion { string text; vector<std::pair<size_t, size_t>> refs; bool lines = false; };
// args: (offset, length) in line; all: the end of $*.
static expansion expand(const string& line, const string& macro, const vector<std::pair<size_t, size_t>>& args, size_t all, std::function<void(size_t, size_t, size_t, bool)> ref)
{
    expansion e;
    for (size_t i = 0; i < macro.size(); ++i)
    {
        if (macro[i] != '$') { e.text += macro[i]; continue; }
        if (++i >= macro.size()) break;
        char c = macro[i];
        switch (tolower(c))
        {
        case '$': e.text += '$'; continue;
        case 'g': e.text += '>'; continue;
        case 'l': e.text += '<'; continue;
        case 'b': e.text += '|'; continue;
        case 't': e.text += '\n'; e.lines = true; continue;
        }
        if (c == '*')
        {
            if (!args.empty()) { ref(args[0].first, all - args[0].first, e.text.size(), e.lines); e.text += line.substr(args[0].first, all - args[0].first); }
        }
        else if (c >= '1' && c <= '9')
        {
            size_t n = c - '1';
            if (n < args.size()) { ref(args[n].first, args[n].second, e.text.size(), e.lines); e.text += line.substr(args[n].first, args[n].second); }
        }
        else { e.text += '$'; e.text += c; }
    }
    return e;
}

static const char* c_macros[] = { "one", "one $1", "[$*]", "$2-$1", "x$Ty $*", "$g$$$L", "$3 $1 $1", "$*$*", "k $", "$z$b$t", "q \"$*\"", "q \"$$1\" $1", "'$9$1' ", " $* ", "q \"$*\" $2", "q \"$2\" $1", "q \"a\" $1 \"$$*\"" };
static const size_t c_num_macros = sizeof(c_macros) / sizeof(c_macros[0]);

static string all_of(doskey_alias& a) { string s; str<> line; bool first = true; while (a.next(line)) { if (!first) s += '\n'; s.append(line.c_str(), line.length()); first = false; } return s; }

static bool doskey_line(const vector<command>& cmds, const string& macro, bool enhanced, const string& cs)
{
    // Build the line.
    string line;
    struct span { size_t start, name, end, seg_end; vector<std::pair<size_t, size_t>> args; bool alias; };
    vector<span> sp;
    for (auto& c : cmds)
    {
        span s;
        s.start = line.size();
        line += c.lead;
        s.name = line.size();
        line += c.name;
        for (auto& a : c.args) { line += a.blanks; s.args.push_back({ line.size(), a.text.size() }); line += a.text; }
        line += c.tail;
        s.end = line.size();
        line += c.close;
        s.seg_end = line.size();
        line += c.sep;
        sp.push_back(s);
    }
    // An argument in the macro's quotes takes the whole rest of the line.
    bool quoted_star = false, in_quotes = false;
    for (size_t k = 0; k < macro.size(); ++k)
    {
        if (macro[k] == '"') in_quotes = !in_quotes;
        if (macro[k] != '$' || k + 1 >= macro.size()) continue;
        if (macro[k + 1] == '$') ++k;
        else if (in_quotes && (macro[k + 1] == '*' || (macro[k + 1] >= '1' && macro[k + 1] <= '9'))) quoted_star = true;
    }
    // What it expands to.
    string want;
    bool any = false;
    struct target { size_t out; bool exact; size_t lo, hi; };
    vector<target> at(line.size() + 1, { 0, false, 0, 0 });
    vector<std::pair<size_t, std::pair<size_t, size_t>>> ends;
    size_t copied = 0;
    auto copy = [&](size_t to) { for (; copied < to; ++copied) { at[copied] = { want.size(), true, 0, 0 }; want += line[copied]; } };
    for (size_t i = 0; i < cmds.size(); ++i)
    {
        const command& c = cmds[i];
        span& s = sp[i];
        const bool first = i == 0;
        // A leading space prevents expansion (two after a separator).
        bool is = c.name == "aa";
        if (first) is = is && (c.lead.empty() || c.lead == "(" || c.lead == "((" || c.lead == "( ");
        else is = is && enhanced && (c.lead.empty() || c.lead == " " || c.lead == "(" || c.lead == " (");
        if (!enhanced && is)
        {
            // The whole rest of the line are the arguments; the name ends at a space.
            size_t e = line.find(' ', s.name);
            string name = line.substr(s.name, (e == string::npos ? line.size() : e) - s.name);
            for (size_t n = c.close.size(); n-- && name.back() == ')';) name.pop_back();
            if (name != "aa") is = false;
        }
        if (!is) continue;
        any = true;
        vector<std::pair<size_t, size_t>> args = s.args;
        size_t end = s.end;
        const bool rest = !enhanced || quoted_star;
        if (rest)
        {
            // Split the rest at spaces (outside of quotes if enhanced).
            args.clear();
            end = line.size();
            // Except for parentheses that end the ones before the name.
            size_t parens = c.close.size();
            for (size_t k = end; parens && k > s.name + 2; )
            {
                if (line[--k] == ')') { end = k; --parens; }
                else if (line[k] != ' ') break;
            }
            size_t p = s.name + 2;
            while (p < end)
            {
                while (p < end && line[p] == ' ') ++p;
                if (p >= end) break;
                size_t b = p;
                bool q = false;
                while (p < end && (line[p] != ' ' || q)) { if (line[p] == '"' && enhanced) q = !q; ++p; }
                if (p > b) args.push_back({ b, p - b });
            }
        }
        copy(s.name);
        size_t out0 = want.size();
        // (Blanks before it may count too.)
        size_t lo = out0;
        while (lo && want[lo - 1] == ' ') --lo;
        vector<char> done(line.size() + 1, 0);
        expansion e = expand(line, macro, args, end, [&](size_t from, size_t len, size_t out, bool later) {
            for (size_t k = 0; k < len; ++k)
                if (!done[from + k]) { done[from + k] = 1; if (!later) at[from + k] = { out0 + out + k, true, 0, 0 }; else done[from + k] = 2; }
        });
        want += e.text;
        for (size_t k = s.name; k < end; ++k)
        {
            // Blanks between arguments have no place of their own (they're referenced only by $*).
            bool in_arg = false;
            for (auto& a : args) if (k >= a.first && k < a.first + a.second) in_arg = true;
            if (done[k] != 1 || !in_arg) at[k] = { 0, false, lo, want.size() };
        }
        copied = end;
        ends.push_back({ end, { lo, want.size() } });
        if (rest) break;
        if (!enhanced) break;
    }
    copy(line.size());
    // The end of a command is somewhere in its expansion.
    for (auto& e : ends) at[e.first] = { 0, false, e.second.first, e.second.second };
    if (ends.empty() || ends.back().first != line.size()) at[line.size()] = { want.size(), cmds.back().name != "aa", 0, want.size() };
    if (!any) want.clear();

    mc::current(cs);
    mc::stat("evaluations");
    if (any && cmds.size() + sp[0].args.size() > 1) mc::stat("distinct_nontrivial");
    doskey d("cmd.exe");
    doskey_alias a;
    d.resolve(line.c_str(), a);
    if (bool(a) != any && !(any && want.empty())) return bad(cs, "[" + line + "] is " + (any ? "not expanded" : "expanded") + "; aa=" + macro);
    string got = all_of(a);
    // A macro that ends with $T gives no further line.
    string w = want;
    if (!w.empty() && w.back() == '\n') w.pop_back();
    if (!got.empty() && got.back() == '\n') got.pop_back();
    if (any && got != w) return bad(cs, "[" + line + "] expands to [" + got + "] instead of [" + want + "]; aa=" + macro);
    for (size_t p = 0; p <= line.size(); ++p)
    {
        mc::stat("points");
        int32 q = int32(p);
        doskey_alias b;
        d.resolve(line.c_str(), b, &q);
        string g2 = all_of(b);
        if (!g2.empty() && g2.back() == '\n') g2.pop_back();
        if (any && g2 != w) return bad(cs, "[" + line + "] expands differently with a cursor; aa=" + macro);
        char buf[80];
        sprintf(buf, "the cursor moves from %d to %d", int(p), int(q));
        if (!any) { if (q != int32(p)) return bad(cs, "[" + line + "] isn't expanded, but " + buf); continue; }
        if (q < 0 || size_t(q) > want.size()) return bad(cs, "[" + line + "] to [" + want + "]: " + buf + ", which is outside; aa=" + macro);
        if (want.find('\n') != string::npos) continue;     // Only the first line is taken.
        if (p == 0 && sp[0].name == 0) continue;
        if (at[p].exact ? size_t(q) != at[p].out : (size_t(q) < at[p].lo || size_t(q) > at[p].hi))
            return bad(cs, "[" + line + "] to [" + want + "]: " + buf + (at[p].exact ? " instead of " + std::to_string(at[p].out) : ", which is outside of the expansion") + "; aa=" + macro);
    }
    return true;
}

static bool doskey_case(const string& cs, const vector<command>& cmds, size_t macro, bool enhanced)
{
    s_aliases.clear();
    s_aliases["aa"] = c_macros[macro];
    settings::find("doskey.enhanced")->set(enhanced ? "true" : "false");
    return doskey_line(cmds, c_macros[macro], enhanced, cs);
}

// A case is a list of numbers.
static vector<string> s_pieces;
static const char* c_leads1[] = { "", " ", ";", "(", "((", "( ", "@" };
static const char* c_leads2[] = { "", " ", "  ", ";", "(", " (" };
static const char* c_names[] = { "aa", "zz", "aaa" };
static const char* c_args[] = { "x", "yy", "\"p q\"", "\"r&s\"", "^&", "t^|u", "2>&1", ">f", "\"\"" };
static const char* c_blanks[] = { " ", "  " };
static const char* c_tails[] = { "", " ", "  " };
static const char* c_seps[] = { "&", "|", "&&", "||" };
template <size_t N> static int num(const char* (&)[N]) { return int(N); }

static vector<command> decode(const vector<int>& c)
{
    // Per command: lead, name, count, args..., blanks, tail, sep.
    vector<command> v;
    size_t i = 0;
    while (i < c.size())
    {
        command x;
        x.lead = v.empty() ? c_leads1[c[i]] : c_leads2[c[i]];
        ++i;
        x.name = c_names[c[i++]];
        int n = c[i++];
        for (int k = 0; k < n; ++k) x.args.push_back({ "", c_args[c[i++]] });
        int b = c[i++];
        for (size_t k = 0; k < x.args.size(); ++k) x.args[k].blanks = c_blanks[(k & 1) ? !b : b];
        x.tail = c_tails[c[i++]];
        if (x.lead.find('(') != string::npos) x.close = string(x.lead.find("((") != string::npos ? 2 : 1, ')');
        if (i < c.size()) x.sep = c_seps[c[i++]];
        v.push_back(x);
    }
    return v;
}
static string encode(const vector<int>& c, size_t macro, bool enhanced)
{
    string s = std::to_string(macro) + ";" + (enhanced ? "1" : "0");
    for (int x : c) s += ";" + std::to_string(x);
    return s;
}
static void doskey_all()
{
    // All the commands with up to n arguments; lines of one or two commands (three of few).
    struct gen
    {
        static void commands(bool first, int maxargs, bool few, const std::function<void(const vector<int>&)>& f)
        {
            int nl = first ? num(c_leads1) : num(c_leads2);
            for (int l = 0; l < nl; ++l)
                for (int n = 0; n < (few ? 2 : num(c_names)); ++n)
                {
                    vector<int> args;
                    std::function<void()> rec = [&]() {
                        for (int b = 0; b < (few ? 1 : 2); ++b)
                        {
                            if (args.empty() && b) continue;
                            for (int t = 0; t < (few ? 2 : num(c_tails)); ++t)
                            {
                                vector<int> c = { l, n, int(args.size()) };
                                c.insert(c.end(), args.begin(), args.end());
                                c.push_back(b);
                                c.push_back(t);
                                f(c);
                            }
                        }
                        if (int(args.size()) >= maxargs) return;
                        for (int a = 0; a < num(c_args); ++a)
                        {
                            if (few && a != 0 && a != 3) continue;
                            args.push_back(a); rec(); args.pop_back();
                        }
                    };
                    rec();
                }
        }
    };
    size_t n = 0;
    auto run = [&](const vector<int>& c) {
        if (!mc::mine(n++) || mc::enough()) return;
        mc::tick();
        vector<command> cmds = decode(c);
        for (size_t m = 0; m < c_num_macros; ++m)
            for (int e = 0; e < 2; ++e) doskey_case(encode(c, m, !!e), cmds, m, !!e);
        if (n % 997 == 1) mc::sample(encode(c, 2, true));
    };
    gen::commands(true, mc::thorough() ? 3 : 2, false, run);
    gen::commands(true, 1, !mc::thorough(), [&](const vector<int>& a) {
        gen::commands(false, 1, !mc::thorough(), [&](const vector<int>& b) {
            for (int s = 0; s < num(c_seps); ++s)
            {
                vector<int> c = a;
                c.push_back(s);
                c.insert(c.end(), b.begin(), b.end());
                run(c);
                // A third command.
                if (s == 1 && b[2] == 0)
                {
                    c.push_back(2);
                    for (int x : { 1, 0, 1, 0, 0, 0 }) c.push_back(x);
                    run(c);
                }
            }
        });
    });
    // Many arguments, long arguments.
    for (int e = 0; e < 2; ++e)
        for (size_t m = 0; m < c_num_macros; ++m)
            for (int count : { 8, 9, 10, 11, 12, 200 })
            {
                if (!mc::mine(n++)) continue;
                command c;
                c.name = "aa";
                for (int k = 0; k < count; ++k) c.args.push_back({ " ", "a" + std::to_string(k) + string(count == 12 ? 600 : 0, 'x') });
                doskey_case("many", { c }, m, !!e);
            }
}

//------------------------------------------------------------------------------
// %NAME%.
static const char* c_env[] = { "%", "VA", "VB", "VN", "x", " ", "%VA%", "%VB%", "%VE%", "\xc3\xa9" };
static const char* c_env2[] = { "%", "x", "%VL%", "%Va%", "%ERRORLEVEL%", "%errorlevel%", "%HOME%", "%home%", "%CD%", "%VU%", "VL" };
static std::map<string, string> c_values = { { "VA", "1" }, { "VB", "long value %VA%" }, { "VE", "\xc3\xa9\xe2\x82\xac" } };
static void env_text(const string& line)
{
    string want;
    bool any = false;
    struct target { size_t out; bool start; };
    vector<size_t> at(line.size() + 1);
    size_t i = 0;
    while (i < line.size())
    {
        if (line[i] == '%')
        {
            size_t e = line.find('%', i + 1);
            if (e != string::npos && e > i + 1)
            {
                auto v = c_values.find(line.substr(i + 1, e - i - 1));
                if (v != c_values.end())
                {
                    at[i] = want.size();
                    want += v->second;
                    for (size_t k = i + 1; k <= e; ++k) at[k] = want.size();
                    any = true;
                }
                else for (size_t k = i; k <= e; ++k) { at[k] = want.size(); want += line[k]; }
                i = e + 1;
                continue;
            }
            // An unpaired one, or two in a row.
            at[i] = want.size(); want += line[i++];
            if (e == string::npos) while (i < line.size()) { at[i] = want.size(); want += line[i++]; }
            continue;
        }
        at[i] = want.size();
        want += line[i++];
    }
    at[line.size()] = want.size();
    mc::current(line);
    mc::stat("evaluations");
    if (any) mc::stat("distinct_nontrivial");
    str<> out;
    bool r = os::expand_env(line.c_str(), uint32(line.size()), out);
    if (r != any || want != out.c_str()) { bad(line, "[" + line + "] expands to [" + out.c_str() + "] instead of [" + want + "]"); return; }
    for (size_t p = 0; p <= line.size(); ++p)
    {
        mc::stat("points");
        int32 q = int32(p);
        os::expand_env(line.c_str(), uint32(line.size()), out, &q);
        if (want != out.c_str()) { bad(line, "[" + line + "] expands differently with a cursor"); return; }
        if (size_t(q) != at[p]) { bad(line, "[" + line + "] to [" + want + "]: the cursor moves from " + std::to_string(p) + " to " + std::to_string(q) + " instead of " + std::to_string(at[p])); return; }
    }
}
static void env_all()
{
    for (auto& v : c_values)
    {
        wstr<> n(v.first.c_str()), t(v.second.c_str());
        SetEnvironmentVariableW(n.c_str(), t.c_str());
    }
    SetEnvironmentVariableW(L"VN", nullptr);
    // Long values, names in other case, and what stands for CMD's own variables.
    string big;
    for (int i = 0; i < 5000; ++i) big += char('a' + i % 23);
    SetEnvironmentVariableA("VL", big.c_str());
    c_values["VL"] = big;
    c_values["Va"] = c_values["VA"];
    c_values["ERRORLEVEL"] = c_values["errorlevel"] = "7";
    os::set_errorlevel(7);
    SetEnvironmentVariableA("ERRORLEVEL", nullptr);
    SetEnvironmentVariableA("HOME", nullptr);
    SetEnvironmentVariableA("HOMEDRIVE", "c:");
    SetEnvironmentVariableA("HOMEPATH", "\\hh");
    c_values["HOME"] = c_values["home"] = "c:\\hh";
    wchar_t cwd[600] = {};
    GetCurrentDirectoryW(600, cwd);
    c_values["CD"] = str<>(cwd).c_str();
    SetEnvironmentVariableA("CD", nullptr);
    wstr<> wide;
    for (int i = 0; i < 300; ++i) wide << L"\x20ac";
    SetEnvironmentVariableW(L"VU", wide.c_str());
    c_values["VU"] = str_moveable(wide.c_str()).c_str();
    if (mc::S().replaying) { env_text(mc::S().replay); return; }
    const int n2 = num(c_env2);
    size_t serial = 0;
    std::function<void(string, int)> rec2 = [&](string s, int d) {
        if (mc::enough()) return;
        if (mc::mine(serial++)) env_text(s);
        if (d < 2 + mc::thorough()) for (int i = 0; i < n2; ++i) rec2(s + c_env2[i], d + 1);
    };
    rec2("", 0);
    const int depth = mc::thorough() ? 7 : 6, n = num(c_env);
    size_t count = 0;
    std::function<void(string, int)> rec = [&](string s, int d) {
        if (mc::enough()) return;
        if (d >= 3 || mc::S().shard == 0) env_text(s);
        if (d == depth) return;
        for (int i = 0; i < n; ++i) { if (d == 2 && !mc::mine(count++)) continue; rec(s + c_env[i], d + 1); }
    };
    rec("", 0);
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    settings::load("Z:\\nonexistent\\clink_settings");
    if (g_mode == "env") { env_all(); return mc::done(); }
    if (mc::S().replaying)
    {
        vector<string> f = mc::split(mc::S().replay, ';');
        vector<int> c;
        for (size_t i = 2; i < f.size(); ++i) c.push_back(atoi(f[i].c_str()));
        doskey_case(mc::S().replay, decode(c), atoi(f[0].c_str()), f[1] == "1");
        return mc::done();
    }
    doskey_all();
    return mc::done();
}
