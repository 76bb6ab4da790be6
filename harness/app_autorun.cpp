// clink autorun: every sequence of installing, uninstalling and setting over values of cmd.exe's autorun
// that are put together from commands, on a stand-in registry.
//   --mode edit    values and verbs
//   --mode args    arguments given to install arrive at clink
//   --mode users   uninstalling from every user
#include "mc.h"
#include <core/base.h>
#include <core/str.h>
using std::string;
using std::vector;

int32 autorun(int32 argc, char** argv);
extern str<> g_clink_args;
extern int32 g_all_users;
extern int32 g_enum_users;
extern "C" int optind;

//------------------------------------------------------------------------------
// The registry: the value AutoRun of a few keys.
static std::map<string, string> g_reg;
static const char c_key[] = "Software\\Microsoft\\Command Processor";
static string g_denied;                 // Keys of this hive can't be written.
static string g_touched;                // Anything else that is written.
static string utf8(const wchar_t* w) { char b[20000]; WideCharToMultiByte(CP_UTF8, 0, w, -1, b, sizeof(b), 0, 0); return b; }
static const char* const c_names[] = { "", "HKCU", "HKLM64", "HKLM32", "S-1", "S-2", "S-3" };
static LSTATUS open_key(HKEY hive, LPCWSTR path, REGSAM access, PHKEY out)
{
    string p = utf8(path), user;
    int h = 0;
    if (hive == HKEY_USERS)
    {
        size_t s = p.find('\\');
        user = p.substr(0, s); p = p.substr(s + 1);
        for (int i = 4; i < 7; ++i) if (user == c_names[i]) h = i;
    }
    else if (hive == HKEY_CURRENT_USER) h = 1;
    else if (hive == HKEY_LOCAL_MACHINE) h = (access & KEY_WOW64_32KEY) ? 3 : 2;
    if (p != c_key || !h) return ERROR_FILE_NOT_FOUND;
    if ((access & KEY_WRITE & ~KEY_READ) && g_denied == string(c_names[h]).substr(0, 4)) return ERROR_ACCESS_DENIED;
    *out = HKEY(intptr_t(h * 2 + 100 + ((access & KEY_WRITE & ~KEY_READ) ? 1 : 0)));
    return 0;
}
static LSTATUS WINAPI reg_create(HKEY h, LPCWSTR p, DWORD, LPWSTR, DWORD, REGSAM a, LPSECURITY_ATTRIBUTES, PHKEY out, LPDWORD) { return open_key(h, p, a, out); }
static LSTATUS WINAPI reg_open(HKEY h, LPCWSTR p, DWORD, REGSAM a, PHKEY out) { return open_key(h, p, a, out); }
static string name_of(HKEY k) { return c_names[(intptr_t(k) - 100) / 2]; }
static LSTATUS WINAPI reg_query(HKEY k, LPCWSTR name, LPDWORD, LPDWORD type, LPBYTE data, LPDWORD size)
{
    auto it = g_reg.find(name_of(k));
    if (_wcsicmp(name, L"AutoRun") || it == g_reg.end()) return ERROR_FILE_NOT_FOUND;
    wchar_t b[20000];
    DWORD n = DWORD(MultiByteToWideChar(CP_UTF8, 0, it->second.c_str(), -1, b, 20000) * 2);
    if (type) *type = REG_SZ;
    DWORD have = *size;
    *size = n;
    if (!data) return 0;
    if (have < n) return ERROR_MORE_DATA;
    memcpy(data, b, n);
    return 0;
}
static LSTATUS WINAPI reg_set(HKEY k, LPCWSTR name, DWORD, DWORD type, const BYTE* data, DWORD size)
{
    if (!(intptr_t(k) & 1)) return ERROR_ACCESS_DENIED;
    if (_wcsicmp(name, L"AutoRun")) { g_touched = "another value is set"; return 0; }
    if (type != REG_SZ && type != REG_EXPAND_SZ) g_touched = "set with another type";
    if (size < 2 || size % 2 || ((const wchar_t*)data)[size / 2 - 1]) g_touched = "set without a terminator";
    g_reg[name_of(k)] = utf8((const wchar_t*)data);
    return 0;
}
static LSTATUS WINAPI reg_delete(HKEY k, LPCWSTR name)
{
    if (!(intptr_t(k) & 1)) return ERROR_ACCESS_DENIED;
    if (_wcsicmp(name, L"AutoRun")) { g_touched = "another value is deleted"; return 0; }
    return g_reg.erase(name_of(k)) ? 0 : ERROR_FILE_NOT_FOUND;
}
static LSTATUS WINAPI reg_close(HKEY) { return 0; }
static LSTATUS WINAPI reg_enum(HKEY h, DWORD i, LPWSTR name, LPDWORD size, LPDWORD, LPWSTR, LPDWORD, PFILETIME)
{
    // .DEFAULT has no such key.
    static const wchar_t* const all[] = { L".DEFAULT", L"S-1", L"S-1_Classes", L"S-2", L"S-3" };
    if (h != HKEY_USERS || i >= 5) return ERROR_NO_MORE_ITEMS;
    if (*size <= wcslen(all[i])) return ERROR_MORE_DATA;
    wcscpy(name, all[i]);
    *size = DWORD(wcslen(all[i]));
    return 0;
}
static BOOL WINAPI native_info(SYSTEM_INFO* i) { memset(i, 0, sizeof(*i)); i->wProcessorArchitecture = PROCESSOR_ARCHITECTURE_AMD64; return true; }
extern "C" {
void* __imp_RegCreateKeyExW = (void*)reg_create;
void* __imp_RegOpenKeyExW = (void*)reg_open;
void* __imp_RegQueryValueExW = (void*)reg_query;
void* __imp_RegSetValueExW = (void*)reg_set;
void* __imp_RegDeleteValueW = (void*)reg_delete;
void* __imp_RegCloseKey = (void*)reg_close;
void* __imp_RegEnumKeyExW = (void*)reg_enum;
void* __imp_GetNativeSystemInfo = (void*)native_info;
}

//------------------------------------------------------------------------------
static const char* g_dir = "c:\\clink";
static int run(vector<string> args)
{
    static string path;
    path = string(g_dir) + "\\clink_x64.exe";
    _pgmptr = &path[0];
    g_clink_args.clear();
    g_all_users = g_enum_users = 0;
    optind = 0;
    vector<char*> argv;
    static string name = "autorun";
    argv.push_back(&name[0]);
    for (auto& a : args) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    mc::stat("runs");
    return autorun(int32(args.size() + 1), argv.data());
}

// A command line's commands and the operators before them.
struct command { string op, text; };
static bool operator==(const command& a, const command& b) { return a.op == b.op && a.text == b.text; }
static string trim(string s) { while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static vector<command> parse(const string& v)
{
    vector<command> out;
    string cur, op;
    bool q = false;
    for (size_t i = 0; i <= v.size(); ++i)
    {
        if (i == v.size() || (!q && v[i] == '&'))
        {
            if (!trim(cur).empty()) { out.push_back({ out.empty() ? "" : op, trim(cur) }); op.clear(); }
            cur.clear();
            if (i < v.size()) { op = "&"; if (i + 1 < v.size() && v[i + 1] == '&') { op = "&&"; ++i; } }
            continue;
        }
        if (v[i] == '"') q = !q;
        cur += v[i];
    }
    return out;
}
// Arguments as the C runtime reads them.
static vector<string> argv_of(const string& s)
{
    vector<string> out;
    size_t i = 0;
    while (true)
    {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i;
        if (i >= s.size()) return out;
        string a;
        bool q = false;
        for (; i < s.size() && (q || (s[i] != ' ' && s[i] != '\t')); ++i)
        {
            size_t n = 0;
            while (i < s.size() && s[i] == '\\') ++n, ++i;
            if (i < s.size() && s[i] == '"')
            {
                a.append(n / 2, '\\');
                if (n % 2) a += '"'; else q = !q;
            }
            else { a.append(n, '\\'); if (i < s.size() && (q || (s[i] != ' ' && s[i] != '\t'))) a += s[i]; else --i; }
        }
        out.push_back(a);
    }
}
static string show(const vector<command>& v) { string o; for (auto& c : v) o += (c.op.empty() ? "" : " " + c.op + " ") + "[" + c.text + "]"; return o; }

struct state { bool set; vector<command> cs; vector<char> clink; };  // The commands, and which are clink's.
static string value(const state& s, int spacing)
{
    string o;
    for (auto& c : s.cs) o += c.op.empty() ? c.text : (spacing & 1 ? " " : "") + c.op + (spacing & 2 ? " " : "") + c.text;
    return o;
}
// What must be left when clink's command is taken out; where it was, either operator is good.
static bool same_others(const vector<command>& got, const state& before, string& why)
{
    vector<command> want;
    vector<string> alt;
    string left;
    bool gap = false;
    for (size_t i = 0; i < before.cs.size(); ++i)
    {
        if (before.clink[i]) { gap = true; left = before.cs[i].op; continue; }
        want.push_back(before.cs[i]);
        alt.push_back(gap ? left : before.cs[i].op);
        gap = false;
    }
    if (!want.empty()) want[0].op = alt[0] = "";
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i].text == want[i].text && (got[i].op == want[i].op || got[i].op == alt[i]);
    if (!ok) why = "left is " + show(got) + " instead of " + show(want);
    return ok;
}

// The installation's own command: the path, inject, --autorun, the arguments.
static bool is_ours(const string& text, const vector<string>& args, string& why)
{
    vector<string> want { string(g_dir) + "\\clink.bat", "inject", "--autorun" };
    want.insert(want.end(), args.begin(), args.end());
    auto got = argv_of(text);
    if (got == want) return true;
    why = "installed is '" + text + "', which isn't " + mc::join(want, ", ");
    return false;
}

//------------------------------------------------------------------------------
static const char* const c_verbs[] = { "install", "uninstall", "set", "install-args", "show" };
static const vector<string> c_args { "--quiet", "--profile", "c:\\a b" };
// Carries out verbs on a value; returns what is wrong.
static string go(const state& start, int spacing, const vector<int>& verbs, bool all, bool denied)
{
    g_reg.clear();
    g_touched.clear();
    g_denied = denied ? (all ? "HKLM" : "HKCU") : "";
    const vector<string> keys = all ? vector<string> { "HKLM64", "HKLM32" } : vector<string> { "HKCU" };
    const string other = all ? "HKCU" : "HKLM64";
    state s = start;
    if (s.set) for (auto& k : keys) g_reg[k] = value(s, spacing);
    g_reg[other] = "other&\"c:\\clink\\clink.bat\" inject";
    const string untouched = g_reg[other];
    for (int v : verbs)
    {
        auto before = g_reg;
        vector<string> args;
        if (all && v != 1) args.push_back("-a");
        args.push_back(v == 3 ? "install" : c_verbs[v]);
        if (all && v == 1) args.push_back("--allusers");
        if (v == 3) { args.push_back("--"); args.insert(args.end(), c_args.begin(), c_args.end()); }
        if (v == 2) { args.push_back("foo"); args.push_back("b r"); args.push_back("&"); args.push_back("baz"); }
        const int rc = run(args);
        const string what = string(c_verbs[v]) + " with '" + (before.count(keys[0]) ? before[keys[0]] : "(none)") + "': ";
        if (!g_touched.empty()) return what + g_touched;
        if (g_reg[other] != untouched) return what + "the value of other users is changed";
        if (denied || v == 4)
        {
            if (denied && v != 4 && rc == 0) return what + "succeeds without access";
            if (g_reg != before) return what + "the value is changed";
            continue;
        }
        if (rc) return what + "fails";
        for (auto& k : keys)
        {
            const bool there = g_reg.count(k) > 0;
            auto got = parse(there ? g_reg[k] : "");
            string why;
            switch (v)
            {
            case 0: case 3:
                if (got.empty()) return what + "nothing is installed";
                if (got.size() > 1 && got.back().op != "&") return what + "clink only starts if the command before succeeds: '" + g_reg[k] + "'";
                if (!is_ours(got.back().text, v == 3 ? c_args : vector<string>(), why)) return what + why;
                got.pop_back();
                if (!same_others(got, s, why)) return what + why;
                break;
            case 1:
                if (!same_others(got, s, why)) return what + why;
                if (there && trim(g_reg[k]).empty() && !s.cs.empty()) return what + "an empty value is left";
                break;
            case 2:
                if (g_reg[k] != "foo \"b r\" & baz") return what + "'" + g_reg[k] + "' is set";
                break;
            }
        }
        // The model.
        state n;
        n.set = g_reg.count(keys[0]) > 0;
        n.cs = parse(n.set ? g_reg[keys[0]] : "");
        n.clink.assign(n.cs.size(), 0);
        if (v == 0 || v == 3) n.clink.back() = 1;
        s = n;
    }
    return "";
}
static string text(const state& s, int spacing, const vector<int>& verbs, bool all, bool denied)
{
    string t = s.set ? "1" : "0";
    for (size_t i = 0; i < s.cs.size(); ++i) t += string(1, '\x01') + (s.clink[i] ? "C" : "O") + s.cs[i].op + '\x02' + s.cs[i].text;
    t += '\x03' + std::to_string(spacing) + (all ? "a" : "u") + (denied ? "d" : "w");
    for (int v : verbs) t += char('0' + v);
    return t;
}
static void one(const state& s, int spacing, const vector<int>& verbs, bool all, bool denied)
{
    const string c = text(s, spacing, verbs, all, denied);
    mc::current(c);
    mc::stat("evaluations");
    if (s.cs.size() > 1) mc::stat("distinct_nontrivial");
    string r = go(s, spacing, verbs, all, denied);
    if (!r.empty()) mc::violation("autorun " + value(s, spacing), c, r);
    if (mc::S().samples.size() < 4 && s.cs.size() == 3) mc::sample(value(s, spacing));
}

static const char* const c_others[] = { "foo", "c:\\x\\y.bat z", "echo \"a & b\"", "\"c:\\Program Files\\t.exe\" inject" };
static const char* const c_clinks[] = { "\"c:\\clink\\clink.bat\" inject --autorun", "c:\\clink\\clink.bat inject --autorun", "\"C:\\Program Files (x86)\\clink\\clink_x64.exe\" inject --profile \"c:\\p\"",
    "clink inject --autorun --quiet", "\"c:\\a&b\\clink.bat\" inject", "\"c:\\clink\\clink\" inject --profile \"c:\\a & b\" --quiet", "c:\\clink\\clink_x64.exe inject" };

static void edit()
{
    mc::ull n = 0;
    vector<vector<int>> seqs;
    const int depth = mc::thorough() ? 3 : 2;
    std::function<void(vector<int>)> gen = [&](vector<int> s) { if (!s.empty()) seqs.push_back(s); if (int(s.size()) < depth) for (int v = 0; v < 5; ++v) { auto t = s; t.push_back(v); gen(t); } };
    gen({});
    // All values of up to 3 commands, at most one of them clink's.
    const int others = 4, clinks = 7;
    vector<state> states { { false, {}, {} }, { true, {}, {} } };
    std::function<void(state)> grow = [&](state s) {
        if (!s.cs.empty()) states.push_back(s);
        if (s.cs.size() == (mc::thorough() ? 4u : 3u)) return;
        bool has = false;
        for (char c : s.clink) has |= c;
        for (int c = 0; c < others + (has ? 0 : clinks); ++c)
            for (int op = 0; op < (s.cs.empty() ? 1 : 2); ++op)
            {
                state t = s;
                t.set = true;
                t.cs.push_back({ s.cs.empty() ? "" : op ? "&&" : "&", c < others ? c_others[c] : c_clinks[c - others] });
                t.clink.push_back(c >= others);
                grow(t);
            }
    };
    grow({});
    for (auto& s : states)
        for (int spacing = 0; spacing < 4; ++spacing)
        {
            if (spacing && s.cs.size() < 2) continue;
            if (mc::enough()) return;
            if (!mc::mine(n++)) continue;
            for (auto& v : seqs)
                for (int all = 0; all < 2; ++all)
                    for (int denied = 0; denied < (v.size() == 1 ? 2 : 1); ++denied)
                        one(s, spacing, v, all, denied);
        }
}

//------------------------------------------------------------------------------
static string args_case(const vector<string>& args, const string& first)
{
    g_reg.clear();
    g_touched.clear();
    if (!first.empty()) g_reg["HKCU"] = first;
    vector<string> a { "install", "--" };
    a.insert(a.end(), args.begin(), args.end());
    const int rc = run(a);
    auto got = parse(g_reg["HKCU"]);
    if (rc) return "installing fails";
    if (got.size() != (first.empty() ? 1 : 2)) return "the value is '" + g_reg["HKCU"].substr(0, 200) + "'";
    string why;
    if (!is_ours(got.back().text, args, why)) return why.substr(0, 400);
    return "";
}
static void args_one(const string& c)
{
    mc::current(c);
    mc::stat("evaluations");
    auto f = mc::split(c, '\x01');
    g_dir = f[0] == "1" ? "C:\\Program Files (x86)\\clink" : f[0] == "2" ? "c:\\a&b" : "c:\\clink";
    vector<string> args;
    for (size_t i = 2; i < f.size(); ++i)
    {
        string a = f[i];
        if (a[0] == '#') a = string(atoi(a.c_str() + 1), 'x');
        args.push_back(a);
    }
    if (args.size() > 1) mc::stat("distinct_nontrivial");
    string r = args_case(args, f[1]);
    if (!r.empty()) mc::violation("autorun args " + c, c, r);
}
static void args()
{
    mc::ull n = 0;
    // Arguments: every text of up to 4 (5) characters, alone and between others.
    std::function<void(string, int)> gen = [&](string a, int more) {
        if (mc::enough()) return;
        if (!a.empty() && mc::mine(n++))
            for (const char* dir : { "0", "1", "2" })
                for (const char* first : { "", "foo" })
                {
                    args_one(string(dir) + '\x01' + first + '\x01' + a);
                    args_one(string(dir) + '\x01' + first + "\x01-p\x01" + a + "\x01z z");
                }
        if (more) for (const char* c : { "a", " ", "\\", "/", "&", "\xc3\xa9", "-" }) gen(a + c, more - 1);
    };
    gen("", mc::thorough() ? 6 : 5);
    for (int len = 1; len < 4000; len += 1)
        if (mc::mine(n++))
            args_one(string("1") + '\x01' + "foo" + "\x01#" + std::to_string(len));
}

//------------------------------------------------------------------------------
// Uninstalling from every user: only what belongs to this installation.
static string users_case(const vector<int>& which, int dir)
{
    g_dir = dir ? "C:\\Program Files\\clink" : "c:\\clink";
    static const char* const vals[] = { nullptr, "foo", "\"c:\\clink\\clink.bat\" inject --autorun", "foo&\"c:\\clink\\clink.bat\" inject --autorun", "\"C:\\Program Files\\Clink\\clink_x64.exe\" inject & bar",
        "foo&\"c:\\clink2\\clink.bat\" inject&bar", "foo && c:\\clink\\clink.bat inject && bar", "\"C:/Program Files/clink/clink.bat\" inject" };
    static const int own[] = { -1, -1, 0, 0, 1, -1, 0, 1 };
    static const char* const left[] = { nullptr, nullptr, nullptr, "foo", "bar", nullptr, "foo && bar", nullptr };
    g_reg.clear();
    g_touched.clear();
    g_reg["HKLM64"] = "x & \"c:\\clink\\clink.bat\" inject";
    for (size_t i = 0; i < which.size(); ++i) if (vals[which[i]]) g_reg[c_names[4 + i]] = vals[which[i]];
    auto before = g_reg;
    run({ "--enumusers", "uninstall" });
    if (g_reg["HKLM64"] != before["HKLM64"]) return "the value for all users is changed";
    for (size_t i = 0; i < which.size(); ++i)
    {
        const int w = which[i];
        const bool there = g_reg.count(c_names[4 + i]);
        const string got = there ? g_reg[c_names[4 + i]] : "";
        const bool mine = own[w] == dir;
        const string want = mine ? (left[w] ? left[w] : "") : (vals[w] ? vals[w] : "");
        if (mine ? !(parse(got) == parse(want)) || (there && got.empty()) : got != want || there != !!vals[w])
            return string("uninstalling ") + g_dir + " from '" + (vals[w] ? vals[w] : "(none)") + "' leaves '" + got + "'";
    }
    return "";
}
static void users_one(const vector<int>& w, int dir)
{
    string c = std::to_string(dir);
    for (int x : w) c += char('0' + x);
    mc::current(c);
    mc::stat("evaluations");
    mc::stat("distinct_nontrivial");
    string r = users_case(w, dir);
    if (!r.empty()) mc::violation("autorun users " + c, c, r);
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::quiet();
    string mode = "edit";
    for (size_t i = 0; i < mc::S().extra.size(); ++i)
        if (mc::S().extra[i] == "--mode") mode = mc::S().extra[i + 1];
    if (mc::S().replaying)
    {
        const string& r = mc::S().replay;
        if (mode == "users") { vector<int> w; for (size_t i = 1; i < r.size(); ++i) w.push_back(r[i] - '0'); users_one(w, r[0] - '0'); }
        else if (mode == "args") args_one(r);
        else
        {
            auto h = mc::split(r, '\x03');
            state s { h[0][0] == '1' };
            auto f = mc::split(h[0], '\x01');
            for (size_t i = 1; i < f.size(); ++i)
            {
                auto g = mc::split(f[i], '\x02');
                s.clink.push_back(g[0][0] == 'C');
                s.cs.push_back({ g[0].substr(1), g[1] });
            }
            vector<int> v;
            for (size_t i = 3; i < h[1].size(); ++i) v.push_back(h[1][i] - '0');
            one(s, h[1][0] - '0', v, h[1][1] == 'a', h[1][2] == 'd');
        }
        return mc::done();
    }
    if (mode == "edit") edit();
    else if (mode == "args") args();
    else
    {
        mc::ull n = 0;
        for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) for (int c = 0; c < 8; ++c) for (int d = 0; d < 2; ++d)
            if (mc::mine(n++)) users_one({ a, b, c }, d);
    }
    return mc::done();
}
