// Completion of commands, files, directories and environment variables: what the completion scripts
// offer for a line, in a file system, environment and settings that are enumerated, against a reference.
//   --mode exec | files | vars
#define ED_OWN_FILES
#include "ed.h"
#include <lua/lua_match_generator.h>
#include <lua/lua_script_loader.h>
#include <lua/lua_state.h>
#include <core/str_compare.h>
#include <algorithm>

using std::string;
using std::vector;
typedef std::set<string> names;

static string g_mode;
static bool bad(const string& cs, const string& msg) { mc::violation(g_mode + " " + cs, cs, msg); return false; }
static string join(const names& v) { string s; for (auto& x : v) s += (s.empty() ? "" : " | ") + x; return s; }

//------------------------------------------------------------------------------
// The file system.
struct node { string dir, name; bool is_dir; DWORD attr; };
static const vector<node>& tree()
{
    static vector<node> v;
    if (v.empty())
    {
        auto d = [](const char* dir, const char* name, DWORD a = 0) { v.push_back({ dir, name, true, a | FILE_ATTRIBUTE_DIRECTORY }); };
        auto f = [](const char* dir, const char* name, DWORD a = FILE_ATTRIBUTE_NORMAL) { v.push_back({ dir, name, false, a }); };
        const DWORD H = FILE_ATTRIBUTE_HIDDEN, Y = FILE_ATTRIBUTE_SYSTEM;
        d("c:\\", "w"); d("c:\\", "p"); d("c:\\", "q r"); f("c:\\", "root.exe"); f("c:\\", "oroot.txt");
        d("c:\\w\\", "gd"); d("c:\\w\\", "od dir"); d("c:\\w\\", "ohd", H); d("c:\\w\\", "osd", Y);
        f("c:\\w\\", "one.exe"); f("c:\\w\\", "One.txt"); f("c:\\w\\", "oTwo.CMD"); f("c:\\w\\", "ohid.exe", H); f("c:\\w\\", "osys.exe", Y);
        f("c:\\w\\", "oread.txt", FILE_ATTRIBUTE_READONLY); f("c:\\w\\", ".odot.exe"); f("c:\\w\\", "gs"); f("c:\\w\\", "g x.exe"); f("c:\\w\\", "oexe"); f("c:\\w\\", "os.py");
        d("c:\\w\\gd\\", "td"); f("c:\\w\\gd\\", "three.exe"); f("c:\\w\\gd\\", "thing.txt"); f("c:\\w\\gd\\", "one.cmd"); d("c:\\w\\gd\\", "oin");
        f("c:\\w\\gd\\td\\", "oin.exe"); f("c:\\w\\od dir\\", "osp.exe"); d("c:\\w\\od dir\\", "osd");
        f("c:\\p\\", "onp.exe"); f("c:\\p\\", "onp.txt"); f("c:\\p\\", "gp.py"); d("c:\\p\\", "opd"); f("c:\\p\\", "ohp.exe", H); f("c:\\p\\", "osp.cmd", Y);
        f("c:\\q r\\", "one.exe"); f("c:\\q r\\", "oq.cmd"); f("c:\\q r\\", "cdq.exe");
    }
    return v;
}
static string lower(string s) { for (auto& c : s) c = char(tolower(uint8(c))); return s; }
static string back(string s) { for (auto& c : s) if (c == '/') c = '\\'; return s; }
static string s_cwd;                                // "c:\\w\\"
static string absolute(const string& cwd, string p) // A directory, with a trailing separator.
{
    p = back(p);
    string full;
    if (p.size() > 1 && p[1] == ':') { full = p.size() > 2 && p[2] == '\\' ? p : cwd + p.substr(2); }
    else if (!p.empty() && p[0] == '\\') full = cwd.substr(0, 2) + p;
    else full = cwd + p;
    if (full.back() != '\\') full += '\\';
    full = lower(full);
    vector<string> parts;
    size_t b = 3;
    for (size_t e; (e = full.find('\\', b)) != string::npos; b = e + 1)
    {
        string x = full.substr(b, e - b);
        if (x == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!x.empty() && x != ".") parts.push_back(x);
    }
    string r = full.substr(0, 3);
    for (auto& x : parts) r += x + "\\";
    return r;
}
static bool exists_dir(const string& abs)
{
    if (abs == "c:\\") return true;
    for (auto& n : tree()) if (n.is_dir && lower(n.dir + n.name) + "\\" == abs) return true;
    return false;
}
struct found { vector<const node*> v; size_t at = 0; };
static void fill(WIN32_FIND_DATAW* fd, const node* n)
{
    memset(fd, 0, sizeof(*fd));
    fd->dwFileAttributes = n->attr;
    for (size_t i = 0; i < n->name.size(); ++i) fd->cFileName[i] = uint8(n->name[i]);
}
static HANDLE WINAPI find_first(LPCWSTR p, WIN32_FIND_DATAW* fd)
{
    static const node c_dot = { "", ".", true, FILE_ATTRIBUTE_DIRECTORY }, c_dotdot = { "", "..", true, FILE_ATTRIBUTE_DIRECTORY };
    string pat = back(ed::narrow(p));
    size_t slash = pat.rfind('\\');
    if (slash == string::npos && pat.size() > 1 && pat[1] == ':') slash = 1;
    string dir = absolute(s_cwd, slash == string::npos ? "" : pat.substr(0, slash + 1));
    string name = slash == string::npos ? pat : pat.substr(slash + 1);
    found* f = new found;
    if (exists_dir(dir))
    {
        if (dir != "c:\\") for (auto* x : { &c_dot, &c_dotdot }) if (ed::wild(name.c_str(), x->name.c_str())) f->v.push_back(x);
        for (auto& n : tree()) if (lower(n.dir) == dir && ed::wild(name.c_str(), n.name.c_str())) f->v.push_back(&n);
    }
    if (f->v.empty()) { delete f; SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    fill(fd, f->v[f->at++]);
    return HANDLE(f);
}
static BOOL WINAPI find_next(HANDLE h, WIN32_FIND_DATAW* fd)
{
    found* f = (found*)h;
    if (f->at >= f->v.size()) { SetLastError(ERROR_NO_MORE_FILES); return FALSE; }
    fill(fd, f->v[f->at++]);
    return TRUE;
}
static BOOL WINAPI find_close(HANDLE h) { delete (found*)h; return TRUE; }
static DWORD WINAPI attributes(LPCWSTR p)
{
    string a = absolute(s_cwd, ed::narrow(p));
    if (a == "c:\\") return FILE_ATTRIBUTE_DIRECTORY;
    for (auto& n : tree()) if (lower(n.dir + n.name) + "\\" == a) return n.attr;
    SetLastError(ERROR_FILE_NOT_FOUND);
    return INVALID_FILE_ATTRIBUTES;
}
static BOOL WINAPI set_cwd(LPCWSTR p)
{
    string a = absolute(s_cwd, ed::narrow(p));
    if (!exists_dir(a)) { SetLastError(ERROR_FILE_NOT_FOUND); return FALSE; }
    s_cwd = a;
    SetEnvironmentVariableA("=c:", a.substr(0, a.size() - 1).c_str());
    return TRUE;
}
static DWORD WINAPI get_cwd(DWORD n, LPWSTR out)
{
    string c = s_cwd.size() > 3 ? s_cwd.substr(0, s_cwd.size() - 1) : s_cwd;
    if (n <= c.size()) return DWORD(c.size() + 1);
    for (size_t i = 0; i <= c.size(); ++i) out[i] = uint8(c.c_str()[i]);
    return DWORD(c.size());
}

//------------------------------------------------------------------------------
// The environment and the console's macros.
static const vector<string> c_vars = { "ONE", "OS", "Path", "gvar", "ProgramFiles(x86)" };
static WCHAR* WINAPI env_strings()
{
    static const wchar_t c[] = L"=C:=C:\\w\0=ExitCode=0\0ONE=1\0OS=Windows=NT\0Path=x\0gvar=\0ProgramFiles(x86)=c:\\p\0";
    WCHAR* p = (WCHAR*)malloc(sizeof(c));
    memcpy(p, c, sizeof(c));
    return p;
}
static BOOL WINAPI free_env_strings(WCHAR* p) { free(p); return TRUE; }
static const vector<string> c_aliases = { "oal", "gal", "one.exe" };
static string alias_text()
{
    string s;
    for (auto& a : c_aliases) s += a + "=echo " + a + string(1, 0);
    return s;
}
static DWORD WINAPI aliases_length(LPWSTR) { return DWORD(alias_text().size() * 2); }
static DWORD WINAPI get_aliases(LPWSTR out, DWORD bytes, LPWSTR)
{
    string s = alias_text();
    if (bytes < s.size() * 2) { SetLastError(ERROR_MORE_DATA); return 0; }
    for (size_t i = 0; i < s.size(); ++i) out[i] = uint8(s[i]);
    return DWORD(s.size() * 2);
}
static DWORD WINAPI get_alias(LPWSTR, LPWSTR, DWORD, LPWSTR) { return 0; }
extern "C" {
void* __imp_FindFirstFileW = (void*)find_first;
void* __imp_FindNextFileW = (void*)find_next;
void* __imp_FindClose = (void*)find_close;
void* __imp_GetFileAttributesW = (void*)attributes;
void* __imp_SetCurrentDirectoryW = (void*)set_cwd;
void* __imp_GetCurrentDirectoryW = (void*)get_cwd;
void* __imp_GetEnvironmentStringsW = (void*)env_strings;
void* __imp_FreeEnvironmentStringsW = (void*)free_env_strings;
void* __imp_GetConsoleAliasesLengthW = (void*)aliases_length;
void* __imp_GetConsoleAliasesW = (void*)get_aliases;
void* __imp_GetConsoleAliasW = (void*)get_alias;
}
// The commands built into CMD.
static const vector<string> c_builtins = { "assoc", "break", "call", "cd", "chdir", "cls", "color", "copy", "date", "del", "dir", "dpath", "echo", "endlocal", "erase", "exit", "for", "ftype", "goto", "if", "md", "mkdir", "mklink", "move", "path", "pause", "popd", "prompt", "pushd", "rd", "rem", "ren", "rename", "rmdir", "set", "setlocal", "shift", "start", "time", "title", "type", "ver", "verify", "vol" };

// Programs that belong to CMD.
static const vector<string> c_external = { "attrib", "chcp", "format", "help", "more", "subst", "tree", "taskkill", "tasklist" };

//------------------------------------------------------------------------------
// The settings.
struct config
{
    bool enable = true, path = true, aliases = true, commands = true, cwd = true, dirs = true, files = false, space = true;
    bool hidden = true, system = false;
    int env = 0;
};
static const char* c_paths[] = { "c:\\p;c:\\q r", "c:\\p\\;;c:\\none;c:\\q r\\;", "\"c:\\q r\"" , "" };
static const vector<vector<string>> c_path_dirs = { { "c:\\p\\", "c:\\q r\\" }, { "c:\\p\\", "c:\\q r\\" }, { "c:\\q r\\" }, {} };
static const char* c_exts[] = { ".exe;.cmd", ".EXE;.PY", ".cmd;.exe", ".exe" };
static bool has_ext(int env, const string& name)
{
    size_t dot = name.rfind('.');
    if (dot == string::npos) return false;
    string e = lower(name.substr(dot));
    string all = ";" + lower(c_exts[env]) + ";";
    return all.find(";" + e + ";") != string::npos;
}
static void set_bool(const char* name, bool v) { settings::find(name)->set(v ? "1" : "0"); }
static void apply(const config& c)
{
    set_bool("exec.enable", c.enable); set_bool("exec.path", c.path); set_bool("exec.aliases", c.aliases); set_bool("exec.commands", c.commands);
    set_bool("exec.cwd", c.cwd); set_bool("exec.dirs", c.dirs); set_bool("exec.files", c.files); set_bool("exec.space_prefix", c.space);
    set_bool("files.hidden", c.hidden); set_bool("files.system", c.system);
    SetEnvironmentVariableA("PATH", *c_paths[c.env] ? c_paths[c.env] : nullptr);
    SetEnvironmentVariableA("PATHEXT", c_exts[c.env]);
}
static string config_text(const config& c)
{
    string s;
    for (bool b : { c.enable, c.path, c.aliases, c.commands, c.cwd, c.dirs, c.files, c.space, c.hidden, c.system }) s += b ? '1' : '0';
    return s + std::to_string(c.env);
}

//------------------------------------------------------------------------------
// What must be offered.
struct offer
{
    const config& c;
    string cwd;
    string dirpart, name;
    names must, may;
    offer(const config& c, const string& cwd, const string& text) : c(c), cwd(cwd)
    {
        size_t slash = text.find_last_of("\\/");
        if (slash == string::npos && text.size() > 1 && text[1] == ':') slash = 1;
        dirpart = slash == string::npos ? "" : text.substr(0, slash + 1);
        name = text.substr(dirpart.size());
    }
    bool visible(const node& n) const { return (c.hidden || !(n.attr & FILE_ATTRIBUTE_HIDDEN)) && (c.system || !(n.attr & FILE_ATTRIBUTE_SYSTEM)); }
    bool starts(const string& s) const { return lower(s).compare(0, name.size(), lower(name)) == 0; }
    void put(names& to, const string& s) { if (starts(s)) to.insert(back(dirpart) + s); }
    template<class F> void in(const string& abs, F f) { for (auto& n : tree()) if (lower(n.dir) == abs && visible(n)) f(n); }
    void dots() { if (name == ".") put(must, ".\\"); if (name == "." || name == "..") put(must, "..\\"); }
    void files()
    {
        string d = absolute(cwd, dirpart);
        in(d, [&](const node& n) { put(must, n.is_dir ? n.name + "\\" : n.name); });
        if (d != "c:\\" && exists_dir(d)) dots();
    }
    void dirs()
    {
        string d = absolute(cwd, dirpart);
        in(d, [&](const node& n) { if (n.is_dir) put(must, n.name + "\\"); });
        if (d != "c:\\" && exists_dir(d)) dots();
    }
    void exec(bool quoted, bool chained)
    {
        string d = absolute(cwd, dirpart);
        const bool rel = !dirpart.empty();
        if (!rel && c.aliases && !chained) for (auto& a : c_aliases) put(must, a);
        if (!rel && c.commands && !quoted) { for (auto& a : c_builtins) put(must, a); for (auto& a : c_external) put(may, a); }
        bool any = false;
        if (!rel && c.path) for (auto& p : c_path_dirs[c.env]) in(p, [&](const node& n) { if (!n.is_dir && has_ext(c.env, n.name)) { put(must, n.name); any = true; } });
        if (rel || c.cwd) in(d, [&](const node& n) { if (!n.is_dir && has_ext(c.env, n.name)) put(must, n.name); });
        if (c.files) in(d, [&](const node& n) { if (!n.is_dir) put(must, n.name); });
        if (rel || c.dirs) in(d, [&](const node& n) { if (n.is_dir) put(must, n.name + "\\"); });
        // Directories are the fallback when there is nothing else; and come along with files.
        else in(d, [&](const node& n) { if (n.is_dir && (!any || c.files)) put(may, n.name + "\\"); });
        if (!rel || (d != "c:\\" && exists_dir(d))) dots();
    }
};

//------------------------------------------------------------------------------
static lua_state* s_lua;
static ed::editor* s_ed;
static lua_match_generator* s_gen;
static bool run_lua(const string& code)
{
    str<> err;
    if (!s_lua->do_string(code.c_str(), -1, &err)) { fprintf(stderr, "lua: %s\n in: %s\n", err.c_str(), code.c_str()); return false; }
    return true;
}

static bool check(const string& cs, const string& line, const offer& o)
{
    if (!mc::S().replay.empty() && mc::S().replay != cs + " | " + line) return true;
    mc::current(cs + " | " + line);
    mc::stat("evaluations");
    s_cwd = "c:\\w\\";
    names got;
    for (auto& x : s_ed->complete(line)) got.insert(back(x));
    if (s_cwd != "c:\\w\\") return bad(cs + " | " + line, "completion leaves the current directory at " + s_cwd);
    if (o.must.size() > 1) mc::stat("distinct_nontrivial");
    names missing, extra;
    for (auto& x : o.must) if (!got.count(x)) missing.insert(x);
    for (auto& x : got) if (!o.must.count(x) && !o.may.count(x)) extra.insert(x);
    // The same name in different case is one match.
    for (auto i = missing.begin(); i != missing.end();) { bool has = false; for (auto& g : got) has |= lower(g) == lower(*i); if (has) i = missing.erase(i); else ++i; }
    if (!missing.empty() || !extra.empty()) return bad(cs + " | " + line, "offers [" + join(got) + "]; missing [" + join(missing) + "], not expected [" + join(extra) + "]");
    return true;
}

//------------------------------------------------------------------------------
// What comes before the word.
struct lead { const char* text; enum { first, bypass, arg, dirs, chain, chain_bypass, exec_any } kind; const char* cwd; };
static const lead c_leads[] = {
    { "", lead::first, "" }, { " ", lead::bypass, "" }, { "@", lead::first, "" }, { "(", lead::first, "" },
    { "x&", lead::first, "" }, { "x y|", lead::first, "" }, { "x&&", lead::first, "" }, { "x & ", lead::exec_any, "" },
    { "x ", lead::arg, "" }, { "x  y ", lead::arg, "" }, { "x >", lead::arg, "" }, { "x 2> ", lead::arg, "" }, { "\"x y\" ", lead::arg, "" }, { "x& y ", lead::arg, "" },
    { "cd ", lead::dirs, "" }, { "CD ", lead::dirs, "" }, { "cd /d ", lead::dirs, "" }, { "chdir ", lead::dirs, "" }, { "pushd ", lead::dirs, "" }, { "md x ", lead::dirs, "" }, { "rd /s ", lead::dirs, "" }, { "rmdir x ", lead::dirs, "" }, { "x&cd ", lead::dirs, "" },
    { "cd gd&", lead::first, "gd" }, { "cd gd\\td & x ", lead::arg, "gd\\td" }, { "cd /d gd& cd ", lead::dirs, "gd" }, { "cd od dir&x ", lead::arg, "od dir" }, { "cd \"od dir\"&x ", lead::arg, "od dir" }, { "cd none&x ", lead::arg, "" }, { "pushd gd&x ", lead::arg, "gd" }, { "cd ..&&cd p&x ", lead::arg, "..\\p" }, { "cd c:\\p&x ", lead::arg, "..\\p" },
    { "chn ", lead::chain, "" }, { "chn  ", lead::chain_bypass, "" },
};
static const char* c_words[] = {
    "", "o", "ON", "one", "one.", "one.e", "g", "gd", "z", ".", "..", ".o", "c", "gd\\", "gd/", "gd\\o", "gd/t", "gd\\td\\", "gd\\.", ".\\", ".\\o", "./g", "..\\", "..\\o", "..\\p\\o", "..\\q r\\", "c:\\", "c:\\p\\", "c:\\p\\on", "C:/P/o", "\\p\\o", "\\o", "none\\o", "od dir\\", "od d", "g x", "gd\\..\\o", "c:o", "c:gd\\t",
};
static bool one(const config& c, const lead& l, const char* word, bool quoted)
{
    string text = word;
    if (!quoted && text.find(' ') != string::npos) return true;
    string line = string(l.text) + (quoted ? "\"" : "") + text;
    const bool cmd = l.kind != lead::arg && l.kind != lead::dirs;
    if (cmd && !quoted && text.find('/') != string::npos) return true;      // What follows a slash is an argument.
    offer o(c, absolute("c:\\w\\", l.cwd), text);
    switch (l.kind)
    {
    case lead::first: case lead::chain: if (c.enable) o.exec(quoted, l.kind == lead::chain || l.kind == lead::chain_bypass); else o.files(); break;
    case lead::bypass: case lead::chain_bypass: if (c.enable && !c.space) o.exec(quoted, l.kind == lead::chain || l.kind == lead::chain_bypass); else o.files(); break;
    case lead::exec_any: if (c.enable) { if (c.space) return true; o.exec(quoted, l.kind == lead::chain || l.kind == lead::chain_bypass); } else o.files(); break;
    case lead::arg: o.files(); break;
    case lead::dirs: o.dirs(); break;
    }
    return check(config_text(c), line, o);
}
static config config_of(uint32 bits, int env)
{
    config c;
    bool* p[] = { &c.path, &c.aliases, &c.commands, &c.cwd, &c.dirs, &c.files, &c.space, &c.enable, &c.hidden, &c.system };
    for (int i = 0; i < 10; ++i) if (bits & (1 << i)) *p[i] = !*p[i];
    c.env = env;
    return c;
}
static void all(bool exec)
{
    const bool deep = mc::S().thorough;
    uint32 index = 0;
    for (uint32 bits = 0; bits < 1024; ++bits)
        for (int env = 0; env < 4; ++env)
        {
            // Every combination of the settings of commands; the others matter to files.
            const int off = __builtin_popcount(bits & 0x7f);
            if (exec ? !deep && !(bits < 128 && !env) && off > 1 : (bits & 0x3f) && !((bits & 0x80) && deep)) continue;
            if (!mc::mine(index++)) continue;
            config c = config_of(bits, env);
            apply(c);
            mc::stat("configurations");
            for (auto& l : c_leads)
            {
                const bool cmd = l.kind == lead::first || l.kind == lead::bypass || l.kind == lead::chain || l.kind == lead::chain_bypass || l.kind == lead::exec_any;
                if (cmd != exec) continue;
                for (auto* w : c_words) for (int q = 0; q < 2; ++q) one(c, l, w, q);
                if (mc::enough()) return;
            }
        }
}

//------------------------------------------------------------------------------
// Environment variables.
static const vector<string> c_dynamic = { "cd", "date", "time", "random", "errorlevel", "cmdextversion", "cmdcmdline" };
static void vars()
{
    static const char* leads[] = { "", "x ", "x y ", "x& ", "cd ", "set ", "x >", "@", "(" };
    static const char* pre[] = { "", "a", "%ONE%", "a%ONE%b", "a%ONE%%OS%", "a\\", "%OS%\\x", "a=", "a,", "100%% " };
    static const char* parts[] = { "", "o", "O", "On", "p", "program", "z", "c", "cd", "t", "e" };
    uint32 index = 0;
    config c;
    apply(c);
    for (int expand = 0; expand < 2; ++expand)
    {
        set_bool("match.expand_envvars", expand);
        for (auto* l : leads) for (auto* p : pre) for (int q = 0; q < 2; ++q) for (auto* x : parts)
        {
            if (!mc::mine(index++)) continue;
            string line = string(l) + (q ? "\"" : "") + p + "%" + x;
            offer o(c, s_cwd, "");
            o.name = string("%") + x;
            for (auto& v : c_vars) o.put(o.must, "%" + v + "%");
            for (auto& v : c_dynamic) o.put(o.must, "%" + v + "%");
            o.put(o.may, "%highestnumanodenumber%");
            o.put(o.may, "%highestnumanodenumber%");
            check(expand ? "expand" : "keep", line, o);
            // A percent sign that ends a variable begins none.
            if (*x && line.find("%%") == string::npos)
            {
                mc::stat("evaluations");
                for (auto& m : s_ed->complete(line + "%")) if (m[0] == '%') { bad("closed | " + line + "%", "offers " + m + " after a complete variable"); break; }
            }
        }
    }
    // The set command.
    for (auto* l : { "set ", "SET ", "@set ", "x&set ", "x & set ", "(set " }) for (auto* x : { "", "o", "OS", "p", "z", "gv" })
    {
        if (!mc::mine(index++)) continue;
        offer o(c, s_cwd, x);
        for (auto& v : c_vars) o.put(o.must, v);
        check("set", string(l) + x, o);
    }
}

//------------------------------------------------------------------------------
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    s_cwd = "c:\\w\\";
    SetEnvironmentVariableA("=c:", "c:\\w");
    settings::load("Z:\\nonexistent\\clink_settings");
    settings::find("match.translate_slashes")->set("system");
    str_compare_scope relaxed(str_compare_scope::relaxed, false);
    lua_state lua;
    s_lua = &lua;
    lua_match_generator gen(lua);
    s_gen = &gen;
    run_lua("io.popen = function() end");
    lua_load_script(lua, app, exec);
    lua_load_script(lua, app, dir);
    lua_load_script(lua, app, env);
    lua_load_script(lua, app, set);
    run_lua("clink.argmatcher('chn'):chaincommand()");
    ed::editor e;
    s_ed = &e;
    e.e->set_generator(gen);
    e.start();
    lua.send_event("onbeginedit");
    if (g_mode == "exec") all(true);
    if (g_mode == "files") all(false);
    if (g_mode == "vars") vars();
    return mc::done();
}
