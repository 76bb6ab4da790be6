// The commands cmd.exe is given: the real ReadConsoleW hook (host_cmd) with its editor, Lua, aliases, line
// queue and history, called by a model of cmd.exe that prompts, asks "More?", asks for an answer to a
// question and for input of a program, in every order, while the user types and pastes.
//   --mode queue       what is handed out, in what order
//   --mode errorlevel  the same with cmd.get_errorlevel
#include <core/bldopts.h>
#include "mc.h"
#include <core/base.h>
#include <core/object.h>
#include <core/str.h>
#include <core/os.h>
#include <core/path.h>
#include <core/settings.h>
#include <core/singleton.h>
#include <lib/history_db.h>
#include <lib/line_queue.h>
#include <terminal/terminal.h>
#include <terminal/terminal_in.h>
#include <terminal/terminal_out.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include <lua/lua_state.h>
#include <lua/prompt.h>
static DWORD WINAPI q_file_type(HANDLE) { return FILE_TYPE_CHAR; }
#define GetFileType q_file_type
#include <host/host_cmd.cpp>
#undef GetFileType
#include <host/host_lua.h>
#include <utils/app_context.h>
#include <lib/recognizer.h>
#include <deque>
#include <wchar.h>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <readline/readline.h>
#include <readline/history.h>
}
using std::string;
using std::vector;
extern bool host_remove_dir_history(int32 index);
extern "C" int _rl_utf8locale;
void set_lua_terminal(terminal_in* in, terminal_out* out);

//------------------------------------------------------------------------------
class q_in : public terminal_in
{
public:
    int32 begin(bool) override { return 1; }
    int32 end(bool) override { return 0; }
    void override_handle() override {}
    bool available(uint32) override { return !q.empty(); }
    void select(input_idle*, uint32) override
    {
        // The user has nothing more to say: the editor waits for something it shouldn't.
        if (q.empty()) { if (++starved > 20) mc::fatal("waits", "the editor waits for more than was entered"); q.push_back('\r'); }
    }
    int32 read() override { if (q.empty()) return input_none; int c = uint8(q.front()); q.pop_front(); return c; }
    int32 peek() override { return q.empty() ? int32(input_none) : int32(uint8(q.front())); }
    bool send_terminal_request(const char*, const char*, const char*, uint32, uint32, str_base&) override { return false; }
    key_tester* set_key_tester(key_tester* k) override { key_tester* o = keys; keys = k; return o; }
    std::deque<char> q;
    int starved = 0;
    key_tester* keys = nullptr;
};
class q_out : public terminal_out
{
public:
    void open() override {}
    void begin() override {}
    void end() override {}
    void close() override {}
    void write(const char*, int32) override {}
    void flush() override {}
    int32 get_columns() const override { return 80; }
    int32 get_rows() const override { return 25; }
    int32 get_top() const override { return 0; }
    bool get_cursor_pos(int16& x, int16& y) const override { x = y = 0; return false; }
    bool get_line_text(int32, str_base&) const override { return false; }
    int32 is_line_default_color(int32) const override { return true; }
    int32 line_has_color(int32, const BYTE*, int32, BYTE) const override { return false; }
    int32 find_line(int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) const override { return 0; }
};
static q_in s_in;
static q_out s_out;
static bool s_alone = false;            // The user's own line is being edited.
static string s_clip;
static struct : public os::clipboard_provider
{
    bool get_clipboard_text(str_base& out) override { out = s_clip.c_str(); return !s_clip.empty(); }
    bool set_clipboard_text(const char*, int32) override { return true; }
} s_clipboard;

//------------------------------------------------------------------------------
static HANDLE const c_conin = HANDLE(intptr_t(0x1003));
static HANDLE const c_conout = HANDLE(intptr_t(0x1007));
static vector<std::pair<const wchar_t*, const wchar_t*>> c_aliases {
    { L"al", L"echo A $*" }, { L"m2", L"p1$Tp2 $*" }, { L"m3", L"r1 $1$T$Tr3" }, { L"up", L"..$Tm2 w" }, { L"mk", L"md sub$Tsub\\" },
    { L"clink", L"c $*" }, { L"history", L"h $*" } };
static DWORD WINAPI q_alias(LPWSTR source, LPWSTR target, DWORD bytes, LPWSTR)
{
    for (auto& a : c_aliases)
        if (!_wcsicmp(a.first, source))
        {
            const DWORD need = DWORD(wcslen(a.second) + 1) * 2;
            if (bytes < need) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return 0; }
            wcscpy(target, a.second);
            return need;
        }
    SetLastError(ERROR_GEN_FAILURE);
    return 0;
}
static BOOL WINAPI q_add_alias(LPWSTR, LPWSTR, LPWSTR) { return true; }
static int s_real = 0;                  // The console itself is asked.
static BOOL WINAPI q_read(HANDLE, LPVOID p, DWORD n, LPDWORD got, PCONSOLE_READCONSOLE_CONTROL) { ++s_real; *got = 0; return true; }
static BOOL WINAPI q_write(HANDLE, const VOID*, DWORD n, LPDWORD w, LPVOID) { if (w) *w = n; return true; }
static BOOL WINAPI q_false() { return false; }
extern "C" {
void* __imp_GetConsoleAliasW = (void*)q_alias;
void* __imp_AddConsoleAliasW = (void*)q_add_alias;
}
recognition recognize_command(const char*, const char*, bool, bool& ready, str_base* file) { ready = true; if (file) file->clear(); return recognition::unknown; }
void reset_stdio_handles() {}

//------------------------------------------------------------------------------
static string s_base;                   // A scratch directory, with "sub" in it.
static host_cmd* s_host;
static string cwd() { char b[600]; GetCurrentDirectoryA(sizeof(b), b); return b; }

// What the user does when asked for a line: what is typed, or pasted.
struct act { const char* keys; const char* clip; const char* provided; };
static const act c_acts[] = {
    { "a", 0 }, { "al x", 0 }, { "m2 q", 0 }, { "m3 z y", 0 }, { " m2 q", 0 }, { "up", 0 }, { "mk", 0 },
    { "..", 0 }, { "sub\\", 0 }, { "nosuch\\", 0 }, { "-", 0 }, { "cd -", 0 }, { "", 0 },
    { "flt", 0 }, { "flt2", 0 },
    { 0, "s\nt\n" }, { 0, "s\nt" }, { 0, "m2 u\r\n\r\nv\r\n" }, { 0, "..\nal y\nsub\\" }, { 0, "flt\ncd -\n" }, { "pre ", "one\nm2 \xc3\xa9\n" },
    { "!!", 0 }, { "!zzz", 0 }, { "!!:p\rb", 0 }, { 0, "!!\n!!:p\nm2 e" }, { "exit q", 0 }, { "EXIT,", 0 }, { "exits", 0 }, { "nohist", 0 }, { "ov", 0 },
    { 0, 0, "m2 pl" }, { 0, 0, "cd -" }, { 0, 0, "flt" },
};
static const int c_nacts = sizeof(c_acts) / sizeof(c_acts[0]);
// When the rest of pasted text is up for editing: accepted, or added to.
static const char* const c_edits[] = { "", " Z" };

//------------------------------------------------------------------------------
// The reference.
struct item { string text; bool ended; bool shown; };
struct model
{
    std::deque<item> q;
    vector<string> history;
    vector<string> dirs;
    string dir;
    bool errorlevel_next = true;

    static bool alias(const string& line, vector<string>& out)
    {
        size_t sp = line.find(' ');
        const string name = line.substr(0, sp), rest = sp == string::npos ? "" : line.substr(sp + 1);
        const string first = rest.substr(0, rest.find(' '));
        if (name == "al") out = { "echo A " + rest };
        else if (name == "m2") out = { "p1", "p2 " + rest };
        else if (name == "m3") out = { "r1 " + first, "", "r3" };
        else if (name == "up") out = { "..", "m2 w" };
        else if (name == "mk") out = { "md sub", "sub\\" };
        else return false;
        return true;
    }
    static vector<string> filter(const string& line)
    {
        if (line == "flt") return { "f1", "m2 z", "f3" };
        if (line == "flt2") return { "al q", "..", "sub\\" };
        if (line.compare(0, 4, " cd ") == 0) return { line, "f9", "-" };
        return { line };
    }
    string prev() const { return dirs.size() < 2 ? "" : " cd \"" + dirs[dirs.size() - 2] + "\""; }
    string shortcut(const string& line) const
    {
        if (line == "-") return prev();
        if (line == "..") return " cd \"..\\\"";
        if (line == "sub\\" && dir == s_base) return " cd \"sub\\\"";
        return line;
    }
    // A line is accepted in the editor (or provided by a script).
    string enter(string line, const char* then=nullptr, bool provided=false)
    {
        if (!history.empty() && line == "!!") line = history.back();
        if (!history.empty() && line == "!!:p") { if (then) return enter(then); line = ""; }
        string low = line;
        for (auto& c : low) c = char(tolower(c));
        if (!provided && !line.empty() && line[0] != ' ' && low != "exit q" && low != "exit," && line != "nohist")
        {
            const string add = line == "ov" ? "overridden" : line;
            for (size_t i = history.size(); i--;) if (history[i] == add) history.erase(history.begin() + i);
            history.push_back(add);
        }
        string out = line;
        bool resolved = false;
        if (line == "cd -") { out = prev(); resolved = true; }
        vector<string> f = filter(out);
        std::deque<item> front;
        vector<string> segs;
        out = f[0];
        if (!resolved)
        {
            if (alias(out, segs)) { out = segs[0]; for (size_t i = 1; i < segs.size(); ++i) front.push_back({ segs[i], true, false }); }
            out = shortcut(out);
        }
        for (size_t k = 1; k < f.size(); ++k)
        {
            if (!alias(f[k], segs)) segs = { f[k] };
            for (auto& s : segs) front.push_back({ s, true, false });
        }
        q.insert(q.begin(), front.begin(), front.end());
        return out;
    }
    void paste(const string& text)
    {
        // Carriage returns are dropped; the last piece may be without an end.
        string cur;
        for (char c : text) { if (c == '\r') continue; if (c == '\n') { q.push_back({ cur, true, true }); cur.clear(); } else cur += c; }
        if (!cur.empty()) q.push_back({ cur, false, true });
    }
    void visit() { if (dirs.empty() || _stricmp(dirs.back().c_str(), dir.c_str())) dirs.push_back(dir); }
    // Whether the user is asked for something, when cmd.exe prompts: 0 no, 1 for a line, 2 for the rest of one.
    int asks() const { return q.empty() ? 1 : !q.front().ended ? 2 : 0; }
    string prompt(const act* a, const char* edit)
    {
        if (q.empty())
        {
            visit();
            if (a->provided) return enter(a->provided, nullptr, true);
            string line = a->keys ? a->keys : "";
            size_t cr = line.find('\r');
            if (cr != string::npos) return enter(line.substr(0, cr), a->keys + cr + 1);
            if (a->clip)
            {
                string t = a->clip;
                size_t nl = t.find('\n');
                string first = t.substr(0, nl);
                if (!first.empty() && first.back() == '\r') first.pop_back();
                line += first;
                paste(t.substr(nl + 1));
            }
            return enter(line);
        }
        item i = q.front();
        q.pop_front();
        if (!i.shown) return shortcut(i.text);
        visit();
        return enter(i.ended ? i.text : i.text + edit);
    }
};

//------------------------------------------------------------------------------
static bool s_errorlevel = false;
static string narrow(const wchar_t* w, int n) { char b[9000]; int l = WideCharToMultiByte(CP_UTF8, 0, w, n, b, sizeof(b), 0, 0); return string(b, l); }
static string read(DWORD max)
{
    static wchar_t buf[8200];
    DWORD got = 0;
    buf[0] = 0;
    s_real = 0;
    CONSOLE_READCONSOLE_CONTROL c = {};
    c.nLength = sizeof(c);
    host_cmd::read_console(c_conin, buf, max, &got, max == 1 ? nullptr : &c);
    if (s_real) return "(console)";
    return narrow(buf, int(got));
}
static void write(const wchar_t* s) { DWORD w; host_cmd::write_console(c_conout, s, DWORD(wcslen(s)), &w, nullptr); }

static void lua(const string& code)
{
    lua_State* L = static_cast<lua_state&>(*s_host->m_lua).get_state();
    if (luaL_dostring(L, code.c_str())) mc::fatal("lua", lua_tostring(L, -1));
}
static void reset()
{
    s_host->m_line_queue.clear();
    s_host->m_prompt.clear();
    s_host->m_pending_command.clear();
    s_host->m_bypass_dequeue = false;
    write(L"reset");
    while (host_remove_dir_history(0)) {}
    if (history_database* h = history_database::get()) h->clear();
    clear_history();
    s_in.q.clear();
    s_in.starved = 0;
    SetCurrentDirectoryA(s_base.c_str());
}
// Carries out what cmd.exe would.
static void execute(const string& line)
{
    if (line.compare(0, 5, " cd \"") == 0 && line.back() == '"')
    {
        string d = line.substr(5, line.size() - 6);
        if (d == "..\\") d = "..";
        if (d == "..") SetCurrentDirectoryA(".."); else SetCurrentDirectoryA(d.c_str());
    }
}

// A case: two characters each: what cmd.exe does, and what the user does.
//   P  prompts for a command          M  asks More?         Q  asks a question, by characters
//   S  a program asks for a line, without showing anything       W  the same after writing something
static string run(const string& c, bool& asked)
{
    reset();
    model m;
    m.dir = s_base;
    string trace;
    for (size_t i = 0; i + 1 < c.size(); i += 2)
    {
        const char kind = c[i];
        const int a = c[i + 1] - 'A';
        string want, got;
        if (kind == 'P')
        {
            const int asks = m.asks();
            bool interactive = asks || m.q.front().shown;
            bool inspected = false;
            for (int again = 0; again < 2; ++again)
            {
                write(L"@CLINK_PROMPT@c:\\>");
                if (again || !s_errorlevel || !interactive)
                {
                    if (asks == 1)
                    {
                        const act& x = c_acts[a];
                        if (x.provided) lua(string("provide = '") + x.provided + "'"); else
                        {
                        for (const char* k = x.keys ? x.keys : ""; *k; ++k) s_in.q.push_back(*k);
                        if (x.clip) { s_clip = x.clip; s_in.q.push_back('\x16'); if (!strchr(x.clip, '\n')) s_in.q.push_back('\r'); }
                        else s_in.q.push_back('\r');
                        }
                    }
                    else if (asks == 2)
                    {
                        for (const char* k = c_edits[a]; *k; ++k) s_in.q.push_back(*k);
                        s_in.q.push_back('\r');
                    }
                }
                got = read(8191);
                if (!s_errorlevel || again || !interactive) break;
                if (got.compare(0, 1, " ") || got.find(".bat\"\r\n") == string::npos && got.find("errorlevel") == string::npos)
                    return trace + "before the prompt, " + mc::esc(got) + " is run instead of asking for the exit code";
            }
            want = m.prompt(&c_acts[asks == 1 ? a : 0], c_edits[asks == 2 ? a : 0]) + "\r\n";
            if (!s_in.q.empty()) return trace + "the user's input isn't read";
            execute(want.substr(0, want.size() - 2));
            m.dir = cwd();
        }
        else if (kind == 'Q')
        {
            if (m.q.empty()) want = "(console)";
            else { want = m.q.front().text + (m.q.front().ended ? "\n" : "(console)"); m.q.pop_front(); }
            while (true)
            {
                string ch = read(1);
                if (ch == "\r") continue;
                got += ch;
                if (ch == "\n" || ch == "(console)" || got.size() > 100) break;
            }
        }
        else
        {
            if (kind == 'M') write(L"More? ");
            if (kind == 'W') write(L"Name:");
            if (m.q.empty()) want = "(console)";
            else { want = m.q.front().text + "\r\n"; m.q.pop_front(); }
            got = read(8191);
        }
        mc::stat("reads");
        trace += string(1, kind) + "=" + mc::esc(got) + " ";
        if (got != want) return trace + ": instead of the last, " + mc::esc(want) + " was to be handed out";
        asked |= !m.q.empty();
    }
    // The history.
    history_database::get()->load_rl_history();
    vector<string> h;
    for (HIST_ENTRY** e = history_list(); e && *e; ++e) h.push_back((*e)->line);
    if (m.history != h) return trace + ": the history is [" + mc::join(h, "] [") + "] instead of [" + mc::join(m.history, "] [") + "]";
    return "";
}
static void one(const string& c)
{
    mc::current(c);
    mc::stat("evaluations");
    bool multi = false;
    string r = run(c, multi);
    if (multi) mc::stat("distinct_nontrivial");
    if (!r.empty()) mc::violation("queue " + c, c, r);
}

// Everything up to a number of reads; what the user is asked follows from the model.
struct plan { model m; string c; int acts; int others; };
static void grow(const plan& p, int depth, int max_acts, int max_others, mc::ull& n)
{
    if (mc::enough()) return;
    if (int(p.c.size()) == depth * 2 || (p.m.q.empty() && p.acts == max_acts))
    {
        if (!p.c.empty() && mc::mine(n++)) one(p.c);
        return;
    }
    const int asks = p.m.asks();
    if (asks != 1 || p.acts < max_acts)
        for (int a = 0; a < (asks == 1 ? c_nacts : asks == 2 ? 2 : 1); ++a)
        {
            if (asks == 1 && c_acts[a].keys && strchr(c_acts[a].keys, '\r') && p.m.history.empty()) continue;
            plan t = p;
            t.c += 'P';
            t.c += char('A' + a);
            if (asks == 1) ++t.acts;
            string out = t.m.prompt(&c_acts[asks == 1 ? a : 0], c_edits[asks == 2 ? a : 0]);
            if (out == " cd \"..\\\"") { size_t s = t.m.dir.rfind('\\'); t.m.dir = t.m.dir.substr(0, s < 3 ? 3 : s); }
            else if (out == " cd \"sub\\\"") t.m.dir += "\\sub";
            else if (out.compare(0, 5, " cd \"") == 0) t.m.dir = out.substr(5, out.size() - 6);
            grow(t, depth, max_acts, max_others, n);
        }
    if (p.others < max_others && !p.c.empty())
        for (char k : { 'M', 'Q', 'S', 'W' })
        {
            // Nothing is pending: only right after a command.
            if (p.m.q.empty() && p.c[p.c.size() - 2] != 'P') continue;
            plan t = p;
            t.c += k;
            t.c += 'A';
            ++t.others;
            if (!t.m.q.empty()) t.m.q.pop_front();
            grow(t, depth, max_acts, max_others, n);
        }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::quiet();
    for (size_t i = 0; i < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "errorlevel") s_errorlevel = true;
    _rl_utf8locale = 1;
    char tmp[300];
    GetTempPathA(sizeof(tmp), tmp);
    s_base = string(tmp) + "clinkq" + std::to_string(GetCurrentProcessId());
    const string state = s_base + "s";
    CreateDirectoryA(s_base.c_str(), nullptr);
    CreateDirectoryA((s_base + "\\sub").c_str(), nullptr);
    CreateDirectoryA(state.c_str(), nullptr);
    FILE* f = fopen((state + "\\clink_settings").c_str(), "w");
    fprintf(f, "cmd.get_errorlevel = %s\nclink.autostart = nul\nclink.autoupdate = off\nhistory.save = false\nclink.logo = none\nautosuggest.enable = false\nclink.colorize_input = false\n", s_errorlevel ? "true" : "false");
    fclose(f);
    SetEnvironmentVariableW(L"PROMPT", L"@CLINK_PROMPT@$P$G");
    SetCurrentDirectoryA(s_base.c_str());
    s_base = cwd();
    os::set_clipboard_provider(&s_clipboard);

    app_context::desc d;
    d.force = true;
    d.log = false;
    d.quiet = true;
    d.id = 1;
    strcpy(d.state_dir, state.c_str());
    app_context ctx(d);
    s_main_thread = GetCurrentThreadId();
    __Real_ReadConsoleW = q_read;
    __Real_WriteConsoleW = q_write;
    host_cmd* h = new host_cmd;
    s_host = h;
    h->m_terminal.in = &s_in;
    h->m_terminal.out = &s_out;
    h->m_printer = new printer(s_out);
    set_lua_terminal(nullptr, nullptr);
    set_lua_terminal(&s_in, &s_out);
    // Loads everything.
    mc::current("start");
    s_in.q.push_back('\r');
    write(L"@CLINK_PROMPT@c:\\>");
    read(8191);
    if (s_errorlevel) { write(L"@CLINK_PROMPT@c:\\>"); read(8191); }
    lua("clink.onfilterinput(function(line) if line == 'flt' then return {'f1','m2 z','f3'} end if line == 'flt2' then return {'al q','..','sub\\\\'} end if line:sub(1,4) == ' cd ' then return {line, 'f9', '-'} end end)"
        "clink.onhistory(function(line) if line == 'nohist' then return false end if line == 'ov' then return 'overridden' end end)"
        "clink.onprovideline(function() local p = provide provide = nil return p end)");

    if (mc::S().replaying)
    {
        mc::current(mc::S().replay);
        one(mc::S().replay);
    }
    else
    {
        mc::ull n = 0;
        plan p { {}, "", 0, 0 };
        p.m.dir = s_base;
        if (mc::thorough()) { grow(p, 7, 2, 3, n); if (!s_errorlevel) grow(p, 6, 3, 1, n); } else if (s_errorlevel) grow(p, 6, 2, 1, n); else grow(p, 6, 2, 2, n);
    }
    SetCurrentDirectoryA("c:\\");
    mc::done();
    for (const char* x : { "\\sub", "" }) RemoveDirectoryA((s_base + x).c_str());
    DeleteFileA((state + "\\clink_settings").c_str());
    RemoveDirectoryA(state.c_str());
    TerminateProcess(GetCurrentProcess(), 0);
}
