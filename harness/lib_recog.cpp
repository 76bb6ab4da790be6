// Recognising the commands of a line on a background thread (recognizer.cpp).
//   --mode lines   every schedule, up to a number of preemptions, of the thread and an input loop that
//                  goes through a history of lines
//   --mode find    which file a word stands for: every word with every set of files and search path
//   --mode now     the same without waiting in the background (set_noasync_recognizer)
#include "sched.h"
#include <core/base.h>
#include <core/object.h>
#include <core/str.h>
#include <core/settings.h>
#include <core/os.h>
#include <lib/recognizer.h>
#include <lib/reclassify.h>
#include <shlwapi.h>
void set_noasync_recognizer();
extern "C" int rl_backslash_path_sep;
using std::string;
using std::vector;

//------------------------------------------------------------------------------
// The world: two directories and one in the path. Commands are a letter, and a number that is new in
// every run: a is in the first directory, b in the second, c in the path, d nowhere, e in both.
static int g_cwd;
static bool exists(const string& dir, char c)
{
    if (dir == "c:\\w0") return c == 'a' || c == 'e';
    if (dir == "c:\\w1") return c == 'b' || c == 'e';
    return dir == "c:\\p" && c == 'c';
}
static bool truth(char c) { return exists(g_cwd ? "c:\\w1" : "c:\\w0", c) || exists("c:\\p", c); }
// For --mode find: what exists.
static bool g_find;
static std::map<string, bool> g_files;      // lower case; whether it is a directory
static string low(string s) { for (char& c : s) c = char(tolower((unsigned char)c)); return s; }
static string normal(string s)
{
    for (char& c : s) if (c == '/') c = '\\';
    if (s.size() < 2 || s[1] != ':') s = !s.empty() && s[0] == '\\' ? "c:" + s : "c:\\w\\" + s;
    vector<string> parts;
    for (auto& x : mc::split(s, '\\'))
    {
        if (x.empty() || x == ".") continue;
        if (x == "..") { if (parts.size() > 1) parts.pop_back(); continue; }
        parts.push_back(x);
    }
    string o;
    for (auto& x : parts) o += (o.empty() ? "" : "\\") + x;
    return parts.size() == 1 ? o + "\\" : o;
}
static HANDLE WINAPI find_first(LPCWSTR p, WIN32_FIND_DATAW* fd)
{
    sched::point();
    if (g_find)
    {
        string s;
        for (; *p; ++p) s += char(*p);
        auto f = g_files.find(low(normal(s)));
        memset(fd, 0, sizeof(*fd));
        if (f == g_files.end()) { SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
        fd->dwFileAttributes = f->second ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_NORMAL;
        return HANDLE(1);
    }
    string s;
    for (; *p; ++p) s += char(*p == '/' ? '\\' : *p);
    size_t slash = s.rfind('\\');
    string dir = s.substr(0, slash == string::npos ? 0 : slash), name = slash == string::npos ? s : s.substr(slash + 1);
    memset(fd, 0, sizeof(*fd));
    fd->dwFileAttributes = FILE_ATTRIBUTE_NORMAL;
    if (name.size() > 4 && name.substr(name.size() - 4) == ".exe" && exists(dir, name[0])) return HANDLE(1);
    SetLastError(ERROR_FILE_NOT_FOUND);
    return INVALID_HANDLE_VALUE;
}
static BOOL WINAPI find_close(HANDLE) { return true; }
static DWORD WINAPI attributes(LPCWSTR) { SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_FILE_ATTRIBUTES; }
static DWORD WINAPI current_dir(DWORD n, LPWSTR out) { if (g_find) { if (n > 4) wcscpy(out, L"c:\\w"); return n > 4 ? 4 : 5; } const wchar_t* d = g_cwd ? L"c:\\w1" : L"c:\\w0"; if (n > 5) wcscpy(out, d); return n > 5 ? 5 : 6; }
static UINT WINAPI drive_type(LPCWSTR) { return DRIVE_FIXED; }
static BOOL WINAPI need_cwd(LPCWSTR) { return true; }
static DWORD WINAPI full_path(LPCWSTR in, DWORD n, LPWSTR out, LPWSTR* name)
{
    if (g_find)
    {
        string s;
        for (LPCWSTR p = in; *p; ++p) s += char(*p);
        const string r = normal(s);
        if (n <= r.size()) return DWORD(r.size() + 1);
        for (size_t i = 0; i <= r.size(); ++i) out[i] = (unsigned char)r.c_str()[i];
        return DWORD(r.size());
    }
    DWORD len = DWORD(wcslen(in));
    if (name) *name = nullptr;
    if (n <= len) return len + 1;
    wcscpy(out, in);
    return len;
}
static long long g_time = 1600000000;
static long long my_time(long long* t) { if (t) *t = g_time; return g_time; }
static HRESULT WINAPI assoc(DWORD, DWORD, LPCWSTR ext, LPCWSTR, LPWSTR, DWORD* n) { if (!_wcsicmp(ext, L".txt")) { *n = 5; return S_FALSE; } *n = 0; return E_FAIL; }
extern "C" {
void* __imp_AssocQueryStringW = (void*)assoc;
void* __imp__time64 = (void*)my_time;
void* __imp_FindFirstFileW = (void*)find_first;
void* __imp_FindClose = (void*)find_close;
void* __imp_GetFileAttributesW = (void*)attributes;
void* __imp_GetCurrentDirectoryW = (void*)current_dir;
void* __imp_GetDriveTypeW = (void*)drive_type;
void* __imp_NeedCurrentDirectoryForExePathW = (void*)need_cwd;
void* __imp_GetFullPathNameW = (void*)full_path;
}

//------------------------------------------------------------------------------
// The input loop, as line_editor_impl and lua_input_idle have it.
static int g_run;                           // Makes the names new.
static string g_line;                       // The commands of the line.
static vector<int> g_state;                 // For each: 1 or -1: known to be executable or not; 0: not known yet.
static string g_wrong;
static bool g_now;

static string show(recognition r) { return r == recognition::executable ? "executable" : r == recognition::unrecognized ? "unrecognized" : r == recognition::unknown ? "unknown" : "navigate"; }
static void classify()
{
    g_state.assign(g_line.size(), 0);
    for (size_t i = 0; i < g_line.size(); ++i)
    {
        string w = string(1, g_line[i]) + std::to_string(g_run);
        bool ready = false;
        str<> file;
        recognition r = recognize_command(nullptr, w.c_str(), false, ready, &file);
        mc::stat("answers");
        if (ready)
        {
            mc::stat("ready");
            g_state[i] = r == recognition::executable ? 1 : -1;
            bool good = truth(g_line[i]) ? r == recognition::executable : r == recognition::unrecognized;
            if (!good && g_wrong.empty()) g_wrong = string(1, g_line[i]) + " is said to be " + show(r);
            string expect = !truth(g_line[i]) ? "" : string(exists("c:\\p", g_line[i]) ? "c:\\p" : g_cwd ? "c:\\w1" : "c:\\w0") + "\\" + w + ".exe";
            if (good && g_wrong.empty() && _stricmp(expect.c_str(), file.c_str())) g_wrong = string(1, g_line[i]) + " is found as '" + file.c_str() + "'";
        }
        else if (g_now && g_wrong.empty()) g_wrong = string(1, g_line[i]) + " isn't known at once";
    }
}
void reclassify(reclassify_reason)
{
    if (check_recognizer_refresh())
        classify();
}
static bool known() { for (int s : g_state) if (!s) return false; return true; }
// One turn of the input loop: waits for the event and handles it; false: nothing will come any more.
static bool turn()
{
    HANDLE e = get_recognizer_event();
    sched::event* ev = (sched::event*)e;
    if (!ev->set)
    {
        if (!sched::block(sched::why::event_, ev, false)) { sched::deadlock() = false; return false; }
    }
    else sched::point();
    reclassify(reclassify_reason::recognizer);
    return true;
}
// Executes a history: letters (up to 3) make a line; w: the input loop handles one event; .: line ends and
// the directory stays; /: line ends and the directory changes.
static string run(const string& hist, const vector<int>& schedule, bool finish)
{
    ++g_run;
    g_cwd = 0;
    g_line.clear();
    g_state.clear();
    g_wrong.clear();
    sched::begin_schedule(schedule);
    for (auto& part : mc::split(hist, ' '))
    {
        if (part == "w") turn();
        else if (part == "." || part == "/")
        {
            end_recognizer();
            g_line.clear();
            g_state.clear();
            if (part == "/") g_cwd = !g_cwd;
        }
        else { g_line = part == "-" ? "" : part; classify(); }
        if (!g_wrong.empty()) break;
    }
    // Then nothing more is typed: the input loop goes on until nothing happens any more.
    int turns = 0;
    if (finish)
        while (g_wrong.empty() && turn())
            if (++turns > 200) { g_wrong = "recognising goes on forever"; break; }
    if (g_wrong.empty() && sched::steps() > sched::c_max_steps) g_wrong = "recognising goes on forever";
    if (g_wrong.empty() && finish && !known()) g_wrong = "when nothing happens any more, it isn't known what commands of the line " + g_line + " are";
    sched::end_schedule();
    // Clean up: the thread finishes and forgets (not explored).
    sched::preempt().clear();
    g_line.clear();
    for (int i = 0; i < 50; ++i) { sched::yield_to_others(); }
    g_time += 10000;
    end_recognizer();
    sched::deadlock() = false;
    if (g_wrong.empty() && sched::looks() > sched::c_max_looks) g_wrong = "at the end of the line, waiting for recognising keeps the processor busy all the time";
    return g_wrong;
}
static string ints(const vector<int>& v) { string t; for (int i : v) { if (!t.empty()) t += '.'; t += std::to_string(i); } return t; }

static void one(const string& hist, int bound)
{
    string cs;
    vector<int> failed;
    string r = sched::explore(bound, [&](const vector<int>& p) {
        mc::current(hist + "|" + ints(p));
        string r = run(hist, p, true);
        mc::stat("schedules");
        mc::stat("steps", sched::steps());
        if (p.size()) mc::stat("distinct_nontrivial");
        return r;
    }, failed);
    mc::stat("histories");
    if (!r.empty()) mc::violation("recognize " + hist, hist + "|" + ints(failed), r + " (lines " + hist + ", other threads go on at steps " + ints(failed) + ")");
    if (mc::S().samples.size() < 4 && hist.size() > 5) mc::sample(hist);
}

//------------------------------------------------------------------------------
// Which file a word stands for.  In every text @ is a name that is new each time.
static const char* const c_dirs[] = { "c:\\w", "c:\\w\\sub", "c:\\p", "c:\\q", "c:" };
static const char* const c_names[] = { "@", "@.exe", "@.bat", "@.txt", "@.b", "@.b.exe", "@.lnk", "@.exe.bat", "@.exe/" };
static const char* const c_words[] = { "@", "@.exe", "@.BAT", "@.txt", "@.b", "@.b.exe", "@.lnk", "@.exe.bat", "@.", "sub\\@", "sub/@.exe", ".\\@", "..\\@.bat", "c:\\p\\@", "C:\\P\\@.EXE", "\\w\\@", "c:/q/@.txt", "^@", "@^.exe", "%PP%\\@", "@*", "@?.exe", "\"@\"", "\"c:\\q\\@\"", "\"@^\"" };
static const char* const c_paths[] = { "c:\\p;c:\\q", " c:\\q ;;c:\\p", "sub;C:\\P\\", "..;c:\\q", "" };
static const char* const c_exts[] = { ".exe;.bat", ".BAT;.EXE", ".com", ".b;.exe" };
static string fill(const char* t, unsigned n) { string o; for (; *t; ++t) if (*t == '@') o += "z" + std::to_string(n); else o += *t; return o; }

static string find_one(int w, int p, int e, const vector<int>& files)
{
    static unsigned serial = 0;
    const unsigned n = ++serial;
    g_files.clear();
    for (auto d : { "c:\\w", "c:\\w\\sub", "c:\\p", "c:\\q" }) g_files[d] = true;
    for (int f : files)
    {
        string t = string(c_dirs[f / 9]) + "\\" + fill(c_names[f % 9], n);
        const bool dir = t.back() == '/';
        if (dir) t.pop_back();
        g_files[t] = dir;
    }
    static int lp = -1, le = -1;
    if (lp != p) SetEnvironmentVariableA("PATH", c_paths[lp = p]);
    if (le != e) SetEnvironmentVariableA("PATHEXT", c_exts[le = e]);
    string word = fill(c_words[w], n);
    const bool quoted = word[0] == '"';
    if (quoted) word = word.substr(1, word.size() - 2);
    // What it should be.
    string t = word;
    if (!quoted) { size_t i; while ((i = t.find('^')) != string::npos) t.erase(i, 1); }
    if (t.compare(0, 4, "%PP%") == 0) t = "c:\\p" + t.substr(4);
    t = low(t);
    for (char& c : t) if (c == '/') c = '\\';
    vector<string> dirs;
    const bool has_dir = t.find('\\') != string::npos;
    if (has_dir) dirs = { normal(t.substr(0, t.rfind('\\'))) };
    else
    {
        dirs.push_back("c:\\w");
        for (auto d : mc::split(c_paths[p], ';'))
        {
            while (!d.empty() && d[0] == ' ') d.erase(0, 1);
            while (!d.empty() && d.back() == ' ') d.pop_back();
            if (!d.empty()) dirs.push_back(low(normal(d)));
        }
    }
    const string name = has_dir ? t.substr(t.rfind('\\') + 1) : t;
    const size_t dot = name.rfind('.');
    const string ext = dot == string::npos ? "" : name.substr(dot);
    vector<string> found;
    if (t.find_first_of("*?") == string::npos)
        for (auto& d : dirs)
        {
            auto have = [&](const string& x) { auto f = g_files.find((d.back() == '\\' ? d : d + "\\") + x); if (f != g_files.end() && !f->second) found.push_back(f->first); };
            auto exts = mc::split(low(c_exts[e]), ';');
            bool runs = ext == ".txt" || ext == ".lnk";
            for (auto& x : exts) runs = runs || x == ext;
            if (runs) have(name);
            for (auto& x : exts) have(name + x);
            if (!found.empty()) break;
        }
    // What it is said to be; twice.
    string wrong;
    sched::begin_schedule({});
    for (int k = 0; k < 2 && wrong.empty(); ++k)
    {
        bool ready = false;
        str<> file;
        const recognition r = recognize_command(nullptr, word.c_str(), quoted, ready, &file);
        if (!ready) wrong = "isn't known";
        else if (found.empty() && r != recognition::unrecognized) wrong = "is said to be " + show(r) + " " + file.c_str();
        else if (!found.empty() && r != recognition::executable) wrong = "is said to be " + show(r) + " but is " + found[0];
        else if (!found.empty())
        {
            bool ok = false;
            for (auto& x : found) ok = ok || x == low(file.c_str());
            if (!ok) wrong = string("is said to be ") + file.c_str() + " but is " + found[0];
        }
        if (!wrong.empty() && k) wrong += " when asked again";
    }
    sched::end_schedule();
    mc::stat("schedules");
    mc::stat("answers", 2);
    if (!found.empty()) mc::stat("distinct_nontrivial");
    if (n % 200 == 0) { end_recognizer(); g_time += 100000; }
    return wrong.empty() ? "" : word + " " + wrong;
}
static void find_case(int w, int p, int e, const vector<int>& files)
{
    char b[100];
    sprintf(b, "find:%d,%d,%d,%d,%d", w, p, e, files.size() > 0 ? files[0] : -1, files.size() > 1 ? files[1] : -1);
    mc::current(b);
    string r = find_one(w, p, e, files);
    if (r.empty()) return;
    string m = r + " (path " + c_paths[p] + ", extensions " + c_exts[e] + ", files";
    for (int f : files) m += string(" ") + c_dirs[f / 9] + "\\" + c_names[f % 9];
    mc::violation(string("find ") + c_words[w] + " in " + c_paths[p], b, m + ")");
}
static void find_all()
{
    const int nw = int(sizeof(c_words) / sizeof(*c_words)), np = int(sizeof(c_paths) / sizeof(*c_paths)), ne = int(sizeof(c_exts) / sizeof(*c_exts)), nf = 45;
    mc::ull n = 0;
    for (int p = 0; p < np; ++p)
        for (int e = 0; e < ne; ++e)
            for (int w = 0; w < nw; ++w)
            {
                if (!mc::mine(n++) || mc::enough()) continue;
                find_case(w, p, e, {});
                for (int a = 0; a < nf; ++a)
                {
                    find_case(w, p, e, { a });
                    for (int b = a + 1; b < nf; ++b) find_case(w, p, e, { a, b });
                }
            }
    mc::sample("word sub/@.exe, PATH '..;c:\\q', PATHEXT .BAT;.EXE, files c:\\w\\sub\\@.exe.bat, c:\\p\\@.exe");
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i < mc::S().extra.size(); ++i)
        if (mc::S().extra[i] == "--mode") { g_find = mc::S().extra[i + 1] == "find"; g_now = g_find || mc::S().extra[i + 1] == "now"; }
    if (mc::S().replaying && mc::S().replay.compare(0, 5, "find:") == 0) g_find = g_now = true;
    settings::find("color.executable") && settings::find("color.executable")->set("bold");
    settings::find("color.unrecognized") && settings::find("color.unrecognized")->set("red");
    SetEnvironmentVariableA("PATH", "c:\\p");
    SetEnvironmentVariableA("PATHEXT", ".exe");
    sched::start();
    sched::runaway() = [] { mc::violation("recognizing goes on forever", mc::C().text, "recognizing goes on forever"); mc::done(); TerminateProcess(GetCurrentProcess(), 0); };
    if (g_now) set_noasync_recognizer();
    // The thread is there from now on.
    if (g_find)
    {
        SetEnvironmentVariableA("PP", "c:\\p");
        rl_backslash_path_sep = 1;
        set_noasync_recognizer();
        int w, p, e, a, b;
        if (mc::S().replaying && sscanf(mc::S().replay.c_str(), "find:%d,%d,%d,%d,%d", &w, &p, &e, &a, &b) == 5)
        {
            vector<int> f;
            if (a >= 0) f.push_back(a);
            if (b >= 0) f.push_back(b);
            find_case(w, p, e, f);
        }
        else
            find_all();
        mc::done();
        TerminateProcess(GetCurrentProcess(), 0);
    }
    mc::current("d|");
    run("d", {}, true);
    if (mc::S().replaying)
    {
        auto f = mc::split(mc::S().replay, '|');
        vector<int> p;
        if (f.size() > 1) for (auto& x : mc::split(f[1], '.')) if (!x.empty()) p.push_back(atoi(x.c_str()));
        string r = run(f[0], p, true);
        if (!r.empty()) mc::violation("recognize " + f[0], mc::S().replay, r);
        { mc::done(); TerminateProcess(GetCurrentProcess(), 0); }
    }
    // Histories: lines, with or without events in between, ended or edited further.
    const vector<string> lines { "a", "b", "c", "d", "ab", "ca", "dd", "bcd" };
    const vector<string> between { " ", " w ", " / ", " . ", " w / ", " w w " };
    const int more = mc::thorough() ? 1 : 0;
    mc::ull n = 0;
    for (auto& l1 : lines)
    {
        if (mc::mine(n++)) one(l1, 3);
        for (auto& g : between)
            for (auto& l2 : lines)
            {
                if (mc::enough()) break;
                const size_t size = l1.size() + l2.size();
                if (mc::mine(n++)) one(l1 + g + l2, (size <= 2 ? 2 : 1) + more);
                if (size <= 2)
                    for (auto& g2 : between)
                        for (auto& l3 : { "a", "b" })
                            if (mc::mine(n++)) one(l1 + g + l2 + g2 + l3, 1 + more);
            }
    }
    { mc::done(); TerminateProcess(GetCurrentProcess(), 0); }
}
