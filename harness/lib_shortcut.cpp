// Directory shortcuts: every short line over the pieces that matter either becomes the right cd command or stays.
#include <core/bldopts.h>
#include "mc.h"
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include <lib/intercept.h>
#include <set>
using std::string;
using std::vector;

//------------------------------------------------------------------------------
// Directories that exist, the current directory, an environment variable, an alias.
static const char* c_dirs[] = { "c:\\", "c:\\w\\", "c:\\w\\dir\\", "c:\\w\\dir\\dir\\", "c:\\w\\a b\\", "c:\\w\\cd\\", "c:\\w\\-\\", "c:\\w\\a&b\\", "c:\\w\\a^b\\", "c:\\home\\", "d:\\", "d:\\dir\\" };
static bool s_odd;
// Directories with unusual names: of special characters, or that begin with a command.
static string lower(string s);
static bool odd(const string& x)
{
    if (x.find_first_of("x@();&+=,") != string::npos && x.find_first_not_of("x@();&+=,.") == string::npos) return true;
    for (const char* n : { "call", "cd", "chdir", "dir", "echo", "md", "mkdir", "popd", "pushd", "rd" }) { string r = x.substr(0, strlen(n)) == n ? x.substr(strlen(n)) : "?"; if (r == "" || r == "x" || r == ".x" || r == "@" || r == ";") return true; }
    return false;
}
static string lower(string s) { for (auto& c : s) c = char(tolower(uint8(c))); return s; }
static bool exists(string p)
{
    for (auto& c : p) if (c == '/') c = '\\';
    p = lower(p);
    string full = p.size() > 1 && p[1] == ':' ? (p.size() > 2 && p[2] == '\\' ? p : (p[0] == 'c' ? "c:\\w\\" : "d:\\") + p.substr(2)) : !p.empty() && p[0] == '\\' ? "c:" + p : "c:\\w\\" + p;
    if (full.back() != '\\') full += '\\';
    if (full[0] != 'c' && full[0] != 'd') return false;
    vector<string> parts;
    size_t b = 3;
    for (size_t e; (e = full.find('\\', b)) != string::npos; b = e + 1)
    {
        string x = full.substr(b, e - b);
        if (x == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!x.empty() && x != ".")
        {
            parts.push_back(x);
        }
    }
    if (s_odd && full[0] == 'c' && !parts.empty()) { bool all = true; for (auto& y : parts) all &= odd(y); if (all) return true; }
    string sofar = full.substr(0, 3);
    for (auto& y : parts) sofar += y + "\\";
    for (auto* d : c_dirs) if (sofar == d) return true;
    return false;
}
static DWORD WINAPI attributes(LPCWSTR p)
{
    string s;
    for (; *p; ++p) s += char(*p);
    if (!s.empty() && exists(s)) return FILE_ATTRIBUTE_DIRECTORY;
    if (lower(s) == "file") return FILE_ATTRIBUTE_NORMAL;
    SetLastError(ERROR_FILE_NOT_FOUND);
    return INVALID_FILE_ATTRIBUTES;
}
static bool s_on_d;
static DWORD WINAPI get_cwd(DWORD n, LPWSTR out)
{
    const wchar_t* c = s_on_d ? L"d:\\dir" : L"C:\\w";
    if (n <= wcslen(c)) return DWORD(wcslen(c) + 1);
    wcscpy(out, c);
    return DWORD(wcslen(c));
}
static bool s_alias;
static DWORD WINAPI get_alias(LPWSTR name, LPWSTR buf, DWORD bytes, LPWSTR)
{
    if (!s_alias || wcscmp(name, L"cd") || bytes < 20) return 0;
    wcscpy(buf, L"echo $*");
    return 16;
}
extern "C" {
void* __imp_GetFileAttributesW = (void*)attributes;
void* __imp_GetCurrentDirectoryW = (void*)get_cwd;
void* __imp_GetConsoleAliasW = (void*)get_alias;
}

//------------------------------------------------------------------------------
// The rules.  Result: "" (stays), "-" (previous directory), or the directory.
static bool blank(char c) { return c == ' ' || c == '\t'; }
static bool sep(char c) { return c == '/' || c == '\\'; }
static string trim(string s) { while (!s.empty() && blank(s[0])) s.erase(0, 1); while (!s.empty() && blank(s.back())) s.pop_back(); return s; }
static string rule(const string& line, bool only_cd)
{
    // "-", "cd -", "cd /d -", "chdir -": the previous directory.
    string t = trim(line), l = lower(t);
    string name;
    string rest = t;
    for (const char* c : { "chdir", "cd" })
        if (name.empty() && l.compare(0, strlen(c), c) == 0)
        {
            string r = t.substr(strlen(c));
            string q = r;
            while (!q.empty() && blank(q[0])) q.erase(0, 1);
            bool gap = q.size() < r.size();
            if (lower(q).compare(0, 2, "/d") == 0) { r = q.substr(2); q = r; while (!q.empty() && blank(q[0])) q.erase(0, 1); gap = q.size() < r.size(); }
            if (gap) { name = c; rest = q; }
        }
    bool prev = rest == "-";
    if (only_cd) return prev && !name.empty() && !(s_alias && name == "cd") ? "-" : "";
    if (prev) return "-";
    // One token that names a directory.
    bool quoted = false, percent = false, plain = true;
    string tok;
    t = line;
    while (!t.empty() && blank(t[0])) t.erase(0, 1);
    for (size_t i = 0; i < t.size(); ++i)
    {
        char c = t[i];
        if (!quoted && blank(c) && t.find_first_not_of(" \t", i) == string::npos) break;
        if (c == '<' || c == '>' || c == '|') return "";
        if (!quoted && strchr("@()&+=;, \t", c)) return "";
        if (c == '"') { quoted = !quoted; plain = false; continue; }
        // (A trailing blank is part of the name inside quotes, and of the line outside.)
        if (c == '^') { plain = false; if (!quoted && i + 1 < t.size()) continue; }
        if (c == '%') { percent = true; plain = false; }
        if (plain && (c == '.' || sep(c)))
        {
            for (const char* n : { "call", "cd", "chdir", "dir", "echo", "md", "mkdir", "popd", "pushd" }) if (lower(tok) == n) return "";
            plain = false;
        }
        tok += c;
    }
    if (tok.empty()) return "";
    if (percent)
    {
        string out;
        for (size_t i = 0; i < tok.size();)
        {
            size_t e = tok[i] == '%' ? tok.find('%', i + 1) : string::npos;
            if (e != string::npos && lower(tok.substr(i + 1, e - i - 1)) == "v") { out += "dir"; i = e + 1; }
            else if (tok[i] == '%' && e != string::npos) { out += tok.substr(i, e - i); i = e; }
            else out += tok[i++];
        }
        tok = out;
    }
    if (tok.empty()) return "";
    // Dots.
    size_t dots = tok.find_first_not_of('.');
    if (dots == string::npos ? tok.size() >= 2 : dots >= 2 && dots + 1 == tok.size() && sep(tok[dots]))
    {
        size_t n = dots == string::npos ? tok.size() : dots;
        string d;
        while (--n) d += "..\\";
        return d;
    }
    if (tok != "~" && !sep(tok.back()))
    {
        // Only .. between separators.
        for (size_t i = 0; ; i += 3)
        {
            if (tok.compare(i, 2, "..")) return "";
            if (i + 2 == tok.size()) break;
            if (!sep(tok[i + 2])) return "";
        }
        tok += "\\";
    }
    if (tok[0] == '~' && (tok.size() == 1 || sep(tok[1]))) tok = "c:\\home" + (tok.size() == 1 ? string("") : tok.substr(1));
    for (auto& c : tok) if (c == '/') c = '\\';
    return exists(tok) ? tok : "";
}

//------------------------------------------------------------------------------
// One spelling of the command: the directory resolved.
static string spelled(const string& s)
{
    size_t q = s.find('"');
    if (q == string::npos || s.back() != '"') return s;
    string p = s.substr(q + 1, s.size() - q - 2), head;
    if (p.size() > 2 && p[1] == ':' && p[2] == '\\') { head = p.substr(0, 3); p.erase(0, 3); }
    else if (!p.empty() && p[0] == '\\') { head = "\\"; p.erase(0, 1); }
    vector<string> parts;
    p += "\\";
    size_t b = 0;
    for (size_t e; (e = p.find('\\', b)) != string::npos; b = e + 1)
    {
        string x = p.substr(b, e - b);
        if (x == ".." && !head.empty() && parts.empty()) continue;
        if (x == ".." && !parts.empty() && parts.back() != "..") parts.pop_back();
        else if (!x.empty() && x != ".") parts.push_back(x);
    }
    string r = s.substr(0, q + 1) + head;
    for (auto& x : parts) r += x + "\\";
    return r;
}
static void check(const string& line)
{
    if (line.find('~') != string::npos && line.find(':') != string::npos) return;   // Not a path.
    static const char* c_modes[] = { "normal", "only cd", "no remote" };
    for (int mode = 0; mode < 3; ++mode)
    {
        mc::current(line);
        mc::stat("evaluations");
        str_moveable out("unchanged");
        const auto m = mode == 1 ? intercept_mode::only_cd_chdir : mode == 2 ? intercept_mode::no_remote : intercept_mode::normal;
        intercept_result r = intercept_directory(line.c_str(), &out, m);
        string want = rule(line, mode == 1);
        string got = r == intercept_result::prev_dir ? "-" : r == intercept_result::none ? "" : out.c_str();
        string expect = want;
        if (!want.empty() && want != "-")
        {
            mc::stat("distinct_nontrivial");
            string drive = want.size() > 1 && want[1] == ':' ? want.substr(0, 2) : "";
            expect = (drive.empty() || lower(drive) == (s_on_d ? "d:" : "c:") ? "" : " " + drive + " &") + string(" cd \"") + want + "\"";
        }
        if (want == "-") mc::stat("previous");
        if (spelled(got) != spelled(expect)) mc::violation(string(c_modes[mode]) + " " + line, line, string(c_modes[mode]) + ": \"" + line + "\" becomes \"" + got + "\" instead of \"" + expect + "\"");
        if (r != intercept_result::chdir && !out.equals("unchanged")) mc::violation("out " + line, line, "a line that stays is changed to " + string(out.c_str()));
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    SetEnvironmentVariableA("HOME", "c:\\home");
    SetEnvironmentVariableA("v", "dir");
    SetEnvironmentVariableA("none", nullptr);
    static const char* c_pieces[] = { ".", "..", "\\", "/", "-", " ", "\"", "dir", "DIR", "a b", "cd", "Chdir", "/d", "^", "&", "%v%", "%none%", "c:", "d:", "~", "<", "\t", "file", "a", "b" };
    const int n = sizeof(c_pieces) / sizeof(c_pieces[0]);
    if (mc::S().replaying) { for (int o = 0; o < 2; ++o) { s_odd = o; for (s_on_d = false;; s_on_d = true) { for (s_alias = false;; s_alias = true) { check(mc::S().replay); if (s_alias) break; } if (s_on_d) break; } } return mc::done(); }
    static const char* c_odd[] = { ".", "..", "\\", "/", " ", "\"", "^", "x", ".x", "@", "(", ")", ";", "&", "+", "=", ",", "call", "cd", "chdir", "dir", "Echo", "md", "mkdir", "popd", "pushd", "rd" };
    unsigned long long index = 0;
    auto all = [&](const char** pieces, int n, int max) {
        for (int len = 0; len <= max; ++len)
        {
            vector<int> at(len, 0);
            for (;;)
            {
                if (mc::mine(index++))
                {
                    string line;
                    for (int i : at) line += pieces[i];
                    s_on_d = s_alias = false; check(line);
                    if (len < max) { s_on_d = true; check(line); s_alias = true; check(line); }
                    if (mc::enough()) return;
                }
                int i = len - 1;
                while (i >= 0 && ++at[i] == n) at[i--] = 0;
                if (i < 0) break;
            }
        }
    };
    all(c_pieces, n, mc::thorough() ? 5 : 4);
    s_odd = true;
    all(c_odd, int(sizeof(c_odd) / sizeof(c_odd[0])), mc::thorough() ? 5 : 4);
    return mc::done();
}
