// Common plumbing of the harnesses: arguments, counters, samples, violations.
//
// A harness is called as   X.exe --tier quick|thorough --shard I N      (explore)
//                     or   X.exe --replay "<case>"                      (re-run one case)
// and writes lines to stdout that tools/check.py collects:
//   STAT <name> <value>            (summed over the shards)
//   SAMPLE <text>
//   VIOL <key>\t<case>\t<message>  (case is what --replay takes)
//   DONE                           (the enumeration was completed)
#pragma once
#ifndef WIN32_LEAN_AND_MEAN
#define WIN32_LEAN_AND_MEAN
#endif
#ifndef NOMINMAX
#define NOMINMAX
#endif
#include <Windows.h>
#include <io.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>

namespace mc {

typedef unsigned long long ull;

struct state
{
    bool thorough = false;
    int shard = 0, nshards = 1;
    bool replaying = false;
    std::string replay;
    std::map<std::string, ull> stats;
    std::vector<std::string> samples;
    std::set<std::string> viol_keys;
    size_t max_viol = 8;
    std::vector<std::string> extra;
};
inline state& S() { static state s; return s; }
inline FILE*& out() { static FILE* f = stdout; return f; }
// What the code under test prints to stdout is dropped from now on.
inline void quiet();

inline void quiet()
{
    fflush(stdout);
    out() = _fdopen(_dup(1), "w");
    freopen("NUL", "w", stdout);
    setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
}

inline std::string esc(const std::string& in)
{
    std::string out;
    char b[8];
    for (unsigned char c : in)
    {
        if (c == '\\') out += "\\\\";
        else if (c < 0x20 || c >= 0x7f) { sprintf(b, "\\x%02x", c); out += b; }
        else out += char(c);
    }
    return out;
}
inline std::string unesc(const std::string& in)
{
    std::string out;
    for (size_t i = 0; i < in.size(); ++i)
    {
        if (in[i] != '\\' || i + 1 >= in.size()) { out += in[i]; continue; }
        if (in[i + 1] == 'x' && i + 3 < in.size())
        {
            out += char(strtol(in.substr(i + 2, 2).c_str(), nullptr, 16));
            i += 3;
        }
        else { out += in[i + 1]; i++; }
    }
    return out;
}

inline void stat(const char* name, ull add = 1) { S().stats[name] += add; }
inline void sample(const std::string& s, size_t limit = 4)
{
    if (S().samples.size() < limit) S().samples.push_back(s);
}
inline bool mine(ull index) { return int(index % ull(S().nshards)) == S().shard; }
inline bool thorough() { return S().thorough; }

// Reports a violation.  key identifies what fails (known findings are listed by key).
inline void violation(const std::string& key, const std::string& replay_case, const std::string& msg)
{
    stat("violations");
    if (S().viol_keys.size() >= S().max_viol || !S().viol_keys.insert(key).second)
        return;
    fprintf(out(), "VIOL %s\t%s\t%s\n", esc(key).c_str(), esc(replay_case).c_str(), esc(msg).c_str());
    fflush(out());
}
inline bool enough() { return S().viol_keys.size() >= S().max_viol; }

// The case that is running, for reporting a crash or a hang inside the code under test.
struct current_case { char text[4000]; volatile ull serial; };
inline current_case& C() { static current_case c; return c; }
inline void current(const std::string& c)
{
    size_t n = c.size() < sizeof(C().text) - 1 ? c.size() : sizeof(C().text) - 1;
    memcpy(C().text, c.data(), n);
    C().text[n] = 0;
    C().serial = C().serial + 1;
}
inline void tick() { C().serial = C().serial + 1; }
inline void fatal(const char* key, const char* msg)
{
    fprintf(out(), "VIOL %s\t%s\t%s\n", key, esc(C().text).c_str(), msg);
    fflush(out());
    TerminateProcess(GetCurrentProcess(), 7);
}
inline LONG WINAPI on_exception(EXCEPTION_POINTERS* p)
{
    char b[120];
    sprintf(b, "the code under test crashed: exception %08x", (unsigned)p->ExceptionRecord->ExceptionCode);
    fatal("crash", b);
    return EXCEPTION_EXECUTE_HANDLER;
}
inline DWORD WINAPI watchdog(void*)
{
    ull last = C().serial;
    int idle = 0;
    const char* e = getenv("MC_HANG");
    const int limit = e ? atoi(e) : 60;
    while (true)
    {
        SleepEx(1000, false);
        if (C().serial != last) { last = C().serial; idle = 0; }
        else if (last && ++idle >= limit) fatal("hang", "the code under test does not finish");
    }
}
inline void guard()
{
    SetErrorMode(SEM_FAILCRITICALERRORS|SEM_NOGPFAULTERRORBOX|SEM_NOOPENFILEERRORBOX);
    SetUnhandledExceptionFilter(on_exception);
    CloseHandle(CreateThread(nullptr, 0, watchdog, nullptr, 0, nullptr));
}

inline void init(int argc, char** argv)
{
    guard();
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--tier" && i + 1 < argc) S().thorough = !strcmp(argv[++i], "thorough");
        else if (a == "--shard" && i + 2 < argc) { S().shard = atoi(argv[i + 1]); S().nshards = atoi(argv[i + 2]); i += 2; }
        else if (a == "--replay" && i + 1 < argc) { S().replaying = true; S().replay = unesc(argv[++i]); }
        else if (a == "--replay-file" && i + 1 < argc)
        {
            S().replaying = true;
            FILE* f = fopen(argv[++i], "rb");
            std::string t; int c;
            while (f && (c = fgetc(f)) != EOF) t += char(c);
            if (f) fclose(f);
            while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
            S().replay = unesc(t);
        }
        else S().extra.push_back(a);
    }
}
inline int done()
{
    for (auto& s : S().stats) fprintf(out(), "STAT %s %llu\n", s.first.c_str(), s.second);
    for (auto& s : S().samples) fprintf(out(), "SAMPLE %s\n", esc(s).c_str());
    fprintf(out(), "DONE\n");
    fflush(out());
    return 0;
}

inline ull hash(const void* p, size_t n, ull h = 1469598103934665603ull)
{
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline ull hash(const std::string& s, ull h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

inline std::vector<std::string> split(const std::string& s, char sep)
{
    std::vector<std::string> out;
    std::string cur;
    for (char c : s) if (c == sep) { out.push_back(cur); cur.clear(); } else cur += c;
    out.push_back(cur);
    return out;
}
inline std::string join(const std::vector<std::string>& v, const char* sep)
{
    std::string out;
    for (size_t i = 0; i < v.size(); ++i) { if (i) out += sep; out += v[i]; }
    return out;
}

} // namespace mc
