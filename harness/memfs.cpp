#include "memfs.h"
#include <algorithm>
#include <time.h>

namespace memfs {

#define DEAD(ret) if (g_dead) { SetLastError(ERROR_GEN_FAILURE); return ret; }

template <typename F> static F* real(const char* name) { return (F*)GetProcAddress(GetModuleHandleA("kernel32"), name); }
#define REAL(name) real<decltype(name)>(#name)

std::map<std::string, std::shared_ptr<file>> g_files;
std::vector<std::unique_ptr<handle>> g_handles;
int g_owner;
unsigned long long g_calls, g_errors;
bool g_dead;
unsigned g_now = 1700000000;
void (*g_point)(char, const char*, file*);
bool (*g_wait)(file*);
void (*g_unlocked)();

static std::string canon(LPCWSTR w)
{
    std::string s;
    for (; *w; ++w)
    {
        wchar_t c = *w;
        if (c == '/') c = '\\';
        if (c >= 'A' && c <= 'Z') c += 32;
        s += char(c);
    }
    return s;
}
static void point(char kind, const char* what, file* f)
{
    ++g_calls;
    if (g_point) g_point(kind, what, f);
}
static bool fail(DWORD err)
{
    if (err == ERROR_SHARING_VIOLATION || err == ERROR_LOCK_VIOLATION) ++g_errors;
    SetLastError(err);
    return false;
}
static handle* as_handle(HANDLE h)
{
    for (auto& x : g_handles) if (x.get() == (handle*)h) return x.get();
    return nullptr;
}
static const DWORD c_any_read = GENERIC_READ|FILE_READ_DATA, c_any_write = GENERIC_WRITE|FILE_WRITE_DATA|FILE_APPEND_DATA;
static bool counted(const handle* h) { return (h->access & (c_any_read|c_any_write|DELETE)) != 0; }
static bool share_ok(file* f, DWORD access, DWORD share)
{
    if (!(access & (c_any_read|c_any_write|DELETE))) return true;
    for (handle* o : f->open)
    {
        if (!counted(o)) continue;
        if ((access & c_any_read) && !(o->share & FILE_SHARE_READ)) return false;
        if ((access & c_any_write) && !(o->share & FILE_SHARE_WRITE)) return false;
        if ((access & DELETE) && !(o->share & FILE_SHARE_DELETE)) return false;
        if ((o->access & c_any_read) && !(share & FILE_SHARE_READ)) return false;
        if ((o->access & c_any_write) && !(share & FILE_SHARE_WRITE)) return false;
        if ((o->access & DELETE) && !(share & FILE_SHARE_DELETE)) return false;
    }
    return true;
}
static void remove_name(file* f)
{
    auto i = g_files.find(f->name);
    if (i != g_files.end() && i->second.get() == f) g_files.erase(i);
    f->exists = false;
}
static void close_handle(handle* h, bool power_loss = false)
{
    if (h->f)
    {
        file* f = h->f.get();
        f->locks.erase(std::remove_if(f->locks.begin(), f->locks.end(), [&](file::lock& l) { return l.h == h; }), f->locks.end());
        f->open.erase(std::remove(f->open.begin(), f->open.end(), h), f->open.end());
        if (h->delete_on_close && !power_loss) f->delete_on_close = true;
        if (f->open.empty() && f->delete_on_close) remove_name(f);
    }
    for (auto i = g_handles.begin(); i != g_handles.end(); ++i)
        if (i->get() == h) { g_handles.erase(i); break; }
    if (g_unlocked) g_unlocked();
}

void reset()
{
    g_handles.clear();
    g_files.clear();
    g_owner = 0;
    g_now = 1700000000;
}
void put(const char* name, const std::string& data)
{
    auto f = std::make_shared<file>();
    for (const char* p = name; *p; ++p) f->name += char(*p >= 'A' && *p <= 'Z' ? *p + 32 : *p);
    f->data = data;
    g_files[f->name] = f;
}
bool get(const char* name, std::string& data)
{
    auto i = g_files.find(name);
    if (i == g_files.end()) return false;
    data = i->second->data;
    return true;
}
void end_process(int owner, bool power_loss)
{
    std::vector<handle*> mine;
    for (auto& h : g_handles) if (h->owner == owner) mine.push_back(h.get());
    for (handle* h : mine) close_handle(h, power_loss);
}
size_t open_handles() { return g_handles.size(); }
bool held_by(int owner)
{
    for (auto& h : g_handles) if (h->owner == owner) return true;
    return false;
}
bool any_locks()
{
    for (auto& f : g_files) if (!f.second->locks.empty()) return true;
    return false;
}

//------------------------------------------------------------------------------

static HANDLE WINAPI x_CreateFileW(LPCWSTR wname, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD disp, DWORD flags, HANDLE)
{
    DEAD(INVALID_HANDLE_VALUE);
    std::string name = canon(wname);
    auto i = g_files.find(name);
    point(disp == OPEN_EXISTING ? 'r' : 'w', "CreateFile", i == g_files.end() ? nullptr : i->second.get()); DEAD(INVALID_HANDLE_VALUE);
    i = g_files.find(name);
    if (flags & FILE_FLAG_DELETE_ON_CLOSE) access |= DELETE;
    std::shared_ptr<file> f;
    if (i != g_files.end())
    {
        f = i->second;
        if (disp == CREATE_NEW) { fail(ERROR_FILE_EXISTS); return INVALID_HANDLE_VALUE; }
        DWORD need = access | ((disp == CREATE_ALWAYS || disp == TRUNCATE_EXISTING) ? FILE_WRITE_DATA : 0);
        if (!share_ok(f.get(), need, share)) { fail(ERROR_SHARING_VIOLATION); return INVALID_HANDLE_VALUE; }
        if (disp == CREATE_ALWAYS || disp == TRUNCATE_EXISTING) f->data.clear();
        SetLastError(disp == OPEN_EXISTING ? 0 : ERROR_ALREADY_EXISTS);
    }
    else
    {
        if (disp == OPEN_EXISTING || disp == TRUNCATE_EXISTING) { fail(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
        f = std::make_shared<file>();
        f->name = name;
        if (flags & FILE_ATTRIBUTE_HIDDEN) f->attr = FILE_ATTRIBUTE_HIDDEN;
        g_files[name] = f;
        SetLastError(0);
    }
    std::unique_ptr<handle> h(new handle);
    h->f = f;
    h->access = access;
    h->share = share;
    h->delete_on_close = !!(flags & FILE_FLAG_DELETE_ON_CLOSE);
    h->owner = g_owner;
    f->open.push_back(h.get());
    g_handles.push_back(std::move(h));
    return g_handles.back().get();
}
static BOOL WINAPI x_CloseHandle(HANDLE hh)
{
    DEAD(true);
    handle* h = as_handle(hh);
    if (!h) return REAL(CloseHandle)(hh);
    point('w', "CloseHandle", h->f.get()); DEAD(true);
    close_handle(h);
    return true;
}
static BOOL WINAPI x_ReadFile(HANDLE hh, LPVOID buf, DWORD n, LPDWORD got, LPOVERLAPPED)
{
    DEAD(false);
    handle* h = as_handle(hh);
    if (!h) return REAL(ReadFile)(hh, buf, n, got, nullptr);
    point('r', "ReadFile", h->f.get()); DEAD(false);
    if (got) *got = 0;
    for (auto& l : h->f->locks) if (l.exclusive && l.h != h) return fail(ERROR_LOCK_VIOLATION);
    if (!(h->access & c_any_read)) return fail(ERROR_ACCESS_DENIED);
    size_t len = h->f->data.size();
    size_t take = h->pos >= len ? 0 : std::min<size_t>(n, len - h->pos);
    memcpy(buf, h->f->data.data() + (take ? h->pos : 0), take);
    h->pos += take;
    if (got) *got = DWORD(take);
    return true;
}
static BOOL WINAPI x_WriteFile(HANDLE hh, LPCVOID buf, DWORD n, LPDWORD put, LPOVERLAPPED)
{
    DEAD(false);
    handle* h = as_handle(hh);
    if (!h) return REAL(WriteFile)(hh, buf, n, put, nullptr);
    point('w', "WriteFile", h->f.get()); DEAD(false);
    if (put) *put = 0;
    if (!(h->access & c_any_write)) return fail(ERROR_ACCESS_DENIED);
    if (!n) return true;
    for (auto& l : h->f->locks) if (!l.exclusive || l.h != h) return fail(ERROR_LOCK_VIOLATION);
    std::string& d = h->f->data;
    if (d.size() < h->pos + n) d.resize(h->pos + n);
    memcpy(&d[h->pos], buf, n);
    h->pos += n;
    if (put) *put = n;
    return true;
}
static DWORD WINAPI x_SetFilePointer(HANDLE hh, LONG lo, PLONG hi, DWORD how)
{
    DEAD(INVALID_SET_FILE_POINTER);
    handle* h = as_handle(hh);
    if (!h) return REAL(SetFilePointer)(hh, lo, hi, how);
    // The pointer belongs to the handle; but FILE_END reads the size, which others can change.
    if (how == FILE_END) { point('r', "SetFilePointer", h->f.get()); DEAD(INVALID_SET_FILE_POINTER); }
    long long base = how == FILE_BEGIN ? 0 : how == FILE_CURRENT ? (long long)h->pos : (long long)h->f->data.size();
    long long off = how == FILE_BEGIN ? (long long)(unsigned)lo : (long long)lo;
    if (base + off < 0) { fail(ERROR_NEGATIVE_SEEK); return INVALID_SET_FILE_POINTER; }
    h->pos = size_t(base + off);
    SetLastError(0);
    return DWORD(h->pos);
}
static BOOL WINAPI x_SetEndOfFile(HANDLE hh)
{
    DEAD(false);
    handle* h = as_handle(hh);
    if (!h) return REAL(SetEndOfFile)(hh);
    point('w', "SetEndOfFile", h->f.get()); DEAD(false);
    if (!(h->access & c_any_write)) return fail(ERROR_ACCESS_DENIED);
    h->f->data.resize(h->pos);
    return true;
}
static DWORD WINAPI x_GetFileSize(HANDLE hh, LPDWORD hi)
{
    DEAD(INVALID_FILE_SIZE);
    handle* h = as_handle(hh);
    if (!h) return REAL(GetFileSize)(hh, hi);
    point('r', "GetFileSize", h->f.get()); DEAD(INVALID_FILE_SIZE);
    if (hi) *hi = 0;
    SetLastError(0);
    return DWORD(h->f->data.size());
}
static BOOL WINAPI x_FlushFileBuffers(HANDLE hh)
{
    if (!as_handle(hh)) return REAL(FlushFileBuffers)(hh);
    return true;
}
static BOOL WINAPI x_LockFileEx(HANDLE hh, DWORD flags, DWORD, DWORD, DWORD, LPOVERLAPPED)
{
    DEAD(false);
    handle* h = as_handle(hh);
    if (!h) return fail(ERROR_INVALID_HANDLE);
    point('w', "LockFileEx", h->f.get()); DEAD(false);
    const bool excl = !!(flags & LOCKFILE_EXCLUSIVE_LOCK);
    std::shared_ptr<file> f = h->f;
    while (true)
    {
        bool busy = false;
        for (auto& l : f->locks) busy |= (excl || l.exclusive);
        if (!busy) break;
        if (flags & LOCKFILE_FAIL_IMMEDIATELY) return fail(ERROR_LOCK_VIOLATION);
        if (!g_wait || !g_wait(f.get())) return fail(ERROR_POSSIBLE_DEADLOCK);
    }
    f->locks.push_back({ h, excl });
    return true;
}
static BOOL WINAPI x_UnlockFileEx(HANDLE hh, DWORD, DWORD, DWORD, LPOVERLAPPED)
{
    DEAD(false);
    handle* h = as_handle(hh);
    if (!h) return fail(ERROR_INVALID_HANDLE);
    point('w', "UnlockFileEx", h->f.get()); DEAD(false);
    for (auto i = h->f->locks.begin(); i != h->f->locks.end(); ++i)
        if (i->h == h) { h->f->locks.erase(i); if (g_unlocked) g_unlocked(); return true; }
    return fail(ERROR_NOT_LOCKED);
}
static DWORD WINAPI x_GetFinalPathNameByHandleA(HANDLE hh, LPSTR out, DWORD n, DWORD)
{
    handle* h = as_handle(hh);
    if (!h) return 0;
    if (h->f->name.size() + 1 > n) return DWORD(h->f->name.size() + 1);
    strcpy(out, h->f->name.c_str());
    return DWORD(h->f->name.size());
}
static BOOL WINAPI x_DeleteFileW(LPCWSTR wname)
{
    DEAD(false);
    std::string name = canon(wname);
    auto i = g_files.find(name);
    point('w', "DeleteFile", i == g_files.end() ? nullptr : i->second.get()); DEAD(false);
    i = g_files.find(name);
    if (i == g_files.end()) return fail(ERROR_FILE_NOT_FOUND);
    if (!share_ok(i->second.get(), DELETE, FILE_SHARE_READ|FILE_SHARE_WRITE|FILE_SHARE_DELETE)) return fail(ERROR_SHARING_VIOLATION);
    std::shared_ptr<file> f = i->second;
    if (f->open.empty()) remove_name(f.get());
    else f->delete_on_close = true;
    return true;
}
static BOOL do_move(LPCWSTR from, LPCWSTR to, bool replace)
{
    std::string a = canon(from), b = canon(to);
    auto i = g_files.find(a);
    point('w', "MoveFile", i == g_files.end() ? nullptr : i->second.get()); DEAD(false);
    i = g_files.find(a);
    if (i == g_files.end()) return fail(ERROR_FILE_NOT_FOUND);
    auto j = g_files.find(b);
    if (!share_ok(i->second.get(), DELETE, FILE_SHARE_READ|FILE_SHARE_WRITE|FILE_SHARE_DELETE)) return fail(ERROR_SHARING_VIOLATION);
    if (j != g_files.end() && j->second != i->second)
    {
        if (!replace) return fail(ERROR_ALREADY_EXISTS);
        if (!share_ok(j->second.get(), DELETE, FILE_SHARE_READ|FILE_SHARE_WRITE|FILE_SHARE_DELETE)) return fail(ERROR_ACCESS_DENIED);
        std::shared_ptr<file> g = j->second;
        remove_name(g.get());
    }
    std::shared_ptr<file> f = g_files[a];
    g_files.erase(a);
    f->name = b;
    g_files[b] = f;
    return true;
}
static BOOL WINAPI x_MoveFileW(LPCWSTR a, LPCWSTR b) { return do_move(a, b, false); }
static BOOL WINAPI x_MoveFileExW(LPCWSTR a, LPCWSTR b, DWORD flags) { return do_move(a, b, !!(flags & MOVEFILE_REPLACE_EXISTING)); }
static DWORD WINAPI x_GetFileAttributesW(LPCWSTR wname)
{
    DEAD(INVALID_FILE_ATTRIBUTES);
    std::string name = canon(wname);
    point('r', "GetFileAttributes", nullptr); DEAD(INVALID_FILE_ATTRIBUTES);
    auto i = g_files.find(name);
    if (i == g_files.end()) { fail(ERROR_FILE_NOT_FOUND); return INVALID_FILE_ATTRIBUTES; }
    return i->second->attr;
}
static bool wild(const char* p, const char* s)
{
    for (; *p; ++p, ++s)
    {
        if (*p == '*')
        {
            for (const char* t = s;; ++t) { if (wild(p + 1, t)) return true; if (!*t) return false; }
        }
        if (!*s || (*p != '?' && *p != *s)) return false;
    }
    return !*s;
}
static void fill(WIN32_FIND_DATAW* d, const std::string& name)
{
    memset(d, 0, sizeof(*d));
    size_t b = name.rfind('\\');
    size_t k = 0;
    for (size_t i = (b == std::string::npos ? 0 : b + 1); i < name.size(); ++i) d->cFileName[k++] = (unsigned char)name[i];
    auto f = g_files.find(name);
    d->dwFileAttributes = f == g_files.end() ? FILE_ATTRIBUTE_NORMAL : f->second->attr;
    d->nFileSizeLow = f == g_files.end() ? 0 : DWORD(f->second->data.size());
}
static HANDLE WINAPI x_FindFirstFileW(LPCWSTR pattern, LPWIN32_FIND_DATAW d)
{
    DEAD(INVALID_HANDLE_VALUE);
    point('r', "FindFirstFile", nullptr); DEAD(INVALID_HANDLE_VALUE);
    std::string pat = canon(pattern);
    size_t b = pat.rfind('\\');
    std::string dir = b == std::string::npos ? "" : pat.substr(0, b + 1);
    std::string mask = b == std::string::npos ? pat : pat.substr(b + 1);
    std::unique_ptr<handle> h(new handle);
    h->finding = true;
    h->owner = g_owner;
    for (auto& f : g_files)
    {
        const std::string& n = f.first;
        if (n.size() <= dir.size() || n.compare(0, dir.size(), dir) || n.find('\\', dir.size()) != std::string::npos) continue;
        if (wild(mask.c_str(), n.c_str() + dir.size())) h->found.push_back(n);
    }
    if (h->found.empty()) { fail(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    fill(d, h->found[0]);
    h->next = 1;
    g_handles.push_back(std::move(h));
    return g_handles.back().get();
}
static BOOL WINAPI x_FindNextFileW(HANDLE hh, LPWIN32_FIND_DATAW d)
{
    DEAD(false);
    handle* h = as_handle(hh);
    if (!h || h->next >= h->found.size()) return fail(ERROR_NO_MORE_FILES);
    fill(d, h->found[h->next++]);
    return true;
}
static BOOL WINAPI x_FindClose(HANDLE hh)
{
    DEAD(true);
    handle* h = as_handle(hh);
    if (h) close_handle(h);
    return true;
}
static DWORD WINAPI x_GetTickCount() { return g_now; }
static __time64_t __cdecl x_time64(__time64_t* t) { if (t) *t = g_now; return g_now; }
static DWORD WINAPI x_GetProcessId(HANDLE) { return 1000 + g_owner; }

} // namespace memfs

#define IMP(name) extern "C" void* __imp_##name = (void*)memfs::x_##name;
IMP(CreateFileW) IMP(WriteFile) IMP(SetFilePointer) IMP(SetEndOfFile) IMP(GetFileSize)
IMP(FlushFileBuffers) IMP(LockFileEx) IMP(UnlockFileEx) IMP(GetFinalPathNameByHandleA) IMP(DeleteFileW) IMP(MoveFileW)
IMP(MoveFileExW) IMP(GetFileAttributesW) IMP(FindFirstFileW) IMP(FindNextFileW) IMP(FindClose) IMP(GetTickCount) IMP(GetProcessId)
extern "C" void* __imp__time64 = (void*)memfs::x_time64;
extern "C" void* __imp_CloseHandle = (void*)memfs::x_CloseHandle;
extern "C" void* __imp_ReadFile = (void*)memfs::x_ReadFile;
