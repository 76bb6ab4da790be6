// An in-memory file system that stands in for the Win32 file API, for one harness.
//
// The clink sources call the API through the import table (__imp_X), which the harness defines, so
// nothing here touches a real file.  Modelled: share modes, byte-range locks (whole file, shared or
// exclusive, mandatory), delete on close, file pointers, directories as path prefixes, and the
// closing of a terminated process's handles.  Every call first goes through memfs::point(), where an
// explorer can switch to another session or end the calling one.
#pragma once
#define WIN32_LEAN_AND_MEAN
#define NOMINMAX
#include <Windows.h>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace memfs {

struct handle;
struct file
{
    std::string name;           // Lowercase full path.
    std::string data;
    bool exists = true;
    bool delete_on_close = false;
    DWORD attr = FILE_ATTRIBUTE_NORMAL;
    std::vector<handle*> open;
    struct lock { handle* h; bool exclusive; };
    std::vector<lock> locks;
};
struct handle
{
    std::shared_ptr<file> f;
    DWORD access = 0, share = 0;
    size_t pos = 0;
    bool delete_on_close = false;
    int owner = 0;              // Which simulated process.
    bool finding = false;
    std::vector<std::string> found;
    size_t next = 0;
};

extern std::map<std::string, std::shared_ptr<file>> g_files;
extern std::vector<std::unique_ptr<handle>> g_handles;
extern int g_owner;                     // The simulated process that is running.
extern unsigned long long g_calls;
extern unsigned long long g_errors;     // Calls that failed because of sharing or locks.
extern bool g_dead;                      // Every call fails (for taking a killed session's objects apart).
extern unsigned g_now;                  // time() and GetTickCount().

// The explorer's hook: called before each call.  kind is 'r' (cannot change anything others can
// see), 'w' (changes a file or a lock).
extern void (*g_point)(char kind, const char* what, file* f);
// Called when a lock must wait; returns false if it can never be granted (deadlock).
extern bool (*g_wait)(file* f);
extern void (*g_unlocked)();             // A lock was released.

void reset();
void put(const char* name, const std::string& data);
bool get(const char* name, std::string& data);
void end_process(int owner, bool power_loss = false);   // Close all handles of a process.
size_t open_handles();
bool held_by(int owner);
bool any_locks();

} // namespace memfs
