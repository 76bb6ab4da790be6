// A controlled scheduler for code with threads: every thread is a fiber of one OS thread, and mutexes,
// events, waits, sleeps and thread creation are stand-ins that are scheduling points.
//   - a schedule is the list of points at which another thread goes on instead (a preemption); at a
//     wait with a timeout the alternative is that it times out at once;
//   - a thread that can't go on gives way to the others for free.
// Link with --wrap of pthread_mutex_lock/unlock/trylock, pthread_create, pthread_join.
#pragma once
#include "mc.h"
#include <pthread.h>
#include <time.h>
#include <deque>

namespace sched {
using std::vector;

struct event { bool manual, set; };
struct mutex { int owner = -1, count = 0; };
enum class why { ready, mutex_, event_, join_ };
struct thread
{
    void* fiber = nullptr;
    bool done = false;
    why blocked = why::ready;
    const void* on = nullptr;               // What it waits for.
    bool timed = false;                     // The wait has a timeout.
    bool timed_out = false;
    void* (*start)(void*) = nullptr;
    void* arg = nullptr;
};
inline vector<thread>& T() { static vector<thread> t; return t; }
inline int& cur() { static int c = 0; return c; }
inline bool& active() { static bool a = false; return a; }
inline DWORD& os_thread() { static DWORD t = 0; return t; }
inline std::map<const void*, mutex>& mutexes() { static std::map<const void*, mutex> m; return m; }
inline std::set<event*>& events() { static std::set<event*> e; return e; }
// The schedule, and what was possible.
inline vector<int>& preempt() { static vector<int> p; return p; }
inline vector<char>& can() { static vector<char> c; return c; }
inline bool& deadlock() { static bool d = false; return d; }
inline unsigned& steps() { static unsigned s = 0; return s; }
inline unsigned& serial() { static unsigned s = 0; return s; }   // Counts what changes something that could be waited for.
static const unsigned c_max_steps = 20000;

inline bool here() { return os_thread() == GetCurrentThreadId() && !T().empty(); }
inline bool can_run(const thread& t)
{
    if (t.done || !t.fiber) return false;
    switch (t.blocked)
    {
    case why::ready: return true;
    case why::mutex_: return mutexes()[t.on].owner < 0;
    case why::event_: return ((event*)t.on)->set;
    case why::join_: return T()[intptr_t(t.on)].done;
    }
    return false;
}
inline int other(int me)
{
    for (size_t k = 1; k < T().size(); ++k)
    {
        int i = int((me + k) % T().size());
        if (i != me && can_run(T()[i])) return i;
    }
    return -1;
}
// Someone whose wait can time out.
inline int waiting(int me)
{
    for (size_t i = 0; i < T().size(); ++i)
        if (int(i) != me && !T()[i].done && T()[i].fiber && T()[i].blocked == why::event_ && T()[i].timed) return int(i);
    return -1;
}
inline void go(int to)
{
    cur() = to;
    SwitchToFiber(T()[to].fiber);
}
inline bool chosen()
{
    const int n = int(can().size()) - 1;
    for (int p : preempt()) if (p == n) return true;
    return false;
}
// What to do when a schedule never ends.
inline std::function<void()>& runaway() { static std::function<void()> f; return f; }
inline unsigned& operations() { static unsigned n = 0; return n; }
inline void count_operation() { if (++operations() > 50 * c_max_steps && runaway()) { auto f = runaway(); runaway() = nullptr; f(); } }
// Before each operation that other threads can see.
inline void point()
{
    count_operation();
    if (!active() || !here()) return;
    ++steps();
    const int me = cur(), o = other(me);
    const int w = o < 0 ? waiting(me) : -1;
    can().push_back(o >= 0 || w >= 0);
    if (o >= 0 && (chosen() || steps() > c_max_steps)) go(o);
    else if (w >= 0 && chosen()) { T()[w].timed_out = true; T()[w].blocked = why::ready; go(w); }
}
// Waits until w; true: it is so, false: timed out (or nobody can ever make it so).
inline bool block(why w, const void* on, bool timed)
{
    const int me = cur();
    thread& t0 = T()[me];
    t0.blocked = w; t0.on = on; t0.timed = timed; t0.timed_out = false;
    while (!can_run(T()[me]))
    {
        int o = other(me);
        if (o < 0)
        {
            // Nobody can go on: whoever waits with a timeout times out (this one first).
            if (!timed)
                for (size_t i = 0; i < T().size(); ++i)
                    if (!T()[i].done && T()[i].fiber && T()[i].blocked == why::event_ && T()[i].timed) { T()[i].timed_out = true; T()[i].blocked = why::ready; o = int(i); break; }
            if (o < 0 && timed) { T()[me].blocked = why::ready; return false; }
            // The first thread is where the harness can end the run.
            if (o < 0) { deadlock() = true; if (me == 0) { T()[me].blocked = why::ready; return false; } T()[0].blocked = why::ready; o = 0; }
        }
        go(o);
        if (T()[me].timed_out) { T()[me].timed_out = false; return false; }
        if (deadlock() && me == 0) { T()[me].blocked = why::ready; return false; }
    }
    T()[me].blocked = why::ready;
    return true;
}
// Whether anything but this thread can go on (for the harness: has everything settled?).
inline bool settled() { return other(cur()) < 0; }
inline void yield_to_others()
{
    int me = cur(), o = other(me);
    if (o >= 0) go(o);
}

//------------------------------------------------------------------------------
inline bool lock(const void* m)
{
    if (!here()) return true;
    const int me = cur();
    mutex& x = mutexes()[m];
    if (x.owner == me) { ++x.count; return true; }
    point();
    if (mutexes()[m].owner >= 0 && !block(why::mutex_, m, false)) return false;
    mutexes()[m] = mutex();
    mutexes()[m].owner = me; mutexes()[m].count = 1;
    return true;
}
inline void unlock(const void* m)
{
    if (!here()) return;
    mutex& x = mutexes()[m];
    if (x.owner != cur()) return;
    if (!--x.count) { x.owner = -1; ++serial(); point(); }
}

template <typename F> inline F real(const char* name) { return F(GetProcAddress(GetModuleHandleA("kernel32.dll"), name)); }
inline HANDLE WINAPI create_event(LPSECURITY_ATTRIBUTES, BOOL manual, BOOL initial, LPCWSTR)
{
    event* e = new event { !!manual, !!initial };
    events().insert(e);
    return HANDLE(e);
}
inline HANDLE WINAPI create_event_a(LPSECURITY_ATTRIBUTES a, BOOL manual, BOOL initial, LPCSTR) { return create_event(a, manual, initial, nullptr); }
inline BOOL WINAPI set_event(HANDLE h) { point(); if (events().count((event*)h)) { ((event*)h)->set = true; ++serial(); return true; } static auto f = real<BOOL (WINAPI*)(HANDLE)>("SetEvent"); return f(h); }
inline BOOL WINAPI reset_event(HANDLE h) { point(); if (events().count((event*)h)) { ((event*)h)->set = false; return true; } static auto f = real<BOOL (WINAPI*)(HANDLE)>("ResetEvent"); return f(h); }
inline BOOL WINAPI close_handle(HANDLE h) { if (events().count((event*)h)) { events().erase((event*)h); delete (event*)h; return true; } static auto f = real<BOOL (WINAPI*)(HANDLE)>("CloseHandle"); return f(h); }
inline DWORD WINAPI wait_single(HANDLE h, DWORD timeout)
{
    count_operation();
    event* e = (event*)h;
    if (!events().count(e)) { static auto f = real<DWORD (WINAPI*)(HANDLE, DWORD)>("WaitForSingleObject"); return f(h, timeout); }
    if (active() && here())
    {
        ++steps();
        const int me = cur(), o = other(me);
        const bool quit = timeout != INFINITE;
        // Alternatives: another thread first; with a timeout, timing out although others could go on.
        can().push_back(o >= 0);
        if (o >= 0 && chosen()) go(o);
        if (quit && timeout && !e->set)
        {
            can().push_back(1);
            if (chosen()) return WAIT_TIMEOUT;
        }
        // Someone who waits again and again for what is already so must let others go on.
        static unsigned last_serial, again;
        if (e->set && e->manual) { if (last_serial == serial()) { if (++again > 2) { again = 0; yield_to_others(); } } else { last_serial = serial(); again = 0; } }
    }
    if (!e->set)
    {
        if (!timeout || !here()) return WAIT_TIMEOUT;
        if (!block(why::event_, e, timeout != INFINITE)) return WAIT_TIMEOUT;
    }
    if (!e->manual) e->set = false;
    return WAIT_OBJECT_0;
}
inline VOID WINAPI sleep(DWORD t) { if (here()) { point(); } else { static auto f = real<VOID (WINAPI*)(DWORD)>("Sleep"); f(t); } }
inline DWORD& ticks() { static DWORD t = 1000; return t; }
// Time stands still, unless someone looks at the clock forever.
inline unsigned& looks() { static unsigned n = 0; return n; }
static const unsigned c_max_looks = 5000;
inline DWORD WINAPI get_ticks() { if (++looks() > c_max_looks) ticks() += 100; return ticks(); }

inline void CALLBACK thread_main(void* p)
{
    const int me = int(intptr_t(p));
    T()[me].start(T()[me].arg);
    T()[me].done = true;
    while (true)
    {
        int o = other(me);
        if (o < 0) { deadlock() = true; T()[0].blocked = why::ready; o = 0; }
        go(o);
    }
}
inline void start()
{
    os_thread() = GetCurrentThreadId();
    T().reserve(16);
    T().emplace_back();
    T()[0].fiber = ConvertThreadToFiber(nullptr);
    cur() = 0;
}
inline int create(void* (*fn)(void*), void* arg)
{
    T().emplace_back();
    thread& t = T().back();
    t.start = fn; t.arg = arg;
    t.fiber = CreateFiber(1 << 20, thread_main, (void*)intptr_t(T().size() - 1));
    return int(T().size()) - 1;
}
inline void begin_schedule(const vector<int>& p)
{
    preempt() = p; can().clear(); deadlock() = false; steps() = 0; looks() = 0; operations() = 0; active() = true;
}
inline void end_schedule() { active() = false; }

// Explores every schedule with at most bound preemptions; run executes once from the start and
// returns what failed (empty: nothing).  Returns the first failure and its schedule.
inline std::string explore(int bound, const std::function<std::string(const vector<int>&)>& run, vector<int>& failed)
{
    vector<vector<int>> work { {} };
    while (!work.empty())
    {
        vector<int> p = work.back();
        work.pop_back();
        std::string r = run(p);
        if (!r.empty()) { failed = p; return r; }
        if (int(p.size()) < bound)
        {
            vector<char> c = can();
            for (int q = p.empty() ? 0 : p.back() + 1; q < int(c.size()); ++q)
                if (c[q]) { p.push_back(q); work.push_back(p); p.pop_back(); }
        }
    }
    return "";
}
} // namespace sched

extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return sched::lock(m) ? 0 : 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { sched::point(); auto& x = sched::mutexes()[m]; if (x.owner >= 0 && x.owner != sched::cur()) return 16; return sched::lock(m) ? 0 : 16; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { sched::unlock(m); return 0; }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) { sched::point(); *t = pthread_t(sched::create(fn, arg)); return 0; }
int __wrap_pthread_join(pthread_t t, void**) { sched::point(); if (!sched::T()[t].done) sched::block(sched::why::join_, (void*)intptr_t(t), false); return 0; }
int __wrap_pthread_detach(pthread_t) { return 0; }
void* __imp_CreateEventW = (void*)sched::create_event;
void* __imp_CreateEventA = (void*)sched::create_event_a;
void* __imp_SetEvent = (void*)sched::set_event;
void* __imp_ResetEvent = (void*)sched::reset_event;
void* __imp_CloseHandle = (void*)sched::close_handle;
void* __imp_WaitForSingleObject = (void*)sched::wait_single;
void* __imp_Sleep = (void*)sched::sleep;
void* __imp_GetTickCount = (void*)sched::get_ticks;
}
