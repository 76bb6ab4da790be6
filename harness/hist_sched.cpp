// Two sessions use one history at the same time.
//   --mode sched   every interleaving (up to a number of preemptions) of the file-system calls of two
//                  overlapping operations; the outcome must be one that some interleaving of the
//                  operations' atomic steps can give, and nothing may deadlock.
//   --mode crash   a session's process ends before each of its file-system calls; what the others
//                  and later sessions see must be what some prefix of the operation's steps leaves.
#include "memfs.h"
#include "hist_micro.h"
#include <core/base.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <core/settings.h>
#include <lib/history_db.h>
#include <memory>

using std::string;
using std::vector;
using micro::op;

static const char* c_path = "c:\\h\\clink_history";
static bool g_crash_mode;

static void set_opt(const char* name, const char* value)
{
    setting* s = settings::find(name);
    if (!s) { printf("no setting %s\n", name); exit(2); }
    s->set(value);
}
struct config { int mode, dupe; };
static bool is_shared(const config& c, int s) { return c.mode == 1 || (c.mode == 2 && s == 1); }
static string show(const op& o) { char b[20]; sprintf(b, "%c%d%d", o.what, o.s, o.arg); return b; }
static string show(const vector<op>& v) { string t; for (auto& o : v) { if (!t.empty()) t += ' '; t += show(o); } return t; }
static vector<op> parse(const string& t)
{
    vector<op> v;
    for (auto& w : mc::split(t, ' ')) if (w.size() == 3) v.push_back({ w[0], w[1] - '0', w[2] - '0' });
    return v;
}

static std::unique_ptr<history_db> g_db[3];
static config g_cfg;

static void configure(const config& c)
{
    g_cfg = c;
    set_opt("history.dupe_mode", c.dupe == 0 ? "add" : c.dupe == 1 ? "ignore" : "erase_prev");
    set_opt("history.max_lines", "2");
    set_opt("history.time_stamp", "off");
}
static void run_real(const op& o)
{
    memfs::g_owner = o.s;
    auto& d = g_db[o.s];
    switch (o.what)
    {
    case 'o':
        {
            set_opt("history.shared", is_shared(g_cfg, o.s) ? "true" : "false");
            history_db* n = new history_db(c_path, o.s, true);
            d.reset(n);
            // The setting is global but belongs to the session that is being opened; it is read
            // after the first file-system calls, so put it back after every switch (see resume).
            n->initialise();
        }
        break;
    case 'c': d.reset(); break;
    case 'k':
        memfs::end_process(o.s);
        memfs::g_dead = true; d.reset(); memfs::g_dead = false;
        break;
    case 'a': d->add(micro::c_texts[o.arg]); break;
    case 'r': d->remove(micro::c_texts[o.arg]); break;
    case 'l': d->load_rl_history(false); break;
    case 'p': d->load_rl_history(true); break;
    case 'i': d->remove(o.arg, ""); break;
    case 'x': d->clear(); break;
    case 'g': case 'q': d->compact(true, o.what == 'q', o.arg); break;
    }
}
static string read_real(int k)
{
    memfs::g_owner = k;
    string t;
    static char buffer[2048];
    str_iter out;
    history_db::iter i = g_db[k]->read_lines(buffer);
    while (i.next(out)) t += "[" + string(out.get_pointer(), out.length()) + "]";
    return t;
}
// What can be seen afterwards: each open session's lines, then what is there once all are closed.
static string outcome_real(bool alive[3])
{
    string t;
    for (int k = 1; k <= 2; ++k) t += alive[k] ? read_real(k) + " | " : "- | ";
    for (int k = 1; k <= 2; ++k) if (alive[k]) run_real({ 'c', k, 0 });
    run_real({ 'o', 2, 0 });
    run_real({ 'c', 2, 0 });
    run_real({ 'o', 2, 0 });
    return t + read_real(2);
}
static string outcome_model(micro::model m)
{
    m.fine = false;
    string t;
    for (int k = 1; k <= 2; ++k) t += m.s[k].open ? micro::model::show(m.visible(k)) + " | " : "- | ";
    for (int k = 1; k <= 2; ++k) if (m.s[k].open) m.run({ 'c', k, 0 }, false);
    bool sh = is_shared(g_cfg, 2);
    m.run({ 'o', 2, 0 }, sh);
    m.run({ 'c', 2, 0 }, sh);
    m.run({ 'o', 2, 0 }, sh);
    return t + micro::model::show(m.visible(2));
}
static void wipe()
{
    memfs::g_point = nullptr;
    memfs::g_wait = nullptr;
    memfs::g_dead = true;
    for (auto& d : g_db) d.reset();
    memfs::g_dead = false;
    memfs::reset();
}

//------------------------------------------------------------------------------
// The scheduler.
static void* g_main;
static void* g_fiber[3];
static vector<op> g_prog[3];
static bool g_done[3], g_blocked[3];
static int g_cur;
static int g_points, g_switches;
static vector<int> g_preempt;           // At which points to switch.
static vector<char> g_can;              // Whether a switch was possible at each point.
static bool g_deadlock;
static memfs::file* g_waitfile[3];

static void resume(int to)
{
    g_cur = to;
    memfs::g_owner = to;
    set_opt("history.shared", is_shared(g_cfg, to) ? "true" : "false");
    SwitchToFiber(g_fiber[to]);
}
static void switch_from(int me)
{
    ++g_switches;
    resume(3 - me);
    // Back here; whoever switched has set g_cur.
}
static void on_point(char, const char*, memfs::file*)
{
    int me = g_cur;
    int n = g_points++;
    bool can = !g_done[3 - me] && !g_blocked[3 - me];
    g_can.push_back(can);
    for (int p : g_preempt)
        if (p == n && can) { switch_from(me); break; }
}
static bool on_wait(memfs::file*)
{
    int me = g_cur;
    int other = 3 - me;
    if (g_done[other] || g_blocked[other]) { g_deadlock = true; return false; }
    g_blocked[me] = true;
    switch_from(me);
    g_blocked[me] = false;
    return !g_deadlock;
}
static VOID CALLBACK fiber_main(void* p)
{
    int me = int(intptr_t(p));
    while (true)
    {
        for (auto& o : g_prog[me]) run_real(o);
        g_done[me] = true;
        if (!g_done[3 - me]) resume(3 - me);
        else SwitchToFiber(g_main);
    }
}
// A lock was released, or a handle closed: who waits can look again.
static void wake() { g_blocked[1] = g_blocked[2] = false; }

// Runs the setup, then the two programs with the given preemptions; first is who starts.
static string run_schedule(const config& c, const vector<op>& setup, const vector<op> prog[3], int first, const vector<int>& preempt)
{
    wipe();
    configure(c);
    for (auto& o : setup) run_real(o);
    g_done[1] = g_done[2] = g_blocked[1] = g_blocked[2] = false;
    g_deadlock = false;
    g_points = 0;
    g_can.clear();
    g_preempt = preempt;
    g_prog[1] = prog[1];
    g_prog[2] = prog[2];
    memfs::g_point = on_point;
    memfs::g_wait = on_wait;
    memfs::g_unlocked = wake;
    if (!g_main)
    {
        g_main = ConvertThreadToFiber(nullptr);
        for (int i = 1; i <= 2; ++i) g_fiber[i] = CreateFiber(1 << 20, fiber_main, (void*)intptr_t(i));
    }
    g_cur = first;
    memfs::g_owner = first;
    set_opt("history.shared", is_shared(c, first) ? "true" : "false");
    SwitchToFiber(g_fiber[first]);
    memfs::g_point = nullptr;
    memfs::g_wait = nullptr;
    if (g_deadlock) return "deadlock";
    if (memfs::any_locks()) return "a lock is left behind";
    bool alive[3] = { false, !!g_db[1], !!g_db[2] };
    return outcome_real(alive);
}

static void model_outcomes(const micro::model& m, const vector<op> prog[3], int ip1, int pc1, int ip2, int pc2, std::set<string>& out, std::set<string>& seen)
{
    string k = m.key() + "@" + std::to_string(ip1) + "," + std::to_string(pc1) + "," + std::to_string(ip2) + "," + std::to_string(pc2);
    if (!seen.insert(k).second) return;
    mc::stat("model_states");
    bool any = false;
    for (int t = 1; t <= 2; ++t)
    {
        int ip = t == 1 ? ip1 : ip2, pc = t == 1 ? pc1 : pc2;
        micro::model n = m;
        int j;
        while (ip < int(prog[t].size()))
        {
            if (n.step(prog[t][ip], pc, j, is_shared(g_cfg, t)))
            {
                any = true;
                mc::stat("model_transitions");
                if (t == 1) model_outcomes(n, prog, ip, j, ip2, pc2, out, seen);
                else model_outcomes(n, prog, ip1, pc1, ip, j, out, seen);
                break;
            }
            ++ip; pc = 0;
        }
    }
    if (!any) out.insert(outcome_model(m));
}
static micro::model model_after(const config& c, const vector<op>& setup)
{
    micro::model m;
    m.dupe = c.dupe;
    for (auto& o : setup) m.run(o, is_shared(c, o.s));
    return m;
}

static string ints(const vector<int>& v) { string t; for (int i : v) { if (!t.empty()) t += '.'; t += std::to_string(i); } return t; }

// Explores all schedules of one pair; reports the first failure.
static bool explore(const config& c, const vector<op>& setup, const vector<op> prog[3], int bound)
{
    g_cfg = c;
    std::set<string> allowed, seen;
    model_outcomes(model_after(c, setup), prog, 0, 0, 0, 0, allowed, seen);
    std::set<string> got;
    for (int first = 1; first <= 2; ++first)
    {
        vector<vector<int>> work { {} };
        while (!work.empty())
        {
            vector<int> p = work.back();
            work.pop_back();
            auto cs = [&] { return string("s") + char('0' + c.mode) + char('0' + c.dupe) + ":" + show(setup) + ":" + show(prog[1]) + ":" + show(prog[2]) + ":" + std::to_string(first) + ":" + ints(p); };
            mc::current(cs());
            string r = run_schedule(c, setup, prog, first, p);
            mc::stat("schedules");
            mc::stat("points", g_points);
            got.insert(r);
            if (!allowed.count(r))
            {
                string msg = "sessions end up with " + r + ", which no order of their steps gives; allowed:";
                int n = 0;
                for (auto& a : allowed) if (n++ < 4) msg += "  " + a;
                string key = string("sched ") + char('0' + c.mode) + char('0' + c.dupe) + " " + show(setup) + " / " + show(prog[1]) + " / " + show(prog[2]);
                mc::violation(key, cs(), msg);
                return false;
            }
            if (int(p.size()) < bound)
            {
                vector<char> can = g_can;
                for (int q = p.empty() ? 0 : p.back() + 1; q < int(can.size()); ++q)
                    if (can[q]) { p.push_back(q); work.push_back(p); p.pop_back(); }
            }
        }
    }
    mc::stat("pairs");
    mc::stat("distinct_outcomes", got.size());
    mc::stat("allowed_outcomes", allowed.size());
    return true;
}

//------------------------------------------------------------------------------
// Crashes.
static int g_crash_at, g_crash_session;
static string g_crash_call, g_crash_phase;
static string g_before, g_after;
// The history file's content, without its tag.
static string master_content()
{
    string t;
    memfs::get(c_path, t);
    if (t.compare(0, 6, "|CTAG_") == 0) { size_t n = t.find('\n'); t = n == string::npos ? "" : t.substr(n); }
    return t;
}
static void on_crash_point(char, const char* what, memfs::file* f)
{
    if (memfs::g_owner != g_crash_session || memfs::g_dead) return;
    if (g_points++ == g_crash_at)
    {
        g_crash_call = string(what) + (f ? " " + f->name : "");
        string now = master_content();
        g_crash_phase = now == g_after ? "after the history file was rewritten" : now == g_before ? "before the history file is changed" : "while the history file is rewritten";
        memfs::end_process(g_crash_session);
        memfs::g_dead = true;
    }
}
// Runs setup, then o cut short before its at'th call, then after; returns what is seen at the end.
static string run_crash(const config& c, const vector<op>& setup, const op& o, int at, const vector<op>& after, bool& crashed)
{
    wipe();
    configure(c);
    for (auto& q : setup) run_real(q);
    memfs::g_wait = [](memfs::file*) { return false; };
    g_points = 0;
    g_before = master_content();
    g_crash_at = at;
    g_crash_session = o.s;
    memfs::g_point = on_crash_point;
    run_real(o);
    memfs::g_point = nullptr;
    if (at < 0) g_after = master_content();
    crashed = memfs::g_dead;
    if (crashed) { g_db[o.s].reset(); memfs::g_dead = false; }
    for (auto& q : after) run_real(q);
    memfs::g_wait = nullptr;
    bool alive[3] = { false, !!g_db[1], !!g_db[2] };
    return outcome_real(alive);
}
static bool explore_crash(const config& c, const vector<op>& setup, const op& o, const vector<op>& after, int only = -1)
{
    g_cfg = c;
    micro::model m = model_after(c, setup);
    std::set<string> allowed;
    {
        micro::model n = m;
        n.fine = true;
        int pc = 0, j;
        while (true)
        {
            micro::model d = n;
            d.fine = false;
            d.s[o.s].open = false;
            for (auto& q : after) d.run(q, is_shared(c, q.s));
            allowed.insert(outcome_model(d));
            mc::stat("model_states");
            if (!n.step(o, pc, j, is_shared(c, o.s))) break;
            mc::stat("model_transitions");
            pc = j;
        }
    }
    bool ok = true;
    bool ignored;
    run_crash(c, setup, o, -1, after, ignored);
    for (int at = only < 0 ? 0 : only;; ++at)
    {
        bool crashed = false;
        string cs = string("c") + char('0' + c.mode) + char('0' + c.dupe) + ":" + show(setup) + ":" + show(o) + ":" + std::to_string(at) + ":" + show(after);
        mc::current(cs);
        string r = run_crash(c, setup, o, at, after, crashed);
        if (!crashed) break;
        mc::stat("crashes");
        if (!allowed.count(r))
        {
            string msg = "ended before " + g_crash_call + " (call " + std::to_string(at) + "): later sessions see " + r + "; allowed:";
            int n = 0;
            for (auto& a : allowed) if (n++ < 5) msg += "  " + a;
            // The key says what was being done and where it was cut.
            string call = g_crash_call;
            for (size_t i; (i = call.find("history_1")) != string::npos || (i = call.find("history_2")) != string::npos;) call[i + 8] = 'N';
            const bool compact = o.what == 'g' || o.what == 'q';
            string key = compact ? "crash in compacting " + g_crash_phase : string("crash in ") + o.what + " before " + call;
            mc::violation(key, cs, msg);
            ok = false;
        }
        if (only >= 0) break;
    }
    return ok;
}

//------------------------------------------------------------------------------
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i)
        if (mc::S().extra[i] == "--mode") g_crash_mode = mc::S().extra[i + 1] == "crash";
    mc::S().max_viol = g_crash_mode ? 100 : 12;
    if (mc::S().replaying)
    {
        mc::current(mc::S().replay);
        auto w = mc::split(mc::S().replay, ':');
        config c { w[0][1] - '0', w[0][2] - '0' };
        if (w[0][0] == 's')
        {
            vector<op> prog[3] = { {}, parse(w[2]), parse(w[3]) };
            vector<int> pre;
            for (auto& x : mc::split(w[5], '.')) if (!x.empty()) pre.push_back(atoi(x.c_str()));
            std::set<string> allowed, seen;
            g_cfg = c;
            model_outcomes(model_after(c, parse(w[1])), prog, 0, 0, 0, 0, allowed, seen);
            string r = run_schedule(c, parse(w[1]), prog, atoi(w[4].c_str()), pre);
            if (!allowed.count(r)) mc::violation("replay", mc::S().replay, "sessions end up with " + r);
        }
        else
            explore_crash(c, parse(w[1]), parse(w[2])[0], parse(w[4]), atoi(w[3].c_str()));
        return mc::done();
    }

    // Setups: both sessions running with a few lines each; one dead; etc.
    vector<string> setups = {
        "o10 o20",
        "o10 a10 a11 a10 c10 o10 o20 a10 a20",
        "o10 a10 a11 a12 c10 o20 o10 a11 a20 r22 l10 l20",
        "o10 a10 a11 a12 c10 o10 o20 a13 r10 k10 a21 l20",
        "o20 a20 a21 c20 o10 o20 a11 a21 x10 a20 a12 l10",
    };
    vector<string> ops1 = { "c10", "k10", "a10", "a12", "r10", "x10", "g10", "q11", "p10", "i10", "o10" };
    vector<string> ops2 = { "c20", "a20", "a22", "r20", "x20", "g20", "q21", "p20", "i20" };
    mc::ull serial = 0;
    for (int mode = 0; mode < 3; ++mode)
    for (int dupe = 2; dupe >= 0; --dupe)
    {
        config c { mode, dupe };
        for (auto& st : setups)
        {
            vector<op> setup = parse(st);
            bool open1 = false;
            for (auto& o : setup) if (o.s == 1) open1 = o.what == 'o' ? true : o.what == 'c' || o.what == 'k' ? false : open1;
            if (!g_crash_mode)
            {
                for (auto& a : ops1) for (auto& b : ops2)
                {
                    if ((a[0] == 'o') == open1) continue;
                    if (!mc::mine(serial++)) continue;
                    if (a == "k10") continue;
                    vector<op> prog[3] = { {}, parse(a), parse(b) };
                    explore(c, setup, prog, 2);
                    if (mc::enough()) return mc::done();
                    // A second operation after the first, so that what it left behind is used.
                    if (a[0] != 'c') { prog[1].push_back({ 'a', 1, 1 }); explore(c, setup, prog, mc::thorough() ? 2 : 1); }
                    if (mc::thorough())
                    {
                        if (b[0] != 'c') { prog[2].push_back({ 'a', 2, 1 }); explore(c, setup, prog, 2); prog[2].pop_back(); }
                        if (prog[1].size() > 1) prog[1].pop_back();
                        explore(c, setup, prog, 3);
                    }
                    if (mc::enough()) return mc::done();
                    mc::sample(show(setup) + " / " + show(prog[1]) + " / " + show(prog[2]));
                }
            }
            else
            {
                for (auto& a : ops1)
                {
                    if ((a[0] == 'o') == open1 || a[0] == 'k') continue;
                    for (const char* after : { "", "a20", "r20 a20", "c20", "g20" })
                    {
                        if (!mc::mine(serial++)) continue;
                        explore_crash(c, setup, parse(a)[0], parse(after));
                        mc::sample(show(setup) + " / " + a + " cut short / " + after);
                    }
                }
            }
        }
    }
    return mc::done();
}
