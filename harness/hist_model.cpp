// Every sequence of operations by two sessions on one history, checked against a reference model.
#include "mc.h"
#include "memfs.h"
#include <core/base.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <core/settings.h>
#include <lib/history_db.h>
#include <algorithm>
#include <memory>
#include <unordered_set>

extern "C" {
#include <readline/history.h>
}

using std::string;
using std::vector;

static const char* c_path = "c:\\h\\clink_history";
static const char* c_texts[] = { "a", "ab", "A", " s", "" };

struct entry { int uid; string text; unsigned ts; };

struct msess
{
    bool open = false, shared = false, save = true, defer = false;
    vector<entry> own;
    std::set<int> rem;
    bool loaded = false;
    int map_gen = 0;
    vector<std::pair<int, int>> map;    // (bank, uid)
};
struct model
{
    vector<entry> master;
    int gen = 1, uid = 1;
    bool exists = false;
    msess s[3];

    vector<std::pair<int, entry>> visible(int k) const
    {
        vector<std::pair<int, entry>> v;
        if (s[k].save)
            for (auto& e : master) if (s[k].shared || !s[k].rem.count(e.uid)) v.push_back({ 0, e });
        if (!s[k].shared)
            for (auto& e : s[k].own) v.push_back({ 1, e });
        return v;
    }
    void erase_master(int uid)
    {
        master.erase(std::remove_if(master.begin(), master.end(), [&](const entry& e) { return e.uid == uid; }), master.end());
    }
    void reap()
    {
        for (int k = 1; k <= 2; ++k)
            if (!s[k].open)
            {
                for (auto& e : s[k].own) master.push_back(e);
                for (int u : s[k].rem) erase_master(u);
                s[k].own.clear();
                s[k].rem.clear();
            }
    }
    void remove_one(int k, int bank, int uid)
    {
        if (bank == 1)
            s[k].own.erase(std::remove_if(s[k].own.begin(), s[k].own.end(), [&](const entry& e) { return e.uid == uid; }), s[k].own.end());
        else if (s[k].defer)
            { for (auto& e : master) if (e.uid == uid) s[k].rem.insert(uid); }
        else
            erase_master(uid);
    }
    void new_generation()
    {
        ++gen;
    }
    void compact(bool uniq, int limit)
    {
        if (uniq)
        {
            std::set<string> seen;
            for (size_t i = master.size(); i--;)
                if (!seen.insert(master[i].text).second)
                    master.erase(master.begin() + i);
        }
        if (limit > 0 && master.size() > size_t(limit))
            master.erase(master.begin(), master.end() - limit);
        new_generation();
    }
};

struct scenario { int mode; int dupe; bool ignore_space; int seed; bool nosave; int max_lines; };
// mode: 0 both separate, 1 both shared, 2 one of each.

static string describe(const scenario& c)
{
    char b[100];
    sprintf(b, "%d%d%d%d%d%d", c.mode, c.dupe, c.ignore_space ? 1 : 0, c.seed, c.nosave ? 1 : 0, c.max_lines);
    return b;
}

// An operation: letter, session, argument.
struct op { char what; int s; int arg; };
static string describe(const op& o) { char b[20]; sprintf(b, "%c%d%d", o.what, o.s, o.arg); return b; }

static void set_opt(const char* name, const char* value)
{
    setting* s = settings::find(name);
    if (!s) { printf("no setting %s\n", name); exit(2); }
    s->set(value);
}

// Seeds: what the master file contains beforehand.
static const string c_long(3000, 'w');
static string seed_text(int seed)
{
    string t;
    if (seed == 1) t = "a\nab\r\na\n";                               // Written by something that knows no tag.
    if (seed == 2) { t = "|CTAG_1_2_3_4\n"; for (int i = 0; i < 201; ++i) t += "|x\n"; t += "a\n|\ttime=7\nab\na\n"; } // Due for cleaning.
    if (seed == 3) { t = "|CTAG_1_2_3_4\na\n"; for (int i = 0; i < 22; ++i) t += "|" + string(5000 + i, 'x') + "\n"; t += c_long + "\n|\ttime=7\nab\na\n"; } // Larger than any buffer.
    return t;
}

class world
{
public:
    world(const scenario& c) : cfg(c)
    {
        memfs::reset();
        set_opt("history.dupe_mode", cfg.dupe == 0 ? "add" : cfg.dupe == 1 ? "ignore" : "erase_prev");
        set_opt("history.ignore_space", cfg.ignore_space ? "true" : "false");
        char b[20]; sprintf(b, "%d", cfg.max_lines);
        set_opt("history.max_lines", b);
        string t = seed_text(cfg.seed);
        if (cfg.seed)
        {
            memfs::put(c_path, t);
            M.exists = true;
            M.master.push_back({ M.uid++, "a", 0 });
            if (cfg.seed == 3) M.master.push_back({ M.uid++, c_long, 0 });
            M.master.push_back({ M.uid++, "ab", cfg.seed >= 2 ? 7u : 0u });
            M.master.push_back({ M.uid++, "a", 0 });
        }
        seeded_deleted = cfg.seed == 2;
    }
    ~world()
    {
        memfs::g_dead = true;
        for (auto& d : db) d.reset();
        memfs::g_dead = false;
    }

    bool shared(int s) const { return cfg.mode == 1 || (cfg.mode == 2 && s == 1); }

    bool enabled(const op& o) const
    {
        const msess& m = M.s[o.s];
        if (o.what == 'o') return !m.open;
        if (!m.open) return false;
        switch (o.what)
        {
        case 'i': return m.loaded && (o.arg <= int(m.map.size()));
        case 'p': case 'g': case 'q': return !cfg.nosave;
        }
        return true;
    }

    // Runs one operation on the code and on the model; false on a mismatch (msg says what).
    bool run(const op& o, bool check)
    {
        msess& m = M.s[o.s];
        history_db* d = db[o.s].get();
        memfs::g_owner = o.s;
        check_ = check;
        switch (o.what)
        {
        case 'o':
            set_opt("history.shared", shared(o.s) ? "true" : "false");
            db[o.s].reset(new history_db(c_path, o.s, !cfg.nosave));
            db[o.s]->initialise();
            m.open = true;
            m.loaded = false;
            m.map.clear();
            m.save = !cfg.nosave;
            m.shared = m.save && shared(o.s);
            m.defer = m.save && !m.shared && cfg.dupe == 2;
            if (cfg.seed == 1 && M.gen == 1) M.new_generation();   // The tag is added.
            if (!m.shared)
            {
                reap();
            }
            break;
        case 'c':
            db[o.s].reset();
            m.open = false;
            reap();
            if (memfs::held_by(o.s)) return bad("a closed session still has files open");
            break;
        case 'k': case 'K':
            memfs::end_process(o.s, o.what == 'K');
            memfs::g_dead = true;
            db[o.s].reset();
            memfs::g_dead = false;
            m.open = false;
            break;
        case 'a': case 't':
            {
                const string text = c_texts[o.arg];
                if (o.what == 't') memfs::g_now += 3;
                set_opt("history.time_stamp", o.what == 't' ? "save" : "off");
                bool r = d->add(text.c_str());
                bool expect = true;
                if (text.empty() || (cfg.ignore_space && text[0] == ' '))
                    expect = false;
                else
                {
                    auto vis = M.visible(o.s);
                    bool found = false;
                    for (auto& v : vis) found |= v.second.text == text;
                    if (!(cfg.dupe == 1 && found))
                    {
                        if (cfg.dupe == 2)
                            for (auto& v : vis) if (v.second.text == text) M.remove_one(o.s, v.first, v.second.uid);
                        entry e { M.uid++, text, o.what == 't' ? memfs::g_now : 0 };
                        if (m.save && m.shared) M.master.push_back(e); else m.own.push_back(e);
                    }
                }
                if (check && r != expect) return bad("add(\"" + text + "\") returned " + (r ? "true" : "false"));
            }
            break;
        case 'r':
            {
                const string text = c_texts[o.arg];
                int n = d->remove(text.c_str());
                int expect = 0;
                for (auto& v : M.visible(o.s))
                    if (v.second.text == text) { ++expect; M.remove_one(o.s, v.first, v.second.uid); }
                if (check && n != expect) return bad("remove(\"" + text + "\") returned " + std::to_string(n) + " instead of " + std::to_string(expect));
            }
            break;
        case 'p':   // Load for a new prompt: prune to the limit, and clean.
            d->load_rl_history(true);
            {
                size_t n = 0;
                auto vis = M.visible(o.s);
                for (auto& v : vis) n += v.first == 0;
                for (size_t i = 0; n > size_t(cfg.max_lines); --n, ++i)
                    M.remove_one(o.s, 0, vis[i].second.uid);
                if (seeded_deleted) { seeded_deleted = false; M.compact(false, cfg.max_lines); }
            }
            // fall through
        case 'l':
            if (o.what == 'l') d->load_rl_history(false);
            m.loaded = true;
            m.map.clear();
            m.map_gen = M.gen;
            for (auto& v : M.visible(o.s)) m.map.push_back({ v.first, v.second.uid });
            if (check && !check_list(o.s)) return false;
            break;
        case 'i':
            {
                bool r = d->remove(o.arg, "");
                bool expect = true;
                if (size_t(o.arg) < m.map.size())
                {
                    auto e = m.map[o.arg];
                    if (e.first == 0 && m.map_gen != M.gen) expect = false;
                    else
                    {
                        M.remove_one(o.s, e.first, e.second);
                        m.map.erase(m.map.begin() + o.arg);
                    }
                }
                if (check && r != expect) return bad(string("removing by position returned ") + (r ? "true" : "false"));
            }
            break;
        case 'x':
            d->clear();
            if (m.save) { M.master.clear(); M.new_generation(); for (auto& x : M.s) x.rem.clear(); }
            seeded_deleted = false;
            m.own.clear();
            m.map.clear();
            m.map_gen = M.gen;
            break;
        case 'g': case 'q':
            {
                bool r = d->compact(true, o.what == 'q', o.arg);
                M.compact(o.what == 'q', o.arg);
                seeded_deleted = false;
                m.loaded = false;   // Loaded positions are only used again after a reload.
                m.map.clear();
                if (check && !r) return bad("compacting reported failure");
            }
            break;
        }
        if (check)
        {
            for (int k = 1; k <= 2; ++k)
                if (M.s[k].open && !check_read(k)) return false;
            if (memfs::any_locks()) return bad("a file lock is left behind");
        }
        return true;
    }

    void reap()
    {
        // A session whose lines are not to be saved leaves nothing behind.
        if (cfg.nosave) { for (int k = 1; k <= 2; ++k) if (!M.s[k].open) M.s[k].own.clear(); }
        else M.reap();
    }

    bool finish()
    {
        for (int k = 1; k <= 2; ++k)
            if (M.s[k].open && !run({ 'c', k, 0 }, true)) return false;
        if (!run({ 'o', 1, 0 }, true)) return false;
        if (cfg.nosave) return true;
        return run({ 'c', 1, 0 }, true) && run({ 'o', 2, 0 }, true);
    }

    string key() const
    {
        // Canonical form: the model with uids renumbered, plus every file with its tag replaced.
        string k;
        std::map<int, int> ren;
        auto id = [&](int u) { auto i = ren.emplace(u, int(ren.size())); return std::to_string(i.first->second); };
        unsigned t0 = memfs::g_now;
        auto list = [&](const vector<entry>& v) { for (auto& e : v) { k += id(e.uid); k += e.text; k += e.ts ? (e.ts == 7 ? "o" : "t" + std::to_string(t0 - e.ts)) : ""; k += ','; } k += ';'; };
        list(M.master);
        for (int i = 1; i <= 2; ++i)
        {
            const msess& m = M.s[i];
            k += m.open ? 'o' : 'x'; k += m.loaded ? 'l' : 'n'; k += m.map_gen == M.gen ? 'g' : 's'; k += m.shared ? '1' : '0';
            list(m.own);
            for (auto& e : m.map) { k += char('0' + e.first); k += id(e.second); k += ','; }
            k += ';';
            for (int u : m.rem) { k += id(u); k += ','; }
            k += '#';
        }
        std::map<string, int> tags;
        for (auto& f : memfs::g_files)
        {
            k += f.first; k += '=';
            const string& d = f.second->data;
            for (size_t i = 0; i < d.size();)
            {
                size_t e = d.find('\n', i);
                if (e == string::npos) e = d.size();
                string line = d.substr(i, e - i);
                if (line.compare(0, 6, "|CTAG_") == 0) { auto t = tags.emplace(line, int(tags.size())); k += "T" + std::to_string(t.first->second); }
                else if (line.compare(0, 7, "|\ttime=") == 0) k += "@" + std::to_string(int(t0 - unsigned(atoi(line.c_str() + 7))));
                else k += line;
                k += '\n';
                i = e + 1;
            }
            k += '$';
        }
        return k;
    }
    string msg;
    const char* what = "";

private:
    bool bad(const string& m) { msg = m; return false; }
    static string show(const vector<std::pair<string, unsigned>>& v)
    {
        string s;
        for (auto& e : v) { s += "[" + e.first; if (e.second) s += "@" + std::to_string(e.second % 100000); s += "]"; }
        return s.empty() ? "(nothing)" : s;
    }
    bool check_read(int k)
    {
        memfs::g_owner = k;
        vector<std::pair<string, unsigned>> got, expect;
        vector<int> gb, eb;
        static char buffer[64000];    // As history_read_buffer.
        {
            str_iter out;
            str<> ts;
            history_db::iter i = db[k]->read_lines(buffer);
            while (i.next(out, &ts))
            {
                got.push_back({ string(out.get_pointer(), out.length()), unsigned(atoi(ts.c_str())) });
                gb.push_back(int(i.get_bank()));
            }
        }
        for (auto& v : M.visible(k)) { expect.push_back({ v.second.text, v.second.ts }); eb.push_back(v.first); }
        if (got != expect)
            return bad("session " + std::to_string(k) + " sees " + show(got) + " instead of " + show(expect));
        if (gb != eb) return bad("lines are attributed to the wrong bank");
        for (int t = 0; t < 3; ++t)
        {
            bool f = false;
            for (auto& e : expect) f |= e.first == c_texts[t];
            if (!!db[k]->find(c_texts[t]) != f) return bad(string("find(\"") + c_texts[t] + "\") is wrong");
        }
        return true;
    }
    bool check_list(int k)
    {
        vector<std::pair<string, unsigned>> got, expect;
        HIST_ENTRY** l = history_list();
        for (int i = 0; l && i < history_length; ++i)
        {
            const char* ts = l[i]->timestamp;
            got.push_back({ l[i]->line, ts ? unsigned(atoi(ts + (*ts == '|' || *ts == '#'))) : 0 });
        }
        for (auto& v : M.visible(k)) expect.push_back({ v.second.text, v.second.ts });
        if (got != expect) return bad("the loaded history of session " + std::to_string(k) + " is " + show(got) + " instead of " + show(expect));
        return true;
    }
    scenario cfg;
    model M;
    std::unique_ptr<history_db> db[3];
    bool seeded_deleted = false;
    bool check_ = false;
};

static string case_of(const scenario& c, const vector<op>& p)
{
    string s = describe(c);
    for (auto& o : p) s += " " + describe(o);
    return s;
}
static bool run_case(const string& text, string& msg)
{
    auto w = mc::split(text, ' ');
    scenario c { w[0][0] - '0', w[0][1] - '0', w[0][2] == '1', w[0][3] - '0', w[0][4] == '1', w[0][5] - '0' };
    world x(c);
    for (size_t i = 1; i < w.size(); ++i)
    {
        op o { w[i][0], w[i][1] - '0', w[i][2] - '0' };
        if (!x.enabled(o)) { msg = "operation " + w[i] + " is not enabled"; return true; }
        if (!x.run(o, true)) { msg = x.msg; return false; }
    }
    bool ok = x.finish();
    msg = x.msg;
    return ok;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    string msg;
    if (mc::S().replaying)
    {
        mc::current(mc::S().replay);
        if (!run_case(mc::S().replay, msg))
            mc::violation(mc::S().replay, mc::S().replay, msg);
        return mc::done();
    }

    vector<scenario> scen;
    for (int mode = 0; mode < 3; ++mode)
        for (int dupe = 0; dupe < 3; ++dupe)
            for (int seed = 0; seed < 3; ++seed)
                scen.push_back({ mode, dupe, (mode + dupe + seed) % 2 == 0, seed, false, 2 });
    for (int dupe = 0; dupe < 3; ++dupe)
        scen.push_back({ 0, dupe, dupe == 2, 0, true, 2 });
    for (int mode = 0; mode < 3; ++mode)
        scen.push_back({ mode, 2, false, 3, false, 4 });

    vector<op> alphabet;
    for (int s = 1; s <= 2; ++s)
    {
        for (char c : string("ockxlp")) alphabet.push_back({ c, s, 0 });
        if (mc::thorough()) alphabet.push_back({ 'K', s, 0 });
        for (int t = 0; t < (mc::thorough() ? 4 : 2); ++t) alphabet.push_back({ 'a', s, t });
        if (mc::thorough()) alphabet.push_back({ 'a', s, 4 });
        for (int t = 0; t < (mc::thorough() ? 2 : 1); ++t) alphabet.push_back({ 't', s, t });
        for (int t = 0; t < 2; ++t) alphabet.push_back({ 'r', s, t });
        for (int i = 0; i < (mc::thorough() ? 3 : 2); ++i) alphabet.push_back({ 'i', s, i });
        for (int n = 0; n <= (mc::thorough() ? 3 : 1); ++n) alphabet.push_back({ 'g', s, n });
        for (int n = 0; n <= (mc::thorough() ? 3 : 2); n += 1) alphabet.push_back({ 'q', s, n });
    }
    int depth = mc::thorough() ? 6 : 5;
    if (const char* e = getenv("MC_DEPTH")) depth = atoi(e);

    mc::ull serial = 0;
    const int deepest = depth;
    for (auto& c : scen)
    {
        if (c.seed == 3) depth = deepest - 2; else depth = deepest;
        // Both sessions are opened first in one variant, so that the depth goes to what they do then.
        for (int warm = 0; warm < 2; ++warm)
        {
            std::unordered_set<mc::ull> seen;
            vector<vector<op>> level(1);
            if (warm) { level[0] = { { 'o', 1, 0 }, { 'o', 2, 0 } }; }
            for (int dd = 0; dd < depth - (warm ? 1 : 0) && !level.empty(); ++dd)
            {
                vector<vector<op>> next;
                const bool last = dd + 1 == depth - (warm ? 1 : 0);
                for (auto& p : level)
                {
                    for (auto& o : alphabet)
                    {
                        if (dd == 1 && !mc::mine(serial++)) continue;
                        vector<op> np = p;
                        np.push_back(o);
                        mc::current(case_of(c, np));
                        world w(c);
                        for (auto& q : p) w.run(q, false);
                        if (!w.enabled(o)) continue;
                        mc::stat("transitions");
                        bool ok = w.run(o, true);
                        if (ok && !last)
                        {
                            if (seen.insert(mc::hash(w.key())).second) { next.push_back(np); mc::stat("states"); }
                            else continue;
                        }
                        if (ok && (last || dd >= 2)) { ok = w.finish(); mc::stat("finished"); }
                        if (!ok)
                        {
                            mc::violation(case_of(c, np), case_of(c, np), w.msg);
                            if (!next.empty() && next.back().size() == np.size()) {}
                        }
                        else if (dd == 3) mc::sample(case_of(c, np));
                        if (mc::enough()) return mc::done();
                    }
                }
                level.swap(next);
            }
        }
    }
    mc::stat("api_calls", memfs::g_calls);
    return mc::done();
}
