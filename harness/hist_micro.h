// A micro-step model of sessions that use one history: each operation is a list of atomic steps.
// Used to compute every outcome that is allowed when operations overlap or are cut short.
#pragma once
#include "mc.h"
#include <algorithm>

namespace micro {

using std::string;
using std::vector;

struct entry { int uid; string text; unsigned ts; };
struct op { char what; int s; int arg; };
static const char* c_texts[] = { "a", "ab", "b", "c" };

struct sess
{
    bool open = false, shared = false, defer = false;
    vector<entry> own;
    std::set<int> rem;
    int map_gen = 0;
    vector<std::pair<int, int>> map;
};
struct model
{
    int dupe = 2, max_lines = 2;
    bool fine = false;          // Whether merging is split into the steps a crash can separate.
    vector<entry> master;
    int gen = 1, uid = 1;
    sess s[3];

    vector<std::pair<int, entry>> visible(int k, int bank = -1) const
    {
        vector<std::pair<int, entry>> v;
        if (bank != 1) for (auto& e : master) if (s[k].shared || !s[k].rem.count(e.uid)) v.push_back({ 0, e });
        if (bank != 0 && !s[k].shared) for (auto& e : s[k].own) v.push_back({ 1, e });
        return v;
    }
    static void erase(vector<entry>& v, int uid)
    {
        v.erase(std::remove_if(v.begin(), v.end(), [&](const entry& e) { return e.uid == uid; }), v.end());
    }
    void remove_one(int k, int bank, int u)
    {
        if (bank == 1) erase(s[k].own, u);
        else if (s[k].defer) { for (auto& e : master) if (e.uid == u) s[k].rem.insert(u); }
        else erase(master, u);
    }
    // Returns whether there may be more to remove: one at a time when crashes are considered.
    bool remove_text(int k, int bank, const string& t)
    {
        for (auto& v : visible(k, bank))
            if (v.second.text == t) { remove_one(k, v.first, v.second.uid); if (fine) return true; }
        return false;
    }
    // Merging a session that is no longer running, in parts.
    void merge(int k, int part)
    {
        if (s[k].open) return;
        if (part == 0)
        {
            // A repeated merge (after a crash in the middle of one) repeats the lines.
            for (auto e : s[k].own) { e.uid = uid++; master.push_back(e); }
        }
        if (part == 1) { for (int u : s[k].rem) erase(master, u); }
        if (part == 2) s[k].rem.clear();
        if (part == 3) s[k].own.clear();
    }
    void compact(bool uniq, int limit)
    {
        if (uniq)
        {
            std::set<string> seen;
            for (size_t i = master.size(); i--;)
                if (!seen.insert(master[i].text).second) master.erase(master.begin() + i);
        }
        if (limit > 0 && master.size() > size_t(limit)) master.erase(master.begin(), master.end() - limit);
        ++gen;
    }

    // Does step pc of operation o; false if the operation had no more steps.  jump: next pc.
    bool step(const op& o, int pc, int& jump, bool shared)
    {
        sess& m = s[o.s];
        const string text = o.arg >= 0 && o.arg < 4 ? c_texts[o.arg] : "";
        jump = pc + 1;
        switch (o.what)
        {
        case 'o':
            if (pc == 0) { m.open = true; m.shared = shared; m.defer = !shared && dupe == 2; m.map.clear(); return true; }
            return !shared && merge_step(pc - 1);
        case 'c':
            if (pc == 0) { m.open = false; return true; }
            return merge_step(pc - 1);
        case 'k':
            if (pc == 0) m.open = false;
            return pc == 0;
        case 'a':
            if (dupe == 1)
            {
                if (pc < 2) { for (auto& v : visible(o.s, pc)) if (v.second.text == text) jump = 99; return true; }
            }
            else if (dupe == 2)
            {
                if (pc < 2) { if (remove_text(o.s, pc, text)) jump = pc; return true; }
            }
            else if (pc < 2) return true;
            if (pc == 2) { (m.shared ? master : m.own).push_back({ uid++, text, 0 }); return true; }
            return false;
        case 'r':
            if (pc < 2) { if (remove_text(o.s, pc, text)) jump = pc; return true; }
            return false;
        case 'l': case 'p':
            if (pc < 2)
            {
                if (pc == 0) { m.map.clear(); m.map_gen = gen; }
                for (auto& v : visible(o.s, pc)) m.map.push_back({ v.first, v.second.uid });
                return true;
            }
            if (o.what == 'p')
            {
                // Prune, then load again.
                size_t n = 0;
                for (auto& e : m.map) n += e.first == 0;
                if (pc == 2 && n > size_t(max_lines))
                {
                    if (m.map_gen != gen) { jump = 3; return true; }
                    remove_one(o.s, 0, m.map[0].second);
                    m.map.erase(m.map.begin());
                    jump = 2;
                    return true;
                }
                if (pc == 2) return true;
                if (pc == 3 || pc == 4)
                {
                    if (pc == 3) { m.map.clear(); m.map_gen = gen; }
                    for (auto& v : visible(o.s, pc - 3)) m.map.push_back({ v.first, v.second.uid });
                    return true;
                }
            }
            return false;
        case 'i':
            if (pc) return false;
            if (size_t(o.arg) < m.map.size())
            {
                auto e = m.map[o.arg];
                if (e.first == 1 || m.map_gen == gen)
                {
                    remove_one(o.s, e.first, e.second);
                    m.map.erase(m.map.begin() + o.arg);
                }
            }
            return true;
        case 'x':
            if (pc == 0) { master.clear(); ++gen; for (auto& x : s) x.rem.clear(); return true; }
            if (pc == 1) { m.own.clear(); m.map.clear(); return true; }
            return false;
        case 'g': case 'q':
            if (pc == 0) { compact(o.what == 'q', o.arg); m.map.clear(); return true; }
            return false;
        }
        return false;
    }
    bool merge_step(int i)
    {
        // i: session 1 or 2, in one step or in four.
        if (!fine)
        {
            if (i >= 2) return false;
            if (!s[i + 1].open) for (int p = 0; p < 4; ++p) merge(i + 1, p);
            return true;
        }
        if (i >= 8) return false;
        merge(i / 4 + 1, i % 4);
        return true;
    }
    string key() const
    {
        string k;
        auto list = [&](const vector<entry>& v) { for (auto& e : v) { k += std::to_string(e.uid) + e.text + ","; } k += ';'; };
        list(master);
        k += std::to_string(gen);
        for (int i = 1; i <= 2; ++i)
        {
            k += s[i].open ? 'o' : 'x'; list(s[i].own);
            for (int u : s[i].rem) k += std::to_string(u) + ",";
            k += '/'; for (auto& e : s[i].map) k += std::to_string(e.first) + ":" + std::to_string(e.second) + ",";
            k += std::to_string(s[i].map_gen) + "#";
        }
        return k + std::to_string(uid);
    }
    void run(const op& o, bool shared) { int pc = 0, j; while (step(o, pc, j, shared)) pc = j; }
    static string show(const vector<std::pair<int, entry>>& v) { string t; for (auto& e : v) t += "[" + e.second.text + "]"; return t; }
};

} // namespace micro
