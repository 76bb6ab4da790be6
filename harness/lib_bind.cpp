// Key sequences: every set of bound chords of a bounded space, with every key stream and every
// decision of the handlers (claim, pass, change the binding group), against a longest-match model.
//   --mode plain | params | chord
#include "mc.h"
#include <core/base.h>
#include <core/str.h>
#include "editor_module.h"
#include "binder.h"
#include "bind_resolver.h"

using std::string;
using std::vector;

static string g_mode;
static editor_module& module_of(int n) { static char m[64]; return *(editor_module*)(m + n); }

struct bound { string chord; bool params; int group; };

// A case is  binds;stream;decisions.  Binds are separated by commas: group digit, 'p' or '-', chord.
// Decisions are digits: 0 claim, 1 pass, 2 claim and go to the other group, 3 pass and go to it.

//------------------------------------------------------------------------------
// The model.
struct model
{
    const vector<bound>& binds;
    int group = 0;
    string pend;
    explicit model(const vector<bound>& b) : binds(b) {}

    struct cand { int bind; int len; vector<unsigned> params; };

    // How much of the keys follows the chord: 1 the chord is complete after len keys, 2 the keys are a
    // proper prefix of it, 0 neither.  A * in a chord that has parameters stands for a number.
    static int follow(const bound& b, const string& keys, size_t upto, size_t& used_chord, vector<unsigned>& params)
    {
        size_t k = 0, c = 0;
        params.clear();
        while (c < b.chord.size())
        {
            if (k == upto) { used_chord = c; return 2; }
            if (b.params && b.chord[c] == '*')
            {
                if (keys[k] < '0' || keys[k] > '9') return 0;
                unsigned v = 0;
                while (k < upto && keys[k] >= '0' && keys[k] <= '9') v = v * 10 + (keys[k++] - '0');
                params.push_back(v);
                ++c;
                continue;
            }
            if (keys[k] != b.chord[c]) return 0;
            ++k; ++c;
        }
        return k == upto ? 1 : 0;
    }
    // Whether keys[0,n) is a path of the tree, and whether anything follows it there.
    bool path(const string& keys, size_t n, bool& more) const
    {
        bool any = n == 0;
        more = false;
        for (auto& b : binds)
        {
            if (b.group != group) continue;
            size_t u; vector<unsigned> p;
            int f = follow(b, keys, n, u, p);
            if (f) any = true;
            if (f == 2) more = true;
        }
        return any;
    }
    // True when a decision has to be made now.
    bool step(char key)
    {
        pend += key;
        bool more;
        if (!path(pend, pend.size(), more)) return true;
        return !more;
    }
    vector<cand> candidates() const
    {
        vector<cand> out;
        size_t deepest = 0;
        bool more;
        while (deepest < pend.size() && path(pend, deepest + 1, more)) { ++deepest; if (!more) break; }
        for (size_t n = deepest + 1; n-- > 0;)
            for (size_t i = 0; i < binds.size(); ++i)
            {
                if (binds[i].group != group) continue;
                size_t u; vector<unsigned> p;
                if (n == 0 ? binds[i].chord.empty() : (!binds[i].chord.empty() && follow(binds[i], pend, n, u, p) == 1))
                    out.push_back({ int(i), int(n ? n : 1), p });
            }
        return out;
    }
};

static bool bad(const string& cs, const string& msg) { mc::violation(g_mode + " " + cs, cs, msg); return false; }

static string encode(const vector<bound>& binds, const string& stream, const string& dec)
{
    string s;
    for (auto& b : binds) { if (!s.empty()) s += ','; s += char('0' + b.group); s += b.params ? 'p' : '-'; s += b.chord; }
    return s + ";" + stream + ";" + dec;
}

// Runs the stream on the code and the model; dec is extended with the decisions that are still to be
// enumerated (all 0).  choices: for every decision made, how many alternatives it had.
static bool run(binder& b, const int* groups, const vector<bound>& binds, const string& stream, string& dec, string& choices, int alternatives)
{
    bind_resolver r(b);
    r.set_group(groups[0]);
    model m(binds);
    size_t made = 0;
    int switches = 0;
    choices.clear();
    auto cs = [&] { return encode(binds, stream, dec); };
    for (char key : stream)
    {
        const bool ready = r.step(uint8(key));
        const bool want = m.step(key);
        if (ready != want) return bad(cs(), string("after a key the resolver ") + (ready ? "resolves" : "waits"));
        if (!ready)
        {
            if (r.is_done()) return bad(cs(), "waiting for more keys but done");
            continue;
        }
        // Drain, as line_editor_impl::update_input does.
        vector<model::cand> c = m.candidates();
        size_t ci = 0;
        while (auto binding = r.next())
        {
            if (ci >= c.size()) return bad(cs(), "resolved a chord that is not bound to these keys: id " + std::to_string(binding.get_id()));
            const model::cand& w = c[ci];
            str<64> chord;
            binding.get_chord(chord);
            if (binding.get_id() != w.bind + 1 || binding.get_module() != &module_of(w.bind))
                return bad(cs(), "resolved bind " + std::to_string(binding.get_id() - 1) + " instead of " + std::to_string(w.bind));
            if (string(chord.c_str(), chord.length()) != m.pend.substr(0, w.len))
                return bad(cs(), "the keys of the chord are \"" + string(chord.c_str()) + "\" instead of \"" + m.pend.substr(0, w.len) + "\"");
            const input_params& p = binding.get_params();
            if (p.count() != w.params.size()) return bad(cs(), "the chord has " + std::to_string(p.count()) + " parameters");
            for (size_t i = 0; i < w.params.size(); ++i)
            {
                uint32 v;
                if (!p.get(uint32(i), v) || v != w.params[i]) return bad(cs(), "a parameter is " + std::to_string(v) + " instead of " + std::to_string(w.params[i]));
            }
            if (r.more_than(w.len) != (m.pend.size() > size_t(w.len))) return bad(cs(), "wrong answer about further keys");
            mc::stat("proposals");

            if (made == dec.size()) dec += '0';
            const int d = dec[made++] - '0';
            choices += char(switches < 2 ? alternatives : alternatives < 2 ? alternatives : 2);
            const bool other = d >= 2;
            if (other)
            {
                ++switches;
                m.group = !m.group;
                r.set_group(groups[m.group]);
                if (r.get_group() != groups[m.group]) return bad(cs(), "the group did not change");
            }
            if (!(d & 1))
            {
                binding.claim();
                if (binding) return bad(cs(), "still there after being claimed");
                m.pend.erase(0, w.len);
                c = m.pend.empty() ? vector<model::cand>() : m.candidates();
                ci = 0;
            }
            else if (other) { c = m.candidates(); ci = 0; }
            else ++ci;
        }
        if (ci < c.size()) return bad(cs(), "bind " + std::to_string(c[ci].bind) + " was not resolved");
        if (!r.is_done()) return bad(cs(), "not done");
        m.pend.clear();
    }
    mc::stat("evaluations");
    return true;
}

struct setup
{
    binder b;
    int groups[2];
    bool ok = true;
    setup(const vector<bound>& binds)
    {
        groups[0] = b.get_group();
        groups[1] = b.create_group("other");
        for (size_t i = 0; i < binds.size(); ++i)
            ok &= b.bind(groups[binds[i].group], binds[i].chord.c_str(), module_of(int(i)), uint8(i + 1), binds[i].params);
    }
};

// Every stream, every decision sequence.
static void explore(const vector<bound>& binds, const vector<string>& streams, int alternatives)
{
    setup s(binds);
    if (!s.ok) { bad(encode(binds, "", ""), "could not bind"); return; }
    if (s.b.get_group("other") != s.groups[1] || s.b.get_group("nope") != -1) { bad(encode(binds, "", ""), "group lookup"); return; }
    for (auto& stream : streams)
    {
        string dec, choices;
        do
        {
            mc::tick();
            if (!run(s.b, s.groups, binds, stream, dec, choices, alternatives)) { if (mc::enough()) return; break; }
            if (choices.size() >= 2) mc::stat("distinct_nontrivial");
            // Next decision sequence.
            dec.resize(choices.size());
            while (!dec.empty() && dec.back() - '0' + 1 >= choices[dec.size() - 1]) dec.pop_back();
            if (!dec.empty()) ++dec.back();
        }
        while (!dec.empty());
    }
}

static void strings(const string& alphabet, size_t lo, size_t hi, vector<string>& out)
{
    vector<string> level { "" };
    for (size_t n = 0; n <= hi; ++n)
    {
        if (n >= lo) out.insert(out.end(), level.begin(), level.end());
        vector<string> next;
        for (auto& s : level) for (char c : alphabet) next.push_back(s + c);
        level.swap(next);
    }
}

static void plain_all()
{
    mc::ull serial = 0;
    // One and two groups of up to three chords; keys a, b (a third one is never bound) or one beyond ASCII.
    for (int beyond = 0; beyond < 2; ++beyond)
    {
        const string keys = beyond ? "a\xc3" : "ab";
        vector<string> pool, streams;
        strings(keys, 0, mc::thorough() ? 3 : 2, pool);
        if (!mc::thorough()) { pool.push_back(string(3, keys[0])); pool.push_back(string(2, keys[0]) + keys[1]); pool.push_back(keys.substr(0, 2) + keys[0]); }
        strings(keys + "c", mc::thorough() ? 5 : 4, mc::thorough() ? 5 : 4, streams);
        const int n = int(pool.size());
        for (int i = 0; i < n; ++i) for (int j = -1; j < n; ++j) for (int k = -1; k < n; ++k)
        {
            if (j < 0 && k >= 0) continue;
            if (!mc::mine(serial++)) continue;
            vector<bound> b { { pool[i], false, 0 } };
            if (j >= 0) b.push_back({ pool[j], false, 0 });
            if (k >= 0) b.push_back({ pool[k], false, 0 });
            explore(b, streams, 2);
            if (mc::enough()) return;
            mc::sample(encode(b, streams[streams.size() / 2], ""));
        }
        // The third and fourth in the other group.
        vector<string> shorter;
        strings(keys + "c", 3, mc::thorough() ? 4 : 3, shorter);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) for (int l = k; l < n; ++l)
        {
            if (!mc::mine(serial++)) continue;
            vector<bound> b { { pool[i], false, 0 }, { pool[j], false, 0 }, { pool[k], false, 1 }, { pool[l], false, 1 } };
            if (k == l) b.pop_back();
            explore(b, shorter, 4);
            if (mc::enough()) return;
        }
    }
    // As long as chords can be.
    for (int len = 4; len <= 15; ++len)
    {
        vector<bound> b { { string(len, 'a'), false, 0 }, { string(len - 1, 'a') + "b", false, 0 }, { "a", false, 0 }, { "", false, 0 } };
        vector<string> streams;
        for (int n = 1; n <= len; ++n) for (char c : string("abc")) streams.push_back(string(n - 1, 'a') + c);
        if (mc::mine(serial++)) explore(b, streams, 2);
    }
}

static void params_all()
{
    mc::ull serial = 0;
    const vector<string> pool { "[*;*L", "[*;*D", "[*A", "[*B", "[A", "[", "", "[B*A" };
    vector<string> streams;
    strings("[12;AL", mc::thorough() ? 7 : 6, mc::thorough() ? 7 : 6, streams);
    vector<string> some;
    for (auto& s : streams) if (s[0] == '[' || s[1] == '[') some.push_back(s);
    for (auto& n : { "1", "12", "345", "6789", "9", "65535" }) for (auto& k : { "0", "7", "12", "65535" })
        for (char c : string("LDA")) some.push_back(string("[") + n + ";" + k + c);
    const int n = int(pool.size());
    for (int mask = 1; mask < (1 << n); ++mask)
    {
        vector<bound> b;
        for (int i = 0; i < n; ++i) if (mask >> i & 1) b.push_back({ pool[i], pool[i].find('*') != string::npos, 0 });
        if (b.size() > 4) continue;
        if (!mc::mine(serial++)) continue;
        explore(b, some, 1);
        if (mc::enough()) return;
        mc::sample(encode(b, some[serial % some.size()], ""));
    }
}

//------------------------------------------------------------------------------
// The notation of chords: \M-x \C-x ^x \e \t ...
static bool ref_chord(const string& s, string& out)
{
    out.clear();
    for (size_t i = 0; i < s.size();)
    {
        const char c = s[i];
        if (c == '^')
        {
            if (i + 1 >= s.size()) { out += '^'; break; }
            out += char(s[i + 1] & 0x1f); i += 2;
        }
        else if (c != '\\') { out += c; ++i; }
        else if (i + 1 >= s.size()) { out += '\\'; break; }
        else if (s[i + 1] == 'C')
        {
            if (i + 3 >= s.size() || s[i + 2] != '-') return false;
            out += char(s[i + 3] & 0x1f); i += 4;
        }
        else if (s[i + 1] == 'M')
        {
            if (i + 3 >= s.size() || s[i + 2] != '-') return false;
            out += '\x1b'; i += 3;
            if (s[i] == 'C' && i + 1 < s.size() && s[i + 1] == '-')
            {
                if (i + 2 >= s.size()) return false;
                out += char(s[i + 2] & 0x1f); i += 3;
            }
            // Otherwise the rest follows ESC.
        }
        else
        {
            const char k = s[i + 1];
            out += k == 'e' ? '\x1b' : k == 't' ? '\t' : k == 'n' ? '\n' : k == 'r' ? '\r' : k == '0' ? '\0' : k;
            i += 2;
        }
    }
    if (out == "\x1b") out = get_bindable_esc() ? get_bindable_esc() : out;
    return true;
}
static bool chord_case(const string& cs)
{
    mc::current(cs);
    string want;
    const bool ok = ref_chord(cs, want);
    if (want.find('\0') != string::npos) return true;
    binder b;
    const int g = b.get_group();
    const bool got = b.bind(g, cs.c_str(), module_of(3), 9);
    mc::stat("chords");
    if (got != ok) return bad(cs, got ? "an invalid chord was accepted" : "the chord was refused");
    if (!ok || want.empty()) return true;
    bind_resolver r(b);
    for (size_t i = 0; i < want.size(); ++i)
        if (r.step(uint8(want[i])) != (i + 1 == want.size())) return bad(cs, "bound to other keys than \"" + want + "\"");
    auto x = r.next();
    if (!x || x.get_id() != 9) return bad(cs, "the keys \"" + want + "\" do not resolve to it");
    mc::stat("evaluations");
    if (want.size() >= 2 && want != cs) mc::stat("distinct_nontrivial");
    return true;
}
static void chord_all()
{
    vector<string> all;
    strings("\\^MC-eax", 0, mc::thorough() ? 7 : 6, all);
    for (size_t i = 0; i < all.size(); ++i)
        if (mc::mine(i)) { chord_case(all[i]); if (mc::enough()) return; }
    for (char c = 1; c > 0; ++c)
        for (auto& f : { "\\", "^", "\\C-", "\\M-", "\\M-C-", "" }) chord_case(string(f) + c);
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    if (mc::S().replaying)
    {
        if (g_mode == "chord") { chord_case(mc::S().replay); return mc::done(); }
        auto f = mc::split(mc::S().replay, ';');
        // The stream and the chords may have semicolons: the first part ends at the first ; after the last bind.
        const string& all = mc::S().replay;
        const size_t dec_at = all.rfind(';');
        string dec = all.substr(dec_at + 1), rest = all.substr(0, dec_at), choices;
        for (size_t at = 0; at < rest.size(); ++at)
        {
            if (rest[at] != ';') continue;
            vector<bound> binds;
            bool fits = true;
            for (auto& x : mc::split(rest.substr(0, at), ','))
            {
                if (x.size() < 2 || (x[0] != '0' && x[0] != '1') || (x[1] != 'p' && x[1] != '-')) { fits = false; break; }
                binds.push_back({ x.substr(2), x[1] == 'p', x[0] - '0' });
            }
            if (!fits) continue;
            setup s(binds);
            string d = dec;
            if (s.ok) run(s.b, s.groups, binds, rest.substr(at + 1), d, choices, 4);
            else bad(all, "could not bind");
        }
        return mc::done();
    }
    if (g_mode == "plain") plain_all();
    if (g_mode == "params") params_all();
    if (g_mode == "chord") chord_all();
    return mc::done();
}
