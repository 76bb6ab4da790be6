// Argument completion: every command line of a bounded vocabulary, under every argmatcher of a
// bounded grammar, completes to what the definition says, and its words are classified accordingly.
//   --mode tree | build | ways
#include "ed.h"
#include <lua/lua_match_generator.h>
#include <lua/lua_word_classifier.h>
#include <lua/lua_script_loader.h>
#include <lua/lua_state.h>
#include <lib/doskey.h>
#include <algorithm>

using std::string;
using std::vector;

static string g_mode;
static bool bad(const string& cs, const string& msg) { mc::violation(g_mode + " " + cs, cs, msg); return false; }
static string join(const vector<string>& v, const char* sep = " ") { string s; for (auto& x : v) s += (s.empty() ? "" : sep) + x; return s; }

//------------------------------------------------------------------------------
// Argmatchers.
struct M;
typedef std::shared_ptr<M> P;
struct W { string text; P link; bool hidden = false; };
struct M
{
    vector<vector<W>> args;
    vector<W> flags;
    int loop = -1;                  // Index of the slot to loop to.
    bool nofiles = false;
    string eof;                     // End of flags.
    bool anywhere = true;
};

static string lua_of(const M& m, const string& name = "");
static string lua_words(const vector<W>& v)
{
    string s;
    for (auto& w : v) { if (!s.empty()) s += ", "; s += "'" + w.text + "'"; if (w.link) s += ".." + lua_of(*w.link); }
    return s;
}
static string lua_of(const M& m, const string& name)
{
    string s = "clink.argmatcher(" + (name.empty() ? "" : "'" + name + "'") + ")";
    for (auto& a : m.args) s += ":addarg({" + lua_words(a) + "})";
    if (!m.flags.empty()) s += ":addflags({" + lua_words(m.flags) + "})";
    if (m.loop >= 0) s += ":loop(" + (m.loop ? std::to_string(m.loop + 1) : string("")) + ")";
    if (m.nofiles) s += ":nofiles()";
    if (!m.eof.empty()) s += m.eof == "--" ? ":setendofflags()" : ":setendofflags('" + m.eof + "')";
    if (!m.anywhere) s += ":setflagsanywhere(false)";
    return s;
}

//------------------------------------------------------------------------------
// What a definition means.
struct frame { const M* m; size_t idx; bool noflags; };
struct meaning
{
    vector<frame> st;
    string classes;
    meaning(const M& root) { st.push_back({ &root, 0, false }); }
    static bool flag(const frame& f, const string& w, bool end) { return !f.m->flags.empty() && !f.noflags && w[0] == '-' && (w.size() > 1 || end); }
    // Which argmatcher handles the word.
    void resolve(const string& w, bool end)
    {
        for (;;)
        {
            frame& f = st.back();
            if (flag(f, w, end)) return;
            if (f.idx < f.m->args.size()) return;
            if (f.m->loop >= 0 && !f.m->args.empty()) { f.idx = std::min<size_t>(f.m->loop, f.m->args.size() - 1); return; }
            if (f.m->nofiles) return;
            if (f.m->args.empty() && !f.m->flags.empty() && f.idx == 0) return;     // Flags but no arguments: a file.
            if (st.size() == 1) return;
            // What starts with a flag character right after the end of flags of an argmatcher without further arguments.
            if (f.noflags && !f.m->eof.empty() && w[0] == '-') unsure = true;
            st.pop_back();
        }
    }
    static const W* listed(const vector<W>& v, const string& w) { for (auto& x : v) if (x.text == w) return &x; return nullptr; }
    void word(const string& w, bool end = false)
    {
        resolve(w, end);
        frame& f = st.back();
        if (flag(f, w, end))
        {
            const W* x = listed(f.m->flags, w);
            bool stop = !f.m->eof.empty() && w == f.m->eof;
            classes += x || stop ? 'f' : 'o';
            if (stop) f.noflags = true;
            if (x && x->link) st.push_back({ x->link.get(), 0, false });
            return;
        }
        if (!f.m->anywhere) f.noflags = true;
        if (f.idx < f.m->args.size())
        {
            const W* x = listed(f.m->args[f.idx++], w);
            classes += x ? 'a' : 'o';
            if (x && x->link) st.push_back({ x->link.get(), 0, false });
            return;
        }
        ++f.idx;
        classes += f.m->nofiles ? 'n' : 'o';
    }
    vector<string> offers(const string& w, bool order = false)
    {
        resolve(w, true);
        const frame& f = st.back();
        vector<string> all;
        if (flag(f, w, true)) { for (auto& x : f.m->flags) if (!x.hidden) all.push_back(x.text); }
        else if (f.idx < f.m->args.size()) { for (auto& x : f.m->args[f.idx]) if (!x.hidden) all.push_back(x.text); }
        else if (f.m->nofiles || (f.m->args.empty() && f.m->flags.empty())) ;
        else { all = ed::files(); files = true; }
        vector<string> v;
        for (auto& x : all) if (x.compare(0, w.size(), w) == 0 && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x);
        if (!order || files) std::sort(v.begin(), v.end());
        return v;
    }
    bool files = false, unsure = false;
};

//------------------------------------------------------------------------------
static lua_state* s_lua;
static ed::editor* s_ed;
static lua_match_generator* s_gen;
static lua_word_classifier* s_cls;

static bool run_lua(const string& code)
{
    str<> err;
    if (!s_lua->do_string(code.c_str(), -1, &err)) { fprintf(stderr, "lua: %s\n in: %s\n", err.c_str(), code.c_str()); return false; }
    return true;
}
static vector<string> sorted(vector<string> v) { std::sort(v.begin(), v.end()); return v; }

static int s_names = 0;
static string fresh() { return "cmd" + std::to_string(++s_names) + "x"; }

// Checks one line (words and the unfinished last word) of a command.
static bool check_line(const string& cs, const string& name, const M& m, const vector<string>& words, const string& end)
{
    string line = name;
    for (auto& w : words) line += " " + w;
    line += " " + end;
    mc::current(cs + " | " + line);
    mc::stat("evaluations");
    meaning k(m);
    for (auto& w : words) k.word(w);
    meaning k2(m);
    for (size_t i = 0; i < words.size(); ++i) k2.word(words[i], i + 1 == words.size());    // A lone "-" at the end is a flag so far.
    string cl = k2.classes;
    vector<string> want = k.offers(end);
    if (k.unsure) { mc::stat("not_specified"); return true; }
    vector<string> got = sorted(s_ed->complete(line));

    if (want.size() > 1) mc::stat("distinct_nontrivial");
    if (got != want) return bad(cs + " | " + line, "offers [" + join(got) + "] instead of [" + join(want) + "]; " + lua_of(m));
    if (end.empty())
    {
        mc::stat("classified");
        string c = s_ed->classes(line);
        if (c.size() > 0) c = c.substr(1);
        while (c.size() > cl.size() && c.back() == ' ') c.pop_back();
        if (c != cl) return bad(cs + " | " + line, "words are classified as [" + c + "] instead of [" + cl + "]; " + lua_of(m));
    }
    return true;
}

//------------------------------------------------------------------------------
static vector<W> ws(std::initializer_list<W> l) { return l; }
static P mk(vector<vector<W>> args, vector<W> flags = {}) { P p = std::make_shared<M>(); p->args = args; p->flags = flags; return p; }
static vector<P> leaves()
{
    vector<P> v;
    v.push_back(mk({ { { "p" }, { "q" } } }));
    v.push_back(mk({ { { "p" } } }, { { "-m" }, { "-n" } }));
    v.push_back(mk({}, { { "-m" } }));
    v.push_back(mk({ { { "p" } }, { { "q" } } }));
    P p = mk({ { { "p" }, { "q" } } }); p->nofiles = true; v.push_back(p);
    p = mk({ { { "p" } }, { { "q" } } }); p->loop = 0; v.push_back(p);
    p = mk({ { { "p" } } }, { { "-m" } }); p->eof = "--"; v.push_back(p);
    p = mk({ { { "p" } }, { { "q" } } }, { { "-m" } }); p->anywhere = false; v.push_back(p);
    p = mk({ { { "p" } }, { { "q" } } }, { { "-m" }, { "-n" } }); p->loop = 1; v.push_back(p);
    p = mk({ { { "p" } } }, { { "-m" } }); p->nofiles = true; v.push_back(p);
    return v;
}
// Argmatchers whose words may link to the given ones.
static vector<P> combine(const vector<P>& links, bool full)
{
    vector<P> v;
    vector<P> L = links;
    L.push_back(nullptr);
    for (int shape = 0; shape < 6; ++shape)
        for (auto& a : L)
            for (auto& f : L)
            {
                if (!full && a && f) continue;
                vector<vector<W>> args;
                vector<W> flags;
                switch (shape)
                {
                case 0: if (f) continue; args = { { { "a", a }, { "b" } } }; break;
                case 1: if (f) continue; args = { { { "a", a } }, { { "c" }, { "d" } } }; break;
                case 2: args = { { { "a", a }, { "b" } } }; flags = { { "-x", f }, { "-y" } }; break;
                case 3: if (a) continue; flags = { { "-x", f }, { "-y" } }; break;
                case 4: args = { { { "a", a } }, { { "c", f } } }; flags = { { "-x" }, { "-y" } }; break;
                case 5: if (f) continue; args = { { { "a" } }, { { "c", a }, { "d" } } }; flags = { { "-x" } }; break;
                }
                for (int opt = 0; opt < 6; ++opt)
                {
                    P p = mk(args, flags);
                    if (opt == 1) { if (args.empty()) continue; p->loop = 0; }
                    if (opt == 2) { if (args.size() < 2) continue; p->loop = 1; }
                    if (opt == 3) p->nofiles = true;
                    if (opt == 4) { if (flags.empty()) continue; p->eof = "--"; }
                    if (opt == 5) { if (flags.empty()) continue; p->anywhere = false; }
                    v.push_back(p);
                }
            }
    return v;
}
static void collect(const M& m, std::set<string>& v, bool& eof)
{
    for (auto& a : m.args) for (auto& w : a) { v.insert(w.text); if (w.link) collect(*w.link, v, eof); }
    for (auto& w : m.flags) { v.insert(w.text); if (w.link) collect(*w.link, v, eof); }
    if (!m.eof.empty()) eof = true;
}

static bool tree_case(const string& cs, const M& m, int depth, const vector<string>* only = nullptr)
{
    string name = fresh();
    if (!run_lua(lua_of(m, name))) return bad(cs, "the definition fails: " + lua_of(m));
    mc::stat("argmatchers");
    if (only)
    {
        vector<string> words(*only);
        string end = words.back();
        words.pop_back();
        return check_line(cs, name, m, words, end);
    }
    std::set<string> vocab;
    bool eof = false;
    collect(m, vocab, eof);
    vector<string> words(vocab.begin(), vocab.end());
    words.push_back("z");
    words.push_back("-z");
    if (eof) words.push_back("--");
    words.push_back("-");
    bool ok = true;
    vector<string> line;
    std::function<void()> rec = [&]() {
        if (!ok) return;
        ok = check_line(cs, name, m, line, "") && check_line(cs, name, m, line, "-") && ok;
        if (int(line.size()) >= depth || !ok) return;
        for (auto& w : words) { line.push_back(w); rec(); line.pop_back(); }
    };
    rec();
    return ok;
}


// Definitions with links to leaves, and some with two levels of links.
static vector<P> l1_trees() { return combine(leaves(), true); }
static vector<P> l2_trees()
{
    vector<P> mid, some;
    for (auto& p : l1_trees())
    {
        bool linked = false;
        for (auto& a : p->args) for (auto& w : a) linked |= !!w.link;
        for (auto& w : p->flags) linked |= !!w.link;
        if (linked) mid.push_back(p);
    }
    for (size_t i = 0; i < mid.size(); i += 37) some.push_back(mid[i]);
    return combine(some, false);
}
static void tree()
{
    vector<P> v = l1_trees();
    size_t n1 = v.size();
    if (mc::thorough()) for (auto& p : l2_trees()) v.push_back(p);
    mc::stat("definitions", mc::S().shard ? 0 : v.size());
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (!mc::mine(i) || mc::enough()) continue;
        mc::tick();
        // Every fifth definition is explored deeper in the thorough tier.
        tree_case(std::to_string(i), *v[i], mc::thorough() && i < n1 && i % 5 == 0 ? 3 : 2);
        if (i % 97 == 0) mc::sample(std::to_string(i) + ": " + lua_of(*v[i]));
    }
}

//------------------------------------------------------------------------------
// The same definition built in other ways.
static const char* c_routes[] = {
    "flags first", "one by one, options first", "words as separate arguments", "tables with descriptions", "reset and rebuilt",
    "setdelayinit", "delayinit per slot", "hideflags before", "hideflags after", "hide option", "unsorted", "nosort option", "in two passes",
    "register_parser", "functions", "for several commands", "concatenated tables", "shorthand", "adddescriptions", "linked twice" };
static const int c_num_routes = sizeof(c_routes) / sizeof(c_routes[0]);
static string opts_of(const M& m)
{
    string s;
    if (m.loop >= 0) s += ":loop(" + std::to_string(m.loop + 1) + ")";
    if (m.nofiles) s += ":nofiles()";
    if (!m.eof.empty()) s += m.eof == "--" ? ":setendofflags(true)" : ":setendofflags('" + m.eof + "')";
    if (!m.anywhere) s += ":setflagsanywhere(false)";
    return s;
}
static string word_of(const W& w) { return "'" + w.text + "'" + (w.link ? ".." + lua_of(*w.link) : ""); }
static string rest_of(const M& m)
{
    string s;
    for (auto& a : m.args) s += ":addarg({" + lua_words(a) + "})";
    if (!m.flags.empty()) s += ":addflags({" + lua_words(m.flags) + "})";
    return s + opts_of(m);
}
static bool hide_first(M& m) { if (m.flags.size() < 2) return false; m.flags[0].hidden = true; return true; }
// The Lua code that defines m along a route ("" if it isn't possible); may change m accordingly.
static string route(int r, M& m, const string& name, const string& other)
{
    string q = "clink.argmatcher('" + name + "')", s;
    switch (r)
    {
    case 0:
        s = q;
        if (!m.flags.empty()) s += ":addflags({" + lua_words(m.flags) + "})";
        s += opts_of(m);
        for (auto& a : m.args) s += ":addarg({" + lua_words(a) + "})";
        return s;
    case 1:
    {
        s = q + opts_of(m);
        size_t f = 0;
        for (auto& a : m.args) { s += ":addarg({" + lua_words(a) + "})"; if (f < m.flags.size()) s += ":addflags(" + word_of(m.flags[f++]) + ")"; }
        for (; f < m.flags.size(); ++f) s += ":addflags({" + word_of(m.flags[f]) + "})";
        return s;
    }
    case 2:
        s = q;
        for (auto& a : m.args) s += ":addarg(" + lua_words(a) + ")";
        if (!m.flags.empty()) s += ":addflags(" + lua_words(m.flags) + ")";
        return s + opts_of(m);
    case 3:
    {
        auto words = [](const vector<W>& v) {
            string s;
            for (auto& w : v) s += (s.empty() ? "" : ", ") + (w.link ? "{ { " + word_of(w) + " } }" : "{ match='" + w.text + "', description='d " + w.text + "' }");
            return s;
        };
        s = q;
        for (auto& a : m.args) s += ":addarg({" + words(a) + "})";
        if (!m.flags.empty()) s += ":addflags({" + words(m.flags) + "})";
        return s + opts_of(m);
    }
    case 4:
        return q + ":addarg('j'..clink.argmatcher():addarg('jj')):addarg('k'):addflags({'-j'..clink.argmatcher():addarg('jj'), '+k', '-x', nosort=true}):loop():nofiles():setendofflags('-q'):setflagsanywhere(false)"
            ":hideflags('-x', '-y'):adddescriptions({ a='da' }):setclassifier(function() return true end):chaincommand()\n"
            + q + ":reset()" + rest_of(m);
    case 5: return q + ":setdelayinit(function(am) am" + rest_of(m) + " end)";
    case 6:
        s = q;
        for (auto& a : m.args)
        {
            for (auto& w : a) if (w.link) return "";
            s += ":addarg({ delayinit=function() return {" + lua_words(a) + "} end })";
        }
        if (!m.flags.empty()) s += ":addflags({" + lua_words(m.flags) + "})";
        return s + opts_of(m);
    case 7: if (!hide_first(m)) return ""; return q + ":hideflags('" + m.flags[0].text + "')" + rest_of(m);
    case 8: if (!hide_first(m)) return ""; return q + rest_of(m) + ":hideflags('" + m.flags[0].text + "')";
    case 9:
    {
        if (m.args.empty() || m.args[0].size() < 2) return "";
        m.args[0][0].hidden = true;
        s = q;
        for (size_t i = 0; i < m.args.size(); ++i) s += ":addarg({" + string(i ? "" : "hide='" + m.args[0][0].text + "', ") + lua_words(m.args[i]) + "})";
        if (m.flags.size() > 1) m.flags[1].hidden = true;
        if (!m.flags.empty()) s += ":addflags({" + string(m.flags.size() > 1 ? "hide={'" + m.flags[1].text + "'}, " : "") + lua_words(m.flags) + "})";
        return s + opts_of(m);
    }
    case 10: case 11:
        // Backwards, so that the order shows.
        s = q;
        for (auto& a : m.args)
        {
            std::reverse(a.begin(), a.end());
            s += r == 10 ? ":addargunsorted({" + lua_words(a) + "})" : ":addarg({nosort=true, " + lua_words(a) + "})";
        }
        std::reverse(m.flags.begin(), m.flags.end());
        if (!m.flags.empty()) s += r == 10 ? ":addflagsunsorted(" + lua_words(m.flags) + ")" : ":addflags({" + lua_words(m.flags) + ", nosort=true})";
        return s + opts_of(m);
    case 12:
        s = q;
        for (auto& a : m.args) s += ":addarg({" + word_of(a[0]) + "})";
        if (!m.flags.empty()) s += ":addflags({" + word_of(m.flags[0]) + "})";
        s += "\n" + q;
        for (auto& a : m.args) { s += ":addarg({"; for (size_t i = 1; i < a.size(); ++i) s += (i > 1 ? ", " : "") + word_of(a[i]); s += "})"; }
        for (size_t i = 1; i < m.flags.size(); ++i) s += ":addflags({" + word_of(m.flags[i]) + "})";
        return s + opts_of(m);
    case 13:
        if (!m.anywhere || !m.eof.empty() || m.loop > 0) return "";
        s = "clink.arg.register_parser('" + name + "', clink.arg.new_parser():set_arguments(";
        for (size_t i = 0; i < m.args.size(); ++i) s += (i ? ", {" : "{") + lua_words(m.args[i]) + "}";
        s += ")";
        if (!m.flags.empty()) s += ":set_flags({" + lua_words(m.flags) + "})";
        if (m.loop >= 0) s += ":loop()";
        if (m.nofiles) s += ":disable_file_matching()";
        return m.args.empty() ? "" : s + ")";
    case 14:
        s = q;
        for (auto& a : m.args)
        {
            for (auto& w : a) if (w.link) return "";
            s += ":addarg(function() return {" + lua_words(a) + "} end)";
        }
        if (!m.flags.empty()) s += ":addflags({" + lua_words(m.flags) + "})";
        return s + opts_of(m);
    case 15: return "clink.argmatcher('" + other + "', '" + name + "')" + rest_of(m);
    case 16:
    {
        // { 'a', 'b' } .. linked
        s = q;
        bool any = false;
        for (auto& a : m.args) { s += ":addarg({"; for (auto& w : a) { s += w.link ? "{ '" + w.text + "' }.." + lua_of(*w.link) + ", " : "'" + w.text + "', "; any |= !!w.link; } s += "})"; }
        if (!m.flags.empty()) s += ":addflags({" + lua_words(m.flags) + "})";
        return any ? s + opts_of(m) : "";
    }
    case 17:
        s = q;
        for (auto& a : m.args) s += "({" + lua_words(a) + "})";
        if (!m.flags.empty()) s += "({" + lua_words(m.flags) + "})";
        return s + opts_of(m);
    case 18:
        s = q + ":adddescriptions({ a='x', b={ ' i', 'x' }, ['-x']='f' })" + rest_of(m) + ":adddescriptions({ 'a', '-y', description='y' }, { '-x', description={ ' i', 'z' } })";
        return s;
    case 19:
    {
        // Only the first argument and the flags are merged, and not the options.
        bool any = false;
        s = q;
        for (auto& a : m.args)
        {
            string first;
            for (auto& w : a)
                if (w.link)
                {
                    if (w.link->loop >= 0 || w.link->nofiles || !w.link->eof.empty() || !w.link->anywhere || w.link->args.size() != 1) return "";
                    any = true;
                    first += "'" + w.text + "'..clink.argmatcher(), ";
                }
            s += ":addarg({" + first + lua_words(a) + "})";
        }
        if (!m.flags.empty()) s += ":addflags({" + lua_words(m.flags) + "})";
        return any ? s + opts_of(m) : "";
    }
    }
    return "";
}
static vector<P> some_trees(size_t quick = 19)
{
    vector<P> v, all = l1_trees();
    size_t step = mc::thorough() ? 3 : quick;
    for (size_t i = 0; i < all.size(); i += step) v.push_back(all[i]);
    return v;
}
static bool lines_of(const M& m, int depth, const std::function<bool(const vector<string>&)>& f)
{
    std::set<string> vocab;
    bool eof = false;
    collect(m, vocab, eof);
    vector<string> words(vocab.begin(), vocab.end());
    words.push_back("z");
    if (eof) words.push_back("--");
    bool ok = true;
    vector<string> line;
    std::function<void()> rec = [&]() {
        if (!ok) return;
        ok = f(line);
        if (!ok || int(line.size()) >= depth) return;
        for (auto& w : words) { line.push_back(w); rec(); line.pop_back(); }
    };
    rec();
    return ok;
}
static bool build_case(const string& cs, const M& def, int r)
{
    M m = def;
    string name = fresh(), other = fresh();
    string code = route(r, m, name, other);
    if (code.empty()) return true;
    if (!run_lua(code)) return bad(cs, string("the definition (") + c_routes[r] + ") fails: " + code);
    mc::stat("argmatchers");
    bool order = r == 10 || r == 11;
    return lines_of(m, 2, [&](const vector<string>& words) {
        for (const char* end : { "", "-" })
        {
            string line = name;
            for (auto& w : words) line += " " + w;
            line += string(" ") + end;
            mc::current(cs);
            mc::stat("evaluations");
            meaning k(m), k2(m);
            for (auto& w : words) k.word(w);
            for (size_t i = 0; i < words.size(); ++i) k2.word(words[i], i + 1 == words.size());
            // Within the root's slots the order shows; elsewhere it's sorted.
            bool rooted = false;
            { k.resolve(end, true); rooted = order && k.st.size() == 1; }
            vector<string> want = k.offers(end, rooted);
            if (k.unsure) { mc::stat("not_specified"); continue; }
            vector<string> got = s_ed->complete(line);
            if (!rooted || k.files) got = sorted(got);
            if (want.size() > 1) mc::stat("distinct_nontrivial");
            if (got != want) return bad(cs, string(c_routes[r]) + ": " + line + " offers [" + join(got) + "] instead of [" + join(want) + "]; " + code);
            if (!*end && r != 6 && r != 14)
            {
                mc::stat("classified");
                string c = s_ed->classes(line);
                if (c.size() > 0) c = c.substr(1);
                while (c.size() > k2.classes.size() && c.back() == ' ') c.pop_back();
                if (c != k2.classes) return bad(cs, string(c_routes[r]) + ": words of " + line + " are classified as [" + c + "] instead of [" + k2.classes + "]; " + code);
            }
        }
        return true;
    });
}
static void build()
{
    vector<P> v = some_trees();
    size_t n = 0;
    for (size_t i = 0; i < v.size(); ++i)
        for (int r = 0; r < c_num_routes; ++r)
        {
            if (!mc::mine(n++) || mc::enough()) continue;
            mc::tick();
            build_case(std::to_string(i) + "/" + std::to_string(r), *v[i], r);
            if (n % 97 == 0) mc::sample(std::to_string(i) + ": " + c_routes[r] + " " + lua_of(*v[i]));
        }
}

//------------------------------------------------------------------------------
// The same words in other spellings, or reached in other ways (aliases, chaining, callbacks).
static std::map<string, string> s_aliases;
static DWORD WINAPI get_alias_w(LPWSTR name, LPWSTR buf, DWORD bytes, LPWSTR)
{
    auto i = s_aliases.find(ed::narrow(name));
    if (i == s_aliases.end()) { SetLastError(ERROR_GEN_FAILURE); return 0; }
    if (bytes < (i->second.size() + 1) * 2) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return 0; }
    size_t n = 0;
    for (char c : i->second) buf[n++] = uint8(c);
    buf[n] = 0;
    return DWORD(n * 2);
}
extern "C" { void* __imp_GetConsoleAliasW = (void*)get_alias_w; }

static string s_way_cs;
struct spelled { string line; vector<string> words; string end; bool classes; };
static const char* c_ways[] = {
    "redirections", "quotes", "blanks", "command names", "other commands", "doskey aliases",
    "chaincommand", "onadvance -1", "onalias", "onalias chain", "onlink", "onadvance 1", "onadvance 0"
};
static const int c_num_ways = sizeof(c_ways) / sizeof(c_ways[0]);
static string lua_with(const M& m, const string& name, const string& argopt, const string& flagopt)
{
    string s = "clink.argmatcher('" + name + "')";
    for (auto& a : m.args) s += ":addarg({" + argopt + lua_words(a) + "})";
    if (!m.flags.empty()) s += ":addflags({" + flagopt + lua_words(m.flags) + "})";
    return s + opts_of(m);
}
// Lua code for the way (in addition to the definition of name), or nothing if it's not applicable.
static string way_code(int way, const M& m, const string& name, const string& o)
{
    string def = lua_of(m, name);
    switch (way)
    {
    case 5:
        s_aliases.clear();
        s_aliases["al" + name] = name + " $*";
        s_aliases["ap" + name] = name + " " + (m.args.empty() ? m.flags[0].text : m.args[0].back().text) + " $*";
        s_aliases["aq" + name] = name + " a p $*";
        s_aliases["as" + name] = name + " a";
        s_aliases["ac" + name] = o + " k $*";
        return def + "\nclink.argmatcher('" + o + "'):addarg('k', 'l'):addflags('-k'):chaincommand()";
    case 6:
        return def + "\nclink.argmatcher('" + o + "'):addarg('k', 'l'..clink.argmatcher():chaincommand()):addflags('-k', '-l'..clink.argmatcher():chaincommand()):chaincommand()";
    case 7:
        return def + "\nclink.argmatcher('" + o + "'):addarg({ onadvance=function(i, w) if w:find('cmd') then return -1 elseif w == 'k' then return 0 end end, 'k', 'l' }):addarg({ onadvance=function(i, w) return -1 end })";
    case 8:
    {
        string f = "onalias=function(i, w) return ({ a='a', ya='a', yb='b z', ['-yx']='-x', yy='a -x', yp='a p' })[w] end, ";
        return lua_with(m, name, f, f);
    }
    case 9:
    {
        string f = "onalias=function(i, w) if w == 'ya' or w == '-ya' then return '" + name + " a', true elseif w == 'yc' or w == '-yc' then return '" + name + "', true end end, ";
        return def + "\nclink.argmatcher('" + o + "'):addarg({" + f + "'k'}):addflags({" + f + "'-k'}):nofiles()";
    }
    case 10:
    {
        if (m.args.empty()) return "";
        string t = "_G._lk_" + name;
        string s = t + "={}\n", q = "clink.argmatcher('" + name + "')";
        int slot = 0;
        for (auto& a : m.args)
        {
            ++slot;
            q += ":addarg({ onlink=function(l, i, w) return _lk_" + name + "[i..w] end, ";
            for (auto& w : a) { q += "'" + w.text + "', "; if (w.link) s += t + "['" + std::to_string(slot) + w.text + "']=" + lua_of(*w.link) + "\n"; }
            q += "})";
        }
        if (!m.flags.empty()) q += ":addflags({" + lua_words(m.flags) + "})";
        return s + q + opts_of(m);
    }
    case 11:
    {
        // Slots that are skipped; with loops the indexes differ.
        if (m.loop >= 0 || m.args.empty()) return "";
        string s = "clink.argmatcher('" + name + "')";
        for (auto& a : m.args) s += ":addarg({ onadvance=function() return 1 end, 'k' }):addarg({ onadvance=function() return 1 end, 'l'..clink.argmatcher():addarg('k') }):addarg({" + lua_words(a) + "})";
        if (!m.flags.empty()) s += ":addflags({" + lua_words(m.flags) + "})";
        return s + opts_of(m);
    }
    case 12:
    {
        // Repeating the first slot is a loop to it.
        if (m.loop != 0 || m.args.size() != 1) return "";
        string s = "clink.argmatcher('" + name + "'):addarg({ onadvance=function() return 0 end, " + lua_words(m.args[0]) + "})";
        if (!m.flags.empty()) s += ":addflags({" + lua_words(m.flags) + "})";
        M n = m;
        n.loop = -1;
        return s + opts_of(n);
    }
    }
    return def;
}
static void way_lines(int way, const M& m, const string& name, const string& o, const vector<string>& words, const string& end, const std::function<void(const spelled&)>& f)
{
    string rest;
    for (auto& w : words) rest += " " + w;
    rest += " " + end;
    // Quick: with two words only the first spelling of each kind.
    const bool full = mc::thorough() || words.size() < 2;
    bool first = true;
    auto same = [&](const string& line, bool classes = false) { if (full || first) f({ line, words, end, classes }); first = false; };
    switch (way)
    {
    case 0:
        for (const char* r : { ">fa", "2>&1", "<fa", ">> fa", "> \"fa\"" })
            for (size_t at = 0; at <= words.size(); ++at)
            {
                first = r[0] == '>' && r[1] == 'f';
                string l = name;
                for (size_t i = 0; i < words.size(); ++i) { if (i == at) l += string(" ") + r; l += " " + words[i]; }
                if (at == words.size()) l += string(" ") + r;
                same(l + " " + end);
            }
        same(string(">fa ") + name + rest);
        break;
    case 1:
    {
        if (words.empty()) break;
        for (size_t q = 0; q < (size_t(1) << words.size()); ++q)
        {
            string l = name;
            for (size_t i = 0; i < words.size(); ++i) l += (q & (1 << i)) ? " \"" + words[i] + "\"" : " " + words[i];
            same(l + " " + end, true);
        }
        break;
    }
    case 2:
        for (const char* b : { "  ", "\t", "   " })
        {
            string l = name;
            for (auto& w : words) l += b + w;
            same(l + b + end, true);
            same(b + l + b + end, true);
        }
        break;
    case 3:
    {
        string u = name;
        for (auto& c : u) c = char(toupper(c));
        for (const string& c : { u, name + ".exe", "\"" + name + "\"", "@" + name, "gd\\" + name, "C:\\gd\\" + u + ".EXE", "\"C:\\g d\\" + name + ".bat\"" }) same(c + rest, c.find_first_of("\"@/\\") == string::npos);
        break;
    }
    case 4:
        for (const char* p : { "z & ", "z&", "z | ", "z && ", "z|", "(", "z a -x & ( ", "echo \"&\" & ", "rem& ", "z ^& z & " }) { if (*p == 'r') continue; same(p + name + rest, true); }
        same(name + " a b & " + name + rest, true);
        break;
    case 5:
        same("al" + name + rest, true);
        same("ac" + name + " " + name + rest);
        same("z & al" + name + rest, true);
        {
            vector<string> w(words);
            w.insert(w.begin(), m.args.empty() ? m.flags[0].text : m.args[0].back().text);
            f({ "ap" + name + rest, w, end, false });
            w = words;
            w.insert(w.begin(), { "a", "p" });
            f({ "aq" + name + rest, w, end, false });
            f({ "aq" + name + " >fa" + rest, w, end, false });
            mc::stat("evaluations");
            vector<string> got = s_ed->complete("as" + name + rest);
            if (!got.empty()) bad(s_way_cs, "an alias without parameters: as" + name + rest + " offers [" + join(got) + "]");
        }
        break;
    case 6:
        for (const char* p : { " k ", " l ", " -l ", " -k k ", " k -k ", " k z & OO k ", " k >fa " })
        {
            string l = string(" ") + p;
            size_t at = l.find("OO");
            if (at != string::npos) l.replace(at, 2, o);
            bool chained = !strcmp(p, " k -k ");
            if (!chained) same(o + l + name + rest);
        }
        same(o + " k " + o + " k " + name + rest);
        break;
    case 7:
        same(o + " " + name + rest);
        same(o + " k k " + name + rest);
        same(o + " l " + name + rest);
        same(o + " k l " + o + " l " + name + rest);
        break;
    case 8:
    {
        // Each word in turn is an alias, if the root handles it.
        static const struct { const char* alias; const char* text; } t[] = { { "ya", "a" }, { "yb", "b z" }, { "-yx", "-x" }, { "yy", "a -x" }, { "yp", "a p" } };
        for (size_t i = 0; i <= words.size(); ++i)
            for (auto& a : t)
            {
                meaning k(m);
                for (size_t j = 0; j < i; ++j) k.word(words[j]);
                k.resolve(a.alias, false);
                const frame& fr = k.st.back();
                if (k.st.size() != 1 || (!meaning::flag(fr, a.alias, false) && fr.idx >= m.args.size())) continue;
                vector<string> w(words.begin(), words.begin() + i);
                for (auto& x : mc::split(a.text, ' ')) w.push_back(x);
                string l = name;
                for (size_t j = 0; j < words.size(); ++j) { if (j == i) l += string(" ") + a.alias; l += " " + words[j]; }
                if (i == words.size()) l += string(" ") + a.alias;
                w.insert(w.end(), words.begin() + i, words.end());
                f({ l + " " + end, w, end, false });
            }
        break;
    }
    case 9:
        same(o + " yc" + rest);
        same(o + " -yc" + rest);
        same(o + " -k yc" + rest);
        {
            vector<string> w(words);
            w.insert(w.begin(), "a");
            f({ o + " ya" + rest, w, end, false });
            f({ o + " -ya" + rest, w, end, false });
        }
        break;
    default:
        same(name + rest, true);
        break;
    }
}
static bool check_spelled(const string& cs, const string& what, const M& m, const spelled& s, const string& code)
{
    mc::current(cs);
    mc::stat("evaluations");
    meaning k(m), k2(m);
    for (auto& w : s.words) k.word(w);
    for (size_t i = 0; i < s.words.size(); ++i) k2.word(s.words[i], i + 1 == s.words.size());
    vector<string> want = k.offers(s.end);
    if (k.unsure) { mc::stat("not_specified"); return true; }
    vector<string> got = sorted(s_ed->complete(s.line));
    if (want.size() > 1) mc::stat("distinct_nontrivial");
    if (got != want) return bad(cs, what + ": " + s.line + " offers [" + join(got) + "] instead of [" + join(want) + "]; " + code);
    if (s.end.empty() && s.classes)
    {
        mc::stat("classified");
        string c = s_ed->classes(s.line);
        while (!c.empty() && c.back() == ' ') c.pop_back();
        string w = k2.classes;
        if (c.size() > w.size()) c = c.substr(c.size() - w.size());
        if (c != w) return bad(cs, what + ": words of " + s.line + " are classified as [" + c + "] instead of [" + w + "]; " + code);
    }
    return true;
}
static bool way_case(const string& cs, const M& m, int way)
{
    s_way_cs = cs;
    string name = fresh(), o = fresh();
    string code = way_code(way, m, name, o);
    if (code.empty()) return true;
    if (!run_lua(code)) return bad(cs, string("the definition (") + c_ways[way] + ") fails: " + code);
    mc::stat("argmatchers");
    return lines_of(m, 2, [&](const vector<string>& words) {
        bool ok = true;
        for (const char* end : { "", "-" })
            way_lines(way, m, name, o, words, end, [&](const spelled& s) { if (ok) ok = check_spelled(cs, c_ways[way], m, s, code); });
        return ok;
    });
}
static void ways()
{
    vector<P> v = some_trees(61);
    size_t n = 0;
    for (size_t i = 0; i < v.size(); ++i)
        for (int w = 0; w < c_num_ways; ++w)
        {
            if (!mc::mine(n++) || mc::enough()) continue;
            mc::tick();
            way_case(std::to_string(i) + "/" + std::to_string(w), *v[i], w);
            if (n % 97 == 0) mc::sample(std::to_string(i) + ": " + c_ways[w] + " " + lua_of(*v[i]));
        }
}

//------------------------------------------------------------------------------
// Flags with attached values and slots with several values.
struct part { const char* text; char kind; };   // Kind: a positional value, f flag (with its value, if any).
static vector<string> pick(const vector<string>& all, const string& prefix)
{
    vector<string> v;
    for (auto& x : all) if (x.compare(0, prefix.size(), prefix) == 0) v.push_back(x);
    return v;
}
static void parts()
{
    // Slots: 1 k or j; 2 m, n or several of r and g.
    static const char* defs[] = {
        ":addarg('j', 'k'):addarg('m', 'n')",
        ":addarg('j', 'k'):addarg({ loopchars=';', 'm', 'n' })",
        ":addarg('j', 'k'):addarg({ loopchars=',', nowordbreakchars=',', 'm', 'n' })",
        ":addarg('j', 'k'):addarg({ loopchars=',+', nowordbreakchars='+', 'm', 'n' })",
    };
    static const char* flagdefs[] = {
        ":addflags('-k='..clink.argmatcher():addarg('p', 'q'), '-l:'..clink.argmatcher():addarg('r', 's'), '-f=', '-g:', '-n', '-t'..clink.argmatcher():addarg('u', 'v'))",
        ":addflags({ nosort=true, '-k='..clink.argmatcher():addarg({ 'p', 'q' }), '-l:'..clink.argmatcher():addarg({ 'r', 's' }), '-f='..clink.argmatcher():addarg({ clink.filematches }), '-g:', '-n', '-t'..clink.argmatcher():addarg('u', 'v') })",
    };
    static const part items[] = {
        { "-k=p", 'f' }, { "-k=z", 'f' }, { "-k=", 'f' }, { "-k=\"p\"", 'f' }, { "-l:r", 'f' }, { "-l:\"z z\"", 'f' }, { "-l:", 'f' }, { "-f=fa", 'f' }, { "-f=", 'f' }, { "-g:fa", 'f' }, { "-g:\"f a\"", 'f' }, { "-g:", 'f' }, { "-n", 'f' }, { "-t u", 'f' },
        { "-z", 'f' }, { "-z:y", 'f' }, { "-z=y", 'f' }, { "j", 'a' }, { "z", 'a' }, { "\"z z\"", 'a' } };
    static const char* ends[] = { "", "-", "-k=", "-k=p", "-k=\"p", "-l:", "-l:s", "-l:z", "-f=", "-f=f", "-g:", "-g:f", "-t ", "-t v", "m" };
    const vector<string> flags = { "-f=", "-g:", "-k=", "-l:", "-n", "-t" };
    vector<string> files;
    for (auto& f : ed::files()) files.push_back(f);
    size_t n = 0;
    const int depth = mc::thorough() ? 3 : 2;
    const size_t ni = sizeof(items) / sizeof(items[0]);
    for (int d = 0; d < 4; ++d)
        for (int fd = 0; fd < 2; ++fd)
        {
            string name = fresh(), code = "clink.argmatcher('" + name + "')" + defs[d] + flagdefs[fd] + ":nofiles()";
            if (!run_lua(code)) { bad("", "the definition fails: " + code); continue; }
            vector<int> seq;
            std::function<void()> rec = [&]() {
                if (mc::enough()) return;
                if (mc::mine(n++))
                {
                    string line = name;
                    int slot = 0;
                    for (int i : seq) { line += string(" ") + items[i].text; slot += items[i].kind == 'a'; }
                    vector<string> e(std::begin(ends), std::end(ends));
                    // Several values in the second slot.
                    if (slot == 1 && d == 1) { e.push_back("m;"); e.push_back("m;n;"); e.push_back("m;n"); e.push_back("m; "); }
                    if (slot == 1 && d == 2) { e.push_back("m,"); e.push_back("m,n,"); e.push_back("m,n"); e.push_back("m, "); }
                    if (slot == 1 && d == 3) { e.push_back("m+"); e.push_back("m+n"); e.push_back("z,m+"); e.push_back("m,n"); }
                    for (auto& x : e)
                    {
                        vector<string> want;
                        string p = x.size() > 2 ? x.substr(3) : "";
                        if (!p.empty() && p[0] == '"') p = p.substr(1);
                        const vector<string> positional = slot == 0 ? vector<string>{ "j", "k" } : slot == 1 ? vector<string>{ "m", "n" } : vector<string>();
                        if (x == "-") want = flags;
                        else if (!x.compare(0, 3, "-k=")) want = pick({ "p", "q" }, p);
                        else if (!x.compare(0, 3, "-l:")) want = pick({ "r", "s" }, p);
                        else if (!x.compare(0, 3, "-f=") || !x.compare(0, 3, "-g:")) want = pick(files, p);
                        else if (!x.compare(0, 3, "-t ")) want = pick({ "u", "v" }, p);
                        else
                        {
                            size_t at = x.find_last_of(";,+ ");
                            string last = at == string::npos ? x : x.substr(at + 1);
                            if (d >= 1 && at != string::npos && x[at] == ' ') want = {};       // The slot after.
                            else want = pick(positional, last);
                        }
                        string l = line + " " + x;
                        mc::current(l + " | " + code);
                        mc::stat("evaluations");
                        if (want.size() > 1) mc::stat("distinct_nontrivial");
                        vector<string> got = sorted(s_ed->complete(l));
                        if (got != want) bad(l + " | " + code, l + " offers [" + join(got) + "] instead of [" + join(want) + "]; " + code);
                    }
                }
                if (int(seq.size()) >= depth) return;
                for (size_t i = 0; i < ni; ++i) { seq.push_back(int(i)); rec(); seq.pop_back(); }
            };
            rec();
        }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    settings::load("Z:\\nonexistent\\clink_settings");
    setting* ts = settings::find("match.translate_slashes");
    ts->set("system");
    ed::files() = { "fa", "fb", "gd\\" };
    lua_state lua;
    s_lua = &lua;
    lua_match_generator gen(lua);
    lua_word_classifier cls(lua);
    ed::editor e;
    s_ed = &e;
    e.e->set_generator(gen);
    e.e->set_classifier(cls);
    e.start();
    lua.send_event("onbeginedit");
    // Completing a command that is chained to (defined by the program, not the library).
    run_lua("clink._internal._exec_matches = clink._internal._exec_matches or function() return false end");
    if (mc::S().replaying)
    {
        string cs = mc::S().replay;
        if (g_mode == "build")
        {
            size_t slash = cs.find('/');
            build_case(cs, *some_trees()[atoi(cs.c_str())], atoi(cs.c_str() + slash + 1));
            return mc::done();
        }
        if (g_mode == "parts") { parts(); return mc::done(); }
        if (g_mode == "ways")
        {
            size_t slash = cs.find('/');
            way_case(cs, *some_trees(61)[atoi(cs.c_str())], atoi(cs.c_str() + slash + 1));
            return mc::done();
        }
        // "index | name words..."
        size_t bar = cs.find(" | ");
        vector<string> words = mc::split(cs.substr(bar + 3), ' ');
        words.erase(words.begin());
        vector<P> v = l1_trees();
        for (auto& p : l2_trees()) v.push_back(p);
        tree_case(cs.substr(0, bar), *v[atoi(cs.c_str())], 0, &words);
        return mc::done();
    }
    if (g_mode == "tree") tree();
    if (g_mode == "build") build();
    if (g_mode == "ways") ways();
    if (g_mode == "parts") parts();
    return mc::done();
}
