// What the input line looks like: every sequence of line contents of a bounded space is displayed
// with the real incremental display code on a model of the terminal, and after each step the screen
// and the cursor must be those of the layout, computed from scratch.
//   --mode pairs | wide | faces | scroll | horz | end | hints
#include "mc.h"
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include <terminal/terminal_helpers.h>
#include "term.h"
#include "rl/rl_commands.h"
#include "rl/rl_module.h"
#include "rl/rl_buffer.h"
#include <lib/hinter.h>
#include "display_readline.h"
extern "C" {
#include <readline/readline.h>
#include <readline/history.h>
#include <readline/rlprivate.h>
extern int _rl_rprompt_shown_len;
}
#include <array>

using std::string;
using std::vector;
using term::cell;

// The version of Windows decides which workarounds the display uses: not those for old ones.
static int g_major = 10;
static BOOL WINAPI my_ver_a(LPOSVERSIONINFOA v) { v->dwMajorVersion = g_major; v->dwMinorVersion = 0; v->dwBuildNumber = 19045; v->dwPlatformId = 2; v->szCSDVersion[0] = 0; return true; }
static BOOL WINAPI my_ver_w(LPOSVERSIONINFOW v) { v->dwMajorVersion = g_major; v->dwMinorVersion = 0; v->dwBuildNumber = 19045; v->dwPlatformId = 2; v->szCSDVersion[0] = 0; return true; }
extern "C" void* __imp_GetVersionExA = (void*)my_ver_a;
extern "C" void* __imp_GetVersionExW = (void*)my_ver_w;

void set_test_harness();
extern line_buffer* g_rl_buffer;
void set_noasync_recognizer();
extern "C" void rl_set_forced_display(int);
extern printer* g_printer;
void rl_set_rprompt(const char*);
extern "C" void end_prompt_lf();
void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user);

// The C runtime's UTF-8 locale, which Wine's C runtime does not have.
extern "C" size_t mbrtowc(wchar_t* w, const char* s, size_t n, mbstate_t*)
{
    if (!s) return 0;
    if (!n) return size_t(-2);
    const unsigned char c = *s;
    const int need = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : 0;
    if (!need) return size_t(-1);
    unsigned u = need == 1 ? c : c & (0xff >> (need + 1));
    for (int i = 1; i < need; ++i)
    {
        if (size_t(i) >= n) return size_t(-2);
        if ((s[i] & 0xc0) != 0x80) return size_t(-1);
        u = u << 6 | (s[i] & 0x3f);
    }
    if (w) *w = u > 0xffff ? 0xfffd : wchar_t(u);
    return u ? need : 0;
}
extern "C" size_t mbrlen(const char* s, size_t n, mbstate_t* p) { return mbrtowc(nullptr, s, n, p); }
extern "C" int _rl_utf8locale;
extern bool g_color_emoji;

static term::out g_term;

//------------------------------------------------------------------------------
// Line contents are written in tokens, one letter each.
static const char* tok_text(char t)
{
    switch (t)
    {
    case 'W': return "\xe4\xb8\xad";        // wide
    case 'X': return "\xe6\x96\x87";        // another wide one
    case 'E': return "\xcc\x81";            // combining, but one column in the Windows console
    case 'T': return "\x01";                // ^A
    case 'D': return "\x7f";                // ^?
    case 'N': return "\n";
    case 'G': return "\xf0\x9f\x98\x80";    // emoji
    default:  { static char b[256][2]; b[(unsigned char)t][0] = t; return b[(unsigned char)t]; }
    }
}
static const char* tok_ctrl(char t, bool horz) { return t == 'T' ? "^A" : t == 'D' ? "^?" : (t == 'N' && horz) ? "^J" : nullptr; }
static char tok_face(char t)
{
    switch (t)
    {
    case 'h': return FACE_HISTEXPAND1;
    case 'i': return FACE_HISTEXPAND2;
    case 's': case '_': return FACE_SELECTION;
    }
    return FACE_NORMAL;
}
static const char* tok_shown(char t) { return t == '_' ? " " : tok_text(t); }

struct config
{
    string name;
    int W, H, max_rows;
    string prompt, rprompt;
    bool horz;
    int at;
    unsigned short rattr = 0;   // color of the right side prompt
    string label;
    bool preview = false;       // history.show_preview
};
// hint: 0 none, 1.. a hint, with 16 only after a while, 32.. a history expansion; mod: line is modified
struct state { string text; int point; int mark; int hint = 0; bool mod = false; };      // in tokens; mark < 0: none

static string describe(const state& s) { char b[40]; sprintf(b, "@%d", s.point); string o = s.text + b; if (s.mark >= 0) { sprintf(b, "^%d", s.mark); o += b; } if (s.hint) { sprintf(b, "?%d", s.hint); o += b; } if (s.mod) o += "*"; return o; }

// What is shown below the line.
static const char* const c_hints[] = { "", "H", "abcd", "hint\xe4\xb8\xad\xe4\xb8\xad", "a long hint for a row", "\xe4\xb8\xad\xe4\xb8\xad\xe4\xb8\xad\xe4\xb8\xad\xe4\xb8\xad\xe4\xb8\xad\xe4\xb8\xad\xe4\xb8\xad" };
static input_hint g_hint;
static bool g_hint_late;
const input_hint* get_input_hint() { return g_hint.empty() ? nullptr : &g_hint; }
DWORD input_hint::get_timeout() const { return g_hint_late ? 300 : 0; }
void input_hint::set(const char* hint, int32 pos) { m_empty = !hint || !*hint; m_hint = hint; m_pos = pos; }
void input_hint::clear() { m_hint.clear(); m_empty = true; m_pos = -1; }
void set_history_expansions(history_expansion* list);
extern "C" int _rl_mark_modified_lines;


//------------------------------------------------------------------------------
// The layout.
typedef std::array<cell, term::MAXW> cells;
typedef std::array<int, term::MAXW> owners;    // which token a cell belongs to; -1: none
struct span { owners own; int first, end; bool hard; };   // tokens of a row; hard: the row's end is end
struct layout
{
    vector<span> spans;
    vector<cells> rows;         // input rows; the first one starts at col0
    vector<int> lastcol;
    int cr = 0, cc = 0;
};
struct expected
{
    // Prompt.
    vector<cells> prows;
    int botlin, col0;
    layout l;
};
static unsigned short g_attr[256], g_attr32, g_attr_hint;
static string g_face_text[256];

static void attrs_init()
{
    g_term.s.reset(8, 3, 0);
    g_term.s.write("\x1b[32mx", 6);
    g_attr32 = g_term.s.rows[0].c[0].attr;
    g_term.s.reset(8, 3, 0);
    { setting* h = settings::find("color.comment_row"); str<> v; h->get(v); string e = string("\x1b[") + static_cast<setting_color*>(h)->get() + "mx"; g_term.s.write(e.c_str(), int(e.size())); }
    g_attr_hint = g_term.s.rows[0].c[0].attr;
    for (int f : { int(FACE_NORMAL), int(FACE_STANDOUT), int(FACE_HISTEXPAND1), int(FACE_HISTEXPAND2), int(FACE_SELECTION), int(FACE_SCROLL) })
    {
        g_term.s.reset(8, 3, 0);
        char face[1] = { char(f) };
        rl_puts_face_func("x", face, 1);
        g_attr[f] = g_term.s.rows[0].c[0].attr;
    }
}

static unsigned short attr_at(const state& s, size_t i)
{
    if (s.mark >= 0)
    {
        int a = s.mark < s.point ? s.mark : s.point, b = s.mark < s.point ? s.point : s.mark;
        if (int(i) >= a && int(i) < b) return g_attr[(unsigned char)FACE_STANDOUT];
    }
    return g_attr[(unsigned char)tok_face(s.text[i])];
}

static void put(cells& r, int& col, const char* t, int w, unsigned short attr)
{
    cell c;
    c.n = (unsigned char)strlen(t);
    memcpy(c.t, t, c.n);
    c.attr = attr;
    r[col++] = c;
    if (w == 2) { cell d; d.n = 0; d.attr = attr; r[col++] = d; }
}
static int tok_width(char t) { int n; const char* s = tok_text(t); return term::width_of(term::screen::decode(s, n)); }

static layout lay_out(const config& c, const state& s, int col)
{
    layout l;
    cells b;
    b.fill(term::blank());
    l.rows.push_back(b);
    span sp;
    sp.own.fill(-1); sp.first = sp.end = 0; sp.hard = false;
    size_t i = 0;
    auto next = [&]() { l.lastcol.push_back(col); l.rows.push_back(b); col = 0; sp.end = int(i); sp.hard = i < s.text.size() && s.text[i] == 'N'; l.spans.push_back(sp); sp.own.fill(-1); sp.first = int(i) + sp.hard; };
    for (; i <= s.text.size(); ++i)
    {
        if (i == s.text.size())
        {
            if (col >= c.W) next();
            if (int(i) == s.point) { l.cr = int(l.rows.size()) - 1; l.cc = col; }
            break;
        }
        char t = s.text[i];
        unsigned short a = attr_at(s, i);
        if (t == 'N')
        {
            if (int(i) == s.point) { l.cr = int(l.rows.size()) - 1; l.cc = col < c.W ? col : c.W - 1; }
            next();
            continue;
        }
        if (const char* two = tok_ctrl(t, false))
        {
            for (int k = 0; k < 2; ++k)
            {
                if (col >= c.W) next();
                if (!k && int(i) == s.point) { l.cr = int(l.rows.size()) - 1; l.cc = col; }
                char z[2] = { two[k], 0 };
                sp.own[col] = int(i);
                put(l.rows.back(), col, z, 1, a);
            }
            continue;
        }
        int w = tok_width(t);
        if (col + w > c.W) next();
        if (int(i) == s.point) { l.cr = int(l.rows.size()) - 1; l.cc = col; }
        for (int k = 0; k < w; ++k) sp.own[col + k] = int(i);
        put(l.rows.back(), col, tok_shown(t), w, a);
    }
    sp.end = int(s.text.size());
    sp.hard = true;
    l.spans.push_back(sp);
    l.lastcol.push_back(col);
    return l;
}

struct prompt_picture { vector<cells> rows; int botlin = 0, col = 0, prefix = 0; };
static string prompt_of(const config& c, bool mod)
{
    if (!mod) return c.prompt;
    size_t lf = c.prompt.rfind('\n');
    return lf == string::npos ? "*" + c.prompt : c.prompt.substr(0, lf + 1) + "*" + c.prompt.substr(lf + 1);
}
static prompt_picture picture(const config& c, bool mod = false)
{
    static std::map<string, prompt_picture> cache;
    char b[32]; sprintf(b, "%d|", c.W);
    const string prompt = prompt_of(c, mod);
    auto f = cache.find(b + prompt);
    if (f != cache.end()) return f->second;
    term::screen s;
    s.names = g_term.s.names; s.ids = g_term.s.ids;
    s.reset(c.W, 40, 0);
    string p;
    for (char ch : prompt) if (ch != 1 && ch != 2) p += ch;
    s.write(p.c_str(), int(p.size()));
    g_term.s.names = s.names; g_term.s.ids = s.ids;
    prompt_picture o;
    if (s.pending) { o.botlin = s.r + 1; o.col = 0; }
    else { o.botlin = s.r; o.col = s.x; }
    size_t lf = p.rfind('\n');
    if (lf != string::npos) { term::screen q; q.reset(c.W, 40, 0); q.write(p.c_str(), int(lf + 1)); o.prefix = q.r; }
    for (int i = 0; i <= o.botlin; ++i) { cells r; r.fill(term::blank()); for (int k = 0; k < c.W; ++k) r[k] = s.rows[i].c[k]; o.rows.push_back(r); }
    cache[b + prompt] = o;
    return o;
}

// The rows from the first one of the prompt, without what is blank at the bottom.
static bool same(const vector<cells>& want, const config& c, string& why)
{
    const term::screen& s = g_term.s;
    for (int k = 0; c.at + k < s.nrows || k < int(want.size()); ++k)
        for (int i = 0; i < c.W; ++i)
        {
            cell w = k < int(want.size()) ? want[k][i] : term::blank();
            cell g = c.at + k < s.nrows ? s.rows[c.at + k].c[i] : term::blank();
            if (!(w == g))
            {
                char b[100];
                sprintf(b, "row %d column %d", k, i);
                why = b;
                return false;
            }
        }
    return true;
}

static string show(const vector<cells>& v, int W)
{
    string o;
    for (auto& r : v) { o += "|"; unsigned short a = 0; for (int i = 0; i < W; ++i) { if (r[i].attr != a) { a = r[i].attr; o += "{" + g_term.s.names[a] + "}"; } o.append(r[i].t, r[i].n); } if (a) o += "{}"; o += "|"; }
    return o;
}

struct frame { vector<cells> rows; int cr, cc; vector<span> spans; };

static void frames_line(const config& c, const state& s, vector<frame>& out, int& nrows);
// The row below the line.
static bool hint_row(const config& c, const state& s, const vector<state>* before, cells& r)
{
    r.fill(term::blank());
    string t;
    if (s.hint & 32)
    {
        if (!c.preview) return false;
        t = "History expansion for \"";
        for (char k : s.text) t += tok_ctrl(k, true) ? tok_ctrl(k, true) : tok_shown(k);
        t += string("\": ") + (c_hints[s.hint & 15][0] ? c_hints[s.hint & 15] : "(empty)");
    }
    else
        t = c_hints[s.hint & 15];
    // A hint that comes after a while is there at once while one is shown.
    if ((s.hint & 16) && !(before && before->size() > 1 && [&] { cells x; vector<state> b(before->begin(), before->end() - 1); return hint_row(c, b.back(), &b, x); }())) return false;
    if (t.empty()) return false;
    vector<frame> fr;
    int nrows;
    frames_line(c, s, fr, nrows);
    const prompt_picture p = picture(c, s.mod);
    if (p.botlin - p.prefix + nrows >= c.H) return false;       // no room
    int total = 0, n, col = 0;
    for (const char* q = t.c_str(); *q; q += n) total += term::width_of(term::screen::decode(q, n));
    const int limit = c.W - 1;
    for (const char* q = t.c_str(); *q; q += n)
    {
        const int w = term::width_of(term::screen::decode(q, n));
        if (total > limit && col + w > limit - 1) { put(r, col, "\xe2\x80\xa6", 1, g_attr_hint); break; }
        put(r, col, string(q, n).c_str(), w, g_attr_hint);
    }
    return true;
}

// Every picture of the state that is acceptable: one when it fits, else one per scroll position.
static void frames_line(const config& c, const state& s, vector<frame>& out, int& nrows)
{
    out.clear();
    prompt_picture p = picture(c, s.mod);
    int max_rows = c.max_rows ? c.max_rows : 999999;
    if (max_rows > c.H - c.preview) max_rows = c.H - c.preview;
    const bool horz = c.horz || max_rows <= 1 || p.botlin - p.prefix + max_rows > c.H;
    const cell lt = [] { cell x; x.t[0] = '<'; x.n = 1; x.attr = g_attr[(unsigned char)FACE_SCROLL]; return x; }();
    cell gt = lt; gt.t[0] = '>';
    if (horz)
    {
        nrows = 1;
        for (size_t st = 0; st <= s.text.size(); ++st)
        {
            frame f;
            f.rows = p.rows;
            cells& r = f.rows.back();
            int col = p.col;
            if (st) { r.fill(term::blank()); r[0] = lt; col = 1; }
            const int limit = c.W - 2;
            f.cc = -1;
            span sp;
            sp.own.fill(-1);
            sp.first = int(st);
            size_t i = st;
            bool part = false;
            for (; i < s.text.size(); ++i)
            {
                const char* two = tok_ctrl(s.text[i], true);
                int w = two ? 2 : tok_width(s.text[i]);
                if (col + w > limit)
                {
                    if (two && col + 1 == limit)
                    {
                        // The first half of ^X may be shown.
                        part = true;
                        if (int(i) == s.point) f.cc = col;
                        sp.own[col] = int(i);
                        char z[2] = { two[0], 0 };
                        put(r, col, z, 1, attr_at(s, i));
                    }
                    break;
                }
                if (int(i) == s.point) f.cc = col;
                for (int k = 0; k < w; ++k) sp.own[col + k] = int(i);
                if (two) { for (int k = 0; k < 2; ++k) { char z[2] = { two[k], 0 }; put(r, col, z, 1, attr_at(s, i)); } }
                else put(r, col, tok_shown(s.text[i]), w, attr_at(s, i));
            }
            if (i == s.text.size() && s.point == int(i)) f.cc = col;
            if (i < s.text.size()) { if (col < c.W) r[col] = gt; ++col; }
            if (f.cc < 0) continue;
            sp.end = int(i);
            sp.hard = i == s.text.size();
            f.spans.push_back(sp);
            f.cr = p.botlin;
            if (!c.rprompt.empty() && p.botlin == p.prefix && col + 1 + int(c.rprompt.size()) < c.W)
                for (size_t k = 0; k < c.rprompt.size(); ++k) { r[c.W - c.rprompt.size() + k] = term::blank(c.rattr); r[c.W - c.rprompt.size() + k].t[0] = c.rprompt[k]; }
            out.push_back(f);
        }
        return;
    }
    layout l = lay_out(c, s, p.col);
    const int n = int(l.rows.size());
    const int R = n < max_rows ? n : max_rows;
    nrows = R;
    for (int t = 0; t + R <= n; ++t)
    {
        if (l.cr < t || l.cr >= t + R) continue;
        // The cursor is not on a scroll marker.
        if (l.cr == t && t > 0 && l.cc < 1) continue;
        if (l.cr == t + R - 1 && t + R < n && l.cc >= c.W - 2) continue;
        frame f;
        f.rows = p.rows;
        for (int k = 0; k < R; ++k)
        {
            cells r = l.rows[t + k];
            if (k == 0 && t == 0) { for (int i = 0; i < p.col; ++i) r[i] = p.rows.back()[i]; }
            if (k == 0 && t > 0)
            {
                if (c.W > 1 && r[1].n == 0) r[1] = term::blank(r[0].attr * 0);
                r[0] = lt;
            }
            if (k == R - 1 && t + R < n && l.lastcol[t + k] - (t + k == 0 ? p.col : 0) > 2)
            {
                int i = c.W - 2;
                if (r[i].n == 0) --i;
                for (; i < c.W; ++i) r[i] = term::blank();
                r[c.W - 2] = gt;
            }
            span sp = l.spans[t + k];
            if (k == 0 && t > 0) { sp.own[0] = -1; if (l.rows[t].at(1).n == 0) sp.own[1] = -1; }
            for (int i = 0; i < c.W; ++i) if (sp.own[i] >= 0 && !(r[i] == l.rows[t + k][i])) sp.own[i] = -1;
            f.spans.push_back(sp);
            if (k == 0) f.rows.back() = r; else f.rows.push_back(r);
        }
        if (n == 1 && p.botlin == p.prefix && !c.rprompt.empty() && l.lastcol[0] + 1 + int(c.rprompt.size()) < c.W)
            for (size_t k = 0; k < c.rprompt.size(); ++k) { cell x = term::blank(c.rattr); x.t[0] = c.rprompt[k]; f.rows.back()[c.W - c.rprompt.size() + k] = x; }
        f.cr = p.botlin + l.cr - t;
        f.cc = l.cc;
        out.push_back(f);
    }
}

static void frames(const config& c, const state& s, vector<frame>& out, int& nrows, const vector<state>* before = nullptr)
{
    frames_line(c, s, out, nrows);
    cells r;
    if (!hint_row(c, s, before, r)) return;
    for (auto& f : out) f.rows.push_back(r);
}

//------------------------------------------------------------------------------
// The code under test.
static string g_faces, g_mode, g_case;
static char my_face(int in, int b, int e)
{
    if (in >= b && in < e) return FACE_STANDOUT;
    return in < int(g_faces.size()) ? g_faces[in] : FACE_NORMAL;
}

static void set_line(const state& s)
{
    string t;
    g_faces.clear();
    int point = 0, mark = -1;
    for (size_t i = 0; i <= s.text.size(); ++i)
    {
        if (int(i) == s.point) point = int(t.size());
        if (int(i) == s.mark) mark = int(t.size());
        if (i == s.text.size()) break;
        t += tok_shown(s.text[i]);
        g_faces.resize(t.size(), tok_face(s.text[i]));
    }
    rl_extend_line_buffer(int(t.size()) + 1);
    memcpy(rl_line_buffer, t.c_str(), t.size() + 1);
    rl_end = int(t.size());
    rl_point = point;
    if (mark >= 0) { rl_mark = mark; rl_activate_mark(); }
    else rl_deactivate_mark();
    static UNDO_LIST undo = { nullptr, 0, 0, (char*)"", UNDO_BEGIN };
    rl_undo_list = s.mod ? &undo : nullptr;
    g_hint.clear();
    if (g_mode != "hints" && g_mode != "prompt") return;
    g_hint_late = (s.hint & 16) != 0;
    history_expansion* h = nullptr;
    if (s.hint & 32)
    {
        h = (history_expansion*)calloc(1, sizeof(*h));
        h->len = int(t.size());
        h->result = (char*)calloc(1, 100);
        strcpy((char*)h->result, c_hints[s.hint & 15]);
    }
    else if (s.hint)
        g_hint.set(c_hints[s.hint & 15], point);
    set_history_expansions(h);
}

static void set_setting(const char* name, const char* v) { setting* s = settings::find(name); if (!s || !s->set(v)) { printf("cannot set %s\n", name); ExitProcess(9); } }

static void begin(const config& c, bool show = true)
{
    g_term.s.reset(c.W, c.H, c.at);
    g_term.log.clear();
    _rl_screenwidth = c.W;
    _rl_screenheight = c.H;
    _rl_horizontal_scroll_mode = c.horz;
    static int rows = -1;
    if (rows != c.max_rows) { char b[20]; sprintf(b, "%d", c.max_rows); set_setting("clink.max_input_rows", b); rows = c.max_rows; }
    static int preview = -1;
    if (preview != c.preview) { preview = c.preview; set_setting("history.show_preview", preview ? "true" : "false"); }
    static string prompt, rprompt;
    if (!show) prompt = rprompt = "\xff";
    else if (prompt != c.prompt) { rl_set_prompt(c.prompt.c_str()); prompt = c.prompt; }
    if (show && rprompt != c.rprompt) { rl_set_rprompt(c.rprompt.c_str()); rprompt = c.rprompt; }
    rl_display_prompt = rl_prompt;
    set_line({ "", 0, -1 });
    rl_on_new_line();
    reset_display_readline();
    _rl_rprompt_shown_len = 0;
    if (!show) return;
    rl_set_forced_display(1);
    (*rl_redisplay_function)();
}

static string case_of(const config& c, const vector<state>& seq, bool end)
{
    if (!g_case.empty()) return g_case;
    string o = c.name;
    for (auto& s : seq) o += ";" + describe(s);
    if (end) o += ";!";
    return g_mode + ":" + o;
}

static bool judge(const config& c, const vector<state>& seq, const state& s, bool fresh_match_required)
{
    static vector<frame> fr;
    int nrows;
    frames(c, s, fr, nrows, &seq);
    term::screen& t = g_term.s;
    string why;
    bool cellok = false;
    for (auto& f : fr)
    {
        string w;
        if (!same(f.rows, c, w)) { if (why.empty()) why = w; continue; }
        cellok = true;
        if (t.r - c.at == f.cr && t.x == f.cc) { why.clear(); cellok = true; goto ok; }
    }
    {
        string m = string(cellok ? "the cursor is in the wrong place" : "the screen is wrong: " + why) + "\n after ";
        for (auto& q : seq) m += "[" + describe(q) + "] ";
        m += "in " + c.name + "\n screen " + g_term.s.dump(c.at) + "\n want  ";
        for (auto& f : fr) { char b[40]; sprintf(b, " cursor %d,%d ", f.cr, f.cc); m += " " + show(f.rows, c.W) + b; }
        mc::violation(g_mode + ":" + (c.label.empty() ? c.name : c.label) + (cellok ? ":cursor" : ":cells"), case_of(c, seq, false), m);
        return false;
    }
ok:
    if (!t.err.empty() || t.attr != 0 || t.pending)
    {
        mc::violation(g_mode + ":" + (c.label.empty() ? c.name : c.label) + ":terminal", case_of(c, seq, false), "the terminal is left in a bad state: " + t.err + (t.attr ? " attributes " + t.names[t.attr] : "") + (t.pending ? " pending wrap" : ""));
        return false;
    }
    return true;
}

// Clicking on each cell of the input line.
bool translate_xy_to_readline(uint32 x, uint32 y, int32& pos, bool clip);
static bool g_have_console;
static BOOL WINAPI my_csbi(HANDLE, CONSOLE_SCREEN_BUFFER_INFO* i)
{
    if (!g_have_console) { SetLastError(ERROR_INVALID_HANDLE); return false; }
    memset(i, 0, sizeof(*i));
    i->dwSize.X = g_term.s.W; i->dwSize.Y = 300;
    i->dwCursorPosition.X = g_term.s.x; i->dwCursorPosition.Y = g_term.s.r;
    i->srWindow.Right = g_term.s.W - 1; i->srWindow.Top = g_term.s.top; i->srWindow.Bottom = g_term.s.top + g_term.s.H - 1;
    return true;
}
extern "C" void* __imp_GetConsoleScreenBufferInfo = (void*)my_csbi;

static bool clicks(const config& c, const vector<state>& seq, const state& s)
{
    static vector<frame> fr;
    int nrows;
    frames(c, s, fr, nrows, &seq);
    string why;
    for (auto& f : fr)
    {
        if (!same(f.rows, c, why) || g_term.s.r - c.at != f.cr || g_term.s.x != f.cc) continue;
        vector<int> at;         // bytes before each token
        int b = 0;
        for (char t : s.text) { at.push_back(b); b += int(strlen(tok_shown(t))); }
        at.push_back(b);
        const prompt_picture p = picture(c);
        for (int k = 0; k < int(f.spans.size()); ++k)
            for (int x = 0; x < c.W; ++x)
            {
                const span& sp = f.spans[k];
                int lo, hi;
                if (sp.own[x] >= 0) lo = hi = sp.own[x];
                else
                {
                    // Right of the text, or left of it, or on a marker.
                    int last = -1;
                    for (int i = 0; i < c.W; ++i) if (sp.own[i] >= 0) last = i;
                    // A marker may hide the rest of a character begun on the row above,
                    // and a part of a character.
                    lo = max(sp.first - 1, 0); hi = sp.end;
                    const cells& shown = f.rows[p.botlin + k];
                    int right = c.W - 1;
                    while (right && shown[right].t[0] == ' ') --right;
                    const bool marked = (x <= 1 && shown[0].t[0] == '<') || (x >= right - 2 && shown[right].t[0] == '>');
                    if (k == 0 && sp.first == 0 && x < p.col) hi = lo = sp.first;
                    else if (marked) { if (x > 1 && last >= 0) lo = sp.own[last]; hi = min(hi + 1, int(s.text.size())); }
                    else if (x > last && sp.hard) lo = hi;
                    else if (x > last && last >= 0) { lo = sp.own[last]; hi = max(hi, min(lo + 1, int(s.text.size()))); }
                }
                int32 pos = -1;
                g_have_console = true;
                bool ok = translate_xy_to_readline(x, c.at + p.botlin + k, pos, false);
                g_have_console = false;
                mc::stat("clicks");
                // Only whole characters.
                bool whole = false;
                for (int i = lo; i <= hi && !whole; ++i) whole = at[i] == pos;
                if (!ok || !whole)
                {
                    char m[100];
                    sprintf(m, "clicking on row %d column %d moves to byte %d, expected token %d to %d\n", p.botlin + k, x, int(pos), lo, hi);
                    mc::violation(g_mode + ":" + c.name, case_of(c, seq, false), m + string(" screen ") + g_term.s.dump(c.at));
                    return false;
                }
            }
        return true;
    }
    return true;
}

static bool run(const config& c, const vector<state>& seq, bool end)
{
    // Showing that the line is modified may make such a hint wait again.
    for (size_t i = 1; i < seq.size(); ++i) if ((seq[i].hint & 16) && seq[i].mod != seq[i - 1].mod) return true;
    mc::tick();
    begin(c);
    vector<state> done;
    bool good = true;
    const bool all = mc::S().replaying;
    for (size_t i = 0; i < seq.size() && good; ++i)
    {
        set_line(seq[i]);
        (*rl_redisplay_function)();
        mc::stat("displays");
        if (i + 1 < seq.size() && !all) continue;      // the shorter sequences are enumerated too
        if (all) { done.assign(seq.begin(), seq.begin() + i + 1); good = judge(c, done, seq[i], true); }
        else good = judge(c, seq, seq[i], true);
    }
    if (good && g_mode == "click") good = clicks(c, seq, seq.back());
    mc::stat("evaluations");
    if (good && end)
    {
        // Enter: what was below the line goes, the rest stays;
        // what follows starts on its own row, below everything, and nothing shown is lost.
        vector<cells> before;
        for (int k = c.at; k < g_term.s.nrows; ++k) { cells r; r.fill(term::blank()); for (int i = 0; i < c.W; ++i) r[i] = g_term.s.rows[k].c[i]; before.push_back(r); }
        vector<frame> fr;
        int nrows;
        frames(c, seq.back(), fr, nrows, &seq);
        const int last = picture(c, seq.back().mod).botlin + nrows;
        cells below;
        if (hint_row(c, seq.back(), &seq, below) && last < int(before.size())) before[last].fill(term::blank());
        while (!before.empty() && before.back() == [] { cells b; b.fill(term::blank()); return b; }()) before.pop_back();
        end_prompt_lf();
        string why;
        bool ok = same(before, c, why);
        const int rel = g_term.s.r - c.at;
        // A last row that is blank is the one that what follows starts on.
        const bool blank = last > 1 && (last > int(before.size()));
        if (!ok || g_term.s.x || g_term.s.pending || rel < last - blank || rel > last)
            mc::violation(g_mode + ":" + c.name + ":enter", case_of(c, seq, true), "after Enter: " + (ok ? string("the cursor") : "the screen, " + why) + "\n screen " + g_term.s.dump(c.at) + "\n before " + show(before, c.W));
    }
    return good;
}

//------------------------------------------------------------------------------
// The prompt changes while the line is edited.
static rl_module* g_module;
struct pstep { int prompt, rprompt; state s; bool is_prompt, transient; };
static const char* const c_prompts[] = { ">", "", "abcde", "abcdefg>", "p\nq", "ab\n\ncd", "\x1b[31mX\x1b[m>", "p\nabcdefg" };
static const char* const c_rprompts[] = { "", "R", "\x1b[32mRR\x1b[m" };

static string pcase(const config& c, const vector<pstep>& seq)
{
    string o = "prompt:" + c.name;
    for (auto& p : seq) { char b[40]; sprintf(b, "%c%d,%d", p.transient ? 'T' : 'P', p.prompt, p.rprompt); o += ";" + (p.is_prompt ? string(b) : describe(p.s)); }
    return o;
}

static bool prun(const config& base, const vector<pstep>& seq)
{
    mc::tick();
    config c = base;
    c.prompt = c_prompts[0]; c.rprompt = "";
    begin(c, false);
    g_module->set_prompt(c.prompt.c_str(), c.rprompt.c_str(), false);
    rl_display_prompt = rl_prompt;
    rl_set_forced_display(1);
    (*rl_redisplay_function)();
    state s = { "", 0, -1 };
    vector<state> shown;
    for (size_t i = 0; i < seq.size(); ++i)
    {
        const pstep& p = seq[i];
        if (p.is_prompt)
        {
            c.prompt = c_prompts[p.prompt];
            c.rprompt = c_rprompts[p.rprompt];
            g_module->set_prompt(c.prompt.c_str(), c.rprompt.c_str(), true, p.transient);
        }
        else
        {
            s = p.s;
            set_line(s);
            (*rl_redisplay_function)();
        }
        mc::stat("displays");
        if (i + 1 < seq.size()) continue;
        c.name = pcase(base, seq).substr(7);
        g_case = "prompt:" + c.name;
        config q = c;
        q.rprompt.clear();
        for (const char* r = c.rprompt.c_str(); *r; ++r) { if (*r == 27) { while (*r != 'm') ++r; continue; } q.rprompt += *r; }
        q.rattr = c.rprompt.size() > 2 ? g_attr32 : 0;
        q.label = base.name;
        if (p.transient) s.hint = 0;
        shown = { s };
        const bool ok = judge(q, shown, s, true);
        g_case.clear();
        mc::stat("evaluations");
        if (p.prompt != 0) mc::stat("distinct_nontrivial");
        return ok;
    }
    return true;
}

//------------------------------------------------------------------------------
static vector<config> configs(const string& mode)
{
    vector<config> v;
    auto add = [&](int W, int H, int mr, const char* p, const char* rp, bool hz, int at) {
        config c; char b[100];
        c.W = W; c.H = H; c.max_rows = mr; c.prompt = p; c.rprompt = rp; c.horz = hz; c.at = at;
        string pe; for (const char* q = p; *q; ++q) { if (*q == 1 || *q == 2) continue; if (*q == 27) pe += "~"; else if (*q == '\n') pe += "/"; else pe += *q; }
        sprintf(b, "w%dh%dm%d[%s][%s]%s+%d", W, H, mr, pe.c_str(), rp, hz ? "z" : "", at);
        c.name = b;
        v.push_back(c);
    };
    const bool th = mc::thorough() || mc::S().replaying;
    if (mode == "hints")
    {
        add(7, 5, 0, ">", "", false, 0);
        add(7, 5, 0, ">", "", false, 4);
        add(9, 5, 0, ">", "R", false, 0); v.back().preview = true; v.back().name += "p";
        add(6, 8, 3, "abcdef", "", false, 2); v.back().preview = true; v.back().name += "p";
        add(13, 4, 0, ">", "", true, 0); v.back().preview = true; v.back().name += "p";
        add(6, 3, 0, "", "", false, 0); v.back().preview = true; v.back().name += "p";
        add(6, 3, 0, "p\n>", "", false, 0);
    }
    else if (mode == "pairs" || mode == "wide" || mode == "faces")
    {
        add(6, 6, 0, ">", "", false, 0);
        add(6, 6, 0, ">", "", false, 5);
        add(5, 6, 0, "", "", false, 0);
        add(8, 6, 0, "\x01\x1b[31m\x02>\x01\x1b[m\x02", "R", false, 0);
        add(6, 8, 4, "abcdef", "", false, 0);
        add(6, 8, 4, "abcdefg>", "", false, 1);
        if (mode == "pairs") add(4, 6, 0, "p\nq", "", false, 0);
        if (mode == "pairs") add(9, 6, 0, ">", "RR", false, 0);
        if (th) { add(4, 8, 0, ">", "", false, 7); add(7, 6, 0, ">>", "", false, 0); }
    }
    else if (mode == "scroll")
    {
        add(4, 3, 0, ">", "", false, 0);
        add(4, 6, 2, ">", "", false, 5);
        add(5, 6, 2, "", "", false, 0);
        add(5, 6, 3, "abcde", "", false, 0);
        if (th) { add(5, 3, 0, ">", "", false, 2); add(6, 5, 3, "abcdefg", "", false, 0); }
    }
    else if (mode == "horz")
    {
        add(13, 5, 0, ">", "", true, 0);
        add(13, 5, 1, "", "", false, 4);
        add(14, 5, 0, ">", "R", true, 0);
        if (th) { add(14, 5, 0, ">>", "", true, 0); add(13, 2, 0, "abcdefghijklmno", "", false, 0); }
    }
    else if (mode == "prompt")
    {
        add(5, 20, 3, ">", "", false, 0);
        add(8, 20, 0, ">", "", false, 4);
        if (th) add(7, 12, 0, ">", "", false, 9);
    }
    else if (mode == "click")
    {
        add(6, 8, 0, ">", "", false, 0);
        add(6, 8, 0, "", "", false, 3);
        add(5, 8, 2, ">>", "", false, 1);
        add(6, 8, 3, "abcdefg>", "", false, 0);
        add(6, 8, 0, "p\nq", "", false, 0);
        add(13, 8, 0, ">", "", true, 2);
    }
    else if (mode == "end")
    {
        add(5, 6, 0, ">", "", false, 0);
        add(5, 6, 0, ">", "", false, 5);
        add(5, 3, 0, ">", "", false, 0);
        add(6, 6, 4, "abcdef", "", false, 0);
        add(13, 5, 0, ">", "", true, 0);
        add(8, 5, 0, ">", "R", false, 0);
    }
    return v;
}

static void strings(const string& alphabet, int maxlen, vector<string>& out)
{
    out.clear();
    out.push_back("");
    for (size_t b = 0, n = 0; int(n) < maxlen; ++n)
    {
        size_t e = out.size();
        for (; b < e; ++b) for (char c : alphabet) out.push_back(out[b] + c);
    }
}

static void pairs(const config& c, const vector<string>& S, bool marks, mc::ull& index)
{
    for (size_t i = 0; i < S.size(); ++i)
    {
        if (!mc::mine(index++)) continue;
        if (mc::enough()) return;
        for (int pa = 0; pa < 2; ++pa)
        {
            if (pa && S[i].empty()) break;
            state a = { S[i], pa ? 0 : int(S[i].size()), -1 };
            for (auto& t : S)
                for (int pb = 0; pb <= int(t.size()); ++pb)
                {
                    if (pb != 0 && pb != int(t.size()) && !(pa == 0 && pb == int(t.size()) / 2)) continue;
                    for (int m = -1; m <= (marks ? int(t.size()) : -1); ++m)
                    {
                        if (m == pb) continue;
                        run(c, { a, { t, pb, m } }, false);
                        if (!t.empty() && t != S[i]) mc::stat("distinct_nontrivial");
                    }
                }
        }
    }
}

static void triples(const config& c, const vector<string>& S, mc::ull& index, const vector<string>& C)
{
    for (auto& x : S) for (auto& y : S)
    {
        if (!mc::mine(index++)) continue;
        if (mc::enough()) return;
        for (auto& z : C)
            for (int k = 0; k < 4; ++k)
            {
                state a = { x, (k & 1) ? 0 : int(x.size()), -1 }, b = { y, (k & 2) ? 0 : int(y.size()), -1 };
                for (int p = 0; p <= int(z.size()); ++p)
                {
                    run(c, { a, b, { z, p, -1 } }, false);
                    mc::stat("distinct_nontrivial");
                }
            }
    }
}

// Cursor moves, insertions and deletions inside a long line: every sequence of a few such steps.
static void moves(const config& c, const vector<string>& base, int depth, mc::ull& index)
{
    for (auto& t : base)
        for (int p0 = 0; p0 <= int(t.size()); ++p0)
        {
            if (!mc::mine(index++)) continue;
            if (mc::enough()) return;
            std::function<void(vector<state>&, int)> go = [&](vector<state>& seq, int left) {
                run(c, seq, false);
                if (seq.size() > 1) mc::stat("distinct_nontrivial");
                if (!left || mc::enough()) return;
                const state s = seq.back();
                vector<state> nexts;
                for (int p = 0; p <= int(s.text.size()); ++p) if (p != s.point) nexts.push_back({ s.text, p, -1 });
                for (char ins : { 'b', 'W' }) { state n = s; n.text.insert(size_t(n.point), 1, ins); n.point++; nexts.push_back(n); }
                if (s.point > 0) { state n = s; n.point--; n.text.erase(size_t(n.point), 1); nexts.push_back(n); }
                { state n = s; n.text.erase(size_t(n.point)); nexts.push_back(n); }
                { state n = s; n.text.erase(0, size_t(n.point)); n.point = 0; nexts.push_back(n); }
                for (auto& n : nexts) { seq.push_back(n); go(seq, left - 1); seq.pop_back(); }
            };
            vector<state> seq = { { t, p0, -1 } };
            go(seq, depth);
        }
}

static void explore()
{
    mc::ull index = 0;
    const bool th = mc::thorough();
    vector<string> S, C;
    for (auto& c : configs(g_mode))
    {
        if (mc::enough()) break;
        if (g_mode == "pairs")
        {
            strings("ab ", th ? 6 : 4, S);
            pairs(c, S, false, index);
            strings("a ", 6, S);
            pairs(c, S, false, index);
            strings("a ", th ? 3 : 2, S); S.push_back("abab"); S.push_back("a baaab"); S.push_back("aaaaaaaaaaaa");
            triples(c, S, index, S);
        }
        else if (g_mode == "wide")
        {
            strings(th ? "aWET N" : "aWTN", th ? 4 : 3, S);
            pairs(c, S, false, index);
            strings("aWEG", 3, S);
            pairs(c, S, false, index);
        }
        else if (g_mode == "faces")
        {
            strings("ahi_ ", th ? 4 : 3, S);
            pairs(c, S, false, index);
            strings("ah", th ? 6 : 5, S);
            pairs(c, S, false, index);
            strings("a ", th ? 4 : 3, S);
            pairs(c, S, true, index);
            // The region changes while the text stays.
            for (auto t : { "abc", "a  ", "abcdefghij", "abW TNa" })
                for (int q = 0; q <= int(strlen(t)); ++q)
                {
                    if (!mc::mine(index++)) continue;
                    for (int m = -1; m <= int(strlen(t)); ++m)
                        for (int q2 = 0; q2 <= int(strlen(t)); ++q2)
                            for (int m2 = -1; m2 <= int(strlen(t)); ++m2) if (m != q && m2 != q2) { run(c, { { t, q, m }, { t, q2, m2 } }, false); mc::stat("distinct_nontrivial"); }
                }
        }
        else if (g_mode == "scroll")
        {
            S = { "abcdefghijklmnop", "abcWefWhijklWWop", "aNbNcNdNe", "abcTTefTgNhijNN", "WWWWWWWWWW" };
            moves(c, { S[1], S[2] }, 3, index);
            moves(c, { S[0], S[3], S[4] }, th ? 3 : 2, index);
        }
        else if (g_mode == "horz")
        {
            S = { "abcdefghijklmnop", "abWdeTgWWjkTTnop", "aNbc", "WWWWWWWWWW", "TTTTTTTTT" };
            moves(c, S, th ? 3 : 2, index);
            strings("aWT", 3, S);
            pairs(c, S, false, index);
        }
        else if (g_mode == "prompt")
        {
            vector<pstep> A;
            for (int p = 0; p < int(sizeof(c_prompts) / sizeof(*c_prompts)); ++p)
                for (int r = 0; r < 3; ++r) A.push_back({ p, r, {}, true, false });
            for (auto t : { "", "a", "abWd", "abcdeWfab", "aNb", "NN", "a     ", "abcdabcdabcdabcd" })
                for (int k = 0; k < 2; ++k) if (!k || *t) A.push_back({ 0, 0, { t, k ? 0 : int(strlen(t)), -1 }, false, false });
            A.push_back({ 0, 0, { "a", 1, -1, 2 }, false, false });
            A.push_back({ 0, 0, { "abcdeWfab", 9, -1, 4 }, false, false });
            for (auto& x : A)
            {
                if (mc::mine(index++)) prun(c, { x });
                for (auto& y : A)
                {
                    if (!mc::mine(index++)) continue;
                    prun(c, { x, y });
                    for (int t = 0; t < int(sizeof(c_prompts) / sizeof(*c_prompts)); ++t)
                        for (int r = 0; r < 2; ++r) prun(c, { x, y, { t, r, {}, true, true } });
                    for (auto& z : A)
                    {
                        prun(c, { x, y, z });
                        if (th) for (auto& w : A) prun(c, { x, y, z, w });
                    }
                    if (mc::enough()) return;
                }
            }
        }
        else if (g_mode == "hints")
        {
            // Each step is a line with or without something below it.
            vector<state> A;
            for (auto t : { "", "a", "aWT", "abcdefgh", "abNcd", "aNbNcNdNeNf", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz" })
                for (int k = 0; k < 3; ++k)
                {
                    const int n = int(strlen(t)), pt = k == 0 ? n : k == 1 ? 0 : n / 2;
                    if ((k && !n) || (k == 2 && n < 3)) continue;
                    for (int h : { 0, 1, 2, 3, 4, 5, 17, 20, 32, 33, 36 })
                    {
                        if ((h & 32) && (!c.preview || !n || strchr(t, 'N'))) continue;
                        if (k && h > 4) continue;
                        A.push_back({ t, pt, -1, h, false });
                        if (h == 0 || h == 4) A.push_back({ t, pt, -1, h, true });
                    }
                }
            const bool three = th || c.W == 7 || c.preview;
            for (size_t i = 0; i < A.size(); ++i)
                for (size_t j = 0; j < A.size(); ++j)
                {
                    if (!mc::mine(index++)) continue;
                    if (mc::enough()) break;
                    if (!i) run(c, { A[j] }, true);
                    run(c, { A[i], A[j] }, true);
                    mc::stat("distinct_nontrivial");
                    if (three && (th || (i + j) % 8 == 0))
                        for (auto& z : A) run(c, { A[i], A[j], z }, true);
                }
        }
        else if (g_mode == "click")
        {
            strings("aWTN", th ? 7 : 6, S);
            for (auto& x : S)
            {
                if (!mc::mine(index++)) continue;
                for (int p = 0; p <= int(x.size()); ++p) run(c, { { x, p, -1 } }, false);
                mc::stat("distinct_nontrivial");
                if (mc::enough()) break;
            }
            moves(c, { "abcWefWhijklWWop", "abcTTefTgNhijNNaaaa", "aNbNcNdNe" }, th ? 2 : 1, index);
        }
        else if (g_mode == "end")
        {
            strings("aWTN", th ? 7 : 6, S);
            for (auto& s : S)
            {
                if (!mc::mine(index++)) continue;
                for (int p = 0; p <= int(s.size()); ++p) { run(c, { { s, p, -1 } }, true); mc::stat("distinct_nontrivial"); }
            }
        }
    }
}

static bool parse_state(const string& x, state& s)
{
    size_t at = x.rfind('@');
    if (at == string::npos) return false;
    s.text = x.substr(0, at);
    s.mark = -1;
    sscanf(x.c_str() + at, "@%d^%d", &s.point, &s.mark);
    s.hint = 0;
    if (x.find('?', at) != string::npos) s.hint = atoi(x.c_str() + x.find('?', at) + 1);
    s.mod = x.find('*', at) != string::npos;
    return true;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    set_noasync_recognizer();
    set_test_harness();
    settings::TEST_set_ever_loaded();
    static printer pr(g_term);
    static printer_context ctx(&g_term, &pr);
    initialise_readline("clink", nullptr, nullptr, true);
    _rl_echoing_p = 1;
    _rl_utf8locale = 1;
    g_color_emoji = true;
    set_setting("history.show_preview", "false");
    init_display_readline();
    static rl_module mod(nullptr);
    g_module = &mod;
    static rl_buffer buf;
    g_rl_buffer = &buf;
    rl_get_face_func = my_face;
    _rl_mark_modified_lines = 1;
    using_history();
    add_history("x");
    history_set_pos(0);
    attrs_init();
    if (mc::S().replaying)
    {
        string r = mc::S().replay;
        g_mode = r.substr(0, r.find(':'));
        r = r.substr(r.find(':') + 1);
        auto f = mc::split(r, ';');
        for (auto& c : configs(g_mode)) if (c.name == f[0])
        {
            vector<state> seq;
            bool end = false;
            for (size_t i = 1; i < f.size(); ++i) { state s; if (f[i] == "!") end = true; else if (parse_state(f[i], s)) seq.push_back(s); }
            g_term.keep_log = true;
            if (g_mode == "prompt")
            {
                vector<pstep> ps;
                for (size_t i = 1; i < f.size(); ++i)
                {
                    pstep p = {};
                    char k;
                    if (f[i].find('@') == string::npos) { sscanf(f[i].c_str(), "%c%d,%d", &k, &p.prompt, &p.rprompt); p.is_prompt = true; p.transient = k == 'T'; }
                    else parse_state(f[i], p.s);
                    ps.push_back(p);
                }
                prun(c, ps);
            }
            else
                run(c, seq, end);
            if (getenv("MC_LOG")) printf("LOG %s\n", mc::esc(g_term.log).c_str());
        }
        return mc::done();
    }
    explore();
    mc::sample("alphabets: letters, blanks, wide, combining, emoji, ^X, newlines, faces, marks");
    return mc::done();
}
