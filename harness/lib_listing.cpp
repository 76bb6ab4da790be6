// Listing the matches: every match once, in order, in columns that line up and fit the terminal.
//   --mode names | described
#define TERM_MAXW 64
#include "mc.h"
#include "utf8_locale.h"
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include "term.h"
#include "rl/rl_commands.h"
#include "rl/rl_module.h"
#include "rl/rl_buffer.h"
#include <lib/matches.h>
#include <lib/display_matches.h>
#include "matches_impl.h"
#include "display_readline.h"
extern "C" {
#include <readline/readline.h>
#include <readline/history.h>
#include <readline/rlprivate.h>
extern int _rl_print_completions_horizontally;
extern int _rl_completion_prefix_display_length;
extern int _rl_page_completions;
extern int rl_completion_auto_query_items;
extern void display_matches(char** matches);
extern int rl_completion_query_items;
}
void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user);
void set_test_harness();
void set_noasync_recognizer();
extern line_buffer* g_rl_buffer;
extern bool g_color_emoji;

using std::string;
using std::vector;

static string g_mode;
static term::out g_term;
static BOOL WINAPI my_csbi(HANDLE, CONSOLE_SCREEN_BUFFER_INFO* i)
{
    memset(i, 0, sizeof(*i));
    i->dwSize.X = g_term.s.W; i->dwSize.Y = 9000;
    i->dwCursorPosition.X = g_term.s.x; i->dwCursorPosition.Y = g_term.s.r;
    i->srWindow.Right = g_term.s.W - 1; i->srWindow.Top = g_term.s.top; i->srWindow.Bottom = g_term.s.top + g_term.s.H - 1;
    return true;
}
extern "C" void* __imp_GetConsoleScreenBufferInfo = (void*)my_csbi;

struct item { string name, desc; bool dir = false; };
static vector<item> s_items;
static bool give(char**, matches& m)
{
    match_builder b(m);
    b.set_no_sort();
    for (auto& i : s_items)
    {
        match_desc d(i.name.c_str(), nullptr, i.desc.empty() ? nullptr : i.desc.c_str(), i.dir ? match_type::dir : match_type::word);
        b.add_match(d);
        if (!i.desc.empty()) b.set_has_descriptions();
    }
    return true;
}

static int width(const string& s)
{
    int w = 0;
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = s[i];
        if ((c & 0xc0) == 0x80) continue;
        w += c == 0xe4 ? 2 : 1;
    }
    return w;
}
// What is on a row, one string per cell; "" is the second half of a wide character.
typedef vector<string> shown;
static shown row_of(int r)
{
    shown v;
    for (int i = 0; i < g_term.s.W; ++i) { auto& c = g_term.s.rows[r].c[i]; v.push_back(string(c.t, c.n)); }
    return v;
}
static bool is_at(const shown& row, size_t x, const string& text)
{
    string got;
    for (size_t i = x; i < row.size() && got.size() < text.size(); ++i) got += row[i];
    return got == text;
}
static bool blank_from(const shown& row, size_t x) { for (; x < row.size(); ++x) if (row[x] != " ") return false; return true; }
static string join(const shown& row) { string s; for (auto& c : row) s += c; while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }

struct setup { int W; bool horz, fit; int condense; };

static bool check(const string& cs, const setup& u)
{
    mc::current(cs);
    mc::stat("evaluations");
    auto bad = [&](const string& msg) {
        string all;
        for (int r = 1; r <= g_term.s.r && r < g_term.s.nrows && all.size() < 1500; ++r) all += "|" + join(row_of(r));
        mc::violation(g_mode + " " + cs, cs, msg + ": " + all);
        return false;
    };
    g_term.s.reset(u.W, 4000, 0);
    _rl_set_screen_size(4000, u.W);
    _rl_screenwidth = u.W; _rl_screenheight = 4000;
    // As sh_set_lines_and_columns does when the size of the terminal changes.
    static char columns[24];
    sprintf(columns, "COLUMNS=%d", u.W);
    putenv(columns);
    _rl_print_completions_horizontally = u.horz;
    _rl_completion_prefix_display_length = u.condense;
    _rl_page_completions = 0;
    rl_completion_auto_query_items = 0;
    rl_completion_query_items = 0;
    settings::find("match.fit_columns")->set(u.fit ? "true" : "false");
    rl_set_prompt(">");
    g_rl_buffer->begin_line();
    rl_forced_update_display();
    if (g_term.s.r != 0 || g_term.s.x != 1) return bad("the prompt is misplaced (" + std::to_string(g_term.s.r) + "," + std::to_string(g_term.s.x) + ")");

    static char one[4] = "x";
    char* matches[3] = { one, one, nullptr };
    rl_match_display_filter_func = give;
    display_matches(matches);
    (*rl_redisplay_function)();
    const int last = g_term.s.r;
    g_rl_buffer->end_line();

    if (mc::S().replaying) for (int r = 0; r <= last; ++r) fprintf(stderr, "|%s|\n", join(row_of(r)).c_str());
    if (join(row_of(0)) != ">") return bad("the line above the list changed");
    if (join(row_of(last)) != ">" || g_term.s.x != 1) return bad("the prompt isn't shown below the list");

    // How each is shown.
    vector<string> text;
    string common = s_items[0].name;
    for (auto& i : s_items) { size_t k = 0; while (k < common.size() && k < i.name.size() && common[k] == i.name[k]) k++; common.resize(k); }
    const bool condense = u.condense && width(common) > u.condense && width(common) > 3;
    int longest = 0;
    for (auto& i : s_items)
    {
        text.push_back((condense && i.name.size() > common.size() ? "..." + i.name.substr(common.size()) : i.name) + (i.dir ? "\\" : ""));
        longest = max(longest, width(text.back()));
    }

    const int n = int(s_items.size()), rows = last - 1;
    bool described = false;
    for (auto& i : s_items) described = described || !i.desc.empty();
    if (longest >= u.W)
    {
        // One after the other, going on in the next row.
        int r = 1;
        for (int k = 0; k < n; ++k)
        {
            string got;
            // A wide character goes to the next row as a whole.
            int need = 1, x = 0;
            for (size_t q = 0; q < text[k].size();)
            {
                size_t e = q + 1;
                while (e < text[k].size() && (text[k][e] & 0xc0) == 0x80) e++;
                const int w = width(text[k].substr(q, e - q));
                if (x + w > u.W) { need++; x = 0; }
                x += w;
                q = e;
            }
            for (int j = 0; j < need && r < last; ++j) got += join(row_of(r++));
            if (described ? got.compare(0, text[k].size(), text[k]) != 0 : got != text[k]) return bad("row " + std::to_string(r) + " shows " + got + ", not " + text[k]);
        }
        if (r != last) return bad("there are more rows than matches");
        return true;
    }
    if (rows < 1) return bad("nothing is listed");
    if (u.horz ? 0 : rows > n) return bad("there are more rows than matches");

    // The first row has all columns.
    int cols = 0;
    vector<int> at;
    if (u.horz)
    {
        for (cols = 1; cols < n && (n + cols - 1) / cols != rows; ++cols) ;
        if ((n + cols - 1) / cols != rows) return bad("the number of rows fits no number of columns");
    }
    // Horizontally several numbers of columns may give the same number of rows.
    for (int c = u.horz ? cols : (n + rows - 1) / rows; ; ++c)
    {
        if (u.horz ? c > n || (n + c - 1) / c != rows : c != (n + rows - 1) / rows) return bad("the columns don't line up, or something is missing");
        const shown first = row_of(1);
        // Where the columns begin: where the items of the first row are.
        at.clear();
        int x = 0;
        bool ok = true;
        for (int j = 0; ok && j < c; ++j)
        {
            const int k = u.horz ? j : j * rows;
            if (k >= n) break;
            if (j)
            {
                int widest = 0;
                for (int i = 0; i < rows; ++i) { const int p = u.horz ? i * c + j - 1 : (j - 1) * rows + i; if (p < n) widest = max(widest, width(text[p])); }
                x = at.back() + widest + 1;
                if (!described) while (x < u.W && first[x] == " ") x++;
                else while (x < u.W && !(x >= 4 && first[x - 1] == " " && first[x - 2] == " " && first[x - 3] == " " && first[x - 4] == " " && is_at(first, x, text[k]))) x++;
            }
            if (x >= u.W || !is_at(first, x, text[k])) ok = false;
            at.push_back(x);
        }
        if (ok)
        {
            for (int i = 0; ok && i < rows; ++i)
            {
                const shown row = row_of(1 + i);
                for (int j = 0; ok && j < int(at.size()); ++j)
                {
                    const int k = u.horz ? i * c + j : j * rows + i;
                    const int end = j + 1 < int(at.size()) ? at[j + 1] : u.W;
                    if (k >= n) { ok = blank_from(row, at[j]); break; }
                    if (!is_at(row, at[j], text[k]) || at[j] + width(text[k]) > (j + 1 < int(at.size()) ? end - 1 : u.W)) { ok = false; break; }
                    // What follows: the description, or as much of it as fits, or nothing.
                    string rest;
                    for (int q = at[j] + width(text[k]); q < end; ++q) rest += row[q];
                    while (!rest.empty() && rest.back() == ' ') rest.pop_back();
                    size_t lead = rest.find_first_not_of(' ');
                    if (lead == string::npos) { if (!s_items[k].desc.empty() && at[j] + longest + 7 < end) ok = false; continue; }
                    if (s_items[k].desc.empty() || lead == 0) { ok = false; break; }
                    rest = rest.substr(lead);
                    if (rest[0] == '(') { if (rest.back() != ')') { ok = false; break; } rest = rest.substr(1, rest.size() - 2); }
                    const string& d = s_items[k].desc;
                    if (rest == d) continue;
                    // As much of it as fits, and an ellipsis (only part of one where there's no room).
                    string head = rest;
                    if (head.size() >= 3 && head.compare(head.size() - 3, 3, "\xe2\x80\xa6") == 0) head.resize(head.size() - 3);
                    else { while (!head.empty() && head.back() == '.') head.pop_back(); if (head.size() == rest.size()) ok = false; }
                    while (!head.empty() && head.back() == ' ') head.pop_back();
                    if (d.compare(0, head.size(), head) != 0) ok = false;
                    // Shortened only where it doesn't fit.
                    if (ok && at.size() == 1 && longest + 4 + width(d) + 2 < end) ok = false;
                }
            }
            if (ok) { if (at.size() > 1) mc::stat("distinct_nontrivial"); break; }
        }
        if (!u.horz) return bad("the columns don't line up, or something is missing");
    }
    return true;
}

// n matches whose lengths follow a pattern.
static const int c_lens[] = { 1, 4, 7, 13, 30 };
static void fill(int n, int pattern, int kind)
{
    s_items.clear();
    for (int i = 0; i < n; ++i)
    {
        item it;
        int p = pattern;
        for (int k = i % 3; k; --k) p /= 5;
        const int len = c_lens[p % 5];
        it.name = kind & 1 ? string("prefix") : string();
        it.name += char('a' + i % 26);
        if (n > 26) it.name += char('a' + i / 26);
        while (width(it.name) < len) it.name += kind & 2 ? string("\xe4\xb8\xad") : string(1, char('0' + it.name.size() % 10));
        it.dir = (kind & 4) && i % 2;
        s_items.push_back(it);
    }
}
static bool run(int n, int pattern, int kind, int desc, const setup& u)
{
    static const char* const c_descs[] = { "", "d", "what it does", "a description that is rather long", "x   y" };
    fill(n, pattern, kind);
    for (int i = 0, d = desc; i < n && desc; ++i, d = d / 5 ? d / 5 : desc) s_items[i].desc = c_descs[d % 5];
    char b[120];
    sprintf(b, "%d;%d;%d;%d;%d;%d;%d;%d", n, pattern, kind, desc, u.W, u.horz, u.fit, u.condense);
    return check(b, u);
}
static void all()
{
    size_t serial = 0;
    const bool described = g_mode == "described";
    vector<int> ns = { 1, 2, 3, 4, 5, 6, 7, 9, 10, 13, 19 };
    if (mc::thorough()) { ns.clear(); for (int i = 1; i <= 24; ++i) ns.push_back(i); ns.push_back(40); }
    for (int n : ns)
        for (int pattern = 0; pattern < 125; ++pattern)
        {
            if (!mc::mine(serial++)) continue;
            for (int kind = 0; kind < 8; ++kind)
                for (int s = 0; s < 8; ++s)
                {
                    setup u = { 0, (s & 1) != 0, (s & 2) != 0, s & 4 ? 3 : 0 };
                    if (u.condense && !(kind & 1)) continue;
                    if (described && kind != 0 && kind != 5) continue;
                    for (u.W = 8; u.W <= 60; u.W += mc::thorough() ? 2 : described ? 5 : 4)
                    {
                        if (mc::enough()) return;
                        if (!described) { run(n, pattern, kind, 0, u); continue; }
                        for (int desc : { 1, 2, 3, 4, 11, 17, 55, 16 * 5 + 2 }) run(n, pattern, kind, desc, u);
                    }
                }
        }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    set_noasync_recognizer();
    set_test_harness();
    settings::TEST_set_ever_loaded();
    static printer pr(g_term);
    static printer_context ctx(&g_term, &pr);
    initialise_readline("clink", nullptr, nullptr, true);
    _rl_echoing_p = 1;
    _rl_utf8locale = 1;
    g_color_emoji = true;
    init_display_readline();
    static rl_module mod(nullptr);
    static rl_buffer buf;
    g_rl_buffer = &buf;
    if (mc::S().replaying)
    {
        auto f = mc::split(mc::S().replay, ';');
        vector<int> v;
        for (auto& x : f) v.push_back(atoi(x.c_str()));
        setup u = { v[4], v[5] != 0, v[6] != 0, v[7] };
        run(v[0], v[1], v[2], v[3], u);
        return mc::done();
    }
    all();
    return mc::done();
}
