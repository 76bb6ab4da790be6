// Key input: every sequence of console input records of a bounded alphabet, read through every
// pattern of available(), peek(), select() and read(), reaches the editor as exactly the bytes of
// the typed text and keys, each once, in order; also around a request to the terminal.
//   --mode text | request | keys
#include "mc.h"
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include "win_terminal_in.h"
#include <terminal/screen_buffer.h>
#include <terminal/key_tester.h>
#include <deque>
#include <memory>

using std::string;
using std::vector;

extern const char* find_key_name(const char* keyseq, int32& len, int32& eqclass, int32& order);
extern void reset_keyseq_to_name_map();

static string g_mode;
static bool bad(const string& cs, const string& msg) { mc::violation(g_mode + " " + cs, cs, msg); return false; }

//------------------------------------------------------------------------------
// The console.
static std::deque<INPUT_RECORD> s_queue;
static string s_response;                       // What the terminal appends when it gets a request.
static bool s_response_ups = false;
static int s_split = -1;                        // The response's characters from here on come late.
static vector<INPUT_RECORD> s_after;            // Typed while waiting, after the response.
static SHORT s_cols = 80;
static bool s_blocked = false;
static DWORD s_ticks = 0;
static HANDLE s_in = HANDLE(0x10), s_out = HANDLE(0x14);
static string s_written;

static INPUT_RECORD key(WCHAR ch, WORD vk, DWORD flags, bool down)
{
    INPUT_RECORD r = {};
    r.EventType = KEY_EVENT;
    r.Event.KeyEvent.bKeyDown = down;
    r.Event.KeyEvent.wRepeatCount = 1;
    r.Event.KeyEvent.wVirtualKeyCode = vk;
    r.Event.KeyEvent.uChar.UnicodeChar = ch;
    r.Event.KeyEvent.dwControlKeyState = flags;
    return r;
}
static INPUT_RECORD mouse(int x, int y, DWORD buttons, DWORD what)
{
    INPUT_RECORD r = {};
    r.EventType = MOUSE_EVENT;
    r.Event.MouseEvent.dwMousePosition.X = SHORT(x);
    r.Event.MouseEvent.dwMousePosition.Y = SHORT(y);
    r.Event.MouseEvent.dwButtonState = buttons;
    r.Event.MouseEvent.dwEventFlags = what;
    return r;
}

static BOOL WINAPI my_get_mode(HANDLE h, DWORD* mode) { *mode = (h == s_in) ? 0x98 : 0x7; return true; }
static BOOL WINAPI my_set_mode(HANDLE, DWORD) { return true; }
static HANDLE WINAPI my_std(DWORD n) { return n == STD_INPUT_HANDLE ? s_in : s_out; }
static BOOL WINAPI my_csbi(HANDLE, CONSOLE_SCREEN_BUFFER_INFO* p)
{
    memset(p, 0, sizeof(*p));
    p->dwSize.X = s_cols; p->dwSize.Y = 25; p->srWindow.Bottom = 24; p->srWindow.Right = s_cols - 1;
    p->dwMaximumWindowSize = p->dwSize;
    return true;
}
static BOOL WINAPI my_setpos(HANDLE, COORD) { return true; }
static BOOL WINAPI my_getcur(HANDLE, CONSOLE_CURSOR_INFO* p) { p->dwSize = 25; p->bVisible = true; return true; }
static BOOL WINAPI my_setcur(HANDLE, const CONSOLE_CURSOR_INFO*) { return true; }
static BOOL WINAPI my_read(HANDLE, INPUT_RECORD* r, DWORD n, DWORD* got)
{
    *got = 0;
    while (*got < n && !s_queue.empty())
    {
        r[*got] = s_queue.front();
        s_queue.pop_front();
        if (r[*got].EventType == WINDOW_BUFFER_SIZE_EVENT) s_cols = r[*got].Event.WindowBufferSizeEvent.dwSize.X;
        ++*got;
    }
    return true;
}
static DWORD WINAPI my_wait(DWORD, const HANDLE*, BOOL, DWORD timeout)
{
    if (!s_queue.empty()) return WAIT_OBJECT_0;
    if (timeout == INFINITE) { s_blocked = true; return WAIT_OBJECT_0 + 1; }        // As if interrupted.
    s_ticks += timeout + 1;
    return WAIT_TIMEOUT;
}
static BOOL WINAPI my_write(HANDLE, const void* p, DWORD n, DWORD* done, void*)
{
    const WCHAR* s = (const WCHAR*)p;
    string w;
    for (DWORD i = 0; i < n; ++i) w += char(s[i]);
    *done = n;
    if (w == "\x1b[?25l" || w == "\x1b[?25h" || (w.size() == 5 && w.compare(0, 2, "\x1b[") == 0 && w.compare(3, 2, " q") == 0)) return true;
    s_written += w;
    for (char c : s_response)
    {
        s_queue.push_back(key(c, 0, 0, true));
        if (s_response_ups) s_queue.push_back(key(c, 0, 0, false));
    }
    for (auto& r : s_after) s_queue.push_back(r);
    return true;
}
static DWORD WINAPI my_ticks() { return s_ticks; }
static SHORT WINAPI my_keystate(int) { return 0; }
static UINT WINAPI my_map(UINT vk, UINT) { return vk; }
static string us_name(unsigned vk)
{
    if ((vk >= 'A' && vk <= 'Z') || (vk >= '0' && vk <= '9')) return string(1, char(vk));
    switch (vk)
    {
    case VK_OEM_1: return ";"; case VK_OEM_PLUS: return "="; case VK_OEM_COMMA: return ","; case VK_OEM_MINUS: return "-";
    case VK_OEM_PERIOD: return "."; case VK_OEM_2: return "/"; case VK_OEM_3: return "`"; case VK_OEM_4: return "[";
    case VK_OEM_5: return "\\"; case VK_OEM_6: return "]"; case VK_OEM_7: return "'";
    }
    return "";
}
static int WINAPI my_keyname(LONG l, WCHAR* out, int n)
{
    string s = us_name((l >> 16) & 0x1ff);
    if (s.empty() || n < 2) return 0;
    out[0] = s[0]; out[1] = 0;
    return 1;
}
extern "C" {
void* __imp_GetConsoleMode = (void*)my_get_mode;
void* __imp_SetConsoleMode = (void*)my_set_mode;
void* __imp_GetStdHandle = (void*)my_std;
void* __imp_GetConsoleScreenBufferInfo = (void*)my_csbi;
void* __imp_SetConsoleCursorPosition = (void*)my_setpos;
void* __imp_GetConsoleCursorInfo = (void*)my_getcur;
void* __imp_SetConsoleCursorInfo = (void*)my_setcur;
void* __imp_ReadConsoleInputW = (void*)my_read;
void* __imp_WaitForMultipleObjects = (void*)my_wait;
void* __imp_WriteConsoleW = (void*)my_write;
void* __imp_GetTickCount = (void*)my_ticks;
void* __imp_GetKeyState = (void*)my_keystate;
void* __imp_MapVirtualKeyW = (void*)my_map;
void* __imp_GetKeyNameTextW = (void*)my_keyname;
}
ansi_handler get_current_ansi_handler(str_base*) { return ansi_handler::winterminal; }

// The editor: accepts the mouse; one key is not bound.
static const char c_unbound[] = "\x1b[5~";
struct tester : key_tester
{
    bool is_bound(const char* seq, int32 len) override { return string(seq, len) != c_unbound; }
    bool accepts_mouse_input(mouse_input_type) override { return true; }
};

//------------------------------------------------------------------------------
// The alphabet of events.
enum : char { RESIZE = 1 };
struct event { char code; const char* what; vector<INPUT_RECORD> records; string bytes; WCHAR unit; };
static vector<event> s_events;
static const event* find_event(char c) { for (auto& e : s_events) if (e.code == c) return &e; return nullptr; }

static void make_events()
{
    auto size = [](SHORT cols) { INPUT_RECORD r = {}; r.EventType = WINDOW_BUFFER_SIZE_EVENT; r.Event.WindowBufferSizeEvent.dwSize = { cols, 25 }; return r; };
    auto focus = [] { INPUT_RECORD r = {}; r.EventType = FOCUS_EVENT; r.Event.FocusEvent.bSetFocus = true; return r; };
    auto add = [](char c, const char* what, vector<INPUT_RECORD> r, string bytes, WCHAR unit = 0) { s_events.push_back({ c, what, r, bytes, unit }); };
    add('a', "a", { key('a', 'A', 0, true) }, "a", 'a');
    add('A', "a released", { key('a', 'A', 0, false) }, "");
    add('s', "Shift", { key(0, VK_SHIFT, SHIFT_PRESSED, true) }, "");
    add('e', "U+00E9", { key(0xe9, 0, 0, true) }, "\xc3\xa9", 0xe9);
    add('k', "U+6F22", { key(0x6f22, VK_PACKET, 0, true) }, "\xe6\xbc\xa2", 0x6f22);
    add('l', "lead U+D83D", { key(0xd83d, 0, 0, true) }, "", 0xd83d);
    add('L', "lead U+D83D released", { key(0xd83d, 0, 0, false) }, "");
    add('t', "trail U+DE00", { key(0xde00, 0, 0, true) }, "", 0xde00);
    add('m', "Alt released, giving U+00F1", { key(0xf1, VK_MENU, 0, false) }, "\xc3\xb1", 0xf1);
    add('f', "focus", { focus() }, "");
    add('z', "same size", { size(0) }, "");
    add('r', "narrower", { size(40) }, "");
    add('c', "left button down", { mouse(3, 4, FROM_LEFT_1ST_BUTTON_PRESSED, 0) }, "");
    add('b', "buttons up", { mouse(3, 4, 0, 0) }, "");
    add('d', "drag", { mouse(5, 4, FROM_LEFT_1ST_BUTTON_PRESSED, MOUSE_MOVED) }, "");
    add('u', "Up", { key(0, VK_UP, ENHANCED_KEY, true) }, "\x1b[A");
    add('x', "Alt-x", { key('x', 'X', LEFT_ALT_PRESSED, true) }, "\x1bx");
    add('E', "Esc", { key(0x1b, VK_ESCAPE, 0, true) }, "\x1b[27;27~");
    add('p', "PgUp (not bound)", { key(0, VK_PRIOR, ENHANCED_KEY, true) }, "");
    add('4', "Alt-F4", { key(0, VK_F4, LEFT_ALT_PRESSED, true) }, string(1, char(0xfd)));
    add('@', "Ctrl-@", { key(0, '2', LEFT_CTRL_PRESSED|SHIFT_PRESSED, true) }, string(1, char(0)));
}

// What the events stand for.  A surrogate that is not part of a pair may be dropped or replaced by
// U+FFFD; everything else is exact.
static bool s_any_resize;
static bool s_ambiguous;               // A lone surrogate and another key: no telling.
static bool s_unbound;                 // An unbound key is among them: peek() does not know about bindings.
static vector<string> s_pieces;         // "?" in front: may be missing.
static void expect(const string& codes)
{
    s_pieces.clear();
    s_any_resize = s_ambiguous = false;
    s_unbound = codes.find('p') != string::npos;
    WCHAR lead = 0;
    DWORD buttons = 0;
    SHORT cols = 80;
    for (char c : codes)
    {
        const event& e = *find_event(c);
        const INPUT_RECORD& r = e.records[0];
        if (r.EventType == WINDOW_BUFFER_SIZE_EVENT)
        {
            SHORT to = r.Event.WindowBufferSizeEvent.dwSize.X;
            if (to && to != cols) { s_any_resize = true; cols = to; }
            continue;
        }
        if (r.EventType == MOUSE_EVENT)
        {
            DWORD b = r.Event.MouseEvent.dwButtonState;
            char t[40];
            if (b & ~buttons) { sprintf(t, "\x1b[$%u;%uL", r.Event.MouseEvent.dwMousePosition.X, r.Event.MouseEvent.dwMousePosition.Y); s_pieces.push_back(t); lead = 0; }
            else if (b && (r.Event.MouseEvent.dwEventFlags & MOUSE_MOVED)) { sprintf(t, "\x1b[$%u;%uM", r.Event.MouseEvent.dwMousePosition.X, r.Event.MouseEvent.dwMousePosition.Y); s_pieces.push_back(t); lead = 0; }
            buttons = b;
            continue;
        }
        if (e.unit == 0xd83d) { if (lead) s_pieces.push_back("?\xef\xbf\xbd"); lead = 0xd83d; continue; }
        if (e.unit == 0xde00)
        {
            if (lead) s_pieces.push_back("\xf0\x9f\x98\x80"); else s_pieces.push_back("?\xef\xbf\xbd");
            lead = 0;
            continue;
        }
        if (lead && (c == 'p' || c == '4')) { s_ambiguous = true; return; }
        if (e.bytes.empty()) continue;
        if (lead) s_pieces.push_back("?\xef\xbf\xbd");
        lead = 0;
        s_pieces.push_back(e.bytes);
    }
}
static bool same(const string& got)
{
    size_t at = 0;
    for (auto& p : s_pieces)
    {
        bool opt = p[0] == '?' && p.size() == 4;
        string w = opt ? p.substr(1) : p;
        if (got.compare(at, w.size(), w) == 0) at += w.size();
        else if (!opt) return false;
    }
    return at == got.size();
}
static string wanted() { string s; for (auto& p : s_pieces) s += p; return s; }

//------------------------------------------------------------------------------
struct session
{
    win_terminal_in in;
    tester keys;
    string got;
    int resizes = 0;
    int peeked = -1000;
    session() { s_queue.clear(); s_cols = 80; s_blocked = false; s_response.clear(); s_after.clear(); s_written.clear(); in.begin(); in.set_key_tester(&keys); }
    ~session() { in.end(); }
    // One step: possibly look first, then wait and read one.  False when nothing is left.
    bool step(int op, const string& cs, bool& ok)
    {
        bool avail = false, looked = false;
        peeked = -1000;
        if (op & 1) { avail = in.available(0); looked = true; mc::stat("looks"); }
        if (op & 2) peeked = in.peek();
        if (op & 4) { avail = in.available(0); looked = true; mc::stat("looks"); }
        if (looked && !avail && !s_queue.empty()) { bad(cs, "available() is false while " + std::to_string(s_queue.size()) + " records wait"); ok = false; return false; }
        s_blocked = false;
        in.select();
        mc::stat("reads");
        if (s_blocked)
        {
            int k = in.read();
            if (k != terminal_in::input_abort && k != terminal_in::input_terminal_resize) { bad(cs, "an interrupted wait reads as " + std::to_string(k)); ok = false; }
            if (k == terminal_in::input_terminal_resize) { ++resizes; in.read(); }
            if (in.read() != terminal_in::input_none) { bad(cs, "something remains after everything was read"); ok = false; }
            return false;
        }
        int k = in.read();
        if (k == terminal_in::input_terminal_resize) { ++resizes; return true; }
        if (k == terminal_in::input_none) return true;
        if (peeked >= 0 && peeked != k && !s_unbound) { bad(cs, "peek() gave " + std::to_string(peeked) + " but read() gave " + std::to_string(k)); ok = false; return false; }
        got += k == terminal_in::input_exit ? char(0xfd) : k == terminal_in::input_abort ? char(0xff) : char(k);
        return true;
    }
};

static void queue(const string& codes)
{
    for (char c : codes)
        for (INPUT_RECORD r : find_event(c)->records)
        {
            if (r.EventType == WINDOW_BUFFER_SIZE_EVENT && !r.Event.WindowBufferSizeEvent.dwSize.X) r.Event.WindowBufferSizeEvent.dwSize.X = s_cols;
            s_queue.push_back(r);
        }
}

// ops: digits, the last one repeats.
static bool text_case(const string& codes, const string& ops)
{
    string cs = codes + ";" + ops;
    mc::current(cs);
    expect(codes);
    if (s_ambiguous) return true;
    mc::stat("evaluations");
    session s;
    // A size that is the same as before stays the same in every state.
    for (char c : codes)
        for (INPUT_RECORD r : find_event(c)->records)
            s_queue.push_back(r);
    SHORT cols = 80;
    for (auto& r : s_queue)
        if (r.EventType == WINDOW_BUFFER_SIZE_EVENT)
        {
            if (!r.Event.WindowBufferSizeEvent.dwSize.X) r.Event.WindowBufferSizeEvent.dwSize.X = cols;
            cols = r.Event.WindowBufferSizeEvent.dwSize.X;
        }
    bool ok = true;
    for (size_t i = 0; s.step(ops[i < ops.size() ? i : ops.size() - 1] - '0', cs, ok); ++i)
        if (i > 200) return bad(cs, "does not come to an end");
    if (!ok) return false;
    if (!same(s.got)) return bad(cs, "read " + mc::esc(s.got) + " instead of " + mc::esc(wanted()));
    if (s_any_resize != (s.resizes > 0)) return bad(cs, s_any_resize ? "a new width is not reported" : "a change of size is reported but there is none");
    if (s.got.size() >= 2) mc::stat("distinct_nontrivial");
    return true;
}

static void text()
{
    mc::ull serial = 0;
    string all;
    for (auto& e : s_events) all += e.code;
    // Every sequence of up to n events, with every pattern of looking in the first steps.
    std::function<void(string, int, int)> rec = [&](string codes, int n, int looks) {
        if (mc::enough()) return;
        if (!codes.empty() && mc::mine(serial++))
        {
            mc::tick();
            static const char* const kind = "0123456";
            int total = 1;
            for (int i = 0; i < looks; ++i) total *= 7;
            for (int v = 0; v < total; ++v)
            {
                string ops;
                for (int i = 0, x = v; i < looks; ++i, x /= 7) ops += kind[x % 7];
                if (!text_case(codes, ops)) break;
            }
            mc::sample(codes + ";3");
        }
        if (int(codes.size()) < n) for (char c : all) rec(codes + c, n, looks);
    };
    rec("", 2, mc::thorough() ? 5 : 4);
    rec("", 3, mc::thorough() ? 3 : 2);
    all = mc::thorough() ? "aeltLmrcbuxAz@p" : "aeltLmrcbu";
    rec("", mc::thorough() ? 5 : 4, 1);
    if (mc::thorough()) { all = "ltLaerc"; rec("", 7, 1); }
}

//------------------------------------------------------------------------------
// A request: what was typed before (some of it read or peeked already), the terminal's response, what
// is typed after.  Nothing typed is lost or reordered, and the response does not show up as input.
struct reply { const char* request; const char* prefix; const char* final; const char* response; };
static const reply c_replies[] = {
    { "\x1b[?2027$p", "\x1b[?2027;", "y", "\x1b[?2027;1$y" },
    { "\x1b[c", "\x1b[?", "c", "\x1b[?61;4;6;7;14;21;22;23;24;28;32;42c" },
    { "\x1b]11;?\x1b\\", "\x1b]11;", nullptr, "\x1b]11;rgb:0c0c/0c0c/0c0c\x1b\\" },
    { "\x1b]11;?\x07", "\x1b]11;", nullptr, "\x1b]11;rgb:0c0c/0c0c/0c0c\x07" },
};

// read: how much happens before the request: 0 nothing, 1 available(), 2 one byte is read, 3 both, 4 one byte and peek
static bool request_case(const string& before, const string& after, int which, int how, int present, int ops)
{
    char t[40];
    sprintf(t, ";%d;%d;%d;%d", which, how, present, ops);
    string cs = before + ";" + after + t;
    mc::current(cs);
    expect(before + after);
    if (s_ambiguous) return true;
    mc::stat("evaluations");
    const reply& rp = c_replies[which];
    session s;
    queue(before);
    bool ok = true;
    if (how & 2) { s_queue.empty() ? false : s.step(how & 1, cs, ok); }
    if (how & 1) s.in.available(0);
    if (how & 4) s.in.peek();
    if (!ok) return false;
    if (s_blocked) { s_blocked = false; }
    std::deque<INPUT_RECORD> keep;
    keep.swap(s_queue);
    queue(after);
    s_after.assign(s_queue.begin(), s_queue.end());
    s_queue.swap(keep);
    s_response = present ? rp.response : "";
    s_response_ups = present == 2;
    str_moveable out;
    bool got = s.in.send_terminal_request(rp.request, rp.prefix, rp.final, 100, 100, out);
    mc::stat("requests");
    s_response.clear();
    s_after.clear();
    if (s_written != rp.request) return bad(cs, "the request is sent as " + mc::esc(s_written));
    if (got != (present != 0)) return bad(cs, got ? "a response is returned although there is none: " + mc::esc(out.c_str()) : string("the response is not found"));
    if (got && string(out.c_str(), out.length()) != rp.response) return bad(cs, "the response is returned as " + mc::esc(out.c_str()));
    for (int i = 0; s.step(ops, cs, ok); ++i)
        if (i > 300) return bad(cs, "does not come to an end");
    if (!ok) return false;
    if (!same(s.got)) return bad(cs, "read " + mc::esc(s.got) + " instead of " + mc::esc(wanted()));
    if (before.size() + after.size() >= 2) mc::stat("distinct_nontrivial");
    return true;
}

static void request()
{
    mc::ull serial = 0;
    string all = "aAseklLtmfzcbduxEp";
    vector<string> b1, b2, a1;
    std::function<void(vector<string>&, string, size_t)> rec = [&](vector<string>& out, string c, size_t n) {
        out.push_back(c);
        if (c.size() < n) for (char x : all) rec(out, c + x, n);
    };
    rec(b1, "", mc::thorough() ? 3 : 2);
    rec(a1, "", mc::thorough() ? 2 : 2);
    for (auto& b : b1)
        for (auto& a : a1)
        {
            const size_t n = b.size() + a.size();
            if (n > (mc::thorough() ? 4u : 3u)) continue;
            if (!mc::mine(serial++)) continue;
            mc::tick();
            // The longest ones with fewer kinds of terminal.
            const bool lots = n < (mc::thorough() ? 4u : 3u);
            for (int which = 0; which < (lots ? int(sizeof(c_replies) / sizeof(*c_replies)) : 1); ++which)
                for (int how = 0; how < 8; ++how)
                    for (int present = 0; present < (lots ? 3 : 2); ++present)
                        for (int ops = 0; ops < (lots ? 4 : 1); ops += 3)
                        {
                            request_case(b, a, which, how, present, ops);
                            if (mc::enough()) return;
                        }
            mc::sample(b + ";" + a + ";0;0;1;0");
        }
}

//------------------------------------------------------------------------------
// The mouse: every sequence of button states, moves and turns of the wheel, with a key in between.
static const struct { char code; DWORD state; DWORD flags; } c_mouse[] = {
    { '0', 0, 0 }, { 'l', 1, 0 }, { 'r', 2, 0 }, { 'b', 3, 0 }, { 'm', 4, 0 },
    { '1', 0, MOUSE_MOVED }, { 'L', 1, MOUSE_MOVED }, { 'R', 2, MOUSE_MOVED }, { 'B', 3, MOUSE_MOVED },
    { 'D', 1, DOUBLE_CLICK }, { 'd', 2, DOUBLE_CLICK },
    { 'w', 120u << 16, MOUSE_WHEELED }, { 'v', DWORD(-240) << 16, MOUSE_WHEELED }, { 'W', (120u << 16) | 1, MOUSE_WHEELED },
    { 'h', 64u << 16, MOUSE_HWHEELED }, { 'g', DWORD(-32) << 16, MOUSE_HWHEELED },
};
static void mouse_case(const string& codes)
{
    mc::current(codes);
    mc::stat("evaluations");
    if (codes.size() > 1) mc::stat("distinct_nontrivial");
    session s;
    string want;
    DWORD prev = 0;
    int n = 0;
    UINT lines = 3;
    SystemParametersInfo(SPI_GETWHEELSCROLLLINES, 0, &lines, false);
    for (char c : codes)
    {
        ++n;
        if (c == 'a') { s_queue.push_back(key('a', 'A', 0, true)); want += "a"; continue; }
        for (auto& m : c_mouse)
            if (m.code == c)
            {
                const int x = n == 2 ? 130 : n, y = n + 10;
                s_queue.push_back(mouse(x, y, m.state, m.flags));
                char t[64] = "";
                const int delta = short(m.state >> 16);
                if ((m.state & 1) && !(prev & 1)) sprintf(t, "\x1b[$%d;%d%c", x, y, m.flags & DOUBLE_CLICK ? 'D' : 'L');
                else if ((m.state & 2) && !(prev & 2)) sprintf(t, "\x1b[$%d;%dR", x, y);
                else if (m.flags & MOUSE_WHEELED) sprintf(t, "\x1b[$%d%c", abs(delta) / 120 * int(lines), delta > 0 ? 'A' : 'B');
                else if (m.flags & MOUSE_HWHEELED) sprintf(t, "\x1b[$%d%c", abs(delta) / 32, delta > 0 ? '>' : '<');
                else if ((m.state & 1) && (m.flags & MOUSE_MOVED)) sprintf(t, "\x1b[$%d;%dM", x, y);
                want += t;
                prev = m.state;
            }
    }
    bool ok = true;
    for (int i = 0; s.step(0, codes, ok); ++i)
        if (i > 300) { bad(codes, "does not come to an end"); return; }
    if (ok && s.got != want) bad(codes, "read " + mc::esc(s.got) + " instead of " + mc::esc(want));
}
static void mouse_all()
{
    mc::ull serial = 0;
    const size_t depth = mc::thorough() ? 5 : 4;
    std::function<void(string)> rec = [&](string c) {
        if (mc::enough()) return;
        if (!c.empty() && mc::mine(serial++)) { mc::tick(); mouse_case(c); }
        if (c.size() == depth) return;
        for (auto& m : c_mouse) rec(c + m.code);
        rec(c + 'a');
    };
    rec("");
}

//------------------------------------------------------------------------------
// Keys of a US keyboard.
struct setup { bool differentiate, windows, raw; };
static string s_set(bool b) { return b ? "true" : "false"; }

static bool us_char(unsigned vk, int mods, WCHAR& ch)     // mods: 1 shift, 2 ctrl, 4 alt.  False if Windows swallows the key.
{
    bool sh = mods & 1, ct = mods & 2, al = mods & 4;
    ch = 0;
    if (vk >= 'A' && vk <= 'Z')
    {
        if (ct && al) ch = 0; else if (ct) ch = vk - '@'; else ch = sh ? vk : vk + 32;
        return true;
    }
    static const char digits[] = ")!@#$%^&*(";
    if (vk >= '0' && vk <= '9')
    {
        if (ct) ch = (!al && sh && vk == '6') ? 0x1e : 0; else ch = sh ? digits[vk - '0'] : vk;
        return true;
    }
    static const struct { unsigned vk; char lo, hi, ctrl, ctrlshift; } oem[] = {
        { VK_OEM_1, ';', ':' }, { VK_OEM_PLUS, '=', '+' }, { VK_OEM_COMMA, ',', '<' }, { VK_OEM_MINUS, '-', '_', 0, 0x1f }, { VK_OEM_PERIOD, '.', '>' },
        { VK_OEM_2, '/', '?' }, { VK_OEM_3, '`', '~' }, { VK_OEM_4, '[', '{', 0x1b }, { VK_OEM_5, '\\', '|', 0x1c }, { VK_OEM_6, ']', '}', 0x1d }, { VK_OEM_7, '\'', '"' } };
    for (auto& o : oem)
        if (o.vk == vk)
        {
            if (ct && al) ch = 0; else if (ct) ch = sh ? o.ctrlshift : o.ctrl; else ch = sh ? o.hi : o.lo;
            return true;
        }
    switch (vk)
    {
    case VK_TAB: if (al) return false; ch = ct ? 0 : 9; return true;
    case VK_SPACE: if (al && !ct) return false; ch = (ct && al) ? 0 : ' '; return true;
    case VK_RETURN: if (al && !ct) { } ch = (ct && al) ? 0 : ct ? 10 : 13; if (ct && sh) ch = 0; return true;
    case VK_BACK: ch = ct ? (al ? 0 : 0x7f) : 8; return true;
    case VK_ESCAPE: if (al || (ct && !al)) return false; ch = 0x1b; return true;
    }
    return true;
}

static string press(unsigned vk, WCHAR ch, DWORD flags)
{
    session s;
    s.in.set_key_tester(nullptr);
    INPUT_RECORD r = key(ch, vk, flags, true);
    r.Event.KeyEvent.wVirtualScanCode = vk;
    s_queue.push_back(r);
    bool ok = true;
    while (s.step(0, "press", ok)) { }
    mc::stat("presses");
    return s.got;
}

static const char* const c_mod_names[] = { "", "S-", "C-", "C-S-", "A-", "A-S-", "A-C-", "A-C-S-" };
static string plain_name(unsigned vk)
{
    switch (vk)
    {
    case VK_UP: return "Up"; case VK_DOWN: return "Down"; case VK_LEFT: return "Left"; case VK_RIGHT: return "Right"; case VK_HOME: return "Home"; case VK_END: return "End";
    case VK_PRIOR: return "PgUp"; case VK_NEXT: return "PgDn"; case VK_INSERT: return "Ins"; case VK_DELETE: return "Del";
    case VK_TAB: return "Tab"; case VK_SPACE: return "Space"; case VK_BACK: return "Bkspc"; case VK_RETURN: return "Enter"; case VK_ESCAPE: return "Esc";
    }
    if (vk >= VK_F1 && vk <= VK_F12) return "F" + std::to_string(vk - VK_F1 + 1);
    return us_name(vk);
}

// The xterm sequence of a cursor or function key.
static string xterm(unsigned vk, int mods)
{
    int m = 1 + (mods & 1) + ((mods & 4) ? 2 : 0) + ((mods & 2) ? 4 : 0);
    auto letter = [&](char c) { return m == 1 ? string("\x1b[") + c : "\x1b[1;" + std::to_string(m) + c; };
    auto tilde = [&](int n) { return "\x1b[" + std::to_string(n) + (m == 1 ? "" : ";" + std::to_string(m)) + "~"; };
    switch (vk)
    {
    case VK_UP: return letter('A'); case VK_DOWN: return letter('B'); case VK_RIGHT: return letter('C'); case VK_LEFT: return letter('D');
    case VK_HOME: return letter('H'); case VK_END: return letter('F');
    case VK_INSERT: return tilde(2); case VK_DELETE: return tilde(3); case VK_PRIOR: return tilde(5); case VK_NEXT: return tilde(6);
    }
    if (vk >= VK_F1 && vk <= VK_F12)
    {
        // Alt puts an Esc in front.
        static const int num[] = { 0, 0, 0, 0, 15, 17, 18, 19, 20, 21, 23, 24 };
        string esc = (mods & 4) ? "\x1b" : "";
        m = 1 + (mods & 1) + ((mods & 2) ? 4 : 0);
        int f = vk - VK_F1;
        if (f < 4) return esc + (m == 1 ? string("\x1bO") + char('P' + f) : letter(char('P' + f)));
        return esc + tilde(num[f]);
    }
    return "";
}

static DWORD flags_of(int mods, int variant)
{
    DWORD f = 0;
    if (mods & 1) f |= SHIFT_PRESSED;
    if (mods & 2) f |= (variant & 1) ? RIGHT_CTRL_PRESSED : LEFT_CTRL_PRESSED;
    if (mods & 4) f |= (variant & 4) ? RIGHT_ALT_PRESSED : LEFT_ALT_PRESSED;
    if (variant & 2) f |= NUMLOCK_ON | ENHANCED_KEY;
    if (variant & 8) f |= CAPSLOCK_ON | SCROLLLOCK_ON;
    return f;
}

static void keys(const setup& su)
{
    string cs0 = string(su.differentiate ? "d" : "-") + (su.windows ? "w" : "-") + (su.raw ? "r" : "-");
    settings::find("terminal.differentiate_keys")->set(s_set(su.differentiate).c_str());
    settings::find("clink.default_bindings")->set(su.windows ? "windows" : "bash");
    reset_keyseq_to_name_map();
    vector<unsigned> vks = { VK_UP, VK_DOWN, VK_LEFT, VK_RIGHT, VK_HOME, VK_END, VK_PRIOR, VK_NEXT, VK_INSERT, VK_DELETE, VK_TAB, VK_SPACE, VK_BACK, VK_RETURN, VK_ESCAPE,
        VK_OEM_1, VK_OEM_PLUS, VK_OEM_COMMA, VK_OEM_MINUS, VK_OEM_PERIOD, VK_OEM_2, VK_OEM_3, VK_OEM_4, VK_OEM_5, VK_OEM_6, VK_OEM_7 };
    for (unsigned v = 'A'; v <= 'Z'; ++v) vks.push_back(v);
    for (unsigned v = '0'; v <= '9'; ++v) vks.push_back(v);
    for (unsigned v = VK_F1; v <= VK_F12; ++v) vks.push_back(v);
    std::map<string, string> by_seq;        // sequence -> key
    std::map<string, string> by_name;       // name -> sequence
    for (unsigned vk : vks)
        for (int mods = 0; mods < 8; ++mods)
        {
            WCHAR ch;
            if (!us_char(vk, mods, ch)) continue;
            string name = c_mod_names[mods] + plain_name(vk);
            string cs = cs0 + ";" + name;
            mc::current(cs);
            string seq = press(vk, ch, flags_of(mods, 0));
            for (int v = 1; v < 16; ++v)
            {
                mc::stat("evaluations");
                string other = press(vk, ch, flags_of(mods, v));
                if (other != seq) { bad(cs, "gives " + mc::esc(seq) + " or, with the right hand modifier or a lock, " + mc::esc(other)); }
            }
            mc::stat("distinct_nontrivial", mods != 0);
            if (vk == VK_F4 && mods == 4) { if (seq != "\xfd") bad(cs, "Alt-F4 does not exit"); continue; }
            // Text and control characters.
            bool text = ch >= 0x20 && ch < 0x7f && vk != VK_SPACE;
            if (text && !(mods & 6) && seq != string(1, char(ch))) bad(cs, "the typed character reads as " + mc::esc(seq));
            if (text && (mods & 6) == 4)
            {
                bool special = (ch == '[' || (ch == 'O' && (mods & 1))) && !su.raw;
                if (!special && seq != string("\x1b") + char(ch)) bad(cs, "Alt with a character reads as " + mc::esc(seq));
            }
            if (vk >= 'A' && vk <= 'Z' && !(mods & 1) && (mods & 2))
            {
                bool special = ((vk == 'H' || vk == 'I') && su.differentiate) || (vk == 'M' && (su.differentiate || su.windows));
                string want = ((mods & 4) ? string("\x1b") : string()) + char(vk - '@');
                if (!special && seq != want) bad(cs, "reads as " + mc::esc(seq));
                if (special && seq == want) bad(cs, "is not told apart: " + mc::esc(seq));
            }
            string x = xterm(vk, mods);
            if (!x.empty() && seq != x) bad(cs, "reads as " + mc::esc(seq) + " instead of " + mc::esc(x));
            if (vk == VK_ESCAPE) { string want = su.raw ? "\x1b" : "\x1b[27;27~"; if (seq != want) bad(cs, "Esc reads as " + mc::esc(seq)); if (mods) continue; }
            if (seq.size() > 15) bad(cs, "too long: " + mc::esc(seq));
            if (seq.empty()) { mc::stat("silent"); continue; }
            // Distinct keys, distinct sequences.
            auto it = by_seq.find(seq);
            if (it != by_seq.end())
            {
                string two = it->second + " " + name;
                static const char* const same_keys[] = { "Tab C-I", "S-Tab C-S-I", "Bkspc C-H", "Bkspc C-S-H", "A-Bkspc A-C-H", "Enter C-M", "Enter C-S-M", "Esc C-[", "C-2 C-S-2", "A-C-2 A-C-S-2", "C-6 C-S-6", "A-C-6 A-C-S-6" };
                bool documented = false;
                for (auto k : same_keys) documented = documented || two == k;
                documented = documented && !su.differentiate;
                if (!documented) bad(cs, "reads as " + mc::esc(seq) + ", the same as " + it->second);
            }
            else by_seq[seq] = name;
            // Its name.
            if (seq.size() > 1 || seq[0] == 0x7f || seq[0] == 8 || seq[0] == 9 || (seq[0] == 13 && vk == VK_RETURN && su.differentiate))
            {
                int32 len = 0, eq = 0, order = 0;
                const char* nm = find_key_name(seq.c_str(), len, eq, order);
                bool alt_char = seq.size() == 2 && seq[0] == 27;
                string want = by_seq[seq];
                if (nm && (nm != want || len != int32(seq.size())) && !(alt_char && len == 1)) bad(cs, string("is named ") + nm + " for " + std::to_string(len) + " of " + mc::esc(seq));
                if (!nm && !alt_char) bad(cs, "has no name: " + mc::esc(seq));
            }
        }
    if (!su.raw)
        for (auto& a : by_seq)
            for (auto& b : by_seq)
                if (a.first.size() < b.first.size() && b.first.compare(0, a.first.size(), a.first) == 0 && a.first != "\x1b")
                    bad(cs0 + ";" + a.second, mc::esc(a.first) + " is also the beginning of " + b.second + ": " + mc::esc(b.first));
    mc::stat("keys", by_seq.size());
    mc::sample(cs0 + ": " + std::to_string(by_seq.size()) + " sequences");
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    {
        CreateDirectoryW(L"Z:\\tmp", nullptr);
        settings::load("Z:\\nonexistent\\clink_settings");
    }
    make_events();
    if (mc::S().replaying)
    {
        auto f = mc::split(mc::S().replay, ';');
        if (g_mode == "mouse") mouse_case(f[0]);
        else if (g_mode == "text") text_case(f[0], f[1]);
        else if (g_mode == "request") request_case(f[0], f[1], atoi(f[2].c_str()), atoi(f[3].c_str()), atoi(f[4].c_str()), atoi(f[5].c_str()));
        else
        {
            bool raw = f[0][2] == 'r';
            settings::find("terminal.raw_esc")->set(s_set(raw).c_str());
            keys({ f[0][0] == 'd', f[0][1] == 'w', raw });
        }
        return mc::done();
    }
    if (g_mode == "text") text();
    else if (g_mode == "request") request();
    else if (g_mode == "mouse") mouse_all();
    else
    {
        // Raw Esc takes effect once per process.
        bool raw = mc::S().shard & 1;
        settings::find("terminal.raw_esc")->set(s_set(raw).c_str());
        for (int i = 0; i < 4; ++i)
            if (mc::S().shard / 2 == i || mc::S().nshards < 8)
                keys({ !!(i & 1), !!(i & 2), raw });
    }
    return mc::done();
}
