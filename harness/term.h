// A model of the terminal: what is on the screen after the text and escape codes that clink writes.
// It has the console's deferred wrap at the right edge, newline = carriage return + line feed, wide
// and combining characters, and the escape codes that the input line display uses.
#pragma once
#include <terminal/terminal_out.h>
#include <terminal/printer.h>
#include <string>
#include <vector>
#include <map>

namespace term {

#ifdef TERM_MAXW
const int MAXW = TERM_MAXW;
#else
const int MAXW = 16;
#endif
struct cell
{
    char t[7];              // UTF-8 of the character and its combining marks; empty: second half of a wide one.
    unsigned char n;        // bytes
    unsigned short attr;
    bool operator==(const cell& o) const { return attr == o.attr && n == o.n && !memcmp(t, o.t, n); }
};
inline cell blank(unsigned short attr = 0) { cell c; c.t[0] = ' '; c.n = 1; c.attr = attr; return c; }

inline int width_of(unsigned c)
{
    if (c >= 0x300 && c < 0x370) return 1;     // in the Windows console
    if ((c >= 0x1100 && c < 0x1160) || (c >= 0x2e80 && c < 0xa4d0) || (c >= 0xac00 && c < 0xd7a4) || (c >= 0xff01 && c < 0xff61) || (c >= 0x1f300 && c < 0x1f650)) return 2;
    return 1;
}

struct row { cell c[MAXW]; };

struct screen
{
    int W = 8, H = 5;
    std::vector<row> rows;
    int nrows = 0;
    int top = 0;                // first row of the window
    int r = 0, x = 0;
    bool pending = false;
    unsigned short attr = 0;
    std::string attr_text;
    std::string err;            // something that no terminal does well
    std::string acc;
    int scrolled = 0;

    std::map<std::string, unsigned short> ids;
    std::vector<std::string> names;
    unsigned short intern(const std::string& s)
    {
        auto i = ids.find(s);
        if (i != ids.end()) return i->second;
        unsigned short n = (unsigned short)names.size();
        names.push_back(s);
        ids[s] = n;
        return n;
    }
    screen() { intern(""); }

    void need(int n) { while (nrows < n) { if (int(rows.size()) <= nrows) rows.emplace_back(); for (int i = 0; i < W; ++i) rows[nrows].c[i] = blank(); nrows++; } }
    void reset(int w, int h, int at)
    {
        W = w; H = h; nrows = 0; top = 0; r = at; x = 0; pending = false; attr = 0; attr_text.clear(); link = false; err.clear(); scrolled = 0;
        need(H);
    }
    void set(int rr, int xx, const cell& c)
    {
        cell* p = rows[rr].c;
        if (p[xx].n == 0 && xx > 0) p[xx - 1] = blank(p[xx - 1].attr);
        if (xx + 1 < W && p[xx + 1].n == 0) p[xx + 1] = blank(p[xx + 1].attr);
        p[xx] = c;
    }
    void down()
    {
        r++;
        need(r + 1);
        if (r >= top + H) { top++; scrolled++; }
    }
    bool link = false;
    void put(const char* t, int n, unsigned c)
    {
        int w = width_of(c);
        if (!w)
        {
            // Joins the character before it.
            int xx = pending ? x : x - 1;
            if (xx < 0) { err = "combining mark at column 0"; return; }
            while (xx > 0 && rows[r].c[xx].n == 0) xx--;
            cell& p = rows[r].c[xx];
            if (p.n + n <= 7) { memcpy(p.t + p.n, t, n); p.n += n; }
            return;
        }
        if (pending || x + w > W)
        {
            pending = false;
            x = 0;
            down();
        }
        cell cc;
        memcpy(cc.t, t, n);
        cc.n = (unsigned char)n;
        cc.attr = attr;
        set(r, x, cc);
        if (w == 2)
        {
            cell c2;
            c2.n = 0;
            c2.attr = attr;
            if (x + 2 < W && rows[r].c[x + 2].n == 0) rows[r].c[x + 2] = blank(rows[r].c[x + 2].attr);
            rows[r].c[x + 1] = c2;
        }
        x += w;
        if (x >= W) { x = W - 1; pending = true; }
    }
    void sgr(const std::string& p)
    {
        std::string q = p;
        if (q.empty() || q == "0") { attr_text.clear(); }
        else
        {
            if (q.compare(0, 2, "0;") == 0) { attr_text.clear(); q = q.substr(2); }
            attr_text += "[" + q + "]";
        }
        reattr();
    }
    void reattr() { attr = (attr_text.empty() && !link) ? 0 : intern(attr_text + (link ? "[link]" : "")); }
    void csi(const std::string& p, char f)
    {
        int n = p.empty() ? 0 : atoi(p.c_str());
        int one = n < 1 ? 1 : n;
        switch (f)
        {
        case 'm': sgr(p); return;
        case 'A': pending = false; r = r - one < top ? top : r - one; return;
        case 'B': pending = false; r = r + one > top + H - 1 ? top + H - 1 : r + one; return;
        case 'C': pending = false; x = x + one > W - 1 ? W - 1 : x + one; return;
        case 'D': pending = false; x = x - one < 0 ? 0 : x - one; return;
        case 'G': pending = false; x = one - 1 > W - 1 ? W - 1 : one - 1; return;
        case 'K':
            pending = false;
            if (n == 0) { if (rows[r].c[x].n == 0) set(r, x, blank(attr)); for (int i = x; i < W; ++i) rows[r].c[i] = blank(attr); }
            else err = "EL " + p;
            return;
        case 'J':
            pending = false;
            if (n != 0) { err = "ED " + p; return; }
            if (rows[r].c[x].n == 0) set(r, x, blank(attr));
            for (int i = x; i < W; ++i) rows[r].c[i] = blank(attr);
            for (int k = r + 1; k < nrows; ++k) for (int i = 0; i < W; ++i) rows[k].c[i] = blank(attr);
            return;
        case '@':
            pending = false;
            for (int i = W - 1; i >= x; --i) rows[r].c[i] = (i - one >= x) ? rows[r].c[i - one] : blank(attr);
            fix(r);
            return;
        case 'P':
            pending = false;
            for (int i = x; i < W; ++i) rows[r].c[i] = (i + one < W) ? rows[r].c[i + one] : blank(attr);
            fix(r);
            return;
        case 'h': case 'l': case 'q': return;
        default: err = std::string("CSI ") + p + f; return;
        }
    }
    // Halves of wide characters that were cut become blanks.
    void fix(int rr)
    {
        cell* p = rows[rr].c;
        for (int i = 0; i < W; ++i)
        {
            bool wide = p[i].n && is_wide(p[i]);
            if (wide && (i + 1 >= W || p[i + 1].n != 0)) p[i] = blank(p[i].attr);
            else if (p[i].n == 0 && !(i > 0 && p[i - 1].n && is_wide(p[i - 1]))) p[i] = blank(p[i].attr);
        }
    }
    static unsigned decode(const char* s, int& n)
    {
        unsigned char c = *s;
        if (c < 0x80) { n = 1; return c; }
        if (c < 0xe0) { n = 2; return (c & 0x1f) << 6 | (s[1] & 0x3f); }
        if (c < 0xf0) { n = 3; return (c & 15) << 12 | (s[1] & 0x3f) << 6 | (s[2] & 0x3f); }
        n = 4;
        return (c & 7) << 18 | (s[1] & 0x3f) << 12 | (s[2] & 0x3f) << 6 | (s[3] & 0x3f);
    }
    static bool is_wide(const cell& c) { int n; return width_of(decode(c.t, n)) == 2; }

    void write(const char* s, int len)
    {
        const char* e = s + len;
        while (s < e)
        {
            unsigned char c = *s;
            if (c == 0x1b)
            {
                ++s;
                if (s < e && *s == '[')
                {
                    std::string p;
                    for (++s; s < e && !(*s >= 0x40 && *s <= 0x7e); ++s) p += *s;
                    if (s < e) csi(p, *s++);
                }
                else if (s < e && *s == ']')
                {
                    std::string p;
                    for (++s; s < e && *s != 7; ++s) p += *s;
                    if (s < e) ++s;
                    if (!p.compare(0, 3, "8;;")) { link = p.size() > 3; reattr(); }
                }
                else if (s < e && *s == 'g') ++s;
                else err = "escape";
                continue;
            }
            if (c == '\r') { x = 0; pending = false; ++s; continue; }
            if (c == '\n') { x = 0; pending = false; down(); ++s; continue; }
            if (c == 8) { if (x > 0) --x; pending = false; ++s; continue; }
            if (c == 7) { ++s; continue; }
            if (c < 32 || c == 127) { err = "control character written raw"; ++s; continue; }
            int n;
            unsigned u = decode(s, n);
            put(s, n, u);
            s += n;
        }
    }
    std::string dump(int from) const
    {
        std::string o;
        int last = nrows;
        while (last > from + 1) { bool b = true; for (int i = 0; i < W; ++i) if (!(rows[last - 1].c[i] == blank())) b = false; if (!b) break; --last; }
        for (int k = from; k < last; ++k)
        {
            o += "|";
            unsigned short a = 0;
            for (int i = 0; i < W; ++i)
            {
                const cell& c = rows[k].c[i];
                if (c.attr != a) { a = c.attr; o += "{" + names[a] + "}"; }
                o.append(c.t, c.n);
            }
            if (a) o += "{}";
            o += "|";
        }
        char b[60];
        sprintf(b, " cursor %d,%d%s", r - from, x, pending ? " (pending wrap)" : "");
        return o + b;
    }
};

// The terminal as clink sees it.
struct out : terminal_out
{
    screen s;
    std::string log;
    bool keep_log = false;
    void open() override {}
    void begin() override {}
    void end() override {}
    void close() override {}
    void write(const char* chars, int32 length) override
    {
        if (length < 0) length = int32(strlen(chars));
        if (keep_log) log.append(chars, length);
        s.write(chars, length);
    }
    void flush() override {}
    int32 get_columns() const override { return s.W; }
    int32 get_rows() const override { return s.H; }
    int32 get_top() const override { return s.top; }
    bool get_cursor_pos(int16& x, int16& y) const override { x = int16(s.x); y = int16(s.r); return true; }
    bool get_line_text(int32, str_base&) const override { return false; }
    int32 is_line_default_color(int32) const override { return 1; }
    int32 line_has_color(int32, const BYTE*, int32, BYTE) const override { return 0; }
    int32 find_line(int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) const override { return 0; }
};

} // namespace term
