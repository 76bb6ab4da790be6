// Text and path primitives, every input up to a length, against plain reference implementations.
//   --mode utf | tok | compare | wild | path
#include "mc.h"
#include <core/base.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <core/str_tokeniser.h>
#include <core/str_compare.h>
#include <core/match_wild.h>
#include <core/path.h>
#include <algorithm>

using std::string;
using std::wstring;
using std::vector;

static string g_mode;
static string show(const wstring& w) { string s; char b[8]; for (wchar_t c : w) { sprintf(b, "%04x ", c); s += b; } return s; }
static string show(const vector<int>& w) { string s; char b[12]; for (int c : w) { sprintf(b, "U+%x ", c); s += b; } return s; }

//------------------------------------------------------------------------------
// A buffer that ends at an inaccessible page, so that reading or writing past its end is caught.
struct fence
{
    char* base; size_t size;
    fence(size_t n = 65536) { size = (n + 4095) & ~size_t(4095); base = (char*)VirtualAlloc(nullptr, size + 4096, MEM_RESERVE|MEM_COMMIT, PAGE_READWRITE); DWORD o; VirtualProtect(base + size, 4096, PAGE_NOACCESS, &o); }
    char* end(size_t n) { return base + size - n; }
};
static fence g_in, g_out;

template <class T> static const T* place(fence& f, const std::basic_string<T>& s, bool nul = true)
{
    T* p = (T*)f.end((s.size() + (nul ? 1 : 0)) * sizeof(T));
    memcpy(p, s.data(), s.size() * sizeof(T));
    if (nul) p[s.size()] = 0;
    return p;
}

//------------------------------------------------------------------------------
static string enc8(int c)
{
    string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    return s;
}
static wstring enc16(int c)
{
    if (c < 0x10000) return wstring(1, wchar_t(c));
    c -= 0x10000;
    return wstring(1, wchar_t(0xd800 + (c >> 10))) + wchar_t(0xdc00 + (c & 0x3ff));
}
static vector<int> dec16(const wstring& w)
{
    vector<int> v;
    for (size_t i = 0; i < w.size(); ++i)
    {
        if (w[i] >= 0xd800 && w[i] < 0xdc00 && i + 1 < w.size() && w[i + 1] >= 0xdc00 && w[i + 1] < 0xe000)
            { v.push_back(0x10000 + ((w[i] - 0xd800) << 10) + (w[i + 1] - 0xdc00)); ++i; }
        else if (w[i] >= 0xd800 && w[i] < 0xe000) v.push_back(0xfffd);
        else v.push_back(w[i]);
    }
    return v;
}
static bool utf_fail(const string& cs, const char* key, const string& msg) { mc::violation(key, cs, msg); return false; }

// cs: "c:" code points in hex, "w:" UTF-16 units in hex, "b:" bytes in hex.
static bool utf_case(const string& cs)
{
    mc::current(cs);
    vector<int> v;
    for (auto& x : mc::split(cs.substr(2), ',')) if (!x.empty()) v.push_back(int(strtol(x.c_str(), nullptr, 16)));
    mc::stat("evaluations");
    if (cs[0] == 'c')
    {
        string u8; wstring u16;
        for (int c : v) { u8 += enc8(c); u16 += enc16(c); }
        mc::stat("distinct_nontrivial");
        str<4> s; wstr<4> w; str_moveable sm; wstr_moveable wm;
        const wchar_t* in16 = place(g_in, u16);
        s.from_utf16(in16); sm.from_utf16(in16);
        if (u8 != s.c_str() || u8 != sm.c_str()) return utf_fail(cs, "to utf8", "UTF-16 to UTF-8 gives " + string(s.c_str()));
        const char* in8 = place(g_in, u8);
        w.from_utf8(in8); wm.from_utf8(in8);
        if (u16 != w.c_str() || u16 != wm.c_str()) return utf_fail(cs, "to utf16", "UTF-8 to UTF-16 gives " + show(w.c_str()));
        if (char_count(in8) != v.size()) return utf_fail(cs, "char count", "counts " + std::to_string(char_count(in8)) + " characters");
        // Iterating, with and without a terminator, yields the code points and their extents.
        for (int bounded = 0; bounded < 2; ++bounded)
        {
            const char* p8 = place(g_in, u8, !bounded);
            str_iter i8(p8, bounded ? int(u8.size()) : -1);
            size_t at = 0;
            for (int c : v)
            {
                if (!i8.more() || i8.peek() != c || i8.next() != c) return utf_fail(cs, "iterate utf8", "iterating UTF-8 gives another character");
                at += enc8(c).size();
                if (i8.get_pointer() != p8 + at) return utf_fail(cs, "iterate utf8", "iterating UTF-8 stops inside a character");
            }
            if (i8.more() || i8.next()) return utf_fail(cs, "iterate utf8", "iterating goes past the end");
            const wchar_t* p16 = place(g_in, u16, !bounded);
            wstr_iter i16(p16, bounded ? int(u16.size()) : -1);
            at = 0;
            for (int c : v)
            {
                if (!i16.more() || i16.peek() != c || i16.next() != c) return utf_fail(cs, "iterate utf16", "iterating UTF-16 gives another character");
                at += enc16(c).size();
                if (i16.get_pointer() != p16 + at) return utf_fail(cs, "iterate utf16", "iterating UTF-16 stops inside a character");
            }
            if (i16.more() || i16.next()) return utf_fail(cs, "iterate utf16", "iterating goes past the end");
        }
        // Into a buffer of every size: whole characters, terminated, and the rest can be converted next.
        for (int size = 1; size <= int(u8.size()) + 2; ++size)
        {
            char* out = g_out.end(size);
            memset(out, 'x', size);
            wstr_iter it(place(g_in, u16));
            string all;
            for (int round = 0; round < 40; ++round)
            {
                int n = to_utf8(out, size, it);
                if (n < 0 || n >= size || out[n]) return utf_fail(cs, "fixed utf8", "a buffer of " + std::to_string(size) + " is not terminated");
                const string part(out, n);
                size_t k = all.size(), m = 0;
                for (size_t q = 0, pos = 0; q < v.size(); ++q) { if (pos >= k && pos + enc8(v[q]).size() <= k + size - 1) m = pos + enc8(v[q]).size() - k; pos += enc8(v[q]).size(); if (pos > k + size - 1) break; }
                if (u8.compare(k, m, part) != 0 || m != part.size())
                    return utf_fail(cs, "fixed utf8", "into a buffer of " + std::to_string(size) + " it gives " + part + " after " + all);
                all += part;
                if (!n) break;
            }
        }
        for (int size = 1; size <= int(u16.size()) + 2; ++size)
        {
            wchar_t* out = (wchar_t*)g_out.end(size * 2);
            str_iter it(place(g_in, u8));
            wstring all;
            for (int round = 0; round < 40; ++round)
            {
                int n = to_utf16(out, size, it);
                if (n < 0 || n >= size || out[n]) return utf_fail(cs, "fixed utf16", "a buffer of " + std::to_string(size) + " is not terminated");
                const wstring part(out, n);
                size_t k = all.size(), m = 0;
                for (size_t q = 0, pos = 0; q < v.size(); ++q) { if (pos >= k && pos + enc16(v[q]).size() <= k + size - 1) m = pos + enc16(v[q]).size() - k; pos += enc16(v[q]).size(); if (pos > k + size - 1) break; }
                if (u16.compare(k, m, part) != 0 || m != part.size())
                    return utf_fail(cs, "fixed utf16", "into a buffer of " + std::to_string(size) + " it gives " + show(part) + "after " + show(all));
                all += part;
                if (!n) break;
            }
        }
        return true;
    }
    if (cs[0] == 'w')
    {
        wstring u16;
        for (int c : v) u16 += wchar_t(c);
        string want;
        auto d = dec16(u16);
        for (int c : d) want += enc8(c);
        str<4> s;
        s.from_utf16(place(g_in, u16));
        if (want != s.c_str()) return utf_fail(cs, "unpaired", "gives " + string(s.c_str()) + " instead of " + want);
        wstr_iter it(place(g_in, u16, false), int(u16.size()));
        vector<int> got;
        while (it.more()) { got.push_back(it.next()); if (got.size() > 20) break; }
        if (got != d) return utf_fail(cs, "unpaired", "iterating gives " + show(got) + "instead of " + show(d));
        if (u16.size() != d.size() || d.size() > 1) mc::stat("distinct_nontrivial");
        return true;
    }
    // Any bytes: terminates, makes progress, stays inside; plain text before them is kept.
    string b;
    for (int c : v) b += char(c);
    const string pre = "ab";
    const char* p = place(g_in, pre + b, false);
    const int len = int(pre.size() + b.size());
    str_iter it(p, len);
    const char* last = p;
    int n = 0;
    while (it.more())
    {
        int c = it.next();
        if (n < 2 && c != pre[n]) return utf_fail(cs, "bytes", "text before the bytes changed");
        if (it.get_pointer() <= last || it.get_pointer() > p + len) return utf_fail(cs, "bytes", "iterating leaves the text");
        last = it.get_pointer();
        ++n;
    }
    wstr<4> w;
    to_utf16(w, p, len);
    if (wcsncmp(w.c_str(), L"ab", 2)) return utf_fail(cs, "bytes", "text before the bytes changed");
    if (w.length() > uint32(len) * 2) return utf_fail(cs, "bytes", "the conversion grew");
    return true;
}
static string hexlist(char kind, const vector<int>& v) { string s(1, kind); s += ':'; char b[12]; for (size_t i = 0; i < v.size(); ++i) { sprintf(b, "%s%x", i ? "," : "", v[i]); s += b; } return s; }
static void utf_all()
{
    mc::ull serial = 0;
    for (int c = 1; c <= 0x10ffff; ++c)
    {
        if (c >= 0xd800 && c < 0xe000) continue;
        if ((c & 255) == 0) ++serial;
        if (!mc::mine(serial)) continue;
        utf_case(hexlist('c', { c }));
        if (mc::enough()) return;
    }
    auto seqs = [&](char kind, const vector<int>& alpha, int max) {
        vector<size_t> ix;
        for (int n = 2; n <= max; ++n)
        {
            ix.assign(n, 0);
            while (true)
            {
                if (mc::mine(serial++))
                {
                    vector<int> v;
                    for (size_t i : ix) v.push_back(alpha[i]);
                    string cs = hexlist(kind, v);
                    utf_case(cs);
                    if (n == 3) mc::sample(cs, kind == 'c' ? 2 : kind == 'w' ? 3 : 4);
                    if (mc::enough()) return;
                }
                int k = n;
                while (k && ++ix[k - 1] == alpha.size()) ix[--k] = 0;
                if (!k) break;
            }
        }
    };
    seqs('c', { 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xfffd, 0xd7ff, 0xe000, 0x10000, 0x1f600, 0x10ffff }, mc::thorough() ? 5 : 4);
    seqs('w', { 'a', 0xe9, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff }, mc::thorough() ? 6 : 5);
    vector<int> bytes;
    for (int i = 1; i < 256; i += mc::thorough() ? 1 : 3) bytes.push_back(i);
    seqs('b', bytes, 3);
    seqs('b', { 'a', 0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0xf8, 0xff }, 5);
}

//------------------------------------------------------------------------------
// Tokens: "delims:text".
struct tok { string text; int delim; size_t at; };
static vector<tok> ref_tokens(const string& s, const string& delims, bool quotes, size_t& end)
{
    vector<tok> out;
    size_t i = 0;
    while (true)
    {
        int d = 0;
        while (i < s.size() && delims.find(s[i]) != string::npos) d = (unsigned char)s[i++];
        size_t b = i;
        char close = 0;
        while (i < s.size() && (close || delims.find(s[i]) == string::npos))
        {
            if (close) { if (s[i] == close) close = 0; }
            else if (quotes) close = s[i] == '"' ? '"' : s[i] == '(' ? ')' : 0;
            ++i;
        }
        if (b == i) break;
        out.push_back({ s.substr(b, i - b), d, b });
    }
    end = i;
    return out;
}
static bool tok_case(const string& cs)
{
    mc::current(cs);
    mc::stat("evaluations");
    const bool quotes = cs[0] == 'q';
    const string delims = cs.substr(1, 2), s = cs.substr(4);
    size_t end;
    auto want = ref_tokens(s, delims, quotes, end);
    if (want.size() > 1) mc::stat("distinct_nontrivial");
    auto fail = [&](const string& m) { mc::violation("tokens", cs, m); return false; };
    const char* p = place(g_in, s);
    for (int how = 0; how < 3; ++how)
    {
        str_iter bounded(how == 2 ? place(g_in, s, false) : p, how == 2 ? int(s.size()) : -1);
        const char* base = bounded.get_pointer();
        str_tokeniser t(bounded, delims.c_str());
        if (quotes) { t.add_quote_pair("\""); t.add_quote_pair("()"); }
        for (auto& w : want)
        {
            int pd = t.peek_delims();
            if (t.get_pointer() + pd != base + w.at) return fail("the next token is seen at another place");
            str<> out; str_iter io; const char* st = nullptr; int32 len = 0;
            str_token r = how == 0 ? t.next(out) : how == 1 ? t.next(st, len) : t.next(io);
            string got = how == 0 ? out.c_str() : how == 1 ? string(st, len) : string(io.get_pointer(), io.length());
            if (!r || got != w.text) return fail("token \"" + got + "\" instead of \"" + w.text + "\"");
            if (r.delim != w.delim) return fail("the delimiter before the token is wrong");
            if (how && (how == 1 ? st : io.get_pointer()) != base + w.at) return fail("the token is at another place");
            if (t.get_pointer() != base + w.at + w.text.size()) return fail("the position after the token is wrong");
        }
        str<> out;
        if (t.next(out) || !out.empty()) return fail("there is a token too many: " + string(out.c_str()));
        if (t.get_pointer() != base + s.size()) return fail("not all text was consumed");
    }
    wstring ws(s.begin(), s.end());
    wstr_tokeniser wt(place(g_in, ws), delims.c_str());
    if (quotes) { wt.add_quote_pair("\""); wt.add_quote_pair("()"); }
    for (auto& w : want)
    {
        wstr<> out;
        str_token r = wt.next(out);
        if (!r || wstring(w.text.begin(), w.text.end()) != out.c_str() || r.delim != w.delim) return fail("as wide text, a token differs");
    }
    wstr<> out;
    if (wt.next(out)) return fail("as wide text, there is a token too many");
    return true;
}
static void strings(const string& alpha, int min, int max, const std::function<bool(const string&)>& f)
{
    for (int n = min; n <= max; ++n)
    {
        vector<size_t> ix(n, 0);
        string s(n, alpha[0]);
        while (true)
        {
            if (!f(s)) return;
            int k = n;
            while (k) { if (++ix[k - 1] == alpha.size()) { ix[k - 1] = 0; s[k - 1] = alpha[0]; --k; } else { s[k - 1] = alpha[ix[k - 1]]; break; } }
            if (!k) break;
        }
    }
}
static void tok_all()
{
    mc::ull serial = 0;
    for (const char* kind : { "q ,", "n ,", "q;;" })
        strings(string("ab\"()") + kind[1] + (kind[2] != kind[1] ? string(1, kind[2]) : ""), 0, mc::thorough() ? 8 : 6, [&](const string& s) {
            if (mc::mine(serial++)) { tok_case(string(kind) + ":" + s); if (s.size() == 6) mc::sample(string(kind) + ":" + s); }
            return !mc::enough();
        });
}

//------------------------------------------------------------------------------
// Comparing: "mode fuzzy exact_slash;left;right".
static vector<int> points(const string& s, vector<size_t>& at)
{
    vector<int> v;
    str_iter i(s.c_str());
    for (size_t p = 0; p < s.size();)
    {
        unsigned char c = s[p];
        int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        int x = n == 1 ? c : c & (0xff >> (n + 1));
        for (int k = 1; k < n; ++k) x = x << 6 | (s[p + k] & 63);
        p += n;
        v.push_back(x);
        at.push_back(p);
    }
    return v;
}
static int fold(int c, int mode, bool fuzzy)
{
    static const int upper[] = { 'A', 'B', 'E', 0xc1, 0xc9, 0x410, 0 }, lower[] = { 'a', 'b', 'e', 0xe1, 0xe9, 0x430, 0 };
    if (mode > 0) for (int i = 0; upper[i]; ++i) if (c == upper[i]) c = lower[i];
    if (mode > 1 && c == '-') c = '_';
    static const int accent[] = { 0xc1, 0xe1, 0xc9, 0xe9, 0x101, 0 }; static const char plain[] = "AaEea";
    if (fuzzy) for (int i = 0; accent[i]; ++i) if (c == accent[i]) c = plain[i];
    return c;
}
static bool is_sep(int c) { return c == '/' || c == '\\'; }
struct ctok { int c; size_t end; };
static vector<ctok> canon(const string& s, int mode, bool fuzzy, bool exact)
{
    vector<size_t> at;
    vector<int> v = points(s, at);
    vector<ctok> out;
    for (size_t i = 0; i < v.size(); ++i)
    {
        int c = v[i];
        if (exact ? c == '/' : is_sep(c))
        {
            while (i + 1 < v.size() && is_sep(v[i + 1])) ++i;
            out.push_back({ '/', at[i] });
        }
        else out.push_back({ fold(c, mode, fuzzy), at[i] });
    }
    return out;
}
template <bool lcd, bool exact> static int real_compare(const char* a, const char* b) { return str_compare<char, lcd, exact>(a, b); }
static bool compare_case(const string& cs)
{
    mc::current(cs);
    mc::stat("evaluations");
    auto f = mc::split(cs, ';');
    const int mode = f[0][0] - '0';
    const bool fuzzy = f[0][1] == '1', exact = f[0][2] == '1';
    const string &a = f[1], &b = f[2];
    auto x = canon(a, mode, fuzzy, exact), y = canon(b, mode, fuzzy, exact);
    size_t n = 0;
    while (n < x.size() && n < y.size() && x[n].c == y[n].c) ++n;
    int want = n ? int(x[n - 1].end) : 0;
    const bool equal = n == x.size() && n == y.size();
    if (n && a != b) mc::stat("distinct_nontrivial");
    str_compare_scope scope(mode, fuzzy);
    int lcd = exact ? real_compare<true, true>(a.c_str(), b.c_str()) : real_compare<true, false>(a.c_str(), b.c_str());
    int cmp = exact ? real_compare<false, true>(a.c_str(), b.c_str()) : real_compare<false, false>(a.c_str(), b.c_str());
    if (lcd != want) { mc::violation("common prefix", cs, "the common prefix is " + std::to_string(lcd) + " instead of " + std::to_string(want)); return false; }
    if (cmp != (equal ? -1 : want)) { mc::violation("compare", cs, "comparing gives " + std::to_string(cmp) + " instead of " + std::to_string(equal ? -1 : want)); return false; }
    wstr<> wa(a.c_str()), wb(b.c_str());
    int wcmp = exact ? str_compare<wchar_t, false, true>(wa.c_str(), wb.c_str()) : str_compare<wchar_t, false, false>(wa.c_str(), wb.c_str());
    if ((wcmp == -1) != equal) { mc::violation("compare wide", cs, "as wide text, comparing gives another answer"); return false; }
    return true;
}
static void compare_all()
{
    const vector<string> alpha = { "a", "A", "-", "_", "/", "\\", "\xc3\xa1", "\xc3\x81", "\xf0\x9f\x98\x80", "\xd0\x90", "\xd0\xb0" };
    const size_t na = mc::thorough() ? alpha.size() : 8;
    vector<string> all { "" };
    size_t b = 0;
    for (int n = 1; n <= 3; ++n)
    {
        size_t e = all.size();
        for (size_t i = b; i < e; ++i) for (size_t k = 0; k < na; ++k) all.push_back(all[i] + alpha[k]);
        b = e;
    }
    mc::ull serial = 0;
    for (int m = 0; m < 3; ++m) for (int fz = 0; fz < 2; ++fz) for (int ex = 0; ex < 2; ++ex)
        for (auto& l : all)
        {
            if (!mc::mine(serial++)) continue;
            for (auto& r : all)
            {
                compare_case(string(1, char('0' + m)) + char('0' + fz) + char('0' + ex) + ";" + l + ";" + r);
                if (mc::enough()) return;
            }
            if (l.size() > 3) mc::sample(string(1, char('0' + m)) + char('0' + fz) + char('0' + ex) + ";" + l + ";" + all[all.size() / 2]);
        }
}

//------------------------------------------------------------------------------
// Wildcards: "star;pattern;file".
static bool ref_wild(const char* p, const char* f, int star)
{
    if (!*p) return !*f;
    if (*p == '*')
    {
        const char* q = p;
        while (*q == '*' || *q == '?') ++q;
        if (!*q && star) return true;
        for (;; ++f)
        {
            if (ref_wild(q, f, star)) return true;
            if (!*f || (is_sep(*f) && star != 1)) return false;
        }
    }
    if (*p == '?')
        return *f ? !is_sep(*f) && ref_wild(p + 1, f + 1, star) : ref_wild(p + 1, f, star);
    if (!*f) return false;
    if (is_sep(*p))
    {
        if (!is_sep(*f)) return false;
        while (is_sep(*p)) ++p;
        while (is_sep(*f)) ++f;
        return ref_wild(p, f, star);
    }
    return *p == *f && ref_wild(p + 1, f + 1, star);
}
static bool wild_case(const string& cs)
{
    mc::current(cs);
    mc::stat("evaluations");
    auto f = mc::split(cs, ';');
    int star = f[0][0] - '0';
    bool want = ref_wild(f[1].c_str(), f[2].c_str(), star);
    if (want && f[1] != f[2]) mc::stat("distinct_nontrivial");
    bool got = path::match_wild(f[1].c_str(), f[2].c_str(), false, path::star_matches_everything(star));
    if (got != want)
    {
        mc::violation("wild " + cs, cs, "\"" + f[1] + "\" " + (got ? "matches" : "does not match") + " \"" + f[2] + "\"");
        return false;
    }
    return true;
}
static void wild_all()
{
    vector<string> files;
    strings("ab/.", 0, mc::thorough() ? 6 : 5, [&](const string& s) { files.push_back(s); return true; });
    mc::ull serial = 0;
    for (int star = 0; star < 3; ++star)
        strings("ab*?/.", 0, mc::thorough() ? 6 : 5, [&](const string& p) {
            if (!mc::mine(serial++)) return true;
            for (auto& f : files) { wild_case(string(1, char('0' + star)) + ";" + p + ";" + f); if (mc::enough()) return false; }
            if (p.size() == 5) mc::sample(string(1, char('0' + star)) + ";" + p + ";ab/a.");
            return true;
        });
    // Many wildcards, so that matching has to back up several times.
    vector<string> names;
    strings("ab", 0, 9, [&](const string& s) { names.push_back(s); return true; });
    for (int star = 0; star < 3 && !mc::enough(); ++star)
        strings("xyz", 4, mc::thorough() ? 9 : 7, [&](const string& pieces) {
            if (!mc::mine(serial++)) return true;
            string p;
            for (char c : pieces) p += c == 'x' ? "*a" : c == 'y' ? "*b" : "?";
            for (auto& f : names) { wild_case(string(1, char('0' + star)) + ";" + p + ";" + f); if (mc::enough()) return false; }
            return true;
        });
}

#include "core_path.h"

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (size_t i = 0; i + 1 < mc::S().extra.size(); ++i) if (mc::S().extra[i] == "--mode") g_mode = mc::S().extra[i + 1];
    if (mc::S().replaying)
    {
        const string& c = mc::S().replay;
        if (g_mode == "utf") utf_case(c);
        if (g_mode == "tok") tok_case(c);
        if (g_mode == "compare") compare_case(c);
        if (g_mode == "wild") wild_case(c);
        if (g_mode == "path") path_case(c);
        return mc::done();
    }
    if (g_mode == "utf") utf_all();
    if (g_mode == "tok") tok_all();
    if (g_mode == "compare") compare_all();
    if (g_mode == "wild") wild_all();
    if (g_mode == "path") path_all();
    return mc::done();
}
