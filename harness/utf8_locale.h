// The UTF-8 locale that clink's readline is built for (Wine's C runtime has none).
#pragma once
#include <wchar.h>
extern "C" size_t mbrtowc(wchar_t* w, const char* s, size_t n, mbstate_t*)
{
    if (!s) return 0;
    if (!n) return size_t(-2);
    const unsigned char c = *s;
    const int need = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : 0;
    if (!need) return size_t(-1);
    unsigned u = need == 1 ? c : c & (0xff >> (need + 1));
    for (int i = 1; i < need; ++i)
    {
        if (size_t(i) >= n) return size_t(-2);
        if ((s[i] & 0xc0) != 0x80) return size_t(-1);
        u = u << 6 | (s[i] & 0x3f);
    }
    if (w) *w = u > 0xffff ? 0xfffd : wchar_t(u);
    return u ? need : 0;
}
extern "C" size_t mbrlen(const char* s, size_t n, mbstate_t* p) { return mbrtowc(nullptr, s, n, p); }
extern "C" int _rl_utf8locale;
