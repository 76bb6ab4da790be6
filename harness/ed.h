// A real line editor (line_editor_impl with readline) without a console: input comes from a queue,
// output is dropped, the file system is a stand-in, and commands are never looked up.
#pragma once
#include <core/bldopts.h>
#include "mc.h"
#include <deque>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <core/bldopts.h>
#include <core/base.h>
#include <core/object.h>
#include <core/str.h>
#include <core/str_iter.h>
#include <core/str_map.h>
#include <core/array.h>
#include <core/singleton.h>
#include <core/settings.h>
#include <core/os.h>
#include <terminal/terminal.h>
#include <terminal/terminal_in.h>
#include <terminal/terminal_out.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include <terminal/input_idle.h>
#include <terminal/key_tester.h>
#include "bind_resolver.h"
#include "binder.h"
#include "editor_module.h"
#include "pager_impl.h"
#include "textlist_impl.h"
#include "suggestionlist_impl.h"
#include "line_editor_impl.h"
#include <lib/cmd_tokenisers.h>
#include <lib/matches.h>
#include <lib/recognizer.h>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
}

namespace ed {
static int s_rows = 25;
using std::string;
using std::vector;

class in : public terminal_in
{
public:
    int32 begin(bool) override { return 1; }
    int32 end(bool) override { return 0; }
    void override_handle() override {}
    bool available(uint32) override { return !q.empty(); }
    void select(input_idle*, uint32) override {}
    int32 read() override { if (q.empty()) { starved = true; return input_none; } int c = uint8(q.front()); q.pop_front(); return c; }
    int32 peek() override { return q.empty() ? int32(input_none) : int32(uint8(q.front())); }
    bool send_terminal_request(const char*, const char*, const char*, uint32, uint32, str_base&) override { return false; }
    key_tester* set_key_tester(key_tester* k) override { key_tester* o = keys; keys = k; return o; }
    std::deque<char> q;
    bool starved = false;
    key_tester* keys = nullptr;
};
class out : public terminal_out
{
public:
    void open() override {}
    void begin() override {}
    void end() override {}
    void close() override {}
    void write(const char*, int32) override {}
    void flush() override {}
    int32 get_columns() const override { return 80; }
    int32 get_rows() const override { return s_rows; }
    int32 get_top() const override { return 0; }
    bool get_cursor_pos(int16& x, int16& y) const override { x = y = 0; return false; }
    bool get_line_text(int32, str_base&) const override { return false; }
    int32 is_line_default_color(int32) const override { return true; }
    int32 line_has_color(int32, const BYTE*, int32, BYTE) const override { return false; }
    int32 find_line(int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) const override { return 0; }
};

//------------------------------------------------------------------------------
// The file system: relative to the current directory (a trailing backslash: a directory).
inline vector<string>& files() { static vector<string> f; return f; }
struct finder { vector<string> hits; size_t at = 0; };
inline bool wild(const char* p, const char* s)
{
    if (*p == '*') return wild(p + 1, s) || (*s && wild(p, s + 1));
    if (!*p) return !*s;
    return *s && (*p == '?' || tolower(uint8(*p)) == tolower(uint8(*s))) && wild(p + 1, s + 1);
}
inline void fill(WIN32_FIND_DATAW* fd, const string& f)
{
    memset(fd, 0, sizeof(*fd));
    bool dir = f.back() == '\\';
    string n = dir ? f.substr(0, f.size() - 1) : f;
    fd->dwFileAttributes = dir ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_NORMAL;
    for (size_t i = 0; i < n.size(); ++i) fd->cFileName[i] = uint8(n[i]);
}
inline string narrow(LPCWSTR p) { string s; for (; *p; ++p) s += char(*p); return s; }
inline HANDLE WINAPI find_first(LPCWSTR p, WIN32_FIND_DATAW* fd)
{
    string pat = narrow(p);
    finder* f = new finder;
    for (auto& c : pat) if (c == '/') c = '\\';
    size_t slash = pat.rfind('\\');
    const string dir = slash == string::npos ? "" : pat.substr(0, slash + 1);
    if (pat.find(':') == string::npos)
        for (auto& x : files())
        {
            // Entries below the directory itself.
            string n = x.back() == '\\' ? x.substr(0, x.size() - 1) : x;
            size_t last = n.rfind('\\');
            string d = last == string::npos ? "" : n.substr(0, last + 1);
            if (_stricmp(d.c_str(), dir.c_str())) continue;
            n = n.substr(d.size());
            if (wild(pat.c_str() + dir.size(), n.c_str())) f->hits.push_back(x.substr(d.size()));
        }
    if (f->hits.empty()) { delete f; SetLastError(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    fill(fd, f->hits[f->at++]);
    return HANDLE(f);
}
inline BOOL WINAPI find_next(HANDLE h, WIN32_FIND_DATAW* fd)
{
    finder* f = (finder*)h;
    if (f->at >= f->hits.size()) { SetLastError(ERROR_NO_MORE_FILES); return FALSE; }
    fill(fd, f->hits[f->at++]);
    return TRUE;
}
inline BOOL WINAPI find_close(HANDLE h) { delete (finder*)h; return TRUE; }
inline DWORD WINAPI attributes(LPCWSTR p)
{
    string n = narrow(p);
    for (auto& c : n) if (c == '/') c = '\\';
    for (auto& x : files())
    {
        bool dir = x.back() == '\\';
        if ((dir ? x.substr(0, x.size() - 1) : x) == n || x == n) return dir ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_NORMAL;
    }
    SetLastError(ERROR_FILE_NOT_FOUND);
    return INVALID_FILE_ATTRIBUTES;
}

//------------------------------------------------------------------------------
struct editor
{
    in input;
    out output;
    printer pr{ output };
    printer_context pc{ &output, &pr };
    cmd_command_tokeniser ct;
    cmd_word_tokeniser wt;
    line_editor_impl* e = nullptr;
    editor()
    {
        line_editor::desc d(&input, &output, &pr, nullptr);
        d.command_tokeniser = &ct;
        d.word_tokeniser = &wt;
        e = static_cast<line_editor_impl*>(line_editor_create(d));
    }
    ~editor() { line_editor_destroy(e); }
    void start() { e->update(); }
    void keys(const string& k)
    {
        for (char c : k) input.q.push_back(c);
        e->update();
        for (int i = 0; !input.q.empty() && i < 1000; ++i) e->update();
    }
    string line() const { return string(e->m_buffer.get_buffer(), e->m_buffer.get_length()); }
    int cursor() const { return e->m_buffer.get_cursor(); }
    // What completing at the end of the text offers.
    vector<string> complete(const string& text, int at = -1)
    {
        e->m_buffer.reset();
        e->m_buffer.insert(text.c_str());
        e->m_buffer.set_cursor(at < 0 ? int(text.size()) : at);
        e->m_prev_key.reset();
        e->m_prev_generate.clear();
        e->update_internal(true);
        e->update_matches();
        vector<string> v;
        for (matches_iter i = e->m_matches.get_iter(); i.next();) v.push_back(i.get_match());
        return v;
    }
    // The class of each word, as one letter.
    string classes(const string& text)
    {
        e->m_buffer.reset();
        e->m_buffer.insert(text.c_str());
        word_classifications c;
        c.init(e->m_buffer.get_length(), nullptr, false);
        command_line_states s = e->collect_command_line_states();
        e->m_classifier->classify(s.get_linestates(e->m_buffer), c, true);
        c.finish();
        string r;
        if (const word_class_infos* infos = c.get_test_infos())
            for (auto& i : *infos) r += unsigned(i.word_class) < 8 ? "ouxcdafn"[unsigned(i.word_class)] : ' ';
        return r;
    }
};
}

// Commands are never looked up.
recognition recognize_command(const char*, const char*, bool, bool& ready, str_base* file) { ready = true; if (file) file->clear(); return recognition::unknown; }
#ifndef ED_OWN_FILES
extern "C" {
void* __imp_FindFirstFileW = (void*)ed::find_first;
void* __imp_FindNextFileW = (void*)ed::find_next;
void* __imp_FindClose = (void*)ed::find_close;
void* __imp_GetFileAttributesW = (void*)ed::attributes;
}
#endif
