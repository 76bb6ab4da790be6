// One line of input in the real line editor, with the library's Lua scripts, readline's own
// initialisation, and stand-ins for the clock and the clipboard.
#pragma once
#include "ed.h"
#include "utf8_locale.h"
#include <lua/lua_match_generator.h>
#include <lua/lua_word_classifier.h>
#include <lua/lua_script_loader.h>
#include <lua/lua_state.h>
#include <algorithm>
extern "C" {
#include <readline/history.h>
#include <lua.h>
#include <lauxlib.h>
extern int _rl_utf8locale;
}
void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user);
int32 cua_get_anchor();
bool cua_clear_selection();

using std::string;
using std::vector;

static string join(const vector<string>& v, const char* sep = " ") { string s; for (auto& x : v) s += (s.empty() ? "" : sep) + x; return s; }
static lua_state* s_lua;
static lua_match_generator* s_gen;
static lua_word_classifier* s_cls;

static void run_lua(const string& code)
{
    lua_State* L = s_lua->get_state();
    if (luaL_loadstring(L, code.c_str()) || lua_pcall(L, 0, 0, 0)) { printf("LUA %s\n", lua_tostring(L, -1)); lua_pop(L, 1); }
}

// The clock, and the clipboard.
static long long s_clock;
static BOOL WINAPI counter(LARGE_INTEGER* v) { v->QuadPart = s_clock; return TRUE; }
static BOOL WINAPI frequency(LARGE_INTEGER* v) { v->QuadPart = 1000; return TRUE; }
extern "C" { void* __imp_QueryPerformanceCounter = (void*)counter; void* __imp_QueryPerformanceFrequency = (void*)frequency; }
struct clip : os::clipboard_provider
{
    bool get_clipboard_text(str_base& out) override { out = text.c_str(); return !text.empty(); }
    bool set_clipboard_text(const char* t, int32 n) override { text.assign(t, n); return true; }
    string text;
};
static clip s_clip;

struct session
{
    std::unique_ptr<ed::editor> e;
    session(bool words = true)
    {
        cua_clear_selection();
        e.reset(new ed::editor);
        if (words) { e->e->set_generator(*s_gen); e->e->set_classifier(*s_cls); }
        e->start();
        s_lua->send_event("onbeginedit");
    }
    void type(const string& t) { e->keys(t); }
    void key(const string& k, int wait = 10000) { s_clock += wait; e->keys(k); }
    vector<string> offers()
    {
        e->e->update_matches();
        vector<string> v;
        for (matches_iter i = e->e->m_matches.get_iter(); i.next();) v.push_back(i.get_match());
        return v;
    }
    string classes()
    {
        e->e->before_display_readline();
        string r;
        for (uint32 i = 0; i < e->e->m_classifications.length(); ++i) { char c = e->e->m_classifications.get_face(i); r += c > ' ' ? c : '.'; }
        return r;
    }
};

static void init_session()
{
    _rl_utf8locale = 1;
    settings::load("Z:\\nonexistent\\clink_settings");
    settings::find("match.translate_slashes")->set("system");
    settings::find("autosuggest.enable")->set("false");
    os::set_clipboard_provider(&s_clip);
    static lua_state lua;
    s_lua = &lua;
    static lua_match_generator gen(lua);
    static lua_word_classifier cls(lua);
    s_gen = &gen;
    s_cls = &cls;
    run_lua("clink._internal._exec_matches = clink._internal._exec_matches or function() return false end");
    ed::out o;
    printer p(o);
    printer_context pc(&o, &p);
    initialise_readline("clink", "Z:\\nonexistent", "", true);
    rl_variable_bind("bell-style", "none");
}
