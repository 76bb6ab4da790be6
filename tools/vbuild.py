"""Builds a harness together with the parts of clink it needs, from the sources in /repo.

vbuild.build("path", libs=["core"], opt="-O1", wrap=[...]) compiles /verif/harness/path.cpp and every
source of the named clink libraries (globbed from /repo's working tree, so files added by a change
are picked up) with the same cross compiler, language options, defines and include paths as
/opt/vp/cmake/CMakeLists.txt, and returns the path of the executable.  Everything is written below
/verif/.build, which git ignores."""
import glob, os, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
GEN = os.path.join(BUILD, "gen")
CXX = "x86_64-w64-mingw32-g++-posix"
CC = "x86_64-w64-mingw32-gcc-posix"
AR = "x86_64-w64-mingw32-ar"
OSLIBS = "version shlwapi rpcrt4 gdi32 ole32 dbghelp kernel32 user32 advapi32 shell32 oleaut32 uuid comdlg32".split()

# name: (source globs, exclusions (suffixes), include dirs, extra C/C++ flags)
LIBS = {
    "readline": (["readline/readline/*.c", "readline/compat/*.c"], ["/emacs_keymap.c", "/vi_keymap.c"],
                 ["readline", "readline/compat", "wildmatch/wildmatch"], ["-DBUILD_READLINE"]),
    "getopt": (["getopt/*.c"], [], [], []),
    "wildmatch": (["wildmatch/wildmatch/*.c"], [], [], []),
    "lua": (["lua/src/*.c"], ["/lua.c", "/luac.c"], [], ["-DBUILD_LUA", "-DBUILD_CLINK_LUA"]),
    "detours": (["detours/*.cpp"], ["/disolarm.cpp", "/disolarm64.cpp", "/disolia64.cpp", "/uimports.cpp"], [], ["-fno-exceptions"]),
    "clink_lib": (["clink/lib/src/**/*.c*", "clink/lib/include/**/*.c*"], [],
                  ["clink/lib/include/lib", "clink/core/include", "clink/terminal/include", "readline", "readline/compat",
                   "wildmatch", "clink/lib/src"], ["-fno-exceptions"]),
    "clink_lua": (["clink/lua/src/**/*.c*", "clink/lua/include/**/*.c*", "clink/lua/scripts/**/*.c*"], [],
                  ["clink/lua/include/lua", "clink/core/include", "clink/lib/include", "clink/process/include",
                   "clink/terminal/include", "lua/src", "readline", "readline/compat", "wildmatch", "clink/lua/src"], ["-fno-exceptions"]),
    "clink_core": (["clink/core/src/**/*.c*", "clink/core/include/**/*.c*"], [],
                   ["clink/core/include/core", "clink/core/src"], ["-fno-exceptions"]),
    "clink_terminal": (["clink/terminal/src/**/*.c*", "clink/terminal/include/**/*.c*"], [],
                       ["clink/terminal/include/terminal", "clink/core/include", "clink/process/include", "clink/terminal/src"], ["-fexceptions"]),
    "clink_process": (["clink/process/src/**/*.c*", "clink/process/include/**/*.c*"], [],
                      ["clink/core/include", "clink/process/include/process", "clink/process/src"], ["-fno-exceptions"]),
    "clink_app": (["clink/app/src/**/*.c*", "clink/app/scripts/**/*.c*"], ["app/src/dll/main.cpp", "app/src/loader/main.cpp"],
                  ["clink/app/src", "clink/core/include", "clink/lib/include", "clink/lua/include", "clink/process/include",
                   "clink/terminal/include", "getopt", "lua/src", "readline", "readline/compat", "detours"], ["-fno-exceptions"]),
}
PCH_STD = ["vector", "memory", "map", "unordered_map", "unordered_set", "algorithm", "functional", "string", "list"]
ALL = list(LIBS)
HARNESS_INC = ["clink/app/src", "clink/core/include", "clink/lib/include", "clink/lib/include/lib", "clink/lib/src",
               "clink/lua/include", "clink/process/include", "clink/terminal/include", "clink/terminal/include/terminal", "clink/terminal/src", "wildmatch/wildmatch", "lua/src", "readline",
               "readline/compat", "getopt"]


def _sources(globs, excl):
    out = []
    for g in globs:
        for f in glob.glob(os.path.join(REPO, g), recursive=True):
            if f.endswith((".c", ".cpp")) and not any(f.endswith(e) for e in excl):
                out.append(f)
    return sorted(set(out))


def _esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(harness, libs=None, hot=(), wrap=(), link=(), cflags=(), srcs=(), quiet=True):
    """Compiles and links /verif/harness/<harness>.cpp; returns the .exe path.  The libraries in hot
    are compiled with -O1, the others with -O0 (to save time); libs defaults to all of them."""
    libs = ALL if libs is None else libs
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run([sys.executable, os.path.join(VERIF, "tools", "prepare.py"), REPO, GEN], check=True)
    common = (f"-g0 -w -ffunction-sections -fdata-sections -DHAVE_CONFIG_H -DHANDLE_MULTIBYTE -DDEBUG -D_DEBUG -DNDEBUG "
              f"-DCLINK_BUILD_ROOT='\"Z:{REPO}/x/y\"' -D__MSVCRT_VERSION__=0x0601 -D_WIN32_WINNT=0x0601 -DWINVER=0x0601 "
              f"-I{GEN} -idirafter {GEN}/shim")
    L = ["rule cc", "  command = $comp $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ar", f"  command = rm -f $out && {AR} crT $out @$out.rsp", "  rspfile = $out.rsp", "  rspfile_content = $in",
         "rule ln", f"  command = {CXX} -static -o $out @$out.rsp $extra", "  rspfile = $out.rsp", "  rspfile_content = $in"]
    archives = []
    def comp(src, obj, inc, extra, opt, pch=None):
        cxx = src.endswith(".cpp")
        fl = opt + " " + common + " " + " ".join(f"-I{REPO}/{d}" for d in inc) + " " + " ".join(extra)
        if cxx:
            fl += " -std=c++17 -fpermissive"
        else:
            fl = fl.replace("-fno-exceptions", "").replace("-fexceptions", "")
        dep = ""
        if pch and cxx and '#include "pch.h"' in open(src, encoding="utf-8", errors="replace").read():
            fl += f" -include {pch}"
            dep = f" | {pch}.gch"
        L.append(f"build {_esc(obj)}: cc {_esc(src)}{dep}\n  comp = {CXX if cxx else CC}\n  flags = {fl}")
    for name in libs:
        globs, excl, inc, extra = LIBS[name]
        opt = "-O1" if name in hot else "-O0"
        objs = []
        pch = None
        own = glob.glob(f"{REPO}/clink/{name[6:]}/src/pch.h") if name.startswith("clink_") else []
        if own:
            # Precompiled headers, only to save time: the library's own pch.h and some of std.
            pch = f"{BUILD}/obj{opt}/{name}/vpch.h"
            os.makedirs(os.path.dirname(pch), exist_ok=True)
            text = f'#include "{own[0]}"\n' + "".join(f"#include <{h}>\n" for h in PCH_STD)
            if not os.path.exists(pch) or open(pch).read() != text:
                open(pch, "w").write(text)
            fl = opt + " " + common + " " + " ".join(f"-I{REPO}/{d}" for d in inc) + " " + " ".join(extra) + " -std=c++17 -fpermissive -x c++-header"
            L.append(f"build {pch}.gch: cc {pch}\n  comp = {CXX}\n  flags = {fl}")
        for s in _sources(globs, excl):
            o = f"{BUILD}/obj{opt}/{name}/{os.path.relpath(s, REPO)}.o"
            comp(s, o, inc, extra, opt, pch)
            objs.append(o)
        a = f"{BUILD}/obj{opt}/lib{name}.a"
        L.append(f"build {a}: ar {' '.join(map(_esc, objs))}")
        archives.append(a)
    hobjs = []
    for s in [f"{VERIF}/harness/{harness}.cpp"] + [os.path.join(VERIF, "harness", x) for x in srcs]:
        o = f"{BUILD}/obj-O1/harness/{harness}/{os.path.basename(s)}.o"
        comp(s, o, HARNESS_INC, ["-fexceptions", f"-I{VERIF}/harness"] + list(cflags), "-O1")
        hobjs.append(o)
    exe = f"{BUILD}/bin/{harness}.exe"
    os.makedirs(f"{BUILD}/bin", exist_ok=True)
    extra = " ".join([f"-Wl,--wrap={w}" for w in wrap] + list(link) + ["-Wl,--gc-sections"] +
                     ["-Wl,--start-group"] + archives + ["-Wl,--end-group"] + [f"-l{x}" for x in OSLIBS])
    L.append(f"build {exe}: ln {' '.join(hobjs)} | {' '.join(archives)}\n  extra = {extra}")
    nf = f"{BUILD}/{harness}.ninja"
    with open(nf, "w") as f:
        f.write(f"builddir = {BUILD}/nb-{harness}\n" + "\n".join(L) + "\n")
    env = dict(os.environ, LC_ALL="C.UTF-8")
    r = subprocess.run(["ninja", "-f", nf, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        print('\n'.join(l[:600] for l in r.stdout.splitlines() if 'error' in l or 'undefined' in l)[-6000:])
        raise SystemExit("build failed")
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2].split(",") if len(sys.argv) > 2 else ["clink_core"]))
