"""Makes what premake5.lua generates (clink_commit.h, clink_manifest.xml) and wrappers for
headers whose case or separators only work on a Windows file system. Files are rewritten
only when their content changes."""
import os, re, sys
repo, out = sys.argv[1:3]
MINGW = "/usr/x86_64-w64-mingw32/include"
shim = os.path.join(out, "shim")
os.makedirs(shim, exist_ok=True)

def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)

v = dict(re.findall(r"CLINK_VERSION_(MAJOR|MINOR|PATCH)[ \t]+([0-9]+)",
         open(os.path.join(repo, "clink/app/src/version.h"), encoding="utf-8", errors="replace").read()))
maj, mnr, pat = (v.get(k, "0") for k in ("MAJOR", "MINOR", "PATCH"))
commit = "000000"
s = f"{maj}.{mnr}.{pat}.{commit}"
write(f"{out}/clink_commit.h", f'#pragma once\n#define CLINK_COMMIT {commit}\n#define CLINK_VERSION_STR "{s}"\n'
      f'#define CLINK_VERSION_LSTR L"{s}"\n#define CLINK_VERSION_STR_WITH_BRANCH "{s}"\n')

# The manifest text is taken from the string literals in premake5.lua.
lua = open(os.path.join(repo, "premake5.lua"), encoding="utf-8", errors="replace").read()
m = re.search(r"local manifest_string =(.*?)\n\s*\n", lua, re.S)
lines = [re.sub(r"^\s*--.*", "", x) for x in m.group(1).splitlines()]
lines = [re.sub(r"\s--[^'>]*$", "", x) for x in lines]
text = "\n".join(lines)
text = text.replace("'..maj..'", maj).replace("'..min..'", mnr).replace("'..pat..'", pat)
write(f"{out}/clink_manifest.xml", "".join(re.findall(r"'([^'\n]*)'", text)))

system = {f.lower(): f for f in os.listdir(MINGW)}
want = {}
for top in ("clink", "readline", "lua", "wildmatch", "detours", "getopt"):
    for d, _, fs in os.walk(os.path.join(repo, top)):
        for f in fs:
            if f.endswith((".c", ".cpp", ".h", ".i", ".rc")):
                for h in re.findall(rb'^\s*#\s*include\s*[<"]([^>"\n]+)[>"]', open(os.path.join(d, f), "rb").read(), re.M):
                    h = h.decode("latin-1")
                    if "\\" in h:
                        want[h] = h.replace("\\", "/")
                    elif "/" not in h and h not in system.values() and h.lower() in system:
                        want[h] = system[h.lower()]
for name, target in want.items():
    write(os.path.join(shim, name), f"#include <{target}>\n")
for f in set(os.listdir(shim)) - set(want):
    os.unlink(os.path.join(shim, f))
