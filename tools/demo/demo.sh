#!/bin/bash
# Builds demo.cpp (beside this file) against the libraries that build.sh made in /repo, and runs it
# in a scratch directory and Wine prefix of its own.  Exit 0: the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
L=$R/.build/gmake/bin/debug
T=$(mktemp -d)
export WINEPREFIX=$T/prefix WINEDEBUG=-all WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=" HOME=/root LC_ALL=C.UTF-8
unset DISPLAY
trap 'cd /; /usr/lib/wine/wineserver -k 2>/dev/null; /usr/lib/wine/wineserver -w 2>/dev/null; rm -rf "$T"' EXIT
mkdir -p "$T/work"
INC=""
for i in clink/core/include clink/lib/include clink/lib/include/lib clink/lib/src clink/lua/include clink/process/include clink/terminal/include clink/app/src wildmatch/wildmatch lua/src readline readline/compat getopt; do INC="$INC -I$R/$i"; done
x86_64-w64-mingw32-g++-posix -std=c++17 -fpermissive -w -g0 -O1 -DHAVE_CONFIG_H -DHANDLE_MULTIBYTE -DDEBUG -D_DEBUG -DNDEBUG \
    -D__MSVCRT_VERSION__=0x0601 -D_WIN32_WINNT=0x0601 -DWINVER=0x0601 -I$R/.build/gen $INC -idirafter $R/.build/gen/shim \
    -static -o "$T/demo.exe" "$D/demo.cpp" -Wl,--allow-multiple-definition \
    -Wl,--start-group $L/libclink_app_common.a $L/libclink_lib.a $L/libclink_lua.a $L/libclink_terminal.a $L/libclink_process.a $L/libclink_core.a $L/libreadline.a $L/liblua.a $L/libwildmatch.a $L/libgetopt.a $L/libdetours.a -Wl,--end-group \
    -lversion -lshlwapi -lrpcrt4 -lgdi32 -lole32 -ldbghelp -lkernel32 -luser32 -ladvapi32 -lshell32 -loleaut32 -luuid -lcomdlg32 || exit 3
/usr/lib/wine/wineserver -p
timeout 120 wineboot -i > /dev/null 2>&1
cd "$T/work"
timeout 120 wine "$T/demo.exe" "$D" < /dev/null
