"""setup_cmd: nothing has to be prepared (each check builds what it needs from /repo); this only
says early when a tool is missing."""
import shutil, sys
missing = [t for t in ("ninja", "wine", "x86_64-w64-mingw32-g++-posix", "x86_64-w64-mingw32-gcc-posix") if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "ok")
sys.exit(1 if missing else 0)
