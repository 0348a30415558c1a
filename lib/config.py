"""The configurations in which the headers may read differently: for each macro that their own
preprocessor conditions (or assert) ask for, the other setting than the usual one."""
import glob, os, re, subprocess
import build

# facts about the compiler or platform, which is the same in every configuration
FIXED = re.compile(r"^(_MSC|__clang|_WIN|WIN|__APPLE|__EDG|__INTEL|__MINGW|__CYGWIN|__linux|__unix|__GNU[CG]|__x86|__i386|__arm|__aarch|_GLIBCXX_(RELEASE|USE)|__GLIBC|__SIZEOF|__has_|__BYTE|__CHAR|__VERSION|__FILE|__LINE|__COUNTER|__BASE)")
AS_FLAG = {"__STRICT_ANSI__": ["-std=c++20"], "__SANITIZE_ADDRESS__": ["-D__SANITIZE_ADDRESS__"], "__cplusplus": ["-std=gnu++23"]}


def sources():
    for f in glob.glob(os.path.join(build.REPO, "src", "pigro", "*.h")):
        t = open(f, errors="replace").read().replace("\\\n", " ")
        yield re.sub(r'"[^"\n]*"', '""', re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S))


def macros():
    out = []
    for t in sources():
        guards = set(re.findall(r"^\s*#\s*ifndef\s+(\w+)\s*\n\s*#\s*define\s+\1\s*$", t, flags=re.M))
        own = set(re.findall(r"^\s*#\s*define\s+(\w+)", t, flags=re.M))
        for m in re.finditer(r"^\s*#\s*(if|ifdef|ifndef|elif|elifdef|elifndef)\b(.*)$", t, flags=re.M):
            for name in re.findall(r"\b[A-Za-z_]\w*", re.sub(r"\b\d\w*", " ", m.group(2))):
                if name not in guards and name not in own and name not in ("defined", "__has_include", "__has_cpp_attribute", "and", "or", "not", "true", "false") and not FIXED.match(name):
                    out.append(name)
        if re.search(r"\bassert\s*\(", t):
            out.append("NDEBUG")
    return sorted(set(out))


def predefined():
    p = subprocess.run([build.CXX] + build.BASE + build.RTLFLAGS + ["-dM", "-E", "-x", "c++", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return set(re.findall(r"^#define (\w+)", p.stdout, flags=re.M))


def configurations(limit=4):
    """Lists of compiler flags, beside the usual ones."""
    names = macros()
    if not names:
        return []
    known = predefined()
    out = []
    for n in names:
        fl = AS_FLAG.get(n) or (["-U" + n] if n in known else ["-D" + n])
        u = build.Unit("config", "#include <optional>\n#include <tuple>\n#include <functional>\n#include <array>\n#include <memory>\n#include <string>\n", fl, rtl=False)
        build.compile_units([u])
        if u.ok and fl not in out:
            out.append(fl)
    return out[:limit]
