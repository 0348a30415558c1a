"""Integer literals of the headers: arities and sizes next to them are sampled as well, so
that a case distinction on a number of elements or bytes is always seen from both sides."""
import glob, os, re
import build


def literals():
    out = set()
    for f in glob.glob(os.path.join(build.REPO, "src", "pigro", "*.h")):
        t = open(f, errors="replace").read()
        t = re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)
        t = re.sub(r'"[^"\n]*"', "", t)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?=[uUlLzZ]*\b)", t):
            try:
                out.add(int(m.group(1), 0))
            except ValueError:
                pass
    return out


def arities(base, limit):
    s = set(base)
    for n in literals() - {0, 1}:
        for k in (n - 1, n, n + 1, n + 2):
            if 0 <= k <= limit:
                s.add(k)
    return sorted(s)
