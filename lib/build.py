"""Compiles witness units against /repo and gives their RTL or diagnostics."""
import os, re, shutil, subprocess, tempfile, concurrent.futures as cf, json
import rtl

REPO = os.environ.get("PIGRO_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = shutil.which("g++-13") or shutil.which("g++")
JOBS = max(1, min(8, os.cpu_count() or 1))
BASE = ["-std=gnu++20", "-w", "-I", os.path.join(REPO, "src"), "-I", os.path.join(HERE, "witness"),
        "-fmax-errors=0", "-fdiagnostics-color=never", "-fno-diagnostics-show-caret", "-ftemplate-backtrace-limit=2"]
RTLFLAGS = ["-O2", "-fno-tree-vectorize", "-fno-stack-protector", "-fcf-protection=none", "-fno-ipa-icf", "-fno-ipa-cp",
            "-fno-partial-inlining", "-fno-allocation-dce", "-fno-tree-tail-merge", "-fno-code-hoisting",
            "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign"]
# a second way to compile the same witnesses: what is reported must show in both
ALTFLAGS = ["-O1", "-fno-store-merging", "-fno-tree-slp-vectorize"] + RTLFLAGS[1:]
if os.environ.get("VERIF_ALT"):
    RTLFLAGS, ALTFLAGS = ALTFLAGS, RTLFLAGS


class Broken(Exception):
    """The analysis itself cannot be carried out."""


def run(cmd, cwd=None, timeout=600):
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"


def errors(stderr, src):
    """[(file, line, message)] of a compiler run; 'required from here' positions of src included."""
    out = []
    ctx = []
    for l in stderr.splitlines():
        m = re.match(r"^([^:\s][^:]*):(\d+):(?:\d+:)? +(fatal error|error|  *required from here|recursively required from here|.*required from.*|.*required by.*|.*required for.*)(.*)$", l)
        if not m:
            continue
        f, n, k, msg = m.group(1), int(m.group(2)), m.group(3), m.group(4)
        if "error" in k and k in ("error", "fatal error"):
            out.append([f, n, msg.lstrip(": ")[:300], [c for c in ctx if os.path.basename(c[0]) == os.path.basename(src)]])
            ctx = []
        else:
            ctx.append((f, n))
    return out


class Unit:
    def __init__(self, name, text, flags=(), rtl=True, alt=False):
        self.alt = alt
        self.name, self.text, self.flags, self.rtl = name, text, list(flags), rtl
        self.ok = None
        self.stderr = ""
        self.fns = {}


def compile_units(units, keep=None, wanted=None):
    d = tempfile.mkdtemp(prefix="pigro-verif-")
    try:
        def one(u):
            src = os.path.join(d, u.name + ".cpp")
            open(src, "w").write(u.text)
            if u.rtl:
                cmd = [CXX] + BASE + (ALTFLAGS if u.alt else RTLFLAGS) + u.flags + ["-S", "-o", os.path.join(d, u.name + ".s"),
                                                           "-fdump-rtl-into_cfglayout-blocks-details=" + os.path.join(d, u.name + ".rtl"), src]
            else:
                cmd = [CXX] + BASE + u.flags + ["-fsyntax-only", src]
            rc, so, se = run(cmd, cwd=d)
            u.ok, u.stderr, u.rc, u.src = rc == 0, se, rc, src
            if u.ok and u.rtl:
                text = open(os.path.join(d, u.name + ".rtl")).read()
                u.dump = text
            if keep:
                os.makedirs(keep, exist_ok=True)
                shutil.copy(src, keep)
            return u
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, units))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return units
