"""Path-sensitive typestate dataflow (property simulation) over RTL.

A forward dataflow analysis over the control flow graph of a function.  The abstract
state maps registers and memory cells to *provenance terms* (constant, parameter, result
of the k-th call of an opaque function, address of a local, comparison of two of these),
records the typestate of every tracked object (unborn, alive with its provenance, moved
from, dead), the facts established by the branches taken and the sequence of calls of
opaque functions.  States that differ are kept apart, equal ones are merged at joins.
Nothing is executed and no solver is involved: a branch splits the state unless its
condition is one of the recorded facts, or follows from them by equality alone.

Opaque functions are known by name:
  vc_copy(dst, src) / vc_move(dst, src)    construct a tracked object
  vc_assign(dst, src) / vc_massign         assign to one
  vc_dtor(obj)                             destroy one
  vc_eq(a, b)                              compare two
  mk_*(dst, ...)                           construct one anew, from nothing
  op_*(...)                                anything else
"""
import time
import rtl

MAX_STATES = 40000
MAX_VISITS = 48


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, atom):
        self.atom = atom


# ---------------------------------------------------------------- formulas

T = ("T",)
F = ("F",)


def f_not(f):
    k = f[0]
    if k == "T":
        return F
    if k == "F":
        return T
    if k == "not":
        return f[1]
    return ("not", f)


def f_and(a, b):
    if a == F or b == F:
        return F
    if a == T:
        return b
    if b == T or a == b:
        return a
    return ("and", a, b)


def f_or(a, b):
    return f_not(f_and(f_not(a), f_not(b)))


def f_xor(a, b):
    if a == T:
        return f_not(b)
    if b == T:
        return f_not(a)
    if a == F:
        return b
    if b == F:
        return a
    return ("xor", a, b)


def c(n):
    return ("c", n)


def is_addr(t):
    return t[0] == "addr"


def mkaddr(base, off):
    if off == 0 and base[0] not in ("fr", "sym"):
        return base
    return ("addr", base, off)


def addr(t):
    """(base, offset) of a term used as an address."""
    if t[0] == "addr":
        return t[1], t[2]
    return t, 0


SIZES = {"QI": 1, "HI": 2, "SI": 4, "DI": 8, "TI": 16, "OI": 32, "XI": 64, "SF": 4, "DF": 8, "XF": 16, "TF": 16,
         "V2DI": 16, "V4SI": 16, "V8HI": 16, "V16QI": 16, "V2DF": 16, "V4SF": 16, "V1TI": 16, "V2SI": 8, "V2SF": 8,
         "V4DI": 32, "V8SI": 32, "V1DI": 8, "V8QI": 8, "V4HI": 8, "V4QI": 4, "V2HI": 4, "V2QI": 2, "BF": 2, "HF": 2}

ARG_REGS = ["5", "4", "1", "2", "36", "37"]  # di si dx cx r8 r9
FLT_REGS = [str(20 + i) for i in range(8)]


def mode_of(tok):
    return tok.split(":")[1] if ":" in tok else None


def head_of(tok):
    return tok.split(":")[0].split("/")[0]


def wrap(n, mode):
    s = SIZES.get(mode)
    if not s or mode in ("SF", "DF", "XF", "TF"):
        return n
    b = 8 * s
    n &= (1 << b) - 1
    if n >> (b - 1):
        n -= 1 << b
    return n


class Event:
    __slots__ = ("name", "args", "contents", "pos", "outcome", "idx", "fargs")

    def __init__(self, idx, name, args, contents, pos, outcome="return", fargs=()):
        self.idx, self.name, self.args, self.contents, self.pos, self.outcome, self.fargs = idx, name, args, contents, pos, outcome, fargs

    def key(self):
        return (self.idx, self.name, self.args, self.contents, self.outcome)

    def __repr__(self):
        return "%s(%s)%s" % (self.name, ", ".join(show(a) if k is None else show(k) for a, k in zip(self.args, self.contents)),
                             "" if self.outcome == "return" else " throws")


def show(t):
    if t is None:
        return "-"
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "ret":
        return "%s#%s" % (t[1], t[2])
    if k == "mk":
        return "%s#%s" % (t[1], t[2])
    if k == "arg":
        return "arg%s" % t[1]
    if k == "addr":
        return "&%s%+d" % (show(t[1]), t[2])
    if k == "fr":
        return "local"
    if k == "sym":
        return t[1]
    if k == "atom":
        return show(t[1])
    if k == "eq":
        return "%s==%s" % (show(t[1]), show(t[2]))
    if k == "not":
        return "!(%s)" % show(t[1])
    return "%s(%s)" % (k, ",".join(show(x) for x in t[1:]))


def _conditional(t):
    """Whether a term is made of a condition on a widened number."""
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "bool":
        return "'op_any'" in repr(t)
    return any(_conditional(x) for x in t)


class State:
    def __init__(self):
        self.regs = {}
        self.mem = {}      # base -> {off: (size, term)}
        self.objs = {}     # (base, off) -> content
        self.facts = {}    # atom -> bool
        self.events = []
        self.errors = []
        self.throws = 0
        self.stack = []    # (function, block, index, regs, frame)
        self.frame = 0
        self.nframes = 0
        self.visits = {}
        self.snaps = {}    # (base, off) of an object -> constants in it at the last calls of op_widen
        self.fn = None
        self.block = None
        self.index = 0

    def clone(self):
        s = State.__new__(State)
        s.regs = dict(self.regs)
        s.mem = {b: dict(m) for b, m in self.mem.items()}
        s.objs = dict(self.objs)
        s.facts = dict(self.facts)
        s.events = list(self.events)
        s.errors = list(self.errors)
        s.throws = self.throws
        s.stack = list(self.stack)
        s.frame = self.frame
        s.nframes = self.nframes
        s.visits = dict(self.visits)
        s.snaps = dict(self.snaps)
        s.fn, s.block, s.index = self.fn, self.block, self.index
        return s

    def key(self):
        return (self.fn.name, self.block, self.index, tuple(sorted(self.regs.items())),
                tuple(sorted((repr(b), tuple(sorted(m.items()))) for b, m in self.mem.items())),
                tuple(sorted((repr(k), v) for k, v in self.objs.items())),
                tuple(sorted((repr(k), v) for k, v in self.facts.items())),
                tuple(e.key() for e in self.events), tuple(self.errors), self.throws, tuple(sorted(self.snaps.items(), key=repr)),
                tuple((f.name, b, i, fr) for f, b, i, r, fr in self.stack))

    # ---- facts

    def _classes(self):
        parent = {}

        def find(x):
            while parent.get(x, x) != x:
                x = parent[x]
            return x
        for a, v in self.facts.items():
            if v and a[0] == "eq":
                x, y = find(a[1]), find(a[2])
                if x != y:
                    if x[0] == "c":
                        x, y = y, x
                    parent[x] = y
        return find

    def canon(self, t):
        return self._classes()(t)

    def atom(self, a):
        """Truth of an atom by the facts, or None."""
        if a in self.facts:
            return self.facts[a]
        if a[0] == "eq":
            x, y = a[1], a[2]
            r = _const_eq(x, y)
            if r is not None:
                return r
            if not self.facts:
                return None
            find = self._classes()
            x, y = find(x), find(y)
            r = _const_eq(x, y)
            if r is not None:
                return r
            for b, v in self.facts.items():
                if not v and b[0] == "eq":
                    p, q = find(b[1]), find(b[2])
                    if (p, q) == (x, y) or (p, q) == (y, x):
                        return False
        return None

    def formula(self, f):
        """Truth of a formula, or None; raises nothing."""
        k = f[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "atom":
            return self.atom(f[1])
        if k == "not":
            r = self.formula(f[1])
            return None if r is None else not r
        if k == "and":
            a = self.formula(f[1])
            if a is False:
                return False
            b = self.formula(f[2])
            if b is False:
                return False
            return True if a and b else None
        if k == "xor":
            a, b = self.formula(f[1]), self.formula(f[2])
            return None if a is None or b is None else a != b
        raise Unsupported("formula " + k)

    def decide(self, f):
        r = self.formula(f)
        if r is not None:
            return r
        raise Fork(self._open_atom(f))

    def _open_atom(self, f):
        k = f[0]
        if k == "atom":
            return f[1] if self.atom(f[1]) is None else None
        if k == "not":
            return self._open_atom(f[1])
        if k in ("and", "xor"):
            return self._open_atom(f[1]) or self._open_atom(f[2])
        return None

    # ---- memory

    def load(self, base, off, size):
        m = self.mem.get(base)
        if m:
            x = m.get(off)
            if x and x[0] == size:
                return x[1]
            pieces = []
            for o in sorted(m):
                s, t = m[o]
                if o + s <= off or o >= off + size:
                    continue
                lo, hi = max(o, off), min(o + s, off + size)
                pieces.append((lo - off, hi - lo, part(t, s, lo - o, hi - lo)))
            if pieces:
                full = []
                at = 0
                for o, s, t in pieces:
                    if o > at:
                        full.append((at, o - at, self.unknown(base, off + at, o - at)))
                    full.append((o, s, t))
                    at = o + s
                if at < size:
                    full.append((at, size - at, self.unknown(base, off + at, size - at)))
                return cat(full, size)
        return self.unknown(base, off, size)

    def unknown(self, base, off, size):
        if base[0] == "fr":
            return ("undef", base, off, size)
        return ("init", base, off, size)

    def store(self, base, off, size, term):
        m = self.mem.setdefault(base, {})
        for o in [o for o, (s, t) in m.items() if o < off + size and o + s > off]:
            s, t = m.pop(o)
            if o < off:
                m[o] = (off - o, part(t, s, 0, off - o))
            if o + s > off + size:
                m[off + size] = (o + s - off - size, part(t, s, off + size - o, o + s - off - size))
        if term[0] == "cat":
            for o, s, t in term[1]:
                if t[0] != "undef":
                    m[off + o] = (s, t)
        elif term[0] != "undef":
            m[off] = (size, term)

    # ---- objects

    def content(self, t, what, read=True):
        """Content of the tracked object at address t, or None with an error recorded."""
        k = addr(t)
        if k in self.objs:
            v = self.objs[k]
            if read and v[0] == "moved":
                self.errors.append("%s reads a moved-from value" % what)
            return v
        if k[0][0] in ("fr",):
            if read:
                self.errors.append("%s reads an object that is not alive" % what)
            return ("dead",)
        return ("ext", k[0], k[1])


def _const_eq(x, y):
    if x == y:
        return True
    if x[0] == "c" and y[0] == "c":
        return False
    for p, q in ((x, y), (y, x)):
        if p[0] == "addr" and p[1][0] in ("fr", "sym"):
            if q[0] == "c":
                return False
            if q[0] == "addr" and q[1][0] in ("fr", "sym"):
                return False
            if q[0] == "addr" and q[1] == p[1]:
                return False
    if x[0] == "bool" or y[0] == "bool":
        return None
    return None


def cat(pieces, size):
    flat = []
    for o, s, t in pieces:
        if t[0] == "cat":
            for o2, s2, t2 in t[1]:
                flat.append((o + o2, s2, t2))
        else:
            flat.append((o, s, t))
    if len(flat) == 1 and flat[0][0] == 0 and flat[0][1] == size:
        return flat[0][2]
    if all(t[0] == "c" for _, _, t in flat):
        n = 0
        for o, s, t in flat:
            n |= (t[1] & ((1 << (8 * s)) - 1)) << (8 * o)
        b = 8 * size
        if n >> (b - 1):
            n -= 1 << b
        return c(n)
    # adjacent parts of one term
    out = [flat[0]]
    for o, s, t in flat[1:]:
        po, ps, pt = out[-1]
        if t[0] == "part" and pt[0] == "part" and t[1] == pt[1] and t[2] == pt[2] + ps:
            out[-1] = (po, ps + s, part(t[1], t[4], pt[2], ps + s))
        elif t[0] in ("init", "undef") and pt[0] == t[0] and pt[1] == t[1] and t[2] == pt[2] + ps:
            out[-1] = (po, ps + s, (t[0], t[1], pt[2], ps + s))
        else:
            out.append((o, s, t))
    if len(out) == 1:
        return out[0][2]
    return ("cat", tuple(out))


def part(t, whole, off, size):
    if off == 0 and size == whole:
        return t
    if t[0] == "c":
        return c(_sx((t[1] >> (8 * off)) & ((1 << (8 * size)) - 1), size))
    if t[0] in ("init", "undef"):
        return (t[0], t[1], t[2] + off, size)
    if t[0] == "cat":
        pieces = []
        for o, s, x in t[1]:
            lo, hi = max(o, off), min(o + s, off + size)
            if lo < hi:
                pieces.append((lo - off, hi - lo, part(x, s, lo - o, hi - lo)))
        return cat(pieces, size)
    if t[0] == "part":
        return part(t[1], t[4], t[2] + off, size)
    if t[0] in ("zext", "sext") and off == 0:
        if size == t[2]:
            return t[1]
        if size < t[2]:
            return part(t[1], t[2], 0, size)
    if t[0] == "bool":
        if off == 0:
            return t
        return c(0)
    if t[0] == "lowpart":
        return part(t[1], whole, off, size)
    return ("part", t, off, size, whole)


def _sx(n, size):
    b = 8 * size
    if n >> (b - 1):
        n -= 1 << b
    return n


def pieces_of(t, size):
    if t[0] == "cat":
        out, at = [], 0
        for o, s, x in t[1]:
            if o > at:
                return [(0, size, t)]
            out.append((o, s, x))
            at = o + s
        if at < size:
            out.append((at, size - at, c(0)))
        return out
    if t[0] == "zext" and t[2] < size:
        return [(0, t[2], t[1]), (t[2], size - t[2], c(0))]
    return [(0, size, t)]


def bytewise(h, a, b, size):
    """and / ior of values that put bytes together (a constant mask, or disjoint bytes), or None."""
    if h not in ("and", "ior") or not 1 < size <= 8:
        return None
    if "undef" not in (a[0], b[0]) and not ({a[0], b[0]} & {"cat", "c"} and {a[0], b[0]} & {"cat", "zext", "undef"}):
        return None
    pa = pb = None
    cuts = {0, size}
    for t in (a, b):
        if t[0] == "c":
            cuts |= set(range(size))
        else:
            for o, s, _ in pieces_of(t, size):
                cuts |= {o, o + s}
    cuts = sorted(x for x in cuts if x <= size)
    out = []

    def at(t, o, n):
        if t[0] == "c":
            return part(t, size, o, n)
        for o2, s2, x in pieces_of(t, size):
            if o2 <= o and o + n <= o2 + s2:
                return part(x, s2, o - o2, n)
        return None
    for lo, hi in zip(cuts, cuts[1:]):
        x, y = at(a, lo, hi - lo), at(b, lo, hi - lo)
        if x is None or y is None:
            return None
        if x[0] == "c":
            x, y = y, x
        zero, ones = c(0), c(-1)
        if h == "and":
            r = zero if y == zero or x == zero else x if y == ones else c(x[1] & y[1]) if x[0] == y[0] == "c" else None
        else:
            r = x if y == zero else y if x == zero else c(x[1] | y[1]) if x[0] == y[0] == "c" else ones if ones in (x, y) else None
        if r is None:
            return None
        if out and (out[-1][2][0] == r[0] == "c"):
            o, n, v = out[-1]
            out[-1] = (o, n + hi - lo, cat([(0, n, v), (n, hi - lo, r)], n + hi - lo))
        else:
            out.append((lo, hi - lo, r))
    r = cat(out, size)
    if r[0] == "cat" and len(r[1]) == 2 and r[1][1][2] == c(0):
        return ("zext", r[1][0][2], r[1][0][1])
    return r


def boolean(t):
    """Formula of a term that is known to be 0 or 1, or None."""
    if t[0] == "bool":
        return t[1]
    if t == ("c", 0):
        return F
    if t in (("c", 1),):
        return T
    return None


def f_eq(a, b):
    """Formula for a == b on integers."""
    if a == b:
        return T
    r = _const_eq(a, b)
    if r is not None:
        return T if r else F
    for x, y in ((a, b), (b, a)):
        if x[0] == "bool":
            g = boolean(y)
            if g is not None:
                return f_not(f_xor(x[1], g))
        if y[0] == "c":
            if x[0] in ("zext", "sext"):
                lo = _sx(y[1] & ((1 << (8 * x[2])) - 1), x[2])
                return f_eq(x[1], c(lo))
            if y[1] == 0 and x[0] == "op":
                if x[1] == "ior":
                    return f_and(f_eq(x[2], c(0)), f_eq(x[3], c(0)))
                if x[1] in ("xor", "minus"):
                    return f_eq(x[2], x[3])
            if y[1] == 0 and x[0] == "cat" and x[0] != "c":
                r = T
                for _, _, t in x[1]:
                    r = f_and(r, f_eq(t, c(0)))
                return r
            if y[1] == 0 and x[0] == "addr":
                pass
    if a[0] in ("zext", "sext") and a[0] == b[0] and a[2] == b[2]:
        return f_eq(a[1], b[1])
    if a[0] == "cat" and b[0] == "cat" and [(o, s) for o, s, _ in a[1]] == [(o, s) for o, s, _ in b[1]]:
        r = T
        for (_, _, x), (_, _, y) in zip(a[1], b[1]):
            r = f_and(r, f_eq(x, y))
        return r
    if a[0] == "addr" and b[0] == "addr" and a[1] == b[1]:
        return F
    x, y = sorted((a, b), key=repr)
    return ("atom", ("eq", x, y))


class Result:
    def __init__(self, kind, state, value=None):
        self.kind = kind      # 'return' | 'unwind' | 'stop'
        self.state = state
        self.value = value

    @property
    def events(self):
        return self.state.events


NEUTRAL = {"__cxa_begin_catch", "__cxa_end_catch", "__cxa_get_exception_ptr", "__cxa_free_exception"}
STOPS = {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__builtin_trap", "__cxa_call_terminate"}


class Sim:
    def __init__(self, fns, throw_budget=1, max_states=MAX_STATES, deadline=None):
        self.deadline = deadline
        self.fns = fns
        self.throw_budget = throw_budget
        self.max_states = max_states
        self.insns = 0
        self.blocks = set()
        self.calls = set()
        self.nstates = 0

    def run(self, name, results=None):
        fn = self.fns[name]
        s = State()
        s.fn, s.block, s.index = fn, fn.entry, 0
        s.nframes = 1
        results = [] if results is None else results
        work = [s]
        seen = set()
        while work:
            s = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Unsupported("too many states")
            if self.deadline and self.nstates % 64 == 0 and time.process_time() > self.deadline:
                raise Unsupported("out of time")
            try:
                self._advance(s, work, results, seen)
            except Fork as f:
                if f.atom is None:
                    raise Unsupported("undecidable condition")
                for v in (True, False):
                    n = s.clone()
                    n.facts[f.atom] = v
                    work.append(n)
        return results

    # ---- running

    def _advance(self, s, work, results, seen):
        """Runs s from its current instruction up to the next split; may raise Fork with s
        still at the instruction that needs the split."""
        while True:
            b = s.fn.blocks[s.block]
            if s.index == 0:
                k = (s.frame, s.block)
                s.visits[k] = s.visits.get(k, 0) + 1
                if s.visits[k] > MAX_VISITS:
                    results.append(Result("loop", s))
                    return
                self.blocks.add((s.fn.name, s.block))
                key = s.key()
                if key in seen:
                    if s.visits[k] > 1:
                        results.append(Result("loop", s))
                    return
                seen.add(key)
            jumped = False
            while s.index < len(b.insns):
                i = b.insns[s.index]
                self.insns += 1
                if i.kind == "call_insn":
                    r = self._call(s, b, i, work, results)
                    if r == "entered":
                        jumped = True
                        break
                    if r == "done":
                        return
                    s.index += 1
                    continue
                if i.kind == "jump_insn":
                    self._jump(s, b, i)
                    jumped = True
                    break
                self._insn(s, i)
                s.index += 1
            if jumped:
                continue
            nxt = [x for x in b.succs if "EH" not in x[1]]
            if len(nxt) > 1:
                nxt = [x for x in nxt if "FALLTHRU" in x[1]]
            if not nxt:
                results.append(Result("stop", s))
                return
            if nxt[0][0] == "EXIT":
                if not self._leave(s, results):
                    return
                continue
            s.block, s.index = nxt[0][0], 0

    def _leave(self, s, results):
        if not s.stack:
            results.append(Result("return", s, s.regs.get("0")))
            return False
        ret0, ret1 = s.regs.get("0"), s.regs.get("1")
        x0 = s.regs.get("20")
        self._kill_frame(s)
        s.fn, s.block, s.index, regs, s.frame = s.stack.pop()
        s.regs = dict(regs)
        for k, v in (("0", ret0), ("1", ret1), ("20", x0)):
            if v is not None:
                s.regs[k] = v
        i = s.fn.blocks[s.block].insns[s.index]
        s.index += 1
        return True

    def _kill_frame(self, s):
        fr = ("fr", s.frame)
        s.mem.pop(fr, None)
        for k in [k for k in s.objs if k[0] == fr]:
            s.errors.append("a value is never destroyed")
            del s.objs[k]

    def _jump(self, s, b, i):
        p = i.pattern
        if p[0] == "parallel":
            p = p[1][1]
        if p[0] == "set" and p[1][0] == "pc":
            src = p[2]
            h = head_of(src[0])
            if h == "label_ref":
                s.block, s.index = s.fn.labels[int(src[1])], 0
                return
            if h == "if_then_else":
                f = self._cond(s, src[1])
                v = s.decide(f)
                tgt = src[2] if v else src[3]
                if head_of(tgt[0]) == "label_ref":
                    s.block, s.index = s.fn.labels[int(tgt[1])], 0
                else:
                    nxt = [x for x in b.succs if "FALLTHRU" in x[1]]
                    s.block, s.index = nxt[0][0], 0
                    if s.block == "EXIT":
                        raise Unsupported("conditional exit")
                return
        if p[0] in ("simple_return", "return"):
            raise Unsupported("return insn")
        raise Unsupported("jump " + str(p)[:80])

    def _eh(self, s, b):
        """Continues s on the exception edge of block b, or leaves the function: True if it goes on."""
        while True:
            eh = [x for x in b.succs if "EH" in x[1]]
            if eh:
                s.block, s.index = eh[0][0], 0
                n = len(s.events)
                s.regs["0"] = ("exc", n)
                s.regs["1"] = ("sel", n)
                return True
            if not s.stack:
                return False
            self._kill_frame(s)
            s.fn, s.block, s.index, regs, s.frame = s.stack.pop()
            s.regs = dict(regs)
            b = s.fn.blocks[s.block]
            i = b.insns[s.index]
            if s.index != len(b.insns) - 1:
                b = rtl.Block(-1)
                if not s.stack:
                    return False

    def _call(self, s, b, i, work, results):
        p = i.pattern
        if p[0] == "parallel":
            p = p[1][1]
        dest = None
        call = p
        if p[0] == "set":
            dest, call = p[1], p[2]
        if head_of(call[0]) != "call":
            raise Unsupported("call " + str(p)[:80])
        target = call[1][1]
        if head_of(target[0]) != "symbol_ref":
            v = self._eval(s, target)
            if v[0] == "addr" and v[1][0] == "sym" and v[2] == 0:
                name = v[1][1]
            else:
                name = None
                tv = v
        else:
            name = target[1][0][1]
        if name is not None:
            name = name.lstrip("*")
        notes = rtl.note_items(i.notes)
        eh = None
        for n, e in notes:
            if n == "REG_EH_REGION":
                eh = int(e[1])
        can_throw = eh is None or eh > 0
        if name == "_Unwind_Resume":
            if self._eh(s, b):
                return "entered"
            results.append(Result("unwind", s))
            return "done"
        if name == "__cxa_rethrow" or name == "__cxa_throw":
            if name == "__cxa_throw":
                s.events.append(Event(len(s.events), name, (), (), i.pos))
            if self._eh(s, b):
                return "entered"
            results.append(Result("unwind", s))
            return "done"
        if name in NEUTRAL:
            if dest is not None:
                self._set(s, dest, ("ret", name, len(s.events)))
            return "next"
        if name in STOPS:
            results.append(Result("stop", s))
            return "done"
        used = []
        cur = i.uses
        while isinstance(cur, list) and cur and cur[0] != "nil":
            e = cur[1]
            if isinstance(e, list) and head_of(e[0]) == "use":
                if head_of(e[1][0]) == "reg":
                    used.append((e[1][1], mode_of(e[1][0])))
                elif head_of(e[1][0]) == "mem":
                    used.append(("mem", None))
            cur = cur[-1] if isinstance(cur[-1], list) else None
        usednums = [u for u, _ in used]
        if name is not None and name in self.fns:
            if len(s.stack) > 40:
                raise Unsupported("deep recursion")
            s.stack.append((s.fn, s.block, s.index, dict(s.regs), s.frame))
            regs = {r: s.regs[r] for r in ARG_REGS + FLT_REGS if r in usednums and r in s.regs}
            s.regs = regs
            s.fn = self.fns[name]
            s.frame = s.nframes
            s.nframes += 1
            s.block, s.index = s.fn.entry, 0
            return "entered"
        args = tuple(s.regs.get(r, ("undef", ("reg", r), 0, 8)) for r in ARG_REGS if r in usednums)
        fargs = tuple(s.regs.get(r, ("undef", ("reg", r), 0, 8)) for r in FLT_REGS if r in usednums)
        if name is None:
            name = "*" + show(tv)
        if name in ("memcpy", "memmove", "memset"):
            self._memcall(s, name, args)
            if dest is not None:
                self._set(s, dest, args[0])
            return "next"
        self.calls.add((s.fn.name, i.uid))
        if can_throw and s.throws < self.throw_budget:
            t = s.clone()
            t.throws += 1
            self._effect(t, name, args, fargs, i, "throw", None)
            bb = b if (eh is not None and eh > 0) else rtl.Block(-1)
            if bb is b and t.index != len(b.insns) - 1:
                raise Unsupported("throwing call within block")
            if self._eh(t, bb):
                work.append(t)
            else:
                results.append(Result("unwind", t))
        self._effect(s, name, args, fargs, i, "return", dest)
        norm = [x for x in b.succs if "EH" not in x[1]]
        if s.index == len(b.insns) - 1 and not norm:
            results.append(Result("stop", s))
            return "done"
        return "next"

    def _memcall(self, s, name, args):
        if args[2][0] != "c":
            raise Unsupported(name + " of unknown size")
        n = args[2][1]
        db, do = addr(args[0])
        if name == "memset":
            v = args[1]
            if v[0] != "c":
                raise Unsupported("memset")
            byte = v[1] & 255
            s.store(db, do, n, c(_sx(int.from_bytes(bytes([byte]) * n, "little"), n)))
        else:
            sb, so = addr(args[1])
            s.store(db, do, n, s.load(sb, so, n))

    def _widen(self, s, base, off, size):
        """Between two steps of a history: what has had five different values, constant numbers, at the last
        five of these points counts something, and may have any value after a history that is long enough (but
        one of eight bytes does not return to where it began, and one that stops at some value is none)."""
        m = s.mem.get(base, {})
        for k in [k for k in s.snaps if k[0] == "wide" and k[1] == base]:
            u, then, known = s.snaps[k]
            t = m.get(k[2], (0, None))[1]
            about = sum(1 for a in s.facts if repr(u)[1:-1] in repr(a))
            if t == then and about > known or _conditional(t):
                s.snaps[("stops",)] = True
            s.snaps[k] = (u, t, about)
        now = tuple((o - off, n, t[1]) for o, (n, t) in sorted(m.items()) if off <= o and o + n <= off + size and t[0] == "c")
        last = s.snaps.get((base, off), ())[-4:] + (now,)
        s.snaps[(base, off)] = last
        if len(last) < 5:
            return
        any_of = {}
        for o, n, v in now:
            old = [dict(((x, y), z) for x, y, z in l).get((o, n)) for l in last]
            if None in old or len(set(old)) < 5:
                continue
            k = (n, tuple(old))
            if k not in any_of:
                u = any_of[k] = ("ret", "op_any", len(any_of) + 100 * len(s.events))
                if n == 8:
                    for x in range(-8, max(old) + 1 if max(old) < 64 else 64):
                        for d in range(-4, 5):
                            s.facts[("eq",) + tuple(sorted((c(x), mkaddr(u, d)), key=repr))] = False
            m[o + off] = (n, any_of[k])
            s.snaps[("wide", base, o + off)] = (any_of[k], any_of[k], sum(1 for a in s.facts if repr(any_of[k])[1:-1] in repr(a)))

    def _effect(self, s, name, args, fargs, i, outcome, dest):
        if name == "op_widen":
            if args[1][0] == "c":
                self._widen(s, *addr(args[0]), args[1][1])
            return
        idx = len(s.events)
        conts = []
        for k, a in enumerate(args):
            x = None
            key = addr(a)
            if key in s.objs:
                x = s.objs[key]
            elif key[0][0] in ("fr",) or (a[0] == "addr") or key[0] in s.mem:
                m = s.mem.get(key[0], {})
                if key[1] in m:
                    x = ("at", m[key[1]][1])
            conts.append(x)
        ev = Event(idx, name, args, tuple(conts), i.pos, outcome, fargs)
        nth = sum(1 for e in s.events if e.name == name)
        s.events.append(ev)
        ret = ("ret", name, nth)
        where = "%s at %s:%s" % (name, i.pos[0] if i.pos else "?", i.pos[1] if i.pos else "?")
        ok = outcome == "return"
        if name in ("vc_copy", "vc_move"):
            v = s.content(args[1], where)
            if ok:
                if addr(args[0]) in s.objs:
                    s.errors.append("%s constructs over a value that is alive" % where)
                s.objs[addr(args[0])] = v if v[0] != "moved" else v[1]
                if name == "vc_move" and v[0] not in ("moved", "dead"):
                    s.objs[addr(args[1])] = ("moved", v)
        elif name in ("vc_assign", "vc_massign"):
            v = s.content(args[1], where)
            s.content(args[0], where + " (target)", read=False)
            if s.objs.get(addr(args[0])) is None and addr(args[0])[0][0] == "fr":
                s.errors.append("%s assigns to an object that is not alive" % where)
            if ok:
                s.objs[addr(args[0])] = v if v[0] != "moved" else v[1]
                if name == "vc_massign" and v[0] not in ("moved", "dead") and addr(args[0]) != addr(args[1]):
                    s.objs[addr(args[1])] = ("moved", v)
            ret = args[0]
        elif name == "vc_dtor":
            k = addr(args[0])
            if k in s.objs:
                del s.objs[k]
            elif k[0][0] == "fr":
                s.errors.append("%s destroys an object that is not alive" % where)
        elif name == "vc_eq":
            a = s.content(args[0], where)
            b = s.content(args[1], where)
        elif name.startswith("mk_"):
            for k, a in enumerate(args[1:]):
                if conts[k + 1] is not None and conts[k + 1][0] == "moved":
                    s.errors.append("%s reads a moved-from value" % where)
            if ok:
                if addr(args[0]) in s.objs:
                    s.errors.append("%s constructs over a value that is alive" % where)
                s.objs[addr(args[0])] = ("mk", name, nth)
        if ok and dest is not None:
            if name == "vc_eq":
                # a boolean: the caller sees 0 or 1
                self._set(s, dest, ("bool", ("atom", ("true", ret))))
            elif name.startswith("ob_"):
                self._set(s, dest, ("bool", ("atom", ("true", ret))))
            else:
                self._set(s, dest, ret)

    # ---- instructions

    def _insn(self, s, i):
        p = i.pattern
        h = head_of(p[0])
        if h in ("use", "clobber", "asm_input", "unspec_volatile", "prefetch", "trap_if", "const_int", "var_location",
                 "debug_marker"):
            if h == "clobber" and head_of(p[1][0]) == "reg":
                s.regs.pop(p[1][1], None)
            return
        if h == "parallel":
            sets = []
            for x in p[1][1:]:
                xh = head_of(x[0])
                if xh == "set":
                    sets.append(x)
                elif xh in ("clobber", "use"):
                    continue
                elif xh == "asm_operands" or xh == "asm_input":
                    return  # an empty asm statement (compiler barrier)
                else:
                    raise Unsupported("parallel " + xh)
            vals = [(x[1], self._value(s, x[2], x[1])) for x in sets]
            for d, v in vals:
                self._set(s, d, v)
            return
        if h == "set":
            if head_of(p[2][0]) == "unspec" and "scratch" in str(p[1]):
                return  # a compiler barrier
            self._set(s, p[1], self._value(s, p[2], p[1]))
            return
        raise Unsupported("insn " + h)

    def _value(self, s, e, d):
        h = head_of(e[0])
        if h == "unspec" and isinstance(e[1], list) and len(e[1]) > 1 and head_of(e[1][1][0]) == "compare":
            e = e[1][1]
            h = "compare"
        if h == "compare":
            return ("cmp", self._eval(s, e[1]), self._eval(s, e[2]), mode_of(e[0]))
        return self._eval(s, e)

    def _set(self, s, d, v):
        h = head_of(d[0])
        if h == "reg":
            if d[1] == "7":
                raise Unsupported("stack pointer")
            s.regs[d[1]] = v
        elif h == "mem":
            mode = mode_of(d[0])
            size = SIZES.get(mode)
            base, off = addr(self._eval(s, d[1]))
            if size is None:
                raise Unsupported("store of mode %s" % mode)
            s.store(base, off, size, v)
        elif h == "subreg":
            inner, byte = d[1], int(d[2])
            isz, osz = SIZES.get(mode_of(inner[0])), SIZES.get(mode_of(d[0]))
            if head_of(inner[0]) != "reg" or isz is None or osz is None:
                raise Unsupported("subreg store")
            if osz >= isz:
                s.regs[inner[1]] = part(v, osz, 0, isz) if osz > isz else v
                return
            old = s.regs.get(inner[1], ("undef", ("reg", inner[1]), 0, isz))
            if byte == 0 and isz <= 8 and old[0] == "undef":
                s.regs[inner[1]] = cat([(0, osz, v), (osz, isz - osz, ("undef", ("reg", inner[1]), osz, isz - osz))], isz)
                return
            pieces = []
            if byte > 0:
                pieces.append((0, byte, part(old, isz, 0, byte)))
            pieces.append((byte, osz, v))
            if byte + osz < isz:
                pieces.append((byte + osz, isz - byte - osz, part(old, isz, byte + osz, isz - byte - osz)))
            s.regs[inner[1]] = cat(pieces, isz)
        elif h == "strict_low_part":
            self._set(s, d[1], v)  # what a subreg does not cover is kept there as well
        elif h == "zero_extract":
            self._set_bytes(s, d, v)
        elif h in ("scratch", "pc"):
            pass
        else:
            raise Unsupported("destination " + h)

    def _set_bytes(self, s, d, v):
        """Store to some of the bytes of a register."""
        target, (nh, n), (ph, pos) = d[1], d[2][:2], d[3][:2]
        while head_of(target[0]) == "subreg" and int(target[2]) == 0:
            target = target[1]
        size = SIZES.get(mode_of(target[0]))
        if head_of(target[0]) != "reg" or size is None or head_of(nh) != "const_int" or head_of(ph) != "const_int" or int(n) % 8 or int(pos) % 8:
            raise Unsupported("destination zero_extract")
        at, k = int(pos) // 8, int(n) // 8
        old = s.regs.get(target[1], ("undef", ("reg", target[1]), 0, size))
        v = part(v, SIZES.get(mode_of(d[0]), 8), 0, k)
        pieces = [(o, z, x) for o, z, x in ((0, at, None), (at, k, v), (at + k, size - at - k, None)) if z > 0]
        s.regs[target[1]] = cat([(o, z, part(old, size, o, z) if x is None else x) for o, z, x in pieces], size)

    def _reg(self, s, e):
        n = e[1]
        if n in ("19", "16"):  # frame, argp
            return ("addr", ("fr", s.frame) if n == "19" else ("argp", s.frame), 0)
        v = s.regs.get(n)
        if v is None:
            if n in ARG_REGS and not s.stack:
                return ("arg", ARG_REGS.index(n))
            return ("undef", ("reg", n), 0, SIZES.get(mode_of(e[0]), 8))
        return v

    def _eval(self, s, e):
        if isinstance(e, str):
            raise Unsupported(e)
        h = head_of(e[0])
        mode = mode_of(e[0])
        if h == "reg":
            return self._reg(s, e)
        if h == "const_int":
            return c(int(e[1]))
        if h == "const_wide_int":
            return c(int(e[1], 16))
        if h == "mem":
            size = SIZES.get(mode)
            if size is None:
                raise Unsupported("load of mode %s" % mode)
            base, off = addr(self._eval(s, e[1]))
            if base[0] == "sym" and base not in s.mem:
                return ("glob", base[1], off, size)
            return s.load(base, off, size)
        if h == "symbol_ref":
            return ("addr", ("sym", e[1][0][1].lstrip("*")), 0)
        if h == "const":
            return self._eval(s, e[1])
        if h == "const_double":
            return ("cf", str(e[1:]))
        if h == "const_vector":
            vals = [self._eval(s, x) for x in e[1][1:]]
            if all(v == c(0) for v in vals):
                return c(0)
            n = SIZES[mode] // len(vals)
            return cat([(k * n, n, v) for k, v in enumerate(vals)], SIZES[mode])
        if h == "plus":
            a, b = self._eval(s, e[1]), self._eval(s, e[2])
            if a[0] == "c" and b[0] == "c":
                return c(wrap(a[1] + b[1], mode))
            if a[0] == "c":
                a, b = b, a
            if b[0] == "c":
                base, off = addr(a)
                if a[0] == "op" and a[1] == "plusc":
                    return self._plusc(a[2], a[3][1] + b[1], mode)
                return mkaddr(base, off + b[1])
            return ("op", "plus", *sorted((a, b), key=repr))
        if h == "minus":
            a, b = self._eval(s, e[1]), self._eval(s, e[2])
            if a[0] == "c" and b[0] == "c":
                return c(wrap(a[1] - b[1], mode))
            if b[0] == "c":
                base, off = addr(a)
                return mkaddr(base, off - b[1])
            (x, p), (y, q) = addr(a), addr(b)
            if x == y:
                return c(p - q)
            return ("op", "minus", a, b)
        if h in ("zero_extend", "sign_extend"):
            a = self._eval(s, e[1])
            im = mode_of(e[1][0])
            isz = SIZES.get(im)
            if a[0] == "bool":
                return a
            if a[0] == "c":
                n = a[1]
                if h == "zero_extend":
                    n &= (1 << (8 * isz)) - 1
                return c(n)
            return ("zext" if h == "zero_extend" else "sext", a, isz)
        if h == "truncate":
            return part(self._eval(s, e[1]), SIZES[mode_of(e[1][0])], 0, SIZES[mode])
        if h == "subreg":
            a = self._eval(s, e[1])
            im = mode_of(e[1][0])
            isz, osz = SIZES.get(im), SIZES.get(mode)
            byte = int(e[2])
            if isz is None or osz is None:
                raise Unsupported("subreg of mode %s" % im)
            if osz > isz:
                return a
            return part(a, isz, byte, osz)
        if h in ("zero_extract", "sign_extract"):
            size, (nh, n), (ph, pos) = SIZES.get(mode_of(e[1][0])), e[2][:2], e[3][:2]
            if size is None or head_of(nh) != "const_int" or head_of(ph) != "const_int" or int(n) % 8 or int(pos) % 8:
                raise Unsupported("expression " + h)
            k, a = int(n) // 8, self._eval(s, e[1])
            a = part(a, size, int(pos) // 8, k)
            if a[0] == "c":
                return c(a[1] & ((1 << (8 * k)) - 1)) if h == "zero_extract" else a
            if a[0] == "bool" or k >= SIZES.get(mode, 8):
                return a
            return ("zext" if h == "zero_extract" else "sext", a, k)
        if h in ("and", "ior", "xor"):
            a, b = self._eval(s, e[1]), self._eval(s, e[2])
            if a[0] == "c" and b[0] == "c":
                return c(wrap({"and": a[1] & b[1], "ior": a[1] | b[1], "xor": a[1] ^ b[1]}[h], mode))
            if a == b:
                return a if h != "xor" else c(0)
            if a[0] == "c":
                a, b = b, a
            fa, fb = boolean(a), boolean(b)
            if fa is not None and fb is not None:
                return ("bool", {"and": f_and, "ior": f_or, "xor": f_xor}[h](fa, fb))
            if b[0] == "c":
                if b[1] == 0:
                    return c(0) if h == "and" else a
                if b[1] == -1 and h == "and":
                    return a
                if h == "and" and fa is not None:
                    return a if b[1] & 1 else c(0)
                if h == "and" and b[1] == 255:
                    return ("zext", part(a, SIZES.get(mode, 8), 0, 1), 1)
                if h == "and" and b[1] == 0xffffffff:
                    return ("zext", part(a, SIZES.get(mode, 8), 0, 4), 4)
            r = bytewise(h, a, b, SIZES.get(mode, 0))
            if r is not None:
                return r
            return ("op", h, *sorted((a, b), key=repr))
        if h == "not":
            a = self._eval(s, e[1])
            return c(~a[1]) if a[0] == "c" else ("op", "not", a)
        if h == "neg":
            a = self._eval(s, e[1])
            if a[0] == "c":
                return c(wrap(-a[1], mode))
            return ("op", "neg", a)
        if h in ("eq", "ne", "lt", "le", "gt", "ge", "ltu", "leu", "gtu", "geu", "unordered", "ordered", "uneq", "ltgt",
                 "unlt", "unle", "ungt", "unge"):
            return ("bool", self._cond(s, e))
        if h == "if_then_else":
            f = self._cond(s, e[1])
            return self._eval(s, e[2] if s.decide(f) else e[3])
        if h in ("ashift", "lshiftrt", "ashiftrt", "mult", "div", "mod", "udiv", "umod", "rotate", "smin", "smax",
                 "umin", "umax", "float", "fix", "float_extend", "float_truncate", "abs", "sqrt", "vec_concat", "vec_duplicate",
                 "vec_merge", "vec_select", "bswap", "popcount", "ctz", "clz", "unsigned_float", "unsigned_fix", "fma"):
            args = [self._eval(s, x) if isinstance(x, list) and head_of(x[0]) not in ("parallel",) else ("lit", str(x)) for x in e[1:]]
            if h == "vec_concat":
                n = SIZES.get(mode)
                m = SIZES.get(mode_of(e[1][0]))
                return cat([(0, m, args[0]), (m, n - m, args[1])], n)
            if h == "vec_duplicate":
                n, m = SIZES.get(mode), SIZES.get(mode_of(e[1][0]))
                return cat([(k * m, m, args[0]) for k in range(n // m)], n)
            if h in ("ashift", "lshiftrt", "ashiftrt") and args[1][0] == "c" and args[1][1] % 8 == 0 and 0 < args[1][1] < 8 * SIZES.get(mode, 0) \
                    and (h != "ashiftrt" or args[0][0] in ("cat", "init", "undef")):
                n, k = SIZES[mode], args[1][1] // 8
                if h == "ashiftrt":
                    return cat([(0, n - k, part(args[0], n, k, n - k)), (n - k, k, ("op", "sign", args[0]))], n)
                if h == "lshiftrt":
                    return cat([(0, n - k, part(args[0], n, k, n - k)), (n - k, k, c(0))], n)
                return cat([(0, k, c(0)), (k, n - k, part(args[0], n, 0, n - k))], n)
            if all(a[0] == "c" for a in args) and h in ("ashift", "mult"):
                x, y = args[0][1], args[1][1]
                return c(wrap(x << y if h == "ashift" else x * y, mode))
            if all(a[0] == "c" for a in args) and h in ("ashiftrt", "lshiftrt") and SIZES.get(mode) and 0 <= args[1][1] < 8 * SIZES[mode]:
                x = args[0][1]
                if h == "lshiftrt":
                    x &= (1 << 8 * SIZES[mode]) - 1
                return c(wrap(x >> args[1][1], mode))
            return ("op", h, *args)
        if h == "unspec":
            return ("op", "unspec", str(e)[:200])
        raise Unsupported("expression " + h)

    def _cond(self, s, e):
        h = head_of(e[0])
        l = e[1]
        if head_of(l[0]) == "reg" and l[1] == "17":
            cmp = s.regs.get("17")
            if not cmp or cmp[0] != "cmp":
                raise Unsupported("flags")
            _, a, b, mode = cmp
        else:
            a, b, mode = self._eval(s, e[1]), self._eval(s, e[2]), "CC"
        if mode in ("CCFP",):
            if h in ("eq", "ne", "unordered", "ordered", "uneq", "ltgt"):
                x, y = sorted((a, b), key=repr)
                base = {"ne": "eq", "ordered": "unordered", "ltgt": "uneq"}.get(h, h)
                f = ("atom", ("f" + base, x, y))
                return f_not(f) if base != h else f
            return ("atom", ("f" + h, a, b))
        if h == "eq":
            return f_eq(a, b)
        if h == "ne":
            return f_not(f_eq(a, b))
        neg = {"ge": "lt", "le": "gt", "geu": "ltu", "leu": "gtu"}
        if h in neg:
            return f_not(self._lt(neg[h], a, b))
        if h in ("lt", "gt", "ltu", "gtu"):
            return self._lt(h, a, b)
        raise Unsupported("condition " + h)

    def _lt(self, h, a, b):
        if h.startswith("gt"):
            a, b = b, a
        u = h.endswith("u")
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            if u:
                x, y = x & (2**64 - 1), y & (2**64 - 1)
            return T if x < y else F
        if a == b:
            return F
        fa, fb = boolean(a), boolean(b)
        if fa is not None and fb is not None:
            return f_and(f_not(fa), fb)
        if u and b == c(1):
            return f_eq(a, c(0))
        if u and a == c(0):
            return f_not(f_eq(b, c(0)))
        return ("atom", ("ltu" if u else "lt", a, b))
