"""Witness programs for lazy functions, and the protocol their calls must follow.

A program is a tree of lazy functions plus a sequence of steps (calls, copies).  `cpp()`
writes it in C++ with opaque functions; `judge()` walks the call sequence of one abstract
state of the analysis along the documented protocol, and classifies every deviation:

  stale    the function is not evaluated, or with other values, or its result is not returned
  extra    the function is evaluated although nothing is known to have changed
  skip     a dependency is not consulted at all in a call
  order    dependencies are consulted in another order, or after the evaluation
  excess   a dependency is consulted once more
  state    function or dependency have lost their own state
  throw    an exception does not reach the caller
  global   writes to memory that belongs to no lazy function
  compare  a comparison other than of a producer's previous and new result
  life     lifetime of values (dead, moved-from or leaked values, ...)
  moved    a moved-from or destroyed value is read (one of life's)
  loop     a path that does not end
  alien    a call of something that is not the user's (allocation, locks, ...)
"""
import sim

HANDLING = {"__cxa_begin_catch", "__cxa_end_catch", "__cxa_rethrow", "__cxa_get_exception_ptr", "_Unwind_Resume"}
LIFE = {"vc_copy", "vc_move", "vc_assign", "vc_massign", "vc_dtor"}


def cls(t):
    """All the classes that derive from w::V are followed alike."""
    return "w::V" if t.startswith("w::V") else t


class Val:
    def __init__(self, kind, n, t="w::V"):
        self.kind, self.n, self.t = kind, n, t  # 'const', 'param', 'V'

    def cpp(self):
        return {"const": str(self.n), "param": "p%d" % self.n, "V": "v%d" % self.n, "typed": "static_cast<%s>(p%d)" % (self.t, self.n), "plain": "%s{ p%d }" % (self.t, self.n)}[self.kind]


class Fn:
    def __init__(self, id, rtype="int", stateful=False, style="obj"):
        self.id, self.rtype, self.stateful, self.style = id, rtype, stateful, style

    def cpp(self):
        if self.style.startswith("step"):
            return "w::StepDep<%d, %s>{ 0 }" % (self.id, self.style[4:])
        if self.stateful:
            return "w::StatefulDep<%s, %d>{ 0 }" % (self.rtype, self.id)
        if self.style == "ptr":
            return "&fnptr<%s, %d>" % (self.rtype, self.id)
        if self.style == "closure":
            return "[] { return w::Dep<%s, %d>{}(); }" % (self.rtype, self.id)
        if self.style == "variadic":
            return "[](auto... xs) requires(sizeof...(xs) == 0) { return w::Dep<%s, %d>{}(); }" % (self.rtype, self.id)
        return "w::Dep<%s, %d>{}" % (self.rtype, self.id)


class Lz:
    def __init__(self, id, rtype, deps, stateful=False):
        self.id, self.rtype, self.deps, self.stateful = id, rtype, deps, stateful

    def cpp(self):
        return "n%d" % self.id

    def nodes(self):
        for d in self.deps:
            if isinstance(d, Lz):
                yield from d.nodes()
        yield self

    def values(self):
        for d in self.deps:
            if isinstance(d, Lz):
                yield from d.values()
            elif isinstance(d, Val):
                yield d


class Program:
    def __init__(self, name, root, steps=None, throws=0, note="", early=()):
        self.name, self.root, self.note = name, root, note
        self.early = early  # nodes called (twice) before the next lazy function is made of them
        self.steps = steps or [("call", "l")] * 3
        self.throws = throws
        ts = {x.rtype for n in root.nodes() for x in [n] + [d for d in n.deps if not isinstance(d, Val)]} | {d.t for n in root.nodes() for d in n.deps if isinstance(d, Val) and d.t}
        self.narrow = any(not t.startswith("w::V") and t not in ("int", "long", "unsigned", "unsigned long", "double", "void") for t in ts)

    def typeof(self, var):
        """Result type of the lazy function in a variable: l and its copies, or the inner n<id>."""
        return next((n.rtype for n in self.root.nodes() if var == "n%d" % n.id), self.root.rtype)

    def describe(self):
        def d(x):
            if isinstance(x, Val):
                return "value"
            if isinstance(x, Fn):
                return "function:%s" % x.rtype
            return "lazy<%s>(%s)" % (x.rtype, ", ".join(map(d, x.deps)))
        return "%s = %s; %s" % (self.name, d(self.root), " ".join("%s %s" % s[:2] for s in self.steps))

    def cpp(self):
        vals = list(self.root.values())
        params = sorted({v.n for v in vals if v.kind in ("param", "typed", "plain")})
        out = []
        out.append('extern "C" W_FLATTEN void %s(%s) {' % (self.name, ", ".join("int p%d" % k for k in range(max(params) + 1)) if params else ""))
        for n, t in sorted({(v.n, v.t) for v in vals if v.kind == "V"}):
            out.append("    %s v%d(w::from::val, %d);" % (t, n, n))
        for n in self.root.nodes():
            f = "w::%s<%s, %d>{%s}" % ("StatefulFun" if n.stateful else "Fun", n.rtype, n.id, " 0 " if n.stateful else "")
            out.append("    auto n%d = pigro::lazy(%s);" % (n.id, ", ".join([f] + [d.cpp() for d in n.deps])))
            if n.id in self.early:
                out += ["    op_mark(0);"] + ["    " + call_of("n%d" % n.id, n.rtype, 900 + k) for k in range(2)]
        out.append("    auto &l = n%d;" % self.root.id)
        out.append("    op_mark(0);")
        for k, s in enumerate(self.steps):
            if s[0] == "call":
                body = call_of(s[1], self.typeof(s[1]), k)
                if self.throws:
                    body = "try { %s } catch (...) { op_caught(%d); }" % (body, k)
                out.append("    " + body)
            elif s[0] == "widen":
                out.append("    op_widen(&%s, sizeof(%s));" % (s[1], s[1]))
            elif s[0] == "copy":
                out.append("    auto %s = %s;" % (s[1], s[2]))
            elif s[0] == "move":
                out.append("    auto %s = std::move(%s);" % (s[1], s[2]))
        out.append("}")
        return "\n".join(out)


def call_of(var, rtype, k):
    return "%s(); op_mark(%d);" % (var, 100 + k) if rtype == "void" else "w::res(%d, %s());" % (k, var)


NARROW = False  # whether values of types smaller than int are made of ints


def width(t):
    """How many bytes of a value count."""
    if t[0] == "ret" and not NARROW:
        return 8 if t[1] in ("op_ldep", "op_pdep") else 1 if t[1].startswith("ob_") else 4 if t[1] in ("op_dep", "op_fun") else 0
    return 0


def strip(t):
    while isinstance(t, tuple):
        if t[0] in ("zext", "sext"):
            t = t[1]
        elif t[0] == "part" and t[2] == 0 and t[3] >= width(t[1]):
            t = t[1]
        elif t[0] == "at" or (t[0] == "op" and t[1] == "float" and len(t) == 3):
            t = t[2] if t[0] == "op" else t[1]
        elif t[0] == "cat" and t[1][0][0] == 0 and all(x[0] in ("undef",) or x == ("c", 0) for _, _, x in t[1][1:]):
            t = t[1][0][2]
        else:
            break
    return t


def truth(t):
    """Formula for a number converted to bool."""
    if t[0] == "bool":
        return t[1]
    if t[0] == "c":
        return sim.T if t[1] else sim.F
    return sim.f_not(("atom", ("eq",) + tuple(sorted((("c", 0), t), key=repr))))


class Deviation(Exception):
    def __init__(self, kind, text, pos=None):
        self.kind, self.text, self.pos = kind, text, pos


class NodeState:
    def __init__(self):
        self.cache = None       # result term of the last evaluation
        self.args = None        # its arguments
        self.prev = {}          # dep index -> previous value of a function dependency
        self.busy = False       # interrupted by an exception
        self.runs = 0
        self.druns = {}
        self.subs = {}

    def clone(self):
        n = NodeState()
        n.cache, n.args, n.prev, n.busy, n.runs = self.cache, self.args, dict(self.prev), self.busy, self.runs
        n.druns = dict(self.druns)
        n.subs = {k: v.clone() for k, v in self.subs.items()}
        return n


class Thrown(Exception):
    pass


class Judge:
    def __init__(self, prog, result):
        global NARROW
        NARROW = prog.narrow
        self.p = prog
        self.r = result
        self.ev = [e for e in result.events]
        self.i = 0
        self.facts = sim.State()
        self.counts = {}
        self.kinds = []
        self.facts.facts = {}
        for a, v in result.state.facts.items():
            if a[0] == "eq":
                a = ("eq",) + tuple(sorted((strip(a[1]), strip(a[2])), key=repr))
            self.facts.facts[a] = v
        n = 0
        for e in self.ev:
            if e.name == "vc_eq":
                a = ("true", ("ret", "vc_eq", n))
                n += 1
                if e.outcome == "return":
                    v = result.state.facts.get(a)
                    x, y = e.contents
                    if v is not None and x is not None and y is not None:
                        k = ("eq",) + tuple(sorted((x, y), key=repr))
                        self.facts.facts.setdefault(k, v)
        self.allowed = []
        self.compared = []

    # truth of "x and y are the same value": True, False or None
    def same(self, x, y, bools=False):
        x, y = strip(x), strip(y)
        if x == y:
            return True
        if bools or self.p.root.rtype == "bool":
            # only whether they are zero counts
            p, q = truth(x), truth(y)
            if p == q:
                return True
            p, q = self.facts.formula(p), self.facts.formula(q)
            if p is not None and q is not None:
                return p == q
        r = self.facts.atom(("eq",) + tuple(sorted((x, y), key=repr)))
        if r is not None:
            return r
        a, b = sorted((x, y), key=repr)
        un = self.facts.facts.get(("funordered", a, b))
        if un:
            return False
        for k in (("feq", a, b), ("funeq", a, b)):
            v = self.facts.facts.get(k)
            if v is not None:
                if v is False:
                    return False
                if un is False or k[0] == "feq":
                    return True
        return None

    def is_that(self, got, want, t):
        """Values that merely compare equal can be told apart, except for integers."""
        if t in ("w::V", "double"):
            return strip(got) == strip(want)
        return self.same(got, want, t == "bool") is True

    def dev(self, kind, text, e=None):
        pos = None
        if e is None and self.i < len(self.ev):
            e = self.ev[self.i]
        if e is not None and e.pos:
            pos = e.pos
        raise Deviation(kind, text, pos)

    def peek(self):
        """Next observable event."""
        while self.i < len(self.ev):
            e = self.ev[self.i]
            if e.name in LIFE or e.name == "vc_eq":
                self.i += 1
                if e.name == "vc_eq":
                    self.compared.append(e)
                if e.outcome == "throw":
                    raise Thrown()
                continue
            if e.name == "mk_val":
                self.i += 1
                continue
            return e
        return None

    def take(self):
        e = self.ev[self.i]
        self.i += 1
        n = self.counts.get(e.name, 0)
        self.counts[e.name] = n + 1
        if e.outcome == "throw":
            raise Thrown()
        if e.name.startswith("mk_"):
            return ("mk", e.name, n)
        return ("ret", e.name, n)

    def what(self, e):
        return "the end" if e is None else repr(e)

    def consult(self, node, ns, k, d, path):
        """Value and change (True/False/None) of dependency k."""
        if isinstance(d, Val):
            if d.kind == "const":
                return ("c", d.n), False
            if d.kind in ("param", "typed", "plain"):
                return ("arg", d.n), False
            return ("mk", "mk_val", self.valno[d.n]), False
        if isinstance(d, Lz):
            sub = ns.subs[k]
            return self.call(d, sub, path + "/%d" % k)
        # function dependency
        e = self.peek()
        if d.stateful:
            if e is None or e.name != "op_arg" or e.args[0] != ("c", 1000 + d.id):
                self.dev(self.missing("op_arg", 0, 1000 + d.id), "dependency %d (%s) is expected to be consulted here, but found %s" % (k, path, self.what(e)))
            want = ns.druns.get(k, 0)
            if strip(e.args[2]) != ("c", want):
                self.dev("state", "function dependency %d (%s) has lost its state: %s instead of %d" % (k, path, sim.show(e.args[2]), want))
            ns.druns[k] = want + 1
            self.take()
            if d.style.startswith("step"):
                old, new = ns.prev.get(k), ("c", want >> int(d.style[4:]))
                ns.prev[k] = new
                return new, old != new
            e = self.peek()
        name = {"w::V": "mk_dep", "double": "od_dep"}.get(cls(d.rtype), "op_dep")
        idpos = 1 if name == "mk_dep" else 0
        if e is None or e.name != name or e.args[idpos] != ("c", d.id):
            self.dev(self.missing(name, idpos, d.id), "dependency %d (%s) is expected to be consulted here, but found %s" % (k, path, self.what(e)))
        new = self.take()
        old = ns.prev.get(k)
        ns.prev[k] = new
        if old is None:
            return new, True
        self.allowed.append((old, new, "dependency %d (%s)" % (k, path)))
        r = self.same(old, new, d.rtype == "bool")
        return new, (None if r is None else not r)

    def missing(self, name, idpos, id):
        """Whether a dependency is not consulted at all in this call, or not at this point."""
        for e in self.ev[self.i:]:
            if e.name in ("op_res", "op_reso", "op_resd", "op_mark", "op_caught"):
                break
            if e.name == name and e.args[idpos] == ("c", id):
                return "order"
        return "skip"

    def call(self, node, ns, path):
        was_busy = ns.busy
        ns.busy = True
        vals, chg = [], []
        for k, d in enumerate(node.deps):
            v, ch = self.consult(node, ns, k, d, path)
            vals.append(v)
            chg.append(ch)
        first = ns.cache is None
        if first or any(x is True for x in chg):
            need = True
        elif all(x is False for x in chg):
            need = False
        else:
            need = None
        e = self.peek()
        evaluated = self.is_eval(e, node)
        if was_busy:
            # an earlier call was left by an exception: evaluating again is always right
            if not evaluated:
                if first:
                    self.dev("stale", "%s is not evaluated although it never was before" % path)
                for k, (v, a) in enumerate(zip(vals, ns.args)):
                    if not self.same(v, a, self.typ(node.deps[k]) == "bool"):
                        self.dev("stale", "after an exception, %s is not evaluated again although dependency %d may have changed" % (path, k))
        elif need is True and not evaluated:
            why = "it was never evaluated before" if first else "dependency %s changed" % ", ".join(str(k) for k, x in enumerate(chg) if x)
            self.dev("stale", "%s is not evaluated although %s; found %s" % (path, why, self.what(e)))
        elif need is False and evaluated:
            self.dev("extra", "%s is evaluated although nothing changed" % path)
        elif need is None:
            un = [k for k, x in enumerate(chg) if x is None]
            if evaluated:
                self.dev("extra", "%s is evaluated whether or not dependency %s changed" % (path, un))
            self.dev("stale", "%s is not evaluated whether or not dependency %s changed" % (path, un))
        if not evaluated:
            ns.busy = False
            return ns.cache, False
        res = self.evaluate(node, ns, vals, path)
        old = ns.cache
        ns.cache, ns.args = res, vals
        if node.rtype == "void":
            changed = old is None
        elif old is None:
            changed = True
        else:
            self.allowed.append((old, res, "result of " + path))
            r = self.same(old, res, node.rtype == "bool")
            changed = None if r is None else not r
        if was_busy:
            changed = None if old is not None else True
        # a comparison that throws interrupts this node as well
        self.peek()
        ns.busy = False
        return res, changed

    def is_eval(self, e, node):
        if e is None:
            return False
        if e.name in ("op_arg", "op_argo", "op_argd"):
            return e.args[0] == ("c", node.id)
        if e.name in ("op_fun", "od_fun", "op_vfun"):
            return e.args[0] == ("c", node.id)
        if e.name == "mk_fun":
            return e.args[1] == ("c", node.id)
        return False

    def evaluate(self, node, ns, vals, path):
        if node.stateful:
            e = self.peek()
            if e is None or e.name != "op_arg" or e.args[1] != ("c", 99) or strip(e.args[2]) != ("c", ns.runs):
                self.dev("state", "the function %s has lost its state: %s" % (path, self.what(e)))
            self.take()
        ns.runs += 1
        for k, v in enumerate(vals):
            d = node.deps[k]
            e = self.peek()
            t = self.typ(d)
            if t == "w::V":
                ok = e is not None and e.name == "op_argo" and e.args[0] == ("c", node.id) and e.args[1] == ("c", k)
                got = e.contents[2] if ok else None
            elif t == "double":
                ok = e is not None and e.name == "op_argd" and e.args[0] == ("c", node.id) and e.args[1] == ("c", k)
                got = e.fargs[0] if ok else None
            else:
                ok = e is not None and e.name == "op_arg" and e.args[0] == ("c", node.id) and e.args[1] == ("c", k)
                got = e.args[2] if ok else None
            if not ok:
                self.dev("stale", "%s does not get its argument %d: %s" % (path, k, self.what(e)))
            if t == "void":
                pass
            elif got is None or not self.is_that(got, v, t):
                self.dev("stale", "argument %d of %s is %s instead of the current value %s of the dependency" % (k, path, sim.show(got), sim.show(v)))
            self.take()
        name = {"w::V": "mk_fun", "double": "od_fun", "void": "op_vfun"}.get(cls(node.rtype), "op_fun")
        e = self.peek()
        if not self.is_eval(e, node) or e.name != name:
            self.dev("stale", "%s is called with %d arguments instead of %d: %s" % (path, len(vals) + 1, len(vals), self.what(e)))
        return self.take()

    def typ(self, d):
        if isinstance(d, Val):
            return {"V": "w::V"}.get(d.kind, d.t if d.t in ("double", "bool") and d.kind == "typed" else "int")
        return cls(d.rtype)

    def judge(self):
        """[] or [(kind, text, pos)] for this abstract state."""
        out = self.out = []
        st = self.r.state
        known = ("op_", "od_", "mk_", "vc_")
        for e in self.ev:
            if e.name == "__cxa_throw":
                out.append(("throw", "the library throws an exception of its own", e.pos))
                break
            if not e.name.startswith(known) and e.name not in HANDLING:
                out.append(("alien", "call of %s" % e.name, e.pos))
                break
        if self.r.kind == "loop":
            out.append(("loop", "a loop or recursion whose number of rounds is not bounded", None))
            return out
        for x in st.errors:
            out.append(("life", x, None))
            break
        for x in st.errors:
            if " reads a" in x:
                out.append(("moved", x, None))
                break
        if self.r.kind == "return":
            left = [k for k in st.objs if k[0][0] == "fr"]
            if left:
                out.append(("life", "a value is never destroyed", None))
        for b in st.mem:
            if b[0] not in ("fr", "arg", "argp", "init", "ret") and not (b[0] == "addr"):
                if st.mem[b]:
                    out.append(("global", "writes to memory outside of the lazy function: %s" % sim.show(b), None))
                    break
        self.valno = {}
        for e in self.ev:
            if e.name == "mk_val":
                self.valno[e.args[1][1]] = len(self.valno)
        try:
            self.walk()
        except Deviation as d:
            out.append((d.kind, d.text, d.pos))
        except Thrown:
            if self.r.kind != "unwind":
                out.append(("throw", "an exception thrown while the lazy function is created does not reach the caller", None))
        return out

    def creation(self):
        """Up to the next mark nothing happens; what does is recorded, and passed over."""
        said = False
        while True:
            e = self.peek()
            if e is None:
                if self.r.kind == "unwind":
                    return False
                self.dev("skip", "no call at all")
            if e.name == "op_mark" and e.args[0] == ("c", 0):
                self.take()
                return True
            if not said:
                dep = e.name in ("op_dep", "od_dep", "mk_dep") or (e.name == "op_arg" and e.args[0][0] == "c" and e.args[0][1] >= 1000)
                for k in ("extra", "excess") if dep else ("extra",):
                    self.out.append((k, "creating the lazy function calls %s" % self.what(e), e.pos))
            said = True
            self.take()

    def walk(self):
        vars = {}
        for n in self.p.root.nodes():
            ns = NodeState()
            for k, d in enumerate(n.deps):
                if isinstance(d, Lz):
                    ns.subs[k] = vars["n%d" % d.id][1].clone()
            vars["n%d" % n.id] = (n, ns)
            if n.id in self.p.early:
                if not self.creation():
                    return
                for k in range(2):
                    if not self.one(n, ns, "n%d" % n.id, 900 + k):
                        return
        if not self.creation():
            return
        vars["l"] = vars["n%d" % self.p.root.id]
        for k, s in enumerate(self.p.steps):
            if s[0] == "widen":
                continue
            if s[0] in ("copy", "move"):
                vars[s[1]] = (vars[s[2]][0], vars[s[2]][1].clone())
                continue
            if not self.one(*vars[s[1]], s[1], k):
                return
        if self.r.kind == "stop":
            self.dev("throw", "the program is ended")
        e = self.peek()
        if e is not None:
            self.dev("extra", "after the last call: %s" % self.what(e))

    def functions(self, node):
        """The function dependencies that a call consults, in order, as (id, stateful)."""
        for d in node.deps:
            if isinstance(d, Lz):
                yield from self.functions(d)
            elif not isinstance(d, Val):
                yield d.id, d.stateful

    def consulted(self, node, k):
        """Whatever else happens in call k: every function dependency once, and in order."""
        got, ran, complete = [], [], False
        want = list(self.functions(node))
        stateful = {i for i, st in want if st}
        for e in self.ev[self.i:]:
            if e.name in ("op_res", "op_reso", "op_resd", "op_caught") or (e.name == "op_mark" and e.args[0] == ("c", 100 + k)):
                complete = e.name != "op_caught"
                break
            if e.name in ("op_fun", "od_fun", "op_vfun", "mk_fun"):
                ran.append(e)
            if e.name in ("op_dep", "od_dep", "mk_dep"):
                n = e.args[1 if e.name == "mk_dep" else 0]
                if n[0] == "c" and n[1] not in stateful:
                    got.append((n[1], e))
            elif e.name == "op_arg" and e.args[0][0] == "c" and e.args[0][1] - 1000 in stateful:
                got.append((e.args[0][1] - 1000, e))
        order = [i for i, st in want]
        if len(set(order)) != len(order):
            return
        seen = set()
        for e in ran:
            i = e.args[1 if e.name == "mk_fun" else 0]
            if i in seen and i[0] == "c":
                self.out.append(("extra", "call %d evaluates function %s twice" % (k, i[1]), e.pos))
                break
            seen.add(i)
        seen = set()
        for i, e in got:
            if i in seen:
                self.out.append(("excess", "call %d consults function dependency %d twice" % (k, i), e.pos))
                return
            seen.add(i)
        for i in order if complete else ():
            if i not in seen:
                self.out.append(("skip", "call %d does not consult function dependency %d" % (k, i), None))
                return
        if [i for i, e in got if i in order] != [i for i in order if i in seen]:
            self.out.append(("order", "call %d consults its function dependencies in another order: %s instead of %s" % (k, [i for i, e in got], order), None))

    def one(self, node, state, name, k):
        """One call; False if it left the witness."""
        self.allowed, self.compared = [], []
        self.consulted(node, k)
        try:
            v, ch = self.call(node, state, name)
            e = self.peek()
            if node.rtype == "void":
                if e is None or e.name != "op_mark" or e.args[0] != ("c", 100 + k):
                    self.dev(self.excess(e), "after call %d: unexpected %s" % (k, self.what(e)))
                self.take()
            else:
                nm = {"w::V": "op_reso", "double": "op_resd"}.get(cls(node.rtype), "op_res")
                if e is None or e.name != nm or e.args[0] != ("c", k):
                    self.dev(self.excess(e), "call %d does not end here: %s" % (k, self.what(e)))
                got = e.contents[1] if nm == "op_reso" else e.fargs[0] if nm == "op_resd" else e.args[1]
                if got is None or not self.is_that(got, v, cls(node.rtype)):
                    self.dev("stale", "call %d returns %s instead of %s" % (k, sim.show(got), sim.show(v)))
                self.take()
            self.comparisons()
        except Thrown:
            self.comparisons()
            try:
                e = self.peek()
            except Thrown:
                self.dev("throw", "two exceptions at once")
            if e is None and self.r.kind == "unwind":
                return False
            if e is None or e.name != "op_caught" or e.args[0] != ("c", k):
                if self.r.kind == "stop":
                    self.dev("throw", "an exception of the user's code ends the program")
                self.dev("throw", "an exception in call %d does not reach the caller: %s" % (k, self.what(e)))
            self.take()
        return True

    def excess(self, e):
        if e is None:
            return "stale"
        if e.name in ("op_dep", "od_dep", "mk_dep") or (e.name == "op_arg" and e.args[0][0] == "c" and e.args[0][1] >= 1000):
            return "excess"
        return "extra"

    def comparisons(self):
        allowed = list(self.allowed)
        for e in self.compared:
            if e.contents[0] is None or e.contents[1] is None:
                raise Deviation("compare", "a comparison of something that is not a value: %r" % e, e.pos)
            for a in allowed:
                x, y = e.contents
                if (y == a[1] and self.eqv(x, a[0])) or (x == a[1] and self.eqv(y, a[0])):
                    allowed.remove(a)
                    break
            else:
                raise Deviation("compare", "compares %s with %s, which is not a producer's previous and new result" % (sim.show(e.contents[0]), sim.show(e.contents[1])), e.pos)

    def eqv(self, x, y):
        return x == y or self.same(x, y) is True


def judge(prog, result):
    return Judge(prog, result).judge()
