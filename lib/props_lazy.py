"""C01-C08, C28: the protocol of lazy functions."""
import itertools
from harness import *
from lazyspec import *
from literals import arities, literals

PRELUDE = "template<class R, int id> R fnptr() { return w::Dep<R, id>{}(); }\n"
HEAD = ["lazy"]


def build_node(kinds, rtype="int", deptype="int", ids=None, stateful=False):
    """A lazy function over dependencies given by letters: v value, p parameter, f function, s stateful
    function, c closure, g function pointer, l lazy over a function, w lazy over a value, x lazy
    over lazy over function, y lazy over two functions, V value of class type, q value of the type of the dependencies, d lazy void, e lazy without deps."""
    ids = ids or itertools.count(1)
    deps = []
    node = Lz(next(ids), rtype, deps, stateful)
    for k in kinds:
        i = next(ids)
        t = deptype
        if k == "v":
            deps.append(Val("const", 40 + i))
        elif k == "p":
            deps.append(Val("param", i % 3))
        elif k == "q":
            deps.append(Val("plain" if "P1" in t else "typed", 0, t))
        elif k == "V":
            deps.append(Val("V", i, t if t.startswith("w::V") else "w::V"))
        elif k == "f":
            deps.append(Fn(i, t))
        elif k == "s":
            deps.append(Fn(i, t, True))
        elif k == "c":
            deps.append(Fn(i, t, style="closure"))
        elif k == "a":
            deps.append(Fn(i, t, style="variadic"))
        elif k == "g":
            deps.append(Fn(i, t, style="ptr"))
        elif k == "e":
            deps.append(Lz(i, t, []))
        elif k == "l":
            deps.append(Lz(i, t, [Fn(next(ids), t)]))
        elif k == "t":
            deps.append(Lz(i, t, [Fn(next(ids), t, True)], True))
        elif k == "w":
            deps.append(Lz(i, t, [Val("const", 40 + i)]))
        elif k == "x":
            deps.append(Lz(i, t, [Lz(next(ids), t, [Fn(next(ids), t)])]))
        elif k == "y":
            deps.append(Lz(i, t, [Fn(next(ids), t), Fn(next(ids), t)]))
        elif k == "d":
            deps.append(Lz(i, "void", [Fn(next(ids), t)]))
        else:
            raise KeyError(k)
    return node


def chain(n, t="int"):
    node = Fn(1000 // 2 + n, t)
    ids = itertools.count(1)
    for k in range(n):
        node = Lz(next(ids), t, [node])
    return node


CALLS = lambda n: [("call", "l")] * n


def programs(tier, want=("plain",)):
    out = []
    thorough = tier != "basic"

    def add(tag, node, steps=None, throws=0, early=()):
        out.append(Program("w_%s_%d" % (re.sub(r"\W", "_", tag), len(out)), node, steps, throws, tag, early))

    if "plain" in want:
        for n in arities(range(0, 7) if not thorough else range(0, 13), 12 if not thorough else 24):
            add("f%d" % n, build_node("f" * n), CALLS(3 if n <= 3 else 2))
            add("p%d" % n, build_node("p" * n), CALLS(2))
        for n in arities(range(2, 5), 8 if not thorough else 12):
            add("l%d" % n, build_node("l" * n), CALLS(2 if n > 2 else 3))
        for n in range(2, 4):
            add("chain%d" % n, chain(n), CALLS(4))
        add("chain4", chain(4), CALLS(3))
        add("chain5", chain(5), CALLS(3))
        for k in ("y", "yf", "fy", "xl", "yy"):
            add(k, build_node(k), CALLS(2 if len(k) > 1 else 3))
        for t in ("long", "char", "unsigned short", "double", "void *", "w::V", "E8"):
            add("f_" + t, build_node("f", t, t), CALLS(3))
            add("ff_" + t, build_node("ff", t, t), CALLS(2))
            add("fv_" + t, build_node("fpf", t, t), CALLS(2))
            add("l_" + t, build_node("l", t, t), CALLS(3))
            add("lf_" + t, build_node("lf", t, t), CALLS(2))
            add("res_" + t, build_node("f", t, "int"), CALLS(3))
            add("dep_" + t, build_node("lf", "int", t), CALLS(2))
        for t in UNUSUAL + ("bool", "signed char", "unsigned long", "int *", "w::P1", "w::P3", "E16"):
            add("f_" + t, build_node("f", t, t), CALLS(3))
            add("lf_" + t, build_node("lf", t, t), CALLS(2))
            add("x_" + t, build_node("x", t, t), CALLS(2))
            add("fV_" + t, build_node("fV", t, t), CALLS(2))
        if thorough:
            for t in ("long", "w::V", "double"):
                for k in ("fff", "lll", "xlf", "flf", "yl"):
                    add(k + "_" + t, build_node(k, t, t), CALLS(2))
    if "deep" in want:
        add("deepV", chain(3, "w::V"), CALLS(4))
        add("xlV", build_node("xl", "w::V", "w::V"), CALLS(3))
        add("yV", build_node("y", "w::V", "w::V"), CALLS(3))
        add("VfV", build_node("VfV", "w::V", "w::V"), CALLS(3))
        add("VlVl", build_node("VlVl", "w::V", "w::V"), CALLS(2))
        for n in range(0, 5):
            add("fV%d" % n, build_node("f" * n, "w::V", "w::V"), CALLS(3 if n < 3 else 2))
        add("eV", build_node("ef", "w::V", "w::V"), CALLS(3))
    if "mix" in want:
        letters = "vfl"
        for n in (1, 2, 3) if not thorough else (1, 2, 3, 4):
            for k in itertools.product(letters, repeat=n):
                add("".join(k), build_node(k), CALLS(2))
        for k in ("s", "c", "g", "a", "e", "w", "t", "sf", "fs", "vs", "sv", "gl", "lg", "pe", "ep", "wf", "ws", "ts", "st", "cp", "al",
                  "vscgl", "Vf", "fV", "lVf", "sVs"):
            add(k, build_node(k), CALLS(3 if len(k) < 3 else 2))
        for t in ("long", "char", "bool", "unsigned short", "double", "E8", "E16", "w::P1"):
            for k in ("q", "fq", "ql", "qvq"):
                add(k + t, build_node(k, "int", t), CALLS(2))
        for k in ("", "f", "v", "l", "s", "fs"):
            add("S" + k, build_node(k, stateful=True), CALLS(3))
    if "void" in want:
        for k in ("", "v", "f", "l", "ff", "vf", "fl", "p", "s", "y", "fff", "g"):
            add("V" + k, build_node(k, "void"), CALLS(3))
        for k in ("f", "V", "l"):
            add("VV" + k, build_node(k, "void", "w::V"), CALLS(3))
        for k in ("d", "df", "fd", "dd", "dv", "ld"):
            add("D" + k, build_node(k), CALLS(3 if len(k) < 2 else 2))
            add("DV" + k, build_node(k, "void"), CALLS(3 if len(k) < 2 else 2))
        add("Vst", build_node("f", "void", stateful=True), CALLS(3))
        for t in UNUSUAL + ("double", "bool", "w::P3"):
            add("Vt" + t, build_node("f", "void", t), CALLS(3))
            add("Vtl" + t, build_node("lV" if t.startswith("w::V") else "l", "void", t), CALLS(2))
            add("Dt" + t, build_node("d", t, t), CALLS(3))
        for k in ("ddd", "dfd", "fdf", "eee", "dld", "xd", "dy"):
            add("Vx" + k, build_node(k, "void"), CALLS(2))
        n = Lz(1, "void", [Lz(2, "void", [Lz(3, "void", [Fn(4)])])])
        add("Vchain", n, CALLS(4))
        add("Vchain0", Lz(1, "void", [Lz(2, "void", [Lz(3, "void", [])])]), CALLS(3))
        for k in ("", "f", "l", "d"):
            add("Vc" + k, build_node(k, "void"), [("call", "l"), ("copy", "m", "l"), ("call", "m"), ("call", "l"), ("move", "o", "m"), ("call", "o")])
        for k in ("d", "df", "l"):
            n = build_node(k, "void")
            add("Ve" + k, n, [("call", "l"), ("call", "n2"), ("call", "l")], 0, [2])
        for n in arities([4, 5], 10):
            add("Vn%d" % n, build_node("f" * n, "void"), CALLS(2))
    if "throw" in want:
        for k in ("", "f", "v", "l", "ff", "fl", "lf", "fv", "y", "x", "fff", "s"):
            add("T" + k, build_node(k), CALLS(3), 1)
        for k in ("f", "l", "V", "fV"):
            add("TV" + k, build_node(k, "w::V", "w::V"), CALLS(3 if k != "fV" else 2), 1)
        for k in ("f", "ff", "l"):
            add("Tvoid" + k, build_node(k, "void"), CALLS(3), 1)
        add("Td", build_node("d"), CALLS(3), 1)
        TC = [("call", "l"), ("copy", "m", "l"), ("call", "m"), ("call", "l"), ("call", "m")]
        for k in ("f", "l", "s", "ff", "d"):
            add("TC" + k, build_node(k), TC, 1)
        add("TCV", build_node("f", "w::V", "w::V"), TC, 1)
        add("TCvoid", build_node("f", "void"), TC, 1)
        for t in ("double", "bool", "int *", "char", "w::P3", "w::VOps", "w::VBig", "w::VFinal"):
            add("Tt" + t, build_node("f", t, t), CALLS(3), 1)
            add("Ttl" + t, build_node("l", t, t), CALLS(2), 1)
        for k in ("fd", "dd", "e", "ef", "c", "g", "t", "w", "wf", "vf", "vfv", "lfl", "fff", "ffff"):
            add("Tm" + k, build_node(k), CALLS(3 if len(k) < 3 else 2), 1)
            add("Tmv" + k, build_node(k, "void"), CALLS(2), 1)
        add("Tst", build_node("f", stateful=True), CALLS(3), 1)
        n = build_node("l")
        add("TE", n, [("call", "l"), ("call", "n2"), ("call", "l")], 1, [2])
        add("T2f", build_node("f"), CALLS(4), 2)
        add("T2ff", build_node("ff"), CALLS(3), 2)
        add("T2l", build_node("l"), CALLS(3), 2)
        if thorough:
            for k in ("ll", "xf", "fx", "yf", "ffff", "lfl"):
                add("T" + k, build_node(k), CALLS(3), 1)
            for k in ("ff", "lf", "x"):
                add("TV" + k, build_node(k, "w::V", "w::V"), CALLS(3), 1)
    if "long" in want:
        # histories long enough for anything that counts calls
        n = max(260 if thorough else 40, 3 + max([k for k in literals() if k <= 520], default=0))
        for sh in (0, 1, 20):
            d = Fn(7, "int", True, "step%d" % sh)
            add("long%d" % sh, Lz(1, "int", [d]), CALLS(n))
            add("longvoid%d" % sh, Lz(1, "void", [d]), CALLS(n))
        add("longmix", Lz(1, "int", [Fn(7, "int", True, "step2"), Val("param", 0), Fn(8, "int", True, "step1")]), CALLS(40))
        add("longstate", Lz(1, "int", [Fn(7, "int", True, "step1")], True), CALLS(40))
        add("longnest", Lz(1, "int", [Lz(2, "void", [Fn(7, "int", True, "step0")]), Fn(8, "int", True, "step2")]), CALLS(40))
        add("longvals", Lz(1, "int", [Val("param", 0), Val("const", 3)]), CALLS(n))
        add("longnone", Lz(1, "void", []), CALLS(n))
        # any number of calls: what counts them is widened, see sim.Engine._widen()
        W = [("widen", "l")] + [("call", "l"), ("widen", "l")] * 7 + [("call", "l")]
        for k in ("", "f", "v", "fv", "l0"):
            for t in ("int", "void"):
                add("any%s%s" % (k, t), build_node(k, t) if k != "l0" else Lz(1, t, [Lz(2, "int", [Val("param", 0)])]), W)
        W = [("widen", "l")] + [("call", "l"), ("widen", "l")] * 6
        add("anyl", build_node("l"), W)
        add("anyd", build_node("d"), W)
        add("anyff", build_node("ff"), W)
    if "copy" in want:
        S1 = [("call", "l"), ("copy", "m", "l"), ("call", "m"), ("call", "l"), ("call", "m")]
        S2 = [("copy", "m", "l"), ("call", "m"), ("call", "l"), ("call", "m")]
        S3 = [("call", "l"), ("move", "m", "l"), ("call", "m"), ("call", "m")]
        S4 = [("call", "l"), ("copy", "m", "l"), ("call", "l"), ("copy", "o", "m"), ("call", "o"), ("call", "m")]
        for k in ("f", "s", "l", "t", "vf", "ef"):
            for j, s in enumerate((S1, S2, S3, S4) if len(k) == 1 else (S1, S2)):
                add("C%s%d" % (k, j), build_node(k, stateful=k in "st"), s)
        for k in ("f", "V", "fV"):
            for j, s in enumerate((S1, S2, S3)):
                add("CV%s%d" % (k, j), build_node(k, "w::V", "w::V"), s)
        add("Cvoid", build_node("f", "void"), S1)
        # lazy functions made of lazy functions that have been called before, and go on being called
        for k in ("l", "t", "y", "lf", "fl", "ll", "d", "x", "w", "ed", "w"):
            for t in ("int", "w::V", "void"):
                n = build_node(k, t, "int" if t == "void" else t)
                inner = [x.id for x in n.nodes() if x is not n]
                add("E%s%s" % (k, t), n, [("call", "l"), ("call", "n%d" % inner[0]), ("call", "l"), ("call", "n%d" % inner[0])], 0, inner)
    return out


UNUSUAL = ("w::VFinal", "w::VBig", "w::VAlign", "w::VPoly", "w::VOps", "w::VAny", "w::VList", "w::VHuge")
EXTRA = "enum E16 : unsigned short { e16 };\nenum class E8 : unsigned char {};\n"


def unit(tier, want):
    ws = []
    for p in programs(tier, want):
        ws.append(Witness(p.name, p.cpp(), (lambda p: lambda r: judge(p, r))(p), p.describe(), p.throws, p.throws == 0))
    return WitnessUnit("lazy", HEAD, ws, PRELUDE + EXTRA)


# ------------------------------------------------------------------ dependencies of any type (C05), values (C08)

DEP_PRE = """
#include <array>
#include <functional>
#include <memory>
template<typename T> struct Ty { bool operator==(const Ty &) const = default; };
struct TypeOf { template<typename... T> auto operator()(T...) const { return Ty<std::tuple<T...>>{}; } };
template<typename T> T give();
template<typename... D> using seen = decltype(pigro::lazy(TypeOf{}, give<D>()...)());
template<typename... T> using is = Ty<std::tuple<T...>>;
struct NoEq { int x; }; struct Empty {}; struct Needs { int operator()(int) const; }; struct Nullary { double operator()() const; }; struct Mut { char operator()(); }; struct Opt { short operator()(int = 1) const; };
struct Variadic { long operator()(auto...) const; }; struct Ret { const int &operator()() const; }; struct Both { int operator()() const; double operator()(int) const; }; struct NullOnly { int operator()(std::nullptr_t) const; };
struct NullBoth { int operator()(std::nullptr_t) const; char operator()() const; }; struct Looks { int value; bool is_changed; }; struct Gives { struct R { int value; bool is_changed; bool operator==(const R &) const = default; }; R operator()() const; };
struct Chain { Nullary operator()() const; }; struct Fin final { int x; }; enum class En { a }; struct Priv { private: int operator()() const; };
struct FnEq { float operator()() const; bool operator==(const FnEq &) const = default; }; struct RetFn { FnEq operator()() const; };
using Lz = decltype(pigro::lazy(give<Nullary>())); using Lz2 = decltype(pigro::lazy(give<int (*)(double)>(), give<Lz>()));
"""


def dep_statics():
    kinds = {"int": "int", "double": "double", "bool": "bool", "char": "char", "std::nullptr_t": "std::nullptr_t", "int *": "int *", "const char *": "const char *", "NoEq": "NoEq", "Empty": "Empty", "Fin": "Fin", "En": "En", "Needs": "Needs",
             "std::tuple<int, double>": "std::tuple<int, double>", "std::tuple<>": "std::tuple<>", "std::pair<int, int>": "std::pair<int, int>", "std::array<int, 2>": "std::array<int, 2>", "Looks": "Looks", "NullOnly": "NullOnly",
             "std::optional<int>": "std::optional<int>", "std::shared_ptr<int>": "std::shared_ptr<int>", "int (*)(int)": "int (*)(int)", "int Empty::*": "int Empty::*",
             "Nullary": "double", "Mut": "char", "Opt": "short", "Variadic": "long", "Ret": "int", "Both": "int", "NullBoth": "char", "Gives": "Gives::R", "RetFn": "FnEq", "float (*)()": "float", "std::function<int()>": "int",
             "std::true_type": "bool", "std::integral_constant<int, 3>": "int", "std::reference_wrapper<Nullary>": "double", "Lz": "double", "Lz2": "int"}
    items = []
    for t, v in kinds.items():
        items.append(Static("std::is_same_v<seen<%s>, is<%s>>" % (t, v), "a dependency of type %s contributes a %s" % (t, v)))
    ts = list(kinds)
    for i, t in enumerate(ts):
        x, y = ts[(i * 7 + 3) % len(ts)], ts[(i * 11 + 5) % len(ts)]
        items.append(Static("std::is_same_v<seen<%s, %s, %s>, is<%s>>" % (t, x, y, ", ".join(kinds[k] for k in (t, x, y))), "dependencies of types %s, %s and %s" % (t, x, y)))
        items.append(Static("std::is_same_v<seen<std::type_identity_t<%s> &, std::type_identity_t<%s> &>, is<%s>>" % (t, x, ", ".join(kinds[k] for k in (t, x))), "lvalue dependencies of types %s and %s" % (t, x)))
    return StaticUnit("dependencies", ["lazy", "<optional>", "<tuple>", "<type_traits>"], items, DEP_PRE)


P = "int p0, int p1, w::V &v0, w::V &v1, w::M &m0, int &i0"


def dep_pairs():
    ws = []

    def p(n, body, ref, d):
        ws.append(Pair(n, body, ref, P, d, "none", by_value=True))
    p("dep_lval", "int a = p0; auto f = pigro::lazy(w::Fun<int, 1>{}, a); a = 77; op_res(0, f()); a = 78; op_res(1, f()); op_note(9, a);", "w::args(1, p0); int r = op_fun(1); op_res(0, r); op_res(1, r); op_note(9, 78);", "an lvalue value is copied")
    p("dep_lvalV", "w::V a{ v0 }; auto f = pigro::lazy(w::Fun<int, 1>{}, a); a = v1; op_res(0, f()); op_noteo(9, &a);", "w::args(1, v0); int r = op_fun(1); op_res(0, r); op_noteo(9, &v1);", "an lvalue value of class type is copied")
    p("dep_state", "w::StatefulDep<int, 2> d{ p0 }; auto f = pigro::lazy(w::Fun<int, 1>{}, d); op_res(0, f()); op_note(9, d.state); d.state = 50; op_mark(5);", "op_arg(1002, 99, p0); int x = op_dep(2); w::args(1, x); op_res(0, op_fun(1)); op_note(9, p0); op_mark(5);", "an lvalue function is copied and left alone")
    p("dep_fstate", "w::StatefulFun<int, 1> g{ p0 }; auto f = pigro::lazy(g, p1); op_res(0, f()); op_note(9, g.state);", "op_arg(1, 99, p0); w::args(1, p1); op_res(0, op_fun(1)); op_note(9, p0);", "an lvalue function to evaluate is copied and left alone")
    p("dep_inner", "auto a = pigro::lazy(w::Fun<int, 1>{}, p0); auto f = pigro::lazy(w::Fun<int, 2>{}, a); op_res(0, f()); op_mark(7); op_res(1, a());", "w::args(1, p0); int x = op_fun(1); w::args(2, x); op_res(0, op_fun(2)); op_mark(7); w::args(1, p0); op_res(1, op_fun(1));", "an lvalue lazy function is copied with its cache, and evaluated on its own")
    p("dep_cached", "auto a = pigro::lazy(w::Fun<int, 1>{}, p0); op_res(1, a()); op_mark(7); auto f = pigro::lazy(w::Fun<int, 2>{}, a); op_res(0, f());", "w::args(1, p0); int x = op_fun(1); op_res(1, x); op_mark(7); w::args(2, x); op_res(0, op_fun(2));", "a lazy dependency that has a result contributes it")
    p("dep_null", "auto f = pigro::lazy(w::Fun<int, 1>{}, static_cast<int *>(nullptr), p0); op_res(0, f()); op_res(1, f());", "w::args(1, static_cast<int *>(nullptr), p0); int r = op_fun(1); op_res(0, r); op_res(1, r);", "a null pointer")
    p("dep_tup", "auto f = pigro::lazy(w::Fun<int, 1>{}, std::tuple{ p0, p1 }, std::pair{ p1, p0 }); op_res(0, f()); op_res(1, f());", "w::args(1, std::tuple{ p0, p1 }, std::pair{ p1, p0 }); int r = op_fun(1); op_res(0, r); op_res(1, r);", "tuples stay tuples")
    p("dep_tup1", "auto f = pigro::lazy(w::Fun<int, 1>{}, std::tuple{ p0 }); op_res(0, f()); op_res(1, f());", "w::args(1, std::tuple{ p0 }); int r = op_fun(1); op_res(0, r); op_res(1, r);", "a tuple of one element stays a tuple")
    p("dep_many", "auto f = pigro::lazy(w::Fun<int, 1>{}, v0, w::E<1>{}, p0, v1, 2.5); op_res(0, f()); op_res(1, f());", "w::args(1, v0, w::E<1>{}, p0, v1, 2.5); int r = op_fun(1); op_res(0, r); op_res(1, r);", "values of many types")
    return WitnessUnit("dependencies", ["lazy"], ws)


def value_statics():
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))
    fs = {"int": "int", "const int": "int", "int &": "int", "const int &": "int", "double": "double", "NoDef": "NoDef", "const NoDef &": "NoDef", "NoDef &&": "NoDef", "void": "void", "std::pair<int, int>": "std::pair<int, int>"}
    for r, v in fs.items():
        a("std::is_same_v<decltype(give<L<F<%s>>>()()), %s> && std::is_same_v<decltype(std::declval<L<F<%s>> &>()()), %s>" % (r, v, r, v), "a lazy function of a function that returns %s returns %s" % (r, v))
        a("std::is_copy_constructible_v<L<F<%s>>> && std::is_move_constructible_v<L<F<%s>>> && std::is_copy_constructible_v<L<F<int>, F<%s>>> && std::is_copy_constructible_v<L<F<int>, L<F<%s>>>>" % (r, r, r if r != "void" else "int", r), "lazy functions of %s can be copied" % r)
        if v != "void":
            a("std::is_same_v<decltype(std::declval<L<F<%s>, F<int>, int> &>()()), %s>" % (r, v))
    a("std::is_copy_constructible_v<L<S, S, S>> && std::is_same_v<decltype(std::declval<L<S, S, S> &>()()), int>", "stateful functions")
    return StaticUnit("values", ["lazy", "<type_traits>"], items, "template<typename T> T give();\ntemplate<typename R> struct F { R operator()(auto...) const; };\nstruct S { int x; int operator()(auto...); };\nstruct NoDef { NoDef(int); bool operator==(const NoDef &) const; };\ntemplate<typename... T> using L = decltype(pigro::lazy(give<T>()...));\n")


RESULT_PRE = """
#include <array>
#include <optional>
#include <variant>
extern "C" long op_ldep(int id) noexcept(W_NX);
extern "C" float of_dep(int id) noexcept(W_NX);
extern "C" const int *op_pdep(int id) noexcept(W_NX);
namespace rt {
enum class En : short { a, b };
struct Empty { bool operator==(const Empty &) const = default; };
struct Ints { int a, b; bool operator==(const Ints &) const = default; };
struct Cmp { int a; auto operator<=>(const Cmp &) const = default; };
struct Ne { int a; friend bool operator==(const Ne &x, const Ne &y) { return x.a == y.a; } friend bool operator!=(const Ne &x, const Ne &y) { return x.a != y.a; } };
struct Boolish { int a; operator bool() const { return a > 3; } friend bool operator==(const Boolish &x, const Boolish &y) { return x.a == y.a; } };
struct Intish { int a; operator int() const { return 5; } friend bool operator==(const Intish &x, const Intish &y) { return x.a == y.a; } };
struct Greedy { int a; Greedy() = default; template<typename T> requires(!std::is_base_of_v<Greedy, T>) Greedy(const T &) : a{ -1 } {} friend bool operator==(const Greedy &x, const Greedy &y) { return x.a == y.a; } };
struct EqAll { int a; template<typename T> bool operator==(const T &o) const { if constexpr (std::is_same_v<T, EqAll>) return a == o.a; else return false; } };
struct Derived : std::optional<int> { using std::optional<int>::optional; friend bool operator==(const Derived &x, const Derived &y) { return static_cast<const std::optional<int> &>(x) == static_cast<const std::optional<int> &>(y); } };
struct Null { int a; Null(int a) : a{ a } {} Null(std::nullopt_t) : a{ 0 } {} friend bool operator==(const Null &x, const Null &y) { return x.a == y.a; } };
struct ToVoid { int a; operator pigro::regular_void() const { return {}; } friend bool operator==(const ToVoid &x, const ToVoid &y) { return x.a == y.a; } };
struct Part { int a; int note; friend bool operator==(const Part &x, const Part &y) { return x.a == y.a; } };
template<typename T> struct made { static T get(int id) { return T{ op_dep(id) }; } static void show(int id, const T &x) { op_note(id, x.a); } };
template<> struct made<Greedy> { static Greedy get(int id) { Greedy g; g.a = op_dep(id); return g; } static void show(int id, const Greedy &x) { op_note(id, x.a); } };
template<> struct made<Ints> { static Ints get(int id) { int a = op_dep(id), b = op_fun(id); return { a, b }; } static void show(int id, const Ints &x) { op_note(id, x.a); op_note(id, x.b); } };
template<> struct made<Part> { static Part get(int id) { int a = op_dep(id), b = op_fun(id); return { a, b }; } static void show(int id, const Part &x) { op_note(id, x.a); op_note(id, x.note); } };
template<> struct made<int> { static int get(int id) { return op_dep(id); } static void show(int id, const int &x) { op_note(id, x); } };
template<typename T> requires std::is_integral_v<T> struct made<T> { static T get(int id) { return static_cast<T>(op_ldep(id)); } static void show(int id, const T &x) { op_note(id, x); } };
template<> struct made<float> { static float get(int id) { return of_dep(id); } static void show(int id, const float &x) { op_argd(id, 0, x); } };
template<> struct made<double> { static double get(int id) { return od_dep(id); } static void show(int id, const double &x) { op_argd(id, 0, x); } };
template<> struct made<const int *> { static const int *get(int id) { return op_pdep(id); } static void show(int id, const int *const &x) { op_argo(id, 0, x); } };
template<> struct made<En> { static En get(int id) { return static_cast<En>(op_dep(id)); } static void show(int id, const En &x) { op_note(id, static_cast<int>(x)); } };
template<typename T> requires std::is_empty_v<T> struct made<T> { static T get(int id) { op_vfun(id); return T{}; } static void show(int id, const T &) { op_mark(id); } };
template<> struct made<bool> { static bool get(int id) { return ob_pred(id); } static void show(int id, const bool &x) { if (x) op_vfun(id); else op_mark(id); } };
template<typename T> struct made<std::optional<T>> {
    static std::optional<T> get(int id) { if (ob_pred(id)) return made<T>::get(id); return std::nullopt; }
    static void show(int id, const std::optional<T> &x) { if (x) { op_mark(id); made<T>::show(id, *x); } else op_mark(-id); }
};
template<> struct made<Derived> { static Derived get(int id) { if (ob_pred(id)) return op_dep(id); return std::nullopt; } static void show(int id, const Derived &x) { made<std::optional<int>>::show(id, x); } };
template<typename A, typename B> struct made<std::pair<A, B>> { static std::pair<A, B> get(int id) { A a = made<A>::get(id); B b = made<B>::get(id + 1); return { a, b }; } static void show(int id, const std::pair<A, B> &x) { made<A>::show(id, x.first); made<B>::show(id, x.second); } };
template<typename A> struct made<std::tuple<A>> { static std::tuple<A> get(int id) { A a = made<A>::get(id); return std::tuple<A>(a); } static void show(int id, const std::tuple<A> &x) { made<A>::show(id, std::get<0>(x)); } };
template<> struct made<std::array<int, 2>> { static std::array<int, 2> get(int id) { int a = op_dep(id), b = op_fun(id); return { a, b }; } static void show(int id, const std::array<int, 2> &x) { op_note(id, x[0]); op_note(id, x[1]); } };
template<typename R, int id> struct Dep { R operator()() const { return made<R>::get(id); } };
template<typename R, int id> struct Mid { R operator()(int x) const { op_arg(id, 0, x); return made<R>::get(id); } };
template<typename R, int id> struct Top { int operator()(const R &x) const { made<R>::show(id, x); return op_fun(id + 50); } };
template<typename R, int id> struct Pass { R operator()(const R &x) const { made<R>::show(id, x); return made<R>::get(id + 10); } };
}
"""
RESULT_TYPES = {"oi": "std::optional<int>", "ooi": "std::optional<std::optional<int>>", "pii": "std::pair<int, int>", "t1": "std::tuple<int>", "a2": "std::array<int, 2>",
                "ints": "rt::Ints", "cmp": "rt::Cmp", "ne": "rt::Ne", "boolish": "rt::Boolish", "intish": "rt::Intish", "greedy": "rt::Greedy", "eqall": "rt::EqAll", "derived": "rt::Derived", "null": "rt::Null", "part": "rt::Part", "tov": "rt::ToVoid",
                "l": "long", "ul": "unsigned long", "us": "unsigned short", "sc": "signed char", "u": "unsigned", "f": "float", "d": "double", "ptr": "const int *", "en": "rt::En", "b": "bool",
                "em": "rt::Empty", "mono": "std::monostate", "omono": "std::optional<std::monostate>", "lb": "std::pair<long, bool>", "ob": "std::optional<bool>", "oc": "std::optional<signed char>",
                "poi": "std::pair<std::optional<int>, int>", "toi": "std::tuple<std::optional<int>>", "op1": "std::optional<rt::Ints>"}


def result_pairs():
    """Lazy functions of results of class types that optional, tuple and comparison have a special
    opinion of."""
    ws = []

    def p(n, body, ref, d):
        ws.append(Pair(n, body, ref, P, d, "none", by_value=True))
    for n, r in RESULT_TYPES.items():
        p("rd_" + n, "auto f = pigro::lazy(rt::Top<%s, 2>{}, rt::Dep<%s, 5>{}); op_res(0, f()); op_res(1, f()); op_res(2, f());" % (r, r),
          "auto a = rt::Dep<%s, 5>{}(); int r = rt::Top<%s, 2>{}(a); op_res(0, r); auto b = rt::Dep<%s, 5>{}(); if (!(a == b)) r = rt::Top<%s, 2>{}(b); op_res(1, r); auto c = rt::Dep<%s, 5>{}(); if (!(b == c)) r = rt::Top<%s, 2>{}(c); op_res(2, r);" % ((r,) * 6),
          "a function dependency that gives %s" % r)
        p("rm_" + n, "auto m = pigro::lazy(rt::Mid<%s, 5>{}, [] { return op_dep(1); }); auto f = pigro::lazy(rt::Top<%s, 2>{}, m); op_res(0, f()); op_res(1, f());" % (r, r),
          "int x = op_dep(1); auto a = rt::Mid<%s, 5>{}(x); int r = rt::Top<%s, 2>{}(a); op_res(0, r); int y = op_dep(1); if (x != y) { auto b = rt::Mid<%s, 5>{}(y); if (!(a == b)) r = rt::Top<%s, 2>{}(b); } op_res(1, r);" % ((r,) * 4),
          "a lazy dependency that gives %s" % r)
        p("rr_" + n, "auto f = pigro::lazy(rt::Mid<%s, 5>{}, [] { return op_dep(1); }); rt::made<%s>::show(20, f()); op_mark(500); rt::made<%s>::show(21, f());" % (r, r, r),
          "int x = op_dep(1); auto a = rt::Mid<%s, 5>{}(x); rt::made<%s>::show(20, a); op_mark(500); int y = op_dep(1); if (x != y) { a = rt::Mid<%s, 5>{}(y); } rt::made<%s>::show(21, a);" % ((r,) * 4),
          "a lazy function that gives %s" % r)
        p("rv_" + n, "auto v = rt::made<%s>::get(30); auto f = pigro::lazy(rt::Top<%s, 2>{}, v); op_res(0, f()); op_res(1, f());" % (r, r),
          "auto v = rt::made<%s>::get(30); int r = rt::Top<%s, 2>{}(v); op_res(0, r); op_res(1, r);" % (r, r),
          "a value of type %s" % r)
    return WitnessUnit("results", ["lazy"], ws, RESULT_PRE)
