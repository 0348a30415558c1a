"""C09-C11, C24-C27: sizes, void, concepts, empty objects, uncaptured values, headers."""
import itertools, random
from harness import *
from literals import arities, literals
from props_util import PARAMS, W, CT, ODDL, ODDS

# ------------------------------------------------------------------ C09 sizes

SZ_PRE = """
#include <optional>
struct Of1 { char x; }; struct Of2 { short x; }; struct Of3 { char x[3]; }; struct Of4 { int x; }; struct Of8 { double x; }; struct Of12 { int x[3]; }; struct Of24 { long x[3]; };
struct alignas(16) Al16 { char x; }; struct alignas(32) Al32 { int x; };
struct V1 { virtual ~V1() = default; };
template<int k, typename... S> struct F : S... { void operator()(std::integral_constant<int, k>) const; };
template<int k, typename... S> struct G : S... { template<typename... A> int operator()(A &&...) const; };
template<int k, typename R, typename... S> struct L : S... { template<typename... A> R operator()(A &&...) const; };
template<int k, typename R, typename... S> struct D : S... { R operator()() const; };
template<int k> struct Em { };
struct EmD { ~EmD(); }; struct EmC { EmC(int); EmC(const EmC &); }; struct EmF final { }; template<typename T> struct EmB : Em<99> { };
struct Op { int a; char b; bool operator==(const Op &) const = default; };
struct Big { long x[4]; Big(const Big &); bool operator==(const Big &) const; };
template<typename T> struct hold { T x; };
template<typename... Ts> struct plain {};
template<typename T> struct measure { static constexpr std::size_t align = alignof(T); static constexpr std::size_t size(std::size_t a) { return (sizeof(T) + a - 1) / a * a; } };
template<typename... Ts> struct measure<plain<Ts...>> {
    static constexpr std::size_t align = [] { std::size_t a = 1; ((a = measure<Ts>::align > a ? measure<Ts>::align : a), ...); return a; }();
    static constexpr std::size_t size(std::size_t a) { return (measure<Ts>::size(a) + ... + 0); }
};
// the memory of the parts in a struct, whatever their order
template<typename... Ts> constexpr std::size_t memory = measure<plain<Ts...>>::size(measure<plain<Ts...>>::align);
template<typename T> T give();
"""

EMPTY_E = ["Em<0>", "Em<1>", "Em<0>", "EmD", "std::true_type"]
STATE_E = ["Of4", "Of1", "Of8", "Of2", "Of3", "Of24", "Al16", "int *", "int", "V1", "Of12", "char"]


def c09(rep, tier):
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))

    def limit(t, parts):
        """t takes no more memory than a struct of the parts"""
        return "sizeof(%s) <= memory<%s>" % (t, ", ".join(parts)) if parts else "sizeof(%s) == 1 && std::is_empty_v<%s>" % (t, t)
    thorough = tier != "basic"
    rnd = random.Random(7)
    # overload and recursive
    shapes = [s for n in range(0, 6) for s in itertools.product("es", repeat=n)]
    for n in arities((7, 8, 12), 20):
        shapes += [tuple("e" * n), tuple("s" * n), tuple(("es" * n)[:n])]
    sizes = ["Of1", "Of4", "Of8", "Of2", "Al16", "Of3", "Of24", "V1"]
    for j, s in enumerate(shapes):
        for r in range(4 if thorough else 3):
            parts, fs = [], []
            for k, c in enumerate(s):
                st = sizes[(j * 3 + k * (1 + r) + r) % len(sizes)] if r != 1 else ("Of4", "Of1", "Of12", "Of8")[j % 4]
                fs.append("F<%d%s>" % (k, ", hold<%s>" % st if c == "s" else ""))
                if c == "s":
                    parts.append(st)
            a(limit("pigro::overload<%s>" % ", ".join(fs), parts), "overload of %s" % ", ".join(fs))
            if fs:
                o = "pigro::recursive<pigro::overload<%s>>" % ", ".join(fs)
                a(limit(o, parts), "recursive overload of %s" % ", ".join(fs))
    # compressed tuples, bound and uncaptured
    for j, s in enumerate(shapes):
        for r in range(4 if thorough else 3):
            es, parts = [], []
            for k, c in enumerate(s):
                if c == "e":
                    es.append(EMPTY_E[(j + k * (r + 1)) % len(EMPTY_E)])
                else:
                    t = STATE_E[(j * 5 + k * (r + 2) + r) % len(STATE_E)] if r != 1 else (("Of4", "int", "Of12"), ("Of1", "char", "Of3"), ("Of8", "int *", "V1"))[j % 3][k % 3]
                    es.append(t)
                    parts.append(t)
            tup = "pigro::compressed_tuple<%s>" % ", ".join(es)
            a(limit(tup, parts), "compressed_tuple of %s" % ", ".join(es))
            if len(s) > 9 and r:
                continue
            for f, fp in (("G<0>", []), ("G<0, hold<Of4>>", ["Of4"])):
                if r and fp:
                    continue
                for op in (">>", "<<"):
                    a(limit("decltype(give<%s>() %s give<%s>())" % (tup, op, f), (["plain<%s>" % ", ".join(parts)] if parts else []) + fp), "%s %s %s" % (", ".join(es), op, f))
                nest = list(fp)
                for x in reversed(parts):
                    nest = [x, "plain<%s>" % ", ".join(nest)] if nest else [x]
                if es:
                    a(limit("decltype(pigro::uncaptured(%s) >> give<%s>())" % (", ".join("give<%s>()" % e for e in es), f), nest), "uncaptured(%s) >> %s" % (", ".join(es), f))
    a("sizeof(pigro::compressed_tuple<int &>) == sizeof(int *) && sizeof(pigro::compressed_tuple<Em<0>, int &, Em<1>>) == sizeof(int *)", "a reference element takes a pointer")
    a("sizeof(pigro::compressed_tuple<Em<0> &>) <= sizeof(int *)", "a reference to an empty element takes a pointer at most")
    # every size around what the headers mention
    for n in sorted(x for x in {k + d for k in literals() | {16, 32, 64, 128} for d in (-1, 0, 1)} if 0 < x < 5000):
        b = "hold<char[%d]>" % n
        a("sizeof(pigro::compressed_tuple<Em<0>, %s, Em<1>>) <= %d && sizeof(pigro::overload<F<0>, F<1, %s>>) <= %d && sizeof(decltype(pigro::uncaptured(give<Em<0>>(), give<%s>()) >> give<G<0>>())) <= %d" % (b, n, b, n, b, n), "parts of %d bytes" % n)
    a("sizeof(decltype(pigro::regularized_void(give<G<0>>()))) == 1 && sizeof(decltype(pigro::unregularized_void(give<G<0>>()))) == 1 && sizeof(decltype(pigro::regularized_void(give<G<0, hold<Of8>>>()))) == 8", "the void adapters add nothing")
    a("sizeof(decltype(pigro::fwd_capture(give<Of4>()))) == 4 && sizeof(decltype(pigro::fwd_capture(give<Of24 &>()))) == sizeof(void *)", "captures take the value or a pointer")
    # lazy functions
    ids = itertools.count()

    kits = [{"R": ["int", "Op"], "S": ["Of4", "Of12"], "T": ["int", "Of4", "unsigned"]}, {"R": ["char", "bool"], "S": ["Of1", "Of3"], "T": ["char", "bool", "Of3"]},
            {"R": ["double", "long", "Big"], "S": ["Of8", "Of24"], "T": ["double", "Of8", "char *"]}, {"R": ["int", "char", "double", "short", "Op", "Big"], "S": ["Of4", "Of8", "Of1"], "T": ["int", "char", "double", "Of3", "short"]}]

    def node(rng, depth, kit):
        """(type expression, model parts)"""
        R = rng.choice(kit["R"] + ["void"])
        st = rng.choice([None, None, None] + kit["S"])
        f = "L<%d, %s%s>" % (next(ids), R, ", hold<%s>" % st if st else "")
        cache = "bool" if R == "void" else "std::optional<%s>" % R
        parts = [st] if st else []
        deps = []
        for _ in range(rng.choice([0, 1, 1, 2, 3] if depth else [0, 1, 2])):
            k = rng.choice(["value", "fn", "sfn", "lazy"] if depth else ["value", "fn", "sfn"])
            if k == "value":
                t = rng.choice(kit["T"])
                deps.append("give<%s>()" % t)
                parts.append(t)
            elif k == "empty":
                deps.append("give<Em<%d>>()" % (100 + next(ids)))
            elif k in ("fn", "sfn"):
                r = rng.choice(kit["R"])
                s = rng.choice(kit["S"]) if k == "sfn" else None
                deps.append("give<D<%d, %s%s>>()" % (next(ids), r, ", hold<%s>" % s if s else ""))
                parts.append("plain<%s>" % ", ".join(["std::optional<%s>" % r] + ([s] if s else [])))
            else:
                e, p = node(rng, depth - 1, kit)
                deps.append(e)
                parts.append("plain<%s>" % ", ".join(p))
        return "pigro::lazy(%s)" % ", ".join(["give<%s>()" % f] + deps), [cache] + (["plain<%s>" % ", ".join(parts)] if parts else [])
    a("sizeof(decltype(pigro::lazy(give<L<0, void>>()))) == sizeof(bool)", "a lazy void function without dependencies")
    a("sizeof(decltype(pigro::lazy(give<L<0, int>>()))) == sizeof(std::optional<int>)", "a lazy function without dependencies")
    for n in arities(range(1, 6), 10):
        if not n:
            continue
        a(limit("decltype(pigro::lazy(give<L<0, int>>(), %s))" % ", ".join("give<D<%d, int>>()" % k for k in range(n)), ["std::optional<int>"] * (n + 1)), "a lazy function of %d stateless functions" % n)
        a("sizeof(decltype(pigro::lazy(give<L<0, int>>(), %s))) == sizeof(std::optional<int>)" % ", ".join("give<Em<%d>>()" % k for k in range(n)), "a lazy function of %d stateless values" % n)
        a(limit("decltype(pigro::lazy(give<L<0, void>>(), %s))" % ", ".join("give<char>()" for k in range(n)), ["bool"] + ["char"] * n), "a lazy void function of %d values" % n)
        a(limit("decltype(pigro::lazy(give<L<99, void>>(), %s))" % ", ".join("pigro::lazy(give<L<%d, char>>())" % k for k in range(n)), ["bool"] + ["std::optional<char>"] * n), "a lazy void function of %d lazy functions" % n)
    for k in range(60 if not thorough else 300):
        e, p = node(rnd, 2, kits[k % len(kits)])
        a(limit("decltype(%s)" % e, p), "a lazy function costs what it stores: " + e)
    decide_static(rep, [StaticUnit("sizes", ["lazy", "uncapture", "overload", "recursive", "compressed_tuple", "<type_traits>"], items, SZ_PRE)], 50)


# ------------------------------------------------------------------ C10 regular_void

RV = "pigro::regular_void"
OPT = "std::optional<pigro::regular_void>"
RV_PRE = """
#include <concepts>
#include <compare>
using rv = pigro::regular_void; using opt = std::optional<rv>;
constexpr bool on(opt o) { return static_cast<bool>(o); }
constexpr opt full() { return opt{ rv{} }; }
constexpr opt assigned(int n) { opt o; for (int i = 0; i < n; ++i) o = rv{}; return o; }
constexpr opt copied(const opt &x) { opt o{ x }; return o; }
constexpr opt copy_assigned(opt to, const opt &x) { to = x; return to; }
constexpr opt moved(opt x) { opt o{ static_cast<opt &&>(x) }; return o; }
constexpr opt move_assigned(opt to, opt x) { to = static_cast<opt &&>(x); return to; }
constexpr bool chain() { opt o; return &(o = rv{}) == &o && on(o); }
constexpr bool apart() { opt a, b; a = rv{}; opt c = a; opt d = b; b = rv{}; return on(a) && on(b) && on(c) && !on(d); }
template<typename T> constexpr bool takes_star = requires(T o) { { *o } -> std::convertible_to<rv>; };
"""


def c10(rep, tier):
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))
    a("std::is_empty_v<rv> && std::is_trivially_copyable_v<rv> && std::regular<rv> && std::totally_ordered<rv> && std::three_way_comparable<rv>", "regular_void is empty, regular and ordered")
    for op, v in (("==", 1), ("!=", 0), ("<", 0), (">", 0), ("<=", 1), (">=", 1)):
        a("(rv{} %s rv{}) == %s" % (op, "true" if v else "false"), "regular_void %s regular_void" % op)
    a("(rv{} <=> rv{}) == 0 && std::is_eq(rv{} <=> rv{})")
    a("std::is_default_constructible_v<rv> && std::is_nothrow_default_constructible_v<rv> && std::is_nothrow_copy_constructible_v<rv>")
    a("sizeof(opt) == sizeof(bool) && alignof(opt) == alignof(bool)", "an optional regular_void takes the memory of a bool")
    a("std::is_copy_constructible_v<opt> && std::is_move_constructible_v<opt> && std::is_copy_assignable_v<opt> && std::is_move_assignable_v<opt> && std::is_default_constructible_v<opt> && std::equality_comparable<opt>")
    a("std::is_trivially_copyable_v<opt>", "an optional regular_void is trivially copyable")
    a("std::is_convertible_v<rv, opt> && std::is_constructible_v<bool, opt> && !std::is_convertible_v<opt, bool>", "conversions")
    a("!on(opt{}) && !on(opt()) && on(full()) && on(opt(rv{}))", "empty until something is put in")
    for n in range(0, 4):
        a("on(assigned(%d)) == %s" % (n, "true" if n else "false"), "after %d assignments" % n)
    states = {"opt{}": 0, "full()": 1, "assigned(0)": 0, "assigned(1)": 1, "assigned(2)": 1}
    for x, v in states.items():
        b = "true" if v else "false"
        a("on(copied(%s)) == %s && on(moved(%s)) == %s && on(copied(copied(%s))) == %s" % (x, b, x, b, x, b), "copies of %s" % x)
        for y in states:
            a("on(copy_assigned(%s, %s)) == %s && on(move_assigned(%s, %s)) == %s" % (y, x, b, y, x, b), "%s assigned to %s" % (x, y))
            eq = states[x] == states[y]
            a("(%s == %s) == %s && (%s != %s) == %s" % (x, y, "true" if eq else "false", x, y, "false" if eq else "true"), "comparison of %s and %s" % (x, y))
        a("(%s == rv{}) == %s && (%s != rv{}) == %s && (rv{} == %s) == %s && (rv{} != %s) == %s" % (x, b, x, "false" if v else "true", x, b, x, "false" if v else "true"), "comparison of %s and a regular_void" % x)
    a("takes_star<opt> && takes_star<const opt> && (*full() == rv{})", "what is in it is a regular_void")
    a("chain()", "assignment gives the optional itself")
    a("apart()", "copies are independent")
    decide_static(rep, [StaticUnit("regular_void", ["regular_void", "<optional>", "<type_traits>"], items, RV_PRE)])
    ws = []
    pre = "using rv = pigro::regular_void; using opt = std::optional<rv>;"

    def p(n, body, ref, d):
        ws.append(Pair(n, pre + body, ref, PARAMS, d, "none"))
    yes = "if (%s) op_mark(1); else op_mark(2);"
    p("rv_path", "opt o; if (p0) o = rv{}; " + yes % "o", yes % "p0", "engaged exactly if assigned")
    p("rv_two", "opt o, q; if (p0) o = rv{}; if (p1) q = rv{}; " + yes % "o == q" + yes % "o != q" + yes % "o" + yes % "q", yes % "(p0 != 0) == (p1 != 0)" + yes % "(p0 != 0) != (p1 != 0)" + yes % "p0" + yes % "p1", "equal exactly if both or neither are engaged")
    p("rv_seq", "opt o; for (int k : { 1, 2, 3 }) { if (ob_pred(k)) o = rv{}; " + yes % "o" + " opt c = o; if (ob_pred(9)) c = opt{}; " + yes % "o" + yes % "c" + "}",
      "bool o = false; for (int k : { 1, 2, 3 }) { if (ob_pred(k)) o = true; " + yes % "o" + " bool c = o; if (ob_pred(9)) c = false; " + yes % "o" + yes % "c" + "}", "any history of three assignments and copies")
    p("rv_reset", "opt o; if (p0) o = rv{}; opt e; if (p1) o = e; " + yes % "o" + "o = rv{}; " + yes % "o", yes % "p0 && !p1" + "op_mark(1);", "assigning an empty one empties it")
    decide_witnesses(rep, [WitnessUnit("regular_void", ["regular_void"], ws, "#include <initializer_list>\n")])


# ------------------------------------------------------------------ C11 void adapters

VA_PRE = """
template<int id> struct RvFun { int state; pigro::regular_void operator()(const auto &...xs) { op_arg(id, 99, state++); w::args(id, xs...); return {}; } };
template<typename R, int id> struct ConstFun { int state; R operator()(const auto &...xs) const { op_arg(id, 98, state); w::args(id, xs...); if constexpr (!std::is_void_v<R>) return w::make<R>(w::from::fun, id); else op_vfun(id); } };
template<typename R> R fnptr(int x, int y) { return w::Fun<R, 3>{}(x, y); }
struct ToRef { int &operator()(int &x) const { return x; } };
struct Both { void operator()(int) const { op_mark(5); } int operator()(int, int) const { op_mark(6); return op_fun(1); } pigro::regular_void operator()() const { op_mark(7); return {}; } };
"""


def c11(rep, tier):
    ws, items = [], []

    def a(e, d=""):
        items.append(Static(e, d or e))
    pool = ["p0", "v0", "std::as_const(v1)", "i0", "7", "2.5", "&i0", "p1", "v1", "'c'", "p0", "p1", "9"]
    ads = (("reg", "pigro::regularized_void"), ("unreg", "pigro::unregularized_void"))
    for n in arities(range(0, 7), 12):
        args = ", ".join(pool[:n])
        for an, ad in ads:
            for rt in ("void", "int", "w::V", "double", "rv") + (tuple(ODDS.values()) + ("bool", "unsigned char", "w::P1", "w::P3", "int *", "w::EC") if n == 1 else ()):
                if n > 3 and rt in ("double",):
                    continue
                f = "w::StatefulFun<%s, 1>" % rt if rt != "rv" else "RvFun<1>"
                novalue = rt in ("void", "rv")
                use = "%s;" if novalue else "w::res(0, %s);"
                body = "auto g = %s(%s{ p1 }); op_mark(1); %s %s op_mark(2); auto h = g; %s %s" % (ad, f, use % ("g(%s)" % args), use % ("g(%s)" % args), use % ("h(%s)" % args), use % ("g(%s)" % args))
                ref = "%s g{ p1 }; op_mark(1); %s %s op_mark(2); auto h = g; %s %s" % (f, use % ("g(%s)" % args), use % ("g(%s)" % args), use % ("h(%s)" % args), use % ("g(%s)" % args))
                ws.append(Pair("%s_%s_%d" % (an, re.sub(r"\W", "", rt), n), body, ref, PARAMS, "%s of a stateful function of %d arguments that returns %s, called three times" % (ad, n, rt), "none", by_value=True))
                if n < 3 and rt != "rv":
                    c = "ConstFun<%s, 2>" % rt
                    ws.append(Pair("%s_c%s_%d" % (an, re.sub(r"\W", "", rt), n), "auto g = %s(%s{ p1 }); op_mark(1); %s %s" % (ad, c, use % ("g(%s)" % args), use % ("g(%s)" % args)), "%s g{ p1 }; op_mark(1); %s %s" % (c, use % ("g(%s)" % args), use % ("g(%s)" % args)), PARAMS, "%s of a const function of %d arguments" % (ad, n), "none", by_value=True))
                    s = "w::Fun<%s, 2>" % rt
                    ws.append(Pair("%s_s%s_%d" % (an, re.sub(r"\W", "", rt), n), "auto g = %s(%s{}); op_mark(1); %s %s" % (ad, s, use % ("g(%s)" % args), use % ("g(%s)" % args)), "%s g{}; op_mark(1); %s %s" % (s, use % ("g(%s)" % args), use % ("g(%s)" % args)), PARAMS, "%s of a stateless function of %d arguments" % (ad, n), "none", by_value=True))
    for an, ad in ads:
        for rt in ("void", "int"):
            use = "g(p0, p1); g(p1, 4);" if rt == "void" else "w::res(0, g(p0, p1)); w::res(1, g(p1, 4));"
            ws.append(Pair("%s_ptr_%s" % (an, rt), "auto g = %s(&fnptr<%s>); %s" % (ad, rt, use), "auto g = &fnptr<%s>; %s" % (rt, use), PARAMS, "%s of a function pointer" % ad, "none", by_value=True))
            use = use.replace("g(", "h(")
            ws.append(Pair("%s_twice_%s" % (an, rt), "auto h = %s(%s(w::StatefulFun<%s, 1>{ p1 })); %s" % (ad, ad, rt, use), "w::StatefulFun<%s, 1> h{ p1 }; %s" % (rt, use), PARAMS, "%s twice" % ad, "none", by_value=True))
        ws.append(Pair("%s_own" % an, "auto g = %s(w::Owning<1, int>{ v0 }); op_mark(0); op_res(0, g(p0)); op_res(0, g(p0));" % ad, "w::Owning<1, int> g{ v0 }; op_mark(0); int x = p0, y = p0; op_res(0, g(x)); op_res(0, g(y));", PARAMS, "%s of a function that owns a value" % ad, "none", by_value=True))
    ws.append(Pair("reg_round", "auto g = pigro::unregularized_void(pigro::regularized_void(w::StatefulFun<void, 1>{ p1 })); g(p0); g(p1);", "w::StatefulFun<void, 1> g{ p1 }; g(p0); g(p1);", PARAMS, "there and back", "none", by_value=True))
    ws.append(Pair("reg_both", "auto g = pigro::regularized_void(Both{}); g(p0); op_res(0, g(p0, p1)); g(); auto h = pigro::unregularized_void(Both{}); h(p0); op_res(0, h(p0, p1)); h();", "op_mark(5); op_mark(6); op_res(0, op_fun(1)); op_mark(7); op_mark(5); op_mark(6); op_res(0, op_fun(1)); op_mark(7);", PARAMS, "the result type depends on the call", "none", by_value=True))
    tpre = "using rv = pigro::regular_void;\ntemplate<typename R> struct Fn { R operator()(auto...) const; };\ntemplate<typename F> F give();\nstruct Mix { void operator()(int) const; int operator()(int, int) const; rv operator()() const; };\ntemplate<typename R> struct St { int x; R operator()(auto...); };\n"
    for f in ("Fn", "St"):
        for n in arities(range(0, 4), 8):
            args = ", ".join(["1", "2.5", "'c'", "nullptr"][k % 4] for k in range(n))
            for rt in ("void", "int", "double", "rv", "char *", "std::optional<int>", "Fn<int>"):
                up = "rv" if rt == "void" else rt
                dn = "void" if rt == "rv" else rt
                a("std::is_same_v<decltype(pigro::regularized_void(give<%s<%s>>())(%s)), %s> && std::is_same_v<decltype(pigro::unregularized_void(give<%s<%s>>())(%s)), %s>" % (f, rt, args, up, f, rt, args, dn), "results of the adapters of %s<%s> for %d arguments" % (f, rt, n))
    a("std::is_same_v<decltype(pigro::unregularized_void(pigro::regularized_void(give<Fn<void>>()))(1)), void> && std::is_same_v<decltype(pigro::regularized_void(pigro::unregularized_void(give<Fn<rv>>()))(1)), rv>", "the adapters are each other's inverse")
    a("std::is_same_v<decltype(pigro::regularized_void(give<Mix>())(1)), rv> && std::is_same_v<decltype(pigro::regularized_void(give<Mix>())(1, 2)), int> && std::is_same_v<decltype(pigro::unregularized_void(give<Mix>())()), void> && std::is_same_v<decltype(pigro::unregularized_void(give<Mix>())(1, 2)), int>", "the result type depends on the call")
    decide_static(rep, [StaticUnit("adapters", ["regular_void", "<type_traits>", "<optional>"], items, tpre)])
    ws = may_throw(ws, lambda n: n.endswith(("_0", "_1", "_own", "_int", "_void")) or n.startswith("reg_ro"))
    decide_witnesses(rep, [WitnessUnit("adapters", ["regular_void"], ws, VA_PRE)], chunk=12)


# ------------------------------------------------------------------ C24 concepts

CO_PRE = """
#include <array>
#include <string>
#include <functional>
#include <memory>
namespace q = pigro::concepts;
template<typename T> using id = std::type_identity_t<T>;
struct Empty {}; struct Final final {}; struct One { int x; }; struct Virt { virtual void f(); }; struct VBase : virtual Empty {}; struct Bits { int : 0; }; struct NoDef { NoDef() = delete; NoDef(int); };
struct PrivD { private: ~PrivD(); }; struct DerE : Empty {}; struct DerO : One {}; struct Abstract { virtual void f() = 0; }; struct EmptyMember { Empty e; }; struct Dtor { ~Dtor(); }; struct Inc;
struct Static { static int x; void f(); using t = int; }; struct Fnl2 final : Empty {}; struct ExplC { explicit ExplC(const ExplC &); };
union Un { int a; }; union UnE {}; enum En { e0 }; enum class Ec { e1 };
template<typename T> struct TE {};
// user types with a tuple interface, complete or not
struct U0 {}; struct U1 {}; struct U2 {}; struct UNoElem {}; struct UHole {}; struct UNoSize {}; struct UPriv {}; struct UFew {};
template<> struct std::tuple_size<U0> : std::integral_constant<std::size_t, 0> {};
template<> struct std::tuple_size<U1> : std::integral_constant<std::size_t, 1> {};
template<> struct std::tuple_element<0, U1> { using type = int; };
template<> struct std::tuple_size<U2> : std::integral_constant<std::size_t, 2> {};
template<std::size_t I> struct std::tuple_element<I, U2> { using type = char; };
template<> struct std::tuple_size<UNoElem> : std::integral_constant<std::size_t, 1> {};
template<> struct std::tuple_size<UHole> : std::integral_constant<std::size_t, 3> {};
template<> struct std::tuple_element<0, UHole> { using type = int; };
template<> struct std::tuple_element<2, UHole> { using type = int; };
template<> struct std::tuple_size<UFew> : std::integral_constant<std::size_t, 5> {};
template<> struct std::tuple_element<0, UFew> { using type = int; };
template<> struct std::tuple_element<1, UFew> { using type = int; };
template<> struct std::tuple_element<2, UFew> { using type = int; };
template<> struct std::tuple_element<3, UFew> { using type = int; };
template<> struct std::tuple_element<0, UNoSize> { using type = int; };
template<> struct std::tuple_size<UPriv> {};
// results and callables
struct Res { int value; bool is_changed; }; struct ResRef { const int &value; bool is_changed; }; struct ResT { int value; std::true_type is_changed; }; struct ResV { int value; }; struct ResC { bool is_changed; }; struct ResM { int value(); bool is_changed; };
struct ResP { private: int value; bool is_changed; }; struct ResS { static int value; static bool is_changed; };
struct ResK { const int value; const bool is_changed; }; struct ResA { int value[3]; bool is_changed; }; struct ResB { int value : 3; bool is_changed : 1; };
struct LzK { ResK operator()(std::nullptr_t) const; }; struct LzCR { const Res operator()(std::nullptr_t) const; }; struct LzRC { const Res &operator()(std::nullptr_t) const; }; struct LzRR { Res &&operator()(std::nullptr_t) const; }; struct LzA { ResA operator()(std::nullptr_t); }; struct LzBf { ResB operator()(std::nullptr_t); };
struct Lz { Res operator()(std::nullptr_t) const; }; struct LzM { Res operator()(std::nullptr_t); }; struct LzP { ResRef operator()(void *); }; struct LzG { ResT operator()(auto); }; struct LzV { ResV operator()(std::nullptr_t); }; struct LzC { ResC operator()(std::nullptr_t); };
struct LzI { Res operator()(int); }; struct Lz0 { Res operator()(); }; struct Lz2 { Res operator()(std::nullptr_t, int); }; struct LzD { Res operator()(std::nullptr_t, int = 0); }; struct LzN { void operator()(std::nullptr_t); }; struct LzB { Res operator()(std::nullptr_t); int operator()(); };
struct LzBv { Res operator()(std::nullptr_t) const; void operator()() const; }; struct LzVar { Res operator()(auto...); }; struct Nil { int operator()(); }; struct NilP { int operator()(std::nullptr_t); int operator()(); }; struct LzPriv { private: Res operator()(std::nullptr_t); };
struct LzE { Res operator()(std::nullptr_t) &; int operator()(int); }; struct LzR { Res &operator()(std::nullptr_t); }; struct LzPr { ResP operator()(std::nullptr_t); }; struct LzSt { ResS operator()(std::nullptr_t) const; };
struct DerT : pigro::compressed_tuple<int> {}; struct DerSt : std::tuple<int> {};
template<typename... T> struct LikeTuple {};
using LazyI = decltype(pigro::lazy(std::declval<int (*)()>())); using LazyV = decltype(pigro::lazy([] {}));
"""


def c24(rep, tier):
    items = []
    T, F = "true", "false"

    def a(e, d=""):
        items.append(Static(e, d or e))
    cvr = ["", "const", "&", "const &", "&&", "const &&", "volatile", "const volatile &"]

    def q(t, c):
        return "id<%s> %s" % (t, c) if c else t
    # empty
    emp = {"Empty": 1, "Final": 0, "One": 0, "Virt": 0, "VBase": 0, "NoDef": 1, "DerE": 1, "DerO": 0, "Abstract": 0, "EmptyMember": 0, "Dtor": 1, "Static": 1, "Fnl2": 0, "ExplC": 1,
           "Un": 0, "UnE": 0, "En": 0, "Ec": 0, "int": 0, "double": 0, "bool": 0, "std::nullptr_t": 0, "int *": 0, "Empty *": 0, "std::tuple<>": 1, "std::true_type": 1, "std::string": 0, "TE<int>": 1, "std::tuple<int>": 0,
           "std::allocator<int>": 1, "pigro::overload<>": 1, "pigro::compressed_tuple<>": 1, "pigro::compressed_tuple<Empty>": 1, "pigro::compressed_tuple<int>": 0, "pigro::regular_void": 1, "std::array<int, 2>": 0,
           "int Empty::*": 0, "void (Empty::*)()": 0, "void (*)()": 0, "PrivD": 1, "std::plus<int>": 1}
    for t, v in emp.items():
        for c in cvr:
            a("q::empty<%s> == %s" % (q(t, c), T if v else F), "empty<%s>" % q(t, c))
    for t in ("void", "const void", "void()", "int(int) const", "int[3]", "Empty[2]", "Empty[]", "Empty(&)[2]", "void (&)()"):
        a("!q::empty<%s>" % t, "empty<%s>" % t)
    a("q::empty<decltype([] {})> && q::empty<decltype([](auto...) {})> && !q::empty<decltype([x = 1] {})>", "closures")
    # tuple_like
    tup = {"std::tuple<>": 1, "std::tuple<int>": 1, "std::tuple<int &, const char, Empty>": 1, "std::pair<int, Inc *>": 1, "std::array<int, 0>": 1, "std::array<int, 1>": 1, "std::array<Empty, 7>": 1,
           "pigro::compressed_tuple<>": 1, "pigro::compressed_tuple<int>": 1, "pigro::compressed_tuple<Empty, int &, double>": 1, "U1": 1, "U2": 1, "U0": 1, "UNoElem": 0, "UHole": 0, "UNoSize": 0, "UFew": 0, "UPriv": 0,
           "Empty": 0, "One": 0, "int": 0, "int *": 0, "std::nullptr_t": 0, "std::string": 0, "Un": 0, "En": 0, "Final": 0, "Virt": 0, "Abstract": 0, "Inc": 0, "LikeTuple<int>": 0, "DerSt": 0, "DerT": 0, "LazyI": 0, "std::tuple<int> *": 0,
           "std::unique_ptr<int>": 0, "pigro::overload<Empty>": 0, "int Empty::*": 0, "std::function<void()>": 0, "pigro::regular_void": 0}
    for t, v in tup.items():
        for c in cvr:
            if v and "volatile" in c:
                continue
            a("q::tuple_like<%s> == %s" % (q(t, c), T if v else F), "tuple_like<%s>" % q(t, c))
    for n in arities(range(1, 12), 40):
        a("q::tuple_like<std::tuple<%s>> && q::tuple_like<std::array<int, %d> &> && q::tuple_like<pigro::compressed_tuple<%s>>" % (", ".join(["int"] * n), n, ", ".join(["char"] * n)), "tuples of %d elements" % n)
    for t in ("void", "void()", "int[3]", "int(&)[2]", "void (&)()", "std::tuple<int>[2]", "int(int) const", "std::tuple<int> &(int)"):
        a("!q::tuple_like<%s>" % t, "tuple_like<%s>" % t)
    # lazy functions: (lazy_function, lazy_function_unwrapped)
    lf = {"Lz": (1, 0), "LzK": (1, 0), "LzCR": (1, 0), "LzRC": (1, 0), "LzRR": (1, 0), "LzA": (1, 0), "LzBf": (1, 0), "LzM": (1, 0), "LzP": (1, 0), "LzG": (1, 0), "LzV": (0, 0), "LzC": (0, 0), "LzI": (0, 0), "Lz0": (0, 0), "Lz2": (0, 0), "LzD": (1, 0), "LzN": (0, 0), "LzB": (1, 1), "LzBv": (1, 1), "LzVar": (1, 1),
          "Nil": (0, 0), "NilP": (0, 0), "LzPriv": (0, 0), "LzE": (1, 0), "LzR": (1, 0), "LzPr": (0, 0), "LzSt": (1, 0), "LazyI": (1, 1), "LazyV": (1, 1), "Res (*)(std::nullptr_t)": (1, 0), "Res (*)()": (0, 0), "Res (*)(std::nullptr_t, int)": (0, 0), "Res (*)(int *)": (1, 0),
          "std::function<Res(std::nullptr_t)>": (1, 0), "std::function<int()>": (0, 0), "int": (0, 0), "Empty": (0, 0), "void *": (0, 0), "std::nullptr_t": (0, 0), "std::tuple<int>": (0, 0), "En": (0, 0), "Un": (0, 0), "Final": (0, 0), "Abstract": (0, 0), "std::string": (0, 0),
          "Res": (0, 0), "std::true_type": (0, 0), "int Empty::*": (0, 0), "pigro::compressed_tuple<int>": (0, 0), "pigro::compressed_tuple<>": (0, 0), "pigro::overload<>": (0, 0), "PrivD": (0, 0)}
    for t, (x, y) in lf.items():
        a("q::lazy_function<%s> == %s && q::lazy_function_unwrapped<%s> == %s" % (t, T if x else F, t, T if y else F), "lazy_function<%s>" % t)
        a("q::lazy_function<id<%s> &> == %s && q::lazy_function_unwrapped<id<%s> &> == %s" % (t, T if x else F, t, T if y else F), "lazy_function<%s &>" % t)
    a("q::lazy_function<const Lz> && q::lazy_function<const Lz &> && !q::lazy_function<const LzM> && !q::lazy_function<const LzM &> && q::lazy_function_unwrapped<const LzBv> && !q::lazy_function_unwrapped<const LzB &>", "const callables")
    for t in ("void", "void()", "int[3]", "int(int) const", "Lz[2]"):
        a("!q::lazy_function<%s> && !q::lazy_function_unwrapped<%s>" % (t, t), "lazy_function<%s>" % t)
    a("q::lazy_function<Res(std::nullptr_t)> && !q::lazy_function<int(std::nullptr_t)>", "functions")
    # compressed tuples
    ct = {"pigro::compressed_tuple<>": 1, "pigro::compressed_tuple<int>": 1, "pigro::compressed_tuple<Empty, int &>": 1, "pigro::compressed_tuple<pigro::compressed_tuple<int>>": 1, "DerT": 0, "std::tuple<int>": 0, "std::tuple<pigro::compressed_tuple<int>>": 0,
          "int": 0, "Empty": 0, "std::pair<int, int>": 0, "pigro::compressed_tuple<int> *": 0, "pigro::overload<Empty>": 0, "Abstract": 0, "Inc": 0, "Un": 0, "std::nullptr_t": 0, "LazyI": 0}
    for t, v in ct.items():
        for c in cvr:
            a("q::compressed_tuple<%s> == %s" % (q(t, c), T if v else F), "compressed_tuple<%s>" % q(t, c))
    for t in ("void", "void()", "int[3]", "pigro::compressed_tuple<int>[2]", "pigro::compressed_tuple<int>()"):
        a("!q::compressed_tuple<%s>" % t, "compressed_tuple<%s>" % t)
    for n in arities(range(0, 9), 40):
        a("q::compressed_tuple<pigro::compressed_tuple<%s>> && !q::compressed_tuple<std::tuple<%s>>" % (", ".join(["int"] * n), ", ".join(["int"] * n)), "compressed tuples of %d elements" % n)
    decide_static(rep, [StaticUnit("concepts", ["concepts", "lazy", "compressed_tuple", "overload", "regular_void", "<tuple>", "<utility>", "<type_traits>"], items, CO_PRE)], 100)


# ------------------------------------------------------------------ C25 empty objects

EO_PRE = """
// 1xx: constructors other than copying, 2xx: copying, 3xx: destruction, 4xx: the call operator
template<int k> struct A0 { A0() { op_mark(100); } A0(const A0 &) { op_mark(200); } ~A0() { op_mark(300); } int operator()() const { op_mark(400); return k; } };
struct A1 { A1() = delete; explicit A1(int) { op_mark(101); } A1(const A1 &) { op_mark(200); } ~A1() { op_mark(300); } int operator()() const { op_mark(400); return 1; } };
struct A2 { A2(int, int) { op_mark(101); } A2(const A2 &) { op_mark(200); } A2(A2 &&) { op_mark(200); } int operator()() const { op_mark(400); return 2; } };
struct A3 { explicit A3(void *) { op_mark(101); } ~A3() { op_mark(300); } int operator()() const { op_mark(400); return 3; } };
struct A4 { int operator()() const { op_mark(400); return 4; } };
struct A5 : A4 { A5(const A4 &) { op_mark(101); } A5(const A5 &) = default; };
struct A6 { A6(const A6 &) { op_mark(200); } template<typename T> A6(T &&) { op_mark(101); } ~A6() { op_mark(300); } int operator()() const { op_mark(400); return 6; } };
struct A7 : A1 { A7() = delete; void operator&() const { op_mark(102); } static void *operator new(std::size_t n) { op_mark(103); return ::operator new(n); } };
struct A8 { protected: A8() { op_mark(100); } public: A8(const A8 &) { op_mark(200); } ~A8() { op_mark(300); } int operator()() const { op_mark(400); return 8; } operator int() const { op_mark(104); return 1; } };
struct A9 { A9() { op_mark(100); } int operator()() const { op_mark(400); return 9; } };
struct Aa : A0<1>, A1 { Aa() = delete; int operator()() const { op_mark(400); return 11; } };
using Lam = decltype([] { op_mark(400); return 12; });
using LamG = decltype([](auto...) { op_mark(400); return 13; });
"""


def judge_empty(r):
    out = generic(r)
    if r.kind != "return":
        out.append(("stop", "the program is ended or does not end (%s)" % r.kind, None))
    n = {}
    for e in r.events:
        if e.name != "op_mark":
            if not e.name.startswith("op_"):
                out.append(("alien", "call of %s" % e.name, e.pos))
                return out
            continue
        k = e.args[0][1] // 100 if e.args[0][0] == "c" else 9
        n[k] = n.get(k, 0) + 1
        if k == 1:
            out.append(("code", "a constructor or another member of the class runs (%s)" % e.args[0][1], e.pos))
    if n.get(4, 0) != 1:
        out.append(("code", "the call operator runs %d times instead of once" % n.get(4, 0), None))
    # what is destroyed is what was copied, or the result alone
    if n.get(3, 0) and n.get(2, 0) and n[3] != n[2]:
        out.append(("code", "%d copies are made, but %d objects destroyed" % (n[2], n[3]), None))
    return out


def c25(rep, tier):
    ts = ["A0<0>", "A0<1>", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8", "A9", "Aa", "Lam", "LamG"]
    ws = []
    for k, t in enumerate(ts):
        if t == "Aa":
            continue
        ws.append(Witness("w_eo_%d" % k, 'extern "C" W_FLATTEN void w_eo_%d() { { auto x = pigro::empty_object<%s>::get(); static_cast<void>(x()); } }' % (k, t), judge_empty, "empty_object<%s>::get()" % t))
        ws.append(Witness("w_eot_%d" % k, 'extern "C" W_FLATTEN void w_eot_%d() { static_cast<void>(pigro::empty_object<%s>::get()()); }' % (k, t), judge_empty, "a temporary empty_object<%s>::get()" % t))
        ws.append(Witness("w_eol_%d" % k, 'extern "C" W_FLATTEN void w_eol_%d() { for (int i = 0; i < 2; ++i) { auto x = pigro::empty_object<%s>::get(); if (i) static_cast<void>(x()); } }' % (k, t), judge_empty, "empty_object<%s>::get() twice" % t))
    decide_witnesses(rep, [WitnessUnit("empty_object", ["empty_object"], ws, EO_PRE)], chunk=6)
    items = []
    for t in ts:
        items.append(Static("std::is_same_v<decltype(pigro::empty_object<%s>::get()), %s>" % (t, t), "empty_object<%s>::get() gives a %s" % (t, t)))
    for t in ("std::true_type", "std::tuple<>", "std::plus<>", "std::allocator<int>"):
        items.append(Static("std::is_same_v<decltype(pigro::empty_object<%s>::get()), %s>" % (t, t), "empty_object<%s>::get() gives a %s" % (t, t)))
    decide_static(rep, [StaticUnit("empty_object", ["empty_object", "<type_traits>", "<tuple>", "<functional>", "<memory>", W], items, EO_PRE)])


# ------------------------------------------------------------------ C26 uncaptured

UC_PRE = """
struct Bump { int k; int operator()(auto &&...xs) const { op_mark(k); (bump(xs), ...); w::Show<3>{}(W_FWD(xs)...); return op_fun(1); } static void bump(int &x) { ++x; } static void bump(const int &) {} static void bump(auto &&) {} };
struct ToRef { int &operator()(int &x, auto &&...) const { return x; } };
struct LastRef { template<typename... T> auto operator()(T &&...xs) const -> decltype(auto) { return (static_cast<T &&>(xs), ...); } };
struct Sel { void operator()(int &x, w::E<1>) const { op_note(1, 0); op_ref(2, &x); } void operator()(const int &x, w::E<1>) const { op_note(1, 1); op_ref(2, &x); } void operator()(int &&x, w::E<1>) const { op_note(1, 2); } };
struct Last { void operator()(auto &&a, int &b) const { op_note(1, 0); op_note(2, b); b += 2; } void operator()(auto &&a, const int &b) const { op_note(1, 1); op_note(2, b); } };
struct St { int n; void operator()(auto &&...xs) { op_note(1, n++); w::Show<3>{}(W_FWD(xs)...); } void operator()(auto &&...xs) const { op_note(2, n); w::Show<3>{}(W_FWD(xs)...); } };
"""


def c26(rep, tier):
    ws, items = [], []

    def a(e, d=""):
        items.append(Static(e, d or e))
    # values: (expression, stored declaration in the reference)
    vals = [("p0", "int %s = p0;", "int"), ("E<1>{}", None, "E<1>"), ("v0", "w::V %s{ v0 };", "w::V"), ("2.5", "double %s = 2.5;", "double"), ("E<2>{}", None, "E<2>"), ("p1", "int %s = p1;", "int"), ("&i0", "int *%s = &i0;", "int *"), ("E<1>{}", None, "E<1>")]
    for x in ODDL:
        vals.append(("n" + x if x in ODDS else CT[x][1].format(k=3), CT[x][0] + " %s(" + ("n" + x if x in ODDS else CT[x][1].format(k=3)) + ");", CT[x][0]))
    odd = list(range(8, 8 + len(ODDL)))
    call = ["i0", "v1", "std::move(m0)", "7", "std::as_const(v1)", "p1"]
    shapes = [[k] for k in odd] + [[k, 0] for k in odd] + [[1, k, k] for k in odd] + [[]] + [[k] for k in range(4)] + [[0, 5], [0, 0], [1, 0], [0, 1], [1, 4], [1, 7], [2, 2], [0, 2, 3], [1, 4, 7], [0, 1, 5], [1, 0, 4], [5, 4, 0], [2, 1, 0], [0, 5, 6, 0], [1, 0, 7, 5], [0, 1, 2, 3, 4, 5, 6, 7]]
    for n in arities((5, 6), 10):
        shapes += [[0, 5] * (n // 2) + [3] * (n % 2), [1, 0] * (n // 2) + [4] * (n % 2), [1] * n, [0] * n]
    if tier != "basic":
        shapes += [list(p) for p in itertools.product(range(4), repeat=3)]
    fs = [("w::Show<5, int>", "{}", "int", 0), ("St", "{ p1 }", "void", 1), ("Bump", "{ 4 }", "int", 0)]
    seen = set()
    for s in shapes:
        if tuple(s) in seen:
            continue
        seen.add(tuple(s))
        pack = "w::" + ", w::".join([]) if False else ", ".join(("w::" if vals[k][0].startswith("E<") else "") + vals[k][0] for k in s)
        decl = " ".join(vals[k][1] % ("x%d" % j) for j, k in enumerate(s) if vals[k][1])
        for fi, (f, init, rt, _) in enumerate(fs):
            for n in (1,) if len(s) > 3 or any(k > 7 for k in s) else (0, 1, 3):
                for const in (0, 1):
                    if const and (n == 3 or len(s) > 4):
                        continue
                    if fi == 2 and const:
                        continue
                    args = call[:n]
                    use = "%s;" if rt == "void" else "op_res(0, %s);"
                    obj = "std::as_const(g)" if const else "g"
                    lib = use % ("%s(%s)" % (obj, ", ".join(args)))
                    tail = [("%s" if not const else "std::as_const(%s)") % ("x%d" % j) if vals[k][1] else "w::" + vals[k][0] for j, k in enumerate(s)]
                    want = use % ("%s(%s)" % ("std::as_const(f)" if const else "f", ", ".join(args + tail)))
                    twice = 2 if "std::move(m0)" not in args else 1
                    pre = "op_ref(0, &i0); op_ref(1, &v1); op_ref(2, &m0); " + " ".join("%s n%s(%s);" % (ODDS[x], x, CT[x][1].format(k=3)) for x in ODDL if x in ODDS and 8 + ODDL.index(x) in s)
                    ws.append(Pair("uc_%s_%d_%d%s" % ("".join(chr(97 + k) for k in s), fi, n, "c" if const else ""), "%s auto g = pigro::uncaptured(%s) >> %s%s; op_mark(1); %s" % (pre, pack, f, init, lib * twice),
                                   "%s %s %s f%s; op_mark(1); %s" % (pre, decl, f, init, want * twice), PARAMS, "uncaptured(%s) >> %s, called%s with %s" % (pack, f, " as const" if const else "", args), "after" if fi == 0 else "none"))
    # two copies, and chains of single values
    ws.append(Pair("uc_copy", "auto g = pigro::uncaptured(p0, w::E<1>{}, p1) >> Bump{ 4 }; op_res(0, g()); auto h = g; op_res(0, g()); op_res(0, h()); op_res(0, h()); op_res(0, g());",
                   "int a = p0, b = p1; Bump f{ 4 }; op_res(0, f(a, w::E<1>{}, b)); int c = a, d = b; op_res(0, f(a, w::E<1>{}, b)); op_res(0, f(c, w::E<1>{}, d)); op_res(0, f(c, w::E<1>{}, d)); op_res(0, f(a, w::E<1>{}, b));", PARAMS, "copies have values of their own", "none"))
    ws.append(Pair("uc_chain", "auto g = pigro::uncaptured(p0) >> (pigro::uncaptured(p1) >> (pigro::uncaptured(w::E<1>{}) >> Bump{ 4 })); op_res(0, g(i0)); op_res(0, g(i0));", "int a = p0, b = p1; Bump f{ 4 }; op_res(0, f(i0, a, b, w::E<1>{})); op_res(0, f(i0, a, b, w::E<1>{}));", PARAMS, "single values around each other", "none"))
    ws.append(Pair("uc_chain2", "auto g = pigro::uncaptured(p0, 3) >> (pigro::uncaptured(p1, p0) >> Bump{ 4 }); op_res(0, g(i0)); op_res(0, g(i0));", "int a = p0, b = 3, c = p1, d = p0; Bump f{ 4 }; op_res(0, f(i0, a, b, c, d)); op_res(0, f(i0, a, b, c, d));", PARAMS, "several values around each other", "none"))
    ws.append(Pair("uc_ref", "auto g = pigro::uncaptured(p0) >> ToRef{}; op_ref(0, &i0); op_ref(1, &g(i0)); g(i0) = 5; op_note(2, i0);", "op_ref(0, &i0); op_ref(1, &i0); i0 = 5; op_note(2, i0);", PARAMS, "a reference result stays a reference", "none"))
    ws.append(Pair("uc_sel", "auto g = pigro::uncaptured(w::E<1>{}) >> Sel{}; op_ref(0, &i0); g(i0); g(std::as_const(i0)); g(std::move(i0));", "Sel g; op_ref(0, &i0); w::E<1> e; g(i0, e); g(std::as_const(i0), e); g(std::move(i0), e);", PARAMS, "the call's arguments keep their category", "none"))
    ws.append(Pair("uc_last", "auto g = pigro::uncaptured(p0) >> Last{}; g(1); std::as_const(g)(1); std::move(g)(2); g(3);", "int a = p0; Last f; f(1, a); f(1, std::as_const(a)); f(2, a); f(3, a);", PARAMS, "the stored value has the constness of the callable", "none"))
    ws.append(Pair("uc_lval", "int a = p0; auto g = pigro::uncaptured(a) >> Bump{ 4 }; a = 77; op_res(0, g()); op_note(9, a);", "int a = p0; int x = a; Bump f{ 4 }; a = 77; op_res(0, f(x)); op_note(9, a);", PARAMS, "lvalues are copied, not referred to", "none"))
    ws = may_throw(ws, lambda n: n in ("uc_copy", "uc_chain", "uc_chain2", "uc_sel", "uc_last", "uc_lval") or n.startswith(("uc_a_", "uc_ba", "uc_c_", "uc_cc", "uc__")))
    decide_witnesses(rep, [WitnessUnit("uncaptured", ["uncapture"], ws, UC_PRE)], chunk=16)
    pre = """
struct A1 { int operator()(int, double &) const; }; struct A2 { short operator()(int &, E<0>, double &); char operator()(int &, E<0>, const double &) const; }; struct A3 { template<typename... T> std::tuple<T &&...> operator()(T &&...) const; };
struct A4 { void operator()(E<0>, E<1>, E<0>) const; }; struct A5 { int &operator()(int &) const; int &&operator()(int &&, int &) const; }; struct A6 { int operator()(long, int, int); };
template<typename F, typename... T> using uc = decltype(pigro::uncaptured(std::declval<T>()...) >> std::declval<F>());
template<typename F, typename... A> constexpr bool can = requires(F &&f) { static_cast<F &&>(f)(std::declval<A>()...); };
template<typename F, typename... A> using ret = decltype(std::declval<F>()(std::declval<A>()...));
"""
    pre = "template<int> struct E {};\n" + pre
    a("can<uc<A1, double> &, int> && can<uc<A1, double>, int> && !can<const uc<A1, double> &, int>", "a const callable gives const values")
    a("!can<uc<A1, double> &> && !can<uc<A1, double> &, int, int> && !can<uc<A1, double> &, void *> && !can<uc<A1, int> &, int> && !can<uc<A1, double> &, int, double &>", "wrong calls are rejected without a hard error")
    a("std::is_same_v<ret<uc<A1, double> &, int>, int> && std::is_same_v<ret<uc<A2, E<0>, double> &, int &>, short> && std::is_same_v<ret<const uc<A2, E<0>, double> &, int &>, char>")
    a("!can<uc<A2, E<0>, double> &, int> && !can<uc<A2, double, E<0>> &, int &> && !can<uc<A2, E<0>> &, int &>", "order matters")
    a("can<uc<A4, E<0>, E<1>, E<0>> &> && !can<uc<A4, E<1>, E<0>, E<0>> &> && can<uc<A4, E<1>, E<0>> &, E<0>> && can<uc<A4, E<0>> &, E<0>, E<1>> && !can<uc<A4, E<0>, E<1>, E<0>> &, E<0>>")
    a("std::is_same_v<ret<uc<A5, int> &>, int &> && std::is_same_v<ret<uc<A5, int> &, int>, int &&> && !can<const uc<A5, int> &>", "results that are references")
    a("can<uc<A6, int, int> &, long> && !can<const uc<A6, int, int> &, long> && can<uc<A6, int> &, long, int> && can<uc<A6, long, int, int> &>", "callables that are not const")
    tys = ["int", "double", "char *", "std::pair<int, int>"]
    for n in arities(range(0, 5), 9):
        for m in range(0, 4):
            v = ["E<%d>" % k if (k + m) % 3 == 2 else tys[(k + m) % 4] for k in range(n)]
            c = ["int &", "const double &", "char &&", "std::unique_ptr<int> &&"][:m]
            for q, o in (("&", "%s &"), ("const &", "%s const &")):
                want = ", ".join(c + [("%s &&" % x if x[0] == "E" else o % x if q == "const &" else "%s &" % x) for x in v])
                a("std::is_same_v<ret<uc<A3%s> %s%s>, std::tuple<%s>>" % ("".join(", " + x for x in v), q, "".join(", " + x for x in c), want), "what f gets for %d values and %d arguments (%s)" % (n, m, q))
    decide_static(rep, [StaticUnit("uncaptured", ["uncapture", "<type_traits>", "<tuple>", "<memory>"], items, pre)])


# ------------------------------------------------------------------ C27 headers

USES = {
    "apply": "int use() { return pigro::apply([](int a, int b) { return a + b; }, std::pair{ 1, 2 }); }",
    "bind_tuple": "int use() { int x = 3; auto f = pigro::bind_back([](int a, int b) { return a + b; }, x); using namespace pigro; auto g = pigro::compressed_tuple{ 1 } >> [](int a, int b) { return a - b; }; auto h = pigro::compressed_tuple{ 1 } << [](int a, int b) { return a - b; }; return f(1) + g(2) + h(3); }",
    "compressed_tuple": "int use() { pigro::compressed_tuple t{ 1, 2.5, [] {} }; pigro::compressed_tuple<int, char> d; auto &[a, b] = d; return pigro::get<0>(t) + a + b; }",
    "concepts": "constexpr bool use = pigro::concepts::tuple_like<std::tuple<int>> && !pigro::concepts::tuple_like<int> && !pigro::concepts::lazy_function<int> && !pigro::concepts::lazy_function_unwrapped<int> && !pigro::concepts::empty<int>;",
    "empty_object": "struct E {}; void use() { pigro::empty_object<E>::get(); }",
    "forward_like": "int use(int x) { return pigro::forward_like<const char &>(x) + sizeof(pigro::like_t<int &, char>); }",
    "fwd_capture": "int use(int x) { auto c = pigro::fwd_capture(x); auto d = pigro::fwd_capture(3); return pigro::access(c) + pigro::access(d); }",
    "lazy": "int use(int x) { auto f = pigro::lazy([](int a, int b, int c) { return a + b + c; }, x, [] { return 2; }, pigro::lazy([] { return 1; })); auto v = pigro::lazy([](int) {}, f); v(); auto c = f; return f() + c(); }",
    "overload": "struct A { int operator()(int) const { return 1; } }; struct B { int operator()(char *) const { return 2; } }; int use() { pigro::overload o{ A{}, B{} }; pigro::overload<> e{}; (void)e; return o(1) + o(nullptr); }",
    "pack_algorithms": "int use() { return pigro::enumerate_pack([](auto... i) { return (i.value + ... + 0) + (i.index + ... + 0); }, 1, 2) + pigro::enumerate_n<3>([](auto... i) { return (i.value + ... + 0); }); }",
    "partition": "template<typename T> struct is_int { static constexpr bool value = false; }; template<> struct is_int<int> { static constexpr bool value = true; }; using use = pigro::partition_t<is_int, char, int, double>;",
    "recursive": "struct A { int operator()(auto &self, int n) const { return n ? self(n - 1) : 3; } }; int use() { pigro::recursive r{ A{} }; return r(3); }",
    "regular_void": "bool use() { auto f = pigro::regularized_void([](int) {}); auto g = pigro::unregularized_void([](int) { return pigro::regular_void{}; }); g(1); std::optional<pigro::regular_void> o; o = f(1); return o && *o == pigro::regular_void{}; }",
    "to_tuple": "int use() { std::pair t{ 1, 2 }; return std::get<0>(pigro::to_tuple(t)); }",
    "tuple_algorithms": "bool use() { return pigro::any(std::tuple{ 1, 2 }, [](int x) { return x > 1; }) && pigro::any(pigro::transform(std::tuple{ 1, 2 }, [](int x) { return x > 1; })); }",
    "uncapture": "struct E {}; int use() { auto f = pigro::uncaptured(1, E{}, 2) >> [](int a, int b, E, int c) { return a + b + c; }; auto g = pigro::uncaptured(3) >> [](int a) { return a; }; return f(1) + g(); }",
    "utils": "template<typename...> struct L {}; using use_t = pigro::rebind_container_t<L<int>, L>; int use(const int &x) { return pigro::as_nonconst(x) = FWD(x) + pigro::idx<3>; }",
}
STD = {"to_tuple": "#include <tuple>\n", "apply": "", "tuple_algorithms": ""}


def headers():
    return sorted(f[:-2] for f in os.listdir(os.path.join(REPO, "src", "pigro")) if f.endswith(".h"))


def c27(rep, tier):
    hs = headers()
    jobs = []

    def job(key, desc, text, obj=False, flags=()):
        jobs.append((key, desc, build.Unit(re.sub(r"\W", "_", key), text, list(flags), rtl=False), obj))
    inc = lambda *x: "".join("#include <pigro/%s.h>\n" % h for h in x)
    for h in hs:
        job("alone " + h, "%s.h on its own" % h, inc(h))
        job("strict " + h, "%s.h on its own, in strict C++20" % h, inc(h) + "\n", flags=["-std=c++20"])
        job("twice " + h, "%s.h twice" % h, inc(h, h))
        job("warn " + h, "%s.h on its own, without errors that the language requires" % h, inc(h), flags=["-pedantic-errors"])
        if h in USES:
            job("use " + h, "%s.h alone suffices to use what it offers" % h, inc(h) + USES[h])
            job("use2 " + h, "%s.h after all the others" % h, inc(*[x for x in hs if x != h]) + inc(h, h) + USES[h])
    for x in hs:
        for y in hs:
            if x != y:
                job("pair %s %s" % (x, y), "%s.h before %s.h" % (x, y), inc(x, y))
    job("all", "all headers", inc(*hs))
    job("all reversed", "all headers in reverse order", inc(*reversed(hs)))
    build.compile_units([j[2] for j in jobs])
    for key, desc, u, _ in jobs:
        rep.obligations += 1
        rep.add("translation_units")
        if u.ok:
            rep.discharged += 1
        elif u.rc == 124 or "internal compiler error" in u.stderr:
            rep.undecided.append(("headers", desc, "compiler gave up"))
        else:
            rep.violation("headers: " + key, "not accepted: %s: %s" % (desc, first_error(u.stderr)))
    symbols(rep, hs, inc)
    rep.samples += [{"translation unit": d} for _, d, _, _ in jobs[:3]]


def symbols(rep, hs, inc):
    """Symbol tables of objects that only include, and of two translation units that use everything."""
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="pigro-verif-")
    try:
        cases = [(h, inc(h)) for h in hs] + [("all", inc(*hs))]
        uses = inc(*hs) + "\n".join("namespace use_%s { %s }" % (h, USES[h].replace("constexpr bool use", "constexpr bool used")) for h in hs if h in USES)
        tus = [("tu1", uses.replace("namespace use_", "namespace one_")), ("tu2", uses.replace("namespace use_", "namespace two_"))]

        def one(c):
            name, text = c
            src = os.path.join(d, name + ".cpp")
            open(src, "w").write(text + "\n")
            out = []
            for o in ("-O0", "-O2"):
                obj = os.path.join(d, name + o + ".o")
                # unused internal variables and functions are kept, so that they show
                rc, so, se = build.run([build.CXX] + build.BASE + [o, "-fkeep-static-functions", "-fkeep-inline-functions", "-c", "-o", obj, src] if name not in ("tu1", "tu2") else [build.CXX] + build.BASE + [o, "-c", "-o", obj, src])
                if rc:
                    out.append((o, None, se))
                    continue
                rc, so, se = build.run(["nm", "--defined-only", "--format=posix", obj])
                rc2, sec, se2 = build.run(["objdump", "-t", obj])
                out.append((o, so, sec))
            return out
        with cf.ThreadPoolExecutor(build.JOBS) as ex:
            res = list(ex.map(one, cases + tus))
        for (name, text), rs in zip(cases + tus, res):
            for o, syms, sec in rs:
                rep.obligations += 1
                what = "%s.h" % name if name in hs else {"all": "all headers", "tu1": "a program that uses everything", "tu2": "a second translation unit"}[name]
                if syms is None:
                    rep.violation("symbols: %s %s" % (name, o), "%s does not compile: %s" % (what, first_error(sec)))
                    continue
                bad = None
                for l in syms.splitlines():
                    s, k = l.split()[:2]
                    rep.add("symbols")
                    if re.match(r"_Z[ZN]*K?\d+(one|two)_", s):
                        continue
                    if k in "TDBRGSC":
                        bad = "defines the external symbol %s (%s)" % (s, k)
                    elif s.startswith("_GLOBAL__sub_I") or "static_initialization_and_destruction" in s:
                        bad = "runs code at start-up: %s" % s
                    if bad:
                        break
                for l in sec.splitlines() if not bad else ():
                    m = re.match(r"^[0-9a-f]+ (.{7}) (\.(?:data|bss|tdata|tbss)(?!\.rel\.ro)\S*|\*COM\*)\s+[0-9a-f]+\s+(?:\.hidden )?(\S+)$", l)
                    if m and "d" not in m.group(1) and not m.group(3).startswith("DW.ref.") and not re.match(r"_Z[ZN]*K?\d+(one|two)_", m.group(3)):
                        bad = "has mutable state: %s in %s" % (m.group(3), m.group(2))
                if not bad and re.search(r"^[0-9a-f]+ .{7} \.(init_array|ctors)\b", sec, re.M):
                    bad = "runs code at start-up"
                if bad:
                    rep.violation("symbols: %s %s" % (name, o), "%s %s" % (what, bad))
                else:
                    rep.discharged += 1
        rep.obligations += 1
        rc, so, se = build.run([build.CXX, "-r", "-nostdlib", "-o", os.path.join(d, "both.o"), os.path.join(d, "tu1-O0.o"), os.path.join(d, "tu2-O0.o")])
        if rc:
            rep.violation("symbols: link", "two translation units that use everything do not link: %s" % se[:300])
        else:
            rep.discharged += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
