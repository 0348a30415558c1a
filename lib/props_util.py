"""C09-C26: the building blocks."""
import itertools
from harness import *
from literals import arities

PARAMS = "int p0, int p1, w::V &v0, w::V &v1, w::M &m0, int &i0"
W = '"witness.h"'

# types that generic code tends to treat specially
ODD = ["std::reference_wrapper<int>", "std::reference_wrapper<const w::V>", "std::string", "std::string_view", "std::unique_ptr<int>", "std::shared_ptr<int>", "std::optional<int>", "std::pair<int, int>",
       "std::tuple<int, int>", "std::tuple<>", "std::tuple<int &>", "std::array<int, 2>", "std::nullptr_t", "std::function<int()>", "int (*)(int)", "int OddC::*", "int (OddC::*)(int)", "OddE", "OddU", "OddF", "OddEF", "OddA",
       "std::integral_constant<int, 3>", "std::true_type", "std::vector<int>", "std::initializer_list<int>", "const char *", "std::byte", "pigro::compressed_tuple<int, int>", "pigro::compressed_tuple<>", "std::variant<int, char>",
       "std::any", "std::in_place_t", "std::allocator<int>", "std::exception_ptr"]
ODD_HEAD = ["<any>", "<exception>", "<array>", "<cstddef>", "<functional>", "<initializer_list>", "<memory>", "<optional>", "<string>", "<string_view>", "<tuple>", "<type_traits>", "<utility>", "<variant>", "<vector>"]
ODD_PRE = """
struct OddC { int x; int f(int); }; enum class OddE { a }; union OddU { int x; char c; }; struct OddF final { int x; }; struct OddEF final {}; struct OddA { int a[3]; };
"""


# ------------------------------------------------------------------ C12 overload

OV_PRE = """
template<int k> struct Tag {};
template<int k, typename R = int> struct F { int s; R operator()(Tag<k>) { op_note(k, s++); return w::make<R>(w::from::fun, k); } };
template<int k> struct C { int s; int operator()(Tag<k>) const { op_note(k, s); return op_fun(k); } };
template<int k> struct N { int operator()(Tag<k>) const { op_note(k, -1); return op_fun(k); } };
struct Cats {
    void operator()(w::V &x) const { op_note(1, 0); op_noteo(1, &x); }
    void operator()(const w::V &x) const { op_note(1, 1); op_noteo(1, &x); }
    void operator()(w::V &&x) const { op_note(1, 2); op_noteo(1, &x); }
    void operator()(const w::V &&x) const { op_note(1, 3); op_noteo(1, &x); }
};
struct ByRef { int &operator()(int &x) const { op_note(2, 0); return x; } const int &operator()(const int &x) const { op_note(2, 1); return x; } };
struct Gen { w::V s; template<typename T> void operator()(T &&x, auto &&...xs) requires(sizeof...(xs) > 0) { op_noteo(3, &s); w::see(3, static_cast<T &&>(x)); w::Show<4>{}(W_FWD(xs)...); } };
struct ThisCat {
    void operator()() & { op_note(5, 0); }
    void operator()() const & { op_note(5, 1); }
    void operator()() && { op_note(5, 2); }
    void operator()() const && { op_note(5, 3); }
};
"""

OV_CALLS = ["", "int", "int &", "const int &", "double", "float", "char", "const char *", "std::nullptr_t", "bool", "Un", "Un &", "const Un &",
            "int, int", "int, double", "Un, Un", "E1", "const volatile int &", "int *", "long"]
OV_FNS = [("char", "int", "const"), ("short", "double", "const"), ("int *", "const char *", "const"), ("long *", "std::nullptr_t", "const"),
          ("float *", "int &", ""), ("Un &", "Un &", "const"), ("const Un &", "const Un &", "const"), ("Un &&", "Un &&", "const"),
          ("unsigned", "int, int", "const"), ("void", "", "const"), ("int **", "", ""), ("bool", "E1", "const &"), ("char *", "E1", "&&"),
          ("double *", "auto", "const"), ("float", "auto...", ""), ("void", "bool", "const")]
OV_SPRE = """
struct Un {}; enum class E1 {};
template<typename O, typename... A> struct res { template<typename Q> static auto f(int) -> std::type_identity<decltype(std::declval<Q>()(std::declval<A>()...))>; template<typename> static auto f(...) -> res; using type = decltype(f<O>(0)); };
template<typename P, typename Q, typename... A> constexpr bool one = std::is_same_v<typename res<P, A...>::type, typename res<Q, A...>::type>
   || (std::is_same_v<typename res<P, A...>::type, res<P, A...>> && std::is_same_v<typename res<Q, A...>::type, res<Q, A...>>);
template<typename P, typename Q, typename... A> constexpr bool both = one<P &, Q &, A...> && one<const P &, const Q &, A...> && one<P, Q, A...> && one<const P, const Q, A...>;
"""


def ov_static(tier, msvc):
    """Overload sets against one hand-written class with the same call operators."""
    pre, items = OV_SPRE, []
    for k, (r, a, q) in enumerate(OV_FNS):
        pre += "struct K%d { int s; %s operator()(%s) %s; };\nstruct N%d { %s operator()(%s) %s; };\n" % (k, r, a, q, k, r, a, q)
    n = len(OV_FNS)
    sets = [(i,) for i in range(n)] + [p for p in itertools.combinations(range(n), 2)]
    if tier != "basic":
        sets += list(itertools.combinations(range(n), 3))
    else:
        sets = sets[:n] + sets[n::3]
        sets += [(0, 1, 13), (1, 5, 6), (5, 6, 7), (0, 8, 9), (9, 10, 14), (13, 0, 4), (2, 3, 13), (11, 12, 13)]
    sets += [tuple(range(8)), (0, 1, 2, 3, 8, 9), (15, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9)]
    for j, s in enumerate(sets):
        for fl in ("K", "N", "M") if len(s) > 1 else ("K", "N"):
            names = ["%s%d" % (fl if fl != "M" else "KN"[i % 2], k) for i, k in enumerate(s)]
            if fl == "M" and j % 4:
                continue
            if fl == "N" and j % 2 and tier == "basic":
                continue
            nm = "R%d%s" % (j, fl)
            pre += "struct %s { int s; %s };\n" % (nm, " ".join("%s operator()(%s) %s;" % OV_FNS[k] for k in s))
            pre += "using O%s = pigro::overload<%s>;\n" % (nm, ", ".join(names))
            items.append(Static(" && ".join("both<O%s, %s%s>" % (nm, nm, ", " + c if c else "") for c in OV_CALLS),
                                "overload of %s accepts the same calls with the same results as one class" % [OV_FNS[k][:2] for k in s]))
    items.append(Static("sizeof(pigro::overload<>) == 1 && std::is_empty_v<pigro::overload<>>", "the empty overload"))
    return items, pre


def ov_witness(tier, msvc):
    ws = []
    tag = "m" if msvc else "o"
    for n in arities(range(1, 7) if tier == "basic" else range(1, 11), 12 if tier == "basic" else 20):
        for style in ("F", "C", "FN", "NF", "CN", "FCN", "NNF"):
            if n < len(style):
                continue
            ts = ["%s<%d>" % (style[k % len(style)], k) for k in range(n)]
            inits = ["%s{%s}" % (t, "" if t[0] == "N" else " p0 + %d " % (k * 7)) for k, t in enumerate(ts)]
            order = list(range(n)) + list(reversed(range(n)))
            body = "pigro::overload o{ %s }; op_mark(1); %s" % (", ".join(inits), " ".join("op_res(0, o(Tag<%d>{}));" % k for k in order))
            ref = "%s op_mark(1); %s" % (" ".join("%s x%d{%s};" % (t, k, "" if t[0] == "N" else " p0 + %d " % (k * 7)) for k, t in enumerate(ts)),
                                         " ".join("op_res(0, x%d(Tag<%d>{}));" % (k, k) for k in order))
            ws.append(Pair("%s%d%s" % (tag, n, style), body, ref, PARAMS, "overload of %d callables (%s), each called twice" % (n, style), "none"))
            if n in (2, 3):
                body = "pigro::overload o{ %s }; auto c = o; op_mark(1); %s %s" % (", ".join(inits), " ".join("op_res(0, o(Tag<%d>{}));" % k for k in order), " ".join("op_res(0, c(Tag<%d>{}));" % k for k in order))
                defs = " ".join("%s x%d{%s}; auto y%d = x%d;" % (t, k, "" if t[0] == "N" else " p0 + %d " % (k * 7), k, k) for k, t in enumerate(ts))
                ref = defs + " op_mark(1); %s %s" % (" ".join("op_res(0, x%d(Tag<%d>{}));" % (k, k) for k in order), " ".join("op_res(0, y%d(Tag<%d>{}));" % (k, k) for k in order))
                ws.append(Pair("%sc%d%s" % (tag, n, style), body, ref, PARAMS, "copy of an overload of %d callables (%s)" % (n, style), "none"))
    cats = "op_ref(0, &v0); {0}(v0); {0}(std::as_const(v0)); {0}(std::move(v0)); {0}(std::move(std::as_const(v0)));"
    ws.append(Pair(tag + "cats", "pigro::overload o{ F<1>{ p0 }, Cats{} }; op_mark(0); " + cats.format("o"), "F<1> a{ p0 }; Cats o; op_mark(0); " + cats.format("o"), PARAMS, "arguments keep their category"))
    gen = "op_ref(0, &v0); {0}(v0, std::move(m0), std::as_const(v1), 3); {0}(p0, std::move(v1));"
    ws.append(Pair(tag + "gen", "pigro::overload o{ F<1>{ p0 }, Gen{ v1 }, N<3>{} }; op_mark(0); " + gen.format("o"), "Gen o{ v1 }; op_mark(0); " + gen.format("o"), PARAMS, "generic callables get their arguments as they are", "copy" if not msvc else "none"))
    ref = "op_ref(0, &i0); w::seetype<decltype({0}(i0))>(1); op_ref(1, &{0}(i0)); op_ref(2, &{0}(std::as_const(i0))); {0}(i0) = p1; op_note(3, i0);"
    ws.append(Pair(tag + "ref", "pigro::overload o{ F<1>{ p0 }, ByRef{} }; " + ref.format("o"), "ByRef o; " + ref.format("o"), PARAMS, "results that are references stay references"))
    res = "w::seetype<decltype({0}(Tag<1>{{}}))>(1); op_noteo(1, &static_cast<const w::V &>({0}(Tag<1>{{}})));"
    ws.append(Pair(tag + "obj", "pigro::overload o{ F<1, w::V>{ p0 }, N<2>{} }; op_mark(0); " + res.format("o"), "F<1, w::V> o{ p0 }; op_mark(0); " + res.format("o"), PARAMS, "results of class type are passed on", "all"))
    this = "{0}(); std::as_const({0})(); std::move({0})(); std::move(std::as_const({0}))();"
    ws.append(Pair(tag + "this", "pigro::overload o{ N<1>{}, ThisCat{} }; " + this.format("o"), "ThisCat o; " + this.format("o"), PARAMS, "callables have the category of the overload"))
    if not msvc:
        ws.append(Pair("oown", "pigro::overload o{ w::Owning<1>{ v0 }, F<5>{ p0 } }; op_mark(0); o(p1, std::move(m0)); o(p0);", "w::Owning<1> o{ v0 }; op_mark(0); o(p1, std::move(m0)); o(p0);", PARAMS, "callables are initialised in place", "all"))
        ws.append(Pair("omov", "pigro::overload o{ w::OwningMove<1>{ std::move(m0) }, F<5>{ p0 } }; op_mark(0); o(p1); o(p0);", "w::OwningMove<1> o{ std::move(m0) }; op_mark(0); o(p1); o(p0);", PARAMS, "move-only callables"))
    return ws


MS_HEAD = ["<tuple>", "<type_traits>", "<utility>", "<functional>"]
MS_PRE = "#define _MSC_VER 1930\n#define __declspec(x)\n#include <pigro/overload.h>\n#undef _MSC_VER\n"


def c12(rep, tier):
    items, pre = ov_static(tier, False)
    mitems, mpre = ov_static("basic", True)
    decide_static(rep, [StaticUnit("overload", ["overload", "<type_traits>", "<utility>", "<cstddef>"], items, pre),
                        StaticUnit("overload_msvc", MS_HEAD, [i for i in mitems], MS_PRE + mpre)], 40)
    decide_witnesses(rep, [WitnessUnit("overload", ["overload"], may_throw(ov_witness(tier, False), lambda n: n[:3] in ("o2F", "o3C", "o5F", "oge", "oob", "oow", "oth")), OV_PRE),
                           WitnessUnit("overload_msvc", MS_HEAD, ov_witness("basic", True), MS_PRE + OV_PRE)])


# ------------------------------------------------------------------ C13 recursive

REC_PRE = """
template<typename R = int> struct Rec {
    int s;
    template<typename S> R show(int how, S &&self, const void *me, auto &&...xs) const {
        op_note(1, how); op_note(2, w::cat<S &&>); op_ref(3, &self); op_ref(4, me); op_note(5, s);
        w::Show<7>{}(W_FWD(xs)...);
        return w::make<R>(w::from::fun, 1);
    }
    R operator()(auto &&self, auto &&...xs) & { s += 3; return show(0, W_FWD(self), this, W_FWD(xs)...); }
    R operator()(auto &&self, auto &&...xs) const & { return show(1, W_FWD(self), this, W_FWD(xs)...); }
    R operator()(auto &&self, auto &&...xs) && { s += 5; return show(2, W_FWD(self), this, W_FWD(xs)...); }
    R operator()(auto &&self, auto &&...xs) const && { return show(3, W_FWD(self), this, W_FWD(xs)...); }
};
struct ByRef { int &operator()(auto &&, int &x) const { return x; } };
struct Nest { void operator()(auto &&self, int n, int &x) { op_ref(1, &self); op_note(2, n); if (n > 0) self(n - 1, x); else op_ref(3, &x); } };
struct OwnRec { w::V own; void operator()(auto &self, int n) { op_ref(1, &self); op_noteo(2, &own); if (n > 0) self(n - 1); } };
"""
REC_SPRE = """
struct A1 { int operator()(auto &&, int) const; };
struct A2 { void operator()(auto &, double &); short operator()(const auto &, double &) const; };
struct A3 { template<typename S> auto operator()(S &&, auto...) -> std::type_identity<S>; template<typename S> auto operator()(S &&, auto...) const -> std::type_identity<S>; };
struct A4 { template<typename S> auto operator()(S &&, auto &&...xs) && -> std::tuple<S &&, decltype(xs)...>; };
struct A5 { template<typename S> auto operator()(S &&, auto &&...xs) const & -> std::tuple<S &&, decltype(xs)...>; };
struct A6 { int &operator()(auto &&, int &); const int &operator()(auto &&, const int &); int &&operator()(auto &&, int &&); };
struct A7 { int operator()(auto &&) &; };
template<typename T> using R = pigro::recursive<T>;
template<typename F, typename... A> constexpr bool can = requires(F &&f) { static_cast<F &&>(f)(std::declval<A>()...); };
template<typename F, typename... A> using ret = decltype(std::declval<F>()(std::declval<A>()...));
struct Fn final {};
"""


REC_CE = """
struct CE;
struct CER { const CE *self; int how, n; const int *arg; int s; };
struct CE {
    int s;
    static constexpr const int *first() { return nullptr; }
    static constexpr const int *first(const int &x, auto &&...) { return &x; }
    template<typename S> static constexpr const CE *me(S &s) { return &s; }
    constexpr CER show(auto &self, int how, auto &...xs) const { return { static_cast<const CE *>(&self), how, int(sizeof...(xs)), first(xs...), self.s }; }
    template<typename... X> constexpr CER operator()(pigro::recursive<CE> &self, X &&...xs) & { auto r = show(self, 0, xs...); ++self.s; return r; }
    template<typename... X> constexpr CER operator()(const pigro::recursive<CE> &self, X &&...xs) const & { return show(self, 1, xs...); }
    template<typename... X> constexpr CER operator()(pigro::recursive<CE> &&self, X &&...xs) && { return show(self, 2, xs...); }
    template<typename... X> constexpr CER operator()(const pigro::recursive<CE> &&self, X &&...xs) const && { return show(self, 3, xs...); }
};
"""


def c13(rep, tier):
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))
    for q in ("R<A1> &", "const R<A1> &", "R<A1>", "const R<A1>"):
        a("can<%s, int> && std::is_same_v<ret<%s, int>, int>" % (q, q), "%s can be called with what A1 takes after itself" % q)
        a("!can<%s>" % q)
        a("!can<%s, int, int>" % q)
        a("!can<%s, void *>" % q)
    a("std::is_same_v<ret<R<A2> &, double &>, void> && std::is_same_v<ret<const R<A2> &, double &>, short>")
    a("!can<R<A2> &, double> && !can<const R<A2> &, const double &> && !can<R<A2> &, int &>")
    for n in arities(range(0, 6), 12):
        args = ", int" * n
        a("std::is_same_v<ret<R<A3> &%s>, std::type_identity<R<A3> &>>" % args)
        a("std::is_same_v<ret<const R<A3> &%s>, std::type_identity<const R<A3> &>>" % args)
        a("std::is_same_v<ret<R<A3>%s>, std::type_identity<R<A3>>>" % args)
        a("std::is_same_v<ret<const R<A3>%s>, std::type_identity<const R<A3>>>" % args)
        for t in ("int &", "const int &", "int &&", "const int &&", "w::M &&", "volatile int &"):
            ts = (", " + t) * n
            a("std::is_same_v<ret<R<A4>%s>, std::tuple<R<A4> &&%s>>" % (ts, ts))
            a("std::is_same_v<ret<const R<A5> &%s>, std::tuple<const R<A5> &%s>>" % (ts, ts))
    a("!can<R<A4> &, int> && !can<const R<A4> &, int> && !can<const R<A4>, int> && can<R<A4>, int>")
    a("can<R<A5> &, int> && can<const R<A5> &, int> && can<R<A5>, int>")
    a("std::is_same_v<ret<R<A6> &, int &>, int &> && std::is_same_v<ret<R<A6> &, const int &>, const int &> && std::is_same_v<ret<R<A6> &, int>, int &&>")
    a("!can<const R<A6> &, int &>")
    a("can<R<A7> &> && !can<R<A7>> && !can<const R<A7> &>")
    a("std::is_base_of_v<A1, R<A1>> && std::is_empty_v<R<A1>> && std::is_aggregate_v<R<A1>>")
    a("std::is_same_v<decltype(pigro::recursive{ A1{} }), R<A1>>")
    for n in range(0, 4):
        xs = "".join(", x" for _ in range(n))
        for q, how in (("r", 0), ("std::as_const(r)", 1), ("std::move(r)", 2), ("std::move(std::as_const(r))", 3)):
            a("[] { pigro::recursive<CE> r{ { 4 } }; int x = 7; auto [self, how, n, arg, s] = %s(%s); return self == static_cast<const CE *>(&r) && how == %d && n == %d && (n == 0 || arg == &x) && s == 4; }()" % (q, xs[2:], how, n),
              "in a constant expression: %s called with %d arguments" % (q, n))
    a("[] { pigro::recursive<CE> r{ { 4 } }; int k = 5; r(k); r(k, k); return r.s == 6 && std::as_const(r)(k).s == 6 && r.s == 6; }()", "in a constant expression: state of the callable")
    a("pigro::recursive{ [](auto &&self, int n) -> int { return n < 2 ? n : self(n - 1) + self(n - 2); } }(15) == 610", "in a constant expression: recursion")
    decide_static(rep, [StaticUnit("recursive", ["recursive", "<tuple>", "<utility>", W], items, REC_SPRE + REC_CE)])
    decide_rejects(rep, [Reject("recursive_const", ["recursive"], "struct A {}; pigro::recursive<const A> r;", "struct A {}; pigro::recursive<A> r;", "recursive over a const type"),
                         Reject("recursive_ref", ["recursive"], "struct A {}; template<class T> concept ok = (sizeof(pigro::recursive<T>) > 0); bool b = ok<A &>;", "struct A {}; template<class T> concept ok = (sizeof(pigro::recursive<T>) > 0); bool b = ok<A>;", "recursive over a reference type"),
                         Reject("recursive_rref", ["recursive"], "struct A {}; auto f(pigro::recursive<A &&> *p) { return sizeof(*p); }", "struct A {}; auto f(pigro::recursive<A> *p) { return sizeof(*p); }", "recursive over an rvalue reference type")])
    ws = []
    quals = {"l": ("r", "f", 0), "c": ("std::as_const(r)", "f", 1), "r": ("std::move(r)", "f", 2), "cr": ("std::move(std::as_const(r))", "f", 3)}
    for n in arities(range(0, 5), 9):
        pool = ["p0", "v0", "std::as_const(v1)", "std::move(m0)", "std::move(v1)", "i0", "7", "v0", "p1", "2.5"]
        args = pool[:n]
        for q, (lib, _, how) in quals.items():
            for rt in ("int", "w::V", "void"):
                if rt == "void" and n > 2:
                    continue
                T = "Rec<%s>" % rt
                call = ", ".join(args)
                use = (lambda x: "%s;" % x) if rt == "void" else (lambda x: "w::res(0, %s);" % x)
                selfs = ["static_cast<R &>(f)", "static_cast<const R &>(f)", "static_cast<R &&>(f)", "static_cast<const R &&>(f)"]
                pre = "R f{ p0 };"
                bump = {0: "f.s += 3; ", 2: "f.s += 5; "}.get(how, "")
                refcall = "f.show(%d, %s, &f%s)" % (how, selfs[how].replace("R", "D"), ", " + call if call else "")
                body = "pigro::recursive<%s> r{ { p0 } }; op_ref(0, &r); op_mark(0); %s %s" % (T, use("%s(%s)" % (lib, call)), use("r(%s)" % ", ".join(x for x in args if "move" not in x)))
                a2 = ", ".join(x for x in args if "move" not in x)
                ref = "struct D : %s {}; D f{ { p0 } }; op_ref(0, &f); op_mark(0); %s%s f.s += 3; %s" % (T, bump, use(refcall), use("f.show(0, static_cast<D &>(f), &f%s)" % (", " + a2 if a2 else "")))
                ws.append(Pair("rec_%s%d%s" % (q, n, rt.strip("w:")), body, ref, PARAMS, "recursive called as %s with %d arguments, result %s" % (lib, n, rt), "all"))
    ws.append(Pair("rec_ref", "pigro::recursive<ByRef> r{}; op_ref(0, &i0); op_ref(1, &r(i0)); r(i0) = p0; op_note(2, i0);", "op_ref(0, &i0); op_ref(1, &i0); i0 = p0; op_note(2, i0);", PARAMS, "references are returned as such"))
    for n in (0, 1, 2, 3):
        ref = " ".join("op_ref(1, &r); op_note(2, %d);" % k for k in range(n, -1, -1)) + " op_ref(3, &i0);"
        ws.append(Pair("rec_nest%d" % n, "pigro::recursive<Nest> r{}; op_ref(0, &r); op_ref(9, &i0); r(%d, i0);" % n, "Nest r; op_ref(0, &r); op_ref(9, &i0); " + ref, PARAMS, "%d nested calls through itself" % n))
        ref = " ".join("op_ref(1, &r); op_noteo(2, &r.own);" for k in range(n, -1, -1))
        ws.append(Pair("rec_own%d" % n, "pigro::recursive<OwnRec> r{ { v0 } }; op_ref(0, &r); op_mark(1); r(%d);" % n, "OwnRec r{ v0 }; op_ref(0, &r); op_mark(1); " + ref, PARAMS, "%d nested calls share the owned value" % n, "all"))
    decide_witnesses(rep, [WitnessUnit("recursive", ["recursive"], may_throw(ws, lambda n: n.startswith(("rec_l", "rec_c", "rec_r", "rec_own"))), REC_PRE)])


# ------------------------------------------------------------------ C14, C15 compressed_tuple

CT_PRE = """
template<int n> struct EF final { friend constexpr bool operator==(EF, EF) { return true; } };
template<int n> struct ED { explicit ED(int) {} ED(const ED &) = default; };
template<typename T> using id = std::type_identity<T>;
struct Dx { int n; Dx() : n(42) {} explicit Dx(int k) : n(k) {} }; struct Dm { int n = 43; int m; };
"""
# letter -> (type, initialiser, may be copied, kind)
CT = {"i": ("int", "p0 + {k}", True), "j": ("int", "p1 - {k}", True), "d": ("double", "double(p0 + {k})", True), "c": ("char", "char(p1 + {k})", True),
      "V": ("w::V", "v0", True), "W": ("w::V", "std::move(v1)", True), "U": ("w::V", "std::as_const(v0)", True), "M": ("w::M", "std::move(m0)", False),
      "e": ("w::E<{k}>", "w::E<{k}>{{}}", True), "z": ("w::E<0>", "w::E<0>{{}}", True), "g": ("ED<{k}>", "ED<{k}>{{ 1 }}", True),
      "f": ("EF<0>", "EF<0>{{}}", True), "R": ("int &", "i0", True), "K": ("const int &", "i0", True), "S": ("w::V &", "v0", True), "T": ("const w::V &", "v1", True),
      "p": ("int *", "&i0", True), "l": ("long", "long(p0) * 3 + {k}", True), "b": ("bool", "p0 > {k}", True)}
STATELESS = "ezg"
REFS = "RKST"
# elements of unusual classes and scalars
ODDS = {"A": "w::VAny", "L": "w::VList", "O": "w::VOps", "B": "w::VBig", "H": "w::VHuge", "P": "w::VPoly", "F": "w::VFinal", "G": "w::VAlign"}
CT.update({x: (t, t + "(w::from::val, {k} + 30)", True) for x, t in ODDS.items()})
CT.update({"E": ("w::EC", "static_cast<w::EC>(p0 + {k})", True), "Y": ("w::EP", "static_cast<w::EP>(p1 + {k})", True), "q": ("w::P1", "w::P1{{ p0 + {k} }}", True), "Q": ("w::P3", "w::P3{{ p1 - {k}, 'x', 7 }}", True),
           "u": ("unsigned char", "static_cast<unsigned char>(p1 + {k})", True), "s": ("unsigned short", "static_cast<unsigned short>(p0 - {k})", True), "x": ("unsigned long long", "static_cast<unsigned long long>(p0) * 7 + {k}", True),
           "N": ("std::nullptr_t", "nullptr", True), "a": ("float", "float(p0 + {k})", True)})
ODDL = "ALOBHPFGEYqQusxNa"


def one_decl(k, x, var="x"):
    """The hand-written variable for element k of kind x."""
    t, i = CT[x][0].format(k=k), CT[x][1].format(k=k)
    return "%s %s%d%s;" % (t, var, k, " = " + i if x in REFS else "(%s)" % i if x in ODDL else "{ %s }" % i)


def ct_specs(tier):
    out = ["", "i", "d", "V", "W", "M", "e", "z", "g", "f", "R", "K", "S", "T", "p", "U"]
    base = "iVeRd" if tier == "basic" else "iVWMezfRSdcp"
    out += ["".join(p) for p in itertools.product(base, repeat=2)]
    out += ["ii", "zz", "ee", "VM", "MV", "Mi", "ic", "ci", "ez", "gz", "ff", "SV", "VS", "SS", "RR", "TK", "WV", "pb", "zi", "fz"]
    if tier != "basic":
        out += ["".join(p) for p in itertools.product("iVeR", repeat=3)]
        out += ["".join(p) for p in itertools.product("ize", repeat=4)]
    else:
        out += ["iij", "zzz", "iei", "eie", "VeV", "eVi", "RiR", "iRe", "dci", "cdc", "izd", "zVz", "fef", "SiV", "MeV", "ddd", "Wce", "geg", "ezi", "bpl"]
        out += ["iijj", "zizi", "ieiV", "eeee", "VeRi", "dcib", "RSTK", "zzzi", "izzz"]
    for n in arities((10, 13, 17), 24 if tier == "basic" else 40):
        out += [("iVe" * n)[:n], ("VdB" * n)[:n]]
    for n in arities(range(4, 7), 20 if tier == "basic" else 40):
        out += ["i" * n, "z" * n, ("ie" * n)[:n], ("eV" * n)[:n], ("dic" * n)[:n]]
    out += list(ODDL) + ["i" + x for x in ODDL] + [x + y for x, y in zip(ODDL, ODDL[1:] + ODDL[0])] + ["AeL", "OBe", "eEY", "qzQ", "VAi", "HiV", "PFG"]
    seen = []
    for s in out:
        # a moved-from source may be used once only
        if s.count("W") > 1 or s.count("M") > 1 or ("W" in s and "T" in s):
            continue
        if s not in seen:
            seen.append(s)
    return seen


def ct_type(s):
    return "pigro::compressed_tuple<%s>" % ", ".join(CT[x][0].format(k=k) for k, x in enumerate(s))


def ct_inits(s):
    return [CT[x][1].format(k=k) for k, x in enumerate(s)]


def ct_read(s, lib, var, cq=False):
    """Reads all elements of a tuple or of its plain counterpart."""
    out = []
    for k, x in enumerate(s):
        if lib:
            e = "pigro::get<%d>(%s)" % (k, var)
            out.append("w::see(%d, %s);" % (k + 1, e))
            if x not in REFS:
                out.append("w::see(%d, pigro::get<%d>(std::as_const(%s)));" % (k + 21, k, var))
                out.append("w::see(%d, pigro::get<%d>(std::move(%s)));" % (k + 41, k, var))
                out.append("w::see(%d, pigro::get<%d>(std::move(std::as_const(%s))));" % (k + 61, k, var))
            else:
                out.append("w::value(%d, pigro::get<%d>(std::as_const(%s)));" % (k + 21, k, var))
                out.append("w::value(%d, pigro::get<%d>(std::move(%s)));" % (k + 41, k, var))
                out.append("op_ref(%d, &static_cast<const %s>(pigro::get<%d>(%s)));" % (k + 61, CT[x][0].replace("const ", ""), k, var))
        else:
            e = "%s%d" % (var, k)
            if x in STATELESS:
                t = CT[x][0].format(k=k)
                out.append("".join("w::see(%d, static_cast<%s &&>(%s));" % (k + o, t, e) for o in (1, 21, 41, 61)))
            elif x in REFS:
                out.append("w::see(%d, %s); w::value(%d, %s); w::value(%d, %s); op_ref(%d, &%s);" % (k + 1, e, k + 21, e, k + 41, e, k + 61, e))
            else:
                out.append("w::see(%d, %s); w::see(%d, std::as_const(%s)); w::see(%d, std::move(%s)); w::see(%d, std::move(std::as_const(%s)));" % (
                    k + 1, e, k + 21, e, k + 41, e, k + 61, e))
    return " ".join(out)


CT_NEW = {"int": "p1 * 5 + %d", "double": "double(p1) * 2 + %d", "char": "char(p0 + %d)", "w::V": "v1", "int &": "p1 * 9 + %d", "w::V &": "v1", "int *": "(&i0 + %d)", "long": "long(p1) + %d", "bool": "p1 > %d"}


def ct_write(s, lib, var):
    out = []
    for k, x in enumerate(s):
        t = CT[x][0].format(k=k)
        if x in ODDL:
            new = "%s(w::from::val, %d)" % (t, k + 70) if x in ODDS else {"q": "w::P1{ p1 * 3 + %d }" % k, "Q": "w::P3{ p0 * 5 + %d, 'y', 9 }" % k, "N": "nullptr"}.get(x, "static_cast<%s>(p1 * 5 + %d)" % (t, k))
            out.append("%s = %s;" % ("pigro::get<%d>(%s)" % (k, var) if lib else "%s%d" % (var, k), new))
        elif t in CT_NEW:
            new = CT_NEW[t] % k if "%d" in CT_NEW[t] else CT_NEW[t] if "W" not in s else "v0"
            out.append("%s = %s;" % ("pigro::get<%d>(%s)" % (k, var) if lib else "%s%d" % (var, k), new))
    return out


def ct_pairs(tier):
    ws = []
    for n, s in enumerate(ct_specs(tier)):
        decl = "%s t{ %s };" % (ct_type(s), ", ".join(ct_inits(s))) if s else "pigro::compressed_tuple<> t{};"
        rdecl = " ".join(one_decl(k, x) for k, x in enumerate(s))
        pre = "op_ref(90, &i0); op_ref(91, &v0); op_ref(92, &v1);"
        body = "%s %s op_mark(1); %s" % (pre, decl, ct_read(s, True, "t"))
        ref = "%s %s op_mark(1); %s" % (pre, rdecl, ct_read(s, False, "x"))
        wl, wr = ct_write(s, True, "t"), ct_write(s, False, "x")
        for a, b in zip(wl, wr):
            body += " %s op_mark(2); %s" % (a, ct_read(s, True, "t"))
            ref += " %s op_mark(2); %s" % (b, ct_read(s, False, "x"))
            if len(s) > 4:
                break
        if not s:
            body += " op_mark(3);"
            ref += " op_mark(3);"
        ws.append(Pair("ct_%s" % (s or "none"), body, ref, PARAMS, "get of every element of %s, before and after assignments" % ct_type(s)))
        if s and n % 2 == 0 or len(s) == 1:
            copyable = all(CT[x][2] for x in s)
            how = "t" if copyable else "std::move(t)"
            hows = [how] if copyable else [how]
            if copyable:
                hows.append("std::move(t)")
                hows.append("std::as_const(t)")
            for j, h in enumerate(hows):
                mv = "move(t)" in h
                body = "%s %s op_mark(1); auto c = %s; op_mark(2); %s %s op_mark(3); %s %s" % (
                    pre, decl, h, ct_read(s, True, "c"), " ".join(ct_write(s, True, "c")), ct_read(s, True, "c"), ct_read(s, True, "t") if not mv else "")
                cdecl = " ".join(("%s y%d(%s);" % (CT[x][0].format(k=k), k, ("std::move(x%d)" if mv and x not in REFS else "x%d") % k)) for k, x in enumerate(s))
                ref = "%s %s op_mark(1); %s op_mark(2); %s %s op_mark(3); %s %s" % (
                    pre, rdecl, cdecl, ct_read(s, False, "y"), " ".join(ct_write(s, False, "y")), ct_read(s, False, "y"), ct_read(s, False, "x") if not mv else "")
                ws.append(Pair("ctc_%s%d" % (s, j), body, ref, PARAMS, "copy by %s of %s is complete and independent" % (h, ct_type(s))))
    ws.append(Pair("ct_dflt", "pigro::compressed_tuple<int, w::E<1>, double, int *, bool> t; w::see(1, pigro::get<0>(t)); w::see(2, pigro::get<2>(t)); w::see(3, pigro::get<3>(t)); w::see(4, pigro::get<4>(t));",
                   "int a = 0; double b = 0; int *c = nullptr; bool d = false; w::see(1, a); w::see(2, b); w::see(3, c); w::see(4, d);", PARAMS, "default construction value-initialises"))
    dflt = ["int", "w::EC", "w::E<1>", "w::EP", "double", "int *", "bool", "unsigned char", "std::nullptr_t", "float", "long", "std::pair<int, char>", "std::tuple<int, w::EC>", "w::P1", "w::P3", "Dx", "std::array<int, 3>", "Dm"]
    zero = {"int": "{v} == 0", "w::EC": "{v} == w::EC{{}}", "w::EP": "{v} == w::EP{{}}", "std::pair<int, char>": "{v}.first == 0 && {v}.second == 0", "std::tuple<int, w::EC>": "std::get<0>({v}) == 0 && std::get<1>({v}) == w::EC{{}}", "w::P1": "{v}.a == 0", "w::P3": "{v}.a == 0 && {v}.b == 0 && {v}.c == 0",
            "Dx": "{v}.n == 42", "std::array<int, 3>": "{v}[0] == 0 && {v}[2] == 0", "Dm": "{v}.n == 43 && {v}.m == 0"}
    for ds in [[x] for x in dflt] + [["int", x] for x in dflt] + [[x, y] for x, y in zip(dflt, dflt[3:])] + [dflt]:
        chk = " ".join("if (%s) op_mark(%d); else op_mark(0);" % (zero.get(x, "{v} == 0").format(v="pigro::get<%d>(%s)" % (k, v)), k + 1) for v in ("t", "std::as_const(t)") for k, x in enumerate(ds) if x != "w::E<1>")
        ws.append(Pair("ct_d_%d" % len(ws), "pigro::compressed_tuple<%s> t; %s" % (", ".join(ds), chk), "".join("op_mark(%d);" % (k + 1) for _ in (0, 1) for k, x in enumerate(ds) if x != "w::E<1>"), PARAMS, "default construction of compressed_tuple<%s> value-initialises its elements" % ", ".join(ds)))
    ws.append(Pair("ct_nest", "pigro::compressed_tuple<pigro::compressed_tuple<int, w::E<0>>, w::V, pigro::compressed_tuple<w::V, int>> t{ pigro::compressed_tuple{ p0, w::E<0>{} }, v0, pigro::compressed_tuple{ v1, p1 } }; op_mark(0); "
                   "w::see(1, pigro::get<0>(pigro::get<0>(t))); w::see(2, pigro::get<1>(t)); w::see(3, pigro::get<0>(pigro::get<2>(t))); pigro::get<1>(pigro::get<2>(t)) = 3; w::see(4, pigro::get<1>(pigro::get<2>(std::as_const(t)))); w::see(5, pigro::get<0>(pigro::get<0>(t)));",
                   "int a = p0; w::V b = v0; w::V c = v1; int d = p1; op_mark(0); w::see(1, a); w::see(2, b); w::see(3, c); d = 3; w::see(4, std::as_const(d)); w::see(5, a);", PARAMS, "tuples within tuples", "none"))
    ws.append(Pair("ct_fun", "auto t = pigro::compressed_tuple{ w::Counting<1>{ p0 }, w::Show<2>{}, w::Owning<3>{ v0 } }; op_mark(0); pigro::get<0>(t)(p1); pigro::get<0>(t)(p0); pigro::get<1>(t)(v1); pigro::get<2>(t)(p0); pigro::get<0>(std::as_const(t))(3);",
                   "w::Counting<1> a{ p0 }; w::Show<2> b; w::Owning<3> c{ v0 }; op_mark(0); a(p1); a(p0); b(v1); c(p0); std::as_const(a)(3);", PARAMS, "callables as elements", "none"))
    ws.append(Pair("ct_fwd", "pigro::compressed_tuple<w::V, w::V, w::M> t{ v0, std::move(v1), std::move(m0) }; op_mark(0); w::M k = std::move(pigro::get<2>(t)); op_noteo(1, &k); w::V q = pigro::get<0>(std::move(t)); op_noteo(2, &q);",
                   "w::V a{ v0 }, b{ std::move(v1) }; w::M c{ std::move(m0) }; op_mark(0); w::M k = std::move(c); op_noteo(1, &k); w::V q = std::move(a); op_noteo(2, &q);", PARAMS, "arguments are copied or moved in as given, elements moved out", "copy"))
    return ws


def ct_gettypes(tier):
    items = []
    for s in ct_specs(tier):
        t = ct_type(s)
        cs = []
        for k, x in enumerate(s):
            e = CT[x][0].format(k=k)
            if x in STATELESS:
                for q in ("%s &", "const %s &", "%s", "const %s"):
                    cs.append("std::is_same_v<decltype(pigro::get<%d>(std::declval<%s>())), %s>" % (k, q % t, e))
            elif x in REFS:
                cs.append("std::is_same_v<decltype(pigro::get<%d>(std::declval<%s &>())), %s>" % (k, t, e))
                cs.append("std::is_same_v<decltype(pigro::get<%d>(std::declval<const %s &>())), const %s>" % (k, t, e.replace("const ", "")))
            else:
                cs.append("std::is_same_v<decltype(pigro::get<%d>(std::declval<%s &>())), %s &>" % (k, t, e))
                cs.append("std::is_same_v<decltype(pigro::get<%d>(std::declval<const %s &>())), %s const &>" % (k, t, e))
                cs.append("std::is_same_v<decltype(pigro::get<%d>(std::declval<%s>())), %s &&>" % (k, t, e))
                cs.append("std::is_same_v<decltype(pigro::get<%d>(std::declval<const %s>())), %s const &&>" % (k, t, e))
        if cs:
            items.append(Static(" && ".join(cs), "get of %s has the type, constness and category of element and tuple" % t))
    for t in ODD:
        for es, k, fr in (("%s", 0, "%s"), ("int, %s", 1, "int &&, %s"), ("%s, w::E<0>, char", 0, "%s, w::E<0>, int")):
            c = "pigro::compressed_tuple<%s>" % (es % t)
            e = "std::tuple_element_t<%d, std::tuple<%s>>" % (k, es % t)
            val = "(std::is_empty_v<{e}> && !std::is_final_v<{e}>)".format(e=e)
            items.append(Static(" && ".join("std::is_same_v<decltype(pigro::get<{k}>(std::declval<{q}>())), std::conditional_t<{v}, {e}, {r}>>".format(k=k, q=q % c, v=val, e=e, r=r % e)
                                            for q, r in (("%s &", "%s &"), ("const %s &", "const %s &"), ("%s", "%s &&"), ("const %s", "const %s &&"))), "get<%d> of %s" % (k, c)))
            if t.startswith("std::initializer_list"):
                continue
            items.append(Static("std::is_constructible_v<{c}, {a}> && std::is_constructible_v<{c}, {b}>".format(c=c, a=fr % ("std::type_identity_t<%s> &&" % t), b=es % t), "construction of %s" % c))
    return items


def c14(rep, tier):
    decide_static(rep, [StaticUnit("ct_get", ["compressed_tuple", W] + ODD_HEAD, ct_gettypes(tier), CT_PRE + ODD_PRE)], 30)
    decide_witnesses(rep, [WitnessUnit("compressed_tuple", ["compressed_tuple", "<array>", "<tuple>"], may_throw(ct_pairs(tier), lambda n: n in ("ct_nest", "ct_fun", "ct_fwd") or 0 < len(n.split("_")[1]) < 4 and n[-1] not in "xaqQusNlpbEY" and not ("V" in n and any(x in ODDS for x in n[3:]))), CT_PRE)], chunk=10)


def c15(rep, tier):
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))
    for s in ct_specs(tier):
        t = ct_type(s)
        el = [CT[x][0].format(k=k) for k, x in enumerate(s)]
        cs = []
        for q in ("%s", "const %s"):
            cs.append("std::tuple_size_v<%s> == %d" % (q % t, len(s)))
            for k, e in enumerate(el):
                cs.append("std::is_same_v<std::remove_const_t<std::tuple_element_t<%d, %s>>, std::remove_const_t<%s>>" % (k, q % t, e))
        for k, e in enumerate(el):
            cs.append("std::is_same_v<std::tuple_element_t<%d, %s>, %s>" % (k, t, e))
        a(" && ".join(cs), "tuple_size and tuple_element of %s" % t)
        # construction
        n = len(s)
        wrong = [m for m in {0, n - 1, n + 1, n + 2, 2 * n} if m >= 0 and m != n]
        cs = []
        for m in wrong:
            if m == 0 and not any(x in "VWUMgRKST" or x in ODDS for x in s):
                cs.append("std::is_default_constructible_v<%s>" % t)
                continue
            if m == 1:
                continue
            args = (el * 2 + ["int", "int"])[:m] if el else ["int"] * m
            cs.append("!std::is_constructible_v<%s%s>" % (t, "".join(", " + x for x in args)))
        if n != 1:
            cs.append("!std::is_constructible_v<%s, int>" % t)
        if n:
            cs.append("std::is_constructible_v<%s%s>" % (t, "".join(", " + x for x in el)))
            cs.append("std::is_default_constructible_v<%s> == (%s)" % (t, " && ".join("std::default_initializable<%s>" % x for x in el)))
        else:
            cs.append("std::is_default_constructible_v<%s>" % t)
        a(" && ".join(cs), "%s is made from exactly %d arguments" % (t, n))
        cp = "M" not in s
        a("std::is_copy_constructible_v<{0}> == {1} && std::is_move_constructible_v<{0}> && std::is_constructible_v<{0}, {0} &> == {1} && std::is_constructible_v<{0}, const {0} &> == {1}".format(t, "true" if cp else "false"), "%s is copyable and movable as its elements" % t)
        if n:
            ids = ", ".join("b%d" % k for k in range(n))
            j = len(items)
            # (a const tuple gives const access to what its references refer to, so they cannot be bound)
            for q, dq in (("const %s &" % t, "const auto &"), ("%s &" % t, "auto &"), ("%s &&" % t, "auto &&")):
                if dq == "const auto &" and ("R" in s or "S" in s):
                    continue
                chk = " ".join("static_assert(std::is_same_v<std::remove_cvref_t<decltype(b%d)>, std::remove_cvref_t<%s>>);" % (k, e) for k, e in enumerate(el))
                items.append(Static("inline void sb%d_%d(%s t) { %s [%s] = static_cast<%s>(t); %s }" % (j, len(items), q, dq, ids, q, chk), "structured bindings of %s" % q, raw=True))
        if n and not any(x in REFS for x in s):
            vals = ["std::declval<%s>()" % q for q in el]
            for q in ("%s", "%s &", "%s const &", "%s const"):
                if "M" in s and q != "%s":
                    continue
                items.append(Static("std::is_same_v<decltype(pigro::compressed_tuple{ %s }), %s>" % (", ".join("std::declval<%s>()" % (q % e) for e in el), t) if not (n == 1 and "compressed_tuple" in el[0]) else "true",
                                    "deduction from elements as %s gives %s" % (q.replace("%s", "T"), t)))
    for t in ODD:
        for o in ("int", "w::E<0>", "std::tuple<int>"):
            for q in ("", " &", " const &", " const"):
                if "unique" in t and q:
                    continue
                a("std::is_same_v<decltype(pigro::compressed_tuple{{ std::declval<std::type_identity_t<{t}>{q}>(), std::declval<{o}>() }}), pigro::compressed_tuple<{t}, {o}>>".format(t=t, o=o, q=q), "deduction from %s%s and %s" % (t, q, o))
            a("std::is_same_v<std::tuple_element_t<1, pigro::compressed_tuple<{o}, {t}>>, {t}> && std::is_same_v<std::tuple_element_t<0, const pigro::compressed_tuple<{t}, {o}>>, std::tuple_element_t<0, const std::tuple<{t}, {o}>>> == std::is_same_v<std::tuple_element_t<0, const pigro::compressed_tuple<int, {o}>>, const int>".format(t=t, o=o), "element type %s" % t)
            a("std::is_default_constructible_v<pigro::compressed_tuple<{o}, {t}>> == std::default_initializable<{t}> && std::is_copy_constructible_v<pigro::compressed_tuple<{t}, {o}>> == std::is_copy_constructible_v<{t}>".format(t=t, o=o), "construction with element type %s" % t)
    a("std::is_same_v<decltype(pigro::compressed_tuple{}), pigro::compressed_tuple<>>")
    a("!std::is_convertible_v<int, pigro::compressed_tuple<int>> && std::is_constructible_v<pigro::compressed_tuple<int>, int>", "constructors from values are explicit")
    decide_static(rep, [StaticUnit("ct", ["compressed_tuple", "<concepts>", W] + ODD_HEAD, items, CT_PRE + ODD_PRE)], 60)
    # structured bindings refer to the elements
    ws = []
    for s in ("i", "iV", "VeR", "ddi", "eie", "iijj", "RS"):
        ids = ", ".join("b%d" % k for k in range(len(s)))
        decl = "%s t{ %s };" % (ct_type(s), ", ".join(ct_inits(s)))
        rdecl = " ".join(one_decl(k, x) for k, x in enumerate(s))
        up = [("b%d" % k, CT_NEW[CT[x][0]] % k) for k, x in enumerate(s) if x in "id"]
        body = "%s op_mark(0); auto &[%s] = t; op_mark(1); %s %s" % (decl, ids, " ".join("w::value(%d, b%d);" % (k, k) for k in range(len(s))), " ".join("%s = %s;" % u for u in up))
        ref = "%s op_mark(0); op_mark(1); %s %s" % (rdecl, " ".join("w::value(%d, x%d);" % (k, k) for k in range(len(s))), " ".join("%s = %s;" % (u[0].replace("b", "x"), u[1]) for u in up))
        body += " ".join("w::value(%d, pigro::get<%d>(t));" % (k, k) for k in range(len(s)))
        ref += " ".join("w::value(%d, x%d);" % (k, k) for k in range(len(s)))
        ws.append(Pair("sb_" + s, body, ref, PARAMS, "structured bindings of %s refer to its elements" % ct_type(s)))
    decide_witnesses(rep, [WitnessUnit("ct_sb", ["compressed_tuple"], ws, CT_PRE)])


# ------------------------------------------------------------------ C16 apply, to_tuple

AP_PRE = CT_PRE + """
namespace user {
struct T3 { int a; w::V b; int c; };
template<std::size_t I, typename T> requires std::is_same_v<std::remove_cvref_t<T>, T3>
decltype(auto) get(T &&t) { if constexpr (I == 0) return (static_cast<T &&>(t).a); else if constexpr (I == 1) return (static_cast<T &&>(t).b); else return (static_cast<T &&>(t).c); }
}
namespace std { template<> struct tuple_size<user::T3> : integral_constant<size_t, 3> {}; template<> struct tuple_element<0, user::T3> { using type = int; };
template<> struct tuple_element<1, user::T3> { using type = w::V; }; template<> struct tuple_element<2, user::T3> { using type = int; }; }
struct RefF { int &operator()(int &x, auto &&...) const { return x; } };
template<typename F, typename T> constexpr bool can = requires(F &&f, T &&t) { pigro::apply(static_cast<F &&>(f), static_cast<T &&>(t)); };
template<typename F, typename T> using ret = decltype(pigro::apply(std::declval<F>(), std::declval<T>()));
struct Sig { int operator()(int &, const w::V &) const; char operator()(const int &, const w::V &) const; short operator()(int &&, w::V &&) const; };
struct Mut { int operator()(int) &; short operator()(int) const &; char operator()(int) &&; };
struct Mem { int x; int f(int); };
"""
TUPS = {"std": ("std::tuple<{0}>", "std::get<{k}>(t)"), "ct": ("pigro::compressed_tuple<{0}>", "")}
QUALS = [("t", "l"), ("std::as_const(t)", "c"), ("std::move(t)", "r"), ("std::move(std::as_const(t))", "cr")]
CQ = {"l": "x{k}", "c": "std::as_const(x{k})", "r": "std::move(x{k})", "cr": "std::move(std::as_const(x{k}))"}


def elems(s, q):
    """The elements of a plain tuple, as seen through qualifier q."""
    out = []
    for k, x in enumerate(s):
        if x in STATELESS and x:
            out.append("std::move(x%d)" % k)
        elif x in REFS:
            out.append("x%d" % k)
        else:
            out.append(CQ[q].format(k=k))
    return out


def rdecl(s):
    return " ".join(one_decl(k, x) for k, x in enumerate(s))


def c16(rep, tier):
    ws = []
    pre = "op_ref(90, &i0); op_ref(91, &v0); op_ref(92, &v1);"
    specs = ["", "i", "V", "M", "R", "S", "K", "iV", "Vi", "dc", "iR", "SV", "ijd", "VUi", "iVM", "RiS", "ddd", "ViRd", "iijj"]
    cts = ["e", "z", "ie", "ei", "eVi", "zz", "ziz", "eeMi", "Vzz", "f", "if"]
    for n in arities(range(4, 7), 20):
        specs.append(("idc" * n)[:n])
        cts.append(("ie" * n)[:n])
    for n in arities((8, 11), 20):
        specs += [("iVR" * n)[:n], ("BSi" * n)[:n]]
        cts.append(("Vez" * n)[:n])
    specs += list(ODDL) + ["AL", "OB", "iH", "PFG", "EYi"]
    cts += ["eO", "zA", "Le"]
    for kind in ("std", "ct"):
        for s in dict.fromkeys(specs + (cts if kind == "ct" else [])):
            if not s and kind == "std":
                decl = "std::tuple<> t;"
            elif kind == "std":
                decl = "std::tuple<%s> t{ %s };" % (", ".join(CT[x][0].format(k=k) for k, x in enumerate(s)), ", ".join(ct_inits(s)))
            else:
                decl = "%s t{ %s };" % (ct_type(s), ", ".join(ct_inits(s)))
            for q, qn in QUALS:
                if kind == "ct" and qn in ("c", "cr") and any(x in REFS for x in s):
                    continue
                if len(s) > 3 and qn in ("cr", "c"):
                    continue
                for rt in ("int", "w::V", "void"):
                    if rt != "int" and len(s) != 2 and len(s) != 0:
                        continue
                    use = (lambda x: "%s;" % x) if rt == "void" else (lambda x: "w::res(0, %s);" % x)
                    body = "%s %s op_mark(1); w::Counting<1, %s> f{ p0 }; %s op_mark(3);" % (pre, decl, rt, use("pigro::apply(f, %s)" % q))
                    el = elems(s, qn if kind == "ct" else qn)
                    if kind == "std":
                        el = ["x%d" % k if x in REFS else CQ[qn].format(k=k) for k, x in enumerate(s)]
                    ref = "%s %s op_mark(1); w::Counting<1, %s> f{ p0 }; %s op_mark(3);" % (pre, rdecl(s), rt, use("f(%s)" % ", ".join(el)))
                    ws.append(Pair("ap_%s_%s_%s_%s" % (kind, s or "none", qn, rt.strip("w:")), body, ref, PARAMS, "apply(f, %s) with t a %s of %s" % (q, kind, s), "after"))
                # to_tuple
                if s or kind == "ct":
                    body = "%s %s op_mark(1); auto r = pigro::to_tuple(%s); op_mark(2); %s op_mark(3);" % (pre, decl, q, " ".join("w::see(%d, std::get<%d>(r)); w::seetype<std::tuple_element_t<%d, decltype(r)>>(%d);" % (k, k, k, k + 50) for k in range(len(s))))
                    rt = []
                    for k, x in enumerate(s):
                        t = CT[x][0].format(k=k)
                        st = kind == "ct" and x in STATELESS
                        e = el[k]
                        ty = t if st else "decltype((%s))" % e
                        # (std::get of an lvalue tuple gives an lvalue, whatever the element)
                        rt.append("w::see(%d, %s); w::seetype<%s>(%d);" % (k, "x%d" % k if not (qn in ("c", "cr") and x not in REFS and not st) else "std::as_const(x%d)" % k, ty, k + 50))
                    ref = "%s %s op_mark(1); op_mark(2); %s op_mark(3);" % (pre, rdecl(s), " ".join(rt))
                    ws.append(Pair("tt_%s_%s_%s" % (kind, s or "none", qn), body, ref, PARAMS, "to_tuple(%s) with t a %s of %s refers to the elements" % (q, kind, s), "after"))
    for q, qn in QUALS:
        body = "user::T3 t{ p0, v0, p1 }; op_ref(0, &t.b); op_mark(0); w::res(1, pigro::apply(w::Show<1, int>{}, %s)); op_mark(4);" % q
        acc = {"l": "t.{0}", "c": "std::as_const(t).{0}", "r": "std::move(t).{0}", "cr": "std::move(std::as_const(t)).{0}"}[qn]
        ref = "user::T3 t{ p0, v0, p1 }; op_ref(0, &t.b); op_mark(0); w::res(1, w::Show<1, int>{}(%s)); op_mark(4);" % ", ".join(acc.format(x) for x in "abc")
        ws.append(Pair("ap_user_" + qn, body, ref, PARAMS, "apply on a user-defined tuple, %s" % q, "after"))
        for n in arities((1, 3, 6, 9), 24):
            for et, el in (("int", ["p0 + %d" % k for k in range(n)]), ("w::V", ["v%d" % (k % 2) for k in range(n)])):
                body = "std::array<%s, %d> t{ %s }; op_ref(0, &t[0]); op_mark(0); w::res(1, pigro::apply(w::Show<1, int>{}, %s)); op_mark(4);" % (et, n, ", ".join(el), q)
                ref = "std::array<%s, %d> t{ %s }; op_ref(0, &t[0]); op_mark(0); w::res(1, w::Show<1, int>{}(%s)); op_mark(4);" % (et, n, ", ".join(el), ", ".join("std::get<%d>(%s)" % (k, q) for k in range(n)))
                ws.append(Pair("ap_arr_%s_%d_%s" % (qn, n, et[-1]), body, ref, PARAMS, "apply on an array of %d %s, %s" % (n, et, q), "after"))
                items_ = ", ".join("decltype((std::get<%d>(%s)))" % (k, q) for k in range(n))
                body = "std::array<%s, %d> t{ %s }; op_ref(0, &t[0]); op_mark(0); auto r = pigro::to_tuple(%s); %s op_mark(4);" % (et, n, ", ".join(el), q, " ".join("w::seetype<std::tuple_element_t<%d, decltype(r)>>(%d); op_ref(7, &static_cast<const %s &>(std::get<%d>(r)));" % (k, k, et, k) for k in range(n)))
                ref = "std::array<%s, %d> t{ %s }; op_ref(0, &t[0]); op_mark(0); %s op_mark(4);" % (et, n, ", ".join(el), " ".join("w::seetype<decltype((std::get<%d>(%s)))>(%d); op_ref(7, &t[%d]);" % (k, q, k, k) for k in range(n)))
                ws.append(Pair("tt_arr_%s_%d_%s" % (qn, n, et[-1]), body, ref, PARAMS, "to_tuple of an array of %d %s, %s" % (n, et, q), "after"))
        body = "std::array<w::V, 2> t{ v0, v1 }; op_ref(0, &t[1]); op_mark(0); w::res(1, pigro::apply(w::Show<1, int>{}, %s)); op_mark(4);" % q
        ref = "std::array<w::V, 2> t{ v0, v1 }; op_ref(0, &t[1]); op_mark(0); w::res(1, w::Show<1, int>{}(%s)); op_mark(4);" % ", ".join("std::get<%d>(%s)" % (k, q) for k in (0, 1))
        ws.append(Pair("ap_arr_" + qn, body, ref, PARAMS, "apply on an array, %s" % q, "after"))
        body = "std::pair<w::V, int> t{ v0, p0 }; op_ref(0, &t.first); op_mark(0); w::res(1, pigro::apply(w::Show<1, int>{}, %s)); op_mark(4);" % q
        ref = "std::pair<w::V, int> t{ v0, p0 }; op_ref(0, &t.first); op_mark(0); w::res(1, w::Show<1, int>{}(%s)); op_mark(4);" % ", ".join("std::get<%d>(%s)" % (k, q) for k in (0, 1))
        ws.append(Pair("ap_pair_" + qn, body, ref, PARAMS, "apply on a pair, %s" % q, "after"))
    for f, fn in (("f", "l"), ("std::as_const(f)", "c"), ("std::move(f)", "r"), ("std::move(std::as_const(f))", "cr")):
        for tt, args in (("std::tuple<int, w::V &> t{ p1, v0 };", "std::get<0>(t), v0"), ("pigro::compressed_tuple<int> t{ p1 };", "pigro::get<0>(t)")):
            ws.append(Pair("ap_f_%s_%d" % (fn, len(tt)), "w::Counting<1, int> f{ p0 }; %s w::res(0, pigro::apply(%s, t)); op_note(9, f.state);" % (tt, f), "w::Counting<1, int> f{ p0 }; %s w::res(0, %s(%s)); op_note(9, f.state);" % (tt, f, args), PARAMS, "apply calls %s itself" % f, "after"))
    ws.append(Pair("ap_ref", "std::tuple<int &, int> t{ i0, p0 }; op_ref(0, &i0); op_ref(1, &pigro::apply(RefF{}, t)); pigro::apply(RefF{}, t) = 3; op_note(1, i0);", "op_ref(0, &i0); op_ref(1, &i0); i0 = 3; op_note(1, i0);", PARAMS, "apply returns references as such"))
    ws.append(Pair("ap_mem", "Mem m{ p0 }; std::tuple<Mem &> t{ m }; op_note(1, pigro::apply(&Mem::x, t)); pigro::apply(&Mem::x, t) = p1; op_note(1, m.x);", "op_note(1, p0); op_note(1, p1);", PARAMS, "apply invokes pointers to members"))
    decide_witnesses(rep, [WitnessUnit("apply", ["apply", "to_tuple", "compressed_tuple", "<array>", "<tuple>"], may_throw(ws, lambda n: n.startswith(("ap_user", "ap_arr", "ap_pair", "ap_f_")) or (n.split("_") + [""])[2] in ("none", "i", "iR", "iV", "ie", "Vzz")), AP_PRE)], chunk=16)
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))
    for T in ("std::tuple", "pigro::compressed_tuple"):
        a("std::is_same_v<ret<Sig, %s<int, w::V> &>, int> && std::is_same_v<ret<Sig, const %s<int, w::V> &>, char> && std::is_same_v<ret<Sig, %s<int, w::V>>, short> && std::is_same_v<ret<Sig, const %s<int, w::V>>, char>" % (T, T, T, T), "%s: the overload that fits the elements is called" % T)
        a("!can<Sig, %s<int> &> && !can<Sig, %s<w::V, int> &> && !can<Sig, %s<int, w::V, int> &> && !can<Sig, %s<>>" % (T, T, T, T), "%s: calls that do not fit are rejected softly" % T)
        a("std::is_same_v<ret<Mut &, %s<int> &>, int> && std::is_same_v<ret<const Mut &, %s<int> &>, short> && std::is_same_v<ret<Mut, %s<int> &>, char>" % (T, T, T), "%s: the callable keeps its category" % T)
        a("!can<int (&)(int), %s<void *>> && can<int (&)(int), %s<short>>" % (T, T))
        a("std::is_same_v<ret<int &(*)(int &), %s<int> &>, int &> && std::is_same_v<ret<void (*)(), %s<>>, void>" % (T, T))
        a("std::is_same_v<decltype(pigro::to_tuple(std::declval<%s<> &>())), std::tuple<>>" % T)
        for q, r in (("%s &", "int &, w::V &"), ("const %s &", "const int &, const w::V &"), ("%s", "int &&, w::V &&"), ("const %s", "const int &&, const w::V &&")):
            a("std::is_same_v<decltype(pigro::to_tuple(std::declval<%s>())), std::tuple<%s>>" % (q % ("%s<int, w::V>" % T), r))
    a("std::is_same_v<decltype(pigro::to_tuple(std::declval<pigro::compressed_tuple<w::E<0>, int, w::E<1>> &>())), std::tuple<w::E<0>, int &, w::E<1>>>", "stateless elements are not referred to")
    decide_static(rep, [StaticUnit("apply", ["apply", "to_tuple", "compressed_tuple", "<array>", "<tuple>", W], items, AP_PRE)])


# ------------------------------------------------------------------ C17, C18 binding

BI_PRE = AP_PRE + """
template<int id> struct Bump { void operator()(auto &&...xs) const { op_mark(id); (one(xs), ...); op_mark(id + 1); } static void one(int &x) { op_note(1, x); x += 1; } static void one(const auto &) {} };
struct Ret { w::V &operator()(w::V &a, auto &&...) const { return a; } };
struct Ret2 { w::V &operator()(auto &&, w::V &a) const { return a; } };
inline int freefn(int a, int b, int c) { op_note(1, a); op_note(2, b); op_note(3, c); return op_fun(1); }
struct StaticValue { static constexpr int value = 1; static constexpr int index = 2; using type = int; int operator()() const { op_mark(99); return 1; } }; struct StaticIndex { static constexpr std::size_t index = 0; static constexpr std::size_t value = 0; };
struct Mx { int x; int f(int a, int b) { op_note(1, x); op_note(2, a); op_note(3, b); return x; } };
"""
# arguments of unusual types
OARGS = [["nullptr"], ["std::true_type{}", "p0"], ["std::integral_constant<int, 0>{}"], ["w::VOps(w::from::val, 90)"], ["w::VAny(w::from::val, 91)", "p1"], ["w::VList(w::from::val, 92)"], ["w::EC{}", "w::EP{}"], ["w::P1{ p0 }", "w::E<7>{}"], ["&i0"], ["StaticValue{}", "StaticIndex{}"],
         ["std::tuple<int>{ p0 }"], ["w::VBig(w::from::val, 93)", "'c'", "true"], ["static_cast<unsigned char>(p0)", "2.5f"], ["i0", "p0", "v0", "std::move(m0)", "7", "std::as_const(v0)", "p1", "2.5", "i0"]]
BARGS = [[], ["p1"], ["std::move(m0)"], ["v0"], ["std::as_const(v0)", "p0"], ["i0", "std::move(m0)", "2.5"]]


def bound_refs(s, tup):
    """How the bound values arrive: as lvalues of the stored values (stateless elements of compressed tuples as such)."""
    out = []
    for k, x in enumerate(s):
        if tup == "ct" and x in STATELESS:
            out.append("std::move(x%d)" % k)
        else:
            out.append("x%d" % k)
    return ", ".join(out)


def joined(*xs):
    return ", ".join(x for x in xs if x)


def bind_pairs(tier):
    ws = []
    pre = "op_ref(90, &i0); op_ref(91, &v0); op_ref(92, &v1);"
    specs = ["", "i", "W", "e", "ij", "Wi", "ie", "dci", "iWj", "iijj"]
    for n in arities(range(4, 6), 9):
        specs.append(("idl" * n)[:n])
    for n in arities((8, 12), 20):
        specs.append(("iej" * n)[:n])
    specs += list(ODDL) + ["iA", "Le", "Oi"]
    tspecs = ["V", "R", "S", "K", "eVi", "zz", "Vz", "SR"]
    fs = {"Counting": ("w::Counting<1, int>{ p0 }", "w::Counting<1, int> f{ p0 };"), "Show": ("w::Show<1, int>{}", "w::Show<1, int> f;"),
          "Own": ("w::Owning<1, int>{ v0 }", "w::Owning<1, int> f{ v0 };")}
    nth = 0
    for how in ("back", "fstd", "fct", "bstd", "bct", "opf", "opb", "opfs", "opbs"):
        tup = {"back": "", "fstd": "std", "fct": "ct", "bstd": "std", "bct": "ct", "opf": "ct", "opb": "ct", "opfs": "std", "opbs": "std"}[how]
        front = how in ("fstd", "fct", "opf", "opfs")
        for s in dict.fromkeys(specs + (tspecs if how != "back" else [])):
            # the values written out
            rd = rdecl(s)
            ty = ", ".join(CT[x][0].format(k=k) for k, x in enumerate(s))
            tt = "std::tuple<%s>" % ty if tup == "std" else "pigro::compressed_tuple<%s>" % ty
            mk = "%s{ %s }" % (tt, ", ".join(ct_inits(s))) if s else tt + "{}"
            for j, args in enumerate(BARGS + (OARGS if s in ("i", "ie", "") else [])):
                nth += 1
                if any(x in ODDL for x in s) and j != 1:
                    continue
                if args in OARGS and (nth + len(s)) % 2 and tier == "basic" and s != "i":
                    continue
                if nth % 3 and len(s) > 1 and len(args) != 1 and tier == "basic" and args not in OARGS:
                    continue
                if any("v0" in x for x in args) and "W" in s and False:
                    continue
                for fn, (fe, fd) in fs.items():
                    if fn != "Counting" and ((nth + len(fn)) % 3 or args in OARGS or any(x in ODDL for x in s)):
                        continue
                    if how == "back":
                        make = "auto g = pigro::bind_back(%s);" % joined(fe, ", ".join(ct_inits(s)))
                    elif how in ("fstd", "fct"):
                        make = "auto g = pigro::bind_front_tuple(%s, %s);" % (fe, mk)
                    elif how in ("bstd", "bct"):
                        make = "auto g = pigro::bind_back_tuple(%s, %s);" % (fe, mk)
                    else:
                        make = "auto g = pigro::operator%s(%s, %s);" % (">>" if front else "<<", mk, fe)
                    bound = bound_refs(s, tup)
                    call = ", ".join(args)
                    again = ", ".join(x for x in args if "move" not in x)
                    ra = joined(bound, call) if front else joined(call, bound)
                    rb = joined(bound, again) if front else joined(again, bound)
                    body = "%s %s op_mark(1); w::res(0, g(%s)); op_mark(2); w::res(1, g(%s)); op_mark(3);" % (pre, make, call, again)
                    ref = "%s %s %s op_mark(1); w::res(0, f(%s)); op_mark(2); w::res(1, f(%s)); op_mark(3);" % (pre, fd, rd, ra, rb)
                    ws.append(Pair("b_%s_%s_%d_%s" % (how, s or "none", j, fn), body, ref, PARAMS, "%s of (%s) called with (%s), callable %s" % (how, s, call, fn), "after"))
        # lvalues are referred to, modifications last
        if how == "back":
            mod = "int y = p0; int z = p1; auto g = pigro::bind_back(Bump<1>{}, y, z + 1, v0); op_mark(0); g(); g(i0); y = 7; g(); op_note(5, y); op_note(6, z); op_note(7, i0);"
            ref = "int y = p0; int z = p1; int q = z + 1; Bump<1> g; op_mark(0); g(y, q, v0); g(i0, y, q, v0); y = 7; g(y, q, v0); op_note(5, y); op_note(6, z); op_note(7, i0);"
            ws.append(Pair("b_back_mod", mod, ref, PARAMS, "bind_back refers to lvalues and keeps modifications", "after"))
            ws.append(Pair("b_back_lf", "w::Counting<1, int> f{ p0 }; auto g = pigro::bind_back(f, p1); op_mark(0); g(1); g(2); op_note(9, f.state); f.state = 77; g(3);", "w::Counting<1, int> f{ p0 }; int q = p1; op_mark(0); f(1, q); f(2, q); op_note(9, f.state); f.state = 77; f(3, q);", PARAMS, "bind_back refers to an lvalue callable", "after"))
            ws.append(Pair("b_back_ptr", "auto g = pigro::bind_back(&freefn, p0, p1); op_mark(0); w::res(0, g(3)); auto h = pigro::bind_back(freefn, 9); w::res(1, h(4, 5)); auto k = pigro::bind_back(&Mx::f, p1); Mx m{ p0 }; w::res(2, k(m, 8));",
                           "op_mark(0); w::res(0, freefn(3, p0, p1)); w::res(1, freefn(4, 5, 9)); Mx m{ p0 }; w::res(2, m.f(8, p1));", PARAMS, "bind_back of function and member pointers", "after"))
            ws.append(Pair("b_back_mo", "auto g = pigro::bind_back(w::OwningMove<1, int>{ std::move(m0) }, std::move(v1)); op_mark(0); w::res(0, g(p0)); w::res(1, g(p1));", "w::OwningMove<1, int> f{ std::move(m0) }; w::V x{ std::move(v1) }; op_mark(0); w::res(0, f(p0, x)); w::res(1, f(p1, x));", PARAMS, "bind_back of a move-only callable", "after"))
            ws.append(Pair("b_back_copies", "auto g = pigro::bind_back(w::Owning<1, int>{ v0 }, std::move(v1), v0); op_mark(0);", "w::Owning<1, int> f{ v0 }; op_mark(0);", PARAMS, "bind_back copies nothing", "copy"))
            ws.append(Pair("b_back_rv", "w::Counting<1, int> f{ p0 }; auto g = pigro::bind_back(std::move(f), p1); op_mark(0); g(1); op_note(9, f.state);", "w::Counting<1, int> f{ p0 }; int q = p1; op_mark(0); { auto c = f; c(1, q); } op_note(9, f.state);", PARAMS, "bind_back stores an rvalue callable", "after"))
            ws.append(Pair("b_back_ref", "auto g = pigro::bind_back(Ret2{}, v0); op_ref(0, &v0); op_ref(1, &g(1)); auto h = pigro::bind_back(Ret{}, 1); op_ref(2, &h(v1)); op_ref(3, &v1);", "op_ref(0, &v0); op_ref(1, &v0); op_ref(2, &v1); op_ref(3, &v1);", PARAMS, "bind_back returns references as such", "after"))
        else:
            op = {"fstd": "pigro::bind_front_tuple({f}, {t})", "fct": "pigro::bind_front_tuple({f}, {t})", "bstd": "pigro::bind_back_tuple({f}, {t})", "bct": "pigro::bind_back_tuple({f}, {t})",
                  "opf": "pigro::operator>>({t}, {f})", "opfs": "pigro::operator>>({t}, {f})", "opb": "pigro::operator<<({t}, {f})", "opbs": "pigro::operator<<({t}, {f})"}[how]
            T = "std::tuple" if tup == "std" else "pigro::compressed_tuple"
            gt = "std::get" if tup == "std" else "pigro::get"
            o = (lambda b, c: joined(b, c)) if front else (lambda b, c: joined(c, b))
            ws.append(Pair("b_%s_mod" % how, "%s<int, w::V> t{ p0, v0 }; auto g = %s; op_mark(0); g(); g(i0); %s<0>(t) = 7; g(); op_note(5, %s<0>(t)); op_note(7, i0);" % (T, op.format(f="Bump<1>{}", t="t"), gt, gt),
                           "int a = p0; w::V b = v0; Bump<1> f; op_mark(0); f(a, b); f(%s); a = 7; f(a, b); op_note(5, a); op_note(7, i0);" % o("a, b", "i0"), PARAMS, "%s refers to an lvalue tuple" % how, "after"))
            ws.append(Pair("b_%s_rmod" % how, "%s<int, w::V> t{ p0, v0 }; auto g = %s; op_mark(0); g(); g(i0); g(); op_note(5, %s<0>(t));" % (T, op.format(f="Bump<1>{}", t="std::move(t)"), gt),
                           "int a = p0, c = p0; w::V b = v0; Bump<1> f; op_mark(0); f(a, b); f(%s); f(a, b); op_note(5, c);" % o("a, b", "i0"), PARAMS, "%s stores an rvalue tuple" % how, "after"))
            ws.append(Pair("b_%s_lf" % how, "w::Counting<1, int> f{ p0 }; auto g = %s; op_mark(0); g(1); g(2); op_note(9, f.state); f.state = 77; g(3);" % op.format(f="f", t="%s<int>{ p1 }" % T), "w::Counting<1, int> f{ p0 }; int q = p1; op_mark(0); f(%s); f(%s); op_note(9, f.state); f.state = 77; f(%s);" % tuple(o("q", str(k)) for k in (1, 2, 3)), PARAMS, "%s refers to an lvalue callable" % how, "after"))
            ws.append(Pair("b_%s_mo" % how, "auto g = %s; op_mark(0); w::res(0, g(p0)); w::res(1, g(p1));" % op.format(f="w::OwningMove<1, int>{ std::move(m0) }", t="%s<w::V>{ std::move(v1) }" % T), "w::OwningMove<1, int> f{ std::move(m0) }; w::V x{ std::move(v1) }; op_mark(0); w::res(0, f(%s)); w::res(1, f(%s));" % (o("x", "p0"), o("x", "p1")), PARAMS, "%s of a move-only callable" % how, "after"))
            ws.append(Pair("b_%s_motup" % how, "auto g = %s; op_mark(0); w::res(0, g(p0)); w::res(1, g(p1));" % op.format(f="w::Counting<1, int>{ p0 }", t="%s<w::M, int>{ std::move(m0), p1 }" % T), "w::Counting<1, int> f{ p0 }; w::M x{ std::move(m0) }; int y{ p1 }; op_mark(0); w::res(0, f(%s)); w::res(1, f(%s));" % (o("x, y", "p0"), o("x, y", "p1")), PARAMS, "%s of a tuple with a move-only element" % how, "after"))
            ws.append(Pair("b_%s_copies" % how, "%s<w::V, w::V> t{ v0, v1 }; w::Owning<1, int> f{ v0 }; op_mark(0); auto g = %s; auto h = %s; op_mark(1);" % (T, op.format(f="std::move(f)", t="std::move(t)"), op.format(f="g", t="t").replace("g,", "f,") if False else op.format(f="g", t="t")), "w::V a{ v0 }, b{ v1 }; w::Owning<1, int> f{ v0 }; op_mark(0); op_mark(1);", PARAMS, "%s copies nothing" % how, "copy"))
            ws.append(Pair("b_%s_ptr" % how, "auto g = %s; op_mark(0); w::res(0, g(p1));" % op.format(f="&freefn", t="%s<int, int>{ p0, 5 }" % T), "op_mark(0); w::res(0, freefn(%s));" % o("p0, 5", "p1"), PARAMS, "%s of a function pointer" % how, "after"))
            ws.append(Pair("b_%s_ref" % how, "auto g = %s; op_mark(0); op_ref(0, &v0); op_ref(1, &g(%s)); auto c = g; op_ref(2, &c(%s));" % (op.format(f="Ret{}" if front else "Ret2{}", t="%s<w::V &>{ v0 }" % T), "1", "2"), "op_mark(0); op_ref(0, &v0); op_ref(1, &v0); op_ref(2, &v0);", PARAMS, "%s returns references as such" % how, "after"))
            ws.append(Pair("b_%s_rcall" % how, "auto g = %s; op_mark(0); w::res(0, std::move(g)(p0)); w::res(1, g(p1));" % op.format(f="w::Counting<1, int>{ p0 }", t="%s<w::V, int>{ std::move(v1), p1 }" % T), "w::Counting<1, int> f{ p0 }; w::V x{ std::move(v1) }; int y{ p1 }; op_mark(0); w::res(0, f(%s)); w::res(1, f(%s));" % (o("x, y", "p0"), o("x, y", "p1")), PARAMS, "%s called as an rvalue still passes lvalues" % how, "after"))
            ws.append(Pair("b_%s_cp" % how, "auto g = %s; auto c = g; op_mark(0); g(1); c(2); g(3); c(4);" % op.format(f="w::Counting<1, int>{ p0 }", t="%s<int, w::V>{ p1, v0 }" % T), "w::Counting<1, int> f{ p0 }, h{ p0 }; int x = p1, y = p1; w::V z{ v0 }; op_mark(0); f(%s); h(%s); f(%s); h(%s);" % (o("x, z", "1"), o("y, z", "2"), o("x, z", "3"), o("y, z", "4")), PARAMS, "a copy of a bound callable has its own state", "after"))
            ws.append(Pair("b_%s_nest" % how, "auto g = %s; auto h = %s; op_mark(0); h(9); h(8);" % (op.format(f="w::Counting<1, int>{ p0 }", t="%s<int>{ p1 }" % T), op.format(f="g", t="%s<int>{ 5 }" % T)), "w::Counting<1, int> f{ p0 }; int x = p1, y = 5; op_mark(0); f(%s); f(%s);" % (("x, y, 9", "x, y, 8") if front else ("9, y, x", "8, y, x")), PARAMS, "%s of a bound callable" % how, "after"))
            ws.append(Pair("b_%s_arr" % how, "auto g = %s; op_mark(0); g(p1);" % op.format(f="w::Show<1, int>{}", t="std::array<int, 3>{ p0, 4, p1 }"), "int a = p0, b = 4, c = p1; op_mark(0); w::Show<1, int>{}(%s);" % o("a, b, c", "p1"), PARAMS, "%s of an array" % how, "after"))
            ws.append(Pair("b_%s_pair" % how, "auto g = %s; op_mark(0); g(p1);" % op.format(f="w::Show<1, int>{}", t="std::pair<w::V, int>{ v0, 3 }"), "w::V a = v0; int b = 3; op_mark(0); w::Show<1, int>{}(%s);" % o("a, b", "p1"), PARAMS, "%s of a pair" % how, "after"))
    return ws


BIND_HEAD = ["bind_tuple", "<array>", "<tuple>"]


def c17(rep, tier):
    decide_witnesses(rep, [WitnessUnit("bind", BIND_HEAD, may_throw(bind_pairs(tier), lambda n: n.split("_")[2] in ("none", "i", "ie", "Wi") and n.split("_")[3] in ("0", "2", "4") or n.endswith(("_lf", "_mo", "_rcall", "_motup"))), BI_PRE)], chunk=16)


BS_PRE = AP_PRE + """
template<typename F, typename... A> constexpr bool inv = requires(F &f) { f(std::declval<A>()...); };
template<typename F, typename... A> struct rt { using type = rt; };
template<typename F, typename... A> requires inv<F, A...> struct rt<F, A...> { using type = decltype(std::declval<F &>()(std::declval<A>()...)); };
template<typename F, typename... A> struct it { using type = it; };
template<typename F, typename... A> requires std::is_invocable_v<F &, A...> struct it<F, A...> { using type = std::invoke_result_t<F &, A...>; };
template<typename G, typename F, typename... A> struct eq { template<typename... B> struct front { static constexpr bool value = inv<G, A...> == std::is_invocable_v<F &, B..., A...> && (!inv<G, A...> || std::is_same_v<typename rt<G, A...>::type, typename it<F, B..., A...>::type>); };
  template<typename... B> struct back { static constexpr bool value = inv<G, A...> == std::is_invocable_v<F &, A..., B...> && (!inv<G, A...> || std::is_same_v<typename rt<G, A...>::type, typename it<F, A..., B...>::type>); }; };
struct Un { int n; };
struct P0 { int operator()(); }; struct P1 { char operator()(int) const; }; struct P2 { short &operator()(int &, double) const; int &operator()(double, int &) const; };
struct P3 { void operator()(Un &, int) const; Un &operator()(int, Un &) const; const Un &operator()(const Un &, const char *) const; }; struct P4 { template<typename... T> std::tuple<T &&...> *operator()(T &&...) const; };
struct StaticValue { static constexpr int value = 1; static constexpr int index = 2; using type = int; operator int() const; }; struct StaticIndex { static constexpr std::size_t index = 0; static constexpr std::size_t value = 0; };
struct P5 { template<typename A, typename B, typename C> requires(sizeof(A) == sizeof(C)) std::tuple<A, B, C> operator()(A &&, B &&, C &&); };
struct P6 { w::V operator()(w::V, w::M) const; void operator()(w::M, w::V) const; };
struct P7 { double operator()(int *) &; float operator()(int *) const &; void operator()(Un, Un) &&; };
"""


def c18(rep, tier):
    fs = ["P%d" % k for k in range(8)] + ["int (*)(int, int)", "int Mem::*", "int (Mem::*)(int)"]
    bounds = ["", "int", "double", "Un", "w::V", "w::M", "int, double", "double, int", "int, int", "Un, int", "int, Un", "w::V, w::M", "int *", "Mem", "Un &", "const Un &", "int &", "const char *, Un", "w::E<0>", "int, w::E<0>", "int, int, int"]
    calls = ["", "int", "int &", "const int &", "double", "Un", "Un &", "const Un &", "w::M", "w::M &", "w::V", "const w::V &", "int, int", "int, Un &", "Un, int", "int *", "Mem &", "const char *", "std::nullptr_t", "w::V, w::M", "int, int, int",
             "std::true_type", "std::integral_constant<int, 0>", "StaticValue", "StaticIndex &", "w::VAny", "w::VList", "w::EC", "std::tuple<int>", "std::tuple<> &", "std::nullptr_t, StaticValue", "int (&)[2]", "int (&)(int)"]
    if tier == "basic":
        calls = calls[:14] + calls[15:17] + calls[19:]
    items = []
    for f in fs:
        for bi, b in enumerate(bounds):
            bs = [x.strip() for x in b.split(",")] if b else []
            if "w::M" in bs and False:
                continue
            for how in ("bb", "fs", "fc", "bs", "bc"):
                if how == "bb":
                    g = "decltype(pigro::bind_back(%s))" % joined("std::declval<%s>()" % f, ", ".join("std::declval<%s>()" % x for x in bs))
                else:
                    T = "std::tuple<%s>" % b if how[1] == "s" else "pigro::compressed_tuple<%s>" % b
                    g = "decltype(pigro::%s)" % {"fs": "operator>>(std::declval<%s>(), std::declval<%s>())", "fc": "bind_front_tuple(std::declval<%s>(), std::declval<%s>())", "bs": "bind_back_tuple(std::declval<%s>(), std::declval<%s>())", "bc": "operator<<(std::declval<%s>(), std::declval<%s>())"}[how]
                    g = g % ((f, T) if how in ("fc", "bs") else (T, f))
                # bound values are lvalues of the stored ones
                bl = []
                for x in bs:
                    if x == "w::E<0>" and how[1] == "c":
                        bl.append("w::E<0>")
                    elif x.endswith("&"):
                        bl.append(x)
                    else:
                        bl.append(x + " &")
                cs = " && ".join("eq<%s>::template %s<%s>::value" % (joined("G", f, c), "back" if how[0] == "b" else "front", ", ".join(bl)) for c in calls)
                items.append(Static("[]<typename G>(std::type_identity<G>) { return %s; }(std::type_identity<%s>{})" % (cs, g), "%s of %s with bound (%s) accepts what the callable accepts" % (how, f, b)))
    tmpl = "template<typename X> constexpr bool binds = requires(P4 f, X x) { pigro::operator>>(static_cast<X &&>(x), f); }; template<typename X> constexpr bool bindsb = requires(P4 f, X x) { pigro::operator<<(static_cast<X &&>(x), f); };" \
           "template<typename X> constexpr bool bindf = requires(P4 f, X x) { pigro::bind_front_tuple(f, static_cast<X &&>(x)); }; template<typename X> constexpr bool bindb = requires(P4 f, X x) { pigro::bind_back_tuple(f, static_cast<X &&>(x)); };" \
           "template<typename F, typename G> constexpr bool ov = requires(pigro::overload<F, G> o, int x, double d) { o(x); o(d); };"
    for x, y in (("int", 0), ("Un", 0), ("P4", 0), ("int *", 0), ("std::nullptr_t", 0), ("w::V &", 0), ("std::tuple<>", 1), ("std::tuple<int> &", 1), ("const std::tuple<int> &", 1), ("std::pair<int, Un>", 1), ("std::array<int, 3> &", 1), ("pigro::compressed_tuple<int, Un>", 1), ("const pigro::compressed_tuple<w::E<0>> &", 1), ("user::T3 &", 1)):
        for t in ("binds", "bindsb", "bindf", "bindb"):
            items.append(Static("%s%s<%s>" % ("" if y else "!", t, x), "%s %s as left operand of a binding (%s)" % (x, "is accepted" if y else "is rejected", t)))
    decide_static(rep, [StaticUnit("bind", BIND_HEAD + ["<functional>", W], items, BS_PRE + tmpl)], 40)
    ws = []
    ws.append(Pair("bo_1", "auto o = pigro::overload{ pigro::operator<<(pigro::compressed_tuple{ w::E<0>{} }, [](std::nullptr_t, w::E<0>) { return op_fun(1); }), [](double d) { op_resd(1, d); return op_fun(2); } }; w::res(0, o(nullptr)); w::res(1, o(2.5));", "w::res(0, op_fun(1)); op_resd(1, 2.5); w::res(1, op_fun(2));", PARAMS, "a bound callable takes part in overload resolution"))
    ws.append(Pair("bo_2", "auto o = pigro::overload{ pigro::bind_back([](int a, int b) { op_note(1, a); op_note(2, b); return op_fun(1); }, p0), [](w::V &v) { op_noteo(1, &v); return op_fun(2); } }; w::res(0, o(3)); w::res(1, o(v0));", "op_note(1, 3); op_note(2, p0); w::res(0, op_fun(1)); op_noteo(1, &v0); w::res(1, op_fun(2));", PARAMS, "bind_back takes part in overload resolution"))
    decide_witnesses(rep, [WitnessUnit("bind", BIND_HEAD, ws, BI_PRE)])


# ------------------------------------------------------------------ C19 pack enumeration

PK_PRE = """
template<int id, typename R = int> struct Items {
    int s;
    R operator()(const auto &...items) { op_note(1, s++); op_mark(id); (item(items), ...); op_mark(100 + sizeof...(items)); return w::make<R>(w::from::fun, id); }
    template<typename I> static void item(const I &i) { op_note(2, I::index); w::see(3, std::forward<decltype(i.value)>(i.value)); w::seetype<decltype(i.value)>(4); }
};
template<int id, typename R = int> struct Values {
    R operator()(auto &&...items) const { op_mark(id); (Items<1>::item(items), ...); op_mark(100 + sizeof...(items)); return w::make<R>(w::from::fun, id); }
};
struct VoidF { void operator()(auto &&...items) const { (Items<1>::item(items), ...); } };
template<typename... T> struct types { template<typename... U> static constexpr bool is = std::is_same_v<types, types<U...>>; };
struct Types { auto operator()(auto &&...items) const { return types<decltype(items.value)...>{}; } };
struct Index { auto operator()(auto &&...items) const { return std::index_sequence<std::remove_cvref_t<decltype(items)>::index...>{}; } };
struct Const { int operator()(auto &&...) const { return 1; } char operator()(auto &&...) { return 2; } };
template<std::size_t k> inline void refitem(auto &&x) { op_note(2, k); w::see(3, W_FWD(x)); w::seetype<decltype(x)>(4); }
"""


def c19(rep, tier):
    ws = []
    pool = ["v0", "std::as_const(v0)", "std::move(v1)", "std::move(m0)", "p0", "i0", "7", "std::as_const(i0)", "2.5", "std::move(std::as_const(v0))", "m0"]
    lists = [[]] + [[x] for x in pool] + [list(p) for p in itertools.permutations(pool[:6], 2)] + [["v0", "v0"], ["v0", "v0", "v0"], ["p0", "p1", "p0", "p1"]]
    odd = ["std::move(nA)", "nL", "std::move(nL)", "std::move(nO)", "nB", "std::move(nP)", "nF", "std::as_const(nO)", "nA", "nullptr", "w::EC{}", "w::P1{ p0 }", "w::P3{ p1, 'x', 2 }", "true", "2.5f",
           "std::tuple<int>{ p0 }", "w::E<1>{}", "std::true_type{}", "&i0", "static_cast<unsigned char>(p0)"]
    lists += [[x] for x in odd] + [["p0", x] for x in odd] + [[x, y] for x, y in zip(odd[6:], odd)]
    lists += [["v0", "std::move(v1)", "p0"], ["p0", "std::as_const(v0)", "i0"], ["7", "2.5", "i0"], ["m0", "v0", "7", "i0"]]
    for n in arities(tuple(range(4, 8)) + (11, 17, 33), 40):
        lists.append((["p0", "i0", "v0", "7", "std::as_const(v0)"] * n)[:n])
        lists.append((["7"] * n)[:n])
    for j, l in enumerate(lists):
        items = " ".join("refitem<%d>(%s);" % (k, x) for k, x in enumerate(l))
        pre = "op_ref(90, &v0); op_ref(91, &v1); op_ref(92, &m0); op_ref(93, &i0); " + "".join("%s n%s(%s); " % (ODDS[x], x, CT[x][1].format(k=1)) for x in ODDS if any("n" + x in y for y in l)) + "op_mark(0);"
        ws.append(Pair("pk_%d" % j, "%s Items<1> f{ p0 }; w::res(0, pigro::enumerate_pack(%s)); op_note(9, f.s);" % (pre, joined("f", ", ".join(l))),
                       "%s op_note(1, p0); op_mark(1); %s op_mark(%d); w::res(0, op_fun(1)); op_note(9, p0 + 1);" % (pre, items, 100 + len(l)), PARAMS, "enumerate_pack(f, %s)" % ", ".join(l), "all"))
        if j % 3 == 0:
            ws.append(Pair("pkv_%d" % j, "%s w::res(0, pigro::enumerate_pack(%s));" % (pre, joined("Values<1, w::V>{}", ", ".join(l))),
                           "%s op_mark(1); %s op_mark(%d); w::res(0, w::make<w::V>(w::from::fun, 1));" % (pre, items, 100 + len(l)), PARAMS, "enumerate_pack(temporary, %s), result of class type" % ", ".join(l), "copy"))
            ws.append(Pair("pkn_%d" % j, "%s pigro::enumerate_pack(%s);" % (pre, joined("VoidF{}", ", ".join(l))), "%s %s" % (pre, items), PARAMS, "enumerate_pack(void function, %s)" % ", ".join(l), "all"))
    for n in arities(tuple(range(0, 9)) + (17, 33), 40):
        items = " ".join("refitem<%d>(std::size_t{ %d });" % (k, k) for k in range(n))
        ws.append(Pair("en_%d" % n, "Items<1> f{ p0 }; w::res(0, pigro::enumerate_n<%d>(f)); op_note(9, f.s);" % n, "op_note(1, p0); op_mark(1); %s op_mark(%d); w::res(0, op_fun(1)); op_note(9, p0 + 1);" % (items, 100 + n), PARAMS, "enumerate_n<%d>" % n, "all"))
    decide_witnesses(rep, [WitnessUnit("pack", ["pack_algorithms"], may_throw(ws, lambda n: n.endswith(("0", "3", "7")) and int(n.split("_")[1]) < 90), PK_PRE)], chunk=12)
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))
    ts = ["int &", "const int &", "int &&", "const int &&", "volatile int &", "w::M &", "w::M &&", "std::tuple<int> &", "std::tuple<int> &&", "const std::tuple<> &", "std::tuple<int, int> &&", "std::pair<int, int> &", "int (&)[3]", "void (&)()", "void *&&", "std::tuple<int &> &&", "const w::V &&"]
    for x in ts:
        a("decltype(pigro::enumerate_pack(Types{}, std::declval<%s>()))::is<%s>" % (x, x), "an item of %s has that type" % x)
        for y in ts[:8]:
            a("decltype(pigro::enumerate_pack(Types{}, std::declval<%s>(), std::declval<%s>()))::is<%s, %s>" % (x, y, x, y))
    for t in ODD:
        for q in ("&", "const &", "&&", "const &&"):
            x = "std::type_identity_t<%s> %s" % (t, q)
            a("decltype(pigro::enumerate_pack(Types{{}}, std::declval<{0}>()))::is<{0}> && decltype(pigro::enumerate_pack(Types{{}}, 1, std::declval<{0}>()))::is<int &&, {0}>".format(x), "an item of %s has that type" % x)
    for n in arities(tuple(range(0, 10)) + (17, 33, 65, 257), 258):
        if n < 100:
            a("std::is_same_v<decltype(pigro::enumerate_pack(Index{}%s)), std::make_index_sequence<%d>>" % (", 0" * n, n), "%d items are numbered 0 to n-1" % n)
        a("std::is_same_v<decltype(pigro::enumerate_n<%d>(Index{})), std::make_index_sequence<%d>>" % (n, n))
    a("std::is_same_v<decltype(pigro::enumerate_pack(std::declval<const Const &>(), 1)), int> && std::is_same_v<decltype(pigro::enumerate_pack(std::declval<Const &>(), 1)), char>")
    decide_static(rep, [StaticUnit("pack", ["pack_algorithms", "compressed_tuple", W] + ODD_HEAD, items, ODD_PRE + PK_PRE)])


# ------------------------------------------------------------------ C20 type lists

PT_PRE = """
struct A {}; struct B {}; struct C { int x; }; enum class Z {}; template<int k> struct X {}; template<int k> struct Y { int y; };
template<typename T> struct never : std::false_type {}; template<typename T> struct always : std::true_type {};
template<typename T> struct small { static constexpr bool value = sizeof(T) < 4; };
template<typename... T> using L = pigro::typelist<T...>;
template<typename P, typename Q> constexpr bool same = std::is_same_v<P, Q>;
template<typename P, typename Q> constexpr bool eq() { if constexpr (requires(P p, Q q) { bool(p == q); }) return P{} == Q{}; else return false; }
"""
PT_TYPES = {"A": (1, 0, 0, 1), "B": (1, 0, 0, 1), "C": (0, 0, 0, 0), "int": (0, 1, 0, 0), "char": (0, 1, 0, 1), "Z": (0, 0, 0, 0), "int *": (0, 0, 1, 0), "const A": (1, 0, 0, 1), "std::tuple<>": (1, 0, 0, 1)}
PT_TRAITS = ["std::is_empty", "std::is_integral", "std::is_pointer", "small"]

# qualified, referring and other types that are not objects:  is_const, is_reference, is_void, is_volatile, is_array, is_function
PT_TRAITS2 = ["std::is_const", "std::is_reference", "std::is_void", "std::is_volatile", "std::is_array", "std::is_function", "std::is_class"]
PT_TYPES2 = {"const int": (1, 0, 0, 0, 0, 0, 0), "int": (0, 0, 0, 0, 0, 0, 0), "A &": (0, 1, 0, 0, 0, 0, 0), "A &&": (0, 1, 0, 0, 0, 0, 0), "const A &": (0, 1, 0, 0, 0, 0, 0), "const A": (1, 0, 0, 0, 0, 0, 1), "A": (0, 0, 0, 0, 0, 0, 1),
             "void": (0, 0, 1, 0, 0, 0, 0), "const void": (1, 0, 1, 0, 0, 0, 0), "volatile A": (0, 0, 0, 1, 0, 0, 1), "const volatile char": (1, 0, 0, 1, 0, 0, 0), "int[3]": (0, 0, 0, 0, 1, 0, 0), "const int[]": (1, 0, 0, 0, 1, 0, 0),
             "int(int)": (0, 0, 0, 0, 0, 1, 0), "int (&)(int)": (0, 1, 0, 0, 0, 0, 0), "void() const": (0, 0, 0, 0, 0, 1, 0), "L<int>": (0, 0, 0, 0, 0, 0, 1), "L<>": (0, 0, 0, 0, 0, 0, 1), "struct Incomplete": (0, 0, 0, 0, 0, 0, 1),
             "pigro::type_<int>": (0, 0, 0, 0, 0, 0, 1)}


def c20(rep, tier):
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))

    def lst(l):
        return "L<%s>" % ", ".join(l)
    names = list(PT_TYPES)
    cases = [[]] + [[x] for x in names] + [list(p) for p in itertools.product(names, repeat=2)]
    core = ["A", "C", "B"]
    cases += [list(p) for n in (3, 4) for p in itertools.product(core, repeat=n)]
    if tier != "basic":
        cases += [list(p) for p in itertools.product(core, repeat=6)]
        cases += [list(p) for p in itertools.product(names, repeat=3)]
    for n in arities((5, 6, 7, 8, 12, 16, 24, 32), 64):
        cases.append((["A", "int", "B", "C", "char"] * n)[:n])
        cases.append(["X<%d>" % k if k % 2 else "Y<%d>" % k for k in range(n)])
        cases.append(["Y<%d>" % k if k % 3 else "X<%d>" % k for k in range(n)])
        cases.append(["X<%d>" % k for k in range(n)])
        cases.append(["Y<%d>" % k for k in range(n)])
    for c in cases:
        for ti, tr in enumerate(PT_TRAITS):
            if ti > 0 and (any(x[:2] in ("X<", "Y<") for x in c) or len(c) > 2 and ti != 1):
                continue
            def val(x):
                if x.startswith("X<"):
                    return 1
                if x.startswith("Y<"):
                    return 0
                return PT_TYPES[x][ti]
            yes, no = [x for x in c if val(x)], [x for x in c if not val(x)]
            a("same<pigro::partition_t<%s>, %s> && same<decltype(pigro::filter_if(%s{}, pigro::predicate<%s>)), %s> && same<decltype(pigro::partition(%s{}, pigro::predicate<%s>)), %s> && same<decltype(pigro::filter_if(%s{}, !pigro::predicate<%s>)), %s> && same<decltype(pigro::partition(%s{}, !pigro::predicate<%s>)), %s>" % (
                joined(tr, ", ".join(c)), lst(yes + no), lst(c), tr, lst(yes), lst(c), tr, lst(yes + no), lst(c), tr, lst(no), lst(c), tr, lst(no + yes)), "partition and filter of %s by %s" % (c if len(c) < 9 else "%d types" % len(c), tr))
        if len(c) < 5:
            a("same<pigro::partition_t<%s>, %s> && same<pigro::partition_t<%s>, %s> && same<decltype(pigro::filter_if(%s{}, pigro::predicate<never>)), L<>>" % (joined("always", ", ".join(c)), lst(c), joined("never", ", ".join(c)), lst(c), lst(c)), "constant predicates on %s" % c)
    for tr in PT_TRAITS2:
        k = PT_TRAITS2.index(tr)
        for c in [[x] for x in PT_TYPES2] + [list(q) for q in itertools.product(PT_TYPES2, repeat=2)] + [list(PT_TYPES2) + list(PT_TYPES2)[::-1]]:
            yes, no = [x for x in c if PT_TYPES2[x][k]], [x for x in c if not PT_TYPES2[x][k]]
            a("same<pigro::partition_t<%s>, %s> && same<decltype(pigro::filter_if(%s{}, pigro::predicate<%s>)), %s> && same<decltype(pigro::filter_if(%s{}, !pigro::predicate<%s>)), %s>" % (
                joined(tr, ", ".join(c)), lst(yes + no), lst(c), tr, lst(yes), lst(c), tr, lst(no)), "partition and filter of %s by %s" % (c, tr))
    for ti, tr in enumerate(PT_TRAITS):
        for x, v in PT_TYPES.items():
            a("pigro::predicate<{0}>(pigro::type_c<{1}>) == {2} && (!pigro::predicate<{0}>)(pigro::type_c<{1}>) == {3} && (!!pigro::predicate<{0}>)(pigro::type_c<{1}>) == {2} && (!!!pigro::predicate<{0}>)(pigro::type_c<{1}>) == {3} && same<decltype(pigro::type_c<{1}>)::type, {1}>".format(tr, x, "true" if v[ti] else "false", "false" if v[ti] else "true"), "predicate %s of %s and its negations" % (tr, x))
    parts = [[], ["int"], ["A", "A"], ["C", "int", "A"]]
    for n in range(0, 5):
        for p in itertools.product(parts, repeat=n):
            if n == 4 and len({tuple(x) for x in p}) < 4:
                continue
            a("same<decltype(pigro::concat(%s)), %s>" % (", ".join(lst(x) + "{}" for x in p), lst(sum(p, []))), "concatenation of %s" % (p,))
    for n in arities((5, 8), 24):
        a("same<decltype(pigro::concat(%s)), %s>" % (", ".join("L<X<%d>>{}" % k for k in range(n)), lst(["X<%d>" % k for k in range(n)])), "concatenation of %d lists" % n)
    ls = [lst(x) for x in ([], ["int"], ["int", "int"], ["A"], ["const A"], ["int &"], ["int", "A"], ["A", "int"], ["A", "B"], ["L<int>"], ["L<>"])]
    for x in ls:
        for y in ls:
            a("eq<%s, %s>() == %s" % (x, y, "true" if x == y else "false"), "%s and %s compare %s" % (x, y, "equal" if x == y else "unequal"))
    for x, y in itertools.product(ls, ls):
        e = "L<" + joined(x[2:-1], y[2:-1]) + ">"
        a("same<decltype(%s{} + %s{}), %s>" % (x, y, e))
    decide_static(rep, [StaticUnit("partition", ["partition", "<type_traits>", "<tuple>"], items, PT_PRE)], 60)


# ------------------------------------------------------------------ C21 transform, any

TA_PRE = """
// (whether an element that is a reference is seen as const is left open)
struct Val { static void see(auto &&x) { w::see(2, W_FWD(x)); } }; struct Ref { static void see(auto &x) { w::see(2, std::as_const(x)); op_ref(3, &x); } };
template<typename R, typename S = Val> struct Proj { int k; R operator()(auto &&x) const { op_note(1, k); S::see(W_FWD(x)); return w::make<R>(w::from::fun, 1); } };
struct ProjM { mutable int k; int operator()(auto &&x) const { op_note(1, k++); w::see(2, W_FWD(x)); return op_fun(1); } }; struct PredM { mutable int k; bool operator()(auto &&x) const { op_note(1, k++); w::see(2, W_FWD(x)); return ob_pred(1); } };
struct ToRef { const w::V &operator()(const w::V &x) const { return x; } };
struct ToTup { std::tuple<int> operator()(const int &x) const { return std::tuple<int>{ x }; } };
template<typename S = Val> struct Pred { int k; bool operator()(auto &&x) const { op_note(1, k); S::see(W_FWD(x)); return ob_pred(1); } };
template<typename S = Val> struct PredI { int operator()(auto &&x) const { S::see(W_FWD(x)); return op_fun(1); } };
struct Arr { const char (&operator()(const auto &) const)[4]; }; struct ArrP { int (*operator()(const auto &) const)[3]; }; struct Func { int (&operator()(const auto &) const)(int); }; struct CRef { const int &operator()(const auto &) const; }; struct RRef { w::V &&operator()(const auto &) const; }; struct CVal { const w::V operator()(const auto &) const; }; struct VRef { volatile long &operator()(const auto &) const; };
struct Bool { bool b; constexpr operator bool() const { return b; } bool operator==(bool) const = delete; };
struct Flag { int id; explicit operator bool() const { op_note(3, id); return ob_pred(2); } };
struct Twice { constexpr auto operator()(const auto &x) const { return x + x; } };
struct AsTuple { constexpr auto operator()(const auto &x) const { return std::tuple{ x, x }; } };
struct One { constexpr auto operator()(const auto &x) const { return std::tuple{ x }; } };
struct Odd { constexpr bool operator()(const auto &x) const { return x % 2 != 0; } };
struct Truthy { constexpr explicit operator bool() const { return b; } bool b; };
struct Count { int n; constexpr auto operator()(const auto &x) const { return x * 10 + n; } };
struct TypeOf { template<typename T> constexpr auto operator()(T &&) const { return std::type_identity<T &&>{}; } };
"""


def c21(rep, tier):
    ws = []
    pre = "op_ref(90, &v0); op_ref(91, &v1); op_ref(92, &i0);"
    specs = ["", "i", "V", "M", "R", "S", "ij", "Vi", "iV", "SR", "dci", "VUi", "iMV"] + list(ODDL) + ["AL", "OB", "iH", "PFG", "EYi"]
    for n in arities(tuple(range(4, 7)) + (8, 11, 13, 17), 24):
        specs.append(("idl" * n)[:n])
    for s in dict.fromkeys(specs):
        ty = ", ".join(CT[x][0].format(k=k) for k, x in enumerate(s))
        decl = "std::tuple<%s> t%s;" % (ty, "{ %s }" % ", ".join(ct_inits(s)) if s else "")
        # what a const tuple shows
        el = ["x%d" % k if x in "RS" else "std::as_const(x%d)" % k for k, x in enumerate(s)]
        # f takes a const reference to the element whatever it is
        el = ["std::as_const(x%d)" % k for k, x in enumerate(s)]
        for q in ("t", "std::as_const(t)", "std::move(t)"):
            for rt in ("int", "w::V", "double", "bool"):
                if (q != "t" or rt in ("double", "bool")) and len(s) != 2:
                    continue
                body = "%s %s op_mark(1); auto r = pigro::transform(%s, Proj<%s>{ p1 }); static_assert(std::is_same_v<decltype(r), std::tuple<%s>>); op_mark(2); %s %s op_mark(3);" % (
                    pre, decl, q, rt if not any(x in REFS for x in s) else rt + ", Ref", ", ".join([rt] * len(s)), " ".join("w::value(%d, std::get<%d>(r));" % (k, k) for k in range(len(s))), " ".join("w::value(%d, std::get<%d>(t));" % (k + 30, k) for k in range(len(s))))
                ref = "%s %s op_mark(1); %s op_mark(2); %s %s op_mark(3);" % (pre, rdecl(s), " ".join("op_note(1, p1); w::see(2, %s); %s%s y%d(w::make<%s>(w::from::fun, 1));" % (e, "op_ref(3, &x%d); " % k if any(x in REFS for x in s) else "", rt, k, rt) for k, e in enumerate(el)),
                                                                             " ".join("w::value(%d, y%d);" % (k, k) for k in range(len(s))), " ".join("w::value(%d, x%d);" % (k + 30, k) for k in range(len(s))))
                ws.append(Pair("tr_%s_%s_%d" % (s or "none", rt.strip("w:"), len(q)), body, ref, PARAMS, "transform(%s, f) of a tuple of %s, results %s" % (q, s, rt), "copy"))
        for q in ("t", "std::as_const(t)"):
            if q != "t" and len(s) != 2:
                continue
            S = "Ref" if any(x in REFS for x in s) else "Val"
            rr = "op_ref(3, &{e}); " if S == "Ref" else ""
            for pr, call in (("Pred<%s>{ p1 }" % S, "op_note(1, p1); w::see(2, {e}); " + rr + "if (ob_pred(1)) {{ {y} }}"), ("PredI<%s>{}" % S, "w::see(2, {e}); " + rr + "if (op_fun(1)) {{ {y} }}")):
                body = "%s %s op_mark(1); if (pigro::any(%s, %s)) op_mark(2); else op_mark(3);" % (pre, decl, q, pr)
                ref = "%s %s op_mark(1); auto go = [&] { %s return false; }; if (go()) op_mark(2); else op_mark(3);" % (pre, rdecl(s), " ".join(call.format(e=e, y="return true;") for e in el))
                ws.append(Pair("any_%s_%d_%d" % (s or "none", len(q), len(pr)), body, ref, PARAMS, "any(%s, p) of a tuple of %s" % (q, s), "after"))
    for s in ("i", "ij", "Vi", "iV", "idl", "VUi", "idlidl", "idlidlid"):
        # f and p keep their state from element to element
        el = ["std::as_const(x%d)" % k for k in range(len(s))]
        decl = "%s std::tuple<%s> t{ %s }; op_mark(1);" % (pre, ", ".join(CT[x][0].format(k=k) for k, x in enumerate(s)), ", ".join(ct_inits(s)))
        rd = "%s %s op_mark(1);" % (pre, rdecl(s))
        ws.append(Pair("trm_" + s, decl + " auto r = pigro::transform(t, ProjM{ p1 }); op_mark(2); " + " ".join("op_note(5, std::get<%d>(r));" % k for k in range(len(s))),
                       rd + " " + " ".join("op_note(1, p1 + %d); w::see(2, %s); int y%d = op_fun(1);" % (k, e, k) for k, e in enumerate(el)) + " op_mark(2); " + " ".join("op_note(5, y%d);" % k for k in range(len(s))),
                       PARAMS, "transform(t, f) of a tuple of %s, f with a state" % s, "copy"))
        ws.append(Pair("anym_" + s, decl + " if (pigro::any(t, PredM{ p1 })) op_mark(2); else op_mark(3);",
                       rd + " auto go = [&] { %s return false; }; if (go()) op_mark(2); else op_mark(3);" % " ".join("op_note(1, p1 + %d); w::see(2, %s); if (ob_pred(1)) { return true; }" % (k, e) for k, e in enumerate(el)),
                       PARAMS, "any(t, p) of a tuple of %s, p with a state" % s, "copy"))
    ws.append(Pair("tr_pair", "std::pair<w::V, int> t{ v0, p0 }; op_mark(1); auto r = pigro::transform(t, Proj<int>{ p1 }); op_note(5, std::get<0>(r)); op_note(6, std::get<1>(r));", "w::V a{ v0 }; int b = p0; op_mark(1); op_note(1, p1); w::see(2, std::as_const(a)); int x = op_fun(1); op_note(1, p1); w::see(2, std::as_const(b)); int y = op_fun(1); op_note(5, x); op_note(6, y);", PARAMS, "transform of a pair", "after"))
    ws.append(Pair("tr_arr", "std::array<int, 3> t{ p0, 2, p1 }; op_mark(1); auto r = pigro::transform(t, Proj<int>{ p1 }); op_note(5, std::get<0>(r)); op_note(6, std::get<2>(r));", "int a[3] = { p0, 2, p1 }; int r[3]; op_mark(1); op_note(1, p1); w::see(2, std::as_const(a[0])); r[0] = op_fun(1); op_note(1, p1); w::see(2, std::as_const(a[1])); r[1] = op_fun(1); op_note(1, p1); w::see(2, std::as_const(a[2])); r[2] = op_fun(1); op_note(5, r[0]); op_note(6, r[2]);", PARAMS, "transform of an array", "after"))
    ws.append(Pair("tr_ref", "std::tuple<w::V, w::V> t{ v0, v1 }; op_mark(1); auto r = pigro::transform(t, ToRef{}); op_mark(2); op_noteo(1, &std::get<0>(r)); op_noteo(2, &std::get<1>(r)); std::get<0>(t) = v1; op_noteo(1, &std::get<0>(r));", "w::V a{ v0 }, b{ v1 }; op_mark(1); w::V c{ a }, d{ b }; op_mark(2); op_noteo(1, &c); op_noteo(2, &d); a = v1; op_noteo(1, &c);", PARAMS, "transform keeps values, not references", "copy"))
    for n in arities(range(0, 6), 10):
        decl = "std::tuple<%s> t%s;" % (", ".join(["Flag"] * n), "{ %s }" % ", ".join("Flag{ %d }" % (k + 5) for k in range(n)) if n else "")
        ref = "auto go = [&] { %s return false; }; if (go()) op_mark(2); else op_mark(3);" % " ".join("op_note(3, %d); if (ob_pred(2)) return true;" % (k + 5) for k in range(n))
        ws.append(Pair("anyid_%d" % n, "%s if (pigro::any(t)) op_mark(2); else op_mark(3);" % decl, ref, PARAMS, "any of %d elements themselves" % n, "none"))
        args = ["p0 + %d" % k if k % 2 else "p1 == %d" % k for k in range(n)]
        decl = "std::tuple<%s> t%s;" % (", ".join("int" if k % 2 else "bool" for k in range(n)), "{ %s }" % ", ".join(args) if n else "")
        if n < 3:
            ref = "auto go = [&] { %s return false; }; if (go()) op_mark(2); else op_mark(3);" % " ".join("if (%s) return true;" % x for x in args)
            ws.append(Pair("anyint_%d" % n, "%s if (pigro::any(t)) op_mark(2); else op_mark(3);" % decl, ref, PARAMS, "any of %d flags" % n, "none"))
    decide_witnesses(rep, [WitnessUnit("tuples", ["tuple_algorithms", "<array>"], may_throw(ws, lambda n: n.split("_")[1] in ("i", "ij", "V", "iV", "none", "idl", "ref", "0", "2")), CT_PRE + TA_PRE)], chunk=12)
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))
    for n in arities(range(0, 9), 24):
        vals = [str(k * 3 + 1) for k in range(n)]
        a("pigro::transform(std::tuple{%s}, Twice{}) == std::tuple{%s}" % (", ".join(vals), ", ".join(str(2 * int(x)) for x in vals)), "transform of %d constants" % n)
        a("std::is_same_v<decltype(pigro::transform(std::tuple<%s>{}, AsTuple{})), std::tuple<%s>>" % (", ".join(["int"] * n), ", ".join(["std::tuple<int, int>"] * n)), "%d results that are tuples stay apart" % n)
        a("std::is_same_v<decltype(pigro::transform(std::tuple<%s>{}, One{})), std::tuple<%s>>" % (", ".join(["int"] * n), ", ".join(["std::tuple<int>"] * n)))
        a("!pigro::any(std::tuple<%s>{%s}) && !pigro::any(std::tuple<%s>{%s}, Odd{})" % (", ".join(["bool"] * n), ", ".join(["false"] * n), ", ".join(["int"] * n), ", ".join(["2"] * n)), "any of %d false elements" % n)
        for k in range(n):
            if n > 9 and k % 5:
                continue
            fl = ["true" if j == k else "false" for j in range(n)]
            a("pigro::any(std::tuple{%s}) && pigro::any(std::tuple{%s}, Odd{})" % (", ".join(fl), ", ".join("3" if j == k else "4" for j in range(n))), "any of %d with element %d true" % (n, k))
        a("std::is_same_v<decltype(pigro::transform(std::declval<const std::tuple<%s> &>(), TypeOf{})), std::tuple<%s>>" % (", ".join(["int", "double", "const char", "w::M", "bool"][k % 5] for k in range(n)), ", ".join(["std::type_identity<const int &>", "std::type_identity<const double &>", "std::type_identity<const char &>", "std::type_identity<const w::M &>", "std::type_identity<const bool &>"][k % 5] for k in range(n))), "f gets const references to %d elements" % n)
    for t in ODD:
        a("std::is_same_v<decltype(pigro::transform(std::declval<std::tuple<int>>(), Makes<{0}>{{}})), std::tuple<{0}>> && std::is_same_v<decltype(pigro::transform(std::declval<std::tuple<int, char>>(), Makes<{0}>{{}})), std::tuple<{0}, {0}>>".format(t), "results of type %s" % t)
        a("std::is_same_v<decltype(pigro::transform(std::declval<const std::tuple<{0}> &>(), TypeOf{{}})), std::tuple<std::type_identity<std::type_identity_t<{0}> const &>>> && std::is_same_v<decltype(pigro::transform(std::declval<std::tuple<int, {0}>>(), TypeOf{{}})), std::tuple<std::type_identity<const int &>, std::type_identity<std::type_identity_t<{0}> const &>>>".format(t), "f gets a const reference to a %s" % t)
    a("pigro::transform(std::pair{ 1, 2 }, Count{ 3 }) == std::tuple{ 13, 23 } && pigro::transform(std::array{ 1, 2, 3 }, Count{ 4 }) == std::tuple{ 14, 24, 34 }")
    a("pigro::any(std::pair{ 0, 1 }) && !pigro::any(std::array{ 0, 0 }) && pigro::any(std::array{ 0, 0, 5 }) && pigro::any(std::tuple{ Truthy{ false }, Truthy{ true } }) && !pigro::any(std::tuple{ Truthy{ false } })")
    a("std::is_same_v<decltype(pigro::transform(std::tuple{ 1, 2.5 }, std::identity{})), std::tuple<int, double>>")
    for f, t in (("Arr", "const char *"), ("ArrP", "int (*)[3]"), ("Func", "int (*)(int)"), ("CRef", "int"), ("RRef", "w::V"), ("CVal", "w::V"), ("VRef", "long")):
        a("std::is_same_v<decltype(pigro::transform(std::declval<std::tuple<int> &>(), {0}{{}})), std::tuple<{1}>> && std::is_same_v<decltype(pigro::transform(std::declval<std::tuple<int, w::V> &>(), {0}{{}})), std::tuple<{1}, {1}>>".format(f, t), "results as values (%s)" % f)
    a("pigro::any(std::tuple{ Bool{ false }, Bool{ true } }) && !pigro::any(std::tuple{ Bool{ false } }) && pigro::any(std::tuple{ 1, 2 }, [](int x) { return Bool{ x == 2 }; })", "predicates that give something convertible to bool")
    decide_static(rep, [StaticUnit("tuples", ["tuple_algorithms", "compressed_tuple", W] + ODD_HEAD, items, TA_PRE + ODD_PRE + "template<typename R> struct Makes { R operator()(const auto &) const; };\n")])


# ------------------------------------------------------------------ C22 qualifiers

QL_PRE = """
struct S { int x; };
template<typename L, typename T> using fl = decltype(pigro::forward_like<L>(std::declval<T>()));
template<typename L, typename T> constexpr bool flnx = noexcept(pigro::forward_like<L>(std::declval<T>()));
constexpr int ce() { int x = 3; pigro::forward_like<int &>(x) = 4; const int &c = x; pigro::as_nonconst(c) += 5; return x + pigro::forward_like<int>(x) + pigro::forward_like<const int &>(x); }
"""


def c22(rep, tier):
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))
    cvs = ["", "const ", "volatile ", "const volatile "]
    refs = ["", " &", " &&"]
    bases = ["int", "S", "w::M", "S *", "w::V", "int[3]", "double"] if tier == "basic" else ["int", "S", "w::M", "w::V", "S *", "int[3]", "double", "void (*)()", "std::tuple<int &>"]

    def ty(b, cv, r):
        if b.endswith("]"):
            return "%sint%s[3]" % (cv, "(%s)" % r.strip() if r else "")
        if "(*" in b:
            return "std::add_%s" % 0
        return "%s %s%s" % (b, cv.strip(), r)
    for fb in ("int", "S", "double *"):
        for fcv in cvs:
            for fr in refs:
                f = "%s %s%s" % (fb, fcv.strip(), fr)
                for b in bases:
                    if "(*" in b:
                        continue
                    cs = []
                    want = ty(b, fcv, fr)
                    for tcv in cvs:
                        for tr in refs:
                            cs.append("std::is_same_v<pigro::like_t<%s, %s>, %s>" % (f, ty(b, tcv, tr), want))
                    a(" && ".join(cs), "like_t<%s, any %s> is %s" % (f, b, want))
                    # forward_like: x may have fewer qualifiers; an rvalue may become an rvalue, an lvalue anything
                    cs = []
                    out = ty(b, fcv, fr if fr else " &&")
                    for tcv in cvs:
                        if ("const" in tcv and "const" not in fcv) or ("volatile" in tcv and "volatile" not in fcv):
                            continue
                        for tr in (" &", " &&", ""):
                            if fr == " &" and tr != " &":
                                continue
                            src = ty(b, tcv, tr)
                            if b.endswith("]") and tr == "":
                                continue
                            cs.append("std::is_same_v<fl<%s, %s>, %s> && flnx<%s, %s>" % (f, src, out, f, src))
                    if cs:
                        a(" && ".join(cs), "forward_like<%s>(%s) is %s and does not throw" % (f, b, out))
    for b in bases:
        if "(*" in b:
            continue
        for cv in cvs:
            a("std::is_same_v<decltype(pigro::as_nonconst(std::declval<%s>())), %s> && noexcept(pigro::as_nonconst(std::declval<%s>()))" % (ty(b, cv, " &"), ty(b, "", " &"), ty(b, cv, " &")), "as_nonconst of a %s%s lvalue" % (cv, b))
            if not b.endswith("]"):
                a("std::is_same_v<decltype(pigro::as_nonconst(std::declval<%s>())), %s> && noexcept(pigro::as_nonconst(std::declval<%s>()))" % (ty(b, cv, " &&"), ty(b, "", " &&"), ty(b, cv, " &&")), "as_nonconst of a %s%s rvalue" % (cv, b))
    a("ce() == 27", "constant expressions")
    decide_static(rep, [StaticUnit("qualifiers", ["forward_like", "utils", "<tuple>", W], items, QL_PRE)])
    pre = "#include <utility>\n"
    decide_rejects(rep, [
        Reject("fl_rvalue_lvalue", ["forward_like"], "int f(int x) { return pigro::forward_like<int &>(std::move(x)); }", "int f(int x) { return pigro::forward_like<int &&>(std::move(x)); }", "an rvalue forwarded as an lvalue"),
        Reject("fl_drop_const", ["forward_like"], "int f(const int x) { return pigro::forward_like<int &>(x); }", "int f(const int x) { return pigro::forward_like<const int &>(x); }", "a const object forwarded as non-const"),
    ])
    ws = []
    exprs = [("pigro::forward_like<int &>(v0)", "v0"), ("pigro::forward_like<const int &>(v0)", "std::as_const(v0)"), ("pigro::forward_like<int>(v0)", "std::move(v0)"), ("pigro::forward_like<int &&>(v0)", "std::move(v0)"),
             ("pigro::forward_like<const int>(v0)", "std::move(std::as_const(v0))"), ("pigro::forward_like<const int &>(std::as_const(v0))", "std::as_const(v0)"), ("pigro::forward_like<double &&>(std::move(m0))", "std::move(m0)"),
             ("pigro::as_nonconst(v0)", "v0"), ("pigro::as_nonconst(std::as_const(v0))", "v0"), ("pigro::as_nonconst(std::move(v0))", "std::move(v0)"), ("pigro::as_nonconst(std::move(std::as_const(v0)))", "std::move(v0)"), ("pigro::as_nonconst(std::as_const(m0))", "m0"), ("pigro::as_nonconst(std::as_const(i0))", "i0"), ("pigro::forward_like<w::V &>(i0)", "i0"), ("pigro::forward_like<w::V>(i0)", "std::move(i0)")]
    for j, (e, r) in enumerate(exprs):
        pre = "op_ref(0, &v0); op_ref(1, &m0); op_ref(2, &i0); op_mark(0); "
        ws.append(Pair("ql_%d" % j, pre + "{ auto &&x = %s; w::see(1, static_cast<decltype(x)>(x)); op_ref(3, &x); } op_mark(1);" % e, pre + "{ auto &&x = %s; w::see(1, static_cast<decltype(x)>(x)); op_ref(3, &x); } op_mark(1);" % r, PARAMS, e + " is the object itself", "all"))
    for x in ODDL:
        t, i = CT[x][0], CT[x][1].format(k=2)
        d = "%s n(%s); op_ref(1, std::addressof(n)); op_mark(0); " % (t, i)
        for j, (e, r) in enumerate([("pigro::forward_like<int &>(n)", "n"), ("pigro::forward_like<const int &>(n)", "std::as_const(n)"), ("pigro::forward_like<double>(n)", "std::move(n)"), ("pigro::forward_like<const w::V &&>(std::move(n))", "std::move(std::as_const(n))"), ("pigro::as_nonconst(std::as_const(n))", "n"), ("pigro::as_nonconst(std::move(std::as_const(n)))", "std::move(n)")]):
            use = "{ auto &&x = %s; w::see(1, static_cast<decltype(x)>(x)); op_ref(3, std::addressof(x)); } op_mark(1);"
            ws.append(Pair("ql_o%s%d" % (x, j), d + use % e, d + use % r, PARAMS, "%s (%s) is the object itself" % (e, t), "all"))
    ws.append(Pair("ql_write", "const int &c = i0; pigro::as_nonconst(c) = p0; op_note(1, i0); pigro::forward_like<int &>(i0) += 3; op_note(2, i0); w::M t(pigro::forward_like<int>(m0)); op_noteo(3, &t);", "i0 = p0; op_note(1, i0); i0 += 3; op_note(2, i0); w::M t(std::move(m0)); op_noteo(3, &t);", PARAMS, "writing and moving through the result", "all"))
    decide_witnesses(rep, [WitnessUnit("qualifiers", ["forward_like", "utils", "<memory>"], ws)])


# ------------------------------------------------------------------ C23 perfect capture

def c23(rep, tier):
    ws = []
    pre = "op_ref(0, &v0); op_ref(1, &v1); op_ref(2, &m0); op_ref(3, &i0); op_mark(0); "
    seen = "w::see(1, {a}(c)); w::see(2, {a}(std::as_const(c))); w::see(3, {a}(std::move(c))); w::see(4, {a}(std::move(std::as_const(c))));"
    val = "w::see(1, x); w::see(2, std::as_const(x)); w::see(3, std::move(x)); w::see(4, std::move(std::as_const(x)));"
    ref = "w::see(1, {x}); w::see(2, {x}); w::see(3, {x}); w::see(4, {x});"
    for j, (e, st) in enumerate([("std::move(v1)", "w::V x{ std::move(v1) };"), ("std::move(m0)", "w::M x{ std::move(m0) };"), ("p0 + 1", "int x{ p0 + 1 };"), ("std::move(i0)", "int x{ i0 };"), ("2.5", "double x{ 2.5 };"), ("w::V(w::from::val, 7)", None)]):
        if st is None:
            ws.append(Pair("cap_pr", "auto c = pigro::fwd_capture(w::V(w::from::val, 7)); op_mark(0); w::see(1, pigro::access(c)); op_mark(1);", "w::V t(w::from::val, 7); w::V x{ std::move(t) }; op_mark(0); w::see(1, x); op_mark(1);", PARAMS, "a captured temporary outlives the expression", "all"))
            continue
        ws.append(Pair("cap_r%d" % j, pre + "auto c = pigro::fwd_capture(%s); op_mark(1); %s op_mark(2);" % (e, seen.format(a="pigro::access")), pre + "%s op_mark(1); %s op_mark(2);" % (st, val), PARAMS, "fwd_capture(%s) stores a value" % e, "all"))
        ws.append(Pair("cap_m%d" % j, pre + "auto &&y = %s; auto c = pigro::FWD_CAPTURE(y); op_mark(1); %s op_mark(2);" % (e, seen.format(a="pigro::access")), pre + "%s op_mark(1); %s op_mark(2);" % (st, val), PARAMS, "FWD_CAPTURE of an rvalue reference to %s" % e, "all" if j < 2 else "all"))
    for j, (e, x) in enumerate([("v0", "v0"), ("std::as_const(v0)", "std::as_const(v0)"), ("m0", "m0"), ("i0", "i0"), ("std::as_const(i0)", "std::as_const(i0)"), ("std::as_const(m0)", "std::as_const(m0)")]):
        ws.append(Pair("cap_l%d" % j, pre + "auto c = pigro::fwd_capture(%s); op_ref(5, &pigro::access(c)); op_ref(6, &pigro::access(std::as_const(c))); op_ref(7, &pigro::access(std::move(c))); op_mark(1); %s op_mark(2); auto d = c; op_ref(8, &pigro::access(d)); op_mark(3);" % (e, seen.format(a="pigro::access")),
                       pre + "op_ref(5, &{0}); op_ref(6, &{0}); op_ref(7, &{0}); op_mark(1); {1} op_mark(2); op_ref(8, &{0}); op_mark(3);".format(x, ref.format(x=x)), PARAMS, "fwd_capture(%s) refers to the object" % e, "all"))
        ws.append(Pair("cap_lm%d" % j, pre + "auto &&y = %s; auto c = pigro::FWD_CAPTURE(y); op_ref(5, &pigro::access(c)); op_mark(1);" % e, pre + "op_ref(5, &%s); op_mark(1);" % x, PARAMS, "FWD_CAPTURE(%s) refers to the object" % e, "all"))
    for x in ODDL:
        t, i = CT[x][0], CT[x][1].format(k=2)
        d = "%s n(%s); op_mark(0); " % (t, i)
        ws.append(Pair("cap_or%s" % x, d + "auto c = pigro::fwd_capture(std::move(n)); op_mark(1); %s op_mark(2);" % seen.format(a="pigro::access"), d + "%s x(std::move(n)); op_mark(1); %s op_mark(2);" % (t, val), PARAMS, "fwd_capture of a temporary %s stores a value" % t, "all"))
        ws.append(Pair("cap_oc%s" % x, d + "auto c = pigro::fwd_capture(std::move(std::as_const(n))); op_mark(1); auto e = c; op_mark(2); w::value(1, pigro::access(c)); w::value(2, pigro::access(e));", d + "const %s x(n); op_mark(1); const %s y(x); op_mark(2); w::value(1, x); w::value(2, y);" % (t, t), PARAMS, "fwd_capture of a const temporary %s" % t, "all"))
        ws.append(Pair("cap_ol%s" % x, d + "op_ref(5, std::addressof(n)); auto c = pigro::fwd_capture(n); auto k = pigro::fwd_capture(std::as_const(n)); op_ref(5, std::addressof(pigro::access(c))); op_ref(6, std::addressof(pigro::access(k))); op_mark(1); %s op_mark(2);" % seen.format(a="pigro::access"),
                       d + "op_ref(5, std::addressof(n)); op_ref(5, std::addressof(n)); op_ref(6, std::addressof(n)); op_mark(1); %s op_mark(2);" % ref.format(x="n"), PARAMS, "fwd_capture of a %s refers to the object" % t, "all"))
    ws.append(Pair("cap_mod", "auto c = pigro::fwd_capture(p0 + 1); auto d = c; pigro::access(c) += 5; op_note(1, pigro::access(c)); op_note(2, pigro::access(d)); auto r = pigro::fwd_capture(i0); pigro::access(r) = p1; op_note(3, i0); i0 = 9; op_note(4, pigro::access(r)); int q = p0; auto s = pigro::fwd_capture(std::move(q)); q = 3; op_note(5, pigro::access(s));",
                   "op_note(1, p0 + 1 + 5); op_note(2, p0 + 1); i0 = p1; op_note(3, i0); i0 = 9; op_note(4, i0); op_note(5, p0);", PARAMS, "modifications through a capture", "all"))
    ws.append(Pair("cap_lam", "auto f = [c = pigro::fwd_capture(std::move(m0)), d = pigro::fwd_capture(v0)]() mutable { op_noteo(1, &pigro::access(c)); op_ref(2, &pigro::access(d)); return std::move(pigro::access(c)); }; op_mark(0); w::M k = f(); op_noteo(3, &k); op_mark(1);", "w::M x{ std::move(m0) }; op_mark(0); op_noteo(1, &x); op_ref(2, &v0); w::M k{ std::move(x) }; op_noteo(3, &k); op_mark(1);", PARAMS, "captures in lambdas", "after"))
    decide_witnesses(rep, [WitnessUnit("capture", ["fwd_capture", "<memory>"], may_throw(ws, lambda n: n[-1] in "0AV"))])
    items = []

    def a(e, d=""):
        items.append(Static(e, d or e))
    for b in ["int", "w::V", "w::M", "S", "int *"] + ["std::type_identity_t<%s>" % t for t in ODD]:
        a("cap<%s, %s &, %s const &, %s &&, %s const &&>" % (b, b, b, b, b), "a stored %s has the qualifiers of the capture" % b)
        b2 = "%s const" % b
        a("cap<%s &, %s &, %s &, %s &, %s &>" % (b, b, b, b, b), "a referred %s is an lvalue" % b)
        a("cap<%s &, %s &, %s &, %s &, %s &>" % (b2, b2, b2, b2, b2))
    a("cap<int (&)[3], int (&)[3], int (&)[3], int (&)[3], int (&)[3]> && cap<void (&)(), void (&)(), void (&)(), void (&)(), void (&)()>")
    decide_static(rep, [StaticUnit("capture", ["fwd_capture", "compressed_tuple", W] + ODD_HEAD, items, ODD_PRE + "struct S { int x; };\ntemplate<typename T> using C = decltype(pigro::fwd_capture(std::declval<T>()));\ntemplate<typename T, typename L, typename CL, typename R, typename CR> constexpr bool cap = std::is_same_v<decltype(pigro::access(std::declval<C<T> &>())), L> && std::is_same_v<decltype(pigro::access(std::declval<const C<T> &>())), CL> && std::is_same_v<decltype(pigro::access(std::declval<C<T>>())), R> && std::is_same_v<decltype(pigro::access(std::declval<const C<T>>())), CR>;\n")])
