"""Histories of any length of the building blocks: an object is called again and again, what counts in
it is widened between the calls (sim.State, Sim._widen), and every call must do what the wrapped function does."""
from harness import Pair, WitnessUnit
from props_util import PARAMS

PRE = """
struct HF { int operator()(auto... a) const { int k = 0; (op_arg(1, k++, static_cast<long>(a)), ...); return op_fun(static_cast<int>(sizeof...(a))); } };
struct HV { void operator()(auto... a) const { int k = 0; (op_arg(1, k++, static_cast<long>(a)), ...); op_vfun(static_cast<int>(sizeof...(a))); } };
struct HS { int own; int operator()(auto... a) const { op_note(1, own); return HF{}(a...); } };
struct HR { int operator()(auto &&self, int a) const { return HF{}(a); } };
struct HRS { int own; int operator()(auto &&self, int a) const { return HS{ own }(a); } };
struct HP { void operator()(char *, int a) const { op_vfun(a); } };
"""
CALLS = 8


def hist(name, make, call, setup, ref, desc, const=False):
    """CALLS calls of the object g that make creates, each preceded by a widening of g."""
    w = "op_widen(const_cast<void *>(static_cast<const void *>(&g)), sizeof(g)); "
    body = make + " op_mark(0); " + "".join(w + call.replace("$k", str(k)) + " " for k in range(CALLS)) + w
    r = setup + " op_mark(0); " + "".join(ref.replace("$k", str(k)) + " " for k in range(CALLS))
    return Pair(name, body, r, PARAMS, desc + ", after any number of calls", "none", pre="")


def ws(prop):
    out = []

    def h(name, make, call, setup, ref, desc):
        out.append(hist("h_%s_%s" % (prop.lower(), name), make, call, setup, ref, desc))
        return out
    if prop == "C17":
        for n, f, d in (("e", "HF{}", "stateless"), ("s", "HS{ p1 }", "stateful"), ("l", "f", "lvalue"), ("v", "HV{}", "void")):
            s = "HS f{ p1 };"
            ref = {"e": "HF{}", "s": "f", "l": "f", "v": "HV{}"}[n]
            call = "%s(%%s, %%s);" % ref if n == "v" else "op_res($k, %s(%%s, %%s));" % ref
            use = "g($k);" if n == "v" else "op_res($k, g($k));"
            mk = (s + " " if n == "l" else "")
            for bn, b, front in (("back", "pigro::bind_back(%s, p0)", 0), ("lb", "pigro::bind_back(%s, i0)", 0), ("gg", "pigro::operator>>(std::tuple{ p0 }, %s)", 1), ("ll", "pigro::compressed_tuple{ p0 } << %s", 0),
                                 ("ft", "pigro::bind_front_tuple(%s, std::tuple{ p0 })", 1), ("bt", "pigro::bind_back_tuple(%s, pigro::compressed_tuple{ p0 })", 0)):
                if n == "v" and bn not in ("back", "gg"):
                    continue
                bound = "i0" if bn == "lb" else "p0"
                h(bn + n, mk + "auto g = " + b % f + ";", use, s, call % ((bound, "$k") if front else ("$k", bound)), "%s of a %s function" % ({"gg": "tuple >> f", "ll": "tuple << f"}.get(bn, b.split("(")[0]), d))
        h("none", "auto g = pigro::bind_back(HF{});", "op_res($k, g(p0));", "", "op_res($k, HF{}(p0));", "bind_back of nothing")
        h("ggnone", "auto g = pigro::compressed_tuple<>{} >> HF{};", "op_res($k, g(p0));", "", "op_res($k, HF{}(p0));", "an empty tuple >> f")
    if prop == "C13":
        for n, t, c in (("e", "HR", ""), ("s", "HRS", " p1 ")):
            for q, x in (("l", "g"), ("c", "std::as_const(g)"), ("r", "std::move(g)")):
                h(n + q, "pigro::recursive<%s> g{ {%s} };" % (t, c), "op_res($k, %s(p0));" % x, "%s f{%s};" % (t, c), "op_res($k, f(f, p0));", "a recursive function called as " + x)
    if prop == "C12":
        for n, x in (("l", "g"), ("c", "std::as_const(g)"), ("r", "std::move(g)")):
            h("e" + n, "pigro::overload g{ HP{}, [](int a) { return HF{}(a); } };", "op_res($k, %s(p0)); %s(nullptr, p1);" % (x, x), "", "op_res($k, HF{}(p0)); op_vfun(p1);", "an overload called as " + x)
            h("s" + n, "pigro::overload g{ HP{}, [p1](int a) { return HS{ p1 }(a); } };", "op_res($k, %s(p0)); %s(nullptr, p1);" % (x, x), "", "op_res($k, HS{ p1 }(p0)); op_vfun(p1);", "an overload with a stateful function called as " + x)
    if prop == "C11":
        for a in ("regularized_void", "unregularized_void"):
            h(a[:3] + "v", "auto g = pigro::%s(HV{});" % a, "g(p0, $k);", "", "HV{}(p0, $k);", a + " of a void function")
            h(a[:3] + "i", "auto g = pigro::%s(HF{});" % a, "op_res($k, g(p0));", "", "op_res($k, HF{}(p0));", a + " of a function")
            h(a[:3] + "s", "auto g = pigro::%s(HS{ p1 });" % a, "op_res($k, g(p0));", "", "op_res($k, HS{ p1 }(p0));", a + " of a stateful function")
    if prop == "C14":
        for n, t, chk in (("i", "pigro::compressed_tuple<int, w::E<1>, int> g{ p0, w::E<1>{}, p1 };", ((0, "p0"), (2, "p1"))), ("r", "pigro::compressed_tuple<int &, int> g{ i0, p1 };", ((0, "i0"), (1, "p1"))), ("f", "pigro::compressed_tuple g{ HF{}, p0, HS{ p1 } };", ((1, "p0"),))):
            for q, x in (("l", "g"), ("c", "std::as_const(g)")):
                h(n + q, t, " ".join("op_note(%d, pigro::get<%d>(%s));" % (k, k, x) for k, e in chk), "", " ".join("op_note(%d, %s);" % (k, e) for k, e in chk), "elements of a compressed tuple, %s" % x)
    if prop == "C16":
        h("ct", "pigro::compressed_tuple g{ p0, w::E<1>{}, p1 };", "op_res($k, pigro::apply([](int a, auto, int b) { return HF{}(a, b); }, g));", "", "op_res($k, HF{}(p0, p1));", "apply on a compressed tuple")
        h("fn", "HS g{ p1 };", "op_res($k, pigro::apply(g, std::tuple{ p0, $k }));", "HS f{ p1 };", "op_res($k, f(p0, $k));", "apply of a stateful function")
    if prop == "C26":
        for n, u, a in (("1", "pigro::uncaptured(p0)", ("p0",)), ("2", "pigro::uncaptured(p0, p1)", ("p0", "p1"))):
            for m, f in (("e", "HF{}"), ("s", "HS{ 7 }")):
                for q, x in (("l", "g"), ("c", "std::as_const(g)")):
                    h(n + m + q, "auto g = %s >> %s;" % (u, f), "op_res($k, %s($k));" % x, "", "op_res($k, %s($k, %s));" % (f, ", ".join(a)), "uncaptured values called as " + x)
        h("n", "auto g = pigro::uncaptured(p0) >> (pigro::uncaptured(p1) >> HF{});", "op_res($k, g($k));", "", "op_res($k, HF{}($k, p0, p1));", "uncaptured values, nested")
    return out


HEADERS = {"C11": ["regular_void"], "C12": ["overload"], "C13": ["recursive"], "C14": ["compressed_tuple"], "C16": ["apply", "compressed_tuple"], "C17": ["bind_tuple"], "C26": ["uncapture"]}


def unit(prop):
    return WitnessUnit("history_" + prop, HEADERS[prop], ws(prop), PRE)


def all_units():
    return [unit(p) for p in sorted(HEADERS)]
