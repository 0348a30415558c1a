"""C29, C30: what holds for all of the building blocks; the witnesses of their own checks, looked at from another side."""
import concurrent.futures as cf
import build, rtl, sim
from harness import *
import props_util as U
import props_more as X

PARTS = [U.c12, U.c13, U.c14, U.c15, U.c16, U.c17, U.c19, U.c21, U.c22, U.c23, X.c10, X.c11, X.c26]


class Nothing:
    def __getattr__(self, name):
        return lambda *a, **k: None


def units(tier):
    """The witness units of all building blocks."""
    out = []
    for m in (U, X):
        m.decide_static = m.decide_rejects = lambda *a, **k: None
        m.decide_witnesses = lambda rep, us, *a, **k: out.extend(us)
    try:
        for f in PARTS:
            f(Nothing(), tier)
    finally:
        for m in (U, X):
            m.decide_static, m.decide_rejects, m.decide_witnesses = decide_static, decide_rejects, decide_witnesses
    return out


# user code that may throw when translated with W_NX=false and W_NM=false
MAY_THROW = {"vc_copy", "vc_move", "vc_assign", "vc_massign", "vc_eq", "mk_dep", "mk_fun", "ob_pred", "op_dep", "op_fun", "od_dep", "od_fun", "op_vfun"}

ET_PRE = """
// stateless, but copying it is a call of user code
template<int n> struct ET { ET() = default; ET(const ET &) noexcept(W_NX) { op_vfun(n); } int operator()(auto &&...) const { return op_fun(n); } };
"""
ET = [("ct1", ["compressed_tuple"], "pigro::compressed_tuple<ET<1>> t{ ET<1>{} }; auto e = pigro::get<0>(t); auto f = pigro::get<0>(std::as_const(t)); auto g = pigro::get<0>(std::move(t));"),
      ("ct2", ["compressed_tuple"], "pigro::compressed_tuple<ET<1>, int, ET<2>> t{ ET<1>{}, p0, ET<2>{} }; auto e = pigro::get<0>(t); auto f = pigro::get<2>(std::as_const(t)); auto [x, y, z] = t;"),
      ("eo", ["empty_object"], "auto e = pigro::empty_object<ET<1>>::get(); pigro::empty_object<ET<2>>::get();"),
      ("ap", ["apply", "compressed_tuple"], "pigro::compressed_tuple<ET<1>, int> t{ ET<1>{}, p0 }; pigro::apply([](auto &&...xs) { op_vfun(9); }, t); pigro::apply([](auto... xs) { op_vfun(9); }, std::move(t));"),
      ("tt", ["to_tuple", "compressed_tuple"], "pigro::compressed_tuple<ET<1>, int> t{ ET<1>{}, p0 }; auto u = pigro::to_tuple(t);"),
      ("bi", ["bind_tuple"], "auto f = pigro::bind_back(ET<3>{}, ET<1>{}, p0); f(); auto g = f; g(ET<2>{});"),
      ("bt", ["bind_tuple"], "auto f = pigro::bind_back_tuple(ET<3>{}, std::tuple{ ET<1>{}, p0 }); f(); auto g = pigro::bind_front_tuple(ET<3>{}, pigro::compressed_tuple{ ET<1>{}, p0 }); g(ET<2>{});"),
      ("uc", ["uncapture"], "auto f = pigro::uncaptured(ET<1>{}) >> ET<3>{}; f(); std::as_const(f)(p0); auto g = pigro::uncaptured(ET<1>{}, p0, ET<2>{}) >> ET<3>{}; g(); auto h = g; h(p1);"),
      ("ov", ["overload"], "auto f = pigro::overload{ ET<1>{}, [](int *) { op_vfun(2); } }; f(&i0); auto g = f; g(p0);"),
      ("rc", ["recursive"], "auto f = pigro::recursive{ ET<1>{} }; f(p0); auto g = f; std::as_const(g)();"),
      ("rv", ["regular_void"], "auto f = pigro::regularized_void(ET<1>{}); f(); auto g = pigro::unregularized_void(f); g();"),
      ("en", ["pack_algorithms"], "ET<1> e; pigro::enumerate_pack([](auto... items) { (op_vfun(items.index), ...); }, e, ET<2>{}, p0); pigro::enumerate_n<3>(ET<3>{});"),
      ("tr", ["tuple_algorithms"], "auto r = pigro::transform(std::tuple{ p0, p1 }, ET<1>{}); auto s = pigro::transform(std::tuple{ ET<2>{} }, [](auto x) { return x; }); pigro::any(std::tuple{ p0, p1 }, ET<3>{});"),
      ("fc", ["fwd_capture"], "auto c = pigro::fwd_capture(ET<1>{}); auto e = pigro::access(c); auto d = c; auto x = pigro::access(std::move(c));")]


def throw_sites(dump, names):
    """For each function: the calls of user code that may throw, and those of them from which an
    exception would not get out, because a noexcept function is in between."""
    try:
        fns = rtl.parse(dump)
    except Exception as e:
        return None
    out = {}
    for n in names:
        if n not in fns:
            continue
        sites, bad, todo, seen = 0, [], [n], {n}
        while todo:
            for b in fns[todo.pop()].blocks.values():
                for i in b.insns:
                    if i.kind != "call_insn":
                        continue
                    name = callee(i.pattern)
                    if name is None:
                        continue
                    if name in fns and name not in seen:
                        seen.add(name)
                        todo.append(name)
                    eh = [int(e[1]) for k, e in rtl.note_items(i.notes) if k == "REG_EH_REGION"]
                    if name in MAY_THROW:
                        sites += 1
                    if (name in MAY_THROW or name in fns) and eh and eh[0] < 0 and eh[0] != -(1 << 31):
                        bad.append((name, i.pos))
        out[n] = (sites, bad)
    return out


def callee(p):
    """The name of the function that a call instruction calls."""
    if sim.head_of(p[0]) == "#vec" or sim.head_of(p[0]) == "parallel":
        p = next((x for x in p[1:] if isinstance(x, list)), p)
        if sim.head_of(p[0]) == "#vec":
            p = next((x for x in p[1:] if isinstance(x, list)), p)
    if p[0] == "set":
        p = p[2]
    try:
        t = p[1][1]
        return t[1][0][1].lstrip("*") if sim.head_of(t[0]) == "symbol_ref" else None
    except (IndexError, TypeError, AttributeError):
        return None


def no_termination(rep, us, chunk=24):
    """Obligation for each witness: from each of its calls of user code, an exception can get out."""
    jobs = []
    for u in us:
        for k in range(0, len(u.witnesses), chunk):
            ws = u.witnesses[k:k + chunk]
            text = includes(u.headers) + '#include "witness.h"\n' + u.prelude + "\n" + "\n".join(w.code for w in ws) + "\n"
            jobs.append((u, ws, build.Unit("nt_%s_%d" % (re.sub(r"\W", "_", u.name), k), text, u.flags + ["-DW_NX=false", "-DW_NM=false"])))
    build.compile_units([j[2] for j in jobs])
    retry = []
    for u, ws, cu in jobs:
        if cu.ok:
            retry.append((u, ws, cu))
            continue
        rep.add("taken_apart")
        one = [(u, [w], build.Unit("nt_" + w.name, includes(u.headers) + '#include "witness.h"\n' + u.prelude + "\n" + w.code + "\n", u.flags + ["-DW_NX=false", "-DW_NM=false"])) for w in ws]
        build.compile_units([x[2] for x in one])
        retry += [x for x in one if x[2].ok]
    with cf.ProcessPoolExecutor(build.JOBS) as ex:
        found = list(ex.map(throw_sites, [cu.dump for _, _, cu in retry], [[w.name for w in ws] for _, ws, _ in retry]))
    for (u, ws, cu), res in zip(retry, found):
        for w in ws:
            rep.obligations += 1
            if res is None or w.name not in res:
                rep.undecided.append((u.name, w.desc, "no body"))
                continue
            sites, bad = res[w.name]
            rep.add("throwing_call_sites", sites)
            if bad:
                name, pos = bad[0]
                rep.violation("%s: %s" % (u.name, w.name), "%s\n    an exception that %s throws here ends the program instead of reaching the caller: there is a noexcept function in between%s (%d such calls)" % (
                    w.desc, name, " [%s:%s]" % pos if pos else "", len(bad)))
            else:
                rep.discharged += 1


def c29(rep, tier):
    us = []
    all_units = units(tier)
    nt = [WitnessUnit(u.name, u.headers, [Witness(w.name, w.alone(), None, w.desc) for k, w in enumerate(u.witnesses) if isinstance(w, Pair) and (tier != "quick" or k % 3 == 1 or len(u.witnesses) < 200)], u.prelude, u.flags) for u in all_units]
    for n, h, body in ET:
        nt.append(WitnessUnit("stateless_" + n, h, [Witness("w_et_" + n, 'extern "C" W_FLATTEN void w_et_%s(%s) { %s }' % (n, U.PARAMS, body), None, "stateless objects whose copying may throw: " + body)], ET_PRE))
    no_termination(rep, nt)
    for u in all_units:
        ws = [w.throwing() for w in u.witnesses if getattr(w, "can_throw", False)]
        if ws:
            us.append(WitnessUnit(u.name, u.headers, ws, u.prelude, u.flags))
    decide_witnesses(rep, us, chunk=12, rejects=False)


OWN = ("op_", "od_", "ob_", "mk_", "vc_")


def judge_effects(r):
    out = generic(r)
    for e in r.events:
        if not e.name.startswith(OWN) and e.name not in ("memcpy", "memmove", "memset", "_Unwind_Resume"):
            out.append(("alien", "call of %s" % e.name, e.pos))
            break
    if r.kind == "loop":
        out.append(("loop", "a loop or recursion whose number of rounds is not bounded", None))
    return out


def c30(rep, tier):
    us = []
    for u in units(tier):
        ws = [Witness(w.name, w.alone(), judge_effects, w.desc) for k, w in enumerate(u.witnesses) if isinstance(w, Pair) and (tier != "quick" or k % 3 == 0 or len(u.witnesses) < 200)]
        us.append(WitnessUnit(u.name, u.headers, ws, u.prelude, u.flags))
    decide_witnesses(rep, us, {"alien", "loop", "global", "life"}, chunk=16, rejects=False)
