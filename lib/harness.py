"""Collects obligations, decides them, writes the evidence and the verdict."""
import json, os, re, sys, time, traceback
import concurrent.futures as cf
import build, rtl, sim

HERE = build.HERE
WITNESS_SECONDS = 40
UNIT_SECONDS = 300
# seconds since the start after which no more is analysed (and no more is analysed again)
START, BUDGET, BUDGET2 = time.time(), 330, 600
REPO = build.REPO


class Static:
    """One compile-time obligation: an expression that must be a true constant expression,
    or (raw=True) declarations that must be accepted."""

    def __init__(self, expr, desc="", raw=False):
        self.expr, self.desc, self.raw = expr, desc or expr, raw


class StaticUnit:
    def __init__(self, name, headers, items, prelude="", flags=()):
        self.name, self.headers, self.items, self.prelude, self.flags = name, headers, items, prelude, list(flags)


class Witness:
    """A function whose representation is analysed. judge(results) gives [(kind, text, pos)]."""

    def __init__(self, name, code, judge, desc="", throws=0, nx=True):
        self.name, self.code, self.judge, self.desc, self.throws, self.nx = name, code, judge, desc or name, throws, nx


class Pair(Witness):
    """Two functions, one that uses the library and one written out by hand.  On every path, both
    must make the same observations: the same opaque calls with the same values, objects and
    categories in the same order, and (count) copy and move as often."""

    def __init__(self, name, body, ref, params="", desc="", count="copy", throws=0, nx=True, pre="", by_value=False):
        code = "%s\nextern \"C\" W_FLATTEN void w_%s(%s) { %s }\nextern \"C\" W_FLATTEN void r_%s(%s) { %s }" % (
            pre, name, params, body, name, params, ref)
        Witness.__init__(self, "w_" + name, code, None, desc or body, throws, nx)
        self.ref = "r_" + name
        self.count, self.by_value = count, by_value
        self.parts = (name, body, ref, params, desc, count, pre, by_value)

    def alone(self):
        """The code without the reference."""
        name, body, ref, params, desc, count, pre, by_value = self.parts
        return "%s\nextern \"C\" W_FLATTEN void w_%s(%s) { %s }" % (pre, name, params, body)

    def throwing(self):
        """The same with user code that may throw, wherever it is called."""
        name, body, ref, params, desc, count, pre, by_value = self.parts
        return Pair(name + "_t", body, ref, params, (desc or body) + "; user code may throw", "none", 1, False, pre, by_value)

    def judge_pair(self, got, want):
        out = []
        if any(r.kind == "loop" for r in got + want):
            raise sim.Unsupported("a loop of unknown length")
        for r in got:
            out += generic(r)
            if out:
                return [(d, r) for d in out]
        if any(("stops",) in r.state.snaps for r in got):
            got = [r for r in got if not any("'op_any'" in repr(a) for a in r.state.facts)]
        a, b = {}, {}
        for r in got:
            a.setdefault(observed(r, self.count, self.by_value), r)
        for r in want:
            b.setdefault(observed(r, self.count, self.by_value), r)
        for k, r in a.items():
            if k in b:
                continue
            # The hand-written function may distinguish other cases: what it does in each
            # case that can coincide with this one must be the same.
            other = [x for x in b if self.throws == 0 and compatible(k[3], x[3])] or list(b)
            other = [x for x in other if x[:3] != k[:3]]
            if self.throws == 0 and not other:
                continue
            best = max(other or b, key=lambda x: common(x, k))
            n = common(best, k)
            if n == len(k[1]) == len(best[1]) and k[0] == best[0] and k[2] != best[2]:
                return [(("copies", "between its marks, the path makes %s copies (and moves), but must make %s" % (k[2], best[2]), None), r)]
            g = k[1][n] if n < len(k[1]) else "the end (%s) %s" % (k[0], k[2])
            w = best[1][n] if n < len(best[1]) else "the end (%s) %s" % (best[0], best[2])
            return [(("trace", "observation %d is %s, but must be %s" % (n, pretty(g), pretty(w)), None), r)]
        for k, r in b.items():
            if k not in a and not (self.throws == 0 and any(compatible(k[3], x[3]) for x in a)):
                return [(("trace", "a required behaviour is missing: %s" % (pretty(k[1][-1]) if k[1] else k[0]), None), r)]
        return out


def may_throw(ws, pick=None):
    """Marks the pairs of which C29 also looks at the variant in which user code may throw."""
    for w in ws:
        w.can_throw = w.nx and (pick is None or pick(w.parts[0]))
    return ws


def compatible(fa, fb):
    s = sim.State()
    s.facts = dict(fa)
    for k, v in fb:
        r = s.atom(k)
        if r is not None and r != v:
            return False
        s.facts[k] = v
    return True


def pretty(x):
    if isinstance(x, str):
        return x
    return "%s(%s)" % (x[0], ", ".join("%s%s" % (sim.show(a), "" if c is None else "=" + sim.show(c)) for a, c in x[1:]))


def common(a, b):
    n = 0
    for x, y in zip(a[1], b[1]):
        if x != y:
            break
        n += 1
    return n


def plain(t):
    import lazyspec
    return lazyspec.strip(t)


OBJECTS = ("op_argo", "op_reso", "op_noteo")


def observed(r, count, by_value=False):
    """What a path shows: its observations with local addresses reduced to registered objects."""
    import lazyspec
    lazyspec.NARROW = False
    names = {}
    out = []
    segs = [[0, 0]]
    for e in r.events:
        if e.name in ("vc_copy", "vc_assign"):
            segs[-1][0] += 1
            continue
        if e.name in ("vc_move", "vc_massign"):
            segs[-1][1] += 1
            continue
        if e.name == "vc_dtor":
            continue
        if e.name == "op_mark":
            segs.append([0, 0])
        elif e.name == "op_ref":
            names.setdefault(e.args[1], ("object", len(names)))
        elif not e.name.startswith(("op_", "od_", "ob_", "mk_", "vc_", "__cxa")):
            continue
        row = [e.name]
        for a, c in zip(e.args, e.contents):
            a = plain(a)
            if a in names:
                a = names[a]
            elif a[0] == "addr" and a[1][0] == "fr":
                a = ("temporary",)
            if c is not None and c[0] == "at":
                c = None
            if by_value and e.name in OBJECTS:
                # only the value counts, not where it is
                if c is None and a[0] not in ("c", "object", "temporary"):
                    c = ("ext", a, 0)
                a = ("value",) if c is not None else a
            row.append((a, c))
        for a in e.fargs:
            row.append((plain(a), None))
        if e.outcome != "return":
            row.append((("throws",), None))
        out.append(tuple(row))
    cnt = {"none": (), "copy": tuple(x[0] for x in segs), "all": tuple(map(tuple, segs)), "after": tuple(map(tuple, segs[1:]))}[count]
    facts = frozenset((k if k[0] != "eq" else ("eq", plain(k[1]), plain(k[2])), v) for k, v in r.state.facts.items())
    return (r.kind, tuple(out), cnt, facts)


def generic(r):
    out = []
    for x in r.state.errors:
        out.append(("life", x, None))
        break
    if r.kind in ("return", "unwind") and any(k[0][0] == "fr" for k in r.state.objs):
        out.append(("life", "a value is never destroyed" + (" when an exception passes" if r.kind == "unwind" else ""), None))
    for b in r.state.mem:
        if b[0] == "sym" and r.state.mem[b]:
            out.append(("global", "writes to global memory: %s" % sim.show(b), None))
            break
    return out


class WitnessUnit:
    def __init__(self, name, headers, witnesses, prelude="", flags=()):
        self.name, self.headers, self.witnesses, self.prelude, self.flags = name, headers, witnesses, prelude, list(flags)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []   # (key, text)
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.counts = {}
        self.samples = []
        self.notes = []

    def add(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, key, text):
        self.violations.append((key, text))


def includes(headers):
    return "".join("#include <pigro/%s.h>\n" % h if not h.startswith(("<", '"')) else "#include %s\n" % h for h in headers)


def header_check(headers):
    """Broken unless the headers themselves compile."""
    u = build.Unit("headers", includes(headers), rtl=False)
    build.compile_units([u])
    if not u.ok:
        raise build.Broken("the headers %s do not compile on their own: %s" % (headers, first_error(u.stderr)))


def first_error(stderr):
    for l in stderr.splitlines():
        if "error" in l:
            return l[:300]
    return stderr[:300]


def decide_static(rep, units, chunk=60):
    jobs = []
    for u in units:
        items = u.items
        for k in range(0, max(1, len(items)), chunk):
            part = items[k:k + chunk]
            text = includes(u.headers) + u.prelude + "\n"
            line = text.count("\n") + 1
            lines = {}
            body = []
            for it in part:
                t = it.expr if it.raw else "static_assert((%s));" % it.expr
                t = " ".join(t.split("\n"))
                lines[line] = it
                body.append(t)
                line += 1
            jobs.append((u, part, lines, build.Unit("%s_%d" % (u.name, k), text + "\n".join(body) + "\n", u.flags, rtl=False)))
    build.compile_units([j[3] for j in jobs])
    headers_ok = {}
    for u, part, lines, cu in jobs:
        rep.obligations += len(part)
        rep.add("static_units")
        if cu.ok:
            rep.discharged += len(part)
            continue
        if cu.rc in (124,) or "internal compiler error" in cu.stderr or "virtual memory exhausted" in cu.stderr:
            for it in part:
                rep.undecided.append((u.name, it.desc, "compiler gave up"))
            continue
        hit = {}
        stray = []
        for f, n, msg, ctx in build.errors(cu.stderr, cu.src):
            where = [(f, n)] + ctx
            ls = [x for x in where if os.path.basename(x[0]) == os.path.basename(cu.src)]
            got = [lines[x[1]] for x in ls if x[1] in lines]
            if got:
                hit.setdefault(id(got[0]), (got[0], "%s:%d: %s" % (f if f != cu.src else "witness", n, msg)))
            else:
                stray.append("%s:%d: %s" % (f, n, msg))
        if not hit:
            hk = tuple(u.headers)
            if hk not in headers_ok:
                header_check(u.headers)
                headers_ok[hk] = True
            rep.violation(u.name, "the unit is rejected: %s" % (stray[0] if stray else first_error(cu.stderr)))
            continue
        rep.discharged += len(part) - len(hit)
        for it, msg in hit.values():
            rep.violation("%s: %s" % (u.name, it.desc), "obligation fails: %s\n    %s\n    %s" % (it.desc, it.expr if len(it.expr) < 600 else it.expr[:600] + " ...", msg))
    for u in units[:2]:
        for it in u.items[:2]:
            rep.samples.append({"static": it.desc})


class Reject:
    """A program that must not compile, next to one that differs only in what makes it wrong."""

    def __init__(self, name, headers, bad, good, desc):
        self.name, self.headers, self.bad, self.good, self.desc = name, headers, bad, good, desc


def decide_rejects(rep, items):
    us = []
    for it in items:
        pre = includes(it.headers) + '#include "witness.h"\n'
        us.append((it, build.Unit(it.name + "_bad", pre + it.bad + "\n", rtl=False), build.Unit(it.name + "_good", pre + it.good + "\n", rtl=False)))
    build.compile_units([u for it, b, g in us for u in (b, g)])
    for it, b, g in us:
        rep.obligations += 1
        if not g.ok:
            header_check(it.headers)
            rep.violation(it.name, "a valid program is rejected (%s): %s" % (it.desc, first_error(g.stderr)))
        elif b.ok:
            rep.violation(it.name, "a wrong program is accepted: %s\n    %s" % (it.desc, it.bad))
        else:
            rep.discharged += 1
            rep.add("compile_fail_witnesses")


def _judge_unit(dump, ws):
    """Analysis and judgement of one dump (in a worker process), one result per witness."""
    try:
        fns = rtl.parse(dump)
    except Exception as e:
        for w in ws:
            yield w.name, "undecided", "cannot read the dump: %r" % e, {}, None
        return
    slow = 0
    for w in ws:
        if w.name not in fns:
            yield w.name, "undecided", "no body", {}, None
            continue
        seconds = WITNESS_SECONDS if slow < 2 else WITNESS_SECONDS / 8
        S = sim.Sim(fns, throw_budget=w.throws, deadline=time.process_time() + seconds)
        val, gave_up = [], None
        try:
            S.run(w.name, val)
        except sim.Unsupported as e:
            gave_up = str(e)
        except MemoryError:
            gave_up = "out of memory"
        except (RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
            gave_up = "engine: %r" % e
        slow += bool(gave_up)
        st = {"functions_analysed": 1, "basic_blocks": len(S.blocks), "instructions_interpreted": S.insns,
              "abstract_states": S.nstates, "call_sites": len(S.calls), "exits": len(val)}
        devs = []
        sample = None
        try:
            # what was reached before giving up is judged all the same
            stops = gave_up or any(("stops",) in r.state.snaps for r in val)
            for r in val if w.judge else ():
                if stops and any("'op_any'" in repr(a) for a in r.state.facts):
                    continue
                for d in w.judge(r):
                    devs.append(d + (trace(r),))
                if len(devs) > 20:
                    break
            if isinstance(w, Pair):
                R = sim.Sim(fns, throw_budget=w.throws, deadline=time.process_time() + seconds)
                if gave_up:
                    raise sim.Unsupported(gave_up)
                for d, r in w.judge_pair(val, R.run(w.ref)):
                    devs.append(d + (trace(r),))
            if val:
                sample = trace(val[0])
        except sim.Unsupported as e:
            yield w.name, "undecided", str(e), st, None
            continue
        except Exception as e:
            yield w.name, "undecided", "judge: %r %s" % (e, traceback.format_exc()[-300:]), st, None
            continue
        if gave_up and not devs:
            yield w.name, "undecided", gave_up, st, None
        else:
            yield w.name, "ok", devs, st, sample, gave_up


def trace(r):
    return "%s | %s | facts %s" % (r.kind, "; ".join(repr(e) for e in r.events if e.name not in ("vc_dtor",))[:1500],
                                   ", ".join("%s is %s" % (sim.show(k), v) for k, v in r.state.facts.items())[:500])


def decide_witnesses(rep, units, kinds=None, chunk=8, rejects=True):
    """kinds: the deviation kinds that break this property (None: all); rejects: whether a
    witness that does not compile breaks it as well."""
    jobs = []
    for u in units:
        for nx in (True, False):
            ws = [w for w in u.witnesses if w.nx == nx]
            for k in range(0, len(ws), chunk):
                jobs.append((u, ws[k:k + chunk], nx))
    def mk(u, ws, nx, tag, alt=False):
        text = includes(u.headers) + '#include "witness.h"\n' + u.prelude + "\n" + "\n".join(w.code for w in ws) + "\n"
        return build.Unit(re.sub(r"\W", "_", "%s_%s_%s" % (u.name, tag, "n" if nx else "t")), text, u.flags + ([] if nx else ["-DW_NX=false"]), alt=alt)
    cus = [mk(u, ws, nx, str(k)) for k, (u, ws, nx) in enumerate(jobs)]
    build.compile_units(cus)
    # a unit that does not compile is taken apart, to see which of its witnesses is to blame
    retry = []
    good = []
    for k, ((u, ws, nx), cu) in enumerate(zip(jobs, cus)):
        if cu.ok:
            good.append((u, ws, cu))
        else:
            for j, w in enumerate(ws):
                retry.append((u, [w], mk(u, [w], nx, "%d_%d" % (k, j))))
    if retry:
        build.compile_units([r[2] for r in retry])
    checked = {}
    for u, ws, cu in retry:
        if cu.ok:
            good.append((u, ws, cu))
            continue
        if not rejects:
            rep.add("not_compiled")
            continue
        rep.obligations += 1
        if cu.rc in (124,) or "internal compiler error" in cu.stderr or "memory exhausted" in cu.stderr or "Killed" in cu.stderr:
            rep.undecided.append((u.name, ws[0].desc, "compiler gave up"))
            continue
        hk = tuple(u.headers)
        if hk not in checked:
            header_check(u.headers)
            checked[hk] = True
        rep.violation("%s: %s" % (u.name, ws[0].name), "a valid program is rejected (%s): %s" % (ws[0].desc, first_error(cu.stderr)))
    results = parallel([(cu.dump, ws) for u, ws, cu in good], START + BUDGET)
    rows = []
    for (u, ws, cu), res in zip(good, results):
        meta = {w.name: w for w in ws}
        for name, status, val, st, sample, *_ in res:
            rep.obligations += 1
            for a, b in st.items():
                rep.add(a, b)
            devs = [d for d in val if kinds is None or d[0] in kinds] if status == "ok" else None
            rows.append([u, meta[name], status, val, devs, sample])
    # What is not clear, or deviates, is analysed once more as compiled in another way: a breach
    # of the property shows there too, an imprecision of the analysis hardly ever does.
    again = [r for r in rows if r[4] and not certain(r[4])] + [r for r in rows if r[4] is None]
    if any(r[4] and certain(r[4]) for r in rows):
        again = []
    while again and time.time() < START + BUDGET2:
        part, again = again[:24], again[24:]
        units = [(r, mk(r[0], [r[1]], r[1].nx, "alt%d" % k, True)) for k, r in enumerate(part)]
        build.compile_units([x[1] for x in units])
        units = [x for x in units if x[1].ok]
        confirmed = False
        for (r, cu), res in zip(units, parallel([(cu.dump, [r[1]]) for r, cu in units], START + BUDGET2 + 60)):
            name, status, val, st, sample, *_ = res[0]
            rep.add("analysed_twice")
            if status != "ok":
                confirmed = confirmed or bool(r[4])
                continue
            devs = [d for d in val if kinds is None or d[0] in kinds]
            if r[4] is None:
                r[2:] = [status, val, devs, sample]
                confirmed = confirmed or bool(devs)
            elif devs:
                confirmed = True
            else:
                r[4] = []
                rep.add("not_confirmed")
        if confirmed:
            break
    for u, w, status, val, devs, sample in rows:
        if status != "ok":
            rep.undecided.append((u.name, w.desc, val))
            continue
        if not devs:
            rep.discharged += 1
            if sample and len(rep.samples) < 6:
                rep.samples.append({"witness": w.desc, "one exit": sample[:600]})
            continue
        kind, text, pos, tr = devs[0]
        rep.violation("%s: %s" % (u.name, w.name), "%s\n    rule %s: %s%s\n    path: %s\n    (%d deviating exits)" % (
            w.desc, kind, text, " [%s:%s]" % pos if pos else "", tr, len(devs)))


def certain(devs):
    return any("undef" in d[1] for d in devs)


def parallel(items, until=None):
    """Judges all dumps in forked workers, one per dump; a worker that dies or takes too long
    leaves the rest of its witnesses undecided, and so does the end of the time."""
    import pickle, select, signal, resource, io
    out = [None] * len(items)
    todo = sorted(range(len(items)), key=lambda k: -len(items[k][1]))
    live = {}

    def results(k, buf, why):
        res, f = [], io.BytesIO(bytes(buf))
        try:
            while True:
                res.append(pickle.load(f))
        except Exception:
            pass
        done = {r[0] for r in res}
        out[k] = res + [(w.name, "undecided", why, {}, None) for w in items[k][1] if w.name not in done]

    while todo or live:
        late = until and time.time() > until
        while todo and (late or len(live) < build.JOBS):
            k = todo.pop(0)
            if late:
                results(k, b"", "out of time")
                continue
            rd, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rd)
                    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
                    sys.setrecursionlimit(20000)
                    with os.fdopen(wr, "wb") as f:
                        for r in _judge_unit(*items[k]):
                            f.write(pickle.dumps(r))
                            f.flush()
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            live[rd] = (k, pid, bytearray(), time.time() + UNIT_SECONDS)
        if not live:
            break
        for fd in select.select(list(live), [], [], 1.0)[0]:
            data = os.read(fd, 1 << 20)
            k, pid, buf, _ = live[fd]
            if data:
                buf += data
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            results(k, buf, "the worker died")
        for fd, (k, pid, buf, end) in list(live.items()):
            if time.time() > end or (until and time.time() > until):
                os.kill(pid, signal.SIGKILL)
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                results(k, buf, "took too long")
    return out


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^finding: property=(\S+) key=<<(.*?)>> (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def finish(rep, tier, t0, explanation, technique_rule, assumptions, floor=0.5):
    ks = {(p, k): t for p, k, t in known()}
    new = []
    for key, text in rep.violations:
        if (rep.prop, key) in ks:
            print("KNOWN-FINDING: property=%s %s" % (rep.prop, ks[(rep.prop, key)]))
        else:
            new.append((key, text))
    decided = rep.obligations - len(rep.undecided)
    ev = {"property": rep.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": explanation, "rule": technique_rule, "obligations": rep.obligations, "discharged": rep.discharged,
                       "undecided": len(rep.undecided), "undecided_list": [list(x) for x in rep.undecided[:20]],
                       "analysed": rep.counts, "samples": rep.samples[:6],
                       "sources": sorted(os.listdir(os.path.join(REPO, "src", "pigro")))},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", rep.prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %s, %.1fs" % (rep.prop, rep.obligations, rep.discharged, len(rep.undecided),
                                                                      ", ".join("%s %s" % kv for kv in rep.counts.items()), time.time() - t0))
    if new:
        path = os.path.join(HERE, "evidence", rep.prop + ".replay.txt")
        with open(path, "w") as f:
            for key, text in new:
                f.write("%s\n  %s\n\n" % (key, text))
        for key, text in new[:8]:
            print("  %s\n    %s" % (key, text[:1500]))
        print("VIOLATION property=%s replay=%s" % (rep.prop, path))
        return 1
    if rep.obligations == 0 or decided < floor * rep.obligations:
        print("ANALYSIS-BROKEN: only %d of %d obligations could be decided: %s" % (decided, rep.obligations, rep.undecided[:3]))
        return 2
    return 0
