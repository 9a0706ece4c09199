"""Selector options round trip: what options() reports, rebuilt by the
checkpointer, constructs the same kind of selector with the same parameters."""
import re
from engine.util import *
from engine.ir import AnalysisBroken

P0 = mk("p", 0)
MSG = "KeyDistributionOptions"


def norm(n):
    return n.replace("_", "").lower()


def ev_const(s, env):
    """evaluate a symbol over constants; env maps symbols to python values"""
    if s in env:
        return env[s]
    if s is TRUE:
        return True
    if s is FALSE:
        return False
    c = const_of(s)
    if c and c[0] == "n":
        return c[1]
    if s.k == "cast":
        return ev_const(s.a[-1], env)
    if s.k in ("bool", "nz"):
        v = ev_const(s.a[0], env)
        return None if v is None else bool(v)
    if s.k == "op":
        xs = [ev_const(x, env) for x in s.a[1:]]
        if any(x is None for x in xs):
            return None
        o = s.a[0]
        try:
            if len(xs) == 1:
                return {"-": lambda a: -a, "!": lambda a: not a, "+": lambda a: a}[o](*xs)
            return {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
                    "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "*": lambda a, b: a * b, "+": lambda a, b: a + b,
                    "-": lambda a, b: a - b, "&&": lambda a, b: a and b, "||": lambda a, b: a or b}[o](*xs)
        except KeyError:
            return None
    if s.k == "not":
        v = ev_const(s.a[0], env)
        return None if v is None else not v
    if s.k in ("eq", "lt"):
        a, b = ev_const(s.a[0], env), ev_const(s.a[1], env)
        return None if a is None or b is None else (a == b if s.k == "eq" else a < b)
    if s.k == "cond":
        c = ev_const(s.a[0], env)
        return None if c is None else ev_const(s.a[1 if c else 2], env)
    return None


def fact_env(facts, env):
    """facts consistent with env?"""
    for a, v in facts.items():
        r = ev_const(a, env)
        if r is None and a.k == "nz":
            x = ev_const(a.a[0], env)
            r = None if x is None else bool(x)
        if r is not None and bool(r) != v:
            return False
    return True


class Options(Auto):
    """the setters applied to the returned message"""

    def init(self):
        return ()

    def __init__(self):
        self.out = []

    def event(self, st, ev):
        if ev.k == "call" and ev.recv is not None and ev.fn.startswith(MSG):
            n = last(ev.fn)
            sub = None
            r = ev.recv
            if r.k == "call" and r.a[0].startswith(MSG + "::mutable_"):
                sub = last(r.a[0])[8:]
            if n.startswith("set_"):
                return st.auto + ((sub, n[4:], ev.args[0], ev.where()),)
            if n.startswith("mutable_"):
                return st.auto + ((None, n[8:], None, ev.where()),)
        return st.auto

    def exit(self, st, ret, ev):
        self.out.append((dict(st.facts), st.auto, st, ret))


class Make(Auto):
    def init(self):
        return ()

    def __init__(self):
        self.out = []

    def event(self, st, ev):
        ty = (ev.raw or {}).get("ty", "")
        if (ev.k == "call" and last(ev.fn) in ("make_unique", "make_shared")) or ev.k == "new":
            m = re.search(r"(\w+Selector)\b", ty)
            c = m.group(1) if m and m.group(1) != "ItemSelector" else None
            if c:
                return st.auto + ((c, tuple(ev.args), ev.where()),)
        return st.auto

    def branch(self, st, atom, val, line, fn):
        if val and atom.k == "eq":
            for x in atom.a:
                if x.k == "enum" and any(y.k == "call" and last(y.a[0]).endswith("_case") for y in atom.a):
                    return st.auto + (("case", str(x.a[0]).rsplit("::", 1)[-1], fn.where(line)),)
        if atom.k == "nz" and atom.a[0].k == "call" and last(atom.a[0].a[0]).startswith("has_") and val:
            return st.auto + (("case", "k" + last(atom.a[0].a[0])[4:], fn.where(line)),)
        return st.auto

    def exit(self, st, ret, ev):
        self.out.append((dict(st.facts), st.auto, st, ret))


def run(ctx):
    ctx.rule("A", "options() of every selector names exactly its own kind, all of its parameters, and whether it is deterministic")
    ctx.rule("B", "every kind is rebuilt as the selector class whose options report it")
    ctx.rule("C", "for every parameter: the value reported by options() of a selector built from a value is that value")
    prog = ctx.program("selectors/fifo.cc", "selectors/lifo.cc", "selectors/uniform.cc", "selectors/heap.cc", "selectors/prioritized.cc", "platform/tfrecord_checkpointer.cc")
    subs = sorted(set(c for c in prog.classes if "ItemSelector" in prog.classes[c].get("bases", [])))
    if len(subs) < 5:
        raise AnalysisBroken("only %d selectors found" % len(subs))
    info = {}
    for c in subs:
        g = prog.fn(c + "::options")
        a = Options()
        e = Engine(prog, g, a)
        ctx.engine(e)
        # random choice <=> the sampling code draws random numbers
        smp = prog.fn(c + "::Sample")
        draws = any(x.get("sfn", "").startswith("absl::") and last(x["sfn"]) in ("Uniform", "Bernoulli", "Gaussian", "Exponential", "discrete_distribution", "uniform_int_distribution", "Zipf", "Poisson", "LogUniform", "Beta")
                    for u in prog.closure([smp.usr]) if u in prog.fns for x in prog.fns[u].calls())
        for facts, sets, st, ret in a.out:
            ctx.instance("A", "%s: %s" % (g.name, ", ".join(n if s is None else s + "." + n for s, n, v, w in sets)))
            kinds = sorted(set(n for s, n, v, w in sets if s is None and n != "is_deterministic"))
            det = [v for s, n, v, w in sets if s is None and n == "is_deterministic"]
            if len(kinds) != 1:
                ctx.violation("A", c + "/kind", g.where(), "%s reports %s instead of exactly one kind" % (g.name, kinds or "nothing"), trace_of(st))
                continue
            d = det[-1] if det else FALSE
            if (d is TRUE) != (not draws) and d in (TRUE, FALSE):
                ctx.violation("A", c + "/deterministic", g.where(), "%s reports is_deterministic=%s although sampling %s random numbers" % (g.name, d, "draws" if draws else "draws no"), trace_of(st))
            params = {n: v for s, n, v, w in sets if s == kinds[0]}
            info.setdefault(c, []).append((kinds[0], params, facts))
    kinds = {}
    for c, rows in info.items():
        for k, params, facts in rows:
            kinds.setdefault(k, set()).add(c)
    for k, cs in kinds.items():
        if len(cs) > 1:
            ctx.violation("A", "kind/" + k, prog.fn(sorted(cs)[0] + "::options").where(), "%s all report the kind %s" % (", ".join(sorted(cs)), k))
    # rebuilding
    makers = [h for h in prog.fns.values() if not h.lam and any(x.get("sfn") == MSG + "::distribution_case" or (x.get("sfn", "").startswith(MSG + "::has_") and "Selector" in str([y.get("ty") for y in h.calls()])) for x in h.calls()) and h.file.endswith("tfrecord_checkpointer.cc")]
    if not makers:
        raise AnalysisBroken("the function that rebuilds selectors was not found")
    built = {}
    for g in makers:
        a = Make()
        e = Engine(prog, g, a)
        ctx.engine(e)
        for facts, evs, st, ret in a.out:
            case = [x[1] for x in evs if x[0] == "case"]
            mkd = [x for x in evs if x[0] != "case"]
            if not mkd:
                continue
            for k in case or ["?"]:
                built.setdefault(norm(k[1:] if k.startswith("k") else k), []).append((mkd[-1], g, st))
    for c, rows in info.items():
        for k in sorted(set(r[0] for r in rows)):
            got = built.get(norm(k))
            if not got:
                ctx.violation("B", "missing/" + k, makers[0].where(), "a selector of kind %s (%s) cannot be rebuilt from its options" % (k, c))
                continue
            for (cls, args, where), g, st in got:
                ctx.instance("B", "%s -> %s(%s)" % (k, cls, ", ".join(map(str, args))))
                if cls != c:
                    ctx.violation("B", "class/" + k, where, "options of kind %s, reported by %s, are rebuilt as %s" % (k, c, cls), trace_of(st))
                    continue
                roundtrip(ctx, prog, c, k, [r for r in rows if r[0] == k], args, where, st, g)


NUM = (0, 0.5, 1, 2.25, -3, 7)


def option(s, k, pn):
    """s reads option pn of kind k"""
    return s.k == "call" and last(s.a[0]) == pn and s.a[1] is not None and s.a[1].k == "call" and last(s.a[1].a[0]) == k


def roundtrip(ctx, prog, c, k, rows, args, where, st, g):
    ctors = [h for h in prog.fns.values() if h.name == c + "::" + c and len(h.params) == len(args)]
    stored = [f_ for f_ in prog.cls(c)["fields"] if f_["ty"].startswith("const ")]
    if not ctors and args:
        # default arguments are explicit in the IR, so the counts must agree
        raise AnalysisBroken("constructor of %s with %d parameters not found" % (c, len(args)))
    reported = set(n for _, params, _ in rows for n in params)
    if reported and not args:
        ctx.violation("C", "params/" + c, where, "%s is rebuilt without its parameters %s" % (c, ", ".join(sorted(reported))), trace_of(st))
        return
    if stored and not reported:
        ctx.violation("C", "unreported/" + c, prog.fn(c + "::options").where(), "options() of %s does not report %s" % (c, ", ".join(x["name"] for x in stored)))
        return
    for h in ctors:
        col = Init(c)
        e = Engine(prog, h, col)
        ctx.engine(e)
        for pn in sorted(reported):
            ctx.instance("C", "%s.%s" % (k, pn))
            reads = [x for a in args for x in ([a] + list(a.toks)) if option(x, k, pn)]
            vals = [params.get(pn, FALSE) for _, params, _ in rows]
            shown = " or ".join(sorted(set(map(str, vals))))

            def lost():
                ctx.violation("C", "value/%s.%s" % (c, pn), where, "parameter %s of %s does not survive the round trip: options() reports %s, it is rebuilt from (%s)" % (pn, c, shown, ", ".join(map(str, args))), trace_of(st))
            if not reads:
                lost()
                continue
            boolean = all(v.k in ("eq", "lt", "not", "bool", "nz") or v in (TRUE, FALSE) or (v.k == "op" and v.a[0] in ("==", "!=", "<", ">", "<=", ">=", "!", "&&", "||")) for v in vals)
            ok = True
            for o in ((True, False) if boolean else NUM):
                outs = set()
                aenv = {x: o for x in reads}
                env = {}
                for i, a in enumerate(args):
                    v = ev_const(a, aenv)
                    if v is not None:
                        env[mk("p", i)] = v
                for cf, fields in col.out:
                    if not fact_env(cf, env):
                        continue
                    fenv = {}
                    for fs, fv in fields.items():
                        x = ev_const(fv, env)
                        if x is not None:
                            fenv[fs] = x
                    for _, params, of in rows:
                        if fact_env(of, fenv):
                            outs.add(ev_const(params.get(pn, FALSE), fenv))
                if len(outs) != 1 or None in outs or list(outs)[0] != o:
                    ok = False
            if not ok:
                lost()


class Init(Auto):
    def __init__(self, cls):
        self.cls, self.out = cls, []

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "asg" and ev.l is not None and ev.l.k == "m" and ev.l.a[0] is THIS and (ev.op in ("init", "=")) and ev.r is not None:
            return tuple(x for x in st.auto if x[0] is not ev.l) + ((ev.l, ev.r),)
        return st.auto

    def exit(self, st, ret, ev):
        self.out.append((dict(st.facts), dict(st.auto)))
