"""Rate limiter admission predicates: exact decision tables."""
from engine.util import *
from engine.poly import *

C = "RateLimiter::"


def integral(p):
    for m in p:
        for s in m:
            if not (s.k == "p" or (s.k == "m" and s.a[1] in (C + "inserts_", C + "deletes_", C + "samples_", C + "min_size_to_sample_"))):
                return False
        if len(m) > 1:
            return False
    return all(v.denominator == 1 for v in p.values())


def run(ctx):
    prog = ctx.program("rate_limiter.cc")
    fields = {n: f(C + n) for n in ("inserts_", "deletes_", "samples_", "samples_per_insert_", "min_diff_", "max_diff_", "min_size_to_sample_")}
    for n in fields:
        prog.field("RateLimiter", n)
    I, D, SA, SPI, MIN, MAX, MS = [fields[k] for k in ("inserts_", "deletes_", "samples_", "samples_per_insert_", "min_diff_", "max_diff_", "min_size_to_sample_")]
    n = mk("p", 1)
    add = lambda a, b: mk("op", "+", a, b)
    sub = lambda a, b: mk("op", "-", a, b)
    mul = lambda a, b: mk("op", "*", a, b)

    def lt(a, b):
        k, pol = canon_atom(mk("lt", a, b), integral)
        return k, pol

    ctx.rule("A", "CanSample(n) returns true exactly when inserts-deletes >= min_size_to_sample and "
                  "inserts*spi - samples - n >= min_diff; decided by comparing the function's decision table over "
                  "normalised linear atoms with the specification table (every assignment of every atom)")
    a1, p1 = lt(sub(I, D), MS)
    a2, p2 = lt(sub(sub(mul(I, SPI), SA), n), MIN)
    check(ctx, prog, "A", prog.fn("RateLimiter::CanSample"), [a1, a2],
          lambda x, y: (x != p1) and (y != p2))
    ctx.rule("B", "CanInsert(n) returns true exactly when inserts+n-deletes <= min_size_to_sample or "
                  "(n+inserts)*spi - samples <= max_diff; same method")
    b1, q1 = lt(MS, sub(add(I, n), D))
    b2, q2 = lt(MAX, sub(mul(add(n, I), SPI), SA))
    check(ctx, prog, "B", prog.fn("RateLimiter::CanInsert"), [b1, b2],
          lambda x, y: (x != q1) or (y != q2))
    # the configuration the predicates are evaluated with is the constructor's
    ctx.rule("C", "every constructor initialises the parameters from the matching argument / checkpoint field, "
                  "and no function assigns them afterwards")
    ctors = [g for g in prog.by_name.get("RateLimiter::RateLimiter", []) if g.ctor]
    if len(ctors) < 2:
        raise AnalysisBroken("RateLimiter constructors not found")
    main = [g for g in ctors if len(g.params) == 4]
    if not main:
        raise AnalysisBroken("RateLimiter 4-argument constructor not found")
    main = main[0]
    order = {"samples_per_insert_": 0, "min_size_to_sample_": 1, "min_diff_": 2, "max_diff_": 3}

    class A(Auto):
        def init(self):
            return frozenset()

        def event(self, st, ev):
            if ev.k == "asg" and ev.l.k == "m" and ev.l.a[0] is THIS:
                return frozenset(x for x in st.auto if x[0] is not ev.l) | {(ev.l, ev.r)}
            return st.auto

        def exit(self, st, ret, ev):
            d = dict(st.auto)
            for nme, i in order.items():
                got = d.get(f(C + nme))
                ctx.instance("C", "ctor/" + nme)
                if got is not mk("p", i):
                    ctx.violation("C", "ctor/" + nme, main.where(), "constructor initialises %s with %s instead of argument %d" % (nme, show(got) if got else "nothing", i))
            for nme in ("inserts_", "samples_", "deletes_"):
                got = d.get(f(C + nme))
                ctx.instance("C", "ctor/" + nme)
                if got is None or const_of(got) != ("n", 0.0):
                    ctx.violation("C", "ctor/" + nme, main.where(), "a new limiter does not start with %s = 0" % nme)

    ctx.engine(Engine(prog, main, A()))
    for g in prog.methods("RateLimiter"):
        if g.ctor:
            continue
        for e in g.events():
            if e["k"] == "asg" and e["l"][0] == "m" and e["l"][2][len(C):] in order and e["l"][2].startswith(C):
                ctx.violation("C", g.name + "/" + e["l"][2], g.where(e["line"]), "limiter parameter reassigned")


def check(ctx, prog, rid, fn, atoms, spec):
    paths, e = bool_paths(prog, fn)
    ctx.count("abstract_states", e.states)
    ctx.fns.add(fn.name)
    rows = paths_table(paths, integral)
    if not rows:
        raise AnalysisBroken("no feasible path in " + fn.name)
    n, bad = compare_tables(rows, atoms, spec)
    ctx.count("truth_table_rows", n)
    ctx.instance(rid, fn.name)
    if bad:
        if isinstance(bad[0][0], str):
            ctx.violation(rid, fn.name, fn.where(), "decision depends on too many conditions: %s" % bad[0][1])
            return
        asg, got, want, extra = bad[0]
        ctx.violation(rid, fn.name, fn.where(), "returns %s, specification says %s, when %s" % (
            got, want, "; ".join("%s is %s" % (show_key(k), v) for k, v in asg.items())))
