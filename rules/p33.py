"""Dataset iterators: ends, errors, cancellation, sequence lengths; datasets keep their configuration."""
from engine.explore import result
from engine.util import *
from engine.explore import DEAD
from engine.ir import AnalysisBroken
from rules.p18 import base, mine, var, num
from rules.p16 import callee, calls, dict_, scan
from rules.p21 import is_err, ERRORS
from rules.p34 import Base, leaf, atom_eval, Unknown
from rules.p26 import value

TUS = ("ops/dataset.cc", "ops/timestep_dataset.cc", "ops/trajectory_dataset.cc")
FETCH = ("GetNextTimestep", "GetNextTrajectory", "GetNextSample")
TFERR = {"Cancelled", "InvalidArgument", "DeadlineExceeded", "Aborted", "Internal", "FailedPrecondition", "Unavailable", "Unknown", "DataLoss", "OutOfRange", "NotFound"}


def error(s):
    """an error by construction"""
    s = base(s)
    while s is not None and callee(s, "ToTensorflowStatus", "FromTensorflowStatus"):
        s = base([x for x in s.a[1:] if isinstance(x, S) and x.k != "i"][0])
    return s is not None and (is_err(s) or s.k == "call" and last(s.a[0]) in TFERR)


def fine(s):
    """OK by construction"""
    s = base(s)
    return s is not None and (s.k == "okstatus" or s is OK or callee(s, "OK", "OkStatus") or s.k == "ctor" and last(str(s.a[0])) == "Status" and not [x for x in s.a[1:] if isinstance(x, S) and x.k != "i"])


def fetched(s):
    return s is not None and bool(calls(s, *FETCH))


class Next(Base):
    """GetNextInternal of an iterator"""
    # sequence length, steps before this one, last step of its sample
    POINTS = [(L, k, last_) for L in (-1, 0, 1, 2, 3) for k in range(0, 4) for last_ in (0, 1) if L <= 0 or k < L]

    def init(self):
        return dict_(reg=None, closed=False, dereg=None, ok=None, fetch=False, end=None, finite=None, limit=None, step=None, seq=(), timestep=False)

    def keep_fact(self, atom):
        return result(atom)

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        x = base(atom.a[0])
        if atom.k == "nz" and callee(x, "RegisterCallback"):
            if d["reg"] not in ("called", val):
                return DEAD
            d["reg"] = val
        elif atom.k == "nz" and callee(x, "DeregisterCallback", "TryDeregisterCallback"):
            if d["dereg"] not in ("called", val):
                return DEAD
            d["dereg"] = val
        elif atom.k == "okp":
            if error(x) and val or fine(x) and not val:
                return DEAD
            if fetched(x):
                if d["ok"] not in (None, val):
                    return DEAD
                d["ok"] = val
        elif atom.k == "nz" and callee(x, "IsRateLimiterTimeout"):
            if fetched(x):
                if d["limit"] not in (None, val) or val and d["ok"]:
                    return DEAD
                d["limit"] = val
            elif val:
                return DEAD
        elif any(calls(y, "InfiniteDuration") for y in atom.a) and any((leaf(y) or ("",))[0] == "rate_limiter_timeout" for y in atom.a):
            v = None
            if atom.k == "eq":
                v = not val
            elif atom.k == "lt":
                v = val if calls(atom.a[1], "InfiniteDuration") else None
            if v is not None:
                if d["finite"] not in (None, v):
                    return DEAD
                d["finite"] = v
        elif self.steps and atom.k in ("nz", "lt", "eq"):
            d["seq"] = d["seq"] + ((atom, val, d["step"]),)
        return dict_(**d)

    def env(self, pt, step):
        L, k, ls = pt

        def e(y):
            f = mine(y)
            if f == "step_within_sample_":
                return k if step is None else k + step[1] if step[0] == "+" else step[1]
            if f == "sequence_length_":
                return L
            if y.k in ("v", "phi", "old") and self.last is not None and str(y.a[0]).split("@")[0] == self.last:
                return ls
            if y.k == "nz":
                return None
            return None
        return e

    def event(self, st, ev):
        d = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "call":
            if n == "RegisterCallback":
                self.n["register"] = 1
                d["reg"] = "called"
                lam = [x for x in ev.args if x is not None and base(x).k in ("lam", "ctor")]
                self.lams.extend(y for x in lam for y in x.toks if y.k == "lam")
            elif n in ("DeregisterCallback", "TryDeregisterCallback"):
                if d["dereg"] is not None or d["reg"] is False:
                    self.bad("A", "twice", ev.where(), "A cancellation callback is deregistered that is not registered.", st)
                elif not d["fetch"]:
                    self.bad("A", "early", ev.where(), "The cancellation callback is deregistered before the sampler is asked for data.", st)
                d["dereg"] = "called"
            elif n == "Close" and mine(ev.recv) == "sampler_":
                d["closed"] = True
            elif n in FETCH:
                self.n["fetch"] = 1
                d["fetch"] = True
                d["timestep"] = n == "GetNextTimestep"
                if d["reg"] is None:
                    self.bad("A", "uncancellable", ev.where(), "The iterator waits for data without a cancellation callback.", st)
                elif d["reg"] is False and not d["closed"] or d["reg"] == "called":
                    self.bad("A", "cancelled", ev.where(), "The iterator waits for data although its context may be cancelled already.", st)
                if n == "GetNextTimestep" and len(ev.args) > 1:
                    a = ev.args[1]
                    for y in a.toks:
                        if y.k in ("addr", "v", "phi", "old"):
                            for z in y.a:
                                if isinstance(z, str) and "@" in z:
                                    self.last = z.split("@")[0]
        elif ev.k == "asg" and ev.l is not None:
            l = base(ev.l)
            if l.k == "p" and l.a[0] == 2 and ev.r is not None:
                r = base(ev.r)
                d["end"] = True if r is TRUE or num(r) == 1 else False if r is FALSE or num(r) == 0 else "?"
                if d["end"] == "?":
                    self.ctx.note("%s: end_of_sequence is set to %r" % (self.g.name, ev.r))
            elif mine(l) == "step_within_sample_":
                s = d["step"]
                if ev.op == "++" or ev.op == "+=" and num(ev.r) == 1:
                    d["step"] = ("+", 1) if s is None else (s[0], s[1] + 1)
                elif ev.op in ("=", None) and ev.r is not None:
                    r = base(ev.r)
                    if num(r) is not None:
                        d["step"] = ("=", num(r))
                    elif r.k == "op" and r.a[0] == "+" and any(mine(z) == "step_within_sample_" for z in r.a[1:]) and any(num(z) == 1 for z in r.a[1:]):
                        d["step"] = ("+", 1) if s is None else (s[0], s[1] + 1)
                    else:
                        self.ctx.note("%s: step counter set to %r" % (self.g.name, r))
                        d["step"] = ("?", 0)
                self.n["step"] = 1
        return dict_(**d)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if d["reg"] is True or d["reg"] == "called":
            if d["dereg"] is None:
                self.bad("A", "leak", w, "The iterator returns with its cancellation callback still registered; it would be run on a destroyed iterator.", st)
                return
            if d["dereg"] == "called":
                self.bad("A", "unnoticed", w, "Whether the iterator was cancelled meanwhile is not looked at.", st)
                return
        r = base(ret)
        err = error(r)
        if not err and not fine(r) and not fetched(r):
            self.ctx.note("%s: result %r not understood" % (self.g.name, r))
            return
        if d["dereg"] is False or not d["fetch"]:
            if not err and not (not d["fetch"] and d["reg"] is None):
                self.bad("A", "cancelled-ok", w, "A cancelled iterator does not return an error.", st)
            return
        isok = fine(r) or not err and d["ok"] is True
        if d["ok"] is True or d["ok"] is None and not err and not fine(r):
            if not err and d["end"] is not False:
                self.bad("B", "data-end", w, "A sample is returned without telling that the sequence goes on.", st)
        if d["ok"] is None and fine(r):
            self.bad("B", "swallowed", w, "Success is reported without looking at the sampler's status.", st)
            return
        if d["ok"] is False:
            self.n["failed"] = 1
            if isok:
                if not (d["finite"] and d["limit"] and d["end"] is True):
                    self.bad("B", "error-end", w, "A failed sampler ends the sequence (or returns nothing) although it is not a timeout the user asked for.", st)
                else:
                    self.n["ended"] = 1
        if d["ok"] is not True and not isok and d["finite"] and d["limit"]:
            self.bad("B", "timeout-error", w, "The timeout of the rate limiter is reported as an error instead of the end of the sequence.", st)
        if self.steps and d["ok"] is True and d["step"] is not None:
            for pt in self.POINTS:
                ok = True
                for a, v, s in d["seq"]:
                    try:
                        ok = ok and bool(value(a, self.env(pt, s))) == v
                    except Unknown:
                        pass
                if not ok:
                    continue
                L, k, ls = pt
                want = bool(ls and L > 0 and k + 1 != L or k + 1 == L and not ls)
                what = "sequence length %d, step %d of a sample%s" % (L, k + 1, ", the last one" if ls else "")
                if err != want:
                    self.bad("C", "length", w, "A step is %s: %s." % ("returned although its sequence has the wrong length" if want else "refused although its sequence has the right length", what), st)
                    return
                if not err and d["step"][0] != "?":
                    got = k + d["step"][1] if d["step"][0] == "+" else d["step"][1]
                    if got != (0 if ls else k + 1):
                        self.bad("C", "count", w, "Steps of a sample are miscounted: %d instead of %d (%s)." % (got, 0 if ls else k + 1, what), st)
                        return
        elif self.steps and d["ok"] is True and d["timestep"] and not err:
            self.bad("C", "uncounted", w, "A step of a sample is not counted.", st)


class Callback(Base):
    """the lambda registered for cancellation"""

    def init(self):
        return False

    def event(self, st, ev):
        return st.auto or ev.k == "call" and last(ev.fn or "") == "Close" and mine(ev.recv) == "sampler_"

    def exit(self, st, ret, ev):
        if not st.auto:
            self.bad("A", "callback", self.g.where(), "Cancellation does not close the sampler.", st)


class Start(Base):
    """Initialize: a sampler validated against the dataset's types, or an error"""

    def init(self):
        return dict_(dl=None, made=0, trim=None, turn=None, done=False, emit=None, last=None)

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        x = base(atom.a[0])
        if atom.k == "nz" and callee(x, "IsDeadlineExceeded"):
            d["dl"] = val
        elif atom.k == "nz" and mine(x) == "emit_timesteps_":
            if d["emit"] not in (None, val):
                return DEAD
            d["emit"] = val
        else:
            o = scan(atom)
            if o is not None and any(mine(z) == "shapes_" for z in o[0].toks):
                if d["turn"] == 0:
                    self.bad("D", "trim", self.at(fn, line), "The shape of a column is validated untrimmed.", st)
                d["turn"] = None if val == o[1] else 0
                d["done"] = d["done"] or val == o[1]
        return dict_(**d)

    def event(self, st, ev):
        d = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "call" and n == "RemoveDim" and ev.args and num(ev.args[0]) == 0:
            if d["turn"] is not None:
                d["turn"] += 1
        if ev.k == "call" and n == "NewSampler":
            self.n["made"] = 1
            a = list(ev.args)
            valid = any(mine(x) == "dtypes_" for x in a if x is not None)
            if not any(mine(x) == "sampler_options_" for x in a if x is not None):
                self.bad("D", "options", ev.where(), "The sampler is not made with the dataset's options.", st)
            if not any(mine(x) == "table_" for x in a if x is not None):
                self.bad("D", "table", ev.where(), "The sampler does not sample from the dataset's table.", st)
            if not valid and not d["dl"]:
                self.bad("D", "unvalidated", ev.where(), "The sampler's types are not validated although the server can be reached.", st)
            if valid and self.seq and d["emit"] is not None:
                if d["done"] == d["emit"]:
                    self.bad("D", "shapes", ev.where(), "Shapes of %s are validated against the table's." % ("timesteps without their first dimension" if d["emit"] else "whole sequences"), st)
            elif valid and self.seq:
                self.bad("D", "shapes", ev.where(), "Sequences and timesteps are validated alike.", st)
            d["made"] += 1
            d["last"] = ev.val
        return dict_(**d)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        r = base(ret)
        w = ev.where() if ev is not None else self.g.where()
        if fine(r):
            self.bad("D", "swallowed", w, "Errors of making the sampler are dropped.", st)
        elif d["last"] is not None and r is not None and calls(r, "NewSampler") and d["last"] not in r.toks:
            self.bad("D", "stale", w, "Not the status of the last attempt to make a sampler is returned.", st)
        if d["dl"] is False and d["made"] > 1:
            self.bad("D", "retry", w, "A sampler is made without validation although the first attempt did not time out.", st)


class Attrs(Base):
    """name of attribute -> field it is read into"""

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "call" and last(ev.fn or "") == "GetAttr" and len(ev.args) == 2 and base(ev.args[0]).k == "str":
            self.got.setdefault(str(base(ev.args[0]).a[0]).strip('"'), []).append((ev.args[1], ev.where()))
        if ev.k == "asg" and ev.l is not None and ev.r is not None and ev.l.k == "m":
            self.asg.append((ev.l, ev.r))
        return st.auto


class Graph(Base):
    """name of attribute -> what is written"""

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "call" and last(ev.fn or "") == "BuildAttrValue" and len(ev.args) == 2:
            self.val[base(ev.args[1])] = ev.args[0]
        if ev.k == "ctor" and last(ev.fn or "") == "pair" and len(ev.args) == 2 and base(ev.args[0]).k == "str":
            self.pair[str(base(ev.args[0]).a[0]).strip('"')] = (base(ev.args[1]), ev.where())
        return st.auto


def names(s):
    return {last(x.a[1]).rstrip("_") for x in s.toks if x.k == "m" and last(x.a[1]) != "sampler_options_"}


class Kind(Base):
    """errors.cc: what counts as a timeout of the rate limiter"""

    def init(self):
        return dict_(dl=None, text=None)

    def keep_fact(self, atom):
        return True

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if atom.k == "nz" and callee(atom.a[0], "IsDeadlineExceeded"):
            d["dl"] = val
        elif atom.k == "nz" and calls(atom.a[0], "StrContains", "StartsWith", "EndsWith", "find"):
            d["text"] = val
        elif atom.k == "eq" and any(calls(x, "code") for x in atom.a):
            d["dl"] = val
        elif atom.k == "eq" and any(calls(x, "message") for x in atom.a):
            d["text"] = val
        return dict_(**d)

    def exit(self, st, ret, ev):
        self.paths.append((dict(st.auto), ret, trace_of(st)))


def run(ctx):
    ctx.rule("A", "An iterator waits for data only with a callback registered that closes its sampler, deregisters it on every path, and returns an error if it was cancelled.")
    ctx.rule("B", "Data is returned with the sequence going on, a timeout asked for ends the sequence, and every other failure is an error.")
    ctx.rule("C", "Samples whose number of steps differs from the dataset's sequence length are errors; steps are counted per sample.")
    ctx.rule("D", "An iterator's sampler has the dataset's table and options and is validated unless the server cannot be reached.")
    ctx.rule("E", "Every attribute of a dataset is read into the option it names, and written back from the same one.")
    ctx.rule("F", "Exactly the error made for a timeout of the rate limiter is recognised as one.")
    for tu in TUS:
        p = ctx.program(tu)
        file = tu
        fs = [g for g in p.fns.values() if g.blocks and g.where().split(":")[0].endswith(file)]
        own = lambda k, ev: k.lam or k.where().split(":")[0].endswith(file) and "Iterator" in k.cls or k.cls == "" and k.where().split(":")[0].endswith(file)
        nx = [g for g in fs if last(g.name) == "GetNextInternal" and not g.lam]
        if not nx:
            raise AnalysisBroken("no iterator in %s" % tu)
        for g in nx:
            a = Next(ctx, g)
            flds = [f["name"] if isinstance(f, dict) else f for f in p.classes.get(g.cls, {}).get("fields", ())]
            a.steps = any("step_within_sample_" in str(f) for f in flds)
            a.lams, a.last = [], None
            ctx.engine(Engine(p, g, a, inline=own))
            if "fetch" not in a.n:
                ctx.violation("B", "%s/nothing" % short(g.name), g.where(), "The iterator never asks its sampler for data.", [])
            elif "failed" in a.n and "ended" not in a.n:
                ctx.violation("B", "%s/never" % short(g.name), g.where(), "The iterator never ends.", [])
            if a.steps and "step" not in a.n:
                ctx.violation("C", "%s/none" % short(g.name), g.where(), "The steps of a sample are never counted.", [])
            for l in {repr(x): x for x in a.lams}.values():
                from rules.p23 import lambda_of
                k = lambda_of(p, l)
                if k is None:
                    ctx.note("%s: callback %r not found" % (g.name, l))
                    continue
                ctx.engine(Engine(p, k, Callback(ctx, k)))
                ctx.instance("A", k.where())
            for r in "AB" + ("C" if a.steps else ""):
                ctx.instance(r, g.name)
        for g in fs:
            if last(g.name) == "Initialize" and "Iterator" in g.cls:
                a = Start(ctx, g)
                a.seq = any("emit_timesteps_" in str(f) for f in p.classes.get(g.cls, {}).get("fields", ()))
                ctx.engine(Engine(p, g, a, inline=own))
                if "made" not in a.n:
                    ctx.violation("D", "%s/none" % short(g.name), g.where(), "No sampler is ever made.", [])
                ctx.instance("D", g.name)
        rd, wr = None, None
        for g in fs:
            if last(g.cls) == last(g.name) and last(g.cls).endswith("DatasetOp") and not g.lam:
                rd = Attrs(ctx, g)
                rd.got, rd.asg = {}, []
                ctx.engine(Engine(p, g, rd, inline=lambda k, ev: k.lam))
                ctx.instance("E", g.name)
            elif last(g.name) == "AsGraphDefInternal":
                wr = Graph(ctx, g)
                wr.val, wr.pair = {}, {}
                ctx.engine(Engine(p, g, wr, inline=lambda k, ev: k.lam))
                ctx.instance("E", g.name)
        if rd and wr:
            for n, xs in sorted(rd.got.items()):
                dest = set()
                for x, w in xs:
                    dest |= names(x)
                    for l, r in rd.asg:
                        v = {str(z.a[0]) if z.k != "addr" else str(z.a[-1]) for z in x.toks if z.k in ("v", "phi", "addr", "old")}
                        if any(str(z.a[0]) in v or str(z.a[-1]) in v for z in r.toks if z.k in ("v", "phi", "addr", "old")) or base(x) in r.toks:
                            dest |= names(l)
                if n not in wr.pair:
                    ctx.violation("E", "%s/%s" % (tu, n), xs[0][1], "Attribute '%s' is lost when the dataset is serialised." % n, [])
                    continue
                src = wr.val.get(wr.pair[n][0])
                if src is None:
                    ctx.note("%s: value of attribute %s not understood" % (tu, n))
                    continue
                s = names(src)
                if dest and s and not dest & s:
                    ctx.violation("E", "%s/%s" % (tu, n), wr.pair[n][1], "Attribute '%s' is read into %s but written from %s." % (n, ", ".join(sorted(dest)), ", ".join(sorted(s))), [])
                elif dest and not any(f.startswith(n) or n.startswith(f) for f in dest):
                    ctx.violation("E", "%s/%s-into" % (tu, n), xs[0][1], "Attribute '%s' is read into %s." % (n, ", ".join(sorted(dest))), [])
    p = ctx.program("errors.cc")
    for g in p.fns.values():
        if g.blocks and last(g.name) == "IsRateLimiterTimeout":
            a = Kind(ctx, g)
            a.paths = []
            ctx.engine(Engine(p, g, a))
            for s, r, tr in a.paths:
                yes = base(r)
                for dl in (0, 1):
                    for tx in (0, 1):
                        if s["dl"] is not None and s["dl"] != dl or s["text"] is not None and s["text"] != tx:
                            continue

                        def env(y):
                            if calls(y, "IsDeadlineExceeded") and y.k == "call" and last(y.a[0]) == "IsDeadlineExceeded":
                                return dl
                            if y.k == "call" and last(y.a[0]) in ("StrContains", "StartsWith", "EndsWith"):
                                return tx
                            if y.k == "callx":
                                return tx if dl == 0 else None   # not reached: short-circuited
                            return None
                        try:
                            got = bool(value(yes, env))
                        except Unknown:
                            ctx.note("%s: %r not understood" % (g.name, r))
                            continue
                        if got != bool(dl and tx):
                            ctx.violation("F", "IsRateLimiterTimeout", g.where(), "An error %s a deadline and %s the text of the rate limiter's timeout is%s taken for one." % ("with" if dl else "without", "with" if tx else "without", "" if got else " not"), tr)
            ctx.instance("F", g.name)
        elif g.blocks and last(g.name) == "RateLimiterTimeout":
            a = Kind(ctx, g)
            a.paths = []
            ctx.engine(Engine(p, g, a))
            for s, r, tr in a.paths:
                r = base(r)
                if r is not None and not (callee(r, "DeadlineExceededError") or r.k == "errstatus" and "DeadlineExceeded" in repr(r)):
                    ctx.violation("F", "RateLimiterTimeout", g.where(), "The timeout is reported as %r." % r, tr)
            ctx.instance("F", g.name)
