"""A sampler returns each fetched sample once and stops with an error or limit."""
from engine.util import *
from engine.explore import DEAD, subst
from engine.ir import AnalysisBroken
from rules.p18 import base, mine, var, num
from rules.p16 import callee, calls, dict_, scan, late
from rules.p24 import fld
from rules.p34 import Base, Unknown, num_eval, leaf
from rules.p22 import universal
from rules.p25 import reverse, starts, Mod, INSERT

REL = ("<", ">", "==", "<=", ">=", "!=")
CMP = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "==": lambda a, b: a == b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "!=": lambda a, b: a != b}


def value(x, env):
    """numbers and truth values over env(symbol) -> number"""
    def e(y):
        v = env(y)
        if v is not None:
            return v
        if y.k == "lit" and isinstance(y.a[0], bool):
            return int(y.a[0])
        if y is TRUE or y is FALSE:
            return int(y is TRUE)
        if y.k == "cond":
            return value(y.a[1] if value(y.a[0], env) else y.a[2], env)
        if y.k in ("nz", "bool", "not", "okp"):
            return int((value(y.a[0], env) != 0) == (y.k != "not"))
        if y.k == "op" and y.a[0] == "!":
            return int(not value(y.a[1], env))
        if y.k == "op" and y.a[0] in ("||", "&&"):
            a, b = value(y.a[1], env), value(y.a[2], env)
            return int(bool(a or b) if y.a[0] == "||" else bool(a and b))
        if y.k in ("lt", "eq") or y.k == "op" and y.a[0] in REL and len(y.a) == 3:
            a, b = (value(z, env) for z in y.a[-2:])
            return int(CMP[{"lt": "<", "eq": "=="}.get(y.k, y.a[0])](a, b))
        if y.k == "call" and last(y.a[0]) in ("min", "max"):
            a = [value(z, env) for z in y.a[1:] if isinstance(z, S) and z.k != "i"]
            if len(a) == 2:
                return (min if last(y.a[0]) == "min" else max)(a)
        return None
    return num_eval(x, e)


def decide(ctx, g, eng, m, rid, key, points, names, want, msg):
    """the function's result over all points: points -> env(symbol), want(point)"""
    seen = 0
    for p in points:
        for conds, ret in m.paths:
            try:
                ok = True
                for a, v in conds:
                    try:
                        ok = ok and bool(value(a, names(p))) == v
                    except Unknown:
                        pass
                if not ok:
                    continue
                r = value(ret, names(p))
            except Unknown:
                ctx.note("%s: result %r not understood" % (g.name, ret))
                return
            seen += 1
            if bool(r) != want(p):
                ctx.violation(rid, "%s/%s" % (short(g.name), key), g.where(), msg(p, bool(r)), [])
                return
    if not seen:
        ctx.note("%s: no path was understood" % g.name)


STOP = [(c, r, ok) for c in (0, 1) for r in (0, 5) for ok in (0, 1)]


def stopenv(p):
    """closed_, returned_ of 5, worker_status_.ok()"""
    def e(x):
        f = mine(x)
        return {"closed_": p[0], "returned_": p[1], "max_samples_": 5}.get(f, p[2] if x.k == "okp" and mine(x.a[0]) == "worker_status_" or callee(x, "ok") and mine(x.a[1]) == "worker_status_" or x.k == "callx" or f == "worker_status_" else None)
    return e


class Worker(Base):
    """Sampler::RunWorker"""
    # asked for, fetched / per stream, in total, requested
    GOT = ((10, 3), (5, 5), (4, 0))
    ASK = ((2, 10, 3), (5, 10, 8), (100, 7, 0))

    def ask(self, p):
        return lambda x: {"max_samples_per_stream_": p[0], "max_samples_": p[1], "requested_": p[2], "returned_": 0}.get(mine(x))

    def points(self, s):
        """the points that the path to here allows"""
        for p in self.ASK:
            try:
                if all(bool(value(a, self.ask(p))) == v for a, v in s["conds"]):
                    yield p
            except Unknown:
                yield p

    def init(self):
        return dict_(stop=None, asked=None, n=None, fetched=False, back=None, wok=None, rok=None, unav=None, set=False, closed=False, conds=())

    def turn(self, st, s, w):
        if s["fetched"]:
            if s["back"] != "?" and s["back"] != tuple(50 - a + g for a, g in self.GOT):
                self.bad("A", "returned", w, "samples that a worker did not fetch are never requested again" if not s["back"] else "the number of requested samples is not corrected by what the worker did not fetch", st)
            err = s["wok"] is not False and s["rok"] is not True and s["unav"] is not True
            if err and not s["set"]:
                self.bad("A", "error", w, "an error of a worker is lost", st)
            if s["set"] and not s["closed"]:
                self.bad("A", "wake", w, "consumers are not woken up by an error", st)
        elif s["asked"]:
            self.bad("A", "lost", w, "samples are counted as requested but never fetched", st)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k == "okp":
            x = base(atom.a[0])
            if mine(x) == "worker_status_":
                if s["wok"] not in (None, val):
                    return DEAD
                s["wok"] = val
            elif calls(x, "FetchSamples"):
                if s["rok"] not in (None, val):
                    return DEAD
                s["rok"] = val
        elif atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "should_stop_workers"):
                s["stop"] = val
            elif callee(x, "IsUnavailable"):
                if s["unav"] not in (None, val):
                    return DEAD
                s["unav"] = val
        if atom.k in ("lt", "eq") and not s["fetched"] and any(mine(y) in ("requested_", "max_samples_per_stream_") for x in atom.a for y in x.toks):
            s["conds"] = s["conds"] + ((atom, val),)
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "call" and n in ("LockWhen", "Lock", "Await", "ReaderLock", "WriterLock") or ev.k == "lock":
            if ev.k == "call" and n in ("LockWhen", "Await"):
                # a new round
                self.turn(st, s, w)
                s = dict(self.init())
                self.n["wait"] = 1
        elif ev.k == "unlock":
            s["stop"] = None if s["stop"] is False and not s["asked"] else s["stop"]
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "requested_":
            op = ev.raw.get("op")
            if not s["fetched"]:
                if s["stop"] is not False:
                    self.bad("A", "stop", w, "samples are requested although the sampler may have been stopped", st)
                try:
                    for per, mx, req in self.points(s):
                        v = value(ev.r, self.ask((per, mx, req))) - (req if op in ("=", None) else 0)
                        if v != min(per, mx - req) or op not in ("=", None, "+="):
                            self.bad("A", "requested", w, "more (or fewer) samples are requested than remain and than a stream may fetch", st)
                            break
                except Unknown:
                    self.ctx.note("%s: %r not understood" % (self.g.name, ev.r))
                s["asked"] = True
            else:
                try:
                    now = s["back"] if isinstance(s["back"], tuple) else (50,) * len(self.GOT)
                    q = []
                    for (asked, got), cur in zip(self.GOT, now):
                        def e(x):
                            if x.k == "m" and last(x.a[1]) == "first" and calls(x, "FetchSamples"):
                                return got
                            if callee(x, "min") and any(mine(y) == "max_samples_per_stream_" for y in x.toks) or s["n"] is not None and x is s["n"]:
                                return asked
                            if mine(x) == "requested_":
                                return cur
                            return None
                        v = value(ev.r, e)
                        q.append(cur + v if op == "+=" else cur - v if op == "-=" else v)
                    s["back"] = tuple(q)
                except Unknown:
                    self.ctx.note("%s: %r not understood" % (self.g.name, ev.r))
                    s["back"] = "?"
        elif ev.k == "call" and n == "FetchSamples":
            self.n["fetch"] = 1
            if not s["asked"]:
                self.bad("A", "count", w, "samples are fetched without being counted as requested", st)
            s["n"] = base(ev.args[1])
            try:
                if any(value(ev.args[1], self.ask(p)) != min(p[0], p[1] - p[2]) for p in self.points(s)):
                    self.bad("A", "fetch", w, "a worker fetches another number of samples than was counted", st)
            except Unknown:
                self.ctx.note("%s: %r not understood" % (self.g.name, ev.args[1]))
            if mine(ev.args[0]) != "samples_" or mine(ev.args[2]) != "rate_limiter_timeout_":
                self.bad("A", "args", w, "a worker is not given the queue and the timeout of the sampler", st)
            s.update(fetched=True, wok=None, rok=None, unav=None, set=False, closed=False, back=None)
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "worker_status_" or ev.k == "call" and n == "Update" and ev.recv is not None and mine(ev.recv) == "worker_status_":
            self.n["error"] = 1
            if s["wok"] is not True and ev.k == "asg":
                self.bad("A", "first", w, "the first error may be replaced", st)
            if s["rok"] is not False:
                self.bad("A", "success", w, "success is recorded as an error", st)
            if s["unav"] is not False:
                self.bad("A", "transient", w, "a transient failure stops the sampler", st)
            r = ev.r if ev.k == "asg" else ev.args[0]
            if not (r is not None and calls(r, "FetchSamples")):
                self.bad("A", "error", w, "another status than that of the worker is recorded", st)
            s["set"] = True
        elif ev.k == "call" and n == "Close" and ev.recv is not None and mine(ev.recv) == "samples_":
            s["closed"] = True
            if not s["set"]:
                self.bad("A", "close", w, "the queue is closed although there was no error", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if s["fetched"] or s["asked"]:
            self.turn(st, s, w)
            if not s["set"]:
                self.bad("A", "dies", w, "a worker ends although it is still needed", st)
        elif s["stop"] is not True:
            self.bad("A", "dies", w, "a worker ends although it is still needed", st)


class Pop(Base):
    """Sampler::PopNextSample"""

    def init(self):
        return dict_(pop=None, max=None, closed=None, popped=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "Pop"):
                s["pop"] = val
            elif mine(x) == "closed_":
                s["closed"] = val
        elif atom.k in ("eq", "lt") and {mine(x) for x in atom.a} == {"returned_", "max_samples_"}:
            s["max"] = val if atom.k == "eq" or mine(atom.a[0]) == "max_samples_" else not val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "call" and n == "Pop":
            self.n["pop"] = 1
            if base(ev.args[0]).k != "p":
                self.bad("B", "out", ev.where(), "the sample is not handed to the caller", st)
            if s["pop"] is not None:
                self.bad("B", "twice", ev.where(), "a sample is skipped", st)
            s["popped"] = True
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if (s["pop"] is True or s["popped"] and s["pop"] is None) and ret is not OK:
            self.bad("B", "lost", w, "a sample is taken from the queue but an error is reported", st)
        if s["pop"] is not True:
            n = last(ret.a[0]) if ret is not None and ret.k == "call" else ""
            if ret is OK:
                self.bad("B", "none", w, "success is reported without a sample", st)
            elif n == "OutOfRangeError" and s["max"] is not True:
                self.bad("B", "limit", w, "the limit is reported although it was not reached", st)
            elif n == "CancelledError" and s["closed"] is not True:
                self.bad("B", "closed", w, "a cancellation is reported although there was none", st)
            elif mine(ret) == "worker_status_" and (s["max"] is not False or s["closed"] is not False):
                self.bad("B", "none", w, "the status of the workers is returned although it may not be an error", st)


class Maybe(Base):
    """Sampler::MaybeSampleNext"""

    def init(self):
        return dict_(some=None, end=None, pop=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        x = base(atom.a[0])
        if atom.k == "eq" and any(mine(y) == "active_sample_" for y in atom.a):
            s["some"] = not val
        elif atom.k in ("nz", "bool", "null"):
            v = val if atom.k != "null" else not val
            if mine(x) == "active_sample_":
                s["some"] = v
            elif callee(x, "is_end_of_sample"):
                s["end"] = v
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        if ev.k == "call" and last(ev.fn or "") in ("PopNextSample", "Pop"):
            self.n["pop"] = 1
            s["pop"] = True
            if s["some"] is not False and s["end"] is not True:
                self.bad("C", "replaced", ev.where(), "a sample is replaced before it was returned completely", st)
            if not any(mine(y) == "active_sample_" for y in ev.args[0].toks) and "active_sample_" not in str(ev.raw):
                self.bad("C", "lost", ev.where(), "a sample is taken that is not kept", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if s["pop"] and ret is OK and not calls(ret, "PopNextSample"):
            if not any(calls(a.a[0], "PopNextSample") and v for a, v in st.facts.items() if a.k == "okp") if isinstance(st.facts, dict) else False:
                self.bad("C", "none", w, "success is reported although there may be no sample", st)
        if not s["pop"] and ret is OK and not (s["some"] is True and s["end"] is False):
            self.bad("C", "none", w, "success is reported although there may be no timestep", st)


class Get(Base):
    """GetNextTimestep / GetNextSample / GetNextTrajectory"""

    def init(self):
        return dict_(pop=None, data=None, valid=None, mode=None, end=None, inc=0, cmp=None, closed=False, after=False, endset=None, rl=None, composed=None, nulls=())

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k == "okp":
            x = base(atom.a[0])
            if callee(x, "PopNextSample", "MaybeSampleNext"):
                s["pop"] = val
            elif callee(x, "ValidateAgainstOutputSpec"):
                s["valid"] = val
            elif callee(x, "AsBatchedTimesteps", "AsTrajectory"):
                s["data"] = val
        elif atom.k in ("nz", "bool", "null"):
            x = base(atom.a[0])
            v = val if atom.k != "null" else not val
            if callee(x, "is_end_of_sample") and s["data"]:
                if s["end"] not in (None, v):
                    return DEAD
                s["end"] = v
            elif callee(x, "is_composed_of_timesteps"):
                s["composed"] = v
            elif x.k == "p":
                s["nulls"] = s["nulls"] + ((x.a[0], v),)
        elif atom.k in ("eq", "lt") and any(mine(x) == "max_samples_" for x in atom.a) and any(mine(y) == "returned_" for x in atom.a for y in x.toks):
            o = next(x for x in atom.a if mine(x) != "max_samples_")
            v = val if atom.k == "eq" or mine(atom.a[0]) == "max_samples_" and False else None
            if atom.k == "eq":
                v = val
            elif mine(atom.a[0]) == "returned_" or base(atom.a[0]) is o:
                v = not val
            if s["inc"] == 1 and (mine(o) == "returned_"):
                s["cmp"] = v
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "call" and n in ("PopNextSample", "MaybeSampleNext"):
            if s["pop"] is not None:
                self.bad("C", "twice", w, "a sample is skipped", st)
            self.n["pop"] = 1
            s["pop"] = "?"
        elif ev.k == "call" and n in ("AsBatchedTimesteps", "AsTrajectory"):
            s["kind"] = n
            s["data"] = "?"
            if s["pop"] is not True:
                self.bad("C", "pop", w, "data is taken although there may be no sample", st)
            if base(ev.args[0]).k != "p" or base(ev.args[0]).a[0] != 0:
                self.bad("C", "out", w, "the data is not handed to the caller", st)
        elif ev.k == "call" and n == "GetNextTimestep" and ev.recv is not None:
            if s["pop"] is not True or s["composed"] is not True:
                self.bad("C", "pop", w, "a timestep is taken although there may be none", st)
            if s["data"]:
                self.bad("C", "twice", w, "a timestep is skipped", st)
            s.update(kind=n, data=True, end=None)
        elif ev.k == "call" and n == "ValidateAgainstOutputSpec":
            s["valid"] = "?"
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "returned_":
            op = ev.raw.get("op")
            if not (op == "++" or op == "+=" and num(ev.r) == 1 or op in ("=", None) and ev.r is not None and base(ev.r).k == "op" and mine(base(ev.r).a[1]) == "returned_" and num(base(ev.r).a[2]) == 1):
                self.bad("C", "count", w, "a returned sample is not counted once", st)
            s["inc"] += 1
            s["cmp"] = None
            self.n["count"] = 1
        elif ev.k == "call" and n == "Close" and ev.recv is not None and mine(ev.recv) == "samples_":
            s["closed"] = True
            if s["cmp"] is not True:
                self.bad("C", "early", w, "the sampler stops before all samples were returned", st)
        elif ev.k == "asg" and ev.l is not None and base(ev.l).k in ("p", "deref") and ev.r is not None:
            x = base(ev.l)
            x = x.a[0] if x.k == "deref" else x
            x = base(x)
            r = base(ev.r)
            if x.k == "p" and x.a[0] > 0:
                if callee(r, "rate_limited"):
                    s["rl"] = x.a[0]
                    if s["pop"] is not True:
                        self.bad("C", "info", w, "the information does not belong to the sample", st)
                elif callee(r, "is_end_of_sample") or r is TRUE and s["end"] is True or r is FALSE and s["end"] is False:
                    s["endset"] = x.a[0]
                    if not s["data"]:
                        self.bad("C", "end", w, "the end of the sample is reported before the timestep was taken", st)
                else:
                    self.bad("C", "info", w, "something else than the information about the sample is returned", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        nm = last(self.g.name)
        want = {"GetNextTimestep": "GetNextTimestep", "GetNextSample": "AsBatchedTimesteps", "GetNextTrajectory": "AsTrajectory"}[nm]
        if ret is OK:
            if s["pop"] is not True or s["data"] is not True or s.get("kind") != want:
                self.bad("C", "none", w, "success is reported without (the right kind of) data", st)
            last_ = s["end"] if nm == "GetNextTimestep" else True
            if last_ is None:
                self.bad("C", "count", w, "it is not known whether the sample was returned completely", st)
            elif s["inc"] != (1 if last_ else 0):
                self.bad("C", "count", w, "a returned sample is not counted once" if last_ else "a sample is counted before it was returned completely", st)
            if s["inc"] and s["cmp"] is None:
                self.bad("C", "limit", w, "the limit of samples is not compared with", st)
            if s["cmp"] is True and not s["closed"]:
                self.bad("C", "limit", w, "the sampler does not stop after the last sample", st)
            for i, p in enumerate(self.g.params):
                nn = p[0].split("@")[0] if isinstance(p, (tuple, list)) else str(p)
                nul = dict(s["nulls"]).get(i)
                if i == 0 or nul is False:
                    continue
                if "rate" in nn and s["rl"] != i or "end" in nn and s["endset"] != i:
                    self.bad("C", "info", w, "%s is not reported" % nn, st)
        elif s["inc"]:
            self.bad("C", "count", w, "a sample is counted as returned although an error is reported", st)


class Fetch(Base):
    """FetchSamples: what is counted is what was pushed"""

    def init(self):
        return dict_(closed=None, push=None, inc=frozenset(), pushed=False, ready=None, dead=None, wait=None, timeout=None, ok=None, more=None,
                     it=None, part=None, pend=0, eos=None, left=None, skipped=False, asked=None, every=None, stream=False, read=None, status=None, cnt=None, written=None, any=False)

    def counted(self, st, s, w, name=None):
        if s["pushed"]:
            c = name or self.counter
            if c is not None and c not in s["inc"]:
                self.bad("D", "count", w, "a sample was handed over but not counted", st)
            s["pushed"] = False
            s["inc"] = frozenset()

    def batch(self, st, s, w):
        if self.local and s["ok"] is True and s["it"] is None:
            self.bad("D", "skipped", w, "sampled items are not handed over", st)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if mine(x) == "closed_":
                s["closed"] = val
            elif callee(x, "Push"):
                if val:
                    s["pushed"] = s["any"] = True
                    s["inc"] = frozenset()
            elif callee(x, "IsDeadlineExceeded", "IsRateLimiterTimeout"):
                s["dead"] = val
            elif callee(x, "end_of_sequence"):
                s["eos"] = val
            elif callee(x, "empty"):
                s["left"] = not val
            elif callee(x, "Read"):
                s["read"] = val
            elif callee(x, "Write"):
                s["written"] = val
        elif atom.k == "okp":
            x = base(atom.a[0])
            if callee(x, "AsSample"):
                s["ready"] = val
            elif callee(x, "SampleFlexibleBatch"):
                s["ok"] = val
        elif atom.k == "lt" and callee(atom.a[0], "num_waiting_to_pop"):
            s["wait"] = not val if num(atom.a[1]) == 1 else s["wait"]
        elif atom.k == "lt" and callee(atom.a[1], "num_waiting_to_pop") and num(atom.a[0]) == 0:
            s["wait"] = val
        elif atom.k == "eq" and any(callee(x, "num_waiting_to_pop") for x in atom.a) and any(num(x) == 0 for x in atom.a):
            s["wait"] = not val
        elif atom.k == "lt" and callee(atom.a[0], "Now"):
            s["more"] = val
        if atom.k in ("lt", "eq") and any(base(x).k == "p" and base(x).a[0] == 1 for x in atom.a):
            o = next((x for x in atom.a if not (base(x).k == "p")), None)
            if o is not None and (num(o) is not None or base(o).k in ("phi", "v")):
                done = val if atom.k == "eq" else (not val if base(atom.a[1]).k == "p" else None)
                if done is not None:
                    s["cnt"] = done
        o = scan(atom)
        if o is not None and o[0] is not None and (calls(o[0], "entries", "entries_size") or self.local and base(o[0]).k in ("ctor", "v", "obj", "phi")) and not any(base(x).k == "p" for x in atom.a) and not callee(base(o[0]), "num_samples"):
            if s["it"] == "open":
                if self.local and not s["pushed"]:
                    self.bad("D", "skipped", w, "a fetched sample is not handed over", st)
                if not self.local and s["part"] != 1:
                    self.bad("D", "entry", w, "an entry of a response is not used once", st)
                if not self.local and s["eos"] is not False and not s["pushed"]:
                    self.bad("D", "skipped", w, "a complete sample is not handed over", st)
            if (starts(atom, o) or s["it"] is None) and late(o[2]):
                self.bad("D", "skipped", w, "the first samples are left out", st)
            self.counted(st, s, w)
            s.update(it="left" if val == o[1] else "open", part=0, eos=None)
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "unlock":
            s["section"] = None
        if ev.k == "call" and n == "Push":
            self.n["push"] = 1
            self.counted(st, s, w)
            if s["ready"] is not True:
                self.bad("D", "push", w, "something else than a valid sample is handed over", st)
            if base(ev.recv).k != "p":
                self.bad("D", "push", w, "a sample is not handed to the queue of the caller", st)
            s["ready"] = None
        elif ev.k == "call" and n == "AsSample":
            s["ready"] = "?"
            self.n["sample"] = 1
            if not self.local:
                if s["eos"] is not True:
                    self.bad("D", "partial", w, "an incomplete sample is handed over", st)
                s["pend"] = 0
                s["taken"] = True
        elif ev.k == "call" and n == "clear" and not self.local:
            s["taken"] = False
        elif ev.k == "asg" and ev.l is not None and ev.l.k in ("v", "phi", "lit") or ev.k == "asg" and isinstance(ev.raw.get("l"), (tuple, list)) and ev.raw["l"][0] == "v":
            op = ev.raw.get("op")
            l = ev.raw.get("l")
            name = l[1] if l else var(ev.l)
            if (op == "++" or op == "+=" and num(ev.r) == 1) and name and not name.startswith("__"):
                if s["pushed"] and name not in s["inc"]:
                    s["inc"] = s["inc"] | {name}
                elif name == self.counter:
                    self.bad("D", "count", w, "a sample is counted that was not handed over (or twice)", st)
            elif name == self.counter and op in ("+=", "=", None, "-=", "--"):
                self.bad("D", "count", w, "samples are counted that may not have been handed over", st)
        elif ev.k == "call" and n in INSERT and not self.local and s["it"] == "open":
            s["part"] += 1
            if s.get("taken"):
                self.bad("D", "mixed", w, "entries of different samples are mixed", st)
        elif ev.k == "call" and n == "SampleStream":
            self.n["stream"] = 1
            if s["closed"] is not False or not ev.locks:
                self.bad("E", "cancel", w, "a stream is opened that Cancel does not reach", st)
            if not any(mine(x) == "context_" for a in ev.args for x in a.toks):
                self.bad("E", "cancel", w, "a stream is opened that Cancel does not reach", st)
        elif ev.k == "call" and n in ("set_num_samples", "SampleFlexibleBatch"):
            a = ev.args[0 if n == "set_num_samples" else 1]
            self.n["ask"] = 1
            try:
                for per, all_, got in ((3, 10, 0), (3, 10, 8), (100, 7, 2)):
                    def e(x):
                        if mine(x) in ("samples_per_request_", "flexible_batch_size_"):
                            return per
                        if x.k == "p" and x.a[0] == 1:
                            return all_
                        if x.k in ("phi", "v") or num(x) == 0:
                            return got
                        return None
                    if value(a, e) != min(per, all_ - got):
                        self.bad("D", "ask", w, "more (or fewer) samples are asked for than remain and than may be asked for at once", st)
                        break
            except Unknown:
                self.ctx.note("%s: %r not understood" % (self.g.name, a))
            if n == "SampleFlexibleBatch":
                self.batch(st, s, w)
                s["it"] = None
                if s["closed"] is not False:
                    self.bad("E", "cancel", w, "the table is sampled although Cancel may have been called", st)
                s["closed"] = None
                self.n["stream"] = 1
                if not calls(ev.args[2], "Now") or not calls(ev.args[2], "min"):
                    try:
                        v = value(ev.args[2], lambda x: 1e9 if x.k == "p" and x.a[0] == 2 else 0 if callee(x, "Now") else num(x.a[-1]) if callee(x, "Seconds") else None)
                        if v > 60:
                            self.bad("E", "wake", w, "the worker may wait for the table without looking for a cancellation", st)
                    except Unknown:
                        self.bad("E", "wake", w, "the worker may wait for the table without looking for a cancellation", st)
                else:
                    try:
                        v = value(ev.args[2], lambda x: 1e9 if x.k == "p" and x.a[0] == 2 or x.k in ("phi",) else 0 if callee(x, "Now") else num(x.a[-1]) if callee(x, "Seconds") else 0.001 * num(x.a[-1]) if callee(x, "Milliseconds") else None)
                        if v > 60:
                            self.bad("E", "wake", w, "the worker may wait for the table without looking for a cancellation", st)
                    except (Unknown, TypeError):
                        self.ctx.note("%s: %r not understood" % (self.g.name, ev.args[2]))
                s.update(ok=None, dead=None, wait=None, more=None)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if ret is None or ret.k != "pairv":
            self.ctx.note("%s: result %r not understood" % (self.g.name, ret))
            return
        c, r = ret.a[0], ret.a[1]
        self.counted(st, s, w)
        self.batch(st, s, w)
        if c.k in ("phi", "v") and self.counter is not None and var(c) != self.counter:
            self.bad("D", "count", w, "another number than that of the samples handed over is returned", st)
        if num(c) == 0 and s["any"] and s["closed"] is not True:
            self.bad("D", "count", w, "another number than that of the samples handed over is returned", st)
        if r is OK:
            idle = s["dead"] is True and s["wait"] is False
            if s["cnt"] is not True and not idle:
                self.bad("D", "short", w, "success is reported although samples are missing", st)
            if s["left"] is None and not self.local and s["read"] is not None and not idle:
                self.bad("D", "partial", w, "success is reported although part of a sample may be left", st)
        table = calls(r, "SampleFlexibleBatch")
        if self.local and table and s["ok"] is not True and not (s["dead"] is False or s["dead"] is True and s["more"] is False):
            self.bad("E", "timeout", w, "a timeout is reported before it expired", st)
        if self.local and table and s["ok"] is not True and s["dead"] is True and s["wait"] is None:
            self.bad("E", "idle", w, "a timeout is reported although nobody may be waiting for data", st)
        if not self.local and calls(r, "Finish") and s["read"] is False and not (s["dead"] is False or s["wait"] is True):
            self.bad("E", "idle", w, "a timeout is reported although nobody may be waiting for data", st)
        if (table or calls(r, "Finish")) and s["dead"] is True and s["wait"] is False and s["ok"] is not True:
            self.bad("E", "idle", w, "a timeout is reported although nobody was waiting for data", st)


class Stop(Base):
    """Sampler::Close"""

    def init(self):
        return dict_(was=None, set=False, it=None, cancel=0, all=None, closed=False, join=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k in ("nz", "bool") and (mine(base(atom.a[0])) == "closed_" and not s["set"] or callee(base(atom.a[0]), "exchange")):
            s["was"] = val
        o = scan(atom)
        if o is not None and mine(o[0]) == "workers_":
            if s["it"] == "open" and s["cancel"] != 1:
                self.bad("F", "cancel", w, "a worker is not cancelled", st)
            if late(o[2]):
                self.bad("F", "cancel", w, "a worker is not cancelled", st)
            leave = val == o[1]
            s.update(it="left" if leave else "open", cancel=0)
            if leave:
                s["all"] = True
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        r = mine(ev.recv) if ev.recv is not None else None
        if ev.k == "asg" and ev.l is not None and mine(ev.l) == "closed_":
            s["set"] = ev.r is TRUE
        elif ev.k == "call" and n == "exchange" and mine(ev.args[0]) == "closed_":
            s["set"] = ev.args[1] is TRUE
        elif ev.k == "call" and n == "Cancel":
            s["cancel"] += 1
            self.n["cancel"] = 1
        elif ev.k == "call" and n == "Close" and r == "samples_":
            s["closed"] = True
            if not s["set"]:
                self.bad("F", "order", w, "consumers are woken up before they can see that the sampler is closed", st)
        elif ev.k == "call" and r == "worker_threads_" and n in ("clear", "resize", "pop_back") or ev.k == "asg" and ev.l is not None and mine(ev.l) == "worker_threads_":
            self.n["join"] = 1
            s["join"] = True
            if not s["set"] or not s["all"] or not s["closed"]:
                self.bad("F", "join", w, "threads are joined although they may be blocked", st)
            if ev.locks:
                self.bad("F", "lock", w, "threads are joined that need the lock", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if s["was"] is True:
            return
        if not (s["set"] and s["all"] and s["closed"] and s["join"]):
            self.bad("F", "stop", w, "the sampler is not stopped completely", st)


class Cancel(Base):
    """Cancel of a worker"""

    def init(self):
        return dict_(set=False, ctx=None, tried=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool", "null") and mine(base(atom.a[0])) == "context_":
            s["ctx"] = val if atom.k != "null" else not val
        elif atom.k == "eq" and any(mine(x) == "context_" for x in atom.a):
            s["ctx"] = not val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        if ev.k == "asg" and ev.l is not None and mine(ev.l) == "closed_" and ev.r is TRUE:
            s["set"] = bool(ev.locks)
        elif ev.k == "call" and last(ev.fn or "") == "TryCancel":
            s["tried"] = True
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if not s["set"]:
            self.bad("F", "flag", w, "a cancelled worker opens another stream", st)
        if self.grpc and s["ctx"] is not False and not s["tried"]:
            self.bad("F", "stream", w, "the open stream is not cancelled", st)


class Length(Base):
    """Sample::is_composed_of_timesteps counts what is left of each column"""

    def init(self):
        return dict_(n=0, it=None, cmp=None, first=None, len=False, acc=0)

    def event(self, st, ev):
        if ev.k != "asg" or ev.raw.get("op") not in ("+=", "-=", "=", None) or ev.r is None:
            return st.auto
        if not calls(ev.r, "dim_size") and not any(y.k == "m" and last(y.a[1]) == "offset" for y in ev.r.toks):
            return st.auto
        self.n["len"] = 1
        s = dict(st.auto)
        try:
            v = value(ev.r, lambda x: 7 if callee(x, "dim_size") else 2 if x.k == "m" and last(x.a[1]) == "offset" else 1000 if x.k in ("phi", "v") else 0 if num(x) == 0 else None)
            s["acc"] += -v if ev.raw.get("op") == "-=" else v % 1000 if v > 900 else v
        except Unknown:
            s["acc"] = None
            self.ctx.note("%s: %r not understood" % (self.g.name, ev.r))
        s["len"] = True
        s["at"] = ev.where()
        return dict_(**s)

    def slice(self, st, s):
        """a slice of 7 rows of which 2 were returned counts 5"""
        if s["acc"] not in (None, 0, 5):
            self.bad("G", "length", s["at"], "timesteps that were already returned count for the length of a column", st)
        s["acc"] = 0

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        o = scan(atom)
        if o is not None:
            self.slice(st, s)
        if o is not None and mine(o[0]) == "columns_" and base(o[0]).k == "m":
            self.n["scan"] = 1
            if s["it"] == "open" and s["n"] > 1 and s["cmp"] is None and s["first"] is None and s["len"]:
                self.bad("G", "composed", w, "the length of a column is not compared with that of the others", st)
            if s["cmp"] is False:
                self.bad("G", "composed", w, "columns of different lengths pass for timesteps, or those of the same do not", st)
            leave = val == o[1]
            s.update(it="left" if leave else "open", n=min(s["n"] + 1, 2), cmp=None, first=None, len=False)
        elif atom.k in ("nz", "bool") and callee(atom.a[0], "has_value"):
            s["first"] = not val
        elif atom.k == "eq" and any((num(x) or 0) < 0 for x in atom.a):
            s["first"] = val
        elif atom.k == "eq" and not any(y.k == "call" and last(y.a[0]) in ("begin", "end") for x in atom.a for y in x.toks if False) and scan(atom) is None:
            s["cmp"] = val
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if "scan" not in self.n:
            return
        if ret is TRUE and s["it"] != "left":
            self.bad("G", "composed", w, "not all columns are looked at", st)
        if ret is TRUE and s["cmp"] is False or ret is FALSE and s["cmp"] is not False:
            self.bad("G", "composed", w, "columns of different lengths pass for timesteps, or those of the same do not", st)


class Step(Base):
    """Sample::GetNextTimestep"""

    def init(self):
        return dict_(it=None, sub=0, push=0, adv=0, at=None, popped=0, info=0, cols=False, called=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k == "eq" and any(callee(x, "dim_size") for x in atom.a) and any(fld(x) == "offset" or x.k == "m" and last(x.a[1]) == "offset" for x in atom.a):
            s["at"] = val if s["adv"] else "early"
        elif atom.k == "lt" and any(callee(y, "dim_size") for x in atom.a for y in x.toks) and any(y.k == "m" and last(y.a[1]) == "offset" for x in atom.a for y in x.toks):
            try:
                t = [bool(value(atom, lambda x: 3 if callee(x, "dim_size") else k if x.k == "m" and last(x.a[1]) == "offset" else None)) for k in (1, 2, 3)]
                if t not in ([False, False, True], [True, True, False]):
                    self.bad("G", "chunk", w, "a chunk is dropped before its last row or kept after it", st)
                s["at"] = (val == t[2]) if s["adv"] else "early"
            except Unknown:
                self.ctx.note("%s: %r not understood" % (self.g.name, atom))
        o = scan(atom)
        if o is not None and mine(o[0]) == "columns_":
            if s["it"] == "open":
                self.col(st, s, w)
            elif late(o[2]):
                self.bad("G", "column", w, "the first columns are left out", st)
            leave = val == o[1]
            s.update(it="left" if leave else "open", sub=0, push=0, adv=0, at=None, popped=0)
            s["cols"] = s["cols"] or leave
        return dict_(**s)

    def col(self, st, s, w):
        if s["sub"] != 1 or s["push"] != 1:
            self.bad("G", "column", w, "a timestep does not hold one row of every column", st)
        if s["adv"] != 1:
            self.bad("G", "advance", w, "a row is returned again or skipped", st)
        if s["at"] is None or s["at"] == "early":
            self.bad("G", "chunk", w, "it is not noticed when a chunk was read completely", st)
        elif s["popped"] != (1 if s["at"] else 0):
            self.bad("G", "chunk", w, "a chunk is dropped before its last row or kept after it", st)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "call" and n == "SubSlice":
            self.n["sub"] = 1
            s["sub"] += 1
            x = ev.args[0]
            ok = any(y.k == "m" and last(y.a[1]) == "offset" for y in x.toks)
            old = any(y.k == "old" for y in x.toks)
            if not ok or (s["adv"] and not old) or num(x) is not None:
                self.bad("G", "row", w, "another than the next row is returned", st)
            if not any(callee(y, "front") for y in ev.recv.toks):
                self.bad("G", "row", w, "another than the next chunk is read", st)
        elif ev.k == "asg" and ev.l is not None and base(ev.l).k == "m" and last(base(ev.l).a[1]) == "offset":
            s["adv"] += 1 if ev.raw.get("op") == "++" or ev.raw.get("op") == "+=" and num(ev.r) == 1 else 5
        elif ev.k == "call" and n == "pop_front":
            s["popped"] += 1
            if s["at"] is not True:
                s["popped"] += 5
        elif ev.k == "call" and n in INSERT and s["it"] == "open":
            s["push"] += 1
        elif ev.k == "call" and n in INSERT and s["it"] is None:
            want = ("key_", "probability_", "table_size_", "priority_")
            x = next((mine(y) for y in ev.args[0].toks if mine(y) in want), None)
            if s["info"] >= 4 or x != want[s["info"]]:
                self.bad("G", "info", w, "the information about the sample is not returned as documented", st)
            s["info"] += 1
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "next_timestep_called_":
            s["called"] = ev.r is TRUE
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if not s["cols"] or s["info"] != 4:
            self.bad("G", "info", w, "a timestep is incomplete", st)
        if not s["called"]:
            self.bad("G", "called", w, "a sample whose first timesteps were returned passes for complete", st)


class Batch(Base):
    """Sample::AsBatchedTimesteps / AsTrajectory"""

    def init(self):
        return dict_(called=None, comp=None, info=(), cols=None, sq=None, it=None, i=None, sub=0, dim=None, swapped=False, sqok=True, all=None)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if mine(x) == "next_timestep_called_":
                s["called"] = val
            elif callee(x, "is_composed_of_timesteps"):
                s["comp"] = val
            elif any(mine(y) == "squeeze_columns_" for y in x.toks):
                s["sq"] = val
                s["i"] = next((base(y.a[-1]) for y in x.toks if y.k == "idx" and mine(y.a[0]) == "squeeze_columns_"), None)
        elif atom.k == "okp" and callee(atom.a[0], "UnpackColumns"):
            s["cols"] = val
        elif atom.k == "eq" and any(num(x) == 1 for x in atom.a) and any(calls(x, "dim_size") for x in atom.a):
            s["dim"] = val
        o = scan(atom)
        if o is not None and mine(o[0]) == "squeeze_columns_":
            if s["it"] == "open" and (s["sq"] is None or s["sub"] != (1 if s["sq"] else 0)):
                self.bad("G", "squeeze", w, "not exactly the squeezed columns lose their batch dimension", st)
            if s["it"] is None and late(o[2]):
                self.bad("G", "squeeze", w, "the first columns are left out", st)
            try:
                n = lambda x: 5 if callee(x, "size") else 4 if x.k in ("phi", "v") else None
                if atom.k == "lt" and any(base(y).k in ("phi", "v") for x in atom.a for y in x.toks) and bool(value(atom, n)) == o[1]:
                    self.bad("G", "squeeze", w, "the last columns are left out", st)
            except Unknown:
                pass
            leave = val == o[1]
            s.update(it="left" if leave else "open", sq=None, sub=0, dim=None)
            s["all"] = leave
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "asg" and ev.l is not None and base(ev.l).k == "idx" and num(base(ev.l).a[-1]) is not None and ev.r is not None and s["it"] is None:
            x = next((mine(y) for y in ev.r.toks if mine(y) in ("key_", "probability_", "table_size_", "priority_")), None)
            s["info"] = s["info"] + ((num(base(ev.l).a[-1]), x),)
            self.n["info"] = 1
            if last(self.g.name) == "AsBatchedTimesteps" and not any(mine(y) == "num_timesteps_" for y in ev.r.toks):
                self.bad("G", "length", w, "the information is not repeated for every timestep", st)
        elif ev.k == "call" and n == "UnpackColumns":
            s["cols"] = "?"
            self.n["unpack"] = 1
        elif ev.k == "call" and n == "SubSlice" and s["it"] == "open":
            s["sub"] += 1
            if s["sq"] is not True or s["dim"] is not True:
                self.bad("G", "squeeze", w, "a column that holds more than one row (or is not squeezed) loses its batch dimension", st)
            if num(ev.args[0]) != 0:
                self.bad("G", "squeeze", w, "the row of a squeezed column is not returned", st)
            ix = next((y.a[-1] for y in ev.recv.toks if y.k == "idx"), None)
            try:
                i = s["i"]
                if i is not None and ix is not None and num_eval(ix, lambda x: 3 if x is i and i.k != "lit" else None) != (3 if i.k != "lit" else num(i)) + 4:
                    self.bad("G", "squeeze", w, "another column than the squeezed one loses its batch dimension", st)
            except Unknown:
                pass
        elif ev.k == "call" and n == "swap" or ev.k == "asg" and ev.l is not None and base(ev.l).k in ("p", "deref"):
            s["swapped"] = True
            if s["cols"] is not True:
                self.bad("G", "data", w, "the data is returned before it is complete", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if ret is not OK:
            return
        if s["called"] is not False:
            self.bad("G", "lost", w, "success is reported although timesteps may have been returned before", st)
        if last(self.g.name) == "AsBatchedTimesteps" and s["comp"] is not True:
            self.bad("G", "composed", w, "success is reported although the columns may have different lengths", st)
        if last(self.g.name) == "AsTrajectory" and s["all"] is not True:
            self.bad("G", "squeeze", w, "not all squeezed columns lose their batch dimension", st)
        if dict(s["info"]) != {0: "key_", 1: "probability_", 2: "table_size_", 3: "priority_"}:
            self.bad("G", "info", w, "the information about the sample is not returned as documented", st)
        if s["cols"] is not True or not s["swapped"]:
            self.bad("G", "data", w, "success is reported without data", st)


class Unpack(Base):
    """Sample::UnpackColumns"""

    def init(self):
        return dict_(it=None, out=0, one=None, inner=None, pushed=0, all=None, adv=0, ok=None, cat=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k == "eq" and any(num(x) == 1 for x in atom.a) and any(callee(x, "size") for x in atom.a):
            s["one"] = val
        elif atom.k == "okp" and calls(atom.a[0], "Concat"):
            s["ok"] = val
        o = scan(atom)
        if o is not None and mine(o[0]) == "columns_" and base(o[0]).k == "m":
            if s["it"] == "open" and s["out"] != 1:
                self.bad("G", "unpack", w, "a column is not unpacked once", st)
            if s["it"] == "open" and s["cat"] and s["ok"] is not True:
                self.bad("G", "unpack", w, "success is reported although a column may not have been put together", st)
            if s["it"] is None and late(o[2]) or reverse(atom):
                self.bad("G", "unpack", w, "the columns are not unpacked in order", st)
            leave = val == o[1]
            s.update(it="left" if leave else "open", out=0, one=None, inner=None, all=None, ok=None, cat=False)
        elif o is not None and o[0] is not None and s["it"] == "open" and not callee(base(o[0]), "size"):
            if s["inner"] == "open" and s["pushed"] != 1:
                self.bad("G", "chunk", w, "a chunk of a column is left out", st)
            if late(o[2]) and s["inner"] is None or reverse(atom):
                self.bad("G", "chunk", w, "the chunks of a column are not unpacked in order", st)
            leave = val == o[1]
            s.update(inner="left" if leave else "open", pushed=0)
            s["all"] = leave
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "call" and n == "Concat":
            self.n["concat"] = 1
            s["cat"] = True
            if s["all"] is not True:
                self.bad("G", "chunk", w, "a column is put together before all its chunks are known", st)
            s["out"] += 1
        elif ev.k == "asg" and ev.l is not None and s["it"] == "open" and ev.r is not None and any(y.k == "m" and last(y.a[1]) == "tensor" for y in ev.r.toks) and base(ev.l).k not in ("v", "phi", "ctor", "obj", "lit"):
            s["out"] += 1
            self.n["move"] = 1
            if s["one"] is not True:
                self.bad("G", "chunk", w, "only one chunk of a column is returned", st)
        elif ev.k == "call" and n in INSERT and s["inner"] == "open":
            s["pushed"] += 1
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if ret is OK and s["it"] != "left":
            self.bad("G", "unpack", ev.where() if ev is not None else self.g.where(), "success is reported although columns are missing", st)


class Make(Base):
    """AsSample"""

    def init(self):
        return dict_(cit=None, sit=None, unpacked=None, one=0, cnt=0, zero=None, direct=None, col=0, did=False, slots=())

    def close(self, st, s, w):
        """the end of a round over the slices"""
        if s["one"] and s["unpacked"] is not True:
            self.bad("G", "slice", w, "a slice may not have been unpacked", st)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k == "okp" and callee(atom.a[0], "UnpackChunkColumnAndSlice"):
            s["unpacked"] = val
            return dict_(**s)
        if atom.k in ("eq", "lt") and any(y.k == "idx" and calls(y.a[-1], "chunk_key") for x in atom.a for y in x.toks):
            z = next((x for x in atom.a if num(x) is not None), None)
            if atom.k == "eq" and z is not None and num(z) == 0:
                s["zero"] = val
            elif atom.k == "lt" and z is not None:
                s["zero"] = val if num(z) == 1 and z is atom.a[1] else not val if num(z) == 0 and z is atom.a[0] else None
        o = scan(atom)
        if o is None or o[0] is None:
            return dict_(**s)
        c, leave = base(o[0]), val == o[1]
        if calls(c, "chunk_slices"):
            if s["sit"] == "open":
                self.close(st, s, w)
                if s["one"] == 0 and s["cnt"] == 0:
                    self.bad("G", "slice", w, "a slice of a column is not part of the sample", st)
            if starts(atom, o) and late(o[2]):
                self.bad("G", "slice", w, "the first slices are left out", st)
            s.update(sit="left" if leave else "open", one=0, cnt=0, zero=None, unpacked=None)
        elif calls(c, "columns", "columns_size"):
            if s["cit"] == "open" and s["did"] and (s["direct"] is False and s["col"] != 1 or s["direct"] == "slot" and len(s["slots"]) != 1):
                self.bad("G", "column", w, "a column is not part of the sample", st)
            if s["cit"] != "open" and late(o[2]):
                self.bad("G", "column", w, "the first columns are left out", st)
            s.update(cit="left" if leave else "open", sit=None, did=False, col=0, slots=())
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        x = None
        if ev.k == "call" and n == "UnpackChunkColumnAndSlice":
            self.n["unpack"] = 1
            s["one"] += 1
            s["did"] = True
            s["unpacked"] = None
            s["direct"] = any(y.k == "idx" for y in ev.args[-1].toks)
            if any(callee(y, "back") and repr(base(y.a[1])) in s["slots"] for y in ev.args[-1].toks):
                s["direct"] = "slot"
            if s["one"] > 1:
                self.bad("G", "slice", w, "a slice is unpacked twice", st)
        elif ev.k == "asg" and ev.raw.get("op") in ("++", "+=") and base(ev.l).k == "idx":
            s["cnt"] = 1
        elif ev.k == "call" and n == "erase" and s["sit"] == "open":
            if s["zero"] is not True:
                self.bad("G", "chunk", w, "a chunk is dropped that is still needed", st)
        elif ev.k == "call" and n in INSERT and not ev.args and s["cit"] == "open" and s["sit"] is None:
            # room for the next column
            s["slots"] = (s["slots"] + (repr(base(ev.recv)),))[:2]
        elif ev.k == "call" and n in INSERT and ev.args:
            x = base(ev.args[0])
            if s["cit"] == "open" and s["did"] and not calls(x, "squeeze"):
                s["col"] += 1
        elif ev.k == "asg" and ev.l is not None and base(ev.l).k == "idx":
            x = base(ev.r) if ev.r is not None else None
        elif ev.k in ("ctor", "new") and n == "Sample" or ev.k == "call" and n in ("make_unique", "Sample") and len(ev.args) >= 7:
            self.n["make"] = 1
            want = ("key", "probability", "table_size", "priority", "rate_limited")
            for y, name in zip(ev.args, want):
                f = leaf(base(y))
                f = f[0] if f else None
                if f != name:
                    self.bad("G", "info-" + name, w, "the %s of a sample is not that of the sampled item" % name.replace("_", " "), st)
        if x is not None and calls(x, "squeeze"):
            self.n["squeeze"] = 1
            if not callee(x, "squeeze"):
                self.bad("G", "squeeze", w, "other columns are squeezed than those of the item", st)
        return dict_(**s)


class Finished(Base):
    """Sample::is_end_of_sample"""

    def init(self):
        return dict_(it=None, emp=None)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        o = scan(atom)
        if o is not None and mine(o[0]) == "columns_":
            self.n["scan"] = 1
            if s["it"] == "open" and s["emp"] is not True:
                self.bad("G", "end", w, "a sample ends although a column still holds data", st)
            s.update(it="left" if val == o[1] else "open", emp=None)
        elif atom.k in ("nz", "bool") and callee(atom.a[0], "empty"):
            s["emp"] = val
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        x = base(ret)
        if x is not None and callee(x, "all_of", "none_of", "any_of", "c_all_of", "c_none_of", "c_any_of"):
            f = universal(self.ctx.program("sampler.cc"), x, "empty")
            if f is None and callee(x, "all_of", "any_of", "c_all_of", "c_any_of"):
                self.bad("G", "end", w, "a sample does not end exactly when all columns were returned", st)
        elif ret is TRUE and "scan" in self.n and s["it"] != "left":
            self.bad("G", "end", w, "a sample ends although a column still holds data", st)
        elif ret is FALSE and "scan" in self.n and s["emp"] is not False:
            self.bad("G", "end", w, "a sample goes on although all columns were returned", st)


def run(ctx):
    ctx.rule("A", "A worker fetches as many samples as it counted as requested, which never exceed what remains; what it did not fetch is requested again; the first non-transient error is kept and wakes the consumers; it ends only when it is not needed.")
    ctx.rule("B", "A consumer gets a sample or the reason why there is none.")
    ctx.rule("C", "Every completely returned sample is counted once and the last one stops the sampler.")
    ctx.rule("D", "A fetch reports exactly as many samples as it handed over, each complete and valid, never more than asked for; success means all of them.")
    ctx.rule("E", "Cancel reaches every wait of a fetch; a timeout is reported only after it expired and to someone who waits.")
    ctx.rule("F", "Closing stops everything once: flag, workers, queue, then threads.")
    ctx.rule("G", "A sample is decomposed completely and in order, with the information about it.")
    prog = ctx.program("sampler.cc")

    def find(cls, name, n=1):
        gs = [g for g in prog.fns.values() if g.blocks and last(g.cls or "") == cls and last(g.name) == name and not g.lam]
        if len(gs) < n:
            raise AnalysisBroken("%s::%s not found" % (cls, name))
        return gs

    def go(g, a, rid, need, inline):
        ctx.engine(Engine(prog, g, a, inline=inline))
        for k, m in need:
            if k not in a.n:
                ctx.violation(rid, "%s/no-%s" % (short(g.name), k), g.where(), m, [])
        ctx.instance(rid, g.name)
    CONTRACT = ("should_stop_workers", "FetchSamples", "PopNextSample", "MaybeSampleNext", "ValidateAgainstOutputSpec", "GetNextTimestep", "AsBatchedTimesteps", "AsTrajectory", "is_end_of_sample", "is_composed_of_timesteps",
                "rate_limited", "AsSample", "Cancel", "UnpackColumns", "FromGrpcStatus", "UnpackChunkColumnAndSlice", "IsRateLimiterTimeout", "NonnegativeDurationToInt64Millis", "ScalarTensor", "InitializeTensor", "FromTensorflowStatus", "Close")
    own = lambda k, ev: (k.lam or k.cls == "" or last(k.cls) in ("Sampler", "Sample", "GrpcSamplerWorker", "LocalSamplerWorker")) and last(k.name) not in CONTRACT

    for g in find("Sampler", "RunWorker"):
        go(g, Worker(ctx, g), "A", (("fetch", "nothing is ever fetched"), ("error", "errors are never kept")), own)
        for l in [l for l in prog.fns.values() if l.lam and l.parent == g.usr and l.blocks and "bool" in (l.ret or "")]:
            m = Mod()
            ctx.engine(Engine(prog, l, m, inline=lambda k, ev: last(k.cls or "") == "Sampler"))
            ctx.instance("A", l.name)
            pts = [p + (r,) for p in STOP for r in (3, 5)]
            decide(ctx, l, None, m, "A", "wake", pts, lambda p: lambda x: p[3] if mine(x) == "requested_" else stopenv(p)(x),
                   lambda p: bool(p[0] or p[1] == 5 or not p[2] or p[3] < 5), lambda p, r: "a worker waits although it has to %s" % ("stop" if p[0] or p[1] == 5 or not p[2] else "fetch samples") if not r else "a worker goes on although there is nothing to do")
    for g in find("Sampler", "should_stop_workers"):
        m = Mod()
        ctx.engine(Engine(prog, g, m))
        ctx.instance("A", g.name)
        decide(ctx, g, None, m, "A", "stop", STOP, stopenv, lambda p: bool(p[0] or p[1] == 5 or not p[2]),
               lambda p, r: "workers %s although %s" % ("stop" if r else "go on", "there is no reason" if r else "the sampler is closed" if p[0] else "all samples were returned" if p[1] == 5 else "there was an error"))
    for g in find("Sampler", "PopNextSample"):
        go(g, Pop(ctx, g), "B", (("pop", "samples are never returned"),), own)
    for name in ("GetNextTimestep", "GetNextSample", "GetNextTrajectory"):
        for g in find("Sampler", name):
            go(g, Get(ctx, g), "C", (("pop", "samples are never returned"), ("count", "returned samples are never counted")), own)
    for cls in ("GrpcSamplerWorker", "LocalSamplerWorker"):
        for g in find(cls, "FetchSamples"):
            a = Fetch(ctx, g)
            a.local = cls == "LocalSamplerWorker"
            a.counter = counter(g)
            if a.counter is None:
                ctx.note("%s: the counter of samples was not found" % g.name)
            go(g, a, "D", (("push", "samples are never handed over"), ("ask", "samples are never asked for"), ("stream", "samples are never asked for")), own)
            ctx.instance("E", g.name)
        for g in find(cls, "Cancel"):
            a = Cancel(ctx, g)
            a.grpc = cls == "GrpcSamplerWorker"
            go(g, a, "F", (), own)
    for g in find("Sampler", "Close"):
        go(g, Stop(ctx, g), "F", (("cancel", "workers are never cancelled"), ("join", "threads are never joined")), own)
    for g in find("Sampler", "~Sampler"):
        if not any(e.get("k") == "call" and last(str(e.get("fn", ""))) == "Close" for e in g.events()):
            m = Mod()
            ctx.violation("F", "~Sampler/close", g.where(), "a destroyed sampler is not closed", [])
        ctx.instance("F", g.name)
    for g in find("Sample", "is_composed_of_timesteps"):
        go(g, Length(ctx, g), "G", (), own)
    for g in find("Sample", "is_end_of_sample"):
        go(g, Finished(ctx, g), "G", (), own)
    for g in find("Sampler", "MaybeSampleNext"):
        go(g, Maybe(ctx, g), "C", (("pop", "samples are never returned"),), own)
    for g in find("Sample", "GetNextTimestep"):
        go(g, Step(ctx, g), "G", (("sub", "no data is returned"),), own)
    for name in ("AsBatchedTimesteps", "AsTrajectory"):
        for g in find("Sample", name):
            go(g, Batch(ctx, g), "G", (("unpack", "no data is returned"), ("info", "no information about the sample is returned")), own)
    for g in find("Sample", "UnpackColumns"):
        go(g, Unpack(ctx, g), "G", (("concat", "columns with several chunks are not returned"),), own)
    gs = [g for g in prog.fns.values() if g.blocks and last(g.name) == "AsSample" and not g.lam]
    if not gs:
        raise AnalysisBroken("AsSample not found")
    for g in gs:
        go(g, Make(ctx, g), "G", (("unpack", "samples never hold data"), ("make", "samples are never made"), ("squeeze", "columns are never squeezed")), own)


def counter(g):
    """the local variable that is returned as the number of samples"""
    seen = {}
    for e in g.events():
        if e.get("k") == "asg" and e.get("op") in ("++", "+=") and e.get("l") and e["l"][0] == "v":
            seen[e["l"][1]] = seen.get(e["l"][1], 0) + 1
    names = [v for v in seen if not v.startswith("__")]
    ret = str([e for e in g.events() if e.get("k") == "ret"])
    txt = str(list(g.events()))
    c = [v for v in names if "ret" in g.ret or True]
    best = [v for v in c if any(e.get("k") == "ctor" and last(str(e.get("fn", ""))) == "pair" and v in str(e) for e in g.events())]
    return best[0] if len(best) == 1 else (c[0] if len(c) == 1 else None)
