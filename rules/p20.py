"""Both services validate requests alike and honour them alike."""
from engine.util import *
from engine.explore import DEAD
from engine.ir import AnalysisBroken
from rules.p18 import base, mine, var
from rules.p16 import callee, calls, dict_, scan
from rules.p24 import fld
from rules.p26 import value
from rules.p34 import Base, Unknown, leaf
from rules.p30 import field

INF = 10 ** 9
AUTO = -1
SYNC, ASYNC = "reverb_service_impl.cc", "reverb_service_async_impl.cc"
# requested, flexible batch size, has timeout, timeout, default batch size, samples sent before
POINTS = [(n, f, h, ms, d, c) for n in (-3, 0, 1, 5) for f in (-7, -1, 0, 1, 3, 9) for h, ms in ((0, 0), (1, -1), (1, 0), (1, 7)) for d in (2, 64) for c in (0, 1, 4, 5) if c <= max(n, 0)]


def valid(p):
    return p[0] > 0 and (p[1] > 0 or p[1] == AUTO)


def timeout(p):
    return p[3] if p[2] and p[3] >= 0 else INF


def batch(p):
    return p[4] if p[1] == AUTO else p[1]


class Req(Base):
    """paths over a sample request, as sets of points"""

    def __init__(self, ctx, g, count=None):
        Base.__init__(self, ctx, g)
        self.count = count
        self.memo = {}

    def env(self, p):
        def e(x):
            l = leaf(x)
            if l is not None:
                if l[0] == "num_samples":
                    return p[0]
                if l[0] == "flexible_batch_size" and not (base(x).k == "m" and calls(l[1], "nothing")):
                    return p[1]
                if l[0] == "has_rate_limiter_timeout":
                    return p[2]
                if l[0] in ("milliseconds",):
                    return p[3] if p[2] else 0
                if l[0] == "DefaultFlexibleBatchSize":
                    return p[4]
            if callee(x, "InfiniteDuration"):
                return INF
            if callee(x, "ZeroDuration"):
                return 0
            if callee(x, "Seconds"):
                return 1000 * value(next(y for y in x.a[1:] if isinstance(y, S) and y.k != "i"), e)
            if callee(x, "Milliseconds", "ToInt64Milliseconds"):
                return value(next(y for y in x.a[1:] if isinstance(y, S) and y.k != "i"), e)
            if x.k == "g" and last(str(x.a[0])) == "kAutoSelectValue":
                return AUTO
            if self.total(x):
                return p[5]
            return None
        return e

    def total(self, x):
        """the number of samples taken so far"""
        x = base(x)
        if x is None:
            return False
        if var(x) is not None and var(x) == self.count:
            return True
        if x.k == "op" and x.a[0] == "+" and calls(x, "size"):
            return all(self.total(y) or repr(base(y)) == "0" or callee(base(y), "size") for y in x.a[1:])
        return False

    def keep(self, s, atom, val):
        m = 0
        for i, p in enumerate(POINTS):
            if not s["pts"] >> i & 1:
                continue
            key = (atom, i)
            if key not in self.memo:
                try:
                    self.memo[key] = bool(value(atom, self.env(p)))
                except Unknown:
                    self.memo[key] = None
            if self.memo[key] in (None, val):
                m |= 1 << i
        return m

    def points(self, s):
        return [p for i, p in enumerate(POINTS) if s["pts"] >> i & 1]

    def same(self, st, s, w, x, want, key, msg, later=False):
        """x has the wanted value in all remaining points"""
        if x is None:
            self.bad("B", key, w, msg, st)
            return
        has = any(self.total(y) for y in x.toks)
        for p in self.points(s):
            if not valid(p):
                continue
            try:
                v = value(x, self.env(p))
            except Unknown:
                self.ctx.note("%s: %r not understood" % (self.g.name, x))
                return
            if later and not 0 < p[5] < p[0]:
                continue
            q = p if has or later else p[:5] + (0,)
            if v != want(q):
                self.bad("B", key, w, "%s (num_samples=%d, flexible_batch_size=%d, timeout %s: %s instead of %s)" % (msg, p[0], p[1], p[3] if p[2] else "not set", v, want(q)), st)
                return


class Sync(Req):
    def init(self):
        return dict_(pts=(1 << len(POINTS)) - 1, req=False, added=None, cancel=False, sampled=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        s["pts"] = self.keep(s, atom, val)
        if not s["pts"]:
            return DEAD
        if atom.k in ("nz", "bool") and calls(atom.a[0], "IsCancelled"):
            s["cancel"] = val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "call" and n == "Read":
            if s["req"]:
                self.accepted(st, s, w)
            if s["req"] and not s["cancel"]:
                if any(valid(p) and (p[0] != p[5] or not s["sampled"]) for p in self.points(s)):
                    self.bad("B", "count", w, "the next request is read before the requested number of samples was sent", st)
            s.update(pts=(1 << len(POINTS)) - 1, req=True, sampled=False, cancel=False)
        elif ev.k == "call" and n == "SampleFlexibleBatch":
            self.n["sample"] = 1
            if any(not valid(p) for p in self.points(s)):
                p = next(p for p in self.points(s) if not valid(p))
                self.bad("B", "invalid", w, "a malformed request (num_samples=%d, flexible_batch_size=%d) reaches the table" % p[:2], st)
            self.same(st, s, w, ev.args[1], lambda p: min(batch(p), p[0] - p[5]), "batch", "not the requested number of samples is taken from the table", s["sampled"])
            self.same(st, s, w, ev.args[2], timeout, "timeout", "the timeout of the request is not honoured")
            s["sampled"] = True
            s["added"] = False
        elif ev.k == "asg" and ev.l is not None and s["added"] is False and self.count and str(ev.raw.get("l", ("", ""))[1]) == self.count:
            self.n["count"] = 1
            s["added"] = True
            if ev.raw.get("op") == "+=" and not callee(base(ev.r), "size"):
                self.bad("B", "counted", w, "the samples sent are not counted as they were taken", st)
        return dict_(**s)

    def accepted(self, st, s, w):
        p = next((p for p in self.points(s) if not valid(p)), None)
        if p:
            self.bad("B", "accepted", w, "a malformed request (num_samples=%d, flexible_batch_size=%d) is accepted" % p[:2], st)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = self.g.where()
        if not s["req"]:
            return
        inv = any("INVALID_ARGUMENT" in repr(x) for x in ret.toks) if ret is not None else False
        if inv and not s["sampled"] and any(valid(p) for p in self.points(s)):
            p = next(p for p in self.points(s) if valid(p))
            self.bad("B", "refused", w, "a well formed request (num_samples=%d, flexible_batch_size=%d) is refused" % p[:2], st)


class Count(Base):
    """finds the local variable that grows by the number of samples taken"""

    def init(self):
        return dict_(x=0)

    def event(self, st, ev):
        if ev.k == "asg" and ev.l is not None and calls(ev.r, "size"):
            l = ev.raw.get("l")
            if isinstance(l, (list, tuple)) and l[0] == "v" and not l[1].startswith("__"):
                self.n.setdefault("var", l[1])
        return st.auto


class Async(Req):
    """ProcessIncomingRequest of the sampling reactor"""
    FIELDS = ("timeout", "table", "flexible_batch_size", "fetched_samples", "requested_samples")

    def init(self):
        return dict_(pts=(1 << len(POINTS)) - 1, vals=(), started=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        s["pts"] = self.keep(s, atom, val)
        return dict_(**s) if s["pts"] else DEAD

    def env(self, p):
        inner = Req.env(self, p)

        def e(x):
            # the fields of the task are not those of the request
            if x.k == "m" and fld(x.a[0]) == "task_info_":
                return None
            return inner(x)
        return e

    def event(self, st, ev):
        s = dict(st.auto)
        w = ev.where()
        n = last(ev.fn or "")
        if ev.k == "asg" and ev.l is not None and base(ev.l).k == "m" and fld(base(ev.l).a[0]) == "task_info_":
            f = last(base(ev.l).a[1])
            if s["started"]:
                self.bad("B", "late", w, "%s is set after sampling started" % f, st)
            if ev.raw.get("op") not in ("=", None):
                self.bad("B", f, w, "%s depends on an earlier request" % f, st)
            s["vals"] = tuple((k, v) for k, v in s["vals"] if k != f) + ((f, ev.r),)
        elif ev.k == "call" and n in ("MaybeStartSampling", "EnqueSampleRequest"):
            self.n["sample"] = 1
            s["started"] = True
            if any(not valid(p) for p in self.points(s)):
                p = next(p for p in self.points(s) if not valid(p))
                self.bad("B", "invalid", w, "a malformed request (num_samples=%d, flexible_batch_size=%d) reaches the table" % p[:2], st)
            v = dict(s["vals"])
            self.same(st, s, w, v.get("flexible_batch_size"), batch, "batch", "the requested batch size is not honoured")
            self.same(st, s, w, v.get("timeout"), timeout, "timeout", "the timeout of the request is not honoured")
            self.same(st, s, w, v.get("requested_samples"), lambda p: p[0], "requested", "not the requested number of samples is taken from the table")
            self.same(st, s, w, v.get("fetched_samples"), lambda p: 0, "fetched", "samples of an earlier request count for this one")
            if not calls(v.get("table"), "TableByName"):
                self.bad("B", "table", w, "samples are not taken from the table of the request", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = self.g.where()
        inv = any("INVALID_ARGUMENT" in repr(x) for x in ret.toks)
        nf = calls(ret, "TableNotFound") or "NOT_FOUND" in repr(ret)
        if inv and any(valid(p) for p in self.points(s)):
            p = next(p for p in self.points(s) if valid(p))
            self.bad("B", "refused", w, "a well formed request (num_samples=%d, flexible_batch_size=%d) is refused" % p[:2], st)
        if not inv and not nf and not s["started"]:
            self.bad("B", "ignored", w, "a request is accepted but nothing is sampled", st)


# batch size, requested, fetched
STEPS = [(b, r, f) for b in (1, 3, 64) for r in (1, 5) for f in (0, 1, 4, 5) if f <= r]


def step(p):
    def e(x):
        l = leaf(x)
        if l is not None and l[0] in ("flexible_batch_size", "requested_samples", "fetched_samples"):
            return p[("flexible_batch_size", "requested_samples", "fetched_samples").index(l[0])]
        return None
    return e


class Start(Base):
    """MaybeStartSampling / the callback of a finished sampling"""

    def __init__(self, ctx, g, cb):
        Base.__init__(self, ctx, g)
        self.cb = cb
        self.memo = {}

    def init(self):
        return dict_(pts=(1 << len(STEPS)) - 1, added=False, ok=None, next=None, enq=False, stop=None)

    def points(self, s):
        return [p for i, p in enumerate(STEPS) if s["pts"] >> i & 1]

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        m = 0
        for i, p in enumerate(STEPS):
            if s["pts"] >> i & 1:
                try:
                    if bool(value(atom, step(p))) == val:
                        m |= 1 << i
                except Unknown:
                    m |= 1 << i
        s["pts"] = m
        if not m:
            return DEAD
        if atom.k == "okp":
            s["ok"] = val
        elif any(fld(x) in ("is_finished_", "waiting_for_enqueued_sample_", "responses_to_send_") for y in atom.a if isinstance(y, S) for x in y.toks):
            # one of the reasons to wait (P18)
            s["stop"] = s["stop"] or val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "call" and n == "EnqueSampleRequest":
            self.n["enq"] = 1
            s["enq"] = True
            for p in self.points(s):
                try:
                    v = value(ev.args[0], step(p))
                except Unknown:
                    self.ctx.note("%s: %r not understood" % (self.g.name, ev.args[0]))
                    break
                if v != min(p[0], p[1] - p[2]):
                    self.bad("B", "next", w, "the table is asked for %s samples (batch size %d, %d of %d fetched)" % ((v,) + (p[0], p[2], p[1])), st)
                    break
                if v == 0:
                    self.bad("B", "zero", w, "the table is asked for nothing", st)
                    break
            if not any(last(x.a[1]) == "timeout" for x in ev.args[2].toks if x.k == "m"):
                self.bad("B", "timeout", w, "the timeout of the request is not honoured", st)
            if not any(x.k == "m" and last(x.a[1]) == "table" for x in ev.recv.toks):
                self.bad("B", "table", w, "samples are not taken from the table of the request", st)
        elif ev.k == "asg" and ev.l is not None and base(ev.l).k == "m" and last(base(ev.l).a[1]) == "fetched_samples":
            self.n["add"] = 1
            if s["added"]:
                self.bad("B", "twice", w, "samples are counted twice", st)
            s["added"] = True
            if ev.raw.get("op") == "+=" and not calls(ev.r, "size") or ev.raw.get("op") not in ("+=", "=", None):
                self.bad("B", "counted", w, "the samples sent are not counted as they were taken", st)
        elif self.cb and ev.k == "call" and n in ("MaybeStartSampling", "MaybeStartRead"):
            s["next"] = (s["next"] or ()) + (n,)
            if not s["added"]:
                self.bad("B", "uncounted", w, "the next step is decided before the samples are counted", st)
            if n == "MaybeStartRead" and any(min(p[0], p[1] - p[2]) != 0 for p in self.points(s)):
                self.bad("B", "goon", w, "the next request is read although samples are missing", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if not self.cb or s["ok"] is not True:
            return
        nx = s["next"] or ()
        if not nx:
            self.bad("B", "stuck", self.g.where(), "after a batch neither more samples nor the next request are asked for", st)
            return
        # starting to sample when nothing is left does nothing, if the next request is read too
        for p in self.points(s):
            left = min(p[0], p[1] - p[2]) != 0
            if left and "MaybeStartSampling" not in nx:
                self.bad("B", "goon", self.g.where(), "no more samples are asked for although samples are missing", st)
                break
            if not left and "MaybeStartRead" not in nx:
                self.bad("B", "goon", self.g.where(), "sampling goes on instead of reading the next request", st)
                break


class Lookup(Base):
    """a table that does not exist is answered by NotFound and never used"""

    def init(self):
        return dict_(name=None, known=None, sym=None, answer=False, at=None)

    def is_it(self, s, x):
        x = base(x)
        if x is None:
            return False
        while x.k == "call" and last(x.a[0]) in ("get",):
            x = base(x.a[1])
        return callee(x, "TableByName") or s["at"] is not None and x is s["at"]

    def find(self, atom):
        """tables_.find(x) compared with tables_.end()"""
        if atom.k == "eq" and len(atom.a) == 2:
            for a, b in (atom.a, atom.a[::-1]):
                if callee(base(a), "find") and callee(base(b), "end", "cend") and fld(base(a).a[1]) == "tables_":
                    return base(a).a[-1]
        return None

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        f = self.find(atom)
        if f is not None:
            s.update(name=f, known=not val, answer=False)
            self.n["lookup"] = 1
        elif atom.k in ("nz", "bool") and self.is_it(s, atom.a[0]):
            s["known"] = val
        elif atom.k == "eq" and any(repr(y) == "null" for y in atom.a) and any(self.is_it(s, y) for y in atom.a):
            s["known"] = not val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "call" and n == "TableByName":
            self.n["lookup"] = 1
            s.update(name=base(ev.args[0]), known=None, answer=False, at=None)
        elif ev.k == "asg" and ev.r is not None and callee(base(ev.r), "TableByName"):
            s["at"] = base(ev.l)
        elif ev.k == "call" and n in ("Finish", "SetReactorAsFinished") and ev.args and s["known"] is False:
            self.answer(st, s, ev.args[0], w)
            s["answer"] = True
        elif ev.k == "call" and ev.recv is not None and self.is_it(s, ev.recv) and n not in ("get", "operator bool", "reset", "operator=", "use_count") and s["known"] is not True:
            self.bad("A", "unchecked", w, "a table is used that may not exist", st)
        elif ev.k == "new" and ev.val is not None and any(self.is_it(s, x) for x in ev.val.toks) and s["known"] is not True:
            self.bad("A", "unchecked", w, "a table is used that may not exist", st)
        return dict_(**s)

    def answer(self, st, s, x, w):
        x0 = x
        if not calls(x, "TableNotFound") and not any("NOT_FOUND" in repr(y) for y in x.toks):
            self.bad("A", "answer", w, "a request for an unknown table is not answered with NotFound", st)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if s["known"] is False and not s["answer"]:
            if ret is None or repr(ret) in ("void()",):
                self.bad("A", "answer", self.g.where(), "a request for an unknown table is not answered", st)
            elif not (ret.k in ("v", "p", "m", "call") and ("reactor" in repr(ret).lower())):
                self.answer(st, s, ret, self.g.where())
            else:
                self.bad("A", "answer", self.g.where(), "a request for an unknown table is not answered", st)


class ByName(Base):
    def init(self):
        return dict_(found=None)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        f = Lookup.find(self, atom)
        if f is not None:
            s["found"] = not val
            if base(f) is None or not any(x.k == "p" for x in f.toks):
                self.bad("A", "name", self.at(fn, line), "the table is not looked up by the given name", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if ret is not None and ret.k == "cond":
            f = Lookup.find(self, ret.a[0])
            if f is not None:
                self.n["hit"] = 1
                if not self.null(ret.a[1]) or self.null(ret.a[2]):
                    self.bad("A", "result", self.g.where(), "an existing table is not found", st)
            return
        null = self.null(ret)
        if s["found"] is True:
            self.n["hit"] = 1
        if s["found"] is not None and s["found"] == null:
            self.bad("A", "result", self.g.where(), "an existing table is not found" if null else "an unknown table is found", st)

    def null(self, ret):
        ret = base(ret) if ret is not None else None
        return ret is None or repr(ret) in ("null", "init()") or ret is NULL or ret.k == "ctor" and not [x for x in ret.a[1:] if isinstance(x, S) and x.k not in ("i",) and repr(x) != "null"]


class Pass(Base):
    """MutatePriorities and Reset hand the request to the table and its outcome to the client"""

    def __init__(self, ctx, g, op, args):
        Base.__init__(self, ctx, g)
        self.op, self.want = op, args

    def init(self):
        return dict_(done=None, ok=None, out=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k == "okp" and s["done"] is not None and any(x is s["done"] for x in atom.a[0].toks):
            s["ok"] = val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "call" and n == self.op and ev.recv is not None and calls(ev.recv, "TableByName"):
            self.n["op"] = 1
            s["done"] = ev.val
            for a, f in zip(ev.args, self.want):
                if not any((leaf(x) or ("",))[0] == f for x in a.toks):
                    self.bad("C", f, ev.where(), "%s of the request are not handed to the table" % f, st)
        elif ev.k == "call" and n == "Finish" and s["done"] is not None:
            self.result(st, s, ev.args[0], ev.where())
            s["out"] = True
        return dict_(**s)

    def result(self, st, s, x, w):
        if s["ok"] is not True and not any(y is s["done"] for y in x.toks):
            self.bad("C", "status", w, "the outcome of %s is not what the client is told" % self.op, st)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if s["done"] is not None and not s["out"]:
            self.result(st, s, ret, self.g.where())


class Address(Base):
    """the address of a table is only sent to a client of the same process"""

    def init(self):
        return dict_(same=None)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k == "eq" and any(calls(x, "getpid") for x in atom.a) and any((leaf(x) or ("",))[0] == "pid" for x in atom.a):
            s["same"] = val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        if ev.k == "call" and last(ev.fn or "") == "set_address":
            zero = repr(base(ev.args[0])) == "0"
            if not zero:
                self.n["addr"] = 1
                if s["same"] is not True:
                    self.bad("D", "process", ev.where(), "a memory address is sent to a client of another process", st)
            elif s["same"] is True:
                self.bad("D", "none", ev.where(), "a client of the same process is refused direct access", st)
        return dict_(**s)


def only(ctx, prog, what, pick):
    gs = [g for g in prog.fns.values() if g.blocks and pick(g)]
    if len(gs) != 1:
        raise AnalysisBroken("%s: %d definitions" % (what, len(gs)))
    return gs[0]


def own(g, stop):
    """helpers of the services are looked into, not the named ones"""
    def inline(k, ev):
        if last(k.name) in stop:
            return False
        c = last(k.cls) if k.cls else ""
        return c == last(g.cls or "") and c != "" or c in ("SampleTaskInfo",) or k.cls == "" and not k.name.startswith(("std::", "absl::", "grpc::"))
    return inline


STOP = ("TableByName", "TableNotFound", "ToGrpcStatus", "Internal", "MaybeStartSampling", "MaybeStartRead", "ProcessSample", "MaybeSendNextResponse", "SetReactorAsFinished", "IsLocalhostOrInProcess", "getpid")


def run(ctx):
    R = ctx.rule
    R("A", "Every lookup of a table in both services: a table that does not exist is answered with NotFound for the request and never used; TableByName finds exactly the tables there are.")
    R("B", "SampleStream in both services, decided over a grid of requests: num_samples <= 0 and a flexible_batch_size that is neither positive nor automatic are refused with InvalidArgument and reach no table; otherwise the table is asked for min(batch size, samples left) with the timeout of this request, until the requested number was sent.")
    R("C", "MutatePriorities and Reset hand the content of the request to the table and its outcome to the client.")
    R("D", "InitializeConnection sends the address of a table only to a client of the same process.")
    for tu, svc in ((SYNC, "ReverbServiceImpl"), (ASYNC, "ReverbServiceAsyncImpl")):
        p = ctx.program(tu)
        here = [g for g in p.fns.values() if g.blocks and g.where().split(":")[0].endswith(tu)]
        users = [g for g in here if any(last(c.get("fn") or c.get("name") or "") == "TableByName" or last(c.get("fn") or c.get("name") or "") == "find" and "tables_" in repr(c) for c in g.calls()) and last(g.name) != "TableByName"]
        for g in users:
            a = Lookup(ctx, g)
            ctx.engine(Engine(p, g, a, inline=own(g, STOP)))
            if a.n.get("lookup"):
                ctx.instance("A", short(g.name))
        ctx.need("A", 4)
        g = only(ctx, p, "TableByName", lambda g: last(g.name) == "TableByName")
        a = ByName(ctx, g)
        ctx.engine(Engine(p, g, a, inline=lambda k, ev: False))
        ctx.instance("A", short(g.name))
        g = only(ctx, p, "TableNotFound", lambda g: last(g.name) == "TableNotFound")
        if not any("NOT_FOUND" in repr(e) for e in g.events()):
            ctx.violation("A", svc + "/TableNotFound", g.where(), "an unknown table is not answered with NotFound", [])
        for op, m, args in (("MutatePriorities", "MutateItems", ("updates", "delete_keys")), ("Reset", "Reset", ())):
            g = only(ctx, p, op, lambda g: last(g.name) == op and last(g.cls or "") == svc)
            a = Pass(ctx, g, m, args)
            ctx.engine(Engine(p, g, a, inline=own(g, STOP)))
            if not a.n.get("op"):
                ctx.violation("C", "%s/%s" % (svc, op), g.where(), "%s does nothing to the table" % op, [])
            ctx.instance("C", "%s::%s" % (svc, op))
        k = 0
        for g in here:
            if not any(last(c.get("fn") or c.get("name") or "") == "set_address" for c in g.calls()):
                continue
            a = Address(ctx, g)
            ctx.engine(Engine(p, g, a, inline=own(g, STOP)))
            ctx.instance("D", short(g.name))
            k += a.n.get("addr", 0)
        if not k:
            raise AnalysisBroken("%s: no address is sent" % svc)
        if tu == SYNC:
            g = only(ctx, p, "SampleStream", lambda g: not g.lam and any(last(c.get("fn") or c.get("name") or "") == "SampleFlexibleBatch" for c in g.calls()))
            c = Count(ctx, g)
            ctx.engine(Engine(p, g, c, inline=own(g, STOP)))
            a = Sync(ctx, g, c.n.get("var"))
            ctx.engine(Engine(p, g, a, inline=own(g, STOP)))
            if not a.n.get("sample") or not a.n.get("count"):
                raise AnalysisBroken("%s: sampling is not understood" % g.name)
            ctx.instance("B", short(g.name))
        else:
            g = only(ctx, p, "ProcessIncomingRequest", lambda g: last(g.name) == "ProcessIncomingRequest" and "Sampl" in (g.cls or ""))
            a = Async(ctx, g)
            ctx.engine(Engine(p, g, a, inline=own(g, STOP)))
            if not a.n.get("sample"):
                raise AnalysisBroken("%s: sampling is not understood" % g.name)
            ctx.instance("B", short(g.name))
            cls = g.cls
            g = only(ctx, p, "MaybeStartSampling", lambda g: not g.lam and g.cls == cls and any(last(c.get("fn") or c.get("name") or "") == "EnqueSampleRequest" for c in g.calls()))
            a = Start(ctx, g, False)
            ctx.engine(Engine(p, g, a, inline=own(g, STOP)))
            ctx.instance("B", short(g.name))
            lams = [g for g in p.fns.values() if g.blocks and g.lam and any(last(c.get("fn") or c.get("name") or "") == "MaybeStartSampling" for c in g.calls())]
            lams = list({g.where(): g for g in lams}.values())
            if len(lams) != 1:
                raise AnalysisBroken("callback of a finished sampling: %d definitions" % len(lams))
            g = lams[0]
            a = Start(ctx, g, True)
            ctx.engine(Engine(p, g, a, inline=own(g, STOP)))
            if not a.n.get("add"):
                ctx.violation("B", "callback/count", g.where(), "samples are not counted", [])
            ctx.instance("B", "callback of a finished sampling")
