"""Rate limiter: only admitted operations are counted, exactly once, and every
state change re-evaluates both predicates and wakes waiters."""
from engine.util import *
from engine.poly import poly

C = "RateLimiter::"
CNT = (C + "inserts_", C + "samples_", C + "deletes_")
PRED = {C + "can_insert_cv_": C + "CanInsert", C + "can_sample_cv_": C + "CanSample"}
# public mutating operation -> expected counter effect by outcome
SPEC = {
    "Insert": {"any": {"inserts_": 1}},
    "Delete": {"any": {"deletes_": 1}},
    "Reset": {"any": {"inserts_": "0", "samples_": "0", "deletes_": "0"}},
    "MaybeCommitSample": {"true": {"samples_": 1}, "false": {}},
    "AwaitAndFinalizeSample": {"ok": {"samples_": 1}, "err": {}},
    "AwaitCanInsert": {"ok": {}, "err": {}},
    "CreateInstantInsertEvent": {"any": {}},
}


class A(Auto):
    """state: (effects per counter, dirty cvs, waits info)"""

    def __init__(self, ctx, fn, opname):
        self.ctx, self.fn, self.op = ctx, fn, opname

    # state = (frozenset of (field, op, const), signalled cvs since last write, wrote, awaiting deadline result, blocked flag)
    def init(self):
        return (frozenset(), frozenset(), False, None, False)

    def event(self, st, ev):
        eff, sig, wrote, dl, blk = st.auto
        if ev.k == "asg" and ev.l.k == "m" and ev.l.a[1] in CNT:
            nm = ev.l.a[1][len(C):]
            d = dict(eff)
            delta = None
            if ev.op == "++":
                delta = 1
            elif ev.op == "--":
                delta = -1
            elif ev.op in ("+=", "-=") and const_of(ev.r):
                delta = int(const_of(ev.r)[1]) * (1 if ev.op == "+=" else -1)
            elif ev.op == "=":
                p = poly(ev.r)
                if not p:
                    delta = "0"
                else:
                    base = (mk("m", THIS, ev.l.a[1]),)
                    q = dict(p)
                    if q.pop(base, None) == 1 and set(q) <= {()}:
                        delta = int(q.get((), 0))
            if delta is None:
                self.ctx.violation("A", self.op + "/" + nm, ev.where(), "%s changes %s by %s" % (self.op, nm, show(ev.r) if ev.r else ev.op), trace_of(st))
                delta = "?"
            if nm in d and not (isinstance(d[nm], int) and isinstance(delta, int)):
                d[nm] = delta
            else:
                d[nm] = d.get(nm, 0) + delta if isinstance(delta, int) else delta
                if isinstance(d[nm], int) and abs(d[nm]) > 5:
                    d[nm] = 5
            if nm == "samples_" and self.op in ("MaybeCommitSample", "AwaitAndFinalizeSample"):
                self.ctx.instance("B", self.op)
                if not self.pred(st, C + "CanSample"):
                    self.ctx.violation("B", self.op, ev.where(), "a sample is committed on a path where CanSample(1) has not been established since the last wait", trace_of(st))
                if self.op == "AwaitAndFinalizeSample" and st.facts.get(mk("nz", f(C + "cancelled_"))) is not False:
                    self.ctx.violation("B", self.op + "/cancelled", ev.where(), "a sample is committed although the limiter may have been cancelled", trace_of(st))
            return (frozenset(d.items()), frozenset(), True, dl, blk)
        if ev.k == "asg" and ev.l.k == "m" and ev.l.a[1] == C + "cancelled_":
            self.ctx.violation("A", self.op + "/cancelled_", ev.where(), "%s changes the cancelled flag" % self.op)
        if ev.k == "call" and ev.fn.startswith("absl::CondVar::"):
            n = ev.fn.rsplit("::", 1)[-1]
            if n in ("Signal", "SignalAll") and ev.recv.k == "m":
                sig = sig | {ev.recv.a[1]}
            elif n.startswith("Wait"):
                if n == "Wait":
                    self.ctx.violation("C", self.op + "/nodeadline", ev.where(), "the wait ignores the caller's timeout")
                elif not any(contains(a, mk("p", 1)) for a in ev.args):
                    self.ctx.violation("C", self.op + "/deadline", ev.where(), "the wait deadline does not depend on the caller's timeout: %s" % [show(a) for a in ev.args])
                want = C + ("can_insert_cv_" if self.op == "AwaitCanInsert" else "can_sample_cv_")
                self.ctx.instance("C", self.op)
                if not (ev.recv.k == "m" and ev.recv.a[1] == want):
                    self.ctx.violation("C", self.op + "/cv", ev.where(), "waits on %s instead of %s" % (show(ev.recv), want))
                if not blk:
                    self.ctx.violation("D", self.op, ev.where(), "a call blocks without being marked as rate limited first", trace_of(st))
                self.ctx.instance("D", self.op)
                dl = ev.val
        if ev.k == "call" and ev.fn.endswith("ScopedEvent::set_was_blocked"):
            blk = True
        return (eff, sig, wrote, dl, blk)

    def pred(self, st, fn, val=True):
        for a, v in st.facts.items():
            if v == val and a.k == "nz" and a.a[0].k == "call" and a.a[0].a[0] == fn and a.a[0].a[1] is THIS:
                n = a.a[0].a[4] if len(a.a[0].a) > 4 else None
                if n is not None and const_of(n) == ("n", 1.0):
                    return True
        return False

    def exit(self, st, ret, ev):
        eff, sig, wrote, dl, blk = st.auto
        spec = SPEC[self.op]
        self.ctx.instance("A", self.op)
        if "any" in spec:
            want = [spec["any"]]
        elif "true" in spec:
            t = self.eng.truth(st, ret)
            want = [spec["true"]] if t is True else [spec["false"]] if t is False else list(spec.values())
            if t is None:
                want = [x for x in want if False]
                # undecided boolean: must be the predicate itself; treat both
                want = [spec["true"]] if dict(eff) == spec["true"] and self.pred(st, C + "CanSample") else []
        else:
            ok = status_ok_on_exit(self.eng, st, ret)
            want = [spec["ok"]] if ok else [spec["err"]] if ok is False else []
            if ok is None:
                self.ctx.violation("A", self.op + "/status", self.fn.where(), "cannot relate the returned status to the counters", trace_of(st))
                return
            if ok:
                pred = C + ("CanInsert" if self.op == "AwaitCanInsert" else "CanSample")
                self.ctx.instance("B", self.op)
                if self.op == "AwaitCanInsert" and not self.pred(st, pred):
                    self.ctx.violation("B", self.op, self.fn.where(), "returns OK on a path where CanInsert(1) has not been established since the last wait", trace_of(st))
                if self.op == "AwaitCanInsert" and st.facts.get(mk("nz", f(C + "cancelled_"))) is not False:
                    self.ctx.violation("B", self.op + "/cancelled", self.fn.where(), "returns OK although the limiter may have been cancelled", trace_of(st))
            elif dl is not None:
                # timed-out wait must surface as the timeout error
                t = st.facts.get(mk("nz", dl))
                if t is True and not (ret.k == "call" and ret.a[0].endswith("RateLimiterTimeout")):
                    self.ctx.violation("C", self.op + "/timeout", self.fn.where(), "a timed-out wait returns %s" % show(ret), trace_of(st))
                if t is not True and ret.k == "call" and ret.a[0].endswith("RateLimiterTimeout"):
                    self.ctx.violation("C", self.op + "/spurious", self.fn.where(), "reports a timeout although the wait did not time out", trace_of(st))
            if ok and dl is not None and st.facts.get(mk("nz", dl)) is True:
                self.ctx.violation("C", self.op + "/timeout-ok", self.fn.where(), "a timed-out wait returns OK", trace_of(st))
        got = {k: v for k, v in dict(eff).items() if v != 0}
        if got not in want:
            self.ctx.violation("A", self.op + "/effect", self.fn.where(), "%s returning %s changes counters by %s, specification: %s" % (self.op, show(ret), got, want or spec), trace_of(st))
        if wrote:
            for cv, p in PRED.items():
                self.ctx.instance("E", self.op + "/" + cv)
                if cv in sig or self.pred(st, p, False):
                    continue
                self.ctx.violation("E", self.op + "/" + cv, self.fn.where(), "%s changes a counter and returns without signalling %s although %s(1) may be true" % (self.op, cv, p), trace_of(st))


def run(ctx):
    prog = ctx.program("rate_limiter.cc")
    ctx.rule("A", "per public operation and outcome, the net effect on inserts_/samples_/deletes_ on every path equals the specification table")
    ctx.rule("B", "samples_ is incremented / AwaitCanInsert returns OK only where the branch facts since the last wait establish the predicate for one operation and !cancelled_")
    ctx.rule("C", "waits are on the operation's own condition variable with a deadline derived from the caller's timeout; a timed-out wait returns the timeout error and nothing else does")
    ctx.rule("D", "set_was_blocked precedes every wait")
    ctx.rule("E", "after a counter write, on every path to the exit, each condition variable is signalled or its predicate was evaluated false after the write")
    ctx.rule("F", "Cancel sets cancelled_ and then SignalAll on both condition variables")
    opaque = {C + "CanInsert", C + "CanSample"}
    for op in SPEC:
        fn = prog.fn(C + op)
        a = A(ctx, fn, op)
        e = Engine(prog, fn, a, inline=lambda g, ev: g.name not in opaque and "StatsManager" not in g.name, track_fields=False)
        a.eng = e
        ctx.engine(e)
    # no other function writes the counters
    ctx.rule("G", "only the operations above (and helpers they call, and constructors) write the counters")
    allowed = prog.closure([prog.fn(C + op).usr for op in SPEC])
    for g in prog.fns.values():
        for e in g.events():
            if e["k"] == "asg" and e["l"][0] == "m" and e["l"][2] in CNT:
                ctx.instance("G", g.name)
                if g.usr not in allowed and not g.ctor:
                    ctx.violation("G", g.name, g.where(e["line"]), "%s writes %s outside the specified operations" % (g.name, e["l"][2]))

    cancel = prog.fn(C + "Cancel")

    class K(Auto):
        def init(self):
            return (False, frozenset())

        def event(self, st, ev):
            s, sig = st.auto
            if ev.k == "asg" and ev.l.k == "m" and ev.l.a[1] == C + "cancelled_":
                s = ev.r is TRUE
                sig = frozenset()
            if ev.k == "asg" and ev.l.k == "m" and ev.l.a[1] in CNT:
                ctx.violation("F", "counter", ev.where(), "Cancel changes " + show(ev.l))
            if ev.k == "call" and ev.fn == "absl::CondVar::SignalAll" and ev.recv.k == "m":
                sig = sig | {ev.recv.a[1]}
            return (s, sig)

        def exit(self, st, ret, ev):
            s, sig = st.auto
            ctx.instance("F", cancel.name)
            if not s:
                ctx.violation("F", "flag", cancel.where(), "Cancel can return without setting cancelled_", trace_of(st))
            for cv in PRED:
                if cv not in sig:
                    ctx.violation("F", cv, cancel.where(), "Cancel does not SignalAll %s after setting the flag" % cv, trace_of(st))
    ctx.engine(Engine(prog, cancel, K()))
