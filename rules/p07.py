"""The table worker: no lost wake-ups, and every queued request is answered exactly once."""
from engine.explore import result
from engine.util import *
from engine.ir import AnalysisBroken
from rules.p18 import base, var, mine
from rules.p11 import over

WMU, MU = "worker_mu_", "mu_"
QUEUES = {"pending_inserts_": "I", "pending_sampling_": "S"}
NOTIFY = "notify_inserts_ok_"
GROW = ("push_back", "emplace_back", "push", "emplace", "insert")


def who(s):
    """identity of a container or variable: member name or local variable"""
    s = base(s)
    if s is None:
        return None
    if s.k == "m" and s.a[0] is THIS:
        return last(str(s.a[1]))
    return var(s)


def zero(s):
    s = base(s)
    return s is not None and s.k == "lit" and str(s.a[0]) == "0"


def state_dict(**k):
    return tuple(sorted(k.items(), key=lambda x: x[0]))


HAND = {"I": "pending_inserts_", "S": "pending_sampling_"}
STOP = ("InsertOrAssignInternal", "SampleInternal", "FinalizeSampleRequest", "AwaitExtensionBufferSpace")
OPAQUE = ("min", "max", "InfiniteFuture", "Now", "RateLimiterTimeout", "CancelledError", "DeadlineExceededError")


class All:
    def __contains__(self, x):
        return True


ALL = All()


class Part(Auto):
    """common to the analyses of the worker loop"""

    def __init__(self, ctx, prog, g, partner):
        self.ctx, self.prog, self.g, self.partner = ctx, prog, g, partner
        self.owner = {v: k for k, v in partner.items()}
        self.assigned = ALL
        self.scanvars = self.expired = ()
        self.names = {}
        self.n = {}

    def keep_fact(self, atom):
        return result(atom)

    def opaque(self, fid, fn, v, val):
        if val.k == "ctor" or val.k in ("elem", "idx"):
            return False
        if val.k == "m" and last(str(val.a[1])) == "deadline":
            return True
        if val.k in ("nz", "eq", "lt", "null", "okp", "op", "cond") and v not in self.assigned and not any(x.k == "call" and last(x.a[0]) in OPAQUE for x in val.toks):
            return False
        if val.k in ("lit", "op", "phi", "cond", "v", "nz", "eq", "lt", "null", "okp", "errstatus") or val is TRUE or val is FALSE or val is OK:
            return True
        return any(x.k == "call" and last(x.a[0]) in OPAQUE for x in val.toks)

    def bad(self, rid, key, where, msg, st):
        self.ctx.violation(rid, "TableWorkerLoop/" + key, where, msg, trace_of(st))

    def hit(self, x):
        self.n[x] = self.n.get(x, 0) + 1

    def box(self, s):
        """name of a container: member or local variable"""
        s = base(s)
        if s is None:
            return None
        if s.k == "m" and s.a[0] is THIS:
            return last(str(s.a[1]))
        if s in self.names:
            return self.names[s]
        v = var(s)
        return v

    def learn(self, ev):
        if ev.k == "decl" and ev.val is not None and ev.val.k in ("ctor", "obj"):
            self.names.setdefault(ev.val, (ev.raw or {}).get("var"))

    def names_of(self, ev):
        return [x for x in (self.box(x) for x in ([ev.recv] if ev.recv is not None else []) + list(ev.args or ())) if x]

    def emptiness(self, atom, val):
        """(container, is it empty?) decided by this branch"""
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if x is not None and x.k == "call" and last(x.a[0]) in ("empty", "size") and isinstance(x.a[1], S):
                return self.box(x.a[1]), val if last(x.a[0]) == "empty" else not val
        if atom.k in ("eq", "lt"):
            a, b = base(atom.a[0]), base(atom.a[1])
            if a is None or b is None:
                return None, None
            for x, y, first in ((a, b, True), (b, a, False)):
                if zero(x) and y.k == "call" and last(y.a[0]) == "size":
                    c = self.box(y.a[1])
                    if atom.k == "eq":
                        return c, val
                    return c, (not val) if first else None
        return None, None

    def exhausted(self, atom, val):
        """(kind of work, nothing of it is left in hand?)"""
        if atom.k in ("eq", "lt"):
            a, b = base(atom.a[0]), base(atom.a[1])
            if a is None or b is None:
                return None, None
            for x, y, first in ((a, b, True), (b, a, False)):
                if y.k == "call" and last(y.a[0]) == "size" and (x.k in ("phi", "v") or zero(x)) and var(x) not in self.scanvars:
                    k = self.owner.get(self.box(y.a[1]))
                    if k is None:
                        continue
                    if atom.k == "eq":
                        return k, val
                    if first:
                        return k, not val
                    if val:  # size < index cannot be
                        return None, None
        c, e = self.emptiness(atom, val)
        if c in self.owner and e:
            return self.owner[c], True
        return None, None

    def over(self, atom):
        """container of the test of a loop that looks at requests one by one"""
        o = over(atom)
        if o is None or o[0] is None:
            return None
        if atom.k == "lt":
            i = base(atom.a[0])
            if var(i) not in self.scanvars and not (zero(i) and self.box(o[0]) not in self.owner and self.box(o[0]) not in QUEUES) and self.box(o[0]) not in self.expired:
                return None
        return o

    def elems(self, s):
        return any(x.k == "elem" or x.k == "idx" and any(y.k in ("phi", "v") and var(y) in self.scanvars for y in x.toks) for x in s.toks)


class Sleep(Part):
    """what was observed under worker_mu_ before going to sleep"""

    def init(self):
        return (frozenset(), None, frozenset())  # observations, announced state, undelivered

    def branch(self, st, atom, val, line, fn):
        o, ws, full = st.auto
        if atom.k in ("nz", "bool") and base(atom.a[0]) is not None:
            m = mine(base(atom.a[0]))
            if m == "stop_worker_":
                o = o | {"stop" if val else "!stop"}
            elif m == "table_mutated_":
                o = o | {"mutated" if val else "!mutated"}
        elif atom.k == "okp":
            x = base(atom.a[0])
            if x is not None and x.k == "call" and last(x.a[0]) == "CheckIfCancelled":
                o = (o - {"live", "cancelled"}) | {"live" if val else "cancelled"}
        c, e = self.emptiness(atom, val)
        if c in QUEUES and e:
            o = o | {"empty:" + c}
        if c and e is True:
            if c in full:
                return DEAD if False else (o, ws, full - {c})
        k, d = self.exhausted(atom, val)
        if k:
            o = o | {("none:" if d else "some:") + k}
        q = self.over(atom)
        if q is not None:
            c = self.box(q[0])
            if c and val == q[1]:
                o = o | {"scan:" + c}
                if "section" not in o:
                    full = full - {c}
        return (o, ws, full)

    def event(self, st, ev):
        o, ws, full = st.auto
        self.learn(ev)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "lock" and mine(ev.val) == WMU:
            o = frozenset({"section"})
        elif ev.k == "unlock" and mine(ev.val) == WMU:
            if ws not in (None, "kRunning"):
                self.bad("A", "state-at-unlock", w, "the worker announces that it sleeps (%s) although it goes on" % ws, st)
            o = frozenset("was:" + x for x in o if x.startswith("scan:"))
        elif ev.k == "asg" and mine(ev.l) == "worker_state_":
            ws = last(str(base(ev.r).a[0])) if base(ev.r) is not None and base(ev.r).k in ("enum", "g") else "?"
            self.hit("state")
        elif ev.k == "asg" and mine(ev.l) == "table_mutated_":
            if base(ev.r) is FALSE:
                o = (o - {"mutated"}) | {"!mutated", "retry"}
        elif ev.k == "call" and n == "swap":
            xs = self.names_of(ev)
            for x in xs:
                if x in QUEUES:
                    o = o | {"empty:" + x, "some:" + QUEUES[x], "took:" + QUEUES[x]}
                if x == NOTIFY:
                    full = full | {y for y in xs if y != NOTIFY}
        elif ev.k == "call" and n in GROW and ev.recv is not None and ev.args and self.elems(ev.args[0]):
            c = self.box(ev.recv)
            if c and not c.endswith("_"):
                full = full | {c}
        elif ev.k == "call" and n == "clear" and ev.recv is not None:
            c = self.box(ev.recv)
            if c in full and c in self.expired:
                self.bad("C", "dropped/" + c.split("@")[0], w, "%s is emptied before what it holds was answered" % c.split("@")[0], st)
            full = full - {c}
        elif ev.k == "call" and n in ("Wait", "WaitWithDeadline", "WaitWithTimeout") and mine(ev.recv) == "wakeup_worker_":
            self.hit("wait")
            self.wait(st, o, ws, full, w)
            o = frozenset({"section"})
        return (o, ws, full)

    def wait(self, st, o, ws, full, w):
        dead = "cancelled" in o
        if "section" not in o:
            self.bad("A", "sleeps-unlocked", w, "the worker goes to sleep without holding its lock", st)
        if "retry" in o:
            self.bad("A", "sleeps-when-mutated", w, "the worker forgets that the table was modified and goes to sleep", st)
        for k, q in HAND.items():
            what = "inserts" if k == "I" else "sample requests"
            if "empty:" + q not in o and "some:" + k not in o and not (k == "I" and dead):
                self.bad("A", "sleeps-with-queue/" + k, w, "the worker goes to sleep without having checked, since it acquired the lock, that no %s were queued" % what, st)
        if "!stop" not in o:
            self.bad("A", "sleeps-when-stopped", w, "the worker goes to sleep without having checked, since it acquired the lock, whether it was stopped", st)
        if "!mutated" not in o:
            self.bad("A", "sleeps-when-mutated", w, "the worker goes to sleep without having checked, since it acquired the lock, whether the table was modified", st)
        if not dead and "live" not in o:
            self.bad("A", "sleeps-when-closed", w, "the worker goes to sleep without having checked, since it acquired the lock, whether the table was closed", st)
        for c in full:
            self.bad("A", "sleeps-undelivered/" + c.split("@")[0], w, "the worker goes to sleep before it answered what is in %s" % c.split("@")[0], st)
        for c in ("pending_sampling_", self.partner["S"]):
            if "scan:" + c not in o:
                self.bad("A", "sleeps-no-deadline/" + c.split("@")[0], w, "the worker goes to sleep without having looked at the deadlines of the requests in %s" % c.split("@")[0], st)
        if ws in (None, "kRunning"):
            self.bad("A", "sleeps-as-running", w, "the worker goes to sleep while it announces that it runs, so nobody wakes it up", st)

    def exit(self, st, ret, ev):
        o, ws, full = st.auto
        if ret is OK:
            self.hit("stop")
            for c in ("pending_sampling_", self.partner["S"]):
                if "scan:" + c not in o and "was:scan:" + c not in o:
                    self.bad("C", "stops-unanswered/" + c.split("@")[0], self.g.where(), "the worker stops without having ended the requests in %s" % c.split("@")[0], st)
            for c in full:
                self.bad("C", "stops-undelivered/" + c.split("@")[0], self.g.where(), "the worker stops before it answered what is in %s" % c.split("@")[0], st)


class Progress(Part):
    """the worker sleeps only if the work in hand was found blocked since it
    last did something: `idle` holds the kinds of work known to be blocked or
    exhausted, `rel` orders the progress counters"""

    def init(self):
        return (frozenset("IS"), (), frozenset(), False)  # idle, rel, lits, retry

    @staticmethod
    def copy(rel, w, v, how="eq"):
        """w = v (how: eq) or something smaller (lt)"""
        rel = {k: r for k, r in rel.items() if w not in k}
        if v is not None and v != w:
            for (a, b), r in list(rel.items()):
                if a == v and (r == how or r == "eq" or how == "eq"):
                    rel[(w, b)] = how if r == "eq" else r
                if b == v and r != "eq" and how == "eq":
                    rel[(a, w)] = r
                elif b == v and how == "eq":
                    rel[(a, w)] = "eq"
            rel[(w, v)] = how
            rel[(v, w)] = {"eq": "eq", "lt": "gt"}[how]
        return rel

    @staticmethod
    def incr(rel, v):
        out = {}
        for (a, b), r in rel.items():
            if a == v:
                r = {"eq": "gt", "gt": "gt"}.get(r)
            elif b == v:
                r = {"eq": "lt", "lt": "lt"}.get(r)
            if r:
                out[(a, b)] = r
        return out

    def num(self, x):
        x = base(x)
        if x is None or x.k not in ("phi", "v"):
            return None
        v = var(x)
        return v if v and v in self.counters else None

    def branch(self, st, atom, val, line, fn):
        idle, rel, lits, retry = st.auto
        if atom.k in ("eq", "lt"):
            a, b = self.num(atom.a[0]), self.num(atom.a[1])
            if a and b:
                r = dict(rel).get((a, b))
                if r is not None:
                    return st.auto if ({"eq": r == "eq", "lt": r == "lt"}[atom.k]) == val else DEAD
                return st.auto
            k, d = self.exhausted(atom, val)
            if k and d:
                idle = idle | {k}
        elif atom.k in ("nz", "bool") and base(atom.a[0]) is not None:
            x = base(atom.a[0])
            if x.k == "call" and last(x.a[0]) == "CanInsert" and not val:
                idle = idle | {"I"}
            elif x.k == "call" and last(x.a[0]) == "MaybeCommitSample":
                idle = idle | {"S"} if not val else frozenset()
            else:
                k, d = self.exhausted(atom, val)
                if k and d:
                    idle = idle | {k}
        return (idle, rel, lits, retry)

    def event(self, st, ev):
        idle, rel, lits, retry = st.auto
        self.learn(ev)
        n = last(ev.fn or "")
        if ev.k in ("asg", "decl"):
            v = (ev.raw or {}).get("var") if ev.k == "decl" else (var(ev.l) if base(ev.l) is not None and base(ev.l).k in ("phi", "v", "lit", "op") else None)
            if ev.k == "asg" and mine(ev.l) == "table_mutated_" and base(ev.r) is FALSE:
                retry = True
            if v in self.counters:
                d = dict(rel)
                val = ev.init if ev.k == "decl" and ev.init is not None else ev.val if ev.k == "decl" else ev.r
                b = base(val) if val is not None else None
                if ev.k == "asg" and ev.op in ("++", "+="):
                    d = self.incr(d, v)
                elif ev.k == "asg" and ev.op not in ("=", "init", None):
                    d = self.copy(d, v, None)
                elif b is not None and b.k == "lit":
                    same = [u for u, l in lits if l == str(b.a[0]) and u != v]
                    d = self.copy(d, v, same[0] if same and ev.k == "decl" and not self.moved else None)
                    if ev.k == "decl":
                        lits = lits | {(v, str(b.a[0]))}
                elif b is not None and b.k == "op" and b.a[0] == "-" and self.num(b.a[1]):
                    d = self.copy(d, v, self.num(b.a[1]), "lt")
                elif b is not None and b.k == "op" and b.a[0] == "+" and self.num(b.a[1]) == v:
                    d = self.incr(d, v)
                else:
                    d = self.copy(d, v, self.num(b) if b is not None else None)
                rel = tuple(sorted(d.items()))
                if ev.k == "asg":
                    lits = frozenset(x for x in lits if x[0] != v)
        elif ev.k == "call":
            if n in ("InsertOrAssignInternal", "SampleInternal"):
                self.hit(n)
                idle = frozenset()
            elif n == "swap":
                for x in self.names_of(ev):
                    if x in QUEUES:
                        self.hit("take " + x)
                        idle = idle - {QUEUES[x]}
            elif n == "clear" and ev.recv is not None and self.box(ev.recv) in self.owner:
                idle = idle | {self.owner[self.box(ev.recv)]}
            elif n in ("Wait", "WaitWithDeadline", "WaitWithTimeout") and mine(ev.recv) == "wakeup_worker_":
                for k in "IS":
                    if k not in idle:
                        self.bad("A", "sleeps-with-work/" + k, ev.where(), "the worker goes to sleep without having found, since it last changed the table or took work, that the %s in hand cannot proceed" % ("inserts" if k == "I" else "sample requests"), st)
                # while it sleeps the table may change
                idle = frozenset()
        elif ev.k == "lock" and mine(ev.val) == MU:
            pass
        return (idle, rel, lits, retry)

    moved = False


class Answers(Part):
    """the sample requests: none is dropped, each is answered once, and with
    the status that it deserves"""

    def init(self):
        # kinds of time/status variables, scan, delivery, answered element, cancelled?, capacity seen, exhausted
        return ((), None, None, False, None, False, frozenset())

    def kindof(self, kinds, x):
        x = base(x)
        if x is None:
            return None
        if x is OK:
            return "ok"
        if x.k == "errstatus":
            return "err"
        if x.k == "call":
            n = last(x.a[0])
            if n == "InfiniteFuture":
                return "inf"
            if n == "Now":
                return "now"
            if n.endswith("Error") or n == "RateLimiterTimeout":
                return "err"
            if n == "min":
                return "min"
        v = var(x)
        return dict(kinds).get(v)

    def branch(self, st, atom, val, line, fn):
        kinds, scan, deliv, ans, canc, cap, done = st.auto
        q = self.over(atom)
        if q is not None:
            c, leave = self.box(q[0]), val == q[1]
            if scan and scan[1] == c and scan[0] in ("open", "kept", "less", "expired"):
                what = {"open": "is passed over", "kept": "that stays is not considered for the next wake-up", "less": "that stays is not considered for the next wake-up", "expired": "that expired is not ended"}[scan[0]]
                self.bad("C", "request-" + scan[0], self.g.where(), "a queued sample request %s" % what, st)
            if deliv and deliv[1] == c and deliv[0] == "open":
                self.bad("C", "undelivered/" + c.split("@")[0], self.g.where(), "an element of %s is not answered" % c.split("@")[0], st)
            if c == "pending_sampling_" or c == self.partner["S"]:
                self.hit("scan")
                scan = None if leave else ("open", c)
            elif c and not c.endswith("_") and c in self.expired:
                deliv = None if leave else ("open", c)
            return (kinds, scan, deliv, ans, canc, cap, done)
        if atom.k in ("nz", "null") and scan and scan[0] == "open" and self.elems(atom):
            if val == (atom.k == "null"):
                scan = ("done", scan[1])
        if atom.k == "okp" and base(atom.a[0]) is not None and base(atom.a[0]).k == "call" and last(base(atom.a[0]).a[0]) == "CheckIfCancelled":
            canc = not val
        k, d = self.exhausted(atom, val)
        if k:
            done = done | {k} if d else done - {k}
            ans = False if k == "S" else ans
        if atom.k in ("nz", "null") and any(x.k == "idx" for x in atom.toks) and not self.elems(atom):
            ans = False
        if atom.k in ("eq", "lt"):
            a, b = base(atom.a[0]), base(atom.a[1])
            if a is not None and b is not None and a.k == "call" and b.k == "call" and {last(a.a[0]), last(b.a[0])} == {"capacity", "size"}:
                if atom.k == "eq":
                    cap = val
                else:  # size < capacity
                    cap = (not val) if last(a.a[0]) == "size" else cap
            dl = [x for x in (a, b) if x is not None and x.k == "m" and last(str(x.a[1])) == "deadline"]
            if atom.k == "lt" and len(dl) == 1:
                oth = b if dl[0] is a else a
                kd = self.kindof(kinds, oth)
                if scan and scan[0] == "kept":
                    sooner = val if dl[0] is a else None
                    if sooner is not None:
                        self.wakes.add(var(oth))
                        scan = ("less" if sooner else "done", scan[1])
                elif kd in ("inf", "now"):
                    if canc and kd != "inf":
                        self.bad("C", "cancel-expiry", self.g.where(), "a closed table only ends the sample requests whose timeout expired", st)
                    if canc is False and kd != "now":
                        self.bad("C", "live-expiry", self.g.where(), "sample requests are ended although their timeout has not expired", st)
                    if dl[0] is a and kd == "inf":
                        self.bad("C", "cancel-infinite", self.g.where(), "a closed table does not end the sample requests that have no timeout", st)
                    expired = val if dl[0] is a else not val
                    if scan and scan[0] == "open":
                        scan = ("expired" if expired else "kept", scan[1])
                        return (kinds, scan, deliv, ans, canc, cap, done)
        return (kinds, scan, deliv, ans, canc, cap, done)

    def event(self, st, ev):
        kinds, scan, deliv, ans, canc, cap, done = st.auto
        self.learn(ev)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k in ("asg", "decl"):
            v = (ev.raw or {}).get("var") if ev.k == "decl" else var(ev.l)
            val = (ev.init if ev.init is not None else ev.val) if ev.k == "decl" else ev.r
            if v and val is not None:
                if ev.k == "asg" and ev.op in ("++", "+=") and v in self.indices:
                    ans = False
                kd = self.kindof(kinds, val)
                if scan and scan[0] in ("kept", "less") and any(x.k == "m" and last(str(x.a[1])) == "deadline" for x in val.toks):
                    if kd == "min" and any(x.k in ("phi", "v") and var(x) == v for x in val.toks) or val.k == "m" and scan[0] == "less" or val.k == "cond" and any(x.k in ("phi", "v") and var(x) == v for x in val.toks):
                        scan = ("done", scan[1])
                        self.wakes.add(v)
                d = dict(kinds)
                d.pop(v, None)
                if kd in ("inf", "now", "ok", "err"):
                    d[v] = kd
                kinds = tuple(sorted(d.items()))
        elif ev.k == "idx":
            pass
        elif ev.k == "lock" and mine(ev.val) == WMU:
            canc, done = None, frozenset()
        elif ev.k == "unlock" and mine(ev.val) == WMU:
            canc = None
            d = {v: k for v, k in kinds if k in ("ok", "err")}
            kinds = tuple(sorted(d.items()))
        elif ev.k == "call" and n in ("Wait", "WaitWithDeadline", "WaitWithTimeout") and mine(ev.recv) == "wakeup_worker_":
            until = ev.args[-1] if ev.args else None
            vs = {var(x) for x in until.toks if x.k in ("phi", "v")} - {None} if until is not None and n != "Wait" else set()
            self.sleeps.append((vs, w, trace_of(st)))
        elif ev.k == "call" and n == "FinalizeSampleRequest":
            self.hit("answer")
            k = self.kindof(kinds, ev.args[-1]) if ev.args else None
            if deliv:
                if deliv[0] == "answered":
                    self.bad("C", "answered-twice", w, "an expired sample request is answered twice", st)
                if k == "ok":
                    self.bad("C", "expired-ok", w, "an expired sample request is answered with OK", st)
                deliv = ("answered", deliv[1])
            else:
                if k == "ok" and not cap:
                    self.bad("C", "ok-not-full", w, "a sample request is answered with OK although its batch was not found to be complete", st)
                if ans:
                    self.bad("C", "answered-twice", w, "a sample request is answered twice", st)
                ans = True
            cap = False
        elif ev.k == "call" and n == "MaybeCommitSample":
            if ans:
                self.bad("C", "use-after-answer", w, "the worker goes on with a sample request that was answered", st)
        elif ev.k == "call" and n in GROW and ev.recv is not None and ev.args:
            c = self.box(ev.recv)
            if c in self.expired and self.elems(ev.args[0]):
                if scan and scan[0] == "expired":
                    scan = ("done", scan[1])
                elif scan:
                    self.bad("C", "ended-early", w, "a sample request is ended although its timeout has not expired", st)
        elif ev.k == "call" and n in ("clear", "swap") and ev.args is not None:
            for c in self.names_of(ev):
                k = self.owner.get(c)
                if n == "clear" and c in QUEUES:
                    self.bad("C", "queue-dropped/" + c, w, "%s is dropped" % c, st)
                if k and k not in done and not (k == "I" and canc):
                    self.bad("C", "dropped/" + k, w, "the %s in hand are dropped although they were not found to be done" % ("inserts" if k == "I" else "sample requests"), st)
                if n == "swap" and k:
                    done = done | {k}
        return (kinds, scan, deliv, ans, canc, cap, done)


class Callbacks(Part):
    """the callbacks of waiting inserters: handed to a task before they are dropped"""

    def init(self):
        return frozenset()  # ("full", c) ("moved", c)

    def branch(self, st, atom, val, line, fn):
        c, e = self.emptiness(atom, val)
        if c and e:
            return frozenset(x for x in st.auto if x[1] != c)
        return st.auto

    def event(self, st, ev):
        s = st.auto
        self.learn(ev)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "mv" and ev.val is not None:
            c = self.box(ev.val)
            if ("full", c) in s:
                s = s | {("moved", c)}
        elif ev.k == "call" and n == "swap":
            xs = self.names_of(ev)
            if NOTIFY in xs:
                self.hit("swap")
                for c in xs:
                    if c != NOTIFY:
                        if ("full", c) in s:
                            self.bad("D", "swap-back", w, "callbacks that were not called yet are put back, while the inserters that wait are not told", st)
                        s = (s - {("moved", c)}) | {("full", c)}
        elif ev.k == "call" and n == "clear" and ev.recv is not None:
            c = self.box(ev.recv)
            if c == NOTIFY or ("full", c) in s:
                self.bad("D", "dropped/" + str(c).split("@")[0], w, "the callbacks of waiting inserters are dropped", st)
        elif ev.k == "call" and n == "Schedule" and ev.args:
            lams = [x for x in ev.args[-1].toks if x.k == "lam"]
            for x in list(s):
                if x[0] == "moved":
                    self.hit("schedule")
                    s = s - {x, ("full", x[1])}
                    for l in lams:
                        self.deliver(l)
        return s

    def deliver(self, lam):
        g = self.prog.fns.get(str(lam.a[0]))
        if g is None or not g.blocks or g.usr in self.n:
            return
        self.n[g.usr] = 1
        a = Deliver()
        self.ctx.engine(Engine(self.prog, g, a))
        if a.bad or not a.calls:
            self.ctx.violation("D", "callbacks/skipped", g.where(), "the scheduled task does not call every callback it was given, once", a.trace)


class Deliver(Auto):
    """every callback of the moved collection is called, at most once, unless it is gone"""

    def __init__(self):
        self.bad, self.calls, self.trace = False, 0, []

    def init(self):
        return None

    def keep_fact(self, atom):
        return result(atom)

    def branch(self, st, atom, val, line, fn):
        o = over(atom)
        if o is not None and any(x.k == "call" and last(x.a[0]) in ("end", "cend", "size") for x in atom.toks):
            if st.auto == "open":
                self.bad = True
                self.trace = trace_of(st)
            return "open" if val != o[1] else "end"
        if atom.k in ("nz", "null") and st.auto == "open" and (val if atom.k == "null" else not val):
            return "done"
        return st.auto

    def event(self, st, ev):
        if ev.k == "call" and last(ev.fn or "") == "operator()":
            self.calls += 1
            if st.auto == "done":
                self.bad = True
                self.trace = trace_of(st)
            return "done"
        return st.auto

    def exit(self, st, ret, ev):
        if st.auto in ("open", "done"):
            self.bad = True
            self.trace = trace_of(st)


class Wake(Auto):
    """a method of the table: everything it leaves for the worker is announced"""

    def __init__(self, ctx, prog, g):
        self.ctx, self.prog, self.g = ctx, prog, g
        self.hits = set()

    def init(self):
        return state_dict(todo=frozenset(), sec=frozenset(), none=False, stopped=False)

    def keep_fact(self, atom):
        return result(atom)

    def bad(self, rid, key, where, msg, st):
        self.ctx.violation(rid, "%s/%s" % (last(self.g.name), key), where, msg, trace_of(st))

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool", "null") and any(x.k == "m" and last(str(x.a[1])) == "table_worker_" for x in atom.toks):
            isnull = val if atom.k == "null" else not val
            if s["none"] and not isnull:
                return DEAD
            s["none"] = s["none"] or isnull
        if atom.k == "eq":
            a, b = base(atom.a[0]), base(atom.a[1])
            for x, y in ((a, b), (b, a)):
                if mine(x) == "worker_state_" and y is not None and y.k in ("enum", "g"):
                    e = last(str(y.a[0]))
                    if val and e == "kRunning":
                        s["sec"] = s["sec"] | {"running"}
                    if not val:
                        s["sec"] = s["sec"] | {"not:" + e}
                        if not [z for z in self.states if z != "kRunning" and "not:" + z not in s["sec"]]:
                            s["sec"] = s["sec"] | {"running"}
        return state_dict(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "lock" and mine(ev.val) == WMU:
            s["sec"] = frozenset()
        elif ev.k == "unlock" and mine(ev.val) == WMU:
            sec = s["sec"]
            awake = "signal" in sec or "running" in sec
            for x in sec:
                if x.startswith("set:") and not awake:
                    what = {"pending_inserts_": "an insert was queued", "pending_sampling_": "a sample request was queued", "stop_worker_": "the worker was stopped", "table_mutated_": "the table was modified"}[x[4:]]
                    self.bad("B", "no-wakeup/" + x[4:], w, "%s but the worker is not woken up" % what, st)
            if awake and "set:table_mutated_" in sec:
                s["todo"] = s["todo"] - {"mutated"}
            if "signal" in sec:
                s["todo"] = s["todo"] - {"cancelled"}
            s["sec"] = frozenset()
        elif ev.k == "asg" and mine(ev.l) == "table_worker_" and last(self.g.name) == "~Table" and not s["stopped"]:
            self.bad("B", "join-running", w, "the worker is joined without having been told to stop", st)
        elif ev.k == "asg" and mine(ev.l) in ("stop_worker_", "table_mutated_") and base(ev.r) is TRUE:
            s["stopped"] = s["stopped"] or mine(ev.l) == "stop_worker_"
            s["sec"] = s["sec"] | {"set:" + mine(ev.l)}
            self.hits.add("sets " + mine(ev.l))
        elif ev.k == "call":
            m = mine(ev.recv) if ev.recv is not None else None
            if n in GROW and m in QUEUES:
                s["sec"] = s["sec"] | {"set:" + m}
                self.hits.add("queues into " + m)
            elif n in ("Signal", "SignalAll") and m == "wakeup_worker_":
                s["sec"] = s["sec"] | {"signal"}
                if not any(mine(l) == WMU for l in st.locks) and not any(mine(l) == WMU for l in (ev.locks or ())):
                    self.bad("B", "signal-unlocked", w, "the worker is signalled without holding the lock, so it may miss the signal between its check and its sleep", st)
            elif n == "Cancel" and m == "rate_limiter_":
                s["todo"] = s["todo"] | {"cancelled"}
                self.hits.add("closes the table")
            elif n in ("Delete", "Reset") and m == "rate_limiter_":
                s["todo"] = s["todo"] | {"mutated"}
                self.hits.add("removes items")
            if n in GROW and m == NOTIFY:
                self.hits.add("registers a callback")
        return state_dict(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if s["none"]:
            return
        for x in s["todo"]:
            self.bad("B", "no-wakeup/" + x, self.g.where(), "the table was %s but the worker is not woken up afterwards" % ("closed" if x == "cancelled" else "modified"), st)


class Told(Auto):
    """whether inserters are told to wait, and registered exactly then"""

    def __init__(self, ctx, prog, g, out):
        self.ctx, self.g, self.out = ctx, g, out

    def init(self):
        return (None, 0, False, None)  # what was told, registrations, queued, decided by branch

    def keep_fact(self, atom):
        return result(atom)

    def cond(self, x):
        x = base(x)
        if x is None:
            return None
        if x.k == "op" and x.a[0] == "!":
            c = self.cond(x.a[1])
            return None if c is None else not c
        toks = list(x.toks)
        if not any(y.k == "m" and last(str(y.a[1])) == "max_enqueued_inserts_" for y in toks) or not any(y.k == "call" and last(y.a[0]) == "size" for y in toks):
            return None
        if x.k == "lt" or x.k == "op" and x.a[0] in ("<", ">=", ">", "<="):
            a, b = (x.a[0], x.a[1]) if x.k == "lt" else (x.a[1], x.a[2])
            o = "<" if x.k == "lt" else x.a[0]
            lim_right = any(y.k == "m" and last(str(y.a[1])) == "max_enqueued_inserts_" for y in b.toks)
            if o in ("<", "<="):
                return lim_right
            return not lim_right
        return None

    def event(self, st, ev):
        told, reg, queued, br = st.auto
        n = last(ev.fn or "")
        if ev.k == "call" and n in GROW and mine(ev.recv) == NOTIFY:
            reg += 1
        elif ev.k == "call" and n in GROW and mine(ev.recv) in QUEUES:
            queued = True
        elif ev.k == "asg" and base(ev.l) is not None and (base(ev.l).k == "p" and base(ev.l).a[0] == self.out) and ev.r is not None:
            r = base(ev.r)
            told = True if r is TRUE else False if r is FALSE else ("cond", self.cond(ev.r))
        return (told, min(reg, 2), queued, br)

    def branch(self, st, atom, val, line, fn):
        told, reg, queued, br = st.auto
        x = atom.a[0] if atom.k in ("nz", "bool") else atom
        c = self.cond(x)
        if c is not None:
            more = val if c else not val
        elif atom.k in ("nz", "bool") and base(atom.a[0]) is not None and base(atom.a[0]).k in ("p", "deref") and any(y.k == "p" and y.a[0] == self.out for y in atom.toks):
            more = val
        else:
            return st.auto
        if br is not None and br != more:
            return DEAD
        return (told, reg, queued, more)

    def exit(self, st, ret, ev):
        told, reg, queued, br = st.auto
        if not queued:
            return
        w = self.g.where()
        if told is None:
            self.ctx.violation("D", "told/unset", w, "an insert is accepted without telling the caller whether it may go on", trace_of(st))
            return
        more = told if isinstance(told, bool) else br
        if isinstance(told, bool) and br is not None and told != br:
            self.ctx.violation("D", "told/wrong", w, "the caller is told the opposite of whether the queue has room", trace_of(st))
        if isinstance(told, tuple) and told[1] is False:
            self.ctx.violation("D", "told/wrong", w, "the caller is told the opposite of whether the queue has room", trace_of(st))
        if more is None:
            self.ctx.violation("D", "told/registered-anyway" if reg else "told/unregistered", w, "whether a caller is registered for the notification does not depend on what it is told", trace_of(st))
            return
        if more and reg:
            self.ctx.violation("D", "told/registered-anyway", w, "a caller that may go on is registered for a notification", trace_of(st))
        if not more and reg != 1:
            self.ctx.violation("D", "told/unregistered", w, "a caller that is told to wait is %s" % ("not registered for the notification" if reg == 0 else "registered twice"), trace_of(st))


class Once(Auto):
    """FinalizeSampleRequest: the request is handed to exactly one task that
    answers it at most once and frees it exactly once"""

    def __init__(self, ctx, prog, g, top):
        self.ctx, self.prog, self.g, self.top = ctx, prog, g, top
        self.lams = []

    def init(self):
        return (0, False, False, 0)  # scheduled / called, status set, owner gave up, freed

    def keep_fact(self, atom):
        return result(atom)

    def event(self, st, ev):
        c, stt, rel, fr = st.auto
        n = last(ev.fn or "")
        if ev.k == "call" and n == "Schedule":
            c += 1
            for x in ev.args[-1].toks:
                if x.k == "lam":
                    self.lams.append(str(x.a[0]))
            if not stt and self.top:
                self.ctx.violation("C", "finalize/status-late", ev.where(), "the request is handed over before its status is set", trace_of(st))
        elif ev.k == "call" and n == "operator()" and not self.top:
            if fr:
                self.ctx.violation("C", "finalize/answer-after-free", ev.where(), "the request is passed to the callback after it was freed", trace_of(st))
            c += 1
        elif ev.k == "call" and n == "release":
            rel = True
        elif ev.k == "asg" and ev.l is not None and base(ev.l) is not None and base(ev.l).k == "m" and last(str(base(ev.l).a[1])) == "status":
            stt = True
            if self.top and not (ev.r is not None and base(ev.r) is not None and base(ev.r).k == "p"):
                self.ctx.violation("C", "finalize/status", ev.where(), "the request is not answered with the given status", trace_of(st))
        elif ev.k == "delete" or ev.k == "dtor" and not self.top and "unique_ptr" in str((ev.raw or {}).get("ty")) and "SampleRequest" in str((ev.raw or {}).get("ty")):
            fr += 1
        return (min(c, 2), stt, rel, min(fr, 2))

    def branch(self, st, atom, val, line, fn):
        return st.auto

    def exit(self, st, ret, ev):
        c, stt, rel, fr = st.auto
        if self.top:
            if c != 1:
                self.ctx.violation("C", "finalize/scheduled-%d" % c, self.g.where(), "a finished request is handed over %s" % ("twice" if c else "to nobody"), trace_of(st))
            if not stt:
                self.ctx.violation("C", "finalize/no-status", self.g.where(), "a finished request is handed over without its status", trace_of(st))
            self.rel = rel
        else:
            if c > 1:
                self.ctx.violation("C", "finalize/answered-twice", self.g.where(), "the callback of a request can be called twice", trace_of(st))
            self.freed = getattr(self, "freed", set()) | {fr}
            self.called = getattr(self, "called", set()) | {c}


def run(ctx):
    ctx.rule("A", "The table worker goes to sleep only after it saw, without releasing the lock in between, that nothing is queued, stopped, modified, closed or left to deliver, that the work in hand cannot proceed, and with the earliest deadline as its wake-up.")
    ctx.rule("B", "Whatever queues work, stops the worker, or (with a worker) modifies or closes the table wakes the worker under its lock afterwards, unless the worker was seen running in the same critical section.")
    ctx.rule("C", "Every sample request is answered exactly once: OK only with a full batch, an error once its deadline passed or the table is closed; it is freed once and not used afterwards; queued requests are not dropped.")
    ctx.rule("D", "An inserter is told to wait exactly when it is registered for a notification, and every registered callback is called when the queue was taken or the table closed.")
    prog = ctx.program("table.cc")
    g = prog.fn("Table::TableWorkerLoop")
    stop = STOP
    inl = lambda k, ev: last(k.name) not in stop and k.cls in ("", "Table")
    partner, counters, indices, expired, scanvars, assigned, states = scout(prog, g)
    if set(partner) != {"I", "S"}:
        raise AnalysisBroken("the worker's batches were not recognised: %s" % partner)
    for name, cls in (("sleep", Sleep), ("progress", Progress), ("answers", Answers), ("callbacks", Callbacks)):
        a = cls(ctx, prog, g, partner)
        a.counters, a.indices, a.expired = counters, indices, expired
        a.wakes, a.sleeps, a.scanvars, a.assigned = set(), [], scanvars, assigned
        ctx.engine(Engine(prog, g, a, inline=inl))
        want = {"sleep": ("wait", "stop"), "progress": ("InsertOrAssignInternal", "SampleInternal"), "answers": ("scan", "answer"), "callbacks": ("swap",)}[name]
        if any(not a.n.get(x) for x in want):
            raise AnalysisBroken("worker loop not recognised: %s saw %s" % (name, a.n))
        for vs, w, tr in a.sleeps:
            if not vs & a.wakes:
                ctx.violation("A", "TableWorkerLoop/sleeps-past-deadline", w, "the worker does not wake up at the earliest deadline of the requests that wait", tr)
        ctx.instance({"sleep": "A", "progress": "A", "answers": "C", "callbacks": "D"}[name], "TableWorkerLoop: " + name)
    # taking the queue of inserts notifies those told to wait
    t = TakeNotifies(ctx, g)
    ctx.engine(Engine(prog, g, t, inline=lambda k, ev: last(k.name) not in stop and k.cls in ("", "Table")))
    ctx.instance("D", "TableWorkerLoop: taking the inserts takes the callbacks")
    for h in prog.fns.values():
        if h.cls != "Table" or h.lam or not h.blocks or h is g or last(h.name) in ("ExtensionsWorkerLoop",):
            continue
        if last(h.name) not in ("~Table",) and h.access != "public":
            continue
        wk = Wake(ctx, prog, h)
        wk.states = states
        try:
            ctx.engine(Engine(prog, h, wk, inline=lambda k, ev: k.cls == "Table" and k.usr != g.usr and last(k.name) not in ("ExtensionOperation",) or k.lam))
        except AnalysisBroken as x:
            ctx.note("P07: %s: %s" % (h.name, x))
            continue
        for x in sorted(wk.hits):
            ctx.instance("B", "%s %s" % (h.name, x))
    ctx.need("B", 6)
    i = prog.fn("Table::InsertOrAssignAsync")
    out = [k for k, p in enumerate(i.params) if "bool" in p[1]]
    if out:
        ctx.instance("D", "InsertOrAssignAsync: told to wait and registered")
        ctx.engine(Engine(prog, i, Told(ctx, prog, i, out[0]), inline=lambda k, ev: k.cls == "Table"))
    f_ = prog.fn("Table::FinalizeSampleRequest")
    ctx.instance("C", "FinalizeSampleRequest")
    o = Once(ctx, prog, f_, True)
    ctx.engine(Engine(prog, f_, o))
    for u in dict.fromkeys(o.lams):
        l = prog.fns.get(u)
        if l is None:
            continue
        p = Once(ctx, prog, l, False)
        ctx.engine(Engine(prog, l, p))
        if max(getattr(p, "called", {0})) != 1:
            ctx.violation("C", "finalize/never-answered", l.where(), "the callback of a finished request is never called")
        fr = getattr(p, "freed", {0})
        if o.rel and fr != {1}:
            ctx.violation("C", "finalize/freed", l.where(), "a finished request is %s" % ("freed twice" if 2 in fr else "not freed on every path"))
        if not o.rel and fr != {0}:
            ctx.violation("C", "finalize/freed", l.where(), "a finished request is freed although its owner frees it as well")


class TakeNotifies(Auto):
    """in the section that takes the queued inserts the callbacks are taken as well"""

    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g

    def init(self):
        return frozenset()

    def keep_fact(self, atom):
        return result(atom)

    def opaque(self, fid, fn, v, val):
        return val.k in ("lit", "op", "phi") or any(x.k == "call" and last(x.a[0]) in ("min", "InfiniteFuture", "Now") for x in val.toks) or val is TRUE or val is FALSE or val is OK

    def event(self, st, ev):
        n = last(ev.fn or "")
        if ev.k == "call" and n == "swap":
            xs = {mine(x) for x in ([ev.recv] if ev.recv is not None else []) + list(ev.args or ())}
            return st.auto | ({"took"} if "pending_inserts_" in xs else set()) | ({"notify"} if NOTIFY in xs else set())
        if ev.k == "asg" and mine(ev.l) == "pending_inserts_":
            return st.auto | {"took"}
        if ev.k == "asg" and mine(ev.l) == NOTIFY:
            return st.auto | {"notify"}
        if ev.k == "unlock" and mine(ev.val) == WMU:
            if "took" in st.auto and "notify" not in st.auto:
                self.ctx.violation("D", "take/no-notify", ev.where(), "the queued inserts are taken but the inserters that were told to wait are not notified", trace_of(st))
            return frozenset()
        return st.auto

    def branch(self, st, atom, val, line, fn):
        # no callbacks to take
        if atom.k in ("nz", "bool") and base(atom.a[0]) is not None and base(atom.a[0]).k == "call" and last(base(atom.a[0]).a[0]) == "empty" and mine(base(atom.a[0]).a[1]) == NOTIFY and val:
            return st.auto | {"notify"}
        return st.auto


def scout(prog, g):
    """locals that are exchanged with the queues, counters that are compared
    with each other, indices into the batches, collections of expired requests"""
    fns = [g] + [f for f in prog.fns.values() if f.blocks and not f.lam and f.cls in ("", "Table") and any(c.get("usr") == f.usr for c in g.calls())]
    partner = {}

    class Scan(Part):
        def init(self):
            return 0

        def event(self, st, ev):
            self.learn(ev)
            if ev.k == "asg" and base(ev.l) is not None and var(ev.l):
                assigned.add(var(ev.l))
            if ev.k == "asg" and mine(ev.l) == "worker_state_" and base(ev.r) is not None:
                states.update(last(str(x.a[0])) for x in ev.r.toks if x.k in ("enum", "g"))
            if ev.k == "call" and last(ev.fn or "") == "swap":
                xs = self.names_of(ev)
                for x in xs:
                    if x in QUEUES:
                        for y in xs:
                            if y != x:
                                partner[QUEUES[x]] = y
            if ev.k == "call" and last(ev.fn or "") in GROW and ev.recv is not None and ev.args and self.elems(ev.args[0]):
                c = self.box(ev.recv)
                if c and not c.endswith("_"):
                    expired.add(c)
            return 0

        def branch(self, st, atom, val, line, fn):
            if atom.k in ("eq", "lt"):
                a, b = base(atom.a[0]), base(atom.a[1])
                if a is not None and b is not None and a.k in ("phi", "v") and b.k in ("phi", "v") and var(a) and var(b):
                    counters.update((var(a), var(b)))
                for x, y in ((a, b), (b, a)):
                    if x is not None and y is not None and x.k in ("phi", "v") and var(x) and y.k == "call" and last(y.a[0]) == "size":
                        indices.add(var(x))
                    if x is not None and x.k == "m" and last(str(x.a[1])) == "deadline":
                        for z in x.toks:
                            if z.k == "idx":
                                scanvars.update(var(u) for u in z.toks if u.k in ("phi", "v") and var(u))
            return 0

    counters, indices, expired, scanvars, assigned, states = set(), set(), set(), set(), set(), set()
    s = Scan(None, prog, g, {})
    inl = lambda k, ev: last(k.name) not in STOP and k.cls in ("", "Table")
    Engine(prog, g, s, inline=inl).run()
    # what was pushed by index, once the index variables are known
    s.scanvars = scanvars
    if scanvars:
        Engine(prog, g, s, inline=inl).run()
    return partner, counters, indices, expired, scanvars, assigned, states
