"""Queues and task executors: what each operation does in every state, as a decision table."""
import itertools
from engine.explore import result
from engine.util import *
from engine.ir import AnalysisBroken

OUTSIDE = "outside"
FIELDS = ("pushes_", "pops_", "size_", "closed_", "last_item_pushed_", "buffer_")


WAITING = ("num_waiting_to_pop_", "num_waiting_to_push_")


class Unknown(Exception):
    pass


class Lost(Exception):
    """one operand is unknown, but the expression is decidable in principle"""


def fname(s):
    """name of the queue's field denoted by s"""
    return last(s.a[1]) if isinstance(s, S) and s.k == "m" and last(s.a[1]) in FIELDS else None


def base(s):
    while isinstance(s, S) and s.k in ("cast", "addr", "deref", "mv"):
        s = s.a[-1] if s.k == "cast" else s.a[0]
    return s


class Point:
    """one state of the queue and the arguments"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return ", ".join("%s=%s" % (k, int(v) if isinstance(v, bool) else v) for k, v in sorted(self.__dict__.items()) if k not in ("names", "wait") and (k != "waiting" or any(v)))


def value(s, pt, d):
    """value of an expression over the queue's fields in a state, d: counters changed so far"""
    s = base(s)
    f = fname(s)
    if f == "pushes_":
        return pt.pops + pt.n + d["push"]
    if f == "pops_":
        return pt.pops + d["pop"]
    if f == "size_":
        return pt.n + d["size"]
    if f == "closed_":
        return pt.closed if d["closed"] is None else d["closed"]
    if f == "last_item_pushed_":
        return pt.last if d["last"] is None else d["last"]
    if s is TRUE or s is FALSE:
        return s is TRUE
    k = s.k
    if k == "m" and last(s.a[1]) in WAITING:
        # how many threads wait must not matter for what an operation does
        return pt.waiting[WAITING.index(last(s.a[1]))]
    if k == "lit":
        if isinstance(s.a[0], (int, bool)):
            return s.a[0]
        try:
            return int(str(s.a[0]))
        except ValueError:
            raise Unknown(s)
    if k in ("v", "phi") and s.a[0] in d.get("vars", ()):
        return d["vars"][s.a[0]]
    if k in ("p", "v", "phi"):
        n = pt.names(s)
        if n == "batch":
            return pt.batch
        if n == "cap":
            return pt.cap
        raise Unknown(s)
    if k == "call":
        n = last(s.a[0])
        if n in ("size", "empty") and fname(base(s.a[1])) == "buffer_":
            z = pt.cap if pt.cap is not None else pt.n + d["buf"]
            return z == 0 if n == "empty" else z
        if n.startswith("Await") and pt.wait is not None:
            return pt.wait(s)
        raise Unknown(s)
    if k == "nz":
        return bool(value(s.a[0], pt, d))
    if k == "eq":
        return value(s.a[0], pt, d) == value(s.a[1], pt, d)
    if k == "lt":
        return value(s.a[0], pt, d) < value(s.a[1], pt, d)
    if k == "op":
        o = s.a[0]
        if o in ("&&", "||"):
            a = bool(value(s.a[1], pt, d))
            return bool(value(s.a[2], pt, d)) if a == (o == "&&") else a
        v = [value(x, pt, d) for x in s.a[1:]]
        if len(v) == 1:
            return {"!": lambda x: not x, "-": lambda x: -x, "+": lambda x: x}.get(o, unk(s))(v[0])
        if len(v) == 2:
            if o in ("%", "/") and v[1] == 0:
                raise Unknown(s)
            return {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "%": lambda a, b: a % b, "/": lambda a, b: a // b,
                    "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
                    "==": lambda a, b: a == b, "!=": lambda a, b: a != b}.get(o, unk(s))(*v)
    if k == "cond":
        return value(s.a[1] if value(s.a[0], pt, d) else s.a[2], pt, d)
    raise Unknown(s)


def unk(s):
    def f(*a):
        raise Unknown(s)
    return f


class Path(Auto):
    """collects, per path, the ordered steps that concern the queue.  A counted
    loop is folded: its body must do the same each time round."""

    def __init__(self, g, batch=None, out=None):
        self.g, self.batch, self.out = g, batch, out
        self.paths = []
        self.odd = []

    def init(self):
        return ()

    def keep_fact(self, atom):
        return result(atom)

    def opaque(self, fid, fn, var, val):
        return val is not None and val.k in ("op", "m", "nz", "eq", "lt", "cast") and any(fname(x) not in (None, "buffer_") for x in val.toks)

    def add(self, st, *x):
        a = st.auto
        if x[0] == "loop":
            at = [i for i in range(len(a)) if a[i][0] in ("loop", "loop0")]
            if x[1]:
                # the steps since the last visit to the loop head repeat
                return (a[:at[-1]] + (("loop", a[at[-1] + 1:]),)) if at else a + (("loop0",),)
            return (a[:at[-1]] + (("looped", a[at[-1] + 1:]),)) if at else a + (("looped", ()),)
        return a + (x,)

    def event(self, st, ev):
        n = last(ev.fn or "")
        if ev.k in ("lock", "unlock") and last(str(ev.val.a[1]) if ev.val.k == "m" else "") == "mu_":
            return self.add(st, ev.k)
        if ev.k == "call" and n in ("Await", "AwaitWithTimeout", "AwaitWithDeadline", "LockWhen", "Wait", "WaitWithTimeout"):
            return self.add(st, "await", n, tuple(x for x in (ev.args or ()) if x is not None), ev.val)
        if ev.k == "decl" and ev.val is not None and self.opaque(0, None, None, ev.val):
            return self.add(st, "local", (ev.raw or {}).get("var"), ev.val)
        if ev.k == "asg":
            f = fname(base(ev.l))
            if f in ("closed_", "last_item_pushed_"):
                return self.add(st, "set", f, ev.r if ev.op == "=" else None)
            if f in ("pushes_", "pops_", "size_"):
                if ev.op in ("++", "--"):
                    return self.add(st, "count", f, mk("lit", 1 if ev.op == "++" else -1))
                if ev.op in ("+=", "-=") and ev.r is not None:
                    return self.add(st, "count", f, ev.r if ev.op == "+=" else mk("op", "-", mk("lit", 0), ev.r))
                if ev.op in ("=", "init"):
                    return self.add(st, "assign", f, ev.r)
                return self.add(st, "odd", str(ev.op))
            if f == "buffer_":
                return self.add(st, "odd", "buffer_ replaced") if ev.op != "init" else st.auto
            l = base(ev.l)
            if ev.l is not None and ev.l.k == "idx" and fname(base(ev.l.a[0])) == "buffer_":
                return self.add(st, "store", ev.r)
            if l is not None and l.k == "p" and self.out is not None and l.a[0] == self.out:
                return self.add(st, "deliver", ev.r)
            if l is not None and l.k in ("v", "phi") and ev.op in ("++", "--", "+=", "-="):
                return self.add(st, "step", ev.op)
        if ev.k == "idx" and fname(base(ev.recv)) == "buffer_":
            return self.add(st, "slot", ev.args[0])
        if ev.k == "call" and ev.recv is not None and fname(base(ev.recv)) == "buffer_":
            if n in ("push", "emplace", "push_back", "emplace_back", "pop", "pop_front", "front", "at"):
                if n == "at":
                    return self.add(st, "slot", ev.args[0])
                return self.add(st, "buf", n.split("_")[0].replace("emplace", "push"), ev.args[0] if ev.args else None)
            if n not in ("size", "empty"):
                return self.add(st, "odd", n)
        if ev.k == "call" and ev.recv is not None and n in ("push_back", "emplace_back") and base(ev.recv).k == "p" and base(ev.recv).a[0] == self.out:
            return self.add(st, "deliver", ev.args[0] if ev.args else None)
        return st.auto

    def branch(self, st, atom, val, line, fn):
        if not any(fname(x) for x in atom.toks) and self.batch is not None and any(x.k == "p" and x.a[0] == self.batch for x in atom.toks) and atom.k in ("lt", "eq"):
            other = [x for x in atom.a if not (x.k == "p" and x.a[0] == self.batch)]
            if len(other) == 1 and other[0].k == "lit" and atom.k == "lt" and atom.a[0].k == "lit":
                return self.add(st, "first", atom, val)
            if any(x.k in ("phi", "v") or x.k == "call" and last(x.a[0]) == "size" for x in other) and len(other) == 1:
                more = val if atom.k == "lt" and atom.a[1].k == "p" else not val
                return self.add(st, "loop", more, atom)
        if len(st.auto) > 60:
            self.odd.append("path too long")
            return DEAD
        return self.add(st, "if", atom, val)

    def exit(self, st, ret, ev):
        self.paths.append((st.auto, ret, trace_of(st)))


class Check:
    def __init__(self, ctx, prog, g, kind, bounded):
        self.ctx, self.prog, self.g, self.kind, self.bounded = ctx, prog, g, kind, bounded
        self.key = "%s/%s" % (g.cls.split("::")[-1] or g.name, kind)

    def paths(self):
        batch = out = None
        if self.kind == "PopBatch":
            batch, out = 0, len(self.g.params) - 1
        elif self.kind == "Pop":
            out = 0
        a = Path(self.g, batch, out)
        e = Engine(self.prog, self.g, a, inline=lambda k, ev: k.cls.split("::")[-1] == self.g.cls.split("::")[-1] and k.name != self.g.name or k.lam)
        self.ctx.engine(e)
        return a

    # ---- replay of the steps of one path in one state
    def follow(self, steps, pt):
        """effects of a path in state pt; None when the path is not taken there"""
        d = dict(push=0, pop=0, size=0, buf=0, closed=None, last=None)
        o = dict(stored=0, delivered=0, fetched=0, blocked=False, slotbad=None, held=False, early=False)
        # state tests before the operation last (re)gained the lock or waited are about another state
        epochs = [i for i, s in enumerate(steps) if s[0] in ("lock", "await")]
        cut = epochs[-1] if epochs else -1
        unlocks = [i for i, s in enumerate(steps) if s[0] == "unlock"]
        return d if self.run_steps(steps, pt, d, o, cut) else None, o

    def run_steps(self, steps, pt, d, o, cut, inloop=False):
        for i, s in enumerate(steps):
            old = i < cut
            if s[0] == "await":
                cond = self.condition(s)
                if cond is None:
                    raise Unknown("wait condition")
                r = self.holds(cond, pt)
                if self.kind == "PopBatch" and pt.batch <= pt.cap and r != (pt.closed or pt.last or pt.n >= pt.batch):
                    o["waits"] = r
                if i == cut:
                    if s[1] in ("Await", "LockWhen") and not r:
                        o["blocked"] = True
                        return False
                    pt.wait = lambda x, r=r, c=s[3]: r if x is c or x.k == "call" else unk(x)()
            elif s[0] == "if":
                if old and (any(fname(x) not in (None, "buffer_") for x in s[1].toks) or not self.bounded):
                    continue
                if bool(value(s[1], pt, d)) != s[2]:
                    return False
            elif s[0] == "set":
                v = value(s[2], pt, d) if s[2] is not None else unk("set")()
                d["closed" if s[1] == "closed_" else "last"] = bool(v)
                if old:
                    o["early"] = True
            elif s[0] == "count":
                d[{"pushes_": "push", "pops_": "pop", "size_": "size"}[s[1]]] += value(s[2], pt, d)
                if old:
                    o["early"] = True
            elif s[0] == "assign":
                f = {"pushes_": "push", "pops_": "pop", "size_": "size"}[s[1]]
                v = value(s[2], pt, d)
                d[f] = v - {"push": pt.pops + pt.n, "pop": pt.pops, "size": pt.n}[f]
            elif s[0] == "slot":
                j = value(s[1], pt, d)
                o.setdefault("slots", []).append((j, d["push"], d["pop"]))
            elif s[0] == "store":
                o["stored"] += 1
            elif s[0] == "deliver":
                o["delivered"] += 1
            elif s[0] == "buf":
                if s[1] == "push":
                    d["buf"] += 1
                elif s[1] == "pop":
                    d["buf"] -= 1
                    o["fetched"] += 1
                elif s[1] == "front":
                    o.setdefault("fronts", []).append(o["fetched"])
            elif s[0] == "first":
                if bool(value(s[1], pt, d)) != s[2]:
                    return False
                o["first"] = value(s[1].a[0], pt, d)
            elif s[0] == "local":
                d.setdefault("vars", {})[s[1]] = value(s[2], pt, d)
            elif s[0] == "looped":
                if "first" not in o:
                    raise Unknown("loop start")
                times = pt.batch - o["first"] - 1
                if times < 0 or (times == 0) != (not s[1]):
                    return False
                for _ in range(times):
                    if not self.run_steps(s[1], pt, d, o, -1, True):
                        return False
                if len([x for x in s[1] if x[0] == "step"]) > 1:
                    raise Unknown("loop step")
            elif s[0] in ("odd", "loop", "loop0"):
                raise Unknown(s)
        return True

    def condition(self, s):
        for x in s[2]:
            for y in x.toks:
                if y.k == "lam" and y.a[0] in self.prog.fns:
                    return self.prog.fns[y.a[0]]
                if y.k == "fn" and y.a[1] in self.prog.fns:
                    return self.prog.fns[y.a[1]]
        return None

    def holds(self, fn, pt):
        if not hasattr(fn, "_table"):
            fn._table, _ = bool_paths(self.prog, fn)
        d = dict(push=0, pop=0, size=0, buf=0, closed=None, last=None)
        res = set()
        for facts, r in fn._table:
            if all(bool(value(a, pt, d)) == v for a, v in facts.items()):
                res.add(r)
        if len(res) != 1:
            raise Unknown("condition")
        return res.pop()

    # ---- specification
    def spec(self, pt):
        """(return, push, pop, closed, last) or 'blocks'"""
        k = self.kind
        if k == "Push":
            if pt.closed or pt.last:
                return ("false", 0, 0, pt.closed, pt.last)
            if self.bounded and pt.n >= pt.cap:
                return "blocks"
            return ("true", 1, 0, pt.closed, pt.last)
        if k == "Pop":
            if pt.closed:
                return ("false", 0, 0, True, pt.last)
            if pt.n == 0:
                return "blocks"
            return ("true", 0, 1, pt.last and pt.n == 1, pt.last)
        if k == "PopBatch":
            if pt.batch > pt.cap:
                return ("InvalidArgumentError", 0, 0, pt.closed, pt.last)
            if pt.closed:
                return ("CancelledError", 0, 0, True, pt.last)
            if pt.n < pt.batch:
                return ("ResourceExhaustedError" if pt.last else "DeadlineExceededError", 0, 0, pt.closed, pt.last)
            return ("ok", 0, pt.batch, pt.last and pt.n == pt.batch, pt.last)
        if k == "Close":
            return ("void", 0, 0, True, pt.last)
        if k == "SetLastItemPushed":
            return ("void", 0, 0, pt.closed or pt.n == 0, True)
        if k == "size":
            return (pt.n, 0, 0, pt.closed, pt.last)

    def points(self):
        names = self.names
        for cap in ((1, 2, 3) if self.bounded else (None,)):
            for n in range(0, (cap if cap else 3) + 1):
                for pops in ((0, 1, 2) if self.bounded else (0,)):
                    for closed, lst in itertools.product((False, True), repeat=2):
                        if lst and n == 0 and not closed:
                            continue  # excluded by SetLastItemPushed, Pop and PopBatch themselves
                        for batch in ((1, 2, 3, 4) if self.kind == "PopBatch" else (0,)):
                            for waiting in self.waiting:
                                yield Point(cap=cap, n=n, pops=pops, closed=closed, last=lst, batch=batch, names=names, wait=None, waiting=waiting)

    def names(self, s):
        if self.kind == "PopBatch":
            if s.k == "p" and s.a[0] == 0:
                return "batch"
            nm = self.g.params[0][0].split("@")[0]
            if s.k in ("v", "phi") and str(s.a[0]).split("@")[0] == nm:
                return "batch"
        return None

    @staticmethod
    def result(ret, pt, d):
        if ret is None or ret is VOID:
            return "void"
        if ret is OK:
            return "ok"
        if ret is TRUE or ret is FALSE:
            return "true" if ret is TRUE else "false"
        if ret.k == "call" and last(ret.a[0]).endswith("Error"):
            return last(ret.a[0])
        v = value(ret, pt, d)
        if isinstance(v, bool):
            return "true" if v else "false"
        return v

    def run(self):
        a = self.paths()
        self.ctx.instance("A", "%s at %s" % (self.key, self.g.where()))
        if a.odd:
            self.ctx.note("P28: %s is not decided: %s" % (self.key, a.odd[0]))
            return
        counts = any(x.k == "m" and last(x.a[1]) in WAITING for steps, _, _ in a.paths for st in steps if st[0] == "if" for x in st[1].toks)
        self.waiting = tuple(itertools.product((0, 1, 2), repeat=2)) if counts else ((0, 0),)
        for pt in self.points():
            want = self.spec(pt)
            got = []
            blocked = False
            try:
                for steps, ret, tr in a.paths:
                    pt.wait = None
                    d, o = self.follow(steps, pt)
                    blocked |= o["blocked"]
                    if d is None:
                        continue
                    got.append((self.outcome(ret, pt, d, o), o, d, tr))
            except Unknown as e:
                self.ctx.note("P28: %s is not decided: %s" % (self.key, str(e)[:80]))
                return
            if want == "blocks":
                if got:
                    self.bad(pt, "goes ahead (%s) where it has to wait" % (got[0][0][0],), got[0][3])
                    return
                continue
            if not got:
                self.bad(pt, "waits (or never returns) where it must return %s" % (want[0],), [])
                return
            for out, o, d, tr in got:
                if "waits" in o:
                    self.bad(pt, "stops waiting too early" if o["waits"] else "waits although it can return", tr)
                    return
                if out != want:
                    names = ("result", "elements added", "elements removed", "closed", "last item pushed")
                    diff = ["%s %s instead of %s" % (n, x, y) for n, x, y in zip(names, out, want) if x != y]
                    self.bad(pt, "; ".join(diff), tr)
                    return
                p = self.data(pt, o, d)
                if p:
                    self.bad(pt, p, tr)
                    return

    def outcome(self, ret, pt, d, o):
        if self.bounded:
            push, pop = d["push"], d["pop"]
        else:
            push, pop = max(d["buf"], 0), max(-d["buf"], 0)
            if d["size"] != d["buf"]:
                push = "%s in buffer_ and %s in size_" % (d["buf"], d["size"])
        return (self.result(ret, pt, d), push, pop, pt.closed if d["closed"] is None else d["closed"], pt.last if d["last"] is None else d["last"])

    def data(self, pt, o, d):
        """the element goes to, or comes from, the right place"""
        if self.bounded:
            slots = o.get("slots", [])
            if self.kind == "Push" and d["push"]:
                if not o["stored"]:
                    return "the element is not stored"
                if {j for j, _, _ in slots} != {(pt.pops + pt.n) % pt.cap}:
                    return "the element is stored in slot %s instead of %s" % ([j for j, _, _ in slots], (pt.pops + pt.n) % pt.cap)
            if self.kind in ("Pop", "PopBatch") and d["pop"]:
                want = [(pt.pops + i) % pt.cap for i in range(d["pop"])]
                got = [j for i, (j, _, _) in enumerate(slots) if i == 0 or slots[i - 1] != slots[i]]
                if got != want:
                    return "elements are taken from slots %s instead of %s" % (got, want)
                if o["delivered"] != d["pop"]:
                    return "%d elements are removed but %d handed out" % (d["pop"], o["delivered"])
        else:
            if self.kind == "Pop" and o["fetched"]:
                if o.get("fronts", []) != [0] * len(o.get("fronts", [])) or not o.get("fronts") or o["delivered"] != 1:
                    return "the element handed out is not the one removed"
        return None

    def bad(self, pt, msg, tr):
        self.ctx.violation("A", self.key, self.g.where(), "in the state (%s) %s %s" % (pt, self.kind, msg), tr)


class Ctor(Auto):
    def __init__(self):
        self.vals = {}

    def event(self, st, ev):
        if ev.k == "asg" and ev.op == "init" and fname(base(ev.l)):
            self.vals[fname(base(ev.l))] = ev.r
        return ()


class Tasks(Auto):
    """state: None | task taken | task run; plus flags"""

    def __init__(self, ctx, g, close):
        self.ctx, self.g, self.close = ctx, g, close
        self.seen = False

    def init(self):
        return (None, False, False)  # task, last item marked, drained

    def keep_fact(self, atom):
        return result(atom)

    def v(self, st, where, msg, key):
        self.ctx.violation("B", "%s/%s" % (self.g.name, key), where, msg, trace_of(st))

    def event(self, st, ev):
        task, marked, drained = st.auto
        n = last(ev.fn or "")
        if ev.k == "call" and n == "SetLastItemPushed":
            return (task, True, drained)
        if ev.k == "call" and n in ("operator()", "Call", "Invoke", "invoke", "run") and not ev.fn.startswith("lambda") and ev.recv is not None and "function" in ((ev.raw or {}).get("rty", "") + (ev.fn or "")):
            if task == "run":
                self.v(st, ev.where(), "a task taken from the queue is run twice", "twice")
            elif task is None:
                self.v(st, ev.where(), "a callback is run although no task was taken from the queue", "none")
            self.seen = True
            return ("run", marked, drained)
        if ev.k == "call" and n == "clear" and ev.recv is not None and last(str(ev.recv.a[1]) if ev.recv.k == "m" else "") == "threads_" or (
                ev.k == "asg" and ev.l is not None and ev.l.k == "m" and last(ev.l.a[1]) == "threads_"):
            if not marked:
                self.v(st, ev.where(), "the threads are joined before the queue was told that nothing more will come", "join")
            return (task, marked, "joined")
        return st.auto

    def branch(self, st, atom, val, line, fn):
        task, marked, drained = st.auto
        if any(x.k == "call" and last(x.a[0]) == "Pop" for x in atom.toks):
            if task == "taken":
                self.v(st, fn.where(line), "a task was taken from the queue and never run", "lost")
            if self.close and not marked:
                self.v(st, fn.where(line), "the queue is drained before it was told that nothing more will come", "order")
            return ("taken" if val else None, marked, drained if val else (drained or "drained"))
        return st.auto

    def exit(self, st, ret, ev):
        task, marked, drained = st.auto
        if task == "taken":
            self.v(st, self.g.where(), "a task was taken from the queue and never run", "lost")
        if self.close and drained != "joined":
            self.v(st, self.g.where(), "%s returns without joining the threads" % self.g.name, "nojoin")
        if self.close and not marked:
            self.v(st, self.g.where(), "%s returns without marking the end of the queue" % self.g.name, "nomark")


class Sched(Auto):
    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g

    def init(self):
        return 0

    def event(self, st, ev):
        if ev.k == "call" and last(ev.fn) == "Push":
            return st.auto + 1
        return st.auto

    def exit(self, st, ret, ev):
        if st.auto != 1:
            self.ctx.violation("B", "%s/push" % self.g.name, self.g.where(), "%s puts the task into the queue %d times" % (self.g.name, st.auto), trace_of(st))


def run(ctx):
    ctx.rule("A", "decision table of every queue operation: what it returns, adds, removes and closes in every state, and when it waits")
    ctx.rule("B", "every task put into an executor is run exactly once, also on shutdown")
    ctx.rule("C", "a queue starts empty and open; its storage has the requested capacity")
    prog = ctx.program("instantiate.cc", "support/task_executor.cc", "chunk_store.cc", "sampler.cc")
    done = set()
    for g in sorted(prog.fns.values(), key=lambda g: (g.where(), g.usr)):
        cls = g.cls.split("::")[-1]
        n = last(g.name)
        if cls in ("Queue", "UnboundedQueue") and g.blocks and not g.lam:
            if n in ("Push", "Pop", "PopBatch", "Close", "SetLastItemPushed", "size"):
                if n == "PopBatch" and len(g.params) < 3:
                    continue
                if (cls, n) in done:
                    continue
                done.add((cls, n))
                Check(ctx, prog, g, n, cls == "Queue").run()
            elif n == cls and (cls, n) not in done:
                done.add((cls, n))
                a = Ctor()
                ctx.engine(Engine(prog, g, a, inline=lambda k, ev: False))
                ctx.instance("C", "%s at %s" % (g.name, g.where()))
                for f, want in (("closed_", False), ("last_item_pushed_", False), ("size_", 0), ("pushes_", 0), ("pops_", 0)):
                    v = a.vals.get(f)
                    if v is None:
                        continue
                    ok = (v is FALSE) if want is False else v.k == "lit" and str(v.a[0]) == "0" or v is FALSE
                    if v.k == "lit" and not ok:
                        ctx.violation("C", "%s/%s" % (g.name, f), g.where(), "%s starts as %s" % (f, v), [])
                b = a.vals.get("buffer_")
                if cls == "Queue" and b is not None and not any(x.k == "p" and x.a[0] == 0 for x in b.toks) and b.k == "ctor":
                    ctx.violation("C", "%s/buffer_" % g.name, g.where(), "the storage does not have the requested capacity: %s" % b, [])
        if cls in ("TaskExecutor", "TaskWorker") and g.blocks and not g.lam and (cls, n) not in done and n in ("RunWorker", "Close", "Schedule"):
            done.add((cls, n))
            ctx.instance("B", "%s at %s" % (g.name, g.where()))
            if n == "Schedule":
                ctx.engine(Engine(prog, g, Sched(ctx, g), inline=lambda k, ev: k.cls == g.cls))
            else:
                a = Tasks(ctx, g, n == "Close")
                ctx.engine(Engine(prog, g, a, inline=lambda k, ev: k.cls == g.cls))
                if not a.seen:
                    ctx.note("P28: no callback call recognised in %s" % g.name)
    need = {("Queue", k) for k in ("Push", "Pop", "PopBatch", "Close", "SetLastItemPushed", "size")} | {("UnboundedQueue", k) for k in ("Push", "Pop", "Close", "SetLastItemPushed")}
    miss = need - done
    if miss:
        raise AnalysisBroken("operations not found: %s" % sorted(miss))
