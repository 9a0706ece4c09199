"""TrajectoryWriter: errors stay, a flush that returns OK has seen every item confirmed."""
from engine.util import *
from engine.ir import AnalysisBroken
from rules.p18 import base, mine
from rules.p16 import callee, calls, dict_, scan
from rules.p22 import front, queue_of, refs_of, worker

STATUS, FLIGHT, QUEUE = "unrecoverable_status_", "in_flight_items_", "write_queue_"
DATA = ("Append", "AppendPartial", "CreateItem")
FLUSH = ("Flush", "EndEpisode")


class Unknown(Exception):
    pass


def fld(s):
    s = base(s)
    return last(str(s.a[1])) if s is not None and s.k == "m" else None


def value(s, e):
    """value of an expression in a state e(w: queued, f: in flight, front: the first queued item is in flight, err, bound)"""
    s0, s = s, base(s)
    if s is TRUE or s is FALSE:
        return s is TRUE
    if s.k == "lit":
        try:
            return int(str(s.a[0]))
        except ValueError:
            raise Unknown(s)
    if s.k == "okp" and fld(s.a[0]) == STATUS:
        return not e["err"]
    if s.k == "call":
        n = last(s.a[0])
        if n in ("size", "empty") and fld(s.a[1]) in (QUEUE, FLIGHT):
            z = e["w"] if fld(s.a[1]) == QUEUE else e["f"]
            return z == 0 if n == "empty" else z
        if n in ("contains", "count") and fld(s.a[1]) == FLIGHT and calls(s, "key"):
            return e["w"] > 0 and e["front"]
        if n in ("max", "min") and len(s.a) >= 4:
            v = [value(x, e) for x in s.a if isinstance(x, S)][-2:]
            return max(v) if n == "max" else min(v)
        if n == "ok" and fld(s.a[1]) == STATUS:
            return not e["err"]
    if s.k in ("v", "p", "phi") and isinstance(s.a[0], (str, int)):
        if e.get("var") is None or e["var"] == str(s.a[0]):
            e["var"] = str(s.a[0])
            return e["bound"]
        raise Unknown(s)
    if s.k in ("nz", "bool"):
        return bool(value(s.a[0], e))
    if s.k == "eq":
        if any(callee(base(x), "end", "cend") for x in s.a) and any(callee(base(x), "find") and fld(base(x).a[1]) == FLIGHT for x in s.a):
            return not (e["w"] > 0 and e["front"])
        return value(s.a[0], e) == value(s.a[1], e)
    if s.k == "lt":
        return value(s.a[0], e) < value(s.a[1], e)
    if s.k == "cond":
        return value(s.a[1] if value(s.a[0], e) else s.a[2], e)
    if s.k == "op":
        o = s.a[0]
        if o in ("&&", "||"):
            a = bool(value(s.a[1], e))
            return bool(value(s.a[2], e)) if a == (o == "&&") else a
        v = [value(x, e) for x in s.a[1:]]
        f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
             ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
        if len(v) == 2 and o in f:
            return f[o](*v)
        if len(v) == 1 and o in ("!", "-", "+"):
            return {"!": not v[0], "-": -v[0], "+": v[0]}[o]
    raise Unknown(s0)


STATES = [dict(w=w, f=f, front=fr, err=err, bound=b) for w in range(4) for f in range(4) for fr in (False, True)
          for err in (False, True) for b in range(5) if not fr or w and f]


def condition(ctx, prog, lam, fn):
    """the condition of a flush: a failure, or at most bound items queued or waiting for their confirmation"""
    t, _ = bool_paths(prog, lam)
    unknown = set()
    var = None
    for e0 in STATES:
        for facts, v in t:
            e = dict(e0)
            e["var"] = var
            hit = True
            for a, val in facts.items():
                try:
                    if bool(value(a, e)) != val:
                        hit = False
                        break
                except Unknown as x:
                    unknown.add(repr(a))
            var = var or e["var"]
            if not hit:
                continue
            want = e0["err"] or e0["w"] + e0["f"] - (1 if e0["front"] else 0) <= e0["bound"]
            if v != want:
                what = "the writer has failed" if e0["err"] else "%d items are queued, %d are unconfirmed%s and %d may stay" % (e0["w"], e0["f"], " (one of them is the first of the queue)" if e0["front"] else "", e0["bound"])
                ctx.violation("B", "%s/condition" % last(fn), lam.where(), "the wait of the flush %s although %s" % ("ends" if v else "goes on", what), [])
                return None
    for u in sorted(unknown):
        ctx.note("condition of %s: %s is taken to be either" % (fn, u))
    ctx.count("condition states", len(STATES))
    return var


def lambda_of(prog, s):
    for x in s.toks if s is not None else ():
        if x.k == "lam":
            for g in prog.fns.values():
                if g.lam and g.blocks and (g.usr == x.a[0] or str(x.a[0]) in g.usr or g.usr in str(x.a[0])):
                    return g
    return None


def touches(prog, g, what, depth=3):
    if any(what in repr(e) for e in g.events()):
        return True
    names = {last(c.get("fn") or c.get("name") or "") for c in g.calls()}
    return depth > 0 and any(touches(prog, h, what, depth - 1) for h in prog.fns.values() if h.blocks and not h.lam and last(h.cls or "") == "TrajectoryWriter" and last(h.name) in names and h is not g)


def isawait(n):
    return n.startswith("Await") or n.startswith("LockWhen") or n.startswith("ReaderLockWhen")


class Public(Auto):
    def __init__(self, ctx, prog, g, lams):
        self.ctx, self.prog, self.g, self.lams = ctx, prog, g, lams
        self.n = {}

    def init(self):
        # seen: the recorded error was found to be OK (after the last wait); held: in this critical section
        # waited: the wait ended because of its condition; queued: items put into the queue
        return dict_(seen=False, held=False, waited=False, queued=0, item=None, ref=None, looped=False, num=False, bound=None)

    def keep_fact(self, atom):
        return True

    def bad(self, rid, key, w, msg, st):
        self.ctx.violation(rid, "%s/%s" % (last(self.g.name), key), w, msg, trace_of(st))

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k == "okp" and fld(atom.a[0]) == STATUS:
            s["seen"] = s["held"] = val
            if val:
                self.n["seen"] = 1
            return dict_(**s)
        if atom.k in ("nz", "bool") and callee(base(atom.a[0]), *[n for n in ("AwaitWithTimeout", "AwaitWithDeadline", "LockWhenWithTimeout", "LockWhenWithDeadline")]):
            s["waited"] = val
            return dict_(**s)
        if atom.k in ("nz", "bool") and callee(base(atom.a[0]), "IsReady"):
            if val and s["ref"] == "open":
                s["ref"] = "ok"
            return dict_(**s)
        o = scan(atom)
        w = "%s:%s" % (fn.where().rsplit(":", 1)[0], line)
        if o is not None:
            c, leave = base(o[0]), val == o[1]
            if refs_of(c) and any(queue_of(x) for x in c.toks):
                if s["ref"] == "open":
                    self.bad("B", "unfinished", w, "the data of an item that is to be sent is not finished", st)
                s["ref"] = None if leave else "open"
                s["item"] = "done" if leave else "refs"
                if leave:
                    s["looped"] = s["looped"] or True
                return dict_(**s)
            if queue_of(c):
                if s["item"] in ("open", "refs"):
                    self.bad("B", "unfinished", w, "an item's data is not looked at", st)
                s["item"] = None if leave else "open"
                s["num"] = False
                if leave:
                    s["looped"] = True
                return dict_(**s)
        if atom.k in ("lt", "eq"):
            s["num"] = True
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        w = ev.where()
        n = last(ev.fn or "")
        if ev.k == "call":
            if isawait(n) and ev.args:
                lam = lambda_of(self.prog, ev.val) or next((x for x in (lambda_of(self.prog, y) for y in ev.args) if x), None)
                if lam is not None and touches(self.prog, lam, FLIGHT):
                    self.n["wait"] = 1
                    self.lams[lam.usr] = (lam, ev.raw.get("in") or self.g.name)
                    if s["ref"] == "open":
                        self.bad("B", "unfinished", w, "the data of an item that is to be sent is not finished", st)
                    if not (s["looped"] or s["num"]):
                        self.bad("B", "unfinished", w, "the flush waits without having looked at the items' data", st)
                    elif s["item"] in ("open", "refs") and not s["num"]:
                        self.bad("B", "unfinished", w, "the data of some items that are to be sent is not looked at", st)
                    s["seen"] = s["held"] = False
                    s["waited"] = n in ("Await", "LockWhen")
                    s["item"] = s["ref"] = None
                    s["looped"] = s["num"] = False
            elif n == "Flush" and ev.recv is not None and (calls(ev.recv, "chunker") or refs_of(ev.recv)):
                self.n["force"] = 1
                if s["ref"] == "open":
                    s["ref"] = "ok"
            elif n == "Update" and fld(ev.recv) == STATUS:
                s["held"] = s["seen"] = False
            elif n in ("push_back", "emplace_back") and queue_of(ev.recv):
                s["queued"] = min(s["queued"] + 1, 2)
        elif ev.k == "asg" and fld(ev.l) == STATUS and ev.raw.get("op") != "init":
            self.n["asg"] = 1
            if not error(st, ev.r) and not s["held"]:
                self.bad("C", "overwritten", w, "the recorded error may be overwritten by success", st)
            s["held"] = s["seen"] = False
        elif ev.k == "unlock" and fld(ev.val) == "mu_":
            s["held"] = False
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        r = status_ok_on_exit(None, st, ret)
        if r is False or fld(ret) == STATUS and not s["waited"] and last(self.g.name) in DATA and not s["queued"]:
            return
        okret = r is True or fld(ret) != STATUS
        n = last(self.g.name)
        if okret and not s["seen"]:
            self.bad("A", "error", self.g.where(), "success is reported although the writer may have failed", st)
        if n in FLUSH and not s["waited"]:
            self.bad("B", "unconfirmed", self.g.where(), "success is reported without having waited for the confirmation of the items", st)
        if n == "CreateItem" and s["queued"] != 1:
            self.bad("A", "item", self.g.where(), "success is reported although the item was %s" % ("queued twice" if s["queued"] else "not queued"), st)


def error(st, r):
    """r is certainly an error"""
    if r is None:
        return False
    if status_ok_on_exit(None, st, r) is False:
        return True
    x = base(r)
    return x is not None and status_ok_on_exit(None, st, x) is False


class Loop(Auto):
    """runs the stream worker until it failed for good"""

    def __init__(self, ctx, g):
        self.ctx, self.g, self.n = ctx, g, 0

    def init(self):
        return dict_(run=False, res=None, ok=None, gone=None, closed=None, recorded=False)

    def keep_fact(self, atom):
        return True

    def rebind(self, st, sym):
        from engine.explore import subst
        s = dict(st.auto)
        if isinstance(s["res"], S):
            s["res"] = subst(s["res"], sym, mk("prev", sym))
        return dict_(**s)

    def bad(self, rid, key, w, msg, st):
        self.ctx.violation(rid, "StreamWorker/%s" % key, w, msg, trace_of(st))

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k == "okp" and s["res"] is not None and base(atom.a[0]) is s["res"]:
            s["ok"] = val
        elif atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "IsUnavailable"):
                s["gone"] = val
                if val:
                    s["ok"] = False
            elif fld(x) == "closed_":
                s["closed"] = val
        elif atom.k == "eq" and any("Unavailable" in repr(x) for x in atom.a):
            s["gone"] = val
            if val:
                s["ok"] = False
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        if ev.k == "call" and last(ev.fn or "") == "RunStreamWorker":
            self.n += 1
            if s["run"] and not s["recorded"] and s["ok"] is not True and s["gone"] is not True:
                self.bad("C", "swallowed", ev.where(), "an error of the stream that is not transient is not recorded", st)
            s.update(run=True, res=base(ev.val), ok=None, gone=None, closed=None, recorded=False)
        elif ev.k == "asg" and fld(ev.l) == STATUS:
            good = error(st, ev.r) or s["ok"] is False and base(ev.r) is s["res"]
            if not good:
                self.bad("C", "overwritten", ev.where(), "what is recorded as the writer's error may be success", st)
            s["recorded"] = True
        elif ev.k == "call" and last(ev.fn or "") == "Update" and fld(ev.recv) == STATUS:
            s["recorded"] = bool(ev.args) and (error(st, ev.args[0]) or s["ok"] is False and base(ev.args[0]) is s["res"])
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if not s["recorded"]:
            self.bad("C", "silent", self.g.where(), "the stream worker ends without recording why", st)


class Confirm(Auto):
    """an item stops to be in flight when its confirmation arrives"""

    def __init__(self, ctx, g):
        self.ctx, self.g, self.n = ctx, g, 0

    def init(self):
        return frozenset()

    def keep_fact(self, atom):
        return False

    def branch(self, st, atom, val, line, fn):
        if atom.k in ("nz", "bool") and callee(base(atom.a[0]), "Read"):
            return frozenset({"read"}) if val else frozenset()
        return st.auto

    def event(self, st, ev):
        if ev.k == "call" and fld(ev.recv) == FLIGHT and last(ev.fn or "") in ("erase", "clear", "swap", "extract"):
            self.n += 1
            a = ev.args[0] if ev.args else None
            if last(ev.fn) == "erase" and a is not None and calls(a, "keys"):
                if "read" not in st.auto:
                    self.bad(st, ev, "a confirmation is used that was not received")
            elif last(ev.fn) == "erase" and a is not None and calls(a, "key"):
                pass        # the worker's own item; see worker()
            else:
                self.bad(st, ev, "items stop to be in flight without having been confirmed")
        elif ev.k == "asg" and fld(ev.l) == FLIGHT and ev.raw.get("op") != "init":
            self.bad(st, ev, "items stop to be in flight without having been confirmed")
        return st.auto

    def bad(self, st, ev, msg):
        self.ctx.violation("D", "%s/unconfirmed" % last(self.g.name), ev.where(), msg, trace_of(st))


def run(ctx):
    ctx.rule("A", "Append, CreateItem, Flush and EndEpisode return OK only after they found that no error is recorded; CreateItem only with the item queued once.")
    ctx.rule("B", "Flush and EndEpisode return OK only after the wait for the confirmations ended, and found no error afterwards; the wait ends exactly when an error is recorded or at most the given number of items is queued or unconfirmed; data of the items that is not finished is finished before.")
    ctx.rule("C", "A recorded error is never replaced by success; the stream worker records every error that is not transient and why it ends.")
    ctx.rule("D", "An item counts as unconfirmed from before it is written until its confirmation was received.")
    prog, top, a = worker(ctx, "P23")
    for k in ("fly", "write"):
        if not a.n.get(k):
            raise AnalysisBroken("%s: no %s seen" % (top.name, k))
        ctx.instance("D", "%s: %s" % (last(top.name), k))
    lams = {}
    inl = lambda k, ev: (k.lam or k.cls == "" or last(k.cls) == "TrajectoryWriter") and last(k.name) not in ("FromGrpcStatus", "StartThread")
    for n in DATA + FLUSH:
        gs = [g for g in prog.fns.values() if g.blocks and last(g.cls) == "TrajectoryWriter" and not g.lam and last(g.name) == n]
        if not gs:
            raise AnalysisBroken("TrajectoryWriter::%s not found" % n)
        for g in gs:
            p = Public(ctx, prog, g, lams)
            ctx.engine(Engine(prog, g, p, inline=inl))
            ctx.instance("A", g.name)
            if n in FLUSH:
                ctx.instance("B", g.name)
                if n == "EndEpisode":
                    bound(ctx, prog, g)
            if p.n.get("asg"):
                ctx.instance("C", g.name)
    if not lams:
        ctx.violation("B", "Flush/condition", "trajectory_writer.cc", "no wait for confirmations was found", [])
    for lam, fn in lams.values():
        condition(ctx, prog, lam, fn)
        ctx.instance("B", "condition at %s" % lam.where())
    loops = [g for g in prog.fns.values() if g.blocks and any(last(c.get("fn") or c.get("name") or "") == last(top.name) for c in g.calls())]
    if not loops:
        raise AnalysisBroken("nothing calls %s" % top.name)
    for g in loops:
        l = Loop(ctx, g)
        ctx.engine(Engine(prog, g, l, inline=lambda k, ev: k.lam))
        ctx.instance("C", g.where())
    # everything else that assigns the status
    done = set(DATA + FLUSH)
    for g in prog.fns.values():
        if not g.blocks or g in loops or last(g.name) in ("TrajectoryWriter", "~TrajectoryWriter") or last(g.name) in done or not ("TrajectoryWriter" in (g.cls or "") or g.lam):
            continue
        if any(FLIGHT in repr(e) for e in g.events()):
            c = Confirm(ctx, g)
            ctx.engine(Engine(prog, g, c, inline=lambda k, ev: False))
            if c.n:
                ctx.instance("D", g.where())


class Bound(Auto):
    """an episode end waits for everything"""

    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "call" and last(ev.fn or "") in ("FlushLocked", "Flush") and ev.recv is not None and ev.recv.k == "this" and ev.args:
            x = base(ev.args[0])
            if x is not None and x.k == "lit" and str(x.a[0]) != "0":
                self.ctx.violation("B", "%s/bound" % last(self.g.name), ev.where(), "the end of an episode leaves items unconfirmed", trace_of(st))
        return ()


def bound(ctx, prog, g):
    ctx.engine(Engine(prog, g, Bound(ctx, g), inline=lambda k, ev: False))
