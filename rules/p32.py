"""Extension notifications: per-item transactions (tablelib) and dispatchers."""
from engine.util import *
from rules import tablelib

T = "Table::"
SYNC, ASYNC, REQ = T + "sync_extensions_", T + "async_extensions_", T + "extension_requests_"
HOOK = {"kInsert": "OnInsert", "kSample": "OnSample", "kUpdate": "OnUpdate", "kDelete": "OnDelete", "kMemoryRelease": None}
ALL = frozenset(HOOK)


def is_m(s, f_):
    return isinstance(s, S) and s.k == "m" and s.a[1] == f_


def elem_of(s):
    """list field when s denotes an element of one of the extension lists"""
    for x in s.toks:
        if x.k in ("elem", "idx") and x.a[0].k == "m" and x.a[0].a[1] in (SYNC, ASYNC):
            return x.a[0].a[1]
        if x.k == "call" and last(x.a[0]) in ("begin", "at", "front", "operator[]", "cbegin") and x.a[1] is not None and x.a[1].k == "m" and x.a[1].a[1] in (SYNC, ASYNC):
            return x.a[1].a[1]
    return None


class Dispatch(Auto):
    """state: (possible call types, lists completely visited, hook of the
    current element or None, hooks seen anywhere, enqueued?, signalled?, released?)"""

    def __init__(self, ctx, fn, mode):
        self.ctx, self.fn, self.mode = ctx, fn, mode

    def bad(self, rid, key, where, msg, st):
        self.ctx.violation(rid, self.fn.name + "/" + key, where, "%s: %s" % (self.fn.name, msg), trace_of(st))

    ZERO = dict(types=ALL, done=frozenset(), cur=(), inloop=None, enq=0, sig=None, rel=False, item=None)

    def init(self):
        return frozenset(self.ZERO.items())

    def event(self, st, ev):
        d = dict(st.auto)
        if ev.k == "call":
            n = last(ev.fn)
            if ev.fn.startswith("TableExtension::On") or (ev.recv is not None and n.startswith("On") and elem_of(ev.recv)):
                L = elem_of(ev.recv) if ev.recv is not None else None
                if L is None:
                    return st.auto
                d["cur"] = d["cur"] + ((L, n),) if len(d["cur"]) < 3 else d["cur"]
                if d["rel"]:
                    self.bad("C", "moved", ev.where(), "calls %s with an item whose data has already been handed over" % n, st)
                self.ctx.instance("R" if self.mode == "reset" else ("B" if self.mode == "sync" else "C"), "%s %s" % (self.fn.name, n))
                return frozenset(d.items())
            if ev.recv is not None and is_m(ev.recv, REQ) and n in ("push_back", "emplace_back"):
                d["enq"] = min(2, d["enq"] + 1)
                d["sig"] = False
                a = ev.args
                x = a[0] if len(a) == 1 else None
                if x is not None:
                    x = x.a[3] if x.k == "obj" and len(x.a) > 3 else x
                parts = list(x.a[1:]) if x is not None and x.k in ("init",) else (list(a) if len(a) == 2 else None)
                if parts and len(parts) == 2:
                    if parts[0] is not mk("p", 0):
                        self.bad("B", "enqueue-type", ev.where(), "queues a request of a different type than it was called with", st)
                    if not contains(parts[1], mk("p", 1)):
                        self.bad("B", "enqueue-item", ev.where(), "queues a request for a different item", st)
                return frozenset(d.items())
            if ev.fn in ("absl::CondVar::Signal", "absl::CondVar::SignalAll") and ev.recv.k == "m" and ev.recv.a[1] == T + "extension_work_available_cv_":
                d["sig"] = True
                return frozenset(d.items())
        if ev.k == "decl" and self.mode == "async" and ev.val is not None and ev.val.k == "elem" and elem_of(ev.val) is None:
            self.element_end(st, d)
            d.update(types=ALL, done=frozenset(), cur=(), rel=False, item=1)
            return frozenset(d.items())
        if ev.k == "mv" and self.mode == "async" and any(x.k == "m" and x.a[1] == "ExtensionItem::ref" for x in ev.val.toks):
            d["rel"] = True
            return frozenset(d.items())
        return st.auto

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if atom.k == "eq":
            for x in atom.a:
                if x.k == "enum" and "CallType::" in str(x.a[0]):
                    t = str(x.a[0]).rsplit("::", 1)[-1]
                    d["types"] = d["types"] & {t} if val else d["types"] - {t}
                    if not d["types"]:
                        return DEAD
                    return frozenset(d.items())
        # loop tests over an extension list
        L = None
        for x in atom.a if atom.k in ("eq", "lt") else ():
            for y in x.toks:
                if y.k == "call" and last(y.a[0]) in ("end", "size", "cend") and y.a[1] is not None and y.a[1].k == "m" and y.a[1].a[1] in (SYNC, ASYNC):
                    L = y.a[1].a[1]
        if L is not None:
            self.boundary(st, d, L)
            done = val if atom.k == "eq" else not val
            if done:
                d["done"] = d["done"] | {L}
                d["inloop"] = None
            else:
                d["inloop"] = L
            return frozenset(d.items())
        if atom.k == "nz":
            x = atom.a[0]
            if x.k == "call" and last(x.a[0]) == "empty" and x.a[1] is not None and x.a[1].k == "m" and x.a[1].a[1] in (SYNC, ASYNC) and val:
                d["done"] = d["done"] | {x.a[1].a[1]}
                return frozenset(d.items())
            if x.k == "m" and x.a[1] == T + "has_async_extensions_" and not val:
                d["noasync"] = True
                return frozenset(d.items())
            if x.k == "m" and x.a[1] == T + "extension_worker_" and not val:
                d["noworker"] = True
                return frozenset(d.items())
        if d.get("sig") is False and atom.k in ("eq", "lt"):
            for x, y in (atom.a, atom.a[::-1]):
                if x.k == "call" and last(x.a[0]) == "size" and is_m(x.a[1], REQ) and const_of(y):
                    c = const_of(y)[1]
                    if (atom.k == "eq" and c == 1 and not val) or (atom.k == "lt" and y is atom.a[0] and c >= 1 and val) or (atom.k == "lt" and x is atom.a[0] and c <= 2 and not val):
                        d["sig"] = "more"
                        return frozenset(d.items())
        return st.auto

    def keep_fact(self, a):
        return not any(y.k == "call" and y.a[1] is not None and y.a[1].k == "m" and y.a[1].a[1] in (SYNC, ASYNC) for y in a.toks)

    def want(self, d):
        if self.mode == "reset":
            return {"OnReset"}
        return {HOOK[t] for t in d["types"]}

    def boundary(self, st, d, L):
        """one element of list L has been visited"""
        if d["inloop"] == L:
            hs = [h for l, h in d["cur"] if l == L]
            w = self.want(d)
            rid = "R" if self.mode == "reset" else ("B" if self.mode == "sync" else "C")
            if len(hs) != 1 or w != {hs[0]}:
                if not (not hs and w == {None}):
                    self.bad(rid, "hook", self.fn.where(), "calls [%s] on an extension for a notification of type %s" % (", ".join(hs), "/".join(sorted(d["types"])) if self.mode != "reset" else "reset"), st)
        elif [1 for l, h in d["cur"] if l == L]:
            self.bad("B", "hook", self.fn.where(), "calls an extension hook outside the loop over all extensions", st)
        d["cur"] = tuple(x for x in d["cur"] if x[0] != L)

    def complete(self, st, d, L, rid):
        if L not in d["done"]:
            w = self.want(d) - {None}
            if w and (w == self.want(d)):
                self.bad(rid, "skipped", self.fn.where(), "does not notify all %s extensions of type %s" % ("synchronous" if L == SYNC else "asynchronous", "/".join(sorted(d["types"])) if self.mode != "reset" else "reset"), st)

    def element_end(self, st, d):
        if d.get("item"):
            self.complete(st, d, ASYNC, "C")
            d["item"] = None

    def rebind(self, st, sym):
        return st.auto

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        if self.mode == "sync":
            self.complete(st, d, SYNC, "B")
            self.ctx.instance("B", self.fn.name + " enqueue")
            need = not d.get("noworker")
            if need and d.get("noasync") and not (d["types"] & {"kDelete", "kMemoryRelease"}):
                need = None
            if need is True and d["enq"] != 1:
                self.bad("B", "enqueue", self.fn.where(), "queues the notification %d times for the extension worker" % d["enq"], st)
            if d["enq"] > 1:
                self.bad("B", "enqueue2", self.fn.where(), "queues the notification more than once", st)
            if d["enq"] and d["sig"] is False:
                self.bad("B", "wake", self.fn.where(), "queues a notification without waking the extension worker", st)
        elif self.mode == "reset":
            if status_ok_on_exit(self.eng, st, ret) is not False:
                for L in (SYNC, ASYNC):
                    self.complete(st, d, L, "R")


def run(ctx):
    ctx.rule("A", "for every item, the extension notifications issued while the lock is held are exactly: kInsert for an insert, kUpdate for an applied priority update, kSample for a sample, kDelete for a removal (in that order)")
    ctx.rule("B", "ExtensionOperation calls exactly the hook matching the notification on every synchronous extension, and queues it once (same type and item), waking the extension worker, unless nothing asynchronous depends on it")
    ctx.rule("C", "the extension worker calls exactly the matching hook on every asynchronous extension for every queued request, before the item's data is handed over")
    ctx.rule("R", "Reset calls OnReset once on every synchronous and asynchronous extension")
    prog, _ = tablelib.explore(ctx, "P32")
    for n, mode in (("ExtensionOperation", "sync"), ("ExtensionsWorkerLoop", "async"), ("Reset", "reset")):
        g = prog.fn(T + n)
        a = Dispatch(ctx, g, mode)
        e = Engine(prog, g, a, inline=lambda h, ev: h.lam or h.name.startswith("Table::") or not h.cls)
        a.eng = e
        ctx.engine(e)
    ctx.need("B", 5)
    ctx.need("C", 4)
