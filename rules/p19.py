"""An item is confirmed exactly when the table accepted it, and counts as confirmed only then."""
from engine.explore import result
from engine.util import *
from engine.ir import AnalysisBroken
from rules.p18 import base, mine
from rules import p16
from rules.p16 import callee, calls, dict_, scan

SHRINK = ("erase", "clear", "swap", "extract", "erase_if", "pop_front", "pop_back")


class Client(Auto):
    """field: what counts or holds the items that wait for their confirmation"""

    def __init__(self, ctx, g, field, rid):
        self.ctx, self.g, self.field, self.rid = ctx, g, field, rid
        self.n = {}

    def init(self):
        # read: the response was received; sent: None/True/False result of the last write; key: the item that is on its way
        # few: no item is unconfirmed
        return dict_(read=False, sent=None, key=None, few=None)

    def keep_fact(self, atom):
        return result(atom)

    def bad(self, key, ev, msg, st):
        self.ctx.violation(self.rid, "%s/%s" % (last(self.g.name) if not self.g.lam else "lambda", key), ev.where(), msg, trace_of(st))

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "Read"):
                s["read"] = val
            elif callee(x, "Write", "SendItem", "WriteLast"):
                s["sent"] = val
        if atom.k == "lt":
            a, b = (base(x) for x in atom.a)
            if mine(b) == self.field and a.k == "lit" and str(a.a[0]) == "0":
                s["few"] = not val
            elif mine(a) == self.field and b.k == "lit" and str(b.a[0]) == "1":
                s["few"] = val
        if atom.k == "eq" and any(mine(base(x)) == self.field for x in atom.a) and any(base(x).k == "lit" and str(base(x).a[0]) == "0" for x in atom.a):
            s["few"] = val
        return dict_(**s)

    def response(self, x):
        """something that is taken from the keys of a response"""
        return x is not None and bool(calls(x, "keys", "keys_size"))

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "call":
            if ev.recv is not None and mine(ev.recv) == self.field:
                if n in ("insert", "emplace") and ev.args:
                    s["key"] = base(ev.args[0])
                    self.n["add"] = self.n.get("add", 0) + 1
                elif n in SHRINK:
                    k = base(ev.args[0]) if ev.args else None
                    if n != "erase":
                        self.bad("dropped", ev, "items count as confirmed although the server did not confirm them", st)
                    elif self.response(k):
                        self.n["confirm"] = self.n.get("confirm", 0) + 1
                        if not s["read"]:
                            self.bad("unread", ev, "items count as confirmed because of a response that was not received", st)
                    elif s["sent"] is False and (s["key"] is None or s["key"] is k):
                        self.n["failed"] = self.n.get("failed", 0) + 1
                    else:
                        self.bad("unconfirmed", ev, "an item counts as confirmed although the server did not confirm it", st)
            if n in ("Read",):
                s["read"] = False
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == self.field:
            op = ev.raw.get("op")
            if op == "init":
                return dict_(**s)
            v = base(ev.r) if ev.r is not None else None
            if op in ("++", "+="):
                self.n["add"] = self.n.get("add", 0) + 1
                if s["sent"] is not True:
                    self.bad("not-sent", ev, "a confirmation is expected for an item that was not sent", st)
            elif self.response(v):
                self.n["confirm"] = self.n.get("confirm", 0) + 1
                if not s["read"]:
                    self.bad("unread", ev, "items count as confirmed because of a response that was not received", st)
                if op == "-=" and not callee(v, "keys_size", "size"):
                    self.bad("count", ev, "the number of confirmed items is not the number of keys of the response", st)
            elif v is not None and v.k == "lit" and str(v.a[0]) == "0" and s["few"] is True:
                pass
            elif op == "--" and s["read"]:
                # one for each key of the response
                self.n["confirm"] = self.n.get("confirm", 0) + 1
                if not s.get("each"):
                    self.bad("count", ev, "the number of confirmed items is not the number of keys of the response", st)
            else:
                self.bad("unconfirmed", ev, "items count as confirmed although the server did not confirm them", st)
        return dict_(**s)


class Each(Client):
    """also knows loops over the keys of a response"""

    def init(self):
        return dict_(read=False, sent=None, key=None, few=None, each=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(Client.branch(self, st, atom, val, line, fn))
        o = scan(atom)
        if o is not None and self.response(o[0]):
            s["each"] = val != o[1]
        return dict_(**s)


def touches(prog, g, field, cls):
    for e in g.events():
        t = repr(e)
        if "::" + field in t and e["k"] in ("call", "asg"):
            return True
    return False


def run(ctx):
    ctx.rule("A", "On every path of both services: one confirmation with the key of the item exactly when it was asked for and after the table accepted the item; a refusal ends the stream with an error.")
    ctx.rule("B", "TrajectoryWriter: an item stops being in flight only for a key of a response that was read, or because writing it failed.")
    ctx.rule("C", "Writer: the number of unconfirmed items grows by one after an item was written and shrinks by the number of keys of a response that was read.")
    for g, a in p16.paths(ctx, "P19"):
        for k in ("insert", "confirm", "want"):
            if not a.n.get(k):
                raise AnalysisBroken("%s: no %s seen" % (g.name, k))
        ctx.instance("A", last(g.cls) or last(g.name))
    for tu, cls, field, rid in (("trajectory_writer.cc", "TrajectoryWriter", "in_flight_items_", "B"), ("writer.cc", "Writer", "num_items_in_flight_", "C")):
        prog = ctx.program(tu)
        mine_ = [g for g in prog.fns.values() if g.blocks and (last(g.cls) == cls or g.lam)]
        direct = [g for g in mine_ if touches(prog, g, field, cls)]
        if not direct:
            raise AnalysisBroken("%s::%s is not used" % (cls, field))
        names = {g.name for g in direct if not g.lam}
        # functions that reach it, up to those nobody of the class calls
        grow = True
        reach = set(names)
        callers = {}
        for g in mine_:
            for c in g.calls():
                callers.setdefault(c.get("fn") or c.get("name") or "", []).append(g)
        roots, seen, todo = [], set(), list(direct)
        while todo:
            g = todo.pop()
            if g.usr in seen:
                continue
            seen.add(g.usr)
            up = [c for c in callers.get(g.name, []) if c.usr != g.usr] if not g.lam else []
            if up and g.access != "public":
                todo += up
            else:
                roots.append(g)
        total = {}
        for g in sorted(roots, key=lambda f: f.name):
            a = Each(ctx, g, field, rid)
            e = Engine(prog, g, a, inline=lambda k, ev: k.lam or last(k.cls) == cls and any(h.usr == k.usr for h in direct) or last(k.cls) == cls and k.usr in seen)
            ctx.engine(e)
            for k, v in a.n.items():
                total[k] = total.get(k, 0) + v
            if a.n:
                ctx.instance(rid, g.name + (" (lambda)" if g.lam else ""))
        for k in ("add", "confirm"):
            if not total.get(k):
                raise AnalysisBroken("%s::%s: no %s seen" % (cls, field, k))
