"""Checkpoint contents: every field saved from the state it is restored to."""
import os
import re
from engine.util import *
from engine.ir import AnalysisBroken
from engine import util as _u
from rules.p11 import over
from rules.p12 import status_test, is_ok
from rules.p14 import ev_const, fact_env

TC, RC = "PriorityTableCheckpoint", "RateLimiterCheckpoint"
LOAD = "TFRecordCheckpointer::Load"


def strip(s):
    while s is not None and s.k in ("cast", "bool"):
        s = s.a[-1]
    return s


def member(s):
    """name of the member of *this an expression is exactly the value of"""
    s = strip(s)
    if s is not None and s.k == "call" and last(s.a[0]) in ("value", "options", "operator*", "CheckpointReader", "get", "load"):
        s = strip(s.a[1])
    if s is not None and s.k == "deref":
        s = s.a[0]
    if s is not None and s.k == "m" and s.a[0] is THIS:
        return last(str(s.a[1]))
    return None


def proto_fields(repo, msg):
    t = open(os.path.join(repo, "reverb/cc/checkpointing/checkpoint.proto")).read()
    t = re.sub(r"//[^\n]*", "", t)
    m = re.search(r"message %s\s*{(.*?)\n}" % msg, t, re.S)
    if not m:
        raise AnalysisBroken("message %s not found in checkpoint.proto" % msg)
    out = [f_ for rep, f_ in re.findall(r"(repeated\s+)?[\w.]+\s+(\w+)\s*=\s*\d+", re.sub(r"reserved[^;]*;", "", m.group(1)))]
    return out


class Setters(Auto):
    """last value given to each field of a message of class `msg`"""

    def __init__(self, msg):
        self.msg, self.out = msg, []
        self.where = {}

    def init(self):
        return ()

    def put(self, st, f_, v, ev):
        self.where[f_] = ev.where()
        return tuple(x for x in st.auto if x[0] != f_) + ((f_, v),)

    def event(self, st, ev):
        if ev.k == "call" and ev.fn.startswith(self.msg + "::"):
            n = last(ev.fn)
            if n.startswith("set_allocated_"):
                return self.put(st, n[14:], ev.args[0], ev)
            if n.startswith("set_"):
                return self.put(st, n[4:], ev.args[0], ev)
            if n.startswith("clear_"):
                return tuple(x for x in st.auto if x[0] != n[6:])
            if n in ("Clear",):
                return ()
        t = None
        if ev.k == "asg" and ev.op in ("=", "init"):
            t, v = ev.l, ev.r
        elif ev.k == "call" and last(ev.fn) in ("operator=", "CopyFrom", "MergeFrom", "Swap", "swap") and ev.recv is not None and ev.args:
            t, v = ev.recv, ev.args[0]
        if t is not None:
            t = t.a[0] if t.k == "deref" else t
            if t.k == "call" and t.a[0].startswith(self.msg + "::mutable_"):
                return self.put(st, last(t.a[0])[8:], v, ev)
        return st.auto

    def exit(self, st, ret, ev):
        self.out.append((dict(st.facts), dict(st.auto), st))


def saved(ctx, prog, g, msg, fields, special, **kw):
    """field -> member, reporting fields that are not saved from exactly one member"""
    a = Setters(msg)
    ctx.engine(Engine(prog, g, a, **kw))
    res = {}
    for f_ in fields:
        if f_ in special:
            continue
        ctx.instance("A", "%s.%s" % (msg, f_))
        for facts, vals, st in a.out:
            if f_ not in vals:
                absent = any(not v and at.k == "nz" and at.a[0].k == "call" and last(at.a[0].a[0]) in ("has_value", "operator bool") or (not v and at.k in ("nz", "bool") and at.a[0].k == "m") for at, v in facts.items())
                if absent and any(f_ in o[1] for o in a.out):
                    continue
                ctx.violation("A", "%s.%s/unset" % (msg, f_), g.where(), "%s can leave %s unset" % (g.name, f_), trace_of(st))
                continue
            m = member(vals[f_])
            if m is None:
                ctx.violation("A", "%s.%s/value" % (msg, f_), a.where[f_], "%s saves %s, which is not the value of a member, as %s" % (g.name, vals[f_], f_), trace_of(st))
            else:
                res.setdefault(f_, set()).add(m)
    return res, a.where


class Fields(Auto):
    """final values of the members assigned by a constructor or setter"""

    def __init__(self, cls):
        self.cls, self.out = cls, []

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "asg" and ev.l is not None and ev.l.k == "m" and ev.l.a[0] is THIS and ev.op in ("init", "=") and ev.r is not None:
            n = last(str(ev.l.a[1]))
            return tuple(x for x in st.auto if x[0] != n) + ((n, ev.r),)
        if ev.k == "asg" and ev.l is not None and ev.l.k == "m" and ev.l.a[0] is THIS:
            n = last(str(ev.l.a[1]))
            return tuple(x for x in st.auto if x[0] != n) + ((n, None),)
        if ev.k == "ctor" and ev.fn == self.cls + "::" + last(self.cls):
            return st.auto + (("->", tuple(ev.args)),)
        return st.auto

    def exit(self, st, ret, ev):
        self.out.append(dict(st.auto))


def assigned(ctx, prog, h):
    """members set to exactly parameter i on every path: {i: {members}}; plus the delegated call"""
    a = Fields(h.cls)
    ctx.engine(Engine(prog, h, a))
    return a.out


def param_members(outs):
    res = {}
    for o in outs:
        for n, v in o.items():
            if n == "->" or v is None:
                continue
            v = strip(v)
            if v is not None and v.k == "p":
                res.setdefault(v.a[0], {}).setdefault(n, 0)
                res[v.a[0]][n] += 1
    return {i: {n for n, c in d.items() if c == len(outs)} for i, d in res.items()}


def loop(atom):
    """loop condition -> (container, value that leaves, iterator or index); also over the elements of a repeated field"""
    o = over(atom)
    if o:
        rest = [x for x in atom.a if o[0] not in x.toks or x.k == "phi"]
        return o[0], o[1], rest[0] if rest else None
    if atom.k == "lt":
        x = strip(atom.a[1])
        if x.k == "call" and last(x.a[0]).endswith("_size") and x.a[1] is not None:
            return x, False, atom.a[0]
    return None


def within(s, c, it):
    """is s (part of) the current element of a loop over c with iterator it?"""
    return c in s.toks or (it is not None and it in s.toks)


def field_of(c, msg):
    n = getter(c, msg)
    return n[:-5] if n and n.endswith("_size") else n


def entry(s):
    """the element of a container that an expression names: (container, index)"""
    s = strip(s)
    if s is None:
        return None
    if s.k == "deref":
        return entry(s.a[0])
    if s.k == "idx":
        c = s.a[0]
        return (c.a[0] if c.k == "deref" else c), strip(s.a[1])
    if s.k == "call" and last(s.a[0]) in ("at", "operator[]") and len(s.a) >= 4:
        c = s.a[1]
        return (c.a[0] if c.k == "deref" else c), strip(s.a[-1])
    return None


def getter(s, msg):
    s = strip(s)
    if s is not None and s.k == "call" and s.a[0].startswith(msg + "::") and s.a[1] is not None:
        return last(s.a[0]).replace("mutable_", "").replace("release_", "")
    return None


def getters(s, msg):
    return sorted(set(last(x.a[0]).replace("mutable_", "").replace("release_", "") for x in s.toks if x.k == "call" and x.a[0].startswith(msg + "::") and not last(x.a[0]).startswith("has_") and len(x.a) <= 3))


class Restore(Auto):
    """construction of a table from its checkpoint and the restoration of items and chunks"""

    def __init__(self, ctx, where):
        self.ctx, self.where = ctx, where
        self.args, self.sets = {}, {}
        self.tables = 0

    def init(self):
        return frozenset()

    def keep_fact(self, atom):
        return loop(atom) is None and atom.k != "okp"

    def V(self, rid, key, where, msg, st):
        self.ctx.violation(rid, key, where, msg, trace_of(st))

    def event(self, st, ev):
        a = set(st.auto)
        ty = (ev.raw or {}).get("ty", "")
        if ev.k == "call":
            n = last(ev.fn)
            if n.startswith("ParseFrom") and ev.recv is not None:
                if TC in str(kind(ev.recv)):
                    self.unplaced(st, a, ev.where())
                    a = {x for x in a if x[0] not in ("table", "allitems", "match")}
                if "ChunkData" in str(kind(ev.recv)):
                    self.unstored(st, a, ev.where())
                    a.add(("chunk", ev.recv, "parsed"))
            if ev.fn == "ChunkStore::Insert" and ev.args:
                for x in list(a):
                    if x[0] == "chunk" and x[2] == "parsed" and x[1] in ev.args[0].toks:
                        a.discard(x)
                        a.add(("chunk", x[1], ev.val))
            if n == "make_shared" and re.search(r"\bTable\b", ty) and "RateLimiter" not in ty.split("Table")[0]:
                self.newtable(st, a, ev)
            if n in ("emplace", "insert", "insert_or_assign", "try_emplace") and ev.recv is not None and len(ev.args) == 2:
                self.store(st, a, ev.recv, ev.args[0], ev.args[1])
            if n in ("push_back", "emplace_back") and ev.recv is not None and ev.recv.k == "m" and last(str(ev.recv.a[1])) == "chunks":
                for x in ev.args[0].toks:
                    if x.k == "elem" or x.k == "idx":
                        a.add(("pushed", ev.recv.a[0], x))
                a.add(("push", ev.recv.a[0], ev.args[0]))
            if ev.fn == "Table::InsertCheckpointItem":
                self.item(st, a, ev)
            if ev.recv is not None and any(x[0] == "table" and x[1] is ev.recv for x in a) and ev.fn.startswith("Table::") and ev.args:
                for f_ in getters(ev.args[0], TC):
                    self.sets.setdefault(ev.fn, []).append((ev.args[0], f_, ev.where(), ev.args))
                    a.add(("set", f_))
            if n in ("swap", "reset"):
                for v, slot in ((ev.args[0] if ev.args else None, ev.recv), (ev.recv, ev.args[0] if ev.args else None)):
                    self.place(st, a, v, slot, ev.where())
            if n == "swap" and len(ev.args) == 2:
                self.place(st, a, ev.args[0], ev.args[1], ev.where())
                self.place(st, a, ev.args[1], ev.args[0], ev.where())
            return frozenset(a)
        if ev.k == "new" and re.search(r"\bTable\b", ty):
            self.newtable(st, a, ev)
            return frozenset(a)
        if ev.k == "asg" and ev.op == "=" and ev.r is not None:
            l = ev.l
            if l is not None and l.k == "m" and last(str(l.a[1])) == "item":
                a = {x for x in a if not (x[0] == "itemval" and x[1] is l.a[0])}
                a.add(("itemval", l.a[0], ev.r))
            if l is not None and l.k == "idx":
                self.store(st, a, l.a[0], l.a[1], ev.r)
            self.place(st, a, ev.r, l, ev.where())
            return frozenset(a)
        return st.auto

    def newtable(self, st, a, ev):
        self.tables += 1
        self.args.setdefault((ev.where(), tuple(map(str, ev.args))), (ev.args, st))
        a.add(("table", ev.val))

    def store(self, st, a, m, key, val):
        for x in list(a):
            if x[0] == "chunk" and x[2] != "parsed" and (x[2] is val or x[2] in val.toks):
                if any(y.k == "call" and last(y.a[0]) in ("chunk_key", "key") and (x[1] in y.toks or x[2] in y.toks) for y in key.toks):
                    a.discard(x)
                    a.add(("map", m))
                    self.ctx.instance("D", "chunk stored under its key")

    def unstored(self, st, a, where):
        for x in list(a):
            if x[0] == "chunk":
                a.discard(x)
                self.V("D", "chunk", where, "a chunk of the checkpoint can be dropped while loading (not kept under its own key)", st)

    def place(self, st, a, v, slot, where):
        if v is None or slot is None:
            return
        for x in list(a):
            if x[0] == "table" and x[1] is v:
                self.ctx.instance("C", "table put in place at " + where)
                if not any(y[0] == "allitems" for y in a):
                    self.V("C", "early", where, "a restored table replaces the configured one before all of its items have been inserted", st)
                if not any(y[0] == "match" and (y[1] is slot or y[1] in slot.toks or slot in y[1].toks or entry(slot) is not None and entry(y[1]) == entry(slot)) for y in a):
                    self.V("C", "slot", where, "a restored table replaces a table (%s) that is not known to have its name" % slot, st)
                a.discard(x)

    def unplaced(self, st, a, where):
        for x in list(a):
            if x[0] == "table":
                a.discard(x)
                self.V("C", "unplaced", where, "a restored table is dropped", st)

    def item(self, st, a, ev):
        it = ev.args[0]
        self.ctx.instance("D", "item restored at " + ev.where())
        if not any(x[0] == "table" and x[1] is ev.recv for x in a):
            self.V("D", "table", ev.where(), "an item is restored into %s instead of the new table" % ev.recv, st)
        base = [x for x in a if x[0] == "itemval" and (x[1] is it or x[1] in it.toks or it in x[1].toks)]
        cur = [x for x in a if x[0] == "iter" and x[2] == "items"]
        if not base or not cur or not within(base[-1][2], cur[-1][1], cur[-1][3]):
            self.V("D", "value", ev.where(), "the restored item is not the item of the checkpoint", st)
        if not any(x[0] == "allkeys" for x in a):
            self.V("D", "chunks", ev.where(), "an item is restored without all of the chunks of its trajectory", st)
        a.add(("need", ev.val))
        a.add(("done",))

    def branch(self, st, atom, val, line, fn):
        a = set(st.auto)
        if atom.k == "okp":
            for x in list(a):
                if x[0] == "need" and x[1] is atom.a[0]:
                    a.discard(x)
                    if not val:
                        a.add(("failed",))
            return frozenset(a)
        if atom.k == "eq" and val:
            names = [x for x in atom.a if x.k == "call" and x.a[0].startswith("Table::") and last(x.a[0]) == "name"]
            cn = [x for x in atom.a if getter(x, TC) == "table_name"]
            if names and cn:
                a.add(("match", names[0].a[1]))
        o = loop(atom)
        if o:
            c, leave, cur = o
            w = fn.where(line)
            what = "items" if field_of(c, TC) == "items" else "keys" if (c.k == "call" and last(c.a[0]) == "GetChunkKeys") or any(y.k == "call" and last(y.a[0]) == "GetChunkKeys" for y in c.toks) else None
            if what is None:
                return frozenset(a)
            if any(x[0] == "iter" and x[1] is c for x in a):
                if what == "items":
                    if ("done",) not in a:
                        self.V("D", "skipped", w, "an item of the checkpoint can be skipped", st)
                    for x in list(a):
                        if x[0] == "need":
                            a.discard(x)
                            self.V("D", "unchecked", w, "an item is restored without checking that it was accepted", st)
                else:
                    p = [x for x in a if x[0] == "push" and within(x[2], c, cur)]
                    if not p:
                        self.V("D", "key-skipped", w, "a chunk of an item's trajectory can be left out", st)
                    a = {x for x in a if x[0] != "push"}
            if what == "items":
                a = {x for x in a if x[0] not in ("iter", "done", "allkeys", "itemval", "push", "pushed", "allitems", "need")}
                a.add(("allitems",) if val == leave else ("iter", c, "items", cur))
            else:
                a = {x for x in a if not (x[0] == "iter" and x[2] == "keys") and x[0] != "allkeys"}
                a.add(("allkeys",) if val == leave else ("iter", c, "keys", cur))
            return frozenset(a)
        return frozenset(a)

    def exit(self, st, ret, ev):
        if is_ok(ret):
            a = set(st.auto)
            self.unplaced(st, a, self.where)
            self.unstored(st, a, self.where)
            if ("failed",) in a:
                self.V("D", "failed", self.where, "loading succeeds although an item could not be restored", st)


def kind(s):
    for x in s.toks:
        if x.k == "ctor":
            return x.a[0]
    return s


class Capture(Auto):
    """items, chunks and counters are captured completely, in one critical section, in insertion order"""

    def __init__(self, ctx, prog, g):
        self.ctx, self.prog, self.g = ctx, prog, g

    def init(self):
        return frozenset()

    def keep_fact(self, atom):
        return loop(atom) is None

    def V(self, key, where, msg, st):
        self.ctx.violation("E", key, where, msg, trace_of(st))

    def cap(self, st, a, where):
        if ("rel",) in a:
            self.V("sections", where, "parts of the table's state are captured in different critical sections", st)
        a.add(("cap",))

    def event(self, st, ev):
        a = set(st.auto)
        if ev.k == "unlock":
            if ("cap",) in a:
                a.add(("rel",))
            return frozenset(a)
        if ev.k == "call":
            n = last(ev.fn)
            if n == "CheckpointReader" or (n == "options" and "Selector" in ev.fn):
                self.cap(st, a, ev.where())
            if ev.fn.startswith(TC + "::set_num"):
                self.cap(st, a, ev.where())
            if n in ("insert", "merge", "emplace") and ev.recv is not None:
                self.chunks(a, ev.args, ev.recv)
            if n == "sort" or n == "stable_sort":
                if any(y.k == "call" and y.a[0] == TC + "::mutable_items" for x in ev.args for y in x.toks):
                    a.add(("sorted",))
                    self.order(st, ev)
            if ev.fn in (TC + "::add_items",):
                a = {x for x in a if x[0] != "sorted"}
        if ev.k == "asg" and ev.l is not None and ev.r is not None:
            if any(y.k == "call" and y.a[0] == TC + "::add_items" for y in ev.l.toks):
                if any(y.k == "m" and last(str(y.a[1])) == "item" for y in ev.r.toks) and any(x[0] == "iter" and within(ev.r, x[1], x[2]) for x in a):
                    a.add(("added",))
        if ev.k == "call" and ev.recv is not None and ev.recv.k == "call" and ev.recv.a[0] == TC + "::add_items" and last(ev.fn) in ("CopyFrom", "MergeFrom", "operator="):
            a.add(("added",))
        return frozenset(a)

    def chunks(self, a, args, recv):
        """a range insert of the item's chunks, or of the current element of a loop over them"""
        if recv.k == "m" and recv.a[0] is THIS:
            return
        for x in list(a):
            if x[0] == "inner" and any(within(y, x[1], x[2]) for y in args):
                a.add(("chunk",))
                return
        ch = lambda y: y.k == "m" and last(str(y.a[1])) == "chunks"
        ends = set(last(y.a[0]) for x in args if x.k == "call" and x.a[1] is not None and ch(x.a[1]) for y in (x,))
        if ends & {"begin", "cbegin"} and ends & {"end", "cend"} or len(args) == 1 and ch(args[0]):
            a.add(("chunks", recv))

    def order(self, st, ev):
        cmp_ = ev.args[2] if len(ev.args) > 2 else None
        h = None
        if cmp_ is not None:
            for y in cmp_.toks:
                if y.k in ("fn", "lam"):
                    for u in y.a:
                        if str(u) in self.prog.fns:
                            h = self.prog.fns[str(u)]
                    if h is None:
                        c = [x for x in self.prog.fns.values() if x.name == str(y.a[0])]
                        h = c[0] if c else None
        self.ctx.instance("E", "order of the saved items at " + ev.where())
        if h is None:
            self.V("order", ev.where(), "the saved items are not ordered by their insertion time", st)
            return
        paths, e = bool_paths(self.prog, h)
        toks = set(x for facts, r in paths for at in facts for x in at.toks)
        times = [x for x in toks if x.k == "call" and last(x.a[0]) in ("seconds", "nanos") and any(y.k == "call" and last(y.a[0]) == "inserted_at" for y in x.toks)]
        if not times and not any(y.k == "call" and last(y.a[0]) == "inserted_at" for y in toks):
            self.V("order", h.where(), "%s does not compare insertion times" % h.name, st)
            return
        for s in ((0, 0), (0, 1), (1, 0)):
            for n in ((0, 0), (0, 1), (1, 0)):
                env = {}
                for x in times:
                    i = 0 if mk("p", 0) in x.toks else 1
                    env[x] = (s if last(x.a[0]) == "seconds" else n)[i]
                want = (s[0], n[0]) < (s[1], n[1])
                got = set(r for facts, r in paths if fact_env(facts, env))
                if got and got != {want}:
                    self.V("order", h.where(), "%s does not order items by insertion time (seconds %s, nanos %s)" % (h.name, s, n), st)
                    return

    def branch(self, st, atom, val, line, fn):
        o = loop(atom)
        if not o:
            return st.auto
        c, leave, cur = o
        if c.k == "m" and last(str(c.a[1])) == "chunks" and any(x[0] == "iter" for x in st.auto):
            a = set(st.auto)
            if any(x[0] == "inner" and x[1] is c for x in a) and ("chunk",) not in a:
                self.V("chunks", fn.where(line), "a chunk of an item can be left out of the checkpoint", st)
            a = {x for x in a if x[0] not in ("inner", "chunk")}
            a.add(("chunks", None) if val == leave else ("inner", c, cur))
            return frozenset(a)
        if not (c.k == "m" and last(str(c.a[1])) == "data_"):
            return st.auto
        a = set(st.auto)
        w = fn.where(line)
        self.cap(st, a, w)
        if any(x[0] == "iter" for x in a):
            self.ctx.instance("E", "item captured")
            if ("added",) not in a:
                self.V("item", w, "an item of the table can be left out of the checkpoint", st)
            if not any(x[0] == "chunks" for x in a):
                self.V("chunks", w, "the chunks of an item can be left out of the checkpoint", st)
        a = {x for x in a if x[0] not in ("iter", "added", "chunks", "inner", "chunk")}
        a.add(("all",) if val == leave else ("iter", c, cur))
        return frozenset(a)

    def exit(self, st, ret, ev):
        if ("all",) not in st.auto:
            self.V("all", self.g.where(), "the checkpoint can be taken without all items", st)
        elif ("sorted",) not in st.auto:
            self.V("unsorted", self.g.where(), "the items of the checkpoint are not put in insertion order", st)


class Stamp(Auto):
    """insertion time set in the critical section that inserts the item"""

    def __init__(self, ctx, g, restore):
        self.ctx, self.g, self.restore = ctx, g, restore

    def init(self):
        return frozenset()

    def event(self, st, ev):
        a = set(st.auto)
        if ev.k in ("lock", "unlock"):
            return frozenset(x for x in a if x[0] != "now")
        stamps = ev.k in ("call", "asg") and any(y.k == "call" and last(y.a[0]) == "mutable_inserted_at" for x in tuple(ev.args or ()) + ((ev.l,) if ev.l is not None else ()) + ((ev.recv,) if ev.recv is not None else ()) for y in x.toks) and last(ev.fn or "") not in ("set_seconds", "set_nanos") or (ev.k == "call" and last(ev.fn) == "mutable_inserted_at")
        if stamps:
            if self.restore:
                self.ctx.violation("F", self.g.name + "/restamp", ev.where(), "restoring an item changes its insertion time", trace_of(st))
            a.add(("now",))
            return frozenset(a)
        put = (ev.k == "asg" and ev.op == "=" and ev.l is not None and ev.l.k == "idx" and ev.l.a[0].k == "m" and last(str(ev.l.a[0].a[1])) == "data_") or \
              (ev.k == "call" and last(ev.fn) in ("emplace", "insert", "try_emplace", "insert_or_assign") and ev.recv is not None and ev.recv.k == "m" and last(str(ev.recv.a[1])) == "data_")
        if put:
            self.ctx.instance("F", "%s at %s" % (self.g.name, ev.where()))
            if not self.restore and ("now",) not in a:
                a.add(("late", ev.where()))
        return frozenset(a)

    def exit(self, st, ret, ev):
        for x in st.auto:
            if x[0] == "late" and ("now",) not in st.auto:
                self.ctx.violation("F", self.g.name + "/unstamped", x[1], "an item is inserted without its insertion time being set in the same critical section", trace_of(st))


def run(ctx):
    ctx.rule("A", "every field of the checkpoint messages is set on every path, from one member of the table or rate limiter")
    ctx.rule("B", "every field is read when a checkpoint is loaded and ends up in the member it was saved from")
    ctx.rule("C", "a restored table replaces the table of the same name, after all items have been inserted")
    ctx.rule("D", "every item and every chunk of the checkpoint is restored, items in their order and with all chunks of their trajectory")
    ctx.rule("E", "all items and their chunks, the counters and the limiter are captured in one critical section, items ordered by insertion time")
    ctx.rule("F", "an item's insertion time is set in the critical section that inserts it and kept when it is restored")
    prog = ctx.program("table.cc", "rate_limiter.cc", "platform/tfrecord_checkpointer.cc")
    repo = getattr(ctx, "repo", None) or os.environ.get("VERIF_REPO") or "/repo"
    tf, rf = proto_fields(repo, TC), proto_fields(repo, RC)
    g = prog.fn("Table::Checkpoint")
    noinl = lambda k, ev: last(k.name) not in ("CheckpointReader", "options", "MakeDistribution", "InsertCheckpointItem") and not k.name.startswith("Table::set_") and not k.name.startswith("ChunkStore::")
    st, swhere = saved(ctx, prog, g, TC, tf, ("items",), inline=noinl)
    rd = [h for h in prog.fns.values() if h.blocks and h.cls == "RateLimiter" and not h.lam and any(e.get("sfn", "").startswith(RC + "::set_") for e in h.calls())]
    if len(rd) != 1:
        raise AnalysisBroken("%d functions write %s" % (len(rd), RC))
    sr, rwhere = saved(ctx, prog, rd[0], RC, rf, ())
    ctx.engine(Engine(prog, g, Capture(ctx, prog, g), inline=noinl))
    # ---- restoring
    h = prog.fn(LOAD)
    a = Restore(ctx, h.where())
    ctx.engine(Engine(prog, h, a, inline=lambda k, ev: noinl(k, ev) and k.cls not in ("Table", "RateLimiter")))
    if not a.args:
        raise AnalysisBroken("Load constructs no table")
    rt = {}

    def put(f_, members, where):
        rt.setdefault(f_, []).append((members, where))
    for (where, _), (args, sta) in a.args.items():
        cs = [c for c in prog.fns.values() if c.name == "Table::Table" and len(c.params) == len(args)]
        if not cs:
            raise AnalysisBroken("constructor of Table with %d parameters not found" % len(args))
        pm = param_members(assigned(ctx, prog, cs[0]))
        for i, x in enumerate(args):
            gs = getters(x, TC)
            y = strip(x)
            exact = getter(y, TC) is not None or (y.k == "call" and last(y.a[0]) == "MakeDistribution") or y.k in ("new", "ctor", "init") or (y.k == "call" and last(y.a[0]) in ("make_optional", "move", "optional", "make_shared"))
            for f_ in gs:
                if not exact:
                    ctx.violation("B", f_ + "/altered", where, "%s is restored as %s" % (f_, x), trace_of(sta))
                put(f_, pm.get(i, set()), where)
            if len(gs) > 1:
                ctx.violation("B", "mixed/" + "+".join(gs), where, "a table is restored from a mix of %s" % ", ".join(gs), trace_of(sta))
    for fn, uses in a.sets.items():
        if fn == "Table::InsertCheckpointItem":
            continue
        c = prog.fn(fn)
        pm = param_members(assigned(ctx, prog, c))
        for x, f_, where, args in uses:
            if getter(x, TC) != f_:
                ctx.violation("B", f_ + "/altered", where, "%s is restored as %s" % (f_, x))
            put(f_, pm.get(0, set()), where)
    cmp_maps(ctx, TC, [f_ for f_ in tf if f_ != "items"], st, rt, h.where())
    # ---- rate limiter
    cs = [c for c in prog.fns.values() if c.name == "RateLimiter::RateLimiter" and len(c.params) == 1 and RC in c.params[0][1]]
    if not cs:
        raise AnalysisBroken("RateLimiter has no constructor from its checkpoint")
    rr = {}
    outs = assigned(ctx, prog, cs[0])
    for o in outs:
        mem = {}
        if "->" in o:
            d = [c for c in prog.fns.values() if c.name == "RateLimiter::RateLimiter" and len(c.params) == len(o["->"]) and c is not cs[0]]
            if not d:
                raise AnalysisBroken("delegated constructor of RateLimiter not found")
            for i, ms in param_members(assigned(ctx, prog, d[0])).items():
                for m in ms:
                    mem[m] = o["->"][i]
        for n, v in o.items():
            if n != "->":
                mem[n] = v
        for m, v in mem.items():
            f_ = getter(v, RC) if v is not None else None
            if f_:
                rr.setdefault(f_, []).append(({m}, cs[0].where()))
            elif v is not None:
                for f2 in getters(v, RC):
                    ctx.violation("B", f2 + "/altered", cs[0].where(), "%s is restored as %s" % (f2, v))
                    rr.setdefault(f2, []).append(({m}, cs[0].where()))
        for f_ in list(rr):
            ms = set().union(*[x[0] for x in rr[f_]])
            rr[f_] = [(ms, cs[0].where())]
    cmp_maps(ctx, RC, rf, sr, rr, cs[0].where())
    # ---- insertion times
    writers = [w for w in prog.fns.values() if w.cls == "Table" and not w.lam and w.blocks and inserts(w)]
    if len(writers) < 2:
        raise AnalysisBroken("functions inserting items not found")
    for w in writers:
        ctx.engine(Engine(prog, w, Stamp(ctx, w, last(w.name) == "InsertCheckpointItem")))


def inserts(w):
    for e in w.events():
        if e["k"] == "call" and last(e.get("sfn", "")) in ("emplace", "try_emplace", "insert_or_assign", "operator[]") and "data_" in str(e.get("recv")):
            return True
        if e["k"] in ("idx", "asg") and "data_" in str(e.get("l", e.get("recv", e))) and ("idx" in str(e.get("l", "")) ):
            return True
    return False


def cmp_maps(ctx, msg, fields, save, load, where):
    for f_ in fields:
        ctx.instance("B", "%s.%s" % (msg, f_))
        if f_ not in load:
            ctx.violation("B", "%s.%s/unread" % (msg, f_), where, "%s is saved but not restored" % f_)
            continue
        for ms, w in load[f_]:
            for m in save.get(f_, ()):
                if m not in ms:
                    ctx.violation("B", "%s.%s/member" % (msg, f_), w, "%s is saved from %s but restored to %s" % (f_, m, ", ".join(sorted(ms)) or "nothing"))
            if len(save.get(f_, ())) > 1:
                ctx.violation("B", "%s.%s/two" % (msg, f_), w, "%s is saved from %s" % (f_, ", ".join(sorted(save[f_]))))
