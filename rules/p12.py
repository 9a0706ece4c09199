"""Loading a checkpoint: only complete ones, newest first, every failure reported,
fallback only when nothing was found."""
from engine.util import *
from engine.ir import AnalysisBroken
from rules.p11 import is_io, joined, over, Done

CK = "TFRecordCheckpointer::"


def is_ok(r):
    return r is not None and (r is OK or r.k == "okstatus")


def status_test(atom):
    """(kind, tested status) for okp / IsNotFound / IsOutOfRange / code comparisons"""
    if atom.k == "okp":
        return "ok", atom.a[0]
    if atom.k == "nz" and atom.a[0].k == "call" and last(atom.a[0].a[0]).startswith("Is") and len(atom.a[0].a) > 3:
        return last(atom.a[0].a[0])[2:], atom.a[0].a[-1]
    if atom.k == "eq":
        e = [x for x in atom.a if x.k == "enum"]
        c = [x for x in atom.a if x.k == "call" and last(x.a[0]) == "code"]
        if e and c:
            return str(e[0].a[0]).rsplit("::k", 1)[-1], c[0].a[1]
    return None, None


class Load(Auto):
    def __init__(self, ctx, done, where):
        self.ctx, self.done, self.where = ctx, done, where
        self.oks, self.names = 0, {}

    def init(self):
        return frozenset()

    def keep_fact(self, atom):
        k, _ = status_test(atom)
        return k is None and not (atom.k == "nz" and atom.a[0].k == "call" and last(atom.a[0].a[0]).startswith("Parse"))

    def V(self, rid, key, where, msg, st):
        self.ctx.violation(rid, key, where, msg, trace_of(st))

    def event(self, st, ev):
        if ev.k == "ctor" and last(ev.fn) == "RecordReader":
            a = set(st.auto)
            for x in list(a):
                if x[0] == "file":
                    a.add(("r", ev.val, joined(x[1])[1]))
            return frozenset(a)
        if ev.k != "call":
            return st.auto
        n = last(ev.fn)
        a = set(st.auto)
        bad = [x for x in a if x[0] in ("bad", "failed")]
        if is_io(ev):
            if n == "NewRandomAccessFile":
                d, nm = joined(ev.args[0])
                self.ctx.instance("A", "%s is opened at %s" % (nm, ev.where()))
                a = {x for x in a if x[0] != "file"} | {("file", ev.args[0])}
                if not any(x[0] == "marked" and x[1] is d for x in a):
                    self.V("A", "unmarked/%s" % nm, ev.where(), "%s is read without the directory's completion marker having been found" % nm, st)
            if bad:
                self.V("B", "continue/" + n, ev.where(), "loading goes on (%s) after %s failed" % (n, str(bad[0][1])[:90]), st)
            if n == "ReadRecord":
                a = {x for x in a if x[0] != "cur"}
                for x in list(a):
                    if x[0] == "r" and ev.recv is not None and x[1] in ev.recv.toks:
                        a.add(("cur", x[2]))
                        self.ctx.instance("B", "read loop at " + ev.where())
            a.add(("need", ev.val))
        elif n.startswith("ParseFrom") or n == "ParsePartialFromArray":
            for x in a:
                if x[0] == "need":
                    self.V("B", "unchecked/parse", ev.where(), "a record is parsed without checking that it was read", st)
                if x[0] == "cur" and ev.recv is not None:
                    self.names.setdefault(kind_of(ev), set()).add(x[1])
            a.add(("need", ev.val))
        elif ev.fn in ("ChunkStore::Insert", "Table::InsertCheckpointItem"):
            self.ctx.instance("B", "%s at %s" % (n, ev.where()))
            for x in a:
                if x[0] == "need":
                    self.V("B", "unchecked/" + n, ev.where(), "%s uses data whose reading or parsing (%s) was not checked" % (n, str(x[1])[:90]), st)
                if x[0] in ("bad", "failed"):
                    self.V("B", "restore/" + n, ev.where(), "%s uses data that could not be read or parsed" % n, st)
        return frozenset(a)

    def branch(self, st, atom, val, line, fn):
        a = set(st.auto)
        k, s = status_test(atom)
        if k == "ok":
            if s.k == "call" and last(s.a[0]) == "FileExists":
                d, nm = joined(s.a[-1])
                if val and nm in self.done:
                    a.add(("marked", d))
            for x in list(a):
                if x[0] == "need" and x[1] is s:
                    a.discard(x)
                    if not val:
                        a.add(("bad", s) if s.k == "call" and last(s.a[0]) == "ReadRecord" else ("failed", s))
            return frozenset(a)
        if k == "OutOfRange":
            for x in list(a):
                if x[0] == "bad" and (x[1] is s or x[1] in s.toks):
                    a.discard(x)
                    if val:
                        a |= {("eof", y[1]) for y in a if y[0] == "cur"}
                    else:
                        a.add(("failed", x[1]))
            return frozenset(a)
        if atom.k == "nz" and ("need", atom.a[0]) in a:
            a.discard(("need", atom.a[0]))
            if not val:
                a.add(("failed", atom.a[0]))
            return frozenset(a)
        return st.auto

    def exit(self, st, ret, ev):
        if not is_ok(ret):
            return
        self.oks += 1
        a = st.auto
        for x in a:
            if x[0] in ("bad", "failed"):
                self.V("B", "ok/" + last(str(x[1].a[0])), self.where, "loading succeeds although %s failed" % str(x[1])[:100], st)
            if x[0] == "need":
                self.V("B", "ok-unchecked/" + last(str(x[1].a[0])), self.where, "loading succeeds without checking %s" % str(x[1])[:100], st)
        rs = set(x[2] for x in a if x[0] == "r")
        if len(rs) < 2:
            self.V("B", "files", self.where, "loading succeeds after reading only %s" % (", ".join(map(str, rs)) or "nothing"), st)
        for r in rs:
            if ("eof", r) not in a:
                self.V("B", "eof/%s" % r, self.where, "loading succeeds before the end of %s was reached" % r, st)


def kind_of(ev):
    for x in ev.recv.toks:
        if x.k == "ctor":
            return str(x.a[0])
    return str(ev.recv)


class Names(Auto):
    """type of record -> name of the file Save writes it to"""

    def __init__(self):
        self.names = {}

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "call" and last(ev.fn) == "NewWritableFile":
            return (("file", joined(ev.args[0])[1]),) + tuple(x for x in st.auto if x[0] != "file")
        if ev.k == "ctor" and last(ev.fn) == "RecordWriter":
            return st.auto + tuple(("w", ev.val, x[1]) for x in st.auto if x[0] == "file")
        if ev.k == "call" and last(ev.fn) == "WriteRecord":
            for x in st.auto:
                if x[0] == "w" and ev.recv is not None and x[1] in ev.recv.toks:
                    t = "PriorityTableCheckpoint" if any(y.k == "m" and last(str(y.a[1])) == "checkpoint" for y in ev.args[0].toks) else "ChunkData" if any(y.k == "call" and last(y.a[0]) == "data" for y in ev.args[0].toks) else "?"
                    self.names.setdefault(t, set()).add(x[2])
        return st.auto


class Latest(Auto):
    """selection of the checkpoint to load"""

    def __init__(self, ctx, done, fn):
        self.ctx, self.done, self.fn = ctx, done, fn
        self.loads = 0

    def init(self):
        return frozenset()

    def keep_fact(self, atom):
        return status_test(atom)[0] is None and over(atom) is None

    def V(self, key, where, msg, st):
        self.ctx.violation("C", self.fn.name + "/" + key, where, msg, trace_of(st))

    def event(self, st, ev):
        if ev.k != "call":
            return st.auto
        a = set(st.auto)
        n = last(ev.fn)
        if n == "sort" and ev.args:
            for x in ev.args[0].toks:
                if x.k == "call" and last(x.a[0]) in ("begin", "rbegin"):
                    a = {y for y in a if not (y[0] == "sorted" and y[1] is x.a[1])}
                    a.add(("sorted", x.a[1], len(ev.args) > 2 or "rbegin" in last(x.a[0])))
        if is_io(ev):
            a.add(("need", ev.val))
        if ev.fn == CK + "Load":
            self.loads += 1
            self.ctx.instance("C", "%s: Load at %s" % (self.fn.name, ev.where()))
            t = ev.args[0]
            comp = [x for x in a if x[0] == "complete"]
            if not any(x[1] is t or x[1] in t.toks for x in comp):
                self.V("unmarked", ev.where(), "%s is loaded without its completion marker having been found" % t, st)
            it = [x for x in a if x[0] == "iter"]
            if it:
                c, kind = it[-1][1], it[-1][2]
                so = [x for x in a if x[0] == "sorted" and x[1] is c]
                if not so:
                    self.V("unsorted", ev.where(), "checkpoints are tried in the order the file system lists them, not from the newest", st)
                elif (kind == "r") == so[0][2]:
                    self.V("oldest", ev.where(), "checkpoints are tried from the oldest", st)
                if any(x[0] == "skipped" for x in a):
                    self.V("skipped", ev.where(), "a newer complete checkpoint is passed over", st)
            for x in a:
                if x[0] == "failed":
                    self.V("after-failure", ev.where(), "a checkpoint is loaded after %s failed" % str(x[1])[:80], st)
            if any(x[0] == "load" for x in a):
                self.V("again", ev.where(), "another checkpoint is loaded after loading the newest complete one failed", st)
            a.add(("load", ev.val))
        return frozenset(a)

    def branch(self, st, atom, val, line, fn):
        a = set(st.auto)
        k, s = status_test(atom)
        if k == "ok":
            if s.k == "call" and last(s.a[0]) == "FileExists":
                d, nm = joined(s.a[-1])
                if val and nm in self.done:
                    a.add(("complete", d))
            for x in list(a):
                if x[0] == "need" and x[1] is s:
                    a.discard(x)
                    if not val:
                        a.add(("failed", s))
                if x[0] == "load" and x[1] is s:
                    a.add(("loadok", val))
            return frozenset(a)
        o = over(atom)
        if o:
            c, leave, kind = o
            if any(x[0] == "complete" for x in a) and not any(x[0] == "load" for x in a):
                a.add(("skipped",))
            a = {x for x in a if x[0] not in ("complete", "iter")}
            if val == leave:
                a.add(("all", c))
            else:
                a.add(("iter", c, kind))
            return frozenset(a)
        return st.auto

    def exit(self, st, ret, ev):
        a = st.auto
        ld = [x[1] for x in a if x[0] == "load"]
        if ld:
            if ret is not ld[-1] and not (ret is not None and ld[-1] in ret.toks) and not (("loadok", True) in a and is_ok(ret)) and not (("loadok", False) in a and not is_ok(ret)):
                self.V("result", self.fn.where(), "the outcome of Load is not returned (%s is)" % ret, st)
            return
        if is_ok(ret):
            self.V("ok", self.fn.where(), "OK is returned although nothing was loaded", st)
        elif not any(x[0] == "failed" for x in a):
            if any(x[0] in ("complete", "skipped") for x in a):
                self.V("ignored", self.fn.where(), "a complete checkpoint is found but not loaded", st)


class Init(Auto):
    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn

    def init(self):
        return frozenset()

    def V(self, key, where, msg, st):
        self.ctx.violation("D", self.fn.cls + "/" + key, where, msg, trace_of(st))

    def event(self, st, ev):
        a = set(st.auto)
        if ev.k == "call" and "Checkpointer" in ev.fn:
            n = last(ev.fn)
            if n in ("LoadLatest", "Load"):
                self.ctx.instance("D", "%s: %s" % (self.fn.name, n))
                a.add(("latest", ev.val))
                a.add(("args", ev.args))
            if n == "LoadFallbackCheckpoint":
                self.ctx.instance("D", "%s: %s" % (self.fn.name, n))
                l = [x[1] for x in a if x[0] == "latest"]
                if not l:
                    self.V("fallback-first", ev.where(), "the fallback is loaded without looking for a checkpoint first", st)
                elif not any(x[0] == "is" and x[1] == "NotFound" and x[2] is l[0] and x[3] for x in a):
                    self.V("fallback", ev.where(), "the fallback is loaded although loading the latest checkpoint may have succeeded or failed with another error than NotFound", st)
                a.add(("fb", ev.val))
                for x in a:
                    if x[0] == "args" and tuple(map(str, x[1])) != tuple(map(str, ev.args)):
                        self.V("args", ev.where(), "the fallback is loaded into other tables than the latest checkpoint", st)
            return frozenset(a)
        if ev.k == "asg" and any(x.k == "m" and last(str(x.a[1])) == "tables_" for x in (ev.l.toks if ev.l is not None else ())):
            self.result(st, a, ev.where(), "the tables are put in service")
            a.add(("served",))
            return frozenset(a)
        return st.auto

    def branch(self, st, atom, val, line, fn):
        k, s = status_test(atom)
        if k:
            for x in st.auto:
                if x[0] == "is" and x[2] is s:
                    if x[1] == k and x[3] != val:
                        return DEAD
                    if x[1] != k and val and x[3]:
                        return DEAD
            return frozenset(set(st.auto) | {("is", k, s, val)})
        if atom.k in ("nz", "null") and atom.a[0].k == "m" and last(str(atom.a[0].a[1])) == "checkpointer_":
            return frozenset(set(st.auto) | {("ck", val if atom.k == "nz" else not val)})
        return st.auto

    def result(self, st, a, where, what):
        l = [x[1] for x in a if x[0] == "latest"]
        fb = [x[1] for x in a if x[0] == "fb"]
        if not l:
            if ("ck", False) not in a:
                self.V("unloaded", where, "%s without looking for a checkpoint although a checkpointer may be configured" % what, st)
            return
        s = fb[0] if fb else l[0]
        known = {x[1]: x[3] for x in a if x[0] == "is" and x[2] is s}
        if known.get("ok") is True or known.get("NotFound") is True:
            if known.get("NotFound") is True and not fb:
                self.V("nofallback", where, "%s although no checkpoint was found and the fallback was not tried" % what, st)
            return
        self.V("error", where, "%s although %s may have failed" % (what, str(s)[:80]), st)

    def exit(self, st, ret, ev):
        a = set(st.auto)
        if is_ok(ret):
            self.result(st, a, self.fn.where(), "initialisation succeeds")


def run(ctx):
    ctx.rule("A", "the files of a checkpoint are read only after its completion marker was found in the same directory")
    ctx.rule("B", "every failing open, read or parse makes loading fail; only the end of the file ends a read loop")
    ctx.rule("C", "the newest complete checkpoint is the one loaded, and the outcome of loading it is returned")
    ctx.rule("D", "a service starts only if loading succeeded or nothing was found, and uses the fallback only when nothing was found")
    ctx.rule("E", "every kind of record is read from the file it was written to")
    prog = ctx.program("platform/tfrecord_checkpointer.cc", "reverb_service_impl.cc", "reverb_service_async_impl.cc")
    # the marker Save creates last is the marker
    nm = Names()
    mk_ = LastCreated()
    g = prog.fn(CK + "Save")
    ctx.engine(Engine(prog, g, nm))
    ctx.engine(Engine(prog, g, mk_))
    done = mk_.names
    if not done:
        raise AnalysisBroken("Save creates no completion marker")
    g = prog.fn(CK + "Load")
    a = Load(ctx, done, g.where())
    ctx.engine(Engine(prog, g, a, inline=lambda k, ev: k.name not in ("MakeDistribution",)))
    if not a.oks:
        raise AnalysisBroken("Load has no successful path")
    for t in sorted(set(nm.names) | set(a.names)):
        ctx.instance("E", "%s: %s" % (t, ", ".join(sorted(map(str, nm.names.get(t, []))))))
        if nm.names.get(t) != a.names.get(t):
            ctx.violation("E", t, g.where(), "%s records are written to %s but read from %s" % (t, ", ".join(map(str, nm.names.get(t, ["nowhere"]))), ", ".join(map(str, a.names.get(t, ["nowhere"])))))
    for n in ("LoadLatest", "LoadFallbackCheckpoint"):
        h = prog.fn(CK + n)
        l = Latest(ctx, done, h)
        ctx.engine(Engine(prog, h, l, inline=lambda k, ev: k.name != CK + "Load"))
        if not l.loads:
            ctx.violation("C", n + "/never", h.where(), "%s never loads anything" % n)
    inits = []
    for h in prog.fns.values():
        if h.blocks and any(e.get("sfn", "").endswith("Checkpointer::LoadLatest") for e in h.calls()):
            while h.lam and h.parent in prog.fns:
                h = prog.fns[h.parent]
            # a private helper is analysed as part of its caller
            up = [c for c in prog.fns.values() if c.cls == h.cls and c is not h and any(e.get("target") == h.usr or e.get("usr") == h.usr for e in c.calls())]
            h = up[0] if up and h.access == "private" and last(h.name) != "Initialize" else h
            if "Service" in h.cls and h not in inits:
                inits.append(h)
    if len(inits) < 2:
        raise AnalysisBroken("initialisation of the services not found")
    for h in inits:
        ctx.engine(Engine(prog, h, Init(ctx, h), inline=lambda k, ev: "Checkpointer" not in k.cls))


class LastCreated(Auto):
    def __init__(self):
        self.names = set()

    def init(self):
        return None

    def event(self, st, ev):
        if ev.k == "call" and last(ev.fn) == "NewWritableFile":
            return joined(ev.args[0])[1]
        return st.auto

    def exit(self, st, ret, ev):
        if is_ok(ret) and st.auto is not None:
            self.names.add(st.auto)
