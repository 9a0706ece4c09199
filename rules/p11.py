"""Saving a checkpoint: order of durable effects, error handling, clean-up."""
from engine.util import *
from engine.ir import AnalysisBroken
from rules.p14 import ev_const

SAVE = "TFRecordCheckpointer::Save"
TF = ("tsl::", "tensorflow::")
TABLES, KEEP, PATH = mk("p", 0), mk("p", 1), mk("p", 2)


def is_io(ev):
    ty = (ev.raw or {}).get("ty", "")
    if ev.val is not None and (ev.val is OK or ev.val.k in ("okstatus", "errstatus")):
        return False
    return ev.k == "call" and ev.fn.startswith(TF) and ty.replace("const ", "").strip().endswith("Status") and "::Status::" not in ev.fn and last(ev.fn) not in ("FileExists", "OkStatus")


def joined(s):
    """(directory, file name) of a JoinPath expression"""
    if s.k == "call" and last(s.a[0]) in ("JoinPath", "JoinPathImpl") and len(s.a) >= 5:
        return s.a[-2], s.a[-1]
    return None, None


def over(atom):
    """loop condition over a container -> (container, value of the atom that leaves the loop, kind)"""
    if atom.k == "eq":
        for x in atom.a:
            if x.k == "call" and last(x.a[0]) in ("end", "cend", "rend", "crend") and x.a[1] is not None:
                return x.a[1], True, "r" if "rend" in last(x.a[0]) else "f"
    if atom.k == "lt":
        x = atom.a[1]
        if x.k == "cast":
            x = x.a[-1]
        if x.k == "call" and last(x.a[0]) == "size" and x.a[1] is not None:
            return x.a[1], False, "f"
    return None


def mentions(s, base, field):
    return any(x.k == "m" and x.a[0] is base and str(x.a[1]).rsplit("::", 1)[-1] == field for x in s.toks)


def vname(s):
    return next((str(x) for x in s.a if isinstance(x, str) and "@" in x), str(s))


class Done(Auto):
    """names of the files whose existence marks a checkpoint"""

    def __init__(self):
        self.names = set()

    def event(self, st, ev):
        if ev.k == "call" and last(ev.fn) == "FileExists" and ev.args:
            self.names.add(joined(ev.args[0])[1])
        return st.auto


class Save(Auto):
    def __init__(self, ctx, done):
        self.ctx, self.done = ctx, done
        self.oks = 0

    def init(self):
        return frozenset()

    def guard(self, atom):
        return atom.k in ("lt", "eq", "le", "nz") and (KEEP in atom.toks or any(y.k == "phi" and vname(y) in self.counters for y in atom.toks))

    def keep_fact(self, atom):
        return atom.k != "okp" and over(atom) is None and not self.guard(atom)

    # state items:
    # ("dir", d)  ("file", path) last opened  ("w", writer token, dir, name)  ("closed", token)
    # ("need", op) operation whose outcome is not known yet   ("failed", where)
    # ("it", container)  current iteration not discharged     ("all", container)
    # ("ck", checkpoint symbol) taken in this iteration       ("merged", ck)  ("tab", ck) written
    # ("mark", dir)  completion marker created   ("sorted", c)
    # ("cnt", var, delta)  ("g", atom, val, delta)  ("complete",)
    def V(self, key, where, msg, st):
        self.ctx.violation(*key.split("|", 1), where, msg, trace_of(st))

    def event(self, st, ev):
        a = set(st.auto)
        n = last(ev.fn) if ev.fn else ""
        failed = any(x[0] == "failed" for x in a)
        if ev.k == "new" or ev.k == "ctor":
            if "RecordWriter" in ev.fn if ev.fn else False:
                if ev.k == "ctor" and n == "RecordWriter":
                    f_ = [x for x in a if x[0] == "file"]
                    if f_:
                        d, nm = joined(f_[0][1])
                        a.add(("w", ev.val, d, nm))
            return frozenset(a)
        if ev.k == "asg" and ev.op in ("++", "--", "+=", "-=") and ev.l is not None:
            if vname(ev.l) not in self.counters:
                return st.auto
            step = 1 if ev.op in ("++", "--") else (ev_const(ev.r, {}) or 0)
            step = -step if ev.op[0] == "-" else step
            old = [x for x in a if x[0] == "cnt" and x[1] is ev.l]
            for x in old:
                a.discard(x)
            a.add(("cnt", ev.l, (old[0][2] if old else 0) + step, ("complete",) in a))
            return frozenset(a)
        if ev.k != "call":
            return st.auto
        if n == "sort" and ev.args:
            for x in ev.args[0].toks:
                if x.k == "call" and last(x.a[0]) in ("begin", "rbegin"):
                    desc = len(ev.args) > 2 or "rbegin" in last(x.a[0])
                    a = {y for y in a if not (y[0] == "sorted" and y[1] is x.a[1])}
                    a.add(("sorted", x.a[1], desc))
        if ev.fn == "Table::Checkpoint":
            a.add(("ck", ev.val, ev.recv))
            if any(x[0] == "mark" for x in a):
                self.V("A|checkpoint-after-marker", ev.where(), "a table is captured after the completion marker was created", st)
        if n in ("merge", "insert") and ev.recv is not None:
            for x in list(a):
                if x[0] == "ck" and any(x[1] in y.toks and mentions(y, x[1], "chunks") for y in ev.args):
                    a.add(("merged", x[1], ev.recv))
        if is_io(ev):
            if n == "NewWritableFile":
                a = {x for x in a if x[0] != "file"}
                a.add(("file", ev.args[0]))
                d, nm = joined(ev.args[0])
                if nm in self.done:
                    if failed:
                        self.V("B|marker-after-failure", ev.where(), "the completion marker is created after a failure", st)
                    self.marker(st, a, ev, d)
                    a.add(("mark", d))
                elif any(x[0] == "mark" for x in a):
                    self.V("A|write-after-marker", ev.where(), "%s is opened after the completion marker was created" % nm, st)
            if n == "WriteRecord":
                self.record(st, a, ev)
            if n == "Close" and ev.recv is not None:
                for x in list(a):
                    if x[0] == "w" and x[1] in ev.recv.toks:
                        a.add(("closed", x[1]))
            if n.startswith("Delete") or n in ("RenameFile",):
                self.delete(st, a, ev, failed)
                if failed:
                    return frozenset(a)
            if n == "RecursivelyCreateDir" or n == "CreateDir":
                a.add(("dir", ev.args[0]))
                self.ctx.instance("C", "keep_latest at " + ev.where())
                if ("keep",) not in a:
                    self.V("C|keep_latest", ev.where(), "a save is started without having refused keep_latest <= 0, which would delete the checkpoint it creates", st)
            a.add(("need", ev.val))
        return frozenset(a)

    def record(self, st, a, ev):
        w = [x for x in a if x[0] == "w" and ev.recv is not None and x[1] in ev.recv.toks]
        if not w:
            return
        if ("closed", w[0][1]) in a:
            self.V("A|write-after-close", ev.where(), "a record is written to a writer that was closed", st)
        arg = ev.args[0]
        for x in list(a):
            if x[0] == "ck" and x[1] in arg.toks and mentions(arg, x[1], "checkpoint"):
                a.add(("tab", x[1], w[0][3]))
        for x in arg.toks:
            if x.k == "call" and last(x.a[0]) == "data" and x.a[1] is not None:
                a.add(("chunkrec", x.a[1], w[0][3]))

    def marker(self, st, a, ev, d):
        self.ctx.instance("A", "completion marker at " + ev.where())
        why = []
        kinds = {}
        for x in a:
            if x[0] == "need":
                why.append("the outcome of %s is not known to be a success" % str(x[1])[:80])
            if x[0] == "w":
                kinds[x[3]] = x
                if ("closed", x[1]) not in a:
                    why.append("the writer of %s is not closed" % x[3])
                if x[2] is not d:
                    why.append("%s is in another directory than the marker" % x[3])
        if len(kinds) < 2:
            why.append("%s written" % (", ".join(map(str, kinds)) + " is the only file" if kinds else "no file was"))
        if ("all", TABLES) not in a:
            why.append("not every table has been processed")
        boxes = set(x[1] for x in a if x[0] == "chunkbox")
        if not any(x[0] == "all" and x[1] is not TABLES and (not boxes or any(b in x[1].toks or x[1] in b.toks for b in boxes)) for x in a):
            why.append("not every chunk of the saved tables has been processed")
        for w in why:
            self.V("A|marker/" + w.split(" is ")[0][:40] + "/" + w[-30:], ev.where(), "the checkpoint is marked complete although " + w, st)

    def delete(self, st, a, ev, failed):
        t = ev.args[0]
        dirs = [x[1] for x in a if x[0] == "dir"]
        if any(t is d or (d in t.toks and joined(t)[0] is d) for d in dirs):
            if any(x[0] == "mark" for x in a) and not failed:
                self.V("C|own", ev.where(), "the checkpoint that was just completed is removed", st)
            return
        self.ctx.instance("C", "removal at " + ev.where())
        if failed:
            self.V("C|after-failure", ev.where(), "an older checkpoint is removed after the save has failed", st)
        if not any(x[0] == "mark" for x in a):
            self.V("C|before-complete", ev.where(), "an older checkpoint is removed before the new one is marked complete", st)
        for x in a:
            if x[0] == "need":
                self.V("C|pending", ev.where(), "an older checkpoint is removed while the outcome of %s is not known" % str(x[1])[:80], st)
        src = [x for x in a if x[0] == "iter"]
        if not src:
            self.V("C|unordered", ev.where(), "%s is removed without going through the checkpoints from newest to oldest" % t, st)
            return
        c, kind = src[-1][1], src[-1][2]
        so = [x for x in a if x[0] == "sorted" and x[1] is c]
        if not so:
            self.V("C|unsorted", ev.where(), "checkpoints are removed in the order the file system lists them, not by age", st)
        elif (kind == "r") == so[0][2]:
            self.V("C|newest", ev.where(), "checkpoints are removed from the newest to the oldest end", st)
        # the removed entry is preceded by at least keep_latest newer complete ones
        guards = [x for x in a if x[0] == "g"]
        for keep in (1, 2, 3):
            for n in range(0, keep):
                for cur in (0, 1):
                    ok = True
                    for g in guards:
                        env = {KEEP: keep}
                        for y in g[1].toks:
                            if y.k == "phi":
                                iv = self.inits.get(vname(y))
                                if iv is None:
                                    continue
                                base = ev_const(iv, {KEEP: keep})
                                if base is not None:
                                    env[y] = base + self.dirs.get(vname(y), 1) * n + g[3]
                        v = ev_const(g[1], env)
                        if v is not None and bool(v) != g[2]:
                            ok = False
                    if ok:
                        self.V("C|keep", ev.where(), "an entry can be removed although only %d newer complete checkpoint%s kept (keep_latest = %d)" % (n, " is" if n == 1 else "s are", keep), st)
                        return

    def branch(self, st, atom, val, line, fn):
        a = set(st.auto)
        if atom.k == "okp":
            x = atom.a[0]
            if ("need", x) in a:
                a.discard(("need", x))
                if not val:
                    a.add(("failed", fn.where(line)))
            if x.k == "call" and last(x.a[0]) == "FileExists" and val:
                a.add(("complete",))
            return frozenset(a)
        if self.guard(atom):
            vs = [ev_const(atom, {KEEP: k}) for k in (0, -1)]
            if all(v is not None and bool(v) != val for v in vs):
                a.add(("keep",))
            d = 0
            for y in atom.toks:
                if y.k == "phi":
                    for x in a:
                        if x[0] == "cnt" and vname(x[1]) == vname(y):
                            d = x[2]
            a.add(("g", atom, val, d))
            return frozenset(a)
        o = over(atom)
        if o:
            c, leave, kind = o
            # end of an iteration
            if ("it", c) in a:
                self.discharge(st, a, c, fn.where(line))
            a = {x for x in a if not (x[0] in ("it", "all", "iter") and x[1] is c) and x[0] not in ("g",) and not (x[0] == "ck" and c is TABLES)}
            for x in list(a):
                if x[0] == "cnt":
                    a.discard(x)
                    if x[2]:
                        if not x[3]:
                            self.V("C|count", fn.where(line), "an entry that is not a complete checkpoint counts towards keep_latest", st)
                        elif abs(x[2]) != 1:
                            self.V("C|count", fn.where(line), "a complete checkpoint counts %d times towards keep_latest" % abs(x[2]), st)
            a.discard(("complete",))
            if val == leave:
                a.add(("all", c))
            else:
                a.add(("it", c))
                a.add(("iter", c, kind))
                a = {x for x in a if x[0] != "chunkrec"}
            return frozenset(a)
        return st.auto

    def discharge(self, st, a, c, where):
        a.discard(("it", c))
        if c is TABLES:
            cks = [x[1] for x in a if x[0] == "ck"]
            self.ctx.instance("A", "table record")
            if not cks:
                self.V("A|table-skipped", where, "a table can be skipped", st)
            for k in cks:
                if not any(x[0] == "tab" and x[1] is k for x in a):
                    self.V("A|table-unwritten", where, "the state of a table is captured but not written", st)
                m = [x for x in a if x[0] == "merged" and x[1] is k]
                if not m:
                    self.V("A|chunks-dropped", where, "the chunks of a table are not collected for writing", st)
                for x in m:
                    a.add(("chunkbox", x[2]))
            a -= {x for x in a if x[0] in ("ck", "tab", "merged")}
            return
        boxes = set(x[1] for x in a if x[0] == "chunkbox")
        if any(b is c or b in c.toks for b in boxes):
            self.ctx.instance("A", "chunk record")
            if not any(x[0] == "chunkrec" for x in a):
                self.V("A|chunk-skipped", where, "a chunk can be skipped", st)
            a -= {x for x in a if x[0] == "chunkrec"}

    def exit(self, st, ret, ev):
        a = st.auto
        if ret is OK or (ret is not None and ret.k == "okstatus"):
            self.oks += 1
            self.ctx.instance("B", "successful return")
            for x in a:
                if x[0] == "failed":
                    self.V("B|failed/" + x[1].split("/")[-1], x[1], "Save returns OK although the operation at %s failed" % x[1], st)
                if x[0] == "need":
                    self.V("B|unchecked/" + str(x[1])[:60], self.where, "Save returns OK without having checked %s" % str(x[1])[:80], st)
            if not any(x[0] == "mark" for x in a):
                self.V("B|nomark", self.where, "Save returns OK without having marked the checkpoint complete", st)


class Paths(Auto):
    """*path on successful returns"""

    def __init__(self, ctx, where):
        self.ctx, self.where = ctx, where

    def init(self):
        return (None, None)

    def event(self, st, ev):
        d, p = st.auto
        if ev.k == "asg" and ev.l is PATH and ev.op == "=":
            return (d, ev.r)
        if ev.k == "call" and last(ev.fn) in ("RecursivelyCreateDir", "CreateDir"):
            return (ev.args[0], p)
        if ev.k == "call" and ev.recv is PATH and last(ev.fn) in ("assign", "swap", "operator="):
            return (d, ev.args[0])
        return st.auto

    def exit(self, st, ret, ev):
        if ret is not None and ret.k == "okstatus":
            d, p = st.auto
            self.ctx.instance("B", "reported path")
            if p is None or p is not d:
                self.ctx.violation("B", "path", self.where, "Save returns OK and reports the path %s instead of %s" % (p, d), trace_of(st))


class Rpc(Auto):
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name

    def init(self):
        return (None, None)

    def keep_fact(self, atom):
        return atom.k != "okp"

    def event(self, st, ev):
        s, o = st.auto
        if ev.k == "call" and last(ev.fn) == "Save" and "Checkpointer" in ev.fn:
            self.ctx.instance("D", "%s at %s" % (self.name, ev.where()))
            ck = ev.recv
            if not any(not v and a.k == "null" and a.a[0] in (ck,) or (a.k in ("null", "eq") and not v) or (a.k in ("nz", "bool") and v) for a, v in st.facts.items()):
                self.ctx.violation("D", self.name + "/null", ev.where(), "the checkpointer is used without checking that one is configured", trace_of(st))
            return (ev.val, None)
        if ev.k == "call" and last(ev.fn) == "Finish" and ev.args:
            self.reply(st, ev.args[-1], ev.where())
        return st.auto

    def branch(self, st, atom, val, line, fn):
        s, o = st.auto
        if s is not None and atom.k == "okp" and atom.a[0] is s:
            return (s, val)
        return st.auto

    def reply(self, st, r, where):
        s, o = st.auto
        text = str(r)
        good = r.k == "okstatus" or text.endswith("Status::OK") or (r.k in ("v", "enum") and text.endswith("OK"))
        if s is None:
            if good:
                self.ctx.violation("D", self.name + "/nothing", where, "%s reports success without having saved anything" % self.name, trace_of(st))
        elif o is False and good or (o is None and not (s in r.toks)):
            self.ctx.violation("D", self.name + "/status", where, "%s does not report the outcome of Save" % self.name, trace_of(st))

    def exit(self, st, ret, ev):
        if ret is not None and "reactor" not in str(ret).lower():
            self.reply(st, ret, self.where)


def run(ctx):
    ctx.rule("A", "the completion marker is created only after every table and every chunk of the saved tables has been written and both writers were closed, all successfully")
    ctx.rule("B", "Save returns OK only if no operation failed, the marker was created and the reported path is the directory written")
    ctx.rule("C", "older checkpoints are removed only after the marker exists, oldest first, and never one of the keep_latest newest complete ones; keep_latest <= 0 is refused")
    ctx.rule("D", "the Checkpoint RPC reports the outcome of Save and refuses a server without a checkpointer")
    prog = ctx.program("platform/tfrecord_checkpointer.cc", "reverb_service_impl.cc", "reverb_service_async_impl.cc")
    g = prog.fn(SAVE)
    d = Done()
    for n in ("TFRecordCheckpointer::LoadLatest", "TFRecordCheckpointer::LoadFallbackCheckpoint"):
        e = Engine(prog, prog.fn(n), d)
        ctx.engine(e)
    d.names.discard(None)
    if not d.names:
        raise AnalysisBroken("the file that marks a checkpoint complete was not found")
    a = Save(ctx, d.names)
    a.where = g.where()
    a.inits, a.dirs, a.counters = counters(prog, g)
    e = Engine(prog, g, a)
    ctx.engine(e)
    if not a.oks:
        raise AnalysisBroken("Save has no successful path")
    e = Engine(prog, g, Paths(ctx, g.where()))
    ctx.engine(e)
    for h in prog.fns.values():
        if last(h.name) == "Checkpoint" and "Service" in h.cls and not h.lam and h.blocks:
            r = Rpc(ctx, h.name)
            r.where = h.where()
            ctx.engine(Engine(prog, h, r, inline=lambda k, ev: k.cls != "TFRecordCheckpointer"))
    ctx.need("D", 2)


class Counters(Auto):
    def __init__(self):
        self.inits, self.dirs, self.counters = {}, {}, set()

    def event(self, st, ev):
        if ev.k == "decl" and ev.raw is not None and ev.val is not None:
            nm = ev.raw.get("var")
            if nm and ev_const(ev.val, {KEEP: 1}) is not None:
                self.inits.setdefault(str(nm), ev.val)
                if KEEP in ev.val.toks:
                    self.counters.add(str(nm))
        if ev.k == "asg" and ev.op in ("++", "--", "+=", "-=") and ev.l is not None:
            self.dirs[vname(ev.l)] = -1 if ev.op[0] == "-" else 1
        return st.auto

    def branch(self, st, atom, val, line, fn):
        if KEEP in atom.toks:
            self.counters |= {vname(y) for y in atom.toks if y.k == "phi"}
        return st.auto


def counters(prog, g):
    c = Counters()
    Engine(prog, g, c).run()
    return c.inits, c.dirs, c.counters
