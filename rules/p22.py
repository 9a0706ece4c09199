"""TrajectoryWriter: an item is written after its chunks, in order, and with the right keys to keep."""
from engine.explore import result
from engine.util import *
from engine.explore import subst
from engine.ir import AnalysisBroken
from rules.p18 import base, mine
from rules.p16 import callee, calls, dict_, scan, isfind

QUEUE = "write_queue_"
ADDERS = ("UnsafeArenaAddAllocated", "AddAllocated", "add_chunks", "Add")


def queue_of(s):
    return mine(s) == QUEUE


def front(s):
    """a part of the first item of the queue"""
    if s is None or calls(s, "next"):
        return False
    for x in s.toks:
        if x.k == "call" and last(x.a[0]) in ("front", "begin") and x.a[1] is not None and queue_of(x.a[1]):
            return True
        if (x.k in ("idx",) or x.k == "call" and last(x.a[0]) in ("at", "operator[]")) and any(isinstance(y, S) and queue_of(y) for y in x.a) and isinstance(x.a[-1], S) and x.a[-1].k == "lit" and str(x.a[-1].a[0]) == "0":
            return True
    return False


def refs_of(s):
    s = base(s)
    return s is not None and s.k == "m" and last(str(s.a[1])) == "refs"


def universal(prog, x, *getters):
    """x: all_of(refs, lambda) where the lambda asks one of getters for its argument -> that getter"""
    if not callee(x, "c_all_of", "all_of", "c_none_of", "none_of"):
        return None
    good = last(x.a[0]).endswith("all_of")
    for y in x.a[2:] if isinstance(x.a[1], S) or x.a[1] is None else x.a[1:]:
        y = base(y) if isinstance(y, S) else None
        if y is not None and y.k == "lam":
            for g in prog.fns.values():
                if g.lam and g.blocks and (g.usr == y.a[0] or g.usr in str(y.a[0]) or str(y.a[0]) in g.usr):
                    t, _ = bool_paths(prog, g)
                    ok = [f for f, v in t if v is good]
                    for n in getters:
                        if ok and all(any(a.k == "nz" and val and callee(a.a[0], n) for a, val in f.items()) for f in ok) and any(v is not good for _, v in t):
                            return n
    return None


class Worker(Auto):
    """the worker that writes items (P22: data first, P23: bookkeeping)"""

    def __init__(self, ctx, prog, g, pid):
        self.ctx, self.prog, self.g, self.pid = ctx, prog, g, pid
        self.n = {}

    def hit(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def init(self):
        # chunk: state of the current reference; loop: the references of the item; all: every chunk of the item is on the stream
        # req: what the request holds; out: result of writing an item
        return dict_(ref=None, cover=False, keepit=None, facts=frozenset(), all=False, item=False, chunks=False, flying=False, confirm=False, keep=None, keepset=None, known=None, inreq=False, out=None, pops=0, last=None, wrote=False, ended=False)

    def keep_fact(self, atom):
        return result(atom)

    def rebind(self, st, sym):
        s = dict(st.auto)
        p = mk("prev", sym)
        for k in ("keepset", "keepit", "known"):
            if isinstance(s[k], S):
                s[k] = subst(s[k], sym, p)
        s["facts"] = frozenset((n, subst(x, sym, p)) for n, x in s["facts"])
        return dict_(**s)

    def bad(self, pid, rid, key, w, msg, st):
        if self.pid in pid:
            self.ctx.violation(rid, "StreamWorker/%s" % key, w, msg, trace_of(st))

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = "%s:%s" % (fn.where().rsplit(":", 1)[0], line)
        o = scan(atom)
        if o is not None:
            c, leave = base(o[0]), val == o[1]
            if refs_of(c) and front(c):
                if s["ref"] == "added":
                    self.bad("P22", "A", "unnoted", w, "a chunk is put into the request without noting that it is on the stream", st)
                elif s["ref"] == "noted":
                    self.bad("P22", "A", "not-added", w, "a chunk is noted as sent without having been put into the request", st)
                if s["ref"] is None:
                    s["cover"] = True
                elif s["ref"] != "both" and not any(n == "sent" for n, _ in s["facts"]):
                    s["cover"] = False
                s["ref"] = None if leave else "open"
                s["facts"] = frozenset()
                if leave:
                    s["all"] = s["all"] or s["cover"]
                    s["cover"] = False
            elif s["item"] and not refs_of(c) and s["keep"] is not None and not calls(c, "chunks"):
                s["keep"] = "left" if leave else "open" if s["keep"] != "open" else "skipped"
                s["keepset"] = c
            elif s["item"] and s["keep"] is None and (c is not None and c.k in ("ctor", "v", "p", "obj", "phi", "prev")):
                s["keep"] = "left" if leave else "open"
                s["keepset"] = c
            if leave:
                s["keepit"] = None
            elif s["item"]:
                s["keepit"] = next((base(x) for x in atom.a if c not in x.toks or base(x).k == "phi"), None)
            return dict_(**s)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "IsReady"):
                s["facts"] = s["facts"] | {("ready" if val else "unready", base(x.a[1]))}
            elif callee(x, "contains", "count") and calls(x, "chunk_key"):
                c = base(x.a[1])
                k = next(iter(calls(x, "chunk_key")))
                s["facts"] = s["facts"] | {("sent" if val else "unsent", base(k.a[1]))}
                if s["known"] is not None and s["known"] is not c:
                    self.bad("P22", "C", "known-set", w, "the chunks that the server was told to keep are not those the writer takes to be there", st)
            elif callee(x, "Write"):
                s["out" if s["inreq"] else "chunkout"] = val
                s.pop("chunkout", None)
                if s["inreq"]:
                    s["inreq"] = False
                    s["last"] = "ok" if val else "failed"
                else:
                    s["last"] = "chunks" if val else "cfailed"
                    if val:
                        s["chunks"] = "written"
            else:
                u = universal(self.prog, x, "contains", "IsReady")
                if u == "contains" and val:
                    s["all"] = True
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        w = ev.where()
        n = last(ev.fn or "")
        if s["ended"] and ev.k in ("call", "asg") and ("in_flight_items_" in repr(ev.recv) or "in_flight_items_" in repr(ev.l) or any("in_flight_items_" in repr(x) for x in ev.args or ())):
            s["wrote"] = False
        if ev.k == "call":
            if n == "Finish":
                s["ended"] = True
            if n == "Clear" or n in ("clear_chunks", "UnsafeArenaReleaseLast", "clear_item"):
                if s["chunks"] is True and s["last"] not in ("chunks", "ok", "failed", "cfailed"):
                    self.bad("P22", "A", "dropped", w, "chunks are taken out of the request before it was written", st)
                if n == "Clear":
                    s["chunks"] = False
            elif n in ADDERS and callee(ev.recv, "mutable_chunks"):
                self.hit("add")
                c = ev.args[0] if ev.args else None
                r = [base(x.a[1]) for x in calls(c, "GetChunk")] if c is not None else []
                r = r[0] if r else None
                if r is None or not front(r):
                    self.bad("P22", "A", "other-chunk", w, "the chunk that is sent is not one of the item's", st)
                elif ("ready", r) not in s["facts"]:
                    self.bad("P22", "A", "unready", w, "a chunk is sent although it was not finished", st)
                elif ("unsent", r) not in s["facts"]:
                    self.bad("P22", "A", "again", w, "a chunk is sent again although it is on the stream", st)
                s["ref"] = "both" if s["ref"] == "noted" else "added"
                s["chunks"], s["last"] = True, None
            elif n in ("insert", "emplace") and ev.args and calls(ev.args[0], "chunk_key") and front(ev.args[0]) and s["ref"] is not None:
                s["ref"] = "both" if s["ref"] == "added" else s["ref"] if s["ref"] == "both" else "noted"
            elif n in ("insert", "emplace") and mine(ev.recv) == "in_flight_items_":
                self.hit("fly")
                s["flying"] = front(ev.args[0]) and callee(ev.args[0], "key")
            elif mine(ev.recv) == "in_flight_items_" and n in ("erase", "clear", "swap"):
                if s["out"] is not False or n != "erase":
                    self.bad("P23", "D", "forgotten", w, "an item that was or will be written is no longer noted as waiting for its confirmation", st)
                s["flying"] = False
            elif n in ("unsafe_arena_set_allocated_item", "set_allocated_item") or n in ("CopyFrom", "Swap", "MergeFrom") and callee(ev.recv, "mutable_item"):
                self.item(st, s, ev.args[0] if ev.args else None, w)
            elif n == "set_send_confirmation":
                s["confirm"] = bool(ev.args) and str(ev.args[0]) in ("true", "1")
            elif n in ("add_keep_chunk_keys", "Add") and ev.recv is not None and (n != "Add" or callee(ev.recv, "mutable_keep_chunk_keys")):
                self.hit("keep")
                if s["keep"] == "open" and ev.args and any(x is s["keepset"] or x is s["keepit"] for x in ev.args[0].toks):
                    s["keep"] = "added"
                else:
                    self.bad("P22", "C", "keep-key", w, "a key to keep does not come from the set of chunks that stay", st)
            elif n == "Write" and ev.recv is not None:
                if s["item"]:
                    self.write(st, s, w)
            elif n in ("pop_front", "erase", "pop_back", "clear", "swap") and ev.recv is not None and queue_of(ev.recv):
                self.hit("pop")
                if n != "pop_front" or s["out"] is not True or s["pops"]:
                    self.bad("P22P23", "B" if self.pid == "P22" else "D", "lost", w, "an item leaves the queue without having been written", st)
                s["pops"] = 1
        elif ev.k == "asg" and ev.l is not None and base(ev.l) is not None:
            l = base(ev.l)
            if l.k == "call" and last(l.a[0]) == "mutable_item" and ev.r is not None and front(ev.r):
                self.item(st, s, ev.r, w)
            if ev.r is not None and base(ev.r) is not None and (callee(ev.r, "front") or callee(ev.r, "begin")) and front(ev.r):
                self.take(st, s, w)
        elif ev.k == "decl" and ev.val is not None and callee(ev.val, "front") and queue_of(ev.val.a[1]):
            self.take(st, s, w)
        return dict_(**s)

    def take(self, st, s, w):
        """the next item is looked at"""
        self.hit("take")
        if s["out"] is True and not s["pops"]:
            self.bad("P22", "B", "again", w, "an item that was written stays in the queue", st)
        if s["out"] is True and s["chunks"]:
            self.bad("P22", "A", "resent", w, "the request of the last item is used again without having been cleared", st)
        if s["out"] is False:
            self.bad("P22", "B", "continue", w, "the stream is used although writing failed", st)
        s.update(all=False, item=False, flying=False, confirm=False, keep=None, out=None, pops=0, facts=frozenset(), ref=None, cover=False, keepset=None, keepit=None, last=None)

    def item(self, st, s, a, w):
        self.hit("item")
        if a is None or not front(a):
            self.bad("P22", "B", "order", w, "the item that is written is not the first of the queue", st)
        s["item"], s["inreq"], s["last"] = True, True, None

    def write(self, st, s, w):
        self.hit("write")
        if not s["all"]:
            self.bad("P22", "B", "early", w, "an item is written although some of its chunks may not be on the stream", st)
        if not s["flying"]:
            self.bad("P23", "D", "untracked", w, "an item is written before it is noted as waiting for its confirmation", st)
        if not s["confirm"]:
            self.bad("P23", "D", "no-confirmation", w, "no confirmation is asked for", st)
        if s["keep"] not in ("left", None) or s["keep"] is None:
            self.bad("P22", "C", "keep-missing", w, "the server is not told about all the chunks to keep", st)
        s["known"] = s["keepset"]
        s["wrote"] = True
        s["item"] = False
        if s["chunks"] is True:
            s["last"] = "ok"

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if s["out"] is True and not s["pops"]:
            self.bad("P22", "B", "again", self.g.where(), "an item that was written stays in the queue", st)
        if s["ended"] and not calls(ret, "Finish") and status_ok_on_exit(None, st, ret) is not False:
            self.bad("P23", "C", "outcome", self.g.where(), "the outcome of the stream is not reported", st)
        if s["wrote"] and s["ended"]:
            self.bad("P23", "D", "unconfirmed-lost", self.g.where(), "items that were written but not confirmed when the stream ended are neither written again nor reported", st)


class Keep(Auto):
    """GetKeepKeys: what stays is what is on the stream and is referred to by the chunkers or by later items"""

    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g
        self.n = {}

    def init(self):
        # chunkers / key / queue / ref: loop states; first: whether the current item is known (not) to be the first
        return dict_(chunkers=None, key=None, queue=None, ref=None, on=None, first=None)

    def keep_fact(self, atom):
        return result(atom)

    def bad(self, key, msg, st, w=None):
        self.ctx.violation("C", "%s/%s" % (last(self.g.name), key), w or self.g.where(), msg, trace_of(st))

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k == "eq" and all(isinstance(x, S) for x in atom.a):
            a, b = (base(x) for x in atom.a)
            for x, y in ((a, b), (b, a)):
                # is this the first item?
                if callee(x, "begin", "cbegin") and queue_of(x.a[1]) and not callee(y, "end", "cend") or callee(x, "front") and queue_of(x.a[1]):
                    s["first"] = val
                    return dict_(**s)
        o = scan(atom)
        if o is not None:
            c, leave = base(o[0]), val == o[1]
            if mine(c) == "chunkers_":
                if s["chunkers"] == "open":
                    self.bad("chunker", "the chunks of a chunker are not kept", st)
                s["chunkers"] = "left" if leave else "open"
                s["key"] = None
            elif calls(c, "GetKeepKeys") and not queue_of(c):
                self.step(st, s, "key", leave)
                if leave and s["chunkers"] == "open":
                    s["chunkers"] = "done"
            elif queue_of(c):
                if s["queue"] == "open" and s["first"] is not True:
                    self.bad("item", "the chunks of a queued item are not kept", st)
                rest = [base(x) for x in atom.a if not (callee(base(x), "end", "cend", "size"))]
                y = rest[0] if rest else None
                s["first"] = None
                if s["queue"] is None and y is not None:
                    # where the loop starts: at the first item or behind it
                    if callee(y, "begin", "cbegin") or y.k == "lit" and str(y.a[0]) == "0":
                        s["first"] = True
                    elif y.k == "lit" and str(y.a[0]) != "1" or y.k != "lit" and not (calls(y, "next") or y.k in ("op", "callx", "call", "phi")) or any(x.k == "lit" and str(x.a[0]) not in ("0", "1") for x in y.toks):
                        self.bad("item", "the chunks of a queued item are not kept", st)
                s["queue"] = "left" if leave else "open"
                s["ref"] = None
            elif refs_of(c):
                self.step(st, s, "ref", leave)
                if leave and s["queue"] == "open":
                    s["queue"] = "done"
            return dict_(**s)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "contains", "count"):
                s["on"] = val
                if not val:
                    for k in ("key", "ref"):
                        if s[k] == "open":
                            s[k] = "not"
        if atom.k == "eq" and any(isfind(base(x)) for x in atom.a):
            s["on"] = not val
            if val:
                for k in ("key", "ref"):
                    if s[k] == "open":
                        s[k] = "not"
        return dict_(**s)

    def step(self, st, s, k, leave):
        if s[k] == "open":
            self.bad("skipped", "a chunk that is still needed is not kept", st)
        s[k] = "left" if leave else "open"
        s["on"] = None

    def event(self, st, ev):
        s = dict(st.auto)
        if ev.k == "call" and last(ev.fn or "") in ("insert", "emplace", "push_back", "emplace_back") and ev.args:
            self.n["insert"] = self.n.get("insert", 0) + 1
            if s["on"] is not True:
                self.bad("unsent", "a chunk is to be kept that is not on the stream", st, ev.where())
            for k in ("key", "ref"):
                if s[k] == "open":
                    s[k] = "kept"
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        for k in ("chunkers", "queue"):
            if s[k] != "left":
                self.bad(k, "not all %s are looked at for chunks to keep" % {"chunkers": "chunkers", "queue": "queued items"}[k], st)


def worker(ctx, pid):
    prog = ctx.program("trajectory_writer.cc")
    fns = [g for g in prog.fns.values() if g.blocks and last(g.cls) == "TrajectoryWriter" and not g.lam]
    pops = [g for g in fns if any(c.get("k") == "call" and QUEUE in repr(c) and "pop_front" in repr(c) for c in g.events())]
    # up to the function that the thread runs
    top = None
    for g in fns:
        if last(g.name) == "RunStreamWorker":
            top = g
    top = top or (pops[0] if pops else None)
    if top is None:
        raise AnalysisBroken("nothing takes items out of the queue")
    a = Worker(ctx, prog, top, pid)
    e = Engine(prog, top, a, inline=lambda k, ev: (k.lam or k.cls == "" or last(k.cls) == "TrajectoryWriter" or last(k.cls) == "ArenaOwnedRequest") and last(k.name) not in ("FromGrpcStatus", "StartThread"))
    ctx.engine(e)
    return prog, top, a


def run(ctx):
    ctx.rule("A", "Every finished chunk of the item that is not yet on the stream is put into the request and noted; the request is cleared only after it was written.")
    ctx.rule("B", "The first item of the queue is written after every chunk that it refers to is on the stream, and leaves the queue exactly when it was written.")
    ctx.rule("C", "The keys to keep that accompany an item are those on the stream that a chunker or a later item needs, and are what the writer takes to be on the stream afterwards.")
    prog, top, a = worker(ctx, "P22")
    for k, r in (("add", "A"), ("write", "B"), ("pop", "B"), ("keep", "C"), ("take", "B")):
        if not a.n.get(k):
            raise AnalysisBroken("%s: no %s seen" % (top.name, k))
        ctx.instance(r, "%s: %s" % (last(top.name), k))
    gs = [g for g in prog.fns.values() if g.blocks and last(g.cls) == "TrajectoryWriter" and not g.lam and any(last(c.get("fn") or c.get("name") or "") == "GetKeepKeys" and "Chunker" in (c.get("fn") or c.get("name") or "") for c in g.calls())]
    if not gs:
        raise AnalysisBroken("nothing asks the chunkers for the keys to keep")
    for g in gs:
        k = Keep(ctx, g)
        ctx.engine(Engine(prog, g, k, inline=lambda f, ev: f.lam or f.cls == ""))
        if not k.n:
            raise AnalysisBroken("%s keeps nothing" % g.name)
        ctx.instance("C", g.name)
    # only CreateItem appends, at the end
    for g in prog.fns.values():
        if not g.blocks or not (last(g.cls) == "TrajectoryWriter" or g.lam):
            continue
        c = Order(ctx, g)
        if any(QUEUE in repr(e) for e in g.events() if e["k"] == "call"):
            ctx.engine(Engine(prog, g, c, inline=lambda f, ev: False))
            if c.n:
                ctx.instance("B", "%s: order" % last(g.name))


class Order(Auto):
    def __init__(self, ctx, g):
        self.ctx, self.g, self.n = ctx, g, 0

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "call" and ev.recv is not None and queue_of(ev.recv):
            n = last(ev.fn or "")
            if n in ("push_back", "emplace_back"):
                self.n += 1
            elif n in ("push_front", "emplace_front", "insert", "emplace", "swap"):
                self.ctx.violation("B", "%s/order" % last(self.g.name), ev.where(), "an item overtakes those created before it", trace_of(st))
        return ()
