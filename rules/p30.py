"""Shutdown: nothing is destroyed while a thread or request may still use it."""
from engine.util import *
from engine.explore import DEAD
from engine.ir import AnalysisBroken
from rules.p18 import base, mine
from rules.p16 import callee, calls, dict_, scan
from rules.p34 import Base
from rules.p23 import lambda_of

JOIN = "join "
SIG = ("Signal", "SignalAll")


def field(s):
    """the direct field of *this that s denotes or points into"""
    s = base(s)
    while s is not None and s.k == "call" and last(s.a[0]) in ("get", "operator->", "operator*", "load") and isinstance(s.a[1], S):
        s = base(s.a[1])
    return mine(s) if s is not None else None


def label(ev):
    """what an event does to the parts of *this"""
    n = last(ev.fn or "")
    if ev.k == "asg" and ev.l is not None and mine(ev.l):
        f, r = mine(ev.l), base(ev.r) if ev.r is not None else None
        if r is not None and (r.k in ("null",) or r is NULL or repr(r) in ("null", "init()") or r.k in ("ctor", "init") and len([x for x in r.a[1:] if isinstance(x, S) and x.k not in ("i", "null")]) == 0):
            return [JOIN + f]
        if r is not None and (repr(r) in ("true", "false")):
            return ["%s=%s" % (f, repr(r) == "true")]
        return ["%s=?" % f]
    if ev.k == "dtor" and ev.val is not None and mine(ev.val):
        return [JOIN + mine(ev.val)]
    if ev.k == "call" and ev.recv is not None:
        f = field(ev.recv)
        if f:
            if n in ("reset", "clear") and not [a for a in ev.args if a is not None and repr(a) != "null"]:
                return [JOIN + f]
            if n in ("store", "exchange", "operator="):
                a = base(ev.args[0]) if ev.args else None
                if a is not None and repr(a) in ("true", "false"):
                    return ["%s=%s" % (f, repr(a) == "true")]
                if n == "operator=" and a is not None and repr(a) in ("null", "init()"):
                    return [JOIN + f]
            return ["%s.%s" % (f, n)]
    return []


class Steps(Base):
    """an order of steps: rules maps a label to (labels that must have happened, locks: "-" none / name / None)"""

    def __init__(self, ctx, g, rid, rules, required, clears=None, off=None, loops=None, msgs=None):
        Base.__init__(self, ctx, g)
        self.rid, self.rules, self.required = rid, rules, required
        self.clears, self.off, self.loops, self.msgs = clears or {}, off, loops or {}, msgs or {}
        self.seen = set()

    def init(self):
        return dict_(done=frozenset(), off=False, open=None, under=frozenset())

    def names(self, ev):
        out = []
        for l in label(ev):
            out.append(l)
            f, _, n = l.partition(".")
            if n in SIG:
                out.append(f + ".wake")
        return out

    def cover(self, st, s, w, key=None):
        if s["open"] and not s["off"] and (key is None or key == s["open"]):
            self.bad(self.rid, "each-" + s["open"], w, "an element of %s is left out" % s["open"], st)
            return dict_(**dict(s, open=None))
        return dict_(**s)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        o = scan(atom)
        if o is not None and mine(base(o[0])) in self.loops:
            f = mine(base(o[0]))
            s = dict(self.cover(st, s, self.at(fn, line), f))
            if val == o[1]:
                s["done"] |= {"each " + f}
                s["open"] = None
            else:
                s["open"] = f
        if atom.k in ("nz", "bool", "okp") and self.off:
            s = dict(self.off(self, s, atom, val) or {}) or s
            if s.get("dead"):
                return DEAD
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        for f, (method, cls) in self.loops.items():
            if ev.k == "call" and last(ev.fn or "") == method and s["open"] == f and (ev.recv is not None and (any(mine(x) == f for x in ev.recv.toks) or cls and cls in (ev.fn or ""))):
                s["open"] = None
                self.seen.add("each " + f)
                self.need(st, "each " + f, s, ev)
        for l in self.names(ev):
            self.seen.add(l)
            self.need(st, l, s, ev)
            held = {repr(x) for x in (ev.locks or ())}
            for c in self.clears.get(l, ()):
                # a waiter that was woken while the lock is held cannot look before it is released
                if not any(n == c and m in held for n, m in s["under"]):
                    s["done"] -= {c}
            s["done"] |= {l}
            if l.endswith(".wake"):
                s["under"] |= {(x, m) for m in held for x in (l, l[:-5] + ".Signal", l[:-5] + ".SignalAll")}
        if ev.k == "unlock":
            s["under"] = frozenset()
        return dict_(**s)

    def need(self, st, l, s, ev):
        if l not in self.rules:
            return
        before, lock = self.rules[l]
        miss = [b for b in before if not any(x in s["done"] for x in b.split("|"))]
        if miss:
            self.bad(self.rid, "order-%s" % l.replace(" ", "-"), ev.where(), self.msgs.get((l, miss[0])) or "%s before %s" % (l, miss[0]), st)
        held = {last(str(mine(x) or x)) for x in (ev.locks or ())}
        if lock == "-" and held:
            self.bad(self.rid, "lock-%s" % l.replace(" ", "-"), ev.where(), "%s while holding %s (the thread that is waited for may need it)" % (l, sorted(held)), st)
        elif lock not in (None, "-") and lock not in held:
            self.bad(self.rid, "nolock-%s" % l.replace(" ", "-"), ev.where(), "%s without holding %s" % (l, lock), st)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None and hasattr(ev, "where") else self.g.where()
        s = dict(self.cover(st, s, w))
        if s["off"]:
            return
        for r in self.required:
            if not any(x in s["done"] for x in r.split("|")):
                self.bad(self.rid, "missing-%s" % r.split("|")[0].replace(" ", "-"), w, "a path leaves out: %s" % r, st)


def steps(ctx, prog, rid, name, **kw):
    gs = [g for g in prog.fns.values() if g.blocks and not g.lam and ("::" + g.name).endswith(name if name.startswith("Impl") else "::" + name)]
    if len(gs) != 1:
        raise AnalysisBroken("%s: %d definitions" % (name, len(gs)))
    g = gs[0]
    a = Steps(ctx, g, rid, **kw)
    ctx.engine(Engine(prog, g, a, inline=lambda k, ev: k.cls == g.cls or k.cls == "" and not k.name.startswith("std")))
    miss = [r for r in kw["required"] if not any(x in a.seen or x.startswith("each ") for x in r.split("|"))]
    ctx.instance(rid, short(g.name))
    return a


def unless(fld, when=False):
    """paths on which the field has a value need not do anything"""
    def off(self, s, atom, val):
        if any(mine(x) == fld for x in atom.a[0].toks):
            known = dict(s).get("known_" + fld)
            s["off"] = val == when
        return s
    return off


class Wait(Base):
    def init(self):
        return dict_(run=None, fn=None, sig=False, waited=False)

    def __init__(self, ctx, prog, g):
        Base.__init__(self, ctx, g)
        self.prog = prog

    def handler(self, s):
        """what a function value does: 'stop', 'none' or '?'"""
        g = lambda_of(self.prog, s)
        if g is not None:
            names = {last(c.get("fn") or c.get("name") or "") for c in g.calls()}
            return "stop" if "SignalStop" in names or any("stop_signalled_" in repr(e) for e in g.events()) else "none"
        s = base(s)
        if s is None or s.k in ("null", "init") or repr(s) == "null" or s.k == "ctor" and len(s.a) == 1:
            return "none"
        return "?"

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool") and any(mine(x) == "running_" for x in atom.a[0].toks):
            s["run"] = val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "asg" and ev.l is not None and repr(ev.l) == "stop_server_fn":
            s["fn"] = self.handler(ev.r)
        elif ev.k == "call" and n == "operator=" and ev.recv is not None and repr(ev.recv) == "stop_server_fn":
            s["fn"] = self.handler(ev.args[0])
        elif ev.k == "call" and n in ("signal", "sigaction"):
            if s["fn"] not in ("stop", "?"):
                self.bad("C", "handler", w, "a signal can arrive before the handler knows the server", st)
            s["sig"] = True
        elif ev.k == "call" and n == "Wait" and ev.recv is not None and field(ev.recv) == "server_":
            self.n["wait"] = 1
            if s["run"] is not True:
                self.bad("C", "running", w, "waits for a server that is not running", st)
            if ev.locks:
                self.bad("C", "lock", w, "waits for the server while holding a lock that Stop needs", st)
            if not s["sig"] or s["fn"] in (None, "none"):
                self.bad("C", "signal", w, "waits for the server without handling signals", st)
            s["waited"] = True
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = self.g.where()
        if s["run"] is False:
            if ret is not FALSE and repr(ret) != "false":
                self.bad("C", "result", w, "a server that is not running is reported as stopped by a signal", st)
            return
        if not s["waited"]:
            self.bad("C", "wait", w, "returns without having waited for the server", st)
        if s["fn"] == "stop":
            self.bad("C", "reset", w, "the signal handler still refers to the server after Wait returned", st)
        if ret is not None and not any(mine(x) == "stop_signalled_" for x in ret.toks) and not any("stop_signalled_" in repr(f) for f in st.facts):
            self.bad("C", "result", w, "the result does not tell whether a signal stopped the server", st)


class NoLock(Base):
    def init(self):
        return dict_(set=False)

    def event(self, st, ev):
        s = dict(st.auto)
        if ev.k == "lock" or ev.k == "call" and last(ev.fn or "") in ("Lock", "WriterLock", "ReaderLock", "Stop", "Close", "Shutdown"):
            self.bad("C", "lock", ev.where(), "the signal handler takes a lock or stops the server itself", st)
        if "stop_signalled_=True" in label(ev):
            s["set"] = True
        return dict_(**s)

    def exit(self, st, ret, ev):
        if not dict(st.auto)["set"]:
            self.bad("C", "set", self.g.where(), "a signal is not recorded", st)


class Tick(Base):
    """the closure of the signal worker"""
    def init(self):
        return dict_(sig=None, stopped=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool") and any(x.k == "m" and last(x.a[1]) == "stop_signalled_" for x in atom.a[0].toks):
            s["sig"] = val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        if ev.k == "call" and last(ev.fn or "") == "Stop":
            self.n["stop"] = 1
            s["stopped"] = True
            if s["sig"] is not True:
                self.bad("C", "unasked", ev.where(), "the server is stopped although no signal arrived", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if s["sig"] is not False and not s["stopped"]:
            self.bad("C", "ignored", self.g.where(), "a signal does not stop the server", st)


class Init(Base):
    def keep_fact(self, atom):
        return atom.k == "okp"

    def init(self):
        return dict_(made=None, srv=None, reg=False, run=False, start=None, nstart=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        x = base(atom.a[0]) if atom.a else None
        if atom.k in ("okp",) and calls(x, "Create"):
            s["made"] = val
        elif atom.k == "okp" and calls(x, "Start") and field(x.a[1] if x.k == "call" else x) == "signal_worker_":
            s["start"] = val
        elif atom.k in ("nz", "bool") and x is not None and (mine(x) == "server_" or calls(x, "BuildAndStart")):
            s["srv"] = val
        elif atom.k == "eq" and any(repr(y) == "null" for y in atom.a) and any(mine(y) == "server_" for y in atom.a if isinstance(y, S)):
            s["srv"] = not val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "call" and n == "RegisterService":
            s["reg"] = s["reg"] or any(mine(x) == "reverb_service_" for a in ev.args if a is not None for x in a.toks)
            if s["made"] is not True:
                self.bad("D", "service", w, "a service is registered that may not exist", st)
        elif ev.k == "call" and n == "BuildAndStart":
            self.n["build"] = 1
            if not s["reg"]:
                self.bad("D", "register", w, "the server is started without its service", st)
        elif "running_=True" in label(ev):
            self.n["run"] = 1
            s["run"] = True
            if s["srv"] is not True:
                self.bad("D", "running", w, "a server that was not started counts as running (stopping it is undefined)", st)
        elif "signal_worker_.Start" in label(ev):
            s["nstart"] = True
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        good = status_ok_on_exit(None, st, ret)
        if good is not False and (s["srv"] is False or s["made"] is False):
            self.bad("D", "error", self.g.where(), "a server that could not be started is reported as started", st)
            return
        if s["srv"] is True and not s["run"]:
            self.bad("D", "stop", self.g.where(), "a started server is not stopped by Stop (running_ is not set)", st)
        if good is not False and s["srv"] is True and (not s["nstart"] or s["start"] is False):
            self.bad("D", "signals", self.g.where(), "signals are not looked at by a started server", st)


class PStart(Base):
    def init(self):
        return dict_(stopped=None, worker=None, started=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool") and mine(atom.a[0]) in ("stopped_", "worker_"):
            s[mine(atom.a[0])[:-1]] = val
        elif atom.k == "eq" and any(repr(y) == "null" for y in atom.a) and any(mine(y) == "worker_" for y in atom.a if isinstance(y, S)):
            s["worker"] = not val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        if ev.k == "asg" and ev.l is not None and mine(ev.l) == "worker_":
            self.n["start"] = 1
            s["started"] = True
            if s["stopped"] is not False:
                self.bad("E", "stopped", ev.where(), "a thread is started that nobody will stop (Stop was called before)", st)
            if s["worker"] is not False:
                self.bad("E", "twice", ev.where(), "a second thread replaces (and waits for) the first one", st)
            if not any(mine(x) == "mu_" for x in ev.locks or ()):
                self.bad("E", "lock", ev.where(), "the thread is started without holding mu_", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if status_ok_on_exit(None, st, ret) is not False and not s["started"]:
            self.bad("E", "started", self.g.where(), "Start succeeds without a thread", st)


class PLoop(Base):
    """the thread of a periodic closure / of an executor"""
    ASK = ("LockWhenWithDeadline", "LockWhenWithTimeout", "AwaitWithTimeout", "AwaitWithDeadline", "Pop")

    def __init__(self, ctx, g, rid, fn):
        Base.__init__(self, ctx, g)
        self.rid, self.fn = rid, fn

    def init(self):
        return dict_(go=None, due=False, held=False)

    def tested(self, atom):
        """True if the atom being true means "stopped"""
        x = atom.a[0] if atom.a and isinstance(atom.a[0], S) else None
        if atom.k not in ("nz", "bool") or x is None:
            return None
        if callee(base(x), *self.ASK):
            return last(base(x).a[0]) != "Pop"
        if any(y.k == "m" and last(y.a[1]) == "stopped_" for y in x.toks):
            return True
        return None

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        t = self.tested(atom)
        if t is not None:
            if s["due"]:
                self.bad(self.rid, "skipped", self.at(fn, line), "a task or period is skipped", st)
            s["go"] = val != t
            s["due"] = s["go"]
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "call" and n == "operator()" and ev.recv is not None and (self.fn is None or any(x.k == "m" and last(x.a[1]) == self.fn for x in ev.recv.toks)):
            self.n["call"] = 1
            if s["go"] is not True:
                self.bad(self.rid, "after", ev.where(), "the closure runs although the thread was told to stop", st)
            if ev.locks:
                self.bad(self.rid, "lock", ev.where(), "the closure runs while a lock is held that stopping needs", st)
            if s["held"]:
                self.bad(self.rid, "lock", ev.where(), "the closure runs while a lock is held that stopping needs", st)
            s["due"] = False
        elif ev.k == "call" and ev.recv is not None and any(x.k == "m" and last(x.a[1]).rstrip("_").endswith("mu") for x in ev.recv.toks):
            if "Unlock" in n:
                s["held"] = False
            elif "Lock" in n:
                s["held"] = True
        elif ev.k in ("lock", "unlock"):
            s["held"] = ev.k == "lock"
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if s["go"] is not False:
            self.bad(self.rid, "ends", self.g.where(), "the thread ends although nobody stopped it", st)


def only(prog, name):
    gs = [g for g in prog.fns.values() if g.blocks and not g.lam and ("::" + g.name).endswith(name if name.startswith("Impl") else "::" + name)]
    if len(gs) != 1:
        raise AnalysisBroken("%s: %d definitions" % (name, len(gs)))
    return gs[0]


def inner(prog, g, what):
    """lambdas of g that mention something"""
    out = [h for h in prog.fns.values() if h.lam and h.blocks and h.parent == g.usr and any(what in repr(e) for e in h.events())]
    if not out:
        raise AnalysisBroken("%s: no lambda with %s" % (g.name, what))
    return out


def go(ctx, prog, a):
    ctx.engine(Engine(prog, a.g, a, inline=lambda k, ev: k.cls == a.g.cls and last(k.name) != "Stop"))


def run(ctx):
    R = ctx.rule
    R("A", "Stop closes the tables and then shuts the RPC server down (with a deadline), once and under the server's mutex; the destructor joins the signal worker before; the service outlives the server.")
    R("B", "Closing a service closes every table; closing a table cancels its rate limiter and then wakes its worker.")
    R("C", "A signal only sets a flag; the signal worker stops the server exactly when it is set; Wait registers the handler before it waits (without lock) and removes it afterwards.")
    R("D", "A server counts as running exactly when it was started with its service; otherwise an error is returned.")
    R("E", "Periodic closures: one thread at most, none after Stop; Stop joins the thread without holding the lock; the closure never runs after it.")
    R("F", "A destructor tells each of its threads to stop, wakes it and joins it (without locks), in the order of their dependencies, before anything that they use goes.")
    p = ctx.program("platform/default/server.cc")
    for n in ("ServerImpl::Stop", "ServerImpl::~ServerImpl"):
        d = n.endswith("~ServerImpl")
        first = ["signal_worker_.Stop"] if d else []
        rules = {"reverb_service_.Close": (first, "mu_"), "server_.Shutdown": (first + ["reverb_service_.Close"], "mu_"), "running_=False": ([], "mu_"), "signal_worker_.Stop": ([], "-")}
        msgs = {("server_.Shutdown", "reverb_service_.Close"): "the server is shut down before blocked operations were ended by closing the tables"}
        a = steps(ctx, p, "A", n, rules=rules, required=["reverb_service_.Close", "server_.Shutdown", "running_=False"] + first, off=unless("running_"), msgs=msgs)
        a.off = None
    g = only(p, "ServerImpl::Stop")

    class Shut(Base):
        def init(self):
            return dict_(held=0)

        def event(self, st, ev):
            s = dict(st.auto)
            l = label(ev)
            if "server_.Shutdown" in l:
                if not [x for x in ev.args if x is not None]:
                    self.bad("A", "deadline", ev.where(), "sampler streams never end by themselves: shutting down without a deadline blocks forever", st)
                s["held"] = 1
            if s["held"] == 0 and ("reverb_service_.Close" in l or "running_=False" in l):
                s["held"] = 2
            if ev.k == "unlock" and s["held"] == 2:
                self.bad("A", "atomic", ev.where(), "the mutex is released in the middle of stopping", st)
            return dict_(**s)
    go(ctx, p, Shut(ctx, g))
    # the path on which the server does not run must not touch it
    cl = next((c for n, c in p.classes.items() if last(n) == "ServerImpl"), None)
    if cl is None:
        raise AnalysisBroken("ServerImpl is missing")
    order = [f["name"] for f in cl["fields"]]
    if "reverb_service_" not in order or "server_" not in order:
        raise AnalysisBroken("ServerImpl: fields are missing")
    ctx.instance("A", "ServerImpl: order of members")
    if order.index("reverb_service_") > order.index("server_"):
        ctx.violation("A", "ServerImpl/members", g.where(), "the service is destroyed before the server that serves it", [])
    g = only(p, "ServerImpl::Wait")
    a = Wait(ctx, p, g)
    go(ctx, p, a)
    if not a.n.get("wait"):
        ctx.violation("C", "ServerImpl::Wait/wait", g.where(), "Wait does not wait for the server", [])
    ctx.instance("C", "ServerImpl::Wait")
    g = only(p, "ServerImpl::SignalStop")
    go(ctx, p, NoLock(ctx, g))
    ctx.instance("C", "ServerImpl::SignalStop")
    for h in inner(p, only(p, "ServerImpl::ServerImpl"), "Stop"):
        a = Tick(ctx, h)
        ctx.engine(Engine(p, h, a, inline=lambda k, ev: False))
        ctx.instance("C", "signal worker")
    g = only(p, "ServerImpl::Initialize")
    a = Init(ctx, g)
    go(ctx, p, a)
    for k in ("build", "run"):
        if not a.n.get(k):
            raise AnalysisBroken("%s: no %s seen" % (g.name, k))
    ctx.instance("D", "ServerImpl::Initialize")
    for tu in ("reverb_service_impl.cc", "reverb_service_async_impl.cc"):
        p = ctx.program(tu)
        steps(ctx, p, "B", "Impl::Close", rules={}, required=["each tables_"], loops={"tables_": ("Close", "Table::")})
    p = ctx.program("table.cc")
    wake = {"wakeup_worker_.wake": ([], None)}
    steps(ctx, p, "B", "Table::Close", rules={"rate_limiter_.Cancel": ([], "mu_"), "wakeup_worker_.wake": ([], "worker_mu_")},
          required=["rate_limiter_.Cancel", "wakeup_worker_.wake"], clears={"rate_limiter_.Cancel": ["wakeup_worker_.wake", "wakeup_worker_.Signal", "wakeup_worker_.SignalAll"]})
    W, X = JOIN + "table_worker_", JOIN + "extension_worker_"
    T, E = "wakeup_worker_.wake", "extension_work_available_cv_.wake"
    steps(ctx, p, "F", "Table::~Table",
          rules={"stop_worker_=True": ([], "worker_mu_"), T: ([], "worker_mu_"), E: ([], "mu_"),
                 W: (["rate_limiter_.Cancel", "stop_worker_=True", T], "-"),
                 "stop_extension_worker_=True": ([W], "mu_"),
                 X: (["stop_extension_worker_=True", E, W], "-"),
                 "rate_limiter_.UnregisterTable": ([W, X], None), "each sync_extensions_": ([W, X], None), "each async_extensions_": ([W, X], None)},
          msgs={("stop_extension_worker_=True", W): "the extension worker is stopped while the table worker may still wait for space in its buffer (the join never ends)",
                (W, T): "the worker is joined without having been woken up after it was told to stop", (X, E): "the extension worker is joined without having been woken up after it was told to stop"},
          required=["rate_limiter_.Cancel", W, X, "rate_limiter_.UnregisterTable", "each sync_extensions_", "each async_extensions_"],
          clears={"stop_worker_=True": [T], "rate_limiter_.Cancel": [T], "stop_extension_worker_=True": [E]},
          loops={"sync_extensions_": ("UnregisterTable", "Extension"), "async_extensions_": ("UnregisterTable", "Extension")})
    p = ctx.program("chunk_store.cc")
    C = JOIN + "cleaner_"
    steps(ctx, p, "F", "ChunkStore::~ChunkStore", rules={C: (["delete_keys_.Close"], "-")}, required=["delete_keys_.Close", C])
    p = ctx.program("support/task_executor.cc")
    C = JOIN + "threads_"
    steps(ctx, p, "F", "TaskExecutor::~TaskExecutor", rules={C: (["queue_.SetLastItemPushed"], "-")}, required=["queue_.SetLastItemPushed", C])
    for n in ("TaskExecutor::Close", "TaskExecutor::RunWorker"):
        g = only(p, n)
        a = PLoop(ctx, g, "F", None)
        go(ctx, p, a)
        ctx.instance("F", n)
    p = ctx.program("platform/default/thread.cc")

    def joinable(self, s, atom, val):
        if calls(atom.a[0], "joinable"):
            s["off"] = not val
        return s
    steps(ctx, p, "F", "StdThread::~StdThread", rules={}, required=["thread_.join"], off=joinable)
    p = ctx.program("support/periodic_closure.cc")
    g = only(p, "PeriodicClosure::Start")
    a = PStart(ctx, g)
    go(ctx, p, a)
    if not a.n.get("start"):
        ctx.violation("E", "PeriodicClosure::Start/start", g.where(), "no thread is started", [])
    ctx.instance("E", "PeriodicClosure::Start")
    C = JOIN + "worker_"

    def stopped(self, s, atom, val):
        if mine(atom.a[0]) == "stopped_" and "stopped_=True" not in s["done"]:
            s["off"] = val
        return s
    steps(ctx, p, "E", "PeriodicClosure::Stop", rules={"stopped_=True": ([], "mu_"), C: (["stopped_=True"], "-")}, required=["stopped_=True", C], off=stopped)
    for h in inner(p, g, "fn_"):
        a = PLoop(ctx, h, "E", "fn_")
        ctx.engine(Engine(p, h, a, inline=lambda k, ev: False))
        if not a.n.get("call"):
            ctx.violation("E", "PeriodicClosure/call", h.where(), "the closure is never called", [])
        ctx.instance("E", "thread of PeriodicClosure")
