"""Python bindings: interpreter lock released exactly around waiting; errors become exceptions."""
from engine.util import *
from engine.explore import DEAD
from engine.ir import AnalysisBroken, all_tus
from rules.p18 import base
from rules.p16 import callee, dict_
from rules.p21 import is_err
from rules.p34 import Base
from rules.p33 import error, fine

FILE = "pybind.cc"
RAISE = "MaybeRaiseFromStatus"
RELEASE = "gil_scoped_release"
ACQUIRE = "gil_scoped_acquire"
# Python exceptions promised for canonical codes; all others are runtime errors
EXC = {"kInvalidArgument": "PyExc_ValueError", "kResourceExhausted": "PyExc_IndexError", "kUnimplemented": "PyExc_NotImplementedError", "kInternal": "PyExc_RuntimeError"}


def waits(e):
    """primitive operations that wait for another thread or for the server"""
    fn = e.get("fn") or ""
    if fn.startswith(("absl::CondVar::Wait", "absl::Mutex::Await", "absl::Mutex::LockWhen")) or fn in ("grpc::Server::Wait", "grpc::ServerInterface::Shutdown"):
        return True
    if fn.startswith("grpc::internal::") and last(fn) in ("Finish", "Read", "Write"):
        return True
    if "internal::Thread" in fn and (last(fn) in ("reset", "clear", "Join", "join") or last(fn) == "operator=" and "null" in repr(e.get("r"))):
        return True  # joins a thread
    return "ReverbService::" in fn and any("ClientContext" in str(t) for t in e.get("aty", []))


def is_status(ty):
    return (ty or "").replace("const ", "").replace("&", "").strip() in ("absl::Status", "tsl::Status", "tensorflow::Status", "tsl::Status ")


class Calls:
    """what the functions of the program may reach"""

    def __init__(self, prog):
        self.p, self.w, self.py = prog, {}, {}

    def may_wait(self, u):
        if u not in self.w:
            self.w[u] = None
            for x in sorted(self.p.closure([u], lambdas=False)):
                for e in self.p.fns[x].events():
                    if e["k"] in ("call", "asg") and waits(e):
                        self.w[u] = "%s (%s)" % (self.p.fns[x].where(e.get("line")), short(e["fn"]))
                        return self.w[u]
        return self.w[u]

    def ev_waits(self, raw):
        if waits(raw):
            return short(raw["fn"])
        for t in self.p.targets(raw):
            w = self.may_wait(t)
            if w:
                return w
        return None

    def python(self, raw):
        """does the call use the Python API?"""
        fn = raw.get("fn") or ""
        n = last(fn)
        if "PyArray_API" in repr(raw.get("target", "")):
            return "the numpy API"
        if n in (RELEASE, ACQUIRE) or fn.startswith(("pybind11::gil_scoped_", "pybind11::call_guard")):
            return None
        if n.startswith(("Py_", "_Py", "PyErr_", "PyArray_", "PyBytes_", "PyUnicode_", "PyObject_", "PyList_", "PyDict_", "PyTuple_", "PyLong_", "PyFloat_")):
            return n
        if fn.startswith("pybind11::"):
            return short(fn)
        if n == RAISE:
            return n
        for t in self.p.targets(raw):
            r = self.fn_python(t)
            if r:
                return r
        return None

    def fn_python(self, u):
        if u not in self.py:
            self.py[u] = None
            if self.p.fns[u].file.endswith(FILE):
                for e in self.p.fns[u].events():
                    if e["k"] in ("call", "ctor"):
                        r = self.python(e)
                        if r:
                            self.py[u] = "%s (in %s)" % (r, self.p.fns[u].where(e.get("line")))
                            break
        return self.py[u]


def gil(s, n):
    s = base(s)
    return s is not None and s.k == "ctor" and last(str(s.a[0])) == n


class Binding(Base):
    """one bound function: released = how often the lock is given up"""

    def __init__(self, ctx, g, cg, name, guarded):
        Base.__init__(self, ctx, g)
        self.cg, self.name, self.guarded = cg, name, guarded

    def inl(self, k):
        return k.file.endswith(FILE) and (bool(k.lam) or last(k.name) != RAISE and not self.cg.fn_python(k.usr))

    def init(self):
        return dict_(rel=int(self.guarded), pend=frozenset(), raised=False)

    def keep_fact(self, atom):
        return atom.k in ("nz", "okp")

    def V(self, rid, key, ev, msg, st):
        self.ctx.violation(rid, "%s|%s|%s" % (rid, self.name, key), ev.where(), "%s: %s" % (self.name, msg), trace_of(st))

    def branch(self, st, atom, val, line, fn):
        if atom.k == "okp":
            x = base(atom.a[0])
            if error(x) and val or fine(x) and not val:
                return DEAD
            if val:
                d = dict(st.auto)
                d["pend"] = frozenset(y for y in d["pend"] if y is not x and x not in y.toks)
                return dict_(**d)
        return st.auto

    def event(self, st, ev):
        d = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "decl" and gil(ev.val, RELEASE):
            if d["rel"] > 0:
                self.V("A", "released-twice", ev, "the interpreter lock is released while it is not held", st)
            d["rel"] += 1
        elif ev.k == "dtor" and gil(ev.val, RELEASE):
            d["rel"] = max(0, d["rel"] - 1)
        elif ev.k == "decl" and gil(ev.val, ACQUIRE):
            d["rel"] -= 1
        elif ev.k == "dtor" and gil(ev.val, ACQUIRE):
            d["rel"] += 1
        elif ev.k == "dtor" and d["rel"] > 0 and ev.val is not None and base(ev.val) is not None and base(ev.val).k == "ctor" and str(base(ev.val).a[0]).startswith("pybind11::") and "gil_scoped" not in str(base(ev.val).a[0]):
            self.V("A", "destroys", ev, "a Python object is destroyed while the interpreter lock is released", st)
        elif ev.k in ("call", "ctor"):
            raw = ev.raw or {}
            if any(self.inl(self.cg.p.fns[t]) for t in self.cg.p.targets(raw)) and n != RAISE:
                return st.auto  # analysed in place
            py = self.cg.python(raw)
            if py and d["rel"] > 0:
                self.V("A", "python-without-lock", ev, "uses %s while the interpreter lock is released" % py, st)
            r = base(ev.recv) if ev.recv is not None else None
            if r is not None and r.k == "call" and last(r.a[0]) == "lock" and n not in ("operator bool", "get", "reset"):
                self.ctx.instance("E", "%s: %s at %s" % (self.name, n, ev.where()))
                if st.facts.get(mk("nz", r)) is not True:
                    self.V("E", "expired", ev, "%s is called on a cell that may have expired" % n, st)
            w = self.cg.ev_waits(raw)
            if w:
                self.ctx.instance("B", "%s: %s at %s" % (self.name, short(ev.fn or n), ev.where()))
                if d["rel"] <= 0:
                    self.V("B", "waits-with-lock", ev, "%s may wait (%s) but the interpreter lock is held, so no other Python thread can run" % (short(ev.fn or n), w), st)
            if n == RAISE and ev.args:
                x = base(ev.args[0])
                d["pend"] = frozenset(y for y in d["pend"] if y is not x and y not in (x.toks if x is not None else ()))
                if error(x):
                    return DEAD
            elif n == "error_already_set" or n.endswith("_error") and ev.k == "ctor" and (ev.fn or "").startswith("pybind11"):
                return DEAD
            elif ev.k == "call" and is_status(raw.get("ty")) and ev.val is not None and not fine(ev.val):
                x = base(ev.val)
                if n not in ("get", "operator=", "move") and not (ev.recv is not None and x is base(ev.recv)):
                    self.ctx.instance("C", "%s: status of %s at %s" % (self.name, short(ev.fn or n), ev.where()))
                    inner = [y for y in d["pend"] if any(base(a) is y for a in ev.args if a is not None)]
                    d["pend"] = (d["pend"] - frozenset(inner)) | {x}
        else:
            return st.auto
        return dict_(**d)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        r = base(ret) if ret is not None else None
        for x in d["pend"]:
            if r is not None and (r is x or x in r.toks and r.k in ("cond", "phi")):
                continue
            self.ctx.violation("C", "C|%s|dropped" % self.name, self.g.where(), "%s: the status of %s is neither raised nor returned" % (self.name, str(x)[:80]), trace_of(st))


class Raiser(Base):
    """MaybeRaiseFromStatus: an error always ends in the promised exception"""

    def init(self):
        return dict_(code=None, ok=None, exc=None, no=frozenset())

    def keep_fact(self, atom):
        return atom.k == "okp"

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if atom.k == "okp" and base(atom.a[0]).k == "p":
            d["ok"] = val
        elif atom.k == "eq":
            e = [x for x in atom.a if x.k == "enum"]
            o = [x for x in atom.a if x.k == "call" and last(x.a[0]) == "code"]
            if e and o:
                nm = last(str(e[0].a[0]))
                if nm == "kOk":
                    d["ok"] = val
                elif val:
                    if d["ok"] or nm in d["no"] or d["code"] not in (None, nm):
                        return DEAD
                    d["code"] = nm
                elif d["code"] == nm:
                    return DEAD
                else:
                    d["no"] = d["no"] | {nm}
        return dict_(**d)

    def event(self, st, ev):
        d = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "call" and n in ("PyErr_SetString", "PyErr_SetObject", "PyErr_Format"):
            a = ev.args[0]
            d["exc"] = last(str(a.a[0])) if a is not None and a.a else repr(a)
            if "message" not in repr(ev.args[1:]) and "ToString" not in repr(ev.args[1:]):
                self.ctx.violation("D", "D|message", ev.where(), "the exception does not carry the status' message", trace_of(st))
        elif ev.k == "ctor" and n == "error_already_set":
            self.ctx.instance("D", "raise for %s at %s" % (d["code"] or "other codes", ev.where()))
            want = EXC.get(d["code"], "PyExc_RuntimeError")
            if d["ok"]:
                self.ctx.violation("D", "D|raise-on-ok", ev.where(), "raises although the status is OK", trace_of(st))
            elif d["exc"] is None:
                self.ctx.violation("D", "D|unset", ev.where(), "throws error_already_set without having set a Python exception", trace_of(st))
            elif d["exc"] != want and "PyExc" in d["exc"]:
                self.ctx.violation("D", "D|code|%s" % (d["code"] or "other"), ev.where(), "%s raises %s instead of %s" % (d["code"] or "another error", d["exc"], want), trace_of(st))
            return DEAD
        else:
            return st.auto
        return dict_(**d)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        self.ctx.instance("D", "return without raising")
        if d["ok"] is not True:
            self.ctx.violation("D", "D|silent", self.g.where(), "returns normally for a status that is not OK: the error is lost", trace_of(st))


def lambdas(t):
    if isinstance(t, tuple):
        if len(t) >= 2 and t[0] == "lam":
            yield t[1]
        for x in t:
            yield from lambdas(x)


def fnrefs(t):
    if isinstance(t, tuple):
        if len(t) >= 3 and t[0] == "fn":
            yield t[1], t[2]
        for x in t:
            yield from fnrefs(x)


def strings(args):
    for a in args:
        if isinstance(a, tuple) and a[0] == "str":
            return a[1]
    return None


def bindings(prog, f):
    """(python name, lambda usr | None, member (name, usr) | None, guarded, event) of every binding"""
    ev = list(f.events())
    byid = {e["id"]: e for e in ev if "id" in e}

    def deep(t, seen=()):
        """follow (call id) references of nested expressions"""
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "call" and t[1] in byid and t[1] not in seen:
                yield from deep(byid[t[1]].get("args", ()), seen + (t[1],))
            else:
                yield t
                for x in t:
                    yield from deep(x, seen)
    for e in ev:
        if e["k"] != "call" or not (e.get("fn") or "").startswith("pybind11::") or not last(e["fn"]).startswith("def"):
            continue
        cls = (e["fn"].split("<", 1)[1].split(",")[0].split(">")[0] if "<" in e["fn"] else "module")
        args = e.get("args", ())
        parts = [x for a in args for x in deep(a)]
        name = "%s.%s" % (last(cls), strings(args) or "__init__")
        guarded = any(RELEASE in str(t) and "call_guard" in str(t) for t in e.get("aty", []))
        lams = [x[1] for x in parts if len(x) >= 2 and x[0] == "lam"]
        fns = [(x[1], x[2]) for x in parts if len(x) >= 3 and x[0] == "fn"]
        yield name, lams, fns, guarded, e


def run(ctx):
    ctx.rule("A", "while the interpreter lock is released (a live gil_scoped_release, or a call_guard of the binding) no Python or numpy API is used and no Python object is made, destroyed or raised")
    ctx.rule("B", "every bound function or call in a binding from which a wait for another thread or for the server is reachable runs with the interpreter lock released")
    ctx.rule("C", "every Status obtained in a binding is raised (with the lock held) or returned to the caster that raises it, on every path")
    ctx.rule("D", "MaybeRaiseFromStatus returns normally exactly for OK, otherwise it throws after setting the exception promised for the code; the Status caster raises before it returns None")
    ctx.rule("E", "a weakly referenced cell is used only where locking it succeeded")
    prog = ctx.program(*[t for t in all_tus() if "instantiate" not in t])
    mod = [f for f in prog.fns.values() if f.name.endswith("pybind11_init_libpybind")]
    if len(mod) != 1:
        raise AnalysisBroken("PYBIND11_MODULE(libpybind) not found")
    cg = Calls(prog)
    done = set()
    n = 0
    for name, lams, fns, guarded, e in bindings(prog, mod[0]):
        n += 1
        where = mod[0].where(e.get("line"))
        ctx.instance("A", "%s at %s%s" % (name, where, " (call_guard)" if guarded else ""))
        for fname, usr in fns:
            targets = [u for u in [usr] + list(prog.overriders(usr)) if u in prog.fns]
            w = [x for x in (cg.may_wait(u) for u in targets) if x]
            if w:
                ctx.instance("B", "%s: %s" % (name, fname))
                if not guarded:
                    ctx.violation("B", "B|%s|unguarded" % name, where, "%s is bound to %s, which may wait (%s), without releasing the interpreter lock" % (name, fname, w[0]))
            py = [x for x in (cg.fn_python(u) for u in targets) if x]
            if py and guarded:
                ctx.violation("A", "A|%s|python-without-lock" % name, where, "%s is bound with a call_guard that releases the interpreter lock but uses %s" % (name, py[0]))
        for lam in lams:
            g = [f for f in prog.fns.values() if f.lam and (f.usr == lam or f.usr.split("#")[0] == lam.split("#")[0])][:1]
            if not g:
                raise AnalysisBroken("lambda bound as %s not found" % name)
            g = g[0]
            if g.where() in done:
                continue
            done.add(g.where())
            m = Binding(ctx, g, cg, name, guarded)
            eng = ctx.engine(Engine(prog, g, m, inline=lambda k, ev: m.inl(k)))
            eng.run()
    ctx.need("A", 20)
    ctx.need("B", 20)
    ctx.need("C", 12)
    ctx.need("E", 3)
    # the raiser
    for g in prog.fns.values():
        if g.name.split("::")[-1] == RAISE and g.file.endswith(FILE):
            ctx.engine(Engine(prog, g, Raiser(ctx, g), inline=lambda k, ev: k.file.endswith(FILE))).run()
        if g.name.endswith("type_caster::cast") and g.file.endswith(FILE) and any("absl::Status" in str(t) for _, t in g.params):
            ctx.instance("D", "Status caster at " + g.where())
            m = Binding(ctx, g, cg, "Status caster", False)

            class Cast(Binding):
                def init(self):
                    return dict_(rel=0, pend=frozenset(["arg"]), raised=False)

                def event(self, st, ev):
                    d = dict(st.auto)
                    if ev.k == "call" and last(ev.fn or "") == RAISE and ev.args and base(ev.args[0]).k == "p" and base(ev.args[0]).a[0] == 0:
                        d["pend"] = frozenset()
                        return dict_(**d)
                    return st.auto

                def branch(self, st, atom, val, line, fn):
                    return st.auto

                def exit(self, st, ret, ev):
                    if dict(st.auto)["pend"]:
                        self.ctx.violation("D", "D|caster", self.g.where(), "a returned status is turned into None without raising its error", trace_of(st))
            ctx.engine(Engine(prog, g, Cast(ctx, g, cg, "Status caster", False), inline=lambda k, ev: False)).run()
    ctx.need("D", 6)
