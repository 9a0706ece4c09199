"""Streaming reactors: typestate of every reactor class, explored over all
interleavings of the reactions and callbacks (each critical section is one
step), plus unary handlers and destructors."""
import collections
import itertools
import time
from engine.util import *
from engine.ir import AnalysisBroken

INF = 99
TOP = 4
ENTRIES = {"OnReadDone": "reads", "OnWriteDone": "writes"}
PUSH = ("emplace", "push", "emplace_back", "push_back")
POP = ("pop", "pop_front")
CONTAINERS = ("std::queue<", "std::deque<", "std::list<")


def d(state):
    return dict(state)


def fz(dct):
    return tuple(sorted(dct.items(), key=lambda kv: kv[0]))


def base(s):
    while isinstance(s, S) and s.k in ("cast", "addr", "deref", "mv") and len(s.a):
        s = s.a[-1] if s.k == "cast" else s.a[0]
        if not isinstance(s, S):
            return None
    return s


def mine(s):
    """name of the direct field of *this denoted by s"""
    s = base(s)
    return last(s.a[1]) if s is not None and s.k == "m" and s.a[0] is THIS else None


def var(s):
    s = base(s)
    if s is not None and s.k == "obj":
        return next((x for x in s.a if isinstance(x, str) and "@" in x), None)
    if s is None or s.k not in ("v", "phi", "init"):
        return None
    return s.a[0] if isinstance(s.a[0], str) else var(s.a[0])


def num(s):
    s = base(s)
    c = const_of(s) if s is not None else None
    return c[1] if c and c[0] == "n" else None


class Reactor:
    """a reactor class: its functions, its fields and its callbacks"""

    def __init__(self, prog, cname):
        self.prog, self.cname = prog, cname
        c = prog.classes[cname]
        self.line = c["line"]
        self.methods = {}
        self.fields = list(c["fields"])
        scopes = set()
        for m_ in c["methods"]:
            g = prog.fns.get(m_["usr"])
            if g is not None and g.blocks:
                self.methods.setdefault(m_["name"], g)
            scopes.add(m_["usr"].split("@F@")[0] if "@F@" in m_["usr"] else None)
        self.own = list(self.methods.values())
        for b in c["bases"]:
            if b not in prog.classes:
                continue
            over = {u.rsplit("@F@", 1)[0] for m_ in c["methods"] for u in m_.get("overrides", []) if b in u}
            # pure virtual or used base functions name the instantiation
            for g in prog.fns.values():
                if g.cls == b and g.usr.rsplit("@F@", 1)[0] in over:
                    self.methods.setdefault(last(g.name), g)
            self.fields += [f_ for f_ in prog.classes[b]["fields"] if f_["name"] not in [x["name"] for x in self.fields]]
        self.bools = {f_["name"]: f_.get("init") for f_ in self.fields if f_["ty"] == "bool"}
        self.ptrs = {f_["name"]: f_.get("init") for f_ in self.fields if f_["ty"].endswith("*")}
        self.queues = [f_["name"] for f_ in self.fields if f_["ty"].startswith(CONTAINERS)]
        self.fns = {f_["name"] for f_ in self.fields if "std::function<" in f_["ty"]}
        self.ctors = [g for g in self.own if last(g.name) == last(cname)]
        self.dtor = next((g for g in self.own if last(g.name).startswith("~")), None)
        self.callbacks = {}
        usrs = {g.usr for g in self.own}
        self.lambdas = [g for g in prog.fns.values() if g.lam and g.parent in usrs]

    def tracked(self):
        return list(self.bools) + list(self.ptrs)


class Ref(Auto):
    """which lambda is stored in which field"""

    def __init__(self, r):
        self.r = r

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "asg" and ev.r is not None and mine(ev.l):
            for x in ev.r.toks:
                if x.k == "lam":
                    for g in self.r.lambdas:
                        if str(x.a[0]) == g.usr:
                            self.r.callbacks.setdefault(mine(ev.l), g)
        return ()


class Step(Auto):
    """runs one entry from one state; collects the states it can end in"""

    def __init__(self, M, r, name, g, start, resume=None, then=None):
        self.M, self.r, self.name, self.g = M, r, name, g
        self.start, self.resume, self.then = start, resume, then
        self.out = set()
        self.pend = set()
        self.tr = {}
        self.q = r.queues[0] if r.queues else None

    # state: persistent keys + temporary ones (prefixed with "_")
    def init(self):
        s = dict(self.start)
        s.update(_sec=0, _loc=frozenset(), _dec=frozenset(), _last="", _live=self.resume is None, _maybe=None, _del=0, _read=False)
        return fz(s)

    def keep_fact(self, atom):
        return atom.k == "okp"

    def opaque(self, fid, fn, v, val):
        return not any(x.k in ("new", "null") for x in val.toks) and any(mine(x) in self.r.bools or mine(x) in self.r.queues for x in val.toks)

    def bad(self, s, rid, key, where, msg, st):
        if s["_live"]:
            self.M.ctx.violation(rid, "%s/%s/%s" % (last(self.r.cname), self.name, key), where, "%s [state before: %s]" % (msg, self.M.show(self.start)), trace_of(st))

    # ---- evaluation
    def size(self, s, x):
        """interval of a size expression"""
        x = base(x)
        if x is None:
            return None
        if x.k == "call" and last(x.a[0]) == "size" and mine(x.a[1]) == self.q and self.q:
            return s["q"]
        v = var(x)
        if v:
            for k, val in s["_loc"]:
                if k == v and isinstance(val, tuple):
                    return val
        return None

    def truth(self, s, atom, facts):
        """True / False / None"""
        k = atom.k
        if k == "op" and atom.a[0] == "!":
            t = self.truth(s, atom.a[1], facts)
            return None if t is None else not t
        if k in ("okp",):
            return self.okay(s, atom.a[0], {x: v for x, v in facts.items() if x is not atom})
        if k == "nz" or k == "bool":
            return self.flag(s, atom.a[0], facts)
        if k in ("eq", "lt"):
            a, b = atom.a[0], atom.a[1]
            w = self.work(s, atom)
            if w is not NotImplemented:
                return w
            for x, y, flip in ((a, b, False), (b, a, True)):
                n = self.size(s, x)
                if n is None:
                    continue
                c = num(y)
                if c is None:
                    if k == "lt" and not flip and n == (0, 0):
                        return True  # an empty queue is not full
                    return None
                lo, hi = n
                if k == "eq":
                    return True if lo == hi == c else False if c < lo or c > hi else None
                if not flip:  # size < c
                    return True if hi < c else False if lo >= c else None
                return True if c < lo else False if c >= hi else None
            return None
        return None

    def flag(self, s, x, facts=None):
        x = base(x)
        if x is None:
            return None
        if x is TRUE or x is FALSE:
            return x is TRUE
        if x.k == "op" and x.a[0] == "!":
            t = self.flag(s, x.a[1], facts)
            return None if t is None else not t
        if x.k == "op" and x.a[0] in ("&&", "||") and len(x.a) == 3:
            l, r = self.flag(s, x.a[1], facts), self.flag(s, x.a[2], facts)
            if x.a[0] == "&&":
                return False if l is False or r is False else True if l and r else None
            return True if l or r else False if l is False and r is False else None
        m_ = mine(x)
        if m_ in self.r.bools or m_ in self.r.ptrs:
            return s.get(m_)
        if x.k == "call" and last(x.a[0]) == "empty" and self.q and mine(x.a[1]) == self.q:
            lo, hi = s["q"]
            return True if hi == 0 else False if lo > 0 else None
        if x.k in ("eq", "lt", "nz", "okp", "bool"):
            return self.truth(s, x, facts or {})
        if x.k == "op" and x.a[0] in ("==", "!=", "<", ">", "<=", ">=") and len(x.a) == 3:
            o, a, b = x.a
            t = {"==": lambda: self.truth(s, mk("eq", a, b), {}), "!=": lambda: self.truth(s, mk("eq", a, b), {}),
                 "<": lambda: self.truth(s, mk("lt", a, b), {}), ">": lambda: self.truth(s, mk("lt", b, a), {}),
                 "<=": lambda: self.truth(s, mk("lt", b, a), {}), ">=": lambda: self.truth(s, mk("lt", a, b), {})}[o]()
            return None if t is None else (not t if o in ("!=", "<=", ">=") else t)
        v = var(x)
        if v:
            for k, val in s["_loc"]:
                if k == v and isinstance(val, bool):
                    return val
        return None

    def left(self, x):
        """the expression is the amount of work left in the current request"""
        x = base(x)
        if x is None:
            return False
        if x.k == "call" and last(x.a[0]) == "NextSampleSize":
            return True
        names = {last(str(y.a[1])) for y in x.toks if y.k == "m"}
        return {"requested_samples", "fetched_samples"} <= names

    def work(self, s, atom):
        a, b = atom.a[0], atom.a[1]
        an, bn = last(str(base(a).a[1])) if base(a) is not None and base(a).k == "m" else "", last(str(base(b).a[1])) if base(b) is not None and base(b).k == "m" else ""
        if {an, bn} == {"requested_samples", "fetched_samples"}:
            if atom.k == "eq":
                return None if s["work"] is None else not s["work"]
            return s["work"] if an == "fetched_samples" else (False if s["work"] is not None else None)
        if self.left(a) and num(b) in (0, 1):
            if atom.k == "eq" and num(b) == 0 or atom.k == "lt" and num(b) == 1:
                return None if s["work"] is None else not s["work"]
            return False if atom.k == "lt" and num(b) == 0 else NotImplemented
        if self.left(b) and num(a) == 0:
            if atom.k == "eq":
                return None if s["work"] is None else not s["work"]
            return s["work"]
        return NotImplemented

    def okay(self, s, x, facts):
        if x is OK:
            return True
        if x.k == "errstatus":
            return False
        if x.k in ("g", "enum") and str(x.a[0]).endswith("Status::OK"):
            return True
        t = facts.get(mk("okp", x))
        if t is not None:
            return t
        if x.k == "ctor" and len(x.a) > 2 and "Status" in str(x.a[0]):
            c = x.a[2]
            if isinstance(c, S) and c.k in ("g", "enum"):
                return last(str(c.a[0])) == "OK"
            if isinstance(c, S) and c.k == "call" and last(c.a[0]) in ("code", "error_code") and isinstance(c.a[1], S):
                return self.okay(s, c.a[1], facts)
            c = next((y for y in x.a[2:] if isinstance(y, S) and (y.k == "call" and last(y.a[0]) in ("code", "error_code"))), None)
            if c is not None and isinstance(c.a[1], S):
                return self.okay(s, c.a[1], facts)
        if x.k == "call" and last(x.a[0]) in ("ToGrpcStatus", "FromGrpcStatus") and isinstance(x.a[-1], S):
            return self.okay(s, x.a[-1], facts)
        return None

    def refine(self, s, atom, val):
        """an undetermined atom over tracked state has this value"""
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            m_ = mine(x)
            if m_ in self.r.bools or m_ in self.r.ptrs:
                s[m_] = val
                return True
            if x.k == "call" and last(x.a[0]) == "empty" and self.q and mine(x.a[1]) == self.q:
                s["q"] = (0, 0) if val else (1, s["q"][1])
                return True
        if atom.k in ("eq", "lt") and self.work(s, atom) is None:
            for v in (True, False):
                s2 = dict(s, work=v)
                if self.work(s2, atom) is val:
                    s["work"] = v
            return True
        if atom.k in ("eq", "lt"):
            for x, y, flip in ((atom.a[0], atom.a[1], False), (atom.a[1], atom.a[0], True)):
                if self.q and base(x) is not None and base(x).k == "call" and last(base(x).a[0]) == "size" and mine(base(x).a[1]) == self.q and num(y) is not None:
                    lo, hi = s["q"]
                    c = num(y)
                    if atom.k == "eq":
                        if val:
                            lo = hi = c
                        elif lo == c:
                            lo += 1
                        elif hi == c:
                            hi -= 1
                    elif not flip:
                        lo, hi = (lo, min(hi, c - 1)) if val else (max(lo, c), hi)
                    else:
                        lo, hi = (max(lo, c + 1), hi) if val else (lo, min(hi, c))
                    s["q"] = (lo, hi)
                    return True
        return False

    # ---- hooks
    def branch(self, st, atom, val, line, fn):
        s = d(st.auto)
        t = self.truth(s, atom, st.facts)
        if t is not None and t != val:
            return DEAD
        known = t is not None
        if t is None:
            known = self.refine(s, atom, val)
            if known:
                known = False
        s["_last"] = "known" if known else "open"
        if atom.k == "okp" and s["_maybe"] and s["_maybe"][0] is atom.a[0] and not val:
            s["cb"] -= 1
            s["_maybe"] = None
        if atom.k in ("nz", "bool") and s["_maybe"] and var(atom.a[0]) and var(atom.a[0]) == s["_maybe"][1]:
            if val:
                s["cb"] -= 1
            s["_maybe"] = None
        if self.name == "OnReadDone" and atom.k in ("nz", "bool") and base(atom.a[0]) is mk("p", 0) and not val:
            s["eof"] = True
        if fn is self.g:
            s["_dec"] = s["_dec"] | {(line, val)}
        return fz(s)

    def event(self, st, ev):
        s = d(st.auto)
        fn = last(ev.fn or "")
        w = ev.where()
        if ev.k == "lock" and mine(ev.val):
            s["_sec"] += 1
            if s["_sec"] > 1:
                site = (self.name, s["_sec"], ev.raw.get("line") if ev.raw else w, s["_dec"])
                if s["_live"]:
                    self.close(s, st, w)
                    self.pend.add((site, self.rest(s)))
                    return DEAD
                if self.resume == site:
                    keep = {k: v for k, v in s.items() if k.startswith("_")}
                    s = dict(self.then)
                    s.update(keep)
                    s["_live"] = True
                elif s["_sec"] >= self.resume[1]:
                    return DEAD
            return fz(s)
        if ev.k == "decl":
            v, val = (ev.raw or {}).get("var"), ev.init
            if v is not None and val is not None:
                t = self.flag(s, val, st.facts)
                n = self.size(s, val)
                s["_loc"] = frozenset(x for x in s["_loc"] if x[0] != v)
                if t is not None or n is not None:
                    s["_loc"] = s["_loc"] | {(v, t if t is not None else n)}
            return fz(s)
        if ev.k == "asg":
            self.assign(s, st, ev, w)
            return fz(s)
        if ev.k == "delete":
            if ev.val is THIS:
                s["_del"] += 1
                if self.name != "OnDone":
                    self.bad(s, "D", "delete", w, "the reactor destroys itself before gRPC is done with it", st)
                elif s["_del"] > 1:
                    self.bad(s, "D", "delete-twice", w, "the reactor is destroyed twice", st)
                elif any(mine(l) for l in ev.locks):
                    self.bad(s, "D", "delete-locked", w, "the reactor is destroyed while its mutex is held", st)
            elif mine(ev.val) in self.r.ptrs:
                if s["_del"]:
                    self.bad(s, "D", "use-after-delete", w, "%s is used after the reactor was destroyed" % mine(ev.val), st)
                s[mine(ev.val)] = False
            return fz(s)
        if ev.k == "ctor" and "LogMessageFatal" in (ev.fn or ""):
            if s["_last"] in ("known", "const"):
                self.bad(s, "A", "check-fails", w, "the process is aborted: a sanity check of the reactor's own state fails", st)
            return fz(s)
        if ev.k != "call":
            return fz(s)
        if s["_del"] and (ev.recv is THIS or mine(ev.recv)):
            self.bad(s, "D", "use-after-delete", w, "the reactor is used after it was destroyed", st)
        if ev.recv is THIS or ev.recv is None:
            if fn in ("StartRead", "StartWrite", "StartWriteLast", "StartWriteAndFinish", "Finish"):
                self.operation(s, st, ev, fn, w)
                return fz(s)
        if self.q and mine(ev.recv) == self.q:
            self.queue(s, st, ev, fn, w)
        elif fn == "swap" and self.q and ev.args and any(mine(a) == self.q for a in ev.args):
            s["sent"] = False
            s["q"] = (0, 0) if ev.recv is not None and ev.recv.k == "ctor" or ev.recv is None and any(a.k == "ctor" for a in ev.args) else (0, INF)
        if s["_read"] and mine(ev.recv) == s["_read"]:
            self.bad(s, "B", "request-reused", w, "%s is used although the next message is already being read into it" % s["_read"], st)
        if s["writes"] and s["_wbuf"] and mine(ev.recv) == s["_wbuf"] and (fn.startswith(("set_", "mutable_", "add_")) or fn in ("Clear", "Swap", "MergeFrom", "CopyFrom")):
            self.bad(s, "B", "response-reused", w, "%s is changed while it is being sent" % s["_wbuf"], st)
        regs = [a for a in ev.args if self.callback(a)]
        if regs and (ev.fn or "").split("::")[0] != "std" and ev.raw.get("k") == "call" and ev.recv is not THIS:
            name = self.callback(regs[0])
            if s["fins"]:
                self.bad(s, "C", "register", w, "%s is registered with the table after the stream was finished; the reactor may be destroyed at any time" % name, st)
            if s["cb"]:
                self.bad(s, "B", "register-twice", w, "%s is registered although an earlier registration is still pending" % name, st)
            s["cb"] = 1
            s["_cbf"] = name
            outs = [a for a in ev.args if a is not None and a.k == "addr"]
            s["_maybe"] = None
            if last(ev.fn) == "InsertOrAssignAsync":
                s["_maybe"] = (ev.val, next((v for v in (self.outvar(a) for a in ev.args) if v), None))
        return fz(s)

    def outvar(self, a):
        """local variable whose address is passed"""
        if a is None or a.k not in ("addr", "obj"):
            return None
        return next((x for x in a.a if isinstance(x, str) and "@" in x), None) or var(a)

    def callback(self, a):
        a = base(a)
        while a is not None and a.k == "ctor" and "_ptr" in str(a.a[0]) and isinstance(a.a[-1], S):
            a = base(a.a[-1])
        m_ = mine(a)
        return m_ if m_ in self.r.fns else None

    def assign(self, s, st, ev, w):
        m_ = mine(ev.l)
        if m_ in self.r.bools:
            t = self.flag(s, ev.r, st.facts) if ev.op in ("=", "init") else None
            s[m_] = t
        elif m_ in self.r.ptrs:
            if s.get(m_) and ev.r is not None and (ev.r.k == "new"):
                self.bad(s, "D", "leak", w, "%s is replaced without being deleted" % m_, st)
            if ev.r is not None and ev.r.k == "new":
                s[m_] = True
            elif ev.r is not None and ev.r.k in ("null",) or num(ev.r) == 0:
                s[m_] = False
            else:
                s[m_] = None
        elif m_ is not None and m_ == self.q:
            s["sent"] = False
            s["q"] = (0, 0) if ev.r is not None and ev.r.k in ("ctor", "new") else (0, INF)
        x = ev.l
        names = [last(str(y.a[1])) for y in x.toks if y.k == "m"] if x is not None else []
        if "requested_samples" in names:
            if s["work"] and s["cb"]:
                self.bad(s, "B", "overlap", w, "the next request is taken up while samples of the current one are outstanding", st)
            s["work"] = True
        elif "fetched_samples" in names:
            s["work"] = True if ev.op == "=" and num(ev.r) == 0 else None
        elif m_ == "task_info_":
            s["work"] = None
        v = var(ev.l) if ev.l is not None and ev.l.k in ("v", "phi") else None
        if v:
            t = self.flag(s, ev.r, st.facts) if ev.r is not None and ev.op == "=" else None
            s["_loc"] = frozenset(x for x in s["_loc"] if x[0] != v) | ({(v, t)} if t is not None else frozenset())

    def queue(self, s, st, ev, fn, w):
        lo, hi = s["q"]
        if fn in PUSH:
            s["q"] = (min(lo + 1, TOP), hi if hi == INF else hi + 1)
            if s["q"][0] >= TOP or s["q"][1] > TOP:
                s["q"] = (s["q"][0], INF)
        elif fn in POP:
            s["sent"] = False
            if s["writes"] and not s["fins"]:
                self.bad(s, "B", "pop-in-flight", w, "a response is removed from the queue while it is being sent", st)
            if hi == 0:
                self.bad(s, "A", "pop-empty", w, "a response is removed from an empty queue", st)
            s["q"] = (max(lo - 1, 0), hi if hi == INF else max(hi - 1, 0))
        elif fn == "clear":
            s["sent"] = False
            s["q"] = (0, 0)
        elif fn == "front" and hi == 0:
            self.bad(s, "A", "front-empty", w, "the first response of an empty queue is used", st)
        elif fn == "back":
            if hi == 0:
                self.bad(s, "A", "back-empty", w, "the last response of an empty queue is used", st)
            elif (lo, hi) == (1, 1) and s["writes"] and not s["fins"]:
                self.bad(s, "B", "in-flight-changed", w, "the last queued response is the one being sent; what is added to it never reaches the client", st)

    def operation(self, s, st, ev, fn, w):
        kind = {"StartRead": "read", "Finish": "finish"}.get(fn, "write")
        if s["fins"]:
            self.bad(s, "A" if kind == "finish" else "C", "%s-after-finish" % kind, w, "%s is called after the stream was finished" % fn, st)
        if kind == "read":
            if s["reads"]:
                self.bad(s, "B", "two-reads", w, "a read is started while another one is outstanding", st)
            s["reads"] = 1
            s["_read"] = next((m_ for m_ in (mine(a) for a in ev.args) if m_), False)
        if kind == "write":
            if s["writes"]:
                self.bad(s, "B", "two-writes", w, "a write is started while another one is outstanding", st)
            s["writes"] = 1
            if s["sent"]:
                self.bad(s, "B", "sent-again", w, "a response which has already been sent is sent again", st)
            s["sent"] = self.q is not None
            a = base(ev.args[0]) if ev.args else None
            s["_wbuf"] = mine(a)
            if self.q and not mine(a) and a is not None and not any(x.k == "call" and last(x.a[0]) == "front" and mine(x.a[1]) == self.q for x in a.toks) and not (
                    s["q"] == (1, 1) and any(x.k == "call" and mine(x.a[1]) == self.q for x in a.toks if isinstance(x.a[1] if len(x.a) > 1 else None, S))) and any(
                    mine(x) == self.q for x in a.toks):
                self.bad(s, "B", "not-front", w, "the response being sent is not the first one of the queue", st)
        if kind == "finish" and self.q and not s["eof"] and ev.args and self.okay(s, ev.args[-1], st.facts):
            self.bad(s, "A", "early-success", w, "the stream is finished successfully although the client may still send requests", st)
        if kind == "finish" or fn == "StartWriteAndFinish":
            s["fins"] = 1

    def rest(self, s):
        r = {k: v for k, v in s.items() if not k.startswith("_") or k in ("_wbuf", "_cbf")}
        return fz(r)

    def close(self, s, st, w):
        pass

    def exit(self, st, ret, ev):
        s = d(st.auto)
        if not s["_live"]:
            return
        if self.name == "OnDone":
            if s["_del"] == 0:
                self.bad(s, "D", "not-deleted", self.g.where(), "the reactor is not destroyed when gRPC is done with it", st)
            for p_ in self.r.ptrs:
                if s.get(p_):
                    self.bad(s, "D", "leak-%s" % p_, self.g.where(), "%s is not released when the reactor is destroyed" % p_, st)
        self.out.add(self.rest(s))
        self.tr[self.rest(s)] = trace_of(st)


class Model:
    def __init__(self, ctx, prog, r):
        self.ctx, self.prog, self.r = ctx, prog, r
        self.runs = 0
        self.states = 0
        self.witness = {}

    def show(self, s):
        s = d(s)
        return ", ".join("%s=%s" % (k.lstrip("_"), v) for k, v in s.items() if k not in ("_wbuf", "_cbf", "pend", "can"))

    def engine(self, step):
        e = Engine(self.prog, step.g, step, inline=self.inline)
        self.ctx.engine(e)
        self.runs += 1
        return step

    def inline(self, k, ev):
        name = last(getattr(k, "name", "") or "")
        return name not in ("NextSampleSize", "SaveChunks", "GetItemWithChunks", "ReleaseOutOfRangeChunks", "ToGrpcStatus", "TableByName", "DebugString")

    def split(self, s):
        """states with a definite queue size and definite flags"""
        s = d(s)
        opts = []
        if "q" in s:
            lo, hi = s["q"]
            opts.append(("q", [(n, n) for n in range(lo, min(hi, TOP - 1) + 1)] + ([(TOP, INF)] if hi >= TOP else [])))
        for k in list(self.r.bools) + ["work"]:
            if s.get(k) is None:
                opts.append((k, [True, False]))
        for combo in itertools.product(*[o for _, o in opts]):
            yield fz(dict(s, **{k: v for (k, _), v in zip(opts, combo)}))

    def first(self):
        s = {"reads": 0, "writes": 0, "cb": 0, "fins": 0, "sent": False, "eof": False, "done": False, "can": False, "work": False, "pend": frozenset(), "_wbuf": None, "_cbf": None}
        for k, v in self.r.bools.items():
            s[k] = None if v is None else (v[1] == "true" if v[0] == "lit" else None)
        for k, v in self.r.ptrs.items():
            s[k] = False if v is not None and v[0] == "lit" and v[1] in ("null", "0", "nullptr") else None
        if self.r.queues:
            s["q"] = (0, 0)
        return fz(s)

    def settle(self, s, where, name, tr):
        """what must hold whenever no critical section is running"""
        t = d(s)
        if t["fins"] or t["done"]:
            return
        if self.r.queues and t["q"][0] > 0 and not t["writes"] and not t["pend"]:
            self.ctx.violation("E", "%s/%s/unsent" % (last(self.r.cname), name), where, "responses are queued but none is being sent, so they are never sent [%s]" % self.show(s), tr)
        elif not t["reads"] and not t["writes"] and not t["cb"] and not t["pend"]:
            self.ctx.violation("E", "%s/%s/stuck" % (last(self.r.cname), name), where, "nothing is outstanding and the stream has not been finished: it hangs [%s]" % self.show(s), tr)

    def run(self):
        r = self.r
        entries = {n: r.methods[n] for n in ("OnReadDone", "OnWriteDone", "OnDone", "OnCancel") if n in r.methods}
        t0 = time.time()
        work = collections.deque()
        seen = set()

        def add(states, g, name, tr):
            for x in states:
                for s in self.split(x):
                    if s not in seen:
                        seen.add(s)
                        self.settle(s, g.where(), name, tr.get(x, []))
                        work.append(s)

        def finish(step, pend0):
            outs = set(step.out)
            for site, s in step.pend:
                for w_ in self.split(step.start):
                    self.witness.setdefault(site, (step.start, step.g))
                x = d(s)
                x["pend"] = x["pend"] | {site}
                outs.add(fz(x))
            add(outs, step.g, step.name, step.tr)

        for c in r.ctors:
            finish(self.engine(Step(self, r, "constructor", c, self.first())), None)
        incomplete = False
        while work:
            if time.time() - t0 > 240 or len(self.ctx.viol) > 4:
                incomplete = not self.ctx.viol
                break
            s = work.popleft()
            t = d(s)
            for name, g in entries.items():
                if t["done"]:
                    continue
                if name in ENTRIES:
                    if not t[ENTRIES[name]]:
                        continue
                    n = dict(t, **{ENTRIES[name]: 0})
                elif name == "OnCancel":
                    if t["can"]:
                        continue
                    n = dict(t, can=True, eof=True)
                else:
                    if not t["fins"] or t["reads"] or t["writes"] or any(p[0] != "callback" for p in t["pend"]):
                        continue
                    n = dict(t, done=True)
                finish(self.engine(Step(self, r, name, g, fz(n))), t["pend"])
            if t["cb"] and t["_cbf"] in r.callbacks:
                finish(self.engine(Step(self, r, "callback", r.callbacks[t["_cbf"]], fz(dict(t, cb=t["cb"] - 1)))), t["pend"])
            for site in t["pend"]:
                start, g = self.witness[site]
                n = fz(dict(t, pend=t["pend"] - {site}))
                finish(self.engine(Step(self, r, site[0], g, start, resume=site, then=n)), None)
        self.states = len(seen)
        if incomplete:
            self.ctx.note("%s: exploration stopped after %d states" % (r.cname, len(seen)))
        return entries


class Wait(Auto):
    """destructor: the callback's owner is dropped, then its end awaited"""

    def __init__(self, ctx, r, field):
        self.ctx, self.r, self.field = ctx, r, field

    def init(self):
        return (False, False)

    def keep_fact(self, atom):
        return False

    def watches(self, s):
        return any(mine(x) == self.field for x in s.toks)

    def event(self, st, ev):
        dropped, gone = st.auto
        if ev.k == "call" and mine(ev.recv) == self.field and last(ev.fn) == "reset" and not ev.args:
            dropped, gone = True, False
        elif ev.k == "asg" and mine(ev.l) == self.field and (ev.r is None or ev.r.k in ("null", "ctor") or num(ev.r) == 0 or str(ev.r) == "null"):
            dropped, gone = True, False
        elif ev.k == "call" and last(ev.fn) == "operator=" and mine(ev.recv) == self.field and ev.args and (ev.args[0].k in ("null", "ctor") or num(ev.args[0]) == 0):
            dropped, gone = True, False
        elif ev.k == "call" and last(ev.fn) == "swap" and (mine(ev.recv) == self.field or any(mine(a) == self.field for a in ev.args)):
            dropped, gone = None, False
        return (dropped, gone)

    def branch(self, st, atom, val, line, fn):
        dropped, gone = st.auto
        for x in atom.toks:
            if x.k == "call" and last(x.a[0]) in ("lock", "expired", "use_count") and isinstance(x.a[1], S) and self.watches(x.a[1]):
                n = last(x.a[0])
                if n == "expired":
                    over = val
                elif atom.k in ("nz", "bool"):
                    over = not val
                elif atom.k in ("eq", "null"):
                    over = val
                elif atom.k == "lt":
                    over = not val if base(atom.a[0]) is not x else val
                else:
                    over = False
                gone = over
        return (dropped, gone)

    def exit(self, st, ret, ev):
        dropped, gone = st.auto
        w = self.r.dtor.where()
        if dropped is False:
            self.ctx.violation("F", "%s/%s/kept" % (last(self.r.cname), self.field), w, "the destructor does not give up %s before its members are destroyed" % self.field, trace_of(st))
        elif not gone:
            self.ctx.violation("F", "%s/%s/not-awaited" % (last(self.r.cname), self.field), w, "the destructor returns while %s may still be running" % self.field, trace_of(st))


class Unary(Auto):
    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g
        self.n = 0

    def init(self):
        return (0, None)

    def keep_fact(self, atom):
        return True

    def event(self, st, ev):
        n, r = st.auto
        if ev.k == "call" and last(ev.fn) == "Finish" and "eactor" in ev.fn:
            self.n += 1
            if n:
                self.ctx.violation("G", "%s/twice" % self.g.name, ev.where(), "the call is finished twice", trace_of(st))
            return (1, ev.recv)
        if n and ev.k == "call":
            used = [p_ for p_ in (base(x) for x in (ev.recv,) + tuple(ev.args)) if p_ is not None and p_.k == "p" and ("Request" in self.g.params[p_.a[0]][1] or "Response" in self.g.params[p_.a[0]][1])]
            if used:
                self.ctx.violation("G", "%s/after" % self.g.name, ev.where(), "%s is used after the call was finished; gRPC may have released it" % self.g.params[used[0].a[0]][0].split("@")[0], trace_of(st))
        return (n, r)

    def exit(self, st, ret, ev):
        n, r = st.auto
        if not n:
            self.ctx.violation("G", "%s/never" % self.g.name, self.g.where(), "the call is not finished on this path", trace_of(st))
        elif ret is None or base(ret) is not base(r):
            self.ctx.violation("G", "%s/other" % self.g.name, self.g.where(), "the reactor returned is not the one that was finished", trace_of(st))


def run(ctx):
    ctx.rule("A", "every streaming call is finished at most once, with success only after the client stopped sending, and the reactor's own sanity checks cannot fail, in any reachable state")
    ctx.rule("B", "at most one read, one write and one table request are outstanding, and their buffers are left alone")
    ctx.rule("C", "nothing is started after the stream was finished")
    ctx.rule("D", "the reactor is destroyed exactly once, by OnDone, without holding its mutex, and releases what it owns")
    ctx.rule("E", "as long as the stream is not finished something is outstanding that continues it, and queued responses are being sent")
    ctx.rule("F", "the destructor drops the callbacks registered with tables and waits until none is running")
    ctx.rule("G", "every unary handler finishes its call exactly once and returns its reactor")
    prog = ctx.program("reverb_service_async_impl.cc")
    names = [n for n, c in prog.classes.items() if any("Reactor" in b for b in c["bases"]) and not any(m_.get("pure") for m_ in c["methods"])]
    if not names:
        raise AnalysisBroken("no reactor class found")
    for n in sorted(names):
        r = Reactor(prog, n)
        if not r.ctors or "OnDone" not in r.methods:
            ctx.note("%s: constructor or OnDone not found" % n)
            continue
        for g in r.own:
            ctx.engine(Engine(prog, g, Ref(r), inline=lambda k, ev: False))
        if r.fns and not r.callbacks:
            ctx.note("%s: the function stored in %s is not a lambda; its effects are not explored" % (n, sorted(r.fns)))
            continue
        M = Model(ctx, prog, r)
        entries = M.run()
        for name in list(entries) + ["constructor"] + ["callback %s" % c for c in r.callbacks]:
            for rid in "ABC":
                ctx.instance(rid, "%s: %s from each of %d reachable states" % (last(n), name, M.states))
        ctx.instance("D", "%s::OnDone" % last(n))
        ctx.instance("E", "%s: %d reachable states, %d steps" % (last(n), M.states, M.runs))
        ctx.count("reactor_states", M.states)
        ctx.count("reactor_steps", M.runs)
        for c in r.callbacks:
            ctx.instance("F", "%s: %s" % (last(n), c))
            if r.dtor is None:
                ctx.violation("F", "%s/%s/no-destructor" % (last(n), c), "%s:%d" % (prog.classes[n].get("file", ""), r.line), "no destructor waits for %s" % c, [])
            else:
                ctx.engine(Engine(prog, r.dtor, Wait(ctx, r, c)))
    ctx.rules["F"]["zero_ok"] = True
    for g in sorted(prog.fns.values(), key=lambda g: g.where()):
        if g.cls and g.blocks and not g.lam and g.ret and "UnaryReactor" in g.ret:
            a = Unary(ctx, g)
            ctx.engine(Engine(prog, g, a))
            ctx.instance("G", g.name)
