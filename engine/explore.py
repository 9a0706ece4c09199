"""Path-sensitive, interprocedural typestate exploration over clang CFGs.

The product graph (program point x call stack x branch facts x automaton
state) is explored exhaustively; branch facts are syntactic (canonical atoms
over access paths), there is no solver.
"""
from engine.ir import is_pure, short, AnalysisBroken, _field_of

# ------------------------------------------------------------ symbolic terms


class BudgetExceeded(AnalysisBroken):
    pass


class S:
    __slots__ = ("k", "a", "depth", "toks", "deps", "__weakref__")

    def __repr__(self):
        return show(self)


_intern = {}
_rank = {}


def mk(k, *a):
    key = (k, a)
    s = _intern.get(key)
    if s is None:
        s = S()
        s.k = k
        s.a = a
        d = 0
        toks = frozenset()
        for x in a:
            if isinstance(x, S):
                if x.depth > d:
                    d = x.depth
                toks |= x.toks
        s.depth = d + 1
        s.toks = toks | {s} if len(toks) < 200 else toks
        # terms whose change invalidates what is known about s: the result of
        # an impure call, a constructed object is fixed once it exists
        if (k == "call" and len(a) > 2 and a[2] is not None) or k in ("ctor", "new", "obj"):
            s.deps = frozenset((s,))
        else:
            dd = frozenset((s,))
            for x in a:
                if isinstance(x, S):
                    dd |= x.deps
            s.deps = dd
        _intern[key] = s
        _rank[s] = len(_rank)
    return s


def contains(s, t):
    return t in s.toks


def show(s):
    if not isinstance(s, S):
        return str(s)
    k, a = s.k, s.a
    if k == "this":
        return "this"
    if k == "m":
        b = show(a[0])
        f = a[1].rsplit("::", 1)[-1]
        return f if b == "this" else b + "." + f
    if k == "p":
        return "arg%d" % a[0] if isinstance(a[0], int) else str(a[0])
    if k == "v":
        return str(a[0]).split("@")[0]
    if k == "lit":
        return str(a[0])
    if k == "str":
        return '"%s"' % a[0]
    if k in ("g", "enum"):
        return str(a[0])
    if k == "call":
        r = (show(a[1]) + ".") if a[1] is not None else ""
        return r + a[0].rsplit("::", 1)[-1] + "(" + ",".join(show(x) for x in a[3:]) + ")"
    if k == "op":
        if len(a) == 3:
            return "(" + show(a[1]) + a[0] + show(a[2]) + ")"
        return a[0] + show(a[1])
    if k == "elem":
        return "elem(" + show(a[0]) + ")"
    if k == "idx":
        return show(a[0]) + "[" + show(a[1]) + "]"
    if k == "phi":
        return "phi(" + str(a[0]).split("@")[0] + ")"
    return k + "(" + ",".join(show(x) for x in a) + ")"


THIS = mk("this")
TRUE = mk("lit", "true")
FALSE = mk("lit", "false")
NULL = mk("lit", "null")
OK = mk("okstatus")
VOID = mk("void")

TRANSPARENT = {"std::unique_ptr", "std::shared_ptr", "std::function", "absl::string_view",
               "std::basic_string", "absl::optional", "std::optional", "absl::Span",
               "std::weak_ptr", "std::basic_string_view", "absl::Condition", "std::vector",
               "std::__cxx11::basic_string", "CheckOpString", "tsl::CheckOpString",
               "tsl::internal::CheckOpString"}
CHECK_IMPL = {"Check_EQImpl": "==", "Check_NEImpl": "!=", "Check_LEImpl": "<=", "Check_LTImpl": "<",
              "Check_GEImpl": ">=", "Check_GTImpl": ">"}

ERR_BUILDERS = {"InvalidArgumentError", "InternalError", "NotFoundError", "CancelledError",
                "UnavailableError", "DeadlineExceededError", "FailedPreconditionError",
                "DataLossError", "ResourceExhaustedError", "UnimplementedError",
                "AlreadyExistsError", "OutOfRangeError", "UnknownError", "AbortedError",
                "PermissionDeniedError", "RateLimiterTimeout"}
LOCK_TYPES = ("absl::MutexLock", "absl::ReleasableMutexLock", "absl::WriterMutexLock",
              "absl::ReaderMutexLock")


def is_num(x):
    try:
        float(x)
        return True
    except (ValueError, TypeError):
        return False


def const_of(s):
    """hashable constant or None"""
    if s.k == "lit":
        return ("n", float(s.a[0])) if is_num(s.a[0]) else ("l", s.a[0])
    if s.k == "enum":
        return ("n", float(s.a[1]))
    if s.k == "g" and len(s.a) > 1 and is_num(s.a[1]):
        return ("n", float(s.a[1]))
    if s.k == "str":
        return ("s", s.a[0])
    if s.k == "op" and s.a[0] == "-" and len(s.a) == 2:
        c = const_of(s.a[1])
        if c and c[0] == "n":
            return ("n", -c[1])
    return None


def lvkey(v):
    """source order of a variable key name@line:col"""
    l, _, c = v.split("@")[1].partition(":")
    return (int(l), int(c)) if l.isdigit() and c.isdigit() else (0, 0)


class Ev:
    __slots__ = ("k", "fn", "recv", "args", "line", "f", "raw", "l", "r", "op", "val", "fid", "locks", "name", "init")

    def __init__(self, k, f, line, fid, raw):
        self.k = k
        self.f = f
        self.line = line
        self.fid = fid
        self.raw = raw
        self.fn = self.recv = self.l = self.r = self.op = self.val = None
        self.args = ()
        self.locks = ()
        self.name = self.init = None

    def where(self):
        return self.f.where(self.line)

    def __repr__(self):
        return "<%s %s recv=%s args=%s l=%s r=%s @%s>" % (self.k, self.fn, self.recv, list(self.args), self.l, self.r, self.where())


class St:
    __slots__ = ("stack", "block", "idx", "env", "facts", "locks", "auto", "trace", "count", "tmp")

    def clone(self):
        n = St()
        n.stack = self.stack
        n.block = self.block
        n.idx = self.idx
        n.env = dict(self.env)
        n.facts = dict(self.facts)
        n.tmp = self.tmp
        n.locks = self.locks
        n.auto = self.auto
        n.trace = self.trace
        return n


class Auto:
    """Base automaton. Override what is needed. State must be hashable."""

    def init(self):
        return ()

    def event(self, st, ev):
        """return new automaton state (st.auto is the current one)"""
        return st.auto

    def exit(self, st, ret, ev):
        pass

    def branch(self, st, atom, val, line, f):
        return st.auto

    def rebind(self, st, sym):
        return st.auto

    def opaque(self, fid, fn, var, val):
        """track this value only as an unknown"""
        return False

    def keep_fact(self, atom):
        return True


def result(atom):
    """about the outcome of a call: remains true however often it is tested"""
    x = atom.a[0] if atom.k in ("okp", "nz") else None
    return isinstance(x, S) and (x.k == "call" and len(x.a) > 2 and x.a[2] is not None or x.k == "errstatus")


class Stop(Exception):
    pass


class Engine:
    def __init__(self, prog, entry, auto, inline=None, max_states=60000, depth=8,
                 track_fields=False, params=None, this=None, facts=None, static_env=None,
                 pure_extra=(), run_lambda_args=None, skip_tdtor=True):
        self.p = prog
        self.entry = entry
        self.auto = auto
        self.inline = inline or (lambda f, ev: True)
        self.max_states = max_states
        self.depth = depth
        self.track_fields = track_fields
        self.frames = []
        self.frame_ix = {}
        self.parts = {}  # name bound to a part of a pair -> which part
        self.states = 0
        self.paths = 0
        self.inlined = set()
        self.params = params
        self.this0 = this or THIS
        self.facts0 = facts or {}
        self.static_env = static_env or {}
        self.pure_extra = set(pure_extra)
        self.run_lambda_args = run_lambda_args
        self._live = {}
        self._ranges = {}
        self._auto_toks = {}
        self.opaque_calls = set()

    # ------------------------------------------------------------- frames
    def frame(self, fn, parent, site, static):
        key = (fn.usr, parent, site, static)
        i = self.frame_ix.get(key)
        if i is None:
            i = len(self.frames)
            self.frame_ix[key] = i
            inl = False
            if parent is not None:
                pf = self.frames[parent]
                inl = pf[4] or site[0] in pf[0].loops()
            self.frames.append((fn, parent, site, static, inl))
        return i

    def in_loop(self, fid, block):
        f = self.frames[fid]
        return f[4] or block in f[0].loops()

    # --------------------------------------------------------------- eval
    def lookup(self, st, fid, var):
        i = fid
        while i is not None:
            v = st.env.get((i, var))
            if v is not None:
                return v
            i = self.frames[i][3]
        return None

    def owner(self, st, fid, var):
        i = fid
        while i is not None:
            if (i, var) in st.env:
                return i
            i = self.frames[i][3]
        return fid

    def ev(self, st, fid, t):
        k = t[0]
        if k == "v":
            v = self.lookup(st, fid, t[1])
            if v is None:
                v = self.static_env.get(t[1])
            return v if v is not None else mk("v", t[1])
        if k == "this":
            v = self.lookup(st, fid, "this")
            return v if v is not None else self.this0
        if k == "m":
            b = self.ev(st, fid, t[1])
            if b.k == "addr":
                b = st.env.get(b.a, b)
            s = mk("m", b, t[2])
            if self.track_fields:
                v = st.env.get(("F", s))
                if v is not None:
                    return v
            if b.k == "pairv":
                if t[2].endswith("::first"):
                    return b.a[0]
                if t[2].endswith("::second"):
                    return b.a[1]
            return s
        if k == "a" and t[1][0] == "v":
            v = self.ev(st, fid, t[1])
            if v.k in SCALAR:
                own = self.owner(st, fid, t[1][1])
                if (own, t[1][1]) in st.env and t[1][1] not in self.frames[own][0].refs:
                    return mk("addr", own, t[1][1])
            return v
        if k in ("d", "a", "mv"):
            v = self.ev(st, fid, t[1])
            if v.k == "addr" and k == "d":
                return st.env.get(v.a, v)
            return v
        if k == "cast":
            ty = t[1]
            v = self.ev(st, fid, t[2])
            if ty == "void":
                return v
            if any(x in ty for x in ("int", "long", "double", "float", "short", "char")) and "*" not in ty and "&" not in ty:
                return mk("cast", ty, v)
            return v
        if k == "call":
            v = st.env.get((fid, ("c", t[1])))
            return v if v is not None else mk("callx", fid, t[1])
        if k == "idx":
            return mk("idx", self.ev(st, fid, t[1]), self.ev(st, fid, t[2]))
        if k == "op":
            o = t[1]
            if o in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "++pre", "--pre"):
                return self.ev(st, fid, t[2])
            if o in ("++post", "--post"):
                return mk("old", self.ev(st, fid, t[2]))
            if o == ",":
                return self.ev(st, fid, t[3])
            return mk("op", o, *[self.ev(st, fid, x) for x in t[2:4] if isinstance(x, tuple)])
        if k == "bool":
            return mk("bool", self.ev(st, fid, t[1]))
        if k == "cond":
            c = self.ev(st, fid, t[1])
            r = self.truth(st, c)
            if r is True:
                return self.ev(st, fid, t[2])
            if r is False:
                return self.ev(st, fid, t[3])
            return mk("cond", c, self.ev(st, fid, t[2]), self.ev(st, fid, t[3]))
        if k == "lam":
            return mk("lam", t[1], fid)
        if k == "ctor":
            cls = t[1]
            args = [self.ev(st, fid, x) for x in t[3:]]
            if cls in TRANSPARENT and len([x for x in t[3:] if x[0] != "ctor" or x[1] != "std::allocator"]) == 1 and args:
                if not (cls == "std::vector" and args[0].k not in ("init",)):
                    return args[0]
            if cls in ("std::unique_ptr", "std::shared_ptr", "std::function") and not args:
                return NULL
            if cls == "absl::Status":
                if not args:
                    return OK
                c = const_of(args[0])
                if c == ("n", 0.0):
                    return OK
                return mk("errstatus", mk("i", fid, t[2]), *args)
            if cls == "std::pair" and len(args) == 2:
                return mk("pairv", *args)
            return mk("ctor", cls, mk("i", fid, t[2]), *args)
        if k == "new":
            return mk("new", short(t[1]), mk("i", fid, t[2]), *[self.ev(st, fid, x) for x in t[3:]])
        if k == "init":
            return mk("init", short(t[1]), *[self.ev(st, fid, x) for x in t[2:]])
        if k == "fn":
            return mk("fn", t[1], t[2])
        if k in ("lit", "str", "g", "enum", "null", "?"):
            return mk(*[x for x in t])
        return mk("?", str(k))

    # ------------------------------------------------------------- truth
    def atom(self, s):
        """-> (const) or (atom, polarity) or ('and'|'or', a, b, pol)"""
        pol = True
        while True:
            if s.k == "op" and s.a[0] == "!":
                pol = not pol
                s = s.a[1]
                continue
            if s.k == "cast":
                s = s.a[1]
                continue
            if s.k == "call" and s.a[0] == "__builtin_expect":
                s = s.a[3]
                continue
            if s.k == "bool":
                x = s.a[0]
                if x.k in ("new", "lam", "fn", "addr"):
                    return pol
                if x is NULL:
                    return not pol
                if x.k in ("op", "cond", "bool"):
                    s = x
                    continue
                return (mk("nz", x), pol)
            break
        c = const_of(s)
        if c is not None:
            if c[0] == "n":
                return (c[1] != 0) == pol
            if c == ("l", "true"):
                return pol
            if c == ("l", "false") or c == ("l", "null"):
                return not pol
        if s.k == "op" and len(s.a) == 3:
            o, a, b = s.a
            if o == "&&":
                return ("and", a, b, pol)
            if o == "||":
                return ("or", a, b, pol)
            if o in ("==", "!="):
                if o == "!=":
                    pol = not pol
                if a is b and not _has_prev(a):
                    return pol
                if OK in (a, b):
                    x = b if a is OK else a
                    if x.k == "errstatus" or (x.k == "call" and x.a[0].rsplit("::", 1)[-1] in ERR_BUILDERS):
                        return not pol
                    return (mk("okp", x), pol)
                if b is TRUE or a is TRUE:
                    return self._wrap(b if a is TRUE else a, pol)
                if b is FALSE or a is FALSE:
                    return self._wrap(b if a is FALSE else a, not pol)
                if b is NULL or a is NULL:
                    x = b if a is NULL else a
                    return self._wrap(mk("bool", x), not pol)
                ca, cb = const_of(a), const_of(b)
                if ca is not None and cb is not None:
                    return (ca == cb) == pol
                if _rank[a] > _rank[b]:
                    a, b = b, a
                return (mk("eq", a, b), pol)
            if o in ("<", ">", "<=", ">="):
                if o in (">", "<="):
                    a, b = b, a
                # now '<' form: > : b<a ; <= : !(b<a)
                if o in ("<=", ">="):
                    pol = not pol
                ca, cb = const_of(a), const_of(b)
                if ca and cb and ca[0] == cb[0] == "n":
                    return (ca[1] < cb[1]) == pol
                if a is b:
                    return (False == pol)
                return (mk("lt", a, b), pol)
        if s.k == "okp":
            return (s, pol)
        if s.k == "cond":
            return ("ite", s.a, pol)
        if s.k in ("new", "lam", "addr"):
            return pol
        return (mk("nz", s), pol)

    def _wrap(self, s, pol):
        r = self.atom(s)
        if isinstance(r, bool):
            return r == pol
        if len(r) == 2:
            return (r[0], r[1] == pol)
        return r[:-1] + (r[-1] == pol,)

    def lookup_fact(self, st, a):
        f = st.facts
        if a in f:
            return f[a]
        if a.k == "eq":
            x, y = a.a
            cx, cy = const_of(x), const_of(y)
            if (cx is None) != (cy is None):
                var, c = (y, cx) if cx is not None else (x, cy)
                for b, v in f.items():
                    if v and b.k == "eq":
                        p, q = b.a
                        if p is var and const_of(q) is not None:
                            return const_of(q) == c
                        if q is var and const_of(p) is not None:
                            return const_of(p) == c
            if f.get(mk("lt", x, y)) or f.get(mk("lt", y, x)):
                return False
        elif a.k == "lt":
            x, y = a.a
            if f.get(mk("lt", y, x)):
                return False
            e = mk("eq", x, y) if _rank[x] <= _rank[y] else mk("eq", y, x)
            if f.get(e):
                return False
            # single-variable bounds against numeric constants
            cx, cy = const_of(x), const_of(y)
            if cy is not None and cx is None and cy[0] == "n":
                for b, v in f.items():
                    if b.k == "eq" and v and x in b.a:
                        o = const_of(b.a[0] if b.a[1] is x else b.a[1])
                        if o and o[0] == "n":
                            return o[1] < cy[1]
                    if b.k == "lt" and b.a[0] is x:
                        o = const_of(b.a[1])
                        if o and o[0] == "n":
                            if v and o[1] <= cy[1]:
                                return True
                            if not v and o[1] >= cy[1]:
                                return False
            if cx is not None and cy is None and cx[0] == "n":
                for b, v in f.items():
                    if b.k == "eq" and v and y in b.a:
                        o = const_of(b.a[0] if b.a[1] is y else b.a[1])
                        if o and o[0] == "n":
                            return cx[1] < o[1]
                    if b.k == "lt" and b.a[1] is y:
                        o = const_of(b.a[0])
                        if o and o[0] == "n":
                            if v and o[1] >= cx[1]:
                                return True
                            if not v and o[1] <= cx[1]:
                                return False
        return None

    def truth(self, st, s):
        r = self.atom(s)
        if isinstance(r, bool):
            return r
        if r[0] in ("and", "or"):
            _, a, b, pol = r
            ta = self.truth(st, a)
            tb = self.truth(st, b)
            if r[0] == "and":
                v = False if (ta is False or tb is False) else (True if (ta and tb) else None)
            else:
                v = True if (ta or tb) else (False if (ta is False and tb is False) else None)
            return None if v is None else v == pol
        if r[0] == "ite":
            _, (c, x, y), pol = r
            tc = self.truth(st, c)
            if tc is None:
                tx, ty = self.truth(st, x), self.truth(st, y)
                return (tx == pol) if (tx is not None and tx == ty) else None
            v = self.truth(st, x if tc else y)
            return None if v is None else v == pol
        v = self.lookup_fact(st, r[0])
        return None if v is None else v == r[1]

    def assume(self, st, s, val, out, line, f):
        """append to out all refinements of st in which s evaluates to val"""
        t = self.truth(st, s)
        if t is not None:
            if t == val:
                out.append(st)
            return
        r = self.atom(s)
        if r[0] in ("and", "or"):
            _, a, b, pol = r
            want = val == pol
            conj = (r[0] == "and") == want
            # conj: both must equal `want`
            if conj:
                tmp = []
                self.assume(st.clone(), a, want, tmp, line, f)
                for x in tmp:
                    self.assume(x, b, want, out, line, f)
            else:
                self.assume(st.clone(), a, want, out, line, f)
                tmp = []
                self.assume(st.clone(), a, not want, tmp, line, f)
                for x in tmp:
                    self.assume(x, b, want, out, line, f)
            return
        if r[0] == "ite":
            _, (c, x, y), pol = r
            for cv, br in ((True, x), (False, y)):
                tmp = []
                self.assume(st.clone(), c, cv, tmp, line, f)
                for z in tmp:
                    self.assume(z, br, val == pol, out, line, f)
            return
        a, pol = r
        n = st.clone()
        v = (val == pol)
        if self.auto.keep_fact(a):
            n.facts[a] = v
        elif self.force:
            # part of a short-circuit condition that may be evaluated again
            # where its branches join
            n.facts[a] = v
            n.tmp = n.tmp | {a}
        n.auto = self.auto.branch(n, a, v, line, f)
        if n.auto is DEAD:
            return
        n.trace = (n.trace, f, line, a, v)
        out.append(n)

    def fresh(self, st, sym):
        """sym is about to denote a new value: facts about the old value are
        forgotten, variables still holding it refer to it as prev(sym)"""
        old = mk("prev", sym)
        for k, v in st.env.items():
            if isinstance(v, S) and sym in v.toks and v is not old:
                st.env[k] = subst(v, sym, old)
        self.drop(st, sym)
        self.drop(st, old)
        st.auto = self.auto.rebind(st, sym)

    def drop(self, st, sym):
        fs = [a for a in st.facts if sym in a.deps]
        if sym.k == "m":
            # results of pure methods of the object that owns the field
            b = sym.a[0]
            for a in st.facts:
                if a not in fs and any(x.k == "call" and x.a[1] is b for x in a.deps):
                    fs.append(a)
        for a in fs:
            del st.facts[a]
        if self.track_fields:
            for k in [k for k in st.env if k[0] == "F" and (sym in k[1].deps)]:
                del st.env[k]

    def drop_fields(self, st, fields):
        def hit(a):
            for x in a.deps:
                if x.k == "m" and x.a[1] in fields:
                    return True
            return False
        for a in [a for a in st.facts if hit(a)]:
            del st.facts[a]
        if self.track_fields:
            for k in [k for k in st.env if k[0] == "F" and k[1].a[1] in fields]:
                del st.env[k]

    def drop_shared(self, st, mu):
        """another thread may run: forget everything guarded by mu (or, when
        the mutex is not a field, everything reached through this)"""
        if mu is not None and mu.k == "m":
            self.drop_fields(st, self.guarded_fields(mu))
            b = mu.a[0]
            for a in [a for a in st.facts if any(x.k == "call" and x.a[1] is b for x in a.deps)]:
                del st.facts[a]
        else:
            for a in [a for a in st.facts if THIS in a.deps]:
                del st.facts[a]
            if self.track_fields:
                for k in [k for k in st.env if k[0] == "F"]:
                    del st.env[k]

    def guarded_fields(self, mu):
        """fields annotated guarded_by(the field mu refers to)"""
        if mu is None or mu.k != "m":
            return set()
        name = mu.a[1]
        out = set()
        for c in self.p.classes.values():
            for fl in c["fields"]:
                for at, args in fl["attrs"]:
                    if at == "guarded_by" and args and args[0][0] == "m" and args[0][2] == name:
                        out.add(c["sname"] + "::" + fl["name"])
        return out

    # ---------------------------------------------------------- execution
    def range_of(self, fn):
        """range-for: __begin variable -> __range variable"""
        r = self._ranges.get(fn.usr)
        if r is None:
            r = {}
            for b in fn.blocks.values():
                rng = None
                for e in b["ev"]:
                    if e["k"] == "decl":
                        if e["var"].startswith("__range"):
                            rng = e["var"]
                        elif e["var"].startswith("__begin") and rng:
                            r[e["var"]] = rng
            if any(e["k"] == "decl" and e["var"].startswith("__begin") and e["var"] not in r for e in fn.events()):
                # range and begin in different blocks: pair in order of declaration
                rs = sorted({e["var"] for e in fn.events() if e["k"] == "decl" and e["var"].startswith("__range")}, key=lvkey)
                bs = sorted({e["var"] for e in fn.events() if e["k"] == "decl" and e["var"].startswith("__begin")}, key=lvkey)
                if len(rs) == len(bs):
                    for x in bs:
                        c = [y for y in rs if y.split("@")[0][7:] == x.split("@")[0][7:]]
                        c2 = [y for y in bs if y.split("@")[0][7:] == x.split("@")[0][7:]]
                        if len(c) == len(c2):
                            r.setdefault(x, c[c2.index(x)])
            self._ranges[fn.usr] = r
        return r

    def live(self, fn):
        """block id -> set of var/call keys mentioned in reachable blocks"""
        r = self._live.get(fn.usr)
        if r is not None:
            return r
        ment = {}
        always = set()

        def walk(t, out):
            if isinstance(t, tuple):
                if t and t[0] == "v":
                    out.add(t[1])
                elif t and t[0] == "call":
                    out.add(("c", t[1]))
                elif t and t[0] == "lam":
                    pass
                for x in t:
                    if isinstance(x, tuple):
                        walk(x, out)
            elif isinstance(t, list):
                for x in t:
                    walk(x, out)
        kills = {}
        for bid, b in fn.blocks.items():
            o = set()
            kill = set()
            for e in b["ev"]:
                u = set()
                for k in ("e", "l", "r", "recv", "i", "init", "target", "args", "binds"):
                    if k in e:
                        walk(e[k], u)
                if e["k"] == "dtor":
                    u.add(e["var"])
                if e["k"] == "lam":
                    stack = [e["lam"]]
                    while stack:
                        w = stack.pop()
                        g = self.p.fns.get(w)
                        if g is None:
                            continue
                        for e2 in g.events():
                            for k in ("e", "l", "r", "recv", "i", "init", "target", "args", "caps"):
                                if k in e2:
                                    walk(e2[k], always)
                            if e2["k"] == "lam":
                                stack.append(e2["lam"])
                        for b2 in g.blocks.values():
                            if "cond" in b2:
                                walk(b2["cond"], always)
                    for c in e["caps"]:
                        if len(c) > 3:
                            walk(c[3], u)
                        if len(c) > 1:
                            always.add(c[1])
                o |= u - kill
                if e["k"] in ("call", "ctor") and "id" in e:
                    kill.add(("c", e["id"]))
                elif e["k"] == "decl":
                    kill.add(e["var"])
            if "cond" in b:
                u = set()
                walk(b["cond"], u)
                o |= u - kill
            rg = self.range_of(fn)
            for x in [x for x in o if isinstance(x, str) and x in rg]:
                if rg[x] not in kill:
                    o.add(rg[x])
            ment[bid] = o
            kills[bid] = kill
        # backward liveness (fixpoint)
        res = {b: set(m) for b, m in ment.items()}
        ch = True
        while ch:
            ch = False
            for bid, b in fn.blocks.items():
                n = len(res[bid])
                for s in b["succ"]:
                    if s is not None:
                        res[bid] |= res[s[0]] - kills[bid]
                if len(res[bid]) != n:
                    ch = True
        for b in res:
            res[b] |= always
            res[b].add("this")
            res[b].add("ret")
        self._live[fn.usr] = res
        return res

    def run(self):
        f = self.entry
        if not f.blocks:
            raise AnalysisBroken("no CFG for " + f.name)
        st = St()
        fid = self.frame(f, None, None, None)
        st.stack = (fid,)
        st.block = f.entry
        st.idx = 0
        st.env = {(fid, "this"): self.this0}
        for i, (p, ty) in enumerate(f.params):
            st.env[(fid, p)] = (self.params[i] if self.params else mk("p", i))
        st.facts = dict(self.facts0)
        st.tmp = frozenset()
        self.force = False
        st.locks = ()
        st.trace = None
        st.auto = None
        st.auto = self.auto.init()
        self.seen = set()
        work = self._work = [st]
        while work:
            st = work.pop()
            self.step_block(st, work)
            if self.states > self.max_states:
                raise BudgetExceeded("state budget exceeded in %s" % f.name)
        return self

    def gc(self, st):
        """forget facts about results that neither a variable nor the
        automaton refers to any more"""
        cand = None
        for a in st.facts:
            v = _volatile(a)
            if v:
                if cand is None:
                    cand = []
                cand.append((a, v))
        if not cand:
            return
        live = set()
        for x in st.env.values():
            live |= x.toks
        au = st.auto
        t = self._auto_toks.get(au)
        if t is None:
            t = set()
            _flat(au, t)
            self._auto_toks[au] = t
        for a, v in cand:
            for x in v:
                if x not in live and x not in t:
                    del st.facts[a]
                    break

    def enter(self, st, work):
        fid = st.stack[-1]
        fn = self.frames[fid][0]
        lv = self.live(fn)[st.block]
        dead = [k for k in st.env if k[0] == fid and k[1] not in lv and not (isinstance(k[1], tuple) and k[1][0] == "lock")]
        for k in dead:
            del st.env[k]
        self.gc(st)
        key = (st.stack, st.block, frozenset(st.env.items()), frozenset(st.facts.items()), st.locks, st.auto)
        if key in self.seen:
            return
        self.seen.add(key)
        self.states += 1
        st.idx = 0
        work.append(st)

    def step_block(self, st, work):
        while True:
            fid = st.stack[-1]
            fn = self.frames[fid][0]
            b = fn.blocks[st.block]
            evs = b["ev"]
            if st.idx >= len(evs):
                break
            e = evs[st.idx]
            st.idx += 1
            r = self.do_event(st, fid, fn, e, work)
            if r == "pushed":
                # continue in the callee entry (dedupe there)
                self.enter(st, work)
                return
            if r == "dead":
                return
        # terminator
        fid = st.stack[-1]
        fn = self.frames[fid][0]
        if st.block == fn.exit:
            self.do_exit(st, fid, fn, work)
            return
        if b.get("noret"):
            return
        succ = b["succ"]
        if b.get("term") == "SwitchStmt":
            c = self.ev(st, fid, b["cond"])
            labels = [l for s in succ if s and s[1] not in (None, "default") for l in s[1]]
            for s in succ:
                if s is None:
                    continue
                if s[1] == "default" or s[1] is None:
                    cur = [st.clone()]
                    for l in labels:
                        nxt = []
                        for x in cur:
                            self.assume(x, mk("op", "==", c, self.ev(x, fid, l)), False, nxt, b["tline"], fn)
                        cur = nxt
                    for x in cur:
                        x.block = s[0]
                        self.enter(x, work)
                else:
                    for l in s[1]:
                        out = []
                        self.assume(st.clone(), mk("op", "==", c, self.ev(st, fid, l)), True, out, b["tline"], fn)
                        for x in out:
                            x.block = s[0]
                            self.enter(x, work)
            return
        live = [s for s in succ if s is not None]
        if len(succ) == 2 and "cond" in b and not b.get("tdbranch"):
            c = self.ev(st, fid, b["cond"])
            self.force = b.get("term") == "BinaryOperator"
            for i, val in ((0, True), (1, False)):
                if succ[i] is None:
                    continue
                if succ[1 - i] is None:
                    n = st.clone()
                    n.block = succ[i][0]
                    self.enter(n, work)
                    continue
                out = []
                self.assume(st.clone(), c, val, out, b.get("cline", b.get("tline")), fn)
                for x in out:
                    x.block = succ[i][0]
                    if x.tmp and not self.force:
                        for a in x.tmp:
                            x.facts.pop(a, None)
                        x.tmp = frozenset()
                    self.enter(x, work)
            self.force = False
            return
        for s in live:
            n = st.clone()
            n.block = s[0]
            self.enter(n, work)

    def do_exit(self, st, fid, fn, work):
        if len(st.stack) == 1:
            self.paths += 1
            ret = st.env.get((fid, "ret"))
            self.auto.exit(st, ret if ret is not None else VOID, None)
            return
        fr = self.frames[fid]
        ret = st.env.get((fid, "ret"))
        for k in [k for k in st.env if k[0] == fid]:
            del st.env[k]
        st.stack = st.stack[:-1]
        site = fr[2]
        st.block, st.idx = site[0], site[1]
        if site[2] is not None:
            st.env[(st.stack[-1], ("c", site[2]))] = ret if ret is not None else VOID
        # continue executing caller block after the call
        self.resume(st, work)

    def resume(self, st, work):
        key = ("R", st.stack, st.block, st.idx, frozenset(st.env.items()), frozenset(st.facts.items()), st.locks, st.auto)
        if key in self.seen:
            return
        self.seen.add(key)
        self.states += 1
        work.append(st)

    def emit(self, st, ev):
        ev.locks = st.locks
        a = self.auto.event(st, ev)
        if a is DEAD:
            return False
        st.auto = a
        return True

    def push(self, st, callee, fid, args, this, call_id, static):
        nfid = self.frame(callee, fid, (st.block, st.idx, call_id), static)
        if this is not None:
            st.env[(nfid, "this")] = this
        for i, (p, ty) in enumerate(callee.params):
            if i < len(args):
                st.env[(nfid, p)] = args[i]
        st.stack = st.stack + (nfid,)
        st.block = callee.entry
        st.idx = 0
        self.inlined.add(callee.usr)

    def recursing(self, st, callee):
        return any(self.frames[i][0].usr == callee.usr for i in st.stack)

    def do_event(self, st, fid, fn, e, work):
        k = e["k"]
        line = e["line"] if "line" in e else fn.line
        if k in ("mref", "deref", "mv", "tdtor"):
            if k == "mv":
                ev = Ev("mv", fn, line, fid, e)
                ev.val = self.ev(st, fid, e["e"])
                if not self.emit(st, ev):
                    return "dead"
            elif k in ("deref", "mref") and getattr(self.auto, "want_refs", False):
                ev = Ev(k, fn, line, fid, e)
                ev.val = self.ev(st, fid, e["e"])
                if not self.emit(st, ev):
                    return "dead"
            return
        if k == "lam":
            for c in e["caps"]:
                if len(c) > 3 and c[0] in ("copy", "ref"):
                    st.env[(fid, c[1])] = self.ev(st, fid, c[3])
            ev = Ev("lam", fn, line, fid, e)
            ev.val = mk("lam", e["lam"], fid)
            if not self.emit(st, ev):
                return "dead"
            return
        if k == "decl":
            return self.do_decl(st, fid, fn, e, line)
        if k == "init":
            ev = Ev("asg", fn, line, fid, e)
            if "field" in e:
                ev.l = mk("m", self.ev(st, fid, ("this",)), e["field"])
                ev.r = self.ev(st, fid, e["e"]) if "e" in e else VOID
                ev.op = "init"
                if not self.emit(st, ev):
                    return "dead"
                if self.track_fields:
                    st.env[("F", ev.l)] = ev.r
            return
        if k == "ret":
            v = self.ev(st, fid, e["e"]) if "e" in e else VOID
            st.env[(fid, "ret")] = v
            ev = Ev("ret", fn, line, fid, e)
            ev.val = v
            if len(st.stack) == 1:
                if not self.emit(st, ev):
                    return "dead"
            return
        if k == "asg":
            return self.do_asg(st, fid, fn, e, line)
        if k == "dtor":
            return self.do_dtor(st, fid, fn, e, line)
        if k == "new":
            ev = Ev("new", fn, line, fid, e)
            ev.val = mk("new", short(e["ty"]), mk("i", fid, e["id"]))
            return None if self.emit(st, ev) else "dead"
        if k == "delete":
            ev = Ev("delete", fn, line, fid, e)
            ev.val = self.ev(st, fid, e["e"])
            return None if self.emit(st, ev) else "dead"
        if k == "idx":
            ev = Ev("idx", fn, line, fid, e)
            ev.recv = self.ev(st, fid, e["recv"])
            ev.args = (self.ev(st, fid, e["i"]),)
            ev.fn = e.get("sfn")
            if not self.emit(st, ev):
                return "dead"
            return
        if k == "throw":
            return "dead"
        if k in ("call", "ctor"):
            return self.do_call(st, fid, fn, e, line)
        return

    def do_decl(self, st, fid, fn, e, line):
        var = e["var"]
        ty = e["ty"]
        if "init" in e:
            t = e["init"]
            val = None
            n = var.split("@")[0]
            # range-for element
            tt = t
            if tt[0] == "d" and tt[1][0] == "v" and tt[1][1].startswith("__begin"):
                rv = self.range_of(fn).get(tt[1][1])
                rng = self.lookup(st, fid, rv) if rv else None
                if rng is not None:
                    val = mk("elem", rng, fid)
                    self.fresh(st, val)
            if val is None:
                val = self.ev(st, fid, t)
            if val.k == "init" and not e.get("ref"):
                val = mk("obj", var.split("@")[0], fid, var, val)
        else:
            val = mk("obj", var.split("@")[0], fid, var)
        if any(ty.startswith(x) for x in LOCK_TYPES):
            mu = val
            if val.k == "ctor" and len(val.a) > 2:
                mu = val.a[2]
            st.env[(fid, ("lock", var))] = mu
            return self.acquire(st, fid, fn, mu, line, e)
        if val.k == "call" and val.a[0] == "std::get":
            # a name bound to a part of the pair an insertion returned
            i = self.parts.get(var)
            r = val.a[-1]
            if i is not None and isinstance(r, S) and r.k == "call" and r.a[0].rsplit("::", 1)[-1] in ("emplace", "insert", "try_emplace", "insert_or_assign"):
                val = mk("m", r, ("std::pair::first", "std::pair::second")[i])
        shown = val
        if val.depth > 30 or self.auto.opaque(fid, fn, var, val):
            val = mk("phi", var, fid)
            self.fresh(st, val)
        st.env[(fid, var)] = val
        if "binds" in e:
            if len(e["binds"]) == 2:
                for i in (0, 1):
                    self.parts[e["binds"][i][0]] = i
            for v, t in e["binds"]:
                if t and t[0] == "m":
                    st.env[(fid, v)] = mk("m", val, t[2])
                elif t is not None:
                    b = self.ev(st, fid, t)
                    nm = v.split("@")[0]
                    st.env[(fid, v)] = mk("bind", val, e["binds"].index((v, t)))
        ev = Ev("decl", fn, line, fid, e)
        ev.val = val
        ev.init = shown  # the initial value, even when the variable is kept symbolic
        ev.name = var
        if not self.emit(st, ev):
            return "dead"

    def acquire(self, st, fid, fn, mu, line, e):
        ev = Ev("lock", fn, line, fid, e)
        ev.val = mu
        if not self.emit(st, ev):
            return "dead"
        st.locks = st.locks + (mu,)
        self.drop_shared(st, mu) if mu.k == "m" else None

    def release(self, st, fid, fn, mu, line, e):
        if mu in st.locks:
            l = list(st.locks)
            l.reverse()
            l.remove(mu)
            l.reverse()
            st.locks = tuple(l)
        ev = Ev("unlock", fn, line, fid, e)
        ev.val = mu
        if not self.emit(st, ev):
            return "dead"

    def do_asg(self, st, fid, fn, e, line):
        op = e["op"]
        lt = e["l"]
        ev = Ev("asg", fn, line, fid, e)
        ev.op = op
        r = self.ev(st, fid, e["r"]) if "r" in e else None
        t = e.get("r")
        while t and t[0] == "op" and t[1] == "=" and len(t) == 4:
            # a = b = constant
            t = t[3]
            c = self.ev(st, fid, t)
            if c.k == "lit":
                r = c
        ev.r = r
        core = lt
        while core[0] in ("d", "a", "mv"):
            core = core[1]
        # plain local variable (not a reference; through a pointer only when
        # it is known to point at a local)
        own = None
        if lt[0] == "d":
            x = self.ev(st, fid, lt[1])
            if x.k == "addr":
                own = x.a[0]
                lt = ("v", x.a[1])
                fid = own
        if lt[0] == "v":
            if own is None:
                own = self.owner(st, fid, lt[1])
            isref = lt[1] in self.frames[own][0].refs
            old = self.ev(st, fid, lt)
            if not isref or old.k in ("obj", "v") or (old.k in ("lit", "phi", "op")):
                if op == "=":
                    nv = r
                    if nv.depth > 10 or self.auto.opaque(own, self.frames[own][0], lt[1], nv):
                        nv = mk("phi", lt[1], fid)
                        self.fresh(st, nv)
                elif self.in_loop(fid, st.block) or old.k == "phi":
                    nv = mk("phi", lt[1], fid)
                    self.fresh(st, nv)
                else:
                    one = mk("lit", "1")
                    o = op[:-1] if op.endswith("=") else ("+" if op == "++" else "-")
                    nv = mk("op", o, old, r if r is not None else one)
                ev.l = mk("v", lt[1])
                ev.val = nv
                # write through alias onto an 'obj' shared by another frame
                st.env[(own, lt[1])] = nv
                if isref:
                    # by-reference parameter: update the aliased variables
                    for kk, vv in list(st.env.items()):
                        if vv is old and kk[0] != own and isinstance(kk[1], str) and kk[1] != "this":
                            st.env[kk] = nv
                if not self.emit(st, ev):
                    return "dead"
                return
            l = old
        else:
            l = self.ev_path(st, fid, lt)
        ev.l = l
        # dereferenced pointer to local (e.g. *out = x)
        if not self.emit(st, ev):
            return "dead"
        self.drop(st, l)
        if l.k == "m" and self.track_fields:
            base = st.env.get(("F", l))
            if op == "=":
                st.env[("F", l)] = r
            else:
                old = base if base is not None else l
                o = op[:-1] if op.endswith("=") else ("+" if op == "++" else "-")
                nv = mk("op", o, old, r if r is not None else mk("lit", "1"))
                if self.in_loop(fid, st.block) or nv.depth > 12:
                    nv = mk("phi", l, fid, st.block)
                st.env[("F", l)] = nv
        elif lt[0] == "d" and l.k in ("obj", "lit", "call", "phi", "ctor", "okstatus"):
            # *ptr = value where ptr aliases a local object
            for kk, vv in list(st.env.items()):
                if vv is l and isinstance(kk[1], str) and kk[1] != "this":
                    st.env[kk] = r if op == "=" else mk("phi", str(kk[1]), fid, st.block)
        return

    def ev_path(self, st, fid, t):
        """evaluate an lvalue without reading stored field contents"""
        if t[0] == "m":
            return mk("m", self.ev(st, fid, t[1]), t[2])
        if t[0] in ("d", "a", "mv"):
            return self.ev_path(st, fid, t[1])
        return self.ev(st, fid, t)

    def do_dtor(self, st, fid, fn, e, line):
        var = e["var"]
        lk = st.env.pop((fid, ("lock", var)), None)
        if lk is not None:
            if lk.k != "released":
                r = self.release(st, fid, fn, lk, line, e)
                if r:
                    return r
            return
        val = st.env.get((fid, var))
        ev = Ev("dtor", fn, line, fid, e)
        ev.val = val
        ev.name = var
        if not self.emit(st, ev):
            return "dead"
        if val is not None and "Cleanup" in e["ty"]:
            lam = None
            for x in val.toks:
                if x.k == "lam":
                    lam = x
            if lam is not None and lam.a[0] in self.p.fns:
                g = self.p.fns[lam.a[0]]
                if not self.recursing(st, g):
                    self.push(st, g, fid, [], None, None, lam.a[1] if isinstance(lam.a[1], int) else None)
                    return "pushed"

    def do_call(self, st, fid, fn, e, line):
        ev = Ev("call" if e["k"] == "call" else "ctor", fn, line, fid, e)
        sfn = e.get("sfn") or ""
        ev.fn = sfn
        if "recv" in e:
            ev.recv = self.ev(st, fid, e["recv"])
        elif "target" in e:
            ev.recv = self.ev(st, fid, e["target"])
        ev.args = tuple(self.ev(st, fid, a) for a in e["args"])
        name = sfn.rsplit("::", 1)[-1]
        cid = ("c", e["id"])
        # lock primitives
        if e.get("cls") in ("absl::Mutex",) and e["k"] == "call":
            if name in ("Lock", "WriterLock", "ReaderLock"):
                return self.acquire(st, fid, fn, ev.recv, line, e)
            if name in ("Unlock", "WriterUnlock", "ReaderUnlock"):
                return self.release(st, fid, fn, ev.recv, line, e)
        if e.get("cls") == "absl::ReleasableMutexLock" and name == "Release":
            rv = e["recv"]
            while rv[0] in ("d", "a", "mv"):
                rv = rv[1]
            if rv[0] == "v":
                own = self.owner(st, fid, ("lock", rv[1]))
                mu = st.env.get((own, ("lock", rv[1])))
                if mu is not None and mu.k != "released":
                    st.env[(own, ("lock", rv[1]))] = mk("released", mu)
                    return self.release(st, fid, fn, mu, line, e)
        if e["k"] == "ctor" and any(e["ty"].startswith(x) for x in LOCK_TYPES):
            return
        # status helpers
        val = None
        if sfn == "absl::OkStatus":
            val = OK
        elif sfn == "absl::Status::ok" or (name == "ok" and "Status" in sfn):
            s = ev.recv
            if s is OK:
                val = TRUE
            elif s.k == "errstatus" or (s.k == "call" and s.a[0].rsplit("::", 1)[-1] in ERR_BUILDERS):
                val = FALSE
            else:
                val = mk("okp", s)
        elif name in ("make_unique", "make_shared") and sfn.startswith(("std::", "absl::")):
            val = mk("new", short(e["ty"]), mk("i", fid, e["id"]), *ev.args)
        elif name == "get" and ev.recv is not None and e.get("cls", "").split("<")[0] in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::reference_wrapper"):
            val = ev.recv
        elif name in CHECK_IMPL and len(ev.args) >= 2:
            val = mk("cond", mk("op", CHECK_IMPL[name], ev.args[0], ev.args[1]), NULL, mk("new", "std::string", mk("i", fid, e["id"])))
        elif name == "GetReferenceableValue" and len(ev.args) == 1:
            val = ev.args[0]
        elif sfn == "std::make_pair" and len(ev.args) == 2:
            val = mk("pairv", *ev.args)
        elif sfn == "std::get" or sfn == "std::ref" or sfn == "std::cref":
            if sfn != "std::get":
                val = ev.args[0]
        if val is not None:
            st.env[(fid, cid)] = val
            ev.val = val
            if not self.emit(st, ev):
                return "dead"
            return
        # callable values
        tgt = None
        static = None
        if ev.recv is not None and (name == "operator()" or "target" in e):
            x = ev.recv
            if x.k == "lam" and x.a[0] in self.p.fns:
                tgt = self.p.fns[x.a[0]]
                static = x.a[1] if isinstance(x.a[1], int) else None
            elif x.k == "fn" and x.a[1] in self.p.fns:
                tgt = self.p.fns[x.a[1]]
        ts = self.p.targets(e) if tgt is None else [tgt.usr]
        inst = mk("i", fid, e["id"])
        pure = is_pure(e) or name in self.pure_extra or sfn in self.pure_extra
        if e["k"] == "call":
            if pure:
                val = mk("call", sfn, ev.recv, None, *ev.args)
            else:
                val = mk("call", sfn, ev.recv, inst, *ev.args)
                self.fresh(st, val)
        else:
            val = mk("ctor", sfn.rsplit("::", 1)[0], inst, *ev.args)
        ev.val = val
        pre = ev
        if not self.emit(st, pre):
            return "dead"
        if e.get("noret"):
            return "dead"
        if len(ts) == 1 and ts[0] in self.p.fns and e["k"] == "call" and len(st.stack) <= self.depth:
            g = self.p.fns[ts[0]]
            if g.blocks and not self.recursing(st, g) and (tgt is not None or self.inline(g, ev)):
                this = None
                if tgt is None and not g.is_static and ev.recv is not None:
                    this = ev.recv
                if tgt is not None and tgt.lam and static is None:
                    this = None
                self.push(st, g, fid, ev.args, this, e["id"], static)
                return "pushed"
        # opaque
        self.opaque_calls.add(sfn)
        st.env[(fid, cid)] = val
        if e["k"] == "call" and not pure:
            if ev.recv is not None and ev.recv.k not in ("this",) and not ts and not sfn.startswith(("absl::CondVar::", "absl::Mutex::", "absl::Notification::")):
                self.drop(st, ev.recv)
            if sfn.endswith("CondVar::Wait") or "CondVar::WaitWith" in sfn or name.startswith("Await"):
                mu = ev.args[0] if ev.args and "CondVar" in sfn else ev.recv
                self.drop_shared(st, mu)
            for u in ts:
                m = self.p.modset(u)
                if m:
                    self.drop_fields(st, m)
        for i in e.get("outp", ()):
            if i < len(ev.args):
                a = ev.args[i]
                t = e["args"][i]
                w = None
                if a.k == "addr":
                    w = a.a
                elif t[0] == "v" and a.k in SCALAR:
                    w = (self.owner(st, fid, t[1]), t[1])
                if w is not None and w in st.env:
                    nv = mk("phi", w[1], w[0])
                    self.fresh(st, nv)
                    st.env[w] = nv
                if "Mutex" in (e.get("aty") or [""] * 20)[i]:
                    continue
                if a.k not in ("this", "lit"):
                    self.drop(st, a)
        # lambdas handed to non-repo / opaque callee: optionally run once
        if self.run_lambda_args is not None:
            for a in ev.args:
                if a.k == "lam" and a.a[0] in self.p.fns and self.run_lambda_args(ev, a):
                    g = self.p.fns[a.a[0]]
                    if not self.recursing(st, g) and len(st.stack) <= self.depth:
                        # both: not run / run once
                        n = st.clone()
                        self.resume(n, work_ref(self))
                        pargs = [mk("lamarg", a, i) for i in range(len(g.params))]
                        self.push(st, g, fid, pargs, None, None, a.a[1] if isinstance(a.a[1], int) else None)
                        return "pushed"
        return


SCALAR = ("lit", "null", "op", "phi", "okstatus", "cast", "enum")
_sub = {}


def subst(s, x, y):
    """s with x replaced by y (existing y kept)"""
    if s is x:
        return y
    if s is y or x not in s.toks:
        return s
    key = (s, x, y)
    r = _sub.get(key)
    if r is None:
        r = _sub[key] = mk(s.k, *[subst(a, x, y) if isinstance(a, S) else a for a in s.a])
    return r


_prev = {}


def _has_prev(s):
    r = _prev.get(s)
    if r is None:
        r = _prev[s] = any(x.k == "prev" for x in s.toks)
    return r


_vol = {}


def _volatile(a):
    r = _vol.get(a)
    if r is None:
        r = _vol[a] = tuple(x for x in a.deps if x.k in ("phi", "elem", "ctor", "new", "prev") or (x.k == "call" and x.a[2] is not None))
    return r


def _flat(x, out):
    if isinstance(x, S):
        out |= x.toks
    elif isinstance(x, (tuple, frozenset, list)):
        for y in x:
            _flat(y, out)


DEAD = object()


def work_ref(eng):
    return eng._work


def trace_of(st, n=12):
    out = []
    t = st.trace
    while t is not None and len(out) < n:
        out.append("%s: %s%s" % (t[1].where(t[2]), show(t[3]), "" if t[4] else " is false"))
        t = t[0]
    out.reverse()
    return out
