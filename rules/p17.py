"""Lent messages: typestate of every sub-message that is lent to an outgoing message."""
import os
import re
from engine.explore import result
from engine import ir
from engine.util import *
from engine.ir import AnalysisBroken
from rules.p18 import base, var

ADD = ("UnsafeArenaAddAllocated", "AddAllocated")
SET = re.compile(r"^(?:unsafe_arena_)?set_allocated_(\w+)$")
REL = re.compile(r"^(?:unsafe_arena_)?release_(\w+)$")
PUSH = ("push_back", "emplace_back", "push", "emplace", "insert")
TOP = 5


def lends(n):
    return n in ADD or SET.match(n)


def names_of(n):
    for p in ("mutable_", "add_"):
        if n.startswith(p):
            return n[len(p):]
    return n


class Env:
    """resolution of access paths through local variables"""

    def __init__(self, classes):
        self.classes = classes

    def proto(self, fn):
        c = fn.rsplit("::", 1)[0]
        return c not in self.classes or not self.classes[c].get("fields") or c.startswith("google::")

    def path(self, s, env):
        """(root, holder, field names, stale) of a message expression"""
        names, holder, stale = [], None, False
        for _ in range(60):
            if not isinstance(s, S):
                return None
            if s.k in ("cast",):
                s = s.a[-1]
            elif s.k in ("addr", "deref", "mv", "elem", "idx", "bool"):
                s = s.a[0]
            elif s.k == "call" and isinstance(s.a[1], S):
                n = last(s.a[0])
                if self.msg(s.a[0]):
                    names.insert(0, names_of(n))
                s = s.a[1]
            elif s.k == "m" and holder is None:
                q = str(s.a[1])
                holder = (q.rsplit("::", 1)[0], last(q))
                s = s.a[0]
            elif s.k in ("phi", "v") and var(s) in env:
                x, st = env[var(s)]
                stale |= st
                s = x
            else:
                return s, holder, tuple(names), stale
        return None

    def msg(self, fn):
        """a method of a protobuf message"""
        c = fn.rsplit("::", 1)[0]
        c = c.split("::")[-1]
        return c in self.msgs or c.rsplit("_", 1)[-1] in self.msgs


class Lent(Auto):
    """pending: what is lent, per root.  mode 'class': a method of the holder
    itself, entered with everything lent"""

    def __init__(self, ctx, prog, g, E, holder=None, kinds=(), release=False, dtors=frozenset()):
        self.ctx, self.prog, self.g, self.E = ctx, prog, g, E
        self.holder, self.kinds, self.release, self.dtors = holder, kinds, release, dtors
        self.sites = set()
        self.roots = set()

    def init(self):
        env, pend, loops = (), frozenset(), ()
        if self.holder:
            for field, names, rep in self.kinds:
                if not rep:
                    pend |= {(THIS, field, names, "lent")}
        return dict_(env=env, pend=pend, open=frozenset(), done=frozenset(), rel=(), need=False, held=False, raw=(), sizes=())

    def keep_fact(self, atom):
        return result(atom)

    def opaque(self, fid, fn, v, val):
        if val.k == "lit" and str(val.a[0]) == "0":
            return True
        return any(x.k == "call" and (last(x.a[0]) == "back" or self.E.msg(x.a[0]) and (last(x.a[0]).startswith(("add_", "mutable_")) or last(x.a[0]).endswith("_size"))) for x in val.toks)

    # ---- helpers
    def bad(self, rid, key, where, msg, st):
        self.ctx.violation(rid, "%s/%s" % (self.g.name.split("::")[-1] if not self.holder else self.holder + "::" + last(self.g.name), key), where, msg, trace_of(st))

    def where_is(self, s, st):
        p = self.E.path(s, dict(st["env"]))
        return p

    @staticmethod
    def under(k, root, field, names):
        return k[0] is root and (field is None or k[1] == field) and k[2][:len(names)] == names

    # ---- hooks
    def branch(self, st, atom, val, line, fn):
        s = ud(st.auto)
        if not self.relate(s, atom, val):
            return DEAD
        self.tested(s, atom, val, st)
        return dict_(**s)

    def relate(self, s, atom, val):
        """index variable against the size of a container, decided over small values"""
        if atom.k not in ("lt", "eq", "nz"):
            return True
        vs = {var(x) for x in atom.toks if x.k in ("phi", "v") and var(x)}
        cs = {x.a[1] for x in atom.toks if x.k == "call" and last(x.a[0]) == "size" and isinstance(x.a[1], S)}
        if len(vs) != 1 or len(cs) > 1:
            return True
        v = next(iter(vs))
        rel = dict(s["rel"])
        if v not in rel:
            return True
        try:
            keep = frozenset((i, n) for i, n in rel[v] if bool(self.ev(atom, i, n)) == val)
        except (KeyError, TypeError, ValueError):
            return True
        if not keep:
            return False
        rel[v] = keep
        s["rel"] = tuple(sorted(rel.items()))
        return True

    def ev(self, x, i, n):
        x = base(x) or x
        if x.k == "lit":
            return int(str(x.a[0]))
        if x.k in ("phi", "v"):
            return i
        if x.k == "call" and last(x.a[0]) == "size":
            return n
        if x.k == "eq":
            return self.ev(x.a[0], i, n) == self.ev(x.a[1], i, n)
        if x.k == "lt":
            return self.ev(x.a[0], i, n) < self.ev(x.a[1], i, n)
        if x.k in ("nz", "bool"):
            return bool(self.ev(x.a[0], i, n))
        if x.k == "op" and len(x.a) == 3:
            a, b = self.ev(x.a[1], i, n), self.ev(x.a[2], i, n)
            return {"+": a + b, "-": a - b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[x.a[0]]
        if x.k == "op" and x.a[0] == "!":
            return not self.ev(x.a[1], i, n)
        raise KeyError(x)

    def container(self, x, s):
        """the repeated field whose size or end an expression is"""
        x = base(x)
        if x is None:
            return None
        if x.k in ("phi", "v") and var(x) in dict(s["sizes"]):
            return dict(s["sizes"])[var(x)]
        if x.k != "call" or not isinstance(x.a[1], S):
            return None
        n = last(x.a[0])
        if n.endswith("_size"):
            p = self.where_is(x.a[1], s)
            return p and (p[0], p[1], p[2] + (n[:-5],))
        if n in ("size", "end", "empty", "cend"):
            p = self.where_is(x.a[1], s)
            return p and (p[0], p[1], p[2])
        return None

    def tested(self, s, atom, val, st):
        """what a branch says about emptiness, presence and loops"""
        c = empty = None
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if x is not None and x.k == "call":
                n = last(x.a[0])
                if n.startswith("has_") and isinstance(x.a[1], S):
                    p = self.where_is(x.a[1], s)
                    if p and not val:
                        f_ = p[1] and p[1][1]
                        self.drop(s, p[0], f_, p[2] + (n[4:],))
                    return
                c = self.container(x, s)
                empty = val if n == "empty" else not val
        elif atom.k == "eq":
            for a, b in ((atom.a[0], atom.a[1]), (atom.a[1], atom.a[0])):
                if base(b) is not None and base(b).k == "lit" and str(base(b).a[0]) == "0":
                    c, empty = self.container(a, s), val
                    break
                if base(a) is not None and base(a).k == "call" and last(base(a).a[0]) in ("end", "cend"):
                    self.loop(s, self.container(a, s), val, st)
                    return
        elif atom.k == "lt":
            a, b = base(atom.a[0]), base(atom.a[1])
            if a is not None and a.k == "lit" and str(a.a[0]) == "0":
                c, empty = self.container(b, s), not val
                if c and var(b) in dict(s["sizes"]) and not self.counts(s, c):
                    c = None
            elif b is not None and b.k == "lit" and str(b.a[0]) == "1":
                c, empty = self.container(a, s), val
            elif b is not None and b.k == "lit" and str(b.a[0]) == "0" and a is not None and var(a) in dict(s["sizes"]):
                # counting down over the elements
                self.loop(s, dict(s["sizes"])[var(a)], val, st)
            else:
                c2 = self.container(b, s)
                if c2 and a is not None and a.k in ("phi", "v") and var(a) in dict(s["rel"]):
                    self.loop(s, c2, not val, st)
                    if not val and self.counts(s, c2, b):
                        self.drop(s, c2[0], c2[1] and c2[1][1], c2[2])
                return
        if c and empty:
            self.drop(s, c[0], c[1] and c[1][1], c[2])
            self.loop(s, c, True, st)

    def counts(self, s, c, x=None):
        """a counted loop over the size taken before the first release"""
        return c in s["raw"] and (x is None or x.k in ("phi", "v"))

    def drop(self, s, root, field, names):
        s["pend"] = frozenset(k for k in s["pend"] if not (self.under(k, root, field, names) and k[3] != "old"))

    def loop(self, s, c, leave, st):
        """head of a loop over the elements of a repeated field"""
        if not c:
            return
        root, h, names = c
        field = h and h[1]
        if self.holder and root is THIS:
            inner = [k for k in self.kinds if k[2] and k[0] == field and k[1][:len(names)] == names and k[1] != names]
            if inner:
                left = [k for k in s["pend"] if self.under(k, root, field, names) and k[2] != names]
                for k in left:
                    self.bad("A", "%s/kept" % ".".join(k[2]), self.g.where(), "an element can keep the %s lent to it" % k[2][-1], st)
                s["pend"] = frozenset(k for k in s["pend"] if k not in left)
                if leave:
                    s["done"] = s["done"] | {(field, names)}
                else:
                    s["pend"] = s["pend"] | {(THIS, k[0], k[1], "lent") for k in inner}
            return
        if leave:
            # all elements handled; each lost what is released per element
            s["pend"] = frozenset(k for k in s["pend"] if not (self.under(k, root, field, names) and k[3] == "old" and (root, field, k[2]) in s["open"]))

    def event(self, st, ev):
        s = ud(st.auto)
        w = ev.where()
        n = last(ev.fn or "")
        if ev.k in ("decl", "asg"):
            v = (ev.raw or {}).get("var") if ev.k == "decl" else (var(ev.l) if base(ev.l) is not None and base(ev.l).k in ("v", "phi") else None)
            val = ev.init if ev.k == "decl" else ev.r
            if ev.k == "asg" and ev.op in ("++", "+="):
                rel = dict(s["rel"])
                if v in rel:
                    one = ev.op == "++" or base(ev.r) is not None and base(ev.r).k == "lit" and str(base(ev.r).a[0]) == "1"
                    if one:
                        rel[v] = frozenset((min(i + 1, TOP), z) for i, z in rel[v])
                    else:
                        del rel[v]
                    s["rel"] = tuple(sorted(rel.items()))
                return dict_(**s)
            if v and val is not None and ev.op in (None, "=", "init"):
                env = dict(s["env"])
                env.pop(v, None)
                rel = dict(s["rel"])
                rel.pop(v, None)
                sz = dict(s["sizes"])
                sz.pop(v, None)
                b = base(val)
                if b is not None and b.k == "op" and b.a[0] == "-" and len(b.a) == 3 and base(b.a[2]) is not None and base(b.a[2]).k == "lit" and str(base(b.a[2]).a[0]) == "1":
                    c = self.container(b.a[1], s)
                    if c:
                        sz[v] = c
                if b is not None and b.k == "lit" and str(b.a[0]) == "0":
                    rel[v] = frozenset((0, z) for z in range(TOP))
                elif b is not None and b.k == "call" and (last(b.a[0]) == "size" or last(b.a[0]).endswith("_size")):
                    c = self.container(b, s)
                    if c:
                        sz[v] = c
                        if any(self.under(k, c[0], c[1] and c[1][1], c[2]) for k in s["pend"]):
                            s["raw"] = tuple(sorted(set(s["raw"]) | {c}, key=repr))
                elif self.opaque(0, None, None, val):
                    p = self.E.path(val, env)
                    env[v] = (val, bool(p and p[3]))
                s["env"] = tuple(sorted(env.items()))
                s["rel"] = tuple(sorted(rel.items()))
                s["sizes"] = tuple(sorted(sz.items()))
            elif ev.k == "asg":
                self.overwrite(s, ev.l, w, st)
            return dict_(**s)
        if ev.k == "dtor":
            g_ = self.guards.get(short((ev.raw or {}).get("ty") or "").split("::")[-1])
            if g_:  # a scope guard that gives the data back
                s["pend"] = frozenset(k for k in s["pend"] if k[1] is not None or k[2][-1] not in g_)
        if ev.k == "dtor" and ev.val is not None:
            if ev.val.k not in ("phi", "v"):
                self.die(s, ev.val, w, st)
            return dict_(**s)
        if ev.k != "call" or ev.recv is None:
            return dict_(**s)
        m = SET.match(n)
        if (n in ADD or m) and ev.args and not self.owned(ev.args[0], s):
            p = self.where_is(ev.recv, s)
            if p:
                root, h, names, stale = p
                if m:
                    names += (m.group(1),)
                self.sites.add((root.k, h, names, w))
                self.roots.add((root, h))
                s["need"] = True
                k = (root, h and h[1], names, "lent")
                if root.k in ("obj", "ctor") and m and k in s["pend"] and not self.holder:
                    self.bad("B", "%s/lent-twice" % ".".join(names), w, "a %s is lent although the one lent before is still attached (setting a field frees what it holds)" % names[-1], st)
                s["pend"] = s["pend"] | {k}
            return dict_(**s)
        if n in ("UnsafeArenaExtractSubrange", "UnsafeArenaReleaseLast", "ReleaseLast"):
            p = self.where_is(ev.recv, s)
            if p:
                s["open"] = s["open"] | {(p[0], p[1] and p[1][1], p[2])}
                if n == "UnsafeArenaExtractSubrange" and len(ev.args) > 1 and self.container(ev.args[1], s) == (p[0], p[1], p[2]) and ev.args[0].k == "lit" and str(ev.args[0].a[0]) == "0":
                    self.drop(s, p[0], p[1] and p[1][1], p[2])
            return dict_(**s)
        m = REL.match(n)
        if m and not ev.args:
            p = self.where_is(ev.recv, s)
            if p:
                self.drop(s, p[0], p[1] and p[1][1], p[2] + (m.group(1),))
            return dict_(**s)
        if n.startswith("clear_") or n in ("Clear", "RemoveLast", "DeleteSubrange", "Swap", "CopyFrom", "MergeFrom", "ParseFromString", "ParseFromArray", "erase", "clear"):
            p = self.where_is(ev.recv, s)
            if p and (self.E.msg(ev.fn) or "Repeated" in ev.fn or "google::protobuf" in ev.fn):
                names = p[2] + ((n[6:],) if n.startswith("clear_") else ())
                self.free(s, p, names, n, w, st)
            return dict_(**s)
        # growing the queue of responses: what is older may be sent and destroyed first
        if n in ("emplace", "emplace_back", "push", "push_back"):
            r = base(ev.recv)
            if r is not None and r.k == "m" and r.a[0] is THIS:
                env = {v: (x, True if any(y.k == "call" and last(y.a[0]) == "back" and y.a[1] is r for y in x.toks) else b) for v, (x, b) in s["env"]}
                # what is rooted at such a variable is stale as well
                for v in env:
                    p = self.E.path(mk("phi", v), env)
                    env[v] = (env[v][0], env[v][1] or bool(p and p[3]))
                if tuple(sorted(env.items())) != s["env"] or n == "emplace":
                    s["env"] = tuple(sorted(env.items()))
                    if s["held"]:
                        s["need"] = False
                    s["held"] = False
        if n in PUSH and ev.args:
            p = self.E.path(ev.recv, dict(s["env"]))
            if p and p[1] and p[1][0] in self.shared and p[1][1] in self.shared[p[1][0]]:
                if not p[3]:
                    s["held"] = True
        if n in ("pop", "pop_front", "pop_back", "clear", "erase"):
            r = base(ev.recv)
            if r is not None and r.k == "m" and r.a[0] is THIS and self.fronts(r, st) and not self.holder:
                left = [k for k in s["pend"] if k[0].k in ("obj", "ctor")]
                if left:
                    self.bad("C", "%s/owner-dropped" % last(str(r.a[1])), w, "%s is emptied, which may free the %s still lent to an outgoing message" % (last(str(r.a[1])), left[0][2][-1]), st)
        # the elements move on: what was lent to an earlier element stays lent
        if n.startswith("add_") and self.E.msg(ev.fn):
            p = self.where_is(ev.recv, s)
            if p and p[0].k in ("obj", "ctor"):
                names = p[2] + (n[4:],)
                s["pend"] = frozenset((k[0], k[1], k[2], "old") if self.under(k, p[0], p[1] and p[1][1], names) and k[2] != names else k for k in s["pend"])
        return dict_(**s)

    def fronts(self, r, st):
        return any(f_["name"] == last(str(r.a[1])) and any(t in f_["ty"] for t in self.owners) for f_ in self.prog.classes.get(str(r.a[1]).rsplit("::", 1)[0], {}).get("fields", []))

    def owned(self, x, s):
        b = base(x)
        if b is None:
            return False
        if b.k == "new":
            return True
        if b.k == "call" and (last(b.a[0]) in ("release", "ReleaseLast", "New") or REL.match(last(b.a[0]))):
            return True
        return False

    def free(self, s, p, names, how, w, st):
        root, h = p[0], p[1]
        hit = [k for k in s["pend"] if self.under(k, root, h and h[1], names) or k[0] is root and (h is None or k[1] == h[1]) and names[:len(k[2])] == k[2]]
        for k in hit:
            if how == "clear" and len(names) > 0 and names == k[2]:
                pass
            self.bad("B", "%s/%s" % (".".join(k[2]), how), w, "%s frees the %s that is only lent to the message" % (how, k[2][-1]), st)
        s["pend"] = s["pend"] - set(hit)

    def overwrite(self, s, l, w, st):
        if l is None or l.k not in ("obj", "ctor", "deref", "m", "call"):
            return
        p = self.E.path(l, dict(s["env"]))
        if p and (p[1] or p[2] or p[0].k in ("obj", "ctor")):
            if p[0] is THIS and not self.holder:
                return
            self.free(s, p, p[2], "overwriting", w, st)

    def die(self, s, x, w, st):
        for k in [k for k in s["pend"] if k[0] is x and k[1] is None]:
            self.bad("B", "%s/destroyed" % ".".join(k[2]), w, "the message is destroyed, and frees the %s, while it is still lent to it" % k[2][-1], st)
            s["pend"] = s["pend"] - {k}
        for k in [k for k in s["pend"] if k[0] is x and k[1] is not None]:
            s["pend"] = s["pend"] - {k}  # the destructor of the holder (rule A)

    def exit(self, st, ret, ev):
        s = ud(st.auto)
        if self.holder and self.release:
            for k in s["pend"]:
                self.bad("A", "%s/not-released" % ".".join(k[2]), self.g.where(), "the destructor of %s can finish without releasing the %s lent to it" % (self.holder, k[2][-1]), st)
            for field, names, rep in self.kinds:
                if rep and not any(f_ == field and names[:len(x)] == x for f_, x in s["done"]):
                    self.bad("A", "%s/elements" % ".".join(names), self.g.where(), "the destructor of %s can finish before it released the %s of every element" % (self.holder, names[-1]), st)
        if not self.holder and s["need"] and not s["held"] and self.keeps:
            self.bad("C", "owner", self.g.where(), "the data stays lent to a queued message, but what owns the data is not kept alive by the last message it is lent to", st)


def dict_(**k):
    return tuple(sorted(k.items(), key=lambda x: x[0]))


def ud(t):
    return dict(t)


def sources():
    out, allof = set(), False
    for root, dirs, files in os.walk(os.path.join(ir.REPO, "reverb", "cc")):
        for f_ in files:
            if f_.endswith((".cc", ".h")) and not f_.endswith("_test.cc"):
                p = os.path.join(root, f_)
                t = open(p, errors="replace").read()
                if re.search(r"AddAllocated|set_allocated_", t):
                    q = os.path.relpath(p, ir.REPO)
                    if f_.endswith(".cc"):
                        out.add(q)
                    elif os.path.exists(p[:-2] + ".cc"):
                        out.add(q[:-2] + ".cc")
                    else:
                        allof = True
    if allof:
        return sorted(ir.all_tus())
    return sorted(out | {"reverb/cc/" + x for x in ("reverb_service_async_impl.cc", "reverb_service_impl.cc", "trajectory_writer.cc", "writer.cc")})


def run(ctx):
    ctx.rule("A", "The destructor of every class that holds a message to which data is lent releases, on every path, each kind of data that is ever lent to it, from every element, without freeing it.")
    ctx.rule("B", "While data is lent to a message, nothing frees, overwrites or destroys the field that refers to it; a local message gives everything back before it is cleared, reused or destroyed.")
    ctx.rule("C", "What owns the lent data outlives the message: it is kept alive by the last queued message it is lent to, and the writer drops an item only after the request was cleared.")
    for tu in sources():
        unit(ctx, ctx.program(tu))
    ctx.need("B", 5)
    ctx.need("A", 2)
    ctx.need("C", 2)


def unit(ctx, prog):
    E = Env(prog.classes)
    protos = set()
    for r, dd, ff in os.walk(os.path.join(ir.REPO, "reverb", "cc")):
        for f_ in ff:
            if f_.endswith(".proto"):
                protos |= set(re.findall(r"\bmessage\s+(\w+)", open(os.path.join(r, f_)).read()))
    E.msgs = protos

    def has_lend(g):
        return any(e["k"] == "call" and lends(last(e.get("fn", ""))) for e in g.events())

    def touches(g):
        return any(e["k"] == "call" and (lends(last(e.get("fn", ""))) or REL.match(last(e.get("fn", ""))) or last(e.get("fn", "")) in ("UnsafeArenaReleaseLast", "ReleaseLast", "UnsafeArenaExtractSubrange", "RemoveLast", "DeleteSubrange", "Clear") or last(e.get("fn", "")).startswith("clear_")) for e in g.events())

    own = [g for g in prog.fns.values() if g.blocks]
    calls = {}
    for g in own:
        for e in g.events():
            if e["k"] in ("call", "ctor", "asg", "dtor"):
                for t in prog.targets(e):
                    calls.setdefault(t, set()).add(g.usr)
    rel = {g.usr for g in own if touches(g) or any(x in last(g.name) for x in ("AddTableItem",))}
    # everything that pushes into a shared_ptr container of a class with a lending message
    shared, owners = {}, set()
    for c, k in prog.classes.items():
        fs = {f_["name"] for f_ in k["fields"] if "shared_ptr<" in f_["ty"] and ("vector<" in f_["ty"] or "deque<" in f_["ty"] or "list<" in f_["ty"])}
        if fs and not c.startswith(("std::", "absl::", "grpc::")):
            shared[c] = fs
            owners.add(c)
    work = list(rel)
    closure = set(rel)
    for g in own:
        if g.cls in shared and len(list(g.events())) < 30:
            closure.add(g.usr)
    while work:
        u = work.pop()
        for c in calls.get(u, ()):
            if c not in closure and not prog.fns[c].lam:
                closure.add(c)
                work.append(c)
    inl = {u for u in closure if len(prog.fns[u].blocks) < 60}
    inline = lambda k, ev: k.usr in inl
    Lent.shared, Lent.owners = shared, tuple(o.split("::")[-1] for o in owners)

    Lent.guards = {}
    for g in own:
        if last(g.name).startswith("~") and any(e["k"] == "call" and last(e.get("fn", "")) in ("UnsafeArenaReleaseLast", "UnsafeArenaExtractSubrange") for e in g.events()):
            Lent.guards[g.cls.split("::")[-1]] = {last(e["fn"])[8:] for e in g.events() if e["k"] == "call" and last(e.get("fn", "")).startswith("mutable_")}

    # lending functions; helpers whose message is a parameter are judged in their callers
    sites, entries = set(), []
    work = [g for g in own if has_lend(g)]
    seen = {g.usr for g in work}
    n = 0
    while work:
        g = work.pop()
        Lent.keeps = False
        a = Lent(ctx, prog, g, E)
        quiet, ctx.violation = ctx.violation, lambda *x, **k: None
        try:
            ctx.engine(Engine(prog, g, a, inline=inline))
        finally:
            ctx.violation = quiet
        up = any(r.k == "p" for r, h in a.roots)
        if up:
            for c in calls.get(g.usr, ()):
                if c not in seen:
                    seen.add(c)
                    work.append(prog.fns[c])
        entries.append((g, a))
        sites |= a.sites
    kinds = {}
    for rk, h, names, w in sites:
        ctx.instance("B", "%s lent at %s" % (".".join(names), w))
        if h:
            kinds.setdefault(h[0], set()).add((h[1], names))
        elif rk not in ("obj", "ctor", "p"):
            ctx.note("P17: message lent to at %s is not resolved (%s)" % (w, rk))
    for g, a in entries:
        # a message inside a queued holder: the owner must be kept with it
        Lent.keeps = any(h and h[0] in shared and r.k not in ("p", "obj", "ctor") for r, h in a.roots)
        if Lent.keeps:
            ctx.instance("C", "%s: owner of lent data kept by the message" % g.name.split("::")[-1])
        b = Lent(ctx, prog, g, E)
        ctx.engine(Engine(prog, g, b, inline=inline))
        if any(r.k in ("obj", "ctor") and h for r, h in a.roots):
            ctx.instance("C", "%s: owner dropped after the request was cleared" % g.name.split("::")[-1])
        Lent.keeps = False
    for c, ks in sorted(kinds.items()):
        k3 = {(field, names, any(repeated(prog, E, names))) for field, names in ks}
        ds = [g for g in own if g.cls == c and last(g.name).startswith("~")]
        ctx.instance("A", "%s releases %s" % (c, ", ".join(sorted(".".join(x[1]) for x in k3))))
        if not ds:
            k = prog.classes.get(c)
            ctx.violation("A", "%s/no-destructor" % c, "%s:%s" % (k["file"], k["line"]) if k else c, "data is lent to the message in %s, which has no destructor that gives it back" % c)
        for g in own:
            if g.cls != c or g.lam or g.name.split("::")[-1] == last(c):
                continue
            isd = g in ds
            if not isd and not touches(g):
                continue
            Lent.keeps = False
            a = Lent(ctx, prog, g, E, holder=c, kinds=tuple(sorted(k3)), release=isd)
            ctx.engine(Engine(prog, g, a, inline=inline))


def repeated(prog, E, names):
    """does the path to a lent message go through elements of a repeated field?"""
    for n in names[:-1]:
        yield n in E.rep


def load_repeated():
    rep = set()
    for r, dd, ff in os.walk(os.path.join(ir.REPO, "reverb", "cc")):
        for f_ in ff:
            if f_.endswith(".proto"):
                rep |= set(re.findall(r"\brepeated\s+[\w.]+\s+(\w+)\s*=", open(os.path.join(r, f_)).read()))
    return rep


_run = run


def run(ctx):
    Env.rep = load_repeated()
    _run(ctx)
