"""Items are compared with the signature of their table before they are queued."""
from engine.explore import result
from engine.explore import DEAD
from engine.util import *
from engine.ir import AnalysisBroken
from rules.p18 import base, mine, var
from rules.p16 import callee, calls, dict_, scan, late

MAPS = ("flat_signature_map", "signatures_")
NEED = frozenset({"dtype", "shape"})


def fld(s):
    s = base(s)
    return last(str(s.a[1])) if s is not None and s.k == "m" else None


def is_map(s):
    """the map of the signatures itself"""
    s = base(s)
    while s is not None and callee(s, "value", "operator*", "get", "operator->", "value_or"):
        s = base(s.a[1] if isinstance(s.a[1], S) else s.a[-1])
    return s is not None and s.k == "m" and fld(s) in MAPS


def is_sig(s):
    """(part of) the signature of a table"""
    return s is not None and not is_map(s) and any(x.k == "m" and fld(x) in MAPS for x in s.toks) and any(
        callee(x, "find", "at", "operator[]") or x.k == "idx" for x in s.toks)


def index(s):
    """the last subscript in s"""
    s = base(s)
    while isinstance(s, S):
        if s.k == "idx":
            return s.a[-1]
        if s.k == "call" and last(s.a[0]) in ("at", "operator[]"):
            return s.a[-1]
        if s.k == "elem":
            return s
        n = next((x for x in s.a if isinstance(x, S)), None)
        if s.k == "call":
            n = s.a[1] if isinstance(s.a[1], S) else n
        if n is None or n is s:
            return None
        s = base(n)
    return None


class Num(Exception):
    pass


def modulo(s, loc, t, m):
    """value of an index expression"""
    s = base(s)
    if s is None:
        raise Num()
    if s.k == "lit":
        return int(str(s.a[0]))
    if s.k == "m":
        n = fld(s)
        if n == "insert_dtypes_and_shapes_location_":
            return loc
        if n == "max_timesteps_":
            return m
        raise Num()
    if s.k in ("phi", "v", "p", "prev", "old"):
        return t
    if s.k == "call" and len(s.a) >= 3 and last(s.a[0]).endswith("Modulo"):
        v = [modulo(x, loc, t, m) for x in s.a if isinstance(x, S) and x.k != "i"]
        return v[0] % v[1]
    if s.k == "call" and callee(s, "size") and fld(s.a[1]) == "inserted_dtypes_and_shapes_":
        return m
    if s.k == "cond":
        return modulo(s.a[1] if truth(s.a[0], loc, t, m) else s.a[2], loc, t, m)
    if s.k == "op":
        v = [modulo(x, loc, t, m) for x in s.a[1:]]
        o = s.a[0]
        if len(v) == 2 and o in ("+", "-", "*"):
            return {"+": v[0] + v[1], "-": v[0] - v[1], "*": v[0] * v[1]}[o]
        if len(v) == 2 and o == "%":
            r = abs(v[0]) % abs(v[1])          # as C++ does
            return r if v[0] >= 0 else -r
        if len(v) == 1 and o == "-":
            return -v[0]
    raise Num()


def truth(s, loc, t, m):
    if s.k in ("nz", "bool"):
        return truth(s.a[0], loc, t, m) if base(s.a[0]).k == "op" else bool(modulo(s.a[0], loc, t, m))
    if s.k in ("lt", "eq"):
        a, b = modulo(s.a[0], loc, t, m), modulo(s.a[1], loc, t, m)
        return a < b if s.k == "lt" else a == b
    if s.k == "op" and s.a[0] in ("<", ">", "<=", ">=", "==", "!="):
        a, b = modulo(s.a[1], loc, t, m), modulo(s.a[2], loc, t, m)
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[s.a[0]]
    if s.k == "op" and s.a[0] == "!":
        return not truth(s.a[1], loc, t, m)
    raise Num()


class Check(Auto):
    """what is known about an item when it is queued"""

    def __init__(self, ctx, g, queue, legacy):
        self.ctx, self.g, self.queue, self.legacy = ctx, g, queue, legacy
        self.n = {}

    def init(self):
        # map / sig: the signature is not known / not found / known; size, cols: comparison with the signature
        # step: the steps of the legacy writer; done: what happened to every column of the item
        # sp: construction of the item's own signature
        return dict_(map=None, sig=None, size=False, it=None, peer=None, got=frozenset(), skipped=False, cols=False,
                     step=None, steps=False, has=False, entry=None, badstep=None,
                     colit=False, colgot=frozenset(), done=frozenset(),
                     sp=None, squeeze=None, ins=None, pushed=False, ref=None, pos=None)

    def keep_fact(self, atom):
        return result(atom)

    def rebind(self, st, sym):
        from engine.explore import subst
        s = dict(st.auto)
        p = mk("prev", sym)
        for k in ("peer", "entry", "ref", "it", "sp"):
            if isinstance(s[k], S):
                s[k] = subst(s[k], sym, p)
        return dict_(**s)

    def bad(self, rid, key, w, msg, st):
        self.ctx.violation(rid, "%s/%s" % (self.g.name, key), w, msg, trace_of(st))

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = "%s:%s" % (fn.where().rsplit(":", 1)[0], line)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "has_value", "operator bool") and x.a[1] is not None:
                y = x.a[1]
                if is_map(y):
                    s["map"] = None if val else "none"
                elif is_sig(y):
                    s["sig"] = "some" if val else "none"
                elif self.legacy and any(fld(z) == "inserted_dtypes_and_shapes_" for z in y.toks):
                    s["has"] = val
            elif is_map(x):
                s["map"] = None if val else "none"
            elif callee(x, "contains", "count") and is_map(x.a[1]):
                s["map"] = "found" if val else "lost"
            elif callee(x, "IsCompatibleWith"):
                self.pair(s, "shape", x.a[1], x.a[-1], val)
            elif callee(x, "squeeze") and s["sp"] is not None:
                s["squeeze"] = val
            elif callee(x, "LockReferences") and val and self.column(x.a[1]):
                s["colgot"] = s["colgot"] | {"locked"}
            elif callee(x, "empty") and (is_sig(x.a[1]) or s["peer"] is not None and base(x.a[1]) is s["peer"]):
                pass
            return dict_(**s)
        if atom.k == "okp":
            x = base(atom.a[0])
            if callee(x, "Validate") and val and x.a[1] is not None and self.column(x.a[1]):
                s["colgot"] = s["colgot"] | {"valid"}
            return dict_(**s)
        if atom.k == "eq":
            a, b = base(atom.a[0]), base(atom.a[1])
            for x, y in ((a, b), (b, a)):
                if callee(x, "find") and is_map(x.a[1]) and callee(y, "end", "cend"):
                    s["map"] = "lost" if val else "found"
                    return dict_(**s)
                if callee(x, "size") and callee(y, "size") and is_sig(x.a[1]) and not is_sig(y.a[1]):
                    s["size"] = val
                    s["peer"] = base(y.a[1])
                    return dict_(**s)
                if callee(x, "chunk_key") and callee(y, "chunk_key") and val and s["sp"] is not None and calls(x, "chunk_slices") and not calls(y, "chunk_slices"):
                    c = [z.a[-1] for z in calls(x, "columns") if len(z.a) > 2 and isinstance(z.a[-1], S) and z.a[-1].k in ("lit", "phi", "v")]
                    s["ref"] = base(y.a[1]) if not c or s["sp"] in c or s["sp"].k not in ("lit", "phi", "v") else None
                    return dict_(**s)
            if fld(a) == "dtype" and fld(b) == "dtype" or callee(a, "dtype") and callee(b, "dtype"):
                self.pair(s, "dtype", a, b, val)
                return dict_(**s)
        if self.legacy and atom.k == "lt":
            a, b = base(atom.a[0]), base(atom.a[1])
            # is the number of steps positive? (0 < n, !(n < 1))
            for n, z, one, v in ((b, a, "0", val), (a, b, "1", not val)):
                if n is not None and n.k == "p" and z is not None and z.k == "lit" and str(z.a[0]) == one:
                    if s["pos"] not in (None, v):
                        return DEAD
                    s["pos"] = v
            if b is not None and b.k == "p" and a is not None and a.k in ("lit", "phi") and s["step"] != "left":
                if s["step"] == "open" and not (s["size"] and s["cols"] and s["has"]):
                    s["badstep"] = "some steps are not compared with the signature"
                if s["step"] is None and a.k == "lit" and str(a.a[0]) != "0":
                    if (val or s["sig"] == "some") and s["sig"] is not None:
                        s["badstep"] = "the newest steps are not compared with the signature"
                if s["sig"] == "some":
                    s["step"] = "open" if val else "left"
                    s["steps"] = s["steps"] or not val
                s.update(size=False, cols=False, has=False, it=None, got=frozenset(), entry=a)
                return dict_(**s)
        o = scan(atom)
        if o is None and atom.k == "eq" and not self.legacy:
            # X.size() != 0, the start of a counted loop
            for x, y in ((base(atom.a[0]), base(atom.a[1])), (base(atom.a[1]), base(atom.a[0]))):
                if callee(x, "size") and x.a[1] is not None and base(x.a[1]).k == "p" and y.k == "lit" and str(y.a[0]) == "0":
                    o = x.a[1], True, y
        if o is not None:
            c, leave = base(o[0]), val == o[1]
            if (is_sig(c) or s["peer"] is not None and c is s["peer"]) and not callee(c, "find"):
                if s["it"] == "open" and not NEED <= s["got"]:
                    s["skipped"] = True
                if s["it"] is None and late(o[2]):
                    s["skipped"] = True
                s["it"] = "left" if leave else "open"
                s["got"] = frozenset()
                if leave:
                    s["cols"] = not s["skipped"]
            elif c is not None and (c.k == "p" and not self.legacy):
                if o[2] is not None and o[2].k == "lit" or atom.k == "eq" and any(callee(base(x), "begin", "cbegin") for x in atom.a):
                    s["colit"] = False
                if s["colit"]:
                    s["colgot2"] = s["colgot"]
                    s["done2"] = s["colgot"] if s.get("colall") is None else s["colall"] & s["colgot"]
                self.columns(s, leave, late(o[2]))
            elif callee(c, "columns_size") or callee(c, "columns"):
                if not (calls(c, "flat_trajectory") or "flat_trajectory" in repr(c) or c.a[1] is not None):
                    return dict_(**s)
                if s["sp"] is not None:
                    self.spec(st, s, w)
                elif late(o[2]):
                    self.bad("B", "first", w, "the item's signature leaves out its first columns", st)
                s.update(sp=None if leave else (o[2] if isinstance(o[2], S) else c), squeeze=None, ins=None, pushed=False, ref=None)
        return dict_(**s)

    def column(self, x):
        """x: an element of the trajectory that was passed"""
        return any(y.k in ("elem", "idx") and any(z.k == "p" for z in y.toks) for y in x.toks) or any(callee(y, "begin") for y in x.toks)

    def columns(self, s, leave, lt):
        if s["colit"]:
            a = s.pop("done2")
            s.pop("colgot2", None)
            s["colall"] = a
        else:
            s["colall"] = None if not lt else frozenset()
        if leave:
            a = s.pop("colall")
            s["done"] = s["done"] | (frozenset({"valid", "locked", "proto"}) if a is None else a)
            s["colit"] = False
            s["colall"] = None
        else:
            s["colit"] = True
        s["colgot"] = frozenset()

    def pair(self, s, what, a, b, val):
        ia, ib = index(a), index(b)
        if not val or is_sig(a) == is_sig(b):
            return
        if ia is not None and ib is not None and (ia is ib or ia.k == "elem" or ib.k == "elem"):
            if self.legacy:
                o = b if is_sig(a) else a
                self.where(s, o)
            s["got"] = s["got"] | {what}

    def where(self, s, o):
        """the entry of the legacy writer's log that is compared: the t-th newest"""
        for x in o.toks:
            if x.k == "idx" and fld(x.a[0]) == "inserted_dtypes_and_shapes_" or callee(x, "at", "operator[]") and fld(x.a[1]) == "inserted_dtypes_and_shapes_":
                e = x.a[-1]
                self.n["log"] = 1
                try:
                    first = not any(y.k in ("phi", "v", "p", "prev", "old") for y in e.toks)
                    if first and s["entry"] is not None and s["entry"].k != "lit" or any(modulo(e, loc, t, m) != (loc - 1 - t) % m for m in (1, 2, 5) for loc in range(m) for t in ((0,) if first else range(m))):
                        s["badstep"] = "other steps than the newest ones are compared with the signature"
                except (Num, ValueError, ZeroDivisionError):
                    self.ctx.note("%s: position %r of the log not understood" % (self.g.name, e))
                return

    def spec(self, st, s, w):
        if not s["pushed"]:
            self.bad("B", "column", w, "a column is missing in the item's signature", st)
        if s["squeeze"] is None and s["pushed"]:
            self.bad("B", "shape", w, "a column's shape does not depend on whether it is squeezed", st)
        elif s["squeeze"] is not None and (s["ins"] is not None) == s["squeeze"]:
            self.bad("B", "shape", w, "the number of steps is %s the shape of a column that is %ssqueezed" % ("added to" if s["ins"] is not None else "not part of", "" if s["squeeze"] else "not "), st)

    def event(self, st, ev):
        s = dict(st.auto)
        w = ev.where()
        n = last(ev.fn or "")
        if ev.k == "call":
            if n == "InsertDim" and s["sp"] is not None:
                self.n["spec"] = 1
                a = ev.args
                ok = len(a) == 2 and str(base(a[0]).a[0] if base(a[0]).k == "lit" else "") == "0"
                l = base(a[1]) if len(a) == 2 else None
                if l is not None and callee(l, "ColumnLength"):
                    ok = ok and (l.a[-1] is s["sp"] or s["sp"].k not in ("lit", "phi", "v"))
                elif l is not None and l.k == "lit":
                    ok = ok and str(l.a[0]) == "-1"
                if not ok:
                    self.bad("B", "dim", w, "the length of the column is not the first dimension of its shape", st)
                s["ins"] = True
            elif n in ("push_back", "emplace_back") and s["sp"] is not None and ev.args and calls(ev.args[0], "spec"):
                self.n["spec"] = 1
                r = [x for x in calls(ev.args[0], "chunker")]
                if s["ref"] is None or not any(s["ref"] in x.toks for x in r):
                    self.bad("B", "spec", w, "the type of a column is not taken from a cell of that column", st)
                s["pushed"] = True
            elif n in ("push_back", "emplace_back", "push_front", "insert") and ev.recv is not None and mine(ev.recv) == self.queue:
                self.n["push"] = 1
                self.push(st, s, w)
            elif n == "ToProto" and ev.recv is not None and self.column(ev.recv) and ev.args and calls(ev.args[0], "add_columns"):
                s["colgot"] = s["colgot"] | {"proto"}
        return dict_(**s)

    def push(self, st, s, w):
        if not self.legacy:
            for k, m in (("valid", "was not validated"), ("locked", "was not locked"), ("proto", "is not part of the item")):
                if k not in s["done"]:
                    self.bad("C", "column-" + k, w, "an item is queued although one of its columns %s" % m, st)
        if s["map"] == "none":
            return
        if s["map"] == "lost":
            self.bad("A", "unknown", w, "an item is queued for a table that is not known", st)
        elif s["map"] != "found":
            self.bad("A", "unchecked", w, "an item is queued without having looked for the signature of its table", st)
        elif s["sig"] == "none":
            return
        elif s["sig"] != "some":
            self.bad("A", "unchecked", w, "an item is queued without having looked at the signature of its table", st)
        elif s["badstep"]:
            self.bad("A", "steps", w, s["badstep"], st)
        elif self.legacy:
            if not s["steps"]:
                self.bad("A", "steps", w, "an item is queued although not all of its steps were compared with the signature of its table", st)
        elif not s["size"]:
            self.bad("A", "size", w, "an item is queued although it may have more or fewer columns than the signature of its table", st)
        elif not s["cols"]:
            self.bad("A", "columns", w, "an item is queued although not all of its columns have the type and shape that its table asks for", st)


class Column(Auto):
    """TrajectoryColumn::Validate"""

    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g
        self.n = 0

    def init(self):
        return dict_(nonempty=False, locked=False, squeeze=None, one=False, it=None, got=frozenset(), skipped=False)

    def keep_fact(self, atom):
        return result(atom)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "empty"):
                s["nonempty"] = not val
            elif callee(x, "LockReferences"):
                s["locked"] = val
            elif fld(x) == "squeeze_":
                s["squeeze"] = val
            elif callee(x, "IsCompatibleWith") and val:
                self.pair(s, "shape", x.a[1], x.a[-1])
            return dict_(**s)
        if atom.k == "eq":
            a, b = base(atom.a[0]), base(atom.a[1])
            for x, y in ((a, b), (b, a)):
                if callee(x, "size") and y.k == "lit":
                    if str(y.a[0]) == "1":
                        s["one"] = val
                    elif str(y.a[0]) == "0":
                        s["nonempty"] = not val
                    return dict_(**s)
            if fld(a) == "dtype" and fld(b) == "dtype" and val:
                self.pair(s, "dtype", a, b)
                return dict_(**s)
        o = scan(atom)
        if o is not None:
            leave = val == o[1]
            i = o[2]
            if s["it"] is None and i is not None and i.k == "lit" and str(i.a[0]) not in ("0", "1"):
                s["skipped"] = True
            if s["it"] == "open" and not NEED <= s["got"]:
                s["skipped"] = True
            s["it"] = "left" if leave else "open"
            # the first cell agrees with itself
            s["got"] = NEED if i is not None and i.k == "lit" and str(i.a[0]) == "0" else frozenset()
        return dict_(**s)

    def pair(self, s, what, a, b):
        if a is not b and index(a) is not index(b):
            s["got"] = s["got"] | {what}

    def exit(self, st, ret, ev):
        if status_ok_on_exit(None, st, ret) is False:
            return
        self.n += 1
        s = dict(st.auto)
        for ok, key, msg in ((s["nonempty"], "empty", "a column without cells is accepted"), (s["locked"], "expired", "a column with expired cells is accepted"),
                             (s["squeeze"] is False or s["one"], "squeeze", "a squeezed column with several cells is accepted"),
                             (s["it"] == "left" and not s["skipped"], "cells", "a column is accepted although its cells may have different types or shapes")):
            if not ok:
                self.ctx.violation("C", "%s/%s" % (self.g.name, key), self.g.where(), msg, trace_of(st))


class Lock(Auto):
    """LockReferences: true only if every reference was locked"""

    def __init__(self, ctx, g):
        self.ctx, self.g, self.n = ctx, g, 0

    def init(self):
        return dict_(it=None, got=frozenset(), skipped=False)

    def keep_fact(self, atom):
        return result(atom)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        o = scan(atom)
        if o is not None:
            if s["it"] is None and late(o[2]) or s["it"] == "open" and s["got"] != {"live", "kept"}:
                s["skipped"] = True
            s["it"] = "left" if val == o[1] else "open"
            s["got"] = frozenset()
        elif atom.k in ("nz", "bool") and (calls(atom, "lock", "back")):
            s["got"] = s["got"] | {"live"} if val else s["got"]
        elif atom.k == "eq" and (calls(atom, "lock", "back")) and any(base(x).k in ("null",) or repr(x) == "null" for x in atom.a):
            s["got"] = s["got"] | {"live"} if not val else s["got"]
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        if ev.k == "call" and last(ev.fn or "") in ("push_back", "emplace_back") and ev.args and calls(ev.args[0], "lock"):
            s["got"] = s["got"] | {"kept"}
        return dict_(**s)

    def exit(self, st, ret, ev):
        if ret is FALSE:
            return
        self.n += 1
        s = dict(st.auto)
        if s["it"] != "left" or s["skipped"]:
            self.ctx.violation("C", "%s/locked" % self.g.name, self.g.where(), "cells that are not kept alive are reported as locked", trace_of(st))


class Fetch(Auto):
    """a client passes the signatures of the server to the writers"""

    def __init__(self, ctx, g):
        self.ctx, self.g, self.n = ctx, g, 0

    def init(self):
        return dict_(var=None, ok=False, opts=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k == "okp" and callee(base(atom.a[0]), "MaybeUpdateServerInfoCache"):
            s["ok"] = val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        if ev.k == "call" and last(ev.fn or "") == "MaybeUpdateServerInfoCache":
            a = ev.args[-1]
            s["var"] = next((str(x) for x in a.a if isinstance(x, str) and "@" in x), None)
        elif ev.k == "asg" and fld(ev.l) == "flat_signature_map":
            s["opts"] = self.root(ev.raw.get("l")) or "?" if s["ok"] and self.fetched(ev.r, s) else False
        elif ev.k == "call" and (last(ev.fn or "") == "make_unique" and "Writer" in str((ev.raw or {}).get("ty", "")) or last(ev.fn or "") in ("NewTrajectoryWriter", "NewWriter")) and s["var"]:
            self.n += 1
            raw = {self.root(x) for x in ev.raw.get("args", ())}
            if not (s["opts"] and (s["opts"] in raw or s["opts"] == "?")) and not (s["ok"] and any(self.fetched(a, s) for a in ev.args)):
                self.ctx.violation("D", "%s/signatures" % self.g.name, ev.where(), "a writer is created without the signatures that the server announced", trace_of(st))
        return dict_(**s)

    def root(self, x):
        """the variable that an expression is about"""
        if isinstance(x, (list, tuple)) and x:
            if x[0] == "v":
                return x[1]
            return next((r for r in (self.root(y) for y in x[1:]) if r), None)
        return None

    def fetched(self, a, s):
        return a is not None and any(isinstance(y, str) and y == s["var"] for x in a.toks for y in x.a)


def run(ctx):
    ctx.rule("A", "An item is queued only if no signatures are known, its table has none, or every column (of every step) agrees with it in number, type and shape; a table that is not listed is rejected.")
    ctx.rule("B", "What is compared is the type of a cell of each column and its shape, with the number of cells in front unless the column is squeezed.")
    ctx.rule("C", "Every column of an item was validated (cells alive, of one type and shape, exactly one if squeezed), its cells are kept alive and it is part of the item.")
    ctx.rule("D", "Clients pass the signatures announced by the server to the writers they create.")
    for tu, cls, queue, legacy in (("trajectory_writer.cc", "TrajectoryWriter", "write_queue_", False), ("writer.cc", "Writer", "pending_items_", True)):
        prog = ctx.program(tu)
        gs = [g for g in prog.fns.values() if g.blocks and last(g.cls) == cls and last(g.name) == "CreateItem" and not g.lam]
        if not gs:
            raise AnalysisBroken("%s::CreateItem not found" % cls)
        for g in gs:
            a = Check(ctx, g, queue, legacy)
            ctx.engine(Engine(prog, g, a, inline=lambda k, ev: (k.lam or k.cls == "" or last(k.cls) == cls) and last(k.name) not in ("FromGrpcStatus", "StartThread", "WriteWithRetries", "ColumnLength", "PositiveModulo", "DtypesShapesString", "FlatTimestepTrajectory", "CompressTensorAsProto")))
            if not a.n.get("push"):
                ctx.violation("A", "%s/queue" % g.name, g.where(), "the item is never queued", [])
            ctx.instance("A", g.name)
            if a.n.get("spec"):
                ctx.instance("B", g.name)
    prog = ctx.program("trajectory_writer.cc")
    for name, auto in (("Validate", Column), ("LockReferences", Lock)):
        gs = [g for g in prog.fns.values() if g.blocks and last(g.cls) == "TrajectoryColumn" and last(g.name) == name]
        if not gs:
            raise AnalysisBroken("TrajectoryColumn::%s not found" % name)
        for g in gs:
            a = auto(ctx, g)
            ctx.engine(Engine(prog, g, a, inline=lambda k, ev: (k.lam or k.cls == "" or last(k.cls) == "TrajectoryColumn") and last(k.name) not in ("LockReferences",)))
            if not a.n:
                ctx.violation("C", "%s/never" % g.name, g.where(), "nothing is ever accepted", [])
            ctx.instance("C", g.name)
    prog = ctx.program("client.cc")
    n = 0
    for g in prog.fns.values():
        if g.blocks and last(g.cls) == "Client" and not g.lam and any("Writer" in str(p[1]) for p in g.params):
            a = Fetch(ctx, g)
            ctx.engine(Engine(prog, g, a, inline=lambda k, ev: False))
            if a.n:
                n += 1
                ctx.instance("D", g.where())
    if n < 2:
        ctx.violation("D", "Client/signatures", "client.cc", "writers are created without the signatures that the server announced", [])
