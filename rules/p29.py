"""Chunks: encoding and decoding are inverse, and the flag of a chunk says which was applied."""
from engine.util import *
from engine.explore import DEAD
from engine.ir import AnalysisBroken
from rules.p18 import base, mine, var, num
from rules.p16 import callee, calls, dict_, scan, late
from rules.p12 import status_test
from rules.p26 import value
from rules.p34 import Base, leaf, num_eval, atom_eval, Unknown

CODING = {"DeltaEncode", "DeltaEncodeList", "set_delta_encoded", "GetDeltaEncode"}
DELTA = ("DeltaEncode", "DeltaEncodeList")


def args(s):
    """arguments of a free function's call symbol"""
    return [x for x in s.a[1:] if isinstance(x, S) and x.k != "i"]


def option(atom):
    """the test is on the option that asks for delta encoding"""
    if atom.k != "nz":
        return False
    x = leaf(atom.a[0])
    return x is not None and x[0] in ("GetDeltaEncode", "delta_encoded", "delta_encode")


def tensor_of(s):
    """(what the value was made from, kinds of delta coding on the way)"""
    s = base(s)
    k = []
    while s is not None:
        if s.k == "call" and last(s.a[0]) in DELTA:
            a = args(s)
            k.append(a[1] if len(a) > 1 else None)
            s = base(a[0])
        elif s.k in ("elem", "idx") or s.k == "call" and last(s.a[0]) in ("at", "operator[]", "front", "back") and isinstance(s.a[1], S):
            s = base(s.a[0] if s.k != "call" else s.a[1])
        else:
            return s, k
    return None, k


class Encoder(Base):
    """a function that compresses tensors into a chunk"""

    def init(self):
        return dict_(opt=None, flag=None, enc=None)

    def keep_fact(self, atom):
        return option(atom)

    def truth(self, st, x):
        x = base(x)
        if x is TRUE or x is FALSE:
            return x is TRUE
        if x is not None and x.k == "lit" and isinstance(x.a[0], bool):
            return x.a[0]
        if x is not None and (x.k == "nz" and option(x) or option(mk("nz", x))):
            return "opt"
        return None

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if option(atom):
            self.n["option"] = 1
            if d["opt"] not in (None, val):
                return DEAD
            d["opt"] = val
        return dict_(**d)

    def event(self, st, ev):
        d = dict(st.auto)
        if ev.k == "call":
            n = last(ev.fn or "")
            if n == "set_delta_encoded" and ev.args:
                t = self.truth(st, ev.args[0])
                if t == "opt":
                    self.n["option"] = 1
                if t is None:
                    self.ctx.note("%s: the flag is set to %r" % (self.g.name, ev.args[0]))
                    t = "?"
                d["flag"] = t
            elif n == "clear_delta_encoded":
                d["flag"] = False
            elif n == "CompressTensorAsProto" and len(ev.args) > 1:
                self.n["compress"] = 1
                if any(x.k == "call" and last(x.a[0]) not in DELTA for x in ev.args[0].toks if x.k == "call") and not tensor_of(ev.args[0])[1] and calls(ev.args[0], *DELTA):
                    self.ctx.note("%s: %r not understood" % (self.g.name, ev.args[0]))
                ks = [self.truth(st, x) for x in tensor_of(ev.args[0])[1]]
                e = bool(ks)
                if len(ks) > 1:
                    self.bad("A", "twice", ev.where(), "A tensor is delta encoded more than once before it is stored.", st)
                elif ks == [False]:
                    self.bad("A", "decoded", ev.where(), "A tensor is delta decoded instead of encoded before it is stored.", st)
                elif ks == ["opt"]:
                    e = True
                elif ks == [None]:
                    self.ctx.note("%s: direction of the encoding unknown" % self.g.name)
                if d["enc"] not in (None, e):
                    self.bad("A", "mixed", ev.where(), "Some tensors of a chunk are delta encoded, others are not.", st)
                d["enc"] = e
        return dict_(**d)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        if d["enc"] is None:
            return
        f = d["flag"]
        if f == "opt":
            f = d["opt"]
            if f is None and not d["enc"]:
                f = True
        f = bool(f) if f != "?" else d["enc"]
        w = ev.where() if ev is not None else self.g.where()
        if d["enc"] != f:
            self.bad("A", "flag", w, "A chunk whose tensors are%s delta encoded says that they are%s." % (("", " not") if d["enc"] else (" not", "")), st)
        elif d["opt"] is not None and d["enc"] != d["opt"]:
            self.bad("A", "option", w, "Tensors are%s delta encoded although the option is %s." % ("" if d["enc"] else " not", "on" if d["opt"] else "off"), st)


class Decoder(Base):
    """a function that reads a tensor out of a chunk"""

    def init(self):
        return dict_(col=(), got=None, dec=0, want=None, ok=None)

    def names(self, x, c, n):
        """env: the column is c, the chunk has n tensors"""
        def e(y):
            l = leaf(y)
            if l is not None and l[0] == "tensors_size":
                return n
            y = base(y)
            return c if y is not None and y is x else None
        return e

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if atom.k == "nz" and leaf(atom.a[0]) is not None and leaf(atom.a[0])[0] == "delta_encoded":
            if d["want"] not in (None, val):
                return DEAD
            d["want"] = val
        elif atom.k in ("lt", "eq"):
            d["col"] = d["col"] + ((atom, val),)
        return dict_(**d)

    def event(self, st, ev):
        d = dict(st.auto)
        if ev.k == "call" and last(ev.fn or "") == "DecompressTensorFromProto" and ev.args:
            self.n["decompress"] = 1
            t = base(ev.args[0])
            if t.k == "call" and last(t.a[0]) == "tensors":
                x = [y for y in t.a[2:] if isinstance(y, S) and y.k != "i"]
                if x:
                    self.col(st, d, base(x[0]), ev.where())
        if ev.k == "asg" and ev.l is not None and ev.r is not None or ev.k == "decl" and ev.val is not None:
            r = base(ev.r if ev.k == "asg" else ev.val)
            if r is not None and (calls(r, "DecompressTensorFromProto") or calls(r, *DELTA)):
                s, k = r, 0
                for x in calls(r, *DELTA):
                    a = args(x)
                    e = base(a[1]) if len(a) > 1 else None
                    if e is TRUE or e is not None and e.k == "lit" and e.a[0] is True:
                        self.bad("B", "encoded", ev.where(), "A tensor read from a chunk is delta encoded again instead of decoded.", st)
                    elif e is not FALSE and not (e is not None and e.k == "lit" and e.a[0] is False):
                        o = leaf(e)
                        self.ctx.note("%s: direction of the decoding is %r" % (self.g.name, e))
                    k += 1
                if calls(r, "DecompressTensorFromProto"):
                    d["got"] = True
                    d["dec"] = k
                else:
                    d["dec"] += k
                    if not d["got"]:
                        self.bad("B", "early", ev.where(), "The data is delta decoded before it has been decompressed.", st)
        return dict_(**d)

    def col(self, st, d, x, w):
        if x.k == "lit":
            x = None
        for n in (0, 1, 2):
            for c in (-1, 0, 1, 2, 3) if x is not None else (0,):
                ok = True
                for a, v in d["col"]:
                    try:
                        ok = ok and atom_eval(a, self.names(x, c, n)) == v
                    except Unknown:
                        pass
                if ok and not 0 <= c < n:
                    self.bad("B", "column", w, "Column %d of a chunk with %d tensors is read." % (c, n), st)
                    return

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        if ret is None or ret.k != "okstatus" and ret.k != "void":
            return
        w = ev.where() if ev is not None else self.g.where()
        if not d["got"]:
            self.bad("B", "nothing", w, "Success is reported although no tensor has been decompressed.", st)
        elif d["dec"] > 1:
            self.bad("B", "twice", w, "Data is delta decoded more than once.", st)
        elif d["want"] is None:
            self.bad("B", "flag", w, "Whether the chunk is delta encoded is never looked at.", st)
        elif bool(d["dec"]) != d["want"]:
            self.bad("B", "decode", w, "Data of a chunk that is%s delta encoded is%s decoded." % ("" if d["want"] else " not", "" if d["dec"] else " not"), st)


class Slicer(Base):
    """a function that cuts rows out of a column"""

    def init(self):
        return dict_(un=None, ok=False, conds=(), sliced=False)

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if atom.k in ("lt", "eq"):
            d["conds"] = d["conds"] + ((atom, val),)
        elif atom.k == "okp" and callee(atom.a[0], "UnpackChunkColumn"):
            d["ok"] = val
        return dict_(**d)

    def env(self, off, ln, size):
        def e(y):
            y = base(y)
            l = leaf(y)
            if y is not None and y.k == "call" and last(y.a[0]) == "dim_size":
                return size if [num(z) for z in y.a[2:] if isinstance(z, S)] == [0] else None
            i = self.par(y)
            if i is not None:
                return off if i == self.off else ln if i == self.len else None
            return None
        return e

    def par(self, y):
        return y.a[0] if y is not None and y.k == "p" else None

    def event(self, st, ev):
        d = dict(st.auto)
        if ev.k != "call":
            return st.auto
        n = last(ev.fn or "")
        if n == "UnpackChunkColumn" and len(ev.args) >= 3:
            self.n["unpack"] = 1
            got = [self.par(base(x)) for x in ev.args[:2]]
            if None not in got and got != [self.chunk, self.column]:
                self.bad("C", "column", ev.where(), "Another column than the one asked for is read.", st)
            d["un"] = True
        if n in ("Slice", "SubSlice") and len(ev.args) in (1, 2) and ev.recv is not None:
            self.n["slice"] = 1
            if not (d["un"] and d["ok"]):
                self.bad("C", "failed", ev.where(), "Rows are cut out although the column could not be read.", st)
            bad = None
            for size in (1, 2, 3):
                for off in range(-1, 5):
                    for ln in range(-1, 5):
                        e = self.env(off, ln, size)
                        ok = True
                        for a, v in d["conds"]:
                            try:
                                ok = ok and atom_eval(a, e) == v
                            except Unknown:
                                pass
                        if not ok or bad:
                            continue
                        if not (0 <= off and 0 <= ln and off + ln <= size):
                            bad = "Rows %d to %d of a tensor with %d rows are cut out." % (off, off + ln, size)
                            continue
                        if n == "Slice" and len(ev.args) == 2:
                            try:
                                got = [value(x, e) for x in ev.args]
                            except Unknown:
                                self.ctx.note("%s: rows %r not understood" % (self.g.name, ev.args))
                                break
                            if got != [off, off + ln]:
                                bad = "Rows %d to %d are cut out instead of %d rows from %d." % (got[0], got[1], ln, off)
            if bad:
                self.bad("C", "rows", ev.where(), bad, st)
            d["sliced"] = True
        return dict_(**d)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        if ret is not None and ret.k == "okstatus" and not d["sliced"]:
            whole = True
            for size in (1, 2, 3):
                for off in range(0, 4):
                    for ln in range(0, 4):
                        ok = off + ln <= size
                        for a, v in d["conds"]:
                            try:
                                ok = ok and atom_eval(a, self.env(off, ln, size)) == v
                            except Unknown:
                                pass
                        if ok and (off, ln) != (0, size):
                            whole = False
            if not whole:
                self.bad("C", "whole", ev.where() if ev is not None else self.g.where(), "Success is reported although the rows asked for have not been cut out.", st)


# --- the arithmetic of the delta coding

class Lost(Exception):
    pass


def lin(x):
    """linear combination of symbols: {symbol or None (constant): factor}"""
    x = base(x)
    if x is None:
        raise Lost()
    n = num(x)
    if n is not None:
        return {None: n} if n else {}
    if x.k == "op" and x.a[0] in ("+", "-"):
        v = [lin(y) for y in x.a[1:] if isinstance(y, S)]
        r = {}
        for i, q in enumerate(v):
            f = -1 if x.a[0] == "-" and (i or len(v) == 1) else 1
            for k, c in q.items():
                r[k] = r.get(k, 0) + f * c
        return {k: c for k, c in r.items() if c}
    if x.k == "ctor" and len(args(x)) == 1:
        return lin(args(x)[0])
    return {x: 1}


class Codec(Base):
    """the element loop: output row 0 is input row 0, every other row the difference to the row before (or the sum)"""

    def init(self):
        return dict_(enc=None, bit=(), start=(), row=())

    def keep_fact(self, atom):
        return atom.k == "nz"

    def element(self, s):
        """(view, row, column) of an element access"""
        s = base(s)
        if s is not None and s.k == "call" and last(s.a[0]) in ("operator()", "operator[]") and isinstance(s.a[1], S):
            i = [x for x in s.a[2:] if isinstance(x, S) and x.k != "i"]
            if len(i) == 2:
                return base(s.a[1]), i[0], i[1]
        return None

    def tensor(self, d, view):
        """the tensor behind a view and how it is looked at"""
        if view is None or view.k != "call" or not isinstance(view.a[1], S):
            return None, None
        t = base(view.a[1])
        return dict(d["bit"]).get(t, t), last(view.a[0])

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if atom.k == "nz" and base(atom.a[0]).k == "p" and base(atom.a[0]).a[0] == self.direction:
            if d["enc"] not in (None, val):
                return DEAD
            d["enc"] = val
        if atom.k in ("lt", "eq"):
            dims = [x for x in atom.toks if x.k == "call" and last(x.a[0]) in ("dimension", "dim_size", "NumElements", "size")]
            vs = [x for x in atom.toks if x.k in ("phi", "v", "old")]
            if dims and vs:
                self.bounds.append((atom, vs, dims, self.at(fn, line), trace_of(st)))
            elif vs and not dims:
                d["row"] = tuple(x for x in d["row"] if x[0] is not atom) + ((atom, val),)
        return dict_(**d)

    def rebind(self, st, sym):
        d = dict(st.auto)
        if any(sym in a.toks for a, v in d["row"]):
            d["row"] = tuple(x for x in d["row"] if sym not in x[0].toks)
            return dict_(**d)
        return st.auto

    def isrow(self, d, i):
        """possible row kinds: 0 the first row, 1 any later one"""
        q = lin(i)
        if set(q) <= {None}:
            return {1 if q else 0}
        if list(q.values()) != [1] or None in q:
            raise Lost()
        x = next(iter(q))
        out = set()
        for v in (0, 1, 2, 3):
            ok = True
            for a, val in d["row"]:
                try:
                    ok = ok and atom_eval(a, lambda y: v if y is x else None) == val
                except Unknown:
                    pass
            if ok:
                out.add(min(v, 1))
        if out == {0, 1}:
            out = {1}         # the loop variable after the first turn
        return out

    def event(self, st, ev):
        d = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "call" and n in ("BitcastFrom", "UnsafeCopyFromInternal", "CopyFrom") and ev.recv is not None and ev.args:
            b = dict(d["bit"])
            b[base(ev.recv)] = b.get(base(ev.args[0]), base(ev.args[0]))
            d["bit"] = tuple(sorted(b.items(), key=repr))
        elif ev.k == "decl" and ev.val is not None and num(ev.val) is not None and (ev.raw or {}).get("var"):
            s = dict(d["start"])
            s[ev.raw["var"]] = num(ev.val)
            d["start"] = tuple(sorted(s.items()))
        elif ev.k == "asg" and ev.l is not None and ev.op in ("--", "-=") and base(ev.l) is not None and (var(base(ev.l)) or (ev.raw or {}).get("l")):
            self.down.append((ev.raw or {}).get("l"))
        elif ev.k == "asg" and self.element(ev.l) is not None:
            self.store(st, d, ev)
        return dict_(**d)

    def store(self, st, d, ev):
        view, i, j = self.element(ev.l)
        out, how = self.tensor(d, view)
        if out is None:
            return
        src = [x for x in self.sources]
        try:
            kinds = self.isrow(d, i)
            r = lin(ev.r) if ev.op in ("=", None, "init") else None
            if r is None:
                if ev.op not in ("+=", "-="):
                    raise Lost()
                r = lin(ev.r)
                if ev.op == "-=":
                    r = {k: -c for k, c in r.items()}
                r[base(ev.l)] = r.get(base(ev.l), 0) + 1
            terms = {}
            for x, c in r.items():
                el = self.element(x)
                if el is None:
                    raise Lost()
                t, h = self.tensor(d, el[0])
                if h != how:
                    self.bad("D", "view", ev.where(), "Rows of input and output are counted differently (%s, %s)." % (h, how), st)
                    return
                df = []
                for a, b in ((el[1], i), (el[2], j)):
                    q = lin(a)
                    for k, v in lin(b).items():
                        q[k] = q.get(k, 0) - v
                    q = {k: v for k, v in q.items() if v}
                    if not set(q) <= {None}:
                        if not set(q) <= set(lin(b)) | {None}:
                            raise Lost()
                        q = {None: "elsewhere"}
                    df.append(q.get(None, 0))
                which = "in" if t in src or base(t).k == "p" else "out" if t is out else None
                if which is None:
                    raise Lost()
                terms[(which, df[0], df[1])] = terms.get((which, df[0], df[1]), 0) + c
        except Lost:
            self.ctx.note("%s: the value stored at %s is not understood" % (self.g.name, ev.where()))
            self.n["lost"] = 1
            return
        terms = {k: c for k, c in terms.items() if c}
        for pos, x in ((0, i), (1, j)):
            b = base(x)
            if b.k in ("phi", "v", "old"):
                self.pos.setdefault(b.a[0], set()).add(pos)
                s = dict(d["start"]).get(b.a[0])
                if s is not None and s > (1 if pos == 0 and kinds == {1} else 0):
                    self.bad("D", "start", ev.where(), "The loop over the %s starts at %d." % (("rows", "columns")[pos], s), st)
        self.outs.add(out)
        if 0 in kinds:
            self.n["first"] = 1
            if terms != {("in", 0, 0): 1}:
                self.bad("D", "first", ev.where(), "The first row of the output is not the first row of the input.", st)
        if 1 in kinds:
            enc = {("in", 0, 0): 1, ("in", -1, 0): -1}
            dec = {("in", 0, 0): 1, ("out", -1, 0): 1}
            e = d["enc"]
            if e is None:
                self.bad("D", "direction", ev.where(), "Rows are computed without regard to the direction.", st)
            else:
                self.n["enc" if e else "dec"] = 1
                if terms != (enc if e else dec):
                    self.bad("D", "encode" if e else "decode", ev.where(), "A row is not %s when %s." % (("the difference to the row before", "encoding") if e else ("added to the row decoded before", "decoding")), st)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        if self.outs and ret is not None:
            r = base(ret)
            if r not in self.outs and r.k in ("ctor", "p", "obj"):
                self.bad("D", "returned", ev.where() if ev is not None else self.g.where(), "Another tensor than the coded one is returned.", st)

    def finish(self):
        for atom, vs, dims, w, tr in self.bounds:
            ks = set()
            for v in vs:
                ks |= self.pos.get(v.a[0], set())
            if len(ks) != 1 or len(vs) != 1 or len(dims) != 1:
                continue
            k = next(iter(ks))
            a = [num(x) for x in dims[0].a[2:] if isinstance(x, S) and x.k != "i"]
            if last(dims[0].a[0]) != "dimension" or len(a) != 1 or a[0] is None:
                continue
            what = ("rows", "columns")[k]
            if a[0] != k:
                self.ctx.violation("D", "%s/bound" % short(self.g.name), w, "The loop over the %s is bounded by another dimension." % what, tr)
                continue
            got = set()
            for D in (1, 2, 3):
                for v in range(0, D + 1):
                    try:
                        got.add(atom_eval(atom, lambda y: v if y is vs[0] else D if y is dims[0] else None) == (v < D))
                    except Unknown:
                        got = {True, None}
            if got == {True, False}:
                self.ctx.violation("D", "%s/bound" % short(self.g.name), w, "The loop over the %s does not end with the last one." % what, tr)


class Dispatch(Base):
    """chooses the element type: may not depend on the direction"""

    def init(self):
        return dict_(dirs=False)

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if any(x.k == "p" and x.a[0] == 1 for x in atom.toks):
            d["dirs"] = True
        return dict_(**d)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        r = base(ret)
        w = ev.where() if ev is not None else self.g.where()
        if r is None:
            return
        if callee(r, "DeltaEncode"):
            self.n["coded"] = 1
            a = args(r)
            if not (base(a[0]).k == "p" and base(a[0]).a[0] == 0):
                self.bad("D", "tensor", w, "Another tensor than the given one is coded.", st)
            e = base(a[1]) if len(a) > 1 else None
            if d["dirs"]:
                self.ctx.note("%s: tests the direction" % self.g.name)
            elif e is None or e.k != "p" or e.a[0] != 1:
                self.bad("D", "direction", w, "Tensors are coded in another direction than asked for.", st)
        elif r.k == "p" and r.a[0] == 0:
            if d["dirs"]:
                self.bad("D", "onesided", w, "Whether a tensor stays as it is depends on the direction, so decoding does not undo encoding.", st)


class List(Base):
    """codes every tensor of a list"""

    def init(self):
        return dict_(turn=None, done=False)

    def turn(self, d, st, w):
        if d["turn"] is not None and d["turn"] != 1:
            self.bad("D", "each", w, "A tensor of the list is coded %d times." % d["turn"], st)

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        s = scan(atom)
        if s is not None and base(s[0]).k == "p" and base(s[0]).a[0] == 0:
            self.n["loop"] = 1
            self.turn(d, st, self.at(fn, line))
            if late(s[2]):
                self.bad("D", "each", self.at(fn, line), "The first tensors of the list are left out.", st)
            d["turn"] = None if val == s[1] else 0
            d["done"] = d["done"] or val == s[1]
        return dict_(**d)

    def event(self, st, ev):
        d = dict(st.auto)
        if ev.k == "call" and last(ev.fn or "") in ("push_back", "emplace_back") and ev.args and d["turn"] is not None:
            d["turn"] = min(d["turn"] + 1, 2)
            x = base(ev.args[0])
            if not callee(x, "DeltaEncode"):
                self.bad("D", "plain", ev.where(), "A tensor of the list is not coded.", st)
            else:
                e = base(args(x)[1])
                if e.k != "p" or e.a[0] != 1:
                    self.bad("D", "direction", ev.where(), "The tensors of a list are coded in another direction than asked for.", st)
        elif ev.k == "asg" and callee(ev.r, "DeltaEncode") and d["turn"] is not None:
            d["turn"] = min(d["turn"] + 1, 2)
            e = base(args(base(ev.r))[1])
            if e.k != "p" or e.a[0] != 1:
                self.bad("D", "direction", ev.where(), "The tensors of a list are coded in another direction than asked for.", st)
        return dict_(**d)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        if self.n.get("loop") and not d["done"]:
            self.bad("D", "each", ev.where() if ev is not None else self.g.where(), "Not every tensor of the list is coded.", st)


# --- compression

class Format(Base):
    """how a tensor is written to or read from its proto"""
    OPS = {"AsProtoTensorContent": "plain", "AsProtoField": "plain", "SnappyCompressFromString": "snappy", "FromProto": "plain", "SnappyUncompressToString": "snappy"}

    def init(self):
        return dict_(string=None, other=(), ops=(), set=frozenset(), good=None)

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if atom.k == "eq" and any(leaf(x) is not None and leaf(x)[0] == "dtype" for x in atom.a):
            if any(x.k == "enum" and last(str(x.a[0])) == "DT_STRING" for x in atom.a):
                if d["string"] not in (None, val):
                    return DEAD
                d["string"] = val
            else:
                d["other"] = d["other"] + (repr(atom),)
        elif atom.k == "nz" and calls(atom.a[0], "SnappyUncompressToString", "FromProto"):
            d["good"] = val
        elif atom.k in ("nz", "lt", "eq") and any(x.k == "p" for x in atom.toks):
            d["other"] = d["other"] + (repr(atom),)
        return dict_(**d)

    def event(self, st, ev):
        d = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k != "call":
            return st.auto
        if n in self.OPS:
            d["ops"] = d["ops"] + ((self.OPS[n], ev.recv, tuple(x for x in ev.args if x is not None), ev.where()),)
            if n == "SnappyCompressFromString":
                self.n[n] = 1
                if [leaf(x)[0] if leaf(x) else None for x in ev.args[:2]] != ["tensor_data", "mutable_tensor_content"]:
                    self.bad("E", "content", ev.where(), "Not the tensor's data is stored as its content.", st)
            if n == "SnappyUncompressToString":
                self.n[n] = 1
                a = [leaf(x) for x in ev.args]
                if len(a) == 3 and None not in a:
                    if a[0][0] != "tensor_content" or a[1][0] not in ("size", "TotalBytes", "ByteSizeLong") or a[2][0] != "data":
                        self.bad("E", "uncompress", ev.where(), "Not the whole content is uncompressed into the tensor.", st)
        if n == "set_dtype" and ev.args:
            if not (leaf(ev.args[0]) and leaf(ev.args[0])[0] == "dtype"):
                self.bad("E", "dtype", ev.where(), "Another type than the tensor's is stored.", st)
            d["set"] = d["set"] | {"dtype"}
        if n in ("AsProto", "set_dims") and ev.args and any(calls(x, "mutable_tensor_shape") for x in ev.args):
            d["set"] = d["set"] | {"shape"}
        return dict_(**d)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if self.reads and d["good"] is False:
            return
        kinds = {o[0] for o in d["ops"]}
        if len(d["ops"]) != 1:
            self.bad("E", "once", w, "The tensor is %s." % (("read more than once" if self.reads else "written more than once") if d["ops"] else "neither read nor written"), st)
            return
        k = kinds.pop()
        self.paths.append((d["string"], d["other"], k, w, trace_of(st)))
        if k == "snappy" and not self.reads and d["set"] != {"dtype", "shape"}:
            self.bad("E", "meta", w, "A tensor is stored without its type or shape.", st)
        if k == "snappy" and self.reads:
            _, _, a, ww = d["ops"][0]
            r = base(ret)
            for x in a[1:]:
                if r is not None and r.k == "ctor" and r not in x.toks:
                    self.bad("E", "target", ww, "The content is uncompressed into something else than the returned tensor.", st)
                    break
            if r is not None and r.k == "ctor" and not (calls(r, "dtype") and calls(r, "tensor_shape")):
                self.bad("E", "shape", w, "The tensor is not made with the stored type and shape.", st)


class Copy(Base):
    """a clone of an options object, or the constructor"""

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "asg" and ev.l is not None and mine(ev.l) and ev.r is not None and base(ev.r).k == "p":
            self.n[mine(ev.l)] = base(ev.r).a[0]
        return st.auto

    def exit(self, st, ret, ev):
        self.n.setdefault("ret", []).append(ret)


def run(ctx):
    ctx.rule("A", "The tensors of a chunk are delta encoded, once each, exactly when the option asks for it, and exactly then the chunk says so.")
    ctx.rule("B", "A tensor read from a chunk is decompressed from the column asked for and delta decoded exactly when the chunk says so.")
    ctx.rule("C", "Exactly the rows asked for are cut out of a column, and only if it has them.")
    ctx.rule("D", "Delta decoding undoes delta encoding: same rows, same element types, same tensors left alone.")
    ctx.rule("E", "Tensors are read from their proto in the format they are written in.")
    ctx.rule("F", "Copies of a column's options encode like the original.")

    allp = ctx.program("chunker.cc", "writer.cc", "trajectory_writer.cc", "sampler.cc", "support/trajectory_util.cc")
    seen = set()
    for g in allp.fns.values():
        if not g.blocks or g.where() in seen or g.lam:
            continue
        names = g_calls(g)
        if "CompressTensorAsProto" in names:
            seen.add(g.where())
            a = Encoder(ctx, g)
            ctx.engine(Engine(allp, g, a, inline=lambda k, ev: k.lam or (k.cls == g.cls or k.cls == "" and k.file == g.file) and bool(g_calls(k) & CODING)))
            if "option" not in a.n and "compress" in a.n:
                ctx.violation("A", "%s/option" % short(g.name), g.where(), "Tensors are stored without looking at whether they are to be delta encoded.", [])
            ctx.instance("A", g.name)
        if "DecompressTensorFromProto" in names:
            seen.add(g.where())
            a = Decoder(ctx, g)
            ctx.engine(Engine(allp, g, a, inline=lambda k, ev: k.lam or k.cls == ""))
            ctx.instance("B", g.name)
        if last(g.name) == "UnpackChunkColumnAndSlice":
            seen.add(g.where())
            ps = [p[0].split("@")[0] for p in g.params]
            if len(ps) == 5:
                a = Slicer(ctx, g)
                a.chunk, a.column, a.off, a.len = 0, 1, 2, 3
                ctx.engine(Engine(allp, g, a, inline=lambda k, ev: k.lam or k.cls == "" and last(k.name) != "UnpackChunkColumn"))
                for k, m in (("unpack", "the column is never read"), ("slice", "the rows are never cut out")):
                    if k not in a.n:
                        ctx.violation("C", "%s/no-%s" % (short(g.name), k), g.where(), m, [])
            else:
                a = Forward(ctx, g)
                ctx.engine(Engine(allp, g, a))
            ctx.instance("C", g.name)

    p = ctx.program("tensor_compression.cc")
    fs = [g for g in p.fns.values() if g.blocks and not g.lam and g.cls == ""]
    loops = lists = 0
    for g in fs:
        if last(g.name) == "DeltaEncodeList":
            a = List(ctx, g)
            ctx.engine(Engine(p, g, a, inline=lambda k, ev: k.lam))
            if "loop" not in a.n:
                ctx.note("%s: loop not found" % g.name)
            ctx.instance("D", g.name)
        elif last(g.name) == "DeltaEncode":
            if "DeltaEncode" in g_calls(g):
                a = Dispatch(ctx, g)
                ctx.engine(Engine(p, g, a, inline=lambda k, ev: k.lam or k.cls == "" and last(k.name) != "DeltaEncode"))
                if "coded" not in a.n:
                    ctx.violation("D", "%s/never" % short(g.name), g.where(), "No tensor is ever coded.", [])
                ctx.instance("D", g.name)
            else:
                a = Codec(ctx, g)
                a.direction, a.sources, a.bounds, a.down, a.pos, a.outs = 1, (), [], [], {}, set()
                ctx.engine(Engine(p, g, a, inline=lambda k, ev: k.lam or k.cls == "" and last(k.name) != "DeltaEncode"))
                a.finish()
                if "lost" not in a.n:
                    for k, m in (("first", "The first row is never written."), ("enc", "No row is ever encoded."), ("dec", "No row is ever decoded.")):
                        if k not in a.n and ("first" in a.n or "enc" in a.n):
                            ctx.violation("D", "DeltaEncode/no-%s" % k, g.where(), m, [])
                        elif not a.n:
                            ctx.note("%s: element stores not recognised" % g.name)
                rows = {v for v, ks in a.pos.items() if 0 in ks}
                if any(isinstance(l, tuple) and len(l) > 1 and l[1] in rows for l in a.down) and "dec" in a.n:
                    ctx.violation("D", "DeltaEncode/order", g.where(), "Rows are decoded from the last to the first.", [])
                ctx.instance("D", g.usr[-60:])
    fmt = {}
    for g in fs:
        n = last(g.name)
        if n in ("CompressTensorAsProto", "DecompressTensorFromProto"):
            a = Format(ctx, g)
            a.reads, a.paths = n.startswith("D"), []
            ctx.engine(Engine(p, g, a, inline=lambda k, ev: k.lam or k.cls == ""))
            fmt[a.reads] = a
            ctx.instance("E", g.name)
    if True in fmt and False in fmt:
        for v in (True, False):
            w = [x for x in fmt[False].paths if x[0] in (v, None)]
            r = [x for x in fmt[True].paths if x[0] in (v, None)]
            for x in w:
                for y in r:
                    if x[2] != y[2]:
                        ctx.violation("E", "DecompressTensorFromProto/format", y[3], "Tensors %s strings written in one format are read in another." % ("of" if v else "other than"), y[4])
    p = ctx.program("chunker.cc")
    for g in p.fns.values():
        if g.blocks and last(g.name) == "Clone" and not g.lam and g.cls:
            a = Copy(ctx, g)
            ctx.engine(Engine(p, g, a))
            cs = [k for k in p.fns.values() if k.blocks and k.cls == g.cls and last(k.name) == last(g.cls) and not k.lam]
            get = {}
            for k in p.fns.values():
                if k.blocks and k.cls == g.cls and last(k.name).startswith("Get") and not k.params:
                    b = Copy(ctx, k)
                    ctx.engine(Engine(p, k, b))
                    for r in b.n.get("ret", []):
                        if r is not None and mine(base(r)):
                            get[last(k.name)] = mine(base(r))
            for c in cs:
                b = Copy(ctx, c)
                ctx.engine(Engine(p, c, b))
                for r in a.n.get("ret", []):
                    r = base(r)
                    if r is None or r.k not in ("call", "new", "ctor"):
                        ctx.note("%s: %r not understood" % (g.name, r))
                        continue
                    xs = [x for x in r.a[1:] if isinstance(x, S) and x.k != "i"]
                    for f, i in b.n.items():
                        if f == "ret" or len(c.params) < i:
                            continue
                        if i >= len(xs):
                            ctx.violation("F", "%s/%s" % (short(g.name), f), g.where(), "The clone does not take over %s." % f, [])
                            continue
                        x = base(xs[i])
                        m = mine(x) or (get.get(leaf(x)[0]) if leaf(x) else None)
                        if m != f and (m is not None or num(x) is not None or x in (TRUE, FALSE)):
                            ctx.violation("F", "%s/%s" % (short(g.name), f), g.where(), "The clone gets %r for %s." % (x, f), [])
            for n, f in get.items():
                if n == "GetDeltaEncode" and "delta" not in f:
                    ctx.violation("F", "%s/%s" % (short(g.cls), n), g.where(), "%s() returns %s." % (n, f), [])
            ctx.instance("F", g.name)


class Forward(Base):
    """passes the parts of a slice on"""

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "call" and last(ev.fn or "") == "UnpackChunkColumnAndSlice" and len(ev.args) == 5:
            got = [leaf(x)[0] if leaf(x) else None for x in ev.args[1:4]]
            if None not in got and got != ["index", "offset", "length"]:
                self.bad("C", "forward", ev.where(), "Index, offset and length of a slice are passed on as %s." % got, st)
        return st.auto


def g_calls(g):
    return {last(e.get("fn") or "") for e in g.calls()}
