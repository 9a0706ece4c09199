"""Arrays and tensors keep dtype, shape and values across the Python boundary."""
from engine.util import *
from engine.explore import DEAD
from engine.ir import AnalysisBroken
from rules.p18 import base, num
from rules.p16 import callee, calls, dict_
from rules.p34 import Base
from rules.p33 import error, fine

FILE = "pybind.cc"
CHECK_FROM_ANY, FROM_ANY, EMPTY, ZEROS, DESCR = 108, 69, 184, 183, 45
CONTIGUOUS, ALIGNED, NOTSWAPPED = 0x1, 0x100, 0x200
# the numpy type that holds the values of a tensor type; the first is the one results are made of
PAIRS = {"DT_HALF": ("NPY_HALF",), "DT_FLOAT": ("NPY_FLOAT",), "DT_DOUBLE": ("NPY_DOUBLE",), "DT_INT8": ("NPY_BYTE",), "DT_INT16": ("NPY_SHORT",), "DT_INT32": ("NPY_INT",), "DT_INT64": ("NPY_LONG", "NPY_LONGLONG"), "DT_UINT8": ("NPY_UBYTE",), "DT_UINT16": ("NPY_USHORT",), "DT_UINT32": ("NPY_UINT",), "DT_UINT64": ("NPY_ULONG", "NPY_ULONGLONG"), "DT_BOOL": ("NPY_BOOL",), "DT_COMPLEX64": ("NPY_CFLOAT",), "DT_COMPLEX128": ("NPY_CDOUBLE",), "DT_STRING": ("NPY_OBJECT", "NPY_STRING", "NPY_UNICODE")}


def api(s):
    """index of the numpy API function a call symbol calls"""
    s = base(s)
    if s is None or s.k != "call":
        return None
    for x in s.a:
        if isinstance(x, S) and x.k == "idx" and "PyArray_API" in repr(x):
            return num(x.a[-1])
    r = repr(s)
    if r.startswith("PyArray_API["):
        return int(r[12:r.index("]")])
    return None


def const(s):
    """value of a constant int expression"""
    s = base(s)
    if s is None:
        return None
    v = num(s)
    if v is not None:
        return int(v)
    if s.k == "op" and s.a[0] in ("|", "+") and len(s.a) == 3:
        a, b = const(s.a[1]), const(s.a[2])
        return None if a is None or b is None else (a | b if s.a[0] == "|" else a + b)
    return None


def array_of(s):
    """the array made by the numpy API that s denotes"""
    s = base(s)
    while s is not None and s.k == "call" and last(str(s.a[0])) in ("make_safe", "get", "release"):
        a = [x for x in s.a[1:] if isinstance(x, S) and x.k != "i"]
        s = base(a[0]) if a else None
    return s if s is not None and api(s) is not None else None


def enum(s):
    s = base(s)
    return last(str(s.a[0])) if s is not None and s.k == "enum" else None


class Map(Base):
    """a switch from one set of enumerators to another: (key, result) of the paths that succeed"""

    def __init__(self, ctx, g, result):
        Base.__init__(self, ctx, g)
        self.result, self.out = result, {}

    def init(self):
        return dict_(key=None, res=None, no=frozenset())

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if atom.k == "eq":
            e = [enum(x) for x in atom.a if enum(x)]
            if len(e) == 1:
                if val:
                    if d["key"] not in (None, e[0]) or e[0] in d["no"]:
                        return DEAD
                    d["key"] = e[0]
                else:
                    if d["key"] == e[0]:
                        return DEAD
                    d["no"] = d["no"] | {e[0]}
        return dict_(**d)

    def event(self, st, ev):
        r = self.result(ev)
        if r is not None:
            d = dict(st.auto)
            d["res"] = r
            return dict_(**d)
        return st.auto

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        if ret is not None and fine(ret):
            self.out.setdefault(d["key"], set()).add((d["res"], self.g.where()))


class Convert(Base):
    """NdArrayToTensor and TensorToNdArray: OK only with the whole content converted"""

    def __init__(self, ctx, g, to_tensor):
        Base.__init__(self, ctx, g)
        self.tt = to_tensor

    def init(self):
        return dict_(copied=False, out=None, mem=None, string=None, dtype=None, good=frozenset(), failed=frozenset())

    def keep_fact(self, atom):
        return atom.k == "nz"

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        x = base(atom.a[0])
        if atom.k == "nz" and callee(x, "DataTypeCanUseMemcpy"):
            d["mem"] = val
        elif atom.k == "eq" and any(enum(y) == "DT_STRING" for y in atom.a):
            if val and d["mem"]:
                return DEAD
            d["string"] = val
        elif atom.k == "okp":
            if error(x) and val or fine(x) and not val:
                return DEAD
            if x in d["failed"] and val or x in d["good"] and not val:
                return DEAD
            d["good" if val else "failed"] |= {x}
            if val and callee(x, "GetTensorDtypeFromPyArray"):
                a = [y for y in x.a[1:] if isinstance(y, S) and y.k != "i"]
                if len(a) == 2:
                    d["dtype"] = (d["dtype"] or ()) + ((a[1], array_of(a[0])),)
        return dict_(**d)

    def tensor(self, s):
        """is s the tensor of this conversion?"""
        s = base(s)
        return s is not None and s.k == "p" and s.a[0] == (1 if self.tt else 0)

    def event(self, st, ev):
        d = dict(st.auto)
        n = last(ev.fn or "")
        k = api(ev.val) if ev.k == "call" and "PyArray_API" in repr((ev.raw or {}).get("target", "")) else None
        if k in (FROM_ANY, CHECK_FROM_ANY) and len(ev.args) == 6:
            self.ctx.instance("A", "array at " + ev.where())
            fl = const(ev.args[4])
            if fl is None:
                self.bad("A", "flags", ev.where(), "the requirements of the array are not constant", st)
            else:
                if not fl & CONTIGUOUS:
                    self.bad("A", "contiguous", ev.where(), "the array isn't required to be C-contiguous, yet its buffer is copied as one block", st)
                if k == FROM_ANY or not fl & NOTSWAPPED:
                    self.bad("A", "byte-order", ev.where(), "the array isn't required to have the machine's byte order (%s), so the values of a byte-swapped array are garbage" % ("PyArray_FromAny ignores NPY_ARRAY_NOTSWAPPED" if fl & NOTSWAPPED else "NPY_ARRAY_NOTSWAPPED is missing"), st)
        elif k in (EMPTY, ZEROS):
            self.ctx.instance("A", "array at " + ev.where())
            if const(ev.args[3]) != 0:
                self.bad("A", "order", ev.where(), "the result isn't C-ordered, yet the tensor's buffer is copied as one block", st)
        elif ev.k == "call" and n in ("memcpy", "memmove") and len(ev.args) == 3:
            self.ctx.instance("B", "copy at " + ev.where())
            t, a = (ev.args[0], ev.args[1]) if self.tt else (ev.args[1], ev.args[0])
            tb, ab = base(t), base(a)
            while ab is not None and ab.k == "cast":
                ab = base(ab.a[-1])
            if not (tb is not None and callee(tb, "data", "tensor_data") and any(self.tensor(x) for x in tb.a[1:] if isinstance(x, S))) or not (ab is not None and ab.k == "m" and last(str(ab.a[-1])) == "data" and array_of(ab.a[0]) is not None):
                self.bad("B", "operands", ev.where(), "the copy isn't between the buffers of the tensor and the array: %s" % (repr(ev.args)[:120]), st)
            else:
                arr = array_of(ab.a[0])
                sz = repr(ev.args[2])
                whole = ("descr.elsize*" in sz or "*" in sz and ".descr.elsize" in sz) and ".dimensions" in sz and ".nd" in sz and repr(arr) in sz
                if not whole and not (calls(ev.args[2], "TotalBytes", "tensor_data") and any(self.tensor(x) for x in ev.args[2].toks)):
                    self.bad("B", "size", ev.where(), "the copy isn't as long as the array: %s" % sz[:100], st)
                if d["mem"] is not True:
                    self.bad("B", "memcpy-type", ev.where(), "bytes are copied for a type that can't be copied as bytes", st)
                if self.tt and (d["out"] is None or d["out"] != arr):
                    self.bad("B", "tensor", ev.where(), "the tensor wasn't allocated with the array's dtype and shape before the copy", st)
                d["copied"] = True
        elif ev.k == "call" and n in ("PyBytesArrayMap", "StringTensorToPyArray"):
            self.ctx.instance("B", "strings at " + ev.where())
            if d["string"] is not True:
                self.bad("B", "string-type", ev.where(), "elements are converted as strings for another type", st)
            d["copied"] = ev.val
        elif ev.k == "asg" and ev.l is not None and ev.l.k == "idx" and ev.r is not None:
            i, r = base(ev.l.a[-1]), base(ev.r)
            src = None
            if callee(r, "dim_size"):
                src = base(r.a[-1]) if [x for x in r.a[2:] if isinstance(x, S)] else None
            elif r is not None and r.k == "idx" and callee(base(r.a[0]), "PyArray_SHAPE", "PyArray_DIMS", "PyArray_DIM"):
                src = base(r.a[-1])
            elif callee(r, "PyArray_SHAPE", "PyArray_DIMS"):
                src = 0
            elif callee(r, "PyArray_DIM"):
                src = base(r.a[-1])
            if src is not None:
                self.ctx.instance("B", "dimension at " + ev.where())
                v = src if isinstance(src, int) else num(src)
                if src is not i and (v is None or v != num(i)):
                    self.bad("B", "dimension", ev.where(), "dimension %s is taken from dimension %s" % (i, src), st)
        elif ev.k == "asg" and self.tt and self.tensor(ev.l) and ev.r is not None and base(ev.r).k == "ctor" and last(str(base(ev.r).a[0])) == "Tensor":
            r = base(ev.r)
            a = [x for x in r.a[1:] if isinstance(x, S) and x.k != "i"]
            # the dtype variable was filled in from the array's dtype
            arr = self.typed(d, a[0])
            d["out"] = arr
        else:
            return st.auto
        return dict_(**d)

    def typed(self, d, dt):
        """the array whose dtype was successfully stored in dt"""
        for x, arr in d["dtype"] or ():
            if x is dt or base(x) is base(dt):
                return arr
        return None

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        if ret is None:
            return
        if fine(ret):
            self.ctx.instance("B", "%s: success" % short(self.g.name))
            c = d["copied"]
            if c is False:
                self.bad("B", "no-content", self.g.where(), "success is returned although no content was converted", st)
            elif c is not True and base(c) not in d["good"]:
                self.bad("B", "string-error", self.g.where(), "success is returned although converting the strings may have failed", st)
            for x in d["failed"]:
                self.bad("B", "error-lost", self.g.where(), "success is returned although %s failed" % str(x)[:60], st)


class Caster(Base):
    """type_caster<Tensor>: success exactly if the conversion succeeded; a failed cast leaves a Python error, a failed load none"""

    def __init__(self, ctx, g, load):
        Base.__init__(self, ctx, g)
        self.load = load

    def init(self):
        return dict_(ok=None, set=False, clear=False)

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if atom.k == "okp" and callee(base(atom.a[0]), "NdArrayToTensor", "TensorToNdArray"):
            if d["ok"] not in (None, val):
                return DEAD
            d["ok"] = val
        return dict_(**d)

    def event(self, st, ev):
        n = last(ev.fn or "")
        d = dict(st.auto)
        if ev.k == "call" and n.startswith("PyErr_Set"):
            d["set"] = True
        elif ev.k == "call" and n == "PyErr_Clear":
            d["clear"] = True
        return dict_(**d)

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        r = base(ret) if ret is not None else None
        self.ctx.instance("D", "%s: %s" % (short(self.g.name), r))
        if self.load:
            if r is not None and repr(r).startswith("okp("):
                good = None
            else:
                good = r is TRUE or repr(r) == "true"
        else:
            good = not (r is not None and (r.k == "null" or r.k == "ctor" and any(repr(x) == "null" for x in r.a[1:]) or callee(r, "handle") or repr(r) == "null"))
        if good and d["ok"] is not True:
            self.bad("D", "success", self.g.where(), "success is reported although the conversion may have failed", st)
        if good is False and d["ok"] is True:
            self.bad("D", "failure", self.g.where(), "a converted value is dropped", st)
        if good is False and d["ok"] is not True:
            if self.load and not d["clear"]:
                self.bad("D", "pending", self.g.where(), "a failed load leaves a Python error set", st)
            if not self.load and not d["set"]:
                self.bad("D", "unset", self.g.where(), "a failed cast returns null without setting a Python error", st)


def run(ctx):
    ctx.rule("A", "an array whose buffer is copied as one block is C-contiguous, aligned and in native byte order; a result array is C-ordered")
    ctx.rule("B", "a conversion succeeds only if every step succeeded and the whole content was copied between the buffers of this array and this tensor, which have the same dtype and dimensions; bytes for plain types, element by element for strings")
    ctx.rule("C", "the dtype tables of both directions agree with the representation of the types and are inverse to each other")
    ctx.rule("D", "the Tensor caster succeeds exactly if the conversion did; failures leave resp. clear the Python error as pybind11 requires")
    prog = ctx.program("reverb/pybind.cc")
    one = {}
    for g in prog.fns.values():
        if g.file.endswith(FILE) and g.blocks:
            one.setdefault(g.name.split("::")[-1] if "type_caster" not in g.name else g.name + str(len(g.params)), []).append(g)
    for name, tt in (("NdArrayToTensor", True), ("TensorToNdArray", False)):
        for g in one.get(name, []):
            ctx.engine(Engine(prog, g, Convert(ctx, g, tt), inline=lambda k, ev: k.file.endswith(FILE) and last(k.name) not in ("make_safe", "GetTensorDtypeFromPyArray", "GetPyDescrFromDataType", "PyBytesArrayMap", "StringTensorToPyArray", "VerifyDtypeIsSupported", "GetPyDescrFromTensor"))).run()
    # tables
    maps = []
    for name, result in (("GetPyDescrFromDataType", lambda ev: enum(ev.args[0]) if ev.k == "call" and api(ev.val) == DESCR and ev.args else None),
                         ("GetTensorDtypeFromPyArray", lambda ev: enum(ev.r) if ev.k == "asg" and ev.r is not None else None)):
        for g in one.get(name, []):
            m = Map(ctx, g, result)
            ctx.engine(Engine(prog, g, m, inline=lambda k, ev: False)).run()
            maps.append(m)
    if len(maps) != 2:
        raise AnalysisBroken("dtype tables not found")
    to_np = {k: r for k, v in maps[0].out.items() for r, _ in v}
    to_tf = {k: r for k, v in maps[1].out.items() for r, _ in v}
    for m, back in ((maps[0], False), (maps[1], True)):
        for k, v in sorted(m.out.items(), key=lambda x: str(x[0])):
            for r, w in v:
                ctx.instance("C", "%s -> %s" % (k, r))
                dt, npy = (r, k) if back else (k, r)
                if dt in PAIRS and npy in PAIRS[dt] or dt is not None and dt not in PAIRS and npy is not None and not any(npy in x for x in PAIRS.values()):
                    continue
                ctx.violation("C", "C|%s|%s" % (k, r), w, "%s is converted to %s, which does not hold the same values" % (k, r))
    for dt, npy in sorted(to_np.items(), key=lambda x: str(x[0])):
        if dt in PAIRS and to_tf.get(npy) != dt:
            ctx.violation("C", "C|inverse|%s" % dt, maps[1].g.where(), "a sampled tensor of type %s becomes %s, which converts back to %s" % (dt, npy, to_tf.get(npy)))
    for dt in PAIRS:
        if dt in to_tf.values() and dt not in to_np:
            ctx.violation("C", "C|one-way|%s" % dt, maps[0].g.where(), "arrays are accepted as %s but tensors of that type can't be returned" % dt)
    ctx.need("C", 25)
    for g in prog.fns.values():
        if g.file.endswith(FILE) and g.blocks:
            if g.name.endswith("type_caster::load"):
                ctx.engine(Engine(prog, g, Caster(ctx, g, True), inline=lambda k, ev: False)).run()
            if g.name.endswith("type_caster::cast") and any("Tensor" in str(t) for _, t in g.params):
                ctx.engine(Engine(prog, g, Caster(ctx, g, False), inline=lambda k, ev: False)).run()
    ctx.need("A", 2)
    ctx.need("B", 6)
    ctx.need("D", 4)
