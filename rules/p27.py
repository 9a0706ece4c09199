"""Data that leaves a sampler was compared with the expected specification."""
from engine.util import *
from engine.explore import DEAD
from engine.ir import AnalysisBroken
from rules.p18 import base, mine, var, num
from rules.p16 import callee, calls, dict_, scan, late
from rules.p24 import index
from rules.p25 import reverse, INSERT
from rules.p34 import Base, Unknown, num_eval, leaf

MODES = {"GetNextTimestep": "kTimestep", "GetNextSample": "kBatchedTimestep", "GetNextTrajectory": "kTrajectory"}
SPEC = "dtypes_and_shapes_"
INFO = [("key", "DT_UINT64"), ("probability", "DT_DOUBLE"), ("table_size", "DT_INT64"), ("priority", "DT_DOUBLE")]


def has(x, pred):
    return x is not None and any(pred(y) for y in x.toks)


def par(x):
    """the parameter that x is (or points to)"""
    x = base(x)
    while x is not None and x.k in ("deref", "addr", "cast", "mv"):
        x = base(x.a[0])
    return x.a[0] if x is not None and x.k == "p" else None


class Get(Base):
    """each getter"""

    def init(self):
        return dict_(data=None, valid=None, late=False, what=None)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k == "okp":
            if callee(base(atom.a[0]), "ValidateAgainstOutputSpec"):
                s["valid"] = val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "call" and n in ("AsBatchedTimesteps", "AsTrajectory", "GetNextTimestep") and ev.recv is not None and base(ev.recv).k != "this":
            s.update(data=True, valid=None)
        elif ev.k == "asg" and ev.l is not None and par(ev.l) == 0 and s["valid"] and s["what"] is not None and (base(ev.r) is s["what"] or base(ev.l) is s["what"]):
            pass
        elif ev.k == "asg" and ev.l is not None and par(ev.l) == 0:
            s.update(data=True, valid=None)
            if s["late"]:
                self.bad("A", "late", w, "the data is replaced after it was validated", st)
        elif ev.k == "call" and n == "swap" and any(par(a) == 0 for a in ev.args):
            s.update(data=True, valid=None)
        elif ev.k == "call" and n == "ValidateAgainstOutputSpec":
            self.n["valid"] = 1
            s["valid"] = "?"
            if not s["data"]:
                self.bad("A", "early", w, "the data is validated before it is there", st)
            a, m = ev.args[0], base(ev.args[1])
            s["what"] = base(a) if par(a) is None else None
            if par(a) != 0 and not self.produced(a):
                self.bad("A", "data", w, "other data than what is returned is validated", st)
            if m.k == "enum" and last(str(m.a[0])) != MODES[last(self.g.name)]:
                self.bad("A", "mode", w, "the data is compared with the specification as if it had another form", st)
        return dict_(**s)

    def produced(self, a):
        return has(a, lambda y: callee(y, "GetNextTimestep")) or base(a).k in ("ctor", "obj", "v", "phi")

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if callee(ret, "ValidateAgainstOutputSpec"):
            return
        if ret is OK and s["valid"] is not True:
            self.bad("A", "unchecked", w, "data is returned that may not match the expected specification", st)


class Valid(Base):
    """Sampler::ValidateAgainstOutputSpec"""

    def init(self):
        return dict_(spec=None, size=None, mode=(), it=None, dt=None, sh=None, removed=0, dims=None, done=False, i=None, shp=None)

    def data(self, x):
        return has(x, lambda y: y.k == "p" and y.a[0] == 0)

    def spec(self, x):
        return has(x, lambda y: mine(y) == SPEC)

    def mode(self, s, enum):
        """truth of mode == enum as far as it is known"""
        m = dict(s["mode"])
        if enum in m:
            return m[enum]
        if any(v for v in m.values()):
            return False
        names = set(MODES.values())
        if {k for k, v in m.items() if v is False} == names - {enum}:
            return True
        return None

    def truth(self, s, c):
        """a condition on the mode"""
        if c.k in ("eq", "op") and (c.k == "eq" or c.a[0] in ("==", "!=")):
            a = [base(x) for x in c.a[-2:]]
            en = next((x for x in a if x.k == "enum"), None)
            if en is None or not any(x.k == "p" and x.a[0] == 1 for x in a):
                return None
            v = self.mode(s, last(str(en.a[0])))
            return v if v is None or c.k == "eq" or c.a[0] == "==" else not v
        if c.k == "op" and c.a[0] in ("||", "&&"):
            v = [self.truth(s, x) for x in c.a[1:]]
            dom = c.a[0] == "||"
            return dom if dom in v else None if None in v else not dom
        if c.k == "not" or c.k == "op" and c.a[0] == "!":
            v = self.truth(s, c.a[-1])
            return None if v is None else not v
        return None

    def resolve(self, s, x):
        x = base(x)
        while x is not None and x.k in ("cond", "addr", "deref", "cast"):
            if x.k == "cond":
                v = self.truth(s, x.a[0])
                if v is None:
                    return None
                x = base(x.a[1] if v else x.a[2])
            elif isinstance(x.a[0], S):
                x = base(x.a[0])
            else:
                break
        return x

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        a = [base(x) for x in atom.a]
        if atom.k in ("nz", "bool", "null"):
            x = a[0]
            v = val if atom.k != "null" else not val
            if mine(x) == SPEC or callee(x, "has_value") and mine(x.a[1]) == SPEC:
                if s["spec"] not in (None, v):
                    return DEAD
                s["spec"] = v
            elif callee(x, "IsCompatibleWith", "IsIdenticalTo"):
                s["sh"] = val
        if atom.k == "eq":
            en = next((x for x in a if x.k == "enum"), None)
            o = next((x for x in a if x.k != "enum"), None)
            if en is not None and o is not None and o.k == "p" and o.a[0] == 1:
                e = last(str(en.a[0]))
                known = self.mode(s, e)
                if known is not None and known != val:
                    return DEAD
                if known is None:
                    s["mode"] = tuple(sorted(s["mode"] + ((e, val),)))
                return dict_(**s)
            if any(callee(x, "dims") for x in a) and any(num(x) == 0 for x in a):
                s["dims"] = val
            if any(self.spec(x) and x.k == "m" and last(str(x.a[1])) == "dtype" for x in a) and any(callee(x, "dtype") and self.data(x) for x in a):
                i = {index(x) for x in a}
                if len(i) == 1:
                    s["dt"] = val
                    s["i"] = next(iter(i))
                else:
                    self.bad("B", "index", w, "a tensor is compared with the specification of another one", st)
        if atom.k == "lt" and callee(a[0], "dims") and num(a[1]) == 1:
            s["dims"] = val
        if atom.k in ("eq", "lt") and all(callee(x, "size") for x in a) and any(self.spec(x) for x in a) and any(self.data(x) for x in a):
            if atom.k == "eq":
                s["size"] = val
            return dict_(**s)
        if atom.k in ("lt", "eq") and any(callee(x, "size") and (self.data(x) or self.spec(x)) for x in a):
            n = next(x for x in a if callee(x, "size"))
            i = next((x for x in atom.a if base(x) is not n), None)
            if i is not None and (num(i) is not None or base(i).k in ("phi", "v")) and not callee(base(i), "size"):
                if atom.k == "lt" and a[0] is n:
                    return dict_(**s)
                if s["it"] == "open" and not (s["dt"] is True and s["sh"] is True):
                    self.bad("B", "skipped", w, "a tensor is not compared with the specification", st)
                if s["it"] is None and (num(i) is None or num(i) > 4):
                    self.bad("B", "first", w, "the first tensors are not compared with the specification", st)
                leave = val if atom.k == "eq" else not val
                self.n["loop"] = 1
                s.update(it="left" if leave else "open", dt=None, sh=None, removed=0, dims=None, shp=None)
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "call" and n in ("RemoveDim", "RemoveDimRange", "RemoveLastDims", "AddDim"):
            s["removed"] += 1
            if self.mode(s, "kBatchedTimestep") is not True:
                self.bad("B", "dimension", w, "a dimension is removed from data without a time dimension", st)
            if n != "RemoveDim" or num(ev.args[0]) != 0:
                self.bad("B", "dimension", w, "another dimension than that of time is removed", st)
        elif ev.k == "call" and n in ("IsCompatibleWith", "IsIdenticalTo"):
            self.n["shape"] = 1
            both = (ev.recv, ev.args[0])
            if n != "IsCompatibleWith" or not any(self.spec(x) for x in both):
                self.bad("B", "shape", w, "the shape is not compared with that of the specification", st)
                return dict_(**s)
            sp = next(x for x in both if self.spec(x))
            ot = next((x for x in both if x is not sp), None)
            batched = self.mode(s, "kBatchedTimestep")
            ot = self.resolve(s, ot)
            if ot is None:
                s["sh"] = None
                self.ctx.note("%s: the compared shape is not understood" % self.g.name)
                return dict_(**s)
            if self.data(ot):
                if batched is True and s["removed"] != 1:
                    self.bad("B", "dimension", w, "the time dimension is compared with the specification, which has none", st)
                if index(ot) is not index(sp):
                    self.bad("B", "index", w, "a tensor is compared with the specification of another one", st)
            elif batched is not True:
                self.bad("B", "shape", w, "an empty shape is compared with the specification", st)
            elif s["removed"] != 1:
                self.bad("B", "dimension", w, "not exactly the time dimension is left out of the comparison", st)
            if s["i"] is not None and s["dt"] is not None and index(sp) is not s["i"]:
                self.bad("B", "index", w, "type and shape of different tensors are compared", st)
            s["sh"] = None
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if ret is OK:
            if s["spec"] is False:
                return
            if s["size"] is not True or s["it"] != "left":
                self.bad("B", "early", w, "data is accepted that was not compared with the specification", st)
        elif ret is not None and not (s["size"] is False or s["dt"] is False or s["sh"] is False or s["dims"] is True):
            self.bad("B", "refused", w, "matching data is refused", st)
        elif s["spec"] is False:
            self.bad("B", "refused", w, "data is refused although nothing is expected of it", st)


class Spec(Base):
    """Client::GetDtypesAndShapesForSampler"""

    def init(self):
        return dict_(pushed=(), it=None, n=0, end=None, sig=None, emp=None, cache=None)

    def sig(self, x):
        return has(x, lambda y: y.k == "m" and last(str(y.a[1])) == "second")

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        a = [base(x) for x in atom.a]
        if atom.k == "okp" and calls(atom.a[0], "MaybeUpdateServerInfoCache"):
            s["cache"] = val
        elif atom.k == "eq" and any(callee(x, "find") for x in a) and any(callee(x, "end") for x in a):
            s["end"] = val
        elif atom.k in ("nz", "bool") and (callee(a[0], "contains") or callee(a[0], "count")):
            s["end"] = not val
        elif atom.k in ("nz", "bool") and (a[0].k == "m" and last(str(a[0].a[1])) == "second" or callee(a[0], "has_value") and self.sig(a[0])):
            s["sig"] = val
        o = scan(atom)
        if o is not None and o[0] is not None and self.sig(o[0]) and s["sig"] is True:
            if s["it"] == "open" and s["n"] != 1:
                self.bad("C", "column", w, "a column of the signature is not part of what is expected", st)
            if s["it"] is None and late(o[2]) or reverse(atom):
                self.bad("C", "column", w, "the columns of the signature are not expected in order", st)
            s.update(it="left" if val == o[1] else "open", n=0)
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "call" and (n in INSERT + ("insert",)) and ev.recv is not None and base(ev.recv).k in ("ctor", "obj", "v", "phi"):
            x = base(ev.args[-1])
            if x.k == "init" or n == "emplace_back" and len(ev.args) > 1:
                t = {str(y.a[0]).strip('"') for z in ev.args for y in z.toks if y.k in ("str", "lit")}
                d = next((last(str(y.a[0])) for z in ev.args for y in z.toks if y.k == "enum" and "DT_" in str(y.a[0])), None)
                name = next((m for m, _ in INFO if m in t), None)
                s["pushed"] = s["pushed"] + ((name, d),)
            elif self.sig(x) and n == "insert" and calls(x, "end"):
                s.update(it="left", n=0)
            elif self.sig(x):
                s["n"] += 1
        elif ev.k == "call" and n in ("emplace", "reset") and par(ev.recv) == 2 or ev.k == "asg" and par(ev.l) == 2:
            r = ev.r if ev.k == "asg" else None
            none = n == "reset" or r is not None and has(r, lambda y: "nullopt" in str(y.a[0]) if y.a else False)
            if none:
                s["emp"] = "none"
                if not (s["end"] is True or s["sig"] is False):
                    self.bad("C", "none", w, "nothing is expected of the data although the table has a signature", st)
            else:
                s["emp"] = "some"
                self.n["some"] = 1
                if s["sig"] is not True or s["end"] is not False:
                    self.bad("C", "some", w, "a signature is used that does not exist", st)
                if list(s["pushed"]) != INFO:
                    self.bad("C", "info", w, "the information about the item does not come first in what is expected", st)
                if s["it"] != "left":
                    self.bad("C", "column", w, "not all columns of the signature are part of what is expected", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if ret is OK and s["emp"] is None:
            self.bad("C", "kept", ev.where() if ev is not None else self.g.where(), "success is reported although it is not known what is expected", st)
        if ret is OK and s["cache"] is False:
            self.bad("C", "lost", ev.where() if ev is not None else self.g.where(), "success is reported although the signature could not be obtained", st)


class Make(Base):
    """Client::NewSampler"""

    def init(self):
        return dict_(got=None, dead=None, spec=None, size=None, it=None, dt=None, sh=None, made=False, pairs=None, built=0, bit=None, bn=0, val=None, emp=False)

    def names(self):
        return [p[0].split("@")[0] for p in self.g.params]

    def req(self, x, name):
        """x is (part of) the parameter holding the requested dtypes / shapes"""
        return has(x, lambda y: y.k == "p" and y.a[0] < len(self.g.params) and name in self.g.params[y.a[0]][1])

    def requested(self, x):
        return self.req(x, "DataType") or self.req(x, "PartialTensorShape")

    def local(self, x):
        """the specification obtained from the server"""
        return has(x, lambda y: y.k in ("ctor", "obj", "phi", "v") and ("optional" in str(y.a[0]) or "dtypes_and_shapes" in str(y.a[0]) or y.k == "obj"))

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        a = [base(x) for x in atom.a]
        if atom.k == "okp" and calls(atom.a[0], "GetDtypesAndShapesForSampler"):
            if s["got"] not in (None, val):
                return DEAD
            s["got"] = val
        elif atom.k == "okp" and calls(atom.a[0], "Validate"):
            s["val"] = val
        elif atom.k in ("nz", "bool"):
            if callee(a[0], "IsDeadlineExceeded") and calls(a[0], "GetDtypesAndShapesForSampler"):
                s["dead"] = val
                if val and s["got"] is True:
                    return DEAD
            elif callee(a[0], "IsCompatibleWith", "IsIdenticalTo"):
                s["sh"] = val
            elif (a[0].k in ("ctor", "obj", "phi", "v") or callee(a[0], "has_value")) and self.local(a[0]):
                if s["spec"] not in (None, val):
                    return DEAD
                s["spec"] = val
        elif atom.k == "eq" and all(callee(x, "size") for x in a):
            if all(self.requested(x) for x in a):
                s["pairs"] = val
            elif any(self.requested(x) for x in a) and any(self.local(x) for x in a):
                s["size"] = val
            return dict_(**s)
        elif atom.k == "eq" and any(x.k == "m" and last(str(x.a[1])) == "dtype" for x in a) and any(self.req(x, "DataType") for x in a):
            if len({index(x) for x in a}) != 1:
                self.bad("D", "index", w, "a requested tensor is compared with another one", st)
            s["dt"] = val
        if atom.k in ("lt", "eq"):
            n = next((x for x in a if callee(x, "size") and (self.requested(x) or self.local(x))), None)
            i = next((x for x in atom.a if base(x) is not n), None)
            if n is not None and i is not None and not callee(base(i), "size") and (num(i) is not None or base(i).k in ("phi", "v")) and not (atom.k == "lt" and a[0] is n):
                leave = val if atom.k == "eq" else not val
                if num(i) is None and s["it"] is None and s["bit"] is None or (num(i) or 0) > 0:
                    self.bad("D", "first", w, "the first requested tensors are left out", st)
                if s["spec"] is True:
                    if s["it"] == "open" and not (s["dt"] is True and s["sh"] is True):
                        self.bad("D", "skipped", w, "a requested tensor is not compared with the signature", st)
                    s.update(it="left" if leave else "open", dt=None, sh=None)
                elif s["spec"] is False:
                    if s["bit"] == "open" and s["bn"] != 1:
                        self.bad("D", "built", w, "a requested tensor is not part of what is expected", st)
                    s.update(bit="left" if leave else "open", bn=0)
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "call" and n == "IsCompatibleWith":
            s["sh"] = None
            both = (ev.recv, ev.args[0])
            if not any(self.requested(x) for x in both):
                self.bad("D", "shape", w, "the requested shape is not compared with the signature", st)
            elif index(both[1]) is not index(both[0]):
                self.bad("D", "index", w, "a requested tensor is compared with another one", st)
        elif ev.k == "call" and n in INSERT and any(self.requested(x) for x in ev.args):
            s["bn"] += 1
            i = {index(y) for x in ev.args for y in x.toks if y.k == "idx" or callee(y, "at")}
            if len(i) != 1:
                self.bad("D", "index", w, "type and shape of different requested tensors are combined", st)
            if not all(any(self.req(x, t) for x in ev.args) for t in ("DataType", "PartialTensorShape")):
                self.bad("D", "built", w, "a requested type or shape is not part of what is expected", st)
        elif ev.k == "call" and n in ("emplace", "reset") and ev.recv is not None and self.local(ev.recv) or ev.k == "asg" and ev.l is not None and self.local(ev.l) and base(ev.l).k in ("ctor", "obj"):
            s["emp"] = n != "reset"
            if s["bit"] != "left":
                self.bad("D", "built", w, "what is expected is replaced", st)
        elif ev.k == "call" and n in ("make_unique", "NewSampler", "Sampler") or ev.k in ("new", "ctor") and n == "Sampler":
            if n == "make_unique" and not (ev.val is not None and any(self.lists(x) for x in ev.args)) and len(ev.args) < 3:
                return dict_(**s)
            s["made"] = True
            self.n["make"] = 1
            x = ev.args[2] if n == "NewSampler" else ev.args[-1]
            mineparam = any("DtypesAndShapes" in p[1] or "optional" in p[1] for p in self.g.params)
            if n == "NewSampler":
                none = not self.local(x) and par(x) is None
                if none and last(self.g.name) == "NewSampler":
                    self.bad("D", "dropped", w, "a sampler is made that does not know what to expect", st)
            elif mineparam and (par(x) is None or not any(t in self.g.params[par(x)][1] for t in ("DtypesAndShapes", "optional"))):
                self.bad("D", "dropped", w, "a sampler is made that does not know what to expect", st)
            if mineparam and s["val"] is not True:
                self.bad("D", "options", w, "a sampler is made with options that may be invalid", st)
            if not mineparam and last(self.g.name) == "NewSampler":
                if s["got"] is not True and s["dead"] is not True:
                    self.bad("D", "unknown", w, "a sampler is made although the signature could not be obtained", st)
                if any("DataType" in p[1] for p in self.g.params):
                    if s["got"] is not True:
                        self.bad("D", "unknown", w, "a sampler is made although the signature could not be obtained", st)
                    if s["spec"] is True and (s["size"] is not True or s["it"] != "left"):
                        self.bad("D", "unchecked", w, "a sampler is made although the request may not match the signature", st)
                    if s["spec"] is not True and not s["emp"]:
                        self.bad("D", "dropped", w, "a sampler is made that does not know what to expect", st)
                    if s["pairs"] is not True:
                        self.bad("D", "pairs", w, "a sampler is made although there may not be as many shapes as types", st)
        return dict_(**s)

    def lists(self, x):
        return par(x) is not None

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if ret is OK and not s["made"]:
            self.bad("D", "none", w, "success is reported without a sampler", st)


def run(ctx):
    ctx.rule("A", "Every getter of a sampler returns success only after the data it returns was compared with the specification in the right form.")
    ctx.rule("B", "The comparison accepts data exactly if nothing is expected, or the number of tensors and the type and shape of each match.")
    ctx.rule("C", "What is expected is the information about the item followed by the signature of the table; nothing is expected only without a signature.")
    ctx.rule("D", "A new sampler is given what is expected, which the request of the user matches.")
    prog = ctx.program("sampler.cc", "client.cc")

    def find(cls, name):
        gs = [g for g in prog.fns.values() if g.blocks and last(g.cls or "") == cls and last(g.name) == name and not g.lam]
        if not gs:
            raise AnalysisBroken("%s::%s not found" % (cls, name))
        return gs

    def go(g, a, rid, need, inline):
        ctx.engine(Engine(prog, g, a, inline=inline))
        for k, m in need:
            if k not in a.n:
                ctx.violation(rid, "%s/no-%s" % (short(g.name), k), g.where(), m, [])
        ctx.instance(rid, g.name)
    STOPAT = ("ValidateAgainstOutputSpec", "PopNextSample", "MaybeSampleNext", "AsBatchedTimesteps", "AsTrajectory", "GetNextTimestep", "is_end_of_sample", "is_composed_of_timesteps", "rate_limited",
              "GetDtypesAndShapesForSampler", "NewSampler", "MaybeUpdateServerInfoCache", "Validate", "GetLocalTablePtr", "DtypesShapesString", "SpecsFromTensors", "Close", "Sampler")
    own = lambda k, ev: (k.lam or k.cls == "" or last(k.cls) in ("Sampler", "Client")) and last(k.name) not in STOPAT
    for name in MODES:
        for g in find("Sampler", name):
            go(g, Get(ctx, g), "A", (), own)
    for g in find("Sampler", "ValidateAgainstOutputSpec"):
        go(g, Valid(ctx, g), "B", (("loop", "tensors are not compared with the specification"), ("shape", "shapes are not compared with the specification")), own)
    for g in find("Client", "GetDtypesAndShapesForSampler"):
        go(g, Spec(ctx, g), "C", (("some", "nothing is ever expected"),), own)
    for g in find("Client", "NewSampler"):
        go(g, Make(ctx, g), "D", (("make", "samplers are never made"),), own)
    # the constructors hand the specification on
    for g in find("Sampler", "Sampler"):
        i = next((i for i, p in enumerate(g.params) if "DtypesAndShapes" in p[1] or "optional" in p[1]), None)
        if i is None:
            continue
        a = Ctor(ctx, g)
        a.i = i
        ctx.engine(Engine(prog, g, a, inline=lambda k, ev: False))
        ctx.instance("D", g.name)


class Ctor(Base):
    def init(self):
        return False

    def branch(self, st, atom, val, line, fn):
        return st.auto

    def event(self, st, ev):
        n = last(ev.fn or "")
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "asg" and ev.l is not None and mine(ev.l) == SPEC:
            return par(ev.r) == self.i
        if ev.k in ("ctor", "call") and n == "Sampler":
            return any(par(a) == self.i for a in ev.args)
        return st.auto

    def exit(self, st, ret, ev):
        if not st.auto:
            self.bad("D", "dropped", self.g.where(), "a sampler does not know what to expect", st)
