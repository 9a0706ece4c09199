"""An item of the trajectory writer holds exactly the cells it was created from."""
from engine.explore import result
from engine.util import *
from engine.explore import DEAD, subst
from engine.ir import AnalysisBroken
from rules.p18 import base, mine, var, num
from rules.p16 import callee, calls, dict_, scan, late
from rules.p24 import fld, index


class Unknown(Exception):
    pass


def leaf(s):
    """(what is read, from what): getters and fields alike"""
    s = base(s)
    if s is None:
        return None
    if s.k == "m":
        return last(s.a[1]).rstrip("_"), s.a[0]
    if s.k == "call" and isinstance(s.a[1], S) and all(not isinstance(x, S) or x.k == "i" for x in s.a[2:]):
        return last(s.a[0]), s.a[1]
    return None


def num_eval(s, env):
    """arithmetic over env(symbol) -> number"""
    s0, s = s, base(s)
    if s is None:
        raise Unknown()
    v = env(s)
    if v is not None:
        return v
    n = num(s)
    if n is not None:
        return n
    if s.k == "op":
        o = s.a[0]
        x = [num_eval(y, env) for y in s.a[1:] if isinstance(y, S)]
        if len(x) == 2 and o in "+-*":
            return x[0] + x[1] if o == "+" else x[0] - x[1] if o == "-" else x[0] * x[1]
        if len(x) == 1 and o == "-":
            return -x[0]
    if s.k in ("ctor", "call") and last(s.a[0]) in ("size_t", "int64_t", "int"):
        return num_eval(s.a[-1], env)
    raise Unknown()


def atom_eval(atom, env):
    a, b = (num_eval(x, env) for x in atom.a)
    return a == b if atom.k == "eq" else a < b


class Base(Auto):
    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g
        self.n = {}

    def keep_fact(self, atom):
        return result(atom)

    def bad(self, rid, key, w, msg, st):
        self.ctx.violation(rid, "%s/%s" % (short(self.g.name), key), w, msg, trace_of(st))

    def at(self, fn, line):
        return "%s:%s" % (fn.where().rsplit(":", 1)[0], line)


# points: key of the slice's chunk == key of the cell's chunk, the cell's offset, the slice's offset and length
POINTS = [(k, r, o, l) for k in (0, 1) for r in range(6) for o in range(3) for l in (1, 2, 3)]


class Slices(Base):
    """TrajectoryColumn::ToProto: references -> slices"""

    def init(self):
        return dict_(refs=None, act=(), new=frozenset(), pts=(1 << len(POINTS)) - 1, out=None, copied=0, where=None, squeeze=False, src=None, direct=False, whole=False)

    def ref(self, s):
        return any(fld(x) == "refs_" for x in s.toks)

    def env(self, pt):
        def e(s):
            l = leaf(s)
            if l is not None and l[0] in ("chunk_key", "offset", "length"):
                r = self.ref(l[1])
                if l[0] == "chunk_key":
                    return 7 if r or pt[0] else 8
                if l[0] == "offset":
                    return pt[1] if r else pt[2]
                if not r:
                    return pt[3]
            return None
        return e

    def turn(self, st, s, w):
        """end of the treatment of one reference"""
        if s["refs"] != "open":
            return
        if not s["act"]:
            self.bad("A", "dropped", w, "a reference of the column is not part of any slice", st)
        elif len(s["act"]) > 1:
            self.bad("A", "twice", w, "a reference of the column becomes part of more than one slice", st)
        elif s["act"][0] == "new" and not {"key", "offset", "length"} <= s["new"]:
            self.bad("A", "incomplete", w, "a new slice lacks the %s of the cell it begins with" % ", ".join(sorted({"key", "offset", "length"} - s["new"])), st)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        o = scan(atom)
        if o is not None:
            c, leave = base(o[0]), val == o[1]
            if c is not None and fld(c) == "refs_":
                self.turn(st, s, w)
                if late(o[2]):
                    self.bad("A", "first", w, "the first references of the column are left out", st)
                if any(callee(y, "rbegin", "rend", "crbegin", "crend") for x in atom.a for y in x.toks):
                    self.bad("A", "order", w, "the references of the column are visited in reverse order", st)
                self.n["refs"] = 1
                s.update(refs="left" if leave else "open", act=(), new=frozenset(), pts=(1 << len(POINTS)) - 1)
                return dict_(**s)
            if s["refs"] == "open" and not leave and len(s["act"]) == 0 and atom.k == "eq" and False:
                pass
            if s["refs"] == "left" and c is not None and (s["src"] is None or c is s["src"] or True):
                if any(callee(y, "rbegin", "rend", "crbegin", "crend") for x in atom.a for y in x.toks):
                    self.bad("A", "order", w, "the slices of the column are visited in reverse order", st)
                if late(o[2]):
                    self.bad("A", "first", w, "the first slices of the column are left out", st)
                if s["out"] == "open" and s["copied"] != 1:
                    self.bad("A", "slice", w, "a slice becomes part of the column %d times" % s["copied"], st)
                self.n["out"] = 1
                s.update(out="left" if leave else "open", copied=0)
                return dict_(**s)
        if s["refs"] == "open" and atom.k in ("eq", "lt"):
            m = 0
            try:
                for i, pt in enumerate(POINTS):
                    if atom_eval(atom, self.env(pt)) == val:
                        m |= 1 << i
                s["pts"] &= m
                if not s["pts"]:
                    return DEAD
            except Unknown:
                pass
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "call" and n in ("set_chunk_key", "set_offset", "set_length") and ev.args:
            if s["refs"] != "open":
                self.bad("A", "changed", w, "a slice is changed outside the treatment of a reference", st)
                return dict_(**s)
            a = ev.args[0]
            tail = self.tail(ev.recv) and "new" not in s["act"]
            if n == "set_length":
                try:
                    d = [num_eval(a, self.env(pt)) - pt[3] for pt in POINTS]
                    c = [num_eval(a, self.env(pt)) for pt in POINTS]
                except Unknown:
                    d = c = [None]
                if tail:
                    live = [pt for i, pt in enumerate(POINTS) if s["pts"] >> i & 1]
                    if set(d) != {1}:
                        self.bad("A", "length", w, "a slice grows by something else than one cell", st)
                    if any(not pt[0] for pt in live):
                        self.bad("A", "chunk", w, "a slice is extended by a cell that may be in another chunk", st)
                    elif any(pt[1] != pt[2] + pt[3] for pt in live):
                        self.bad("A", "gap", w, "a slice is extended by a cell that may not follow its last one", st)
                    s["act"] = s["act"] + ("ext",)
                else:
                    if set(c) != {1}:
                        self.bad("A", "length", w, "a new slice does not have the length one", st)
                    s["new"] = s["new"] | {"length"}
                self.n["set"] = 1
            else:
                what = "chunk_key" if n == "set_chunk_key" else "offset"
                l = leaf(a)
                if tail or l is None or l[0] != what or not self.ref(l[1]):
                    self.bad("A", what, w, "the %s of a slice is not that of the cell it begins with" % what.replace("_", " "), st)
                s["new"] = s["new"] | {"key" if what == "chunk_key" else "offset"}
        elif ev.k == "call" and n in ("push_back", "emplace_back", "add_chunk_slices", "push_front", "insert", "emplace"):
            if s["refs"] == "open":
                if n in ("push_front", "insert", "emplace"):
                    self.bad("A", "order", w, "slices are not described in the order of their cells", st)
                s["act"] = s["act"] + ("new",)
                s["direct"] = n == "add_chunk_slices"
                s["src"] = base(ev.recv)
            elif s["out"] == "open":
                s["copied"] += 1
            if n == "add_chunk_slices" and s["refs"] is None:
                self.bad("A", "extra", w, "the column has a slice for no cell", st)
        elif ev.k == "asg" and ev.l is not None and calls(ev.l, "mutable_chunk_slices") or ev.k == "call" and n in ("Assign", "Add", "Swap", "CopyFrom") and ev.recv is not None and calls(ev.recv, "mutable_chunk_slices"):
            s["whole"] = True
        elif ev.k == "call" and n == "set_squeeze":
            a = base(ev.args[0]) if ev.args else None
            if a is None or mine(a) != "squeeze_":
                self.bad("A", "squeeze", w, "the column's squeeze flag is not passed on", st)
            s["squeeze"] = True
        elif ev.k == "call" and n in ("pop_back", "clear", "erase", "reverse", "sort", "resize", "RemoveLast", "DeleteSubrange") and s["refs"] is not None:
            self.bad("A", "removed", w, "slices are removed or reordered", st)
        return dict_(**s)

    def tail(self, s):
        s = base(s)
        return any(callee(y, "back", "rbegin", "at", "operator[]", "mutable_chunk_slices") or y.k == "idx" for y in s.toks) if s is not None else False

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if s["refs"] == "open":
            self.bad("A", "dropped", w, "the references after a certain one are left out", st)
        elif s["refs"] is None:
            self.bad("A", "dropped", w, "the references of the column are not turned into slices", st)
        elif not s["whole"] and not s["direct"] and s["src"] is not None and s["out"] != "left":
            self.bad("A", "slice", w, "slices do not become part of the column", st)
        if not s["squeeze"]:
            self.bad("A", "squeeze", w, "the column's squeeze flag is not passed on", st)


EMPTY, BASE = "0", "b"


class Cells(Base):
    """the chunker: cells waiting for a chunk, their offsets and the key of that chunk, relative to the start of the method"""

    def init(self):
        return dict_(off=(BASE, 0), prev=(BASE, 0), buf=(BASE, 0), gen=0, pgen=0, refs=(), cells=(), copied=frozenset(), handed=False, newest=False,
                     chunk=None, emptied=False, dropped=False, empty=None, episode=None, step=None,
                     loop=None, match=None, set=False, allset=True, done=False, spare=False,
                     rfirst=None, rng=frozenset(), rpts=3, rend=False, rall=True, rdone=False)

    def env(self, s):
        # value of a symbol that was read from offset_ / next_chunk_key_
        pass

    def offset(self, st, x):
        x = base(x)
        if x is None:
            return None
        if mine(x) == "offset_":
            return st["off"]
        if x.k in ("old", "prev") and isinstance(x.a[0], S) and mine(x.a[0]) == "offset_":
            return st["prev"]
        if callee(x, "size") and mine(x.a[1]) == "buffer_":
            return st["buf"]
        n = num(x)
        if n is not None:
            return (EMPTY, n)
        if x.k == "op" and x.a[0] in "+-" and len(x.a) == 3:
            p, k = self.offset(st, x.a[1]), num(x.a[2])
            if p is not None and k is not None:
                return (p[0], p[1] + (k if x.a[0] == "+" else -k))
        return None

    def key(self, st, x):
        x = base(x)
        if x is None:
            return None
        if mine(x) == "next_chunk_key_":
            return st["gen"]
        if x.k in ("old", "prev") and isinstance(x.a[0], S) and mine(x.a[0]) == "next_chunk_key_":
            return st["pgen"]
        return None

    def rebind(self, st, sym):
        s = dict(st.auto)
        p = mk("prev", sym)
        s["copied"] = frozenset(subst(x, sym, p) for x in s["copied"])
        if s["chunk"] is not None:
            s["chunk"] = tuple(subst(x, sym, p) if isinstance(x, S) else x for x in s["chunk"])
        return dict_(**s)

    # chunk: (object, key generation, concatenated buffer state, tensors, container)
    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        o = scan(atom)
        if o is not None and fld(o[0]) == "active_refs_" and not callee(atom.a[1], "GetNumKeepAliveRefs") and not callee(atom.a[0], "GetNumKeepAliveRefs"):
            leave = val == o[1]
            first = any(callee(base(x), "begin", "cbegin", "rbegin", "crbegin") for x in atom.a) or o[2] is not None and o[2].k == "lit"
            if first or s["loop"] != "open":
                s.update(allset=not late(o[2]), rall=not late(o[2]))
            elif s["loop"] == "open":
                if s["match"] is not False and not s["set"]:
                    s["allset"] = False
                self.ranged(st, s, w)
            if leave:
                if s["chunk"] is not None and s["allset"] and s["chunk"][4] is not None:
                    s["done"] = True
                if s["rall"] and s["chunk"] is not None and s["chunk"][4] is None:
                    s["rdone"] = True
            s.update(loop="left" if leave else "open", match=None, set=False, rfirst=None, rng=frozenset(), rpts=3, rend=False)
            return dict_(**s)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "empty") and mine(x.a[1]) == "buffer_":
                if s["buf"] == (BASE, 0):
                    if s["empty"] not in (None, val):
                        return DEAD
                    s["empty"] = val
                elif s["buf"][0] == EMPTY or s["buf"][1] > 0:
                    if (s["buf"] == (EMPTY, 0)) != val:
                        return DEAD
            elif callee(x, "CopyFrom") and x.a[1] is not None and any(y.k == "p" and y.a[0] == 0 for z in x.a[2:] if isinstance(z, S) for y in z.toks) and val:
                s["copied"] = s["copied"] | {base(x.a[1])}
            elif callee(x, "has_sequence_range"):
                s["rfirst"] = not val
        if atom.k == "eq":
            l, r = leaf(atom.a[0]), leaf(atom.a[1])
            for a, b, sa, sb in ((l, r, atom.a[0], atom.a[1]), (r, l, atom.a[1], atom.a[0])):
                if a is not None and a[0] == "chunk_key" and any(fld(y) == "active_refs_" for y in a[1].toks):
                    if b is not None and b[0] == "chunk_key" and s["chunk"] is not None and self.ischunk(s, b[1]) or self.key(s, sb) is not None and s["chunk"] is not None and self.key(s, sb) == s["chunk"][1]:
                        s["match"] = val
                if a is not None and a[0] == "episode_id" and any(callee(y, "back") for y in a[1].toks) and b is not None and b[0] == "episode_id" and any(y.k == "p" for y in b[1].toks):
                    s["episode"] = val
        if atom.k in ("lt", "eq"):
            # the last step so far and that of the new cell
            def e(pt):
                def f(x):
                    l = leaf(x)
                    if l is None or l[0] not in ("step", "episode_step"):
                        return None
                    return pt[0] if any(fld(y) == "active_refs_" for y in l[1].toks) else pt[1] if any(y.k == "p" for y in l[1].toks) else None
                return f
            try:
                pts = [(a, b) for a in range(3) for b in range(3)]
                ok = [pt for pt in pts if atom_eval(atom, e(pt)) == val]
                if any(atom_eval(atom, e(pt)) != atom_eval(atom, e(pts[0])) for pt in pts):
                    if s["step"] is not True:
                        s["step"] = all(a < b for a, b in ok)
            except Unknown:
                pass
            # the end of the chunk's range and the step of a cell: dense = the cell's step is the next one
            if not s["rend"]:
                def e2(pt):
                    def f(x):
                        l = leaf(x)
                        if l is None:
                            return None
                        if l[0] == "end" and (calls(l[1], "mutable_sequence_range", "sequence_range") or l[1].k in ("v", "phi")):
                            return pt[0]
                        if l[0] in ("step", "episode_step") and any(fld(y) == "active_refs_" for y in l[1].toks):
                            return pt[1]
                        return None
                    return f
                try:
                    pts = [(a, b) for a in range(4) for b in range(a + 1, 6)]
                    ok = [pt for pt in pts if atom_eval(atom, e2(pt)) == val]
                    m = (1 if any(b == a + 1 for a, b in ok) else 0) | (2 if any(b != a + 1 for a, b in ok) else 0)
                    if any("end" == (leaf(y) or ("",))[0] for x in atom.a for y in x.toks):
                        s["rpts"] &= m
                        if not s["rpts"]:
                            return DEAD
                except Unknown:
                    pass
        return dict_(**s)

    def ischunk(self, s, x):
        x = base(x)
        return any(y is s["chunk"][0] or y is s["chunk"][4] for y in x.toks)

    def ranged(self, st, s, w):
        """one cell of the loop that computes the range of the chunk"""
        if s["match"] is not True or s["set"] and s["rfirst"] is None:
            return
        if s["rfirst"] is None:
            s["rall"] = s["rall"] and False
            return
        if s["rfirst"]:
            if not {"episode", "start", "end"} <= s["rng"]:
                self.bad("B", "range-start", w, "the range of a chunk does not begin with the step of its first cell", st)
        else:
            if "end" not in s["rng"]:
                self.bad("B", "range-end", w, "the range of a chunk does not end with the step of its last cell", st)
            if s["rpts"] == 3 or (s["rpts"] == 2) != ("sparse" in s["rng"]):
                self.bad("B", "sparse", w, "a chunk is %s sparse although its steps are%s successive" % (("marked", "") if "sparse" in s["rng"] else ("not marked", " not")) if s["rpts"] != 3 else "whether a chunk is sparse does not depend on its steps", st)
            elif "start" in s["rng"] or "episode" in s["rng"]:
                self.bad("B", "range-start", w, "the range of a chunk does not begin with the step of its first cell", st)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        r = mine(ev.recv) if ev.recv is not None else None
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "asg" and ev.l is not None:
            t = mine(ev.l)
            if t == "offset_":
                op = ev.raw.get("op")
                v = None
                if op in ("++", "--"):
                    v = (s["off"][0], s["off"][1] + (1 if op == "++" else -1))
                elif op in ("+=", "-=") and num(ev.r) is not None:
                    v = (s["off"][0], s["off"][1] + num(ev.r) * (1 if op == "+=" else -1))
                elif ev.r is not None:
                    v = self.offset(s, ev.r)
                elif op is None or op == "=":
                    v = None
                s["prev"], s["off"] = s["off"], v or ("?", 0)
            elif t == "next_chunk_key_":
                s["pgen"] = s["gen"]
                k = self.key(s, ev.r) if ev.r is not None else None
                if k is None and ev.r is not None and not calls(ev.r, "Uniform", "Generate") and not any(x.k == "call" for x in ev.r.toks):
                    self.bad("B", "key", w, "the key of the next chunk is not a fresh one", st)
                s["gen"] = s["gen"] + 1 if k is None else k
            elif ev.l is not None and base(ev.l) is not None and base(ev.l).k == "p" and self.wants(ev.r, s):
                s["handed"] = True
            elif ev.l is not None and base(ev.l).k in ("deref",) :
                pass
        elif ev.k == "call" and r == "buffer_":
            if n in ("push_back", "emplace_back"):
                s["cells"] = s["cells"] + ((s["gen"], s["buf"]),)
                s["buf"] = (s["buf"][0], s["buf"][1] + 1)
                self.n["cells"] = 1
                a = base(ev.args[0]) if ev.args else None
                if a is None or a not in s["copied"] and not any(x.k == "p" for x in a.toks if a.k in ("call", "p")):
                    self.bad("B", "data", w, "the tensor that is buffered is not a copy of the one passed", st)
            elif n == "clear":
                s["buf"] = (EMPTY, 0)
                s["emptied"] = True
            elif n in ("pop_back", "pop_front", "erase", "resize", "insert", "swap", "assign"):
                s["buf"] = (s["buf"][0], s["buf"][1] - 1) if n == "pop_back" else ("?", 0)
        elif ev.k == "call" and r == "active_refs_":
            if n in ("push_back", "emplace_back"):
                s["newest"] = True
            elif n == "clear":
                s["dropped"] = True
            elif n in ("pop_back", "push_front", "erase", "insert", "resize"):
                self.bad("B", "refs", w, "the references of the chunker are no longer those of the newest cells in order", st)
            elif n == "pop_front":
                self.n["age"] = 1
        if ev.k == "call" and n in ("make_shared", "make_unique") or ev.k == "ctor" and n == "CellRef" or ev.k == "call" and r == "active_refs_" and n == "emplace_back":
            ks = [x for x in ev.args if self.key(s, x) is not None]
            if len(ev.args) >= 4 and any(calls(x, "shared_from_this", "weak_from_this") or x is THIS for x in ev.args):
                k = self.key(s, ev.args[1])
                o = self.offset(s, ev.args[2])
                if k is None:
                    self.bad("B", "ref-key", w, "a reference does not carry the key of the chunk its cell will be part of", st)
                elif o is None:
                    self.bad("B", "ref-offset", w, "a reference does not carry the position of its cell", st)
                else:
                    s["refs"] = s["refs"] + ((k, o),)
                    self.n["refs"] = 1
                if not any(y.k == "p" for y in ev.args[3].toks):
                    self.bad("B", "ref-episode", w, "a reference does not carry the episode step of its cell", st)
                if s["empty"] is not True and not (s["episode"] is True and s["step"] is True):
                    self.bad("B", "episode", w, "a chunk may contain cells of two episodes or steps that are not increasing", st)
        if ev.k == "call" and n == "set_chunk_key" and ev.recv is not None and ev.args:
            k = self.key(s, ev.args[0])
            if k is None:
                self.bad("B", "chunk-key", w, "a chunk does not get the key that its references carry", st)
            s["chunk"] = (base(ev.recv), k, s["chunk"][2] if s["chunk"] else None, 0, None)
        elif ev.k == "call" and n == "Concat" and ev.args and mine(ev.args[0]) == "buffer_" or ev.k == "call" and n == "Concat" and ev.args and any(mine(x) == "buffer_" for x in ev.args[0].toks):
            if base(ev.args[0]).k != "m" and not callee(ev.args[0], "Span") and base(ev.args[0]).k != "ctor":
                self.bad("B", "concat", w, "a chunk does not hold all cells of the buffer", st)
            c = s["chunk"] or (None, None, None, 0, None)
            s["chunk"] = (c[0], c[1], s["buf"], c[3], c[4])
            self.n["concat"] = 1
        elif ev.k == "call" and n == "add_tensors" and s["chunk"] is not None:
            c = s["chunk"]
            s["chunk"] = (c[0], c[1], c[2], min(c[3] + 1, 2), c[4])
        elif ev.k == "call" and n == "make_shared" and s["chunk"] is not None and ev.args and any(y is s["chunk"][0] for y in ev.args[0].toks):
            c = s["chunk"]
            s["chunk"] = (c[0], c[1], c[2], c[3], base(ev.val))
        elif (ev.k == "call" and n == "SetChunk") or ev.k == "asg" and ev.l is not None and (leaf(ev.l) or ("",))[0] == "chunk" and any(fld(y) == "active_refs_" for y in ev.l.toks):
            a = ev.args[0] if ev.k == "call" else ev.r
            if ev.k == "call" or True:
                self.n["set"] = 1
                if s["match"] is not True:
                    self.bad("B", "notify", w, "a reference gets a chunk that may not be the one its cell is part of", st)
                c = s["chunk"]
                if c is None or not any(y is c[4] or y is c[0] for y in a.toks):
                    self.bad("B", "notify", w, "a reference gets another chunk than the one just created", st)
                s["set"] = True
        elif ev.k == "call" and n in ("set_episode_id", "set_start", "set_end", "set_sparse") and ev.recv is not None and s["loop"] == "open":
            self.n["range"] = 1
            what = {"set_episode_id": "episode", "set_start": "start", "set_end": "end", "set_sparse": "sparse"}[n]
            l = leaf(ev.args[0]) if ev.args else None
            if what == "sparse":
                ok = ev.args and const_of(ev.args[0]) is not None and ev.args[0] is TRUE
                if not ok:
                    # set_sparse(step != end + 1)
                    self.ctx.note("%s: argument of set_sparse not understood" % self.g.name)
                    s["rpts"] = 2
            elif l is None or l[0] not in (("episode_id",) if what == "episode" else ("step", "episode_step")) or not any(fld(y) == "active_refs_" for y in ev.args[0].toks):
                self.bad("B", "range", w, "the range of a chunk is not computed from the steps of its cells", st)
            if what == "end":
                s["rend"] = True
            s["rng"] = s["rng"] | {what}
        return dict_(**s)

    def wants(self, r, s):
        """r: the reference of the newest cell"""
        if r is None:
            return False
        r = base(r)
        return callee(r, "back") and mine(r.a[1]) == "active_refs_" and s["newest"] or any(x.k == "new" and calls(x, "shared_from_this") for x in r.toks)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        ctor = self.g.name.endswith("Chunker::Chunker")
        if s["refs"] != tuple(s["cells"]):
            if len(s["refs"]) != len(s["cells"]):
                self.bad("B", "count", w, "%d references are created for %d buffered cells" % (len(s["refs"]), len(s["cells"])), st)
            elif any(a != b for (a, _), (b, _) in zip(s["refs"], s["cells"])):
                self.bad("B", "ref-key", w, "a reference carries the key of another chunk than the one its cell is put into", st)
            else:
                same = s["empty"] is True
                def v(p):
                    return p[1] if p[0] == EMPTY or same and p[0] == BASE else p
                if any(v(a) != v(b) for (_, a), (_, b) in zip(s["refs"], s["cells"])):
                    self.bad("B", "ref-offset", w, "a reference carries another position than that of its cell", st)
        if len(s["refs"]) > 1:
            self.bad("B", "twice", w, "a tensor becomes more than one cell", st)
        if s["off"] != s["buf"] and not (s["empty"] and {s["off"][0], s["buf"][0]} <= {EMPTY, BASE} and s["off"][1] == s["buf"][1]):
            self.bad("B", "offset", w, "the next offset is not the number of cells that wait for a chunk", st)
        fresh = s["buf"][0] == EMPTY and s["emptied"]
        if s["gen"] and not fresh and not s["empty"]:
            self.bad("B", "key", w, "the key of the next chunk changes although cells wait for it", st)
        if fresh and not s["gen"]:
            self.bad("B", "key", w, "two chunks may have the same key", st)
        if s["emptied"] and not s["dropped"] and s["empty"] is not True or s["emptied"] and s["cells"] and not s["dropped"]:
            c = s["chunk"]
            if c is None or c[4] is None:
                self.bad("B", "lost", w, "cells are dropped from the buffer without having become part of a chunk", st)
            else:
                if c[1] is None:
                    pass
                elif s["gen"] and c[1] != s["gen"] - 1:
                    self.bad("B", "chunk-key", w, "a chunk gets another key than its references", st)
                if c[2] is None or c[2] != (BASE, len(s["cells"])):
                    self.bad("B", "concat", w, "a chunk does not hold exactly the cells of the buffer", st)
                if c[3] != 1:
                    self.bad("B", "tensors", w, "a chunk has %d tensors" % c[3], st)
                if not s["done"]:
                    self.bad("B", "notify", w, "not all references of a chunk's cells get the chunk", st)
                if not s["rdone"]:
                    self.bad("B", "range", w, "not all cells of a chunk are part of its range", st)
        elif s["chunk"] is not None and s["chunk"][4] is not None and not s["emptied"] and s["set"]:
            self.bad("B", "twice", w, "cells that became part of a chunk stay in the buffer", st)
        elif s["done"] and not s["emptied"] and s["chunk"] is not None and s["chunk"][4] is not None:
            self.bad("B", "twice", w, "cells that became part of a chunk stay in the buffer", st)
        if short(self.g.name) == "Chunker::Append" or last(self.g.name) == "Append":
            if status_ok_on_exit(None, st, ret) is not False and ret is OK:
                if not s["cells"]:
                    self.bad("B", "count", w, "success is reported although the tensor was not buffered", st)
                if not s["handed"]:
                    self.bad("B", "handed", w, "the reference that is returned is not that of the new cell", st)


class Copy(Base):
    """Chunker::CopyDataForCell"""

    def init(self):
        return dict_(ready=None, found=None, col=None, out=None, it=None, inc=False, cnt=None, chk=None, rev=None)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k in ("nz", "bool", "null"):
            l = leaf(atom.a[0])
            if l is not None and l[0] in ("chunk", "IsReady") and base(l[1]).k == "p":
                v = val if atom.k != "null" else not val
                s["ready"] = v
                return dict_(**s)
            x = base(atom.a[0])
            if callee(x, "CopyFrom") and base(x.a[1]).k == "p":
                if not val:
                    s["out"] = None
                return dict_(**s)
        if atom.k == "okp" and callee(atom.a[0], "UnpackChunkColumn"):
            s["col"] = base(atom.a[0]).a if val else None
            return dict_(**s)
        if atom.k == "eq":
            a, b = base(atom.a[0]), base(atom.a[1])
            for x, y in ((a, b), (b, a)):
                if x.k == "p" and (y.k in ("phi", "v", "elem", "call", "idx")):
                    if any(callee(z, "rbegin", "crbegin") for z in y.toks):
                        s["rev"] = True
                    s["found"] = val
                    if not val:
                        s["inc"] = False
                    return dict_(**s)
            if any(callee(x, "rend", "crend") and fld(x.a[1]) == "active_refs_" for x in (a, b)):
                s["rev"] = True
                self.turn(st, s, w)
                return dict_(**s)
            o = scan(atom)
            if o is not None and fld(o[0]) == "active_refs_":
                s["rev"] = s["rev"] or False
                self.turn(st, s, w)
                return dict_(**s)
        if atom.k == "lt":
            a, b = base(atom.a[0]), base(atom.a[1])
            if num(b) == 0 and not val and a.k in ("op", "phi", "v", "call"):
                s["chk"] = a
            elif num(b) == 0 and val:
                s["chk"] = None
            elif num(a) == -1 and val:
                s["chk"] = b
        return dict_(**s)

    def turn(self, st, s, w):
        if s["found"] is False and not s["inc"]:
            self.bad("C", "position", w, "a newer cell is not counted when looking for the position of a cell", st)
        s.update(found=None, inc=False)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "asg" and ev.l is not None and base(ev.l).k in ("v", "phi") and ev.raw.get("op") in ("++", "+=") and s["found"] is False and "it" != (var(ev.l) or "").split("@")[0]:
            s["cnt"] = var(ev.l)
            s["inc"] = True
        elif ev.k == "call" and n == "UnpackChunkColumn":
            l = leaf(ev.args[0])
            if not any(y.k == "p" for y in ev.args[0].toks) or num(ev.args[1]) != 0:
                self.bad("C", "chunk", w, "data is not taken from the first column of the cell's chunk", st)
        elif ev.k == "asg" and ev.l is not None and base(ev.l).k == "p" or ev.k == "call" and n == "CopyFrom" and ev.recv is not None and base(ev.recv).k == "p":
            a = ev.r if ev.k == "asg" else ev.args[0]
            if a is None:
                return dict_(**s)
            if calls(a, "SubSlice"):
                x = calls(a, "SubSlice")[0]
                l = leaf(x.a[-1])
                if l is None or l[0] != "offset" or not any(y.k == "p" for y in l[1].toks):
                    self.bad("C", "offset", w, "the row of the chunk that is returned is not that of the cell", st)
                if s["ready"] is not True:
                    self.bad("C", "ready", w, "the chunk of a cell is used although it may not exist yet", st)
                s["out"] = "chunk"
                self.n["chunk"] = 1
            elif callee(a, "DeepCopy"):
                pass
            else:
                i = next((y for y in a.toks if y.k == "idx" and fld(y.a[0]) == "buffer_" or callee(y, "at") and fld(y.a[1]) == "buffer_"), None)
                if i is None:
                    if not (base(a).k == "p"):
                        self.bad("C", "source", w, "the data that is returned comes neither from the cell's chunk nor from the buffer", st)
                else:
                    e = i.a[-1]
                    self.n["buffer"] = 1
                    if s["ready"] is not False:
                        self.bad("C", "ready", w, "the buffer is used although the cell is part of a chunk already", st)
                    for N in (1, 2, 5):
                        for k in range(N):
                            def env(x):
                                if callee(x, "size") and fld(x.a[1]) == "buffer_":
                                    return N
                                if x.k in ("phi", "v"):
                                    return k
                                return None
                            try:
                                has = any(x.k in ("phi", "v") for x in e.toks)
                                if num_eval(e, env) != N - 1 - (k if has else 0):
                                    self.bad("C", "position", w, "the position in the buffer is not that of the cell", st)
                                    break
                            except Unknown:
                                self.ctx.note("%s: position %r in the buffer not understood" % (self.g.name, e))
                                break
                    if s["chk"] is None or not any(y is s["chk"] for y in e.toks):
                        self.bad("C", "bounds", w, "the position in the buffer may be negative", st)
                    if s["rev"] is False:
                        self.bad("C", "position", w, "cells are not counted from the newest one", st)
                    s["out"] = "buffer"
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if ret is OK and s["out"] is None:
            self.bad("C", "none", ev.where() if ev is not None else self.g.where(), "success is reported without data", st)


class Rows(Base):
    """TrajectoryWriter::AppendInternal: one cell or nothing for every column"""

    def init(self):
        return dict_(idx=None, pushed=0, has=None, ref=None, okref=False, all=False, one=False, step=0, inc=None)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        o = scan(atom)
        if o is not None and base(o[0]) is not None and base(o[0]).k == "p":
            leave = val == o[1]
            if o[2] is not None and o[2].k == "lit" or any(callee(base(x), "begin", "cbegin") for x in atom.a):
                s["one"] = not late(o[2])
            elif s["idx"] == "open" and s["pushed"] != 1:
                s["one"] = False
            s.update(idx="left" if leave else "open", pushed=0, has=None, ref=None, okref=False, all=leave and s["one"])
            return dict_(**s)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "has_value", "operator bool") and any(y.k == "p" for y in x.toks):
                s["has"] = val
            elif x.k == "p":
                s["inc"] = val
        if atom.k == "okp" and callee(atom.a[0], "Append"):
            s["okref"] = val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "call" and n == "Append" and ev.recv is not None and any(mine(y) == "chunkers_" for y in ev.recv.toks):
            self.n["append"] = 1
            i, j = index(ev.recv), index(ev.args[0])
            k = next((y.a[-1] for y in ev.recv.toks if y.k == "idx" or callee(y, "at", "find")), None)
            d = next((y.a[-1] for y in ev.args[0].toks if y.k == "idx" or callee(y, "at")), None)
            if k is None or d is None or k is not d:
                if not any(y.k == "elem" for y in ev.args[0].toks):
                    self.bad("D", "chunker", w, "a tensor is passed to the chunker of another column", st)
            if not any(mine(y) in ("episode_id_", "episode_step_") for y in ev.args[1].toks) and base(ev.args[1]).k not in ("ctor", "v", "phi", "init", "obj"):
                self.bad("D", "episode", w, "a cell does not get the current episode step", st)
            s["ref"] = base(ev.args[2])
            s["okref"] = False
        elif ev.k == "call" and n in ("push_back", "emplace_back") and ev.recv is not None and base(ev.recv).k == "p":
            self.n["push"] = 1
            s["pushed"] += 1
            if s["pushed"] > 1:
                self.bad("D", "columns", w, "a column gets more than one entry in the list of references", st)
            a = base(ev.args[0]) if ev.args else None
            none = a is None or "nullopt" in repr(a)
            if none and s["has"] is not False:
                self.bad("D", "missing", w, "a tensor gets no reference", st)
            if not none and (s["ref"] is None or not s["okref"] or not (s["ref"] in a.toks or any(y in s["ref"].toks for y in a.toks if y.k in ("ctor", "obj", "phi", "v", "new")))):
                self.bad("D", "reference", w, "the reference that is returned is not that of the column's new cell", st)
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "episode_step_":
            op = ev.raw.get("op")
            s["step"] = s["step"] + 1 if op == "++" or op == "+=" and num(ev.r) == 1 else 9
            if ev.r is not None and op in (None, "=") and base(ev.r).k == "op":
                x = base(ev.r)
                s["step"] = 1 if x.a[0] == "+" and any(mine(y) == "episode_step_" for y in x.a[1:] if isinstance(y, S)) and any(num(y) == 1 for y in x.a[1:] if isinstance(y, S)) else 9
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if ret is OK:
            if not s["all"]:
                self.bad("D", "columns", w, "success is reported although not all columns were appended", st)
            if s["inc"] is not None and s["step"] != (1 if s["inc"] else 0):
                self.bad("D", "step", w, "the episode step %s" % ("does not advance by one" if s["inc"] else "advances within a partial step"), st)
            if s["inc"] is None:
                self.bad("D", "step", w, "the episode step does not depend on whether the step is complete", st)


class Episode(Base):
    """TrajectoryWriter::EndEpisode"""

    def init(self):
        return dict_(it=None, done=False, skipped=False, id=False, step=False)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        o = scan(atom)
        if o is not None and fld(o[0]) == "chunkers_":
            if s["it"] == "open" and not s["done"]:
                s["skipped"] = True
            s.update(it="left" if val == o[1] else "open", done=False)
        elif atom.k == "okp" and val is False and (calls(atom.a[0], "Flush") or mine(atom.a[0]) == "unrecoverable_status_"):
            s["done"] = False
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "call" and n in ("Reset", "Flush") and ev.recv is not None and any(mine(y) == "chunkers_" for y in ev.recv.toks):
            self.n["chunker"] = 1
            s["done"] = True
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "episode_id_":
            s["id"] = ev.r is not None and any(x.k == "call" for x in ev.r.toks)
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "episode_step_":
            s["step"] = ev.r is not None and num(ev.r) == 0
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if ret is OK:
            for ok, k, m in ((s["it"] == "left" and not s["skipped"], "chunkers", "an episode ends without closing the open chunk of every column"),
                             (s["id"], "id", "a new episode has the id of the last one"), (s["step"], "step", "a new episode does not start with step 0")):
                if not ok:
                    self.bad("D", "episode-" + k, w, m, st)


class Item(Base):
    """TrajectoryWriter::CreateItem: key, table, priority, columns in order"""

    def init(self):
        return dict_(it=None, added=0, key=False, table=False, prio=False, all=True, pushed=0)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        o = scan(atom)
        if o is not None and base(o[0]) is not None and base(o[0]).k == "p":
            if any(callee(y, "rbegin", "rend", "crbegin", "crend") for x in atom.a for y in x.toks):
                self.bad("D", "order", w, "the columns of an item are visited in reverse order", st)
            if s["it"] == "open" and s["added"] > 1:
                self.bad("D", "column", w, "a column becomes part of the item more than once", st)
            s.update(it="left" if val == o[1] else "open", added=0)
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        a = ev.args[0] if ev.k == "call" and ev.args else None
        if ev.k == "call" and n == "add_columns":
            s["added"] = min(s["added"] + 1, 2)
        elif ev.k == "call" and n == "set_key" and a is not None:
            s["key"] = any(x.k == "call" for x in a.toks)
        elif ev.k == "call" and n == "set_table" and a is not None:
            s["table"] = any(x.k == "p" and x.a[0] == 0 for x in a.toks)
        elif ev.k == "call" and n == "set_priority" and a is not None:
            s["prio"] = any(x.k == "p" and x.a[0] == 1 for x in a.toks)
        elif ev.k == "call" and n in ("push_back", "emplace_back") and ev.recv is not None and mine(ev.recv) == "write_queue_":
            self.n["push"] = 1
            s["pushed"] += 1
            for k, m in (("key", "key"), ("table", "table"), ("prio", "priority")):
                if not s[k]:
                    self.bad("D", "item-" + k, w, "an item is queued without its %s" % m, st)
        elif ev.k == "call" and n in ("push_front", "insert", "emplace_front") and ev.recv is not None and mine(ev.recv) == "write_queue_":
            self.bad("D", "item-order", w, "an item is not queued behind those created before", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if ret is OK and s["pushed"] != 1:
            self.bad("D", "item-count", w, "success is reported although the item was queued %d times" % s["pushed"], st)
        if ret is not OK and s["pushed"] and ret is not None and ret.k in ("errstatus", "call"):
            self.bad("D", "item-count", w, "an error is reported although the item was queued", st)


class Ref(Base):
    """the constructor of a reference"""

    def init(self):
        return dict_(key=None, offset=None, info=None)


def run(ctx):
    ctx.rule("A", "Every reference of a column becomes one row of one slice, in order; a slice grows only by the next row of the same chunk.")
    ctx.rule("B", "References carry the key and position of their cell; a chunk holds the cells that wait for it, in order, once, and their references get it.")
    ctx.rule("C", "The data of a cell is read from its row of its chunk or from its place in the buffer.")
    ctx.rule("D", "Every column of a step goes to its chunker; items and episodes are put together from all columns in order.")

    def find(p, cls, name):
        gs = [g for g in p.fns.values() if g.blocks and last(g.cls) == cls and last(g.name) == name and not g.lam]
        if not gs:
            raise AnalysisBroken("%s::%s not found" % (cls, name))
        return gs

    def go(p, g, a, rid, need, inline=None):
        ctx.engine(Engine(p, g, a, inline=inline) if inline else Engine(p, g, a))
        for k, m in need:
            if k not in a.n:
                ctx.violation(rid, "%s/no-%s" % (short(g.name), k), g.where(), m, [])
        ctx.instance(rid, g.name)

    p = ctx.program("trajectory_writer.cc")
    own = lambda *no: lambda k, ev: k.lam or k.cls == "" or last(k.cls) == "TrajectoryWriter" and last(k.name) not in no
    for g in find(p, "TrajectoryColumn", "ToProto"):
        go(p, g, Slices(ctx, g), "A", (("refs", "the references are never visited"), ("set", "no slice ever gets a length")), lambda k, ev: k.lam or k.cls == "" or last(k.cls) == "TrajectoryColumn")
    for g in find(p, "TrajectoryWriter", "AppendInternal"):
        go(p, g, Rows(ctx, g), "D", (("append", "no tensor is ever appended"), ("push", "no reference is ever returned")), own())
    for g in find(p, "TrajectoryWriter", "EndEpisode"):
        go(p, g, Episode(ctx, g), "D", (("chunker", "the open chunks are never closed"),), own("FlushLocked"))
    for g in find(p, "TrajectoryWriter", "CreateItem"):
        go(p, g, Item(ctx, g), "D", (("push", "the item is never queued"),), own("Validate"))
    p = ctx.program("chunker.cc")
    skip = ("CopyDataForCell", "GetKeepKeys", "spec", "OnItemFinalized")
    for g in p.fns.values():
        if g.blocks and last(g.cls) == "Chunker" and not g.lam and g.access != "private" and not last(g.name).startswith("~") and last(g.name) not in skip:
            need = {"Append": ("cells", "refs", "concat", "set", "range"), "Flush": ("concat", "set")}.get(last(g.name), ())
            go(p, g, Cells(ctx, g), "B", [(k, "cells never become part of a chunk as their references say (%s)" % k) for k in need])
    for g in find(p, "Chunker", "CopyDataForCell"):
        go(p, g, Copy(ctx, g), "C", (("chunk", "data is never read from a chunk"), ("buffer", "data is never read from the buffer")))
    known = {"chunk_key": 1, "offset": 2, "episode_id": 3, "episode_step": 3}
    got = {}
    for g in find(p, "CellRef", "CellRef"):
        if len(g.params) != 4:
            continue
        a = Fields(ctx, g)
        ctx.engine(Engine(p, g, a))
        got.update(a.got)
        ctx.instance("B", g.name)
    for n, i in known.items():
        for g in find(p, "CellRef", n):
            c = Returned()
            ctx.engine(Engine(p, g, c))
            for r in c.got:
                top = r
                while isinstance(top, S) and top.k == "m" and top.a[0] is not THIS:
                    top = top.a[0]
                ok = top.k == "m" and got.get(last(top.a[1])) == i and (i != 3 or last(r.a[1]).rstrip("_").replace("episode_", "") == n.replace("episode_", ""))
                if not ok:
                    ctx.violation("B", "CellRef/%s" % n, g.where(), "%s() does not return what the reference was created with" % n, [])
            ctx.instance("B", g.name)


class Fields(Auto):
    def __init__(self, ctx, g):
        self.got = {}

    def init(self):
        return ()

    def event(self, st, ev):
        if ev.k == "asg" and ev.l is not None and mine(ev.l) and ev.r is not None and base(ev.r).k == "p":
            self.got[mine(ev.l)] = base(ev.r).a[0]
        return st.auto


class Returned(Auto):
    def __init__(self):
        self.got = []

    def init(self):
        return ()

    def exit(self, st, ret, ev):
        if ret is not None:
            self.got.append(base(ret))
