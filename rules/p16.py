"""An item enters a table together with exactly the chunks that it refers to."""
from engine.explore import result
from engine.util import *
from engine.explore import subst
from engine.ir import AnalysisBroken
from rules.p18 import base, var, mine
from rules.p11 import over
from rules.p21 import is_err

INSERTS = ("InsertOrAssign", "InsertOrAssignAsync")
GOOD = "grpc::Status::OK"


def is_good(s):
    return s is OK or s is not None and s.k in ("g", "enum") and str(s.a[0]) == GOOD


def root(s):
    """the object at the start of an access path"""
    s = base(s)
    while s is not None and (s.k == "m" or s.k == "call" and isinstance(s.a[1], S) and (len(s.a) <= 3 or last(s.a[0]) in ("find", "at", "back"))):
        s = base(s.a[0] if s.k == "m" else s.a[1])
    return s


def calls(s, *names):
    return [x for x in s.toks if x.k == "call" and last(x.a[0]) in names] if s is not None else []


def isfind(s):
    return callee(s, "find", "find_if")


def scan(atom):
    """loop condition -> (container, value of the atom that leaves, index or None)"""
    if atom.k == "eq":
        a, b = (base(x) for x in atom.a)
        if isfind(a) or isfind(b) or a is None or b is None:
            return None
        for x, y in ((a, b), (b, a)):
            if callee(x, "size") and x.a[1] is not None and (y.k in ("phi", "v", "old") or y.k == "lit" and str(y.a[0]) == "0" and False):
                return x.a[1], True, y
        if callee(a, "size") and callee(b, "size"):
            return None
    o = over(atom)
    if o is not None and o[0] is not None:
        return o[0], o[1], base(atom.a[0]) if atom.k == "lt" else None
    if atom.k == "lt":
        x = base(atom.a[1])
        if x is not None and x.k == "call" and last(x.a[0]).endswith("_size"):
            return x, False, base(atom.a[0])
    return None


def late(i):
    """a loop that does not start with the first element"""
    return i is not None and i.k == "lit" and str(i.a[0]) != "0"


def callee(s, *names):
    s = base(s)
    return s is not None and s.k == "call" and last(s.a[0]) in names


class Insert(Auto):
    """stash: the chunk of the loop over the chunks of a request
    keys: the key of the loop over the chunks that an item refers to"""

    def __init__(self, ctx, prog, g, pid):
        self.ctx, self.prog, self.g, self.pid = ctx, prog, g, pid
        self.n = {}

    def init(self):
        return dict_(begun=not self.sync, gone=False, stash=None, keys=None, valid=frozenset(), found=frozenset(), moved=frozenset(), stale=frozenset(), item=None, ins=None, conf=0,
                     want=None, wrote=None, keep=frozenset())

    def keep_fact(self, atom):
        return result(atom)

    def hit(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def bad(self, pid, rid, key, where, msg, st):
        if pid == self.pid:
            self.ctx.violation(rid, "%s/%s" % (last(self.g.name), key), where, msg, trace_of(st))

    def rebind(self, st, sym):
        s = dict(st.auto)
        p = mk("prev", sym)
        for k in ("valid", "found", "moved", "stale", "keep"):
            s[k] = frozenset(subst(x, sym, p) if isinstance(x, S) else x for x in s[k])
        return dict_(**s)

    # -- the loops
    def loop(self, st, s, c, leave, skip):
        w = self.g.where()
        if calls(c, "GetChunkKeys"):
            if skip:
                self.bad("P16", "A", "chunk-missing", w, "an item is inserted without its first chunk", st)
            s["found"] = frozenset()
            if s["keys"] == "open":
                self.bad("P16", "A", "chunk-missing", w, "an item is inserted without a chunk that it refers to", st)
            s["keys"] = "left" if leave else "open"
            self.hit("keys")
            if s["stash"] not in (None, "left"):
                self.bad("P16", "A", "early-lookup", w, "the chunks of an item are looked up before those of the same request are stored", st)
        elif callee(c, "mutable_chunks", "chunks", "chunks_size"):
            if skip or s["stash"] == "open":
                self.bad("P16", "B", "chunk-dropped", w, "a chunk that was received is not stored", st)
            s["stash"] = "left" if leave else "open"
            s["found"] = s["valid"] = frozenset()
            self.hit("stash")

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k == "eq" and any(callee(x, "count") for x in atom.a) and any(isinstance(x, S) and x.k == "lit" and str(x.a[0]) == "0" for x in atom.a):
            atom, val = mk("nz", next(x for x in atom.a if callee(x, "count"))), not val
        if atom.k == "okp":
            x = base(atom.a[0])
            if is_good(x) and not val or is_err(x) and val:
                return DEAD
            if x is not None and x.k == "call" and last(x.a[0]) in INSERTS and s["ins"] is not None:
                if s["ins"] == "failed" and val or s["ins"] == "ok" and not val:
                    return DEAD
                s["ins"] = "ok" if val else "failed"
        o = scan(atom)
        if o is not None:
            self.loop(st, s, base(o[0]), val == o[1], late(o[2]))
        if atom.k == "eq":
            for x, y in ((base(atom.a[0]), base(atom.a[1])), (base(atom.a[1]), base(atom.a[0]))):
                if isfind(x) and callee(y, "end", "cend"):
                    if not val and s["stash"] == "open" and calls(x, "chunk_key"):
                        s["stash"] = "stored"
                    s["found"] = s["found"] - {x}
                    if not val:
                        s["found"] = s["found"] | {x}
                    if calls(x, "keep_chunk_keys"):
                        s["keep"] = s["keep"] | {"gone" if val else "kept"}
        if atom.k in ("nz", "null", "bool"):
            x = base(atom.a[0])
            pos = val if atom.k != "null" else not val
            if callee(x, "contains", "count"):
                if pos:
                    s["found"] = s["found"] | {x}
                    if s["stash"] == "open" and any(calls(y, "chunk_key") for y in x.a[2:] if isinstance(y, S)):
                        s["stash"] = "stored"
                if calls(x, "keep_chunk_keys"):
                    s["keep"] = s["keep"] | {"kept" if pos else "gone"}
            elif self.slot(s, x, pos):
                pass
            elif callee(x, "send_confirmation"):
                s["want"] = pos
            elif callee(x, "Write"):
                s["wrote"] = pos
            elif callee(x, "Pop", "Read"):
                self.fresh(st, s, self.g.where())
            if callee(x, "Insert"):
                s["valid"] = s["valid"] | {x} if pos else s["valid"] - {x}
        if atom.k == "eq" and any(is_null(x) for x in atom.a if isinstance(x, S)):
            x = next((base(x) for x in atom.a if not is_null(x)), None)
            if callee(x, "Insert"):
                s["valid"] = s["valid"] | {x} if not val else s["valid"] - {x}
            self.slot(s, x, not val)
        return dict_(**s)

    def slot(self, s, x, full):
        """the entry of a chunk is known to be filled or empty"""
        if x is not None and (x.k == "idx" or callee(x, "operator[]")) and calls(x, "chunk_key"):
            if full and s["stash"] == "open":
                s["stash"] = "stored"
            return True
        return False

    def fresh(self, st, s, w):
        """the next request is handled"""
        if s["begun"]:
            self.finish(st, s, w)
        s["begun"] = True
        s.update(gone=False, stash=None, keys=None, item=None, ins=None, conf=0, want=None, wrote=None, valid=frozenset(), found=frozenset(), moved=frozenset(), stale=frozenset(), keep=frozenset())

    def finish(self, st, s, w):
        if s["stash"] is None:
            self.bad("P16", "B", "chunks-ignored", w, "the chunks of a request are not stored", st)
        if s["ins"] == "ok":
            if s["want"] is True and s["conf"] == 0:
                self.bad("P19", "A", "unconfirmed", w, "an item was accepted but the confirmation that was asked for is not sent", st)
            if s["want"] is None and s["conf"] == 0:
                self.bad("P19", "A", "never-confirmed", w, "an item was accepted but whether a confirmation was asked for is not looked at", st)
        if s["ins"] == "failed":
            self.bad("P19", "A", "failure-ignored", w, "the stream goes on although an item was not accepted", st)
        if s["conf"] and s["wrote"] in ("asked", False):
            self.bad("P19", "A", "write-ignored", w, "the stream goes on although a confirmation could not be sent", st)
        if s["conf"] and s["wrote"] is None and self.sync:
            self.bad("P19", "A", "not-written", w, "the confirmation is prepared but not sent", st)

    def item_part(self, s, x, name):
        """x is field `name` of the item, taken from the request or from the item built from it"""
        x = base(x)
        if not callee(x, name) or not isinstance(x.a[1], S):
            return False
        r = base(x.a[1])
        return callee(r, "item") and callee(r.a[1], "item", "mutable_item") or r is not None and r.k == "m" and last(str(r.a[1])) == "item" or callee(r, "mutable_item")

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "mv" and ev.val is not None and base(ev.val) is not None:
            s["moved"] = s["moved"] | {base(ev.val)}
            if callee(ev.val, "mutable_item") or callee(ev.val, "item"):
                s["gone"] = True
        elif ev.k == "decl" and ev.val is not None and ev.val.k == "ctor" and last(str(ev.val.a[0])) in ("TableItem", "Item"):
            s.update(item=None, ins=None, conf=0)
        elif ev.k == "asg" and ev.l is not None and base(ev.l) is not None:
            l = base(ev.l)
            if l.k == "m" and last(str(l.a[1])) == "item" and ev.r is not None and calls(ev.r, "mutable_item", "item"):
                s["item"] = base(l.a[0])
            elif l.k == "idx" and calls(l.a[1], "chunk_key"):
                self.store(st, s, l.a[0], l.a[1], ev.r, w)
            elif l.k in ("call",) and last(l.a[0]) == "operator[]" and calls(l, "chunk_key"):
                self.store(st, s, l.a[1], l.a[2], ev.r, w)
        elif ev.k == "call":
            if n in ("chunk_key", "key") and ev.recv is not None:
                r = base(ev.recv)
                if n == "key" and s["gone"] and not any(x.k == "m" and last(str(x.a[1])) == "item" for x in ev.val.toks):
                    s["stale"] = s["stale"] | {base(ev.val)}
                if any(x in s["moved"] for x in (r, root(r), base(r.a[0]) if r is not None and r.k == "m" else None) if x is not None):
                    s["stale"] = s["stale"] | {base(ev.val)}
            if n in ("insert", "emplace", "try_emplace", "insert_or_assign") and ev.args and calls(ev.args[0], "chunk_key") and ev.recv is not None:
                self.store(st, s, ev.recv, ev.args[0], ev.args[-1], w)
            elif n == "GetChunkKeys" and s["gone"] and not any(x.k == "m" and last(str(x.a[1])) == "item" for x in ev.val.toks):
                self.bad("P16", "A", "moved", w, "the chunks of an item are looked up after its content was moved away", st)
            elif n in ("Swap", "CopyFrom", "MergeFrom") and ev.recv is not None and base(ev.recv) is not None and base(ev.recv).k == "m" and last(str(base(ev.recv).a[1])) == "item" and calls(ev.args[0], "mutable_item", "item"):
                s["item"] = base(base(ev.recv).a[0])
                s["gone"] = s["gone"] or n == "Swap"
            elif n in ("push_back", "emplace_back") and ev.recv is not None and base(ev.recv) is not None and base(ev.recv).k == "m" and last(str(base(ev.recv).a[1])) == "chunks":
                self.push(st, s, ev, w)
            elif n == "erase" and ev.recv is not None and self.ischunks(ev.recv):
                self.hit("erase")
                if "gone" not in s["keep"]:
                    self.bad("P16", "C", "erase", w, "a chunk is released although the request did not allow it", st)
                if s["keys"] != "left" and s["item"] is None and s["ins"] is None:
                    self.bad("P16", "C", "erase-early", w, "chunks are released before the item of the request has taken its own", st)
                s["keep"] = frozenset()
            elif n == "find" and ev.recv is not None and calls(ev.val, "keep_chunk_keys"):
                s["keep"] = frozenset()
            elif n == "clear" and ev.recv is not None and self.ischunks(ev.recv):
                self.bad("P16", "C", "clear", w, "the stored chunks are dropped although later items may refer to them", st)
            elif n in INSERTS and ev.recv is not None:
                self.insert(st, s, ev, w)
            elif n == "add_keys" or n in ("Add", "push_back") and callee(ev.recv, "mutable_keys"):
                self.confirm(st, s, ev, w)
            elif n == "send_confirmation":
                self.hit("want")
            elif n == "Write" and ev.args and s["conf"]:
                s["wrote"] = "asked"
                self.hit("write")
        return dict_(**s)

    def ischunks(self, x):
        x = base(x)
        return x is not None and (mine(x) == "chunks_" or self.store_name is not None and x is self.store_name)

    store_name = None

    def store(self, st, s, container, key, value, w):
        self.hit("store")
        type(self).store_name = base(container)
        if any(x in s["stale"] for x in key.toks):
            self.bad("P16", "B", "stale-key", w, "the key of a chunk is read after the chunk was moved away", st)
        if value is not None:
            v = base(value)
            src = [x for x in value.toks if one_of(x)]
            ksrc = [x for x in key.toks if one_of(x)]
            if not src or not ksrc or src[0] is not ksrc[0]:
                self.bad("P16", "B", "wrong-chunk", w, "a chunk is stored under the key of another chunk", st)
            if callee(v, "Insert") and v not in s["valid"]:
                self.bad("P16", "B", "null-chunk", w, "a chunk that the store refused is stored", st)
        if s["stash"] == "open":
            s["stash"] = "stored"

    def push(self, st, s, ev, w):
        self.hit("push")
        a = base(ev.args[0])
        it = None
        for x in a.toks:
            if x.k == "call" and last(x.a[0]) == "find":
                it = x
        if it is None:
            # chunks.at(key), chunks[key]
            keyed = [x for x in a.toks if x.k == "idx" or x.k == "call" and last(x.a[0]) in ("at", "operator[]")]
            key = keyed[0].a[-1] if keyed else None
            if key is None or not any(callee(f, "contains", "count") and key in f.toks for f in s["found"]):
                self.bad("P16", "A", "unchecked", w, "a chunk is added to an item without checking that it was received", st)
            it = key if key is not None else a
        elif it not in s["found"]:
            self.bad("P16", "A", "unchecked", w, "a chunk is added to an item without checking that it was received", st)
        if not [x for x in it.toks if x.k in ("elem", "idx") and calls(x, "GetChunkKeys")]:
            self.bad("P16", "A", "wrong-key", w, "the chunk that is added to an item is not the one that the item refers to", st)
        if s["keys"] == "open":
            s["keys"] = "added"
        elif s["keys"] == "added":
            self.bad("P16", "A", "twice", w, "a chunk is added to an item twice", st)

    def insert(self, st, s, ev, w):
        self.hit("insert")
        r = base(ev.recv)
        if s["stash"] != "left":
            self.bad("P16", "B", "chunks-late", w, "an item is inserted before the chunks of its request were stored", st)
        if s["keys"] != "left":
            self.bad("P16", "A", "not-collected", w, "an item is inserted before all the chunks that it refers to were found", st)
        if s["item"] is None:
            self.bad("P16", "A", "no-item", w, "an item is inserted without the content that was received", st)
        if s["ins"] is not None:
            self.bad("P19", "A", "inserted-twice", w, "an item is inserted twice", st)
        s["ins"] = "called"

    def confirm(self, st, s, ev, w):
        self.hit("confirm")
        if s["ins"] != "ok":
            self.bad("P19", "A", "early", w, "an item is confirmed %s" % ({"called": "without checking that it was accepted", "failed": "although it was not accepted"}.get(s["ins"], "before it was handed to the table")), st)
        if s["want"] is not True:
            if s["want"] is False or not self.sync or True:
                self.bad("P19", "A", "unasked", w, "an item is confirmed although that was not asked for", st)
        k = base(ev.args[-1]) if ev.args else None
        if not self.item_part(s, k, "key"):
            self.bad("P19", "A", "wrong-key", w, "the confirmation does not carry the key of the item", st)
        elif k in s["stale"]:
            self.bad("P19", "A", "stale-key", w, "the key of the confirmation is read after the item was moved away", st)
        s["conf"] = min(s["conf"] + 1, 2)
        if s["conf"] == 2:
            self.bad("P19", "A", "twice", w, "an item is confirmed twice", st)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = self.g.where()
        if is_good(ret):
            if s["begun"]:
                if not self.sync or s["ins"] is not None:
                    self.finish(st, s, w)
            if s["keys"] is not None and s["ins"] is None:
                self.bad("P19", "A", "item-ignored", w, "an item that was received is not handed to a table", st)
        elif s["ins"] == "ok" and not is_good(ret) and s["wrote"] is not False and ret is not None and is_err(ret):
            self.bad("P19", "A", "accepted-but-error", w, "an error is returned although the item was accepted", st)


def is_null(x):
    x = base(x)
    return x is not None and (x.k == "lit" and str(x.a[0]) in ("null", "nullptr") or repr(x) == "null")


def one_of(x):
    """one of the received chunks"""
    return x.k in ("elem", "idx") and calls(x.a[0], "mutable_chunks", "chunks") or x.k == "call" and last(x.a[0]) in ("mutable_chunks", "chunks") and len(x.a) > 3


def dict_(**k):
    return tuple(sorted(k.items(), key=lambda x: x[0]))


class Validity(Auto):
    """OK is returned only for an item whose chunks match its trajectory"""

    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g
        self.oks = 0
        self.zero = set()  # variables that start with 0

    def init(self):
        return (frozenset(), None, ())

    def keep_fact(self, atom):
        return result(atom)

    def ischunks(self, x):
        return any(y.k == "m" and last(str(y.a[1])) == "chunks" for y in x.toks)

    def branch(self, st, atom, val, line, fn):
        got, it, inc = st.auto
        if atom.k == "nz" and callee(atom.a[0], "empty") or atom.k == "eq" and any(callee(x, "columns_size", "size", "chunk_slices_size") for x in atom.a) and any(x.k == "lit" and str(x.a[0]) == "0" for x in atom.a):
            txt = repr(atom)
            if "columns" in txt and "GetChunkKeys" not in txt:
                if not val:
                    got = got | {"slices" if "chunk_slices" in txt else "columns"}
                return (got, it, inc)
        if atom.k == "eq":
            a, b = atom.a
            ks, cs = [x for x in (a, b) if calls(x, "GetChunkKeys")], [x for x in (a, b) if self.ischunks(x)]
            if ks and cs and callee(ks[0], "size") and callee(cs[0], "size"):
                if val:
                    got = got | {"count"}
                return (got, it, inc)
            if ks and cs and callee(cs[0], "key"):
                i = {y.a[1] for y in ks[0].toks if y.k == "idx"}
                j = {y.a[1] for y in cs[0].toks if y.k == "idx"}
                e, f = [y for y in ks[0].toks if y.k == "elem"], [y for y in cs[0].toks if y.k == "elem"]
                if i and i == j or (len(i) == 1 and f and self.steps(next(iter(i)), inc)) or (len(j) == 1 and e and self.steps(next(iter(j)), inc)):
                    it = "same" if val else "differ"
                return (got, it, inc)
        o = scan(atom)
        if o is None and atom.k == "eq":
            a, b = (base(x) for x in atom.a)
            for x, y in ((a, b), (b, a)):
                if callee(x, "size") and y.k == "lit" and str(y.a[0]) == "0":
                    o = (x.a[1], True, y)
        if o is not None and (calls(o[0], "GetChunkKeys") or self.ischunks(o[0])):
            if it in ("open", "differ") or late(o[2]) or any(n != 1 for _, n in inc):
                got = got | {"skipped"}
            inc = ()
            if val == o[1]:
                got, it = got | {"all"}, None
            else:
                it = "open"
        return (got, it, inc)

    def steps(self, i, inc):
        """a variable that counts the elements of the loop"""
        n = vars_of(i)
        return bool(n) and n[0] in self.zero and dict(inc).get(n[0], 1) <= 1 or i.k == "lit" and str(i.a[0]) == "0"

    def event(self, st, ev):
        got, it, inc = st.auto
        if ev.k == "decl" and ev.raw.get("var") and ev.val is not None and ev.val.k == "lit" and str(ev.val.a[0]) == "0":
            self.zero.add(ev.raw["var"])
        if ev.k == "asg" and it is not None and ev.l is not None:
            n = vars_of(base(ev.l))
            if n and n[0] in self.zero:
                d = dict(inc)
                d[n[0]] = min(d.get(n[0], 0) + (1 if ev.raw.get("op") in ("++", "+=", None) else 2), 2)
                inc = tuple(sorted(d.items()))
        return (got, it, inc)

    def exit(self, st, ret, ev):
        got, it, inc = st.auto
        if ret is OK:
            self.oks += 1
            for k, msg in (("columns", "without any column"), ("slices", "whose trajectory is empty"), ("count", "with another number of chunks than it refers to"), ("all", "whose chunks were not compared with those it refers to")):
                if k not in got or k == "all" and ("skipped" in got or it is not None):
                    self.ctx.violation("D", "CheckItemValidity/" + k, self.g.where(), "an item %s is accepted" % msg, trace_of(st))


def vars_of(s):
    return [x for y in (s.toks if s is not None else ()) for x in y.a[:1] if y.k in ("v", "phi") and isinstance(x, str)]


class Gate(Auto):
    """nothing is queued or stored before the item was checked"""

    def __init__(self, ctx, g, checker):
        self.ctx, self.g, self.checker = ctx, g, checker
        self.n = 0

    def init(self):
        return (False, frozenset())

    def keep_fact(self, atom):
        return result(atom)

    def branch(self, st, atom, val, line, fn):
        if atom.k == "okp" and callee(atom.a[0], self.checker) and val:
            return (True, st.auto[1])
        return st.auto

    def event(self, st, ev):
        n = last(ev.fn or "")
        if ev.k == "mv" and ev.val is not None:
            return (st.auto[0], st.auto[1] | {base(ev.val)})
        if ev.k == "call" and n == self.checker and ev.args and base(ev.args[0]) in st.auto[1]:
            self.ctx.violation("D", "%s/moved" % last(self.g.name), ev.where(), "an item is checked after it was moved away", trace_of(st))
        if ev.k == "call" and (n in ("push_back", "emplace_back") and mine(ev.recv) == "pending_inserts_" or n in ("insert", "emplace", "try_emplace", "insert_or_assign") and mine(ev.recv) == "data_") or ev.k == "asg" and ev.l is not None and base(ev.l) is not None and base(ev.l).k == "idx" and mine(base(ev.l).a[0]) == "data_":
            self.n += 1
            if not st.auto[0]:
                self.ctx.violation("D", "%s/unchecked" % last(self.g.name), ev.where(), "an item enters the table without having been checked", trace_of(st))
        return st.auto


class Keys(Auto):
    """GetChunkKeys: every chunk of every column is in the result, once"""

    def __init__(self, ctx, g):
        self.ctx, self.g, self.pushes = ctx, g, 0

    def init(self):
        return (None, None, frozenset())  # column loop, slice loop, slice known

    def keep_fact(self, atom):
        return result(atom)

    def branch(self, st, atom, val, line, fn):
        col, sl, k = st.auto
        o = scan(atom)
        if o is not None:
            leave = val == o[1]
            if calls(o[0], "chunk_slices", "chunk_slices_size"):
                if sl == "open" or late(o[2]):
                    self.bad("slice-skipped", "a chunk that a trajectory refers to is not listed", st)
                sl = "left" if leave else "open"
                k = frozenset()
            elif calls(o[0], "columns", "columns_size"):
                if col == "open" and sl != "left" or late(o[2]):
                    self.bad("column-skipped", "the chunks of a column are not listed", st)
                if leave:
                    col = "left"
                else:
                    col, sl = "open", None
            return (col, sl, k)
        if sl == "open":
            if atom.k in ("nz", "bool"):
                x = base(atom.a[0])
                # insert() tells whether the key is new
                tells = [y for y in (x.toks if x is not None else ()) if y.k == "call" and last(y.a[0]) in ("insert", "emplace") and any(calls(z, "chunk_key") for z in y.a[2:] if isinstance(z, S))]
                if tells and (x.k == "m" and last(str(x.a[1])) == "second" or callee(x, "get")):
                    sl, k = (sl, k | {"new"}) if val else ("seen", k)
                elif callee(x, "contains", "count") and calls(x, "chunk_key"):
                    sl, k = (sl, k | {"new"}) if not val else ("seen", k)
            elif atom.k == "eq" and any(isfind(base(x)) and calls(x, "chunk_key") for x in atom.a):
                sl, k = (sl, k | {"new"}) if val else ("seen", k)
        return (col, sl, k)

    def event(self, st, ev):
        col, sl, k = st.auto
        if ev.k == "call" and last(ev.fn or "") in ("push_back", "emplace_back") and ev.args:
            self.pushes += 1
            if not callee(ev.args[0], "chunk_key"):
                self.bad("wrong-key", "the list of chunks has something else than the key of a slice's chunk", st)
            if sl == "open":
                if "new" not in k:
                    self.bad("duplicate", "a chunk is listed again for every slice", st)
                sl = "listed"
            elif sl == "seen":
                self.bad("duplicate", "a chunk is listed twice", st)
        return (col, sl, k)

    def bad(self, key, msg, st):
        self.ctx.violation("E", "GetChunkKeys/" + key, self.g.where(), msg, trace_of(st))

    def exit(self, st, ret, ev):
        col, sl, k = st.auto
        if col != "left":
            self.bad("column-skipped", "the chunks of some columns are not listed", st)


def paths(ctx, pid):
    """both ways in which the services insert items"""
    out = []
    for tu, name, sync in (("reverb_service_impl.cc", "ReverbServiceImpl::InsertStreamInternal", True), ("reverb_service_async_impl.cc", "WorkerlessInsertReactor::ProcessIncomingRequest", False)):
        prog = ctx.program(tu)
        gs = [f for f in prog.fns.values() if f.blocks and not f.lam and any(last(c.get("fn") or c.get("name") or "") in INSERTS for c in f.calls())]
        gs = [f for f in prog.fns.values() if f.blocks and not f.lam and f.name.endswith(name)] or gs
        if not gs:
            raise AnalysisBroken("no function inserts items in %s" % tu)
        for g in gs:
            a = Insert(ctx, prog, g, pid)
            a.sync = sync
            Insert.store_name = None
            e = Engine(prog, g, a, inline=lambda k, ev: (k.lam or k.cls in {"", g.cls} - {"Queue"} or "ReverbService" in k.cls or "InsertReactor" in k.cls) and last(k.name) not in ("GetChunkKeys", "StartThread", "MaybeSendNextResponse", "MaybeStartRead", "SetReactorAsFinished"))
            ctx.engine(e)
            for k in ("insert", "push", "store", "keys"):
                if not a.n.get(k):
                    raise AnalysisBroken("%s: no %s seen" % (g.name, k))
            out.append((g, a))
    return out


def run(ctx):
    ctx.rule("A", "The services insert an item only after every key of GetChunkKeys(trajectory) was looked up, found among the received chunks and added once.")
    ctx.rule("B", "Every received chunk is stored under its own key before items are looked up; a chunk the store refused is not.")
    ctx.rule("C", "A received chunk is released only if the request does not ask to keep it, after its item took its own chunks.")
    ctx.rule("D", "A table stores or queues an item only after CheckItemValidity passed, which accepts only non-empty trajectories whose chunks equal, one by one, those referred to; a stored item's chunks are never changed.")
    ctx.rule("E", "GetChunkKeys lists each chunk of each slice of each column once.")
    for g, a in paths(ctx, "P16"):
        for k, r in (("push", "A"), ("store", "B"), ("erase", "C")):
            if a.n.get(k):
                ctx.instance(r, "%s: %s" % (last(g.cls) or "", k))
    prog = ctx.program("table.cc")
    g = prog.fn("CheckItemValidity")
    v = Validity(ctx, g)
    ctx.engine(Engine(prog, g, v))
    if not v.oks:
        raise AnalysisBroken("CheckItemValidity never succeeds")
    ctx.instance("D", "CheckItemValidity")
    for h in prog.fns.values():
        if h.cls == "Table" and h.access == "public" and h.blocks and not h.lam and last(h.name) in INSERTS + ("InsertCheckpointItem",):
            a = Gate(ctx, h, "CheckItemValidity")
            if last(h.name) == "InsertCheckpointItem":
                continue
            ctx.engine(Engine(prog, h, a, inline=lambda k, ev: k.cls == "Table" and last(k.name) not in ("ExtensionOperation", "DeleteItem", "UpdateItem") + INSERTS or k.lam))
            if a.n:
                ctx.instance("D", h.name)
    ctx.need("D", 3)
    for h in prog.fns.values():
        if not h.blocks:
            continue
        for e in h.events():
            if e["k"] == "call" and e.get("recv") is not None and chunk_field(e["recv"]) and last(e.get("fn") or e.get("name") or "") in ("clear", "erase", "pop_back", "push_back", "emplace_back", "resize", "swap", "reset", "insert"):
                ctx.violation("D", "%s/chunks-changed" % last(h.name), h.where(e.get("line")), "the chunks of an item are changed inside the table", [])
    ctx.instance("D", "chunks of stored items stay")
    prog = ctx.program("support/trajectory_util.cc")
    g = prog.fn("GetChunkKeys")
    k = Keys(ctx, g)
    ctx.engine(Engine(prog, g, k))
    if not k.pushes:
        raise AnalysisBroken("GetChunkKeys lists nothing")
    ctx.instance("E", "GetChunkKeys")


def chunk_field(t):
    while isinstance(t, (list, tuple)) and t:
        if t[0] == "m":
            return last(str(t[2])) == "chunks"
        if t[0] in ("cast", "deref", "addr"):
            t = t[-1] if t[0] == "cast" else t[1]
            continue
        return False
    return False
