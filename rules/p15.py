"""Item selectors: error paths leave the selector unchanged, successful
operations change every internal container for the same key, clearing empties
all of them, and what is sampled is what the containers describe."""
from engine.util import *
from engine.ir import AnalysisBroken

P0, P1 = mk("p", 0), mk("p", 1)
ADDERS = ("emplace", "try_emplace", "insert", "insert_or_assign", "emplace_hint", "push_back", "push_front", "emplace_back", "emplace_front", "Push")
DELERS = ("erase", "pop_back", "pop_front", "Remove", "extract", "Pop")
READERS = ("size", "begin", "end", "cbegin", "cend", "front", "back", "empty", "find", "contains", "count", "at", "top", "operator[]", "Contains", "data", "rbegin", "capacity", "bucket_count")
PRIMS = ("SetNode", "ReinitializeSumTree", "Push", "Remove", "Adjust", "Clear", "Contains", "top", "Pop")


def strip(s):
    """through conversions of iterators / pointers"""
    while s is not None and s.k in ("ctor", "cast") and len(s.a) >= 3 and isinstance(s.a[-1], S) and ("iterator" in str(s.a[0]) or s.k == "cast"):
        s = s.a[-1]
    return s


def is_call(s, names, recv=None):
    return s is not None and s.k == "call" and last(s.a[0]) in names and (recv is None or s.a[1] is recv)


def consts(s):
    c = const_of(s) if s is not None else None
    return c[1] if c and c[0] == "n" else None


class Shape:
    """containers of a selector class, from its field types"""

    def __init__(self, prog, cname):
        self.cname = cname
        self.map = self.seq = self.kind = None
        self.others = []
        for fl in prog.cls(cname)["fields"]:
            ty, sym = fl["ty"], f(cname + "::" + fl["name"])
            if "flat_hash_map<" in ty[:30] or "unordered_map<" in ty[:30] or "node_hash_map<" in ty[:30]:
                if self.map is not None:
                    raise AnalysisBroken("two maps in %s" % cname)
                self.map, self.mapty = sym, ty
            elif ty.startswith("std::list<") or ty.startswith("std::vector<") or "IntrusiveHeap<" in ty[:50]:
                if self.seq is not None:
                    raise AnalysisBroken("two sequences in %s" % cname)
                self.seq, self.seqty = sym, ty
            elif ty.startswith("const ") or "random" in ty or "BitGen" in ty:
                pass
            else:
                self.others.append(sym)
        if self.map is None or self.seq is None:
            raise AnalysisBroken("containers of %s not recognised" % cname)
        if self.seqty.startswith("std::list<"):
            self.kind = "list"
        elif "IntrusiveHeap<" in self.seqty:
            self.kind = "heap"
        elif "Node" in self.seqty:
            self.kind = "tree"
        else:
            self.kind = "vector"

    def fields(self):
        return [self.map, self.seq]


def under(s, base):
    """s is base or something stored inside it"""
    while s is not None:
        if s is base:
            return True
        if s.k in ("m", "idx", "elem", "deref"):
            s = s.a[0]
        else:
            return False
    return False


class Op(Auto):
    def __init__(self, ctx, sh, fn, op):
        self.ctx, self.sh, self.fn, self.op = ctx, sh, fn, op

    def bad(self, rid, key, where, msg, st):
        self.ctx.violation(rid, "%s/%s" % (self.fn.name, key), where, "%s: %s" % (self.fn.name, msg), trace_of(st))

    def init(self):
        return frozenset()

    # ---------------------------------------------------------- helpers
    def entry_of_key(self, s):
        """s denotes the map entry (iterator, value) of the method's key"""
        s = strip(s)
        m = self.sh.map
        for x in s.toks:
            if is_call(x, ("find", "at"), m) and x.a[3] is P0:
                return True
            if x.k == "idx" and x.a[0] is m and x.a[1] is P0:
                return True
        return False

    def index_of_key(self, s):
        s = strip(s)
        return s.k in ("m", "idx", "call") and self.entry_of_key(s) and s.k != "call"

    def msize(self, s):
        return is_call(s, ("size",), self.sh.map) or (self.sh.kind == "vector" and is_call(s, ("size",), self.sh.seq))

    def size_minus_1(self, s):
        return s.k == "op" and s.a[0] == "-" and len(s.a) == 3 and consts(s.a[2]) == 1 and self.msize(s.a[1])

    def last_index(self, s, d):
        """s is the index of the last element before the deletion"""
        if self.size_minus_1(s):
            src = self.sh.seq if s.a[1].a[1] is self.sh.seq else self.sh.map
            return "del" not in d.get(("size", src), ())
        if self.msize(s):   # size() after the element was removed from the map
            src = self.sh.seq if s.a[1] is self.sh.seq else self.sh.map
            return d.get(("size", src), ()) == ("del",)
        return False

    def new_index(self, s, d):
        """s is the index of the element being inserted"""
        if self.msize(s):
            src = self.sh.seq if s.a[1] is self.sh.seq else self.sh.map
            return "add" not in d.get(("size", src), ())
        if self.size_minus_1(s):
            src = self.sh.seq if s.a[1].a[1] is self.sh.seq else self.sh.map
            return d.get(("size", src), ()) == ("add",)
        return False

    def last_key(self, s, d):
        q = self.sh.seq
        if self.sh.kind == "vector":
            return (is_call(s, ("back",), q) and not d.get("stale_back")) or (s.k == "idx" and s.a[0] is q and (self.last_index(s.a[1], d) or (d.get("moved") and self.index_of_key(s.a[1]))))
        return s.k == "m" and s.a[1].endswith("::key") and s.a[0].k == "idx" and s.a[0].a[0] is q and (self.last_index(s.a[0].a[1], d) or (d.get("movedkey") and self.index_of_key(s.a[0].a[1])))

    def weight_of(self, s):
        """s is the weight of priority P1"""
        return contains(s, P1) and any(x.k == "m" and x.a[1].endswith("priority_exponent_") for x in s.toks)

    def mutate(self, d, what):
        d["mut"] = True
        d.setdefault("ops", ())
        d["ops"] = d["ops"] + (what,) if len(d["ops"]) < 12 else d["ops"]

    # ---------------------------------------------------------- events
    def event(self, st, ev):
        sh = self.sh
        d = dict(st.auto)
        if ev.k == "call" and ev.recv is not None:
            n = last(ev.fn)
            for which, c in (("map", sh.map), ("seq", sh.seq)):
                if ev.recv is not c:
                    continue
                if n == "size":
                    ph = ("del" if ("map-" in d.get("ops", ()) if which == "map" else "seq-" in d.get("ops", ())) else "add" if ("map+" in d.get("ops", ()) if which == "map" else "seq+" in d.get("ops", ())) else "pre")
                    old = d.get(("size", c), ())
                    d[("size", c)] = tuple(sorted(set(old) | {ph}))
                    return frozenset(d.items())
                if n in ("clear", "Clear"):
                    self.mutate(d, which + "0")
                    return frozenset(d.items())
                if n in ("resize", "reserve") and sh.kind == "tree" and which == "seq":
                    d["cap_ok"] = bool(ev.args) and any(x in sh.others for x in ev.args[0].toks)
                    if d.get("cap") == "changed":
                        d["cap"] = "done"
                    return frozenset(d.items())
                if n in ("resize", "reserve", "rehash"):
                    if n == "resize":
                        self.mutate(d, which + "?")
                    return frozenset(d.items())
                if n in ADDERS:
                    self.add(st, ev, d, which, n)
                    return frozenset(d.items())
                if n in DELERS:
                    self.dele(st, ev, d, which, n)
                    return frozenset(d.items())
                if n == "back":
                    d["stale_back"] = "seq-" in d.get("ops", ())
                    return frozenset(d.items())
                if n == "Adjust":
                    if not (ev.args and self.entry_of_key(ev.args[0])):
                        self.bad("A", "adjust", ev.where(), "re-orders the heap for a different node than the updated one", st)
                    d["adjusted"] = True
                    return frozenset(d.items())
                if n in READERS:
                    return st.auto
                self.mutate(d, which + "?" + n)
                return frozenset(d.items())
        if ev.k == "call" and last(ev.fn) == "swap" and len(ev.args) == 2 and any(under(a, sh.seq) for a in ev.args):
            l, r = ev.args
            for a, b in ((l, r), (r, l)):
                if sh.kind == "vector" and a.k == "idx" and self.index_of_key(a.a[1]) and self.last_key(b, d):
                    d["moved"] = True
                    return frozenset(d.items())
            self.mutate(d, "seq?swap")
            return frozenset(d.items())
        if ev.k == "call" and last(ev.fn) == "SetNode" and ev.recv.k == "this":
            self.setnode(st, ev, d)
            return frozenset(d.items())
        if ev.k == "call" and last(ev.fn) == "ReinitializeSumTree":
            return st.auto
        if ev.k == "idx" and ev.recv is sh.map:
            k = ev.args[0]
            if k is P0:
                if d.get("key") != "present":
                    if d.get("key") is None:
                        self.bad("B", "subscript", ev.where(), "creates an entry for a key whose presence has not been checked", st)
                    self.mutate(d, "map+")
                    d["key"] = "present"
                    d["val"] = "default"
            return frozenset(d.items())
        if ev.k == "asg":
            return self.assign(st, ev, d)
        if ev.k == "dtor" or ev.k == "decl":
            return st.auto
        return st.auto

    def add(self, st, ev, d, which, n):
        sh = self.sh
        args = [a for a in ev.args]
        if which == "map":
            key = args[0] if args else None
            val = args[1] if len(args) > 1 else None
            if key is not None and key.k in ("init", "ctor", "call") and len(args) == 1:
                vs = [x for x in key.a[1:] if isinstance(x, S)]
                if key.k == "call":
                    vs = list(key.a[3:])
                key, val = (vs + [None, None])[-2:] if len(vs) >= 2 else (key, None)
            if key is not P0:
                self.bad("A", "map-key", ev.where(), "inserts a different key into %s" % sh.map, st)
                return
            if val is not None:
                self.check_value(st, ev, d, val)
            if d.get("key") == "present":
                return
            if d.get("key") == "absent":
                self.mutate(d, "map+")
                d["key"] = "present"
            else:
                d["pend"] = True
            return
        q = args
        if sh.kind == "heap":
            ok = q and (self.entry_of_key(q[0]) or q[0] is d.get("node") or (q[0].k in ("new", "obj") and any(y is P0 for y in q[0].a)))
        elif sh.kind == "list":
            ok = q and q[-1] is P0
            pos = "back" if n in ("push_back", "emplace_back") else "front" if n in ("push_front", "emplace_front") else None
            if pos is None and len(q) >= 2:
                x = strip(q[0])
                pos = "back" if is_call(x, ("end", "cend"), sh.seq) else "front" if is_call(x, ("begin", "cbegin"), sh.seq) else "?"
            d["end"] = pos
            self.ctx.ends.setdefault(sh.cname, set()).add((pos, ev.where()))
        else:
            ok = q and q[-1] is P0
        if not ok:
            self.bad("A", "seq-key", ev.where(), "adds a different key to %s" % sh.seq, st)
        self.mutate(d, "seq+")

    def check_value(self, st, ev, d, val):
        sh = self.sh
        v = strip(val)
        if sh.kind == "list":
            if is_call(v, ("emplace", "insert"), sh.seq):
                return
            if is_call(v, ("begin", "end", "prev", "cbegin"), None) or v.k == "call":
                n = last(v.a[0])
                e = d.get("end")
                if n == "begin" and e == "front":
                    return
                if n == "prev" and e == "back":
                    return
            self.bad("A", "position", ev.where(), "stores a position that is not the one of the key", st)
        elif sh.kind in ("vector", "tree"):
            if not self.new_index(v, d):
                self.bad("A", "position", ev.where(), "stores an index that is not the one of the new key", st)
        elif sh.kind == "heap":
            d["node"] = v
            self.check_node(st, ev, d, v)

    def check_node(self, st, ev, d, v):
        parts = list(v.a[2:]) if v.k == "new" else list(v.a[3:]) if v.k == "call" else [x for x in v.a[1:] if isinstance(x, S)]
        parts = [x for x in parts if isinstance(x, S)]
        if len(parts) == 1 and parts[0].k in ("new", "obj"):
            return self.check_node(st, ev, d, parts[0])
        if v.k == "obj":
            return
        if not (len(parts) >= 3 and parts[0] is P0 and self.signed(parts[1])):
            self.bad("A", "node", ev.where(), "stores a node with a different key or priority", st)
        elif not any(x.k == "m" and x.a[1].endswith("update_count_") for x in parts[2].toks):
            self.bad("E", "tie", ev.where(), "does not stamp the node with the update count used to break ties", st)

    def signed(self, s):
        return s.k == "op" and s.a[0] == "*" and P1 in s.a and any(isinstance(x, S) and x.k == "m" and x.a[1].endswith("::sign_") for x in s.a)

    def dele(self, st, ev, d, which, n):
        sh = self.sh
        a = strip(ev.args[0]) if ev.args else None
        if which == "map":
            if a is None or not (a is P0 or (is_call(a, ("find",), sh.map) and a.a[3] is P0)):
                self.bad("A", "map-erase", ev.where(), "erases a different key from %s" % sh.map, st)
            if sh.kind == "heap" and "seq-" not in d.get("ops", ()):
                self.bad("A", "dangling", ev.where(), "frees a node that is still in the heap", st)
            if a is P0 and d.get("key") is None:
                d["pend_erase"] = True
            self.mutate(d, "map-")
            return
        if sh.kind == "list":
            if a is None or not self.entry_of_key(a):
                self.bad("A", "seq-erase", ev.where(), "removes a different element from %s" % sh.seq, st)
        elif sh.kind == "heap":
            if a is None or not self.entry_of_key(a):
                self.bad("A", "seq-erase", ev.where(), "removes a different node from the heap", st)
            if "map-" in d.get("ops", ()):
                self.bad("A", "dangling", ev.where(), "uses a node after it was freed", st)
        elif sh.kind == "vector":
            if n != "pop_back":
                self.bad("A", "seq-erase", ev.where(), "removes an element from the middle without moving the positions of the others", st)
            elif self.op == "Delete":
                if d.get("is_last") is not True and not d.get("moved"):
                    self.bad("A", "lost", ev.where(), "drops the last key although a different key is being deleted", st)
        self.mutate(d, "seq-")

    def setnode(self, st, ev, d):
        i, v = ev.args
        if self.op in ("Insert", "Update"):
            if self.op == "Insert":
                ok = self.new_index(i, d) or (d.get("key") == "present" and self.index_of_key(i))
                if "map+" not in d.get("ops", ()):
                    self.bad("A", "early-sum", ev.where(), "updates the sum tree before the key is part of it", st)
            else:
                ok = self.index_of_key(i)
            if not ok:
                self.bad("A", "setnode-index", ev.where(), "sets the weight of a different key", st)
            z = consts(v) == 0
            if not (self.weight_of(v) or (z and d.get("zero"))):
                self.bad("A", "setnode-value", ev.where(), "stores a weight that is not the one of the given priority", st)
            d["weight"] = True
            self.mutate(d, "tree")
            return
        if self.op == "Delete":
            if "map-" in d.get("ops", ()):
                self.bad("A", "late-sum", ev.where(), "updates the sum tree after the key stopped being part of it", st)
            if self.last_index(i, d) and consts(v) == 0:
                d["zeroed"] = True
            elif self.index_of_key(i) and consts(v) == 0 and d.get("is_last") is True:
                d["zeroed"] = True
            elif self.index_of_key(i) and v.k == "m" and v.a[1].endswith("::value") and v.a[0].k == "idx" and self.last_index(v.a[0].a[1], d):
                if d.get("zeroed"):
                    self.bad("A", "zeroed", ev.where(), "moves the weight of the last key after it was cleared", st)
                d["movedval"] = True
            else:
                self.bad("A", "setnode-delete", ev.where(), "changes the weight of a key that is not affected", st)
            self.mutate(d, "tree")

    def assign(self, st, ev, d):
        sh = self.sh
        l, r = ev.l, ev.r
        if l is None:
            return st.auto
        if sh.kind == "tree" and l in sh.others:
            d["cap"] = "changed"
            return frozenset(d.items())
        if l in sh.others:
            return st.auto
        if under(l, sh.map) or (l.k == "m" and not under(l, sh.seq) and self.entry_of_key(l)):
            if l.k == "idx" and l.a[0] is sh.map and l.a[1] is not P0:
                if self.op == "Delete" and self.last_key(l.a[1], d) and self.index_of_key(r):
                    if "map-" in d.get("ops", ()) and d.get("is_last") is not False:
                        self.bad("A", "resurrect", ev.where(), "may add the deleted key to the index again", st)
                    if sh.kind == "vector" and "seq-" in d.get("ops", ()) and not d.get("moved"):
                        self.bad("A", "order", ev.where(), "re-indexes a key that was already dropped", st)
                    d["reidx"] = True
                else:
                    self.bad("A", "reindex", ev.where(), "changes the index of a key to a wrong position", st)
                self.mutate(d, "reidx")
                return frozenset(d.items())
            if l.k == "idx" and l.a[1] is P0:
                if self.op == "Insert":
                    d.pop("val", None)
                    self.check_value(st, ev, d, r)
                else:
                    self.mutate(d, "map?")
                return frozenset(d.items())
            # field of a stored node
            fld = l.a[1] if l.k == "m" else ""
            self.mutate(d, "node")
            if sh.kind == "heap" and l.k == "m":
                if not self.entry_of_key(l):
                    self.bad("A", "other-node", ev.where(), "changes the node of a different key", st)
                if fld.endswith("::priority"):
                    if not self.signed(r):
                        self.bad("A", "priority", ev.where(), "stores a priority that is not the given one with the heap's sign", st)
                    d["prio"] = True
                elif fld.endswith("::update_number"):
                    if not any(x.k == "m" and x.a[1].endswith("update_count_") for x in r.toks):
                        self.bad("E", "tie", ev.where(), "does not stamp the node with the update count used to break ties", st)
                    d["stamp"] = True
                elif fld.endswith("::key") and r is not P0:
                    self.bad("A", "node-key", ev.where(), "changes the key of a node", st)
                if d.get("adjusted"):
                    self.bad("A", "late", ev.where(), "changes the ordering of a node after the heap was adjusted", st)
            return frozenset(d.items())
        if under(l, sh.seq):
            if sh.kind == "vector" and l.k == "idx":
                if self.op == "Delete" and self.index_of_key(l.a[1]) and self.last_key(r, d):
                    if "seq-" in d.get("ops", ()):
                        self.bad("A", "order", ev.where(), "moves the last key after it was dropped", st)
                    d["moved"] = True
                else:
                    self.bad("A", "slot", ev.where(), "overwrites the slot of a key that is not being deleted", st)
                self.mutate(d, "seq=")
            elif sh.kind == "tree" and l.k == "m" and l.a[1].endswith("::key") and l.a[0].k == "idx":
                i = l.a[0].a[1]
                if self.op == "Insert" and (self.new_index(i, d) or self.index_of_key(i)) and r is P0:
                    if d.get("key") != "present":
                        self.mutate(d, "seq=")
                    d["slotkey"] = True
                    if d.get("full") is not False and not d.get("cap_ok"):
                        self.bad("A", "capacity", ev.where(), "writes beyond the end of the sum tree when it is full", st)
                elif self.op == "Delete" and self.index_of_key(i) and self.last_key(r, d):
                    d["movedkey"] = True
                    self.mutate(d, "seq=")
                else:
                    self.bad("A", "slot", ev.where(), "stores the wrong key in the sum tree", st)
                    self.mutate(d, "seq=")
            elif sh.kind == "tree" and l.k == "m" and l.a[1].rsplit("::", 1)[-1] in ("sum", "value"):
                i = l.a[0].a[1] if l.a[0].k == "idx" else None
                if self.op == "Clear":
                    if consts(r) != 0:
                        self.bad("C", "nonzero", ev.where(), "does not reset the weights to zero", st)
                    d[l.a[1].rsplit("::", 1)[-1]] = i if i is not None else True
                else:
                    self.bad("D", "direct", ev.where(), "changes a weight or sum outside SetNode", st)
                    self.mutate(d, "tree")
            else:
                self.mutate(d, "seq=")
            return frozenset(d.items())
        return st.auto

    def branch(self, st, atom, val, line, fn):
        sh = self.sh
        d = dict(st.auto)
        m = sh.map
        if atom.k == "eq":
            for x, y in (atom.a, atom.a[::-1]):
                x, y = strip(x), strip(y)
                if is_call(x, ("find",), m) and x.a[3] is P0 and is_call(y, ("end", "cend"), m):
                    return self.setkey(d, "absent" if val else "present")
                if is_call(x, ("count",), m) and x.a[3] is P0 and consts(y) in (0, 1):
                    return self.setkey(d, "present" if val == (consts(y) == 1) else "absent")
                if is_call(x, ("erase",), m) and consts(y) in (0, 1):
                    pres = val == (consts(y) == 1)
                    d.pop("pend_erase", None)
                    if not pres:
                        d["ops"] = tuple(o for o in d["ops"] if o != "map-")
                        d["mut"] = bool(d["ops"])
                    d["key"] = "present" if pres else "absent"
                    return frozenset(d.items())
                if self.index_of_key(x) and self.last_index(y, d):
                    d["is_last"] = val
                    return frozenset(d.items())
                if x in sh.others and (self.msize(y) or self.new_index(y, d)):
                    d["full"] = val
                    return frozenset(d.items())
                if is_call(x, ("size",), sh.seq) and sh.kind == "tree" and self.msize(y):
                    d["full"] = val
                    return frozenset(d.items())
                if x is P1 and consts(y) == 0:
                    d["zero"] = val
                    if val:
                        d["nonneg"] = True
                        d["notnan"] = True
                    return frozenset(d.items())
        elif atom.k == "lt":
            x, y = atom.a
            if x is P1 and consts(y) == 0:
                d["nonneg"] = not val
                return frozenset(d.items())
            if y in sh.others and self.msize(x) and self.op == "Insert":
                d["full"] = not val
                return frozenset(d.items())
            if self.op == "Clear" and sh.kind == "tree":
                if (self.msize(y) or is_call(y, ("size",), sh.seq) or y in sh.others) and (consts(x) == 0 or x.k == "phi"):
                    if "map0" in d.get("ops", ()) and self.msize(y):
                        self.bad("C", "late", line if isinstance(line, str) else fn.where(line), "clears the weights of as many nodes as there are keys after the keys were cleared", st)
                    d["range"] = x if val else None
                    if not val:
                        d["cleared"] = True
                    elif d.get("it") is not None and not (d.get("sum") and d.get("value")):
                        self.bad("C", "weights", fn.where(line), "does not reset both the weight and the sum of every node", st)
                    if val:
                        d["it"] = True
                        d.pop("sum", None)
                        d.pop("value", None)
                    elif d.get("it") and not (d.get("sum") and d.get("value")):
                        self.bad("C", "weights", fn.where(line), "does not reset both the weight and the sum of every node", st)
                    return frozenset(d.items())
        else:
            for x in atom.toks:
                if is_call(x, ("isnan", "__builtin_isnan")) and x.a[3] is P1 and atom.a[0] is x:
                    d["notnan"] = not val
                    return frozenset(d.items())
                if is_call(x, ("contains", "count"), m) and x.a[3] is P0 and atom.k in ("nz", "b", "t") and atom.a[0] is x:
                    return self.setkey(d, "present" if val else "absent")
                if is_call(x, ("erase",), m) and atom.k == "nz" and atom.a[0] is x:
                    d.pop("pend_erase", None)
                    if not val:
                        d["ops"] = tuple(o for o in d["ops"] if o != "map-")
                        d["mut"] = bool(d["ops"])
                    d["key"] = "present" if val else "absent"
                    return frozenset(d.items())
            x = atom.a[0] if atom.a and isinstance(atom.a[0], S) else None
            if x is not None and d.get("pend") and x.k == "m" and x.a[1].endswith("second") and is_call(x.a[0], ADDERS, m):
                d.pop("pend")
                if val:
                    self.mutate(d, "map+")
                    d["key"] = "present"
                    d["was"] = "absent"
                else:
                    d["key"] = d["was"] = "present"
                return frozenset(d.items())
        return st.auto

    def setkey(self, d, v):
        old = d.get("was")
        if "map+" in d.get("ops", ()) or "map-" in d.get("ops", ()):
            return frozenset(d.items())
        if old is not None and old != v:
            return DEAD
        d["key"] = d["was"] = v
        return frozenset(d.items())

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        ops = d.get("ops", ())
        sh, op = self.sh, self.op
        where = self.fn.where()
        if d.get("cap") == "changed":
            self.bad("A", "capacity2", where, "changes the capacity without resizing the sum tree", st)
        if op == "Clear":
            if "map0" not in ops:
                self.bad("C", "map", where, "does not clear %s" % sh.map, st)
            if sh.kind == "tree":
                if "seq0" not in ops and not d.get("cleared"):
                    self.bad("C", "tree", where, "does not reset the weights of all keys", st)
                if "seq0" in ops and not d.get("cap_ok"):
                    self.bad("C", "tree-size", where, "empties the sum tree without giving it its capacity back", st)
            elif "seq0" not in ops:
                self.bad("C", "seq", where, "does not clear %s" % sh.seq, st)
            return
        ok = status_ok_on_exit(self.eng, st, ret)
        if d.get("pend"):
            if ok is False:
                self.bad("B", "unchecked", where, "returns an error without knowing whether the key was inserted", st)
            else:
                self.bad("B", "unchecked", where, "reports success without checking whether the key was already present", st)
            return
        if ok is None:
            if not ops and not d.get("was"):
                return     # status of a validation helper
            self.bad("B", "status", where, "returns a status that is unrelated to what was done", st)
            return
        if ok is False:
            if ops:
                self.bad("B", "changed", where, "has changed the selector (%s) on a path that reports an error" % ", ".join(ops), st)
            want = "present" if op == "Insert" else "absent"
            w = d.get("was") or d.get("key")
            if w is not None and w != want and not any(contains(a, P1) for a in st.facts):
                self.bad("B", "refused", where, "reports an error although the key is %s" % w, st)
            return
        w = d.get("was") or d.get("key")
        want = "absent" if op == "Insert" else "present"
        if w != want:
            self.bad("B", "accepted", where, "reports success although the key %s" % ("may be present already" if op == "Insert" else "may not be present"), st)
            return
        if sh.kind == "tree" and op != "Delete":
            if d.get("nonneg") is not True:
                self.bad("B", "negative", where, "accepts a negative priority", st)
            if d.get("notnan") is not True:
                self.bad("B", "nan", where, "accepts a priority that is not a number", st)
        n = lambda o: sum(1 for x in ops if x == o)
        odd = [o for o in ops if "?" in o or o.endswith("0")]
        if odd:
            self.bad("A", "unknown", where, "changes a container in an unexpected way (%s)" % ", ".join(odd), st)
        if op == "Insert":
            if n("map+") != 1 or n("map-") or n("seq-"):
                self.bad("A", "map", where, "does not add the key to %s exactly once" % sh.map, st)
            if sh.kind != "tree" and n("seq+") != 1:
                self.bad("A", "seq", where, "does not add the key to %s exactly once" % sh.seq, st)
            if d.get("val") == "default":
                self.bad("A", "value", where, "leaves the entry of the key empty", st)
            if sh.kind == "tree" and not (d.get("slotkey") and d.get("weight")):
                self.bad("A", "tree", where, "does not store the key and its weight in the sum tree", st)
        elif op == "Delete":
            if n("map-") != 1 or n("map+"):
                self.bad("A", "map", where, "does not remove the key from %s exactly once" % sh.map, st)
            if sh.kind != "tree" and (n("seq-") != 1 or n("seq+")):
                self.bad("A", "seq", where, "does not remove the key from %s exactly once" % sh.seq, st)
            if sh.kind == "vector" and d.get("is_last") is not True and not (d.get("moved") and d.get("reidx")):
                self.bad("A", "move", where, "does not move the last key and its index into the freed slot", st)
            if sh.kind == "tree":
                if not d.get("zeroed"):
                    self.bad("A", "weight", where, "keeps the weight of the freed node in the sum tree", st)
                if d.get("is_last") is not True and not (d.get("movedval") and d.get("movedkey") and d.get("reidx")):
                    self.bad("A", "move", where, "does not move the key, weight and index of the last node into the freed one", st)
        else:
            if n("map+") or n("map-") or n("seq+") or n("seq-"):
                self.bad("A", "membership", where, "changes which keys are stored", st)
            if sh.kind == "tree" and not d.get("weight"):
                self.bad("A", "weight", where, "reports success without storing the new weight", st)
            if sh.kind == "heap":
                if not (d.get("prio") and d.get("adjusted")):
                    self.bad("A", "priority", where, "reports success without storing the new priority and re-ordering the heap", st)
                if not d.get("stamp"):
                    self.bad("E", "tie", where, "does not stamp the node with the update count used to break ties", st)


# ------------------------------------------------------------------ sampling

def result_parts(ret):
    if ret.k in ("init", "ctor", "obj"):
        xs = [x for x in ret.a if isinstance(x, S)]
        if len(xs) >= 2:
            return xs[-2], xs[-1]
    return None


class SampleAuto(Auto):
    def __init__(self, ctx, sh, fn):
        self.ctx, self.sh, self.fn = ctx, sh, fn

    def bad(self, key, msg, st):
        self.ctx.violation("E", "%s/%s" % (self.fn.name, key), self.fn.where(), "%s: %s" % (self.fn.name, msg), trace_of(st))

    def event(self, st, ev):
        if ev.k == "call" and ev.recv is not None and (ev.recv is self.sh.map or ev.recv is self.sh.seq) and last(ev.fn) not in READERS:
            self.bad("mutates", "changes %s while sampling" % ev.recv, st)
        if ev.k == "asg" and ev.l is not None and (under(ev.l, self.sh.map) or under(ev.l, self.sh.seq)):
            self.bad("mutates", "changes %s while sampling" % ev.l, st)
        return st.auto

    def exit(self, st, ret, ev):
        sh = self.sh
        p = result_parts(ret)
        if p is None:
            self.bad("result", "returns %s instead of a key with its probability" % ret, st)
            return
        key, prob = p
        self.ctx.instance("E", "%s -> (%s, %s)" % (self.fn.name, key, prob))
        def strip1(s):
            while s.k == "cast" and isinstance(s.a[-1], S):
                s = s.a[-1]
            return s
        if sh.kind == "list":
            ends = {e for e, _ in self.ctx.ends.get(sh.cname, ())}
            got = "front" if is_call(key, ("front",), sh.seq) or any(is_call(x, ("begin", "cbegin"), sh.seq) for x in key.toks) else "back" if is_call(key, ("back",), sh.seq) or any(is_call(x, ("end", "rbegin", "cend"), sh.seq) for x in key.toks) else None
            if got is None:
                self.bad("key", "returns %s, which is not an end of %s" % (key, sh.seq), st)
            want_same = "Lifo" in sh.cname
            if got and len(ends) == 1 and next(iter(ends)) in ("front", "back"):
                same = got in ends
                if same != want_same and ("Fifo" in sh.cname or "Lifo" in sh.cname):
                    self.bad("end", "samples the %s key" % ("newest" if same else "oldest"), st)
            if consts(prob) != 1:
                self.bad("probability", "reports probability %s for a deterministic choice" % prob, st)
        elif sh.kind == "heap":
            if not (key.k == "m" and key.a[1].endswith("::key") and any(is_call(x, ("top",), sh.seq) for x in key.toks)):
                self.bad("key", "returns %s, which is not the key at the top of the heap" % key, st)
            if consts(prob) != 1:
                self.bad("probability", "reports probability %s for a deterministic choice" % prob, st)
        elif sh.kind == "vector":
            i = key.a[1] if key.k == "idx" and key.a[0] is sh.seq else None
            i = strip1(i) if i is not None else None
            sz = lambda s: is_call(strip1(s), ("size",), sh.seq) or is_call(strip1(s), ("size",), sh.map)
            if i is None or not (is_call(i, ("Uniform",)) and consts(i.a[-2]) == 0 and sz(i.a[-1])):
                self.bad("key", "returns %s, which is not a uniform choice among all keys" % key, st)
            elif len(i.a) > 5 and isinstance(i.a[3], S) and "Closed" in str(i.a[3]):
                self.bad("key", "may choose an index beyond the last key", st)
            if not (prob.k == "op" and prob.a[0] == "/" and consts(prob.a[1]) == 1 and sz(prob.a[2])):
                self.bad("probability", "reports probability %s for a uniform choice among all keys" % prob, st)
        else:
            i = key.a[0].a[1] if key.k == "m" and key.a[1].endswith("::key") and key.a[0].k == "idx" and key.a[0].a[0] is sh.seq else None
            if i is None:
                self.bad("key", "returns %s, which is not a key stored in the sum tree" % key, st)
                return
            total = [x for x in prob.toks if x.k == "m" and x.a[1].endswith("::sum") and x.a[0].k == "idx" and consts(x.a[0].a[1]) == 0]
            if total:
                w = prob.a[1] if prob.k == "op" and prob.a[0] == "/" and prob.a[2] is total[0] else None
                if w is None or not (w.k == "m" and w.a[1].endswith("::value") and w.a[0].k == "idx" and w.a[0].a[1] is i):
                    self.bad("probability", "reports %s, not the weight of the returned key over the total weight" % prob, st)
                # the chosen index was compared against the number of keys
                if not any(a.k == "lt" and a.a[0] is i and is_call(a.a[1], ("size",)) and v for a, v in st.facts.items()) and i.k != "phi":
                    pass
            else:
                zero = any(a.k == "eq" and v and any(consts(x) == 0 for x in a.a) and any(x.k == "m" and x.a[1].endswith("::sum") for x in a.a) for a, v in st.facts.items())
                if not zero:
                    self.bad("fallback", "ignores the weights although some are positive", st)
                if not (prob.k == "op" and prob.a[0] == "/" and consts(prob.a[1]) == 1 and is_call(strip1(prob.a[2]), ("size",), sh.map)):
                    self.bad("probability", "reports probability %s for a uniform choice among all keys" % prob, st)
                j = strip1(i)
                if not (j.k == "op" and j.a[0] == "*" and any(is_call(strip1(x), ("size",), sh.map) for x in j.a[1:]) and any(is_call(x, ("Uniform",)) for x in j.a[1:])):
                    self.bad("key", "returns %s, which is not a uniform choice among all keys" % key, st)


# ------------------------------------------------------------------ sum tree

class SetNodeAuto(Auto):
    """SetNode: the weight is stored, its difference is added to the node and
    to every ancestor up to the root, otherwise the whole tree is recomputed"""

    def __init__(self, ctx, sh, fn):
        self.ctx, self.sh, self.fn = ctx, sh, fn

    def bad(self, key, where, msg, st):
        self.ctx.violation("D", "%s/%s" % (self.fn.name, key), where, "%s: %s" % (self.fn.name, msg), trace_of(st))

    def diff(self, s):
        # value - NodeValue(index)
        return s is not None and s.k == "op" and s.a[0] == "-" and s.a[1] is P1 and s.a[2].k == "m" and s.a[2].a[1].endswith("::value") and s.a[2].a[0].k == "idx" and s.a[2].a[0].a[1] is P0

    def parent(self, child, s):
        return s.k == "op" and s.a[0] in ("/", ">>") and consts(s.a[2]) == (2 if s.a[0] == "/" else 1) and s.a[1].k == "op" and s.a[1].a[0] == "-" and s.a[1].a[1] is child and consts(s.a[1].a[2]) == 1

    def event(self, st, ev):
        d = dict(st.auto)
        if ev.k == "call" and last(ev.fn) == "ReinitializeSumTree":
            if not d.get("value"):
                self.bad("order", ev.where(), "recomputes the sums before the weight is stored", st)
            d["reinit"] = True
            return frozenset(d.items())
        if ev.k == "asg" and ev.l is not None and ev.l.k == "m" and under(ev.l, self.sh.seq):
            fld = ev.l.a[1].rsplit("::", 1)[-1]
            i = ev.l.a[0].a[1] if ev.l.a[0].k == "idx" else None
            if fld == "value":
                if i is not P0 or ev.r is not P1:
                    self.bad("value", ev.where(), "stores %s as the weight of node %s" % (ev.r, i), st)
                d["value"] = True
            elif fld == "sum":
                if ev.op == "=" and consts(ev.r) == 0:
                    return st.auto     # rounding guard, checked by the branch before it
                dd = ev.r if ev.op == "+=" else None
                if ev.op == "=" and ev.r is not None and ev.r.k == "op" and ev.r.a[0] == "+" and ev.l in ev.r.a:
                    dd = [x for x in ev.r.a[1:] if x is not ev.l]
                    dd = dd[0] if dd else None
                if not self.diff(dd):
                    self.bad("difference", ev.where(), "adds %s to a sum, which is not the change of the weight" % (ev.r,), st)
                cur = d.get("at")
                if cur is None:
                    if i is not P0:
                        self.bad("start", ev.where(), "starts updating sums at node %s" % i, st)
                elif not self.parent(cur, i) and not (i.k == "phi"):
                    self.bad("parent", ev.where(), "continues with node %s after node %s, which is not its parent" % (i, cur), st)
                elif i.k == "phi" and not d.get("step"):
                    self.bad("parent", ev.where(), "updates node %s again instead of its parent" % (cur,), st)
                d["at"] = i
                d["step"] = False
            return frozenset(d.items())
        if ev.k == "asg" and ev.l is not None and ev.l.k == "v" and d.get("at") is not None and ev.val is not None:
            r = ev.r if ev.r is not None else ev.val
            if self.parent(d["at"], r):
                d["step"] = True
                return frozenset(d.items())
        if ev.k == "decl" and d.get("value") and self.diff(ev.val):
            self.bad("late", ev.where(), "computes the change of the weight after the new weight was stored", st)
            return st.auto
        if ev.k == "decl" and d.get("at") is not None and ev.val is not None and self.parent(d["at"], ev.val):
            d["step"] = True
            return frozenset(d.items())
        return st.auto

    def branch(self, st, atom, val, line, fn):
        d = dict(st.auto)
        if atom.k == "eq" and any(consts(x) == 0 for x in atom.a) and d.get("at") is not None and d["at"] in atom.a:
            d["root"] = val
            return frozenset(d.items())
        if atom.k == "nz" and d.get("at") is atom.a[0]:
            d["root"] = not val
            return frozenset(d.items())
        if atom.k == "lt" and d.get("at") in atom.a and any(consts(x) == 0 for x in atom.a) and atom.a[1] is d.get("at"):
            d["root"] = not val
            return frozenset(d.items())
        return st.auto

    def init(self):
        return frozenset()

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        if d.get("reinit"):
            return
        if not d.get("value"):
            self.bad("value", self.fn.where(), "returns without storing the weight", st)
        if d.get("at") is None:
            self.bad("sum", self.fn.where(), "returns without updating the sums", st)
        elif d.get("root") is not True:
            self.bad("root", self.fn.where(), "stops updating sums before the root although the tree is not recomputed", st)


class Reinit(Auto):
    def __init__(self, ctx, sh, fn):
        self.ctx, self.sh, self.fn = ctx, sh, fn

    def init(self):
        return frozenset()

    def bad(self, key, where, msg, st):
        self.ctx.violation("D", "%s/%s" % (self.fn.name, key), where, "%s: %s" % (self.fn.name, msg), trace_of(st))

    def child(self, s, i, k):
        """s is index 2*i+k"""
        from engine.poly import poly
        try:
            a, b = poly(s), poly(mk("op", "+", mk("op", "*", mk("lit", "2"), i), mk("lit", str(k))))
        except Exception:
            return False
        return a == b

    def event(self, st, ev):
        if ev.k == "asg" and ev.l is not None and ev.l.k == "m" and under(ev.l, self.sh.seq) and ev.l.a[1].endswith("::sum"):
            i = ev.l.a[0].a[1]
            self.ctx.instance("D", "%s writes %s" % (self.fn.name, ev.l))
            terms = []

            def flat(s):
                if s.k == "op" and s.a[0] == "+" and len(s.a) == 3:
                    flat(s.a[1])
                    flat(s.a[2])
                else:
                    terms.append(s)
            if ev.op == "+=":
                self.bad("accumulate", ev.where(), "accumulates onto the old sum", st)
            flat(ev.r)
            own = [t for t in terms if t.k == "m" and t.a[1].endswith("::value") and t.a[0].a[1] is i]
            kids = [t for t in terms if t.k == "call" and last(t.a[0]) == "NodeSum"]
            rest = [t for t in terms if t not in own and t not in kids]
            if len(own) != 1 or rest or len(kids) != 2:
                self.bad("terms", ev.where(), "recomputes a sum as %s" % ev.r, st)
            else:
                idx = [t.a[3] for t in kids]
                if not ((self.child(idx[0], i, 1) and self.child(idx[1], i, 2)) or (self.child(idx[0], i, 2) and self.child(idx[1], i, 1))):
                    self.bad("children", ev.where(), "recomputes a sum from nodes that are not its two children", st)
            return frozenset(set(st.auto) | {"w"})
        if ev.k == "asg" and ev.l is not None and ev.l.k == "v" and ev.op in ("++", "+="):
            self.bad("order", ev.where(), "recomputes parents before their children", st)
        return st.auto


def run(ctx):
    ctx.rule("A", "a successful insert, delete or update changes every internal container for exactly that key and consistently (key, position, weight, node)")
    ctx.rule("B", "insert succeeds only for an absent key, delete and update only for a present one (the prioritized selector only with a non-negative number as priority), and an operation that reports an error has changed nothing")
    ctx.rule("C", "Clear empties every container and resets every weight")
    ctx.rule("D", "sums and weights of the sum tree are only written by SetNode, which propagates the change up to the root or recomputes the whole tree, by the recomputation itself, and by Clear")
    ctx.rule("E", "Sample returns a stored key without changing anything - the oldest (FIFO), the newest (LIFO), the top of the heap, a uniform choice, or a node of the sum tree - together with its probability")
    ctx.rule("H", "the intrusive heap records the position of every element it moves and keeps the heap order")
    prog = ctx.program("selectors/fifo.cc", "selectors/lifo.cc", "selectors/uniform.cc", "selectors/heap.cc", "selectors/prioritized.cc")
    ctx.ends = {}
    subs = sorted(set(c for c in prog.classes if "ItemSelector" in prog.classes[c].get("bases", [])))
    if len(subs) < 5:
        raise AnalysisBroken("only %d selectors found" % len(subs))

    for c in subs:
        sh = Shape(prog, c)
        for op in ("Insert", "Delete", "Update", "Clear"):
            g = prog.fn(c + "::" + op)
            a = Op(ctx, sh, g, op)
            e = Engine(prog, g, a, inline=lambda h, ev: last(h.name) not in PRIMS or h.name in (c + "::" + o for o in ("Insert", "Delete", "Update")))
            a.eng = e
            ctx.engine(e)
            for r in ("A", "B") if op != "Clear" else ("C",):
                ctx.instance(r, g.name)
        g = prog.fn(c + "::Sample")
        a = SampleAuto(ctx, sh, g)
        e = Engine(prog, g, a, inline=lambda h, ev: last(h.name) not in ("top", "NodeSum"))
        ctx.engine(e)
        if sh.kind == "tree":
            tree(ctx, prog, sh)
        if sh.kind == "heap":
            heap(ctx, prog, sh)


def tree(ctx, prog, sh):
    g = prog.fn(sh.cname + "::SetNode")
    # local variables that only feed the error estimate are widened at once
    a = SetNodeAuto(ctx, sh, g)
    e = Engine(prog, g, a, inline=lambda h, ev: last(h.name) not in ("ReinitializeSumTree", "NodeSum", "abs", "fabs"))
    a.eng = e
    ctx.engine(e)
    ctx.instance("D", g.name)
    g = prog.fn(sh.cname + "::ReinitializeSumTree")
    e = Engine(prog, g, Reinit(ctx, sh, g), inline=lambda h, ev: last(h.name) != "NodeSum")
    ctx.engine(e)
    # NodeSum(i): the stored sum below the number of keys, else 0
    g = prog.fn(sh.cname + "::NodeSum")
    c = Collect()
    e = Engine(prog, g, c)
    ctx.engine(e)
    ctx.instance("D", g.name)
    for facts, ret, st in c.out:
        inb = None
        for at, v in facts.items():
            if at.k == "lt" and at.a[0] is P0 and is_call(at.a[1], ("size",), sh.map):
                inb = v
            if at.k == "lt" and at.a[1] is P0 and is_call(at.a[0], ("size",), sh.map) and v:
                inb = False
        s = ret.k == "m" and ret.a[1].endswith("::sum") and ret.a[0].k == "idx" and ret.a[0].a[1] is P0
        if s and inb is not True:
            ctx.violation("D", g.name + "/bounds", g.where(), "NodeSum reads a node that does not exist", trace_of(st))
        if not s and not (consts(ret) == 0 and inb is False):
            ctx.violation("D", g.name + "/value", g.where(), "NodeSum returns %s for an existing node" % ret, trace_of(st))
    # nobody else writes sums or weights
    for h in prog.fns.values():
        if not h.name.startswith(sh.cname + "::") or last(h.name) in ("SetNode", "ReinitializeSumTree", "Clear"):
            continue
        for ev in h.events():
            if ev.get("k") == "asg":
                fl = [x for x in _mfields(ev.get("l"))]
                if fl and fl[0].rsplit("::", 1)[-1] in ("sum", "value") and fl[0].startswith(sh.cname + "::Node"):
                    ctx.violation("D", h.name + "/direct", h.where(ev.get("line")), "%s writes a weight or sum directly" % h.name)


def _mfields(t):
    out = []
    while isinstance(t, (list, tuple)) and t:
        if t[0] == "m":
            out.append(t[2])
            t = t[1]
        elif t[0] in ("d", "a", "mv", "cast"):
            t = t[-1] if t[0] == "cast" else t[1]
        else:
            break
    return out


# ------------------------------------------------------------------ the heap

def _leaves(t):
    if isinstance(t, (list, tuple)) and t:
        if t[0] == "v" and len(t) == 2:
            yield t
        else:
            for x in t:
                yield from _leaves(x)


class HeapOp(Auto):
    """every slot that is written gets its element's position recorded, in any
    order, before the function returns; slot[h] = slot[k] only under the
    comparison that the heap order requires"""

    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn
        # the variables that name the slot being written
        self.slots = {t[1] for ev in fn.events() if ev.get("k") == "asg" for t in _leaves(ev.get("l")) if ev["l"][0] != "v"}

    def init(self):
        return frozenset()

    def bad(self, key, where, msg, st):
        self.ctx.violation("H", "%s/%s" % (self.fn.name, key), where, "%s: %s" % (self.fn.name, msg), trace_of(st))

    # ---- slots relative to another slot: the values an index expression
    # takes for h = 1..9; None when it is not an expression of h alone

    def sig(self, d, x, h, n=0):
        if x is h:
            return tuple(range(1, 10))
        c = consts(x)
        if c is not None:
            return (int(c),) * 9
        if n > 12:
            return None
        if ("def", x) in d:
            return self.sig(d, d[("def", x)], h, n + 1)
        if x.k == "cast":
            return self.sig(d, x.a[-1], h, n + 1)
        if x.k == "op" and len(x.a) == 3:
            a, b = self.sig(d, x.a[1], h, n + 1), self.sig(d, x.a[2], h, n + 1)
            f = {"+": lambda u, v: u + v, "-": lambda u, v: u - v, "*": lambda u, v: u * v, "/": lambda u, v: u // v if v else -1,
                 ">>": lambda u, v: u >> v, "<<": lambda u, v: u << v, "|": lambda u, v: u | v}.get(x.a[0])
            if a is not None and b is not None and f is not None:
                return tuple(f(u, v) for u, v in zip(a, b))
        return None

    def expand(self, d, x):
        """the expression with local variables replaced by what they hold"""
        for _ in range(8):
            if ("def", x) in d:
                x = d[("def", x)]
        if x.k == "op":
            return mk("op", x.a[0], *[self.expand(d, y) if isinstance(y, S) else y for y in x.a[1:]])
        return x

    PARENT = tuple((h - 1) // 2 for h in range(1, 10))
    LEFT = tuple(2 * h + 1 for h in range(1, 10))
    RIGHT = tuple(2 * h + 2 for h in range(1, 10))

    def compares(self, st, d, h):
        """what the path knows: {(x, y): bool} with x, y one of "t" or the
        signature of a slot; bounds {signature: index < size}; h is zero"""
        cmp, bnd, zero = {}, {}, None
        for a, v in st.facts.items():
            if a.k == "nz" and a.a[0].k == "call" and last(a.a[0].a[0]) == "operator()" and len(a.a[0].a) > 4:
                k = []
                for x in a.a[0].a[3:5]:
                    sl = self.slot(x)
                    if sl is not None and h.k == "phi" and sl.k in ("op", "call") and not any(y.k in ("phi", "v") for y in sl.toks):
                        k.append("elsewhere")     # relative to where the element was at first
                        continue
                    k.append(x if sl is None else "h" if sl is h else self.sig(d, sl, h))
                cmp[tuple(k)] = v
            if a.k == "lt" and is_call(a.a[1], ("size",)):
                bnd[self.sig(d, a.a[0], h)] = v
            if a.k == "lt" and is_call(a.a[0], ("size",)) and v:
                bnd[self.sig(d, a.a[1], h)] = False
            if a.k == "eq" and is_call(a.a[0], ("size",)) != is_call(a.a[1], ("size",)) and v:
                bnd[self.sig(d, a.a[1] if is_call(a.a[0], ("size",)) else a.a[0], h)] = False
            if a.k == "eq" and h in a.a and any(consts(x) == 0 for x in a.a):
                zero = v
            if a.k == "nz" and a.a[0] is h:
                zero = not v
            if a.k == "lt" and a.a[1] is h and consts(a.a[0]) == 0:
                zero = not v
            if a.k == "lt" and a.a[0] is h and consts(a.a[1]) == 1:
                zero = v
        return cmp, bnd, zero

    def slot(self, s):
        return s.a[1] if s is not None and s.k == "idx" and s.a[0].k == "m" and s.a[0].a[1].endswith("::heap_") else None

    def event(self, st, ev):
        d = dict(st.auto)
        n = last(ev.fn) if ev.fn else ""
        if ev.k == "asg" and ev.l is not None and self.slot(ev.l) is not None:
            h = self.slot(ev.l)
            if any(k[0] == "need" for k in d):
                pass
            d[("need", h)] = ev.r
            k = self.slot(ev.r) if ev.r is not None else None
            self.ctx.instance("H", "%s writes a slot" % self.fn.name)
            if last(self.fn.name) in ("FixHeapUp", "FixHeapDown"):
                if k is not None:
                    self.order(st, ev, d, h, k)
                elif ev.r is P0:
                    self.placed(st, ev, d, h)
            return frozenset(d.items())
        if ev.k in ("decl", "asg") and last(self.fn.name) in ("FixHeapUp", "FixHeapDown"):
            var = ev.raw.get("var") if ev.k == "decl" else ev.l.a[0] if ev.l is not None and ev.l.k == "v" else None
            if var is None:
                return st.auto
            nv = ev.val
            if nv is None:
                return st.auto
            src = None
            if ev.k == "decl":
                if self.opaque(ev.fid, ev.f if ev.f is not None else self.fn, var, nv):
                    src, nv = self.expand(d, nv), mk("phi", var, ev.fid)
            elif nv.k == "phi":
                if ev.op in ("++", "+=") and d.get(("val", var)) is not None:
                    src = self.expand(d, mk("op", "+", d[("val", var)], ev.r if ev.op == "+=" and ev.r is not None else mk("lit", "1")))
                elif ev.op == "=":
                    src = self.expand(d, ev.r)
            for k in list(d):
                if k[0] == "def" and (k[1] is nv or nv in d[k].toks):
                    del d[k]
            if src is not None and nv not in src.toks and var not in self.slots:
                d[("def", nv)] = src
            d[("val", var)] = nv
            return frozenset(d.items())
        if ev.k == "call" and n == "SetPositionOf":
            t, pos = ev.args
            for k in list(d):
                if k[0] == "need" and k[1] is pos and (t is d[k] or (t.k == "idx" and self.slot(t) is pos)):
                    del d[k]
            if self.fn.name.endswith("Remove") and t is P0:
                if not (pos.k in ("g", "enum", "lit", "m") and "kNotMember" in str(pos)) and consts(pos) is None:
                    self.bad("member", ev.where(), "does not mark the removed element as not being in the heap", st)
                d["unlinked"] = True
            if self.fn.name.endswith("Push") and t is P0:
                if not is_call(pos, ("size",)) or d.get("pushed"):
                    self.bad("position", ev.where(), "records a wrong position for the added element", st)
                d["linked"] = True
            return frozenset(d.items())
        if ev.k == "call" and n in ("push_back", "emplace_back") and ev.recv.k == "m" and ev.recv.a[1].endswith("::heap_"):
            if not (ev.args and ev.args[0] is P0):
                self.bad("element", ev.where(), "adds a different element", st)
            d["pushed"] = True
            return frozenset(d.items())
        if ev.k == "call" and n == "pop_back":
            d["popped"] = d.get("popped", 0) + 1
            return frozenset(d.items())
        if ev.k == "call" and n in ("FixHeapUp", "FixHeapDown", "Adjust"):
            self.direction(st, ev, d, n)
            if any(k[0] == "need" for k in d):
                self.bad("stale", ev.where(), "re-orders the heap before the position of a moved element is recorded", st)
            if self.fn.name.endswith("Remove") and not d.get("popped"):
                self.bad("stale", ev.where(), "re-orders the heap while the removed element's slot is still part of it", st)
            return frozenset(d.items())
        return st.auto

    def order(self, st, ev, d, h, k):
        up = self.fn.name.endswith("Up")
        ks = self.sig(d, k, h)
        if ks is not None and (ks != self.PARENT if up else ks not in (self.LEFT, self.RIGHT)):
            self.bad("slot", ev.where(), "moves an element between slots that are not parent and child", st)
        if not up and ks in (self.LEFT, self.RIGHT):
            c2, bnd, _ = self.compares(st, d, h)
            other = self.RIGHT if ks == self.LEFT else self.LEFT
            first = c2.get((ks, other)) is True or c2.get((other, ks)) is False
            if not first and not (ks == self.LEFT and bnd.get(self.RIGHT) is False):
                self.bad("sibling", ev.where(), "moves a child up whose sibling may be ordered before it", st)
        cmp = {}
        for a, v in st.facts.items():
            if a.k == "nz" and a.a[0].k == "call" and last(a.a[0].a[0]) == "operator()":
                x, y = a.a[0].a[3], a.a[0].a[4]
                cmp[(self.slot(x) if self.slot(x) is not None else x, self.slot(y) if self.slot(y) is not None else y)] = v
        if up:
            if cmp.get((k, P0)) is not False and cmp.get((P0, k)) is not True:
                self.bad("order", ev.where(), "moves a parent down although it is ordered before the element", st)
        else:
            if cmp.get((P0, k)) is not False and cmp.get((k, P0)) is not True:
                self.bad("order", ev.where(), "moves a child up although the element is ordered before it", st)

    def placed(self, st, ev, d, h):
        """the element is put into slot h: nothing is left to be exchanged"""
        cmp, bnd, zero = self.compares(st, d, h)
        if any(None in k for k in cmp):
            return      # a comparison with a slot the analysis cannot name
        self.ctx.instance("H", "%s settles at %s" % (self.fn.name, ev.where()))
        if self.fn.name.endswith("Up"):
            if zero is not True and cmp.get((self.PARENT, P0)) is not True and cmp.get((P0, self.PARENT)) is not False:
                self.bad("early", ev.where(), "stops although the parent may be ordered after the element", st)
            return
        if bnd.get(self.LEFT) is False:
            return
        for k in (self.LEFT, self.RIGHT):
            other = self.RIGHT if k == self.LEFT else self.LEFT
            if cmp.get((P0, k)) is True or cmp.get((k, P0)) is False:
                if cmp.get((k, other)) is True or cmp.get((other, k)) is False or (k == self.LEFT and bnd.get(self.RIGHT) is False):
                    return
                if cmp.get((P0, other)) is True or cmp.get((other, P0)) is False:
                    return
        self.bad("early", ev.where(), "stops although a child may be ordered before the element", st)

    def direction(self, st, ev, d, n):
        """Adjust goes both ways; one direction is enough only where the
        comparison with the parent rules the other one out"""
        if last(self.fn.name) == "Push":
            if n in ("FixHeapUp", "Adjust"):
                d["fixed"] = True
            return
        if n == "Adjust":
            d["fixed"] = True
            return
        d["up" if n == "FixHeapUp" else "down"] = True
        if d.get("up") and d.get("down"):
            d["fixed"] = True
        hs = set()
        for a, v in st.facts.items():
            for x in list(a.toks) + list(a.a):
                if isinstance(x, S) and (is_call(x, ("GetPositionOf",)) or x.k in ("phi", "v")):
                    hs.add(x)
        for h in hs:
            cmp, bnd, zero = self.compares(st, d, h)
            ts = [y for k in cmp for y in k if isinstance(y, S) or y == "h"]
            for y in ts:
                c = cmp.get((y, self.PARENT))
                if c is None and cmp.get((self.PARENT, y)) is not None:
                    c = not cmp[(self.PARENT, y)]
                if c is (n == "FixHeapUp"):
                    d["fixed"] = True
            if zero is True and n == "FixHeapDown":
                d["fixed"] = True

    def opaque(self, fid, fn, var, val):
        return "::Fix" in fn.name and val.k == "op" and var in self.slots

    def branch(self, st, atom, val, line, fn):
        if atom.k == "eq" and any(is_call(x, ("size",)) for y in atom.a for x in y.toks) and any(is_call(x, ("GetPositionOf",)) for x in atom.a):
            return frozenset(set(st.auto) | {("lastslot", val)})
        return st.auto

    def exit(self, st, ret, ev):
        d = dict(st.auto)
        for k in d:
            if k[0] == "need":
                self.bad("unrecorded", self.fn.where(), "moves an element to slot %s without recording its new position" % k[1], st)
        n = last(self.fn.name)
        if n == "Push" and not (d.get("pushed") and d.get("linked") and d.get("fixed")):
            self.bad("push", self.fn.where(), "returns without adding, linking and ordering the element", st)
        if n == "Adjust" and not d.get("fixed"):
            self.bad("adjust", self.fn.where(), "does not move an element in the direction in which it is out of order", st)
        if n == "Remove":
            if d.get("popped") != 1 or not d.get("unlinked"):
                self.bad("remove", self.fn.where(), "returns without removing exactly one slot and unlinking the element", st)
            if not d.get("fixed"):
                if not d.get("lastslot"):
                    self.bad("unordered", self.fn.where(), "moves the last element into the freed slot without restoring the order in both directions", st)


def heap(ctx, prog, sh):
    fns = {last(h.name): h for h in prog.fns.values() if h.name.startswith("IntrusiveHeap::")}
    keep = ("SetPositionOf", "GetPositionOf", "FixHeapUp", "FixHeapDown", "Adjust", "Contains", "operator()")
    for n in ("Push", "Remove", "Adjust", "FixHeapUp", "FixHeapDown"):
        g = fns.get(n)
        if g is None:
            raise AnalysisBroken("IntrusiveHeap::%s not found" % n)
        a = HeapOp(ctx, g)
        e = Engine(prog, g, a, inline=lambda h, ev: last(h.name) not in keep)
        ctx.engine(e)
        ctx.instance("H", g.name)
    g = prog.fn(sh.cname + "::HeapNodeCompare::operator()")
    rows, e = bool_paths(prog, g)
    ctx.instance("H", g.name)
    pr = [mk("m", p, sh.cname + "::HeapNode::priority") for p in (P0, P1)]
    un = [mk("m", p, sh.cname + "::HeapNode::update_number") for p in (P0, P1)]
    for plt, peq, ult in ((True, False, None), (False, True, True), (False, True, False), (False, False, None)):
        want = plt or (peq and bool(ult))
        for facts, v in rows:
            okay = True
            for at, val in facts.items():
                if at.k == "lt" and at.a[0] is pr[0] and at.a[1] is pr[1]:
                    okay &= val == plt
                elif at.k == "lt" and at.a[0] is pr[1] and at.a[1] is pr[0]:
                    okay &= val == (not plt and not peq)
                elif at.k == "eq" and set(at.a) == set(pr):
                    okay &= val == peq
                elif at.k == "lt" and at.a[0] is un[0] and at.a[1] is un[1]:
                    okay &= ult is None or val == ult
                elif at.k == "lt" and at.a[0] is un[1] and at.a[1] is un[0]:
                    okay &= ult is None or val == (not ult)
            if okay and v != want:
                ctx.violation("H", g.name + "/order", g.where(), "the heap order is not (priority, update number): returns %s for priority %s%s" % (v, "smaller" if plt else "equal" if peq else "larger", "" if ult is None or not peq else ", update number " + ("smaller" if ult else "larger")), [])
