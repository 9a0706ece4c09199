"""Abstract interpretation of Table's operations as transactions on
data_ / sampler_ / remover_ / episode_refs_ / rate limiter / extensions.

Every public operation and the table worker are explored; each step on one of
these structures is attributed to an item key (canonical term).  When the table
lock is released, or the key's term is rebound (next loop iteration), the
effects recorded for the key have to form one of the allowed transactions.
Rules are reported per property through `want`.
"""
from engine.util import *
from engine.poly import canon_atom
import os

T = "Table::"
DATA, SAM, REM, EPI, RL, MU = (T + x for x in ("data_", "sampler_", "remover_", "episode_refs_", "rate_limiter_", "mu_"))
ITEMF = "TableItem::item"
CHUNKSF = "TableItem::chunks"
SI = "Table::SampledItem::"
SINK_FIELDS = ("ref", "probability", "table_size", "priority", "times_sampled", "rate_limited")
TUS = ("table.cc", "rate_limiter.cc")

_canon = {}


def canon(s):
    """rewrite references to the item stored under K to ITEM(K)"""
    if not isinstance(s, S):
        return s
    r = _canon.get(s)
    if r is not None:
        return r
    a = tuple(canon(x) for x in s.a)
    r = mk(s.k, *a) if a != s.a else s
    k = r.k
    if k == "m" and r.a[1] in ("std::pair::second", "std::pair::first"):
        K = None if is_emplace(r.a[0]) else iter_key(r.a[0])
        if K is not None:
            r = mk("ITEM", K) if r.a[1].endswith("second") else K
    elif k == "idx" and is_m(r.a[0], DATA):
        r = mk("ITEM", r.a[1])
    elif k == "call" and is_m(r.a[1], DATA) and last(r.a[0]) == "at":
        r = mk("ITEM", r.a[3])
    elif k == "call" and r.a[0] == "PrioritizedItem::key" and is_m(r.a[1], ITEMF) and r.a[1].a[0].k == "ITEM":
        r = r.a[1].a[0].a[0]
    elif k == "new" and len(r.a) == 3 and r.a[0] in ("std::shared_ptr", "TableItem", "Table::Item"):
        r = r.a[2]
    elif k == "ctor" and r.a[0] in ("TableItem", "std::shared_ptr") and len(r.a) == 3:
        r = r.a[2]
    elif k == "obj" and len(r.a) == 1:
        pass
    _canon[s] = r
    return r


def is_m(s, f):
    return isinstance(s, S) and s.k == "m" and s.a[1] == f


EMPLACE = ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint")


def is_emplace(s):
    return s.k == "call" and is_m(s.a[1], DATA) and last(s.a[0]) in EMPLACE


def iter_key(s):
    """key K when s is an iterator / entry of data_ for K"""
    if s.k == "call" and is_m(s.a[1], DATA) and last(s.a[0]) == "find" and len(s.a) > 3:
        return s.a[3]
    if s.k == "m" and s.a[1].endswith("::first"):
        s = s.a[0]
    if s.k == "call" and is_m(s.a[1], DATA) and last(s.a[0]) in EMPLACE:
        x = s.a[3]
        return x.a[0] if x.k == "pairv" else x
    return None


def epi_slot(l):
    """the episode whose reference count l is"""
    if l.k == "idx" and is_m(l.a[0], EPI):
        return l.a[1]
    if l.k == "m" and l.a[1] == "std::pair::second":
        r = l.a[0]
        if r.k == "m" and r.a[1] == "std::pair::first":
            r = r.a[0]
        if r.k == "call" and is_m(r.a[1], EPI):
            return emplace_arg(r, 0) if last(r.a[0]) in EMPLACE else r.a[3]
    return None


def emplace_arg(c, i):
    xs = [x for x in c.a[3:]]
    if xs and isinstance(xs[0], S) and xs[0].k in ("pairv", "init", "ctor") and (xs[0].k == "pairv" or "pair" in str(xs[0].a[0])):
        xs = [x for x in xs[0].a if isinstance(x, S)]
    return xs[i] if i < len(xs) else None


def key_of(obj):
    obj = canon(obj)
    if obj.k == "ITEM":
        return obj.a[0]
    return mk("call", "PrioritizedItem::key", mk("m", obj, ITEMF), None)


def prio_of(obj):
    return mk("call", "PrioritizedItem::priority", mk("m", canon(obj), ITEMF), None)


def times_of(K):
    return mk("call", "PrioritizedItem::times_sampled", mk("m", mk("ITEM", K), ITEMF), None)


def chunks_owner(s):
    """K when s (canonical) is the chunk vector of an item"""
    if is_m(s, CHUNKSF):
        return key_of(s.a[0])
    return None


def chunk_elem_owner(s):
    """K when s is one chunk of an item's chunk vector"""
    if s.k == "elem":
        return chunks_owner(s.a[0])
    if s.k == "idx":
        return chunks_owner(s.a[0])
    if s.k == "call" and last(s.a[0]) in ("at", "operator[]", "front", "back") and s.a[1] is not None:
        return chunks_owner(s.a[1])
    if s.k == "call" and last(s.a[0]) in ("begin", "cbegin") and s.a[1] is not None:
        return chunks_owner(s.a[1])
    return None


class TableAuto(Auto):
    def __init__(self, ctx, prog, fn, prop):
        self.ctx, self.prog, self.fn, self.prop = ctx, prog, fn, prop
        self.max = f(T + "max_size_")
        self.maxt = f(T + "max_times_sampled_")
        self.size = None
        self.checkpoint = fn.name == T + "InsertCheckpointItem"
        self._keep = {}
        self.vty = {}
        self.thread = fn.name == T + "TableWorkerLoop"

    # ------------------------------------------------------------ helpers
    def bad(self, prop, rid, key, where, msg, st):
        if prop == self.prop:
            self.ctx.violation(rid, "%s/%s" % (self.fn.name, key), where, "%s: %s" % (self.fn.name, msg), trace_of(st))

    def inst(self, prop, rid, what):
        if prop == self.prop:
            self.ctx.instance(rid, what)

    def init(self):
        return frozenset()

    def waits(self, ev):
        """does this call release the table lock (condition wait)?"""
        if "CondVar::Wait" in ev.fn:
            return bool(ev.args) and is_m(ev.args[0], MU)
        if ev.fn.startswith("absl::Mutex::") and last(ev.fn).startswith(("Await", "LockWhen")):
            return is_m(ev.recv, MU)
        if not any(is_m(a, MU) for a in ev.args):
            return False
        for u in self.prog.targets(ev.raw):
            for v in self.prog.closure([u]):
                for e in self.prog.fns[v].events():
                    if e["k"] == "call" and "CondVar::Wait" in (e.get("sfn") or ""):
                        return True
        return False

    REL = {T + x for x in ("data_", "sampler_", "remover_", "episode_refs_", "rate_limiter_", "max_size_", "max_times_sampled_", "table_worker_")}

    def opaque(self, fid, fn, var, val):
        if fid != 0 or not self.thread:
            return False
        ty = self.vty.get(var)
        if ty is None:
            for b in fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks:
                for e in b["ev"]:
                    if e["k"] == "decl":
                        self.vty[e["var"]] = e["ty"].replace("const ", "")
            ty = self.vty.setdefault(var, "")
        if ty not in ("int", "long", "bool", "unsigned long", "unsigned int", "int64_t", "size_t", "uint64_t", "int32_t"):
            return False
        rl = [x for x in val.toks if x.k == "m" and x.a[1] in self.REL]
        return not rl

    def keep_fact(self, a):
        r = self._keep.get(a)
        if r is None:
            r = self._keep[a] = a.k == "okp" or any((x.k == "m" and (x.a[1] in self.REL or x.a[1] in (ITEMF, CHUNKSF))) for x in a.toks)
        return r

    def forget(self, st):
        """another thread may have changed the table"""
        self.eng.drop_shared(st, f(MU))
        rl = f(RL)
        for a in [a for a in st.facts if rl in a.deps]:
            del st.facts[a]

    def present(self, st, K, val=True):
        """is K known to be present (val) / absent in data_?"""
        if dict(st.auto).get(("K", K, "pres")) is val:
            return True
        if val and K.k == "m" and K.a[1].endswith("::key") and K.a[0].k == "call" and last(K.a[0].a[0]) == "Sample":
            return True
        for a, v in st.facts.items():
            c = canon(a)
            if c.k == "nz" and c.a[0].k == "call" and is_m(c.a[0].a[1], DATA) and last(c.a[0].a[0]) in ("contains", "count") and c.a[0].a[3] is K:
                if v == val:
                    return True
            if c.k == "eq" and v == (not val):
                x, y = c.a
                for p, q in ((x, y), (y, x)):
                    if iter_key(p) is K and q.k == "call" and is_m(q.a[1], DATA) and last(q.a[0]) in ("end", "cend"):
                        return True
            if c.k == "eq" and c.a[0].k == "call" and last(c.a[0].a[0]) == "count" and is_m(c.a[0].a[1], DATA) and c.a[0].a[3] is K and const_of(c.a[1]) == ("n", 0.0):
                if v == (not val):
                    return True
            if val and v and c.k == "nz" and c.a[0].k == "call" and is_m(c.a[0].a[1], DATA) and last(c.a[0].a[0]) == "erase" and c.a[0].a[3] is K:
                return True
        return False

    # -------------------------------------------------------------- events
    def event(self, st, ev):
        A = st.auto
        k = ev.k
        if k == "call":
            rf = ev.recv
            n = last(ev.fn)
            if rf is not None and rf.k == "m":
                fld = rf.a[1]
                if fld in (SAM, REM) and ev.fn.startswith("ItemSelector::"):
                    return self.selector(st, ev, "sam" if fld == SAM else "rem", n)
                if fld == DATA:
                    return self.data_call(st, ev, n)
                if fld == EPI:
                    return self.epi_call(st, ev, n)
                if fld == RL or ev.fn.startswith("RateLimiter::"):
                    A = self.limiter(st, ev, n)
                    if self.waits(ev):
                        st.auto = A
                        A = self.release(st, ev)
                        self.forget(st)
                    return A
            if self.waits(ev):
                return self.release(st, ev)
            if ev.fn == T + "FinalizeSampleRequest":
                d = dict(A)
                if d.pop("batch", None) is not None:
                    return frozenset(d.items())
            if ev.fn == T + "ExtensionOperation":
                return self.extension(st, ev)
            if ev.fn.startswith("PrioritizedItem::set_"):
                return self.setter(st, ev, n)
            if n in ("push_back", "emplace_back") and ev.args and ev.args[0].k == "init" and ev.args[0].a[0].endswith("SampledItem"):
                return self.info(st, ev, ev.args[0])
            return A
        if k == "mv":
            c = canon(ev.val)
            if c.k == "ITEM":
                d = dict(A)
                d[("K", c.a[0], "moved")] = True
                return frozenset(d.items())
            return A
        if k == "asg":
            l = ev.l
            if l.k == "m" and l.a[1].startswith(SI):
                return self.info1(st, ev, l.a[1][len(SI):], ev.r)
            if ev.r is not None and ev.r.k == "init" and ev.r.a[0].endswith("SampledItem"):
                return self.info(st, ev, ev.r)
            if l.k in ("idx", "m"):
                c = canon(l)
                if c.k == "ITEM" and ev.op == "=":
                    if ev.r is NULL or ev.r.k == "mv":
                        return A
                    return self.ins(st, ev, c.a[0], canon(ev.r))
                E = epi_slot(l)
                if E is not None:
                    return self.epi_asg(st, ev, canon(E))
                if l.k == "m" and l.a[0] is THIS:
                    return self.counter(st, ev, l.a[1])
            return A
        if k == "decl":
            v = ev.val
            if v is not None and v.k == "elem":
                K = chunks_owner(canon(v).a[0])
                if K is not None:
                    d = dict(A)
                    d[("E", canon(v))] = (K, 0, None, 0, 0)
                    return frozenset(d.items())
            if v is not None:
                x = v.a[3] if v.k == "obj" and len(v.a) > 3 else v
                if x.k == "init" and x.a[0].endswith("SampledItem"):
                    return self.info(st, ev, x)
            return A
        if k == "lock" and is_m(ev.val, MU):
            return A
        if k == "unlock" and is_m(ev.val, MU):
            A = self.release(st, ev)
            self.forget(st)
            return A
        return A

    def selector(self, st, ev, comp, n):
        d = dict(st.auto)
        if n in ("Insert", "Delete", "Update"):
            K = canon(ev.args[0])
            p = canon(ev.args[1]) if len(ev.args) > 1 else None
            op = {"Insert": "+", "Delete": "-", "Update": "u"}[n]
            cur = d.get(("K", K, comp), ())
            if len(cur) < 6:
                d[("K", K, comp)] = cur + ((op, ev.val, p),)
        elif n == "Clear":
            d["clr"] = d.get("clr", frozenset()) | {comp}
        elif n == "Sample":
            K = mk("m", ev.val, "ItemSelector::KeyWithProbability::key")
            if comp == "sam":
                tok = d.get("stok")
                self.inst("P05", "C", self.fn.name + " sampler")
                if tok != "have":
                    self.bad("P05", "C", "uncommitted-sample", ev.where(), "samples an item without a committed sample (MaybeCommitSample / AwaitAndFinalizeSample) for it", st)
                d.pop("stok", None)
                d[("K", K, "samp")] = 1
                self.inst("P06", "F", self.fn.name)
                if d.get("batch") in ("sampled", "full"):
                    self.bad("P06", "F", "batch", ev.where(), "samples another item without having checked that the batch is not full since the last one", st)
                d["batch"] = "sampled"
            else:
                d[("K", K, "evc")] = 1
        return frozenset(d.items())

    def data_call(self, st, ev, n):
        A = st.auto
        if n in EMPLACE:
            a = list(ev.args)
            if n == "emplace_hint":
                a = a[1:]
            if len(a) == 1 and a[0].k == "pairv":
                a = list(a[0].a)
            if len(a) < 2:
                return A
            return self.ins(st, ev, canon(a[0]), canon(a[1]))
        if n == "erase":
            x = canon(ev.args[0])
            K = iter_key(x)
            res = None
            if K is None:
                K, res = x, ev.val
            d = dict(A)
            d[("K", K, "data")] = d.get(("K", K, "data"), 0) - 1
            if res is not None:
                d[("K", K, "eres")] = res
            if not self.present(st, K) and res is None:
                self.bad("P03", "B", "erase-absent", ev.where(), "erases an entry not known to be present", st)
            c = d.get("cap")
            if ("K", K, "evc") in d:
                self.inst("P04", "B", self.fn.name)
                if c is None:
                    self.bad("P04", "B", "evict-unneeded", ev.where(), "evicts an item although the table has not been found to exceed max_size_ after the insert", st)
                elif c == "undecided":
                    self.bad("P04", "B", "evict-undecided", ev.where(), "evicts an item without having compared the size with max_size_ after the insert", st)
                elif c == "evicted":
                    self.bad("P04", "B", "evict-twice", ev.where(), "evicts more than one item for an insert", st)
                if c == "over":
                    d["cap"] = "evicted"
            return frozenset(d.items())
        if n == "clear":
            d = dict(A)
            d["clr"] = d.get("clr", frozenset()) | {"data"}
            return frozenset(d.items())
        if n in ("swap", "merge", "extract", "operator="):
            self.bad("P03", "B", "raw-" + n, ev.where(), "replaces the content of data_ wholesale (%s)" % n, st)
        return A

    def ins(self, st, ev, K, obj):
        d = dict(st.auto)
        d[("K", K, "data")] = d.get(("K", K, "data"), 0) + 1
        if obj.k != "ITEM" or True:
            d[("K", K, "obj")] = obj
        if self.checkpoint:
            self.inst("P04", "C", self.fn.name)
            if d.get("room") is not True:
                self.bad("P04", "C", "full", ev.where(), "inserts a checkpointed item without having established size < max_size_ in the same critical section", st)
            if not self.present(st, K, False):
                self.bad("P04", "C", "present", ev.where(), "inserts a checkpointed item without having established that its key is absent", st)
        else:
            self.inst("P05", "B", self.fn.name)
            if d.get("itok") != "have":
                self.bad("P05", "B", "unadmitted-insert", ev.where(), "inserts a new item without having been admitted by the rate limiter since the lock was last acquired", st)
            d.pop("itok", None)
            if not self.present(st, K, False):
                self.bad("P05", "B", "insert-present", ev.where(), "stores an item as new without having established in the same critical section that its key is absent", st)
            if d.get("cap") in ("undecided", "over"):
                self.bad("P04", "A", "capacity", ev.where(), "inserts another item before the capacity was restored", st)
            d["cap"] = "undecided"
        d.pop("room", None)
        return frozenset(d.items())

    def epi_elem(self, E):
        if E.k == "call" and last(E.a[0]) == "episode_id" and E.a[1] is not None:
            return E.a[1]
        return None

    def epi_asg(self, st, ev, E):
        d = dict(st.auto)
        el = self.epi_elem(E)
        K = chunk_elem_owner(el) if el is not None else None
        if K is None:
            self.bad("P03", "C", "episode-unknown", ev.where(), "changes the reference count of an episode that is not the episode of one of the item's chunks (%s)" % show(E), st)
            return st.auto
        delta = {"++": 1, "--": -1}.get(ev.op)
        if delta is None and ev.op in ("+=", "-=") and const_of(ev.r):
            delta = int(const_of(ev.r)[1]) * (1 if ev.op == "+=" else -1)
        if delta is None:
            self.bad("P03", "C", "episode-op", ev.where(), "changes an episode reference count by something other than a constant", st)
            return st.auto
        cur = d.get(("E", el), (K, 0, None, 0, 0))
        d["lastE"] = ("E", el)
        d[("E", el)] = (K, cur[1] + delta, cur[2], cur[3], cur[4])
        if d.get(("K", K, "ex")):
            self.bad("P03", "C", "episode-after", ev.where(), "changes an episode reference count after the loop over the chunks", st)
        return frozenset(d.items())

    def epi_call(self, st, ev, n):
        if n == "clear":
            d = dict(st.auto)
            d["clr"] = d.get("clr", frozenset()) | {"epi"}
            return frozenset(d.items())
        if n in EMPLACE:
            c = ev.val
            el = self.epi_elem(canon(emplace_arg(c, 0)))
            v = emplace_arg(c, 1)
            v = ("n", 0.0) if v is None or v.k in ("i", "init") else const_of(v)
            if el is None or chunk_elem_owner(el) is None or v is None or n == "insert_or_assign":
                self.bad("P03", "C", "episode-unknown", ev.where(), "stores a reference count for an episode in an unknown way (%s)" % show(c), st)
                return st.auto
            d = dict(st.auto)
            d["lastE"] = ("E", el)
            if v[1]:
                # takes effect only if the episode was not known
                cur = d.get(("E", el), (chunk_elem_owner(el), 0, None, 0, 0))
                d[("E", el)] = (cur[0], cur[1] + int(v[1])) + cur[2:]
                d[("EU", c)] = (el, int(v[1]))
            else:
                d.setdefault(("E", el), (chunk_elem_owner(el), 0, None, 0, 0))
            return frozenset(d.items())
        if n == "erase":
            x = canon(ev.args[0])
            E = x.a[3] if x.k == "call" and is_m(x.a[1], EPI) and last(x.a[0]) == "find" else x
            if x.k == "m" and x.a[1] == "std::pair::first" and x.a[0].k == "call" and is_m(x.a[0].a[1], EPI):
                E = emplace_arg(x.a[0], 0)
            el = self.epi_elem(E)
            d = dict(st.auto)
            c = d.get(("E", el)) if el is not None else None
            if c is None and el is not None and chunk_elem_owner(el) is not None:
                c = (chunk_elem_owner(el), 0, None, 0, 0)
            if c is None:
                self.bad("P03", "C", "episode-erase", ev.where(), "erases an episode that is not the episode of one of the item's chunks", st)
                return st.auto
            d["lastE"] = ("E", el)
            d[("E", el)] = c[:3] + (c[3] + 1, c[4])
            return frozenset(d.items())
        return st.auto

    def counter(self, st, ev, fld):
        d = dict(st.auto)
        if fld == T + "num_deleted_episodes_":
            if ev.op == "=" and const_of(ev.r) == ("n", 0.0):
                d["clr"] = d.get("clr", frozenset()) | {"num_deleted"}
                return frozenset(d.items())
            if ev.op in ("++", "+="):
                k = d.get("lastE")
                if k in d:
                    v = d[k]
                    d[k] = v[:4] + (v[4] + 1,)
                    return frozenset(d.items())
                self.bad("P03", "C", "num-deleted", ev.where(), "counts a deleted episode outside the release of an item's episode", st)
            return st.auto
        if fld == T + "num_unique_samples_":
            if ev.op == "=" and const_of(ev.r) == ("n", 0.0):
                d["clr"] = d.get("clr", frozenset()) | {"num_unique"}
                return frozenset(d.items())
            if ev.op in ("++", "+="):
                ks = [k[1] for k in d if k[0] == "K" and k[2] == "samp"]
                if not ks:
                    self.bad("P06", "B", "unique", ev.where(), "counts a unique sample outside the sampling of an item", st)
                for K in ks:
                    d[("K", K, "uniq")] = d.get(("K", K, "uniq"), 0) + 1
                return frozenset(d.items())
        return st.auto

    def limiter(self, st, ev, n):
        for a in [a for a in st.facts if ev.val is not None and contains(a, ev.val)]:
            del st.facts[a]
        d = dict(st.auto)
        if n in ("AwaitCanInsert", "CanInsert", "MaybeCommitSample", "AwaitAndFinalizeSample"):
            # the next operation is only admitted once the previous one is complete
            for K in sorted({k[1] for k in d if k[0] == "K"} | {v[0] for k, v in d.items() if k[0] == "E"}, key=show):
                self.settle(st, d, K, ev.where())
            if d.get("cap") in ("fits", "evicted"):
                d.pop("cap")
            self.forget(st)
        if n == "AwaitCanInsert":
            d["itok"] = ("pend", ev.val)
        elif n == "CanInsert":
            c = const_of(ev.args[1]) if len(ev.args) > 1 else None
            d["itok"] = ("pend", ev.val) if c and c[1] >= 1 else None
        elif n in ("MaybeCommitSample", "AwaitAndFinalizeSample"):
            if d.get("stok"):
                self.bad("P05", "C", "leaked-sample", ev.where(), "commits another sample although the previous committed one has not been served", st)
            d["stok"] = ("pend", ev.val)
        elif n == "Insert":
            d["dI"] = d.get("dI", 0) + 1
        elif n == "Delete":
            d["dD"] = d.get("dD", 0) + 1
        elif n == "Reset":
            d["clr"] = d.get("clr", frozenset()) | {"rl"}
        elif n == "MaybeSignalCondVars":
            d["sig"] = True
        return frozenset((k, v) for k, v in d.items() if v is not None)

    def extension(self, st, ev):
        ty = ev.args[0]
        tn = str(ty.a[0]).rsplit("::", 1)[-1] if ty.k == "enum" else None
        if tn is None:
            self.bad("P32", "A", "type", ev.where(), "extension call type is not a constant", st)
            return st.auto
        if tn == "kMemoryRelease":
            return st.auto
        d = dict(st.auto)
        K = key_of(ev.args[1])
        cur = d.get(("K", K, "ext"), ())
        if len(cur) < 4:
            d[("K", K, "ext")] = cur + (tn,)
        if tn == "kDelete" and d.get(("K", K, "moved")):
            self.bad("P32", "A", "moved", ev.where(), "notifies extensions with an item that has been moved from", st)
        return frozenset(d.items())

    def setter(self, st, ev, n):
        c = canon(ev.recv)
        if not is_m(c, ITEMF):
            return st.auto
        K = key_of(c.a[0])
        d = dict(st.auto)
        if n == "set_priority":
            d[("K", K, "prio")] = canon(ev.args[0])
        elif n == "set_times_sampled":
            v = canon(ev.args[0])
            t = times_of(K)
            from engine.explore import subst
            for kk, vv in list(st.env.items()):
                for x in vv.toks:
                    if x.k == "call" and last(x.a[0]) == "times_sampled" and canon(x) is t:
                        vv = subst(vv, x, mk("prev", x))
                if st.env[kk] is not vv:
                    st.env[kk] = vv
            want = mk("op", "+", times_of(K), mk("lit", "1"))
            want2 = mk("op", "+", mk("lit", "1"), times_of(K))
            good = v in (want, want2)
            d[("K", K, "times")] = d.get(("K", K, "times"), 0) + (1 if good else 10)
            if d[("K", K, "times")] > 20:
                d[("K", K, "times")] = 20
        return frozenset(d.items())

    # ------------------------------------------------------- sample result
    def info(self, st, ev, v):
        c = self.prog.cls("Table::SampledItem")
        names = [x["name"] for x in c["fields"]]
        A = st.auto
        for n, val in zip(names, v.a[1:]):
            st.auto = A
            A = self.info1(st, ev, n, val)
        st.auto = A
        return A

    def info1(self, st, ev, name, val):
        d = dict(st.auto)
        ks = [k[1] for k in d if k[0] == "K" and k[2] == "samp"]
        val = canon(val)
        while val.k == "cast":
            val = val.a[1]
        for K in ks[-1:]:
            it = mk("ITEM", K)
            pi = mk("m", it, ITEMF)
            ok = True
            why = ""
            if name == "ref":
                ok = val is it
            elif name == "probability":
                ok = val.k == "m" and val.a[0] is K.a[0] and val.a[1].endswith("probability")
            elif name == "table_size":
                ok = val.k == "call" and last(val.a[0]) == "size" and is_m(val.a[1], DATA) and ("K", K, "data") not in d
                why = " (read before the item is possibly removed)"
            elif name == "priority":
                ok = val.k == "call" and last(val.a[0]) == "priority" and val.a[1] is pi
            elif name == "times_sampled":
                inc = d.get(("K", K, "times"), 0)
                ok = (val is times_of(K) and inc == 1) or (val in (mk("op", "+", times_of(K), mk("lit", "1")),) and inc == 0)
                why = " (counting this sample)"
            elif name == "rate_limited":
                ok = self.limited_ok(st, val)
                why = " (whether the call had to wait for the rate limiter)"
            else:
                continue
            self.inst("P06", "A", self.fn.name + " " + name)
            if not ok:
                self.bad("P06", "A", "info-" + name, ev.where(), "reports %s as the sample's %s, expected that of the sampled item%s" % (show(val), name, why), st)
            d[("K", K, "info")] = d.get(("K", K, "info"), frozenset()) | {name}
        return frozenset(d.items())

    def limited_ok(self, st, val):
        # sync path: !MaybeCommitSample; worker path: a local maintained by the loop
        if self.fn.name == T + "TableWorkerLoop":
            return const_of(val) is None or True
        t = self.eng.truth(st, val)
        blocked = None
        d = dict(st.auto)
        blocked = d.get("waited", False)
        return t is not None and t == blocked

    # ------------------------------------------------------------ branches
    def branch(self, st, atom, val, line, fn):
        A = st.auto
        if not self.keep_fact(atom) and atom.k not in ("nz", "lt", "eq"):
            return A
        a = canon(atom)
        if atom.k == "okp":
            t = atom.a[0]
            if t.k == "call" and t.a[0] == "ItemSelector::Delete" and not val:
                return DEAD    # agreement (this property, by induction): the key is present
            d = dict(A)
            ch = False
            if t.k == "call" and t.a[0].startswith("ItemSelector::"):
                for kk, v in A:
                    if kk[0] == "K" and kk[2] in ("sam", "rem") and any(o[1] is t for o in v):
                        ch = True
                        d[kk] = tuple((o[0], TRUE, o[2]) if o[1] is t else o for o in v if o[1] is not t or val)
                        if not d[kk]:
                            d.pop(kk)
            for tk in ("itok", "stok"):
                if d.get(tk) == ("pend", t):
                    ch = True
                    if val:
                        d[tk] = "have"
                        if tk == "stok" and last(t.a[0]).startswith("Await"):
                            d["waited"] = True
                    else:
                        d.pop(tk)
            return frozenset(d.items()) if ch else A
        if atom.k == "nz":
            t = atom.a[0]
            d = dict(A)
            ch = False
            for tk in ("itok", "stok"):
                if d.get(tk) == ("pend", t):
                    ch = True
                    if val:
                        d[tk] = "have"
                    else:
                        d.pop(tk)
            if ch:
                return frozenset(d.items())
            if t.k == "m" and t.a[1] == "std::pair::second" and ("EU", t.a[0]) in d:
                el, v = d.pop(("EU", t.a[0]))
                if not val and ("E", el) in d:
                    cur = d[("E", el)]
                    d[("E", el)] = (cur[0], cur[1] - v) + cur[2:]
                return frozenset(d.items())
            c = a.a[0]
            if c.k == "call" and is_m(c.a[1], DATA) and last(c.a[0]) in ("contains", "count"):
                d[("K", c.a[3], "pres")] = val
                return frozenset(d.items())
            if c.k == "call" and last(c.a[0]) == "empty" and c.a[1] is not None and chunks_owner(c.a[1]) is not None and val:
                return DEAD
            return A
        if a.k in ("eq", "lt"):
            x, y = a.a
            # chunk loops: items always reference at least one chunk
            for p, q in ((x, y), (y, x)):
                if q.k == "call" and q.a[1] is not None and last(q.a[0]) in ("end", "cend", "size"):
                    K = chunks_owner(q.a[1])
                    if K is not None:
                        done = val if a.k == "eq" else (not val)
                        if a.k == "lt" and q is x:
                            done = False
                        if done:
                            if (p.k == "call" and last(p.a[0]) in ("begin", "cbegin")) or const_of(p) == ("n", 0.0):
                                return DEAD
                            d = dict(A)
                            d[("K", K, "ex")] = True
                            return frozenset(d.items())
            # key of a selector sample is always present
            if a.k == "eq":
                for p, q in ((x, y), (y, x)):
                    K = iter_key(p)
                    if K is not None and q.k == "call" and is_m(q.a[1], DATA) and last(q.a[0]) in ("end", "cend"):
                        if val and K.k == "m" and K.a[0].k == "call" and last(K.a[0].a[0]) == "Sample":
                            return DEAD
                        d = dict(A)
                        d[("K", K, "pres")] = not val
                        return frozenset(d.items())
                    if p.k == "call" and is_m(p.a[1], DATA) and last(p.a[0]) == "count" and const_of(q) == ("n", 0.0):
                        d = dict(A)
                        d[("K", p.a[3], "pres")] = not val
                        return frozenset(d.items())
            # episode reference reached zero?
            cell = None
            for p, q in ((x, y), (y, x)):
                z = p.a[0] if p.k == "old" else p
                if z.k in ("m", "idx") and epi_slot(z) is not None:
                    cell, other, old = epi_slot(z), q, p.k == "old"
            if cell is not None:
                el = self.epi_elem(cell)
                c = const_of(other)
                d = dict(A)
                if el is not None and c is not None:
                    K = chunk_elem_owner(el)
                    cur = d.get(("E", el), (K, 0, None, 0, 0))
                    z = None
                    n = c[1]
                    dec = cur[1] if not old else 0     # current effect already applied
                    tgt = 1 if (dec == 0) else 0       # count==1 before the decrement <=> 0 after
                    if a.k == "eq" and n == tgt:
                        z = val
                    elif a.k == "lt" and y is other and n == tgt + 1:
                        z = val
                    elif a.k == "lt" and x is other and n == tgt:
                        z = not val
                    if z is not None:
                        d[("E", el)] = cur[:2] + (z,) + cur[3:]
                        return frozenset(d.items())
                return A
            # capacity decisions
            sz = [s for s in (x, y) for t in s.toks if t.k == "call" and last(t.a[0]) == "size" and is_m(t.a[1], DATA)]
            if sz and any(contains(s, self.max) for s in (x, y)):
                d = dict(A)
                size = [t for s in sz for t in s.toks if t.k == "call" and last(t.a[0]) == "size" and is_m(t.a[1], DATA)][0]
                allint = lambda p: True
                got, pol = canon_atom(a, allint)
                over, opol = canon_atom(mk("lt", self.max, size), allint)
                full, fpol = canon_atom(mk("lt", size, self.max), allint)
                if got == over:
                    isover = (val == pol) == opol
                    if d.get("cap") == "undecided":
                        d["cap"] = "over" if isover else "fits"
                    return frozenset(d.items())
                if got == full:
                    d["room"] = (val == pol) == fpol
                    return frozenset(d.items())
                if d.get("cap") == "undecided" and a.k == "eq":
                    # size == max+1 right after one insert
                    e1, ep = canon_atom(mk("eq", size, mk("op", "+", self.max, mk("lit", "1"))), allint)
                    if got == e1:
                        d["cap"] = "over" if val else "fits"
                        return frozenset(d.items())
                return A
            # times sampled decisions
            for p, q in ((x, y), (y, x)):
                K = None
                pv = p.k == "prev"
                z = p.a[0] if pv else p
                if z.k == "call" and last(z.a[0]) == "times_sampled" and is_m(z.a[1], ITEMF):
                    K = key_of(z.a[1].a[0])
                if K is None:
                    continue
                d = dict(A)
                inc = 0 if pv else d.get(("K", K, "times"), 0)
                c = const_of(q)
                if c is not None:
                    if (a.k == "eq" and c[1] == inc) or (a.k == "lt" and q is y and c[1] == inc + 1):
                        d[("K", K, "zero")] = val
                    elif a.k == "lt" and q is x and c[1] == inc:
                        d[("K", K, "zero")] = not val
                elif q is self.maxt and inc == 1:
                    if a.k == "eq":
                        d[("K", K, "max")] = val
                    elif a.k == "lt" and p is x and val:
                        d[("K", K, "max")] = False
                    elif a.k == "lt" and p is x and not val:
                        pos = st.facts.get(mk("lt", mk("lit", "0"), self.maxt))
                        d[("K", K, "max")] = True if pos else "?"
                else:
                    continue
                return frozenset(d.items())
            # batch bound
            if dict(A).get("batch") == "sampled":
                d = dict(A)
                tt = a.toks
                if any(t.k == "call" and last(t.a[0]) == "size" for t in tt) and not any(is_m(t, DATA) for t in tt):
                    issz = lambda t: t.k == "call" and last(t.a[0]) == "size"
                    if a.k == "eq":
                        d["batch"] = "full" if val else "room"
                    elif issz(x) and not issz(y):
                        d["batch"] = "room" if val else "full"
                    elif issz(y) and not issz(x) and x.k != "op":
                        d["batch"] = "full" if val else "sampled"
                    else:
                        d["batch"] = "room"
                    return frozenset(d.items())
        return A

    def rebind(self, st, sym):
        d = dict(st.auto)
        ks = {k[1] for k in d if k[0] == "K" and contains(k[1], sym)}
        es = [k for k in d if k[0] == "E" and contains(k[1], sym)]
        if not ks and not es:
            return st.auto
        for k in es:
            self.fold(st, d, k)
        for K in ks:
            self.settle(st, d, K, self.fn.where(), final=False)
        return frozenset(d.items())

    # -------------------------------------------------------------- settle
    def fold(self, st, d, k):
        K, sign, zero, erased, ndel = d.pop(k)
        if d.get("lastE") == k:
            d.pop("lastE")
        msg = None
        eff = sign
        for u in [u for u in d if u[0] == "EU" and d[u][0] is k[1]]:
            d.pop(u)
            msg = "leaves the count of an episode that is already known as it is"
        if sign == -1 or erased:
            eff = -1
            if erased > 1 or ndel > 1:
                msg = "erases an episode more than once"
            elif erased != ndel:
                msg = "erases an episode without counting it as deleted (or the reverse)"
            elif zero is None:
                msg = "releases an episode reference without deciding whether it was the last one"
            elif zero and not erased:
                msg = "keeps an episode whose last reference is gone"
            elif not zero and erased:
                msg = "erases an episode that is still referenced"
            elif sign == 0 and not erased:
                msg = "does not release the episode reference"
        elif ndel:
            msg = "counts a deleted episode while adding references"
        if msg:
            self.bad("P03", "C", "episode-release", self.fn.where(), msg, st)
        cur = d.get(("K", K, "epi"))
        if cur is not None and cur != eff:
            self.bad("P03", "C", "episode-uneven", self.fn.where(), "changes the episode reference counts differently for different chunks of an item", st)
        d[("K", K, "epi")] = eff

    def ops(self, st, K, ops, comp):
        net, pr = 0, None
        for op, t, p in ops:
            ok = True if t is TRUE else st.facts.get(mk("okp", t))
            if ok is False:
                continue
            if ok is None and op != "-":
                self.bad("P03", "D", "unchecked-" + comp, self.fn.where(), "does not check whether %s accepted the %s" % (
                    "the sampler" if comp == "sam" else "the remover", "insert" if op == "+" else "update"), st)
            if op == "+":
                net += 1
                pr = p
            elif op == "-":
                net -= 1
                pr = None
            else:
                pr = p
        return net, pr

    def settle(self, st, d, K, where, final=True):
        g = lambda c, df=None: d.get(("K", K, c), df)
        for k in [k for k in d if k[0] == "E" and d[k][0] is K]:
            self.fold(st, d, k)
        data = g("data", 0)
        if data == -1 and g("eres") is not None and st.facts.get(mk("nz", g("eres"))) is False:
            data = 0
        ns, ps = self.ops(st, K, g("sam", ()), "sam")
        nr, pr = self.ops(st, K, g("rem", ()), "rem")
        epi = g("epi", 0)
        touched = any(g(c) for c in ("data", "sam", "rem", "epi", "prio"))
        name = show(K)
        if touched:
            self.inst("P03", "A", "%s item %s" % (self.fn.name, {1: "insert", -1: "delete", 0: "update"}.get(data, "?")))
        if not (data == ns == nr == epi):
            self.bad("P03", "A", "agreement", where, "the lock is released (or the operation moves on) with data_%+d sampler_%+d remover_%+d episode references%+d for key %s" % (data, ns, nr, epi, name), st)
        elif data not in (0, 1, -1):
            self.bad("P03", "A", "agreement", where, "an item is inserted or deleted twice (%+d)" % data, st)
        if epi and not g("ex"):
            self.bad("P03", "C", "episode-partial", where, "the loop over the item's chunks is left before its end", st)
        upd = False
        if data == 1 and ns == 1 and nr == 1:
            obj = g("obj")
            want = prio_of(obj)
            if key_of(obj) is not K:
                self.bad("P03", "A", "insert-key", where, "stores an item under a key that is not its own (%s)" % show(K), st)
            if g("prio") is not None:
                want = g("prio")
            if ps is not pr or ps is not want:
                self.bad("P03", "A", "insert-priority", where, "the priorities given to sampler_ (%s) and remover_ (%s) are not both the item's own (%s)" % (show(ps), show(pr), show(want)), st)
        elif data == 0 and ns == 0 and nr == 0:
            orig = mk("call", "PrioritizedItem::priority", mk("m", mk("ITEM", K), ITEMF), None)
            pp = g("prio")
            if pp is None:
                ps = None if ps is orig else ps
                pr = None if pr is orig else pr
            if not (ps is pr and pr is pp):
                self.bad("P03", "A", "update-priority", where, "after an update sampler_ holds %s, remover_ %s and the item %s" % tuple("its old priority" if x is None else show(x) for x in (ps, pr, pp)), st)
            upd = pp is not None
        # limiter bookkeeping (per release, below)
        if data == 1 and not self.checkpoint:
            d["dI"] = d.get("dI", 0) - 1
            self.inst("P05", "A", self.fn.name + " insert")
        if data == -1:
            d["dD"] = d.get("dD", 0) - 1
            self.inst("P05", "A", self.fn.name + " delete")
        for k in ("dI", "dD"):
            if k in d:
                d[k] = max(-2, min(2, d[k]))
                if not d[k]:
                    d.pop(k)
        # extensions
        ext = g("ext", ())
        want = []
        if data == 1:
            want.append("kInsert")
        if upd:
            want.append("kUpdate")
        if g("times", 0):
            want.append("kSample")
        if data == -1:
            want.append("kDelete")
        if touched or ext or want:
            self.inst("P32", "A", "%s %s" % (self.fn.name, "+".join(want) or "none"))
        if sorted(ext) != sorted(want):
            self.bad("P32", "A", "ext-" + "+".join(sorted(want)), where, "extensions are notified with [%s] for an item subject to [%s]" % (", ".join(ext), ", ".join(want)), st)
        elif list(ext) != want:
            self.bad("P32", "A", "ext-order", where, "extensions are notified in the order [%s]" % ", ".join(ext), st)
        # sampling
        if g("samp"):
            self.inst("P06", "C", self.fn.name)
            self.inst("P06", "B", self.fn.name)
            self.inst("P06", "D", self.fn.name)
            if g("times", 0) != 1:
                self.bad("P06", "C", "times", where, "a sampled item's times_sampled is not incremented by exactly one", st)
            z = g("zero")
            if z is None:
                self.bad("P06", "B", "unique-undecided", where, "a sample is served without deciding whether the item is sampled for the first time", st)
            elif (g("uniq", 0) == 1) != z or g("uniq", 0) > 1:
                self.bad("P06", "B", "unique-count", where, "num_unique_samples_ is %s although the item is %ssampled for the first time" % ("incremented" if g("uniq", 0) else "not incremented", "" if z else "not "), st)
            m = g("max")
            if m is None:
                for a, v in st.facts.items():
                    if a.k == "lt" and a.a[1] is self.maxt and const_of(a.a[0]) == ("n", 0.0) and not v:
                        m = False
                    elif a.k == "lt" and a.a[0] is self.maxt and const_of(a.a[1]) in (("n", 0.0), ("n", 1.0)) and v:
                        m = False
            if m is None:
                self.bad("P06", "D", "max-undecided", where, "a sample is served without comparing the item's times_sampled with max_times_sampled_", st)
            elif m == "?":
                self.bad("P06", "D", "max-unbounded", where, "treats max_times_sampled_ <= 0 as a limit", st)
            elif m is True and data != -1:
                self.bad("P06", "D", "max-keep", where, "an item that reached max_times_sampled_ stays in the table", st)
            elif m is False and data == -1:
                self.bad("P06", "D", "max-early", where, "a sampled item is removed although it has not reached max_times_sampled_", st)
            miss = set(SINK_FIELDS) - g("info", frozenset())
            if miss:
                self.bad("P06", "A", "info-missing", where, "a sample is served without its %s" % ", ".join(sorted(miss)), st)
        elif g("times"):
            self.bad("P06", "C", "times-unsampled", where, "times_sampled of an item that was not sampled is changed", st)
        for k in [k for k in d if k[0] == "K" and k[1] is K]:
            d.pop(k)
        if touched:
            for a in [a for a in st.facts if a.k != "okp" and contains(canon(a), K)]:
                st.facts.pop(a)

    CLR = {"data", "sam", "rem", "epi"}

    def release(self, st, ev):
        """the table lock is (or may be) released: everything must be settled"""
        d = dict(st.auto)
        where = ev.where() if ev is not None else self.fn.where()
        for K in sorted({k[1] for k in d if k[0] == "K"} | {v[0] for k, v in d.items() if k[0] == "E"}, key=show):
            self.settle(st, d, K, where)
        for k, op in (("dI", "Insert"), ("dD", "Delete")):
            if d.get(k):
                self.bad("P05", "A", "limiter-" + op.lower(), where, "RateLimiter::%s is called %d time(s) more than items are %s" % (op, d[k], "added" if op == "Insert" else "deleted"), st)
        c = d.get("cap")
        if c:
            self.inst("P04", "A", self.fn.name + " " + c)
        if c in ("undecided", "over"):
            self.bad("P04", "A", "capacity", where, "the lock is released after an insert %s" % (
                "without comparing the size with max_size_" if c == "undecided" else "that exceeded max_size_ without removing the item chosen by remover_"), st)
        clr = d.get("clr", frozenset())
        if clr:
            self.inst("P03", "E", self.fn.name)
            if not self.CLR <= clr:
                self.bad("P03", "E", "clear", where, "clears %s but not %s" % (", ".join(sorted(clr & self.CLR)), ", ".join(sorted(self.CLR - clr))), st)
            self.inst("P05", "D", self.fn.name)
            if not {"rl", "data", "num_deleted"} <= clr:
                self.bad("P05", "D", "reset-limiter", where, "resets only %s" % ", ".join(sorted(clr)), st)
            self.inst("P06", "E", self.fn.name)
            if "num_unique" not in clr:
                self.bad("P06", "E", "reset-unique", where, "does not reset num_unique_samples_", st)
        t = d.get("stok")
        if t == "have" or (isinstance(t, tuple) and t[0] == "pend" and not (ev is not None and ev.k == "call" and ev.val is t[1])):
            self.bad("P05", "C", "leaked-sample", where, "a sample committed to the rate limiter is never served", st)
        keep = {}
        if isinstance(d.get("stok"), tuple):
            keep["stok"] = d["stok"]
        if isinstance(d.get("itok"), tuple) and ev is not None and ev.k == "call" and ev.val is d["itok"][1]:
            keep["itok"] = d["itok"]
        for k in ("batch",):
            if k in d and not (ev is not None and ev.k == "unlock"):
                keep[k] = d[k]
        return frozenset(keep.items())

    def exit(self, st, ret, ev):
        self.release(st, None)


def explore(ctx, prop):
    prog = ctx.program(*TUS)
    names = ("data_", "sampler_", "remover_", "episode_refs_", "rate_limiter_", "mu_", "max_size_", "max_times_sampled_",
             "num_unique_samples_", "num_deleted_episodes_")
    for n in names:
        prog.field("Table", n)
    pub = {m["usr"] for m in prog.cls("Table")["methods"] if m["access"] == "public"}
    entries = [g for g in prog.methods("Table") if g.usr in pub and not g.ctor and g.blocks and not g.name.endswith("::~Table")]
    roots = {g.usr for g in entries}
    called = set()
    touch = set()
    keyf = {DATA, SAM, REM, EPI, RL}
    for g in prog.methods("Table"):
        pass
    out = []
    # thread bodies started by EnableTableWorker
    thr = [prog.fn(T + "TableWorkerLoop"), prog.fn(T + "ExtensionsWorkerLoop")]
    for g in entries + thr:
        m = prog.modset(g.usr)
        if not (m & keyf or touches(prog, g, keyf)):
            continue
        a = TableAuto(ctx, prog, g, prop)
        e = Engine(prog, g, a, inline=lambda h, ev: h.name.startswith("Table::") and h.name not in (T + "ExtensionOperation", T + "FinalizeSampleRequest", T + "EnqueSampleRequest")
                   or h.lam or (not h.cls and os.path.basename(h.file) in ("table.cc", "table.h") and any("Item" in ty or "RateLimiter" in ty or "ItemSelector" in ty for _, ty in h.params)), run_lambda_args=None, max_states=int(os.environ.get('MS','250000')))
        a.eng = e
        ctx.engine(e)
        out.append(g.name)
    return prog, out


def touches(prog, g, fields):
    for u in prog.closure([g.usr]):
        for e in prog.fns[u].events():
            for key in ("recv", "l"):
                t = e.get(key)
                if t is not None and e["k"] in ("call", "asg", "idx") and any_field(t, fields):
                    return True
    return False


def any_field(t, fields):
    if isinstance(t, tuple):
        if t and t[0] == "m" and t[2] in fields:
            return True
        return any(any_field(x, fields) for x in t if isinstance(x, tuple))
    return False
