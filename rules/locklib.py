"""Lock sets: which mutexes are certainly held at each event of each function.

Forward must-analysis over the CFG of every function. A lock is an access path
of the function's own frame ('m', base, 'Class::mu_') or a parameter. Entry
lock sets come from the declared requirements; for functions nobody outside
the library can call directly (private, protected, local) also from the
intersection over all their call sites; for lambdas from the places where they
are run (conditions of waits, scope cleanups, direct calls)."""
from engine.ir import *

LOCKS = ("absl::MutexLock", "absl::ReleasableMutexLock", "absl::WriterMutexLock", "absl::ReaderMutexLock",
         "std::lock_guard", "std::unique_lock", "std::scoped_lock", "absl::MutexLockMaybe")
REQ = ("exclusive_locks_required", "shared_locks_required", "requires_capability", "requires_shared_capability")
THIS_T = ("this",)
TOP = None


def norm(t, alias=None, depth=0):
    """access path without dereferences, addresses, casts and moves"""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k in ("d", "a", "mv"):
        return norm(t[1], alias, depth)
    if k == "bool":
        return norm(t[1], alias, depth)
    if k == "cast":
        return norm(t[2], alias, depth)
    if k == "m":
        return ("m", norm(t[1], alias, depth), t[2])
    if k == "v" and alias and t[1] in alias and depth < 6:
        return norm(alias[t[1]], alias, depth + 1)
    return t


def walk(t):
    if isinstance(t, tuple) and t:
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def terms(e):
    for k in ("e", "l", "r", "recv", "i", "init", "target"):
        if k in e:
            yield e[k]
    for a in e.get("args", ()):
        yield a


def var_of(t):
    t = norm(t)
    return t[1] if isinstance(t, tuple) and t and t[0] == "v" else None


class LockInfo:
    def __init__(self, prog):
        self.p = prog
        self.alias = {}
        self.decl_req = {}
        self.shared_req = set()
        self.cls_attr = {}
        for c in prog.classes.values():
            for m in c["methods"]:
                if m["attrs"]:
                    self.cls_attr.setdefault(m["usr"], []).extend(m["attrs"])
        self.private = {}
        self.entry = {}
        self.at = {}      # (usr, block, idx) -> frozenset
        self._prepare()
        self._solve()

    # ------------------------------------------------------------ prepare
    def attrs(self, usr):
        f = self.p.fns.get(usr)
        out = list(f.attrs) if f else []
        out += self.cls_attr.get(usr, [])
        if f:
            for o in f.overrides:
                out += self.cls_attr.get(o, [])
                if o in self.p.fns:
                    out += self.p.fns[o].attrs
        return out

    def requirement(self, usr):
        """declared requirement as a set of locks in the callee's frame, or
        'all' when the function asserts that the lock is held"""
        r = self.decl_req.get(usr)
        if r is None:
            r = set()
            f = self.p.fns.get(usr)
            pn = {q.split("@")[0]: q for q, _ in f.params} if f else {}
            for a, args in self.attrs(usr):
                if a in ("assert_exclusive_lock", "assert_shared_lock", "no_thread_safety_analysis"):
                    r = "all"
                    break
                if a in REQ:
                    for x in args:
                        y = norm(x)
                        if y[0] == "v":
                            mp = [q for q, t in (f.params if f else []) if "Mutex" in t]
                            y = ("v", pn.get(y[1].split("@")[0], mp[0] if len(mp) == 1 else y[1]))
                        r.add(y)
                        if "shared" in a:
                            self.shared_req.add((usr, y))
            self.decl_req[usr] = r
        return r

    def _aliases(self, f):
        """reference/pointer variables bound once to an access path"""
        al, bad = {}, set()
        for e in f.events():
            if e["k"] == "decl" and "init" in e:
                if e["var"] in al:
                    bad.add(e["var"])
                i = e["init"]
                if (e.get("ref") or i[0] == "a" or i[0] == "this") and norm(i)[0] in ("m", "v", "this"):
                    al[e["var"]] = i
            elif e["k"] == "asg":
                v = var_of(e["l"]) if e["l"][0] == "v" else None
                if v:
                    bad.add(v)
            elif e["k"] == "lam":
                for c in e["caps"]:
                    if len(c) > 3 and c[0] in ("copy", "ref") and c[3] and norm(c[3])[0] in ("m", "this"):
                        al[c[1]] = c[3]
        for b in bad:
            al.pop(b, None)
        return al

    def _prepare(self):
        p = self.p
        taken = set()
        calls = {}
        for f in p.fns.values():
            self.alias[f.usr] = self._aliases(f)
        for f in p.fns.values():
            if f.lam:
                g, seen = f, 0
                while g is not None and g.lam and seen < 8:
                    g = p.fns.get(g.parent)
                    seen += 1
                    if g is not None:
                        self.alias[f.usr] = dict(self.alias[g.usr], **self.alias[f.usr])
        self.lam_uses = {}
        for f in p.fns.values():
            lamvar = {}
            for e in f.events():
                if e["k"] in ("call", "ctor"):
                    for t in p.targets(e):
                        calls.setdefault(t, []).append(f.usr)
                for t in terms(e):
                    for x in walk(t):
                        if x[0] == "fn" and len(x) > 2 and isinstance(x[2], str):
                            taken.add(x[2])
                if e["k"] == "decl" and "init" in e:
                    for x in walk(e["init"]):
                        if x[0] == "lam":
                            lamvar[e["var"]] = x[1]
            self._lamvars = getattr(self, "_lamvars", {})
            self._lamvars[f.usr] = lamvar
        for f in p.fns.values():
            priv = f.access in ("private", "protected") or (not f.cls and not f.lam) or "(" in f.name
            self.private[f.usr] = bool(priv and not f.virt and not f.overrides and f.usr not in taken
                                       and calls.get(f.usr) and not f.ctor and not f.dtor and not f.lam)

    # -------------------------------------------------------------- solve
    def _solve(self):
        p = self.p
        for f in p.fns.values():
            r = self.requirement(f.usr)
            if r == "all":
                self.entry[f.usr] = "all"
            elif f.lam or self.private[f.usr]:
                self.entry[f.usr] = TOP
            else:
                self.entry[f.usr] = frozenset(r) | {("sh", l) for l in r if (f.usr, l) in self.shared_req}
        for it in range(14):
            contrib = {}
            for f in p.fns.values():
                e = self.entry[f.usr]
                if e is TOP or not f.blocks:
                    continue
                self._flow(f, e, contrib)
            ch = False
            for f in p.fns.values():
                if not (f.lam or self.private[f.usr]) or self.entry[f.usr] == "all":
                    continue
                base = frozenset(self.requirement(f.usr))
                cs = contrib.get(f.usr)
                if cs is None:
                    new = TOP
                else:
                    new = None
                    for c in cs:
                        new = c if new is None else self.meet(new, c)
                    new = new | base
                if new != self.entry[f.usr]:
                    self.entry[f.usr] = new
                    ch = True
            if not ch:
                break
        # unreachable / never run in the analysed program: declared only
        ch = False
        for f in p.fns.values():
            if self.entry[f.usr] is TOP:
                self.entry[f.usr] = frozenset(self.requirement(f.usr))
                self._flow(f, self.entry[f.usr], {})

    def _flow(self, f, entry, contrib):
        al = self.alias[f.usr]
        if entry == "all":
            for b in f.blocks.values():
                for i in range(len(b["ev"]) + 1):
                    self.at[(f.usr, b["id"], i)] = "all"
            return
        ins = {f.entry: entry}
        work = [f.entry]
        lockvars = {}
        while work:
            bid = work.pop()
            b = f.blocks[bid]
            cur = set(ins[bid])
            for i, e in enumerate(b["ev"]):
                self.at[(f.usr, bid, i)] = frozenset(cur)
                self._step(f, e, cur, lockvars, al)
            self.at[(f.usr, bid, len(b["ev"]))] = frozenset(cur)
            for s in b["succ"]:
                if s is None:
                    continue
                o = ins.get(s[0])
                n = frozenset(cur) if o is None else self.meet(o, frozenset(cur))
                if n != o:
                    ins[s[0]] = n
                    work.append(s[0])
        # contributions to callees
        for bid, b in f.blocks.items():
            if bid not in ins:
                continue
            for i, e in enumerate(b["ev"]):
                held = self.at.get((f.usr, bid, i))
                self._contribute(f, e, held, contrib, al)

    def meet(self, a, b):
        r = a & b
        return r | {x for x in a | b if x[0] == "sh" and x[1] in r}

    def lock_of(self, e, al):
        """mutex of the declaration of a scoped lock"""
        t = e.get("init")
        if t is None:
            return None
        if t[0] == "ctor" and len(t) > 3:
            return norm(t[3], al)
        return None

    def _step(self, f, e, cur, lockvars, al):
        k = e["k"]
        if k == "decl" and e.get("ty", "").startswith(LOCKS):
            m = self.lock_of(e, al)
            if m is not None:
                cur.add(m)
                if e["ty"].startswith("absl::ReaderMutexLock"):
                    cur.add(("sh", m))
                lockvars[e["var"]] = m
        elif k == "dtor" and e["var"] in lockvars:
            self.drop(cur, lockvars[e["var"]])
        elif k == "call":
            n = last(e.get("sfn", ""))
            if e.get("cls") == "absl::Mutex" and "recv" in e:
                m = norm(e["recv"], al)
                if n in ("Lock", "WriterLock", "ReaderLock", "AssertHeld", "LockWhen", "ReaderLockWhen", "LockWhenWithTimeout", "LockWhenWithDeadline"):
                    cur.add(m)
                    if n in ("ReaderLock", "ReaderLockWhen"):
                        cur.add(("sh", m))
                elif n in ("Unlock", "WriterUnlock", "ReaderUnlock"):
                    self.drop(cur, m)
            elif n in ("Release", "unlock") and "recv" in e:
                v = var_of(e["recv"])
                if v in lockvars:
                    self.drop(cur, lockvars[v])

    def drop(self, cur, m):
        cur.discard(m)
        cur.discard(("sh", m))

    def map_call(self, f, e, callee, held, al):
        """locks held at a call, in the callee's frame"""
        recv = norm(e["recv"], al) if "recv" in e else None
        args = [norm(a, al) for a in e.get("args", ())]
        out = set()
        for l in held:
            if l[0] == "sh":
                r = self.map_call(f, e, callee, {l[1]}, al)
                out |= {("sh", x) for x in r}
                continue
            if l[0] == "m":
                if recv is not None and l[1] == recv:
                    out.add(("m", THIS_T, l[2]))
                for i, a in enumerate(args):
                    if a == l[1] and i < len(callee.params):
                        out.add(("m", ("v", callee.params[i][0]), l[2]))
            for i, a in enumerate(args):
                if a == l and i < len(callee.params):
                    out.add(("v", callee.params[i][0]))
        return frozenset(out)

    def _contribute(self, f, e, held, contrib, al):
        p = self.p
        k = e["k"]
        if held == "all":
            held = frozenset()
            full = True
        if k in ("call", "ctor"):
            for t in p.targets(e):
                g = p.fns.get(t)
                if g is not None and self.private.get(t):
                    contrib.setdefault(t, []).append(self.map_call(f, e, g, held, al))
        lv = self._lamvars.get(f.usr, {})

        def lams(t):
            for x in walk(t):
                if x[0] == "lam":
                    yield x[1]
                elif x[0] == "v" and x[1] in lv:
                    yield lv[x[1]]
        if k == "dtor" and e["var"] in lv and "Cleanup" in e.get("ty", ""):
            contrib.setdefault(lv[e["var"]], []).append(held)
        if k == "decl" and "init" in e:
            if "Cleanup" in e.get("ty", "") or e["init"][0] == "lam" or not any(True for _ in lams(e["init"])):
                return
            if any(e.get("ty", "").startswith(x) for x in LOCKS):
                # scoped lock with a condition
                m = self.lock_of(e, al)
                for l in lams(e["init"]):
                    contrib.setdefault(l, []).append(self.cond_locks(l, e["init"], held | {m}, al))
                return
        if k in ("call", "ctor"):
            sfn = e.get("sfn", "")
            n = last(sfn)
            if sfn.startswith("absl::Condition::") or "Cleanup" in sfn:
                return
            if e["k"] == "ctor" and any(sfn.startswith(x) for x in LOCKS):
                return
            # the lambda object itself is invoked
            tv = e.get("target") or e.get("recv")
            if (n == "operator()" or "target" in e) and tv is not None:
                for l in lams(norm(tv)):
                    contrib.setdefault(l, []).append(held)
            cond = e.get("cls") == "absl::Mutex" and (n.startswith("Await") or "LockWhen" in n)
            for a in e.get("args", ()):
                for l in lams(a):
                    if cond:
                        contrib.setdefault(l, []).append(self.cond_locks(l, a, held | {norm(e["recv"], al)}, al))
                    elif sfn.startswith(("std::", "absl::", "__gnu")) and n in SYNC_ALGS:
                        contrib.setdefault(l, []).append(held)
                    elif e["k"] == "ctor" and sfn.startswith("std::function"):
                        pass   # judged where the function object goes
                    elif sfn.startswith(("std::make_", "absl::make_", "std::move", "std::forward")) or n == "MakeCleanup":
                        if n != "MakeCleanup":
                            contrib.setdefault(l, []).append(frozenset())
                    else:
                        contrib.setdefault(l, []).append(frozenset())
        elif k in ("asg", "ret", "init"):
            for key in ("r", "e"):
                if key in e:
                    for l in lams(e[key]):
                        contrib.setdefault(l, []).append(frozenset())

    def cond_locks(self, l, t, held, al):
        """a condition absl::Condition(function, argument)"""
        g = self.p.fns.get(l)
        out = set(held)
        for x in walk(t):
            if x[0] == "ctor" and x[1] == "absl::Condition" and len(x) > 4 and g is not None and g.params:
                a = norm(x[4], al)
                for h in held:
                    if h[0] == "m" and h[1] == a:
                        out.add(("m", ("v", g.params[0][0]), h[2]))
        return frozenset(out)

    # ------------------------------------------------------------ queries
    def held(self, f, bid, i, lock):
        h = self.at.get((f.usr, bid, i))
        if h is None or h == "all":
            return True       # unreachable
        return lock in h

    def shared(self, f, bid, i, lock):
        """the lock may be held for reading only"""
        h = self.at.get((f.usr, bid, i))
        return h not in (None, "all") and ("sh", lock) in h

    def heldset(self, f, bid, i):
        h = self.at.get((f.usr, bid, i))
        return frozenset() if h in (None, "all") else frozenset(x for x in h if x[0] != "sh")


SYNC_ALGS = {"find_if", "any_of", "all_of", "none_of", "for_each", "sort", "stable_sort", "remove_if", "count_if",
             "transform", "copy_if", "partition", "c_any_of", "c_all_of", "c_find_if", "c_sort", "min_element", "max_element",
             "accumulate", "c_accumulate", "c_for_each", "find_if_not", "lower_bound", "upper_bound", "erase_if", "c_count_if", "c_none_of", "StrJoin", "unique"}
