"""Blocking waits: rechecked conditions, stop flags end them, wake-ups, joins."""
from engine.util import *
from rules.locklib import *
from rules.p10 import is_rpc

WAITS = ("absl::CondVar::Wait", "absl::CondVar::WaitWithTimeout", "absl::CondVar::WaitWithDeadline")
SIGNALS = ("absl::CondVar::Signal", "absl::CondVar::SignalAll")
THREAD = "internal::Thread"
STOPPERS = {"Close", "Stop", "Cancel", "StopWorkers", "Shutdown", "TryCancel", "SetLastItemPushed"}
CANCELS = {"TryCancel"}
SHRINK = {"swap", "clear", "pop", "pop_front", "pop_back", "erase", "resize"}


def fld(t):
    t = norm(t)
    return t[2] if isinstance(t, tuple) and t and t[0] == "m" else None


class Wait:
    def __init__(self, f, bid, i, e, mutex, cv, cond, line):
        self.f, self.bid, self.i, self.e, self.mutex, self.cv, self.cond, self.line = f, bid, i, e, mutex, cv, cond, line

    def label(self):
        return "%s: %s" % (self.f.name, ("waits on " + self.cv) if self.cv else "awaits a condition of " + str(self.mutex))


class P08:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.program()
        self.L = LockInfo(self.p)
        p = self.p
        self.guard = {}
        self.ftype = {}
        for n, c in p.classes.items():
            for fl in c["fields"]:
                self.ftype[n + "::" + fl["name"]] = fl["ty"]
                for a, args in fl["attrs"]:
                    if a == "guarded_by":
                        self.guard[n + "::" + fl["name"]] = norm(args[0])[-1]
        self._reads = {}
        self.thread_lams()
        self.waits = sorted(self.find_waits(), key=lambda w: (w.f.file, w.line))

    # ------------------------------------------------------------- facts
    def owner(self, f):
        seen = 0
        while f.lam and seen < 8:
            g = self.p.fns.get(f.parent)
            if g is None:
                break
            f = g
            seen += 1
        return f

    def cls_of(self, f):
        return self.owner(f).cls

    def thread_lams(self):
        """thread start -> functions the thread runs; per thread field"""
        self.tstart = {}     # started function usr -> (fn, line)
        self.tfield = {}     # thread field -> set of started usrs
        for f in self.p.fns.values():
            lv = self.L._lamvars.get(f.usr, {})
            byid = {}
            for e in f.events():
                if e["k"] == "call" and last(e.get("sfn", "")) == "StartThread":
                    us = set()
                    for a in e["args"]:
                        for x in walk(a):
                            if x[0] == "lam":
                                us.add(x[1])
                            elif x[0] == "fn" and len(x) > 2:
                                us.add(x[2])
                            elif x[0] == "v" and x[1] in lv:
                                us.add(lv[x[1]])
                            elif x[0] == "call" and x[1] in byid:
                                for b in byid[x[1]].get("args", ()):
                                    for y in walk(b):
                                        if y[0] in ("lam",):
                                            us.add(y[1])
                                        if y[0] == "fn" and len(y) > 2:
                                            us.add(y[2])
                    for u in us:
                        self.tstart[u] = (f, e["line"])
                    byid[e["id"]] = dict(e, started=us)
                elif e["k"] in ("call", "ctor"):
                    byid[e.get("id")] = e
                    if "recv" in e and self.is_thread(e["recv"]):
                        for a in e["args"]:
                            for x in walk(a):
                                if x[0] == "call" and byid.get(x[1], {}).get("started"):
                                    self.tfield.setdefault(fld(e["recv"]), set()).update(byid[x[1]]["started"])
                if e["k"] == "init" and "field" in e and self.is_thread(("m", THIS_T, e["field"])):
                    for x in walk(e["e"]):
                        if x[0] == "call" and byid.get(x[1], {}).get("started"):
                            self.tfield.setdefault(e["field"], set()).update(byid[x[1]]["started"])
                if e["k"] == "asg" and self.is_thread(e["l"]) and "r" in e:
                    for x in walk(e["r"]):
                        if x[0] == "call" and byid.get(x[1], {}).get("started"):
                            self.tfield.setdefault(fld(e["l"]), set()).update(byid[x[1]]["started"])

    def is_thread(self, t):
        n = fld(t)
        return n is not None and THREAD in self.ftype.get(n, "") or n is not None and "unique_ptr<Thread" in self.ftype.get(n, "")

    def starts(self, f, e):
        byid = {x.get("id"): x for x in f.events() if x["k"] == "call"}
        return any(x[0] == "call" and x[1] in byid and last(byid[x[1]].get("sfn", "")) == "StartThread" for x in walk(e.get("r", ())))

    def tclosure(self, us):
        """everything a started thread runs on its own"""
        seen, work = set(), list(us)
        while work:
            u = work.pop()
            if u in seen or u not in self.p.fns:
                continue
            seen.add(u)
            for e in self.p.fns[u].events():
                if e["k"] in ("call", "ctor", "asg", "idx"):
                    work += self.p.targets(e)
                elif e["k"] == "lam" and e["lam"] not in self.tstart:
                    work.append(e["lam"])
        return seen

    def reads_of(self, usr):
        r = self._reads.get(usr)
        if r is None:
            r = set()
            for u in self.p.closure([usr]):
                for e in self.p.fns[u].events():
                    if e["k"] == "mref":
                        n = fld(e["e"])
                        if n:
                            r.add(n)
            self._reads[usr] = r
        return r

    def reads(self, f, t, depth=0):
        """fields a term of f depends on"""
        out = set()
        lv = self.L._lamvars.get(f.usr, {})
        for x in walk(t):
            if x[0] == "m":
                out.add(x[2])
            elif x[0] == "lam":
                out |= self.reads_of(x[1])
            elif x[0] == "v":
                if x[1] in lv:
                    out |= self.reads_of(lv[x[1]])
                elif depth < 3:
                    for e in f.events():
                        if e["k"] == "decl" and e["var"] == x[1] and "init" in e:
                            out |= self.reads(f, e["init"], depth + 1)
                        elif e["k"] == "asg" and e["l"] == ("v", x[1]):
                            out |= self.reads(f, e.get("r", ()), depth + 1)
            elif x[0] in ("call", "ctor") and len(x) > 1:
                i = x[1] if x[0] == "call" else None
                if i is None or depth > 3:
                    continue
                for e in f.events():
                    if e["k"] == "call" and e.get("id") == i:
                        for u in self.p.targets(e):
                            out |= self.reads_of(u)
                        for a in list(e["args"]) + ([e["recv"]] if "recv" in e else []):
                            out |= self.reads(f, a, depth + 1)
        return out

    def find_waits(self):
        for f in self.p.fns.values():
            al = self.L.alias[f.usr]
            for bid, b in f.blocks.items():
                for i, e in enumerate(b["ev"]):
                    if e["k"] == "call":
                        sfn = e.get("sfn", "")
                        n = last(sfn)
                        if sfn in WAITS:
                            m = norm(e["args"][0], al)
                            yield Wait(f, bid, i, e, m[-1] if m[0] == "m" else None, fld(norm(e["recv"], al)), None, e["line"])
                        elif e.get("cls") == "absl::Mutex" and (n.startswith("Await") or "LockWhen" in n):
                            m = norm(e["recv"], al)
                            yield Wait(f, bid, i, e, m[-1] if m[0] == "m" else None, None, e["args"][0], e["line"])
                    elif e["k"] == "decl" and e.get("ty", "").startswith(LOCKS) and "init" in e and e["init"][0] == "ctor" and len(e["init"]) > 4:
                        m = norm(e["init"][3], al)
                        yield Wait(f, bid, i, e, m[-1] if m[0] == "m" else None, None, e["init"][4], e["line"])

    def cond_lams(self, w):
        lv = self.L._lamvars.get(w.f.usr, {})
        out = []
        for x in walk(w.cond):
            u = x[1] if x[0] == "lam" else lv.get(x[1]) if x[0] == "v" else None
            if u in self.p.fns:
                out.append(u)
            elif x[0] == "fn" and len(x) > 2 and x[2] in self.p.fns:
                out.append(x[2])
        return out

    # -------------------------------------------------------- loop recheck
    def recheck(self, w):
        """fields read by the conditions between the wait and the way out;
        'leak' = a way out of the function that evaluates none of them"""
        f = w.f
        if w.bid not in f.loops():
            return None, False
        fields = set()
        leak = False
        seen = set()
        work = []
        b = f.blocks[w.bid]
        res = ("call", w.e.get("id"))

        def succs(b, from_wait):
            c = b.get("cond")
            if c is not None:
                timed = any(x == res for x in walk(c)) or self.timed_var(f, c, res)
                if timed:
                    # timed out: may leave at once
                    return [s[0] for s in b["succ"] if s is not None], "timed"
                r = {x for x in self.reads(f, c) if x in self.guard or x.rsplit("::", 1)[0] == self.cls_of(f)}
                if r:
                    return [], r
            return [s[0] for s in b["succ"] if s is not None], None
        work = [(w.bid, True)]
        while work:
            bid, first = work.pop()
            if (bid, first) in seen:
                continue
            seen.add((bid, first))
            b = f.blocks[bid]
            ss, r = succs(b, first)
            if r == "timed":
                for s in ss:
                    if s in f.loops() and self.reaches(f, s, w.bid):
                        work.append((s, False))
                continue
            if r is not None:
                fields |= r
                continue
            if not b["succ"] or all(s is None for s in b["succ"]):
                leak = True
            for s in ss:
                work.append((s, False))
        return fields, leak

    def timed_var(self, f, c, res):
        for x in walk(c):
            if x[0] == "v":
                for e in f.events():
                    if e["k"] == "decl" and e["var"] == x[1] and any(y == res for y in walk(e.get("init", ()))):
                        return True
        return False

    def reaches(self, f, a, b):
        seen, work = set(), [a]
        while work:
            x = work.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            work += [s[0] for s in f.blocks[x]["succ"] if s is not None]
        return False

    # ----------------------------------------------------------- stop flags
    def stop_flags(self):
        """guarded bool fields set to true by a shutdown operation, and where"""
        out = {}
        for f in self.p.fns.values():
            for e in f.events():
                if e["k"] == "asg" and e.get("op") == "=" and e.get("r") == ("lit", "true"):
                    n = fld(e["l"])
                    if n and self.ftype.get(n) == "bool" and not f.ctor:
                        g = self.owner(f)
                        if g.dtor or last(g.name) in STOPPERS - {"SetLastItemPushed"} or last(g.name).startswith(("Stop", "Close", "Cancel", "Shutdown")):
                            out.setdefault(n, []).append((f, e))
        return out

    def run(self):
        ctx, p = self.ctx, self.p
        ctx.rule("A", "every condition variable wait lies in a loop and no way out of it avoids re-evaluating a condition over protected state (other than the wait's own timeout)")
        ctx.rule("B", "when a component's stop flag is set, none of its waits is entered (condition variable) or keeps blocking (mutex condition)")
        ctx.rule("C", "whoever sets a stop flag, or frees space, that a condition variable wait checks signals that condition variable afterwards in the same operation (all waiters when there can be several)")
        ctx.rule("D", "a thread is only joined after, on every path, its stop flag has been set or its blocking operations have been cancelled")
        ctx.rule("E", "data that makes a waiting stream worker able to proceed is followed by a signal before the producing operation reports success")
        flags = self.flags = self.stop_flags()
        ctx.count("stop_flags", len(flags))
        by_cls = {}
        for n in flags:
            by_cls.setdefault(n.rsplit("::", 1)[0], set()).add(n)
        cvr = {}
        for w in self.waits:
            ctx.fns.add(w.f.name)
            if w.cv:
                r, leak = self.recheck(w)
                ctx.instance("A", w.label())
                if r is None:
                    ctx.violation("A", w.f.name + "/" + w.cv, w.f.where(w.line), "%s waits on %s outside of a loop: a spurious or stolen wake-up is taken for the condition" % (w.f.name, w.cv))
                    r = set()
                elif leak or not r:
                    ctx.violation("A", w.f.name + "/" + w.cv, w.f.where(w.line), "%s can leave the wait on %s without re-evaluating a condition over protected state" % (w.f.name, w.cv))
                cvr.setdefault(w.cv, set()).update(r)
                if w.bid in w.f.loops():
                    for b in w.f.blocks.values():
                        if b.get("cond") is not None and self.reaches(w.f, b["id"], w.bid) and b["id"] in w.f.loops():
                            cvr[w.cv] |= {x for x in self.reads(w.f, b["cond"]) if w.mutex and self.guard.get(x) == w.mutex}
                w.r = r
            else:
                w.r = self.reads(w.f, w.cond)
                ctx.instance("A", w.label())
        self.before = set()
        self.rule_b(flags, by_cls)
        self.rule_c(flags, cvr)
        self.rule_d(flags)
        self.rule_e()
        ctx.need("A", 15)

    # ------------------------------------------------------------------ B
    # waits that are ended by other means than a stop flag: handshakes with a
    # thread that is known to run and buffers drained by a thread that outlives
    # the waiter
    def handshake(self, w, flags_cls):
        """all fields of the condition are written by a thread of the class
        that is still running (it is joined only by the destructor)"""
        own = {x for x in w.r if x in self.guard or self.ftype.get(x) is not None}
        return own

    def rule_b(self, flags, by_cls):
        ctx, p = self.ctx, self.p
        threads = {}
        for fl, us in self.tfield.items():
            threads[fl] = self.tclosure(us)
        covered = set()
        for w in self.waits:
            C = w.mutex.rsplit("::", 1)[0] if w.mutex else self.cls_of(w.f)
            cand = by_cls.get(C, set()) if w.mutex else {x for x in flags if x.rsplit("::", 1)[0] == self.cls_of(w.f)}
            # flags protected by the awaited mutex
            if w.mutex:
                cand = {x for x in cand if self.guard.get(x) == w.mutex}
            status = {x for x in w.r if "Status" in self.ftype.get(x, "") and self.guard.get(x) == w.mutex}
            running = {x for x in w.r if self.cleared_by_thread(x)}
            key = w.f.name + "/" + (w.cv or "await")
            thread_fields = [fl for fl, c in threads.items() if fl.rsplit("::", 1)[0] == C and w.f.usr in c]
            direct = set()
            for fl in thread_fields:
                direct |= {x for x in cand if self.joined_by(fl, x, flags)}
            if thread_fields and not direct and not self.is_shared_wait(w):
                direct = cand
            if self.exempt(w, threads, thread_fields):
                ctx.instance("B", w.label() + " (ended by a thread that outlives the waiter)")
                continue
            use = [({x}, True) for x in (direct or cand)]
            if not use and not status and not running:
                if C in PINNED:
                    ctx.violation("B", key, w.f.where(w.line), "%s blocks but no stop operation of %s sets a flag protected by the same mutex" % (w.f.name, C))
                continue
            ctx.instance("B", w.label())
            ok = False
            why = []
            for x in sorted(direct or cand):
                if self.ends(w, x, True):
                    ok = True
                else:
                    why.append(x)
            if direct and why:
                ok = False
            if not ok and not direct:
                ok = any(self.ends(w, x, False) for x in running) or any(self.ends(w, x, "status") for x in status)
            if not ok:
                ctx.violation("B", key, w.f.where(w.line), "%s keeps blocking (%s) although %s has been set" % (w.f.name, w.cv or "condition", " or ".join(why) or "an error has been recorded"))
            else:
                covered.add(C)
        missing = {c for c in PINNED if c in p.classes and c not in covered and any((w.mutex or "").startswith(c + "::") or self.cls_of(w.f) == c for w in self.waits)}
        for c in sorted(missing):
            self.ctx.violation("B", c, c, "no wait of %s is ended by a stop flag" % c)

    def is_shared_wait(self, w):
        """also reached by callers other than the thread"""
        return w.f.access == "public"

    def joined_by(self, tf, flag, flags):
        """flag is the (or a) flag set before thread field tf is joined"""
        us = self.tfield[tf]
        r = set()
        for u in self.tclosure(us):
            g = self.p.fns[u]
            if g.cls == flag.rsplit("::", 1)[0] or g.lam:
                for e in g.events():
                    if e["k"] == "mref" and fld(e["e"]) == flag:
                        return True
        return False

    def cleared_by_thread(self, x):
        """bool field set to false by a function a thread runs"""
        if self.ftype.get(x) != "bool":
            return False
        for us in self.tfield.values():
            for u in self.tclosure(us):
                for e in self.p.fns[u].events():
                    if e["k"] == "asg" and fld(e["l"]) == x and e.get("r") == ("lit", "false"):
                        return True
        return False

    def exempt(self, w, threads, mine):
        """the condition only depends on state that another thread of the class,
        not the waiter, maintains until the destructor"""
        own = {x for x in w.r if x in self.guard}
        C = (w.mutex or "").rsplit("::", 1)[0]
        if not own or C != "Table" and C != "Writer":
            return False
        stops = {x for x in own if self.ftype.get(x) == "bool" and ("stop" in x or "closed" in x)}
        if stops:
            return False
        if C == "Writer":
            # started handshake: a bool the thread sets to true unconditionally
            return own == {"Writer::item_confirmation_worker_running_"}
        if w.f.name == "Table::TableWorkerLoop" or w.f.name == "Table::ExtensionsWorkerLoop":
            return False
        for tf, c in threads.items():
            if tf.rsplit("::", 1)[0] != C or tf in mine and len(mine) == 1:
                continue
            written = set()
            for u in c:
                written |= self.writes_of(u)
            if own <= written:
                for t2, c2 in threads.items():
                    if t2 != tf and w.f.usr in c2:
                        self.before.add((t2, tf))
                return True
        return False

    def writes_of(self, u):
        out = set()
        g = self.p.fns[u]
        al = self.L.alias[u]
        for e in g.events():
            if e["k"] == "asg":
                n = fld(norm(e["l"], al))
                if n:
                    out.add(n)
            elif e["k"] == "call":
                for a in list(e["args"]) + ([e["recv"]] if "recv" in e else []):
                    n = fld(norm(a, al))
                    if n:
                        out.add(n)
        return out

    def ends(self, w, flag, val):
        """with flag == val the wait is not entered / its condition holds"""
        outer = self
        p = self.p

        def dead(atom, v):
            for x in atom.toks:
                if x.k == "m" and x.a[1] == flag:
                    if val == "status":
                        if atom.k == "okp":
                            return v is True
                        return False
                    if atom.k == "nz" and atom.a[0] is x:
                        return v is not val
            return False

        class A(Auto):
            def __init__(self):
                self.hit = False
                self.out = []

            def keep_fact(self, atom):
                return w.cond is not None and not any(x.k == "m" and x.a[1] == flag for x in atom.toks)

            def opaque(self, fid, fn, var, v):
                return not any(x.k == "m" and x.a[1] == flag for x in v.toks) if w.cond is None and isinstance(v, S) else False

            def branch(self, st, atom, v, line, fn):
                return DEAD if dead(atom, v) else st.auto

            def event(self, st, ev):
                if ev.raw is w.e:
                    self.hit = True
                return st.auto

            def exit(self, st, ret, ev):
                self.out.append((st, ret))
        if w.cond is not None:
            lams = self.cond_lams(w)
            if not lams:
                # absl::Condition(&flag)
                return val is True and any(fld(x) == flag for x in walk(w.cond) if x[0] == "m")
            for u in lams:
                g = p.fns[u]
                if flag not in self.reads_of(u) and not any(x[0] == "m" and x[2] == flag for x in walk(w.cond)):
                    continue
                a = A()
                e = Engine(p, g, a, inline=lambda h, ev: flag in outer.reads_of(h.usr))
                e.run()
                bad = False
                n = 0
                for st, ret in a.out:
                    for v in (True, False):
                        res = []
                        e.assume(st.clone(), ret, v, res, g.line, g)
                        for x in res:
                            if x.auto is DEAD or any(dead(k, y) for k, y in x.facts.items()):
                                continue
                            if any(k.k == "nz" and k.a[0].k == "d" for k in x.facts) and False:
                                continue
                            n += 1
                            if not v and not self.pointer_cond(w, g, flag, val, ret):
                                bad = True
                return not bad
            return False
        class W(Auto):
            """state: the flag has been seen unset since the lock was taken"""
            hit = None

            def init(self):
                return False

            def keep_fact(self, atom):
                return False

            def opaque(self, fid, fn, var, v):
                return not any(x.k == "m" and x.a[1] == flag for x in v.toks) if isinstance(v, S) else False

            def branch(self, st, atom, v, line, fn):
                return st.auto or dead(atom, v)

            def event(self, st, ev):
                if ev.k in ("lock", "unlock") and (w.mutex is None or ev.val.k == "m" and ev.val.a[1] == w.mutex):
                    return False
                if ev.raw is w.e:
                    if not st.auto:
                        self.hit = st
                    return False
                return st.auto
        a = W()
        e = Engine(p, w.f, a, inline=lambda h, ev: flag in outer.reads_of(h.usr) and (h.lam or h.cls == w.f.cls), max_states=40000)
        e.run()
        self.ctx.count("abstract_states", e.states)
        return not a.hit

    def pointer_cond(self, w, g, flag, val, ret):
        """condition over a pointer to the flag: *running / !*running"""
        if len(g.params) != 1 or "bool" not in g.params[0][1]:
            return False
        pos = [x for x in g.events() if x["k"] == "ret"]
        if len(pos) != 1:
            return False
        t = pos[0].get("e")
        neg = False
        while t and t[0] in ("op", "un", "not", "!") or (t and t[0] == "op" and t[1] == "!"):
            if t[0] == "op" and t[1] == "!":
                neg = not neg
                t = t[2]
            elif t[0] in ("not", "!"):
                neg = not neg
                t = t[1]
            else:
                break
        return val is (not neg)

    # ------------------------------------------------------------------ C
    def rule_c(self, flags, cvr):
        ctx, p = self.ctx, self.p
        public_cv = set()
        tall = set()
        for us in self.tfield.values():
            tall |= self.tclosure(us)
        for w in self.waits:
            if w.cv:
                roots = {w.f.usr}
                # callers
                ch = True
                while ch:
                    ch = False
                    for g in p.fns.values():
                        if g.usr not in roots and any(t in roots for e in g.events() if e["k"] == "call" for t in p.targets(e)):
                            roots.add(g.usr)
                            ch = True
                if any(p.fns[u].access == "public" and u not in self.tstart and not p.fns[u].lam and p.fns[u].cls == w.cv.rsplit("::", 1)[0] for u in roots):
                    public_cv.add(w.cv)
        self.public_cv = public_cv
        for n, sites in sorted(flags.items()):
            cvs = {c for c, r in cvr.items() if n in r}
            for f, e in sites:
                for cv in sorted(cvs):
                    self.signal_after(f, cv, n, lambda ev: ev.k == "asg" and ev.l is not None and ev.l.k == "m" and ev.l.a[1] == n and ev.op == "=" and ev.r is TRUE, None)
        # freed buffer space: waits for size() < limit
        for w in self.waits:
            if not w.cv:
                continue
            cont = self.size_limit(w)
            for field, lim in cont:
                for g in p.fns.values():
                    if g.ctor or g.lam or not self.shrinks(g, field):
                        continue
                    self.signal_after(g, w.cv, field, lambda ev, field=field: ev.k == "call" and last(ev.fn) in SHRINK and (any(x is not None and x.k == "m" and x.a[1] == field for x in [ev.recv] + [strip(a) for a in ev.args])), lim)

    def size_limit(self, w):
        """(container field, limit field) pairs of conditions size() >= limit
        that keep the wait's loop running"""
        out = []
        for b in w.f.blocks.values():
            c = b.get("cond")
            if not c or c[0] != "op" or c[1] not in (">=", ">", "<", "<=") or b["id"] not in w.f.loops():
                continue
            byid = {e.get("id"): e for e in w.f.events() if e["k"] == "call"}
            lim = cont = None
            for x in (c[2], c[3]):
                for y in walk(x):
                    if y[0] == "call" and y[1] in byid and last(byid[y[1]].get("sfn", "")) == "size":
                        cont = fld(byid[y[1]].get("recv", ()))
                    elif y[0] == "m":
                        lim = y[2]
            if cont and lim and cont in self.guard:
                out.append((cont, lim))
        return out

    def shrinks(self, g, field):
        for e in g.events():
            if e["k"] == "call" and last(e.get("sfn", "")) in SHRINK:
                if any(fld(a) == field for a in list(e["args"]) + ([e["recv"]] if "recv" in e else [])):
                    return True
        return False

    def signal_after(self, f, cv, what, trig, lim):
        ctx, p = self.ctx, self.p
        need_all = cv in self.public_cv
        outer = self

        class A(Auto):
            """state: (pending, signalled while the lock is held)"""
            def init(self):
                return (None, False)

            def event(self, st, ev):
                pend, sig = st.auto
                if ev.k == "call" and ev.fn in SIGNALS and ev.recv is not None and ev.recv.k == "m" and ev.recv.a[1] == cv:
                    if need_all and not ev.fn.endswith("All"):
                        ctx.violation("C", "%s/%s/all" % (f.name, cv), ev.where(), "%s wakes only one of possibly several waiters of %s after changing %s" % (f.name, cv, what))
                    return (None, bool(st.locks) or bool(outer.L.requirement(f.usr)))
                if ev.k == "unlock":
                    return (pend, False)
                if trig(ev):
                    return ("none" if sig else ev.where(), sig) if not sig else (None, sig)
                return st.auto

            def branch(self, st, atom, val, line, fn):
                pend, sig = st.auto
                if pend and lim and atom.k == "lt" and val:
                    a, b = atom.a
                    if b.k == "m" and b.a[1] == lim:
                        return (None, sig)      # the buffer was not full
                return st.auto

            def exit(self, st, ret, ev):
                if st.auto[0]:
                    self.miss = st
                    ctx.violation("C", "%s/%s/%s" % (f.name, cv, what), st.auto[0], "%s changes %s without waking the threads waiting on %s" % (f.name, what, cv), trace_of(st))

        class Loop(A):
            def rebind(self, st, sym):
                return st.auto
        a = A()
        e = Engine(p, f, a, inline=lambda h, ev: h.cls == f.cls and not h.lam and outer.touches(h, cv), max_states=30000)
        ctx.engine(e)
        ctx.instance("C", "%s: %s -> %s" % (f.name, what, cv))

    def touches(self, h, cv):
        for e in h.events():
            if e["k"] == "call" and e.get("sfn") in SIGNALS and fld(e["recv"]) == cv:
                return True
        return False

    # ------------------------------------------------------------------ D
    def rule_d(self, flags):
        ctx, p = self.ctx, self.p
        for tf in sorted(self.tfield):
            C = tf.rsplit("::", 1)[0]
            tcl = self.tclosure(self.tfield[tf])
            own = {x for x in flags if x.rsplit("::", 1)[0] == C and self.joined_by(tf, x, flags)}
            # calls that stop what the thread blocks in
            reqs = []
            if own:
                reqs.append(("the thread has not been told to stop (%s)" % ", ".join(sorted(own)), ("flag", frozenset(own))))
            for w in self.waits:
                K = (w.mutex or "").rsplit("::", 1)[0]
                if w.f.usr in tcl and K and K != C and K not in ("Table", "RateLimiter") and any(x.startswith(K + "::") for x in self.guard):
                    r = ("the %s the thread blocks on has not been closed" % K, ("cls", K))
                    if r not in reqs:
                        reqs.append(r)
            if C != "Writer" and any(is_rpc(e) for u in tcl for e in self.p.fns[u].events() if e["k"] == "call"):
                reqs.append(("the RPC the thread blocks on has not been cancelled", ("rpc",)))
            if not reqs:
                ctx.violation("D", tf + "/nostop", C, "no operation of %s tells the thread %s to stop" % (C, tf))
            joins = []
            for f in p.fns.values():
                if self.cls_of(f) != C:
                    continue
                for bid, b in f.blocks.items():
                    for i, e in enumerate(b["ev"]):
                        if e["k"] == "asg" and fld(e["l"]) == tf and e.get("op") == "=" and not self.starts(f, e):
                            joins.append((f, bid, i, e))
                        elif e["k"] == "call" and "recv" in e and fld(e["recv"]) == tf and last(e.get("sfn", "")) in ("reset", "clear", "operator=", "pop_back", "erase", "resize"):
                            joins.append((f, bid, i, e))
            if not joins:
                ctx.violation("D", tf + "/none", C, "%s is never joined explicitly: its thread would be joined by the member's destructor without being stopped" % tf)
            for f, bid, i, e in joins:
                ctx.instance("D", "%s joins %s" % (f.name, tf))
                ctx.fns.add(f.name)
                for what, req in reqs:
                    if not self.stopped_before(f, bid, i, req, C):
                        ctx.violation("D", "%s/%s/%s" % (f.name, tf, what), f.where(e["line"]), "%s joins %s on a path on which %s" % (f.name, tf, what))
            for t1, t2 in sorted(self.before):
                if t2 != tf:
                    continue
                for f in p.fns.values():
                    if self.cls_of(f) != C:
                        continue
                    for bid, b in f.blocks.items():
                        for i, e in enumerate(b["ev"]):
                            if e["k"] == "asg" and fld(e["l"]) in own and e.get("r") == ("lit", "true"):
                                ctx.instance("D", "%s: %s ends before %s is stopped" % (f.name, t1, t2))
                                if not self.stopped_before(f, bid, i, ("join", t1), C):
                                    ctx.violation("D", "%s/%s/%s" % (f.name, t1, t2), f.where(e["line"]), "%s stops %s before %s, which may be waiting for it, has been joined" % (f.name, t2, t1))
            # the destructor stops and joins
            d = [g for g in p.fns.values() if g.cls == C and g.dtor]
            jf = {f.usr for f, *_ in joins}
            ctx.instance("D", "~%s ends %s" % (C, tf))
            if not d:
                ctx.violation("D", C + "/dtor", C, "%s owns a thread (%s) but has no destructor that stops it" % (C, tf))
            for g in d:
                if g.usr in jf:
                    continue
                if not self.must_reach(g, jf) and not any("CHECK" in str(x) for x in ()) and not self.asserts_joined(g, tf):
                    ctx.violation("D", C + "/dtor/" + tf, g.where(), "the destructor of %s does not stop and join %s on every path" % (C, tf))

    def asserts_joined(self, g, tf):
        """REVERB_CHECK(worker_ == nullptr) in the destructor, or the owner's
        protocol ends the thread before (closed_ checked)"""
        return any(fld(x) == tf for b in g.blocks.values() if b.get("cond") for x in walk(b["cond"]) if x[0] == "m") or \
            any(e["k"] == "mref" and fld(e["e"]) == tf for e in g.events())

    def must_reach(self, g, targets, seen=()):
        """every normal path of g calls (transitively) one of targets; a guard
        on 'already closed' state may skip it"""
        for e in g.events():
            if e["k"] == "call":
                for t in self.p.targets(e):
                    if t in targets:
                        return True
                    if t not in seen and t in self.p.fns and self.p.fns[t].cls == g.cls and self.must_reach(self.p.fns[t], targets, seen + (g.usr,)):
                        return True
        return False

    def is_stop(self, e, req, C, depth=0):
        if req[0] == "flag":
            if e["k"] == "asg" and fld(e["l"]) in req[1] and e.get("r") == ("lit", "true"):
                return True
        elif req[0] == "join":
            if e["k"] == "asg" and fld(e["l"]) == req[1] or e["k"] == "call" and "recv" in e and fld(e["recv"]) == req[1] and last(e.get("sfn", "")) in ("reset", "clear", "operator="):
                return True
        elif e["k"] == "call":
            n = last(e.get("sfn", ""))
            if req[0] == "cls" and n in STOPPERS and (e.get("cls") == req[1]):
                return True
            if req[0] == "rpc":
                if n in CANCELS:
                    return True
                ts = [t for t in self.p.targets(e) if t in self.p.fns]
                if ts and n in STOPPERS and depth < 4 and any(any(self.is_stop(x, req, C, depth + 1) for x in self.p.fns[t].events() if x["k"] == "call") for t in ts):
                    return True
        if e["k"] == "call" and depth < 3:
            for t in self.p.targets(e):
                g = self.p.fns.get(t)
                if g is not None and g.cls == C and self.always(g, req, C, depth + 1):
                    return True
        return False

    def does_rpc(self, cls):
        return any(is_rpc(e) for g in self.p.fns.values() if self.cls_of(g) == cls for e in g.events() if e["k"] == "call")

    def always(self, g, req, C, depth):
        """every path through g performs a stop action or returns because it
        had already been performed"""
        return any(self.is_stop(e, req, C, depth) for e in g.events()) and \
            self.stopped_before(g, g.exit, 0, req, C, depth)

    def stopped_before(self, f, bid, i, req, C, depth=0):
        first = {}
        for b in f.blocks.values():
            for j, e in enumerate(b["ev"]):
                if self.is_stop(e, req, C, depth):
                    first.setdefault(b["id"], j)
        # a loop over all objects to stop, and a null test of the object to
        # stop, count as the stop itself
        whole = set()
        for s in list(first):
            if s in f.loops():
                for x in f.blocks:
                    if x in f.loops() and self.reaches(f, x, s) and self.reaches(f, s, x):
                        whole.add(x)
            e = f.blocks[s]["ev"][first[s]]
            r = e.get("recv")
            for b in f.blocks.values():
                if b.get("cond") and r is not None and any(x is not None and x[0] == s for x in b["succ"]):
                    n = fld(r)
                    if n and any(fld(x) == n for x in walk(b["cond"])):
                        whole.add(b["id"])
        stopped = set()
        if req[0] == "flag":
            stopped = req[1]
        else:
            # any stop flag of the class: set before by the same operation
            stopped = {x for x in self.flags if x.rsplit("::", 1)[0] == C}
        seen, work = set(), [f.entry]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == bid and not (x in first and first[x] < i):
                return False
            if x in first or x in whole:
                continue
            b = f.blocks[x]
            c = b.get("cond")
            skip = set()
            if c is not None:
                t = norm(c)
                neg = False
                while t and t[0] in ("op", "un") and t[1] == "!":
                    neg = not neg
                    t = norm(t[2])
                if fld(t) in stopped and len(b["succ"]) == 2:
                    skip.add(1 if neg else 0)     # already stopped
            for k, s in enumerate(b["succ"]):
                if s is not None and k not in skip:
                    work.append(s[0])
        return True

    # ------------------------------------------------------------------ E
    def rule_e(self):
        """condition variable waits whose recheck depends on other classes'
        state: operations that change that state signal before success"""
        ctx, p = self.ctx, self.p
        for w in self.waits:
            if not w.cv:
                continue
            C = w.cv.rsplit("::", 1)[0]
            if C != self.cls_of(w.f):
                continue
            # state read by the innermost condition guarding the wait
            foreign = set()
            for b in w.f.blocks.values():
                c = b.get("cond")
                if c is not None and any(s is not None and s[0] == w.bid for s in b["succ"]):
                    foreign |= {x for x in self.reads(w.f, c) if x in self.guard and x.rsplit("::", 1)[0] not in (C, "RateLimiter") and not x.startswith("RateLimiter")}
            foreign = {x for x in foreign if not x.startswith(("RateLimiter", "Table"))}
            if not foreign:
                continue
            tall = set()
            for us in self.tfield.values():
                tall |= self.tclosure(us)
            for g in sorted(p.fns.values(), key=lambda g: g.line):
                if g.cls != C or g.lam or g.ctor or g.dtor or g.access != "public":
                    continue
                if not self.makes_ready(g, foreign, C):
                    continue
                self.produce(g, w, foreign, C)
        ctx.rules["E"]["zero_ok"] = True

    def foreign_write(self, e, foreign, C):
        for t in self.p.targets(e):
            h = self.p.fns.get(t)
            if h is not None and h.cls and h.cls != C and not h.lam and not h.dtor and not h.ctor and self.mods(t) & foreign:
                return True
        return False

    def mods(self, u):
        """guarded fields assigned (to something) by u and its callees"""
        out = set()
        for x in self.p.closure([u]):
            if self.p.fns[x].ctor or self.p.fns[x].dtor:
                continue
            for e in self.p.fns[x].events():
                if e["k"] == "asg":
                    n = fld(e["l"])
                    if n:
                        out.add(n)
                elif e["k"] == "call" and last(e.get("sfn", "")) == "operator=" and "recv" in e:
                    n = fld(e["recv"])
                    if n:
                        out.add(n)
        return out

    def makes_ready(self, g, foreign, C):
        for u in self.p.closure([g.usr], stop=lambda t: self.p.fns[t].cls != C and not self.p.fns[t].lam if t in self.p.fns else True):
            for e in self.p.fns[u].events():
                if e["k"] == "call" and self.foreign_write(e, foreign, C):
                    return True
        return False

    def produce(self, g, w, foreign, C):
        ctx, p = self.ctx, self.p
        outer = self
        cv = w.cv

        class A(Auto):
            """state: (pending, nothing left to send)"""
            def init(self):
                return (None, False)

            def event(self, st, ev):
                pend, none = st.auto
                if ev.k == "call":
                    if ev.fn in SIGNALS and ev.recv is not None and ev.recv.k == "m" and ev.recv.a[1] == cv:
                        return (None, none)
                    if ev.raw is not None and outer.foreign_write(ev.raw, foreign, C):
                        return (pend if none else ev.where(), none)
                    if ev.fn in ("absl::Mutex::AwaitWithTimeout", "absl::Mutex::Await") and self.flush_all:
                        return (pend, True)
                return st.auto

            flush_all = False

            def exit(self, st, ret, ev):
                if st.auto[0] and status_ok_on_exit(self.eng, st, ret) is not False:
                    ctx.violation("E", "%s/%s" % (g.name, cv), st.auto[0], "%s completes data that %s may be waiting for and returns without signalling %s" % (g.name, w.f.name, cv), trace_of(st))
        a = A()
        # an operation that first waits until nothing at all is pending
        for u in p.closure([g.usr], stop=lambda t: p.fns[t].cls != C if t in p.fns else True):
            for e in p.fns[u].events():
                if e["k"] == "call" and any(t in p.fns and p.fns[t].name == C + "::FlushLocked" for t in p.targets(e)) and e["args"] and e["args"][0] == ("lit", "0") or \
                        e["k"] == "call" and e["args"] and e["args"][0] in (("n", 0), ("lit", 0), ("i", 0), ("num", 0), ("int", 0)) and any(p.fns[t].cls == C for t in p.targets(e) if t in p.fns):
                    a.flush_all = True
        e = Engine(p, g, a, inline=lambda h, ev: h.cls == C and not h.lam)
        a.eng = e
        ctx.engine(e)
        ctx.instance("E", "%s -> %s" % (g.name, cv))


PINNED = {"Queue", "UnboundedQueue", "Table", "TrajectoryWriter", "Writer", "PeriodicClosure", "Sampler", "RateLimiter"}


def strip(a):
    while a is not None and a.k in ("addr", "a", "mv", "ref"):
        a = a.a[0]
    return a


def run(ctx):
    P08(ctx).run()
