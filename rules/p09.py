"""Lock discipline of all guarded state (lock-set analysis of every function)."""
from rules.locklib import *

# state that is protected by a mutex (Class::field -> mutex field). Taken from
# the declarations when they are present; the entries below stay protected
# even when a declaration loses its annotation.
PINNED = {
    "Queue": ("mu_", "pushes_ pops_ closed_ last_item_pushed_ num_waiting_to_pop_ num_waiting_to_push_ buffer_"),
    "UnboundedQueue": ("mu_", "buffer_ size_ closed_ last_item_pushed_"),
    "ChunkStore": ("mu_", "data_"),
    "Table": ("mu_", "sampler_ remover_ data_ episode_refs_ num_deleted_episodes_ num_unique_samples_ extension_requests_ "
              "stop_extension_worker_ extension_worker_sleeps_ sync_extensions_ has_async_extensions_"),
    "Table ": ("worker_mu_", "pending_inserts_ pending_sampling_ deleted_items_ notify_inserts_ok_ worker_state_ stop_worker_ table_mutated_"),
    "Table  ": ("async_extensions_mu_", "async_extensions_"),
    "CellRef": ("mu_", "chunk_"),
    "Chunker": ("mu_", "options_ buffer_ offset_ next_chunk_key_ active_refs_ key_generator_"),
    "AutoTunedChunkerOptions": ("mu_", "max_chunk_length_ prev_score_ items_ chunks_"),
    "Sampler": ("mu_", "requested_ returned_ worker_status_ closed_"),
    "TrajectoryWriter": ("mu_", "episode_id_ episode_step_ closed_ unrecoverable_status_ write_queue_ in_flight_items_ context_"),
    "Writer": ("mu_", "num_items_in_flight_ item_confirmation_worker_running_ item_confirmation_worker_stop_requested_ item_confirmation_worker_thread_"),
    "Client": ("cached_table_mu_", "tables_state_id_ cached_flat_signatures_"),
    "PeriodicClosure": ("mu_", "stopped_"),
    "ServerImpl": ("mu_", "running_"),
    "GrpcSamplerWorker": ("mu_", "context_ closed_"),
    "LocalSamplerWorker": ("mu_", "closed_"),
    "TableExtensionBase": ("table_mu_", "table_"),
    "ReverbServerTableReactor": ("mu_", "responses_to_send_ still_reading_ is_finished_ is_cancelled_ request_"),
    "WorkerlessSampleReactor": ("ReverbServerTableReactor::mu_", "task_info_ current_response_size_bytes_ waiting_for_enqueued_sample_"),
    "WorkerlessInsertReactor": ("ReverbServerTableReactor::mu_", "chunks_"),
}
# fields shared between threads without a lock
ATOMIC = {"ServerImpl::stop_signalled_"}
# single-writer state: read without the lock by the (only) API thread; the
# worker thread reads it and the API thread writes it only under the lock
OWNER = {"TrajectoryWriter::chunkers_": "TrajectoryWriter::mu_"}
# handed over before the other thread exists / after it was joined
HANDOVER = {"Table::callback_executor_", "Table::table_worker_", "Table::extension_worker_",
            "Writer::stream_", "Writer::context_"}
THREADISH = ("internal::Thread", "PeriodicClosure")
SIZE_ONLY = ("size", "empty", "capacity", "operator[]", "at", "begin", "end", "front", "back", "data", "cbegin", "cend")


def plain(t):
    """the field itself, not what it points to"""
    return isinstance(t, tuple) and t and t[0] == "m"


class P09:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.program()
        self.L = LockInfo(self.p)
        self.guard = {}
        for n, c in self.p.classes.items():
            for fl in c["fields"]:
                for a, args in fl["attrs"]:
                    if a in ("guarded_by", "pt_guarded_by") and args and args[0][0] == "m":
                        self.guard[n + "::" + fl["name"]] = args[0][2]
        for c, (mu, fields) in PINNED.items():
            c = c.strip()
            if c not in self.p.classes:
                continue
            have = {fl["name"] for fl in self.p.classes[c]["fields"]}
            m = mu if "::" in mu else c + "::" + mu
            mc, mf = m.split("::")
            if mc not in self.p.classes or mf not in {fl["name"] for fl in self.p.classes[mc]["fields"]}:
                continue
            for x in fields.split():
                if x in have:
                    fl = self.p.field(c, x)
                    if "atomic" in fl["ty"]:
                        continue
                    self.guard.setdefault(c + "::" + x, m)
        self.ftype = {n + "::" + fl["name"]: fl["ty"] for n, c in self.p.classes.items() for fl in c["fields"]}
        self.static_size = self._static_size()

    def _static_size(self):
        """guarded containers that only their constructor resizes"""
        bad = set()
        for f in self.p.fns.values():
            if f.ctor:
                continue
            al = self.L.alias[f.usr]
            for e in f.events():
                if e["k"] == "call" and "recv" in e:
                    t = norm(e["recv"], al)
                    if t[0] == "m" and t[2] in self.guard and last(e.get("sfn", "")) not in SIZE_ONLY:
                        bad.add(t[2])
                elif e["k"] == "asg" and plain(e["l"]):
                    t = norm(e["l"], al)
                    if t[0] == "m":
                        bad.add(t[2])
                elif e["k"] in ("call", "ctor"):
                    for i in e.get("outp", ()):
                        if i < len(e["args"]):
                            t = norm(e["args"][i], al)
                            if t[0] == "m":
                                bad.add(t[2])
        return {q for q in self.guard if q not in bad}

    # -------------------------------------------------------------- phases
    def free_events(self, f):
        """(block, idx) of events of a constructor before other threads may
        exist, and of a destructor after all own threads were joined"""
        out = set()
        if not (f.ctor or f.dtor):
            return out
        threads = {q for c in [f.cls] + list(self.p.classes.get(f.cls, {}).get("bases", [])) if c in self.p.classes
                   for q in [c + "::" + fl["name"] for fl in self.p.classes[c]["fields"]]
                   if any(t in self.ftype[q] for t in THREADISH)}
        start = frozenset() if f.dtor else frozenset(["x"])
        ins = {f.entry: start}
        work = [f.entry]
        while work:
            bid = work.pop()
            b = f.blocks[bid]
            cur = set(ins[bid])
            for i, e in enumerate(b["ev"]):
                if (f.dtor and threads <= cur) or (f.ctor and "x" in cur):
                    out.add((bid, i))
                else:
                    out.discard((bid, i))
                if f.ctor:
                    if e["k"] in ("call", "ctor") and self.publishes(f, e):
                        cur.discard("x")
                else:
                    cur |= self.joins(f, e, threads)
            for s in b["succ"]:
                if s is None:
                    continue
                o = ins.get(s[0])
                n = frozenset(cur) if o is None else o & frozenset(cur)
                if n != o:
                    ins[s[0]] = n
                    work.append(s[0])
        return out

    def publishes(self, f, e):
        n = last(e.get("sfn", ""))
        if n in ("StartThread", "Schedule", "RegisterCallback", "StartRead", "StartWrite"):
            return True
        for t in self.p.targets(e):
            for u in self.p.closure([t]):
                for x in self.p.fns[u].events():
                    if x["k"] == "call" and last(x.get("sfn", "")) in ("StartThread", "StartRead", "StartWrite"):
                        return True
        return False

    def joins(self, f, e, threads, seen=None):
        out = set()
        seen = seen or set()

        def field(t):
            t = norm(t)
            return t[2] if t[0] == "m" and t[2] in threads else None
        if e["k"] == "asg":
            q = field(e["l"])
            if q:
                out.add(q)
        if e["k"] == "call":
            if "recv" in e:
                q = field(e["recv"])
                if q and last(e.get("sfn", "")) in ("reset", "clear", "Stop", "Close", "operator=", "Join"):
                    out.add(q)
            for t in self.p.targets(e):
                if t not in seen and t in self.p.fns and self.p.fns[t].cls == f.cls:
                    seen.add(t)
                    for x in self.p.fns[t].events():
                        out |= self.joins(self.p.fns[t], x, threads, seen)
        return out

    # -------------------------------------------------------------- rules
    def run(self):
        ctx, p, L = self.ctx, self.p, self.L
        ctx.rule("A", "every access to guarded state happens with its mutex held (lock-set must-analysis of every function, entry lock sets from declarations and call sites)")
        ctx.rule("B", "every call of a function that requires a mutex is made with it held")
        ctx.rule("C", "no reference or iterator into guarded state is used without the mutex or returned by a function that acquires it itself")
        ctx.rule("D", "state reachable from a background thread and from the public operations of the same object is guarded, atomic, immutable or handed over before the thread starts")
        ctx.rule("E", "flags shared without a lock are atomic")
        nacc = 0
        for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
            if not f.blocks:
                continue
            al = L.alias[f.usr]
            free = self.free_events(f)
            used = False
            derived = self.derived(f, al)
            for v in derived:
                ctx.instance("C", "%s %s into %s" % (f.name, v.split("@")[0], derived[v][1]))
            for bid, b in f.blocks.items():
                for i, e in enumerate(b["ev"]):
                    if e["k"] == "mref":
                        t = norm(e["e"], al)
                        if t[0] == "m" and t[2] in self.guard:
                            used = True
                            nacc += 1
                            if (bid, i) in free and t[1] == THIS_T:
                                continue
                            lk = ("m", t[1], self.guard[t[2]])
                            if not L.held(f, bid, i, lk) and not self.benign(f, b, i, e, t, al):
                                ctx.violation("A", "%s@%s" % (t[2], f.name), f.where(e["line"]),
                                              "%s accesses %s without holding %s" % (f.name, t[2], self.guard[t[2]]))
                    w = self.written(e, al)
                    if w is not None and (bid, i) not in free:
                        lk = ("m", w[1], self.guard[w[2]])
                        if L.shared(f, bid, i, lk):
                            ctx.violation("A", "shared:%s@%s" % (w[2], f.name), f.where(e["line"]),
                                          "%s modifies %s while holding %s for reading only" % (f.name, w[2], lk[2]))
                    if e["k"] in ("call", "ctor"):
                        self.check_call(f, bid, i, e, al, free)
                    for v, lk, q in self.uses_derived(e, derived):
                        if not L.held(f, bid, i, lk) and (bid, i) not in free:
                            ctx.violation("C", "%s@%s" % (q, f.name), f.where(e.get("line")),
                                          "%s uses %s, which refers into %s, after releasing %s" % (f.name, v.split("@")[0], q, lk[2]))
                    if e["k"] == "ret" and "e" in e and (f.ret.endswith("&") or f.ret.endswith("*")) and not f.lam:
                        t = e["e"]
                        addr = f.ret.endswith("&") or t[0] == "a"
                        t = norm(t, al) if not (f.ret.endswith("*") and t[0] != "a") else ()
                        if addr and t and t[0] == "m" and t[2] in self.guard and not L.requirement(f.usr):
                            ctx.violation("C", "ret:%s@%s" % (t[2], f.name), f.where(e["line"]), "%s returns a reference to %s beyond its critical section" % (f.name, t[2]))
            if used:
                ctx.fns.add(f.name)
                ctx.instance("A", f.name + (" (lambda at line %d)" % f.line if f.lam else ""))
        ctx.count("guarded_accesses", nacc)
        ctx.count("guarded_fields", len(self.guard))
        for q in sorted(self.guard):
            ctx.instance("A", "field %s guarded by %s" % (q, self.guard[q]))
        self.rule_d()
        for q in ATOMIC:
            if q in self.ftype:
                ctx.instance("E", q)
                if "atomic" not in self.ftype[q] and q not in self.guard:
                    ctx.violation("E", q, q, "%s is shared between threads but neither atomic nor guarded" % q)
        ctx.need("A", 60)

    def written(self, e, al):
        """guarded path the event modifies"""
        t = None
        if e["k"] == "asg":
            t = e["l"]
        elif e["k"] == "call" and "recv" in e and not is_pure(e) and e.get("usr") not in self.p.fns:
            t = e["recv"]
        elif e["k"] == "idx" and "map" in (e.get("rty") or e.get("sfn") or ""):
            t = e["recv"]
        elif e["k"] == "mv":
            t = e["e"]
        while isinstance(t, tuple) and t and t[0] in ("idx", "m"):
            if t[0] == "m" and t[2] in self.guard:
                return norm(t, al)
            t = t[1]
        return None

    def benign(self, f, b, i, e, t, al):
        # the size of a container that is only sized by its constructor, or
        # the address of a flag that a wait condition reads under the lock
        if t[2] in self.static_size:
            for x in b["ev"][i + 1:i + 4]:
                if x["k"] == "call" and "recv" in x and norm(x["recv"], al) == t and last(x.get("sfn", "")) in ("size", "empty", "capacity"):
                    return True
        for bb in f.blocks.values():
            for x in bb["ev"]:
                if x["k"] == "ctor" and x.get("sfn", "").startswith("absl::Condition"):
                    for a in x["args"]:
                        if a[0] == "a" and norm(a, al) == t and x["line"] == e["line"]:
                            return True
        return False

    def check_call(self, f, bid, i, e, al, free):
        u = e.get("usr")
        if not u:
            return
        r = self.L.requirement(u)
        if r == "all" or not r:
            return
        g = self.p.fns.get(u)
        for l in r:
            if l[0] == "m" and l[1] == THIS_T:
                need = ("m", norm(e.get("recv", THIS_T), al), l[2])
            elif l[0] == "m" and l[1][0] == "v" and g:
                ix = [q for q, _ in g.params].index(l[1][1]) if l[1][1] in [q for q, _ in g.params] else None
                if ix is None or ix >= len(e["args"]):
                    continue
                need = ("m", norm(e["args"][ix], al), l[2])
            elif l[0] == "v":
                need = None
                aty = e.get("aty", [])
                if g and l[1] in [q for q, _ in g.params]:
                    ix = [q for q, _ in g.params].index(l[1])
                    need = norm(e["args"][ix], al) if ix < len(e["args"]) else None
                else:
                    c = [k for k, ty in enumerate(aty) if "Mutex" in (ty or "")]
                    if len(c) == 1 and c[0] < len(e["args"]):
                        need = norm(e["args"][c[0]], al)
                if need is None:
                    continue
            else:
                continue
            self.ctx.instance("B", "%s -> %s" % (f.name, e["sfn"]))
            if (bid, i) in free and need[0] == "m" and need[1] == THIS_T:
                continue
            if not (u, l) in self.L.shared_req and self.L.shared(f, bid, i, need):
                self.ctx.violation("B", "shared:%s->%s" % (f.name, e["sfn"]), f.where(e["line"]), "%s calls %s with the mutex held for reading only" % (f.name, e["sfn"]))
            if not self.L.held(f, bid, i, need):
                self.ctx.violation("B", "%s->%s" % (f.name, e["sfn"]), f.where(e["line"]),
                                   "%s calls %s without holding %s" % (f.name, e["sfn"], need[2] if need[0] == "m" else need[1].split("@")[0]))

    # ---------------------------------------------------- derived references
    def derived(self, f, al):
        """local reference/iterator -> (lock, guarded field)"""
        out = {}

        def src(t, depth=0):
            """guarded path a reference expression refers into"""
            while isinstance(t, tuple) and t:
                k = t[0]
                if k in ("a", "mv"):
                    t = t[1]
                elif k == "d":
                    t = t[1]
                    if t[0] == "v" and t[1] in iters:
                        return iters[t[1]]
                    return None
                elif k == "m":
                    q = t[2]
                    if q in self.guard:
                        return (("m", norm(t[1], al), self.guard[q]), q)
                    t = t[1]
                elif k == "idx":
                    t = t[1]
                elif k == "call":
                    e = calls.get(t[1])
                    if e is None or "recv" not in e:
                        return None
                    n = last(e.get("sfn", ""))
                    if n in ("front", "back", "at", "operator[]", "operator*", "operator->"):
                        t = e["recv"]
                        if n in ("operator*", "operator->") and not (t[0] == "v" and t[1] in iters):
                            return None
                    elif n in ("find", "begin", "end", "lower_bound", "upper_bound", "cbegin", "cend", "rbegin", "rend"):
                        t = e["recv"]
                    else:
                        return None
                elif k == "v":
                    return iters.get(t[1]) or out.get(t[1])
                else:
                    return None
            return None
        calls = {}
        iters = {}
        for b in f.blocks.values():
            for e in b["ev"]:
                if e["k"] in ("call", "idx") and "id" in e:
                    calls[e["id"]] = e
        for _ in range(3):
            for e in f.events():
                if e["k"] != "decl" or "init" not in e:
                    continue
                ty = e.get("ty", "")
                if "iterator" in ty:
                    s = src(e["init"])
                    if s:
                        iters[e["var"]] = s
                elif e.get("ref"):
                    if "shared_ptr" in ty and not e["var"].startswith("__"):
                        pass
                    s = src(e["init"])
                    if s:
                        out[e["var"]] = s
        self._iters = iters
        return dict(out, **iters)

    def uses_derived(self, e, derived):
        if not derived or e["k"] == "dtor":
            return
        seen = set()
        if e["k"] in ("deref", "mref", "idx", "call", "ctor", "asg", "ret", "decl", "mv"):
            ts = list(terms(e))
            for t in ts:
                for x in walk(t):
                    if x[0] == "v" and x[1] in derived and x[1] not in seen and not (e["k"] == "decl" and e["var"] == x[1]):
                        seen.add(x[1])
                        yield (x[1],) + derived[x[1]]

    # ------------------------------------------------------- thread sharing
    def rule_d(self):
        ctx, p, L = self.ctx, self.p, self.L
        ths = []

        def outer(f):
            while f.lam and f.parent in p.fns:
                f = p.fns[f.parent]
            return f
        for f in p.fns.values():
            cs = {e["id"]: e for e in f.events() if e["k"] in ("call", "ctor") and "id" in e}
            for e in f.events():
                if e["k"] == "call" and last(e.get("sfn", "")) in ("StartThread", "Schedule"):
                    work = list(e["args"])
                    seen = set()
                    while work:
                        a = work.pop()
                        for x in walk(a):
                            if x[0] == "lam":
                                ths.append((outer(f).cls, x[1], f))
                            elif x[0] == "fn" and len(x) > 2 and x[2] in p.fns:
                                ths.append((p.fns[x[2]].cls, x[2], f))
                            elif x[0] == "call" and x[1] in cs and x[1] not in seen:
                                seen.add(x[1])
                                work += list(cs[x[1]]["args"])
        tl = {t[1] for t in ths}

        def clo(us):
            seen, work = set(), list(us)
            while work:
                u = work.pop()
                if u in seen or u not in p.fns:
                    continue
                seen.add(u)
                for e in p.fns[u].events():
                    if e["k"] in ("call", "ctor", "asg", "idx"):
                        work += [t for t in p.targets(e)]
                    elif e["k"] == "lam" and e["lam"] not in tl:
                        work.append(e["lam"])
            return seen
        for C, w, fn in ths:
            if not C or C not in p.classes:
                continue
            fields = {C + "::" + fl["name"] for fl in p.classes[C]["fields"]}
            for bc in p.classes[C]["bases"]:
                if bc in p.classes:
                    fields |= {bc + "::" + fl["name"] for fl in p.classes[bc]["fields"]}
            W = self.accesses(clo([w]), fields, fn)
            A = self.accesses(clo([f.usr for f in p.methods(C) if f.access == "public" and not f.ctor and not f.dtor]), fields, fn)
            for q in sorted(set(W) & set(A)):
                ty = self.ftype.get(q, "")
                if any(x in ty for x in ("Mutex", "CondVar", "atomic", "Notification")) or ty.startswith("const ") or q in self.guard:
                    continue
                ctx.instance("D", "%s used by thread of %s and by its operations" % (q, C))
                if q in HANDOVER:
                    continue
                own = OWNER.get(q)
                for x in W[q]:
                    for y in A[q]:
                        if not (x[0] or y[0]):
                            continue
                        if x[1] & y[1] and not own:
                            continue
                        if own and own in x[1] and (own in y[1] or not y[0]):
                            continue
                        ctx.violation("D", q, y[2].where(y[3]), "%s is accessed by the background thread of %s (%s) and by %s (%s), one of them writing, without a common lock"
                                      % (q, C, x[2].where(x[3]), y[2].name, y[2].where(y[3])))
                        break

    def accesses(self, us, fields, starter):
        out = {}
        for u in us:
            f = self.p.fns[u]
            if f.ctor or f.dtor or u == starter.usr:
                continue
            al = self.L.alias[u]
            for bid, b in f.blocks.items():
                for i, e in enumerate(b["ev"]):
                    hit = []
                    if e["k"] == "mref":
                        hit.append((norm(e["e"], al), False))
                    elif e["k"] == "asg":
                        l = e["l"]
                        while l and l[0] == "idx":
                            l = l[1]
                        if l[0] == "m":
                            hit.append((norm(l, al), True))
                        elif l[0] == "call":
                            for x in f.events():
                                if x["k"] in ("idx", "call") and x.get("id") == l[1] and "recv" in x and plain(x["recv"]):
                                    hit.append((norm(x["recv"], al), True))
                    elif e["k"] == "call" and "recv" in e and plain(e["recv"]) and not is_pure(e) and last(e.get("sfn", "")) != "operator[]" and e.get("usr") not in self.p.fns:
                        hit.append((norm(e["recv"], al), True))
                    elif e["k"] == "mv" and plain(e["e"]):
                        hit.append((norm(e["e"], al), True))
                    for t, w in hit:
                        if t[0] == "m" and t[2] in fields and t[1] == THIS_T:
                            h = frozenset(l[2] for l in self.L.heldset(f, bid, i) if l[0] == "m")
                            out.setdefault(t[2], []).append((w, h, f, e["line"]))
        return out


def run(ctx):
    P09(ctx).run()
