"""Lock order graph, self-deadlocks and blocking operations under a lock."""
from rules.locklib import *

JOIN_FIELD = "internal::Thread"
WAITS = ("absl::CondVar::Wait", "absl::CondVar::WaitWithTimeout", "absl::CondVar::WaitWithDeadline")
MU_WAITS = ("Await", "AwaitWithTimeout", "AwaitWithDeadline")
MU_LOCKS = ("Lock", "WriterLock", "ReaderLock", "LockWhen", "ReaderLockWhen", "LockWhenWithTimeout", "LockWhenWithDeadline", "WriterLockWhen")
BLOCKING_EXT = {"absl::Notification::WaitForNotification": "waits for a notification",
                "absl::Notification::WaitForNotificationWithTimeout": "waits for a notification",
                "absl::BlockingCounter::Wait": "waits for a counter", "absl::SleepFor": "sleeps", "std::thread::join": "joins a thread",
                "grpc::Server::Wait": "waits for the server", "grpc::Server::Shutdown": "waits for the server"}
RPC_NAMES = {"Read", "Write", "Finish", "WritesDone", "WaitForInitialMetadata", "WriteLast"}
# the life cycle lock of the server serialises starting and stopping; the
# threads that end the waits of a starting table never take it (joining one of
# the server's own threads under it would still be an error)
LIFECYCLE = {("ServerImpl::mu_", "waits on a condition variable"), ("ServerImpl::mu_", "waits for a condition"), ("ServerImpl::mu_", "waits for the server")}


def is_rpc(e):
    sfn = e.get("sfn", "")
    cls = e.get("cls", "") or ""
    n = last(sfn)
    t = (cls + " " + str(e.get("rty", "")))
    if n in RPC_NAMES and ("grpc::ClientReader" in t or "grpc::ClientWriter" in t or "grpc::ServerReader" in t or "ReaderWriter" in t or "ReaderInterface" in t or "WriterInterface" in t):
        return True
    return ("StubInterface" in t or "ReverbService::Stub" in t) and "async" not in sfn and n[:1].isupper() and not n.endswith("Stream") and n not in ("async",)


class P10:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.program()
        self.L = LockInfo(self.p)
        self.acq = {}
        self.blk = {}

    def direct(self, f):
        """(lock, event) acquisitions in f itself"""
        al = self.L.alias[f.usr]
        for bid, b in f.blocks.items():
            for i, e in enumerate(b["ev"]):
                if e["k"] == "decl" and e.get("ty", "").startswith(LOCKS):
                    m = self.L.lock_of(e, al)
                    if m is not None:
                        yield m, bid, i, e
                elif e["k"] == "call" and e.get("cls") == "absl::Mutex" and last(e["sfn"]) in MU_LOCKS:
                    yield norm(e["recv"], al), bid, i, e

    def blocking(self, f):
        """(kind, mutex released while blocked, event)"""
        al = self.L.alias[f.usr]
        for bid, b in f.blocks.items():
            for i, e in enumerate(b["ev"]):
                if e["k"] == "call":
                    sfn = e.get("sfn", "")
                    if sfn in WAITS:
                        yield "waits on a condition variable", norm(e["args"][0], al), bid, i, e
                    elif e.get("cls") == "absl::Mutex" and last(sfn) in MU_WAITS:
                        yield "waits for a condition", norm(e["recv"], al), bid, i, e
                    elif e.get("cls") == "absl::Mutex" and "LockWhen" in last(sfn):
                        yield "waits for a condition", norm(e["recv"], al), bid, i, e
                    elif sfn in BLOCKING_EXT:
                        yield BLOCKING_EXT[sfn], None, bid, i, e
                    elif is_rpc(e):
                        yield "performs an RPC operation (%s)" % last(sfn), None, bid, i, e
                    elif "recv" in e and last(sfn) in ("reset", "clear", "operator=") and self.is_thread(norm(e["recv"], al)):
                        yield "joins a thread", None, bid, i, e
                    elif (last(sfn) == "operator()" and sfn.startswith("std::function")) or (not e.get("usr") and "target" in e):
                        t = e.get("recv") or e.get("target")
                        if not self.known_lambda(f, t):
                            yield "invokes a callback", None, bid, i, e
                elif e["k"] == "asg" and self.is_thread(norm(e["l"], al)) and e["op"] == "=" and not self.starts(f, e):
                    yield "joins a thread", None, bid, i, e

    def known_lambda(self, f, t):
        t = norm(t)
        lv = self.L._lamvars.get(f.usr, {})
        return t[0] == "lam" or t[0] == "v" and t[1] in lv

    def starts(self, f, e):
        r = e.get("r")
        if r is None:
            return False
        cs = {x.get("id"): x for x in f.events() if x["k"] == "call"}
        return any(x[0] == "call" and x[1] in cs and last(cs[x[1]].get("sfn", "")) == "StartThread" for x in walk(r))

    def is_thread(self, t):
        if not t or t[0] != "m":
            return False
        c, _, n = t[2].rpartition("::")
        for fl in self.p.classes.get(c, {}).get("fields", []):
            if fl["name"] == n:
                return JOIN_FIELD in fl["ty"]
        return False

    def summaries(self):
        """transitive acquisitions and blocking operations per function, in
        terms of its own frame; fixpoint"""
        p, L = self.p, self.L
        acq = {u: {} for u in p.fns}      # lock term -> witness string
        blk = {u: {} for u in p.fns}      # (kind, mutex term|None) -> witness
        for u, f in p.fns.items():
            for m, bid, i, e in self.direct(f):
                acq[u].setdefault(m, "%s" % f.where(e.get("line")))
            for k, m, bid, i, e in self.blocking(f):
                blk[u].setdefault((k, m), "%s" % f.where(e.get("line")))
        ch = True
        rounds = 0
        while ch and rounds < 30:
            ch = False
            rounds += 1
            for u, f in p.fns.items():
                al = L.alias[u]
                for e, t in self.callees(f):
                    for m, w in acq[t].items():
                        m2 = self.up(f, e, t, m, al)
                        if m2 not in acq[u]:
                            acq[u][m2] = w
                            ch = True
                    for (k, m), w in blk[t].items():
                        m2 = self.up(f, e, t, m, al) if m is not None else None
                        if (k, m2) not in blk[u]:
                            blk[u][(k, m2)] = w
                            ch = True
        return acq, blk

    def callees(self, f):
        lv = self.L._lamvars.get(f.usr, {})
        for e in f.events():
            if e["k"] in ("call", "ctor"):
                for t in self.p.targets(e):
                    if t != f.usr and not self.p.fns[t].lam:
                        yield e, t
                n = last(e.get("sfn", ""))
                tv = e.get("target") or e.get("recv")
                if (n == "operator()" or "target" in e) and tv is not None:
                    x = norm(tv)
                    u = x[1] if x[0] == "lam" else lv.get(x[1]) if x[0] == "v" else None
                    if u in self.p.fns:
                        yield e, u
                if e.get("sfn", "").startswith(("std::", "absl::")) and n in SYNC_ALGS:
                    for a in e["args"]:
                        for x in walk(a):
                            if x[0] == "lam" and x[1] in self.p.fns:
                                yield e, x[1]
            elif e["k"] == "dtor" and e["var"] in lv and "Cleanup" in e.get("ty", "") and lv[e["var"]] in self.p.fns:
                yield e, lv[e["var"]]

    def up(self, f, e, t, m, al):
        g = self.p.fns[t]
        if g.lam:
            return m
        if m[0] == "m" and m[1] == THIS_T:
            return ("m", norm(e["recv"], al) if "recv" in e else ("?", t[-20:]), m[2])
        if m[0] in ("v", "m"):
            base = m if m[0] == "v" else m[1]
            if base[0] == "v":
                ps = [q for q, _ in g.params]
                if base[1] in ps and ps.index(base[1]) < len(e.get("args", ())):
                    a = norm(e["args"][ps.index(base[1])], al)
                    return a if m[0] == "v" else ("m", a, m[2])
        if m[0] == "m":
            return ("m", ("?", "other"), m[2])
        return ("?", m[0])

    def key(self, m):
        return m[2] if m[0] == "m" else None

    def awaited(self, f, bid, i, h):
        """on every path to this event the function has waited on h (for the
        thread's last action) and not released it since"""
        al = self.L.alias[f.usr]
        ins = {f.entry: False}
        work = [f.entry]
        at = {}
        while work:
            b = f.blocks[work.pop()]
            cur = ins[b["id"]]
            for j, e in enumerate(b["ev"]):
                at[(b["id"], j)] = cur
                if e["k"] == "call" and e.get("cls") == "absl::Mutex" and "recv" in e and norm(e["recv"], al) == h:
                    if last(e["sfn"]) == "Await":
                        cur = True
                    elif "nlock" in last(e["sfn"]):
                        cur = False
            for s in b["succ"]:
                if s is None:
                    continue
                n = cur if s[0] not in ins else ins[s[0]] and cur
                if s[0] not in ins or n != ins[s[0]]:
                    ins[s[0]] = n
                    work.append(s[0])
        return at.get((bid, i), False)

    def run(self):
        ctx, p, L = self.ctx, self.p, self.L
        ctx.rule("A", "the relation 'acquired (directly or in a callee) while holding' between mutex fields has no cycle")
        ctx.rule("B", "no mutex is acquired (directly or in a callee on the same object) while it is already held")
        ctx.rule("C", "no blocking operation (condition wait on another mutex, notification, join, RPC, user callback) is reachable while the table lock, or any other library mutex than the one the wait releases, is held")
        acq, blk = self.summaries()
        edges = {}

        def edge(h, m, f, e, w):
            kh, km = self.key(h), self.key(m)
            if kh is None or km is None:
                return
            edges.setdefault((kh, km), (f.where(e.get("line")), f.name, w))

        def touch(f, bid, i, e, m, w):
            held = L.heldset(f, bid, i)
            for h in held:
                if h == m:
                    ctx.violation("B", "%s@%s" % (self.key(m) or m, f.name), f.where(e.get("line")),
                                  "%s acquires %s while already holding it (%s)" % (f.name, self.key(m) or m, w))
                else:
                    edge(h, m, f, e, w)
        for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
            al = L.alias[f.usr]
            for m, bid, i, e in self.direct(f):
                ctx.fns.add(f.name)
                ctx.instance("B", "%s locks %s" % (f.name, self.key(m) or str(m[-1])))
                touch(f, bid, i, e, m, f.where(e.get("line")))
            for k, m, bid, i, e in self.blocking(f):
                self.judge(f, bid, i, e, k, m, f.where(e.get("line")))
            lvm = None
            for bid, b in f.blocks.items():
                for i, e in enumerate(b["ev"]):
                    if e["k"] not in ("call", "ctor", "dtor"):
                        continue
                    if not L.heldset(f, bid, i):
                        continue
                    if lvm is None:
                        lvm = {}
                        for e2, t in self.callees(f):
                            lvm.setdefault(id(e2), []).append(t)
                    for t in lvm.get(id(e), ()):
                        ctx.instance("C", "%s -> %s" % (f.name, p.fns[t].name))
                        if p.fns[t].lam:
                            continue       # analysed with its own entry lock set
                        entry = L.entry.get(t)
                        for m, w in acq[t].items():
                            touch(f, bid, i, e, self.up(f, e, t, m, al), w)
                        for (k, m), w in blk[t].items():
                            self.judge(f, bid, i, e, k, self.up(f, e, t, m, al) if m is not None else None, w)
        for (a, b), (w, fn, w2) in sorted(edges.items()):
            ctx.instance("A", "%s -> %s (%s)" % (a, b, fn))
        # cycles
        succ = {}
        for a, b in edges:
            succ.setdefault(a, set()).add(b)
        for a in sorted(succ):
            path = self.cycle(succ, a)
            if path:
                i = path.index(min(path[:-1]))
                canon = path[i:-1] + path[:i]
                tr = ["%s -> %s: %s (%s)" % (x, y, edges[(x, y)][0], edges[(x, y)][1]) for x, y in zip(canon, canon[1:] + canon[:1])]
                ctx.violation("A", "->".join(canon), edges[(canon[0], (canon + canon)[1])][0], "lock order cycle: " + " -> ".join(canon + canon[:1]), tr)
        ctx.count("lock_order_edges", len(edges))
        ctx.need("B", 30)

    def cycle(self, succ, a):
        st = [(a, [a])]
        seen = set()
        while st:
            x, path = st.pop()
            for y in succ.get(x, ()):
                if y == a:
                    return path + [a]
                if y not in seen:
                    seen.add(y)
                    st.append((y, path + [y]))
        return None

    def judge(self, f, bid, i, e, kind, m, w):
        for h in self.L.heldset(f, bid, i):
            if m is not None and (h == m or m[0] == "?"):
                continue
            if m is not None and self.key(h) == self.key(m) and m[1][0] == "?":
                continue
            if (self.key(h), kind) in LIFECYCLE:
                continue
            if kind == "joins a thread" and m is None and self.awaited(f, bid, i, h):
                continue
            if h[0] == "v":
                continue      # judged at the callers that pass the mutex
            self.ctx.violation("C", "%s@%s:%s" % (self.key(h), f.name, kind), f.where(e.get("line")),
                               "%s %s (%s) while holding %s" % (f.name, kind, w, self.key(h)))


def run(ctx):
    P10(ctx).run()
