"""Status discipline: every outcome is used, and success is not reported after a failure."""
import re
from engine.util import *
from engine.explore import subst
from engine.ir import AnalysisBroken

STATUS = re.compile(r"^(const )?(absl|tsl|grpc|tensorflow)::Status$")
PAIR = re.compile(r"^(const )?std::pair<[^<>]*, *absl::Status>$")
# reading a status for a message is not handling it
LOGGERS = ("operator<<", "ToString", "message", "error_message", "code", "error_code", "ok", "CheckOk", "stream", "str", "StrCat", "StrFormat")
# operations that report their outcome as a bool
BOOLS = ("Queue::Pop", "UnboundedQueue::Pop", "Writer::ConfirmItems", "Writer::WritePendingData",
         "TrajectoryWriter::SendItem", "SendNotAlreadySentChunks", "TrajectoryColumn::LockReferences", "RateLimiter::MaybeCommitSample",
         "TrajectoryWriter::GetNextPendingItem", "tsl::CancellationManager::RegisterCallback", "tensorflow::Tensor::FromProto", "tensorflow::Tensor::CopyFrom")
# failures that are an answer rather than an error of the caller, with the reason
ANSWERS = {
    "DeleteQueue::PopBatch": "the queue was closed: the cleanup thread has nothing left to do",
    "UnboundedQueue::PopBatch": "as above",
    "Client::GetLocalTablePtr": "no direct access to the table: the sampler uses the stream instead",
    "Table::InsertOrAssignInternal": "a queued item that turns out to be invalid has no caller left to tell: the worker logs it and serves the others",
    "RateLimiter::CheckIfCancelled": "tells the table worker to shut down, which is not a failure of the worker",
}

# ... and in one function only: what its caller needs to know is decided by another outcome
ANSWERS_IN = {
    ("Writer::Close", "Finish"): "whether everything that was sent has been confirmed decides; a stream that ends badly after that loses nothing",
}


def constant(n):
    return n.endswith("Error") or n in CONVERT or n in ("move", "forward", "Status", "operator=", "OkStatus", "value", "get", "exchange")


ERRORS = set(x + y for x in ("InvalidArgument", "Internal", "NotFound", "Cancelled", "Unavailable", "DataLoss", "OutOfRange", "FailedPrecondition",
                              "DeadlineExceeded", "Unimplemented", "AlreadyExists", "Unknown", "Aborted", "PermissionDenied", "ResourceExhausted", "TableNotFound") for y in ("", "Error"))


def is_err(s):
    """an expression that is an error by construction"""
    if s is None or s is OK:
        return False
    if s.k == "errstatus":
        return True
    if s.k == "call" and last(s.a[0]) in ERRORS:
        return True
    return s.k == "ctor" and STATUS.match(str(s.a[0]) + "") is not None and len(s.a) > 2


def fallible(ev):
    """a call whose value is the outcome of an operation (not a copy or constant)"""
    if ev.k != "call" or ev.val is None or ev.val.k in ("okstatus", "errstatus") or ev.val is OK:
        return False
    n = last(ev.fn)
    if STATUS.match((ev.raw or {}).get("ty", "")) or PAIR.match((ev.raw or {}).get("ty", "")) and n not in ("make_pair", "pair"):
        return not constant(n) and "errors::" not in ev.fn and n not in ERRORS and n != "operator()"
    if (ev.raw or {}).get("ty", "") == "bool":
        return ev.fn in BOOLS or n.startswith("ParseFrom") or "snappy" in ev.fn.lower() or "Snappy" in n or (ev.fn.startswith("grpc::") and n == "Read")
    return False


def local(s):
    return s.a[0] if s is not None and s.k in ("v", "phi") and s.a and isinstance(s.a[0], str) else None


def stored(s):
    """part of *this: an outcome that has been recorded already"""
    while isinstance(s, S) and s.k in ("m", "idx", "elem", "deref", "cast"):
        s = s.a[-1] if s.k == "cast" else s.a[0]
        if s is THIS:
            return True
    return False


def is_log(ev):
    return last(ev.fn or "") in LOGGERS or last(ev.fn or "").startswith("Format") or "log" in (ev.fn or "").lower() or any(
        y.k == "ctor" and "LogMessage" in str(y.a[0]) for x in tuple(ev.args or ()) + (ev.recv,) if x is not None for y in x.toks)


CONVERT = ("FromTensorflowStatus", "FromGrpcStatus", "ToGrpcStatus", "ToTensorflowStatus")
# an error of one of these kinds may be handled by going on; others are never an expected outcome
EXPECTED = ("IsCancelled", "IsDeadlineExceeded", "IsUnavailable", "IsOutOfRange", "IsResourceExhausted", "IsNotFound", "IsRateLimiterTimeout", "IsInsufficientDataError", "IsLocalSamplerTimeout")


def referenced(g):
    """ids of the calls whose value is used by another expression"""
    ids = set()

    def walk(t):
        if isinstance(t, (tuple, list)):
            if len(t) == 2 and t[0] == "call":
                ids.add(t[1])
            for x in t:
                walk(x)
        elif isinstance(t, dict):
            for k, x in t.items():
                if k not in ("id", "line"):
                    walk(x)
    for b in (g.blocks.values() if isinstance(g.blocks, dict) else g.blocks):
        walk(b)
    return ids


def mentions_calls(t, ids):
    if isinstance(t, (tuple, list)):
        return (len(t) == 2 and t[0] == "call" and t[1] in ids) or any(mentions_calls(x, ids) for x in t)
    return False


def has(s, v):
    """s mentions v (the first half of a pair says nothing about the status in the second)"""
    if s is v:
        return True
    if v not in s.toks or s.k == "m" and s.a[0] is v and str(s.a[1]).endswith("::first"):
        return False
    return any(isinstance(x, S) and has(x, v) for x in s.a)


class Use(Auto):
    """items: (new, value, where, callee, variable) outcomes not looked at yet;
    (passed, value) handed to something; (failed, value, where) seen to have failed"""

    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g
        self.sites, self.exits, self.vals = {}, [], set()
        self.decls = set()
        # locals that hold the answer to a question about a status
        asks = {e["id"] for e in g.calls() if "id" in e and (re.match(r"Is[A-Z]", last(e.get("sfn") or "")) or (e.get("sfn") or "").endswith("Status::ok"))}
        self.tests = {e.get("var") for e in g.events() if e["k"] == "decl" and mentions_calls(e.get("init"), asks)}
        self.kernel = any("OpKernelContext" in t or "OpKernelConstruction" in t for _, t in g.params)  # reports through the context

    def init(self):
        return frozenset()

    def keep_fact(self, atom):
        return atom.k == "okp" and not stored(atom.a[0]) or atom.k == "nz" and isinstance(atom.a[0], S) and atom.a[0].k == "p"

    def opaque(self, fid, fn, var, val):
        return not (is_err(val) or var in self.tests or val.k in ("okstatus", "g", "phi", "v", "lam", "p") or any(x.k == "call" and x.a[0] in self.vals for x in val.toks))

    def touch(self, a, syms, strong=False):
        """these expressions have been looked at; strong: handed to something that may act on them"""
        for s in syms:
            if s is None:
                continue
            names = set(local(x) for x in s.toks)
            for x in list(a):
                if x[0] == "new" and (has(s, x[1]) or x[4] is not None and x[4] in names):
                    a.discard(x)
                if strong and x[0] in ("new", "failed", "seen") and (has(s, x[1]) or x[-1] is not None and x[-1] in names):
                    a.discard(x)
                    if x[0] != "failed":
                        a.add(("passed", x[1]))

    def replaced(self, st, a, var, r):
        for x in list(a):
            if x[0] == "new" and x[4] == var and (r is None or x[1] not in r.toks):
                if any(y[0] == "failed" for y in a):
                    a.discard(x)
                    continue
                self.drop(st, x)
                a.discard(x)

    def drop(self, st, x):
        self.ctx.violation("A", "%s/%s" % (self.g.name, last(x[3])), x[2], "the outcome of %s is dropped" % x[3], trace_of(st))

    def answer(self, s):
        return s.k == "call" and (s.a[0] in ANSWERS or (self.g.name, last(s.a[0])) in ANSWERS_IN)

    def event(self, st, ev):
        a = set(st.auto)
        var, val = None, None
        if ev.k == "decl":
            self.decls.add((ev.raw or {}).get("var"))
            var, val = (ev.raw or {}).get("var"), ev.val
        elif ev.k == "asg" and ev.op == "=" and local(ev.l) in self.decls:
            var, val = local(ev.l), ev.r
        if var is not None:
            if val is not None and is_err(val):
                # another error is reported instead
                a = {x for x in a if x[0] not in ("new", "failed") or x[-1] != var}
            self.replaced(st, a, var, val)
            if val is not None:
                for x in list(a):
                    if x[0] == "new" and x[1] in val.toks:
                        a.discard(x)
                        a.add(x[:4] + (var,))
            return frozenset(a)
        ignored = ev.k == "call" and last(ev.fn) == "IgnoreError"
        if ignored and not last(self.g.name).startswith("~") and not any(x[0] == "failed" for x in a):  # else rule B reports if the first failure is lost
            self.ctx.violation("A", "%s/ignored" % self.g.name, ev.where(), "%s is ignored explicitly" % ev.recv, trace_of(st))
        if ev.k not in ("ret", "dtor") and last(ev.fn or "") not in CONVERT and not self.classifier(ev.val if ev.k == "call" else None):
            syms = tuple(ev.args or ()) + (ev.l, ev.r, ev.recv)
            self.touch(a, syms, strong=not is_log(ev))
            if is_log(ev):
                for x in list(a):
                    if x[0] == "failed" and any(s is not None and (x[1] in s.toks or x[3] is not None and x[3] in [local(y) for y in s.toks]) for s in syms):
                        a.add(("logged", x[1]))
            if any(is_err(y) for s in syms if s is not None for y in s.toks) and not is_log(ev):
                # another error is reported
                a = {x for x in a if x[0] not in ("new", "failed")}
        if fallible(ev):
            self.sites[ev.where()] = ev.fn
            self.vals.add(ev.fn)
            a = {x for x in a if x[1] is not ev.val}
            a.add(("new", ev.val, ev.where(), ev.fn, None))
        return frozenset(a)

    @staticmethod
    def classifier(s):
        """asks whether a status is one particular error"""
        return s is not None and s.k == "call" and (re.match(r"Is[A-Z]", last(s.a[0])) is not None and s.a[0].split("::")[0] in ("absl", "errors", "tensorflow", "tsl")
                                                    or re.match(r"Is[A-Z]\w*(Error|Timeout)$", last(s.a[0])) is not None)

    def rebind(self, st, sym):
        old = mk("prev", sym)
        return frozenset(tuple(subst(y, sym, old) if isinstance(y, S) and sym in y.toks else y for y in x) for x in st.auto)

    def branch(self, st, atom, val, line, fn):
        a = set(st.auto)
        passed = any(x[0] == "passed" and x[1] in atom.toks for x in a)
        if not (not val and any(self.classifier(y) for y in atom.toks)):
            self.touch(a, [atom], strong=val and any(self.classifier(y) and last(y.a[0]) in EXPECTED for y in atom.toks))
        if val and last(str(root_field(atom.a[0]) if atom.k in ("nz", "bool") and isinstance(atom.a[0], S) else None)) == "is_finished_":
            a = {x for x in a if x[0] != "failed"}  # the call has already been answered
        a = {x for x in a if not (x[0] == "passed" and x[1] in atom.toks)}
        if atom.k == "okp":
            s = atom.a[0]
            if not val and stored(s):
                a = {x for x in a if x[0] != "new"}  # an earlier error stands
            if not val and s.k not in ("okstatus", "errstatus") and not passed and not stored(s) and not self.answer(s):
                a.add(("failed", s, fn.where(line), local(s)))
        return frozenset(a)

    def exit(self, st, ret, ev):
        a = set(st.auto)
        err = is_err(ret) or status_ok_on_exit(self, st, ret) is False
        if ret is not None and ret is not VOID:
            self.touch(a, [ret], strong=True)
        for x in a:
            if x[0] == "new" and not err:
                self.drop(st, x)
            if x[0] == "failed" and ("logged", x[1]) in a and (ret is None or ret is VOID) and not self.kernel:
                continue  # nobody to report to
            if x[0] == "failed" and not err and ret is not FALSE:
                self.unreported(st, x, ret)

    def unreported(self, st, x, ret):
        s = x[1]
        self.ctx.violation("B", "%s/%s" % (self.g.name, last(s.a[0]) if s.k == "call" else str(s)), x[2],
                           "%s reports success although %s failed" % (self.g.name, s), trace_of(st))


def run(ctx):
    ctx.rule("A", "the outcome of every fallible call is used")
    ctx.rule("B", "no function reports success on a path where an operation was seen to fail")
    prog = ctx.program()
    for g in sorted(prog.fns.values(), key=lambda g: g.where()):
        if not g.blocks or not any(STATUS.match(e.get("ty", "")) or e.get("ty") == "bool" for e in g.calls()):
            continue
        a = Use(ctx, g)
        ctx.engine(Engine(prog, g, a, inline=lambda k, ev: False))
        used = referenced(g)
        for e in g.calls():
            if STATUS.match(e.get("ty", "")) and last(e.get("sfn") or "") == "operator()" and e.get("k") == "call":
                ctx.instance("A", "callback at %s" % g.where(e["line"]))
                if e["id"] not in used:
                    ctx.violation("A", "%s/callback" % g.name, g.where(e["line"]), "the outcome of a callback is dropped", [])
        for w, f_ in a.sites.items():
            ctx.instance("A", "%s at %s" % (f_, w))
        if a.sites:
            ctx.instance("B", g.name)
