"""The legacy writer neither loses nor duplicates steps and items."""
from engine.util import *
from engine.explore import DEAD, subst
from engine.ir import AnalysisBroken
from rules.p18 import base, mine, var, num
from rules.p16 import callee, calls, dict_, scan, late
from rules.p24 import fld
from rules.p34 import Base, Unknown, num_eval, leaf

LOG, LOC = "inserted_dtypes_and_shapes_", "insert_dtypes_and_shapes_location_"
# size of the log, position
RING = [(m, l) for m in (1, 2, 3, 5) for l in range(m)]
INSERT = ("push_back", "emplace_back")


def reverse(atom):
    return any(callee(y, "rbegin", "rend", "crbegin", "crend") for x in atom.a for y in x.toks)


def starts(atom, o):
    return o[2] is not None and o[2].k == "lit" or any(callee(base(x), "begin", "cbegin") for x in atom.a)


class WBase(Base):
    def out(self, ret):
        return "ok" if ret is OK else "ok" if ret is not None and ret.k == "lit" and False else "err"


class Append(WBase):
    """Writer::Append"""

    def init(self):
        return dict_(pos=tuple(l for _, l in RING), swaps=(), pushed=0, popped=0, same=None, empty=None, small=None, fin=None, it=None, sig=0, skipped=False, late=False)

    def env(self, s, i):
        m = RING[i][0]

        def e(x):
            if mine(x) == LOC:
                return s["pos"][i]
            if mine(x) == "max_timesteps_" or callee(x, "size") and mine(x.a[1]) == LOG:
                return m
            if x.k == "call" and last(x.a[0]) == "PositiveModulo":
                a = [y for y in x.a[1:] if isinstance(y, S) and y.k != "i"]
                return num_eval(a[0], e) % num_eval(a[1], e)
            if x.k == "op" and x.a[0] == "%":
                a, b = num_eval(x.a[1], e), num_eval(x.a[2], e)
                if b == 0:
                    raise Unknown()
                r = abs(a) % abs(b)
                return r if a >= 0 else -r
            if x.k == "cond":
                c = x.a[0]
                if c.k == "op" and c.a[0] in ("==", "<", ">", ">=", "<=", "!=") or c.k in ("eq", "lt"):
                    o = c.a[0] if c.k == "op" else {"eq": "==", "lt": "<"}[c.k]
                    a, b = (num_eval(y, e) for y in (c.a[1:] if c.k == "op" else c.a))
                    t = {"==": a == b, "<": a < b, ">": a > b, ">=": a >= b, "<=": a <= b, "!=": a != b}[o]
                    return num_eval(x.a[1] if t else x.a[2], e)
            return None
        return e

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "empty") and mine(x.a[1]) == "buffer_" and not s["pushed"]:
                s["empty"] = val
        elif atom.k == "eq":
            a, b = base(atom.a[0]), base(atom.a[1])
            for x, y in ((a, b), (b, a)):
                if callee(x, "size") and any(mine(z) == "buffer_" for z in x.toks) and mine(x.a[1]) != "buffer_" and callee(y, "size") and any(z.k == "p" for z in y.toks):
                    s["same"] = val
        elif atom.k == "okp" and callee(atom.a[0], "Finish"):
            s["fin"] = "ok" if val else "err"
        if atom.k in ("lt", "eq"):
            # is the buffer known to be smaller than a chunk
            try:
                def e(n):
                    return lambda x: n if callee(x, "size") and mine(x.a[1]) == "buffer_" else 4 if mine(x) == "chunk_length_" else None
                t = [n for n in range(8) if ((lambda a, b: a == b if atom.k == "eq" else a < b)(*(num_eval(y, e(n)) for y in atom.a))) == val]
                if len(t) < 8 and any(mine(y) == "chunk_length_" for x in atom.a for y in x.toks):
                    n = [x for x in t if x <= 4]
                    s["small"] = (max(n) < 4) if n else False
            except Unknown:
                pass
        o = scan(atom)
        if o is not None and base(o[0]) is not None and base(o[0]).k == "p":
            if s["it"] == "open" and s["sig"] != 1:
                s["skipped"] = True
            if starts(atom, o):
                s["skipped"] = late(o[2]) or reverse(atom)
            s.update(it="left" if val == o[1] else "open", sig=0)
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        r = mine(ev.recv) if ev.recv is not None else None
        if ev.k == "ctor" and n in ("LogMessageFatal",):
            return DEAD
        if ev.k == "asg" and ev.l is not None and mine(ev.l) == LOC:
            op = ev.raw.get("op")
            try:
                if op in ("++", "--"):
                    s["pos"] = tuple(p + (1 if op == "++" else -1) for p in s["pos"])
                elif op in ("+=", "-="):
                    s["pos"] = tuple(p + (1 if op == "+=" else -1) * num_eval(ev.r, self.env(s, i)) for i, p in enumerate(s["pos"]))
                elif op == "%=":
                    s["pos"] = tuple(p % num_eval(ev.r, self.env(s, i)) for i, p in enumerate(s["pos"]))
                else:
                    s["pos"] = tuple(num_eval(ev.r, self.env(s, i)) for i in range(len(RING)))
            except Unknown:
                self.ctx.note("%s: position %r not understood" % (self.g.name, ev.r))
        elif ev.k == "call" and n == "swap" or ev.k == "asg" and ev.l is not None and base(ev.l).k == "idx" and fld(base(ev.l).a[0]) == LOG or ev.k == "call" and n == "exchange":
            xs = list(ev.args) + ([ev.recv] if ev.recv is not None else []) if ev.k == "call" else [ev.l]
            for x in xs:
                for y in x.toks if x is not None else ():
                    if y.k == "idx" and fld(y.a[0]) == LOG:
                        try:
                            p = tuple(num_eval(y.a[-1], self.env(s, i)) for i in range(len(RING)))
                        except Unknown:
                            p = s["pos"]
                            self.ctx.note("%s: position %r not understood" % (self.g.name, y.a[-1]))
                        s["swaps"] = s["swaps"] + (p,)
                        self.n["log"] = 1
                        break
        elif ev.k == "call" and r == "buffer_":
            if n in INSERT:
                s["pushed"] += 1
                self.n["push"] = 1
                if not any(x.k == "p" for x in ev.args[0].toks):
                    self.bad("A", "data", w, "what is buffered is not the step that was passed", st)
                if s["empty"] is not True and s["same"] is not True:
                    self.bad("A", "columns", w, "a step may have another number of tensors than the others of its chunk", st)
            elif n == "pop_back":
                s["popped"] += 1
            elif n in ("insert", "clear", "erase", "pop_front", "resize", "swap"):
                self.bad("A", "order", w, "buffered steps are changed", st)
        elif ev.k == "call" and n in INSERT and s["it"] == "open" and ev.args and calls(ev.args[0], "dtype"):
            s["sig"] += 1
        elif ev.k == "call" and n == "Finish":
            if not s["pushed"]:
                self.bad("A", "early", w, "a chunk is created before the step is part of it", st)
            s["fin"] = "?"
            self.n["finish"] = 1
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        start = tuple(l for _, l in RING)
        nxt = tuple((l + 1) % m for m, l in RING)
        good = ret is OK or s["fin"] == "ok"
        if good or s["fin"] == "?":
            if s["pushed"] - s["popped"] != 1:
                self.bad("A", "lost", w, "success is reported although the step is %s" % ("not part of the buffer" if s["pushed"] <= s["popped"] else "part of the buffer twice"), st)
            if s["pos"] != nxt:
                self.bad("A", "location", w, "the log of signatures does not advance by one entry", st)
            if s["swaps"] != (start,):
                self.bad("A", "log", w, "the signature of the step is not logged at its position", st)
            if s["skipped"]:
                self.bad("A", "signature", w, "the signature that is logged is not that of all tensors of the step", st)
            if s["fin"] is None and s["small"] is not True:
                self.bad("A", "full", w, "a full chunk is not finished", st)
            if s["fin"] == "?":
                self.bad("A", "undo", w, "a failed attempt to send the chunk is not looked at", st)
        else:
            if s["pushed"] != s["popped"]:
                self.bad("A", "undo", w, "the step stays in the buffer although an error is reported", st)
            if s["pos"] != start:
                self.bad("A", "undo-location", w, "the log of signatures advances although an error is reported", st)
            if s["swaps"] not in ((), (start, start)):
                self.bad("A", "undo-log", w, "the log of signatures changes although an error is reported", st)


class Finish(WBase):
    """Writer::Finish"""

    def init(self):
        return dict_(row=None, rowset=0, rows=None, rowok=True, col=None, colset=0, colok=True, batched=None, lists=frozenset(), vec=None, i=None,
                     key=False, ep=False, start=False, end=False, tens=None, tset=0, tok=True, chunk=0, ok=None, idx=0, cleared=False, fresh=False, popped=0, trim=True, unknown=False)

    def env(self, ix, n, start=False):
        def e(x):
            if mine(x) == "index_within_episode_":
                return ix
            if callee(x, "size") and mine(x.a[1]) == "buffer_":
                return n
            if callee(x, "start") and start:
                return ix
            return None
        return e

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k == "okp" and callee(atom.a[0], "WriteWithRetries"):
            s["ok"] = val
            return dict_(**s)
        o = scan(atom)
        if o is not None and o[0] is not None:
            c, leave = base(o[0]), val == o[1]
            if mine(c) == "buffer_":
                # the steps
                if starts(atom, o):
                    s["rowok"] = not late(o[2]) and not reverse(atom)
                elif s["row"] == "open" and s["rowset"] != 1:
                    s["rowok"] = False
                if leave:
                    s["rows"] = s["rowok"]
                s.update(row="left" if leave else "open", rowset=0)
                return dict_(**s)
            if any(fld(y) == "buffer_" for y in c.toks):
                # the tensors of a step
                if starts(atom, o):
                    s["colok"] = not late(o[2]) and not reverse(atom)
                elif s["col"] == "open" and s["colset"] != 1:
                    s["colok"] = False
                if leave:
                    s["batched"] = s["colok"]
                s.update(col="left" if leave else "open", colset=0, rows=None, i=o[2])
                return dict_(**s)
            if s["col"] == "left" and (c.k in ("ctor", "v", "phi", "call", "obj", "cond")) and not s["chunk"]:
                if starts(atom, o):
                    s["tok"] = not late(o[2]) and not reverse(atom)
                elif s["tens"] == "open" and s["tset"] != 1:
                    s["tok"] = False
                s.update(tens=("left" if s["tok"] else "bad") if leave else "open", tset=0)
                return dict_(**s)
        if atom.k == "lt" and s["ok"]:
            # may a chunk be forgotten?
            try:
                bad = False
                pts = [(n, l, m) for n in range(1, 6) for l in (1, 2, 3) for m in (1, 2, 4, 7)]
                keep = []
                for n, l, m in pts:
                    def e(x):
                        if callee(x, "size") and mine(x.a[1]) == "chunks_":
                            return n
                        return {"chunk_length_": l, "max_timesteps_": m}.get(mine(x))
                    a, b = (num_eval(y, e) for y in atom.a)
                    if (a < b) == val:
                        keep.append((n, l, m))
                s["trim"] = all((n - 1) * l >= m for n, l, m in keep) if keep else True
            except Unknown:
                pass
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        r = mine(ev.recv) if ev.recv is not None else None
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        a = ev.args[0] if ev.k == "call" and ev.args else None
        if ev.k == "call" and n in ("CopyFrom",) + INSERT or ev.k == "asg" and ev.l is not None and base(ev.l).k == "idx":
            d = ev.l if ev.k == "asg" else ev.recv
            v = ev.r if ev.k == "asg" else a
            if v is not None and d is not None:
                x = next((y for y in v.toks if y.k in ("idx", "elem") and isinstance(y.a[0], S) and y.a[0].k in ("idx", "elem") and fld(y.a[0].a[0]) == "buffer_"), None)
                if x is not None and r not in ("buffer_", "chunks_"):
                    self.n["rows"] = 1
                    if n != "CopyFrom" or not s["rowset"]:
                        s["rowset"] += 1
                    t = base(d)
                    if t.k == "idx" and x.a[0].k == "idx" and t.a[1] is not x.a[0].a[1]:
                        self.bad("B", "row", w, "a step is not put into its row of the chunk", st)
                    if x.k == "idx" and s["i"] is not None and x.a[1] is not s["i"]:
                        self.bad("B", "column", w, "a column of the chunk is built from tensors of another column", st)
                    v0 = t.a[0] if t.k in ("idx", "elem") else t.a[1] if t.k == "call" and last(t.a[0]) in ("back", "at") else t
                    s["vec"] = base(v0)
        if ev.k == "call" and n == "Concat":
            self.n["concat"] = 1
            if s["rows"] is not True:
                self.bad("B", "rows", w, "a column of the chunk may not hold all steps of the buffer", st)
            if s["vec"] is not None and s["vec"] not in a.toks:
                self.bad("B", "rows", w, "a column of the chunk is built from something else than the steps", st)
            s["colset"] += 1
        elif ev.k == "call" and n == "set_chunk_key" and a is not None:
            s["key"] = mine(a) == "next_chunk_key_"
        elif ev.k == "call" and n == "set_episode_id" and a is not None:
            s["ep"] = mine(a) == "episode_id_"
        elif ev.k == "call" and n in ("set_start", "set_end") and a is not None:
            try:
                s[n[4:]] = all(num_eval(a, self.env(i, k, s["start"])) == (i if n == "set_start" else i + k - 1) for i in (0, 3) for k in (1, 4))
            except Unknown:
                s[n[4:]] = False
        elif ev.k == "call" and n == "add_tensors":
            s["tset"] += 1
        elif ev.k == "call" and r == "chunks_":
            if n in INSERT:
                s["chunk"] += 1
                self.n["chunk"] = 1
                for k, m in (("key", "the key that items refer to"), ("ep", "the id of the episode"), ("start", "its first step"), ("end", "its last step")):
                    if not s[k]:
                        self.bad("B", "chunk-" + k, w, "a chunk does not carry %s" % m, st)
                if s["batched"] is not True or s["tens"] != "left":
                    self.bad("B", "tensors", w, "a chunk may not hold all columns", st)
            elif n == "pop_back":
                s["popped"] += 1
            elif n == "pop_front":
                if s["ok"] is not True or not s["trim"]:
                    self.bad("B", "trim", w, "a chunk is forgotten although items may still refer to it", st)
                s["trim"] = False
            elif n in ("push_front", "insert", "clear", "erase"):
                self.bad("B", "chunks", w, "chunks are not kept in order", st)
        elif ev.k == "call" and n == "WriteWithRetries":
            self.n["write"] = 1
            if s["chunk"] != 1:
                self.bad("B", "unsent", w, "data is sent before the chunk is part of it", st)
            if not (a is not None and base(a).k == "p"):
                self.bad("B", "retry", w, "the choice whether to retry is not passed on", st)
            s["ok"] = None
            s["unknown"] = True
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "index_within_episode_":
            op = ev.raw.get("op")
            try:
                v = [num_eval(ev.r, self.env(i, k)) + (i if op == "+=" else 0) - i for i in (0, 3) for k in (1, 4)]
                good = v == [1, 4, 1, 4] and op in ("+=", "=", None)
            except (Unknown, AttributeError):
                good = False
            if not good or s["cleared"]:
                self.bad("B", "index", w, "the position in the episode does not advance by the number of steps of the chunk", st)
            s["idx"] += 1
        elif ev.k == "call" and r == "buffer_" and n == "clear":
            s["cleared"] = True
        elif ev.k == "call" and r == "buffer_" and n in INSERT + ("pop_back", "erase", "resize"):
            self.bad("B", "buffer", w, "the steps of the chunk change", st)
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "next_chunk_key_":
            s["fresh"] = ev.r is not None and any(x.k == "call" for x in ev.r.toks)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if s["ok"] or ret is OK:
            if not s["unknown"]:
                self.bad("B", "unsent", w, "success is reported although nothing was sent", st)
            for ok, k, m in ((s["cleared"], "twice", "the steps stay in the buffer although they were sent as a chunk"), (s["idx"] == 1, "index", "the position in the episode does not advance"),
                             (s["fresh"], "key", "two chunks have the same key"), (s["popped"] == 0, "chunks", "the chunk is forgotten although items may refer to it")):
                if not ok:
                    self.bad("B", k, w, m, st)
        else:
            for bad, k, m in ((s["cleared"], "lost", "the steps are dropped although the chunk was not sent"), (s["idx"], "index", "the position in the episode advances although the chunk was not sent"),
                              (s["fresh"], "lost-key", "the key of the chunk changes although pending items refer to it"), (s["chunk"] != s["popped"], "twice", "the chunk stays although its steps are sent again later")):
                if bad:
                    self.bad("B", k, w, m, st)


class Send(WBase):
    """Writer::WritePendingData"""

    def init(self):
        return dict_(stream=None, cleared=False, opened=False, worker=False,
                     kit=None, kset=0, git=None, gset=0, kok=True, keysdone=None, gok=True,
                     cit=None, inn=None, sent=None, add=0, keep=0, cdone=None, cok=True,
                     dirty=False, wrote=None, nit=None, nset=0, nok=True, noted=True, empty=None,
                     item=None, keepset=None, conf=None, inflight=None, has=None, confirmed=None, popped=True, counted=True, cnt=False, needconf=None)

    def bad_(self, k, w, m, st):
        self.bad("C", k, w, m, st)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k in ("nz", "bool", "null"):
            x = base(atom.a[0])
            v = val if atom.k != "null" else not val
            if mine(x) == "stream_":
                s["stream"] = v
            elif callee(x, "empty") and mine(x.a[1]) == "pending_items_":
                s["empty"] = v
                self.turn(st, s, w)
            elif callee(x, "contains", "count"):
                k = "sent" if mine(x.a[1]) == "streamed_chunk_keys_" else "inn" if calls(x, "chunk_key") else None
                if k and s[k] is not None and s[k] != v:
                    return DEAD
                if k:
                    s[k] = v
            elif callee(x, "Write"):
                s["wrote"] = v
                if v and s["dirty"]:
                    s["noted"] = False
                if v and s["item"] is not None and s["cdone"] is not None:
                    s["popped"] = False
            elif callee(x, "ConfirmItems"):
                s["confirmed"] = v
            elif callee(x, "has_value") and mine(x.a[1]) == "max_in_flight_items_":
                if s["has"] is not None and s["has"] != v:
                    return DEAD
                s["has"] = v
            elif callee(x, "send_confirmation"):
                if s["conf"] == "has" and s["has"] is not None and s["has"] != v:
                    return DEAD
                if s["conf"] == "has":
                    s["has"] = v
                s["needconf"] = v
            return dict_(**s)
        o = scan(atom)
        if o is None or o[0] is None:
            return dict_(**s)
        c, leave = base(o[0]), val == o[1]
        if mine(c) == "pending_items_":
            if starts(atom, o):
                s["kok"] = not late(o[2])
            elif s["kit"] == "open" and not s["gset"]:
                s["kok"] = False
            s.update(kit="left" if leave else "open", gset=0)
            if leave:
                s["keysdone"] = s["kok"]
        elif calls(c, "GetChunkKeys"):
            if starts(atom, o):
                s["gok"] = not late(o[2])
            elif s["git"] == "open" and not s["kset"]:
                s["gok"] = False
            if leave:
                s["gset"] = 1 if s["gok"] else 0
            s.update(git="left" if leave else "open", kset=0)
        elif mine(c) == "chunks_":
            if starts(atom, o):
                s["cok"] = not late(o[2]) and not reverse(atom)
                if s["keysdone"] is not True:
                    self.bad_("keys", w, "not all chunks that pending items refer to are looked for", st)
            elif s["cit"] == "open":
                self.chunk(st, s, w)
            s.update(cit="left" if leave else "open", inn=None, sent=None, add=0, keep=0)
            if leave:
                s["cdone"] = s["cok"]
                s["wrote"] = None
        elif calls(c, "chunks") and not calls(c, "mutable_chunks"):
            if starts(atom, o):
                s["nok"] = not late(o[2])
            elif s["nit"] == "open" and not s["nset"]:
                s["nok"] = False
            if leave and s["nok"]:
                s["noted"] = True
            s.update(nit="left" if leave else "open", nset=0)
        return dict_(**s)

    def chunk(self, st, s, w):
        if s["inn"] is None and s["sent"] is None:
            self.bad_("chunk", w, "chunks are not selected by what pending items refer to", st)
            return
        if s["sent"] is True:
            if s["keep"] != 1:
                self.bad_("keep", w, "the server is not told to keep a chunk that was sent before", st)
        elif s["inn"] is True and s["sent"] is False:
            if s["add"] != 1:
                self.bad_("unsent", w, "a chunk that a pending item refers to is not sent", st)
            if s["keep"] != 1:
                self.bad_("keep", w, "the server is not told to keep a chunk that was just sent", st)
        elif s["inn"] is False and s["sent"] is False:
            if s["keep"]:
                self.bad_("keep-unknown", w, "the server is told to keep a chunk that it does not have", st)
        elif s["inn"] is True:
            if s["add"] != 1:
                self.bad_("unsent", w, "a chunk that a pending item refers to may not be sent", st)
        if s["sent"] is not True and s["add"] != s["keep"] and not s["inn"]:
            self.bad_("keep", w, "the chunks that the server is told to keep are not those it has", st)

    def turn(self, st, s, w):
        """a new item of the queue, or none"""
        if s["item"] is not None or s["popped"] is not True:
            if not s["popped"]:
                self.bad_("twice", w, "an item that was sent stays in the queue", st)
            if not s["counted"]:
                self.bad_("count", w, "an item whose insertion the server will confirm is not counted", st)
            if not s["noted"]:
                self.bad_("note", w, "a chunk that was sent is not noted as such", st)
        s.update(item=None, keepset=None, conf=None, wrote=None, confirmed=None, needconf=None, popped=True, counted=True, cnt=False)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        r = mine(ev.recv) if ev.recv is not None else None
        a = ev.args[0] if ev.k == "call" and ev.args else None
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "call" and r == "streamed_chunk_keys_":
            if n == "clear":
                s["cleared"] = True
            elif n in ("insert", "emplace"):
                self.n["note"] = 1
                if s["wrote"] is not True:
                    self.bad_("early", w, "a chunk is noted as sent although it was not", st)
                s["nset"] = 1
                if a is not None and not (s["nit"] == "open"):
                    # a whole range
                    if len([x for x in ev.args if isinstance(x, S)]) == 2:
                        s["noted"] = True
        elif ev.k == "call" and n == "Clear" and ev.recv is not None and s["wrote"] is True and s["dirty"]:
            if not s["noted"]:
                self.bad_("note", w, "a chunk that was sent is not noted as such", st)
            s["dirty"] = False
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "stream_":
            s["opened"] = ev.r is not None and bool(calls(ev.r, "InsertStream"))
            self.n["open"] = 1
        elif ev.k == "call" and n == "StartItemConfirmationWorker":
            s["worker"] = True
            if not s["opened"]:
                self.bad_("stream", w, "confirmations are read from a stream that is not open yet", st)
        elif ev.k == "call" and n in ("insert", "emplace") and ev.recv is not None and s["git"] == "open":
            s["kset"] = 1
            self.n["keys"] = 1
        elif ev.k == "call" and n == "insert" and a is not None and calls(a, "GetChunkKeys"):
            s["gset"] = 1
        elif ev.k == "call" and n in ("UnsafeArenaAddAllocated", "AddAllocated", "add_chunks"):
            s["add"] += 1
            self.n["add"] = 1
            s["dirty"] = True
        elif ev.k == "call" and n in INSERT and a is not None and s["cit"] == "open" and calls(a, "chunk_key") and any(mine(y) == "chunks_" for y in a.toks):
            s["keep"] += 1
        elif ev.k == "call" and n == "Write" and ev.recv is not None and mine(ev.recv) == "stream_":
            self.n["write"] = 1
            s["wrote"] = None
            if not s["cleared"] and s["stream"] is not True:
                self.bad_("stream", w, "chunks sent over an earlier stream are taken for sent", st)
            if s["stream"] is False and not s["opened"]:
                self.bad_("stream", w, "there is no stream", st)
            if s["cdone"] is not None:
                if s["item"] is None:
                    self.bad_("item", w, "a request without the next item is sent", st)
                if not s["keepset"]:
                    self.bad_("keepset", w, "an item is sent without the keys of the chunks to keep", st)
                if s["conf"] is None:
                    self.bad_("conf", w, "an item is sent without saying whether its insertion is to be confirmed", st)
                if s["has"] is not False and s["confirmed"] is not True:
                    self.bad_("limit", w, "an item is sent although too many may be unconfirmed", st)
                if s["cdone"] is not True:
                    self.bad_("unsent", w, "not all chunks were looked at before the item is sent", st)
        elif ev.k == "asg" and ev.l is not None and calls(ev.l, "mutable_item") and not calls(ev.l, "mutable_keep_chunk_keys") or ev.k == "call" and n in ("CopyFrom", "set_allocated_item") and ev.recv is not None and calls(ev.recv, "mutable_item") and not calls(ev.recv, "mutable_keep_chunk_keys"):
            v = ev.r if ev.k == "asg" else a
            if v is not None and any(callee(y, "front") and mine(y.a[1]) == "pending_items_" or callee(y, "begin") and mine(y.a[1]) == "pending_items_" for y in v.toks):
                s["item"] = "front"
                self.n["item"] = 1
            elif v is not None and any(mine(y) == "pending_items_" for y in v.toks):
                self.bad_("order", w, "items are not sent in the order of their creation", st)
        elif ev.k == "asg" and ev.l is not None and calls(ev.l, "mutable_keep_chunk_keys") or ev.k == "call" and n in ("Assign", "CopyFrom", "Add", "add_keep_chunk_keys", "Swap") and ev.recv is not None and (calls(ev.recv, "mutable_keep_chunk_keys") or n == "add_keep_chunk_keys"):
            s["keepset"] = True
        elif ev.k == "call" and n == "set_send_confirmation":
            x = base(a)
            if callee(x, "has_value") and mine(x.a[1]) == "max_in_flight_items_":
                s["conf"] = "has"
            elif x is TRUE or x is FALSE:
                s["conf"] = "has" if s["has"] is (x is TRUE) else "const"
            else:
                s["conf"] = "other"
            if s["conf"] in ("const",):
                self.bad_("conf", w, "whether an insertion is confirmed does not depend on the limit of unconfirmed items", st)
        elif ev.k == "call" and n == "ConfirmItems":
            try:
                ok = all(num_eval(a, lambda x: m if mine(x) == "max_in_flight_items_" or callee(x, "value", "operator*") and mine(x.a[1]) == "max_in_flight_items_" or x.k == "deref" and mine(x.a[0]) == "max_in_flight_items_" else None) == m - 1 for m in (1, 2, 5))
            except Unknown:
                ok = False
            if not ok:
                self.bad_("limit", w, "the number of unconfirmed items is not limited to max_in_flight_items", st)
        elif ev.k == "call" and r == "pending_items_":
            if n == "pop_front":
                if s["wrote"] is not True:
                    self.bad_("lost", w, "an item is removed from the queue although it was not sent", st)
                if s["popped"]:
                    self.bad_("lost", w, "more than one item is removed from the queue", st)
                s["popped"] = True
                s["counted"] = s["cnt"] or s["has"] is False
            elif n in ("clear", "pop_back", "erase", "swap"):
                self.bad_("lost", w, "items are removed from the queue although they were not sent", st)
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "num_items_in_flight_":
            op = ev.raw.get("op")
            if not (op == "++" or op == "+=" and num(ev.r) == 1):
                self.bad_("count", w, "the number of unconfirmed items does not grow by one", st)
            if s["wrote"] is not True:
                self.bad_("count", w, "an item is counted as unconfirmed although it was not sent", st)
            if s["has"] is False:
                self.bad_("count", w, "an item is counted although its insertion is not confirmed", st)
            s["counted"] = s["cnt"] = True
            self.n["count"] = 1
        # the branch on send_confirmation decides
        if s["needconf"] is False and s["conf"] == "has":
            s["counted"] = True
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if s["stream"] is False and not s["worker"]:
            self.bad_("worker", w, "confirmations of a new stream are not read", st)
        if s["stream"] is False and not s["cleared"]:
            self.bad_("stream", w, "chunks sent over an earlier stream are taken for sent", st)
        if ret is TRUE and s["empty"] is not True:
            self.bad_("lost", w, "success is reported although items may not have been sent", st)
        if ret is FALSE and s["wrote"] is True and not s["popped"]:
            self.bad_("twice", w, "an item that was sent stays in the queue", st)
        if ret is not TRUE and ret is not FALSE:
            self.ctx.note("%s: result %r not understood" % (self.g.name, ret))


class Retry(WBase):
    """Writer::WriteWithRetries"""

    def init(self):
        return dict_(sent=None, done=False, stopped=False, fin=False, reset=True, unav=None, retry=None, attempts=0)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "WritePendingData"):
                s["sent"] = val
            elif callee(x, "IsUnavailable"):
                s["unav"] = val
            elif x.k == "p":
                s["retry"] = val
        elif atom.k == "okp" and calls(atom.a[0], "StopItemConfirmationWorker"):
            s["stopped"] = val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "call" and n == "WritePendingData":
            self.n["write"] = 1
            if s["attempts"]:
                if not s["reset"]:
                    self.bad("D", "stream", w, "a failed attempt is repeated over the same stream", st)
                if s["unav"] is not True or s["retry"] is not True:
                    self.bad("D", "repeat", w, "a failure is retried although it is not transient or retries are not wanted", st)
            s.update(attempts=1, sent=None, done=False, stopped=False, fin=False, reset=False, unav=None)
        elif ev.k == "call" and n == "WritesDone":
            s["done"] = True
        elif ev.k == "call" and n == "Finish" and ev.recv is not None and mine(ev.recv) == "stream_":
            if s["stopped"] is not True:
                self.bad("D", "worker", w, "the stream is finished while confirmations are still read from it", st)
            s["fin"] = True
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "stream_" or ev.k == "call" and n == "reset" and ev.recv is not None and mine(ev.recv) == "stream_":
            s["reset"] = True
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if ret is OK and s["sent"] is not True:
            self.bad("D", "lost", w, "success is reported although not everything was sent", st)
        if ret is not OK and s["sent"] is True:
            self.bad("D", "twice", w, "an error is reported although everything was sent", st)
        if ret is not OK and s["sent"] is False and s["stopped"] is True and s["unav"] is not False and s["retry"] is not False:
            self.bad("D", "transient", w, "a transient failure is not retried", st)
        if ret is not OK and s["fin"] and not s["reset"]:
            self.bad("D", "stream", w, "a stream that was finished is used again", st)


class Item(WBase):
    """Writer::CreateItem"""

    def init(self):
        return dict_(L=(), K=(), Sub=(), seen=(), lists=frozenset(), rev=frozenset(), done=None, empty=None, it=None, flat=False,
                     key=False, table=False, prio=False, traj=False, queued=0, popped=0, sent=None, left=None)

    def rem(self, x):
        x = base(x)
        if x is None:
            return False
        v = var(x)
        if v and v in self.vars:
            return True
        return x.k == "p" and x.a[0] == 1 or x.k == "op" and x.a[0] == "-" and isinstance(x.a[1], S) and x.a[1].k == "p"

    def sync(self, st, s, w, inloop=None):
        if s["L"] != s["K"] or s["L"] != s["Sub"]:
            self.bad("E", "lists", w, "keys, lengths and remaining steps of the chunks of an item do not belong together", st)
        if inloop and not s["L"]:
            self.bad("E", "chunk", w, "a chunk in the middle of an item is left out", st)
        s["seen"] = tuple(dict.fromkeys(s["seen"] + s["L"]))
        s.update(L=(), K=(), Sub=())

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "empty") and mine(x.a[1]) == "buffer_":
                if s["empty"] not in (None, val):
                    return DEAD
                s["empty"] = val
        elif atom.k == "okp" and callee(atom.a[0], "WriteWithRetries"):
            s["sent"] = val
        elif atom.k == "lt":
            a, b = atom.a
            if num(a) == 0 and self.rem(b):
                s["done"] = not val
            elif self.rem(a) and num(b) == 1:
                s["done"] = val
        o = scan(atom)
        if o is None and atom.k == "eq" and any(callee(base(x), "rend", "crend") for x in atom.a):
            x = next(base(x) for x in atom.a if callee(base(x), "rend", "crend"))
            o = (x.a[1], True, None)
        if o is not None and mine(o[0]) == "chunks_":
            if not reverse(atom) and s["it"] is None:
                self.bad("E", "order", w, "the chunks of an item are not the newest ones", st)
            if s["it"] == "open":
                self.sync(st, s, w, True)
            else:
                self.sync(st, s, w)
            s["it"] = "left" if val == o[1] else "open"
        return dict_(**s)

    vars = ()

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        r = mine(ev.recv) if ev.recv is not None else None
        a = ev.args[0] if ev.k == "call" and ev.args else None
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        if ev.k == "call" and n in INSERT + ("insert", "push_front", "emplace_front") and a is not None and r is None:
            v = ev.args[-1]
            kind = None
            if callee(v, "size") and mine(base(v).a[1]) == "buffer_":
                kind = ("L", "buf")
            elif mine(v) == "next_chunk_key_":
                kind = ("K", "buf")
            elif callee(v, "chunk_key") and any(mine(y) == "chunks_" for y in v.toks) or callee(v, "chunk_key") and base(v).a[1].k in ("phi", "v"):
                kind = ("K", "chunk")
            elif calls(v, "end") and calls(v, "start"):
                kind = ("L", "chunk")
                try:
                    if not all(num_eval(v, lambda x: hi if callee(x, "end") else lo if callee(x, "start") else None) == hi - lo + 1 for lo, hi in ((0, 0), (3, 7))):
                        self.bad("E", "length", w, "the length of a chunk is not its number of steps", st)
                except Unknown:
                    self.bad("E", "length", w, "the length of a chunk is not its number of steps", st)
            if kind is not None:
                self.n[kind[0]] = 1
                s[kind[0]] = s[kind[0]] + (kind[1],)
                if kind[1] == "buf" and "chunk" in s["seen"] + s["L"] + s["K"] and n in INSERT and ("chunk" in s["seen"]):
                    self.bad("E", "order", w, "the open chunk is not the newest one of the item", st)
                if n not in INSERT:
                    s["rev"] = s["rev"] | {kind[0]}
                s["lists"] = s["lists"] | {(kind[0], base(ev.recv))}
        elif ev.k == "asg" and ev.l is not None and ev.raw.get("op") == "-=" and base(ev.l).k in ("v", "phi", "p", "op"):
            v = ev.r
            kind = None
            if callee(v, "size") and mine(base(v).a[1]) == "buffer_":
                kind = "buf"
            elif callee(v, "back") or calls(v, "end"):
                kind = s["L"][-1] if s["L"] else "chunk"
            if kind:
                s["Sub"] = s["Sub"] + (kind,)
                s["done"] = None
        elif ev.k == "asg" and ev.l is not None and base(ev.l).k in ("v", "phi", "p", "op") and ev.r is not None and base(ev.r).k == "op" and base(ev.r).a[0] == "-" and self.rem(base(ev.r).a[1]):
            v = base(ev.r).a[2]
            kind = "buf" if callee(v, "size") else s["L"][-1] if s["L"] else "chunk"
            s["Sub"] = s["Sub"] + (kind,)
            s["done"] = None
        elif ev.k == "call" and n == "reverse" and ev.args:
            for k, l in s["lists"]:
                if any(l is y for y in ev.args[0].toks):
                    s["rev"] = s["rev"] ^ {k}
        elif ev.k == "call" and n == "FlatTimestepTrajectory":
            self.n["flat"] = 1
            if s["it"] == "open":
                self.sync(st, s, w, True) if s["L"] else None
            self.sync(st, s, w)
            if s["empty"] is False and "buf" not in s["seen"]:
                self.bad("E", "open", w, "the steps of the open chunk are left out", st)
            if s["empty"] is not False and "buf" in s["seen"]:
                self.bad("E", "open", w, "an item refers to an open chunk without steps", st)
            if s["done"] is not True:
                self.bad("E", "short", w, "an item may be created although there are fewer steps", st)
            for k in ("L", "K"):
                if any(x[0] == k for x in s["lists"]) and k not in s["rev"]:
                    self.bad("E", "order", w, "the chunks of an item are not in the order of their steps", st)
            ks = [l for k, l in s["lists"] if k == "K"]
            ls = [l for k, l in s["lists"] if k == "L"]
            if len(ev.args) != 5 or not (any(k in ev.args[0].toks for k in ks) or not ks) or not (any(l in ev.args[1].toks for l in ls) or not ls):
                self.bad("E", "args", w, "keys and lengths are not those of the item's chunks", st)
            else:
                off, ln = ev.args[3], base(ev.args[4])
                if not (ln.k == "p" and ln.a[0] == 1):
                    self.bad("E", "size", w, "the item does not have num_timesteps steps", st)
                try:
                    for N, B, R in ((3, 1, -2), (4, 4, 0), (1, 3, -1)):
                        def e(x):
                            if var(x) in self.vars:
                                return R
                            if x.k == "p" and x.a[0] == 1:
                                return N
                            if callee(x, "size") and mine(x.a[1]) == "buffer_":
                                return B
                            return None
                        ph = any(y.k in ("phi", "v") for y in off.toks)
                        if num_eval(off, e) != -(R if ph else N - (B if "buf" in s["seen"] else 0)):
                            self.bad("E", "offset", w, "the item does not end with the newest step", st)
                            break
                except Unknown:
                    self.bad("E", "offset", w, "the item does not end with the newest step", st)
            s["flat"] = True
        elif ev.k == "asg" and ev.l is not None and calls(ev.l, "mutable_flat_trajectory") or ev.k == "call" and n in ("CopyFrom", "Swap", "MergeFrom") and ev.recv is not None and calls(ev.recv, "mutable_flat_trajectory"):
            s["traj"] = s["flat"]
        elif ev.k == "call" and n == "set_key" and a is not None:
            s["key"] = any(x.k == "call" for x in a.toks)
        elif ev.k == "call" and n == "set_table" and a is not None:
            s["table"] = any(x.k == "p" and x.a[0] == 0 for x in a.toks)
        elif ev.k == "call" and n == "set_priority" and a is not None:
            s["prio"] = any(x.k == "p" and x.a[0] == 2 for x in a.toks)
        elif ev.k == "call" and r == "pending_items_":
            if n in INSERT:
                self.n["queue"] = 1
                s["queued"] += 1
                for k, m in (("key", "key"), ("table", "table"), ("prio", "priority"), ("traj", "steps")):
                    if not s[k]:
                        self.bad("E", "item-" + k, w, "an item is queued without its %s" % m, st)
            elif n == "pop_back":
                s["popped"] += 1
            else:
                if n in ("push_front", "insert", "emplace_front", "clear", "pop_front", "erase"):
                    self.bad("E", "queue", w, "an item is not queued behind those created before", st)
        elif ev.k == "call" and n == "WriteWithRetries":
            s["left"] = True
            s["sent"] = "?"
            if not s["queued"]:
                self.bad("E", "unsent", w, "an item is not part of what is sent", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if ret is OK or s["sent"] in (True, "?"):
            if s["queued"] - s["popped"] != 1:
                self.bad("E", "lost", w, "success is reported although the item was not queued", st)
            if s["empty"] is not False and not s["left"]:
                self.bad("E", "delayed", w, "an item whose steps were all sent is not sent", st)
            if s["sent"] == "?":
                self.bad("E", "twice", w, "a failure to send the item is not looked at", st)
        elif s["queued"] != s["popped"]:
            self.bad("E", "twice", w, "an error is reported although the item stays in the queue", st)


class Flush(WBase):
    """Writer::Flush / Close"""

    def init(self):
        return dict_(pend=None, fin=None, conf=None)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "empty") and mine(x.a[1]) == "pending_items_":
                s["pend"] = not val
            elif callee(x, "ConfirmItems"):
                s["conf"] = val
        elif atom.k == "okp" and callee(atom.a[0], "Finish"):
            s["fin"] = val
        elif atom.k == "lt" and num(atom.a[0]) == 0 and callee(atom.a[1], "size") and mine(base(atom.a[1]).a[1]) == "pending_items_":
            s["pend"] = val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        if ev.k == "call" and n == "Finish" and (ev.recv is THIS or ev.recv is None):
            self.n["finish"] = 1
            s["fin"] = "?"
            if s["pend"] is not True:
                self.bad("F", "empty", ev.where(), "a chunk may be created from an empty buffer", st)
        elif ev.k == "call" and n == "ConfirmItems":
            if num(ev.args[0]) != 0:
                self.bad("F", "confirm", ev.where(), "a flush does not wait for all items", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        r = base(ret) if ret is not None else None
        if ret is OK or r is not None and callee(r, "Finish"):
            if s["pend"] is None:
                self.bad("F", "pending", w, "success is reported without having looked for pending items", st)
            elif s["pend"] and s["fin"] is None:
                self.bad("F", "pending", w, "success is reported although items are pending", st)
            elif ret is OK and s["pend"] and s["fin"] is not True:
                self.bad("F", "pending", w, "success is reported although pending items may not have been sent", st)
            elif not s["pend"] and s["conf"] is not True:
                self.bad("F", "confirm", w, "success is reported although items may be unconfirmed", st)


class Confirm(WBase):
    """Writer::ItemConfirmationWorker / ConfirmItems"""

    def init(self):
        return dict_(read=None, counted=True, run=None, stop=None)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        if atom.k in ("nz", "bool"):
            x = base(atom.a[0])
            if callee(x, "Read"):
                s["read"] = val
                s["counted"] = not val
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "call" and n == "Read":
            self.n["read"] = 1
            if not s["counted"]:
                self.bad("F", "confirmed", w, "a confirmation is not counted", st)
            s["read"] = None
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "num_items_in_flight_":
            self.n["count"] = 1
            op = ev.raw.get("op")
            ok = ev.r is not None and (callee(ev.r, "keys_size") or callee(ev.r, "size") and calls(ev.r, "keys")) and op == "-="
            if not ok and ev.r is not None and op in ("=", None):
                try:
                    ok = all(num_eval(ev.r, lambda x: f if mine(x) == "num_items_in_flight_" else k if callee(x, "keys_size") or callee(x, "size") and calls(x, "keys") else None) == f - k for f, k in ((3, 1), (5, 2)))
                except Unknown:
                    ok = False
            if not ok:
                self.bad("F", "confirmed", w, "the number of unconfirmed items does not shrink by the number of confirmations", st)
            if s["read"] is not True or s["counted"]:
                self.bad("F", "confirmed", w, "a confirmation is counted that was not received (or twice)", st)
            s["counted"] = True
        elif ev.k == "asg" and ev.l is not None and mine(ev.l) == "item_confirmation_worker_running_":
            s["run"] = ev.r is TRUE
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        w = ev.where() if ev is not None else self.g.where()
        if s["run"] is not False:
            self.bad("F", "running", w, "the worker ends without anyone being told", st)


class Flat(WBase):
    def env(self, s):
        """the offset is 7, other chunks precede all but the first"""
        def e(x):
            if s["ix"] is not None and x is base(s["ix"]) and x.k != "lit":
                return 2
            if x.k == "p" and x.a[0] == 3:
                return 7
            if x.k == "cond":
                c = x.a[0]
                if c.k == "op" and c.a[0] in ("==", "<", ">", ">=", "<=", "!=") or c.k in ("eq", "lt"):
                    a, b = (num_eval(y, e) for y in c.a[-2:])
                    o = {"eq": "==", "lt": "<"}.get(c.k, c.a[0])
                    return num_eval(x.a[1] if {"==": a == b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "!=": a != b}[o] else x.a[2], e)
            if x.k in ("phi", "v") and not s["first"]:
                return 0
            return None
        return e

    """FlatTimestepTrajectory: keys, lengths, offset, length -> slices"""

    def init(self):
        return dict_(it=None, key=False, off=None, len=None, first=False, ix=None, osub=False, rsub=False, cols=0, added=0, cmp=())

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        o = scan(atom)
        if o is None and atom.k in ("eq", "lt") and any(y.k in ("idx", "elem") and base(y.a[0]).k == "p" and base(y.a[0]).a[0] == 1 for y in atom.toks):
            s["cmp"] = s["cmp"] + ((atom, val),)
        elif o is None and atom.k in ("eq", "lt") and s["ix"] is not None and base(s["ix"]) in atom.toks:
            # on which side is the index
            try:
                x, y = (num_eval(z, self.env(s)) for z in atom.a)
                if (x == y if atom.k == "eq" else x < y) != val:
                    return DEAD
            except Unknown:
                pass
        if o is not None and base(o[0]) is not None and base(o[0]).k == "p":
            if s["it"] == "open":
                for k, m in (("key", "its key"), ("off", "where it begins"), ("len", "its length")):
                    if not s[k]:
                        self.bad("G", k, w, "a slice lacks %s" % m, st)
                if not s["osub"]:
                    self.bad("G", "next-offset", w, "a later slice does not begin with the first step of its chunk", st)
                if not s["rsub"]:
                    self.bad("G", "remaining", w, "the steps of a slice are not taken off those that remain", st)
                if s["added"] != 1:
                    self.bad("G", "slice", w, "a chunk is described by %d slices" % s["added"], st)
            if late(o[2]) or reverse(atom):
                self.bad("G", "order", w, "the slices are not those of all chunks in order", st)
            s.update(it="left" if val == o[1] else "open", key=False, off=None, len=None, osub=False, rsub=False, added=0, cmp=())
            s["first"] = starts(atom, o)
            s["ix"] = o[2]
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "ctor" and n == "LogMessageFatal":
            return DEAD
        a = ev.args[0] if ev.k == "call" and ev.args else None
        P = lambda i: lambda x: x.k == "p" and x.a[0] == i
        if ev.k == "call" and n == "add_chunk_slices":
            s["added"] += 1
            self.n["slice"] = 1
        elif ev.k == "call" and n == "set_chunk_key":
            s["key"] = any(y.k in ("idx", "elem") and P(0)(base(y.a[0])) and (s["first"] or y.k == "elem" or y.a[1].k != "lit") for y in a.toks)
            if not s["key"]:
                self.bad("G", "key", w, "a slice does not carry the key of its chunk", st)
        elif ev.k == "call" and n == "set_offset":
            s["off"] = base(a)
            try:
                ok = num_eval(a, self.env(s)) == (7 if s["first"] else 0)
            except Unknown:
                ok = False
            if not ok:
                self.bad("G", "offset", w, "a slice does not begin where the item begins in its chunk", st)
        elif ev.k == "call" and n == "set_length":
            def e(l, o, r):
                def f(x):
                    if x.k in ("idx", "elem") and P(1)(base(x.a[0])):
                        return l
                    if x is s["off"] or x.k == "call" and last(x.a[0]) == "offset":
                        return o
                    if P(3)(x):
                        return o if s["first"] else 7
                    if P(4)(x) or x.k in ("phi", "v"):
                        return r
                    if x.k == "call" and last(x.a[0]) in ("min", "max"):
                        y = [num_eval(z, f) for z in x.a[1:] if isinstance(z, S) and z.k != "i"]
                        return (min if last(x.a[0]) == "min" else max)(y)
                    return None
                return f

            def holds(f):
                # the comparisons made on the way here
                for atom, val in s["cmp"]:
                    x, y = (num_eval(z, f) for z in atom.a)
                    if (x < y if atom.k == "lt" else x == y) != val:
                        return False
                return True
            try:
                ok = all(num_eval(a, e(l, o, r)) == min(l - o, r) for l in (3, 5) for o in ((0, 2) if s["first"] else (0,)) for r in (1, 2, 9) if holds(e(l, o, r)))
            except Unknown:
                # written with branches
                ok = None
                self.ctx.note("%s: length %r not understood" % (self.g.name, a))
            if ok is False:
                self.bad("G", "length", w, "a slice does not end with the end of its chunk or of the item", st)
            s["len"] = base(a)
        elif ev.k == "asg" and ev.l is not None and s["it"] == "open" and base(ev.l).k in ("v", "phi", "p"):
            op = ev.raw.get("op")
            if op == "-=" or ev.r is not None and base(ev.r).k == "op" and base(ev.r).a[0] == "-":
                v = ev.r if op == "-=" else base(ev.r).a[2]
                if callee(v, "length") or base(v) is s["len"]:
                    s["rsub"] = True
                elif isinstance(v, S):
                    self.bad("G", "remaining", w, "something else than the steps of a slice is taken off those that remain", st)
            elif op in ("=", None) and ev.r is not None and num(ev.r) is not None:
                if num(ev.r) != 0 or s["off"] is None:
                    self.bad("G", "next-offset", w, "a later slice does not begin with the first step of its chunk", st)
                s["osub"] = True
        return dict_(**s)


class Sequence(WBase):
    """Writer::AppendSequence: one step per row, in order"""

    def init(self):
        return dict_(it=None, row=None, app=0, cit=None, pushed=0, cok=True, i=None, all=None, ok=True)

    def branch(self, st, atom, val, line, fn):
        s = dict(st.auto)
        w = self.at(fn, line)
        if atom.k == "okp" and calls(atom.a[0], "Append"):
            s["okk"] = val
            s.pop("okk")
            if not val:
                s["app"] = -9
            return dict_(**s)
        if atom.k == "lt" and callee(atom.a[1], "dim_size"):
            if s["it"] == "open" and s["app"] != 1:
                self.bad("H", "rows", w, "a row is not appended exactly once", st)
            if late(base(atom.a[0])):
                self.bad("H", "rows", w, "the first rows are left out", st)
            s.update(it="open" if val else "left", app=0, i=base(atom.a[0]), all=None)
            return dict_(**s)
        o = scan(atom)
        if o is not None and base(o[0]) is not None and base(o[0]).k == "p" and s["it"] == "open":
            if starts(atom, o):
                s["cok"] = not late(o[2]) and not reverse(atom)
            elif s["cit"] == "open" and s["pushed"] != 1:
                s["cok"] = False
            leave = val == o[1]
            s.update(cit="left" if leave else "open", pushed=0, all=s["cok"] if leave else None)
        return dict_(**s)

    def event(self, st, ev):
        s = dict(st.auto)
        n = last(ev.fn or "")
        w = ev.where()
        if ev.k == "call" and n == "SubSlice":
            self.n["slice"] = 1
            if s["i"] is None or base(ev.args[0]) is not s["i"]:
                self.bad("H", "row", w, "a step is built from another row", st)
        elif ev.k == "call" and n in INSERT and s["cit"] == "open" and ev.args and not (base(ev.recv).k == "m"):
            s["pushed"] += 1
        elif ev.k == "call" and n == "Append":
            self.n["append"] = 1
            s["app"] += 1
            if s["all"] is not True:
                self.bad("H", "columns", w, "a step may lack tensors", st)
        return dict_(**s)

    def exit(self, st, ret, ev):
        s = dict(st.auto)
        if ret is OK and s["it"] != "left":
            self.bad("H", "rows", ev.where() if ev is not None else self.g.where(), "success is reported although not all rows were appended", st)


class Mod(Auto):
    def __init__(self):
        self.paths = []

    def init(self):
        return ()

    def branch(self, st, atom, val, line, fn):
        return st.auto + ((atom, val),)

    def exit(self, st, ret, ev):
        self.paths.append((st.auto, ret))


def modulo(ctx, g, prog):
    """PositiveModulo(v, d) is v mod d for every d > 0"""
    m = Mod()
    ctx.engine(Engine(prog, g, m))

    def c(x, v, d):
        def e(y):
            if y.k == "p":
                return v if y.a[0] == 0 else d
            if y.k == "op" and y.a[0] == "%":
                a, b = num_eval(y.a[1], e), num_eval(y.a[2], e)
                if b == 0:
                    raise Unknown()
                r = abs(a) % abs(b)
                return r if a >= 0 else -r
            if y.k == "op" and y.a[0] in ("<", ">", "==", "<=", ">=", "!="):
                a, b = num_eval(y.a[1], e), num_eval(y.a[2], e)
                return int({"<": a < b, ">": a > b, "==": a == b, "<=": a <= b, ">=": a >= b, "!=": a != b}[y.a[0]])
            if y.k == "cond":
                return num_eval(y.a[1] if num_eval(y.a[0], e) else y.a[2], e)
            if y.k in ("lt", "eq"):
                a, b = num_eval(y.a[0], e), num_eval(y.a[1], e)
                return int(a < b if y.k == "lt" else a == b)
            return None
        return num_eval(x, e)
    for d in (1, 2, 3, 7):
        for v in range(-2 * d - 1, 2 * d + 2):
            for conds, ret in m.paths:
                try:
                    ok = True
                    for atom, val in conds:
                        if atom.k in ("lt", "eq"):
                            t = c(atom.a[0], v, d) < c(atom.a[1], v, d) if atom.k == "lt" else c(atom.a[0], v, d) == c(atom.a[1], v, d)
                        else:
                            t = c(atom.a[0], v, d) != 0
                        ok = ok and t == val
                    if ok and c(ret, v, d) != v % d:
                        ctx.violation("A", "PositiveModulo/value", g.where(), "PositiveModulo(%d, %d) is %d" % (v, d, c(ret, v, d)), [])
                        return
                except Unknown:
                    ctx.note("%s: not understood" % g.name)
                    return


def run(ctx):
    ctx.rule("A", "An accepted step is in the buffer once and its signature at its place of the log; a rejected one leaves no trace; a full buffer becomes a chunk.")
    ctx.rule("B", "A chunk holds all buffered steps in order under the key that items refer to; afterwards buffer, key and position advance together, after a failure none does.")
    ctx.rule("C", "Items are sent in order, after the chunks they refer to and at most once per stream; only what was sent is noted, removed and counted; the server is told to keep what it has.")
    ctx.rule("D", "A failed stream is finished and dropped; exactly transient failures are retried, on request; success means that everything was sent.")
    ctx.rule("E", "An item consists of the newest num_timesteps steps: the chunks, newest first, until no step remains, in order, and is queued once.")
    ctx.rule("F", "A flush sends pending items or waits for every confirmation; confirmations are counted once each.")
    ctx.rule("G", "The slices of an item cover its chunks in order from its offset on for its length.")
    ctx.rule("H", "A sequence is appended row by row, in order, with all columns.")
    prog = ctx.program("writer.cc")

    def find(p, cls, name):
        gs = [g for g in p.fns.values() if g.blocks and last(g.cls) == cls and last(g.name) == name and not g.lam]
        if not gs:
            raise AnalysisBroken("%s::%s not found" % (cls, name))
        return gs

    def go(p, g, a, rid, need, inline):
        ctx.engine(Engine(p, g, a, inline=inline))
        for k, m in need:
            if k not in a.n:
                ctx.violation(rid, "%s/no-%s" % (short(g.name), k), g.where(), m, [])
        ctx.instance(rid, g.name)

    CONTRACT = ("Finish", "WriteWithRetries", "WritePendingData", "ConfirmItems", "StopItemConfirmationWorker", "StartItemConfirmationWorker", "Append", "CreateItem", "GetFlatSignature", "NewID", "ItemConfirmationWorker",
                "PositiveModulo", "FlatTimestepTrajectory", "CompressTensorAsProto", "DeltaEncodeList", "DtypesShapesString", "GetChunkKeys", "FromTensorflowStatus", "FromGrpcStatus", "FormatGrpcStatus")
    own = lambda k, ev: (k.lam or k.cls == "" or last(k.cls) == "Writer") and last(k.name) not in CONTRACT
    for name, auto, rid, need in (
            ("Append", Append, "A", (("log", "signatures are never logged"), ("push", "steps are never buffered"), ("finish", "chunks are never created"))),
            ("Finish", Finish, "B", (("rows", "chunks never hold steps"), ("concat", "chunks never hold steps"), ("chunk", "chunks are never kept"), ("write", "chunks are never sent"))),
            ("WritePendingData", Send, "C", (("write", "nothing is ever sent"), ("keys", "chunks of items are never looked up"), ("add", "chunks are never sent"), ("item", "items are never sent"), ("count", "unconfirmed items are never counted"), ("open", "a stream is never opened"))),
            ("WriteWithRetries", Retry, "D", (("write", "nothing is ever sent"),)),
            ("CreateItem", Item, "E", (("L", "items never refer to chunks"), ("K", "items never refer to chunks"), ("flat", "items never get a trajectory"), ("queue", "items are never queued"))),
            ("Flush", Flush, "F", (("finish", "a flush never sends anything"),)),
            ("ItemConfirmationWorker", Confirm, "F", (("read", "confirmations are never read"), ("count", "confirmations are never counted"))),
            ("AppendSequence", Sequence, "H", (("slice", "steps are never appended"), ("append", "steps are never appended")))):
        for g in find(prog, "Writer", name):
            a = auto(ctx, g)
            if name == "CreateItem":
                a.vars = subtracted(g)
            go(prog, g, a, rid, need, own)
    for g in find(prog, "Writer", "ConfirmItems"):
        confirm(ctx, g, prog)
    for g in [g for g in prog.fns.values() if g.blocks and last(g.name) == "PositiveModulo"]:
        modulo(ctx, g, prog)
        ctx.instance("A", g.name)
    p = ctx.program("support/trajectory_util.cc")
    gs = [g for g in p.fns.values() if g.blocks and last(g.name) == "FlatTimestepTrajectory" and len(g.params) == 5]
    if not gs:
        raise AnalysisBroken("FlatTimestepTrajectory not found")
    for g in gs:
        go(p, g, Flat(ctx, g), "G", (("slice", "items never get slices"),), lambda k, ev: k.lam or k.cls == "")


def subtracted(g):
    """local variables from which something is subtracted"""
    out = set()
    for e in g.events():
        l = e.get("l")
        if e.get("k") == "asg" and l and l[0] == "v" and (e.get("op") == "-=" or e.get("op") in ("=", None) and isinstance(e.get("r"), tuple) and e["r"][:2] == ("op", "-")):
            out.add(l[1])
    return frozenset(out)


def confirm(ctx, g, prog):
    """ConfirmItems(limit) is true exactly if no more than limit items are unconfirmed"""
    m = Mod()
    m.locked = []
    ctx.engine(Engine(prog, g, m, inline=lambda k, ev: k.lam or last(k.cls) == "Writer"))
    ctx.instance("F", g.name)

    def ev(x, f, k, run):
        def e(y):
            r = lambda z: ev(z, f, k, run)
            if mine(y) == "num_items_in_flight_":
                return f
            if mine(y) == "item_confirmation_worker_running_":
                return run
            if y.k == "p":
                return k
            if y.k == "lit" and isinstance(y.a[0], bool):
                return int(y.a[0])
            if y.k == "cond":
                return r(y.a[1] if r(y.a[0]) else y.a[2])
            if y.k in ("nz", "bool", "not"):
                return int((r(y.a[0]) != 0) == (y.k != "not"))
            if y.k == "op" and y.a[0] == "!":
                return int(not r(y.a[1]))
            if y.k == "op" and y.a[0] in ("||", "&&"):
                return int(r(y.a[1]) or r(y.a[2])) if y.a[0] == "||" else int(r(y.a[1]) and r(y.a[2]))
            if y.k in ("lt", "eq") or y.k == "op" and y.a[0] in ("<", ">", "==", "<=", ">=", "!="):
                a, b = (r(z) for z in y.a[-2:])
                o = {"lt": "<", "eq": "=="}.get(y.k, y.a[0])
                return int({"<": a < b, ">": a > b, "==": a == b, "<=": a <= b, ">=": a >= b, "!=": a != b}[o])
            return None
        return num_eval(x, e)
    done = 0
    for f, k, run in [(f, k, run) for f in range(4) for k in range(4) for run in (0, 1)]:
        for conds, ret in m.paths:
            try:
                if all(bool(ev(a, f, k, run)) == v for a, v in conds if any(mine(t) in ("num_items_in_flight_", "item_confirmation_worker_running_") or t.k == "p" for t in a.toks)):
                    done += 1
                    if bool(ev(ret, f, k, run)) != (f <= k):
                        ctx.violation("F", "ConfirmItems/value", g.where(), "%d unconfirmed items are %s at most %d" % (f, "not" if f <= k else "taken for", k), [])
                        return
            except Unknown:
                ctx.note("%s: not understood: %r" % (g.name, ret))
                return
    if not done:
        ctx.note("%s: no path was understood" % g.name)
