"""Loading of the extracted program (see tool/extract.cc) and whole-program
queries: classes, overriders, call graph closures, mod-sets, CFG SCCs."""
import hashlib
import json
import os
import re
import subprocess
import sys
import glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor vanished, parse failure)."""


# ----------------------------------------------------------------- building
def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:20]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cc")
    key = _sha(_read(src))
    out = os.path.join(BUILD, "extract-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    libs = []
    for pat in ("/usr/lib/llvm-18/lib/libclang-cpp.so*",
                "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18*"):
        libs = sorted(glob.glob(pat))
        if libs:
            break
    if not libs:
        raise AnalysisBroken("libclang-cpp 18 not found")
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["clang++", "-O0", "-fno-rtti", "-std=c++17", "-w",
           "-I/usr/lib/llvm-18/include", src, "-o", tmp, libs[0],
           "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("extractor build failed: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def gen_protos():
    protos = ["reverb/cc/schema.proto", "reverb/cc/reverb_service.proto",
              "reverb/cc/checkpointing/checkpoint.proto"]
    key = _sha(*[_read(os.path.join(REPO, p)) for p in protos])
    out = os.path.join(BUILD, "gen-" + key)
    if os.path.exists(os.path.join(out, ".done")):
        return out
    os.makedirs(out, exist_ok=True)
    base = ["protoc", "-I/opt/reverb-deps/tf/include", "-I" + REPO, "-I/usr/include"]
    for cmd in (base + ["--cpp_out=" + out] + [os.path.join(REPO, p) for p in protos],
                base + ["--grpc_out=generate_mock_code=true:" + out,
                        "--plugin=protoc-gen-grpc=/usr/bin/grpc_cpp_plugin",
                        os.path.join(REPO, protos[1])]):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("protoc failed: " + r.stderr[-2000:])
    open(os.path.join(out, ".done"), "w").close()
    return out


def flags(gen, warn=False):
    inc = ["/opt/reverb-deps/overlay", "/opt/reverb-deps/tf/include",
           "/opt/reverb-deps/tf/include/external/snappy",
           "/usr/include/python3.12",
           "/usr/lib/python3/dist-packages/numpy/core/include"]
    f = ["-std=gnu++17", "-mavx", "-DNDEBUG", "-DEIGEN_MAX_ALIGN_BYTES=64",
         "-resource-dir=/usr/lib/llvm-18/lib/clang/18"]
    if warn:
        return f + ["-I" + REPO] + [x for i in [gen] + inc for x in ("-isystem", i)]
    return f + ["-w", "-I" + REPO, "-I" + gen] + ["-I" + i for i in inc]


def all_tus():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "reverb", "cc")):
        dirs[:] = [d for d in dirs if d not in ("testing",)]
        for f in sorted(files):
            if f.endswith(".cc") and not f.endswith("_test.cc"):
                p = os.path.join(root, f)
                if "/docs/" in p:
                    continue
                out.append(os.path.relpath(p, REPO))
    out.append("reverb/pybind.cc")
    return sorted(out) + ["instantiate.cc"]


# complete instantiations of the library's class templates
INST = os.path.join(VERIF, "tool", "instantiate.cc")


_file_sha = {}
_INC = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*"(reverb/[^"]+)"', re.M)


def _fsha(path):
    r = _file_sha.get(path)
    if r is None:
        if not os.path.exists(path):
            r = ("missing", ())
        else:
            t = _read(path)
            r = (_sha(t), tuple(sorted({m.decode() for m in _INC.findall(t)})))
        _file_sha[path] = r
    return r


def _tu_key(path):
    """hash of a translation unit and of everything of /repo it includes"""
    seen, work, parts = set(), [path], []
    while work:
        p = work.pop()
        if p in seen:
            continue
        seen.add(p)
        h, inc = _fsha(p)
        parts.append((os.path.relpath(p, REPO) if p.startswith(REPO) else "inst", h))
        work += [os.path.join(REPO, i) for i in inc]
    return _sha(*["%s=%s" % x for x in sorted(parts)])


def extract(tus):
    tool = build_tool()
    gen = gen_protos()
    d = os.path.join(BUILD, "ir")
    os.makedirs(d, exist_ok=True)

    def one(tu):
        src = INST if tu == "instantiate.cc" else os.path.join(REPO, tu)
        out = os.path.join(d, "%s-%s.json" % (tu.replace("/", "__"), _sha(_tu_key(src), os.path.basename(tool), os.path.basename(gen))))
        if os.path.exists(out):
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([tool, os.path.join(REPO, "reverb"), tmp, src, "--"] + flags(gen),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("%s does not parse: %s" % (tu, r.stderr[-1500:]))
        if REPO != "/repo":
            t = _read(tmp).replace((REPO + "/reverb/").encode(), b"/repo/reverb/")
            with open(tmp, "wb") as f:
                f.write(t)
        os.replace(tmp, out)
        return out

    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        return list(ex.map(one, tus))


# ------------------------------------------------------------------ names
def strip_targs(s):
    out, depth = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<" and not (s.startswith("operator<", i - 8) and i >= 8):
            depth += 1
        elif c == ">" and depth > 0 and not s.startswith("->", i - 1):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


_sn = {}


def short(s):
    """Name without template arguments and repo namespaces."""
    r = _sn.get(s)
    if r is None:
        r = strip_targs(s)
        r = r.replace("deepmind::reverb::", "").replace("(anonymous namespace)::", "")
        r = r.replace("internal::", "") if not r.startswith("absl") else r
        _sn[s] = r
    return r


def last(s):
    return short(s).rsplit("::", 1)[-1]


def T(x):
    """JSON tree -> hashable tuple tree, with names shortened."""
    if isinstance(x, list):
        k = x[0] if x else None
        if k == "m":
            return ("m", T(x[1]), short(x[2]))
        if k in ("g", "enum"):
            return (k, short(x[1])) + tuple(x[2:])
        if k == "fn":
            return ("fn", short(x[1]), x[2]) + tuple(T(a) for a in x[3:])
        if k == "ctor":
            return ("ctor", short(x[1])) + tuple(T(a) for a in x[2:])
        if k == "v":
            return ("v", x[1])
        return tuple(T(a) for a in x)
    return x


class Fn:
    def __init__(self, d, tu):
        self.usr = d["usr"]
        self.name = short(d["name"])
        self.file = d["file"]
        self.line = d["line"]
        self.ret = d["ret"]
        self.cls = short(d.get("cls", ""))
        self.lam = d.get("lambda", False)
        self.parent = d.get("parent")
        self.virt = d.get("virt", False)
        self.const = d.get("const", False)
        self.is_static = d.get("static", False)
        self.access = d.get("access")
        self.overrides = d.get("overrides", [])
        self.ctor = d.get("ctor", False)
        self.dtor = d.get("dtor", False)
        self.params = [(p[0], p[1]) for p in d["params"]]
        self.attrs = [(a[0], [T(x) for x in a[1]]) for a in d.get("attrs", [])]
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self.tu = tu
        self.blocks = {}
        for b in d.get("blocks", []):
            evs = []
            for e in b["ev"]:
                e = dict(e)
                for k in ("e", "l", "r", "recv", "i", "init", "target"):
                    if k in e:
                        e[k] = T(e[k])
                if "args" in e:
                    e["args"] = tuple(T(a) for a in e["args"])
                if "fn" in e:
                    e["sfn"] = short(e["fn"])
                if "cls" in e:
                    e["cls"] = short(e["cls"])
                if "field" in e:
                    e["field"] = short(e["field"])
                if "binds" in e:
                    e["binds"] = [(x[0], T(x[1])) for x in e["binds"]]
                if "caps" in e:
                    e["caps"] = [tuple(T(y) if isinstance(y, list) else y for y in x) for x in e["caps"]]
                evs.append(e)
            b["ev"] = evs
            if "cond" in b:
                b["cond"] = T(b["cond"])
            ss = []
            for s in b["succ"]:
                if s is None:
                    ss.append(None)
                elif len(s) == 1:
                    ss.append((s[0], None))
                elif s[1] == "default":
                    ss.append((s[0], "default"))
                else:
                    ss.append((s[0], tuple(T(v) for v in s[1])))
            b["succ"] = ss
            self.blocks[b["id"]] = b
        self._scc = None
        self.refs = set()
        for p, t in self.params:
            if t.endswith("&"):
                self.refs.add(p)
        for ev in self.events():
            if ev["k"] == "decl" and ev.get("ref"):
                self.refs.add(ev["var"])

    def where(self, line=None):
        return "%s:%d" % (os.path.relpath(self.file, "/repo"), line or self.line)

    def events(self):
        for b in sorted(self.blocks.values(), key=lambda b: -b["id"]):
            for e in b["ev"]:
                yield e

    def calls(self, pred=None):
        for e in self.events():
            if e["k"] in ("call", "ctor") and (pred is None or pred(e)):
                yield e

    def loops(self):
        """set of block ids inside a cycle"""
        if self._scc is None:
            idx, low, st, on, res = {}, {}, [], set(), set()
            cnt = [0]
            sys.setrecursionlimit(20000)

            def dfs(v):
                idx[v] = low[v] = cnt[0]
                cnt[0] += 1
                st.append(v)
                on.add(v)
                for s in self.blocks[v]["succ"]:
                    if s is None:
                        continue
                    w = s[0]
                    if w not in idx:
                        dfs(w)
                        low[v] = min(low[v], low[w])
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1:
                        res.update(comp)
                    elif any(s and s[0] == v for s in self.blocks[v]["succ"]):
                        res.add(v)
            for v in self.blocks:
                if v not in idx:
                    dfs(v)
            self._scc = res
        return self._scc

    def __repr__(self):
        return "<Fn %s>" % self.name


class Program:
    def __init__(self, tus=None):
        self.tus = tus or all_tus()
        missing = [t for t in self.tus if t != "instantiate.cc" and not os.path.exists(os.path.join(REPO, t))]
        if missing:
            raise AnalysisBroken("translation units missing: %s" % missing)
        self.fns = {}
        self.classes = {}
        self.by_name = {}
        for tu, path in zip(self.tus, extract(self.tus)):
            with open(path) as f:
                d = json.load(f)
            if d["error"]:
                raise AnalysisBroken("%s did not type-check" % tu)
            for fd in d["functions"]:
                if fd["usr"] in self.fns:
                    continue
                fn = Fn(fd, tu)
                if fn.file.endswith("_test.cc") or "/testing/" in fn.file:
                    continue
                self.fns[fn.usr] = fn
                self.by_name.setdefault(fn.name, []).append(fn)
            for c in d["classes"]:
                n = short(c["name"])
                c["sname"] = n
                c["bases"] = [short(b) for b in c["bases"]]
                for fl in c["fields"]:
                    fl["attrs"] = [(a[0], [T(x) for x in a[1]]) for a in fl.get("attrs", [])]
                    if "init" in fl:
                        fl["init"] = T(fl["init"])
                for m in c["methods"]:
                    m["attrs"] = [(a[0], [T(x) for x in a[1]]) for a in m.get("attrs", [])]
                self.classes.setdefault(n, c)
        self.lambdas_of = {}
        for f in self.fns.values():
            if f.lam:
                self.lambdas_of.setdefault(f.parent, []).append(f)
        self.over = {}
        for f in self.fns.values():
            for o in f.overrides:
                self.over.setdefault(o, []).append(f.usr)
        self._mod = {}

    # -- lookup
    def fn(self, name, nparams=None, pred=None):
        c = [f for f in self.by_name.get(name, []) if not f.lam]
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if not c:
            raise AnalysisBroken("anchor function %s not found" % name)
        if len(c) > 1:
            raise AnalysisBroken("anchor function %s ambiguous (%d)" % (name, len(c)))
        return c[0]

    def maybe(self, name):
        return [f for f in self.by_name.get(name, []) if not f.lam]

    def cls(self, name):
        if name not in self.classes:
            raise AnalysisBroken("anchor class %s not found" % name)
        return self.classes[name]

    def field(self, cls, name):
        for f in self.cls(cls)["fields"]:
            if f["name"] == name:
                return f
        raise AnalysisBroken("anchor field %s::%s not found" % (cls, name))

    def methods(self, cls):
        return [f for f in self.fns.values() if f.cls == cls and not f.lam]

    def subclasses(self, cls):
        out = set()
        work = [cls]
        while work:
            c = work.pop()
            for n, k in self.classes.items():
                if c in k["bases"] and n not in out:
                    out.add(n)
                    work.append(n)
        return out

    def overriders(self, usr):
        out, work = [], [usr]
        seen = set()
        while work:
            u = work.pop()
            if u in seen:
                continue
            seen.add(u)
            for o in self.over.get(u, []):
                out.append(o)
                work.append(o)
        return out

    def targets(self, ev):
        """possible repo callees of a call event"""
        u = ev.get("usr")
        if not u:
            return []
        out = []
        if u in self.fns:
            out.append(u)
        if ev.get("virt"):
            out += [o for o in self.overriders(u) if o in self.fns]
        return out

    def closure(self, usrs, stop=lambda u: False, lambdas=True):
        """functions reachable through direct calls (and lambdas created)"""
        seen = set()
        work = list(usrs)
        while work:
            u = work.pop()
            if u in seen or u not in self.fns:
                continue
            seen.add(u)
            f = self.fns[u]
            for e in f.events():
                if e["k"] in ("call", "ctor", "asg", "idx"):
                    for t in self.targets(e):
                        if not stop(t):
                            work.append(t)
                elif e["k"] == "lam" and lambdas:
                    work.append(e["lam"])
        return seen

    def modset(self, usr, _stack=None):
        """fields (Class::field) written, transitively, by usr"""
        if usr in self._mod:
            return self._mod[usr]
        out = set()
        for u in self.closure([usr]):
            f = self.fns[u]
            for e in f.events():
                if e["k"] == "asg":
                    fl = _field_of(e["l"])
                    if fl:
                        out.add(fl)
                elif e["k"] == "call" and "recv" in e and not is_pure(e) and e.get("usr") not in self.fns:
                    fl = _field_of(e["recv"])
                    if fl:
                        out.add(fl)
                elif e["k"] == "idx":
                    fl = _field_of(e["recv"])
                    if fl:
                        out.add(fl)
        self._mod[usr] = out
        return out


def _field_of(t):
    while isinstance(t, tuple) and t:
        if t[0] == "m":
            return t[2]
        if t[0] in ("d", "a", "mv", "idx", "bool", "cast"):
            t = t[2] if t[0] == "cast" else t[1]
            continue
        return None
    return None


PURE_NAMES = {"find", "end", "begin", "cbegin", "cend", "rbegin", "rend", "front", "back", "size", "empty",
              "contains", "at", "count", "get", "data", "ok", "code", "message",
              "value", "has_value", "c_str", "length", "lower_bound", "upper_bound", "lock",
              "NumElements", "dims", "dim_size", "shape", "dtype", "operator bool", "str"}


def is_pure(e):
    """event e is a call without side effects visible to the rules"""
    n = e.get("sfn", "").rsplit("::", 1)[-1]
    if e.get("const"):
        return True
    if n in PURE_NAMES and "recv" in e:
        return True
    return False
