"""Check driver: runs one property's rules over the current /repo source,
prints VIOLATION / KNOWN-FINDING lines, writes evidence, sets the exit code."""
import importlib
import json
import os
import sys
import time
import traceback

from engine import ir
from engine.ir import VERIF, REPO, AnalysisBroken

EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []            # (key, where, msg, trace)
        self.seen = set()
        self.rules = {}           # rule -> dict(instances=[..])
        self.counters = {}
        self.assumptions = []
        self._progs = {}
        self.fns = set()
        self.tus = set()
        self.selftests = []
        self.incomplete = []

    def program(self, *tus):
        tus = tuple("reverb/cc/" + t if not t.startswith("reverb/") and t != "instantiate.cc" else t for t in tus) or tuple(ir.all_tus())
        if tus not in self._progs:
            self._progs[tus] = ir.Program(list(tus))
            self.tus.update(tus)
        return self._progs[tus]

    def rule(self, rid, text):
        self.rules.setdefault(rid, {"rule": text, "instances": []})

    def instance(self, rid, what):
        r = self.rules.setdefault(rid, {"rule": "", "instances": []})
        if what not in r["instances"]:
            r["instances"].append(what)

    def need(self, rid, n):
        """fail (analysis broken) when a rule matched fewer than n instances"""
        got = len(self.rules.get(rid, {"instances": []})["instances"])
        if got < n:
            raise AnalysisBroken("rule %s matched %d instances, expected at least %d" % (rid, got, n))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, rid, key, where, msg, trace=()):
        """key: stable identity (rule + construct), no line numbers"""
        k = "%s|%s" % (rid, key)
        if k in self.seen:
            return
        self.seen.add(k)
        self.viol.append((k, where, msg, list(trace)))

    def note(self, msg):
        print("NOTE: %s" % msg)

    def engine(self, e):
        """account for an exploration; when the state budget of an entry point
        runs out, what was explored still counts and the gap is reported"""
        from engine.explore import BudgetExceeded
        try:
            e.run()
        except BudgetExceeded as x:
            self.incomplete.append(str(x))
            print("NOTE: incomplete: %s" % x)
        self.count("entry_points")
        self.count("abstract_states", e.states)
        self.count("complete_paths", e.paths)
        self.fns.add(e.entry.name)
        for u in e.inlined:
            self.fns.add(e.p.fns[u].name)
        if e.paths == 0 and e.states == 0:
            raise AnalysisBroken("no path explored in %s" % e.entry.name)
        return e


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def run(pid):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    ctx = Ctx(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        mod = importlib.import_module("rules." + pid.lower())
        mod.run(ctx)
        n_inst = sum(len(r["instances"]) for r in ctx.rules.values())
        if n_inst == 0:
            raise AnalysisBroken("no rule instance analysed")
        for rid, r in ctx.rules.items():
            if not r["instances"] and not r.get("zero_ok"):
                raise AnalysisBroken("rule %s has no instance" % rid)
        broken = None
    except AnalysisBroken as e:
        broken = str(e)
        n_inst = 0
    except Exception:
        broken = traceback.format_exc()
        n_inst = 0
    known = {(k["property"], k["key"]): k for k in load_known() if k.get("status") == "open"}
    new = []
    for k, where, msg, tr in ctx.viol:
        kf = known.get((pid, k))
        if kf:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kf["what"], where))
        else:
            new.append((k, where, msg, tr))
    rep = os.path.join(VERIF, "build", "replay")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    viol_out = []
    for i, (k, where, msg, tr) in enumerate(new):
        path = os.path.join(rep, "%s-%d.txt" % (pid, i))
        with open(path, "w") as f:
            f.write("property: %s\nrule|instance: %s\nwhere: %s\n%s\npath:\n" % (pid, k, where, msg))
            for x in tr:
                f.write("  %s\n" % x)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  rule/instance: %s" % k)
        print("  at %s: %s" % (where, msg))
        for x in tr[-8:]:
            print("    via %s" % x)
        viol_out.append({"rule": k, "where": where, "message": msg, "path": tr})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's current source: clang type-checked ASTs and CFGs "
                           "of %d translation units; the rules below are decided for every listed instance "
                           "on every CFG path (interprocedural, helpers and lambdas inlined)." % len(ctx.tus),
            "translation_units": sorted(ctx.tus),
            "functions_analysed": sorted(ctx.fns),
            "rule_instances": n_inst,
            "rules": [{"id": r, "rule": v["rule"], "instances": v["instances"]} for r, v in ctx.rules.items()],
            "counters": ctx.counters,
            "self_tests": ctx.selftests,
            "known_findings_reported": [k for k, *_ in ctx.viol if (pid, k) in known],
            "analysis_broken": broken,
            "incomplete": ctx.incomplete,
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ctx.assumptions or ["clang's CFG and name resolution for the build's flags; functions of "
                                           "non-repository libraries (absl, grpc, protobuf, TF) behave as documented"],
        "violations": viol_out,
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, broken))
        return 2
    print("OK property=%s rules=%d instances=%d functions=%d states=%d wall=%.1fs" % (
        pid, len(ctx.rules), n_inst, len(ctx.fns), ctx.counters.get("abstract_states", 0), time.time() - t0))
    return 0
