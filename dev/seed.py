#!/usr/bin/env python3
"""Builds and validates a planted bug from dev/seeds/<id>.py (SEED dict:
property, needs, breaks, edits=[(file,old,new[,occ])], demo=C++ text).
Works on /repo (applied, tested, and undone)."""
import sys, os, subprocess, json, importlib.util, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Builds and runs demo.cc against the library built from the working tree.
# Exit 0: the property holds for this scenario; nonzero: it is broken.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
root=$(pwd)
g++ -DEIGEN_MAX_ALIGN_BYTES=64 -DNDEBUG -I"$root" -I"$root/_build/gen" -I/opt/reverb-deps/overlay \\
  -I/opt/reverb-deps/tf/include -I/opt/reverb-deps/tf/include/external/snappy -std=gnu++17 -O1 -mavx -w -fPIE \\
  -o "$tmp/demo" "$here/demo.cc" -L/opt/reverb-deps/tf -L/opt/reverb-deps/lib \\
  -Wl,-rpath,/opt/reverb-deps/tf:/opt/reverb-deps/lib:"$root/_build" "$root/_build/libreverb_testing.a" "$root/_build/libreverb.so" \\
  -ltensorflow_framework -lgmock -lgtest -lgrpc++ -lgrpc -lgpr -labsl_random_lts -labsl_random_seed_sequences -labsl_random_internal_pool_urbg \\
  -labsl_random_internal_randen -labsl_random_internal_randen_hwaes -labsl_random_internal_randen_hwaes_impl \\
  -labsl_random_internal_randen_slow -labsl_random_internal_seed_material -labsl_random_seed_gen_exception -lpthread -ldl -lrt -lm
cd "$tmp"
timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print((r.stdout + r.stderr)[-2500:]); raise SystemExit("build failed")
def main(i, notest=False):
    spec = importlib.util.spec_from_file_location("m", V + "/dev/seeds/%s.py" % i); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    S = m.SEED; d = V + "/seeded/" + i
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "repo dirty"
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    open(d + "/demo.cc", "w").write(S["demo"]); open(d + "/demo.sh", "w").write(S.get("sh", DEMO_SH)); os.chmod(d + "/demo.sh", 0o755)
    for n, t in S.get("extra", {}).items(): open(d + "/" + n, "w").write(t)
    json.dump({"property": S["property"], "needs": S["needs"], "what_it_breaks": S["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    build()
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("clean demo:", r.returncode)
    if r.returncode: print((r.stdout + r.stderr)[-3000:]); raise SystemExit(1)
    try:
        for ed in S["edits"]:
            fn, old, new = ed[:3]; occ = ed[3] if len(ed) > 3 else 0
            p = "/repo/" + (fn if fn.startswith("reverb/") else "reverb/cc/" + fn); s = open(p).read()
            assert s.count(old) > occ, (fn, old)
            parts = s.split(old); open(p, "w").write(old.join(parts[:occ + 1]) + new + old.join(parts[occ + 1:]))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        build()
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("patched demo:", r.returncode, (r.stdout + r.stderr)[-300:])
        if not notest:
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            o = json.load(open("/tmp/seed_out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            print("tests:", t.stdout.strip().splitlines()[-1:], "failed:", o.get("failed"))
        c = sh("python3 check.py %s" % S["property"], cwd=V, env=dict(os.environ, VERIF_EVIDENCE="/tmp/seedev"))
        print("check:", c.returncode, "\n".join(l[:220] for l in c.stdout.splitlines() if "via" not in l)[:700])
    finally:
        sh("git -C /repo checkout -- .")
        build()
for i in sys.argv[1:]:
    if not i.startswith("-"): print("==", i); main(i, "--notest" in sys.argv)
