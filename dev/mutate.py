#!/usr/bin/env python3
"""Run a batch of source mutations against the checks (development aid).
usage: mutate.py SPEC.py [filter]
SPEC defines M = [(name, pids, expect, [(file, old, new[, occurrence])...])]
expect: 'bad' (some pid must report a violation) or 'ok' (all pids quiet)."""
import sys, os, subprocess, importlib.util, concurrent.futures, tempfile, shutil
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
flt = sys.argv[2] if len(sys.argv) > 2 else ""
def one(t):
    name, pids, expect, eds = t
    S = tempfile.mkdtemp(prefix="mutb-", dir="/tmp")
    try:
        subprocess.run('mkdir -p %s; git -C /repo archive HEAD reverb | tar -x -C %s' % (S, S), shell=True, check=True)
        for ed in eds:
            fn, old, new = ed[:3]; occ = ed[3] if len(ed) > 3 else 0
            p = os.path.join(S, fn if fn.startswith('reverb/') else 'reverb/cc/' + fn)
            s = open(p).read()
            if s.count(old) <= occ:
                return name, 'NOPATTERN', fn + ': ' + old[:60]
            parts = s.split(old); s = old.join(parts[:occ + 1]) + new + old.join(parts[occ + 1:])
            open(p, 'w').write(s)
        res = []; outs = []
        for pid in pids:
            env = dict(os.environ, VERIF_REPO=S, VERIF_BUILD='/verif/build', VERIF_EVIDENCE=S + '/ev', VERIF_JOBS='2')
            r = subprocess.run(['python3', '/verif/check.py', pid], env=env, capture_output=True, text=True)
            res.append(r.returncode); outs.append("\n".join(l[:230] for l in (r.stdout + r.stderr).splitlines() if 'via' not in l)[:900])
        good = (1 in res and 2 not in res) if expect == 'bad' else all(x == 0 for x in res)
        return name, 'pass' if good else 'FAIL expect=%s got=%s' % (expect, res), "\n".join(outs)
    finally:
        shutil.rmtree(S)
todo = [t for t in m.M if flt in t[0]]
ok = 0
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MUTJOBS","7"))) as ex:
    for n, r, o in ex.map(one, todo):
        if r == 'pass': ok += 1
        print(n, r)
        if r != 'pass' or '-v' in sys.argv: print("   ", o.replace("\n", "\n    "))
print("%d/%d" % (ok, len(todo)))
