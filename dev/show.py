#!/usr/bin/env python3
"""show.py SPEC.py CASE TU FnSuffix [inl]: events and branches of a function after the mutation CASE"""
import sys, os, subprocess, importlib.util, tempfile, shutil
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
eds = next(t[3] for t in m.M if t[0] == sys.argv[2])
S = tempfile.mkdtemp(prefix="mutb-", dir="/tmp")
subprocess.run(['rsync', '-a', '--exclude', '_build', '--exclude', '.git', '/repo/reverb', S + '/'], check=True)
for ed in eds:
    fn, old, new = ed[:3]; occ = ed[3] if len(ed) > 3 else 0
    p = os.path.join(S, fn if fn.startswith('reverb/') else 'reverb/cc/' + fn); s = open(p).read()
    parts = s.split(old); open(p, 'w').write(old.join(parts[:occ + 1]) + new + old.join(parts[occ + 1:]))
env = dict(os.environ, VERIF_REPO=S, VERIF_BUILD='/verif/build')
subprocess.run(['python3', '/tmp/b4.py'] + sys.argv[3:], env=env)
shutil.rmtree(S)
