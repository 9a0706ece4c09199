#!/usr/bin/env python3
"""Run every behaviour-preserving mutation of all specs against every built check (development aid).
usage: cross.py OUT.py  writes a spec for mutate.py"""
import glob, importlib.util, os, sys
pids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob("/verif/rules/p[0-9][0-9].py"))
M = []
for f in sorted(glob.glob("/verif/dev/m_*.py")):
    spec = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for t in m.M:
        if t[2] == "ok":
            M.append((os.path.basename(f)[2:-3] + "/" + t[0], pids, "ok", t[3]))
open(sys.argv[1], "w").write("M = %r\n" % M)
print(len(M), "mutations", len(pids), "checks")
