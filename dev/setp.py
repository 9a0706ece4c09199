"""usage: setp.py < spec ; spec: blocks 'PNN\nstatement...\n--\ntech\n==' rewriting statement and tech in props.py"""
import re, sys
p = "/verif/dev/props.py"
s = open(p).read()
for blk in sys.stdin.read().split("\n==\n"):
    if not blk.strip():
        continue
    pid, rest = blk.strip("\n").split("\n", 1)
    parts = rest.split("\n--\n")
    m = re.search(r'prop\("%s", "[^\n]*\n.*?(?=\nprop\(|\n# |\nKNOWN|\Z)' % pid, s, re.S)
    b = m.group(0)
    nb = re.sub(r'""".*?"""', lambda _: '"""' + parts[0].strip() + '"""', b, count=1, flags=re.S)
    if len(parts) > 1 and parts[1].strip():
        lines = nb.split("\n")
        i = max(j for j, l in enumerate(lines) if l.strip().startswith("NOTE") )
        lines[i - 1] = '     "%s",' % parts[1].strip().replace('"', "'")
        nb = "\n".join(lines)
    if len(parts) > 2:
        nb = re.sub(r'(prop\("%s", )"[^\n]*"' % pid, lambda q: q.group(1) + '"' + parts[2].strip() + '"', nb)
    s = s.replace(b, nb)
open(p, "w").write(s)
