from engine.explore import *
from engine.ir import AnalysisBroken, is_pure, short, last


def path_has(sym, field):
    """sym is an access path ending in field 'Class::name'"""
    return sym is not None and isinstance(sym, S) and sym.k == "m" and sym.a[1] == field


def root_field(sym):
    """innermost field directly below `this`"""
    s = sym
    while isinstance(s, S):
        if s.k == "m":
            if s.a[0].k == "this":
                return s.a[1]
            s = s.a[0]
        elif s.k in ("idx", "elem", "bool", "cast", "call") and len(s.a):
            n = s.a[1] if s.k in ("cast", "call") else s.a[0]
            s = n
        else:
            return None
    return None


def f(field, base=None):
    return mk("m", base or THIS, field)


class Collect(Auto):
    """collect the (facts, return value) pairs of all complete paths"""

    def __init__(self):
        self.out = []

    def exit(self, st, ret, ev):
        self.out.append((dict(st.facts), ret, st))


def bool_paths(prog, fn, **kw):
    """decision table of a bool function: list of (facts, bool)"""
    c = Collect()
    e = Engine(prog, fn, c, **kw)
    e.run()
    out = []
    for facts, ret, st in c.out:
        r = e.truth(st, ret)
        if r is not None:
            out.append((facts, r))
            continue
        for val in (True, False):
            res = []
            e.assume(st.clone(), ret, val, res, fn.line, fn)
            for x in res:
                out.append((dict(x.facts), val))
    return out, e


def fn_is(ev, *names):
    return ev.fn is not None and (ev.fn in names)


def status_ok_on_exit(eng, st, ret):
    """True: definitely OK, False: definitely error, None: unknown"""
    if ret is OK:
        return True
    if ret is None or ret is VOID:
        return None
    if ret.k == "errstatus" or (ret.k == "call" and ret.a[0].rsplit("::", 1)[-1] in ERR_BUILDERS):
        return False
    v = st.facts.get(mk("okp", ret))
    return v
