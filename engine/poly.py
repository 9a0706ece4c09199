"""Linear-form normalisation of comparison atoms and exact comparison of a
function's decision table with a specification table (no solver: atoms are
canonical polynomials, tables are enumerated)."""
import itertools
from fractions import Fraction
from engine.explore import mk, const_of, S, show

FLOAT_TY = ("double", "float", "long double")
WIDE = ("long", "unsigned long", "long long", "unsigned long long", "double", "long double")


def poly(s):
    """-> dict monomial(tuple of syms sorted by rank) -> Fraction"""
    c = const_of(s)
    if c is not None and c[0] == "n":
        return {(): Fraction(c[1])} if c[1] else {}
    if s.k == "cast":
        if s.a[0] in WIDE or s.a[0] in ("int", "unsigned int"):
            inner = s.a[1]
            if s.a[0] in FLOAT_TY or s.a[0] in WIDE and not _has_float(inner):
                return poly(inner)
            if s.a[0] in ("int", "unsigned int") and inner.k in ("lit",):
                return poly(inner)
        return {(s,): Fraction(1)}
    if s.k == "op" and len(s.a) == 3:
        o, a, b = s.a
        if o in ("+", "-"):
            r = dict(poly(a))
            for m, v in poly(b).items():
                r[m] = r.get(m, 0) + (v if o == "+" else -v)
            return {m: v for m, v in r.items() if v}
        if o == "*":
            r = {}
            for m1, v1 in poly(a).items():
                for m2, v2 in poly(b).items():
                    m = tuple(sorted(m1 + m2, key=id))
                    r[m] = r.get(m, 0) + v1 * v2
            return {m: v for m, v in r.items() if v}
    if s.k == "op" and len(s.a) == 2 and s.a[0] == "-":
        return {m: -v for m, v in poly(s.a[1]).items()}
    return {(s,): Fraction(1)}


FLOAT_FIELDS = ("samples_per_insert_", "min_diff_", "max_diff_")


def _has_float(s):
    return any((x.k == "m" and x.a[1].endswith(FLOAT_FIELDS)) or (x.k == "cast" and x.a[0] in FLOAT_TY) or
               (x.k == "lit" and "." in str(x.a[0])) for x in s.toks)


def key_of(p):
    return frozenset(p.items())


def lin_lt(a, b):
    """canonical atom for a < b : ('lt0', key(a-b))"""
    p = dict(poly(a))
    for m, v in poly(b).items():
        p[m] = p.get(m, 0) - v
    p = {m: v for m, v in p.items() if v}
    return p


def scale(p):
    """divide by positive gcd-ish factor: largest abs coefficient"""
    if not p:
        return p
    k = max(abs(v) for v in p.values())
    return {m: v / k for m, v in p.items()}


def canon_atom(a, integral=lambda p: False):
    """atom S -> (canonical key, polarity). lt atoms become sign conditions.
    For all-integer polynomials  p < 0  <=>  p + 1 <= 0  are merged by
    normalising  !(q < 0)  <=>  (-q - 1 < 0)  and picking one representative."""
    if a.k == "lt":
        p = lin_lt(*a.a)
        if not p:
            return (False, True)
        if set(p) == {()}:
            return (p[()] < 0, True)
        q = {m: -v for m, v in p.items()}
        if integral(p):
            q[()] = q.get((), Fraction(0)) - 1
            q = {m: v for m, v in q.items() if v}
            # p<0  <=> not (q<0)
            rp, rq = sorted_repr(p), sorted_repr(q)
            if rp <= rq:
                return (("lt0", key_of(p)), True)
            return (("lt0", key_of(q)), False)
        p = scale(p)
        return (("lt0", key_of(p)), True)
    if a.k == "eq":
        p = lin_lt(*a.a)
        if not p:
            return (True, True)
        p = scale(p)
        q = {m: -v for m, v in p.items()}
        rp, rq = sorted_repr(p), sorted_repr(q)
        return (("eq0", key_of(p if rp <= rq else q)), True)
    return (("b", a), True)


def sorted_repr(p):
    return sorted((tuple(sorted(show(x) for x in m)), v) for m, v in p.items())


def show_key(k):
    if k[0] in ("lt0", "eq0"):
        parts = []
        for m, v in sorted(dict(k[1]).items(), key=lambda t: [show(x) for x in t[0]]):
            n = "*".join(sorted(show(x) for x in m)) or "1"
            parts.append(("%+g" % float(v)) + "*" + n)
        return " ".join(parts) + (" < 0" if k[0] == "lt0" else " == 0")
    return show(k[1])


def paths_table(paths, integral=lambda p: False):
    """paths: list of (facts dict atom->bool, result bool) -> rows with
    canonical atoms; contradictory rows dropped."""
    rows = []
    for facts, res in paths:
        row = {}
        bad = False
        for a, v in facts.items():
            k, pol = canon_atom(a, integral)
            if isinstance(k, bool):
                if (k == pol) != v:
                    bad = True
                continue
            v = v == pol
            if k in row and row[k] != v:
                bad = True
            row[k] = v
        if not bad:
            rows.append((row, res))
    return rows


def compare_tables(rows, spec_atoms, spec_fn, extra_ok=()):
    """rows: (assignment, result). Returns (n_cases, list of counterexamples)."""
    atoms = list(spec_atoms)
    for r, _ in rows:
        for k in r:
            if k not in atoms:
                atoms.append(k)
    if len(atoms) > 12:
        return 0, [("too many atoms", [show_key(a) for a in atoms])]
    bad = []
    n = 0
    for vals in itertools.product([False, True], repeat=len(atoms)):
        asg = dict(zip(atoms, vals))
        want = spec_fn(*[asg[a] for a in spec_atoms])
        for row, res in rows:
            if all(asg[k] == v for k, v in row.items()):
                n += 1
                if res != want:
                    bad.append((asg, res, want, [a for a in atoms if a not in spec_atoms]))
    return n, bad
