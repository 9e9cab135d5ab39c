"""Symbolic-free numeric domain: Laurent polynomials over named unknowns with interval bounds.

A Num is an exact polynomial (rational coefficients) over *atoms*.  An atom stands for an
unknown run-time quantity (a duration, a random draw, a clock reading).  Bounds of atoms live in
the abstract state.  `sign_set` computes which of {-1,0,1} the value may have, from bounds and
from the comparison facts recorded on the current path.
"""
from fractions import Fraction
from functools import lru_cache

INF = float("inf")


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    return Fraction(repr(x))


class Num:
    """Immutable polynomial. t: tuple of (monomial, coefficient); monomial: tuple of (atom, exp)."""
    __slots__ = ("t", "h")

    def __init__(self, terms):
        self.t = terms
        self.h = hash(terms)

    def __eq__(self, o):
        return isinstance(o, Num) and self.t == o.t

    def __hash__(self):
        return self.h

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in self.t:
            s = "*".join(f"{atom_str(a)}^{e}" if e != 1 else atom_str(a) for a, e in m)
            out.append(f"{c}*{s}" if s and c != 1 else (s or str(c)))
        return " + ".join(out)

    def const(self):
        """The constant value if this polynomial has no atom, else None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and not self.t[0][0]:
            return self.t[0][1]
        return None

    def atoms(self):
        s = set()
        for m, _ in self.t:
            for a, _e in m:
                s.add(a)
        return s


def atom_str(a):
    if isinstance(a, tuple):
        return a[0] + "(" + ",".join(map(str, a[1:])) + ")"
    return str(a)


def mk(d):
    return Num(tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: repr(x[0]))))


def of(x):
    if isinstance(x, Num):
        return x
    return mk({(): frac(x)})


def atom(a):
    return mk({((a, 1),): Fraction(1)})


def add(p, q):
    d = dict(p.t)
    for m, c in q.t:
        d[m] = d.get(m, 0) + c
    return mk(d)


def neg(p):
    return Num(tuple((m, -c) for m, c in p.t))


def sub(p, q):
    return add(p, neg(q))


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: repr(z)))


def mul(p, q):
    d = {}
    for m1, c1 in p.t:
        for m2, c2 in q.t:
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mk(d)


def inv(q):
    """1/q as a Num (q not constant zero)."""
    if len(q.t) == 1:
        m, c = q.t[0]
        return mk({tuple((a, -e) for a, e in m): 1 / c})
    return atom(("inv", q))


def div(p, q):
    return mul(p, inv(q))


# ---------------------------------------------------------------- intervals
# an interval is (lo, lo_open, hi, hi_open)
TOP = (-INF, True, INF, True)


def iadd(a, b):
    return (a[0] + b[0], a[1] or b[1], a[2] + b[2], a[3] or b[3])


def _prod(x, xo, y, yo):
    if x == 0 and not xo or y == 0 and not yo:
        return (0, False)
    if x == 0 or y == 0:
        return (0, True)
    return (x * y, xo or yo)


def imul(a, b):
    c = [_prod(a[0], a[1], b[0], b[1]), _prod(a[0], a[1], b[2], b[3]),
         _prod(a[2], a[3], b[0], b[1]), _prod(a[2], a[3], b[2], b[3])]
    lo = min(v for v, _ in c)
    hi = max(v for v, _ in c)
    return (lo, all(o for v, o in c if v == lo), hi, all(o for v, o in c if v == hi))


def iinv(a):
    lo, lo_o, hi, hi_o = a
    if lo > 0 or (lo == 0 and lo_o):
        nlo = (0, True) if hi == INF else (1 / Fraction(hi), hi_o)
        nhi = (INF, True) if lo == 0 else (1 / Fraction(lo), lo_o)
        return (nlo[0], nlo[1], nhi[0], nhi[1])
    if hi < 0 or (hi == 0 and hi_o):
        b = iinv((-hi, hi_o, -lo, lo_o))
        return (-b[2], b[3], -b[0], b[1])
    return TOP


def atom_interval(a, bounds):
    b = bounds.get(a)
    if b is not None:
        return b
    if isinstance(a, tuple):
        if a[0] == "inv":
            return iinv(interval(a[1], bounds))
        if a[0] == "pow":                       # base**exponent, base a positive constant
            base, e = a[1], interval(a[2], bounds)
            if base >= 1:
                lo = Fraction(base) ** int(e[0]) if e[0] not in (INF, -INF) and e[0] == int(e[0]) and abs(e[0]) < 2000 else 0
                hi = Fraction(base) ** int(e[2]) if e[2] not in (INF, -INF) and e[2] == int(e[2]) and abs(e[2]) < 2000 else INF
                return (lo, lo == 0, hi, hi == INF)
            return (0, True, INF, True)
        if a[0] == "int":
            lo, _, hi, _ = interval(a[1], bounds)
            import math
            return (lo if lo == -INF else math.floor(lo), False, hi if hi == INF else math.floor(hi), False)
    return TOP


def interval(p, bounds):
    tot = (0, False, 0, False)
    for m, c in p.t:
        iv = (c, False, c, False)
        for a, e in m:
            ai = atom_interval(a, bounds)
            if e < 0:
                ai = iinv(ai)
            n = abs(e)
            if n % 2 == 0:
                sq = imul(ai, ai)
                lo = max(sq[0], 0)
                if ai[0] < 0 < ai[2]:
                    sq = (0, False, sq[2], sq[3])
                else:
                    sq = (lo, sq[1] if lo == sq[0] else False, sq[2], sq[3])
                for _ in range(n // 2):
                    iv = imul(iv, sq)
            else:
                for _ in range(n):
                    iv = imul(iv, ai)
        tot = iadd(tot, iv)
    return tot


def isigns(iv):
    s = set()
    lo, lo_o, hi, hi_o = iv
    if lo < 0:
        s.add(-1)
    if hi > 0:
        s.add(1)
    if (lo < 0 or (lo == 0 and not lo_o)) and (hi > 0 or (hi == 0 and not hi_o)):
        s.add(0)
    return s


def gcd_factor(p):
    """Factor the common monomial out of p: (monomial, rest)."""
    if not p.t:
        return (), p
    common = None
    for m, _ in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            for a in list(common):
                if a not in d:
                    # a monomial without the atom has exponent 0
                    if common[a] > 0:
                        del common[a]
                else:
                    common[a] = min(common[a], d[a])
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
    common = {a: e for a, e in common.items() if e}
    if not common:
        return (), p
    g = tuple(sorted(common.items(), key=lambda z: repr(z)))
    ginv = tuple((a, -e) for a, e in g)
    return g, mk({mmul(m, ginv): c for m, c in p.t})


def mono_signs(m, bounds):
    s = {1}
    for a, e in m:
        asg = isigns(atom_interval(a, bounds))
        if e % 2 == 0:
            asg = {x * x for x in asg}
        s = {x * y for x in s for y in asg}
    return s


def normal(p):
    """Scale so that the leading coefficient is 1; returns (normalised, sign of the scale)."""
    if not p.t:
        return p, 1
    c = p.t[0][1]
    return Num(tuple((m, x / c) for m, x in p.t)), (1 if c > 0 else -1)


class Facts:
    """Helper over a dict {normalised poly: frozenset of possible signs}."""


def sign_set(p, bounds, facts, depth=2):
    c = p.const()
    if c is not None:
        return {(c > 0) - (c < 0)}
    g, rest = gcd_factor(p)
    base = isigns(interval(p, bounds))
    if g:
        gs = mono_signs(g, bounds)
        rs = sign_set(rest, bounds, facts, depth) if rest.t != p.t else isigns(interval(rest, bounds))
        base &= {x * y for x in gs for y in rs}
    if len(base) <= 1:
        return base
    n, s = normal(p)
    f = facts.get(n)
    if f is not None:
        base &= {s * x for x in f}
    if len(base) > 1 and facts:
        rel = related(p, facts)
        if rel:
            base = {x for x in base if feasible(rel + [(p, frozenset([x]))], bounds)}
    return base


def related(p, facts):
    """Facts connected to p through shared atoms."""
    ats = set(p.atoms())
    out = []
    left = list(facts.items())
    grew = True
    while grew and left:
        grew = False
        rest = []
        for q, fs in left:
            qa = q.atoms()
            if qa & ats:
                out.append((q, fs))
                ats |= qa
                grew = True
            else:
                rest.append((q, fs))
        left = rest
    return out


def feasible(cons, bounds):
    """Polyhedral emptiness test (Fourier-Motzkin over monomials); True when not shown empty."""
    rows = []                                   # (coefficients, constant, strict): expr > 0 or >= 0
    monos = set()

    def put(q, strict, sgn):
        d = {m: sgn * c for m, c in q.t if m != ()}
        k = sum((sgn * c for m, c in q.t if m == ()), Fraction(0))
        monos.update(d)
        rows.append((d, k, strict))
    for q, fs in cons:
        if fs == {1}:
            put(q, True, 1)
        elif fs == {-1}:
            put(q, True, -1)
        elif fs == {0}:
            put(q, False, 1)
            put(q, False, -1)
        elif fs == {0, 1}:
            put(q, False, 1)
        elif fs == {0, -1}:
            put(q, False, -1)
    for m in list(monos):
        lo, lo_o, hi, hi_o = interval(Num(((m, Fraction(1)),)), bounds)
        if lo != -INF:
            rows.append(({m: Fraction(1)}, Fraction(-lo), lo_o))
        if hi != INF:
            rows.append(({m: Fraction(-1)}, Fraction(hi), hi_o))
    while True:
        keep = []
        for d, k, st in rows:
            if not d:
                if k < 0 or (k == 0 and st):
                    return False
            else:
                keep.append((d, k, st))
        rows = keep
        if not rows or len(rows) > 400:
            return True
        cnt = {}
        for d, _, _ in rows:
            for m, c in d.items():
                a = cnt.setdefault(m, [0, 0])
                a[c > 0] += 1
        v = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], repr(m)))
        pos = [r for r in rows if r[0].get(v, 0) > 0]
        negs = [r for r in rows if r[0].get(v, 0) < 0]
        new = [r for r in rows if v not in r[0]]
        for d1, k1, s1 in pos:
            for d2, k2, s2 in negs:
                a, b = -d2[v], d1[v]
                d = {m: a * c for m, c in d1.items()}
                for m, c in d2.items():
                    x = d.get(m, 0) + b * c
                    if x:
                        d[m] = x
                    else:
                        d.pop(m, None)
                d.pop(v, None)
                new.append((d, a * k1 + b * k2, s1 or s2))
        seen = {}
        for d, k, st in new:
            key = tuple(sorted(d.items(), key=lambda z: repr(z[0])))
            o = seen.get(key)
            if o is None or k < o[1] or (k == o[1] and st and not o[2]):
                seen[key] = (d, k, st)
        rows = list(seen.values())
