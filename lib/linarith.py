"""Linear integer constraints: the numeric part of the abstract domain.

A linear expression is a (coefficients, constant) pair over integer atoms, a
constraint is an expression required to be <= 0.  A conjunction of constraints
is a convex polyhedron; `empty` decides emptiness by Gaussian/Fourier-Motzkin
elimination with integer tightening.  If elimination grows past a limit the
polyhedron is treated as non-empty, which only loses precision.
"""
from math import gcd


class Lin:
    __slots__ = ("c", "k", "_h")

    def __init__(self, c=None, k=0):
        self.c = c or {}
        self.k = k
        self._h = None

    @staticmethod
    def atom(a):
        return Lin({a: 1}, 0)

    @staticmethod
    def const(k):
        return Lin({}, k)

    def is_const(self):
        return not self.c

    def add(self, o, m=1):
        if not o.c:
            return Lin(self.c, self.k + m * o.k)
        c = dict(self.c)
        for a, v in o.c.items():
            n = c.get(a, 0) + m * v
            if n:
                c[a] = n
            else:
                c.pop(a, None)
        return Lin(c, self.k + m * o.k)

    def sub(self, o):
        return self.add(o, -1)

    def scale(self, m):
        if m == 0:
            return Lin()
        return Lin({a: v * m for a, v in self.c.items()}, self.k * m)

    def plus(self, k):
        return Lin(self.c, self.k + k)

    def key(self):
        if self._h is None:
            self._h = (tuple(sorted(self.c.items(), key=lambda x: str(x[0]))), self.k)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.k == o.k and self.c == o.c

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = " + ".join(
            (f"{a}" if v == 1 else f"-{a}" if v == -1 else f"{v}*{a}")
            for a, v in sorted(self.c.items(), key=lambda x: str(x[0]))
        )
        if self.k or not s:
            s = f"{s} + {self.k}" if s else f"{self.k}"
        return s


def norm(e):
    """tighten `e <= 0` over the integers; None when trivially true, False when
    trivially false"""
    if not e.c:
        return None if e.k <= 0 else False
    g = 0
    for v in e.c.values():
        g = gcd(g, abs(v))
    if g > 1:
        # sum(c)*g + k <= 0  <=>  sum(c) <= floor(-k/g)
        return Lin({a: v // g for a, v in e.c.items()}, -((-e.k) // g))
    return e


LIMIT = 1200


def _collect(cons, eqs):
    """find a <= b and b <= a pairs and turn them into equalities"""
    out = []
    keyed = {}
    for e in cons:
        key = tuple(sorted(e.c.items(), key=lambda x: str(x[0])))
        if key in keyed:
            if e.k > keyed[key].k:
                keyed[key] = e
        else:
            keyed[key] = e
    used = set()
    for key, e in keyed.items():
        if key in used:
            continue
        nkey = tuple((a, -v) for a, v in key)
        o = keyed.get(nkey)
        if o is not None and nkey not in used:
            # e: S + k <= 0, o: -S + k2 <= 0  => -? k2 <= S <= -k
            if o.k + e.k > 0:
                return None, None
            if o.k + e.k == 0:
                eqs.append(e)
                used.add(key)
                used.add(nkey)
                continue
        out.append(e)
        used.add(key)
    return out, eqs


def subst_eq(e, a, eq):
    """eliminate atom a from e with eq == 0, coefficient of a in eq is +-1"""
    v = e.c.get(a)
    if not v:
        return e
    ca = eq.c[a]
    return e.add(eq, -v * ca)


def tighten(cons):
    """interval propagation over the integers; atoms with one possible value are
    replaced by it.  None when an interval is empty."""
    for _ in range(4):
        lo, hi = {}, {}
        for _ in range(3):
            for e in cons:
                if len(e.c) > 4:
                    continue
                for a, v in e.c.items():
                    # v*a <= -k - sum(others); the others at their smallest
                    rest = -e.k
                    for b, w in e.c.items():
                        if b == a:
                            continue
                        m = lo.get(b) if w > 0 else hi.get(b)
                        if m is None:
                            rest = None
                            break
                        rest -= w * m
                    if rest is None:
                        continue
                    if v > 0:
                        x = rest // v
                        if a not in hi or x < hi[a]:
                            hi[a] = x
                    else:
                        x = -(rest // -v)
                        if a not in lo or x > lo[a]:
                            lo[a] = x
        one = {}
        for a in lo:
            if a in hi:
                if lo[a] > hi[a]:
                    return None
                if lo[a] == hi[a]:
                    one[a] = lo[a]
        one = {a: v for a, v in one.items() if any(a in e.c and len(e.c) > 1 for e in cons)}
        if not one:
            return cons
        out = []
        for e in cons:
            k = e.k + sum(v * one[a] for a, v in e.c.items() if a in one)
            n = norm(Lin({a: v for a, v in e.c.items() if a not in one}, k))
            if n is None:
                continue
            if n is False:
                return None
            out.append(n)
        cons = out
    return cons


def project(cons, keep=()):
    """decide emptiness.  returns True when the polyhedron is empty."""
    cur = []
    for e in cons:
        n = norm(e)
        if n is None:
            continue
        if n is False:
            return True
        cur.append(n)
    if any(abs(v) >= 1 << 31 for e in cur for v in e.c.values()):
        cur = tighten(cur)
        if cur is None:
            return True
    while True:
        eqs = []
        cur, eqs = _collect(cur, eqs)
        if cur is None:
            return True
        if eqs:
            eq = None
            for e in eqs:
                for a, v in e.c.items():
                    if abs(v) == 1:
                        eq, pick = e, a
                        break
                if eq is not None:
                    break
            if eq is not None:
                rest = []
                for e in cur:
                    rest.append(subst_eq(e, pick, eq))
                for e in eqs:
                    if e is not eq:
                        s = subst_eq(e, pick, eq)
                        rest.append(s)
                        rest.append(s.scale(-1))
                nxt = []
                for e in rest:
                    n = norm(e)
                    if n is None:
                        continue
                    if n is False:
                        return True
                    nxt.append(n)
                cur = nxt
                continue
            for e in eqs:
                g = 0
                for v in e.c.values():
                    g = gcd(g, abs(v))
                if g and e.k % g:
                    return True
                cur.append(e)
                cur.append(e.scale(-1))
        # pick an atom for Fourier-Motzkin
        atoms = {}
        for e in cur:
            for a, v in e.c.items():
                p, n = atoms.get(a, (0, 0))
                atoms[a] = (p + 1, n) if v > 0 else (p, n + 1)
        if not atoms:
            return False
        best = min(atoms, key=lambda a: (atoms[a][0] * atoms[a][1] - sum(atoms[a]), str(a)))
        pos, neg, rest = [], [], []
        for e in cur:
            v = e.c.get(best, 0)
            (pos if v > 0 else neg if v < 0 else rest).append(e)
        if len(pos) * len(neg) + len(rest) > LIMIT:
            return False
        nxt = rest
        for p in pos:
            for q in neg:
                r = p.scale(-q.c[best]).add(q, p.c[best])
                n = norm(r)
                if n is None:
                    continue
                if n is False:
                    return True
                nxt.append(n)
        cur = nxt


empty = project


def witness(cons, order, lo=-(2 ** 63), hi=2 ** 63):
    """try to find one integer point; returns dict or None (not a proof)"""
    fixed = {}
    cands = [0, 1, -1, 2, 3, -2, 4, 5, 7, 8, 16, 100, -100, 2 ** 31 - 1, -(2 ** 31), 2 ** 31, 2**63-1, -(2**63), 2**64-1]
    atoms = sorted({a for e in cons for a in e.c}, key=str)
    cur = list(cons)

    def with_val(cs, a, v):
        out = []
        for e in cs:
            cv = e.c.get(a)
            if cv:
                c = dict(e.c)
                del c[a]
                e = Lin(c, e.k + cv * v)
            out.append(e)
        return out

    for a in atoms:
        ok = False
        # bounds from single-atom constraints
        los, his = None, None
        for e in cur:
            if len(e.c) == 1 and a in e.c:
                v = e.c[a]
                if v > 0:
                    b = (-e.k) // v
                    his = b if his is None else min(his, b)
                else:
                    b = -((-e.k) // (-v)) if False else -((-(e.k)) // (-v)) if False else None
                    # v<0: v*a + k <= 0  => a >= k/(-v)
                    b = -((-e.k) // (-v))
                    los = b if los is None else max(los, b)
        more = [x for x in (los, his, (los + 1) if los is not None else None, (his - 1) if his is not None else None) if x is not None]
        for v in cands + more:
            nx = with_val(cur, a, v)
            if not empty(nx):
                fixed[a] = v
                cur = nx
                ok = True
                break
        if not ok:
            return None
    for e in cur:
        if e.c or e.k > 0:
            return None
    return fixed
