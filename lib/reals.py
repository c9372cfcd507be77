"""Floating point values as polynomials over the reals.

A value is a Lin with rational coefficients whose atoms are monomials
("m", ((atom, exponent), ...)); the empty monomial is the unit. Rounding, NaN
and infinities are not modelled: two computations are the same when they denote
the same rational function. Comparisons become homogeneous linear constraints
over monomials (the constant is the coefficient of the unit, which is only known
to be positive), for which integer and real feasibility coincide.
"""
import struct
from fractions import Fraction
from math import lcm
from linarith import Lin

UNIT = ("m", ())


def const(q):
    q = Fraction(q)
    return Lin({UNIT: q}, 0) if q else Lin()


def atom(a):
    return Lin.atom(("m", ((a, 1),)))


def parse(tok, t):
    """constant of the IR, or None when it is not finite"""
    if tok.startswith("0x"):
        if tok[2] in "KLMHR":
            return None
        v = struct.unpack(">d", bytes.fromhex(tok[2:].zfill(16)))[0]
    else:
        v = float(tok)
    if v != v or v in (float("inf"), float("-inf")):
        return None
    return const(Fraction(v))


def is_const(x):
    return all(a == UNIT for a in x.c)


def value(x):
    return Fraction(x.c.get(UNIT, 0))


def mono_mul(a, b):
    e = dict(a[1])
    for x, n in b[1]:
        e[x] = e.get(x, 0) + n
    return ("m", tuple(sorted(((x, n) for x, n in e.items() if n), key=str)))


def mul(x, y):
    c = {}
    extra = Lin()
    for a, p in x.c.items():
        for b, q in y.c.items():
            m = mono_mul(a, b)
            # the square of a root is its argument
            root = [(r, n) for r, n in m[1] if isinstance(r, tuple) and r[0] == "sqrt" and n >= 2]
            if root:
                r, n = root[0]
                rest = mono_mul(m, ("m", ((r, -2),)))
                extra = extra.add(mul(Lin({rest: Fraction(p * q)}), ROOTS[r]))
                continue
            v = c.get(m, 0) + Fraction(p) * q
            if v:
                c[m] = v
            else:
                c.pop(m, None)
    return Lin(c, 0).add(extra)


ROOTS = {}


def inv(x):
    if len(x.c) == 1:
        (m, q), = x.c.items()
        return Lin({("m", tuple((a, -n) for a, n in m[1])): 1 / Fraction(q)}, 0)
    lead = x.c[min(x.c, key=str)]
    return Lin({("m", ((("inv", x.scale(1 / Fraction(lead)).key()), 1),)): 1 / Fraction(lead)}, 0)


def sqrt(x):
    if is_const(x):
        v = value(x)
        if v in (0, 1):
            return x
    a = ("sqrt", x.key())
    ROOTS[a] = x
    return atom(a)


def integral(x):
    """same sign everywhere, integer coefficients"""
    d = 1
    for q in x.c.values():
        d = lcm(d, Fraction(q).denominator)
    return Lin({a: int(q * d) for a, q in x.c.items()}, 0)
