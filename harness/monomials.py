"""Numerical reading of the monomials of spec/Monomials.tla."""
import fractions
import math


def split(m):
    """(coefficient, {symbol: exponent}) of an emitted monomial."""
    if not m:  # ToJson writes the empty function as []
        return 1.0, {}
    c, syms = 1.0, {}
    for g, (n, d) in m.items():
        if g == '-':
            c = -c
        elif g.isdigit():
            c *= float(g) ** (n / d)
        else:
            syms[g] = fractions.Fraction(n, d)
    return c, syms


def read(expression):
    """The same view of a real symbolic expression."""
    c, syms = 1.0, {}
    for t in expression:
        c *= float(t.coefficient)
        if t.base != '1':
            if t.base in syms:
                raise ValueError(f'{t.base} appears twice in {expression}')
            syms[t.base] = t.exponent
    return c, syms


def same(got, want, tol=1e-12):
    (c, s), (d, t) = got, want
    if not math.isclose(c, d, rel_tol=tol):
        return False
    if set(s) != set(t):
        return False
    return all(s[k] == t[k] or math.isclose(float(s[k]), float(t[k]), rel_tol=tol)
               for k in s)
