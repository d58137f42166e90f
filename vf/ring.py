"""Polynomial identities by normalisation.

A term over reals is expanded to a polynomial with rational coefficients whose
variables are its non-arithmetic subterms; squares of chosen variables are
rewritten (sin(x)^2 = 1 - cos(x)^2 and the like).  Two terms are equal when
their difference normalises to zero: sound, complete enough for the rotation
formulas, and instantaneous."""
from fractions import Fraction
import z3


class NotPoly(Exception):
    pass


class Ring:
    def __init__(self, squares=(), subst=()):
        """squares: (atom, term) meaning atom^2 == term;
        subst: (atom, term) meaning atom == term."""
        self.atoms = {}
        self.names = []
        self.sub = {a.get_id(): t for a, t in subst}
        self.keep = [a for a, _ in subst] + [a for a, _ in squares]
        self.cache = {}
        self.nonneg = set()
        self.sq = {}
        for a, t in squares:
            self.sq[self.atom(a)] = None
        for a, t in squares:
            self.sq[self.atom(a)] = self.reduce(self.poly(t))

    def rule(self, t, by):
        """t == by from now on (t: any term)."""
        self.sub[t.get_id()] = by
        self.keep.append(t)
        self.cache = {}

    def monomial(self, t):
        """A constant or single product of atoms equal to t, else t."""
        if z3.is_rational_value(t) or t.sort() != z3.RealSort():
            return t
        p = {m: c for m, c in self.reduce(self.poly(t)).items() if c}
        if len(p) > 1:
            return t
        for m, c in p.items():
            r = z3.RealVal(c) if c != 1 or not m else None
            for a, e in m:
                for _ in range(e):
                    r = self.names[a] if r is None else r * self.names[a]
            return r
        return z3.RealVal(0)

    def root(self, t):
        """Square root of an even monomial of atoms known not negative."""
        p = {m: c for m, c in self.poly(t).items() if c}
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if c != 1 or not m or not all(e % 2 == 0 and a in self.nonneg for a, e in m):
            return None
        r = None
        for a, e in m:
            for _ in range(e // 2):
                r = self.names[a] if r is None else r * self.names[a]
        return r

    def atom(self, t):
        k = t.get_id()
        if k not in self.atoms:
            self.atoms[k] = len(self.names)
            self.names.append(t)
        return self.atoms[k]

    def poly(self, t):
        k = t.get_id()
        if k in self.cache:
            return self.cache[k][1]
        r = self._poly(t)
        self.cache[k] = (t, r)
        return r

    def _poly(self, t):
        if t.get_id() in self.sub:
            return self.poly(self.sub[t.get_id()])
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): Fraction(v)} if v else {}
        if z3.is_add(t):
            out = {}
            for c in t.children():
                add(out, self.poly(c))
            return out
        if z3.is_sub(t):
            cs = t.children()
            out = dict(self.poly(cs[0]))
            for c in cs[1:]:
                add(out, self.poly(c), -1)
            return out
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            out = {}
            add(out, self.poly(t.arg(0)), -1)
            return out
        if z3.is_mul(t):
            out = {(): Fraction(1)}
            for c in t.children():
                out = self.reduce(mul(out, self.poly(c)))
            return out
        if z3.is_div(t):
            d = self.poly(t.arg(1))
            if list(d) == [()]:
                return {m: c / d[()] for m, c in self.poly(t.arg(0)).items()}
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            e = t.arg(1).as_fraction()
            if e.denominator == 1 and 0 <= e <= 6:
                out = {(): Fraction(1)}
                for _ in range(int(e)):
                    out = self.reduce(mul(out, self.poly(t.arg(0))))
                return out
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.poly(t.arg(1)), self.poly(t.arg(2))
            if a == b:
                return a
        return {((self.atom(t), 1),): Fraction(1)}

    def reduce(self, p):
        if not self.sq:
            return p
        while True:
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and self.sq.get(a) is not None:
                        hit = (m, a, e)
                        break
                if hit:
                    break
            if hit is None:
                return p
            m, a, e = hit
            c = p[m]
            rest = tuple(x if x[0] != a else (a, e - 2) for x in m if x[0] != a or e > 2)
            q = dict(p)
            del q[m]
            add(q, mul({rest: c}, self.sq[a]))
            p = q

    def equal(self, a, b):
        d = dict(self.reduce(self.poly(a)))
        add(d, self.reduce(self.poly(b)), -1)
        return not self.reduce(d)


def add(out, p, s=1):
    for m, c in p.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)


def mul(p, q):
    out = {}
    for m, c in p.items():
        for n, d in q.items():
            k = dict(m)
            for a, e in n:
                k[a] = k.get(a, 0) + e
            key = tuple(sorted(k.items()))
            v = out.get(key, 0) + c * d
            if v:
                out[key] = v
            else:
                out.pop(key, None)
    return out
