"""Exact real terms for the symbolic executor.

A double is modelled as an exact real number.  Values are either Fractions or
hash-consed nodes N(op,args); every node is put into the canonical form
    numerator / product(denominators)
with numerators in a quotient ring Q[generators]/(relations): each relation is
monic in its own generator (g^2 -> poly in earlier generators, or g -> poly), so
the relations form a lex Groebner basis and "normal form = 0" decides membership
in the ideal.  Generators are harness inputs, square roots and sin/cos of base angles.
Everything that is not a ring identity goes to the SMT solver with the path
condition."""
from fractions import Fraction
import math

FB = 16                 # bits per generator exponent
FM = (1 << FB) - 1


class Poison(Exception):
    pass


class Restart(Exception):
    """need finer angle unit for an atom"""


class N:
    __slots__ = ('op', 'args', 'id')

    def __repr__(self):
        return 'N%d:%s' % (self.id, self.op)


class Pool:
    def __init__(self):
        self.tab = {}
        self.cnt = 0

    def mk(self, op, *args):
        k = (op,) + tuple(a.id if isinstance(a, N) else ('c', a) for a in args)
        n = self.tab.get(k)
        if n is None:
            n = N()
            n.op = op
            n.args = args
            n.id = self.cnt
            self.cnt += 1
            self.tab[k] = n
        return n


# ---------------- polynomials ------------------------------------------------
def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pscale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: _c(c * k) for m, c in a.items()}


def _c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def psub(a, b):
    return padd(a, pscale(b, -1))


def pmul_raw(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = {}
    get = r.get
    for mb, cb in b.items():
        for ma, ca in a.items():
            m = ma + mb
            r[m] = get(m, 0) + ca * cb
    return {m: c for m, c in r.items() if c}


def pconst(c):
    return {0: _c(c)} if c else {}


def pis_const(p):
    return not p or (len(p) == 1 and 0 in p)


def pkey(p):
    return frozenset(p.items())


def gens_of_mono(m):
    r = []
    g = 0
    while m:
        e = m & FM
        if e:
            r.append((g, e))
        m >>= FB
        g += 1
    return r


def pgens(p):
    a = 0
    for m in p:
        a |= m
    r = []
    g = 0
    while a:
        if a & FM:
            r.append(g)
        a >>= FB
        g += 1
    return r


class TooBig(Exception):
    pass


class Budget:
    max_terms = 60000


class Ring:
    """generators + relations.  Ring objects are per path (clone on extension)."""

    def __init__(self):
        self.rel = {}      # gen -> (deg, poly)
        self.m1 = 0        # mask: gens with deg-1 relation: any bit
        self.m2 = 0        # gens with deg-2 relation: bits >=1

    def clone(self):
        r = Ring()
        r.rel = dict(self.rel)
        r.m1 = self.m1
        r.m2 = self.m2
        return r

    def add_rel(self, g, deg, poly):
        self.rel[g] = (deg, poly)
        if deg == 1:
            self.m1 |= FM << (FB * g)
        else:
            self.m2 |= (FM & ~1) << (FB * g)

    def nf(self, p):
        mask = self.m1 | self.m2
        if not any(m & mask for m in p):
            return p
        out = {}
        work = dict(p)
        rel = self.rel
        while work:
            nxt = {}
            for m, c in work.items():
                bad = m & mask
                if not bad:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                # highest generator
                g = (bad.bit_length() - 1) // FB
                deg, rp = rel[g]
                sh = FB * g
                e = (m >> sh) & FM
                k = e // deg
                m0 = m - ((k * deg) << sh)
                q = rp
                if k > 1:
                    q = self.ppow(rp, k)
                for mr, cr in q.items():
                    mm = m0 + mr
                    v = nxt.get(mm, 0) + c * cr
                    if v:
                        nxt[mm] = v
                    else:
                        nxt.pop(mm, None)
            if len(nxt) > Budget.max_terms:
                raise TooBig()
            work = nxt
        return {m: _c(c) for m, c in out.items()}

    def ppow(self, p, k):
        r = {0: 1}
        for _ in range(k):
            r = pmul_raw(r, p)
        return r

    def mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) == 1 and 0 in a:
            return pscale(b, a[0])
        if len(b) == 1 and 0 in b:
            return pscale(a, b[0])
        if len(a) * len(b) > 4000000:
            raise TooBig()
        return self.nf(pmul_raw(a, b))


def pcontent(p):
    """rational content>0 and primitive part (integer coefs, gcd 1)"""
    if not p:
        return Fraction(1), p
    num = 0
    den = 1
    for c in p.values():
        if type(c) is int:
            num = math.gcd(num, c)
        else:
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
    k = Fraction(num, den)
    # recompute gcd after clearing
    if k == 0:
        return Fraction(1), p
    if k != 1:
        p2 = {m: _c(Fraction(c) / k) for m, c in p.items()}
        g = 0
        for c in p2.values():
            g = math.gcd(g, c) if type(c) is int else 1
        if g > 1:
            p2 = {m: c // g for m, c in p2.items()}
            k *= g
        return k, p2
    return k, p


def mono_gcd(p):
    it = iter(p)
    g = next(it)
    if g == 0:
        return 0
    ex = dict(gens_of_mono(g))
    for m in it:
        if not ex:
            return 0
        for gg in list(ex):
            e = (m >> (FB * gg)) & FM
            if e < ex[gg]:
                if e:
                    ex[gg] = e
                else:
                    del ex[gg]
    r = 0
    for gg, e in ex.items():
        r |= e << (FB * gg)
    return r


class Frac:
    """n / prod d^e ; d dict: key(frozenset) -> exponent, denominators interned in table"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d      # tuple of (polyid, exp) sorted

    def is_const(self):
        return not self.d and pis_const(self.n)

    def const(self):
        return Fraction(self.n.get(0, 0))


def isqrt_frac(k):
    """sqrt of nonneg rational if perfect square else None"""
    a = math.isqrt(k.numerator)
    b = math.isqrt(k.denominator)
    if a * a == k.numerator and b * b == k.denominator:
        return Fraction(a, b)
    return None
