"""Normal form of real terms as quotients of polynomials over exact rationals.

Used to recognise algebraically equal terms without asking the solver (and to shrink what is asked).
Opaque sub-terms (variables, function applications, if-then-else) are atoms; the square of a
square-root atom is replaced by its argument.
"""
from fractions import Fraction
from math import isqrt

import z3

LIMIT = 4000


class TooBig(Exception):
    pass


def _const(v):
    v = Fraction(v)
    return {(): v} if v else {}


def _add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        t = r.get(m, 0) + s * c
        if t:
            r[m] = t
        else:
            r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig
    return r


def _mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def _mul(p, q):
    if len(p) * len(q) > 40 * LIMIT:
        raise TooBig
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mulmono(m, n)
            t = r.get(k, 0) + c * d
            if t:
                r[k] = t
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig
    return r


ONE = {(): Fraction(1)}


def _divexact(p, q):
    """p / q if the division is exact, else None (lexicographic order on atoms)"""
    if not p:
        return {}
    if len(q) > len(p) * 2 + 2:
        return None

    atoms = sorted({a for m in q for a, _ in m} | {a for m in p for a, _ in m})
    pos = {a: i for i, a in enumerate(atoms)}

    def key(m):
        v = [0] * len(atoms)
        for a, x in m:
            v[pos[a]] = x
        return tuple(v)

    # degree check per atom
    def degs(r):
        d = {}
        for m in r:
            for a, x in m:
                d[a] = max(d.get(a, 0), x)
        return d

    dp, dq = degs(p), degs(q)
    if any(dp.get(a, 0) < x for a, x in dq.items()):
        return None
    Q = [(key(m), c) for m, c in q.items()]
    Q.sort(reverse=True)
    lq, cq = Q[0]
    P = {key(m): c for m, c in p.items()}
    out = {}
    steps = 0
    while P:
        lead = max(P)
        steps += 1
        if steps > 400:
            return None
        d = tuple(x - y for x, y in zip(lead, lq))
        if min(d) < 0:
            return None
        c = P[lead] / cq
        out[d] = c
        for m, cc in Q:
            k = tuple(x + y for x, y in zip(d, m))
            t = P.get(k, 0) - c * cc
            if t:
                P[k] = t
            else:
                P.pop(k, None)
    return {tuple((atoms[i], x) for i, x in enumerate(m) if x): c for m, c in out.items()}


class Normaliser:
    """values are (numerator polynomial, denominator) with the denominator a sorted tuple of
    (factor index, exponent); factors are monic polynomials without monomial content, or single atoms"""

    def __init__(self):
        self.memo = {}
        self.atoms = {}  # id -> z3 term (kept alive)
        self.squares = {}  # atom id -> argument term (square roots)
        self.powers = {}  # atom id -> (degree, term): atom**degree equals the term
        self.factors = []  # polynomials
        self.index = {}  # frozenset of items -> position

    def root(self, v, arg):
        self.squares[v.get_id()] = arg
        self.atoms[v.get_id()] = v

    def power_rule(self, v, degree, term):
        """atom**degree may be replaced by the term (of lower degree in the atom)"""
        self.powers[v.get_id()] = (degree, term)
        self.atoms[v.get_id()] = v
        self.memo = {k: x for k, x in self.memo.items() if False}

    def nf(self, e):
        k = e.get_id()
        got = self.memo.get(k)
        if got is None:
            try:
                got = self._nf(e)
            except TooBig:
                got = "big"
            self.memo[k] = (got, e)
        else:
            got = got[0]
        if got == "big":
            raise TooBig
        return got

    def _atom(self, e):
        self.atoms[e.get_id()] = e
        return {((e.get_id(), 1),): Fraction(1)}, ()

    # ------------------------------------------------------------ factors
    def _factor(self, poly):
        k = frozenset(poly.items())
        i = self.index.get(k)
        if i is None:
            i = self.index[k] = len(self.factors)
            self.factors.append(poly)
        return i

    def _split(self, p):
        """constant and factors of a non-zero polynomial"""
        out = {}
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(x, d[a]) for a, x in common.items() if a in d}
            if not common:
                break
        if common:
            def strip(k):
                kd = dict(k)
                for a, x in common.items():
                    kd[a] -= x
                return tuple(sorted((a, x) for a, x in kd.items() if x))

            p = {strip(k): v for k, v in p.items()}
            for a, x in common.items():
                i = self._factor({((a, 1),): Fraction(1)})
                out[i] = out.get(i, 0) + x
        if len(p) > 1:
            for i, f in enumerate(list(self.factors)):
                while len(f) > 1 and len(p) > 1:
                    q = _divexact(p, f)
                    if q is None:
                        break
                    p = q
                    out[i] = out.get(i, 0) + 1
        if len(p) > 1:
            lead = max(p)
            c = p[lead]
            i = self._factor({k: v / c for k, v in p.items()} if c != 1 else p)
            out[i] = out.get(i, 0) + 1
        else:
            ((m, c),) = p.items()
            for a, x in m:
                i = self._factor({((a, 1),): Fraction(1)})
                out[i] = out.get(i, 0) + x
        return c, out

    def _expand(self, fs):
        r = ONE
        for i, x in fs.items() if isinstance(fs, dict) else fs:
            for _ in range(x):
                r = _mul(r, self.factors[i])
        return r

    def _pack(self, n, d):
        """cancel common factors and squares of square roots"""
        n, d = self._reduce(n, d)
        if not n:
            return {}, ()
        out = {}
        for i, x in d.items():
            f = self.factors[i]
            while x > 0:
                q = _divexact(n, f)
                if q is None:
                    break
                n = q
                x -= 1
            if x:
                out[i] = x
        return n, tuple(sorted(out.items()))

    def _reduce(self, num, den):
        """squares of square roots"""
        if not self.squares and not self.powers:
            return num, den
        for _ in range(12):
            hit = None
            if self.powers:
                for m in num:
                    for k, x in m:
                        if k in self.powers and x >= self.powers[k][0]:
                            hit = k
                            break
                    if hit is not None:
                        break
                if hit is not None:
                    num, den = self._lower(num, dict(den), hit)
                    continue
            for m in num:
                for k, x in m:
                    if x >= 2 and k in self.squares:
                        hit = k
                        break
                if hit is not None:
                    break
            if hit is not None:
                an, ad = self.nf(self.squares[hit])
                num, extra = self._subst(num, hit, an, dict(ad))
                den = dict(den)
                for i, x in extra.items():
                    den[i] = den.get(i, 0) + x
                continue
            for i, x in den.items():
                f = self.factors[i]
                if len(f) == 1:
                    ((m, c),) = f.items()
                    k = m[0][0]
                    if x >= 2 and k in self.squares:
                        hit = k
                        an, ad = self.nf(self.squares[k])
                        h = x // 2
                        den = dict(den)
                        den[i] = x - 2 * h
                        if not den[i]:
                            del den[i]
                        c, fs = self._split(an)
                        for _h in range(h):
                            num = _mul(num, self._expand(ad))
                            num = {kk: v / c for kk, v in num.items()}
                        for j, y in fs.items():
                            den[j] = den.get(j, 0) + y * h
                        break
            if hit is None:
                return num, den
        return num, den

    def _lower(self, p, den, k):
        """replace atom k ** degree once in every term where it occurs"""
        deg, term = self.powers[k]
        an, ad = self.nf(term)
        keep, repl = {}, {}
        for m, c in p.items():
            d = dict(m)
            if d.get(k, 0) >= deg:
                d[k] -= deg
                if not d[k]:
                    del d[k]
                repl[tuple(sorted(d.items()))] = c
            else:
                keep[m] = c
        num = _add(_mul(keep, self._expand(ad)), _mul(repl, an))
        for i, x in ad:
            den[i] = den.get(i, 0) + x
        return num, den

    def _subst(self, p, k, an, ad):
        """replace atom k squared by an/ad; returns polynomial and extra denominator factors"""
        top = 0
        for m in p:
            for a, x in m:
                if a == k:
                    top = max(top, x // 2)
        if top == 0:
            return p, {}
        dexp = self._expand(ad)
        powers_n, powers_d = [ONE], [ONE]
        for _ in range(top):
            powers_n.append(_mul(powers_n[-1], an))
            powers_d.append(_mul(powers_d[-1], dexp))
        out = {}
        for m, c in p.items():
            h, rest = 0, []
            for a, x in m:
                if a == k:
                    h = x // 2
                    if x % 2:
                        rest.append((a, 1))
                else:
                    rest.append((a, x))
            t = _mul({tuple(rest): c}, _mul(powers_n[h], powers_d[top - h]))
            out = _add(out, t)
        return out, {i: x * top for i, x in ad.items()}

    # ------------------------------------------------------------ arithmetic
    def _sum(self, terms):
        """sum of (sign, (n, d))"""
        lcm = {}
        for _, (n, d) in terms:
            for i, x in d:
                lcm[i] = max(lcm.get(i, 0), x)
        tot = {}
        for s, (n, d) in terms:
            if lcm:
                dd = dict(d)
                n = _mul(n, self._expand({i: x - dd.get(i, 0) for i, x in lcm.items()}))
            tot = _add(tot, n, s)
        return self._pack(tot, lcm)

    def _prod(self, terms):
        n, d = ONE, {}
        for a, b in terms:
            n = _mul(n, a)
            for i, x in b:
                d[i] = d.get(i, 0) + x
        return self._pack(n, d)

    def _inv(self, v):
        n, d = v
        c, fs = self._split(n)
        num = self._expand(d)
        if c != 1:
            num = {k: x / c for k, x in num.items()}
        return self._pack(num, fs)

    def _nf(self, e):
        if z3.is_rational_value(e):
            return _const(Fraction(e.numerator_as_long(), e.denominator_as_long())), ()
        if z3.is_int_value(e):
            return _const(e.as_long()), ()
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            return self._sum([(1, self.nf(c)) for c in ch])
        if k == z3.Z3_OP_SUB:
            return self._sum([(1 if i == 0 else -1, self.nf(c)) for i, c in enumerate(ch)])
        if k == z3.Z3_OP_UMINUS:
            n, d = self.nf(ch[0])
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            return self._prod([self.nf(c) for c in ch])
        if k == z3.Z3_OP_DIV:
            b = self.nf(ch[1])
            if not b[0]:
                return self._atom(e)
            return self._prod([self.nf(ch[0]), self._inv(b)])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
            x = ch[1].numerator_as_long()
            b = self.nf(ch[0])
            if x < 0:
                if not b[0]:
                    return self._atom(e)
                b, x = self._inv(b), -x
            if x > 16:
                return self._atom(e)
            return self._prod([b] * x)
        return self._atom(e)

    # ------------------------------------------------------------ queries
    def equal(self, a, b):
        """True if a and b are the same rational function (where both are defined)"""
        try:
            return not self._sum([(1, self.nf(a)), (-1, self.nf(b))])[0]
        except TooBig:
            return False

    def term(self, e):
        """(kind, value): 'const' value, or 'term' (numerator, denominator) simplified z3 terms"""
        try:
            n, d = self.nf(e)
        except TooBig:
            return None
        if not n:
            return "const", Fraction(0)
        if not d and set(n) == {()}:
            return "const", n[()]
        if len(n) + sum(len(self.factors[i]) for i, _ in d) > 200:
            return None
        return "term", (self._poly(n), self._den(d))

    def _den(self, d):
        if not d:
            return None
        ts = []
        for i, x in d:
            ts += [self._poly(self.factors[i])] * x
        return z3.Product(ts) if len(ts) > 1 else ts[0]

    def quotient(self, e):
        """a quotient that is a constant or a single term without denominator: that term; else None"""
        try:
            n, d = self.nf(e)
        except TooBig:
            return None
        if not n:
            return z3.RealVal(0)
        if not d and len(n) <= 4:
            return self._poly(n)
        if len(n) == 1 and all(len(self.factors[i]) == 1 for i, _ in d):
            return self._poly(n) / self._den(d)
        return None

    def square_root(self, e):
        """r with r*r == e for monomials with even powers and square coefficients; else None"""
        try:
            n, d = self.nf(e)
        except TooBig:
            return None
        if len(n) != 1 or any(len(self.factors[i]) != 1 or x % 2 for i, x in d):
            return None
        ((m, c),) = n.items()
        if c <= 0 or any(x % 2 for _, x in m) or (not m and not d):
            return None
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator:
            return None
        r = self._poly({tuple((k, x // 2) for k, x in m): Fraction(a, b)})
        return r / self._den([(i, x // 2) for i, x in d]) if d else r

    def split_root(self, e):
        """(outside, inside) with e == outside**2 * inside for monomial quotients with even powers, else None"""
        try:
            n, d = self.nf(e)
        except TooBig:
            return None
        if len(n) != 1 or any(len(self.factors[i]) != 1 for i, _ in d):
            return None
        ((m, c),) = n.items()
        if c <= 0:
            return None
        dm = {}
        for i, x in d:
            ((mm, cc),) = self.factors[i].items()
            for a, y in mm:
                dm[a] = dm.get(a, 0) + x * y
        num, den = c.numerator, c.denominator
        if num > 10**6 or den > 10**6:
            return None
        on = od = 1
        for q in range(2, 1001):
            while num % (q * q) == 0:
                num //= q * q
                on *= q
            while den % (q * q) == 0:
                den //= q * q
                od *= q
        if on == od == 1 and all(x < 2 for _, x in m) and all(x < 2 for x in dm.values()):
            return None
        out_n = {tuple((a, x // 2) for a, x in m if x >= 2): Fraction(on, od)}
        in_n = {tuple((a, 1) for a, x in m if x % 2): Fraction(num, den)}
        out_d = {tuple(sorted((a, x // 2) for a, x in dm.items() if x >= 2)): Fraction(1)}
        in_d = {tuple(sorted((a, 1) for a, x in dm.items() if x % 2)): Fraction(1)}

        def q(a, b):
            return self._poly(a) if b == ONE else self._poly(a) / self._poly(b)

        return q(out_n, out_d), q(in_n, in_d)

    def _poly(self, p):
        ts = []
        for m, c in p.items():
            t = z3.Q(c.numerator, c.denominator)
            f = []
            for a, x in m:
                f += [self.atoms[a]] * x
            ts.append(z3.Product([t] + f) if f else t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]
