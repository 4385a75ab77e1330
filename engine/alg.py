"""Algebraic normal form of real terms (identities over polynomial, trigonometric,
hyperbolic and square-root expressions)."""
from fractions import Fraction
import terms as tm
from terms import R, I, B, TRUE, FALSE

LIMIT = 6000


class TooBig(Exception):
    pass


class Norm(object):
    """rewrites terms under given sign knowledge; sign(t) -> 1, 0 (>=0), None..."""

    def __init__(self, sums=True):
        self.sums = sums        # expand sin/cos/sinh/cosh of sums
        self.cache = {}
        self.side = set()       # terms assumed >= 0 (sqrt arguments)
        self.inside = {}

    # ------------------------------------------------------------ rewriting
    def norm(self, t):
        r = self.cache.get(t)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.cache:
                stack.pop()
                continue
            todo = [c for c in tm.children(x) if c not in self.cache]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.cache[x] = self.step(x)
        return self.cache[t]

    def step(self, x):
        if x.op in ('num', 'sym', 'true', 'false', 'null'):
            return x
        if x.op == 'grp':
            return self.cache[x.args[0]]
        y = tm.rebuild(x, lambda c: self.cache[c])
        if y.sort == R:
            y = self.real(y)
        return y

    def real(self, y):
        op = y.op
        if op == 'tan':
            a = y.args[0]
            return tm.mul(self.real(tm.fun('sin', a)), tm.inv(self.real(tm.fun('cos', a))))
        if op in ('sin', 'cos'):
            return self.trig(op, y.args[0])
        if op in ('sinh', 'cosh'):
            return self.hyp(op, y.args[0])
        if op == 'sqrt':
            return self.sqrt(y.args[0])
        if op == 'poly':
            return self.reduce(y)
        if op == 'exp':
            return self.exp(y.args[0])
        if op == 'pow':
            return self.pow(y.args[0], y.args[1])
        if op == 'asin' and y.args[0].op == 'sin':
            return y
        return y

    def exp(self, a):
        p = tm.to_poly(a)
        if len(p) <= 1:
            return tm.fun('exp', a)
        return tm.fun('exp', a)

    def pow(self, a, b):
        """powers of positive constants: one canonical base > 1 per factor"""
        p = tm.to_poly(a)
        if len(p) != 1:
            return tm.fun('pow', a, b)
        (m, c), = p.items()
        if c <= 0 or any(x is not tm.PI for x, e in m):
            return tm.fun('pow', a, b)
        r = tm.num(1)
        for q, sgn in ((c.numerator, 1), (c.denominator, -1)):
            d = 2
            while q > 1:
                if d * d > q or d > 100000:
                    d = q
                k = 0
                while q % d == 0:
                    q //= d
                    k += 1
                if k:
                    f = tm.fun('pow', tm.num(d), b)
                    r = tm.mul(r, tm.power(f, k) if sgn > 0 else tm.inv(tm.power(f, k)))
                d += 1 if d == 2 else 2
        for x, e in m:
            r = tm.mul(r, tm.power(tm.fun('pow', x, b), e))
        return r

    def parts(self, a):
        """a = sum of (integer-scaled) monomials"""
        p = tm.to_poly(a)
        return [(m, c) for m, c in p.items()]

    def trig(self, op, a):
        ps = self.parts(a)
        if len(ps) == 1:
            m, c = ps[0]
            return self.trigmono(op, m, c)
        if not self.sums:
            pi = {m: c for m, c in ps if m == ((tm.PI, 1),)}
            if not pi or len(ps) < 2:
                return tm.fun(op, a)
            k = tm.from_poly(pi, R)
            rest = tm.sub(a, k)
            s1, c1 = tm.fun('sin', k), tm.fun('cos', k)
            s2, c2 = self.trig('sin', rest), self.trig('cos', rest)
            if op == 'sin':
                return tm.add(tm.mul(s1, c2), tm.mul(c1, s2))
            return tm.sub(tm.mul(c1, c2), tm.mul(s1, s2))
        # split off the first part
        ps.sort(key=lambda mc: tm._mkey(mc[0]))
        # keep rational multiples of PI as one part
        m, c = ps[0]
        first = tm.from_poly({m: c}, R)
        rest = tm.from_poly({k: v for k, v in ps[1:]}, R)
        s1, c1 = self.trigmono('sin', m, c), self.trigmono('cos', m, c)
        s2, c2 = self.trig('sin', rest), self.trig('cos', rest)
        if op == 'sin':
            return self.reduce(tm.add(tm.mul(s1, c2), tm.mul(c1, s2)))
        return self.reduce(tm.sub(tm.mul(c1, c2), tm.mul(s1, s2)))

    def trigmono(self, op, m, c):
        t = tm.from_poly({m: c}, R)
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a is tm.PI:
                return tm.fun(op, t)
            if a.op in ('atan', 'asin', 'acos') and c.denominator == 1 and abs(c.numerator) <= 4:
                n = c.numerator
                s, co = self.inverse(a)
                return self.multiple(op, n, s, co)
            if a.op in ('polar', 'polars') and c.denominator == 1 and abs(c.numerator) <= 4:
                x, y = a.args
                h = tm.inv(self.sqrt(expand(tm.add(tm.mul(x, x), tm.mul(y, y)))))
                return self.multiple(op, c.numerator, self.reduce(tm.mul(y, h)), self.reduce(tm.mul(x, h)))
        # double angles when the coefficient is an even integer of an argument
        if c.denominator == 1 and 1 < abs(c.numerator) <= 4 and m != ():
            base = tm.from_poly({m: Fraction(1)}, R)
            return self.multiple(op, c.numerator, tm.fun('sin', base), tm.fun('cos', base))
        return tm.fun(op, t)

    def inverse(self, a):
        x = a.args[0]
        if a.op == 'atan':
            h = tm.inv(self.sqrt(tm.add(tm.num(1), tm.mul(x, x))))
            return self.reduce(tm.mul(x, h)), h
        r = self.sqrt(tm.sub(tm.num(1), tm.mul(x, x)))
        if a.op == 'asin':
            return x, r
        return r, x

    def multiple(self, op, n, s, c):
        neg = n < 0
        n = abs(n)
        cs, cc = tm.num(0), tm.num(1)
        for _ in range(n):
            cs, cc = tm.add(tm.mul(cs, c), tm.mul(cc, s)), tm.sub(tm.mul(cc, c), tm.mul(cs, s))
        r = cs if op == 'sin' else cc
        if op == 'sin' and neg:
            r = tm.neg(r)
        return self.reduce(r)

    def hyp(self, op, a):
        ps = self.parts(a)
        if len(ps) == 1:
            m, c = ps[0]
            return self.hypmono(op, m, c)
        if not ps or not self.sums:
            return tm.fun(op, a)
        ps.sort(key=lambda mc: tm._mkey(mc[0]))
        m, c = ps[0]
        rest = tm.from_poly({k: v for k, v in ps[1:]}, R)
        s1, c1 = self.hypmono('sinh', m, c), self.hypmono('cosh', m, c)
        s2, c2 = self.hyp('sinh', rest), self.hyp('cosh', rest)
        if op == 'sinh':
            return self.reduce(tm.add(tm.mul(s1, c2), tm.mul(c1, s2)))
        return self.reduce(tm.add(tm.mul(c1, c2), tm.mul(s1, s2)))

    def hypmono(self, op, m, c):
        t = tm.from_poly({m: c}, R)
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'asinh' and c.denominator == 1 and abs(c.numerator) <= 4:
            x = m[0][0].args[0]
            return self.hmultiple(op, c.numerator, x, self.sqrt(tm.add(tm.num(1), tm.mul(x, x))))
        if c.denominator == 1 and 1 < abs(c.numerator) <= 4 and m != ():
            base = tm.from_poly({m: Fraction(1)}, R)
            return self.hmultiple(op, c.numerator, tm.fun('sinh', base), tm.fun('cosh', base))
        return tm.fun(op, t)

    def hmultiple(self, op, n, s, c):
        neg = n < 0
        n = abs(n)
        cs, cc = tm.num(0), tm.num(1)
        for _ in range(n):
            cs, cc = tm.add(tm.mul(cs, c), tm.mul(cc, s)), tm.add(tm.mul(cc, c), tm.mul(cs, s))
        r = cs if op == 'sinh' else cc
        if op == 'sinh' and neg:
            r = tm.neg(r)
        return self.reduce(r)

    def sqrt(self, q):
        """square root of a normalised term"""
        if q.op == 'num':
            return tm.fun('sqrt', q)
        num, den = fraction(q)
        num = self.reduce(num)
        # q = num / den, den a monomial dict atom->positive exponent
        outer = tm.num(1)
        for a, e in den.items():
            if e % 2:
                num = tm.mul(num, a)
                e += 1
            outer = tm.mul(outer, tm.power(self.abs(a), e // 2))
        num = self.reduce(expand(num))
        p = tm.to_poly(num)
        # content: common even powers of atoms and numeric square content
        pull = tm.num(1)
        if p:
            monos = list(p)
            common = {}
            for a, e in monos[0]:
                me = min(dict(m).get(a, 0) for m in monos)
                if me >= 2:
                    common[a] = me - me % 2
            if common:
                num = tm.mul(num, tm.inv(prod(common)))
                for a, e in common.items():
                    pull = tm.mul(pull, tm.power(self.abs(a), e // 2))
                p = tm.to_poly(num)
            # numeric content
            cs = list(p.values())
            if num.op != 'num':
                import math
                g = cs[0]
                gn, gd = 0, 1
                for c in cs:
                    gn = math.gcd(gn, c.numerator)
                    gd = gd * c.denominator // math.gcd(gd, c.denominator)
                cont = Fraction(gn, gd)
                # largest square factor that is easy to see
                r = tm.fun('sqrt', tm.num(cont))
                if r.op == 'num' and cont != 1:
                    num = tm.scale(num, 1 / cont)
                    pull = tm.scale(pull, r.args[0])
        r = None
        if num.op == 'num':
            r = tm.fun('sqrt', num)
        else:
            p = tm.to_poly(num)
            # 1 + sinh^2 = cosh^2 ; 1 - sin^2 ...
            if len(p) == 2 and p.get((), 0) == 1:
                (m, c), = [(m, c) for m, c in p.items() if m != ()]
                if len(m) == 1 and m[0][1] == 2:
                    if m[0][0].op == 'sinh' and c == 1:
                        r = tm.fun('cosh', m[0][0].args[0])
                    if m[0][0].op == 'sin' and c == -1:
                        r = self.abs(tm.fun('cos', m[0][0].args[0]))
                    if m[0][0].op == 'cos' and c == -1:
                        r = self.abs(tm.fun('sin', m[0][0].args[0]))
        if r is None:
            sq = self.perfect(num)
            if sq is not None:
                r = self.abs(sq)
        if r is None:
            r = tm.mk('sqrt', (num,), R)
        return tm.mul(tm.mul(r, pull), tm.inv(outer)) if outer.op != 'num' else tm.scale(tm.mul(r, pull), 1 / outer.args[0])

    def perfect(self, q):
        """q = (sum)^2 for small polynomials: two squares and the mixed term"""
        p = tm.to_poly(q)
        if len(p) == 1:
            (m, c), = p.items()
            if all(e % 2 == 0 for a, e in m):
                r = tm.fun('sqrt', tm.num(c))
                if r.op == 'num':
                    return tm.from_poly({tuple((a, e // 2) for a, e in m): r.args[0]}, R)
            return None
        n = len(p)
        k = 0
        while k * (k + 1) // 2 < n:
            k += 1
        if k * (k + 1) // 2 != n or k > 4:
            return None
        sqs = []
        for m, c in p.items():
            if all(e % 2 == 0 for a, e in m):
                r = tm.fun('sqrt', tm.num(c)) if c > 0 else None
                if r is not None and r.op == 'num':
                    sqs.append(({tuple((a, e // 2) for a, e in m): r.args[0]}))
        if len(sqs) < k:
            return None
        import itertools
        for comb in itertools.combinations(sqs, k):
            for signs in itertools.product((1, -1), repeat=k - 1):
                s = {}
                for d, sg in zip(comb, (1,) + signs):
                    for m, c in d.items():
                        s[m] = c * sg
                t = tm.from_poly(s, R)
                if tm.poly_mul(tm.to_poly(t), tm.to_poly(t)) == p:
                    return t
        return None

    def abs(self, a):
        if a.op in ('cosh', 'exp', 'sqrt') or a is tm.PI:
            return a
        return tm.fun('abs', a)

    # ------------------------------------------------------------ reduction
    def reduce(self, t):
        """sin^2 -> 1-cos^2, cosh^2 -> 1+sinh^2, sqrt(q)^2 -> q, grp expanded"""
        guard = 0
        while t.op == 'poly':
            guard += 1
            if guard > 60:
                raise TooBig()
            hit = None
            for m, c in t.args:
                for a, e in m:
                    if (e >= 2 and a.op in ('sin', 'cosh', 'sqrt')) or (e <= -2 and a.op == 'sqrt') \
                            or (a.op == 'grp' and e > 0) or (e <= -2 and a.op == 'cosh' and False):
                        hit = 1
                        break
                if hit:
                    break
            if not hit:
                return t
            out = []
            for m, c in t.args:
                term = tm.num(c)
                for a, e in m:
                    if a.op == 'sqrt' and abs(e) >= 2:
                        self.side.add(a.args[0])
                        q = a.args[0]
                        h = abs(e) // 2
                        r = tm.power(q, h)
                        if e < 0:
                            r = tm.inv(r)
                            f = tm.mul(r, a) if False else r
                            term = mulx(term, r)
                            if abs(e) % 2:
                                term = mulx(term, tm.inv(a))
                        else:
                            term = mulx(term, r)
                            if e % 2:
                                term = mulx(term, a)
                    elif e >= 2 and a.op == 'sin':
                        co = tm.fun('cos', a.args[0])
                        r = powx(tm.sub(tm.num(1), tm.mul(co, co)), e // 2)
                        term = mulx(term, r)
                        if e % 2:
                            term = mulx(term, a)
                    elif e >= 2 and a.op == 'cosh':
                        sh = tm.fun('sinh', a.args[0])
                        r = powx(tm.add(tm.num(1), tm.mul(sh, sh)), e // 2)
                        term = mulx(term, r)
                        if e % 2:
                            term = mulx(term, a)
                    elif a.op == 'grp' and e > 0:
                        term = mulx(term, powx(a.args[0], e))
                    else:
                        term = mulx(term, tm.from_poly({((a, e),): Fraction(1)}, R))
                out.append(term)
            t = tm.add(*out)
            if t.op == 'poly' and len(t.args) > LIMIT:
                raise TooBig()
        return t


def mulx(a, b):
    """product, fully expanded"""
    if a.op == 'num' or b.op == 'num':
        return tm.mul(a, b)
    p, q = tm.to_poly(a), tm.to_poly(b)
    if len(p) * len(q) > LIMIT * 4:
        raise TooBig()
    return tm.from_poly(tm.poly_mul(p, q), R)


def powx(a, n):
    r = tm.num(1)
    for _ in range(n):
        r = mulx(r, a)
    return r


def prod(d):
    r = tm.num(1)
    for a, e in d.items():
        r = tm.mul(r, tm.power(a, e))
    return r


def expand(t):
    """remove grp atoms with positive exponents"""
    guard = 0
    while t.op == 'poly' and any(a.op == 'grp' and e > 0 for m, c in t.args for a, e in m):
        guard += 1
        if guard > 40:
            raise TooBig()
        out = []
        for m, c in t.args:
            term = tm.num(c)
            for a, e in m:
                if a.op == 'grp' and e > 0:
                    term = mulx(term, powx(a.args[0], e))
                else:
                    term = mulx(term, tm.from_poly({((a, e),): Fraction(1)}, R))
            out.append(term)
        t = tm.add(*out)
        if t.op == 'poly' and len(t.args) > LIMIT:
            raise TooBig()
    return t


def fraction(t):
    """t = num / prod(atom^e); returns (num term, {atom: e}) with num free of
    negative exponents at top level; grp denominators whose content is itself a
    fraction are flattened"""
    den = {}
    guard = 0
    num = expand(t)
    while True:
        guard += 1
        if guard > 40:
            raise TooBig()
        if num.op != 'poly':
            return num, den
        need = {}
        for m, c in num.args:
            for a, e in m:
                if e < 0 and need.get(a, 0) < -e:
                    need[a] = -e
        if not need:
            return num, den
        # a grp whose content has denominators itself: 1/(n/d) = d/n
        extra = {}
        mul_ = {}
        for a, e in need.items():
            mul_[a] = e
        new = []
        cache = {}
        for m, c in num.args:
            d = dict(m)
            term = tm.num(c)
            for a, e in d.items():
                k = e + mul_.get(a, 0)
                if k:
                    if a.op == 'grp':
                        term = mulx(term, powx(expand(a.args[0]), k))
                    else:
                        term = mulx(term, tm.from_poly({((a, k),): Fraction(1)}, R))
            for a, e in mul_.items():
                if a not in d:
                    if a.op == 'grp':
                        term = mulx(term, powx(expand(a.args[0]), e))
                    else:
                        term = mulx(term, tm.from_poly({((a, e),): Fraction(1)}, R))
            new.append(term)
        for a, e in mul_.items():
            if a.op == 'grp':
                # the group itself may be a fraction
                n2, d2 = fraction(a.args[0])
                g = tm.inv(n2)
                # record numerator as denominator factor
                if n2.op != 'num':
                    ga = tm.grp(n2) if n2.op == 'poly' and len(n2.args) > 1 else n2
                    if ga.op == 'poly':      # monomial
                        (m, c), = tm.to_poly(ga).items()
                        for x, ex in m:
                            den[x] = den.get(x, 0) + ex * e
                    else:
                        den[ga] = den.get(ga, 0) + e
                for x, ex in d2.items():
                    den[x] = den.get(x, 0) - ex * e
            else:
                den[a] = den.get(a, 0) + e
        num = expand(tm.add(*new))
        # negative entries in den: multiply into numerator
        for a in [a for a, e in den.items() if e <= 0]:
            e = den.pop(a)
            if e < 0:
                num = mulx(num, powx(a.args[0] if a.op == 'grp' else a, -e))
        if num.op == 'poly' and len(num.args) > LIMIT:
            raise TooBig()


def residual(t, nm):
    """normalised numerator of t (t == 0 iff residual == 0 for non-zero denominators)"""
    for _ in range(4):
        t = nm.norm(t)
        if t.op == 'num':
            return t
        n, d = fraction(t)
        n = nm.reduce(n)
        if n.op == 'num' or n is t:
            return n
        t = n
        nm2 = Norm(nm.sums)
        nm2.side = nm.side
        nm = nm2
    return t
