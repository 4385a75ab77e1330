"""Hash-consed first-order terms over Bool, Int, Real, pointers and arrays.

Numeric terms are kept in a canonical polynomial form: sums of monomials over
"atoms" with integer exponents.  A negative exponent stands for a division
whose denominator was shown to be non-zero where the division was executed.
"""
from fractions import Fraction
import math

B, I, R, P = 'B', 'I', 'R', 'P'


def A(s):
    return ('A', s)


_table = {}
_count = [0]


class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'size', '_fv')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __lt__(self, other):
        return self.id < other.id


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        _count[0] += 1
        t.id = _count[0]
        t._fv = None
        t.size = 1
        _table[key] = t
    return t


TRUE = mk('true', (), B)
FALSE = mk('false', (), B)
NULL = mk('null', (), P)


def boolc(b):
    return TRUE if b else FALSE


def num(v, sort=R):
    if sort == R:
        v = Fraction(v)
    else:
        v = int(v)
    return mk('num', (v,), sort)


def sym(name, sort):
    return mk('sym', (name,), sort)


PI = sym('PI', R)
_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return sym('%s!%d' % (name, _fresh[0]), sort)


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.args[0]


# ------------------------------------------------------------------ polynomials
# 'poly' args: tuple of (mono, coef); mono: tuple of (atom, exp) sorted by id

def to_poly(t):
    if t.op == 'poly':
        return dict(t.args)
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    return {((t, 1),): (Fraction(1) if t.sort == R else 1)}


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(d, sort):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return num(0, sort)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == 'grp':
                return a.args[0]
            return a
    items.sort(key=lambda mc: _mkey(mc[0]))
    return mk('poly', tuple(items), sort)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        ne = d.get(a, 0) + e
        if ne == 0:
            del d[a]
        else:
            d[a] = ne
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def _needs_fix(m):
    for a, e in m:
        if a.op == 'grp' and e > 0:
            return True
        if a.op == 'sqrt' and (e >= 2 or e <= -2):
            return True
    return False


def poly_mul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c != 0}


EXPAND = 48


def add(*ts):
    sort = ts[0].sort
    r = {}
    for t in ts:
        for m, c in to_poly(t).items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return from_poly(r, sort)


def neg(t):
    return from_poly({m: -c for m, c in to_poly(t).items()}, t.sort)


def sub(a, b):
    if a is b:
        return num(0, a.sort)
    return add(a, neg(b))


def scale(t, k):
    return from_poly({m: c * k for m, c in to_poly(t).items()}, t.sort)


def grp(t):
    """atom standing for a whole (non-monomial) polynomial"""
    return mk('grp', (t,), t.sort)


def mul(a, b):
    if a.op == 'num':
        return scale(b, a.args[0])
    if b.op == 'num':
        return scale(a, b.args[0])
    # products of ite with anything stay atomic only inside ite if the ite is
    # over numerals (e.g. 0/1 indicator)
    p, q = to_poly(a), to_poly(b)
    if len(p) * len(q) <= EXPAND or len(p) == 1 or len(q) == 1:
        r = poly_mul(p, q)
    else:
        g = grp(b if len(q) >= len(p) else a)
        o = p if len(q) >= len(p) else q
        r = poly_mul(o, {((g, 1),): 1})
    if any(_needs_fix(m) for m in r):
        r2 = {}
        for m, c in r.items():
            if not _needs_fix(m):
                r2[m] = r2.get(m, 0) + c
                continue
            # sqrt(x)^2 is left for the prover; grp^1 kept
            r2[m] = r2.get(m, 0) + c
        r = {m: c for m, c in r2.items() if c != 0}
    return from_poly(r, a.sort)


def power(t, n):
    if n == 0:
        return num(1, t.sort)
    if n < 0:
        return inv(power(t, -n))
    r = t
    for _ in range(n - 1):
        r = mul(r, t)
    return r


def inv(t):
    """1/t, t known to be non-zero where this is used"""
    if t.op == 'num':
        if t.args[0] == 0:
            return mk('fdiv', (num(1), t), R)
        return num(1 / t.args[0])
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        m2 = tuple((a, -e) for a, e in m)
        return from_poly({m2: 1 / c}, R)
    # scale to leading coefficient one
    lead = min(p.items(), key=lambda mc: _mkey(mc[0]))[1]
    g = grp(from_poly({m: c / lead for m, c in p.items()}, R))
    return from_poly({((g, -1),): 1 / lead}, R)


def fdiv(a, b, nonzero):
    if b.op == 'num':
        if b.args[0] != 0:
            return scale(a, 1 / b.args[0])
        return mk('fdiv', (a, b), R)
    if nonzero:
        if a.op == 'poly' or b.op == 'poly':
            # exact cancellation of proportional polynomials
            pa, pb = to_poly(a), to_poly(b)
            if len(pa) == len(pb) and len(pa) > 1 and set(pa) == set(pb):
                ks = {pa[m] / pb[m] for m in pa}
                if len(ks) == 1:
                    return num(ks.pop())
        return mul(a, inv(b))
    return mk('fdiv', (a, b), R)


# ------------------------------------------------------------------ booleans

def nnot(a):
    r = _NOT.get(a)
    if r is None:
        r = _NOT[a] = _nnot(a)
        _NOT.setdefault(r, a)
    return r


_NOT = {}
_AND = {}
_OR = {}


def aand(*ts):
    r = _AND.get(ts)
    if r is None:
        r = _AND[ts] = _aand(*ts)
    return r


def oor(*ts):
    r = _OR.get(ts)
    if r is None:
        r = _OR[ts] = _oor(*ts)
    return r


def _nnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le0':          # not p<=0  <=> -p<0
        return lt0(neg(a.args[0]))
    if a.op == 'lt0':
        return le0(neg(a.args[0]))
    if a.op == 'and':
        return oor(*[nnot(x) for x in a.args])
    if a.op == 'or':
        return aand(*[nnot(x) for x in a.args])
    if a.op == 'ite':
        return ite(a.args[0], nnot(a.args[1]), nnot(a.args[2]))
    return mk('not', (a,), B)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


def _aand(*ts):
    s = {}
    for t in _flat('and', ts):
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        s[t] = 1
    for t in s:
        if t.op != 'or' and nnot(t) in s:
            return FALSE
    if not s:
        return TRUE
    # a strict order makes the weak one and the disequality redundant
    if len(s) > 1:
        for t in [t for t in s if t.op == 'lt0']:
            p_ = t.args[0]
            s.pop(le0(p_), None)
            s.pop(nnot(eq0(p_)), None)
            if lt0(neg(p_)) in s or le0(neg(p_)) in s or eq0(p_) in s:
                return FALSE
        if len(s) == 1:
            return next(iter(s))
    # unit resolution into disjunctions
    lits = set(s)
    out = []
    changed = False
    for t in s:
        if t.op == 'or':
            if any(x in lits for x in t.args if x is not t):
                changed = True
                continue
            keep = [x for x in t.args if nnot(x) not in lits]
            if len(keep) != len(t.args):
                changed = True
                out.append(oor(*keep))
                continue
        out.append(t)
    if changed:
        return aand(*out)
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', tuple(out), B)


def _oor(*ts):
    s = {}
    for t in _flat('or', ts):
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        s[t] = 1
    for t in s:
        if t.op != 'and' and nnot(t) in s:
            return TRUE
    if not s:
        return FALSE
    lits = set(s)
    out = []
    changed = False
    for t in s:
        if t.op == 'and':
            if any(x in lits for x in t.args):
                changed = True
                continue
            keep = [x for x in t.args if nnot(x) not in lits]
            if len(keep) != len(t.args):
                changed = True
                out.append(aand(*keep))
                continue
        out.append(t)
    if changed:
        return oor(*out)
    if len(out) > 1:
        # factor conjuncts common to all disjuncts
        common = None
        for t in out:
            cs = set(t.args) if t.op == 'and' else {t}
            common = cs if common is None else (common & cs)
            if not common:
                break
        if common:
            rest = []
            for t in out:
                cs = [x for x in (t.args if t.op == 'and' else (t,)) if x not in common]
                rest.append(aand(*cs))
            return aand(*(list(common) + [oor(*rest)]))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('or', tuple(out), B)


def implies(a, b):
    return oor(nnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return nnot(b)
    if b is FALSE:
        return nnot(a)
    if a is nnot(b):
        return FALSE
    return oor(aand(a, b), aand(nnot(a), nnot(b)))


def _numtree(t):
    return t.op == 'num' or (t.op == 'ite' and _numtree(t.args[1]) and _numtree(t.args[2]))


def _lift(p, f):
    """lift an ite atom (over numerals) out of the comparison of polynomial p"""
    if p.op == 'ite':
        if _numtree(p) or p.args[1].op == 'num' or p.args[2].op == 'num':
            return ite(p.args[0], f(p.args[1]), f(p.args[2]))
        return None
    if p.op == 'poly':
        for m, c in p.args:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite':
                t = m[0][0]
                if _numtree(t):
                    rest = dict(p.args)
                    del rest[m]
                    rest = from_poly(rest, p.sort)
                    return ite(t.args[0], f(add(rest, scale(t.args[1], c))),
                               f(add(rest, scale(t.args[2], c))))
    return None


def _normpoly(p, sign):
    """scale polynomial; sign=True keeps orientation"""
    d = to_poly(p)
    nonconst = [(m, c) for m, c in d.items() if m != ()]
    lead = min(nonconst, key=lambda mc: _mkey(mc[0]))[1]
    if p.sort == R:
        k = abs(lead) if sign else lead
        return from_poly({m: c / k for m, c in d.items()}, R)
    g = 0
    for m, c in nonconst:
        g = math.gcd(g, abs(c))
    if not sign and lead < 0:
        g2 = -1
    else:
        g2 = 1
    return g, g2, d


ODD = ('asinh', 'sinh', 'atan', 'tanh', 'asin')


def signpart(p):
    """c * f(x), f odd and increasing: same sign as c * x"""
    if p.sort is not R and p.sort != R:
        return None
    d = to_poly(p)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ODD:
        return scale(m[0][0].args[0], 1 if c > 0 else -1)
    return None


def intpoly(p):
    """real combination of converted integers with integer coefficients: the integer polynomial"""
    if p.op not in ('poly', 'toreal'):
        return None
    d = to_poly(p)
    den = 1
    for m, c in d.items():
        for a, e in m:
            if a.op != 'toreal' or e < 0:
                return None
        den = den * c.denominator // math.gcd(den, c.denominator)
    r = {}
    for m, c in d.items():
        m2 = tuple(sorted([(a.args[0], e) for a, e in m], key=lambda ae: ae[0].id))
        r[m2] = int(c * den)
    return from_poly(r, I)


def _iteration(p):
    """constant and sign of an integer term over iteration numbers (never negative) only"""
    if p.sort != I or p.op not in ('sym', 'poly'):
        return None
    c0, sg = 0, 0
    for m, c in to_poly(p).items():
        if not m:
            c0 = c
            continue
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'sym' or not m[0][0].args[0].startswith('k.'):
            return None
        x = 1 if c > 0 else -1
        if sg and sg != x:
            return None
        sg = x
    return c0, sg


def le0(p):
    if p.op == 'num':
        return boolc(p.args[0] <= 0)
    r = _iteration(p)
    if r is not None:
        if r[1] > 0 and r[0] > 0:
            return FALSE
        if r[1] < 0 and r[0] <= 0:
            return TRUE
    if p.sort == R:
        q = intpoly(p)
        if q is not None:
            return le0(q)
    sp = signpart(p)
    if sp is not None:
        return le0(sp)
    l = _lift(p, le0)
    if l is not None:
        return l
    if p.sort == R:
        pp = to_poly(p)
        if len(pp) == 1:
            (m, c), = pp.items()
            if all(e % 2 == 0 for a, e in m) and c > 0:
                if all(e > 0 for a, e in m):
                    return oor(*[eq0(a) for a, e in m])
        return mk('le0', (_normpoly(p, True),), B)
    g, s, d = _normpoly(p, True)
    if g > 1:
        c0 = d.get((), 0)
        nd = {m: c // g for m, c in d.items() if m != ()}
        nd[()] = -((-c0) // g)      # sum + c0 <= 0  ->  sum/g <= floor(-c0/g)
        return mk('le0', (from_poly(nd, I),), B)
    return mk('le0', (p,), B)


def lt0(p):
    if p.op == 'num':
        return boolc(p.args[0] < 0)
    if p.sort == I:
        return le0(add(p, num(1, I)))
    if p.sort == R:
        q = intpoly(p)
        if q is not None:
            return lt0(q)
    sp = signpart(p)
    if sp is not None:
        return lt0(sp)
    l = _lift(p, lt0)
    if l is not None:
        return l
    return mk('lt0', (_normpoly(p, True),), B)


def eq0(p):
    if p.op == 'num':
        return boolc(p.args[0] == 0)
    r = _iteration(p)
    if r is not None and r[0] * r[1] > 0:
        return FALSE
    if p.sort == R:
        q = intpoly(p)
        if q is not None:
            return eq0(q)
    sp = signpart(p)
    if sp is not None:
        return eq0(sp)
    l = _lift(p, eq0)
    if l is not None:
        return l
    if p.sort == R:
        q = _normpoly(p, False)
        d = to_poly(q)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) > 1 or m[0][1] != 1:
                # product of atoms is zero (negative exponents: never zero)
                return oor(*[eq0(a) for a, e in m if e > 0]) if any(e > 0 for a, e in m) else FALSE
        if q.op == 'grp':
            return eq0(q.args[0])
        return mk('eq0', (q,), B)
    g, s, d = _normpoly(p, False)
    if g > 1:
        if d.get((), 0) % g:
            return FALSE
        d = {m: c // g for m, c in d.items()}
    if s < 0:
        d = {m: -c for m, c in d.items()}
    return mk('eq0', (from_poly(d, I),), B)


def _push(t, f):
    return ite(t.args[0], f(t.args[1]), f(t.args[2]))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == B:
        return iff(a, b)
    if a.sort in (I, R):
        return eq0(sub(a, b))
    if a.sort == P:
        if a.op == 'ite':
            return _push(a, lambda x: eq(x, b))
        if b.op == 'ite':
            return _push(b, lambda x: eq(a, x))
        ca, cb = a.op in ('addr', 'null'), b.op in ('addr', 'null')
        if ca and cb:
            if a.op != b.op:
                return FALSE
            if a.args[0] != b.args[0] or a.args[1] != b.args[1]:
                if a.args[0] != 'heap':
                    return FALSE
            elif len(a.args[2]) == len(b.args[2]):
                return aand(*[eq(x, y) for x, y in zip(a.args[2], b.args[2])])
        # a pointer held in the pre-state does not point into an object that the
        # contract (or the code) created: see DESIGN.md, separation assumption
        if a.op == 'addr' and a.args[0] != 'heap' and b.op in ('sym', 'select'):
            return FALSE
        if b.op == 'addr' and b.args[0] != 'heap' and a.op in ('sym', 'select'):
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), B)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def _under(t, c):
    """an ite below a branch where c holds"""
    d = t.args[0]
    n = nnot(c)
    if d is c or (c.op == 'and' and d in c.args):
        return t.args[1]
    if d is n or (c.op == 'and' and nnot(d) in c.args):
        return t.args[2]
    if d.op in ('and', 'or'):
        x, y = (c, n) if d.op == 'and' else (n, c)
        # and: drop c, false on not c; or: drop not c, true on c
        if y in d.args:
            return t.args[2] if d.op == 'and' else t.args[1]
        if x in d.args:
            rest = [z for z in d.args if z is not x]
            return ite((aand if d.op == 'and' else oor)(*rest), t.args[1], t.args[2])
    return t


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == B:
        if a is TRUE:
            return oor(c, b)
        if a is FALSE:
            return aand(nnot(c), b)
        if b is TRUE:
            return oor(nnot(c), a)
        if b is FALSE:
            return aand(c, a)
    # orientation: prefer the literal with smaller id
    nc = nnot(c)
    if nc.id < c.id and nc.op not in ('and', 'or'):
        c, a, b = nc, b, a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a.op == 'ite':
        a = _under(a, c)
    if b.op == 'ite':
        b = _under(b, nnot(c))
    if a is b:
        return a
    # the two sides agree where the condition is an equality
    e, hi = (c, b) if c.op == 'eq0' else (nc, a) if nc.op == 'eq0' else (None, None)
    if e is not None and a.op != 'ite' and b.op != 'ite' and a.sort == e.args[0].sort and a.sort in (I, R):
        d = sub(a, b)
        if d is e.args[0] or neg(d) is e.args[0]:
            return hi
    # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
    if b.op == 'ite':
        if b.args[1] is a:
            return ite(oor(c, b.args[0]), a, b.args[2])
        if b.args[2] is a:
            return ite(oor(c, nnot(b.args[0])), a, b.args[1])
    if a.op == 'ite':
        if a.args[2] is b:
            return ite(aand(c, a.args[0]), a.args[1], b)
        if a.args[1] is b:
            return ite(aand(c, nnot(a.args[0])), a.args[2], b)
    return mk('ite', (c, a, b), a.sort)


# ------------------------------------------------------------------ functions

def toreal(t):
    if t.op == 'num':
        return num(t.args[0], R)
    if t.op == 'ite':
        return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    if t.op == 'poly':
        r = {}
        for m, c in t.args:
            m2 = []
            for a, e in m:
                m2.append((mk('toreal', (a,), R), e))
            r[tuple(sorted(m2, key=lambda ae: ae[0].id))] = Fraction(c)
        return from_poly(r, R)
    return mk('toreal', (t,), R)


def trunc(t):
    """C conversion double -> int (towards zero)"""
    if t.op == 'num':
        v = t.args[0]
        n = abs(v.numerator) // v.denominator
        return num(n if v >= 0 else -n, I)
    if t.op == 'ite':
        return ite(t.args[0], trunc(t.args[1]), trunc(t.args[2]))
    if t.op == 'toreal':
        return t.args[0]
    return mk('trunc', (t,), I)


def wrap(t, n):
    """truncation of an integer to n bits, read as signed; other than constants, values fit"""
    if t.op == 'ite':
        return ite(t.args[0], wrap(t.args[1], n), wrap(t.args[2], n))
    d = to_poly(t)
    c = d.get((), 0)
    if -2 ** (n - 1) <= c < 2 ** (n - 1):
        return t
    x = c % 2 ** n
    if x >= 2 ** (n - 1):
        x -= 2 ** n
    d[()] = x
    return from_poly(d, I)


ODD = {'sin', 'sinh', 'tan', 'asinh', 'atan', 'asin', 'tanh'}
EVEN = {'cos', 'cosh', 'abs'}


def _leadneg(t):
    p = to_poly(t)
    if not p:
        return False
    m, c = min(p.items(), key=lambda mc: _mkey(mc[0]))
    return c < 0


def fun(name, *args):
    """application of a named real function"""
    if len(args) == 1:
        a = args[0]
        if a.op == 'num' and a.args[0] == 0:
            if name in ODD or name == 'abs' or name == 'sqrt':
                return num(0)
            if name in ('cos', 'cosh', 'exp'):
                return num(1)
        if name == 'abs':
            if a.op == 'num':
                return num(abs(a.args[0]))
            return ite(lt0(a), neg(a), a)
        if name == 'sqrt' and a.op == 'num':
            v = a.args[0]
            if v >= 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return num(Fraction(n, d))
        if name == 'exp' and a.op == 'num' and a.args[0] == 0:
            return num(1)
        if name == 'log' and a.op == 'num' and a.args[0] == 1:
            return num(0)
        if name == 'round' and a.op == 'num':
            v = a.args[0]
            n = (2 * abs(v.numerator) + v.denominator) // (2 * v.denominator)
            return num(n if v >= 0 else -n)
        if name in ('round', 'floor', 'ceil') and a.op in ('round', 'floor', 'ceil', 'toreal'):
            return a
        if name in ODD and _leadneg(a):
            return neg(fun(name, neg(a)))
        if name in EVEN and _leadneg(a):
            a = neg(a)
        if name == 'acos' and a.op == 'num':
            if a.args[0] == 1:
                return num(0)
            if a.args[0] == 0:
                return scale(PI, Fraction(1, 2))
            if a.args[0] == -1:
                return PI
        if name in ('sin', 'cos', 'tan'):
            p = to_poly(a)
            if set(p) <= {((PI, 1),)}:
                k = p.get(((PI, 1),), 0)
                v = _trigpi(name, k)
                if v is not None:
                    return v
        if name == 'sinh' and a.op == 'asinh':
            return a.args[0]
        if name == 'tan' and a.op == 'atan':
            return a.args[0]
        if name == 'sin' and a.op == 'asin':
            return a.args[0]
        if name == 'cos' and a.op == 'acos':
            return a.args[0]
        if name == 'asinh' and a.op == 'sinh':
            return a.args[0]
        if name == 'atan' and a.op == 'num' and a.args[0] == 1:
            return scale(PI, Fraction(1, 4))
        return mk(name, (a,), R)
    if name == 'pow':
        a, b = args
        if b.op == 'num':
            v = b.args[0]
            if v.denominator == 1 and 0 <= v.numerator <= 16:
                return power(a, v.numerator)
            if v == Fraction(1, 2):
                return fun('sqrt', a)
            if a.op == 'num' and v.denominator == 1 and a.args[0] != 0 and abs(v.numerator) <= 64:
                return num(Fraction(a.args[0]) ** v.numerator)
        if a.op == 'num' and a.args[0] == 1:
            return a
        return mk('pow', (a, b), R)
    return mk(name, tuple(args), R)


def _trigpi(name, k):
    k = Fraction(k)
    s = {0: Fraction(0), Fraction(1, 6): Fraction(1, 2), Fraction(1, 2): Fraction(1),
         Fraction(5, 6): Fraction(1, 2), 1: Fraction(0), Fraction(7, 6): Fraction(-1, 2),
         Fraction(3, 2): Fraction(-1), Fraction(11, 6): Fraction(-1, 2)}
    if name == 'sin':
        v = s.get(k % 2)
        return None if v is None else num(v)
    if name == 'cos':
        v = s.get((k + Fraction(1, 2)) % 2)
        return None if v is None else num(v)
    sv, cv = _trigpi('sin', k), _trigpi('cos', k)
    if sv is not None and cv is not None and cv.args[0] != 0:
        return num(sv.args[0] / cv.args[0])
    if k % 1 == Fraction(1, 4):
        return num(1)
    if k % 1 == Fraction(3, 4):
        return num(-1)
    return None


def uf(name, args, sort):
    return mk('uf', (name,) + tuple(args), sort)


# ------------------------------------------------------------------ arrays

def elemsort(s):
    return s[1]


def select(a, i):
    while True:
        if a.op == 'store':
            d = eq(a.args[1], i)
            if d is TRUE:
                return a.args[2]
            if d is FALSE:
                a = a.args[0]
                continue
            return ite(d, a.args[2], select(a.args[0], i))
        if a.op == 'const':
            return a.args[0]
        if a.op == 'ite':
            return ite(a.args[0], select(a.args[1], i), select(a.args[2], i))
        if a.op == 'ins':
            base, p, v = a.args
            return ite(lt(i, p), select(base, i),
                       ite(eq(i, p), v, select(base, sub(i, num(1, I)))))
        if a.op == 'del':
            base, p = a.args
            lo = lt(i, p)
            if lo is TRUE:
                a = base
                continue
            return ite(lo, select(base, i), select(base, add(i, num(1, I))))
        if a.op == 'lam':
            # lam(var, body)
            return subst(a.args[1], {a.args[0]: i})
        break
    return mk('select', (a, i), elemsort(a.sort))


def store(a, i, v):
    if a.op == 'store' and a.args[1] is i:
        a = a.args[0]
    if v.op == 'select' and v.args[0] is a and v.args[1] is i:
        return a
    if a.op == 'store':
        # sort concrete chains
        if a.args[1].op == 'num' and i.op == 'num' and i.args[0] < a.args[1].args[0]:
            return mk('store', (store(a.args[0], i, v), a.args[1], a.args[2]), a.sort)
    return mk('store', (a, i, v), a.sort)


def constarr(v):
    return mk('const', (v,), A(v.sort))


def arr_ins(a, p, v):
    return mk('ins', (a, p, v), a.sort)


def arr_del(a, p):
    return mk('del', (a, p), a.sort)


def lam(v, body):
    return mk('lam', (v, body), A(body.sort))


def forall(vs, body):
    if body is TRUE:
        return TRUE
    if body is FALSE:
        return FALSE
    return mk('forall', (tuple(vs), body), B)


def addr(region, path, idx=()):
    return mk('addr', (region, tuple(path), tuple(idx)), P)


# ------------------------------------------------------------------ traversal

def children(t):
    op = t.op
    if op in ('num', 'sym', 'true', 'false', 'null'):
        return ()
    if op == 'poly':
        out = []
        for m, c in t.args:
            for a, e in m:
                out.append(a)
        return out
    if op == 'addr':
        return t.args[2]
    if op == 'uf':
        return t.args[1:]
    if op == 'forall':
        return (t.args[1],)
    return t.args


def rebuild(t, f):
    """apply f to the children of t and rebuild with simplification"""
    op = t.op
    if op in ('num', 'sym', 'true', 'false', 'null'):
        return t
    if op == 'poly':
        changed = False
        parts = []
        for m, c in t.args:
            term = num(c, t.sort)
            for a, e in m:
                na = f(a)
                if na is not a:
                    changed = True
                if e > 0:
                    term = mul(term, power(na, e))
                else:
                    term = mul(term, inv(power(na, -e)))
            parts.append(term)
        if not changed:
            return t
        return add(*parts)
    if op == 'addr':
        n = tuple(f(x) for x in t.args[2])
        return t if n == t.args[2] else addr(t.args[0], t.args[1], n)
    if op == 'uf':
        n = tuple(f(x) for x in t.args[1:])
        return t if n == t.args[1:] else mk('uf', (t.args[0],) + n, t.sort)
    if op == 'forall':
        n = f(t.args[1])
        return t if n is t.args[1] else forall(t.args[0], n)
    if op == 'lam':
        n = f(t.args[1])
        return t if n is t.args[1] else lam(t.args[0], n)
    n = tuple(f(x) for x in t.args)
    if n == t.args:
        return t
    return apply(op, n, t.sort)


def sumterm(l, n, sort):
    """sum of l(j) for 0<=j<n"""
    if n.op == 'num' and n.args[0] <= 0:
        return num(0, sort)
    if l.op == 'lam':
        v, body = l.args
        lit = le0(sub(add(v, num(1, I)), n))
        if lit not in (TRUE, FALSE) and lit in subterms([body]):
            l = lam(v, subst(body, {lit: TRUE}))
    return mk('sum', (l, n), sort)


def apply(op, n, sort):
    if op == 'sum':
        return sumterm(n[0], n[1], sort)
    if op == 'not':
        return nnot(n[0])
    if op == 'and':
        return aand(*n)
    if op == 'or':
        return oor(*n)
    if op == 'ite':
        return ite(*n)
    if op == 'le0':
        return le0(n[0])
    if op == 'lt0':
        return lt0(n[0])
    if op == 'eq0':
        return eq0(n[0])
    if op == 'eq':
        return eq(*n)
    if op == 'grp':
        return n[0] if n[0].op in ('num',) or n[0].op != 'poly' else mk('grp', n, sort)
    if op == 'toreal':
        return toreal(n[0])
    if op == 'trunc':
        return trunc(n[0])
    if op == 'select':
        return select(*n)
    if op == 'store':
        return store(*n)
    if op == 'const':
        return constarr(n[0])
    if op == 'fdiv':
        return fdiv(n[0], n[1], False)
    if op in ('ins', 'del'):
        return mk(op, n, sort)
    if op in ('sdiv', 'srem', 'udiv', 'urem'):
        return intdiv(op, *n)
    if sort == R:
        return fun(op, *n)
    return mk(op, n, sort)


def intdiv(op, a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op.endswith('div'):
            return num(q, I)
        return num(x - q * y, I)
    if b.op == 'num' and b.args[0] == 1:
        return a if op.endswith('div') else num(0, I)
    return mk(op, (a, b), I)


def subst(t, m, cache=None):
    if cache is None:
        cache = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = cache.get(x)
        if r is None:
            r = rebuild(x, go)
            cache[x] = r
        return r
    return go(t)


def subterms(ts, seen=None):
    seen = {} if seen is None else seen
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen[t] = 1
        stack.extend(children(t))
        if t.op == 'forall':
            pass
    return seen


def size(t):
    return len(subterms([t]))


# ------------------------------------------------------------------ signs

class Signs(object):
    """syntactic sign analysis under a set of literals: possible signs of a term"""

    ALL = frozenset((-1, 0, 1))

    def __init__(self, lits):
        self.d = {}
        for l in lits:
            if l.op == 'lt0':
                self.put(l.args[0], {-1})
            elif l.op == 'le0':
                self.put(l.args[0], {-1, 0})
            elif l.op == 'eq0':
                self.put(l.args[0], {0})
            elif l.op == 'not' and l.args[0].op == 'eq0':
                self.put(l.args[0].args[0], {-1, 1})
        self.cache = {}

    def put(self, p, s):
        s = frozenset(s)
        self.d[p] = self.d.get(p, self.ALL) & s
        q = neg(p)
        self.d[q] = self.d.get(q, self.ALL) & frozenset(-x for x in s)

    def of(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._of(t)
            k = self.d.get(t)
            if k is None and t.sort == R and t.op == 'poly':
                n = _normpoly(t, True) if any(m != () for m, c in t.args) else t
                k = self.d.get(n)
                if k is None:
                    k = self.d.get(neg(n))
                    k = None if k is None else frozenset(-x for x in k)
            if k is not None and r & k:
                r = r & k
            self.cache[t] = r
        return r

    def _of(self, t):
        op = t.op
        if op == 'num':
            v = t.args[0]
            return frozenset((0 if v == 0 else (1 if v > 0 else -1),))
        if t is PI:
            return frozenset((1,))
        if op == 'poly':
            tot = None
            for m, c in t.args:
                s = frozenset((1 if c > 0 else -1,))
                for a, e in m:
                    sa = self.of(a)
                    if e % 2 == 0:
                        sa = frozenset(x * x for x in sa)
                    if e < 0:
                        sa = sa - {0} or sa
                    s = frozenset(x * y for x in s for y in sa)
                if tot is None:
                    tot = s
                else:
                    tot = frozenset(z for x in tot for y in s for z in _signsum(x, y))
            return tot
        if op == 'grp':
            return self.of(t.args[0])
        if op == 'ite':
            return self.of(t.args[1]) | self.of(t.args[2])
        if op in ('cosh', 'exp'):
            return frozenset((1,))
        if op in ('sinh', 'asinh', 'atan', 'tanh', 'toreal', 'cbrt'):
            return self.of(t.args[0])
        if op == 'sqrt':
            s = self.of(t.args[0])
            if s <= {0, 1}:
                return s
            return frozenset((0, 1))
        if op == 'pow':
            s = self.of(t.args[0])
            if s == {1}:
                return s
            return self.ALL
        if op == 'fdiv':
            b = self.of(t.args[1])
            if 0 in b:
                return self.ALL
            return frozenset(x * y for x in self.of(t.args[0]) for y in b)
        return self.ALL


def _signsum(x, y):
    if x == 0:
        return (y,)
    if y == 0 or x == y:
        return (x,)
    return (-1, 0, 1)


# ------------------------------------------------------------------ display

def show(t, depth=14):
    if depth == 0:
        return '...'
    d = depth - 1
    op = t.op
    if op == 'num':
        return str(t.args[0])
    if op == 'sym':
        return t.args[0]
    if op == 'poly':
        out = []
        for m, c in t.args:
            fs = []
            for a, e in m:
                s = show(a, d)
                if e != 1:
                    s = '%s^%d' % (s, e)
                fs.append(s)
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if op == 'grp':
        return '{%s}' % show(t.args[0], d)
    if op == 'addr':
        return '&%s%s%s' % (t.args[0], list(t.args[1]), [show(x, d) for x in t.args[2]])
    if op == 'uf':
        return '%s(%s)' % (t.args[0], ', '.join(show(x, d) for x in t.args[1:]))
    if op == 'forall':
        return 'forall %s. %s' % (','.join(v.args[0] for v in t.args[0]), show(t.args[1], d))
    if op in ('le0', 'lt0', 'eq0'):
        return '(%s %s 0)' % (show(t.args[0], d), {'le0': '<=', 'lt0': '<', 'eq0': '=='}[op])
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in t.args))


# ------------------------------------------------------------------ evaluation

class EvalError(Exception):
    pass


def evaluate(t, env, cache=None):
    """floating/integer evaluation; env maps sym name -> python value (or callable)"""
    cache = {} if cache is None else cache

    def ev(x):
        if x in cache:
            return cache[x]
        r = _ev(x)
        cache[x] = r
        return r

    def _ev(x):
        op = x.op
        if op == 'num':
            v = x.args[0]
            return float(v) if x.sort == R else int(v)
        if op == 'sym':
            n = x.args[0]
            if n == 'PI':
                return math.pi
            if n in env:
                return env[n]
            raise EvalError('unbound ' + n)
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'poly':
            s = 0
            for m, c in x.args:
                v = float(c) if x.sort == R else c
                for a, e in m:
                    v = v * ev(a) ** e
                s = s + v
            return s
        if op == 'grp':
            return ev(x.args[0])
        if op == 'and':
            return all(ev(y) for y in x.args)
        if op == 'or':
            return any(ev(y) for y in x.args)
        if op == 'not':
            return not ev(x.args[0])
        if op == 'ite':
            return ev(x.args[1]) if ev(x.args[0]) else ev(x.args[2])
        if op == 'le0':
            return ev(x.args[0]) <= 0
        if op == 'lt0':
            return ev(x.args[0]) < 0
        if op == 'eq0':
            v = ev(x.args[0])
            return v == 0 or (x.args[0].sort == R and abs(v) < 1e-12)
        if op == 'eq':
            return ev(x.args[0]) == ev(x.args[1])
        if op == 'toreal':
            return float(ev(x.args[0]))
        if op == 'trunc':
            return int(ev(x.args[0]))
        if op == 'fdiv':
            return ev(x.args[0]) / ev(x.args[1])
        if op == 'abs':
            return abs(ev(x.args[0]))
        if op == 'pow':
            return ev(x.args[0]) ** ev(x.args[1])
        if op == 'round':
            v = ev(x.args[0])
            return math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1)
        f = getattr(math, op, None)
        if f is not None and x.sort == R:
            return f(*[ev(y) for y in x.args])
        raise EvalError('cannot evaluate ' + op)
    try:
        return ev(t)
    except (ValueError, OverflowError, ZeroDivisionError, TypeError) as e:
        raise EvalError(str(e))


# ------------------------------------------------------------------ literals

def literal(x):
    """Ideal real value of a double literal.

    A decimal literal denotes the shortest decimal that reads back as that
    double (0.3048, not its binary neighbour); reciprocals of short decimals
    and rational multiples of pi are recognised, so that the constants folded
    by the compiler keep the meaning the source gives them.
    """
    if x == 0:
        return num(0)
    if x != x or x in (float('inf'), float('-inf')):
        return sym('nonfinite', R)
    s = repr(abs(x))
    sign = 1 if x > 0 else -1
    digits = s.replace('.', '').split('e')[0].strip('0')
    if len(digits) <= 12 or float(x).is_integer():
        return num(sign * Fraction(s))
    y = abs(x)
    # rational multiples of pi
    for q in (1, 2, 3, 4, 6, 8, 12, 45, 90, 180, 200, 360, 400):
        for p in (1, 2, 3, 4, 5, 360, 180):
            for v, t in ((math.pi * p / q, scale(PI, Fraction(p, q))),
                         (p / (math.pi * q), None)):
                if abs(v - y) <= 1.5e-15 * y:
                    if t is None:
                        t = scale(inv(PI), Fraction(p, q))
                    return scale(t, sign)
    r = repr(1 / y)
    rd = r.replace('.', '').split('e')[0].strip('0')
    if len(rd) <= (12 if len(digits) < 15 else 14):
        return num(sign / Fraction(r))
    for q in range(2, 1000):
        v = y * q
        rv = repr(v)
        d = rv.replace('.', '').split('e')[0].strip('0')
        if len(d) <= 8:
            return num(sign * Fraction(rv) / q)
    return num(sign * Fraction(s))
