"""Translation of terms to z3 and ground axioms of the real functions."""
import z3
import terms as tm
from terms import T, B, I, R, P

ctx = z3.main_ctx()


class Conv(object):
    """lin=True abstracts non-linear monomials by constants (fast, incomplete)"""

    def __init__(self, lin=False):
        self.lin = lin
        self.cache = {}
        self.side = []          # defining facts
        self.fun = {}
        self.addrs = {}
        self.bound = {}
        self.sideseen = set()

    def zsort(self, s):
        if s == B:
            return z3.BoolSort()
        if s in (I, P):
            return z3.IntSort()
        if s == R:
            return z3.RealSort()
        return z3.ArraySort(z3.IntSort(), self.zsort(s[1]))

    def f(self, name, argsorts, ret):
        k = (name, tuple(argsorts), ret)
        r = self.fun.get(k)
        if r is None:
            r = z3.Function('%s' % name, *([self.zsort(s) for s in argsorts] + [self.zsort(ret)]))
            self.fun[k] = r
        return r

    def const(self, name, s):
        return z3.Const(name, self.zsort(s))

    def __call__(self, t):
        r = self.cache.get(t)
        if r is not None:
            return r
        # iterative to avoid deep recursion
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.cache:
                stack.pop()
                continue
            todo = [c for c in tm.children(x) if c not in self.cache]
            if todo:
                stack.extend(todo)
                continue
            self.cache[x] = self.conv(x)
            stack.pop()
        return self.cache[t]

    def mono(self, m, sort):
        fs = []
        if self.lin and (len(m) > 1 or m[0][1] != 1):
            name = 'mono_' + '_'.join('%d^%d' % (a.id, e) for a, e in m)
            c = self.const(name, sort)
            if sort == R and all(e % 2 == 0 for a, e in m) and name not in self.sideseen:
                self.sideseen.add(name)
                self.side.append(c >= 0)
            return c
        r = None
        for a, e in m:
            z = self.cache[a]
            if e > 0:
                for _ in range(e):
                    r = z if r is None else r * z
            else:
                if r is None:
                    r = z3.RealVal(1)
                for _ in range(-e):
                    r = r / z
        return r

    def conv(self, x):
        op = x.op
        c = self.cache
        if op == 'num':
            if x.sort == R:
                return z3.RealVal(x.args[0])
            return z3.IntVal(x.args[0])
        if op == 'sym':
            return self.const('s:' + x.args[0], x.sort)
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'null':
            return z3.IntVal(0)
        if op == 'poly':
            r = None
            for m, k in x.args:
                if m == ():
                    z = z3.RealVal(k) if x.sort == R else z3.IntVal(k)
                else:
                    z = self.mono(m, x.sort)
                    if k != 1:
                        z = (z3.RealVal(k) if x.sort == R else z3.IntVal(k)) * z
                r = z if r is None else r + z
            return r
        if op == 'grp':
            return c[x.args[0]]
        if op == 'not':
            return z3.Not(c[x.args[0]])
        if op == 'and':
            return z3.And(*[c[y] for y in x.args])
        if op == 'or':
            return z3.Or(*[c[y] for y in x.args])
        if op == 'ite':
            return z3.If(c[x.args[0]], c[x.args[1]], c[x.args[2]])
        if op == 'le0':
            return c[x.args[0]] <= 0
        if op == 'lt0':
            return c[x.args[0]] < 0
        if op == 'eq0':
            return c[x.args[0]] == 0
        if op == 'eq':
            return c[x.args[0]] == c[x.args[1]]
        if op == 'toreal':
            return z3.ToReal(c[x.args[0]])
        if op == 'trunc':
            z = c[x.args[0]]
            return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
        if op == 'fdiv':
            if self.lin:
                return self.f('fdiv', [R, R], R)(c[x.args[0]], c[x.args[1]])
            return c[x.args[0]] / c[x.args[1]]
        if op == 'select':
            return z3.Select(c[x.args[0]], c[x.args[1]])
        if op == 'store':
            return z3.Store(c[x.args[0]], c[x.args[1]], c[x.args[2]])
        if op == 'const':
            return z3.K(z3.IntSort(), c[x.args[0]])
        if op == 'ins':
            j = z3.Int('j!')
            b, p, v = [c[y] for y in x.args]
            return z3.Lambda([j], z3.If(j < p, z3.Select(b, j),
                                        z3.If(j == p, v, z3.Select(b, j - 1))))
        if op == 'del':
            j = z3.Int('j!')
            b, p = [c[y] for y in x.args]
            return z3.Lambda([j], z3.If(j < p, z3.Select(b, j), z3.Select(b, j + 1)))
        if op == 'lam':
            return z3.Lambda([c[x.args[0]] if x.args[0] in c else self.conv(x.args[0])], c[x.args[1]])
        if op == 'forall':
            vs = [self.const('s:' + v.args[0], v.sort) for v in x.args[0]]
            return z3.ForAll(vs, c[x.args[1]])
        if op == 'addr':
            key = (x.args[0], x.args[1])
            n = self.addrs.setdefault(key, len(self.addrs) + 1)
            if not x.args[2]:
                return z3.IntVal(1000000 + n)
            f = self.f('addr%d' % n, [I] * len(x.args[2]), I)
            args = [c[y] for y in x.args[2]]
            z = f(*args)
            if x not in self.sideseen:
                self.sideseen.add(x)
                self.side.append(z > 2000000)
                for k, a in enumerate(args):
                    g = self.f('addr%d_inv%d' % (n, k), [P], I)
                    self.side.append(g(z) == a)
                tg = self.f('addrtag', [P], I)
                self.side.append(tg(z) == n)
            return z
        if op == 'uf':
            return self.f('u:' + x.args[0], [a.sort for a in x.args[1:]], x.sort)(*[c[y] for y in x.args[1:]])
        if op == 'sum':
            return self.f('sum%d' % x.args[0].id, [I], x.sort)(c[x.args[1]])
        # named functions
        return self.f('f:' + op, [a.sort for a in x.args], x.sort)(*[c[y] for y in x.args])


MONO_INC = {'sinh', 'asinh', 'exp', 'atan', 'log', 'sqrt'}


def axioms(allterms, limit=14, pairs=True):
    """ground instances of the axioms of real functions for the terms that occur"""
    out = []
    byop = {}
    haspi = False
    for t in allterms:
        if t.op in ('sinh', 'cosh', 'asinh', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp', 'log',
                    'sqrt', 'pow', 'round', 'tanh', 'polar', 'polars'):
            byop.setdefault(t.op, []).append(t)
        if t is tm.PI:
            haspi = True
    z = tm.num(0)
    one = tm.num(1)
    # angle of (x,y): polar in [0,2 PI), polars in (-PI,PI]
    for t in byop.get('polar', []) + byop.get('polars', []):
        x, y = t.args
        at = tm.fun('atan', tm.mul(y, tm.inv(x)))
        for sub in tm.subterms([at]):
            if sub.op == 'atan' and sub not in byop.setdefault('atan', []):
                byop['atan'].append(sub)
        pi = tm.PI
        h = tm.scale(pi, tm.Fraction(1, 2))
        u = t.op == 'polar'
        out.append(tm.le(z, t) if u else tm.lt(tm.neg(pi), t))
        out.append(tm.lt(t, tm.scale(pi, 2)) if u else tm.le(t, pi))
        out.append(tm.implies(tm.lt(z, y), tm.aand(tm.lt(z, t), tm.lt(t, pi))))
        out.append(tm.implies(tm.lt(y, z), tm.lt(pi, t) if u else tm.lt(t, z)))
        out.append(tm.implies(tm.aand(tm.eq(x, z), tm.lt(z, y)), tm.eq(t, h)))
        out.append(tm.implies(tm.aand(tm.eq(x, z), tm.lt(y, z)), tm.eq(t, tm.scale(pi, tm.Fraction(3, 2)) if u else tm.neg(h))))
        out.append(tm.implies(tm.aand(tm.lt(z, x), tm.le(z, y)), tm.eq(t, at)))
        out.append(tm.implies(tm.aand(tm.lt(x, z), tm.le(z, y)), tm.eq(t, tm.add(pi, at))))
        out.append(tm.implies(tm.aand(tm.lt(x, z), tm.lt(y, z)), tm.eq(t, tm.add(pi if u else tm.neg(pi), at))))
        out.append(tm.implies(tm.aand(tm.lt(z, x), tm.lt(y, z)), tm.eq(t, tm.add(tm.scale(pi, 2), at) if u else at)))
        out.append(tm.implies(tm.aand(tm.lt(z, x), tm.eq(z, y)), tm.eq(t, z)))
        out.append(tm.implies(tm.aand(tm.lt(x, z), tm.eq(z, y)), tm.eq(t, pi)))
    if any(o in byop for o in ('atan', 'asin', 'acos', 'sin', 'cos', 'tan')):
        haspi = True
    if haspi:
        out.append(tm.lt(tm.num('3.14159265'), tm.PI))
        out.append(tm.lt(tm.PI, tm.num('3.14159266')))

    def signs(t, a):
        # odd, strictly increasing through zero
        out.append(tm.iff(tm.lt(z, a), tm.lt(z, t)))
        out.append(tm.iff(tm.lt(a, z), tm.lt(t, z)))
    for t in byop.get('sinh', []):
        a = t.args[0]
        signs(t, a)
        ch = tm.fun('cosh', a)
        out.append(tm.le(one, ch))
        out.append(tm.eq(tm.mul(ch, ch), tm.add(one, tm.mul(t, t))))
        out.append(tm.implies(tm.lt(z, a), tm.lt(a, t)))
        out.append(tm.implies(tm.lt(a, z), tm.lt(t, a)))
    for t in byop.get('cosh', []):
        a = t.args[0]
        out.append(tm.le(one, t))
        out.append(tm.iff(tm.eq(a, z), tm.eq(t, one)))
    for t in byop.get('asinh', []):
        signs(t, t.args[0])
    for t in byop.get('exp', []):
        out.append(tm.lt(z, t))
        a = t.args[0]
        out.append(tm.iff(tm.lt(z, a), tm.lt(one, t)))
        out.append(tm.iff(tm.lt(a, z), tm.lt(t, one)))
    for t in byop.get('atan', []):
        signs(t, t.args[0])
        h = tm.scale(tm.PI, tm.Fraction(1, 2))
        out.append(tm.lt(t, h))
        out.append(tm.lt(tm.neg(h), t))
    for t in byop.get('asin', []):
        h = tm.scale(tm.PI, tm.Fraction(1, 2))
        a = t.args[0]
        dom = tm.aand(tm.le(tm.num(-1), a), tm.le(a, one))
        out.append(tm.implies(dom, tm.aand(tm.le(t, h), tm.le(tm.neg(h), t))))
        out.append(tm.implies(dom, tm.iff(tm.lt(z, a), tm.lt(z, t))))
        out.append(tm.implies(dom, tm.iff(tm.lt(a, z), tm.lt(t, z))))
    for t in byop.get('acos', []):
        a = t.args[0]
        dom = tm.aand(tm.le(tm.num(-1), a), tm.le(a, one))
        out.append(tm.implies(dom, tm.aand(tm.le(z, t), tm.le(t, tm.PI))))
        h = tm.scale(tm.PI, tm.Fraction(1, 2))
        out.append(tm.implies(dom, tm.iff(tm.lt(z, a), tm.lt(t, h))))
        out.append(tm.implies(dom, tm.iff(tm.eq(a, one), tm.eq(t, z))))
        out.append(tm.implies(dom, tm.iff(tm.eq(a, tm.num(-1)), tm.eq(t, tm.PI))))
    args_sc = {}
    for o in ('sin', 'cos'):
        for t in byop.get(o, []):
            out.append(tm.le(t, one))
            out.append(tm.le(tm.num(-1), t))
            args_sc[t.args[0]] = 1
    for a in args_sc:
        s, c = tm.fun('sin', a), tm.fun('cos', a)
        out.append(tm.eq(tm.add(tm.mul(s, s), tm.mul(c, c)), one))
        h = tm.scale(tm.PI, tm.Fraction(1, 2))
        out.append(tm.implies(tm.aand(tm.lt(tm.neg(h), a), tm.lt(a, h)), tm.lt(z, c)))
        out.append(tm.implies(tm.aand(tm.lt(z, a), tm.lt(a, tm.PI)), tm.lt(z, s)))
        out.append(tm.implies(tm.eq(a, z), tm.aand(tm.eq(s, z), tm.eq(c, one))))
    for t in byop.get('tan', []):
        a = t.args[0]
        s, c = tm.fun('sin', a), tm.fun('cos', a)
        out.append(tm.eq(tm.mul(t, c), s))
    for t in byop.get('sqrt', []):
        a = t.args[0]
        out.append(tm.implies(tm.le(z, a), tm.aand(tm.le(z, t), tm.eq(tm.mul(t, t), a))))
        out.append(tm.implies(tm.lt(z, a), tm.lt(z, t)))
    for t in byop.get('pow', []):
        a, b = t.args
        out.append(tm.implies(tm.lt(z, a), tm.lt(z, t)))
        out.append(tm.implies(tm.aand(tm.eq(a, z), tm.lt(z, b)), tm.eq(t, z)))
        out.append(tm.implies(tm.le(z, a), tm.le(z, t)))
    for t in byop.get('log', []):
        a = t.args[0]
        out.append(tm.iff(tm.lt(one, a), tm.lt(z, t)))
    for t in byop.get('round', []):
        a = t.args[0]
        out.append(tm.le(tm.sub(t, a), tm.num('1/2')))
        out.append(tm.le(tm.sub(a, t), tm.num('1/2')))
    if pairs:
        for o in MONO_INC:
            ts = byop.get(o, [])
            if 1 < len(ts) <= limit:
                for i in range(len(ts)):
                    for j in range(i):
                        a, b = ts[i].args[0], ts[j].args[0]
                        if o in ('sqrt', 'log'):
                            out.append(tm.implies(tm.aand(tm.le(z, a), tm.lt(a, b)), tm.lt(ts[i], ts[j])))
                            out.append(tm.implies(tm.aand(tm.le(z, b), tm.lt(b, a)), tm.lt(ts[j], ts[i])))
                        else:
                            out.append(tm.iff(tm.lt(a, b), tm.lt(ts[i], ts[j])))
                            out.append(tm.iff(tm.lt(b, a), tm.lt(ts[j], ts[i])))
    return out


# changed when a verifier process is started again after a crash of the solver
SEED = 0


class Decider(object):
    """quick entailment checks for pruning; linear abstraction only"""

    def __init__(self, facts, timeout=60):
        self.conv = Conv(lin=True)
        self.facts = facts
        self.nf = 0
        self.solver = z3.Solver()
        # a resource limit, not a clock: the same program gives the same pruning on every machine
        self.solver.set('rlimit', timeout * 5000); self.solver.set('random_seed', SEED)
        self.ns = 0
        self.cache = {}
        self.queries = 0
        self.pcset = None
        self.pcsolver = None
        self.last = None

    def sat(self, pc):
        """False only if pc is surely inconsistent"""
        if pc is tm.FALSE:
            return False
        r = self.cache.get(pc)
        if r is not None:
            return r
        self.queries += 1
        s = self.solver
        conj = pc.args if pc.op == 'and' else (pc,)
        zs = [self.conv(c) for c in conj if c.op != 'forall']
        while self.nf < len(self.facts):
            s.add(self.conv(self.facts[self.nf]))
            self.nf += 1
        while self.ns < len(self.conv.side):
            s.add(self.conv.side[self.ns])
            self.ns += 1
        s.push()
        for z in zs:
            s.add(z)
        try:
            r = s.check() != z3.unsat
        except z3.Z3Exception:
            r = True
        s.pop()
        self.cache[pc] = r
        return r


class NotPure(Exception):
    pass


class Purify(object):
    """terms -> pure real arithmetic for nlsat: every non-arithmetic term becomes a
    real constant, with congruence between applications of the same function"""

    def __init__(self):
        self.cache = {}
        self.apps = {}

    def __call__(self, t):
        stack = [t]
        c = self.cache
        while stack:
            x = stack[-1]
            if x in c:
                stack.pop()
                continue
            if x.op in ('forall', 'lam'):
                raise NotPure()
            todo = [y for y in tm.children(x) if y not in c and not isinstance(y.sort, tuple)]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            c[x] = self.conv(x)
        return c[t]

    def conv(self, x):
        op = x.op
        c = self.cache
        if op == 'num':
            return z3.RealVal(x.args[0])
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'poly':
            r = None
            for m, k in x.args:
                z = z3.RealVal(k)
                for a, e in m:
                    for _ in range(abs(e)):
                        z = z * c[a] if e > 0 else z / c[a]
                r = z if r is None else r + z
            return r
        if op in ('grp', 'toreal'):
            return c[x.args[0]]
        if op == 'not':
            return z3.Not(c[x.args[0]])
        if op == 'and':
            return z3.And(*[c[y] for y in x.args])
        if op == 'or':
            return z3.Or(*[c[y] for y in x.args])
        if op == 'ite' and not isinstance(x.sort, tuple):
            return z3.If(c[x.args[0]], c[x.args[1]], c[x.args[2]])
        if op == 'le0':
            return c[x.args[0]] <= 0
        if op == 'lt0':
            return c[x.args[0]] < 0
        if op == 'eq0':
            return c[x.args[0]] == 0
        if op == 'eq':
            return c[x.args[0]] == c[x.args[1]]
        if op == 'fdiv':
            return c[x.args[0]] / c[x.args[1]]
        if isinstance(x.sort, tuple):
            raise NotPure()
        if x.sort == B:
            return z3.Bool('b%d' % x.id)
        v = z3.Real('r%d' % x.id)
        if op not in ('sym', 'null', 'addr'):
            key = [op]
            args = []
            for y in tm.children(x):
                if isinstance(y.sort, tuple):
                    key.append(y)
                else:
                    args.append(y)
            if op == 'uf':
                key.append(x.args[0])
            self.apps.setdefault(tuple(key), []).append((args, v))
        return v

    def side(self):
        out = []
        for k, l in self.apps.items():
            if len(l) > 8:
                continue
            for i in range(len(l)):
                for j in range(i):
                    a, b = l[i], l[j]
                    if len(a[0]) != len(b[0]):
                        continue
                    out.append(z3.Implies(z3.And(*[self.cache[x] == self.cache[y] for x, y in zip(a[0], b[0])])
                                          if a[0] else z3.BoolVal(True), a[1] == b[1]))
        return out
