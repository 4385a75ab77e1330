"""Discharging proof obligations."""
import time
import z3
import terms as tm
from terms import TRUE, FALSE, I, R, B, P
import smt
import alg


class Timeout(Exception):
    pass


def litmap(l):
    """what a true literal says about other literals"""
    m = {l: TRUE, tm.nnot(l): FALSE}
    op = l.op
    if op == 'lt0':
        p = l.args[0]
        m[tm.le0(p)] = TRUE
        m[tm.eq0(p)] = FALSE
        q = tm.neg(p)
        m[tm.le0(q)] = FALSE
        m[tm.lt0(q)] = FALSE
    elif op == 'le0':
        m[tm.lt0(tm.neg(l.args[0]))] = FALSE
        if l.args[0].sort == I:
            # p<=0 -> p+k... only the adjacent facts
            m[tm.lt0(tm.sub(tm.num(0, I), l.args[0]))] = FALSE
    elif op == 'eq0':
        p = l.args[0]
        m[tm.le0(p)] = TRUE
        m[tm.le0(tm.neg(p))] = TRUE
        m[tm.lt0(p)] = FALSE
        m[tm.lt0(tm.neg(p))] = FALSE
    elif op == 'not' and l.args[0].op == 'eq0':
        pass
    for k in (TRUE, FALSE):
        m.pop(k, None)
    return m


_occ = {}


def orient(eqt):
    """eq0(p) or eq(a,b) -> (lhs atom, rhs) or None"""
    if eqt.op == 'eq':
        a, b = eqt.args
        for x, y in ((a, b), (b, a)):
            if x.op in ('sym', 'uf', 'select') and not inside(x, y):
                return x, y
        return None
    if eqt.op != 'eq0':
        return None
    p = eqt.args[0]
    if p.op in ('sym', 'select', 'uf'):
        return p, tm.num(0, p.sort)
    if p.op != 'poly':
        return None
    best = None
    for m, c in p.args:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a is tm.PI or a.op in ('num', 'ite', 'grp'):
                continue
            if p.sort == I and abs(c) != 1:
                continue
            if a.op not in ('sym', 'select', 'uf', 'sum'):
                continue
            rest = dict(p.args)
            del rest[m]
            rest = tm.from_poly(rest, p.sort)
            if inside(a, rest):
                continue
            rank = {'sym': 0, 'select': 1, 'uf': 2, 'sum': 3}[a.op]
            if a.op == 'sym' and a.args[0].startswith('in.'):
                rank = 1
            key = (rank, -a.id)
            if best is None or key < best[0]:
                r = tm.neg(rest) if c == 1 else (rest if c == -1 else tm.scale(rest, -1 / c))
                best = (key, a, r)
    return None if best is None else (best[1], best[2])


def inside(a, t):
    return a in tm.subterms([t])


class Prover(object):
    def __init__(self, facts, budget=60.0, log=None):
        self.facts = list(facts)
        self.budget = budget
        self.how = {}
        self.ztime = 0.0
        self.log = log
        self.skolem = 0
        self.model = None

        self.nh = {}

    def check_time(self):
        if time.time() > self.deadline:
            raise Timeout()

    # ------------------------------------------------------------ entry
    def prove(self, pc, cond):
        """-> (True/False, how string)"""
        self.deadline = time.time() + self.budget
        self.how = {}
        self.leaves = 0
        self.model = None
        self.failed = None
        hyps = list(pc.args) if pc.op == 'and' else [pc]
        cond = unroll_sums(cond)
        hyps += counts(cond)
        self.near = indices(cond)
        try:
            fas = [h for h in hyps if h.op == 'forall']
            ok = bool(fas or cond.op == 'forall') and cond is not TRUE \
                and self.z3check([h for h in hyps if h.op != 'forall'], cond, lin=True, timeout=3000, fas=fas)
            ok = ok or self.solve(hyps, cond, 0)
        except Timeout:
            ok = False
            self.how['timeout'] = 1
        return ok, '+'.join(sorted(self.how)) or 'syntactic'

    def used(self, k):
        self.how[k] = self.how.get(k, 0) + 1

    def propagate(self, hyps, goal):
        """unit propagation, equality substitution; returns (hyps, goal) or None if contradictory"""
        units = []          # processed literals
        work = []
        for h in hyps:
            work.append(h)
        done = []
        rounds = 0
        while True:
            rounds += 1
            self.check_time()
            flat = []
            for h in work:
                if h is TRUE:
                    continue
                if h is FALSE:
                    return None
                if h.op == 'and':
                    flat.extend(h.args)
                else:
                    flat.append(h)
            # dedupe
            seen = {}
            for h in flat:
                seen[h] = 1
            flat = list(seen)
            # pick a new equality to substitute
            sub = None
            for h in flat:
                if h.op in ('eq0', 'eq') and h not in self._noorient:
                    o = orient(h)
                    if o is not None:
                        sub = (h, o)
                        break
            if sub is not None:
                h, (a, r) = sub
                m = {a: r}
                cache = {}
                work = [tm.subst(x, m, cache) for x in flat if x is not h]
                goal = tm.subst(goal, m, cache)
                self._substs.append((a, r))
                if rounds > 200:
                    return work, goal
                continue
            # literals
            new = [h for h in flat if h.op not in ('or', 'forall', 'ite') and h not in self._lits]
            if not new:
                return flat, goal
            m = {}
            for h in new:
                self._lits.add(h)
                for k, v in litmap(h).items():
                    if m.get(k, v) is not v:
                        return None
                    m[k] = v
            ms = set(new)
            cache = {}
            work = []
            for x in flat:
                if x in ms or x in self._lits:
                    # literals themselves stay; check against the other facts
                    v = m.get(x)
                    if v is FALSE:
                        return None
                    y = rebuild_inside(x, m, cache)
                    if y is FALSE:
                        return None
                    if y is not x and y is not TRUE:
                        work.append(y)
                        continue
                    work.append(x)
                else:
                    work.append(tm.subst(x, m, cache))
            goal = tm.subst(goal, m, cache)

    def solve(self, hyps, goal, depth):
        self.check_time()
        if goal is TRUE:
            return True
        if goal.op == 'and':
            return all(self.solve(hyps, g, depth) for g in goal.args)
        if goal.op == 'forall':
            m = {}
            for v in goal.args[0]:
                self.skolem += 1
                m[v] = tm.sym('sk!%d' % self.skolem, v.sort)
            return self.solve(hyps, tm.subst(goal.args[1], m), depth)
        if goal.op == 'or':
            gs = list(goal.args)
            # keep one disjunct as the goal
            gs.sort(key=lambda g: (4 if refuted(g) else {'and': 0, 'forall': 0, 'eq0': 1, 'eq': 1}.get(g.op, 3),
                                   -len(tm.subterms([g]))))
            return self.solve(hyps + [tm.nnot(g) for g in gs[1:]], gs[0], depth)
        if refuted(goal):
            hyps, goal = hyps + [goal.args[0]], FALSE
        self._lits, self._noorient, self._substs = set(), set(), []
        r = self.propagate(hyps, goal)
        if r is None:
            return True
        hyps, g2 = r
        if g2 is not goal and g2.op in ('and', 'or', 'forall', 'true'):
            return self.solve(hyps, g2, depth)
        goal = g2
        # instances of quantified hypotheses
        fas = [h for h in hyps if h.op == 'forall']
        if fas:
            rest = [h for h in hyps if h.op != 'forall']
            dec = Decide(rest)
            goal = dec(goal)
            inst = self.instances(fas, rest, goal, dec)
            hyps2 = rest + inst
            self._lits, self._noorient, self._substs = set(), set(), []
            r = self.propagate(hyps2, goal)
            if r is None:
                self.used('instantiation')
                return True
            hyps, goal = r
            if goal is TRUE:
                self.used('instantiation')
                return True
            if goal.op in ('and', 'or', 'forall'):
                return self.solve(hyps + fas, goal, depth)
        return self.core(hyps, goal, fas, depth)

    def instances(self, fas, hyps, goal, dec, rounds=2, cap=160):
        """ground instances of universally quantified hypotheses at the index terms that occur"""
        out = []
        have = set()
        base = list(hyps) + [goal]
        near = {t.args[1] for t in tm.subterms([goal]) if t.op == 'select'}
        for rnd in range(rounds):
            sub = tm.subterms(base + out)
            idx, ufs = {}, {}
            for t in sub:
                if t.op == 'select' and not bound(t.args[1]):
                    idx.setdefault(t.args[0], set()).add(t.args[1])
                elif t.op == 'uf' and '#' in t.args[0] and len(t.args) > 1 and t.args[1].sort == I \
                        and not any(bound(a) for a in t.args[1:]):
                    ufs.setdefault(t.args[0], set()).add(t.args[1])
            skol = {t for t in sub if t.op == 'sym' and t.sort == I and (t.args[0].startswith('sk!') or
                    t.args[0].startswith('any.'))}
            new = []
            for fa in fas:
                vs, body = fa.args
                if len(vs) != 1:
                    cands2 = []
                    continue
                v = vs[0]
                cands = set()
                bs = tm.subterms([body])
                for t in bs:
                    if t.op == 'select' and inside(v, t.args[1]):
                        arr = t.args[0]
                        off = tm.sub(t.args[1], v)
                        if inside(v, off) or inside(v, arr):
                            # nested select: allow any known index
                            continue
                        for a, ii in idx.items():
                            if a is arr or same_family(a, arr):
                                for x in ii:
                                    cands.add(tm.sub(x, off))
                    if t.op == 'uf' and t.args[0] in ufs and inside(v, t.args[1]):
                        off = tm.sub(t.args[1], v)
                        if not inside(v, off):
                            cands |= {tm.sub(x, off) for x in ufs[t.args[0]]}
                cands |= skol
                for s in skol:
                    pass
                for t in bs:
                    # bounds of the range
                    pass
                for x in list(cands)[:cap]:
                    if x not in near and x.op in ('poly', 'num') and abs(tm.to_poly(x).get((), 0)) > 3:
                        continue
                    if x not in self.near and far(x, self.near):
                        continue
                    y = dec(tm.subst(body, {v: x}))
                    if y is TRUE or y in have:
                        continue
                    have.add(y)
                    new.append(y)
            if not new:
                break
            out += new
            if len(out) > cap * 3:
                break
        return out

    # ------------------------------------------------------------ core
    def core(self, hyps, goal, fas, depth):
        self.leaves += 1
        self.check_time()
        # 1. linear
        if self.z3check(hyps, goal, lin=True, timeout=400 if depth else 1500, fas=None):
            return True
        # divisions whose denominators are non-zero here
        div = [t for t in tm.subterms([goal]) if t.op == 'fdiv' and not hasbv(t)]
        if div:
            sg = tm.Signs([h for h in hyps])
            m = {}
            for t in div:
                b = t.args[1]
                if 0 not in sg.of(b) or self.z3check(hyps, tm.nnot(tm.eq0(b)), lin=False, timeout=700, fas=None):
                    m[t] = tm.fdiv(t.args[0], b, True)
            if m:
                goal2 = tm.subst(goal, m)
                if goal2 is not goal:
                    return self.solve(hyps + fas, goal2, depth)
        sg = tm.Signs(hyps)
        if goal.op in ('le0', 'lt0'):
            s_ = sg.of(goal.args[0])
            if s_ <= {-1} or (goal.op == 'le0' and s_ <= {-1, 0}):
                self.used('signs')
                return True
        # 2. algebra
        if goal.op == 'eq0' and goal.args[0].sort == R:
            if self.algebra(hyps, goal.args[0], depth):
                return True
        # normalised inequality may become trivial
        if goal.op in ('le0', 'lt0') and goal.args[0].sort == R:
            r = self.ineq(hyps, goal, depth)
            if r:
                return True
        eq = self.same_index(hyps, goal)
        if eq is not None:
            return self.solve(hyps + fas + [eq], goal, depth)
        # 3. split
        c = self.pick(hyps, goal)
        if c is None or depth > 40:
            return self.leaf(hyps, goal, fas)
        if depth == 0 and not (goal.op == 'eq0' and goal.args[0].sort == R):
            if self.z3check(hyps, goal, lin=False, timeout=1500, fas=None):
                return True
        sv = self.facts
        a = self.solve(hyps + fas + [c], goal, depth + 1)
        if not a:
            return False
        return self.solve(hyps + fas + [tm.nnot(c)], goal, depth + 1)

    def same_index(self, hyps, goal):
        """two positions of one container in the goal that the hypotheses identify"""
        if goal.op != 'eq0' or goal.args[0].sort != R:
            return None
        idx = {}
        for t in tm.subterms([goal]):
            if t.op == 'select' and not bound(t.args[1]):
                idx.setdefault(t.args[0], set()).add(t.args[1])
        seen = set()
        for ii in idx.values():
            ii = sorted(ii, key=lambda x: x.id)
            for k, a in enumerate(ii):
                for b in ii[k + 1:]:
                    d = tm.sub(a, b)
                    e = tm.eq0(d)
                    if d.op == 'num' or e in seen or tm.nnot(e) in hyps or len(seen) > 8:
                        continue
                    seen.add(e)
                    if e is not FALSE and self.z3check(hyps, e, lin=True, timeout=400, fas=None):
                        return e
        return None

    def pick(self, hyps, goal):
        """condition to split on: conditions of ites in the goal first"""
        conds = {}
        sub = tm.subterms([goal])
        for t in sub:
            if t.op == 'ite' and not hasbv(t.args[0]):
                c = t.args[0]
                conds[c] = conds.get(c, 0) + 1
        if goal.op in ('not',) and goal.args[0].op == 'and':
            pass
        if not conds:
            # hypotheses: disjunctions/ites that mention something of the goal
            gs = {x for x in sub if x.op in ('sym', 'select', 'uf')}
            for h in hyps:
                if h.op == 'or' and not any(x.op == 'forall' for x in h.args):
                    c = min(h.args, key=lambda x: len(tm.subterms([x])))
                    if gs & set(tm.subterms([h])):
                        conds[c] = conds.get(c, 0) + 0.1
                else:
                    for t in tm.subterms([h]):
                        if t.op == 'ite' and not hasbv(t.args[0]) and h.op != 'forall':
                            conds[t.args[0]] = conds.get(t.args[0], 0) + 0.01
        if not conds:
            return None
        # innermost conditions first (no ite inside), then most frequent
        def atom(c):
            while c.op in ('and', 'or'):
                c = c.args[0]
            if c.op == 'not' and c.args[0].op in ('and', 'or'):
                c = c.args[0]
            return c

        def inner(c):
            return sum(1 for t in tm.subterms([c]) if t.op == 'ite')
        best = min(conds, key=lambda c: (inner(c), -conds[c], c.id))
        b = atom(best)
        while True:
            n = None
            for t in tm.subterms([b]):
                if t.op == 'ite' and not hasbv(t.args[0]):
                    n = t.args[0]
                    break
            if n is None:
                break
            b = atom(n)
        if b.op == 'forall':
            return None
        return b

    def algebra(self, hyps, p, depth):
        for sums in (False, True):
            if self.algebra1(hyps, p, depth, sums):
                return True
        return False

    def algebra1(self, hyps, p, depth, sums):
        nm = alg.Norm(sums)
        try:
            r = alg.residual(p, nm)
        except alg.TooBig:
            return False
        ok = r.op == 'num' and r.args[0] == 0
        if not ok and r is not p and r.op != 'num' and depth < 40:
            # signs introduced by square roots: split and retry
            old = {t.args[0] for t in tm.subterms([p]) if t.op == 'ite'}
            new = [t.args[0] for t in tm.subterms([r]) if t.op == 'ite' and t.args[0] not in old]
            if new and not old:
                ok = self.solve(hyps, tm.eq0(r), depth + 1)
        if ok:
            for q in nm.side:
                if not self.nonneg(hyps, q, depth):
                    return False
            self.used('algebra')
            return True
        return False

    def nonneg(self, hyps, q, depth, full=True):
        if q.op == 'num':
            return q.args[0] >= 0
        pp = tm.to_poly(q)
        if all(c > 0 and all(e % 2 == 0 or a.op in ('cosh', 'exp', 'sqrt') or a is tm.PI for a, e in m)
               for m, c in pp.items()):
            return True
        if tm.Signs(hyps).of(q) <= {0, 1}:
            return True
        g = tm.le0(tm.neg(q))
        if not full:
            return g in hyps or self.z3check(hyps, g, lin=False, timeout=1000, fas=None)
        if depth > 60:
            return False
        if g in self.normed(hyps):
            return True
        return self.z3check(hyps, g, lin=False, timeout=2000, fas=None) or self.leaf(hyps, g, [])

    def normed(self, hyps):
        """normal forms of the inequalities among the hypotheses"""
        out = set()
        for h in hyps:
            if h.op not in ('le0', 'lt0') or hasbv(h):
                continue
            if h not in self.nh:
                self.nh[h] = None
                if any(t.op in ('sqrt', 'sin', 'cos') for t in tm.subterms([h])):
                    try:
                        nm = alg.Norm(False)
                        n, den = alg.fraction(nm.norm(h.args[0]))
                        if not den and not nm.side:
                            self.nh[h] = tm.le0(nm.reduce(n))
                        elif not den:
                            self.nh[h] = (tm.le0(nm.reduce(n)), list(nm.side))
                    except alg.TooBig:
                        pass
            v = self.nh[h]
            if isinstance(v, tuple):
                v = self.nh[h] = v[0] if all(self.nonneg(hyps, q, 61, False) for q in v[1]) else None
            if v is not None:
                out.add(v)
        return out

    def ineq(self, hyps, goal, depth):
        return self.ineq1(hyps, goal, depth, False) or self.ineq1(hyps, goal, depth, True)

    def ineq1(self, hyps, goal, depth, sums):
        try:
            nm = alg.Norm(sums)
            p = nm.norm(goal.args[0])
            n, den = alg.fraction(p)
            n = nm.reduce(n)
        except alg.TooBig:
            return False
        strict = goal.op == 'lt0'
        if n.op == 'num':
            if not den:
                return n.args[0] < 0 or (not strict and n.args[0] == 0)
        # positive denominators can be dropped
        odd = [a for a, e in den.items() if e % 2]
        g = None
        ok = True
        for a in odd:
            if not (a.op in ('cosh', 'exp', 'sqrt') or a is tm.PI):
                x = a.args[0] if a.op == 'grp' else a
                if self.z3check(hyps, tm.lt(tm.num(0), x), lin=False, timeout=1500, fas=None):
                    continue
                if self.z3check(hyps, tm.lt(x, tm.num(0)), lin=False, timeout=1500, fas=None):
                    n = tm.neg(n)
                    continue
                ok = False
                break
        if not ok:
            return False
        g = tm.lt0(n) if strict else tm.le0(n)
        if g is TRUE:
            self.used('algebra')
            return True
        if g is goal or g is FALSE:
            return False
        for q in nm.side:
            if not self.nonneg(hyps, q, depth):
                return False
        if self.z3check(hyps, g, lin=True, timeout=500, fas=None) or \
                self.z3check(hyps, g, lin=False, timeout=1500, fas=None):
            return True
        return False

    def leaf(self, hyps, goal, fas):
        if self.z3check(hyps, goal, lin=False, timeout=3000, fas=None):
            return True
        if self.nlsat(hyps, goal, 8000):
            return True
        if fas and self.z3check(hyps, goal, lin=True, timeout=4000, fas=fas):
            return True
        if fas and self.z3check(hyps, goal, lin=False, timeout=4000, fas=fas):
            return True
        if self.failed is None:
            self.failed = (hyps, goal)
        return False

    # ------------------------------------------------------------ solvers
    def relevant(self, hyps, goal):
        ts = list(hyps) + [goal]
        sub = tm.subterms(ts)
        facts = []
        seen = set(sub)
        pool = [f for f in self.facts]
        changed = True
        used = set()
        while changed:
            changed = False
            for f in pool:
                if f in used:
                    continue
                fs = tm.subterms([f])
                anchors = [x for x in fs if x.op in ('sym', 'uf', 'select') and x is not tm.PI]
                if not anchors or all(x in seen for x in anchors if x.op != 'sym' or True):
                    used.add(f)
                    facts.append(f)
                    for x in fs:
                        seen.add(x)
                    changed = True
        return facts, seen

    def z3check(self, hyps, goal, lin, timeout, fas):
        """unsat(hyps & !goal)"""
        t0 = time.time()
        left = self.deadline - t0
        if left <= 0:
            raise Timeout()
        facts, sub = self.relevant(hyps, goal)
        hs = [h for h in hyps if h.op != 'forall'] + facts
        if fas:
            hs = hs + list(fas)
        ax = smt.axioms(tm.subterms(hs + [goal]))
        conv = smt.Conv(lin=lin)
        s = z3.Solver()
        s.set('timeout', int(min(timeout, left * 1000) + 1))
        try:
            for h in hs:
                s.add(conv(h))
            for a in ax:
                s.add(conv(a))
            s.add(conv(tm.nnot(goal)))
            for x in conv.side:
                s.add(x)
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        self.ztime += time.time() - t0
        if r == z3.unsat:
            self.used('z3-linear' if lin else 'z3')
            return True
        if r == z3.sat and not lin:
            try:
                self.model = (s.model(), conv)
            except z3.Z3Exception:
                pass
        return False

    def nlsat(self, hyps, goal, timeout):
        t0 = time.time()
        left = self.deadline - t0
        if left <= 0:
            raise Timeout()
        facts, sub = self.relevant(hyps, goal)
        hs = [h for h in hyps if h.op != 'forall'] + facts
        ax = smt.axioms(tm.subterms(hs + [goal]), pairs=True)
        pf = smt.Purify()
        try:
            fs = [pf(h) for h in hs + ax + [tm.nnot(goal)]]
        except smt.NotPure:
            return False
        try:
            tac = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'tseitin-cnf', 'nlsat'),
                            int(min(timeout, left * 1000)))
            s = tac.solver()
            for f in fs + pf.side():
                s.add(f)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.ztime += time.time() - t0
        if r == z3.unsat:
            self.used('z3-nlsat')
            return True
        return False


def refuted(g):
    """a claim that not every element has a property"""
    return g.op == 'not' and g.args[0].op == 'forall'


def indices(t):
    return {a for x in tm.subterms([t]) if x.op in ('select', 'uf') for a in x.args[1:]
            if a.sort == I and (x.op == 'select' or '#' in x.args[0])}


def unroll_sums(t):
    """sums over the same terms whose ranges differ by a few: the longer one in terms of the shorter one"""
    for _ in range(4):
        by, m = {}, {}
        for x in tm.subterms([t]):
            if x.op == 'sum':
                by.setdefault(x.args[0], []).append(x)
        for l, xs in by.items():
            for x in xs:
                if x.args[1].op == 'num' and tm.numval(x.args[1]) <= 4:
                    m[x] = tm.num(0, x.sort)
                    for j in range(int(tm.numval(x.args[1]))):
                        m[x] = tm.add(m[x], tm.select(l, tm.num(j, I)))
                    continue
                for y in xs:
                    d = tm.sub(x.args[1], y.args[1])
                    if d.op == 'num' and 0 < tm.numval(d) <= 3:
                        n = tm.sub(x.args[1], tm.num(1, I))
                        m[x] = tm.add(tm.sumterm(l, n, x.sort), tm.ite(tm.le(tm.num(0, I), n), tm.select(l, n), tm.num(0, x.sort)))
                        break
        if not m:
            break
        t = tm.subst(t, m)
    return t


def counts(t):
    """sums of terms that are never negative: not negative, and zero exactly when every term is"""
    from loops import bindvar, mkforall
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen or x.op in ('forall', 'lam'):
            continue
        seen.add(x)
        todo += tm.children(x)
        if x.op != 'sum' or x.sort != I or x.args[0].op != 'lam':
            continue
        l, n = x.args
        low = lowest(l.args[1])
        if low is None or low < 0:
            continue
        zero = tm.num(0, I)
        j = bindvar(l, n)
        body = tm.eq(tm.select(l, j), zero)
        every = mkforall(j, n, body)
        out.append(tm.le(zero, x))
        out.append(tm.oor(tm.lt(zero, x), every))
        out.append(tm.oor(tm.eq(x, zero), tm.nnot(every)))
    return out


def lowest(t):
    """a lower bound that is visible in the term; None: none"""
    if t.op == 'ite':
        a, b = lowest(t.args[1]), lowest(t.args[2])
        return None if a is None or b is None else min(a, b)
    if t.op == 'num':
        return tm.numval(t)
    if t.op == 'sum' and t.args[0].op == 'lam':
        low = lowest(t.args[0].args[1])
        return None if low is None or low < 0 else 0
    if t.op == 'poly':
        r = 0
        for m, c in tm.to_poly(t).items():
            if not m:
                r += c
                continue
            low = lowest(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
            if low is None or c < 0:
                return None
            r += c * low
        return r
    return None


def far(x, near):
    """more than two steps from every index of the goal that it differs from by a constant"""
    ds = [d for d in (tm.sub(x, a) for a in near) if d.op == 'num']
    return bool(ds) and min(abs(tm.numval(d)) for d in ds) > 2


class Decide:
    """replaces integer comparisons that the linear integer hypotheses decide"""
    def __init__(self, hyps):
        self.known = {}
        self.solver = None
        self.hyps = [h for h in hyps if self.literal(h)]

    @staticmethod
    def literal(h):
        if h.op == 'not':
            h = h.args[0]
        if h.op not in ('le0', 'eq0') or h.args[0].sort != I:
            return False
        return all(x.op in ('poly', 'sym', 'num', 'uf', 'select', 'le0', 'eq0') and (x.op != 'sym' or not x.args[0].startswith('bv'))
                   for x in tm.subterms([h])) if len(tm.subterms([h])) < 40 else False

    def decide(self, a):
        r = self.known.get(a)
        if r is None:
            if self.solver is None:
                self.conv = smt.Conv(lin=True)
                self.solver = z3.Solver()
                self.solver.set('timeout', 200)
                for h in self.hyps:
                    self.solver.add(self.conv(h))
            r = a
            try:
                c = self.conv(a)
                if self.solver.check(z3.Not(c)) == z3.unsat:
                    r = TRUE
                elif self.solver.check(c) == z3.unsat:
                    r = FALSE
            except z3.Z3Exception:
                pass
            self.known[a] = r
        return r

    def __call__(self, t):
        if not self.hyps:
            return t
        for _ in range(6):
            m = {}
            for x in tm.subterms([t]):
                if x.op in ('le0', 'eq0') and self.literal(x):
                    r = self.decide(x)
                    if r is not x:
                        m[x] = r
            if not m:
                return t
            t = tm.subst(t, m)
        return t


def bound(t):
    for x in tm.subterms([t]):
        if x.op == 'sym' and (x.args[0].startswith('bv@') or x.args[0].startswith('bv!')):
            return True
    return False


_hb = {}


def hasbv(t):
    r = _hb.get(t)
    if r is None:
        r = bound(t)
        _hb[t] = r
    return r


def same_family(a, b):
    """arrays related by store/ite chains over the same base"""
    ba, bb = bases(a), bases(b)
    return bool(ba & bb)


_bases = {}


def bases(a):
    r = _bases.get(a)
    if r is None:
        if a.op in ('store', 'ins', 'del'):
            r = bases(a.args[0])
        elif a.op == 'ite':
            r = bases(a.args[1]) | bases(a.args[2])
        else:
            r = frozenset([a])
        _bases[a] = r
    return r


def rebuild_inside(x, m, cache):
    """simplify below the top literal without replacing the literal itself"""
    return tm.rebuild(x, lambda c: tm.subst(c, m, cache))
