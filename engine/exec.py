"""Symbolic executor (verification-condition generator) for the LLVM IR of the code.

States are merged at control-flow joins; loops are unrolled when their control
is decided, otherwise summarised (see loops.py); calls are inlined, modelled
(standard library), or replaced by the callee's contract.
"""
import os
import re
import sys
import subprocess
from fractions import Fraction

import terms as tm
from terms import B, I, R, P, A, TRUE, FALSE, NULL
import irparse
import smt

sys.setrecursionlimit(20000)
try:
    import resource
    resource.setrlimit(resource.RLIMIT_STACK, (120 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
except Exception:
    pass


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def tsort(ty):
    if ty == 'double' or ty == 'float':
        return R
    if ty == 'ptr':
        return P
    if isinstance(ty, tuple) and ty[0] == 'i':
        return B if ty[1] == 1 else I
    raise Unsupported('type %r' % (ty,))


def arrsort(depth, s):
    for _ in range(depth):
        s = A(s)
    return s


class State(object):
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem, self.pc = mem, pc

    def copy(self):
        return State(dict(self.mem), self.pc)


class Obl(object):
    def __init__(self, kind, name, pc, cond, where):
        self.kind, self.name, self.pc, self.cond, self.where = kind, name, pc, cond, where
        self.status = None
        self.how = None

    def goal(self):
        return tm.implies(self.pc, self.cond)


class Program(object):
    """all modules of one verification run"""

    def __init__(self, paths):
        self.funcs = {}
        self.modules = []
        self.layout = irparse.Layout()
        self.di = irparse.DI()
        self.globals = {}
        self.aliases = {}
        self.bodies = {}
        for p in paths:
            m = irparse.parse_module(p)
            self.modules.append(m)
            self.di.add(m)
            for k, f in m.funcs.items():
                if k not in self.funcs:
                    self.funcs[k] = f
            for k, g in m.globals.items():
                if k.startswith('.str') or k.startswith('__const') or k not in self.globals:
                    self.globals[(m.name, k)] = g
                    if 'external' not in g.split()[:2]:
                        self.globals.setdefault(k, (m, g))
            for k, v in m.aliases.items():
                self.aliases.setdefault(k, v)
        names = set(self.funcs)
        rx = re.compile(r'@("?)(_Z[\w$.]+)\1')
        for p in paths:
            with open(p) as fh:
                names |= {x[1] for x in rx.findall(fh.read())}
        names = sorted(names)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self.strings = {}

    def demangle(self, n):
        return self.dem.get(n, n)

    def string_token(self, codes):
        if codes and codes[-1] == 0:
            codes = codes[:-1]
        s = bytes(codes).decode('latin1')
        if s == '':
            return tm.num(0, I)
        import zlib
        return tm.num(1000 + zlib.crc32(s.encode('latin1')), I)


# ---------------------------------------------------------------- C++ names

def split_targs(s):
    """top-level template arguments of 'X<...>' (s is the inside)"""
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def match_angle(s, i):
    """s[i] == '<' -> index just after the matching '>'"""
    depth = 0
    while i < len(s):
        if s[i] == '<':
            depth += 1
        elif s[i] == '>' and s[i - 1] != '-':
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    return -1


_parsecache = {}


def parse_dem(d):
    """demangled name -> (qualified name without template args of last, class targs, method, params string)"""
    r = _parsecache.get(d)
    if r is None:
        r = _parse_dem(d)
        _parsecache[d] = r
    return r


def _parse_dem(d):
    # find parameter list: the last top-level '(' ... ')'
    depth = 0
    end = None
    i = len(d) - 1
    s = d
    suffix = ''
    for suf in (' const', ' &', ' &&'):
        if s.endswith(suf):
            s = s[:-len(suf)]
    if not s.endswith(')'):
        return None
    depth = 0
    for j in range(len(s) - 1, -1, -1):
        if s[j] == ')':
            depth += 1
        elif s[j] == '(':
            depth -= 1
            if depth == 0:
                params = s[j + 1:-1]
                head = s[:j]
                break
    # operator() special
    if head.endswith('operator'):
        head += '()'
    # strip return type: split head at top-level spaces
    depth = 0
    last = 0
    k = 0
    ophit = head.find('operator')
    while k < len(head):
        if ophit >= 0 and k >= ophit:
            break
        ch = head[k]
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        elif ch == ' ' and depth == 0:
            last = k + 1
        k += 1
    head = head[last:]
    # class part / method part
    depth = 0
    pos = None
    k = 0
    stop = head.find('operator') if 'operator' in head else len(head)
    # for operators like operator< avoid angle parsing
    while k < stop:
        ch = head[k]
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        elif ch == ':' and depth == 0 and head[k:k + 2] == '::':
            pos = k
            k += 1
        k += 1
    if pos is None:
        cls, meth = '', head
    else:
        cls, meth = head[:pos], head[pos + 2:]
    mt = None
    if not meth.startswith('operator'):
        a = meth.find('<')
        if a > 0:
            mt = split_targs(meth[a + 1:-1])
            meth = meth[:a]
    ct = None
    c = cls
    if cls.endswith('>'):
        a = 0
        # find the '<' that matches the final '>'
        depth = 0
        for j in range(len(cls) - 1, -1, -1):
            if cls[j] == '>':
                depth += 1
            elif cls[j] == '<':
                depth -= 1
                if depth == 0:
                    ct = split_targs(cls[j + 1:-1])
                    c = cls[:j]
                    break
    return c, ct, meth, mt, params


class Executor(object):
    def __init__(self, prog, config=None):
        self.p = prog
        self.config = config or {}
        self.recurrences = False
        self.obls = []
        self.monos = {}
        self.facts = []            # globally valid facts
        self.factset = set()
        self.nloc = 0
        self.regionkind = {}
        self.shadow = {}
        self.depth = 0
        self.stack = []
        self.decider = smt.Decider(self.facts)
        self.replace = self.config.get('replace', {})   # demangled prefix -> contract function
        self.mode = []             # contract replace mode stack
        self.inlined = {}
        self.replaced = {}
        self.modelled = {}
        self.quiet = 0             # >0: do not record obligations
        self.pure = 0
        self.notes = {}
        self.steps = 0
        self.maxsteps = self.config.get('maxsteps', 4000000)
        self.trace = None
        self.readlog = None
        self.writelog = None
        self.loopinfo = {}
        self.covered = []
        self.undefs = 0
        self.assumed = []
        self.reach = []
        self.inlemma = None
        self.inspec = None
        self.snapshots = {}
        self.lemmas = {}
        self.strongcache = {}
        self.frames = []
        import stl
        self.stl = stl.Stl(self)

    # ------------------------------------------------------------ helpers
    def fact(self, t):
        if t is not TRUE and t not in self.factset:
            self.factset.add(t)
            self.facts.append(t)

    def where(self):
        return ' < '.join(reversed(self.stack[-4:]))

    def oblige(self, kind, name, st, cond):
        if self.quiet or self.pure:
            return
        cond = self.simp(cond, st.pc)
        if st.pc is FALSE:
            return
        self.obls.append(Obl(kind, name, st.pc, cond, self.where()))

    def literals(self, pc):
        if pc.op == 'and':
            return set(pc.args)
        return {pc}

    def simp(self, c, pc, depth=3):
        """syntactic simplification of condition c under path condition pc"""
        if c is TRUE or c is FALSE or pc is TRUE:
            return c
        lits = self.literals(pc)
        return self._simp(c, lits, depth)

    def _simp(self, c, lits, depth):
        if c in lits:
            return TRUE
        n = tm.nnot(c)
        if n in lits:
            return FALSE
        if depth == 0:
            return c
        if c.op == 'and':
            return tm.aand(*[self._simp(x, lits, depth - 1) for x in c.args])
        if c.op == 'or':
            return tm.oor(*[self._simp(x, lits, depth - 1) for x in c.args])
        if c.op == 'not':
            return tm.nnot(self._simp(c.args[0], lits, depth - 1))
        if c.op == 'ite':
            g = self._simp(c.args[0], lits, depth - 1)
            if g is TRUE:
                return self._simp(c.args[1], lits, depth - 1)
            if g is FALSE:
                return self._simp(c.args[2], lits, depth - 1)
            return tm.ite(g, self._simp(c.args[1], lits, depth - 1), self._simp(c.args[2], lits, depth - 1))
        return c

    def simpval(self, v, pc):
        """drop ite branches decided by the path condition"""
        if pc is TRUE:
            return v
        if v.op == 'ite':
            lits = self.literals(pc)
            while v.op == 'ite':
                g = self._simp(v.args[0], lits, 2)
                if g is TRUE:
                    v = v.args[1]
                elif g is FALSE:
                    v = v.args[2]
                else:
                    break
        return v

    def feasible(self, pc):
        if pc is FALSE:
            return False
        if pc is TRUE:
            return True
        return self.decider.sat(pc)

    def entails(self, pc, c):
        c = self.simp(c, pc)
        if c is TRUE:
            return True
        if c is FALSE:
            return not self.feasible(pc)
        return not self.feasible(tm.aand(pc, tm.nnot(c)))

    def absval(self, v, st):
        """|v|, without the case distinction where the path decides the sign"""
        t = tm.fun('abs', v)
        if v.op in ('num', 'ite') or st.pc is TRUE:
            return t
        z = tm.num(0)
        if self.entails(st.pc, tm.le(z, v)):
            return v
        if self.entails(st.pc, tm.le(v, z)):
            return tm.neg(v)
        return t

    def newregion(self, kind):
        self.nloc += 1
        r = '%s%d' % (kind, self.nloc)
        self.regionkind[r] = kind
        return r

    # ------------------------------------------------------------ memory
    def initial(self, region, path, depth, sort, st):
        kind = self.regionkind.get(region, 'in')
        name = '%s%s' % (region, ''.join('.%s' % p for p in path))
        if kind in ('L', 'N'):
            # never written: indeterminate
            self.undefs += 1
            return tm.sym('undef.%s' % name, arrsort(depth, sort))
        t = tm.sym('in.%s:%s' % (name, sort), arrsort(depth, sort))
        if sort == I and depth == 0 and path and path[-1] == 'len':
            self.fact(tm.le(tm.num(0, I), t))
        return t

    def readcell(self, st, region, path, depth, sort):
        key = (region, path)
        if region == 'heap':
            key = (region, path, sort)
        v = st.mem.get(key)
        if self.readlog is not None and key not in self.readlog:
            self.readlog[key] = (depth, sort)
        if v is not None:
            s = v.sort
            for _ in range(depth):
                s = s[1]
            if s != sort:
                raise Unsupported('type punning read %s%s as %s (has %s) in %s' % (region, path, sort, v.sort, self.where()))
            return v
        sh = self.shadow.get(region)
        if sh:
            for (pre, lo, hi, src) in reversed(sh):
                d = len(pre)
                if path[:d] == pre and isinstance(path[d], int) and lo <= path[d] < hi:
                    (sr, sp, si, soff) = src
                    npath = sp + (path[d] - lo + soff,) + path[d + 1:]
                    nd = depth + len(si)
                    base = self.readcell(st, sr, npath, nd, sort)
                    for i in si:
                        base = tm.select(base, i)
                    return base
        if region.startswith('@'):
            g = self.globalcell(region, path, sort)
            if g is not None:
                return g
        return self.initial(region, path, depth, sort, st)

    def globalcell(self, region, path, sort):
        name = region[1:]
        mod = None
        if '#' in name:
            mod, name = name.split('#', 1)
        g = self.p.globals.get((mod, name)) if mod else None
        if g is None:
            x = self.p.globals.get(name)
            if x is None:
                return None
            m, g = x
        else:
            m = [mm for mm in self.p.modules if mm.name == mod][0]
        cache = self.p.bodies.get(('g', m.name, name))
        if cache is None:
            cache = {}
            toks = irparse.tokenize(re.sub(r'\bcomdat\b.*$', '', g) if '"' not in g else g)
            ts = irparse.TS(toks)
            while ts.peek() not in ('constant', 'global'):
                if ts.peek() is None:
                    return None
                ts.next()
            isconst = ts.next() == 'constant'
            ty = irparse.parse_type(ts)
            try:
                v = irparse.parse_value(ts, ty)
            except Exception:
                v = None
            if v is not None and isconst:
                self._ginit(m, ty, v, 0, cache)
            self.p.bodies[('g', m.name, name)] = cache
        v = cache.get(path[-1] if len(path) == 1 else None)
        return v

    def _ginit(self, m, ty, v, off, cache):
        L = self.p.layout
        if v[0] == 'agg':
            if ty[0] == 'arr':
                s, a = L.size_align(m, ty[2])
                for k, (et, ev) in enumerate(v[1]):
                    self._ginit(m, et, ev, off + k * s, cache)
            else:
                offs, sz, al = L.fields(m, ty)
                for o, (et, ev) in zip(offs, v[1]):
                    self._ginit(m, et, ev, off + o, cache)
        elif v[0] == 'cstr':
            cache['str'] = v[1]
            for k, c in enumerate(v[1]):
                cache[off + k] = tm.num(c, I)
        elif v[0] == 'zero':
            for o, st in L.scalars(m, ty, off):
                cache[o] = self.zero(st)
        else:
            cache[off] = self.constval(m, v, ty)

    def zero(self, ty):
        s = tsort(ty)
        return {R: tm.num(0), I: tm.num(0, I), P: NULL, B: FALSE}[s]

    def writecell(self, st, region, path, depth, sort, v):
        key = (region, path)
        if region == 'heap':
            key = (region, path, sort)
        if self.writelog is not None and key not in self.writelog:
            self.writelog[key] = (depth, sort)
        st.mem[key] = v

    def targets(self, st, ptr, what):
        """alternatives of a pointer: [(guard, region, path, idx)]; null is an obligation"""
        ptr = self.simpval(ptr, st.pc)
        out = []
        nulls = []

        def go(p, g):
            if g is FALSE:
                return
            if p.op == 'ite':
                c = self.simp(p.args[0], tm.aand(st.pc, g))
                go(p.args[1], tm.aand(g, c))
                go(p.args[2], tm.aand(g, tm.nnot(c)))
            elif p.op == 'addr':
                out.append((g, p.args[0], p.args[1], p.args[2]))
            elif p.op == 'null':
                nulls.append(g)
            elif p.op == 'sym' and p.args[0].startswith('undef.'):
                nulls.append(g)
            elif p.op in ('sym', 'select', 'uf'):
                nulls.append(tm.aand(g, tm.eq(p, NULL)))
                out.append((g, 'heap', ('E', 0), (p,)))
            else:
                raise Unsupported('pointer %s' % tm.show(p, 4))
        go(ptr, TRUE)
        if len(out) + len(nulls) > 1:
            keep = [t for t in out if self.feasible(tm.aand(st.pc, t[0]))]
            out = keep
        if nulls:
            bad = tm.oor(*nulls)
            if not self.entails(st.pc, tm.nnot(bad)):
                self.oblige('safety', 'non-null pointer (%s)' % what, st, tm.nnot(bad))
                st.pc = tm.aand(st.pc, tm.nnot(bad))
        if not out:
            st.pc = FALSE
        return out

    def load(self, st, ptr, ty):
        if isinstance(ty, tuple) and ty[0] in ('lit', 's', 'arr'):
            raise Unsupported('aggregate load')
        sort = tsort(ty)
        if sort == B:
            sort = I
        alts = self.targets(st, ptr, 'load')
        if not alts:
            return self.anyval(sort)
        r = None
        for (g, region, path, idx) in reversed(alts):
            v = self.readcell(st, region, path, len(idx), sort)
            for i in idx:
                v = tm.select(v, i)
            v = self.simpval(v, st.pc)
            r = v if r is None else tm.ite(g, v, r)
        if ty == ('i', 1):
            return tm.nnot(tm.eq0(r))
        return r

    def loadagg(self, m, st, p, ty):
        t = ty
        while t[0] == 's':
            t = self.p.layout.resolve(m, t[1])
        offs, sz, al = self.p.layout.fields(m, t)
        out = []
        for o, et in zip(offs, t[1]):
            if isinstance(et, tuple) and et[0] in ('lit', 's'):
                out.append(self.loadagg(m, st, self.gepoff(p, o), et))
            else:
                out.append(self.load(st, self.gepoff(p, o), et))
        return tuple(out)

    def anyval(self, sort):
        return {R: tm.num(0), I: tm.num(0, I), P: NULL, B: FALSE}[sort]

    def store(self, st, ptr, v, ty):
        sort = v.sort
        if sort == B:
            v = tm.ite(v, tm.num(1, I), tm.num(0, I))
            sort = I
        alts = self.targets(st, ptr, 'store')
        for (g, region, path, idx) in alts:
            self.write(st, region, path, idx, sort, v, g if len(alts) > 1 else TRUE)

    def write(self, st, region, path, idx, sort, v, g=TRUE):
        """sort: sort of v"""
        if not idx:
            if g is TRUE:
                self.writecell(st, region, path, 0, sort, v)
            else:
                old = self.readcell(st, region, path, 0, sort)
                self.writecell(st, region, path, 0, sort, tm.ite(g, v, old))
            return
        base = self.readcell(st, region, path, len(idx), sort)

        def put(arr, k):
            if k == len(idx):
                return v if g is TRUE else tm.ite(g, v, arr)
            return tm.store(arr, idx[k], put(tm.select(arr, idx[k]), k + 1))
        self.writecell(st, region, path, len(idx), sort, put(base, 0))

    def gepoff(self, p, off):
        """pointer plus constant byte offset"""
        if off == 0:
            return p
        if p.op == 'ite':
            return tm.ite(p.args[0], self.gepoff(p.args[1], off), self.gepoff(p.args[2], off))
        if p.op == 'addr':
            path = p.args[1]
            if path and isinstance(path[-1], int):
                path = path[:-1] + (path[-1] + off,)
            else:
                path = path + (off,)
            return tm.addr(p.args[0], path, p.args[2])
        if p.op in ('sym', 'select', 'uf'):
            return tm.addr('heap', ('E', off), (p,))
        if p.op == 'null':
            return NULL
        raise Unsupported('gep on %s' % tm.show(p, 4))

    # typed object access --------------------------------------------------
    def leaves(self, tyname):
        """[(subpath, sort)] of a C++ type name; containers as ('len',) etc."""
        key = ('leaves', tyname)
        r = self.p.bodies.get(key)
        if r is None:
            r = self._leaves(tyname.strip(), 0)
            self.p.bodies[key] = r
        return r

    def _leaves(self, t, off):
        t = t.strip()
        t = re.sub(r'^const\s+', '', t)
        t = re.sub(r'\s+const$', '', t)
        if t.endswith('*') or t.endswith('&'):
            return [((off,), P)]
        if t in ('double', 'float'):
            return [((off,), R)]
        if t in ('bool', 'char', 'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned char', 'long long',
                 'size_t', 'unsigned short', 'signed char'):
            return [((off,), I)]
        if t == 'vptr':
            return [((off,), P)]
        if 'basic_string<' in t and t.startswith('std::'):
            return [((off, 'str'), I)]
        m = re.match(r'(std::vector|std::__cxx11::list|std::list)<(.*)>$', t)
        if m:
            el = split_targs(m.group(2))[0]
            out = [((off, 'len'), I)]
            for sp, s in self._leaves(el, 0):
                out.append(((off, 'E') + sp, s))
            return out
        mem = self.p.di.members(t)
        if mem is None:
            raise Unsupported('layout of %s' % t)
        k = self.p.di.kind(t)
        if k and 'enumeration' in k:
            return [((off,), I)]
        out = []
        for o, n, ft in mem:
            out += self._leaves(ft, off + o)
        return out

    def depthof(self, subpath):
        return sum(1 for x in subpath if x == 'E')

    def joinpath(self, path, sub):
        """path ends in an int offset; sub starts with an int offset"""
        if path and isinstance(path[-1], int):
            return path[:-1] + (path[-1] + sub[0],) + sub[1:]
        return path + sub

    def read_leaf(self, st, loc, sub, sort):
        """value (possibly array) of leaf `sub` of the object at loc=(region,path,idx)"""
        region, path, idx = loc
        p = self.joinpath(path, sub)
        v = self.readcell(st, region, p, len(idx) + self.depthof(sub), sort)
        for i in idx:
            v = tm.select(v, i)
        return self.simpval(v, st.pc)

    def write_leaf(self, st, loc, sub, sort, v, g=TRUE):
        region, path, idx = loc
        p = self.joinpath(path, sub)
        d = self.depthof(sub)
        if not idx:
            if g is not TRUE:
                v = tm.ite(g, v, self.readcell(st, region, p, d, sort))
            self.writecell(st, region, p, d, sort, v)
            return
        base = self.readcell(st, region, p, len(idx) + d, sort)

        def put(arr, k):
            if k == len(idx):
                return v if g is TRUE else tm.ite(g, v, arr)
            return tm.store(arr, idx[k], put(tm.select(arr, idx[k]), k + 1))
        self.writecell(st, region, p, len(idx) + d, sort, put(base, 0))

    def copy_typed(self, st, dst, src, tyname):
        """dst, src: locations (single alternative)"""
        vals = []
        for sub, s in self.leaves(tyname):
            vals.append((sub, s, self.read_leaf(st, src, sub, s)))
        for sub, s, v in vals:
            self.write_leaf(st, dst, sub, s, v)

    def read_obj(self, st, ptr, tyname, what='read'):
        """{subpath: value} merged over pointer alternatives"""
        alts = self.targets(st, ptr, what)
        res = {}
        for sub, s in self.leaves(tyname):
            r = None
            for (g, region, path, idx) in reversed(alts):
                v = self.read_leaf(st, (region, path, idx), sub, s)
                r = v if r is None else tm.ite(g, v, r)
            res[sub] = (s, r)
        return res if alts else None

    def write_obj(self, st, ptr, vals, what='write'):
        if vals is None:
            return
        alts = self.targets(st, ptr, what)
        for (g, region, path, idx) in alts:
            for sub, (s, v) in vals.items():
                self.write_leaf(st, (region, path, idx), sub, s, v, g if len(alts) > 1 else TRUE)

    def make_symbolic(self, st, region, tyname, prefix=None):
        for sub, s in self.leaves(tyname):
            d = self.depthof(sub)
            name = 'in.%s%s:%s' % (region, ''.join('.%s' % x for x in sub), s)
            v = tm.sym(name, arrsort(d, s))
            if sub[-1] == 'len' and d == 0:
                self.fact(tm.le(tm.num(0, I), v))
            if s == I and d == 0 and self.isbool(tyname, sub):
                b = tm.sym(name + 'b', B)
                v = tm.ite(b, tm.num(1, I), tm.num(0, I))
            st.mem[(region, sub)] = v

    def isbool(self, tyname, sub):
        if tyname == 'bool':
            return True
        if len(sub) != 1:
            return False
        return self._fieldtype(tyname, sub[0]) == 'bool'

    def _fieldtype(self, t, off):
        mem = self.p.di.members(t)
        if mem is None:
            return t if off == 0 else None
        best = None
        for o, n, ft in mem:
            if o <= off and (best is None or o > best[0] or (o == best[0])):
                best = (o, ft)
        if best is None:
            return None
        if best[1] in ('bool', 'double', 'int', 'char') or best[1].endswith('*'):
            return best[1] if best[0] == off else None
        return self._fieldtype(best[1], off - best[0])

    # memcpy ----------------------------------------------------------------
    def memcpy(self, st, dst, src, n):
        sa = self.targets(st, src, 'memcpy source')
        da = self.targets(st, dst, 'memcpy target')
        if len(sa) > 1 or len(da) > 1:
            # merge alternatives cell by cell: collect all sub offsets
            vals = {}
            for (g, r, p, ix) in sa:
                for sub, s, v in self.cells_in(st, r, p, ix, n):
                    vals.setdefault(sub, []).append((g, r, p, ix, s))
            for sub, lst in vals.items():
                s = lst[0][4]
                r = None
                for (g, rr, pp, ii) in reversed(sa):
                    v = self.read_leaf(st, (rr, pp, ii), sub, s)
                    r = v if r is None else tm.ite(g, v, r)
                for (g, rr, pp, ii) in da:
                    self.write_leaf(st, (rr, pp, ii), sub, s, r, g if len(da) > 1 else TRUE)
            return
        if not sa or not da:
            return
        (_, sr, sp, si), (_, dr, dp, di_) = sa[0], da[0]
        cells = list(self.cells_in(st, sr, sp, si, n))
        # remove previous cells of destination if depth 0
        if not di_:
            pre, lo = dp[:-1], dp[-1]
            for key in [k for k in st.mem if k[0] == dr and len(k[1]) > len(pre) and k[1][:len(pre)] == pre
                        and isinstance(k[1][len(pre)], int) and lo <= k[1][len(pre)] < lo + n]:
                del st.mem[key]
            if self.regionkind.get(sr, 'in') not in ('L', 'N') or self.shadow.get(sr):
                self.shadow.setdefault(dr, []).append((pre, lo, lo + n, (sr, sp[:-1], si, sp[-1])))
        for sub, s, v in cells:
            self.write_leaf(st, (dr, dp, di_), sub, s, v)

    def cells_in(self, st, region, path, idx, n):
        pre, lo = path[:-1], path[-1]
        d = len(pre)
        for key in list(st.mem):
            if key[0] == region and len(key[1]) > d and key[1][:d] == pre and isinstance(key[1][d], int) \
                    and lo <= key[1][d] < lo + n:
                sub = (key[1][d] - lo,) + key[1][d + 1:]
                s = st.mem[key].sort
                for _ in range(len(idx) + self.depthof(sub)):
                    s = s[1]
                yield sub, s, self.read_leaf(st, (region, path, idx), sub, s)

    # ------------------------------------------------------------ merging
    def merge(self, states):
        """merge [(state)] with mutually exclusive path conditions"""
        states = [s for s in states if s.pc is not FALSE]
        if not states:
            return None, None
        if len(states) == 1:
            return states[0], [TRUE]
        pcs = [s.pc for s in states]
        sets = [self.literals(p) for p in pcs]
        common = set.intersection(*sets)
        rest = [tm.aand(*[x for x in s if x not in common]) for s in sets]
        pc = tm.oor(*pcs)
        keys = {}
        for s in states:
            keys.update(s.mem)
        mem = {}
        first = states[0].mem
        for k in keys:
            v0 = first.get(k)
            same = v0 is not None
            if same:
                for s in states[1:]:
                    if s.mem.get(k) is not v0:
                        same = False
                        break
            if same:
                mem[k] = v0
                continue
            vals = [(rest[i], s.mem.get(k)) for i, s in enumerate(states)]
            known = [v for g, v in vals if v is not None]
            if len(known) < len(vals):
                # cell not materialised in some branch: use its initial value there
                region, path = k[0], k[1]
                kind = self.regionkind.get(region, 'in')
                if kind in ('L', 'N'):
                    if path and path[-1] == 'len' or (kind == 'N') or self.shadow.get(region):
                        pass
                    vals = [(g, v) for g, v in vals if v is not None]
                    if not self.shadow.get(region):
                        r = vals[-1][1]
                        for g, v in reversed(vals[:-1]):
                            r = tm.ite(g, v, r)
                        mem[k] = r
                        continue
                    vals = [(rest[i], s.mem.get(k)) for i, s in enumerate(states)]
                s = known[0].sort
                depth = sum(1 for x in path if x == 'E')
                es = s
                for _ in range(depth):
                    es = es[1]
                vals = []
                for i, stt in enumerate(states):
                    v = stt.mem.get(k)
                    if v is None:
                        save = self.readlog
                        self.readlog = None
                        v = self.readcell(stt, region, path, depth, es)
                        self.readlog = save
                    vals.append((rest[i], v))
            r = vals[-1][1]
            for g, v in reversed(vals[:-1]):
                r = tm.ite(g, v, r)
            mem[k] = r
        return State(mem, pc), rest

    # ------------------------------------------------------------ functions
    def cfg(self, f):
        if f._cfg is not None:
            return f._cfg
        irparse.ensure_parsed(f)
        succ = {}
        for b in f.order:
            insts = f.blocks[b]
            t = insts[-1] if insts else None
            if t is None:
                succ[b] = []
            elif t.op == 'br':
                succ[b] = list(t.a[1:])
            elif t.op == 'switch':
                succ[b] = [t.a[1]] + [x[1] for x in t.a[2]]
            else:
                succ[b] = []
        # reverse postorder
        order, seen = [], set()
        entry = f.order[0]
        stack = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        # dominators
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while rpo[x] > rpo[y]:
                                    x = idom[x]
                                while rpo[y] > rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        f._cfg = (succ, rpo, preds, loops, order)
        return f._cfg

    def call_function(self, f, args, st):
        """inline execution; args: list of terms; returns (value, state)"""
        irparse.ensure_parsed(f)
        if len(self.stack) > 60:
            raise Unsupported('recursion too deep: %s' % f.name)
        dem = self.p.demangle(f.name)
        short = dem.split('(')[0]
        self.stack.append(short)
        self.inlined[dem] = self.inlined.get(dem, 0) + 1
        regs = {}
        for (ty, nm, at), v in zip(f.params, args):
            regs[nm] = v
        frame = {'f': f, 'regs': regs, 'locals': [], 'rets': []}
        self.frames.append(frame)
        try:
            entry = f.order[0]
            exits = self.run_region(f, frame, entry, [(st, None)], None)
            rets = frame['rets']
            out, guards = self.merge([s for s, v in rets])
            if out is None:
                st2 = State(st.mem, FALSE)
                return None, st2
            vals = [v for s, v in rets if s.pc is not FALSE]
            val = None
            if vals and vals[0] is not None:
                val = self.mergevals(guards, vals)
            # drop dead locals
            dead = set(frame['locals'])
            if dead and not self.config.get('keep_locals'):
                for k in [k for k in out.mem if k[0] in dead]:
                    del out.mem[k]
            return val, out
        finally:
            self.stack.pop()
            self.frames.pop()

    def mergevals(self, guards, vals):
        r = vals[-1]
        for g, v in reversed(list(zip(guards[:-1], vals[:-1]))):
            if isinstance(v, tuple):
                r = tuple(self.mergevals([g, TRUE], [x, y]) for x, y in zip(v, r))
            else:
                r = tm.ite(g, v, r)
        return r

    def run_region(self, f, frame, entry, incoming, blocks):
        """execute from `entry`; blocks: set restricting the region (loop body) or None.
        Returns exits: list of (target, state, from) for edges leaving `blocks` or
        going back to `entry` (when blocks is given)."""
        succ, rpo, preds, loops, order = self.cfg(f)
        pending = {entry: list(incoming)}
        exits = []
        first = True
        while pending:
            b = min(pending, key=lambda x: rpo[x])
            inc = pending.pop(b)
            if b in loops and not (first and blocks is not None and b == entry):
                import loops as lp
                outs = lp.run_loop(self, f, frame, b, loops[b], inc)
                first = False
                for (t, s, fr) in outs:
                    if s.pc is FALSE:
                        continue
                    if blocks is not None and (t not in blocks or t == entry):
                        exits.append((t, s, fr))
                    else:
                        pending.setdefault(t, []).append((s, fr))
                continue
            first = False
            for (t, s, fr) in self.run_block(f, frame, b, inc):
                if s.pc is FALSE:
                    continue
                if blocks is not None and (t not in blocks or t == entry):
                    exits.append((t, s, fr))
                else:
                    pending.setdefault(t, []).append((s, fr))
        return exits

    def run_block(self, f, frame, label, incoming):
        regs = frame['regs']
        insts = f.blocks[label]
        k = 0
        states = [s for s, fr in incoming]
        live = [(s, fr) for s, fr in incoming if s.pc is not FALSE]
        if not live:
            return []
        phis = []
        while k < len(insts) and insts[k].op == 'phi':
            phis.append(insts[k])
            k += 1
        if phis:
            newv = []
            for ph in phis:
                vs = []
                for s, fr in live:
                    v = None
                    for (val, lab) in ph.a:
                        if lab == fr:
                            v = self.value(f, regs, val, ph.ty)
                            break
                    vs.append(v)
                newv.append(vs)
            st, guards = self.merge([s for s, fr in live])
            for ph, vs in zip(phis, newv):
                regs[ph.res] = self.mergevals(guards, vs)
        else:
            st, guards = self.merge([s for s, fr in live])
        if len(live) == 1:
            pass
        return self.run_insts(f, frame, label, k, st)

    def value(self, f, regs, v, ty):
        k = v[0]
        if k == 'l':
            try:
                return regs[v[1]]
            except KeyError:
                raise Unsupported('register %s undefined in %s' % (v[1], f.name))
        return self.constval(f.module, v, ty)

    def constval(self, m, v, ty):
        k = v[0]
        if k == 'c':
            s = tsort(ty)
            if s == B:
                return tm.boolc(v[1])
            n = v[1]
            return tm.num(n, I)
        if k == 'f':
            return tm.literal(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            if isinstance(ty, tuple) and ty[0] in ('lit', 's', 'arr'):
                t = ty
                while t[0] == 's':
                    t = self.p.layout.resolve(m, t[1])
                if t[0] == 'arr':
                    return tuple(self.constval(m, v, t[2]) for _ in range(t[1]))
                return tuple(self.constval(m, v, e) for e in t[1])
            return tm.sym('undef.const:%s' % (tsort(ty),), tsort(ty))
        if k == 'g':
            return self.gaddr(m, v[1])
        if k == 'gep':
            base = self.constval(m, v[2], 'ptr')
            return self.gep(m, v[1], base, [(t, self.constval(m, x, t)) for t, x in v[3]])
        if k == 'zero':
            if isinstance(ty, tuple) and ty[0] in ('lit', 's'):
                t = ty
                while t[0] == 's':
                    t = self.p.layout.resolve(m, t[1])
                return tuple(self.constval(m, v, e) for e in t[1])
            return self.zero(ty)
        if k == 'agg':
            return tuple(self.constval(m, x, t) for t, x in v[1])
        raise Unsupported('constant %r' % (v,))

    def gaddr(self, m, name):
        name = self.p.aliases.get(name, name)
        if name in self.p.funcs or name.startswith('_ZN') and (m.name, name) not in self.p.globals:
            return tm.addr('@' + name, (0,))
        g = self.p.globals.get((m.name, name))
        if g is not None and re.match(r'(private|internal)\b', g):
            return tm.addr('@%s#%s' % (m.name, name), (0,))
        return tm.addr('@' + name, (0,))

    def gep(self, m, sty, base, idx):
        L = self.p.layout
        off = 0
        t = sty
        symb = None
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                size, al = L.size_align(m, t)
            else:
                if t[0] == 's':
                    t = L.resolve(m, t[1])
                if t[0] == 'lit':
                    offs, sz, al = L.fields(m, t)
                    c = tm.numval(iv)
                    off += offs[c]
                    t = t[1][c]
                    continue
                t = t[2]
                size, al = L.size_align(m, t)
            if not tm.is_num(iv):
                raise Unsupported('symbolic pointer arithmetic in %s' % self.where())
            off += tm.numval(iv) * size
        return self.gepoff(base, off)

    def run_insts(self, f, frame, label, k, st):
        regs = frame['regs']
        insts = f.blocks[label]
        m = f.module
        val = lambda v, ty: self.value(f, regs, v, ty)
        while k < len(insts):
            i = insts[k]
            k += 1
            op = i.op
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Budget('step budget exhausted in %s' % self.where())
            if st.pc is FALSE:
                return []
            if op == 'alloca':
                r = self.newregion('L')
                frame['locals'].append(r)
                regs[i.res] = tm.addr(r, (0,))
            elif op == 'load':
                if isinstance(i.ty, tuple) and i.ty[0] in ('lit', 's'):
                    p = val(i.a, 'ptr')
                    regs[i.res] = self.loadagg(m, st, p, i.ty)
                else:
                    regs[i.res] = self.load(st, val(i.a, 'ptr'), i.ty)
            elif op == 'store':
                v = val(i.a[0], i.ty)
                p = val(i.a[1], 'ptr')
                if isinstance(v, tuple):
                    t = i.ty
                    offs, sz, al = self.p.layout.fields(m, t)
                    for o, x in zip(offs, v):
                        if isinstance(x, tuple):
                            raise Unsupported('nested aggregate store')
                        self.store(st, self.gepoff(p, o), x, None)
                else:
                    self.store(st, p, v, i.ty)
            elif op == 'getelementptr':
                sty, b, idx = i.a
                regs[i.res] = self.gep(m, sty, val(b, 'ptr'), [(t, val(x, t)) for t, x in idx])
            elif op == 'call':
                r, st = self.do_call(f, regs, i, st)
                if i.res is not None:
                    regs[i.res] = r
            elif op in irparse.BIN:
                regs[i.res] = self.binop(i, val(i.a[0], i.ty), val(i.a[1], i.ty), st)
            elif op == 'fneg':
                regs[i.res] = tm.neg(val(i.a, i.ty))
            elif op == 'icmp':
                regs[i.res] = self.icmp(i.a[0], val(i.a[1], i.ty), val(i.a[2], i.ty), i.ty)
            elif op == 'fcmp':
                regs[i.res] = self.fcmp(i.a[0], val(i.a[1], i.ty), val(i.a[2], i.ty))
            elif op in irparse.CAST:
                regs[i.res] = self.cast(op, i.a[0], val(i.a[1], i.a[0]), i.ty)
            elif op == 'select':
                regs[i.res] = tm.ite(self.simp(val(i.a[0], ('i', 1)), st.pc), val(i.a[1], i.ty), val(i.a[2], i.ty))
            elif op == 'freeze':
                regs[i.res] = val(i.a, i.ty)
            elif op == 'extractvalue':
                v = val(i.a[0], i.ty)
                for x in i.a[1]:
                    v = v[x]
                regs[i.res] = v
            elif op == 'insertvalue':
                v = list(val(i.a[0], i.ty))
                if len(i.a[3]) != 1:
                    raise Unsupported('insertvalue')
                v[i.a[3][0]] = val(i.a[2], i.a[1])
                regs[i.res] = tuple(v)
            elif op == 'br':
                if i.a[0] is None:
                    return [(i.a[1], st, label)]
                c = self.simp(val(i.a[0], ('i', 1)), st.pc)
                return self.branch(st, label, c, i.a[1], i.a[2])
            elif op == 'switch':
                v = val(i.a[0], i.ty)
                out = []
                rest = st.pc
                bytarget = {}
                for n, t in i.a[2]:
                    c = tm.eq(v, tm.num(n, I))
                    bytarget.setdefault(t, []).append(c)
                other = TRUE
                for t, cs in bytarget.items():
                    c = self.simp(tm.oor(*cs), st.pc)
                    pc = tm.aand(st.pc, c)
                    other = tm.aand(other, tm.nnot(c))
                    if self.feasible(pc):
                        out.append((t, State(dict(st.mem), pc), label))
                pc = tm.aand(st.pc, other)
                if self.feasible(pc):
                    out.append((i.a[1], State(dict(st.mem), pc), label))
                return out
            elif op == 'ret':
                v = None if i.a is None else val(i.a, i.ty)
                frame['rets'].append((st, v))
                return []
            elif op == 'unreachable':
                return []
            else:
                raise Unsupported('instruction %s' % (i.a if op == 'unsupported' else op))
        return []

    def open_comparison(self, pc, c):
        """compares real quantities one of which the path does not mention yet (both ways are taken as possible)"""
        d = c.args[0] if c.op == 'not' else c
        if d.op not in ('le0', 'lt0', 'eq0') or d.args[0].sort != tm.R:
            return False
        vs = self.monomials(d)
        if len(vs) < 2:
            return False
        seen = set()
        for x in (pc.args if pc.op == 'and' else (pc,)):
            seen |= self.monomials(x)
        return any(v.op in ('uf', 'fun', 'select', 'ite') and v not in seen for v in vs)

    def monomials(self, c):
        r = self.monos.get(c)
        if r is None:
            r, work, done = set(), [c], set()
            while work:
                x = work.pop()
                if x in done:
                    continue
                done.add(x)
                if x.op in ('le0', 'lt0', 'eq0'):
                    for m in tm.to_poly(x.args[0]):
                        for f in m:
                            r.add(f[0] if isinstance(f, tuple) else f)
                elif x.op in ('and', 'or', 'not'):
                    work += x.args
            self.monos[c] = r
        return r

    def branch(self, st, label, c, t, e):
        if c is TRUE:
            return [(t, st, label)]
        if c is FALSE:
            return [(e, st, label)]
        pt, pe = tm.aand(st.pc, c), tm.aand(st.pc, tm.nnot(c))
        if pt is not FALSE and pe is not FALSE and self.open_comparison(st.pc, c):
            ft = fe = True
        else:
            ft, fe = self.feasible(pt), self.feasible(pe)
        if ft and not fe:
            st.pc = pt
            return [(t, st, label)]
        if fe and not ft:
            st.pc = pe
            return [(e, st, label)]
        if not ft and not fe:
            st.pc = FALSE
            return []
        return [(t, State(dict(st.mem), pt), label), (e, State(st.mem, pe), label)]

    # ------------------------------------------------------------ operators
    def binop(self, i, a, b, st):
        op = i.op
        if op == 'fadd':
            return tm.add(a, b)
        if op == 'fsub':
            return tm.sub(a, b)
        if op == 'fmul':
            return tm.mul(a, b)
        if op == 'fdiv':
            return self.realdiv(a, b, st)
        if a.sort == B:
            if op == 'xor':
                return tm.nnot(tm.iff(a, b))
            if op == 'and':
                return tm.aand(a, b)
            if op == 'or':
                return tm.oor(a, b)
            raise Unsupported('bool op ' + op)
        if op == 'add':
            return tm.add(a, b)
        if op == 'sub':
            r = tm.sub(a, b)
            if not i.a[2].get('nsw'):
                # unsigned subtraction wraps
                c = self.simp(tm.le(b, a), st.pc)
                if c is TRUE or self.entails(st.pc, c):
                    return r
                return tm.ite(c, r, tm.add(r, tm.num(2 ** i.ty[1], I)))
            return r
        if op == 'mul':
            return tm.mul(a, b)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            return tm.intdiv(op, a, b)
        if op == 'shl' and tm.is_num(b):
            return tm.scale(a, 2 ** tm.numval(b))
        if op in ('ashr', 'lshr') and tm.is_num(a) and tm.is_num(b):
            return tm.num(tm.numval(a) >> tm.numval(b), I)
        if op == 'and' and tm.is_num(a) and tm.is_num(b):
            return tm.num(tm.numval(a) & tm.numval(b), I)
        if op in ('and', 'or', 'xor') and tm._numtree(a) and tm.is_num(b) and a.op == 'ite':
            return tm.ite(a.args[0], self.binop(i, a.args[1], b, st), self.binop(i, a.args[2], b, st))
        if op in ('and', 'or') and a.op == 'ite' and b.op == 'ite' and tm._numtree(a) and tm._numtree(b):
            # 0/1 valued
            ca, cb = tm.nnot(tm.eq0(a)), tm.nnot(tm.eq0(b))
            f = tm.aand if op == 'and' else tm.oor
            return tm.ite(f(ca, cb), tm.num(1, I), tm.num(0, I))
        raise Unsupported('integer op %s in %s' % (op, self.where()))

    def realdiv(self, a, b, st):
        if tm.is_num(b):
            return tm.fdiv(a, b, True)
        nz = tm.nnot(tm.eq0(b))
        ok = self.nonzero(b) or 0 not in tm.Signs(self.literals(st.pc)).of(b) or self.entails(st.pc, nz) \
            or self.entails_strong(st.pc, nz)
        return tm.fdiv(a, b, ok)

    def entails_strong(self, pc, c):
        """with the axioms of the real functions"""
        key = (pc, c)
        r = self.strongcache.get(key)
        if r is None:
            import prove
            pr = prove.Prover(self.facts, 3.0)
            pr.deadline = __import__('time').time() + 3
            hyps = [h for h in (pc.args if pc.op == 'and' else (pc,)) if h.op != 'forall']
            try:
                r = pr.z3check(hyps, c, lin=False, timeout=700, fas=None)
            except prove.Timeout:
                r = False
            self.strongcache[key] = r
        return r

    def nonzero(self, b):
        """syntactic: products of cosh/exp/PI"""
        if b.op in ('cosh', 'exp') or b is tm.PI:
            return True
        if b.op == 'poly' and len(b.args) == 1:
            return all(a.op in ('cosh', 'exp') or a is tm.PI for a, e in b.args[0][0])
        return False

    def icmp(self, pred, a, b, ty):
        if a.sort == B:
            r = tm.iff(a, b)
            return r if pred == 'eq' else tm.nnot(r)
        if a.sort == P or b.sort == P:
            r = tm.eq(a, b)
            if pred == 'eq':
                return r
            if pred == 'ne':
                return tm.nnot(r)
            raise Unsupported('pointer order')
        if pred == 'eq':
            return tm.eq(a, b)
        if pred == 'ne':
            return tm.nnot(tm.eq(a, b))
        if pred[0] == 'u':
            # negative literals denote large unsigned values
            fix = lambda x: tm.num(tm.numval(x) % 2 ** ty[1], I) if tm.is_num(x) else x
            a, b = fix(a), fix(b)
        return {'lt': tm.lt, 'le': tm.le, 'gt': tm.gt, 'ge': tm.ge}[pred[1:]](a, b)

    def fcmp(self, pred, a, b):
        p = pred[1:]
        if pred in ('true', 'false'):
            return tm.boolc(pred == 'true')
        if pred == 'uno':
            return FALSE
        if pred == 'ord':
            return TRUE
        return {'eq': tm.eq, 'ne': lambda x, y: tm.nnot(tm.eq(x, y)), 'lt': tm.lt, 'le': tm.le,
                'gt': tm.gt, 'ge': tm.ge}[p](a, b)

    def cast(self, op, fty, v, ty):
        if op == 'zext' or op == 'sext':
            if v.sort == B:
                one = tm.num(1 if op == 'zext' else -1, I)
                return tm.ite(v, one, tm.num(0, I))
            return v
        if op == 'trunc':
            if ty == ('i', 1):
                return tm.nnot(tm.eq0(v))
            if ty[1] >= 16:
                return tm.wrap(v, ty[1])
            if tm.is_num(v):
                n = ty[1]
                x = tm.numval(v) % 2 ** n
                if x >= 2 ** (n - 1):
                    x -= 2 ** n
                return tm.num(x, I)
            return v
        if op in ('sitofp', 'uitofp'):
            if v.sort == B:
                return tm.ite(v, tm.num(1), tm.num(0))
            return tm.toreal(v)
        if op in ('fptosi', 'fptoui'):
            return tm.trunc(v)
        if op in ('fpext', 'fptrunc', 'bitcast'):
            return v
        if op in ('ptrtoint', 'inttoptr'):
            return v
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ calls
    def do_call(self, f, regs, i, st):
        callee, args = i.a
        vals = [None if a[1] is None else self.value(f, regs, a[1], a[0]) for a in args]
        if callee[0] == 'g':
            name = self.p.aliases.get(callee[1], callee[1])
            return self.call_named(name, vals, st, i, f)
        # indirect call
        fp = self.simpval(self.value(f, regs, callee, 'ptr'), st.pc)
        alts = []

        def go(p, g):
            if p.op == 'ite':
                go(p.args[1], tm.aand(g, p.args[0]))
                go(p.args[2], tm.aand(g, tm.nnot(p.args[0])))
            elif p.op == 'addr' and p.args[0].startswith('@'):
                alts.append((g, p.args[0][1:]))
            else:
                raise Unsupported('indirect call through %s' % tm.show(p, 3))
        go(fp, TRUE)
        outs = []
        for g, name in alts:
            pc = tm.aand(st.pc, g)
            if len(alts) > 1 and not self.feasible(pc):
                continue
            s2 = State(dict(st.mem), pc)
            v, s2 = self.call_named(name, vals, s2, i, f)
            outs.append((v, s2))
        st2, guards = self.merge([s for v, s in outs])
        if st2 is None:
            return None, State(st.mem, FALSE)
        vs = [v for v, s in outs if s.pc is not FALSE]
        return (self.mergevals(guards, vs) if vs[0] is not None else None), st2

    def call_named(self, name, vals, st, i, f):
        if name.startswith('__vc_'):
            return self.intrinsic(name, vals, st, i)
        if name.startswith('llvm.'):
            return self.llvm_intrinsic(name, vals, st, i)
        dem = self.p.demangle(name)
        r = self.stl.call(name, dem, vals, st, i, f)
        if r is not None:
            return r
        if self.mode and self.mode[-1]['target'] is not None and self.is_target(dem, self.mode[-1]['target']) \
                and not self.mode[-1].get('called'):
            return self.contract_call(dem, vals, st, i, f)
        if dem.startswith('L_') and self.stack and not self.inlemma:
            # lemma: proved on its own; here its precondition is checked and its conclusion used
            self.inlemma = dem
            self.lemmas[dem] = self.lemmas.get(dem, 0) + 1
            try:
                return self.call_function(self.p.funcs[name], vals, st)
            finally:
                self.inlemma = None
        sn = self.p.funcs.get('S_' + name)
        if sn is not None and self.stack and not self.stack[0].startswith(
                'K_contract_%s_' % dem.split('(')[0].split('::')[0].lower()):
            # the callee's contract instead of its body; proved by the K_contract_ functions beside it
            self.replaced[dem] = self.replaced.get(dem, 0) + 1
            outer, self.inspec = self.inspec, dem
            try:
                return self.call_function(sn, vals, st)
            finally:
                self.inspec = outer
        key = self.replacement(dem)
        if key is not None:
            return self.apply_contract(key, name, dem, vals, st, i, f)
        fn = self.p.funcs.get(name)
        if fn is None:
            raise Unsupported('call to unknown function %s' % dem)
        return self.call_function(fn, vals, st)

    def is_target(self, dem, target):
        return dem.startswith(target + '(') or dem == target

    def replacement(self, dem):
        for k in self.replace:
            if self.is_target(dem, k):
                return k
        return None

    # contracts used at call sites ---------------------------------------
    def apply_contract(self, key, name, dem, vals, st, i, f):
        """check the callee's contract instead of its body"""
        wname = self.replace[key]
        w = self.p.funcs[wname]
        self.replaced[dem] = self.replaced.get(dem, 0) + 1
        self.mode.append({'target': key, 'name': name, 'i': i, 'ret': None, 'vals': vals, 'assigns': [],
                          'sret': None})
        try:
            # contract wrapper parameters mirror the target's parameters
            irparse.ensure_parsed(w)
            fn = self.p.funcs.get(name)
            irparse.ensure_parsed(fn)
            sret = bool(fn.params and fn.params[0][2].get('sret'))
            wargs = vals[1:] if sret else list(vals)
            self.mode[-1]['sretptr'] = vals[0] if sret else None
            pc0 = st.pc
            _, st2 = self.call_function(w, wargs, st)
            return self.mode[-1]['ret'], st2
        finally:
            self.mode.pop()

    def contract_call(self, dem, vals, st, i, f):
        """the target call inside its own contract, in replace mode: havoc result and frame"""
        md = self.mode[-1]
        md['called'] = True
        name = md['name']
        for (p, tyname) in md['assigns']:
            for (g, region, path, idx) in self.targets(st, p, 'assigns'):
                for sub, s in self.leaves(tyname):
                    d = self.depthof(sub)
                    v = tm.fresh('hv', arrsort(d, s))
                    if sub[-1] == 'len' and d == 0:
                        self.fact(tm.le(tm.num(0, I), v))
                    self.write_leaf(st, (region, path, idx), sub, s, v, g)
        fn = self.p.funcs[name]
        irparse.ensure_parsed(fn)
        sret = bool(fn.params and fn.params[0][2].get('sret'))
        if sret:
            ty = fn.params[0][2]['sret']
            # results: both the contract's temporary and the caller's slot
            for off, sty in self.p.layout.scalars(fn.module, ty):
                s = tsort(sty)
                v = tm.fresh('ret', I if s == B else s)
                self.store(st, self.gepoff(vals[0], off), v, sty)
                self.store(st, self.gepoff(md['sretptr'], off), v, sty)
            md['ret'] = None
            return None, st
        if fn.ret == 'void':
            return None, st
        t = fn.ret
        if isinstance(t, tuple) and t[0] in ('lit', 's'):
            offs = self.p.layout.scalars(fn.module, t)
            v = tuple(tm.fresh('ret', tsort(sty)) for o, sty in offs)
        else:
            v = tm.fresh('ret', tsort(t))
        md['ret'] = v
        return v, st

    # ------------------------------------------------------------ intrinsics
    def cstring(self, v):
        if v.op == 'addr' and v.args[0].startswith('@'):
            self.globalcell(v.args[0], (0,), I)
            nm = v.args[0][1:]
            mod = None
            if '#' in nm:
                mod, nm = nm.split('#', 1)
            for m in self.p.modules:
                if mod is None or m.name == mod:
                    c = self.p.bodies.get(('g', m.name, nm))
                    if c and 'str' in c:
                        return c['str'][v.args[1][-1]:]
                    if c and all(x.op == 'num' for k, x in c.items() if k != 'str'):
                        return [x.args[0] for k, x in sorted((k, x) for k, x in c.items() if k != 'str')]
        return None

    def text(self, v):
        c = self.cstring(v)
        if c is None:
            return '?'
        if c and c[-1] == 0:
            c = c[:-1]
        return bytes(c).decode('latin1')

    def intrinsic(self, name, vals, st, i):
        n = name[5:]
        md = self.mode[-1] if self.mode else None
        if self.inlemma and n in ('assume', 'assert', 'lemma', 'fact', 'assume_forall'):
            c = vals[-1] if n == 'assume_forall' else vals[0]
            if n == 'assume':
                self.oblige('precondition', 'precondition of lemma %s' % self.inlemma.split('(')[0], st, c)
                st.pc = tm.aand(st.pc, self.simp(c, st.pc))
            elif n == 'assert':
                st.pc = tm.aand(st.pc, self.simp(c, st.pc))
            elif n == 'assume_forall':
                raise Unsupported('quantified lemma precondition')
            return None, st
        if n == 'unfold_loops':
            self.recurrences = True
            return None, st
        if n == 'known':
            # conclusion of a contract that is proved on its own
            if not self.inspec:
                raise Unsupported('GUARANTEES outside a contract')
            st.pc = tm.aand(st.pc, self.simp(vals[0], st.pc))
            return None, st
        if n == 'assume':
            if self.inspec:
                self.oblige('precondition', 'precondition of %s' % self.inspec.split('(')[0], st, vals[0])
            if md is not None and md['target'] is not None and not md.get('called'):
                # precondition at a call site
                self.oblige('precondition', 'precondition of %s' % md['target'], st, vals[0])
            c = self.simp(vals[0], st.pc)
            st.pc = tm.aand(st.pc, c)
            return None, st
        if n == 'assert':
            nm = self.text(vals[1])
            if md is not None and md['target'] is not None:
                st.pc = tm.aand(st.pc, vals[0])
                return None, st
            self.oblige('post', nm, st, vals[0])
            return None, st
        if n == 'lemma':
            # proved, then assumed
            nm = self.text(vals[1])
            if md is None or md['target'] is None:
                self.oblige('lemma', nm, st, vals[0])
            st.pc = tm.aand(st.pc, vals[0])
            return None, st
        if n == 'fact':
            # axiom of mathematics stated in a contract; reported as assumption
            self.assumed.append(self.text(vals[1]))
            st.pc = tm.aand(st.pc, vals[0])
            return None, st
        if n == 'state':
            # function of the objects reached from the pointers, otherwise arbitrary
            args = [tm.toreal(v) if v.sort == I else v for v in vals[1:]]
            return tm.uf('state.' + self.text(vals[0]), args + [self.snapshot(st, vals[1:])], R), st
        if n.startswith('uf'):
            # function of its arguments, otherwise arbitrary
            return tm.uf('spec.' + self.text(vals[0]), [tm.toreal(v) if v.sort == I else v for v in vals[1:]], R), st
        if n == 'any_int':
            return tm.fresh('any.' + self.text(vals[0]), I), st
        if n == 'any_double':
            return tm.fresh('any.' + self.text(vals[0]), R), st
        if n == 'any_bool':
            return tm.fresh('any.' + self.text(vals[0]), B), st
        if n == 'bound_int':
            return tm.fresh('bv', I), st
        if n == 'assume_forall':
            v, lo, hi, c = vals
            body = tm.implies(tm.aand(tm.le(lo, v), tm.lt(v, hi)), c)
            fa = tm.forall([v], body)
            if md is not None and md['target'] is not None and not md.get('called'):
                # must hold for every index: skolemised by v itself
                self.oblige('precondition', 'precondition of %s' % md['target'], st, body)
            st.pc = tm.aand(st.pc, fa)
            return None, st
        if n == 'implies':
            return tm.implies(vals[0], vals[1]), st
        if n == 'eq':
            return tm.eq(vals[0], vals[1]), st
        if n == 'le':
            return tm.le(vals[0], vals[1]), st
        if n == 'quiet_begin':
            self.quiet += 1
            return None, st
        if n == 'quiet_end':
            self.quiet -= 1
            return None, st
        if n == 'polar':
            return tm.mk('polar', (vals[0], vals[1]), R), st
        if n == 'pi':
            return tm.PI, st
        if n == 'same_ptr':
            return tm.eq(vals[0], vals[1]), st
        if n == 'reachable':
            self.reach.append((self.text(vals[0]), st.pc))
            return None, st
        if n == 'havoc_done':
            return None, st
        raise Unsupported('intrinsic ' + name)

    def snapshot(self, st, ptrs):
        """number of the memory content that the pointers can reach"""
        local = set()

        def regions(t):
            return {x.args[0] for x in tm.subterms([t]) if x.op == 'addr'}

        def islocal(r):
            return self.regionkind.get(r) in ('L', 'N')
        todo = [r for p in ptrs if p.sort == P for r in regions(p)]
        while todo:
            r = todo.pop()
            if not islocal(r) or r in local:
                continue
            if self.shadow.get(r):
                raise Unsupported('state of a copied object')
            local.add(r)
            for k, v in st.mem.items():
                if k[0] == r:
                    todo += regions(v)
        for k, v in st.mem.items():
            if not islocal(k[0]):
                for r in regions(v):
                    if islocal(r) and r not in local:
                        raise Unsupported('state reaches local objects')
        key = frozenset((k, v) for k, v in st.mem.items()
                        if (k[0] in local or not islocal(k[0])) and not k[0].startswith('@'))
        for t in tm.subterms([v for _, v in key]):
            if t.op == 'sym' and t.args[0].split('.')[0] in ('h', 'hb', 'hs'):
                raise Unsupported('state that changes in a loop')
        return tm.num(self.snapshots.setdefault(key, len(self.snapshots)), R)

    def llvm_intrinsic(self, name, vals, st, i):
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') \
                or name.startswith('llvm.stack'):
            return None, st
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, vals[0], vals[1], tm.numval(vals[2]))
            return None, st
        if name.startswith('llvm.memset'):
            return None, self.memset(st, vals, i)
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'):
            return tm.add(tm.mul(vals[0], vals[1]), vals[2]), st
        if name.startswith('llvm.fabs'):
            return self.absval(vals[0], st), st
        if name.startswith('llvm.round'):
            return tm.fun('round', vals[0]), st
        if name.startswith('llvm.sqrt'):
            return tm.fun('sqrt', vals[0]), st
        if name.startswith('llvm.pow'):
            return tm.fun('pow', vals[0], tm.toreal(vals[1]) if vals[1].sort == I else vals[1]), st
        for o in ('sin', 'cos', 'exp', 'log', 'floor', 'ceil'):
            if name.startswith('llvm.%s.' % o):
                return tm.fun(o, vals[0]), st
        if name.startswith('llvm.smax') or name.startswith('llvm.umax'):
            return tm.ite(tm.lt(vals[0], vals[1]), vals[1], vals[0]), st
        if name.startswith('llvm.smin') or name.startswith('llvm.umin'):
            return tm.ite(tm.lt(vals[0], vals[1]), vals[0], vals[1]), st
        if name.startswith('llvm.maxnum'):
            return tm.ite(tm.lt(vals[0], vals[1]), vals[1], vals[0]), st
        if name.startswith('llvm.minnum'):
            return tm.ite(tm.lt(vals[0], vals[1]), vals[0], vals[1]), st
        if name.startswith('llvm.trap'):
            self.oblige('safety', 'trap unreachable', st, FALSE)
            st.pc = FALSE
            return None, st
        raise Unsupported(name)

    def memset(self, st, vals, i):
        # value-initialisation to zero of an object: remember zero bytes
        p = vals[0]
        n = tm.numval(vals[2])
        if not (tm.is_num(vals[1]) and tm.numval(vals[1]) == 0):
            raise Unsupported('memset')
        for (g, region, path, idx) in self.targets(st, p, 'memset'):
            self.zeroed = getattr(self, 'zeroed', {})
            # zero every 8 byte slot lazily is not possible without type: use alloca type via reads
            for key in [k for k in st.mem if k[0] == region]:
                pass
            self.regionkind[region] = self.regionkind.get(region, 'L')
            self.notes['memset'] = self.notes.get('memset', 0) + 1
        return st
