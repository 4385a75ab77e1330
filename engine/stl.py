"""Models of the standard-library operations the code calls.

vector/list: a length and, per scalar leaf of the element type, an array indexed
by position.  Iterators and element pointers are (container, position).
std::string: an opaque token (equal tokens = equal strings).
"""
import re
import terms as tm
from terms import B, I, R, P, A, TRUE, FALSE, NULL
import exec as ex
import loops

ONE = tm.num(1, I)
ZERO = tm.num(0, I)

LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'exp', 'log', 'sqrt',
         'round', 'floor', 'ceil', 'log10', 'cbrt', 'acosh', 'atanh'}


class Stl(object):
    def __init__(self, e):
        self.e = e

    # ---------------------------------------------------------- dispatch
    def call(self, name, dem, vals, st, i, f):
        e = self.e
        if name in LIBM1 and len(vals) == 1:
            return tm.fun(name, vals[0]), st
        if name == 'fabs':
            return e.absval(vals[0], st), st
        if name == 'pow':
            return self.pow(vals[0], vals[1], st), st
        if name == 'atan2' and len(vals) == 2:
            y, x = vals
            z = tm.num(0)
            t = tm.mk('polars', (x, y), R)
            return tm.ite(tm.aand(tm.eq(x, z), tm.eq(y, z)), z, t), st
        if name == 'hypot':
            return tm.fun('sqrt', tm.add(tm.mul(vals[0], vals[0]), tm.mul(vals[1], vals[1]))), st
        if name in ('fmax', 'fmin'):
            c = tm.lt(vals[0], vals[1])
            return (tm.ite(c, vals[1], vals[0]) if name == 'fmax' else tm.ite(c, vals[0], vals[1])), st
        if name == 'abs' or name == 'labs':
            return tm.ite(tm.lt(vals[0], ZERO), tm.neg(vals[0]), vals[0]), st
        if name in ('tolower', 'toupper'):
            return tm.uf(name, [vals[0]], I), st
        if name in ('_Znwm', '_Znam'):
            r = e.newregion('N')
            return tm.addr(r, (0,)), st
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
            return self.delete(vals, st)
        if name in ('abort', '__cxa_pure_virtual', '_ZSt9terminatev') or name.startswith('_ZSt20__throw') \
                or name.startswith('_ZSt24__throw') or name.startswith('__cxa_throw'):
            e.oblige('safety', 'no abnormal termination (%s)' % name, st, FALSE)
            st.pc = FALSE
            return self.dummy(i), st
        if name.startswith('__cxa_atexit') or name == '__dso_handle':
            return tm.num(0, I), st
        if not name.startswith('_Z'):
            return None
        d = dem
        if 'std::' not in d and '__gnu_cxx::' not in d and 'vc_' not in d:
            return None
        r = ex.parse_dem(d)
        if r is None:
            return None
        cls, ct, meth, mt, params = r
        h = None
        if cls in ('std::vector', 'std::__cxx11::list', 'std::list') and ct:
            h = self.container(cls, ct[0], meth, mt, params, vals, st, i, dem)
        elif cls == 'std::__cxx11::basic_string':
            h = self.string(meth, params, vals, st, i)
        elif cls in ('std::_List_iterator', 'std::_List_const_iterator', '__gnu_cxx::__normal_iterator'):
            h = self.iterator(cls, ct, meth, params, vals, st, i)
        elif cls in ('std', '__gnu_cxx', '') or cls.startswith('std::__'):
            h = self.free(cls, meth, mt, params, vals, st, i, dem)
        elif cls in ('std::allocator', 'std::__new_allocator') or cls.startswith('std::_Vector_base') \
                or cls.startswith('std::__cxx11::_List_base'):
            h = (self.dummy(i), st)
        if h is not None:
            key = '%s::%s' % (cls, meth)
            e.modelled[key] = e.modelled.get(key, 0) + 1
        return h

    def dummy(self, i):
        if i.ty == 'void':
            return None
        if isinstance(i.ty, tuple) and i.ty[0] in ('lit', 's'):
            raise ex.Unsupported('dummy aggregate')
        return self.e.anyval(ex.tsort(i.ty))

    def pow(self, a, b, st):
        if b.sort == I:
            b = tm.toreal(b)
        if tm.is_num(b):
            v = tm.numval(b)
            if v.denominator == 1 and v < 0 and -v <= 8:
                return self.e.realdiv(tm.num(1), tm.power(a, -int(v)), st)
        return tm.fun('pow', a, b)

    def delete(self, vals, st):
        e = self.e
        p = e.simpval(vals[0], st.pc)
        alts = []

        def go(q, g):
            if q.op == 'ite':
                go(q.args[1], tm.aand(g, q.args[0]))
                go(q.args[2], tm.aand(g, tm.nnot(q.args[0])))
            elif q.op == 'null':
                pass
            else:
                alts.append((g, q))
        go(p, TRUE)
        for g, q in alts:
            if q.op == 'addr' and q.args[0] != 'heap':
                key = (q.args[0], ('freed',))
                old = st.mem.get(key, ZERO)
                e.oblige('safety', 'no double free', st, tm.implies(g, tm.eq(old, ZERO)))
                st.mem[key] = tm.ite(g, ONE, old)
            else:
                key = ('heap', ('E', 'freed'), I)
                arr = st.mem.get(key)
                if arr is None:
                    arr = tm.sym('in.heap.freed', A(I))
                old = tm.select(arr, q)
                if arr.op != 'sym':
                    e.oblige('safety', 'no double free', st, tm.implies(g, tm.eq(old, ZERO)))
                st.mem[key] = tm.store(arr, q, tm.ite(g, ONE, old))
        return None, st

    # ---------------------------------------------------------- containers
    def loc(self, st, ptr, what):
        alts = self.e.targets(st, ptr, what)
        return alts

    def getlen(self, st, l):
        region, path, idx = l
        v = self.e.read_leaf(st, l, (0, 'len'), I)
        if not tm.is_num(v):
            self.lenfact(v)
        return v

    def lenfact(self, v):
        if v.op == 'ite':
            self.lenfact(v.args[1])
            self.lenfact(v.args[2])
        elif v.op in ('sym', 'select', 'uf'):
            if not self.hasbound(v):
                self.e.fact(tm.le(ZERO, v))

    def hasbound(self, v):
        for t in tm.subterms([v]):
            if t.op == 'sym' and t.args[0].startswith('bv!'):
                return True
        return False

    def setlen(self, st, l, v, g=TRUE):
        self.e.write_leaf(st, l, (0, 'len'), I, v, g)

    def elem(self, l, idx):
        region, path, ix = l
        if not (path and isinstance(path[-1], int)):
            path = path + (0,)
        return tm.addr(region, path + ('E', 0), ix + (idx,))

    def elemptr(self, st, alts, idx):
        r = None
        for (g, region, path, ix) in reversed(alts):
            a = self.elem((region, path, ix), idx if not callable(idx) else idx((region, path, ix)))
            r = a if r is None else tm.ite(g, a, r)
        return r if r is not None else NULL

    def lenof(self, st, alts):
        r = None
        for (g, region, path, ix) in reversed(alts):
            v = self.getlen(st, (region, path, ix))
            r = v if r is None else tm.ite(g, v, r)
        return r if r is not None else ZERO

    def elleaves(self, el):
        return self.e.leaves(el)

    def set_elem(self, st, l, idx, vals, g=TRUE):
        """write element leaves {sub: (sort, value)} at position idx"""
        p = self.elem(l, idx)
        region, path, ix = p.args
        for sub, (s, v) in vals.items():
            self.e.write_leaf(st, (region, path, ix), sub, s, v, g)

    def move_iters(self, st, l, f):
        """rewrite iterators/pointers into list l held anywhere: position i -> f(i)"""
        e = self.e
        region, path, ix = l
        pre = path + ('E',)
        n = len(pre)
        cache = {}

        def go(t):
            r = cache.get(t)
            if r is not None:
                return r
            if t.op == 'addr' and t.args[0] == region and t.args[1][:n] == pre and len(t.args[2]) > len(ix) \
                    and t.args[2][:len(ix)] == ix:
                k = len(ix)
                idx = t.args[2]
                r = tm.addr(region, t.args[1], idx[:k] + (f(idx[k]),) + idx[k + 1:])
            else:
                r = tm.rebuild(t, go)
            cache[t] = r
            return r

        def has(t):
            return t.sort == P and t.op in ('addr', 'ite') or (isinstance(t.sort, tuple))
        for k in list(st.mem):
            v = st.mem[k]
            if v.sort == P and v.op in ('addr', 'ite'):
                st.mem[k] = go(v)
        for fr in e.frames:
            regs = fr['regs']
            for k, v in list(regs.items()):
                if isinstance(v, tm.T) and v.sort == P and v.op in ('addr', 'ite'):
                    regs[k] = go(v)

    def insert(self, st, l, pos, vals, el, islist, g=TRUE):
        """insert element before position pos"""
        e = self.e
        region, path, ix = l
        n = self.getlen(st, l)
        if g is not TRUE:
            raise ex.Unsupported('guarded insert')
        if islist and pos is not n:
            self.move_iters(st, l, lambda k: tm.ite(tm.le(pos, k), tm.add(k, ONE), k))
        elif islist:
            # end iterators move with the end
            self.move_iters(st, l, lambda k: tm.add(k, ONE) if k is n else (
                k if tm.is_num(tm.sub(k, n)) else tm.ite(tm.eq(k, n), tm.add(k, ONE), k)))
        for sub, (s, v) in vals.items():
            d = e.depthof(sub)
            base = (path[:-1] + (path[-1],) if path and isinstance(path[-1], int) else path + (0,))
            p = base + ('E',) + sub
            arr = e.readcell(st, region, p, len(ix) + 1 + d, s)
            for k in ix:
                arr = tm.select(arr, k)
            if pos is n:
                new = tm.store(arr, n, v)
            elif tm.is_num(pos) and tm.is_num(n):
                new = arr
                for k in range(tm.numval(n), tm.numval(pos), -1):
                    new = tm.store(new, tm.num(k, I), tm.select(arr, tm.num(k - 1, I)))
                new = tm.store(new, pos, v)
            else:
                new = tm.arr_ins(arr, pos, v)
            self._put(st, region, p, ix, d + 1, s, new)
        self.setlen(st, l, tm.add(n, ONE))

    def erase(self, st, l, pos, el, islist):
        e = self.e
        region, path, ix = l
        n = self.getlen(st, l)
        if islist:
            self.move_iters(st, l, lambda k: tm.ite(tm.lt(pos, k), tm.sub(k, ONE), k))
        for sub, s in self.elleaves(el):
            d = e.depthof(sub)
            p = path + ('E',) + sub
            arr = e.readcell(st, region, p, len(ix) + 1 + d, s)
            for k in ix:
                arr = tm.select(arr, k)
            if tm.is_num(pos) and tm.is_num(n):
                new = arr
                for k in range(tm.numval(pos), tm.numval(n) - 1):
                    new = tm.store(new, tm.num(k, I), tm.select(arr, tm.num(k + 1, I)))
            else:
                new = tm.arr_del(arr, pos)
            self._put(st, region, p, ix, d + 1, s, new)
        self.setlen(st, l, tm.sub(n, ONE))

    def _put(self, st, region, p, ix, d, s, new):
        e = self.e
        if not ix:
            e.writecell(st, region, p, d, s, new)
            return
        base = e.readcell(st, region, p, len(ix) + d, s)

        def put(arr, k):
            if k == len(ix):
                return new
            return tm.store(arr, ix[k], put(tm.select(arr, ix[k]), k + 1))
        e.writecell(st, region, p, len(ix) + d, s, put(base, 0))

    def iterpos(self, st, p, l):
        """position of iterator p in container l"""
        e = self.e
        p = e.simpval(p, st.pc)
        if p.op == 'ite':
            return tm.ite(p.args[0], self.iterpos(st, p.args[1], l), self.iterpos(st, p.args[2], l))
        if p.op != 'addr' or p.args[0] != l[0] or p.args[1][:len(l[1]) + 1] != l[1] + ('E',):
            raise ex.Unsupported('iterator of another container: %s in %s' % (tm.show(p, 4), l))
        return p.args[2][len(l[2])]

    def iterany(self, st, p):
        """[(guard, container loc, position)]"""
        e = self.e
        out = []
        for (g, region, path, idx) in e.targets(st, p, 'iterator'):
            if len(path) < 2 or path[-2] != 'E':
                raise ex.Unsupported('not an iterator: %s%s in %s' % (region, path, e.where()))
            out.append((g, (region, path[:-2], idx[:-1]), idx[-1]))
        return out

    def shift(self, st, p, k):
        p = self.e.simpval(p, st.pc)
        if p.op == 'ite':
            return tm.ite(p.args[0], self.shift(st, p.args[1], k), self.shift(st, p.args[2], k))
        if p.op == 'addr' and 'E' in p.args[1]:
            return tm.addr(p.args[0], p.args[1], p.args[2][:-1] + (tm.add(p.args[2][-1], k),))
        raise ex.Unsupported('iterator arithmetic on %s in %s' % (tm.show(p, 4), self.e.where()))

    def copy_container(self, st, dst, src, el):
        e = self.e
        sal = e.targets(st, src, 'container source')
        dal = e.targets(st, dst, 'container target')
        if not sal or not dal:
            return
        vals = []
        for sub, s in [((0, 'len'), I)] + [((0, 'E') + x, s) for x, s in self.elleaves(el)]:
            r = None
            for (g, region, path, ix) in reversed(sal):
                v = e.read_leaf(st, (region, path, ix), sub, s)
                r = v if r is None else tm.ite(g, v, r)
            vals.append((sub, s, r))
        self.lenfact(vals[0][2])
        for (g, region, path, ix) in dal:
            for sub, s, v in vals:
                e.write_leaf(st, (region, path, ix), sub, s, v, g if len(dal) > 1 else TRUE)

    def default_elem(self, st, el, i):
        """value of a default-constructed element"""
        e = self.e
        el = el.strip()
        if el in ('double', 'float'):
            return {(0,): (R, tm.num(0))}
        if el in ('int', 'bool', 'char', 'unsigned int', 'long', 'unsigned long'):
            return {(0,): (I, ZERO)}
        if el.endswith('*'):
            return {(0,): (P, NULL)}
        # run the default constructor on a temporary
        ctor = None
        base = el.split('<')[0].split('::')[-1]
        for n, f in e.p.funcs.items():
            d = e.p.demangle(n)
            if d == '%s::%s()' % (el, base):
                ctor = f
                break
        if ctor is None:
            raise ex.Unsupported('default constructor of %s' % el)
        r = e.newregion('N')
        p = tm.addr(r, (0,))
        v, st2 = e.call_function(ctor, [p], st)
        st.mem, st.pc = st2.mem, st2.pc
        return e.read_obj(st, p, el)

    def elem_value(self, st, ptr, el):
        return self.e.read_obj(st, ptr, el)

    def container(self, cls, el, meth, mt, params, vals, st, i, dem):
        e = self.e
        islist = cls.endswith('list')
        short = 'list' if islist else 'vector'
        if meth.startswith('~'):
            return None, st
        this = vals[0]
        if meth == short:
            # constructors; vals: this, ...
            if len(vals) == 1 or (len(vals) == 2 and 'allocator' in params and '<' not in params.split('allocator')[0]
                                  and params.startswith('std::allocator')):
                self.init_empty(st, this)
                return None, st
            if params.startswith(cls + '<') or params.startswith('std::'+short):
                if '&&' in params:
                    self.copy_container(st, this, vals[1], el)
                    self.clear(st, vals[1])
                    return None, st
                self.copy_container(st, this, vals[1], el)
                return None, st
            if params.startswith('unsigned long'):
                n = vals[1]
                self.init_empty(st, this)
                if re.match(r'unsigned long, .*const&, std::allocator', params) and 'allocator' not in params.split(',')[1]:
                    v = self.elem_value(st, vals[2], el)
                else:
                    v = self.default_elem(st, el, i)
                self.fill(st, this, n, v, el)
                return None, st
            if params.startswith('std::initializer_list'):
                self.assign_literal(st, this, vals[1], vals[2], el, islist)
                return None, st
            if mt is not None:
                # iterator range
                return self.assign_range(st, this, vals[1], vals[2], el, islist), st
            raise ex.Unsupported('container constructor %s' % dem)
        alts = self.loc(st, this, '%s::%s' % (short, meth))
        if not alts:
            return self.dummy(i) if i.ty != 'void' else None, st
        single = (alts[0][1], alts[0][2], alts[0][3]) if len(alts) == 1 else None
        if meth in ('size',):
            return self.lenof(st, alts), st
        if meth == 'empty':
            return tm.eq(self.lenof(st, alts), ZERO), st
        if meth in ('begin', 'cbegin'):
            return self.elemptr(st, alts, ZERO), st
        if meth in ('end', 'cend'):
            return self.elemptr(st, alts, lambda l: self.getlen(st, l)), st
        if meth in ('at', 'operator[]'):
            n = self.lenof(st, alts)
            k = vals[1]
            ok = tm.aand(tm.le(ZERO, k), tm.lt(k, n))
            self.require(st, ok, '%s index in range' % short)
            return self.elemptr(st, alts, k), st
        if meth in ('front', 'back'):
            n = self.lenof(st, alts)
            self.require(st, tm.lt(ZERO, n), '%s of non-empty %s' % (meth, short))
            if meth == 'front':
                return self.elemptr(st, alts, ZERO), st
            return self.elemptr(st, alts, lambda l: tm.sub(self.getlen(st, l), ONE)), st
        if meth in ('rbegin', 'rend', 'crbegin', 'crend'):
            raise ex.Unsupported('reverse iterators')
        if meth == 'data':
            return self.elemptr(st, alts, ZERO), st
        if meth in ('reserve', 'shrink_to_fit'):
            return None, st
        if meth == 'capacity' or meth == 'max_size':
            return tm.fresh('cap', I), st
        if meth == 'clear':
            self.clear(st, this)
            return None, st
        if meth == 'operator=':
            if '&&' in params:
                self.copy_container(st, this, vals[1], el)
                # self move does not occur; source is left empty
                if e.simpval(vals[1], st.pc) is not e.simpval(this, st.pc):
                    self.clear(st, vals[1])
            elif 'initializer_list' in params:
                self.assign_literal(st, this, vals[1], vals[2], el, islist)
            else:
                self.copy_container(st, this, vals[1], el)
            return this, st
        if meth == 'swap':
            o = vals[1]
            tmp = tm.addr(e.newregion('N'), (0,))
            self.copy_container(st, tmp, this, el)
            self.copy_container(st, this, o, el)
            self.copy_container(st, o, tmp, el)
            return None, st
        if meth in ('push_back', 'push_front', 'emplace_back', 'emplace_front'):
            if meth.startswith('emplace') and (len(vals) != 2 or not self.sametype(params, el)):
                v = self.emplace_value(st, el, params, vals[1:], i)
            else:
                v = self.elem_value(st, vals[1], el)
            if v is None:
                return self.dummy(i), st
            if len(alts) == 1:
                n = self.getlen(st, single)
                self.insert(st, single, n if meth.endswith('back') else ZERO, v, el, islist)
            else:
                if not meth.endswith('back'):
                    raise ex.Unsupported('push_front on several')
                for (g, region, path, ix) in alts:
                    l = (region, path, ix)
                    n = self.getlen(st, l)
                    self.set_elem(st, l, n, v, g)
                    self.setlen(st, l, tm.add(n, ONE), g)
            if i.ty == 'ptr':
                return self.elemptr(st, alts, lambda l: tm.sub(self.getlen(st, l), ONE)), st
            return None, st
        if single is None:
            # split on alternatives is not needed for the remaining operations
            raise ex.Unsupported('%s::%s on several containers in %s' % (short, meth, e.where()))
        l = single
        n = self.getlen(st, l)
        if meth in ('pop_back', 'pop_front'):
            self.require(st, tm.lt(ZERO, n), '%s of non-empty %s' % (meth, short))
            self.erase(st, l, tm.sub(n, ONE) if meth == 'pop_back' else ZERO, el, islist)
            return None, st
        if meth in ('insert', 'emplace'):
            pos = self.iterpos(st, vals[1], l)
            self.require(st, tm.aand(tm.le(ZERO, pos), tm.le(pos, n)), 'insert position in range')
            if meth == 'insert' and mt is None and self.sametype(params.split(', ', 1)[-1] if ', ' in params else params, el) \
                    or (len(vals) == 3 and mt is None):
                v = self.elem_value(st, vals[2], el)
            else:
                raise ex.Unsupported('insert form %s' % dem)
            self.insert(st, l, pos, v, el, islist)
            return self.elem(l, pos), st
        if meth == 'erase':
            if len(vals) == 2:
                pos = self.iterpos(st, vals[1], l)
                self.require(st, tm.aand(tm.le(ZERO, pos), tm.lt(pos, n)), 'erase position in range')
                self.erase(st, l, pos, el, islist)
                return self.elem(l, pos), st
            a, b = self.iterpos(st, vals[1], l), self.iterpos(st, vals[2], l)
            if tm.is_num(a) and tm.is_num(b):
                for _ in range(tm.numval(b) - tm.numval(a)):
                    self.erase(st, l, a, el, islist)
                return self.elem(l, a), st
            if a is ZERO and b is n:
                self.clear(st, this)
                return self.elem(l, ZERO), st
            raise ex.Unsupported('erase range')
        if meth == 'resize':
            k = vals[1]
            if len(vals) >= 3:
                v = self.elem_value(st, vals[2], el)
            else:
                v = self.default_elem(st, el, i)
            self.resize(st, l, k, n, v, el)
            return None, st
        if meth == 'assign' and 'initializer_list' in params:
            self.assign_literal(st, this, vals[1], vals[2], el, islist)
            return None, st
        if meth == 'assign' and params.startswith('unsigned long'):
            v = self.elem_value(st, vals[2], el)
            self.clear(st, this)
            self.fill(st, this, vals[1], v, el)
            return None, st
        raise ex.Unsupported('%s::%s(%s) in %s' % (short, meth, params, e.where()))

    def sametype(self, params, el):
        p = params.replace('const', '').replace('&', '').strip()
        return p == el.replace('const', '').strip()

    def emplace_value(self, st, el, params, args, i):
        """construct an element from constructor arguments"""
        e = self.e
        base = el.split('<')[0].split('::')[-1]
        types = [re.sub(r'[&\s]|const', '', x) for x in ex.split_targs(params)]
        for n, f in e.p.funcs.items():
            r = ex.parse_dem(e.p.demangle(n))
            if r and '%s::%s(' % (el, base) in e.p.demangle(n):
                pt = [re.sub(r'[&\s]|const', '', x) for x in ex.split_targs(r[4])]
                if pt == types:
                    p = tm.addr(e.newregion('N'), (0,))
                    v, st2 = e.call_function(f, [p] + list(args), st)
                    st.mem, st.pc = st2.mem, st2.pc
                    return e.read_obj(st, p, el)
        raise ex.Unsupported('emplace of %s(%s)' % (el, params))

    def require(self, st, cond, what):
        e = self.e
        if e.pure:
            return
        c = e.simp(cond, st.pc)
        if c is TRUE or e.entails(st.pc, c):
            return
        e.oblige('safety', what, st, c)
        st.pc = tm.aand(st.pc, c)

    def init_empty(self, st, this):
        e = self.e
        for (g, region, path, ix) in e.targets(st, this, 'container constructor'):
            e.write_leaf(st, (region, path, ix), (0, 'len'), I, ZERO)

    def clear(self, st, this):
        e = self.e
        alts = e.targets(st, this, 'clear')
        for (g, region, path, ix) in alts:
            e.write_leaf(st, (region, path, ix), (0, 'len'), I, ZERO, g if len(alts) > 1 else TRUE)
        if len(alts) == 1 and not alts[0][3]:
            # what a cleared container held is never read again
            (g, region, path, ix) = alts[0]
            for key in list(st.mem):
                if key[0] == region and key[1][:len(path) + 1] == path + ('E',):
                    v = st.mem[key]
                    if isinstance(v.sort, tuple) and not isinstance(v.sort[1], tuple):
                        st.mem[key] = tm.sym('undef.elements', v.sort)

    def fill(self, st, this, n, v, el):
        e = self.e
        for (g, region, path, ix) in e.targets(st, this, 'fill'):
            l = (region, path, ix)
            for sub, (s, val) in v.items():
                d = e.depthof(sub)
                self._put(st, region, path + ('E',) + sub, ix, d + 1, s, tm.constarr(val))
            self.setlen(st, l, n)

    def resize(self, st, l, k, n, v, el):
        e = self.e
        region, path, ix = l
        if n is k:
            return
        if tm.is_num(n) and tm.is_num(k):
            for j in range(tm.numval(n), tm.numval(k)):
                self.set_elem(st, l, tm.num(j, I), v)
            self.setlen(st, l, k)
            return
        if tm.is_num(n) and tm.numval(n) == 0:
            for sub, (s, val) in v.items():
                d = e.depthof(sub)
                self._put(st, region, path + ('E',) + sub, ix, d + 1, s, tm.constarr(val))
            self.setlen(st, l, k)
            return
        j = tm.fresh('bv', I)
        for sub, (s, val) in v.items():
            d = e.depthof(sub)
            arr = e.read_leaf(st, l, (0, 'E') + sub, s)
            self._put(st, region, path + ('E',) + sub, ix, d + 1, s,
                      tm.lam(j, tm.ite(tm.lt(j, n), tm.select(arr, j), val)))
        self.setlen(st, l, k)

    def assign_literal(self, st, this, ptr, size, el, islist):
        """contents of an initializer list, which is passed as a pointer and a length"""
        e = self.e
        width = {'double': 8, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'bool': 1}.get(el, 8 if el.endswith('*') else None)
        if width is None or not tm.is_num(size):
            raise ex.Unsupported('initializer_list of %s' % el)
        items = [self.elem_value(st, e.gepoff(ptr, k * width), el) for k in range(int(tm.numval(size)))]
        self.init_empty(st, this)
        alts = self.loc(st, this, 'initializer_list')
        if len(alts) != 1:
            raise ex.Unsupported('initializer_list into several')
        l = (alts[0][1], alts[0][2], alts[0][3])
        for k, v in enumerate(items):
            self.insert(st, l, tm.num(k, I), v, el, islist)

    def assign_range(self, st, this, a, b, el, islist):
        e = self.e
        ia = self.iterany(st, a)
        ib = self.iterany(st, b)
        if len(ia) != 1 or len(ib) != 1:
            raise ex.Unsupported('range of several')
        _, l, pa = ia[0]
        _, l2, pb = ib[0]
        self.init_empty(st, this)
        if tm.is_num(pa) and tm.numval(pa) == 0:
            src = tm.addr(l[0], l[1], l[2])
            self.copy_container(st, this, src, el)
            for (g, region, path, ix) in e.targets(st, this, 'assign'):
                self.setlen(st, (region, path, ix), pb)
            return None
        raise ex.Unsupported('iterator range')

    # ---------------------------------------------------------- iterators
    def iterator(self, cls, ct, meth, params, vals, st, i):
        """`this` is a pointer to the iterator object (one pointer)"""
        e = self.e
        base = cls.split('::')[-1]
        if meth == base:
            if len(vals) == 1:
                e.store(st, vals[0], NULL, 'ptr')
                return None, st
            # from another iterator (by reference) or pointer
            if '&' in params:
                v = e.load(st, vals[1], 'ptr')
            else:
                v = vals[1]
            e.store(st, vals[0], v, 'ptr')
            return None, st
        if meth in ('operator=',):
            v = e.load(st, vals[1], 'ptr')
            e.store(st, vals[0], v, 'ptr')
            return vals[0], st
        p = e.load(st, vals[0], 'ptr')
        if meth in ('operator*', 'operator->'):
            for g, l, k in self.iterany(st, p):
                n = self.getlen(st, l)
                self.require(st, tm.implies(g, tm.aand(tm.le(ZERO, k), tm.lt(k, n))), 'dereferenced iterator in range')
            return p, st
        if meth in ('operator++', 'operator--'):
            d = ONE if meth == 'operator++' else tm.num(-1, I)
            q = self.shift(st, p, d)
            e.store(st, vals[0], q, 'ptr')
            if params == 'int':
                return p, st
            return vals[0], st
        if meth in ('operator+', 'operator-') and params in ('long', 'long const&'):
            k = vals[1]
            if '&' in params:
                k = e.load(st, k, ('i', 64))
            return self.shift(st, p, k if meth == 'operator+' else tm.neg(k)), st
        if meth in ('operator+=', 'operator-='):
            k = vals[1]
            e.store(st, vals[0], self.shift(st, p, k if meth == 'operator+=' else tm.neg(k)), 'ptr')
            return vals[0], st
        if meth == 'operator[]':
            return self.shift(st, p, vals[1]), st
        if meth in ('operator==', 'operator!='):
            q = e.load(st, vals[1], 'ptr')
            c = tm.eq(p, q)
            return (c if meth == 'operator==' else tm.nnot(c)), st
        if meth == 'base':
            return vals[0], st
        if meth in ('_M_const_cast',):
            return p, st
        raise ex.Unsupported('iterator %s::%s(%s)' % (cls, meth, params))

    def itdiff(self, st, a, b):
        """b - a"""
        e = self.e
        a, b = e.simpval(a, st.pc), e.simpval(b, st.pc)
        if a.op == 'ite':
            return tm.ite(a.args[0], self.itdiff(st, a.args[1], b), self.itdiff(st, a.args[2], b))
        if b.op == 'ite':
            return tm.ite(b.args[0], self.itdiff(st, a, b.args[1]), self.itdiff(st, a, b.args[2]))
        if a.op == 'addr' and b.op == 'addr' and a.args[0] == b.args[0] and a.args[1] == b.args[1]:
            return tm.sub(b.args[2][-1], a.args[2][-1])
        raise ex.Unsupported('iterator difference')

    def free(self, cls, meth, mt, params, vals, st, i, dem):
        e = self.e
        isit = '_List_iterator<' in params or '_List_const_iterator<' in params or '__normal_iterator<' in params
        if meth == 'abs' and params == 'double':
            return e.absval(vals[0], st), st
        if meth == 'abs' and params in ('int', 'long'):
            return tm.ite(tm.lt(vals[0], ZERO), tm.neg(vals[0]), vals[0]), st
        if meth == 'pow' and cls == 'std':
            a, b = vals
            if a.sort == I:
                a = tm.toreal(a)
            return self.pow(a, b, st), st
        if meth in LIBM1 and len(vals) == 1 and cls == 'std' and params in ('double', 'int', 'float', 'long double'):
            v = vals[0]
            return tm.fun(meth, tm.toreal(v) if v.sort == I else v), st
        if meth == 'hypot' and cls == 'std':
            v = [tm.toreal(x) if x.sort == I else x for x in vals]
            return tm.fun('sqrt', tm.add(tm.mul(v[0], v[0]), tm.mul(v[1], v[1]))), st
        if meth in ('fmax', 'fmin', 'fabs') and cls == 'std':
            if meth == 'fabs':
                return e.absval(vals[0], st), st
            c = tm.lt(vals[0], vals[1])
            return (tm.ite(c, vals[1], vals[0]) if meth == 'fmax' else tm.ite(c, vals[0], vals[1])), st
        if meth in ('operator!=', 'operator==') and isit:
            a, b = e.load(st, vals[0], 'ptr'), e.load(st, vals[1], 'ptr')
            c = tm.eq(a, b)
            return (c if meth == 'operator==' else tm.nnot(c)), st
        if meth in ('operator<', 'operator<=', 'operator>', 'operator>=') and '__normal_iterator<' in params:
            a, b = e.load(st, vals[0], 'ptr'), e.load(st, vals[1], 'ptr')
            d = self.itdiff(st, a, b)
            return {'operator<': tm.lt(ZERO, d), 'operator<=': tm.le(ZERO, d), 'operator>': tm.lt(d, ZERO),
                    'operator>=': tm.le(d, ZERO)}[meth], st
        if meth == 'operator-' and '__normal_iterator<' in params:
            a, b = e.load(st, vals[0], 'ptr'), e.load(st, vals[1], 'ptr')
            return self.itdiff(st, b, a), st
        if meth in ('next', 'prev') and cls == 'std' and isit:
            k = vals[1]
            q = self.shift(st, vals[0], k if meth == 'next' else tm.neg(k))
            for g, l, pos in self.iterany(st, q):
                n = self.getlen(st, l)
                self.require(st, tm.implies(g, tm.aand(tm.le(ZERO, pos), tm.le(pos, n))), 'std::%s stays in range' % meth)
            return q, st
        if meth in ('advance', '__advance') and isit:
            p = e.load(st, vals[0], 'ptr')
            k = vals[1]
            if k.sort == P:
                k = e.load(st, k, ('i', 64))
            q = self.shift(st, p, k)
            for g, l, pos in self.iterany(st, q):
                n = self.getlen(st, l)
                self.require(st, tm.implies(g, tm.aand(tm.le(ZERO, pos), tm.le(pos, n))), 'std::advance stays in range')
            e.store(st, vals[0], q, 'ptr')
            return None, st
        if meth in ('distance', '__distance') and isit:
            return self.itdiff(st, vals[0], vals[1]), st
        if meth == 'sort' and '__normal_iterator<' in params:
            return self.sort(vals, mt, st, dem)
        if meth in ('operator==', 'operator!=') and 'basic_string' in params:
            a = self.tokof(st, vals[0], params.split(',')[0] if 'char const*' == params.split(', ')[0] else '')
            b = self.tokof(st, vals[1], 'char const*' if params.endswith('char const*') else '')
            c = tm.eq(a, b)
            return (c if meth == 'operator==' else tm.nnot(c)), st
        if meth == 'operator+' and 'basic_string' in params:
            # sret, a, b
            parts = ex.split_targs(params)
            a = self.tokof(st, vals[1], parts[0])
            b = self.tokof(st, vals[2], parts[1])
            self.settok(st, vals[0], tm.uf('strcat', [a, b], I))
            return None, st
        if meth == 'to_string' and cls in ('std', 'std::__cxx11'):
            v = vals[1]
            self.settok(st, vals[0], tm.uf('tostring_%s' % v.sort, [v], I))
            return None, st
        if meth == 'vc_nth':
            # const T& vc_nth(const container&, int): element without range obligation
            alts = e.targets(st, vals[0], 'vc_nth')
            return self.elemptr(st, alts, vals[1]), st
        if meth == 'vc_same':
            return self.same(st, vals[0], vals[1], mt[0]), st
        if meth in ('find_if', 'for_each', 'accumulate', 'any_of', 'all_of', 'none_of', 'count_if', 'lower_bound',
                    'upper_bound', 'reverse', 'copy', 'transform', 'max_element', 'min_element', 'remove_if'):
            return None
        return None

    def same(self, st, pa, pb, ty):
        e = self.e
        a, b = e.read_obj(st, pa, ty, 'vc_same'), e.read_obj(st, pb, ty, 'vc_same')
        conj = []
        for sub, (s, va) in sorted(a.items(), key=lambda x: str(x[0])):
            vb = b[sub][1]
            d = e.depthof(sub)
            if d == 0:
                conj.append(tm.eq(va, vb))
                continue
            # element leaf: agree at every position below the lengths
            idx, ranges = [], []
            for n, x in enumerate(sub):
                if x == 'E':
                    lv = a[sub[:n] + ('len',)][1]
                    for j in idx:
                        lv = tm.select(lv, j)
                    j = tm.fresh('bv', I)
                    ranges.append((j, lv))
                    idx.append(j)
            x, y = va, vb
            for j in idx:
                x, y = tm.select(x, j), tm.select(y, j)
            body = tm.eq(x, y)
            for j, lv in reversed(ranges):
                body = loops.mkforall(j, lv, body)
            conj.append(body)
        return tm.aand(*conj)

    def sort(self, vals, mt, st, dem):
        """std::sort(first, last, cmp): a sorted permutation; modelled for concrete small lengths"""
        e = self.e
        (_, l, pa), = self.iterany(st, vals[0])
        (_, l2, pb), = self.iterany(st, vals[1])
        el = ex.split_targs(re.search(r'__normal_iterator<(.*)$', mt[0]).group(1))[1]
        m = re.match(r'std::vector<(.*)>\s*>?$', el)
        elt = ex.split_targs(el[el.index('<') + 1:el.rindex('>')])[0]
        if not (tm.is_num(pa) and tm.is_num(pb)):
            return self.sort_symbolic(st, l, pa, pb, elt, vals, mt, dem)
        lo, hi = tm.numval(pa), tm.numval(pb)
        cmpf = None
        # comparator type: second template argument; find its operator()
        cname = mt[1] if len(mt) > 1 else None
        for n, f in e.p.funcs.items():
            d = e.p.demangle(n)
            if cname and d.startswith(cname + '::operator()('):
                cmpf = f
        if cname and cmpf is None:
            raise ex.Unsupported('comparator %s' % cname)
        # insertion sort network (stable)
        dummy = tm.addr(e.newregion('N'), (0,))
        for a in range(lo + 1, hi):
            for b in range(a, lo, -1):
                x, y = tm.num(b - 1, I), tm.num(b, I)
                px, py = self.elem(l, x), self.elem(l, y)
                vx = e.read_obj(st, px, elt)
                vy = e.read_obj(st, py, elt)
                e.quiet += 1
                r, st2 = e.call_function(cmpf, [dummy, py, px], st)
                e.quiet -= 1
                st.mem, st.pc = st2.mem, st2.pc
                nx = {s: (q, tm.ite(r, vy[s][1], vx[s][1])) for s, (q, _) in vx.items()}
                ny = {s: (q, tm.ite(r, vx[s][1], vy[s][1])) for s, (q, _) in vx.items()}
                self.set_elem(st, l, x, nx)
                self.set_elem(st, l, y, ny)
        return None, st

    def sort_symbolic(self, st, l, pa, pb, elt, vals, mt, dem):
        """the sorted elements are a function of the elements and of the comparator, nothing more is known"""
        import loops
        e = self.e
        region, path, ix = self.elem(l, pa).args
        if ix != (pa,):
            raise ex.Unsupported('std::sort in a nested container')
        path = path[:-1]
        vals = e.read_obj(st, self.elem(l, pa), elt)
        arrs = {}
        for sub, (s, v) in sorted(vals.items(), key=str):
            if e.depthof(sub) or s == P:
                raise ex.Unsupported('std::sort of containers or pointers')
            arrs[sub] = (s, e.readcell(st, region, path + sub, 1, s))
        j = tm.sym('sort.at', I)
        args = []
        for sub, (s, a) in arrs.items():
            inside = tm.lam(j, tm.ite(tm.aand(tm.le(pa, j), tm.lt(j, pb)), tm.select(loops.unread_elements(a), j),
                                      tm.select(tm.sym('undef.elements', a.sort), j)))
            args.append(inside)
        for n, (sub, (s, a)) in enumerate(arrs.items()):
            F = tm.uf('sorted:%s:%s#%d' % (elt, mt[1] if len(mt) > 1 else '', n), args + [pa, pb], a.sort)
            e.writecell(st, region, path + sub, 1, s,
                        tm.lam(j, tm.ite(tm.aand(tm.le(pa, j), tm.lt(j, pb)), tm.select(F, j), tm.select(a, j))))
        return None, st

    # ---------------------------------------------------------- strings
    def tok(self, st, ptr):
        e = self.e
        alts = e.targets(st, ptr, 'string')
        r = None
        for (g, region, path, ix) in reversed(alts):
            v = e.read_leaf(st, (region, path, ix), (0, 'str'), I)
            r = v if r is None else tm.ite(g, v, r)
        return r if r is not None else ZERO

    def tokof(self, st, v, ty):
        if 'char const*' in ty:
            return self.ctok(v)
        return self.tok(st, v)

    def ctok(self, v):
        e = self.e
        if v.op == 'ite':
            return tm.ite(v.args[0], self.ctok(v.args[1]), self.ctok(v.args[2]))
        c = e.cstring(v)
        if c is not None:
            return e.p.string_token(list(c))
        return tm.uf('cstr', [v], I)

    def settok(self, st, ptr, v):
        e = self.e
        alts = e.targets(st, ptr, 'string')
        for (g, region, path, ix) in alts:
            e.write_leaf(st, (region, path, ix), (0, 'str'), I, v, g if len(alts) > 1 else TRUE)

    def strlen(self, tok):
        if tok.op == 'ite':
            return tm.ite(tok.args[0], self.strlen(tok.args[1]), self.strlen(tok.args[2]))
        if tok is ZERO:
            return ZERO
        n = tm.uf('strlen', [tok], I)
        if not self.hasbound(n):
            self.e.fact(tm.le(ZERO, n))
            self.e.fact(tm.iff(tm.eq(n, ZERO), tm.eq(tok, ZERO)))
        return n

    def string(self, meth, params, vals, st, i):
        e = self.e
        if meth.startswith('~'):
            return None, st
        if meth == 'basic_string':
            if len(vals) == 1 or params.startswith('std::allocator'):
                self.settok(st, vals[0], ZERO)
            elif params.startswith('char const*'):
                self.settok(st, vals[0], self.ctok(vals[1]))
            elif params.startswith('std::__cxx11::basic_string'):
                t = self.tok(st, vals[1])
                self.settok(st, vals[0], t)
                if '&&' in params:
                    self.settok(st, vals[1], ZERO)
            else:
                raise ex.Unsupported('string constructor(%s)' % params)
            return None, st
        if meth in ('operator=', 'assign'):
            if params.startswith('char const*'):
                self.settok(st, vals[0], self.ctok(vals[1]))
            elif params.startswith('std::__cxx11::basic_string'):
                t = self.tok(st, vals[1])
                self.settok(st, vals[0], t)
                if '&&' in params and vals[1] is not vals[0]:
                    self.settok(st, vals[1], ZERO)
            else:
                raise ex.Unsupported('string assign(%s)' % params)
            return vals[0], st
        if meth in ('operator+=', 'append'):
            a = self.tok(st, vals[0])
            b = self.tokof(st, vals[1], params)
            self.settok(st, vals[0], tm.uf('strcat', [a, b], I))
            return vals[0], st
        if meth in ('length', 'size'):
            return self.strlen(self.tok(st, vals[0])), st
        if meth == 'empty':
            return tm.eq(self.tok(st, vals[0]), ZERO), st
        if meth == 'clear':
            self.settok(st, vals[0], ZERO)
            return None, st
        if meth in ('operator[]', 'at'):
            t = self.tok(st, vals[0])
            k = vals[1]
            n = self.strlen(t)
            ok = tm.aand(tm.le(ZERO, k), tm.lt(k, n) if meth == 'at' else tm.le(k, n))
            self.require(st, ok, 'string index in range')
            r = e.newregion('N')
            st.mem[(r, (0,))] = tm.uf('strchar', [t, k], I)
            return tm.addr(r, (0,)), st
        if meth == 'c_str' or meth == 'data':
            raise ex.Unsupported('c_str')
        if meth == 'compare':
            a = self.tok(st, vals[0])
            b = self.tokof(st, vals[1], params)
            return tm.ite(tm.eq(a, b), ZERO, tm.uf('strcmp', [a, b], I)), st
        raise ex.Unsupported('string::%s(%s)' % (meth, params))
