"""Loops: unrolled when control is decided, otherwise summarised.

Summary of a loop with entry state S0, iteration number k:
  * induction variables        v(k) = v0 + c*k
  * derived cells              v(k) = k==0 ? v0 : body(k-1)
  * latches                    v(k) = (exists j<k. c(j)) ? const : v0
  * accumulators               v(k) = v0 + sum(j<k) d(j)
  * array fills                v(k) = \\i. i0<=i<i0+k ? body(i-i0) : v0[i]
  * anything else              v(k) = F(k, values read at loop entry)   (F uninterpreted:
                               the loop is a deterministic function of what it reads)
The exit state is the body run up to the exit edge at iteration K where
K = F'(values read at loop entry), the path condition being
  K>=0 and (forall j<K. iteration j continues) and iteration K exits.
"""
import terms as tm
from terms import B, I, R, P, A, TRUE, FALSE, NULL
import exec as ex
from exec import State

ONE = tm.num(1, I)
ZERO = tm.num(0, I)


def unread_elements(v):
    """elements outside a container are never read (the range obligations), so which container they are
    outside of does not matter"""
    ren = {t: tm.sym('undef.elements', t.sort) for t in tm.subterms([v])
           if t.op == 'sym' and isinstance(t.sort, tuple) and t.args[0].startswith('undef.')}
    return tm.subst(v, ren) if ren else v


def bdepth(t, cache={}):
    """binder depth below t"""
    r = cache.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in cache:
            stack.pop()
            continue
        ch = tm.children(x)
        todo = [c for c in ch if c not in cache]
        if todo:
            stack.extend(todo)
            continue
        d = max([cache[c] for c in ch] or [0])
        if x.op == 'sym' and x.args[0].startswith('bv@'):
            d = max(d, int(x.args[0][3:]))
        cache[x] = d
        stack.pop()
    return cache[t]


def bindvar(*bodies):
    d = max([bdepth(b) for b in bodies] or [0])
    return tm.sym('bv@%d' % (d + 1), I)


def mklam(k, body):
    """\\j. body[k:=j] with a canonical variable"""
    j = bindvar(body)
    return tm.lam(j, tm.subst(body, {k: j}))


def mkforall(k, hi, body):
    """forall j. 0<=j<hi -> body[k:=j]"""
    if body is TRUE:
        return TRUE
    if tm.is_num(hi):
        n = tm.numval(hi)
        if n <= 8:
            return tm.aand(*[tm.subst(body, {k: tm.num(x, I)}) for x in range(max(0, n))])
    j = bindvar(body, hi)
    b = tm.subst(body, {k: j})
    return tm.forall([j], tm.implies(tm.aand(tm.le(ZERO, j), tm.lt(j, hi)), b))


def mksum(k, hi, body):
    """sum of body[k:=j] for 0<=j<hi"""
    if tm.is_num(body) and tm.numval(body) == 0:
        return body
    if tm.is_num(body):
        h = tm.ite(tm.lt(ZERO, hi), hi, ZERO) if not tm.is_num(hi) else tm.num(max(0, tm.numval(hi)), I)
        return tm.scale(tm.toreal(h) if body.sort == R else h, tm.numval(body))
    if tm.is_num(hi) and tm.numval(hi) <= 40:
        parts = [tm.subst(body, {k: tm.num(x, I)}) for x in range(max(0, tm.numval(hi)))]
        return tm.add(*parts) if parts else tm.num(0, body.sort)
    return tm.sumterm(mklam(k, body), hi, body.sort)


def delta(n, h):
    if n.op == 'ite':
        a, b = delta(n.args[1], h), delta(n.args[2], h)
        if a is None or b is None:
            return None
        return tm.ite(n.args[0], a, b)
    if n.op == 'poly':
        # a choice between increments within a sum
        inner = [(m, c) for m, c in n.args if any(occurs(x, {h}, {}) for x, _ in m)]
        if len(inner) == 1 and inner[0][1] == 1 and len(inner[0][0]) == 1 and inner[0][0][0][1] == 1 \
                and inner[0][0][0][0].op == 'ite':
            x = inner[0][0][0][0]
            d = delta(x, h)
            return None if d is None else tm.add(tm.sub(n, x), d)
    return tm.sub(n, h)


def occurs(t, syms, cache):
    r = cache.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in cache:
            stack.pop()
            continue
        if x in syms:
            cache[x] = True
            stack.pop()
            continue
        ch = tm.children(x)
        todo = [c for c in ch if c not in cache]
        if todo:
            stack.extend(todo)
            continue
        cache[x] = any(cache[c] for c in ch)
        stack.pop()
    return cache[t]


def run_loop(e, f, frame, header, blocks, incoming):
    incoming = [(s, fr) for s, fr in incoming if s.pc is not FALSE]
    if not incoming:
        return []
    if f.blocks[header] and f.blocks[header][0].op == 'phi':
        raise ex.Unsupported('loop header with phi')
    cap_decided = e.config.get('unroll', 700)
    cap_partial = e.config.get('unroll_partial', 12)
    cur, _ = e.merge([s for s, fr in incoming])
    if cur is None:
        return []
    entry = State(dict(cur.mem), cur.pc)
    regs0 = dict(frame['regs'])
    nrets = len(frame['rets'])
    mark = len(e.obls)
    outs_total = []
    it = partial = 0
    while True:
        hd = decided_header(e, f, frame, header, blocks, [(State(dict(cur.mem), TRUE), 'loop')])
        if hd == 'sym':
            # what is known here may decide positions, not the exit test of a search for a value
            hd = decided_header(e, f, frame, header, blocks, [(State(dict(cur.mem), cur.pc), 'loop')])
        if hd in ('sym', 'real'):
            return outs_total + summarise(e, f, frame, header, blocks, cur, None)
        steps0 = e.steps
        nr = len(frame['rets'])
        exits = e.run_region(f, frame, header, [(State(dict(cur.mem), cur.pc), 'loop')], blocks)
        back = [s for t, s, fr in exits if t == header and e.feasible(s.pc)]
        outs = [(t, s, fr) for t, s, fr in exits if t != header]
        outs_total += outs
        it += 1
        if not back:
            return outs_total
        if outs or len(frame['rets']) > nr:
            partial += 1
            if partial >= cap_partial or (partial >= 2 and e.steps - steps0 > 3000):
                del e.obls[mark:]
                del frame['rets'][nrets:]
                frame['regs'].clear()
                frame['regs'].update(regs0)
                return summarise(e, f, frame, header, blocks, entry, None)
        elif it > cap_decided:
            raise ex.Unsupported('unrolling limit in %s' % f.name)
        cur, _ = e.merge(back)


def decided_header(e, f, frame, header, blocks, incoming):
    """'true' if the first branch that can leave the loop folds to a constant,
    'sym' if it is symbolic"""
    # follow unconditional flow from the header executing blocks until a branch
    # with an edge out of the loop is met
    regs0 = dict(frame['regs'])
    nr = len(frame['rets'])
    e.quiet += 1
    nl = e.nloc
    try:
        label = header
        inc = incoming
        for _ in range(6):
            outs = e.run_block(f, frame, label, inc)
            outs = [o for o in outs if o[1].pc is not FALSE]
            if not outs:
                return 'true'
            ins = [o for o in outs if o[0] in blocks]
            if len(outs) == 1:
                t = outs[0]
                succ = e.cfg(f)[0][label]
                if len(succ) > 1 and any(x not in blocks for x in succ):
                    return 'true'
                if t[0] not in blocks or t[0] == header:
                    return 'true'
                label, inc = t[0], [(t[1], t[2])]
                continue
            if len(ins) < len(outs):
                return symbolic([s for t, s, fr in outs])
            # internal symbolic branch before any exit test (do-while shape, &&)
            return internal(e, f, frame, header, blocks, outs)
        return 'true'
    finally:
        e.quiet -= 1
        frame['regs'].clear()
        frame['regs'].update(regs0)
        del frame['rets'][nr:]


def symbolic(states):
    """'real' if the branch depends on real values, 'sym' otherwise"""
    return 'real' if any(t.sort == R for t in tm.subterms([s.pc for s in states])) else 'sym'


def internal(e, f, frame, header, blocks, outs):
    # short-circuit conditions: run the merged continuation one level
    pend = {}
    rpo = e.cfg(f)[1]
    for t, s, fr in outs:
        pend.setdefault(t, []).append((s, fr))
    for _ in range(8):
        if not pend:
            return 'true'
        b = min(pend, key=lambda x: rpo[x])
        if b == header:
            return 'true'
        if b in e.cfg(f)[3]:
            return 'true'
        inc = pend.pop(b)
        o2 = [o for o in e.run_block(f, frame, b, inc) if o[1].pc is not FALSE]
        if any(o[0] not in blocks for o in o2):
            if len(o2) > 1 or pend:
                return symbolic([s for t, s, fr in o2] + [s for v in pend.values() for s, fr in v])
            return 'true'
        for t, s, fr in o2:
            pend.setdefault(t, []).append((s, fr))
    return 'true'


def shape_of(p, acc):
    if p.op == 'ite':
        shape_of(p.args[1], acc)
        shape_of(p.args[2], acc)
    elif p.op == 'addr':
        acc.setdefault(('addr', p.args[0], p.args[1], len(p.args[2])), []).append(p.args[2])
    elif p.op == 'null':
        acc.setdefault(('null',), [])
    else:
        acc.setdefault(('term', p), [])


def havoc_ptr(values, name, cells):
    """fresh pointer covering the shapes of the given pointer values; idx symbols are
    registered in `cells` as pseudo integer cells"""
    acc = {}
    for v in values:
        shape_of(v, acc)
    shapes = list(acc)
    alts = []
    for n, sh in enumerate(shapes):
        if sh[0] == 'null':
            alts.append(NULL)
        elif sh[0] == 'term':
            alts.append(sh[1])
        else:
            idx = []
            for d in range(sh[3]):
                vals = {ix[d] for ix in acc[sh]}
                if len(vals) == 1:
                    idx.append(vals.pop())
                else:
                    s = tm.sym('h.%s.%d.%d' % (name, n, d), I)
                    idx.append(s)
                    cells.append((s, n, d, sh))
            alts.append(tm.addr(sh[1], sh[2], tuple(idx)))
    r = alts[-1]
    sels = []
    for n, a in reversed(list(enumerate(alts[:-1]))):
        s = tm.sym('hs.%s.%d' % (name, n), B)
        sels.append((s, n, shapes[n]))
        r = tm.ite(s, a, r)
    return r, sels, shapes


def ptr_component(p, what):
    """extract component (selector or index) of pointer term p; None if absent"""
    kind = what[0]
    if kind == 'sel':
        sh = what[1]
        if p.op == 'ite':
            return tm.ite(p.args[0], ptr_component(p.args[1], what), ptr_component(p.args[2], what))
        return tm.boolc(shape_key(p) == sh)
    _, d, sh = what
    if p.op == 'ite':
        a, b = ptr_component(p.args[1], what), ptr_component(p.args[2], what)
        if a is None:
            return b
        if b is None:
            return a
        return tm.ite(p.args[0], a, b)
    if shape_key(p) == sh:
        return p.args[2][d]
    return None


def shape_key(p):
    if p.op == 'addr':
        return ('addr', p.args[0], p.args[1], len(p.args[2]))
    if p.op == 'null':
        return ('null',)
    return ('term', p)


_counter = [0]


def summarise(e, f, frame, header, blocks, S0, incoming):
    _counter[0] += 1
    lid = _counter[0]
    if _counter[0] > 20000:
        raise ex.Budget('loops')
    base_regs = dict(frame['regs'])
    nrets = len(frame['rets'])
    existing = set(k[0] for k in S0.mem) | set(e.regionkind) | {'heap'}
    W = {}           # key -> (depth, sort)
    ptrvals = {}
    H = {}
    back = None
    rounds = 0
    outer_read, outer_write, outer_trace = e.readlog, e.writelog, e.trace
    facts_mark = len(e.facts)
    while True:
        rounds += 1
        if rounds > 8:
            raise ex.Unsupported('loop analysis does not converge in %s' % f.name)
        # havoc
        st = State(dict(S0.mem), S0.pc)
        H = {}
        pcomp = []       # (symbol, key, what)
        for key, (depth, sort) in W.items():
            nm = '%d.%s%s' % (lid, key[0], ''.join('.%s' % (x,) for x in key[1]))
            if sort == P and depth == 0:
                cells = []
                hv, sels, shapes = havoc_ptr(ptrvals[key], nm, cells)
                st.mem[key] = hv
                for (s, n, d, sh) in cells:
                    pcomp.append((s, key, ('idx', d, sh)))
                for (s, n, sh) in sels:
                    pcomp.append((s, key, ('sel', sh)))
            else:
                h = tm.sym('h.' + nm, ex.arrsort(depth, sort))
                v0 = S0.mem.get(key)
                if depth == 0 and sort == I and v0 is not None and (v0 in (ZERO, ONE) or
                                                                   (v0.op == 'ite' and set(leaves01(v0)) <= {ZERO, ONE})) \
                        and boolish(e, key, W, ptrvals):
                    hb = tm.sym('hb.' + nm, B)
                    st.mem[key] = tm.ite(hb, ONE, ZERO)
                    H[hb] = (key, 'bool')
                    continue
                st.mem[key] = h
                H[h] = (key, None)
        for s, key, what in pcomp:
            H[s] = (key, what)
        frame['regs'].clear()
        frame['regs'].update(base_regs)
        del frame['rets'][nrets:]
        m_obl = len(e.obls)
        facts_mark = len(e.facts)
        e.readlog, e.writelog, e.trace = {}, {}, None
        k0 = e.nloc
        try:
            exits = e.run_region(f, frame, header, [(st, 'loop')], blocks)
        finally:
            rl, wl = e.readlog, e.writelog
            e.readlog, e.writelog, e.trace = outer_read, outer_write, outer_trace
        rets = frame['rets'][nrets:]
        backs = [s for t, s, fr in exits if t == header]
        outs = [(t, s, fr) for t, s, fr in exits if t != header]
        bst, _ = e.merge(backs) if backs else (None, None)
        # new modified cells
        grew = False
        if bst is not None:
            for key in list(wl):
                if key[0] not in existing:
                    continue
                depth, sort = wl[key]
                cur = bst.mem.get(key)
                old = S0.mem.get(key)
                if key not in W:
                    if cur is None or cur is old:
                        continue
                    if old is None and e.regionkind.get(key[0]) in ('L', 'N') and not e.shadow.get(key[0]):
                        # loop-local temporary: indeterminate at entry
                        old = e.readcell(S0, key[0], key[1], depth, sort)
                    elif old is None:
                        old = e.readcell(S0, key[0], key[1], depth, sort)
                    S0.mem.setdefault(key, old)
                    W[key] = (depth, sort)
                    grew = True
                    if sort == P and depth == 0:
                        ptrvals[key] = [S0.mem[key], cur]
                elif sort == P and depth == 0:
                    acc, acc2 = {}, {}
                    for v in ptrvals[key]:
                        shape_of(v, acc)
                    shape_of(cur, acc2)
                    if not set(acc2) <= set(acc):
                        ptrvals[key].append(cur)
                        grew = True
                    else:
                        for sh in acc2:
                            if sh[0] == 'addr':
                                for d in range(sh[3]):
                                    had = {ix[d] for ix in acc[sh]}
                                    new = {ix[d] for ix in acc2[sh]}
                                    if len(had) == 1 and not new <= had:
                                        ptrvals[key].append(cur)
                                        grew = True
                                        break
        if not grew:
            break
        del e.obls[m_obl:]
        del frame['rets'][nrets:]
        # quick classification data for boolean cells
        W_bool_update(e, W, bst, S0)
    if outer_read is not None:
        for key in rl:
            outer_read.setdefault(key, rl[key])
    if outer_write is not None:
        for key in wl:
            outer_write.setdefault(key, wl[key])
    if bst is None:
        # body never comes back: executed at most once
        return outs
    # ---------------------------------------------------------------- closed forms
    k = tm.sym('k.%d' % lid, I)
    newv = {}
    initv = {}
    for h, (key, what) in H.items():
        n = bst.mem.get(key)
        v0 = S0.mem.get(key)
        if what is None:
            newv[h], initv[h] = n, v0
        elif what == 'bool':
            newv[h] = tm.nnot(tm.eq0(n))
            initv[h] = tm.nnot(tm.eq0(v0))
        else:
            a, b = ptr_component(n, what), ptr_component(v0, what)
            if b is None:
                b = a if (a is not None and what[0] == 'idx') else ZERO
                if what[0] == 'idx':
                    b = tm.sym('undef.idx', I)
            if a is None:
                a = h
            newv[h], initv[h] = a, b
    sol = {}
    pending = dict(newv)
    cont_raw = strip(bst.pc, S0.pc)

    def apply_sol(t):
        return tm.subst(t, sol) if sol else t

    # induction variables first
    def resolve():
        progress = True
        while progress and pending:
            progress = False
            unresolved = set(pending)
            occ = {}
            for h in list(pending):
                n = apply_sol(pending[h])
                v0 = initv[h]
                if n is h:
                    sol[h] = v0
                    kind = 'const'
                elif h.sort in (I, R) and not occurs(tm.sub(n, h), unresolved, occ) and tm.is_num(tm.sub(n, h)):
                    c = tm.numval(tm.sub(n, h))
                    kk = tm.toreal(k) if h.sort == R else k
                    sol[h] = tm.add(v0, tm.scale(kk, c))
                    kind = 'ind'
                elif not occurs(n, unresolved, occ):
                    # derived from resolved quantities of the previous iteration
                    prev = tm.subst(n, {k: tm.sub(k, ONE)})
                    if v0.op == 'sym' and v0.args[0].startswith('undef.'):
                        sol[h] = tm.ite(tm.eq(k, ZERO), v0, prev)
                    else:
                        sol[h] = tm.ite(tm.eq(k, ZERO), v0, prev)
                    kind = 'derived'
                else:
                    r = None
                    if h.sort == B:
                        r = latch(h, n, v0, k, unresolved, occ)
                    elif h.sort in (I, R):
                        d = delta(n, h)
                        if d is not None and not occurs(d, unresolved, occ):
                            r = tm.add(v0, mksum(k, k, d))
                        else:
                            r = latch(h, n, v0, k, unresolved, occ)
                    elif isinstance(h.sort, tuple):
                        r = fill(h, n, v0, k, unresolved, occ)
                    if r is None:
                        continue
                    sol[h] = r
                    kind = 'closed'
                del pending[h]
                progress = True
                unresolved = set(pending)
                occ = {}
                break
    resolve()
    # arrays the loop only appends to: what they held before is not read
    unread = set()
    for h, (key, what) in H.items():
        if isinstance(h.sort, tuple) and not isinstance(h.sort[1], tuple) and what is None \
                and appended_only(e, h, newv, cont_raw, bst.pc, k, apply_sol, set(pending), S0.pc):
            unread.add(key)
    snaps = sorted({t.args[-1] for t in tm.subterms([bst.mem[n] for n in wl if n in bst.mem] + [bst.pc])
                    if t.op == 'uf' and t.args[0].startswith('state.')}, key=tm.numval)
    reads = []
    for key, (depth, sort) in rl.items():
        if key[0] not in existing or key in unread:
            continue
        v = S0.mem.get(key)
        if v is None:
            v = e.readcell(State(S0.mem, S0.pc), key[0], key[1], depth, sort)
        if v.op == 'sym' and v.args[0].startswith('undef.'):
            continue
        if v.sort == P:
            # objects that exist outside: which ones; own objects: their content is read as well
            v = foreign(v, e) if snaps else position(v)
            if v is None or v is NULL:
                continue
        if isinstance(v.sort, tuple):
            v = unread_elements(v)
        reads.append((key, v))
    sig = 'loop:%s:%s:%s' % (e.p.demangle(f.name).split('(')[0], header,
                             ';'.join('.'.join(str(x) for x in key[1]) for key, v in reads))
    import zlib
    sig = 'L%08x_%s' % (zlib.crc32(sig.encode()), e.p.demangle(f.name).split('(')[0].split('::')[-1])
    rv = [v for key, v in reads]
    rv += snaps
    # the others are deterministic functions of the entry values
    order = list(H)
    twins = {}
    recs = []
    group = []
    unresolved_total = 0
    while pending:
        done = False
        for h in list(pending):
            if isinstance(h.sort, tuple) and not isinstance(h.sort[1], tuple):
                r = recurrence(e, h, apply_sol(newv[h]), initv[h], k, set(pending), '%s#%d' % (sig, order.index(h)), rv, S0.pc)
                if r is not None:
                    sol[h] = r[0]
                    recs.append(r[1])
                    del pending[h]
                    done = True
        if not done:
            flat = [h for h in pending if not isinstance(h.sort, tuple)] or list(pending)
            for h in flat:
                # cells that start alike and are set alike stay alike
                h0 = twins.setdefault((newv[h], initv[h], h.sort), h)
                n = order.index(h0)
                F = lambda x: tm.uf('%s#%d' % (sig, n), [x] + rv, h.sort)
                if isinstance(h.sort, tuple):
                    sol[h] = F(k)
                else:
                    sol[h] = tm.ite(tm.eq(k, ZERO), initv[h], F(k))
                    if h0 is h and h.sort in (I, R):
                        group.append((h, F(tm.add(k, ONE))))
                del pending[h]
                unresolved_total += 1
        resolve()
    if e.recurrences:
        for h, nxt in group:
            if not any(occurs(newv[x], {h}, {}) for x in newv if x is not h) and not occurs(cont_raw, {h}, {}):
                continue
            body = tm.eq(nxt, apply_sol(newv[h]))
            t = bindvar(body)
            recs.append(tm.forall([t], tm.implies(tm.le(ZERO, t), tm.subst(body, {k: t}))))
    e.loopinfo[(f.name, header)] = {'cells': len(H), 'unresolved': unresolved_total}
    def close(t):
        return tm.subst(t, sol)

    # obligations of the body at an arbitrary iteration k
    contk = close(cont_raw)
    bound = linear_bound(contk, k)
    if bound is not None:
        # iterations continue exactly while k < bound
        K = bound if e.entails(S0.pc, tm.le(ZERO, bound)) else tm.ite(tm.le(bound, ZERO), ZERO, bound)
        prior = tm.implies(tm.lt(ZERO, k), tm.le(k, bound))
        priorK = TRUE
    else:
        K = tm.uf(sig + '#K', rv, I)
        e.fact(tm.le(ZERO, K))
        prior = mkforall(k, k, contk)
        priorK = mkforall(k, K, contk)
    inv = tm.aand(*recs)
    kfacts = tm.aand(tm.le(ZERO, k), prior, inv)
    for o in e.obls[m_obl:]:
        o.pc = tm.aand(close(o.pc), kfacts)
        o.cond = close(o.cond)
    for t in list(e.facts[facts_mark:]):
        e.fact(close(t))
        e.fact(tm.subst(close(t), {k: K}))
    # exits at K
    mp = {}

    def atK(t):
        return tm.subst(tm.subst(t, sol), {k: K})
    exitfacts = tm.aand(tm.le(ZERO, K), priorK, tm.subst(inv, {k: K}))
    regs = frame['regs']

    def subst_state(s):
        mem = {}
        for key, v in s.mem.items():
            if key in W or S0.mem.get(key) is not v:
                mem[key] = atK(v)
            else:
                mem[key] = v
        own = strip(s.pc, S0.pc)
        return State(mem, tm.aand(S0.pc, exitfacts, atK(own)))
    res = []
    for t, s, fr in outs:
        res.append((t, subst_state(s), fr))
    for n in range(nrets, len(frame['rets'])):
        s, v = frame['rets'][n]
        if isinstance(v, tuple):
            v = tuple(atK(x) for x in v)
        elif v is not None:
            v = atK(v)
        frame['rets'][n] = (subst_state(s), v)
    for r in list(regs):
        v = regs[r]
        if base_regs.get(r) is not v:
            if isinstance(v, tm.T):
                regs[r] = atK(v)
            elif isinstance(v, tuple):
                regs[r] = tuple(atK(x) for x in v)
    return res


def linear_bound(c, k):
    """c(k) <=> k < bound, bound free of k"""
    if c.op != 'le0' or c.args[0].sort != I:
        return None
    b = tm.sub(tm.num(1, I), tm.sub(c.args[0], k))    # k + a <= 0  <=>  k < 1 - a
    return None if occurs(b, {k}, {}) else b


def foreign(p, e):
    if p.op == 'ite':
        return tm.ite(p.args[0], foreign(p.args[1], e), foreign(p.args[2], e))
    if p.op == 'addr' and e.regionkind.get(p.args[0]) in ('L', 'N'):
        return NULL
    return p


def position(p):
    """the content behind an address is read on its own: which element it is"""
    if p.op == 'ite':
        a, b = position(p.args[1]), position(p.args[2])
        return p if a is None or b is None or a.sort != b.sort else tm.ite(p.args[0], a, b)
    if p.op == 'addr':
        if all(tm.is_num(x) for x in p.args[2]):
            return None
        return p.args[2][0] if len(p.args[2]) == 1 else p
    return p


def asstore(n, h):
    """n as one store into h"""
    if n.op != 'ite':
        return n
    a, b = asstore(n.args[1], h), asstore(n.args[2], h)
    if a.op == 'store' and b.op == 'store' and a.args[0] is h and b.args[0] is h:
        i = a.args[1] if a.args[1] is b.args[1] else tm.ite(n.args[0], a.args[1], b.args[1])
        return tm.store(h, i, tm.ite(n.args[0], a.args[2], b.args[2]))
    return n


def appended_only(e, h, newv, cont, bpc, k, apply_sol, others, pc):
    n = asstore(newv[h], h)
    if n.op != 'store' or n.args[0] is not h:
        return False
    i, val = apply_sol(n.args[1]), n.args[2]
    i0 = tm.sub(i, k)
    if occurs(i, others, {}) or occurs(i0, {k}, {}):
        return False
    us = []
    g0 = TRUE
    for v in [val, cont, bpc] + [v for x, v in newv.items() if x is not h and v is not None]:
        for g, x in uses(v, h, g0):
            us.append((apply_sol(g), x and apply_sol(x)))
    return within(e, us, pc, i0, i, k)


def within(e, us, pc, lo, hi, k):
    """every read is at an index in [lo, hi)"""
    n = tm.sym('iteration', I)       # k is known not to be negative by its name: say so
    pc = tm.aand(pc, tm.le(ZERO, n))
    lo, hi = tm.subst(lo, {k: n}), tm.subst(hi, {k: n})
    for g, x in us:
        if x is None:
            return False
        g, x = tm.subst(g, {k: n}), tm.subst(x, {k: n})
        x = tm.subst(x, {a: TRUE for a in e_lits(g)} | {tm.nnot(a): FALSE for a in e_lits(g)})
        if not e.entails(tm.aand(pc, g), tm.aand(tm.le(lo, x), tm.lt(x, hi))):
            return False
    return True


def recurrence(e, h, n, v0, k, others, name, rv, pc):
    """n = store(h, i0+k, val(k, h)): the content written is defined from what was written before"""
    n = asstore(n, h)
    if n.op != 'store' or n.args[0] is not h:
        return None
    i, val = n.args[1], n.args[2]
    if occurs(i, others, {}) or occurs(val, others - {h}, {}) or occurs(i, {h}, {}):
        return None
    i0 = tm.sub(i, k)
    if occurs(i0, {k}, {}):
        return None
    # does it read only what the loop wrote?
    own = within(e, uses(val, h, TRUE), pc, i0, i, k)
    F = tm.uf(name, [v for v in rv if not (own and v is v0)], h.sort)

    def content(kk, j):
        rel = tm.sub(j, i0)
        return tm.ite(tm.aand(tm.le(i0, j), tm.lt(rel, kk)), tm.select(F, rel), tm.select(v0, j))
    j = bindvar(val, i0, k, v0)
    sol = tm.lam(j, content(k, j))
    j2 = bindvar(val, i0, v0)
    body = tm.subst(val, {h: tm.lam(j2, tm.select(F, tm.sub(j2, i0)) if own else content(k, j2))})
    t = bindvar(body, F)
    body = tm.subst(body, {k: t})
    return sol, tm.forall([t], tm.implies(tm.le(ZERO, t), tm.eq(tm.select(F, t), body)))


def uses(t, h, g):
    """[(guard, index)] of the reads of array h in t; index None: another use"""
    if not occurs(t, {h}, {}):
        return []
    if t.op == 'ite':
        return uses(t.args[0], h, g) + uses(t.args[1], h, tm.aand(g, t.args[0])) \
            + uses(t.args[2], h, tm.aand(g, tm.nnot(t.args[0])))
    if t.op == 'select' and t.args[0] is h:
        return uses(t.args[1], h, g) + [(g, t.args[1])]
    if t is h:
        return [(g, None)]
    out = []
    for c in tm.children(t):
        out += uses(c, h, g)
    return out


def leaves01(t):
    if t.op == 'ite':
        return leaves01(t.args[1]) + leaves01(t.args[2])
    return [t]


def boolish(e, key, W, ptrvals):
    return ptrvals.get(('bool', key), False)


def W_bool_update(e, W, bst, S0):
    return


def strip(pc, base):
    b = e_lits(base)
    return tm.aand(*[c for c in e_lits(pc) if c not in b])


def e_lits(pc):
    if pc is TRUE:
        return set()
    return set(pc.args) if pc.op == 'and' else {pc}


def keeps(n, h):
    """the condition under which the choice n is h, and the one other value it takes (None: there are more)"""
    if n is h:
        return TRUE, h
    if n.op != 'ite':
        return FALSE, n
    (k1, a1), (k2, a2) = keeps(n.args[1], h), keeps(n.args[2], h)
    a = a1 if a2 is h else a2 if a1 is h or a1 is a2 else None
    return tm.oor(tm.aand(n.args[0], k1), tm.aand(tm.nnot(n.args[0]), k2)), a


def latch(h, n, v0, k, unresolved, occ):
    """n = ite(c, const, h)"""
    if n.op == 'ite':
        keep, a = keeps(n, h)
        if a is None or occurs(keep, unresolved, occ) or occurs(a, unresolved, occ) or occurs(a, {k}, {}):
            return None
        return tm.ite(mkforall(k, k, keep), v0, a)
    if h.sort == B:
        # n = h and c   |  n = h or c
        if n.op == 'and' and h in n.args:
            c = tm.aand(*[x for x in n.args if x is not h])
            if not occurs(c, unresolved, occ):
                return tm.aand(v0, mkforall(k, k, c))
        if n.op == 'or' and h in n.args:
            c = tm.oor(*[x for x in n.args if x is not h])
            if not occurs(c, unresolved, occ):
                return tm.oor(v0, tm.nnot(mkforall(k, k, tm.nnot(c))))
    return None


def fill(h, n, v0, k, unresolved, occ):
    """n = store(h, i0+k, val(k))"""
    n = asstore(n, h)
    if n.op != 'store' or n.args[0] is not h:
        return None
    i, val = n.args[1], n.args[2]
    if occurs(i, unresolved, occ) or occurs(val, unresolved, occ):
        return None
    i0 = tm.sub(i, k)
    if occurs(i0, {k}, {}):
        return None
    j = bindvar(val, i0, k, v0)
    rel = tm.sub(j, i0)
    body = tm.ite(tm.aand(tm.le(i0, j), tm.lt(rel, k)), tm.subst(val, {k: rel}), tm.select(v0, j))
    return tm.lam(j, body)


