"""Runs contracts: builds IR from /repo's current sources, executes every contract
symbolically, discharges its obligations."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import terms as tm
from terms import B, I, R, P, TRUE, FALSE
import irparse
import exec as ex
import prove
import smt

REPO = os.environ.get('OTLS_REPO', '/repo')
VERIF = os.path.dirname(HERE)
CLANG = 'clang++-18'
IRFLAGS = ['-std=c++11', '-O0', '-g', '-fno-exceptions', '-fno-discard-value-names', '-fno-access-control',
           '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-w', '-fstandalone-debug']


def sources(repo=None):
    repo = repo or REPO
    out = []
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in sorted(fs):
            if f.endswith('.cc'):
                out.append(os.path.join(d, f))
    return sorted(out)


def compile_one(job):
    src, out, extra = job
    p = subprocess.run([CLANG] + IRFLAGS + extra + ['-I' + os.path.join(REPO, 'include'), src, '-o', out],
                       capture_output=True, text=True)
    return src, p.returncode, p.stderr[-3000:]


class BuildError(Exception):
    pass


def build(contracts, work, only=None):
    jobs = []
    outs = []
    for s in sources():
        o = os.path.join(work, os.path.relpath(s, REPO).replace('/', '_')[:-3] + '.ll')
        jobs.append((s, o, []))
        outs.append(o)
    for c in contracts:
        o = os.path.join(work, 'contract_' + os.path.basename(c)[:-3] + '.ll')
        jobs.append((c, o, ['-DOTLS_SYMBOLIC', '-I' + os.path.join(VERIF, 'contracts')]))
        outs.append(o)
    cache = os.environ.get('OTLS_IRCACHE')
    with mp.Pool(min(8, os.cpu_count() or 4)) as pool:
        res = pool.map(compile_one, jobs, chunksize=1)
    for s, rc, err in res:
        if rc:
            raise BuildError('%s does not compile:\n%s' % (s, err))
    return outs


# ---------------------------------------------------------------- arguments

INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'char'}


def params_of(prog, name):
    dem = prog.demangle(name)
    s = dem[dem.index('(') + 1:dem.rindex(')')]
    return ex.split_targs(s)


def clean(t):
    t = t.strip()
    while True:
        u = re.sub(r'\s*(const|&|\*)$', '', t)
        u = re.sub(r'^const\s+', '', u).strip()
        if u == t:
            return t
        t = u


def symbolic_args(e, st, name):
    out = []
    for k, p in enumerate(params_of(e.p, name)):
        base = clean(p)
        indirect = p.rstrip().endswith('*') or '&' in p
        region = 'A%d' % k
        if indirect:
            e.make_symbolic(st, region, base)
            out.append(tm.addr(region, (0,)))
        elif base == 'double':
            out.append(tm.sym('in.%s.0:R' % region, R))
        elif base == 'bool':
            out.append(tm.sym('in.%s.0:Ib' % region, B))
        elif base in INTS:
            out.append(tm.sym('in.%s.0:I' % region, I))
        else:
            en = e.p.di.enumerators(base)
            v = tm.sym('in.%s.0:I' % region, I)
            if en:
                e.fact(tm.aand(tm.le(tm.num(min(en), I), v), tm.le(v, tm.num(max(en), I))))
            else:
                raise ex.Unsupported('parameter type %s' % p)
            out.append(v)
    return out


def contract_names(prog, cfile=None):
    out = []
    for n, f in prog.funcs.items():
        d = prog.demangle(n)
        if re.match(r'[KL]_\w+\(', d):
            if cfile is None or os.path.basename(f.module.name) == 'contract_' + os.path.basename(cfile)[:-3] + '.ll':
                out.append((d.split('(')[0], n))
    return sorted(out)


def run_contract(prog, name, config, budget=90.0, wall=600.0, verbose=False):
    """execute one contract; returns a result dictionary"""
    t0 = time.time()
    res = {'contract': prog.demangle(name).split('(')[0], 'obligations': [], 'error': None}
    e = ex.Executor(prog, config)
    try:
        st = ex.State({}, TRUE)
        args = symbolic_args(e, st, name)
        w = prog.funcs[name]
        v, st2 = e.call_function(w, args, st)
        res['exec_time'] = round(time.time() - t0, 2)
    except (ex.Unsupported, ex.Budget) as err:
        res['error'] = '%s: %s' % (type(err).__name__, err)
        res['where'] = e.where()
        st2 = None
    except RecursionError:
        res['error'] = 'recursion limit'
        st2 = None
    res['functions'] = sorted(d for d in e.inlined if not re.match(r'[KL]_|S__Z', d))
    res['replaced'] = dict(e.replaced)
    res['lemmas'] = dict(e.lemmas)
    res['models'] = dict(e.modelled)
    res['mathfacts'] = list(e.assumed)
    res['loops'] = {'%s:%s' % k: v for k, v in e.loopinfo.items()}
    res['undefs'] = e.undefs
    res['steps'] = e.steps
    pr = prove.Prover(e.facts, budget)
    # group identical obligations
    seen = {}
    nfail = 0
    for o in e.obls:
        key = (o.kind, o.name, o.pc, o.cond)
        if key in seen:
            continue
        seen[key] = 1
        if time.time() - t0 > wall:
            ok, how, dt = False, 'wall clock exhausted', 0
        elif nfail >= 6:
            ok, how, dt = False, 'not tried', 0
        else:
            t1 = time.time()
            ok, how = pr.prove(o.pc, o.cond)
            dt = time.time() - t1
        d = {'kind': o.kind, 'name': o.name, 'where': o.where, 'ok': bool(ok), 'how': how, 'time': round(dt, 3)}
        if not ok:
            nfail += 1
            if how != 'not tried':
                d['model'] = find_model(pr, o)
            if getattr(pr, 'failed', None) and verbose:
                d['leaf_hyps'] = [tm.show(h, 8)[:600] for h in pr.failed[0]]
                d['leaf_goal'] = tm.show(pr.failed[1], 12)[:4000]
        res['obligations'].append(d)
        if verbose:
            print('%s %-6s %s: %s [%s] %.2fs %s' % ('ok  ' if ok else 'FAIL', o.kind, res['contract'], o.name, how, dt,
                                                o.where if not ok or o.kind == 'safety' else ''), flush=True)
            if not ok and 'leaf_goal' in d:
                print('   goal:', d['leaf_goal'][:int(os.environ.get('GOALW','1500'))])
                for h in d['leaf_hyps'][:30]:
                    print('   hyp:', h[:300])
    # vacuity: the end of the contract must be reachable
    res['reachable'] = None
    if st2 is not None:
        res['reachable'] = not proved_false(pr, st2.pc)
        for nm, pc in e.reach:
            if proved_false(pr, pc):
                res['reachable'] = False
                res.setdefault('unreachable', []).append(nm)
    res['time'] = round(time.time() - t0, 2)
    res['solver_time'] = round(pr.ztime, 2)
    return res


def proved_false(pr, pc):
    if pc is FALSE:
        return True
    if pc is TRUE:
        return False
    pr.deadline = time.time() + 10
    hyps = list(pc.args) if pc.op == 'and' else [pc]
    try:
        return pr.z3check(hyps, FALSE, lin=True, timeout=1500, fas=None) or \
            pr.z3check(hyps, FALSE, lin=False, timeout=1500, fas=None)
    except prove.Timeout:
        return False


def find_model(pr, o):
    """candidate input values from the solver for pc & !cond"""
    import z3
    out = {}
    try:
        hyps = list(o.pc.args) if o.pc.op == 'and' else [o.pc]
        hyps = [h for h in hyps if h.op != 'forall']
        pr.deadline = time.time() + 12
        facts, sub = pr.relevant(hyps, o.cond)
        conv = smt.Conv(lin=False)
        s = z3.Solver()
        s.set('timeout', 5000)
        allh = hyps + facts + [tm.nnot(o.cond)]
        for h in allh:
            s.add(conv(h))
        for a in smt.axioms(tm.subterms(allh)):
            s.add(conv(a))
        for x in conv.side:
            s.add(x)
        if s.check() != z3.sat:
            return out
        m = s.model()
        for t in tm.subterms(allh):
            key = None
            if t.op == 'sym' and t.args[0].startswith('in.') and not isinstance(t.sort, tuple):
                key = t.args[0][3:]
            elif t.op == 'sym' and t.args[0].startswith('any.'):
                key = t.args[0].split('!')[0]
            elif t.op == 'select':
                idx = []
                x = t
                while x.op == 'select':
                    idx.insert(0, x.args[1])
                    x = x.args[0]
                if x.op == 'sym' and x.args[0].startswith('in.') and not bound(t):
                    vals = [str(m.eval(conv(i), model_completion=True)) for i in idx]
                    key = '%s[%s]' % (x.args[0][3:], ','.join(vals))
            if key is not None:
                v = m.eval(conv(t), model_completion=True)
                out[key] = zval(v)
    except Exception as err:
        out['error'] = str(err)[:200]
    return out


def bound(t):
    return prove.hasbv(t)


def zval(v):
    import z3
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(15).as_fraction())
    return str(v)
