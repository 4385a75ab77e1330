#!/usr/bin/env python3-vt
"""run.py PROPERTY [quick|thorough]: verify every contract of one property against /repo's
current sources.  Exit 0: every obligation discharged.  Exit 1: VIOLATION line."""
import glob
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import driver
import smt
import native
import exec as ex

TRUSTED = [
    'clang 18 front end (LLVM IR at -O0 of the current sources is the program that is verified)',
    'the obligation generator in /verif/engine (symbolic execution of the IR, loop summaries)',
    'models of the standard library: vector, list, string, iterators, sort, next/distance (engine/stl.py)',
    'the back ends: polynomial/trigonometric normaliser (engine/alg.py), z3 4.x',
    'double arithmetic read as real arithmetic (no rounding, overflow or NaN); decimal literals read exactly, '
    'literals within 1.5e-15 of a rational multiple of pi read as that multiple',
    'int arithmetic read as mathematical integers',
    'distinct objects do not alias: pointers held in pre-existing objects do not point at objects the contract creates',
]


def worker(prog, name, tier, fd):
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    sys.setrecursionlimit(20000)
    k = 1.0 if tier == 'quick' else 3.0
    try:
        r = driver.run_contract(prog, name, {}, budget=60.0 * k, wall=300.0 * k)
    except MemoryError:
        r = {'error': 'memory exhausted'}
    except BaseException as err:
        import traceback
        r = {'error': '%s: %s' % (type(err).__name__, err), 'traceback': traceback.format_exc()[-1500:]}
    with os.fdopen(fd, 'w') as fp:
        json.dump(r, fp)
    os._exit(0)


def run_all(prog, names, tier, limit):
    """[(short, mangled)] -> {short: result}; 8 processes"""
    todo = list(names)
    live = {}
    res = {}
    tries = {}
    t_end = time.time() + limit
    while todo or live:
        while todo and len(live) < 8:
            short, n = todo.pop(0)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                smt.SEED = tries.get(short, 0)
                worker(prog, n, tier, wfd)
            os.close(wfd)
            live[rfd] = (short, pid, [], n)
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            b = os.read(fd, 1 << 16)
            short, pid, buf, n = live[fd]
            if b:
                buf.append(b)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            try:
                res[short] = json.loads(b''.join(buf))
            except ValueError:
                # a solver crash ends its process: try that contract again
                tries[short] = tries.get(short, 0) + 1
                if tries[short] <= 3:
                    todo.insert(0, (short, n))
                    continue
                res[short] = {'error': 'verifier process ended without a result'}
        if time.time() > t_end:
            for fd, (short, pid, buf, n) in live.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                res[short] = {'error': 'wall clock exhausted'}
            for short, n in todo:
                res[short] = {'error': 'wall clock exhausted'}
            break
    return res


def bad_obligations(r):
    out = [o for o in r.get('obligations', []) if not o['ok']]
    if r.get('error'):
        out.append({'kind': 'verifier', 'name': 'obligations generated', 'ok': False, 'how': r['error'],
                    'where': r.get('where', '')})
    elif r.get('reachable') is False:
        out.append({'kind': 'vacuity', 'name': 'the end of the contract is reachable', 'ok': False,
                    'how': 'preconditions unsatisfiable or every path ends early', 'where': ''})
    elif not r.get('obligations'):
        out.append({'kind': 'vacuity', 'name': 'obligations generated', 'ok': False, 'how': 'none', 'where': ''})
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    files = sorted(glob.glob(os.path.join(HERE, 'contracts', prop + '_*.cc')))
    if not files:
        print('no contracts for', prop)
        return 2
    limit = 700 if tier == 'quick' else 7200
    work = tempfile.mkdtemp(prefix='otls_%s_' % prop)
    try:
        return check(prop, tier, seed, t0, files, limit, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, t0, files, limit, work):
    try:
        irs = driver.build(files, work)
    except driver.BuildError as err:
        print(err)
        print('the tree or the contracts do not compile; nothing decided')
        return 2
    src_ir = irs[:-len(files)]
    progs, names, results = {}, {}, {}
    for c, ir in zip(files, irs[-len(files):]):
        progs[c] = ex.Program(src_ir + [ir])
        names[c] = driver.contract_names(progs[c], c)
        for short, r in run_all(progs[c], names[c], tier, limit - (time.time() - t0)).items():
            results[(c, short)] = r
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        with open(kf) as fp:
            known = [k for k in json.load(fp).get('known', []) if k['property'] == prop]
    failing = {}
    for key, r in results.items():
        b = bad_obligations(r)
        if b:
            failing[key] = b
    # known findings: the specific contract and obligation
    reported = set()
    for key in list(failing):
        rest = []
        for o in failing[key]:
            hit = [k for k in known if k['contract'] == key[1] and k['obligation'] == o['name']]
            if hit:
                if id(hit[0]) not in reported:
                    reported.add(id(hit[0]))
                    print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what']))
            else:
                rest.append(o)
        if rest:
            failing[key] = rest
        else:
            del failing[key]
    viol = []
    searched = {}
    if failing or tier == 'thorough':
        try:
            bins = native.build(progs[files[0]], files, work, names) if len(files) == 1 else \
                {c: native.build(progs[c], [c], work, names)[c] for c in files}
        except driver.BuildError as err:
            bins = {}
            print('native replay unavailable:', str(err)[:500])
        todo = []
        for (c, short) in (results if tier == 'thorough' else failing):
            if short.startswith('K_') and c in bins:
                todo.append((c, short))
        from concurrent.futures import ThreadPoolExecutor
        left = max(20, min(120 if tier == 'quick' else 600, limit + 120 - (time.time() - t0)))
        per = max(5.0, min(60.0, left * 8.0 / max(8, len(todo)) ))

        def one(x):
            c, short = x
            model = {}
            for o in results[x].get('obligations', []):
                if not o['ok'] and o.get('model'):
                    model = o['model']
                    break
            trials = 200000 if x in failing else 20000
            return x, native.search(bins[c], short, model, seed, trials, per, work)
        with ThreadPoolExecutor(8) as tp:
            for x, r in tp.map(one, todo):
                searched[x] = r
    rdir = os.path.join(HERE, 'evidence', 'replay')
    shutil.rmtree(os.path.join(rdir, prop), ignore_errors=True)
    for key, obs in sorted(failing.items()):
        c, short = key
        os.makedirs(os.path.join(rdir, prop), exist_ok=True)
        path = os.path.join(rdir, prop, short + '.txt')
        s = searched.get(key, {})
        with open(path, 'w') as fp:
            fp.write('property %s, contract %s (%s)\n\n' % (prop, short, os.path.relpath(c, HERE)))
            fp.write('undischarged obligations:\n')
            for o in obs:
                fp.write('  [%s] %s\n     at %s\n     verifier: %s\n' % (o['kind'], o['name'], o.get('where', ''), o['how']))
                if o.get('model'):
                    fp.write('     solver candidate: %s\n' % json.dumps(o['model'], sort_keys=True))
            if results[key].get('traceback'):
                fp.write(results[key]['traceback'] + '\n')
            if s.get('failed'):
                fp.write('\nfailing input on the real code (native run of the same contract): %s\n%s\n%s\n' % (
                    s['why'], s['head'], s['inputs']))
            else:
                fp.write('\nno failing input found by native replay: %s\n' % json.dumps(s))
        viol.append((key, path, bool(s.get('failed')), obs))
    nobl = sum(len(r.get('obligations', [])) for r in results.values())
    ndis = sum(1 for r in results.values() for o in r.get('obligations', []) if o['ok'])
    write_evidence(prop, tier, seed, t0, results, searched, nobl, ndis, viol)
    for (c, short), path, found, obs in viol:
        for o in obs[:3]:
            print('undischarged: %s [%s] %s (%s)' % (short, o['kind'], o['name'], o['how']))
    if viol:
        # one line per violated contract; those with a failing input first
        viol.sort(key=lambda v: not v[2])
        if viol[0][2]:
            viol = [v for v in viol if v[2]]
        for key, path, found, obs in viol:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
        return 1
    print('%s: %d contracts, %d obligations discharged in %.1f s' % (prop, len(results), ndis, time.time() - t0))
    return 0


def write_evidence(prop, tier, seed, t0, results, searched, nobl, ndis, viol):
    how, funcs, repl, models, facts, loops, lemmas = {}, {}, {}, {}, set(), {}, set()
    st = 0.0
    kinds = {}
    for (c, short), r in results.items():
        st += r.get('solver_time', 0) or 0
        for o in r.get('obligations', []):
            if o['ok']:
                h = o['how'].split(':')[0]
                how[h] = how.get(h, 0) + 1
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
        for f in r.get('functions', []):
            if not f.startswith('std::') and not f.startswith('__gnu'):
                funcs[f] = funcs.get(f, 0) + 1
        for m, n in r.get('models', {}).items():
            models[m] = models.get(m, 0) + n
        facts |= set(r.get('mathfacts', []))
        loops.update(r.get('loops', {}))
        lemmas |= {s for s in r.get('lemmas', {})}
        for f, n in r.get('replaced', {}).items():
            repl[f] = repl.get(f, 0) + n
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': './run.py %s %s' % (prop, tier),
            'trusted_base': TRUSTED,
            'contracts': {short: {'obligations': len(r.get('obligations', [])),
                                  'discharged': sum(o['ok'] for o in r.get('obligations', [])),
                                  'wall_s': r.get('time'), 'solver_s': r.get('solver_time'), 'error': r.get('error')}
                          for (c, short), r in sorted(results.items())},
            'obligation_kinds': kinds,
            'back_ends': how,
            'solver_time_s': round(st, 2),
            'functions_verified': sorted(funcs),
            'functions_verified_count': len(funcs),
            'library_models_used': models,
            'loops': loops,
            'lemmas_used': sorted(lemmas),
            'calls_checked_against_contract': repl,
        },
        'assumptions': sorted(facts),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    if searched:
        ev['coverage']['native_runs'] = {short: {k: v for k, v in s.items() if k in ('trials', 'accepted', 'failed', 'why')}
                                         for (c, short), s in searched.items()}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)


if __name__ == '__main__':
    sys.exit(main())
