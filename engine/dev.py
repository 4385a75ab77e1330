"""developer driver: dev.py contracts/X.cc [contract name regex] [-v]"""
import sys, os, re, time, tempfile, hashlib, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, exec as ex
import subprocess

def main():
    files = [a for a in sys.argv[1:] if a.endswith('.cc')]
    pats = [a for a in sys.argv[1:] if not a.endswith('.cc') and not a.startswith('-')]
    work = '/tmp/devir'
    os.makedirs(work, exist_ok=True)
    t0 = time.time()
    # reuse src IR if newer than sources and headers
    outs = []
    jobs = []
    hdr = subprocess.run("find %s/include %s/contracts -name '*.h' -printf '%%T@\n' | sort -n | tail -1" % (driver.REPO, driver.VERIF), shell=True, capture_output=True, text=True).stdout
    hdr = float(hdr or 0)
    rh = subprocess.run("find %s/include -name '*.h' -printf '%%T@\n' | sort -n | tail -1" % driver.REPO, shell=True, capture_output=True, text=True).stdout
    rh = float(rh or 0)
    for s in driver.sources():
        o = os.path.join(work, os.path.relpath(s, driver.REPO).replace('/', '_')[:-3] + '.ll')
        outs.append(o)
        if not os.path.exists(o) or os.path.getmtime(o) < max(os.path.getmtime(s), rh):
            jobs.append((s, o, []))
    for c in files:
        o = os.path.join(work, 'contract_' + os.path.basename(c)[:-3] + '.ll')
        outs.append(o)
        jobs.append((c, o, ['-DOTLS_SYMBOLIC', '-I' + os.path.join(driver.VERIF, 'contracts')]))
    import multiprocessing as mp
    with mp.Pool(8) as p:
        for s, rc, err in p.map(driver.compile_one, jobs, chunksize=1):
            if rc:
                print(s, err)
                return 1
    t1 = time.time()
    prog = ex.Program(outs)
    print('build %.1fs parse %.1fs' % (t1 - t0, time.time() - t1))
    if '-n' in sys.argv:
        import native
        binary = {}
        nwork = '/tmp/devnat'
        os.makedirs(nwork, exist_ok=True)
        nm = {c: driver.contract_names(prog, c) for c in files}
        if jobs[:-len(files)] or '-N' in sys.argv:
            subprocess.run('rm -f /tmp/devnat/n_*.o', shell=True)
        bins = native.build(prog, files, nwork, nm)
        print('native build', time.time() - t1)
        todo = [(c, sh) for c in files for sh, n in nm[c] if sh.startswith('K_') and (not pats or any(re.search(p, sh) for p in pats))]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as tp:
            rs = list(tp.map(lambda x: native.search(bins[x[0]], x[1], {}, 1, int(os.environ.get('TRIALS', '20000')), 30, nwork), todo))
        for (c, sh), r in zip(todo, rs):
            print(sh, {k: v for k, v in r.items() if k != 'inputs'})
            if r['failed']:
                print(r['inputs'][:1500])
        return
    todo = [(short, n) for short, n in driver.contract_names(prog) if not pats or any(re.search(p, short) for p in pats)]
    live = {}

    def reap():
        pid, st = os.wait()
        if st:
            print('child status', st)
        f = live.pop(pid)
        f.seek(0)
        sys.stdout.write(f.read())
        sys.stdout.flush()
    for short, n in todo:
        while len(live) >= 8:
            reap()
        f = tempfile.TemporaryFile('w+')
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.dup2(f.fileno(), 1)
            os.dup2(f.fileno(), 2)
            sys.setrecursionlimit(20000)
            try:
                r = driver.run_contract(prog, n, {}, verbose='-v' in sys.argv, budget=float(os.environ.get('BUDGET', '60')))
                for o in r['obligations']:
                    if not o['ok'] or (o['time'] > 5 and '-s' in sys.argv):
                        print('  %s %s [%s] %s %.1fs %s' % ('ok' if o['ok'] else 'FAIL', o['kind'], o['name'], o['how'], o['time'], o['where'][-120:]))
                        if '-m' in sys.argv:
                            print('     ', o.get('model'))
                print('%s: %d obligations, %d failed, exec %ss total %ss solver %ss reachable=%s error=%s %s loops=%s' % (
                    short, len(r['obligations']), sum(not o['ok'] for o in r['obligations']), r.get('exec_time'), r['time'],
                    r['solver_time'], r['reachable'], r['error'], r.get('where', '')[-300:] if r['error'] else '', r['loops'] if '-l' in sys.argv else len(r['loops'])))
            except BaseException:
                import traceback
                print(short, traceback.format_exc()[-700:])
            sys.stdout.flush()
            os._exit(0)
        live[pid] = f
    while live:
        reap()

main()
