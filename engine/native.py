"""Native replay and search: compiles the same contract text against the real code and
runs it on the solver's model and on generated inputs (sanitizers on)."""
import os
import re
import subprocess
import multiprocessing as mp
import json
import exec as ex
import driver

CXX = 'clang++-18'
FLAGS = ['-std=c++11', '-O1', '-g1', '-fno-access-control', '-w', '-fsanitize=address,undefined',
         '-fno-sanitize-recover=all', '-fno-sanitize=float-divide-by-zero', '-D_GLIBCXX_ASSERTIONS']
INTS = driver.INTS | {'long long', 'unsigned short', 'unsigned char', 'signed char'}


class Gen(object):
    def __init__(self, prog):
        self.p = prog
        self.di = prog.di
        self.done = {}
        self.order = []

    def cxx(self, t):
        return t

    def need(self, t):
        t = t.strip()
        if t in self.done:
            return
        self.done[t] = None
        if t.endswith('*'):
            b = driver.clean(t)
            if self.known(b):
                self.need(b)
            self.order.append(t)
            return
        m = re.match(r'(std::vector|std::__cxx11::list|std::list)<(.*)>$', t)
        if m:
            self.need(ex.split_targs(m.group(2))[0])
            self.order.append(t)
            return
        if t in ('double', 'float', 'bool') or t in INTS or 'basic_string<' in t or t == 'std::string':
            return
        k = self.di.kind(t) or ''
        if 'enumeration' in k:
            self.order.append(t)
            return
        for o, n, ft in self.di.members(t) or []:
            if ft != 'vptr':
                self.need(ft)
        self.order.append(t)

    def known(self, b):
        return self.di.members(b) is not None or b in ('double', 'int')

    def decls(self):
        out = []
        for t in self.order:
            out.append('static void fill(const std::string& pre, long off, const std::string& ix, %s& x);' % t)
            if not t.endswith('*'):
                out.append('static bool same_impl(const %s& a, const %s& b, Tag);' % (t, t))
        out.append('template <class T> static void fill(const std::string& pre, long off, const std::string& ix, const T*& x) '
                   '{ fill(pre, off, ix, const_cast<T*&>(x)); }')
        out.append('template <class T> static bool same_impl(T* a, T* b, Tag) { return a == b; }')
        return out

    def body(self, t):
        f, s = [], []
        if t.endswith('*'):
            b = driver.clean(t)
            if self.known(b) and not self.abstract(b):
                f.append('x = 0; const long p = getptr(pre, off, ix); if (!p) return; if (depth > 3) return; depth++; '
                         'std::map<long, void*>::iterator it = ptrs.find(p); if (it != ptrs.end()) { x = (%s*)it->second; } '
                         'else { %s* y = new %s(); ptrs[p] = (void*)y; char b[40]; snprintf(b, 40, "[%%ld]", p); fill("heap.E", 0, b, *y); x = y; } depth--;' % (b, b, b))
            else:
                f.append('x = 0;')
            return ['static void fill(const std::string& pre, long off, const std::string& ix, %s& x) { %s }' % (t, ' '.join(f))]
        elif re.match(r'(std::vector|std::__cxx11::list|std::list)<', t):
            f.append('x.clear(); const int n = getlen(pre, off, ix); for (int i = 0; i < n; i++) { char b[64]; '
                     'std::string jx = ix.empty() ? std::string("[]") : ix; snprintf(b, 64, ix.empty() ? "%d]" : ",%d]", i); '
                     'jx = jx.substr(0, jx.size() - 1) + b; char o[40]; snprintf(o, 40, ".%ld.E", off); '
                     'x.emplace_back(); fill(pre + o, 0, jx, x.back()); }')
            s.append('if (a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); '
                     'for (; i != a.end(); ++i, ++j) if (!same_impl(*i, *j, Tag())) return false; return true;')
        elif 'enumeration' in (self.di.kind(t) or ''):
            vals = self.di.enumerators(t) or [0]
            f.append('static const int v[] = {%s}; x = (%s)getenum(pre, off, ix, v, %d);' % (','.join(map(str, vals)), t, len(vals)))
            s.append('return a == b;')
        else:
            for o, n, ft in self.di.members(t) or []:
                if ft == 'vptr':
                    continue
                if n == '<base>':
                    f.append('fill(pre, off + %d, ix, (%s&)x);' % (o, ft))
                    s.append('if (!same_impl((const %s&)a, (const %s&)b, Tag())) return false;' % (ft, ft))
                else:
                    f.append('fill(pre, off + %d, ix, x.%s);' % (o, n))
                    s.append('if (!same_impl(a.%s, b.%s, Tag())) return false;' % (n, n))
            s.append('return true;')
        return ['static void fill(const std::string& pre, long off, const std::string& ix, %s& x) { %s }' % (t, ' '.join(f)),
                'static bool same_impl(const %s& a, const %s& b, Tag) { %s }' % (t, t, ' '.join(s))]

    def abstract(self, b):
        return False


BASE = r'''
namespace vcn {
Ctx ctx;
static std::map<long, void*> ptrs;
static int depth = 0;
static long ptrseq = 0;
static std::string key(const std::string& pre, long off, const char* suf, const std::string& ix) {
  char b[64]; snprintf(b, 64, ".%ld%s", off, suf); return pre + b + ix;
}
static void fill(const std::string& pre, long off, const std::string& ix, double& x) { x = get(key(pre, off, ":R", ix), draw_real()); }
static void fill(const std::string& pre, long off, const std::string& ix, bool& x) {
  const std::string a = key(pre, off, ":Ib", ix), b = key(pre, off, ":I", ix);
  x = get(has(b) && !has(a) ? b : a, ctx.below(2)) != 0;
}
static int draw_int() { switch (ctx.below(4)) { case 0: return ctx.below(3) - 1; case 1: return ctx.below(40); default: return ctx.below(6); } }
static void fill(const std::string& pre, long off, const std::string& ix, int& x) { x = (int)get(key(pre, off, ":I", ix), draw_int()); }
static void fill(const std::string& pre, long off, const std::string& ix, unsigned int& x) { x = (unsigned)get(key(pre, off, ":I", ix), abs(draw_int())); }
static void fill(const std::string& pre, long off, const std::string& ix, long& x) { x = (long)get(key(pre, off, ":I", ix), draw_int()); }
static void fill(const std::string& pre, long off, const std::string& ix, unsigned long& x) { x = (unsigned long)get(key(pre, off, ":I", ix), abs(draw_int())); }
static void fill(const std::string& pre, long off, const std::string& ix, char& x) { x = (char)get(key(pre, off, ":I", ix), 48 + ctx.below(60)); }
static void fill(const std::string& pre, long off, const std::string& ix, std::string& x) {
  const long k = (long)get(key(pre, off, ".str:I", ix), ctx.below(5));
  static const char* const w[] = {"", "a", "B", "10", "2", "line", "Line 2"};
  if (k >= 0 && k < 7) x = w[k]; else { char b[40]; snprintf(b, 40, "s%ld", k); x = b; }
}
static long getptr(const std::string& pre, long off, const std::string& ix) {
  return (long)get(key(pre, off, ":P", ix), ctx.below(16) ? 1000000 + ++ptrseq : 0);
}
static int getlen(const std::string& pre, long off, const std::string& ix) {
  double v = get(key(pre, off, ".len:I", ix), ctx.below(5)); if (v < 0) v = 0; if (v > 40) v = 40; return (int)v;
}
static int getenum(const std::string& pre, long off, const std::string& ix, const int* v, int n) {
  return (int)get(key(pre, off, ":I", ix), v[ctx.below(n)]);
}
static bool same_impl(double a, double b, Tag) { return eq(a, b); }
static bool same_impl(bool a, bool b, Tag) { return a == b; }
static bool same_impl(int a, int b, Tag) { return a == b; }
static bool same_impl(unsigned a, unsigned b, Tag) { return a == b; }
static bool same_impl(long a, long b, Tag) { return a == b; }
static bool same_impl(unsigned long a, unsigned long b, Tag) { return a == b; }
static bool same_impl(char a, char b, Tag) { return a == b; }
static bool same_impl(const std::string& a, const std::string& b, Tag) { return a == b; }
'''

MAIN = r'''
}
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
struct Shared { volatile long trial; volatile long accepted; volatile int failed; volatile size_t len; char why[4096]; char buf[1 << 20]; };
static Shared* sh;
void vcn::logline(const std::string& k, double v) {
  char b[400]; int n = snprintf(b, sizeof b, "%s=%.17g\n", k.c_str(), v);
  if (sh->len + n < sizeof sh->buf) { memcpy(sh->buf + sh->len, b, n); sh->len = sh->len + n; }
}
struct Entry { const char* name; void (*f)(); };
static const Entry entries[] = {ENTRIES {0, 0}};
static bool nonreal(const std::string& k) { return k.find(":R") == std::string::npos && k.compare(0, 6, "sample"); }
int main(int argc, char** argv) {
  // prog contract seed trials seconds valsfile
  void (*f)() = 0;
  for (const Entry* e = entries; e->name; e++) if (!strcmp(e->name, argv[1])) f = e->f;
  if (!f) { printf("NOCONTRACT\n"); return 3; }
  const unsigned long seed = strtoul(argv[2], 0, 10); const long trials = atol(argv[3]); const double secs = atof(argv[4]);
  std::map<std::string, double> vals;
  if (argc > 5) { FILE* fp = fopen(argv[5], "r"); char line[1000]; while (fp && fgets(line, sizeof line, fp)) { char* q = strrchr(line, '='); if (!q) continue; *q = 0; vals[line] = atof(q + 1); } if (fp) fclose(fp); }
  std::map<std::string, double> disc;
  for (std::map<std::string, double>::iterator it = vals.begin(); it != vals.end(); ++it) if (nonreal(it->first)) disc.insert(*it);
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const time_t t0 = time(0); long next = vals.empty() ? 1 : 0;
  while (next <= trials && time(0) - t0 < secs) {
    pid_t pid = fork();
    if (!pid) {
      if (!getenv("OTLS_VERBOSE")) { freopen("/dev/null", "w", stderr); }
      for (long t = next; t <= trials && time(0) - t0 < secs; t++) {
        sh->trial = t; sh->len = 0; alarm(20);
        vcn::ctx.s = seed * 1000003ULL + t * 7919ULL; vcn::ctx.next();
        vcn::ctx.exact = t == 0; vcn::ctx.failed.clear(); vcn::ptrs.clear(); vcn::ptrseq = 0; vcn::depth = 0;
        vcn::ctx.nsample = 0; vcn::ctx.boundary = t % 3 == 2;
        if (t == 0) vcn::ctx.vals = vals; else if (t % 4 == 1) vcn::ctx.vals = disc; else vcn::ctx.vals.clear();
        try { f(); sh->accepted = sh->accepted + 1; }
        catch (vcn::Reject&) { vcn::ctx.failed.clear(); continue; }
        catch (std::exception& e) { vcn::ctx.failed.push_back(std::string("uncaught exception: ") + e.what()); }
        if (!vcn::ctx.failed.empty()) { snprintf(sh->why, sizeof sh->why, "%s", vcn::ctx.failed[0].c_str()); sh->failed = 1; _exit(0); }
      }
      _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (!sh->failed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      snprintf(sh->why, sizeof sh->why, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "no termination within 20 s" : "abnormal termination (status %d)", st);
      sh->failed = 1;
    }
    if (sh->failed) {
      printf("FAILED trial=%ld accepted=%ld\nWHY %s\nINPUTS\n", (long)sh->trial, (long)sh->accepted, sh->why);
      fwrite(sh->buf, 1, sh->len, stdout); return 1;
    }
    next = sh->trial + 1;
  }
  printf("NONE trials=%ld accepted=%ld\n", (long)sh->trial, (long)sh->accepted);
  return 0;
}
'''


def source(prog, cfile, names):
    g = Gen(prog)
    ent = []
    runs = []
    for short, n in names:
        if short.startswith('L_'):
            continue
        lines = []
        args = []
        for k, pt in enumerate(driver.params_of(prog, n)):
            if pt in ('', 'void'):
                continue
            base = driver.clean(pt)
            g.need(base)
            lines.append('%s& a%d = *new %s(); fill("A%d", 0, "", a%d);' % (base, k, base, k, k))
            args.append(('&a%d' if pt.rstrip().endswith('*') else 'a%d') % k)
        for t in same_types(prog, n):
            g.need(t)
        runs.append('static void run_%s() { %s %s(%s); }' % (short, ' '.join(lines), short, ', '.join(args)))
        ent.append('{"%s", vcn::run_%s},' % (short, short))
    out = ['#include "%s"' % os.path.abspath(cfile), BASE]
    out += g.decls()
    for t in g.order:
        out += g.body(t)
    out += runs
    return '\n'.join(out) + MAIN.replace('ENTRIES', ' '.join(ent))


def same_types(prog, n):
    out = set()
    for d in prog.dem.values():
        r = re.match(r'bool vc_same<(.*)>\(', d)
        if r:
            out.add(ex.split_targs(r.group(1))[0])
    return sorted(out)


def _cc(job):
    src, out, extra = job
    p = subprocess.run([CXX] + FLAGS + extra + ['-I' + os.path.join(driver.REPO, 'include'), '-c', src, '-o', out],
                       capture_output=True, text=True)
    return src, p.returncode, p.stderr[-3000:]


def build(prog, cfiles, work, names):
    """-> {cfile: binary}"""
    jobs, objs = [], []
    for s in driver.sources():
        o = os.path.join(work, 'n_' + os.path.relpath(s, driver.REPO).replace('/', '_')[:-3] + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, []))
    mains = {}
    for c in cfiles:
        src = os.path.join(work, 'main_' + os.path.basename(c))
        with open(src, 'w') as fp:
            fp.write(source(prog, c, names[c]))
        o = src[:-3] + '.o'
        mains[c] = o
        jobs.insert(0, (src, o, ['-I' + os.path.join(driver.VERIF, 'contracts')]))
    with mp.Pool(min(8, os.cpu_count() or 4)) as pool:
        for s, rc, err in pool.map(_cc, jobs, chunksize=1):
            if rc:
                raise driver.BuildError('%s does not compile natively:\n%s' % (s, err))
    out = {}
    for c, o in mains.items():
        b = o[:-2] + '.bin'
        p = subprocess.run([CXX] + FLAGS + [o] + objs + ['-o', b], capture_output=True, text=True)
        if p.returncode:
            raise driver.BuildError('link: ' + p.stderr[-2000:])
        out[c] = b
    return out


def search(binary, contract, model, seed=1, trials=20000, seconds=30, work='/tmp'):
    args = [binary, contract, str(seed), str(trials), str(seconds)]
    if model:
        vf = os.path.join(work, 'vals_%s_%d.txt' % (contract, os.getpid()))
        with open(vf, 'w') as fp:
            for k, v in model.items():
                if isinstance(v, (int, float)):
                    fp.write('%s=%.17g\n' % (k, v))
        args.append(vf)
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:handle_abort=0'
    p = subprocess.run(args, capture_output=True, text=True, env=env, timeout=seconds + 120)
    out = p.stdout
    if out.startswith('FAILED'):
        why = re.search(r'^WHY (.*)$', out, re.M)
        return {'failed': True, 'why': why.group(1) if why else '?', 'head': out.split('\n', 1)[0],
                'inputs': out.split('INPUTS\n', 1)[-1]}
    m = re.match(r'NONE trials=(-?\d+) accepted=(\d+)', out)
    return {'failed': False, 'trials': int(m.group(1)) if m else 0, 'accepted': int(m.group(2)) if m else 0,
            'raw': out[:300] if not m else ''}
