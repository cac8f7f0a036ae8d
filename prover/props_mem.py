"""P26: every query owns its memory.  The memory operations of a run are the same for all inputs that take the same branches, so one
execution of an address/undefined-behaviour instrumented build decides a path class; which path classes exist is decided by z3
(each branch outcome not yet taken is handed to the solver, see flips.py)."""
import math
import os
import random
import re
import subprocess
import multiprocessing as mp
import core
import seeds
from props_base import Prop


def _san(a):
    """runs lines on one instrumented build; {tag: output text}, [(line, report)]"""
    exe, fill, lines = a
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:abort_on_error=0:allocator_may_return_null=0:malloc_fill_byte=%d:max_malloc_fill_size=1000000000' % fill,
               UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0')
    done, bad = {}, []
    rest = list(lines)
    while rest and len(bad) < 6:
        try:
            p = subprocess.run([exe], input='\n'.join(rest) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200, env=env, errors='replace')
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired:
            return done, bad
        cur = []
        n = 0
        for ln in out.split('\n'):
            if ln.startswith('E '):
                done[ln.split()[1]] = '\n'.join(cur)
                cur = []
                n += 1
            else:
                cur.append(ln)
        if rc == 0:
            break
        if n >= len(rest):
            break
        m = re.search(r'(ERROR: AddressSanitizer: [^\n(]*|runtime error: [^\n]*|Assertion [^\n]*)', err)
        if m:
            bad.append((rest[n], m.group(1)[:120]))
        rest = rest[n + 1:]
    return done, bad


class P26(Prop):
    pid = 'P26'
    symargs = ('--pc',)
    perturb = False
    n_quick = 60
    n_thorough = 800
    budget_quick = 200
    bounds = ('inputs: limits and both states (free reals); calls: distance, controls, path, path with covariance, interpolation, twice on one object, '
              'construction and destruction; classes: the path classes (sequences of branch outcomes) visited by the concolic exploration')
    explain = ('Inputs are symbolic; each branch outcome that no run has taken is handed to z3 and solved numerically, so that the visited path classes grow; '
               'within a path class the memory operations do not depend on the inputs, so one execution of the instrumented build (address and undefined-behaviour '
               'checks, indeterminate memory filled once with a pattern and once with zeros, live bytes counted) decides the class.')

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        out = []
        for s in seeds.ALLB:
            for m, l in enumerate(seeds.pairs(seed, n, 'mem', [s])):
                w = l.split()
                r = random.Random('%s %d mem%d' % (s, seed, m))
                K = float(w[3])
                out.append(' '.join(w[:5] + [repr(20.0 / K if m % 3 else 1.0 / K), repr(r.choice((0.0, .3, .7, 1.0)))] + w[5:]))
        return out

    def order(self, bl, tier):
        return []

    def oracle(self, sc, sp, v, outs, ints):
        return [('releases its memory', float(abs(ints.get('live_query', 0)) + abs(ints.get('live_object', 0))), .5, .5)]

    def vcs(self, tr, line):
        return []

    def instrumented(self, bdir, lines):
        """[(line, name, detail)], {tags of clean runs}, note"""
        r = subprocess.run(['bash', os.path.join(core.ROOT, 'engine', 'san.sh'), bdir], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        if r.returncode:
            return [], set(), 'instrumented build failed'
        k = core.NPROC
        jobs = []
        for exe, fill in (('sanp', 0xbe), ('sanz', 0)):
            jobs += [(os.path.join(bdir, exe), fill, lines[i::k]) for i in range(k)]
        with mp.Pool(k) as pool:
            res = pool.map(_san, jobs, 1)
        bad = []
        D = [{}, {}]
        for j, (d, b) in enumerate(res):
            D[j // k].update(d)
            bad += [(l, 'memory and defined behaviour', m) for l, m in b]
        clean = set()
        for l in lines:
            t = l.split(None, 1)[0]
            if t not in D[0] or t not in D[1]:
                continue
            if re.search(r'i live_(query|object) -?[1-9]', D[0][t]):
                bad.append((l, 'releases its memory', 'bytes in use after the calls'))
            elif D[0][t] != D[1][t]:
                bad.append((l, 'determinate values', 'the result depends on the contents of indeterminate memory'))
            else:
                clean.add(t)
        out = []
        seen = set()
        for l, nm, m in bad:
            key = (l.split()[2], nm, m[:40])
            if key not in seen:
                seen.add(key)
                out.append((l, nm, m))
        return out, clean, ''

    def again(self, bdir, line, nm):
        """the report for one line, run on its own"""
        a = [_san((os.path.join(bdir, e), f, [line])) for e, f in (('sanp', 0xbe), ('sanz', 0))]
        for d, b in a:
            if b:
                return b[0][1]
        t = line.split(None, 1)[0]
        if nm == 'releases its memory' and re.search(r'i live_(query|object) -?[1-9]', a[0][0].get(t, '')):
            return 'bytes in use after the calls'
        if nm == 'determinate values' and a[0][0].get(t) != a[1][0].get(t):
            return 'the result depends on the contents of indeterminate memory'
        return None
