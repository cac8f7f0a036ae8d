"""Driver: build the harness from /repo's current tree, run it concolically, decide the verification conditions of one
property for every explored expression class, replay candidates, write evidence."""
import json
import math
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
NPROC = min(8, os.cpu_count() or 4)


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def build():
    """scratch build directory with symh/plainh, or None when the tree does not build"""
    out = tempfile.mkdtemp(prefix='vsf_')
    r = subprocess.run(['bash', os.path.join(ROOT, 'engine', 'build.sh'), out], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=600)
    if r.returncode != 0:
        return out, False
    return out, True


def _run1(a):
    exe, args, lines, timeout = a
    try:
        p = subprocess.run([exe] + args, input='\n'.join(lines) + '\n', stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=timeout)
        return p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        o = e.stdout
        if isinstance(o, bytes):
            o = o.decode('utf8', 'replace')
        return o or '', -99


class Block:
    """text of one class representative"""
    __slots__ = ('cls', 'tag', 'text', 'count', 'line')

    def __init__(self, cls, tag, text):
        self.cls = cls
        self.tag = tag
        self.text = text
        self.count = 1


def run_sym(bdir, lines, args=(), timeout=400):
    """returns (classes {cls: Block}, coverage {site: [mask, tag0, tag1]}, crashed tags)"""
    exe = os.path.join(bdir, 'symh')
    k = max(1, min(NPROC, len(lines) // 4 + 1))
    chunks = [lines[i::k] for i in range(k)]
    with mp.Pool(k) as pool:
        outs = pool.map(_run1, [(exe, list(args), c, timeout) for c in chunks])
    classes = {}
    cov = {}
    crashed = []
    for (txt, rc), ch in zip(outs, chunks):
        if rc not in (0, -99):
            done = set()
            for ln in txt.split('\n'):
                if ln.startswith('N ') or ln.startswith('H '):
                    done.add(ln.split()[2])
            rest = [l for l in ch if l.split()[0] not in done]
            if rest:
                crashed.append(rest[0])
        cur = None
        for ln in txt.split('\n'):
            c = ln[:2]
            if c == 'N ':
                w = ln.split()
                cur = Block(w[1], w[2], [ln])
            elif c == 'H ':
                w = ln.split()
                if w[1] in classes:
                    classes[w[1]].count += 1
            elif c == 'C ':
                w = ln.split()
                s = int(w[1])
                e = cov.setdefault(s, [0, None, None, 0, 0])
                e[0] |= int(w[2])
                for j in (0, 1):
                    if w[3 + j] != '-' and e[1 + j] is None:
                        e[1 + j] = w[3 + j]
                    e[3 + j] += int(w[5 + j])
            elif cur is not None:
                cur.text.append(ln)
                if ln == 'E':
                    if cur.cls in classes:
                        classes[cur.cls].count += 1
                    else:
                        classes[cur.cls] = cur
                    cur = None
    bytag = {l.split(None, 1)[0]: l for l in lines}
    for b in classes.values():
        b.line = bytag.get(b.tag)
    return classes, cov, crashed


def parse_plain(txt):
    res = {}
    outs, ints = {}, {}
    for ln in txt.split('\n'):
        w = ln.split()
        if not w:
            continue
        if w[0] == 'o':
            outs[w[1]] = float.fromhex(w[3]) if w[3] not in ('nan', '-nan', 'inf', '-inf') else float(w[3])
        elif w[0] == 'i':
            ints[w[1]] = int(w[2])
        elif w[0] == 'E':
            res[w[1]] = (outs, ints)
            outs, ints = {}, {}
    return res


def run_plain(bdir, lines, timeout=120):
    """replay on the ordinary optimised build: {tag: (outs, ints)}; a tag that is missing crashed or hung"""
    exe = os.path.join(bdir, 'plainh')
    o, rc = _run1((exe, [], lines, timeout))
    return parse_plain(o)


def quick_vals(block):
    """inputs and outputs of a class representative without building its DAG"""
    outs, ints, inp = {}, {}, {}
    for ln in block.text:
        c = ln[:2]
        if c == 'o ':
            w = ln.split()
            outs[w[1]] = fh(w[3])
        elif c == 'i ':
            w = ln.split()
            ints[w[1]] = int(w[2])
        elif c == 'n ' and ' input ' in ln:
            w = ln.split()
            inp[w[6]] = fh(w[5])
    return outs, ints, inp


def fh(s):
    try:
        return float.fromhex(s)
    except ValueError:
        return float(s)


# ---------------------------------------------------------------------------------------------------
# z3
class Z3Stat:
    def __init__(self):
        self.n = 0
        self.t = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0


ZS = Z3Stat()


WIT = []   # input lines a VC suggests as witnesses


def z3_sum_nonzero(parts, timeout=10000):
    """is (sum of the parts) != 0 satisfiable over free real variables?  'unsat' = the parts cancel identically"""
    import z3
    from algebra import SH
    t0 = time.time()
    if not parts:
        return 'unsat'
    R = parts[0].R
    # shift all exponents to be non-negative (multiplication by a non-zero monomial)
    lo = {}
    for p in parts:
        for m in p.d:
            for i, e in R.exps(m):
                if e < lo.get(i, 0):
                    lo[i] = e
    sh = 0
    for i, e in lo.items():
        if i != 0:
            sh += (-e) << (SH * i)
    # candidate model: a random integer point; only when it leaves a residue is the point handed to z3 for confirmation
    rnd = random.Random(5)
    pt = {}
    res = [0, 0]
    for p in parts:
        for m, c in p.d.items():
            t = c
            im = 0
            for i, e in R.exps(m + sh):
                if i == 0:
                    im = e & 3
                    continue
                if i not in pt:
                    pt[i] = rnd.randint(2, 97)
                t = t * pt[i] ** e
            if im >= 2:
                t = -t
            res[im & 1] += t
    s = z3.Solver()
    s.set('timeout', timeout)
    V = {}
    if any(res):
        cand = [z3.Real('v%d' % i) == v for i, v in pt.items()]
    else:
        cand = []

    def var(i):
        if i not in V:
            V[i] = z3.Real('v%d' % i)
        return V[i]
    tot = [[], []]
    for p in parts:
        acc = [[], []]
        for m, c in p.d.items():
            mm = m + sh
            t = z3.RealVal(str(c))
            im = 0
            for i, e in R.exps(mm):
                if i == 0:
                    im = e & 1
                    continue
                for _ in range(e):
                    t = t * var(i) if e <= 6 else t
                if e > 6:
                    t = t * var(i) ** e
            acc[im].append(t)
        for k in (0, 1):
            if acc[k]:
                tot[k].append(z3.Sum(acc[k]))
    ors = [z3.Sum(x) != 0 for x in tot if x]
    if ors:
        s.add(*cand)
        s.add(z3.Or(*ors))
        r = str(s.check())
        if cand and r != 'sat':
            r = 'unknown'
    else:
        r = 'unsat'
    ZS.n += 1
    ZS.t += time.time() - t0
    setattr(ZS, r, getattr(ZS, r) + 1)
    return r


def z3_check(solver, timeout=20000):
    t0 = time.time()
    solver.set('timeout', timeout)
    try:
        r = str(solver.check())
    except Exception:
        r = 'unknown'
    ZS.n += 1
    ZS.t += time.time() - t0
    setattr(ZS, r, getattr(ZS, r) + 1)
    return r


# ---------------------------------------------------------------------------------------------------
def decide_sum_zero(n, parts, terms_cap=60000):
    """identity sum(parts) == 0 under the defining relations of the normal form's radicals, denominators and unit
    variables; decided by z3 on the cleared polynomial parts"""
    R = n.R
    tot = R.zero
    mk = []
    for k, p in enumerate(parts):
        t = R.var('mark%d' % k, 'real', 1.0)
        mk.append(max(t.vars()))
        tot = tot + p * t
    c = tot.clear()
    from algebra import Poly, SH
    out = []
    for i in mk:
        d = {}
        for m, v in c.d.items():
            if R.exp(m, i):
                d[m - (1 << (SH * i))] = v
        if d:
            out.append(Poly(R, d))
    if sum(len(p.d) for p in out) > terms_cap:
        return 'unknown'
    return z3_sum_nonzero(out)


def worker_init():
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(20000)


def _batch(a):
    fn, items = a
    return [fn(x) for x in items]


def pool_map(fn, items, deadline, chunk=1):
    """parallel unordered map with an overall deadline"""
    if not items:
        return
    groups = [(fn, items[i:i + chunk]) for i in range(0, len(items), chunk)]
    pool = mp.Pool(NPROC, initializer=worker_init)
    try:
        it = pool.imap_unordered(_batch, groups)
        for _ in range(len(groups)):
            left = deadline - time.time()
            if left <= 0:
                break
            try:
                for r in it.next(timeout=left):
                    yield r
            except mp.TimeoutError:
                break
            except StopIteration:
                break
    finally:
        pool.terminate()
        pool.join()


def with_timeout(sec, fn, *a):
    signal.setitimer(signal.ITIMER_REAL, sec, 2.0)
    try:
        return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
