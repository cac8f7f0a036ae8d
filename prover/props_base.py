import math
import core
from dag import Norm, Unsupported, read_traces, run_norm

SMALL = 2e-2


def parse_block(lines):
    for k in read_traces(lines):
        if k[0] == 'N':
            return k[1]
    return None


def degenerate(tr):
    """a comparison against a small tolerance constant succeeded within the tolerance: results are only claimed up to the
    library's tolerance there"""
    for p in tr.pc:
        if p[0] == 'm' or p[0] >= 100:
            continue
        pred, a, b, out, site = p
        for x, y in ((a, b), (b, a)):
            if x and tr.op.get(x) == 'const' and 0 < abs(tr.val[x]) <= SMALL and y and tr.op.get(y) != 'const':
                if abs(tr.val[y]) <= 2 * abs(tr.val[x]):
                    return True
    return False


# ---- scenario signatures: list of (input name or None for raw, kind) ---------------------------------
ST = lambda q: [('x' + q, 'xy'), ('y' + q, 'xy'), ('th' + q, 'ang'), ('ka' + q, 'kap'), ('d' + q, 'dir')]
COV = [('S%d' % i, 'cov') for i in range(6)] + [('L%d' % i, 'cov') for i in range(6)]
FIL = [('al%d' % i, 'noise') for i in (1, 2, 3, 4)] + [('sx', 'noise'), ('sy', 'noise'), ('st', 'noise')] + [('k%d' % i, 'gain') for i in (1, 2, 3)]
KG = [('K', 'K'), ('G', 'G')]


def ctln(n):
    r = []
    for i in range(n):
        r += [('ds%d' % i, 'len'), ('ck%d' % i, 'curv'), ('cs%d' % i, 'curv')]
    return r


def sig(sc, sp, vals):
    if sc in ('ctl', 'dist', 'symm', 'revdir', 'words'):
        return KG + ST('1') + ST('2')
    if sc in ('vari', 'nest'):
        return KG + ST('1') + ST('2') + [(None, 'raw'), (None, 'raw')]
    if sc == 'word':
        n = int(vals[5])
        r = KG + [('x1', 'xy'), ('y1', 'xy'), ('th1', 'ang'), (None, 'raw')]
        for i in range(n):
            r += [(None, 'raw')] * 3 + [('p%d' % i if vals[6 + 4 * i] < 10 else None, 'len')]
        return r
    if sc == 'mem':
        return KG + [(None, 'raw'), (None, 'raw')] + ST('1') + ST('2')
    if sc == 'hist':
        return KG + ST('1') + ST('2') + ST('3') + ST('4')
    if sc == 'inv':
        return KG + ST('1') + ST('2') + [('tx', 'xy'), ('ty', 'xy'), ('ph', 'ang'), (None, 'raw'), (None, 'raw')]
    if sc == 'scale':
        return KG + ST('1') + ST('2') + [('lam', 'K'), (None, 'raw')]
    if sc == 'integ':
        return [(None, 'raw'), ('D', 'D')] + ST('1') + ctln(int(vals[0]))
    if sc == 'interp':
        return [(None, 'raw'), ('D', 'D'), ('t', 'frac')] + ST('1') + ctln(int(vals[0]))
    if sc == 'path':
        return KG + [('D', 'D')] + ST('1') + ST('2')
    if sc == 'pathcov':
        return KG + [('D', 'D')] + ST('1') + ST('2') + COV + FIL
    if sc in ('integcov', 'belief'):
        return [(None, 'raw'), ('D', 'D')] + ST('1') + ctln(int(vals[0])) + COV + FIL
    if sc == 'jacobi':
        return ST('1') + ctln(1) + [('st', 'len')]
    if sc == 'predict':
        return ST('1') + ctln(1) + [('st_', 'len')] + COV + FIL
    if sc == 'update':
        return ST('1') + COV + FIL
    if sc == 'util':
        if sp in ('twopify', 'pify', 'sgn'):
            return [('a', 'ang')]
        if sp == 'polar':
            return [('x', 'xy'), ('y', 'xy')]
        if sp == 'pdist':
            return [('x1', 'xy'), ('y1', 'xy'), ('x2', 'xy'), ('y2', 'xy')]
        if sp == 'frames':
            return [('x', 'xy'), ('y', 'xy'), ('th', 'ang'), ('lx', 'xy'), ('ly', 'xy')]
        if sp == 'clothoid':
            return [('x', 'xy'), ('y', 'xy'), ('th', 'ang'), ('k', 'curv'), ('s', 'curv'), (None, 'raw'), ('l', 'plen')]
        if sp == 'arc':
            return [('x', 'xy'), ('y', 'xy'), ('th', 'ang'), ('k', 'curv'), (None, 'raw'), ('l', 'plen')]
        if sp == 'line':
            return [('x', 'xy'), ('y', 'xy'), ('th', 'ang'), (None, 'raw'), ('l', 'plen')]
        if sp == 'amin':
            return [(None, 'raw')] + [('a%d' % i, 'xy') for i in range(int(vals[0]))]
        if sp == 'fresnel':
            return [('s', 'fres')]
    return [(None, 'raw')] * len(vals)


BOX = {'K': (.02, 50.), 'G': (.02, 50.), 'xy': (-1e4, 1e4), 'ang': (-60., 60.), 'kap': (-50., 50.), 'dir': (-1., 1.),
       'D': (.01, 10.), 'len': (-60., 60.), 'plen': (0., 60.), 'curv': (-20., 20.), 'frac': (-1., 2.), 'cov': (-100., 100.), 'noise': (0.001, 10.),
       'gain': (-10., 10.), 'raw': (-1e9, 1e9), 'fres': (-40., 40.)}


class Prop:
    pid = None
    flip = True
    perturb = True
    symargs = []
    budget_quick = 150
    budget_thorough = 1500
    sec_quick = 8
    sec_thorough = 90
    bounds = ''
    explain = ''

    def jobs(self, tier, seed):
        raise NotImplementedError

    def oracle(self, sc, sp, v, outs, ints):
        raise NotImplementedError

    def vcs(self, tr, line):
        raise NotImplementedError

    def order(self, bl, tier):
        return list(range(len(bl)))

    def confirm(self, bdir, line, name):
        """last word on a candidate that reproduces: False drops it"""
        return True

    # inputs
    def names(self, sc, sp, vals):
        s = sig(sc, sp, vals)
        return [t[0] for t in s] + [None] * max(0, len(vals) - len(s))

    def fixed(self, sc, sp, vals=()):
        v = list(vals) or [1.0]
        s = sig(sc, sp, v)
        return {q for q, t in enumerate(s) if t[0] is None or t[1] == 'dir'}

    def box(self, sc, q, sp='', vals=()):
        s = sig(sc, sp, list(vals) or [1.0])
        return BOX[s[q][1]] if q < len(s) else (-1e9, 1e9)

    def clip(self, sc, q, x, sp='', vals=()):
        lo, hi = self.box(sc, q, sp, vals)
        return min(hi, max(lo, x))

    def sanitize(self, sc, sp, v):
        """restrict generated inputs to the property's input domain"""
        s = sig(sc, sp, v)
        v = list(v)
        K = None
        for q, t in enumerate(s):
            lo, hi = BOX[t[1]]
            if q < len(v):
                v[q] = min(hi, max(lo, v[q]))
                if t[0] == 'K':
                    K = v[q]
                if t[1] == 'kap' and K is not None:
                    v[q] = min(K, max(-K, v[q]))
        return v


def inputs_of(line):
    """{name: value} of an input line"""
    w = line.split()
    v = [float(x) for x in w[3:]]
    d = {}
    for t, x in zip(sig(w[1], w[2], v), v):
        if t[0]:
            d[t[0]] = x
    return d
