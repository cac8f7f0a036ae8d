"""Relations between queries: symmetry, invariance, scaling (P11, P12, P13) and optimality of words (P14)."""
import math
import random
import core
import seeds
from algebra import TooBig
from dag import Norm, Unsupported, run_norm
from lin import Lin
from props_base import Prop, inputs_of, parse_block, SMALL
import vc


def equal_outs(tr, pairs, cin=(('x1', 'y1'), ('x2', 'y2'))):
    """[(name, verdict)]: are the outputs of each pair identical functions?"""
    n = Norm(tr, cplx_inputs=cin)
    n.unify = True

    def b(n):
        return [(vc.val(n, tr.outs[x]), vc.val(n, tr.outs[y])) for _, x, y in pairs]
    ps = run_norm(n, b)
    L = Lin(n)
    f = None
    out = []
    for (nm, _, _), (A, B) in zip(pairs, ps):
        X = L.noint(A - B)
        if not X.d:
            r = core.decide_sum_zero(n, [A, -B])
        else:
            if f is None:
                f = L.facts()
            r = L.zero(X, f)
        out.append((nm, r))
    return out


def near_tol(tr):
    """a comparison against a small constant came out with the other side within a factor 40 of it"""
    for p in tr.pc:
        if p[0] == 'm' or p[0] >= 100:
            continue
        pred, a, b, out, site = p
        for x, y in ((a, b), (b, a)):
            if x and tr.op.get(x) == 'const' and 0 < abs(tr.val[x]) <= SMALL and y and tr.op.get(y) != 'const':
                if 0 < abs(tr.val[y]) <= 40 * abs(tr.val[x]):
                    return True
    return False


class Rel(Prop):
    spaces = []
    n_quick = 100
    n_thorough = 800
    oa, ob = 'd0', 'd1'
    name = 'distance'
    tol = 1e-6

    bounds = ('inputs: limits, both states and the parameters of the transformation (free reals; wrap counts of the rotated headings are fixed per run); classes: '
              'the expression classes (of both queries together) visited by the concolic exploration; queries that sit on a rounding knife-edge or '
              'within the library\'s absolute tolerance are held to the tolerance only')
    explain = ('Both queries are executed in one symbolic run; the two distances are normalised over the same inputs and z3 decides whether their '
               'difference can be non-zero: algebraic part as an identity, wrapped angles as a mixed-integer linear query from ranges, '
               'congruences modulo 2 pi and branch outcomes.')

    def oracle(self, sc, sp, v, outs, ints):
        a, b = outs[self.oa], outs[self.ob]
        K = v[0]
        m = max(abs(x) for x in (v[2], v[3], v[7], v[8]) + (tuple(v[12:14]) if sc == 'inv' else ())) * K
        return [(self.name, abs(a - b) * K, self.tol * (1 + a * K) * (1 + 1e-3 * m), 2e-2)]

    def confirm(self, bdir, line, name):
        """a deviation that disappears when the poses move by 1e-7 radii is rounding at a branch, not behaviour"""
        w = line.split()
        v = [float(x) for x in w[3:]]
        r = random.Random(5)
        L = []
        for j in range(16):
            s = 10 ** r.uniform(-8, -6)
            u = list(v)
            for q in (2, 3, 7, 8):
                u[q] += s * r.uniform(-1, 1) / v[0]
            for q in (4, 9):
                u[q] += s * r.uniform(-1, 1)
            L.append('c%d %s %s %s' % (j, w[1], w[2], ' '.join(repr(x) for x in u)))
        res = core.run_plain(bdir, L, 60)
        bad = 0
        for l in L:
            t = l.split()[0]
            if t not in res:
                bad += 1
                continue
            o, ii = res[t]
            e = self.oracle(w[1], w[2], [float(x) for x in l.split()[3:]], o, ii)
            bad += any(not x[1] <= x[2] for x in e)
        return bad >= 5

    def vcs(self, tr, line):
        return equal_outs(tr, [(self.name, self.oa, self.ob)])


class P11(Rel):
    pid = 'P11'

    def confirm(self, bdir, line, name):
        if not Rel.confirm(self, bdir, line, name):
            return False
        # whether a state lies on a turning circle is measured from either end with an absolute tolerance
        cl, _, _ = core.run_sym(bdir, [line], ['--pc'])
        for b in cl.values():
            if b.line and near_tol(parse_block(b.text)):
                return False
        return True
    oa, ob = 'dab', 'dba'
    SYM = ['rs', 'hc00', 'hcpmpm', 'hc', 'cc00rs']
    REV = ['dubins', 'cc00', 'ccpmpm', 'cc']

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        out = []
        for s in self.SYM:
            out += seeds.pairs(seed, n, 'symm', [s])
        for s in self.REV:
            out += seeds.pairs(seed, n, 'revdir', [s])
        return out


class P12(Rel):
    pid = 'P12'

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick

        def ex(r, p):
            L = 5 / p[0]
            k = r.randint(0, 3)
            t = [r.uniform(-L, L), r.uniform(-L, L)] if k != 1 else [0.0, 0.0]
            ph = r.uniform(-4, 4) if k != 2 else 0.0
            return t + [ph, r.choice([0, 0, 1, -1, 3]) if k != 3 else 0, r.choice([0, 0, 1, -2, 2]) if k != 3 else 0]
        out = []
        for s in seeds.ALLB:
            out += seeds.pairs(seed, n, 'inv', [s], extra=ex)
        # states close to each other, moved far away from the origin
        r = random.Random(seed + 77)
        for s in seeds.ALLB:
            for j in range(8):
                K, G = seeds.lu(r, .5, 2), seeds.lu(r, .5, 4)
                x, y, th = r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-3, 3)
                l = [.003, .03, .02, .004][j % 4]
                ph = th + (0 if j < 4 else r.uniform(-3, 3))
                t = [r.choice((-1, 1)) * r.uniform(300, 900), r.choice((-1, 1)) * r.uniform(300, 900)]
                t[j % 2] *= r.choice((0, 1))
                v = [K, G, x, y, th, 0.0, 0.0, x + l * math.cos(ph), y + l * math.sin(ph), th, 0.0, 0.0] + t
                out.append('close-%s-%d inv %s %s' % (s, j, s, ' '.join(repr(u) for u in v + [r.choice((0.0, 1.0)), 0, 0])))
        return out


class P13(Rel):
    pid = 'P13'

    def confirm(self, bdir, line, name):
        if not Rel.confirm(self, bdir, line, name):
            return False
        lam = float(line.split()[-2])
        if lam == 1.0:
            return True
        # the tolerances of the library are absolute: a query within reach of one of them does not scale
        cl, _, _ = core.run_sym(bdir, [line], ['--pc'])
        for b in cl.values():
            if b.line and near_tol(parse_block(b.text)):
                return False
        return True

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick

        def ex(r, p):
            k = r.randint(0, 2)
            return [seeds.lu(r, .3, 3) if k != 1 else 1.0, 1 if k else 0]
        out = []
        for s in seeds.ALLB:
            out += seeds.pairs(seed, n, 'scale', [s], extra=ex)
        return out
