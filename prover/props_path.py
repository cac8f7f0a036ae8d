"""Properties of the returned controls and distances."""
import math
import core
import oracle
import seeds
import vc
import zenc
from algebra import Poly
from dag import Norm, Unsupported, run_norm
from props_base import Prop, inputs_of, sig

SEC = {'quick': 1500, 'thorough': 8000}
FREE0 = {'cc': (1, 1), 'hc': (1, 1), 'cc00': (0, 0), 'hc00': (0, 0), 'cc00rs': (0, 0), 'cc0pm': (0, 2), 'hc0pm': (0, 2),
         'ccpm0': (2, 0), 'hcpm0': (2, 0), 'ccpmpm': (2, 2), 'hcpmpm': (2, 2)}


def base(sp):
    return sp[:-2] if sp.endswith('_b') else sp


def is_cc(sp):
    return base(sp).startswith('cc')


def ident(n, parts):
    return core.decide_sum_zero(n, parts)


def worst(rs):
    for x in ('sat', 'unknown'):
        if x in rs:
            return x
    return 'unsat'


def merge(d, name, r):
    o = d.get(name)
    d[name] = r if o is None else worst([o, r])


class CtlProp(Prop):
    spaces = seeds.ALLB
    scen = 'dist'
    n_quick = 160
    n_thorough = 1500
    sec_quick = 6
    bounds = ('free: curvature limit, sharpness limit (positive), both states with |curvature| <= limit; 18 steering functions; the expression '
              'classes visited by the concolic exploration, each for all inputs of the class (sign cells as at the representative)')

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        return sum((seeds.pairs(seed, n * (3 if base(s) in ('dubins', 'rs') else 1), self.scen, [s]) for s in self.spaces), [])


class P04(CtlProp):
    pid = 'P04'
    explain = ('For every class and every returned control z3 decides whether start curvature, end curvature (start + sharpness*length) can exceed '
               'the curvature limit or the sharpness its limit; end curvature is first normalised under the defining relations of the radicals, '
               'inequalities are decided over the reals with the path condition of the class as hypothesis.')
    scen = 'ctl'

    def oracle(self, sc, sp, v, outs, ints):
        K, G = v[0], v[1]
        e1 = e2 = e3 = e4 = 0.0
        for ds, k, s in oracle.controls(outs, ints):
            e1 = max(e1, abs(k) / K - 1)
            e2 = max(e2, abs(k + s * abs(ds)) / K - 1)
            e3 = max(e3, (abs(s) / G if base(sp) not in ('dubins', 'rs') else 1 + abs(s)) - 1)
            if base(sp) in ('dubins', 'rs'):
                e4 = max(e4, min(abs(k), abs(abs(k) - K)) / K)
            if not (math.isfinite(k) and math.isfinite(s) and math.isfinite(ds)):
                e1 = float('nan')
        return [('start_curvature', e1, 1e-6, 1e-6), ('end_curvature', e2, 1e-6, 1e-4), ('sharpness', e3, 1e-6, 1e-6), ('arc_or_line', e4, 1e-9, 1e-9)]

    def vcs(self, tr, line):
        sp = line.split()[2]
        d = inputs_of(line)
        res = {}
        todo = []

        def b(n):
            vc.touch(n)
            K = vc.inp_or(n, 'K', d)
            out = []
            for i, (ds, k, s) in enumerate(vc.segments(tr)):
                dd = -1 if ds[1] < 0 else 1
                kp = vc.val(n, k)
                ke = kp + vc.val(n, s) * vc.val(n, ds) * dd
                out.append((i, kp, ke, vc.val(n, s)))
            return K, out
        n = Norm(tr)
        try:
            K, segs = run_norm(n, b)
        except Exception:
            K, segs = None, [(i, None, None, None) for i in range(tr.ints['cn'])]
        sg = vc.segments(tr)
        G = vc.inp_or(n, 'G', d) if K is not None else None

        def known(p, lims):
            """identically 0 or +-limit"""
            if p is None:
                return False
            if not p.d:
                return True
            return any(len((p - l * t).d) == 0 or ident(n, [p, -l * t]) == 'unsat' for l in lims for t in (1, -1))
        dub = base(sp) in ('dubins', 'rs')
        for i, kp, ke, sv in segs:
            ds, k, s = sg[i]
            if K is not None:
                core.ZS.n += 0
            for nm, p, lim in (('start_curvature', kp, 'K'), ('end_curvature', ke, 'K'), ('sharpness', sv, 'G')):
                if nm == 'sharpness' and dub:
                    merge(res, nm, 'unsat' if sv is not None and not sv.d else 'sat')
                    continue
                try:
                    ok = known(p, [K] if lim == 'K' else [G])
                except Exception:
                    ok = False
                if ok:
                    merge(res, nm, 'unsat')
                    if nm == 'start_curvature' and dub:
                        merge(res, 'arc_or_line', 'unsat')
                    continue
                todo.append((i, nm, lim))
        for i, nm, lim in todo:
            r = self.ineq(tr, i, nm, lim)
            merge(res, 'elementary_sharpness' if nm == 'sharpness' and r == 'lemma' else nm, 'unknown' if r == 'lemma' else r)
        return list(res.items()) or [('empty', 'unsat')]

    def ineq(self, tr, i, nm, lim):
        import z3

        def goal(e):
            g = e.inp(lim)
            if nm == 'sharpness':
                x = e.out('c%d.s' % i)
            else:
                x = e.out('c%d.k' % i)
                if nm == 'end_curvature':
                    L = e.out('c%d.ds' % i)
                    x = x + e.out('c%d.s' % i) * (L if tr.outs['c%d.ds' % i][1] >= 0 else -L)
            return z3.And(x <= g, x >= -g)
        ks = tr.outs['c%d.s' % i][0]
        hy = khyp
        dep = (3, 5, 8)
        if ks and any(tr.op[x] in ('FC', 'FS') for x in zenc.cone(tr, [ks])):
            # sharpness of an elementary (two clothoids) turn: a quotient of Fresnel integrals, outside the solver's reach;
            # the curvature bound is decided under the hypothesis that the sharpness respects its limit
            if nm == 'sharpness':
                return 'lemma'
            dep = (2, 3, 4, 6)

            def hy(e):
                g = e.out('c%d.s' % i)
                return khyp(e) + [g <= e.inp('G'), g >= -e.inp('G')]
        fs = {'sharpness': ['s'], 'start_curvature': ['k', 's'], 'end_curvature': ['k', 's', 'ds']}[nm]
        return zenc.local_prove(tr, [tr.outs['c%d.%s' % (i, f)][0] for f in fs], goal, hy, 700, dep)


def khyp(e):
    hy = [e.inp('K') > 0, e.inp('G') > 0]
    for q in '12':
        hy += [e.inp('ka' + q) <= e.inp('K'), e.inp('ka' + q) >= -e.inp('K')]
    return hy


def bounds_curv(sp, side):
    return FREE0.get(base(sp), (None, None))[side]


def profile(c):
    """curvature profile without zero-length controls"""
    return [(ds, k, k + s * abs(ds), s) for ds, k, s in c]


class P05(CtlProp):
    pid = 'P05'
    scen = 'ctl'
    spaces = [s for s in seeds.ALLB if base(s) not in ('dubins', 'rs')]
    explain = ('For every class and every joint of the returned controls z3 decides whether end curvature - next start curvature can be non-zero (hybrid '
               'variants: only joints without a change of driving direction), and whether the first/last curvature can differ from the promised one.')

    def joints(self, sp, c, eps):
        """(i, j) joints between consecutive controls where a jump is not allowed"""
        idx = [i for i in range(len(c)) if abs(c[i][0]) > eps]
        out = []
        for a, b in zip(idx, idx[1:]):
            if is_cc(sp) or (b == a + 1 and c[a][0] * c[b][0] > 0):
                out.append((a, b))
        return idx, out

    def oracle(self, sc, sp, v, outs, ints):
        K = v[0]
        c = oracle.controls(outs, ints)
        idx, js = self.joints(sp, c, 1e-6 / K)
        e = 0.0
        for a, b in js:
            e = max(e, abs(c[a][1] + c[a][2] * abs(c[a][0]) - c[b][1]) / K)
        td = 1e-5 + (3e-4 + 2e-4 * v[1]) / K
        r = [('continuity', e, 1e-6, td)]
        if c and sum(abs(x[0]) for x in c) * K > 1e-9:
            for nm, side, x, ka in (('start', 0, c[0][1], v[5]), ('end', 1, c[-1][1] + c[-1][2] * abs(c[-1][0]), v[10])):
                m = bounds_curv(sp, side)
                if m == 0:
                    r.append((nm, abs(x) / K, 1e-6, td))
                elif m == 2:
                    r.append((nm, abs(abs(x) - K) / K, 1e-6, td))
                elif m == 1:
                    r.append((nm, abs(x - ka) / K, 1e-6, td))
        return r

    def vcs(self, tr, line):
        sp = line.split()[2]
        d = inputs_of(line)
        c = [(a[1], b[1], s[1]) for a, b, s in vc.segments(tr)]
        idx, js = self.joints(sp, c, 1e-6 / d['K'])
        res = {}

        def b(n):
            vc.touch(n)
            sg = vc.segments(tr)
            st = lambda i: vc.val(n, sg[i][1])
            en = lambda i: vc.val(n, sg[i][1]) + vc.val(n, sg[i][2]) * vc.val(n, sg[i][0]) * (-1 if sg[i][0][1] < 0 else 1)
            K = vc.inp_or(n, 'K', d)
            out = [('continuity', [en(i), -st(j)]) for i, j in js]
            if c and sum(abs(x[0]) for x in c) * d['K'] > 1e-9:
                for nm, side, x, ka, xv in (('start', 0, st(0), 'ka1', c[0][1]), ('end', 1, en(len(c) - 1), 'ka2', c[-1][1] + c[-1][2] * abs(c[-1][0]))):
                    m = bounds_curv(sp, side)
                    out.append((nm, [x] if m == 0 else [x, -vc.inp_or(n, ka, d)] if m == 1 else [x, -K * (1 if xv > 0 else -1)]))
            return out
        n = Norm(tr)
        fail = []
        for q, (nm, parts) in enumerate(run_norm(n, b)):
            r = ident(n, parts)
            if r == 'unsat':
                merge(res, nm, r)
            else:
                fail.append((q, nm, r))
        for q, nm, r in fail:
            # entered through a tolerance test: the deviation must stay within the tolerance
            merge(res, nm, 'unsat' if self.within(tr, sp, js, c, q) == 'unsat' else r)
        return list(res.items()) or [('empty', 'unsat')]


    def within(self, tr, sp, js, c, q):
        import z3
        try:
            e = zenc.Enc(tr)
            tol = z3.RealVal('2/10000') * (1 + e.inp('G'))
            o = lambda i, f: e.out('c%d.%s' % (i, f))
            end = lambda i: o(i, 'k') + o(i, 's') * (o(i, 'ds') if c[i][0] >= 0 else -o(i, 'ds'))
            K = e.inp('K')
            if q < len(js):
                a, b = end(js[q][0]), o(js[q][1], 'k')
            else:
                side, x, ka, xv = ((0, o(0, 'k'), 'ka1', c[0][1]), (1, end(len(c) - 1), 'ka2', c[-1][1] + c[-1][2] * abs(c[-1][0])))[q - len(js)]
                m = bounds_curv(sp, side)
                a, b = x, z3.RealVal(0) if m == 0 else e.inp(ka) if m == 1 else K * (1 if xv > 0 else -1)
            hy = [K > 0, e.inp('G') > 0] + e.pcs(lambda a, b: zenc.size(tr, a, 12) and zenc.size(tr, b, 12), 40)
            for t in '12':
                hy += [e.inp('ka' + t) <= K, e.inp('ka' + t) >= -K]
            return e.prove(z3.And(a - b <= tol, b - a <= tol), hy, 1000)
        except Exception:
            return 'unknown'


class P06(CtlProp):
    pid = 'P06'
    explain = ('For every class z3 decides whether distance - sum |length| can be non-zero on the normal forms of the expressions computed by the two '
               'queries.  Straight-line lower bound: follows from the exact end pose (P01-P03) because the sum of lengths is the length of a '
               'curve joining the positions; it is re-evaluated on every class representative and on the witness search.')

    def oracle(self, sc, sp, v, outs, ints):
        K = v[0]
        c = oracle.controls(outs, ints)
        L = sum(abs(x[0]) for x in c)
        D = outs['dist']
        eu = math.hypot(v[7] - v[2], v[8] - v[3])
        return [('sum', abs(L - D) / (1 / K + L), 1e-7, 1e-3), ('euclid', (eu - D) * K / (1 + K * eu), 1e-6, 2e-3)]

    def vcs(self, tr, line):
        d = inputs_of(line)

        def b(n):
            vc.touch(n)
            parts = [-vc.val(n, tr.outs['dist'])]
            for ds, k, s in vc.segments(tr):
                parts.append(vc.val(n, ds) * (-1 if ds[1] < 0 else 1))
            return parts
        n = Norm(tr)
        return [('sum', ident(n, run_norm(n, b)))]


class P07(CtlProp):
    pid = 'P07'
    scen = 'ctl'
    spaces = seeds.DUB + seeds.CCD + [s + '_b' for s in seeds.CCD]
    n_quick = 300
    explain = ('For every class and every returned control z3 decides whether its signed length can have the wrong sign, over mixed integer/real arithmetic '
               'with range axioms for floor, square root and inverse trigonometric nodes.')

    def oracle(self, sc, sp, v, outs, ints):
        s = -1 if sp.endswith('_b') else 1
        e = max([-s * c[0] * v[0] for c in oracle.controls(outs, ints)] or [0.0])
        if any(c[0] != c[0] for c in oracle.controls(outs, ints)):
            e = float('nan')
        return [('direction', e, 1e-9, 1e-9)]

    def vcs(self, tr, line):
        sp = line.split()[2]
        s = -1 if sp.endswith('_b') else 1
        rs = []
        for i in range(tr.ints['cn']):
            k = tr.outs['c%d.ds' % i][0]
            rs.append(zenc.local_prove(tr, [k], lambda e: e.out('c%d.ds' % i) * s >= 0, khyp))
        return [('direction', worst(rs))] if rs else []


def same_outs(tr, pairs):
    """equality of two output expressions for all inputs: z3 over the normal forms when they are not the very same node"""
    import z3
    todo = []
    e = zenc.Enc(tr, cap=100000)
    s = z3.Solver()
    dis = []
    V = {}

    def term(o):
        i, v = o
        if not i:
            return zenc.frac(v) if math.isfinite(v) else z3.Real('nf_%r' % v)
        if i not in V:
            V[i] = z3.Real('n%d' % i)
        return V[i]
    for a, b in pairs:
        dis.append(term(tr.outs[a]) != term(tr.outs[b]))
        if tr.outs[a][0] != tr.outs[b][0] or (not tr.outs[a][0] and tr.outs[a][1] != tr.outs[b][1]):
            todo.append((a, b))
    if not dis:
        return 'unsat'
    s.add(z3.Or(dis))
    r = core.z3_check(s)
    if r == 'unsat' or not todo:
        return r
    n = Norm(tr)

    def b(n):
        return [[vc.val(n, tr.outs[a]), -vc.val(n, tr.outs[b])] for a, b in todo]
    return worst([ident(n, p) for p in run_norm(n, b)])


class P15(CtlProp):
    pid = 'P15'
    scen = 'hist'
    n_quick = 100
    explain = ('The query is answered by a fresh object and by an object that answered other queries (distance and controls, both directions) before, all '
               'with free symbolic states; z3 decides whether any control or the distance can differ.')

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        out = []
        for s in self.spaces:
            for m in range(n):
                import random
                r = random.Random('%s %d %d' % (s, seed, m))
                p = seeds.pair(r)
                q = seeds.pair(r)
                # the interposed query is posed at the scale of the first
                f = q[0] / p[0]
                q2 = [q[2] * f, q[3] * f, q[4], q[5] / f, q[6], q[7] * f, q[8] * f, q[9], q[10] / f, q[11]]
                if r.random() < .3:
                    q2[:5] = p[2:7]
                if r.random() < .2:
                    q2[5:] = p[7:12]
                if r.random() < .1:
                    q2 = list(p[2:12])
                rel = r.random()
                if rel < .45:
                    # interposed query related to the query by a symmetry, so that derived quantities coincide
                    if rel < .3:
                        p[2:5] = [0.0, 0.0, r.choice([0.0, 0.0, 0.0, math.pi / 2, math.pi])]
                    if r.random() < .5:
                        p[5] = p[10] = r.choice([0.0, 0.0, p[0]])
                    q2 = list(p[2:12])
                    k = r.randint(0, 5)
                    if k in (0, 1, 2):     # mirrored
                        for j in (1, 2, 3, 6, 7, 8):
                            q2[j] = -q2[j]
                    if k in (2, 3):        # reversed
                        q2 = q2[5:] + q2[:5]
                    if k == 4:             # half turn
                        for j in (0, 1, 5, 6):
                            q2[j] = -q2[j]
                        q2[2] += math.pi
                        q2[7] += math.pi
                    if k == 5:
                        q2[2], q2[7] = q2[7], q2[2]
                out.append(seeds.line('hist-%s-%d' % (s, m), 'hist', s, p + q2))
        return out

    def oracle(self, sc, sp, v, outs, ints):
        a, b = oracle.controls(outs, ints, 'c'), oracle.controls(outs, ints, 'h')
        if len(a) != len(b):
            return [('count', 1.0, .5, .5)]
        e = 0.0
        K, G = v[0], v[1]
        for x, y in zip(a, b):
            e = max(e, abs(x[0] - y[0]) * K, abs(x[1] - y[1]) / K, abs(x[2] - y[2]) / G)
        e = max(e, abs(outs['dist'] - outs['hdist']) * K)
        return [('same', e, 1e-9, 1e-9)]

    def vcs(self, tr, line):
        if tr.ints['cn'] != tr.ints['hn']:
            return [('same', 'sat')]
        ps = [('dist', 'hdist')]
        for i in range(tr.ints['cn']):
            ps += [('c%d.%s' % (i, f), 'h%d.%s' % (i, f)) for f in ('ds', 'k', 's')]
        return [('same', same_outs(tr, ps))]


class P10(CtlProp):
    pid = 'P10'
    n_quick = 24
    n_thorough = 200
    explain = ('get_path against integrate(get_controls) and get_path_with_covariance against get_path on the same symbolic query; z3 decides whether any '
               'component of any state can differ.')
    bounds = ('free: limits, states, discretisation, covariances and filter parameters; path sample counts up to about 400; all 18 steering functions; '
              'visited classes')
    flip = False

    def jobs(self, tier, seed):
        import random
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        out = []
        for s in self.spaces:
            for m in range(n):
                r = random.Random('%s %d %d' % (s, seed, m))
                p = seeds.pair(r, r.choice(['rand', 'near', 'kone', 'turn', 'equal', 'aligned', 'st', 'lattice', 'wrap']))
                D = seeds.lu(r, .2, 2) / p[0]
                q = p[:2] + [D] + p[2:]
                out.append(seeds.line('path-%s-%d' % (s, m), 'path', s, q))
                cov = [seeds.lu(r, .01, .2), 0.0, 0.01, seeds.lu(r, .01, .2), -.02, seeds.lu(r, .01, .2)]
                cov += [0.1 * r.random(), 0, 0, .1 * r.random(), 0, .05]
                fil = [.1, .02, .03, .1, .1, .2, .05, 1., 1., .5]
                out.append(seeds.line('pathcov-%s-%d' % (s, m), 'pathcov', s, q + cov + fil))
        return out

    def oracle(self, sc, sp, v, outs, ints):
        if ints['pn'] != ints['qn']:
            return [('count', 1.0, .5, .5)]
        K = v[0]
        e = 0.0
        for i in range(ints['pn']):
            g = lambda f: abs(outs['p%d.%s' % (i, f)] - outs['q%d.%s' % (i, f)])
            e = max(e, g('x') * K, g('y') * K, abs(oracle.angdiff(g('th'), 0)), g('k') / K, g('d'))
            if e != e:
                break
        return [('same', e, 1e-9, 1e-9)]

    def vcs(self, tr, line):
        if tr.ints['pn'] != tr.ints['qn']:
            return [('count', 'sat')]
        ps = []
        for i in range(tr.ints['pn']):
            ps += [('p%d.%s' % (i, f), 'q%d.%s' % (i, f)) for f in ('x', 'y', 'th', 'k', 'd')]
        return [('same', same_outs(tr, ps))]
