"""Integration, interpolation, elementary motions, helpers."""
import math
import random
import core
import oracle
import seeds
import vc
import zenc
from dag import Norm, Unsupported, run_norm
from props_base import Prop, inputs_of, sig
from props_path import merge, worst, ident

PI = math.pi


def rnd_controls(r, sp, n):
    """control lists of any kind, not only those a steering function returns"""
    out = []
    kprev = None
    for i in range(n):
        m = r.choice(['clo', 'arc', 'line', 'clo', 'arc'])
        if sp in ('dubins', 'rs', 'dubins_b') and m == 'clo':
            m = 'arc'
        ds = seeds.lu(r, .05, 4) * r.choice([1, -1])
        if r.random() < .1:
            ds = 0.0
        if m == 'line':
            c = [ds, 0.0, 0.0]
        elif m == 'arc':
            c = [ds, seeds.lu(r, .05, 4) * r.choice([1, -1]), 0.0]
        else:
            c = [ds, r.choice([0.0, seeds.lu(r, .05, 3), -seeds.lu(r, .05, 3)]), seeds.lu(r, .1, 3) * r.choice([1, -1])]
        if kprev is not None and r.random() < .3 and sp not in ('dubins', 'rs'):
            c[1] = kprev
        kprev = c[1] + c[2] * abs(c[0])
        out.append(c)
    return out


def split(v, off):
    return [tuple(v[off + 3 * i:off + 3 * i + 3]) for i in range(int(v[0]))]


SPI = ['dubins', 'rs', 'hc', 'cc00', 'dubins_b', 'ccpm0_b', 'hcpmpm']


class P08(Prop):
    pid = 'P08'
    bounds = ('free: discretisation, start state, control lengths, curvatures and sharpnesses; lists of 1 to 3 controls, up to about 8 samples per '
              'control; both driving directions; sample counts as in the visited classes')
    explain = ('For every class each sample is compared with the closed-form motion (lines, arcs, Fresnel integrals) at its arc length; z3 decides whether '
               'position, heading, curvature or direction can differ, and whether two consecutive samples can be further apart than the '
               'discretisation given the path condition.')
    flip = False
    sec_quick = 12

    def jobs(self, tier, seed):
        out = []
        N = 400 if tier == 'thorough' else 60
        for sp in SPI:
            for m in range(N):
                r = random.Random('%s %d %d i' % (sp, seed, m))
                n = r.choice([1, 1, 2, 3])
                c = rnd_controls(r, sp, n)
                L = max(abs(x[0]) for x in c) or 1.0
                D = L / r.choice([.5, 1, 1.5, 2, 2.3, 3.7, 5.2])
                if r.random() < .15:
                    D = round(D, 1) or .1
                    c = [[round(x[0] / D) * D, x[1], x[2]] for x in c]
                if tier != 'thorough' and m % 10 == 0 or m % 25 == 0:
                    D = .1
                    c = [[max(-.9, min(.9, x[0])), x[1], x[2]] for x in c]
                st = [r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-7, 7), r.choice([0, .3, -1.]), r.choice([0, 1, -1])]
                out.append(seeds.line('i-%s-%d' % (sp, m), 'integ', sp, [n, D] + st + sum(c, [])))
        return out

    def match(self, D, st, ctl, P):
        """Assign samples to arc-length positions: returns [(sample, control, kind, j)] and the five errors.
        Whether a control after the first repeats the joint state with its own curvature and direction is left open
        (every combination is tried); an interval whose length is a multiple of the step may end with an empty step."""
        sg = lambda x: -1.0 if x < 0 else 1.0
        z, th = complex(st[0], st[1]), st[2]
        pos = []
        for i, (ds, ck, cs) in enumerate(ctl):
            L, d = abs(ds), sg(ds)
            at = lambda s: oracle.advance(z, th, d * s, ck, cs) + (ck + cs * s, d)
            m = int(math.ceil(L / D - 1e-9))
            body = [('end' if j == m else 'step', j, at(L if j == m else j * D)) for j in range(1, m + 1)]
            opts = [body]
            if int(math.ceil(L / D + 1e-9)) > m:
                opts.append(body + [('end', m + 1, at(L))])
            pos.append((('start', 0, at(0.0)), opts))
            z, th = oracle.advance(z, th, ds, ck, cs)
        best = None
        if P:
            choices = [[]]
            for i, (start, opts) in enumerate(pos):
                choices = [c + [(i,) + x for x in h + o] for c in choices for h in ([[start]] if i == 0 else [[start], []]) for o in opts]
            for c in choices:
                if len(c) != len(P):
                    continue
                e = [0.0] * 5
                for p, (i, kind, j, (zz, tt, kk, dd)) in zip(P, c):
                    for q, x in enumerate((abs(complex(p[0], p[1]) - zz), abs(oracle.angdiff(p[2], tt)), abs(p[3] - kk), abs(p[4] - dd))):
                        e[q] = max(e[q], x) if x == x else float('inf')
                if best is None or sum(e) < sum(best[1]):
                    best = ([(q, i, kind, j) for q, (i, kind, j, _) in enumerate(c)], e)
        if best is None:
            return [], [0.0, 0.0, 0.0, 0.0, 9.9]
        return best

    def parse(self, v, outs, ints):
        st = v[2:7]
        ctl = split(v, 7)
        P = [tuple(outs['p%d.%s' % (i, f)] for f in ('x', 'y', 'th', 'k', 'd')) for i in range(ints['pn'])]
        return st, ctl, P

    def oracle(self, sc, sp, v, outs, ints):
        st, ctl, P = self.parse(v, outs, ints)
        res, e = self.match(v[1], st, ctl, P)
        L = sum(abs(c[0]) for c in ctl)
        t = 1e-6 * (1 + L)
        td = 1e-4 * (1 + L) ** 2 * (1 + L)
        return [('position', e[0], t, td), ('heading', e[1], t, td), ('curvature', e[2], 1e-7 * (1 + L), 2e-4 * (1 + L)), ('direction', e[3], .5, .5), ('sampling', e[4], 1e-6, 1e-6)]

    def sanitize(self, sc, sp, v):
        v = Prop.sanitize(self, sc, sp, v)
        L = sum(abs(v[7 + 3 * i]) for i in range(int(v[0])))
        v[1] = max(v[1], L / 300)
        if sp in ('dubins', 'rs', 'dubins_b'):
            for i in range(int(v[0])):
                v[9 + 3 * i] = 0.0
        return v

    def vcs(self, tr, line):
        v = [float(x) for x in line.split()[3:]]
        outs = {k: o[1] for k, o in tr.outs.items()}
        st, ctl, P = self.parse(v, outs, tr.ints)
        mt, e = self.match(v[1], st, ctl, P)
        if len(mt) != len(P):
            return [('sampling', 'unknown')]
        d0 = inputs_of(line)
        byname = {nm: k for k, nm in tr.name.items()}

        def node(nm):
            return (byname[nm], tr.val[byname[nm]]) if nm in byname else (0, d0.get(nm, 0.0))
        cons = [(node('ds%d' % i), node('ck%d' % i), node('cs%d' % i)) for i in range(len(ctl))]
        res = {}
        # controls whose length is exactly m steps on this class (the path condition says m D <= |ds| <= m D)
        import z3
        exact = {}
        for i in range(len(ctl)):
            m = sum(1 for q, a, kind, j in mt if a == i and kind != 'start')
            if m and cons[i][0][0] and abs(m * v[1] - abs(ctl[i][0])) < 1e-12 * (1 + abs(ctl[i][0])):
                en = zenc.Enc(tr)
                L = en.inp('ds%d' % i) * (-1 if ctl[i][0] < 0 else 1)
                hy = [en.inp('D') > 0] + en.pcs(lambda a, b: zenc.size(tr, a, 12) and zenc.size(tr, b, 12), 60)
                if en.prove(L == m * en.inp('D'), hy, 3000) == 'unsat':
                    exact[i] = m

        def b(n):
            R = n.R
            g = lambda nm: vc.inp_or(n, nm, d0)
            z = g('x1') + g('y1') * R.I
            E = n.expi(g('th1'))
            starts = []
            for i, (ds, k, s) in enumerate(cons):
                dd = -1 if ctl[i][0] < 0 else 1
                Lp = vc.val(n, ds) * dd
                if i in exact:
                    Lp = g('D') * exact[i]
                starts.append((z, E, dd, Lp))
                if ctl[i][0]:
                    disp, E, _ = vc.adv(n, E, Lp, dd, k, s)
                    z = z + disp
            out = []
            D = g('D')
            for q, i, kind, j in mt:
                z0, E0, dd, Lp = starts[i]
                ds, k, s = cons[i]
                o = lambda f: vc.val(n, tr.outs['p%d.%s' % (q, f)])
                if kind == 'start':
                    ze, Ee, ke = z0, E0, vc.val(n, k)
                else:
                    disp, Ee, ke = vc.adv(n, E0, Lp if kind == 'end' else D * j, dd, k, s)
                    ze = z0 + disp
                out.append(('position', [o('x'), o('y') * R.I, -ze]))
                out.append(('heading', [n.expi(o('th')), -Ee]))
                out.append(('curvature', [o('k'), -ke]))
                out.append(('direction', [o('d'), -R.one * dd]))
            return out
        n = Norm(tr)
        for nm, parts in run_norm(n, b):
            merge(res, nm, ident(n, parts))
        # spacing: last full step j satisfies (m-1) D <= |ds| <= m D on the path condition
        rs = []
        for i in range(len(ctl)):
            m = sum(1 for q, a, kind, j in mt if a == i and kind != 'start')
            if not m or not cons[i][0][0]:
                continue
            en = zenc.Enc(tr)
            D = en.inp('D')
            L = en.inp('ds%d' % i) * (-1 if ctl[i][0] < 0 else 1)
            hy = [D > 0] + en.pcs(lambda a, b: zenc.size(tr, a, 12) and zenc.size(tr, b, 12), 60)
            rs.append(en.prove(z3.And(L <= m * D, L >= (m - 1) * D), hy, 3000))
        if rs:
            merge(res, 'spacing', worst(rs))
        return list(res.items())


class P09(Prop):
    pid = 'P09'
    bounds = ('free: discretisation, fraction t, start state, control lengths, curvatures and sharpnesses; lists of 1 to 3 controls, up to about 8 '
              'internal integration steps; visited classes')
    explain = ('For every class the returned state is compared with the closed-form motion at arc length clamp(t) * total length; z3 decides whether position, '
               'heading, curvature or direction can differ.')
    flip = True
    sec_quick = 12

    def jobs(self, tier, seed):
        out = []
        N = 500 if tier == 'thorough' else 80
        for sp in SPI:
            for m in range(N):
                r = random.Random('%s %d %d p' % (sp, seed, m))
                n = r.choice([1, 2, 2, 3, 3])
                c = rnd_controls(r, sp, n)
                L = sum(abs(x[0]) for x in c) or 1.0
                D = L / r.choice([.5, .5, .9, 1.3, 1.7, 2.1, 3.3, 4.7])
                t = r.choice([0.0, 1.0, -.3, 1.4, r.random(), r.random(), r.random(), r.random()])
                if r.random() < .1:
                    t = abs(c[0][0]) / L
                st = [r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-7, 7), r.choice([0, .3, -1.]), r.choice([0, 1, -1])]
                out.append(seeds.line('t-%s-%d' % (sp, m), 'interp', sp, [n, D, t] + st + sum(c, [])))
        return out

    def sanitize(self, sc, sp, v):
        v = Prop.sanitize(self, sc, sp, v)
        L = sum(abs(v[8 + 3 * i]) for i in range(int(v[0])))
        v[1] = max(v[1], L / 300)
        if sp in ('dubins', 'rs', 'dubins_b'):
            for i in range(int(v[0])):
                v[10 + 3 * i] = 0.0
        return v

    def target(self, v):
        """possible (control index, length into it) of the requested fraction; more than one at a joint"""
        ctl = split(v, 8)
        T = sum(abs(c[0]) for c in ctl)
        s = min(1.0, max(0.0, v[2])) * T
        acc = 0.0
        out = []
        for i, c in enumerate(ctl):
            L = abs(c[0])
            if acc - 1e-9 * (1 + T) <= s <= acc + L + 1e-9 * (1 + T):
                out.append((i, min(max(s - acc, 0.0), L)))
            acc += L
        if v[2] <= 0:
            out = out[:1] or [(0, 0.0)]
            out = [(0, 0.0)]
        return ctl, out

    def oracle(self, sc, sp, v, outs, ints):
        ctl, cand = self.target(v)
        z, th = complex(v[3], v[4]), v[5]
        o = [outs['r.' + f] for f in ('x', 'y', 'th', 'k', 'd')]
        best = None
        L = sum(abs(c[0]) for c in ctl)
        for i, s in cand:
            zz, tt = oracle.drive(z, th, ctl[:i])
            d = -1.0 if ctl[i][0] < 0 else 1.0
            zz, tt = oracle.advance(zz, tt, d * s, ctl[i][1], ctl[i][2])
            e = [abs(complex(o[0], o[1]) - zz), abs(oracle.angdiff(o[2], tt)), abs(o[3] - ctl[i][1] - ctl[i][2] * s), abs(o[4] - d)]
            e = [x if x == x else float('inf') for x in e]
            if best is None or e[2] + e[3] + e[0] < best[2] + best[3] + best[0]:
                best = e
        t = 1e-6 * (1 + L)
        td = 1e-4 * (1 + L) ** 3
        return [('position', best[0], t, td), ('heading', best[1], t, td), ('curvature', best[2], 1e-7 * (1 + L), 2e-4 * (1 + L)), ('direction', best[3], .5, .5)]

    def vcs(self, tr, line):
        v = [float(x) for x in line.split()[3:]]
        ctl, cand = self.target(v)
        d0 = inputs_of(line)
        byname = {nm: k for k, nm in tr.name.items()}

        def node(nm):
            return (byname[nm], tr.val[byname[nm]]) if nm in byname else (0, d0.get(nm, 0.0))
        cons = [(node('ds%d' % i), node('ck%d' % i), node('cs%d' % i)) for i in range(len(ctl))]
        if v[2] <= 0:
            return self.vcs_at(tr, v, ctl, cons, d0, 0)
        if v[2] >= 1:
            cand = cand[-1:]
        r = []
        for i, _ in cand:
            r = self.vcs_at(tr, v, ctl, cons, d0, i)
            if all(x[1] == 'unsat' for x in r):
                break
        return r

    def vcs_at(self, tr, v, ctl, cons, d0, i):
        res = {}

        def b(n):
            R = n.R
            g = lambda nm: vc.inp_or(n, nm, d0)
            z = g('x1') + g('y1') * R.I
            E = n.expi(g('th1'))
            T = R.zero
            pre = R.zero
            for q, (ds, k, s) in enumerate(cons):
                dd = -1 if ctl[q][0] < 0 else 1
                Lp = vc.val(n, ds) * dd
                T = T + Lp
                if q < i:
                    pre = pre + Lp
                    if ctl[q][0]:
                        disp, E, _ = vc.adv(n, E, Lp, dd, k, s)
                        z = z + disp
            ds, k, s = cons[i]
            dd = -1 if ctl[i][0] < 0 else 1
            if v[2] <= 0:
                Lp = R.zero
            elif v[2] >= 1:
                Lp = T - pre
            else:
                Lp = g('t') * T - pre
            o = lambda f: vc.val(n, tr.outs['r.' + f])
            if v[2] > 0:
                disp, E, ke = vc.adv(n, E, Lp, dd, k, s)
                z = z + disp
            else:
                ke = vc.val(n, k)
            return [('position', [o('x'), o('y') * R.I, -z]), ('heading', [n.expi(o('th')), -E]), ('curvature', [o('k'), -ke]), ('direction', [o('d'), -R.one * dd])]
        n = Norm(tr)
        for nm, parts in run_norm(n, b):
            merge(res, nm, ident(n, parts))
        return list(res.items())


class P20(Prop):
    pid = 'P20'
    bounds = 'free: start pose, curvature, sharpness, length (>= 0), both directions, both signs of curvature and sharpness'
    explain = 'The end pose of each elementary motion is compared with the closed-form solution; z3 decides whether any component can differ.'
    flip = False

    def jobs(self, tier, seed):
        out = []
        r = random.Random(seed)
        for m in range(400 if tier == 'thorough' else 120):
            p = [r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-9, 9)]
            d = r.choice([1, -1])
            k = r.choice([0.0, r.uniform(-3, 3)])
            k2 = r.choice([1, -1]) * seeds.lu(r, .01, 5)
            s = r.choice([1, -1]) * seeds.lu(r, .01, 5)
            l = r.choice([0.0, seeds.lu(r, .01, 20), seeds.lu(r, .1, 5)])
            out.append(seeds.line('c%d' % m, 'util', 'clothoid', p + [k, s, d, l]))
            out.append(seeds.line('a%d' % m, 'util', 'arc', p + [k2, d, l]))
            out.append(seeds.line('l%d' % m, 'util', 'line', p + [d, l]))
        return out

    def spec(self, sp, v):
        if sp == 'clothoid':
            return v[:3], (v[5] * v[6], v[3], v[4])
        if sp == 'arc':
            return v[:3], (v[4] * v[5], v[3], 0.0)
        return v[:3], (v[3] * v[4], 0.0, 0.0)

    def oracle(self, sc, sp, v, outs, ints):
        p, c = self.spec(sp, v)
        z, th = oracle.drive(complex(p[0], p[1]), p[2], [c])
        L = abs(c[0])
        t = 1e-6 * (1 + L)
        r = [('position', abs(complex(outs['xf'], outs['yf']) - z), t, t)]
        if 'tf' in outs:
            r.append(('heading', abs(oracle.angdiff(outs['tf'], th)), t, t))
        if 'kf' in outs:
            r.append(('curvature', abs(outs['kf'] - v[3] - v[4] * v[6]), 1e-9 * (1 + abs(v[4] * v[6])), 1e-9 * (1 + abs(v[4] * v[6]))))
        return r

    def sanitize(self, sc, sp, v):
        v = Prop.sanitize(self, sc, sp, v)
        if sp == 'clothoid':
            v[4] = math.copysign(max(abs(v[4]), .01), v[4])
        if sp == 'arc':
            v[3] = math.copysign(max(abs(v[3]), .01), v[3])
        return v

    def vcs(self, tr, line):
        sp = line.split()[2]
        v = [float(x) for x in line.split()[3:]]
        d0 = inputs_of(line)
        d = {'clothoid': lambda: v[5], 'arc': lambda: v[4], 'line': lambda: v[3]}[sp]()
        d = -1 if d < 0 else 1
        byname = {nm: k for k, nm in tr.name.items()}

        def node(nm):
            return (byname[nm], tr.val[byname[nm]]) if nm in byname else (0, d0.get(nm, 0.0))
        res = {}

        def b(n):
            R = n.R
            g = lambda nm: vc.inp_or(n, nm, d0)
            k = node('k') if sp != 'line' else (0, 0.0)
            s = node('s') if sp == 'clothoid' else (0, 0.0)
            E0 = n.expi(g('th'))
            disp, E, ke = vc.adv(n, E0, g('l'), d, k, s)
            o = lambda f: vc.val(n, tr.outs[f])
            out = [('position', [o('xf'), o('yf') * R.I, -(g('x') + g('y') * R.I), -disp])]
            if 'tf' in tr.outs:
                out.append(('heading', [n.expi(o('tf')), -E]))
            if 'kf' in tr.outs:
                out.append(('curvature', [o('kf'), -ke]))
            return out
        n = Norm(tr)
        for nm, parts in run_norm(n, b):
            merge(res, nm, ident(n, parts))
        return list(res.items())


class P19(Prop):
    pid = 'P19'
    bounds = 'all real arguments (index of minimum: arrays of 1 to 5 entries)'
    explain = 'z3 decides each contract over mixed integer/real arithmetic (angle ranges, congruence with an integer number of turns) or over the normal forms (frame changes, distances).'
    flip = True
    symargs = ['--pc']

    def jobs(self, tier, seed):
        r = random.Random(seed)
        out = []
        for m in range(300 if tier == 'thorough' else 80):
            a = r.choice([r.uniform(-40, 40), r.uniform(-7, 7), r.randint(-6, 6) * PI / 2, r.randint(-4, 4) * PI + r.choice([1e-9, -1e-9, 1e-5, -1e-5])])
            for f in ('twopify', 'pify', 'sgn'):
                out.append(seeds.line('%s%d' % (f, m), 'util', f, [a]))
            q = [r.uniform(-5, 5) * r.choice([0, 1, 1, 1]) for _ in range(5)]
            out.append(seeds.line('po%d' % m, 'util', 'polar', q[:2]))
            out.append(seeds.line('pd%d' % m, 'util', 'pdist', q[:4]))
            out.append(seeds.line('fr%d' % m, 'util', 'frames', [q[0], q[1], r.uniform(-7, 7), q[3], q[4]]))
            n = r.randint(1, 5)
            out.append(seeds.line('am%d' % m, 'util', 'amin', [n] + [r.choice([r.uniform(-3, 3), float(r.randint(-2, 2))]) for _ in range(n)]))
        return out

    def fixed(self, sc, sp, vals=()):
        return Prop.fixed(self, sc, sp, vals)

    def oracle(self, sc, sp, v, outs, ints):
        if sp in ('twopify', 'pify'):
            lo, hi = (0.0, 2 * PI) if sp == 'twopify' else (-PI, PI)
            x = outs['r']
            e = max(lo - x, x - hi) if x == x else float('nan')
            t = 1e-12 * (1 + abs(v[0]))
            return [('range', e, t, t), ('congruent', abs(oracle.angdiff(x, v[0])), 1e-11 * (1 + abs(v[0])), 1e-11 * (1 + abs(v[0])))]
        if sp == 'sgn':
            return [('sgn', abs(outs['r'] - (-1.0 if v[0] < 0 else 1.0)), .1, .1)]
        if sp == 'polar':
            r = math.hypot(v[0], v[1])
            return [('radius', abs(outs['r'] - r), 1e-9 * (1 + r), 1e-9 * (1 + r)), ('angle', abs(complex(v[0], v[1]) - outs['r'] * complex(math.cos(outs['t']), math.sin(outs['t']))), 1e-9 * (1 + r), 1e-9 * (1 + r))]
        if sp == 'pdist':
            r = math.hypot(v[0] - v[2], v[1] - v[3])
            return [('distance', abs(outs['r'] - r), 1e-9 * (1 + r), 1e-9 * (1 + r))]
        if sp == 'frames':
            x, y, th, lx, ly = v[:5]
            s = 1e-9 * (1 + abs(x) + abs(y) + abs(lx) + abs(ly))
            e = complex(math.cos(th), math.sin(th))
            g = complex(x, y) + e * complex(lx, ly)
            c = (complex(lx, ly) - complex(x, y)) * e.conjugate()
            return [('global', abs(complex(outs['gx'], outs['gy']) - g), s, s), ('local', abs(complex(outs['cx'], outs['cy']) - c), s, s), ('inverse', abs(complex(outs['bx'] - lx, outs['by'] - ly)), s, s)]
        if sp == 'amin':
            a = v[1:1 + int(v[0])]
            i = ints['idx']
            ok = 0 <= i < len(a) and a[i] == min(a) and all(a[j] > a[i] for j in range(i))
            return [('index', 0.0 if ok else 1.0, .5, .5)]

    def vcs(self, tr, line):
        import z3
        sp = line.split()[2]
        v = [float(x) for x in line.split()[3:]]
        d0 = inputs_of(line)
        e = zenc.Enc(tr)
        if sp in ('twopify', 'pify', 'sgn'):
            pc = e.pcs()
            x = e.out('r')
            a = e.inp('a')
            P = e.PI
            if sp == 'sgn':
                return [('sgn', e.prove(z3.If(a < 0, x == -1, x == 1), pc))]
            lo, hi = (0, 2 * P) if sp == 'twopify' else (-P, P)
            g = z3.And(x >= lo, x < hi) if sp == 'twopify' else z3.And(x >= lo, x <= hi)
            out = [('range', e.prove(g, pc))]
            # congruence: x - a is an integer number of turns
            n = Norm(tr)
            r = run_norm(n, lambda n: [n.expi(vc.val(n, tr.outs['r'])), -n.expi(vc.inp_or(n, 'a', d0))])
            return out + [('congruent', ident(n, r))]
        if sp == 'amin':
            pc = e.pcs()
            k = int(v[0])
            a = [e.inp('a%d' % i) for i in range(k)]
            i = tr.ints['idx']
            if not 0 <= i < k:
                return [('index', 'sat')]
            return [('index', e.prove(z3.And([a[i] <= x for x in a] + [a[j] > a[i] for j in range(i)]), pc))]
        n = Norm(tr)
        g = lambda nm: vc.inp_or(n, nm, d0)
        o = lambda f: vc.val(n, tr.outs[f])
        if sp == 'pdist':
            r = e.out('r')
            x = (e.inp('x1') - e.inp('x2')), (e.inp('y1') - e.inp('y2'))
            return [('distance', e.prove(z3.And(r >= 0, r * r == x[0] * x[0] + x[1] * x[1])))]
        if sp == 'polar':
            r = e.out('r')
            x, y = e.inp('x'), e.inp('y')
            return [('radius', e.prove(z3.And(r >= 0, r * r == x * x + y * y))), ('angle', self.polar_angle(tr))]
        if sp == 'frames':
            def b(n):
                R = n.R
                E = n.expi(g('th'))
                z = g('x') + g('y') * R.I
                w = g('lx') + g('ly') * R.I
                return [('global', [o('gx'), o('gy') * R.I, -z, -E * w]), ('inverse', [o('bx'), o('by') * R.I, -w]), ('local', [o('cx'), o('cy') * R.I, -(w - z) * E.conj()])]
            return [(nm, ident(n, p)) for nm, p in run_norm(n, b)]
        return []

    def polar_angle(self, tr):
        """t is atan2(y, x) of the very inputs (or a constant where both vanish)"""
        i, v = tr.outs['t']
        if i and tr.op[i] == 'atan2' and tr.op[tr.a[i]] == 'input' and tr.name[tr.a[i]] == 'y' and tr.op[tr.b[i]] == 'input' and tr.name[tr.b[i]] == 'x':
            return 'unsat'
        return 'unknown'
