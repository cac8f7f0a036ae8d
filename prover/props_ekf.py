"""Belief propagation: Jacobians, prediction, update, recursion along a path."""
import cmath
import math
import random
import core
import oracle
import seeds
import vc
from dag import Norm, Unsupported, run_norm
from props_base import Prop, inputs_of, sig
from props_path import merge, worst, ident, same_outs

IX = ((0, 1, 2), (1, 3, 4), (2, 4, 5))


def rnd_step(r):
    """state, one control, step length; state curvature and sharpness exactly zero for arcs and lines"""
    m = r.choice(['clo', 'clo', 'arc', 'line', 'clo0'])
    ka = r.choice([1, -1]) * seeds.lu(r, .05, 4)
    cs = r.choice([1, -1]) * seeds.lu(r, .05, 4)
    if m in ('arc', 'line'):
        cs = 0.0
    if m in ('line', 'clo0'):
        ka = 0.0
    ds = r.choice([1, -1]) * seeds.lu(r, .05, 5)
    st = seeds.lu(r, .02, 3)
    return [r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-7, 7), ka, r.choice([0, 1, -1])], [ds, r.uniform(-3, 3), cs], st


def rnd_cov(r, s=1.0):
    import numpy as np
    g = np.array([[r.gauss(0, s) for _ in range(3)] for _ in range(3)])
    m = g @ g.T + 1e-3 * np.eye(3)
    return [float(m[0, 0]), float(m[0, 1]), float(m[0, 2]), float(m[1, 1]), float(m[1, 2]), float(m[2, 2])]


def rnd_filter(r):
    return [seeds.lu(r, .01, 2) for _ in range(4)] + [seeds.lu(r, .05, 3) for _ in range(3)] + [r.uniform(-3, 3) for _ in range(3)]


def mat(a):
    import numpy as np
    return np.array([[a[IX[i][j]] for j in range(3)] for i in range(3)])


def outmat(o, p, f):
    import numpy as np
    return np.array([[o['%s.%s%d' % (p, f, 4 * i + j)] for j in range(3)] for i in range(3)])


def spd(v, off):
    """clip a covariance block to a positive definite one"""
    import numpy as np
    m = mat(v[off:off + 6])
    w, U = np.linalg.eigh(m)
    if w[0] < 1e-3:
        m = (U * np.maximum(w, 1e-3)) @ U.T
        v[off:off + 6] = [float(m[0, 0]), float(m[0, 1]), float(m[0, 2]), float(m[1, 1]), float(m[1, 2]), float(m[2, 2])]


def jac_num(v, u, st):
    """exact derivatives of the motion step"""
    import numpy as np
    th, ka = v[2], v[3]
    d = -1.0 if u[0] < 0 else 1.0
    cs = u[2]
    z, tf = oracle.advance(0j, th, d * st, ka, cs)
    E0, Ef = cmath.exp(1j * th), cmath.exp(1j * tf)
    if abs(cs) * st * st > 1e-6:
        dk = (d * (Ef - E0) - 1j * ka * d * z) / cs
    elif cs != 0 or ka != 0:
        # i * integral of u e^{i theta(u)} du
        xs, ws = np.polynomial.legendre.leggauss(40)
        uu = st / 2 * (xs + 1)
        dk = complex(1j * st / 2 * (ws @ (uu * np.exp(1j * (th + d * (ka * uu + cs * uu * uu / 2))))))
    else:
        dk = 0j
    Fx = np.eye(3)
    Fx[0, 2], Fx[1, 2] = (1j * z).real, (1j * z).imag
    Fu = np.array([[Ef.real, dk.real], [Ef.imag, dk.imag], [ka + cs * st, d * st]])
    return Fx, Fu


def jac_sym(n, d0, line, stname):
    """same, over normal forms: returns (complex derivative wrt heading, wrt length, wrt curvature, heading wrt length, heading wrt curvature)"""
    tr = n.tr
    R = n.R
    byname = {nm: k for k, nm in tr.name.items()}
    node = lambda nm: (byname[nm], tr.val[byname[nm]]) if nm in byname else (0, d0.get(nm, 0.0))
    g = lambda nm: vc.inp_or(n, nm, d0)
    d = -1 if d0['ds0'] < 0 else 1
    L = g(stname)
    E0 = n.expi(g('th1'))
    k, s = node('ka1'), node('cs0')
    disp, E, ke = vc.adv(n, E0, L, d, k, s)
    K = vc.val(n, k)
    S = vc.val(n, s)
    if S.d:
        dk = (E - E0) * vc.inv(n, s) * d - R.I * K * vc.inv(n, s) * disp * d
    elif K.d:
        dk = (E * L * d - disp) * vc.inv(n, k)
    else:
        dk = R.zero
    return disp * R.I, E, dk, ke, L * d


class P16(Prop):
    pid = 'P16'
    bounds = 'free: start pose, curvature, sharpness, step length (> 0), both driving directions, both signs of curvature and sharpness; lines, arcs and clothoids'
    explain = ('The Jacobians the filter computes are compared with the derivatives of the closed-form motion; z3 decides whether any of the 15 entries '
               'can differ.  Curvature and sharpness below the library tolerance (1e-4) are treated as zero by the code and held to that tolerance.')
    flip = False

    def jobs(self, tier, seed):
        r = random.Random(seed)
        out = []
        for m in range(600 if tier == 'thorough' else 160):
            s, u, st = rnd_step(r)
            if m % 16 == 0:
                s[3] = r.choice([1, -1]) * 3e-5
            if m % 16 == 1:
                u[2] = r.choice([1, -1]) * 3e-5
            out.append(seeds.line('j%d' % m, 'jacobi', 'x', s + u + [st]))
        return out

    def sanitize(self, sc, sp, v):
        v = Prop.sanitize(self, sc, sp, v)
        v[8] = max(abs(v[8]), 1e-3)
        v[5] = math.copysign(max(abs(v[5]), 1e-3), v[5])
        for q in (3, 7):
            # keep away from the tolerance the code uses for straight lines and arcs
            if 0 < abs(v[q]) < 2e-2:
                v[q] = 0.0
        return v

    def oracle(self, sc, sp, v, outs, ints):
        import numpy as np
        Fx, Fu = jac_num(v, v[5:8], v[8])
        o = lambda n, i, j: outs['%s%d%d' % (n, i, j)]
        ex = max(abs(o('Fx', i, j) - Fx[i, j]) for i in range(3) for j in range(3))
        tiny = abs(v[7]) <= 1e-4 and abs(v[3]) <= 1e-4
        eu = max(abs(o('Fu', i, j) - Fu[i, j]) for i in range(3) for j in range(2) if not (tiny and j == 1 and i < 2))
        if any(not math.isfinite(x) for k, x in outs.items() if k.startswith('F')):
            ex = float('nan')
        L = v[8]
        s = (1 + L) ** 2 * (1 + 1 / max(abs(v[7]), .05))
        if tiny:
            eu = max(eu, abs(o('Fu', 0, 1)), abs(o('Fu', 1, 1)))
        return [('state_jacobian', ex, 1e-6 * s, 2e-4 * (1 + L) ** 4), ('control_jacobian', eu, 1e-5 * s, 2e-4 * (1 + L) ** 5)]

    def vcs(self, tr, line):
        d0 = inputs_of(line)

        def b(n):
            R = n.R
            dth, dl, dk, hl, hk = jac_sym(n, d0, line, 'st')
            o = lambda nm: vc.val(n, tr.outs[nm])
            c = R.one
            ex = [[o('Fx00'), -c], [o('Fx01')], [o('Fx10')], [o('Fx11'), -c], [o('Fx20')], [o('Fx21')], [o('Fx22'), -c], [o('Fx02'), o('Fx12') * R.I, -dth]]
            eu = [[o('Fu00'), o('Fu10') * R.I, -dl], [o('Fu01'), o('Fu11') * R.I, -dk], [o('Fu20'), -hl], [o('Fu21'), -hk]]
            return [('state_jacobian', p) for p in ex] + [('control_jacobian', p) for p in eu]
        n = Norm(tr)
        res = {}
        for nm, p in run_norm(n, b):
            merge(res, nm, ident(n, p))
        return list(res.items())


def mm(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]


def tp(A):
    return [list(x) for x in zip(*A)]


def madd(A, B, s=1):
    return [[a + b * s for a, b in zip(x, y)] for x, y in zip(A, B)]


def symmat(n, pre, d0):
    g = [vc.inp_or(n, '%s%d' % (pre, i), d0) for i in range(6)]
    return [[g[IX[i][j]] for j in range(3)] for i in range(3)]


def om(n, p, f):
    return [[vc.val(n, n.tr.outs['%s.%s%d' % (p, f, 4 * i + j)]) for j in range(3)] for i in range(3)]


def meq(name, A, B):
    return [(name, [A[i][j], -B[i][j]]) for i in range(3) for j in range(3)]


class P17(Prop):
    pid = 'P17'
    bounds = 'free: start pose, curvature, control, step length, both covariances (symmetric 3x3), noise and controller parameters, both driving directions'
    explain = ('The predicted covariances are compared entry by entry with F S F^T + G Q G^T and the closed-loop propagation, where F and G are the motion '
               'Jacobians the filter uses (free variables here; their correctness is P16); z3 decides whether any entry of the three matrices can differ or '
               'whether a result can be asymmetric.')
    flip = False
    sec_quick = 20

    def jobs(self, tier, seed):
        r = random.Random(seed)
        out = []
        for m in range(300 if tier == 'thorough' else 80):
            s, u, st = rnd_step(r)
            out.append(seeds.line('e%d' % m, 'predict', 'x', s + u + [st] + rnd_cov(r) + rnd_cov(r, .5) + rnd_filter(r)))
        return out

    def sanitize(self, sc, sp, v):
        v = Prop.sanitize(self, sc, sp, v)
        v[8] = max(abs(v[8]), 1e-3)
        spd(v, 9)
        spd(v, 15)
        return v

    def oracle(self, sc, sp, v, outs, ints):
        import numpy as np
        o = lambda n, i, j: outs['%s%d%d' % (n, i, j)]
        Fx = np.array([[o('Fx', i, j) for j in range(3)] for i in range(3)])
        Fu = np.array([[o('Fu', i, j) for j in range(2)] for i in range(3)])
        S, L = mat(v[9:15]), mat(v[15:21])
        al, k = v[21:25], v[28:31]
        st, ka, th = v[8], v[3], v[2]
        d = -1.0 if v[5] < 0 else 1.0
        Q = np.diag([al[0] * st * st + al[1] * ka * ka, al[2] * st * st + al[3] * ka * ka])
        K = np.array([[k[0], 0, 0], [0, k[1], d * k[2]]])
        c, s = math.cos(th), math.sin(th)
        Rm = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])
        FK = Fx - Fu @ K @ Rm
        eS, eL = Fx @ S @ Fx.T + Fu @ Q @ Fu.T, FK @ L @ FK.T
        oS, oL, oC = (outmat(outs, 'b', f) for f in 'SLC')
        sc_ = 1e-8 * (1 + abs(eS).max() + abs(eL).max() + abs(L).max() * (1 + abs(FK).max()) ** 2)
        ch = lambda x: float(abs(x).max()) if np.isfinite(x).all() else float('nan')
        return [('estimation', ch(oS - eS), sc_, sc_), ('tracking', ch(oL - eL), sc_, sc_), ('total', ch(oC - oS - oL), sc_, sc_),
                ('symmetric', max(ch(oS - oS.T), ch(oL - oL.T), ch(oC - oC.T)), sc_, sc_)]

    def vcs(self, tr, line):
        d0 = inputs_of(line)
        # the Jacobian entries are free variables (the code computes them once: the harness' own call yields the same nodes)
        cut = {tr.outs['%s%d%d' % (f, i, j)][0] for f, w in (('Fx', 3), ('Fu', 2)) for i in range(3) for j in range(w)}
        cut = {c for c in cut if c and tr.op[c] not in ('const', 'input')}
        res = {}
        for C in (cut, set()):
            n = Norm(tr)
            n.cut = C

            def b(n):
                R = n.R
                g = lambda nm: vc.inp_or(n, nm, d0)
                o = lambda f, i, j: vc.val(n, tr.outs['%s%d%d' % (f, i, j)])
                Fx = [[o('Fx', i, j) for j in range(3)] for i in range(3)]
                Fu = [[o('Fu', i, j) for j in range(2)] for i in range(3)]
                S, L = symmat(n, 'S', d0), symmat(n, 'L', d0)
                st = g('st_')
                ka = vc.inp_or(n, 'ka1', d0) if d0['ka1'] else R.zero
                Z = R.zero
                Q = [[g('al1') * st * st + g('al2') * ka * ka, Z], [Z, g('al3') * st * st + g('al4') * ka * ka]]
                d = -1 if d0['ds0'] < 0 else 1
                K = [[g('k1'), Z, Z], [Z, g('k2'), g('k3') * d]]
                E = n.expi(g('th1'))
                c, s = (E + E.conj()) * vc.H, (E - E.conj()) * R.I * (-vc.H)
                Rm = [[c, s, Z], [-s, c, Z], [Z, Z, R.one]]
                FK = madd(Fx, mm(mm(Fu, K), Rm), -1)
                eS = madd(mm(mm(Fx, S), tp(Fx)), mm(mm(Fu, Q), tp(Fu)))
                eL = mm(mm(FK, L), tp(FK))
                oS, oL, oC = (om(n, 'b', f) for f in 'SLC')
                return meq('estimation', oS, eS) + meq('tracking', oL, eL) + meq('total', oC, madd(oS, oL)) + meq('symmetric', oS, tp(oS)) + meq('symmetric', oL, tp(oL))
            res = {}
            for nm, p in run_norm(n, b):
                merge(res, nm, ident(n, p))
            if all(x == 'unsat' for x in res.values()):
                break
        return list(res.items())


class P18(Prop):
    pid = 'P18'
    bounds = 'free: both covariances (symmetric 3x3) and the three measurement deviations, wherever the innovation covariance is invertible'
    explain = ('The corrected covariances are compared entry by entry with the Kalman correction S - S (S + R)^-1 S and L + S (S + R)^-1 S; z3 decides whether any '
               'entry of the three matrices can differ, be asymmetric, or the total can change.  That the correction never increases the covariance '
               'follows from the formula for positive definite S + R and is also tested at every representative.')
    flip = False
    sec_quick = 100

    def jobs(self, tier, seed):
        r = random.Random(seed)
        return [seeds.line('u%d' % m, 'update', 'x', [r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-7, 7), r.uniform(-2, 2), 1] + rnd_cov(r) + rnd_cov(r, .5) + rnd_filter(r))
                for m in range(200 if tier == 'thorough' else 60)]

    def sanitize(self, sc, sp, v):
        v = Prop.sanitize(self, sc, sp, v)
        spd(v, 5)
        spd(v, 11)
        for q in (21, 22, 23):
            v[q] = max(v[q], .02)
        return v

    def oracle(self, sc, sp, v, outs, ints):
        import numpy as np
        S, L = mat(v[5:11]), mat(v[11:17])
        R = np.diag([x * x for x in v[21:24]])
        G = S @ np.linalg.inv(S + R)
        eS, eL = S - G @ S, L + G @ S
        oS, oL, oC = (outmat(outs, 'b', f) for f in 'SLC')
        sc_ = 1e-8 * (1 + abs(S).max() + abs(L).max()) * (1 + np.linalg.cond(S + R) * 1e-6)
        ch = lambda x: float(abs(x).max()) if np.isfinite(x).all() else float('nan')
        inc = max(0.0, float(np.linalg.eigvalsh((oS + oS.T) / 2 - S)[-1])) if np.isfinite(oS).all() else float('nan')
        return [('estimation', ch(oS - eS), sc_, sc_), ('tracking', ch(oL - eL), sc_, sc_), ('total', max(ch(oC - oS - oL), ch(oC - S - L)), sc_, sc_),
                ('symmetric', max(ch(oS - oS.T), ch(oL - oL.T), ch(oC - oC.T)), sc_, sc_), ('no_increase', inc, sc_, sc_)]

    def vcs(self, tr, line):
        d0 = inputs_of(line)

        def b(n):
            S, L = symmat(n, 'S', d0), symmat(n, 'L', d0)
            r = [vc.inp_or(n, x, d0) for x in ('sx', 'sy', 'st')]
            A = [[S[i][j] + (r[i] * r[i] if i == j else 0) for j in range(3)] for i in range(3)]
            cof = lambda i, j: A[(i + 1) % 3][(j + 1) % 3] * A[(i + 2) % 3][(j + 2) % 3] - A[(i + 1) % 3][(j + 2) % 3] * A[(i + 2) % 3][(j + 1) % 3]
            det = sum((A[0][j] * cof(0, j) for j in (1, 2)), A[0][0] * cof(0, 0))
            iv = det.inv()
            Ai = [[cof(j, i) * iv for j in range(3)] for i in range(3)]
            D = mm(mm(S, Ai), S)
            oS, oL, oC = (om(n, 'b', f) for f in 'SLC')
            return (meq('estimation', oS, madd(S, D, -1)) + meq('tracking', oL, madd(L, D)) + meq('total', oC, madd(oS, oL)) + meq('total', oC, madd(S, L)) +
                    meq('symmetric', oS, tp(oS)) + meq('symmetric', oL, tp(oL)))
        n = Norm(tr, maxterms=60000)
        res = {}
        for nm, p in run_norm(n, b):
            merge(res, nm, ident(n, p))
        return list(res.items())


class P23(Prop):
    pid = 'P23'
    bounds = ('free: discretisation, start state, lists of 1 to 3 controls, both covariances, all filter parameters; up to about 6 samples; Dubins, '
              'Reeds-Shepp and the hybrid/continuous-curvature integration')
    explain = ('The belief path is compared with an explicit filter recursion (predict with the control and step length that leads to the sample, then update) '
               'over the same states, computed by the same symbolic execution; z3 decides whether any covariance entry can differ.')
    flip = False
    sec_quick = 30
    NCTL = 3

    def jobs(self, tier, seed):
        import props_motion
        out = []
        for sp in ('dubins', 'rs', 'hc', 'cc00'):
            for m in range(150 if tier == 'thorough' else 36):
                r = random.Random('%s %d %d b' % (sp, seed, m))
                n = r.choice([1, 2, 2, 3])
                c = props_motion.rnd_controls(r, sp, n)
                L = max(abs(x[0]) for x in c) or 1.0
                D = L / r.choice([.5, 1.3, 1.7, 2.3, 2.8])
                st = [r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-7, 7), r.choice([0, .3, -1.]), r.choice([0, 1, -1])]
                f = rnd_filter(r)
                if m % 9 == 0:
                    f[:4] = [0.0] * 4
                if m % 9 == 1:
                    f[7:] = [0.0] * 3
                out.append(seeds.line('b-%s-%d' % (sp, m), 'belief', sp, [n, D] + st + sum(c, []) + rnd_cov(r) + rnd_cov(r, .5) + f))
        return out

    def sanitize(self, sc, sp, v):
        v = Prop.sanitize(self, sc, sp, v)
        n = int(v[0])
        L = sum(abs(v[7 + 3 * i]) for i in range(n))
        v[1] = max(v[1], L / 30)
        if sp in ('dubins', 'rs'):
            for i in range(n):
                v[9 + 3 * i] = 0.0
        spd(v, 7 + 3 * n)
        spd(v, 13 + 3 * n)
        return v

    def oracle(self, sc, sp, v, outs, ints):
        import numpy as np
        if ints['pn'] != ints['rn']:
            return [('count', 0.0, 1.0, 1.0)] if ints['pn'] == ints['qn'] else [('count', 9.0, 1.0, 1.0)]
        e = {'S': 0.0, 'L': 0.0, 'C': 0.0}
        ps = 0.0
        for i in range(ints['pn']):
            for f in 'SLC':
                a, b = outmat(outs, 'p%d' % i, f), outmat(outs, 'r%d' % i, f)
                x = float((abs(a - b) / (1 + abs(b).max())).max())
                e[f] = max(e[f], x) if x == x else (float('inf') if np.isfinite(b).all() else e[f])
        return [('estimation', e['S'], 1e-6, 1e-6), ('tracking', e['L'], 1e-6, 1e-6), ('total', e['C'], 1e-6, 1e-6)]

    def vcs(self, tr, line):
        if tr.ints['pn'] != tr.ints['rn']:
            return [('count', 'unknown')]
        ent = [4 * i + j for i in range(3) for j in range(3)]
        return [(nm, same_outs(tr, [('p%d.%s%d' % (i, f, k), 'r%d.%s%d' % (i, f, k)) for i in range(tr.ints['pn']) for k in ent]))
                for nm, f in (('estimation', 'S'), ('tracking', 'L'), ('total', 'C'))]
