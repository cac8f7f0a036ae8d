"""P22: every valid query yields finite, non-empty results."""
import math
import random
import core
import oracle
import seeds
import zenc
from props_path import khyp
from props_base import Prop


def special(r):
    """exactly degenerate configurations: coincident, collinear, tangent, on the turning circle"""
    K = r.choice([.5, 1., 2., 1., r.uniform(.2, 5)])
    G = r.choice([.5, 1., 2., 1., r.uniform(.2, 5)])
    x = r.choice([0., 0., 1., r.uniform(-5, 5)])
    y = r.choice([0., 0., -2., r.uniform(-5, 5)])
    t = r.choice([0., 0., math.pi / 2, math.pi, -math.pi / 2, r.uniform(-4, 4), 2 * math.pi, -1e-17])
    k = r.randint(0, 6)
    c, s = math.cos(t), math.sin(t)
    if k == 0:
        q = (x, y, t)
    elif k == 1:
        d = r.choice([1, -1, 2, -2, 4, -4, 1e-3, -1e-5, 1e-9, 100, 1e4]) / K
        q = (x + d * c, y + d * s, t + r.choice([0, math.pi, 2 * math.pi, -math.pi]))
    elif k == 2:
        d = r.choice([1, -1, 2, -2, 4, -4, 6, 1e-3]) / K
        q = (x - d * s, y + d * c, t + r.choice([0, math.pi, math.pi / 2, -math.pi]))
    elif k == 3:
        a = r.choice([math.pi / 2, math.pi, 2 * math.pi, -math.pi / 2, 1e-4, 1e-8, r.uniform(-6, 6)])
        sd = r.choice([1, -1])
        q = (x + sd / K * (math.sin(t + a) - s), y - sd / K * (math.cos(t + a) - c), t + a)
    elif k == 4:
        q = (x, y, t + r.choice([math.pi, 1e-9, -1e-9, 1e-4, math.pi / 2]))
    elif k == 5:
        q = (x + r.choice([1, -1]) * r.choice([1e-3, 1e-5, 1e-9, 1e-12]) / K, y, t)
    else:
        e = r.choice([1e-3, 1e-6, 1e-10, 1e-15])
        q = (x + r.choice([0, 2, 4]) / K + e, y + r.choice([0, 2, 4]) / K, t + r.choice([0, math.pi]))

    def kp():
        return r.choice([0., 0., K, -K, r.uniform(-K, K)])
    return [K, G, x, y, t, kp(), r.choice([0, 0, 1, -1])] + list(q) + [kp(), r.choice([0, 0, 1, -1])]


def circle_lemma(tr, b):
    """b is the centre offset of a clothoid-entered turning circle: K*b = pi*u*S(u) + cos(pi*u^2/2) with u = K/sqrt(pi*G) (decided by
    z3 on the nodes of the class).  That function has derivative pi*S(u) >= 0 and is 1 at u = 0, hence b > 0."""
    import z3
    near, _ = zenc.near(tr, [b], 9)
    fs = [k for k in near if tr.op[k] == 'FS']
    cs = [k for k in near if tr.op[k] == 'cos']
    if len(fs) != 1 or len(cs) != 1:
        return False
    f, c = fs[0], cs[0]
    th = tr.a[c]
    for _ in range(4):
        if tr.op[th] in ('rem', 'fmod') and tr.op[tr.b[th]] == 'const' and abs(tr.val[tr.b[th]] - 2 * math.pi) < 1e-12:
            th = tr.a[th]
        elif tr.op[th] in ('add', 'sub') and any(tr.op[x] == 'const' and abs(abs(tr.val[x]) - 2 * math.pi) < 1e-12 for x in (tr.a[th], tr.b[th])):
            th = tr.b[th] if tr.op[tr.a[th]] == 'const' else tr.a[th]
        else:
            break
    try:
        e = zenc.Enc(tr)
        u, t = e.get(tr.a[f]), e.get(th)
        g1 = z3.And(u >= 0, 2 * t == e.PI * u * u, u * u * e.PI * e.inp('G') == e.inp('K') * e.inp('K'))
        if e.prove(g1, khyp(e), 1500) != 'unsat':
            return False
        e = zenc.Enc(tr)
        bb, u = e.get(b), e.get(tr.a[f])
        g2 = bb * e.inp('K') == e.PI * u * e.get(f) + e.get(c)
        return e.prove(g2, khyp(e), 3000) == 'unsat'
    except ValueError:
        return False


def radius_nodes(tr, roots):
    """roots of the form sqrt(x^2 + y^2) with y a circle-centre offset: they exceed 1/K (same lemma, strict for K > 0)"""
    st = list(roots)
    for p in tr.pc:
        if p[0] != 'm' and p[0] < 100:
            st += [x for x in p[1:3] if x]
    out = []
    memo = {}

    def strip(k):
        while True:
            if tr.op[k] == 'neg':
                k = tr.a[k]
            elif tr.op[k] == 'sub' and tr.op[tr.a[k]] == 'const' and tr.val[tr.a[k]] == 0:
                k = tr.b[k]
            else:
                return k
    for k in zenc.cone(tr, st):
        if tr.op[k] != 'sqrt' or tr.op[tr.a[k]] != 'add':
            continue
        for m in (tr.a[tr.a[k]], tr.b[tr.a[k]]):
            if tr.op[m] == 'mul' and tr.a[m] == tr.b[m]:
                y = strip(tr.a[m])
                if tr.op[y] == 'add':
                    if y not in memo:
                        memo[y] = circle_lemma(tr, y)
                    if memo[y]:
                        out.append(k)
    return out


class P22(Prop):
    pid = 'P22'
    n_quick = 150
    n_thorough = 2500
    sec_quick = 8
    budget_quick = 130
    bounds = ('inputs: both states and limits (free reals); classes: the expression classes visited by the concolic exploration, including exactly degenerate '
              'configurations; partial operations are those the returned controls and distance depend on; range reasoning is local (terms further than a bounded '
              'depth below an operation are unconstrained), so a domain condition that needs global geometry is left undecided and only searched for witnesses')
    explain = ('For every class and every square root, division and inverse trigonometric function that the returned controls or the distance depend on, '
               'z3 decides whether its argument can leave the domain of the operation under the branch outcomes of the class.')

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        out = []
        r = random.Random(seed * 17 + 3)
        sp = [special(r) for _ in range(n)]
        for s in seeds.ALLB:
            out += seeds.pairs(seed, n, 'dist', [s])
            for i, p in enumerate(sp):
                out.append(seeds.line('dist-%s-s%d' % (s, i), 'dist', s, p))
        return out

    def oracle(self, sc, sp, v, outs, ints):
        c = oracle.controls(outs, ints)
        L = 1e9 / v[0]
        bad = sum(1 for x in c for y in x if not (abs(y) < L * max(1, v[0] ** 2, v[1])))
        D = outs['dist']
        return [('non-empty', 0.0 if len(c) > 0 else 1.0, .5, .5), ('finite controls', float(bad), .5, .5),
                ('finite distance', 0.0 if abs(D) < L else 1.0, .5, .5), ('non-negative distance', -D * v[0], 1e-9, 1e-9)]

    def vcs(self, tr, line):
        roots = [i for nm, (i, v) in tr.outs.items() if i and (nm == 'dist' or nm[0] == 'c')]
        out = []
        cone = zenc.cone(tr, roots)
        eq = zenc.equal_roots(tr, roots)
        rad = radius_nodes(tr, roots)
        ver = {'sqrt': [], 'div': [], 'inv': []}
        und = []
        done = set()
        for k in sorted(cone):
            op = tr.op[k]
            a, b = tr.a[k], tr.b[k]
            if op == 'div' and tr.op[b] != 'const':
                nm, x, g = 'div', b, lambda e: e.get(b) != 0
            elif op == 'sqrt':
                nm, x, g = 'sqrt', a, lambda e: e.get(a) >= 0
            elif op in ('asin', 'acos'):
                nm, x, g = 'inv', a, lambda e: z_and(e.get(a))
            else:
                continue
            if (nm, x) in done:
                continue
            done.add((nm, x))
            r = zenc.focused_prove(tr, [x], g, khyp, eq, 500, rad)
            if r != 'unsat':
                r = zenc.local_prove(tr, [x], g, khyp, 400, (2, 4, 7, 10), eq=eq)
            if r != 'unsat' and nm == 'div' and circle_lemma(tr, b):
                r = 'unsat'
            ver[nm].append(r)
            if r != 'unsat':
                und.append((k, op))
        for nm, l in ver.items():
            out.append((nm, 'unsat' if all(r == 'unsat' for r in l) else 'unknown'))
        if tr.ints['cn'] == 0:
            out.append(('non-empty', 'sat'))
        self.und = und
        return out


def z_and(x):
    import z3
    return z3.And(x >= -1, x <= 1)
