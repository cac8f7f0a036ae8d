"""P14: Dubins and Reeds-Shepp distances against the words of the family, written independently in the harness."""
import math
from fractions import Fraction
import core
import seeds
from dag import Norm, Unsupported, run_norm
from flips import want
from lin import Lin
from props_sym import Rel
import vc

TWO = 2 * math.pi


class P14(Rel):
    pid = 'P14'
    n_quick = 400
    n_thorough = 4000
    spaces = ['rs', 'dubins', 'dubins_b']
    bounds = ('inputs: curvature limit and both states (free reals); classes: the expression classes visited by the concolic exploration (library and '
              'reference words together); words the library rejects or accepts only by rounding at a feasibility boundary are compared numerically')
    explain = ('The library query and an independent enumeration of the words run in one symbolic execution.  z3 decides that the distance is '
               'identically one of the words, that the candidates compared by the library are identically the words, and that the recorded outcomes of '
               'the library\'s comparisons imply that no feasible word is shorter.')

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        out = []
        for s in self.spaces:
            out += seeds.pairs(seed, n, 'words', [s])
        return out

    def oracle(self, sc, sp, v, outs, ints):
        K = v[0]
        d = outs['dist']
        m_ = max(abs(x) for x in (v[2], v[3], v[7], v[8])) * K
        tol = 1e-6 * (1 + d * K) * (1 + 1e-3 * m_)
        if sp == 'rs':
            ws = [outs['w%d' % i] for i in range(ints['wn'])]
            m = min(ws) if ws else math.inf
            return [('no shorter word', (d - m) * K, tol, 2e-2), ('is a word', (m - d) * K, tol, 2e-2),
                    ('at most Dubins', (d - min(outs['df'], outs['db'])) * K, tol, 2e-2)]
        T = TWO / K
        idx = [i for i in range(6) if ints['ok%d' % i]]
        up = min(outs['t%d' % i] + outs['p%d' % i] + outs['q%d' % i] for i in idx)

        def f(x):
            return 0 if T - x < 1e-5 / K else x
        lo = min(f(outs['t%d' % i]) + outs['p%d' % i] + f(outs['q%d' % i]) for i in idx)
        h1, h2 = (v[4], v[9]) if sp == 'dubins' else (v[9], v[4])
        for i, sg in ((0, 1), (1, -1)):
            if outs['p%d' % i] * K < 1e-4:
                lo = min(lo, outs['p%d' % i] + f(((sg * (h2 - h1)) % TWO) / K))
        return [('no shorter word', (d - up) * K, tol, 2e-2), ('is a word', (lo - d) * K, tol, 2e-2)]

    def vcs(self, tr, line):
        import z3
        sp = line.split()[2]
        K = float(line.split()[3])
        d = tr.outs['dist'][1]
        if sp == 'rs':
            words = [['w%d' % i] for i in range(tr.ints['wn'])]
        else:
            words = [['t%d' % i, 'p%d' % i, 'q%d' % i] for i in range(6) if tr.ints['ok%d' % i]]
        wv = [sum(tr.outs[x][1] for x in w) for w in words]

        def close(a, b):
            return abs(a - b) <= 1e-8 * (1 + abs(b))
        nodes = {}
        for p in tr.pc:
            if p[0] == 'm' or p[0] >= 100:
                continue
            for x in (p[1], p[2]):
                if x and tr.op.get(x) not in ('const', 'input') and x not in nodes:
                    nodes[x] = [(i, h) for i in range(len(wv)) for h in ((0, 1, 2) if sp == 'rs' else (0,)) if close(tr.val[x] + h * math.pi / 2, wv[i] * K)]
        nodes = {x: l for x, l in nodes.items() if l}
        n = Norm(tr)
        n.unify = True

        def b(n):
            o = {x: n.get(x) for x in nodes}
            w = []
            for ws in words:
                s = n.R.zero
                for x in ws:
                    s = s + vc.val(n, tr.outs[x])
                w.append(s)
            k = [n.get(i) for i, nm in tr.name.items() if nm == 'K'][0]
            e = [vc.val(n, tr.outs[x]) for x in ('df', 'db')] if sp == 'rs' else []
            return o, w, vc.val(n, tr.outs['dist']), k, e
        o, w, D, k, E = run_norm(n, b)
        L = Lin(n)
        memo = {}

        def same(A, B):
            key = (A.key(), B.key())
            if key not in memo:
                X = L.noint(A - B)
                if not X.d:
                    memo[key] = core.decide_sum_zero(n, [A, -B])
                else:
                    memo[key] = L.zero(X, L.facts() if 'f' not in memo else memo['f'])
            return memo[key] == 'unsat'
        memo['f'] = L.facts()
        # the distance is a word
        js = [j for j in range(len(w)) if close(wv[j], d)]
        j = next((j for j in js if same(D, w[j])), None)
        out = [('is a word', 'unsat' if j is not None else 'unknown')]
        if j is None:
            return out
        wk = [x * k for x in w]
        of = {}
        for x, l in nodes.items():
            for i, h in l:
                if same(o[x] + n.R.v(1, 2) * Fraction(h, 2), wk[i]):
                    of.setdefault(x, []).append((i, h))
        Z = [z3.Real('w%d' % i) for i in range(len(w))]
        V = {x: z3.Real('v%d' % x) for x in of}
        s = z3.Solver()
        for x, l in of.items():
            for i, h in l:
                s.add(V[x] == Z[i] - h * z3.Real('halfpi'))
        for p in tr.pc:
            if p[0] == 'm' or p[0] >= 100:
                continue
            pred, a, c, res, site = p
            if a in V and c in V:
                r = want(pred, not res)
                if r in ('<', '<=', '>', '>=', '=='):
                    s.add({'<': V[a] < V[c], '<=': V[a] <= V[c], '>': V[a] > V[c], '>=': V[a] >= V[c], '==': V[a] == V[c]}[r])
        bad = 'unsat'
        for i in range(len(w)):
            if i == j:
                continue
            s.push()
            s.add(Z[j] > Z[i])
            r = core.z3_check(s, 5000)
            s.pop()
            if r == 'sat' and same(w[i], w[j]):
                r = 'unsat'
            if r != 'unsat':
                bad = 'unknown'
        out.append(('no shorter word', bad))
        for nm, e in zip(('df', 'db'), E):
            ev = tr.outs[nm][1]
            for i in range(len(w)):
                if close(wv[i], ev) and same(e, w[i]):
                    out.append(('at most Dubins ' + nm, bad))
                    break
        return out
