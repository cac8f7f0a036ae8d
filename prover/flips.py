"""Branch flipping: for a comparison that only ever evaluated one way, look for inputs that make it evaluate the other way
(z3 on the operands' expression DAG over the reals; local numeric search on the DAG where it contains transcendental
functions)."""
import math
import random
import time
import numpy as np
import core
from props_base import parse_block

np.seterr(all='ignore')


def dag_eval(tr, roots, X):
    """vectorised evaluation of nodes; X: {input name: array}"""
    from scipy.special import fresnel as sfres
    need = set()
    st = [r for r in roots]
    while st:
        k = st.pop()
        if k in need or k == 0:
            continue
        need.add(k)
        if tr.op[k] not in ('const', 'input'):
            if tr.a[k]:
                st.append(tr.a[k])
            if tr.b[k]:
                st.append(tr.b[k])
    V = {}
    for k in sorted(need):
        op = tr.op[k]
        if op == 'const':
            V[k] = tr.val[k]
            continue
        if op == 'input':
            V[k] = X[tr.name[k]]
            continue
        a = V.get(tr.a[k])
        b = V.get(tr.b[k])
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'div':
            r = np.divide(a, b)
        elif op == 'neg':
            r = -a
        elif op in ('rem', 'fmod'):
            r = np.fmod(a, b)
        elif op == 'atan2':
            r = np.arctan2(a, b)
        elif op == 'hypot':
            r = np.hypot(a, b)
        elif op == 'pow':
            r = np.power(a, b)
        elif op in ('FS', 'FC'):
            s, c = sfres(a)
            r = s if op == 'FS' else c
        else:
            f = {'sqrt': np.sqrt, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'atan': np.arctan, 'asin': np.arcsin,
                 'acos': np.arccos, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'exp': np.exp, 'log': np.log,
                 'round': np.round}.get(op)
            if f is None:
                return None
            r = f(a)
        V[k] = r
    return V


def want(pred, out):
    """relation (a ? b) to be made true in order to flip the outcome: returns one of > >= < <= == !="""
    base = {1: '==', 2: '>', 3: '>=', 4: '<', 5: '<=', 6: '!=', 9: '==', 10: '>', 11: '>=', 12: '<', 13: '<=', 14: '!='}.get(pred)
    if base is None:
        return None
    if not out:
        return base
    return {'==': '!=', '>': '<=', '>=': '<', '<': '>=', '<=': '>', '!=': '=='}[base]


def z3_flip(tr, p, rel, box, fl):
    """solve for inputs satisfying rel on the operands when they are algebraic in the inputs"""
    import z3
    memo = {}
    cons = []
    cnt = [0]
    used = {}

    def go(k):
        if k in memo:
            return memo[k]
        cnt[0] += 1
        if cnt[0] > 400:
            raise ValueError
        op = tr.op[k]
        if op == 'const':
            v = tr.val[k]
            if not math.isfinite(v) or abs(v) > 1e200:
                raise ValueError
            from fractions import Fraction
            r = z3.RealVal(str(Fraction(v)))
        elif op == 'input':
            r = used.setdefault(tr.name[k], z3.Real(tr.name[k]))
        elif op in ('add', 'sub', 'mul', 'div'):
            a, b = go(tr.a[k]), go(tr.b[k])
            if op == 'div':
                cons.append(b != 0)
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b if op == 'mul' else a / b
        elif op == 'neg':
            r = -go(tr.a[k])
        elif op == 'sqrt':
            a = go(tr.a[k])
            r = z3.Real('q%d' % k)
            cons.extend([r >= 0, r * r == a])
        elif op == 'floor':
            a = go(tr.a[k])
            r = z3.ToReal(z3.ToInt(a))
        else:
            raise ValueError
        memo[k] = r
        return r
    try:
        a, b = go(p[1]), go(p[2])
    except ValueError:
        return None
    s = z3.Solver()
    for c in cons:
        s.add(c)
    if rel in ('>', '>='):
        s.add(a > b)
    elif rel in ('<', '<='):
        s.add(a < b)
    elif rel == '==':
        s.add(a == b)
    else:
        s.add(a != b)
    for nm, v in used.items():
        lo, hi = box(nm)
        s.add(v >= z3.RealVal(repr(lo)), v <= z3.RealVal(repr(hi)))
    fl['flip_queries'] += 1
    r = core.z3_check(s, 2000)
    if r != 'sat':
        return None if r != 'unsat' else 'unsat'
    fl['flip_sat'] += 1
    m = s.model()
    out = {}
    for nm, v in used.items():
        x = m.eval(v, model_completion=True)
        try:
            out[nm] = float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(20).as_fraction())
        except Exception:
            return None
    return out


def num_flip(tr, p, rel, names, vals, fixed, clip, rng, want_n=3):
    """population search on the operand DAG"""
    N = 1500
    X = {}
    base = {}
    r = np.random.RandomState(rng.randrange(1 << 30))
    for q, (nm, v) in enumerate(zip(names, vals)):
        if nm is None:
            continue
        base[nm] = v
        if nm in fixed:
            X[nm] = np.full(N, v)
            continue
        s = np.exp(r.uniform(np.log(1e-4), np.log(20.0), N))
        mask = r.rand(N) < .5
        x = v + s * r.uniform(-1, 1, N) * (abs(v) + .2)
        z = r.rand(N)
        x = np.where(z < .05, 0.0, x)
        x = np.where(mask, v, x)
        X[nm] = np.array([clip(nm, t) for t in x])
    best = []
    for it in range(3):
        V = dag_eval(tr, [p[1], p[2]], X)
        if V is None:
            return []
        a = V[p[1]] - V[p[2]]
        a = np.broadcast_to(np.asarray(a, dtype=float), (N,))
        fin = np.isfinite(a)
        okm = {'>': a > 0, '>=': a >= 0, '<': a < 0, '<=': a <= 0, '==': a == 0, '!=': a != 0}[rel] & fin
        idx = np.nonzero(okm)[0]
        if len(idx):
            # prefer candidates close to the seed
            dist = sum(((X[nm][idx] - base[nm]) / (abs(base[nm]) + .2)) ** 2 for nm in X)
            o = np.argsort(dist)
            pick = list(idx[o[:1]]) + list(idx[o[len(o) // 2:len(o) // 2 + 1]]) + list(rng.sample(list(idx), min(want_n, len(idx))))
            return [{nm: float(X[nm][k]) for nm in X} for k in dict.fromkeys(pick)][:want_n]
        # move towards the flip: keep the best candidates and perturb them
        sc = {'>': -a, '>=': -a, '<': a, '<=': a, '==': abs(a), '!=': -abs(a)}[rel]
        sc = np.where(fin, sc, np.inf)
        top = np.argsort(sc)[:30]
        for nm in X:
            if nm in fixed:
                continue
            c = X[nm][top][r.randint(0, len(top), N)]
            s = np.exp(r.uniform(np.log(1e-4), 0, N))
            x = np.where(r.rand(N) < .4, c, c + s * r.uniform(-1, 1, N) * (abs(c) + .1))
            X[nm] = np.array([clip(nm, t) for t in x])
    return []


def newton_flip(tr, p, rel, names, vals, fixed, clip, rng, want_n=2):
    """minimum-norm Newton steps on the operand difference towards the other outcome"""
    free = [nm for nm in names if nm and nm not in fixed]
    base = {nm: v for nm, v in zip(names, vals) if nm}
    sub = [(p[1], p[2])]
    out = []
    m = len(free)
    cb = tr.val[p[2]] if tr.op[p[2]] == 'const' else (tr.val[p[1]] if tr.op[p[1]] == 'const' else None)
    mar = .4 * abs(cb) if cb is not None and 0 < abs(cb) < 1e-2 else 1e-3 * (abs(tr.val[p[1]]) + abs(tr.val[p[2]])) + 1e-9
    goal = {'>': mar, '>=': mar, '<': -mar, '<=': -mar, '==': 0.0, '!=': mar}[rel]
    for trial in range(4):
        x = {nm: v for nm, v in base.items()}
        if trial:
            for nm in free:
                if rng.random() < .6:
                    x[nm] = clip(nm, x[nm] + rng.uniform(-.3, .3) * (abs(x[nm]) + .3))
        act = free if trial % 2 == 0 else [nm for nm in free if nm not in ('K', 'G')]
        if not act:
            act = free
        ok = False
        for it in range(12):
            n = 2 * len(act) + 1
            X = {nm: np.full(n, v) for nm, v in x.items()}
            h = []
            for j, nm in enumerate(act):
                e = 1e-6 * (abs(x[nm]) + 1e-2)
                h.append(e)
                X[nm][1 + 2 * j] += e
                X[nm][2 + 2 * j] -= e
            V = dag_eval(tr, [p[1], p[2]], X)
            if V is None:
                return out
            f = np.broadcast_to(np.asarray(V[p[1]] - V[p[2]], dtype=float), (n,))
            if not np.all(np.isfinite(f)):
                break
            r = goal - f[0]
            if {'>': f[0] > 0, '>=': f[0] >= 0, '<': f[0] < 0, '<=': f[0] <= 0, '==': abs(f[0]) < 1e-15, '!=': f[0] != 0}[rel] and it:
                ok = True
                if abs(r) < .7 * mar:
                    break
            g = np.array([(f[1 + 2 * j] - f[2 + 2 * j]) / (2 * h[j]) for j in range(len(act))])
            w = np.array([(abs(x[nm]) + .2) ** 2 for nm in act])
            den = float((g * g * w).sum())
            if den < 1e-24:
                break
            for j, nm in enumerate(act):
                st = r * g[j] * w[j] / den
                lim = .5 * (abs(x[nm]) + .5)
                x[nm] = clip(nm, x[nm] + max(-lim, min(lim, st)))
        if ok:
            out.append({nm: float(v) for nm, v in x.items()})
            if len(out) >= want_n:
                break
    return out


def flip_round(bdir, prop, one, alllines, seed, fl, tried, thorough):
    """new input lines aimed at the unseen outcomes of the one-sided comparison sites"""
    rng = random.Random(seed * 101 + 3)
    t0 = time.time()
    todo = []
    for s, e in one:
        tag = e[1] or e[2]
        if tag in alllines and (s, tag) not in tried:
            todo.append((s, tag))
    todo.sort()
    if not todo:
        return []
    lines = list({alllines[t] for s, t in todo})[: (400 if thorough else 120)]
    cl, _, _ = core.run_sym(bdir, lines, ['--pc'] + list(prop.symargs))
    traces = {}
    for b in cl.values():
        traces[b.tag] = b
    out = []
    lim = 150 if thorough else 40
    cache = {}
    for s, tag in todo:
        if time.time() - t0 > lim:
            break
        if tag not in traces:
            continue
        tried.add((s, tag))
        if tag not in cache:
            cache[tag] = parse_block(traces[tag].text)
        tr = cache[tag]
        line = alllines[tag]
        w = line.split()
        vals = [float(x) for x in w[3:]]
        names = prop.names(w[1], w[2], vals)
        fixq = prop.fixed(w[1], w[2], vals)
        fixed = {names[q] for q in fixq if q < len(names)}
        pos = {nm: q for q, nm in enumerate(names) if nm}

        def clip(nm, x):
            return prop.clip(w[1], pos[nm], x, w[2], vals)

        def box(nm):
            return prop.box(w[1], pos[nm], w[2], vals)
        recs = [p for p in tr.pc if p[0] != 'm' and p[0] < 100 and p[4] == s][:2]
        got = []
        for p in recs:
            rel = want(p[0], p[3])
            if rel is None:
                continue
            try:
                m = z3_flip(tr, p, rel, box, fl)
            except Exception:
                m = None
            if m == 'unsat':
                continue
            if isinstance(m, dict):
                got.append(m)
                # a second point: only the constrained inputs from z3, everything else from the seed
            if not isinstance(m, dict) or thorough:
                try:
                    got += newton_flip(tr, p, rel, names, vals, fixed, clip, rng)
                    got += num_flip(tr, p, rel, names, vals, fixed, clip, rng)
                except Exception:
                    pass
        for j, g in enumerate(got):
            v = list(vals)
            for nm, x in g.items():
                if nm in pos and nm not in fixed:
                    v[pos[nm]] = x
            v = prop.sanitize(w[1], w[2], v)
            out.append('fl%d_%d_%s %s %s %s' % (len(out), seed, tag.split('_')[-1][:24], w[1], w[2], ' '.join(repr(float(x)) for x in v)))
    return out


def _rare_task(a):
    pid, text, line, targets, seed, j0 = a
    from props import REG
    prop = REG[pid]
    rng = random.Random(seed)
    tr = parse_block(text)
    w = line.split()
    vals = [float(x) for x in w[3:]]
    names = prop.names(w[1], w[2], vals)
    fixed = {names[q] for q in prop.fixed(w[1], w[2], vals) if q < len(names)}
    pos = {nm: q for q, nm in enumerate(names) if nm}

    def clip(nm, x):
        return prop.clip(w[1], pos[nm], x, w[2], vals)
    out = []
    for site, bad in targets:
        recs = [p for p in tr.pc if p[0] != 'm' and p[0] < 100 and p[4] == site and p[3] != bad and p[1] and p[2]]
        rng.shuffle(recs)
        for p in recs[:3]:
            rel = want(p[0], p[3])
            if rel is None:
                continue
            try:
                got = newton_flip(tr, p, rel, names, vals, fixed, clip, rng)
            except Exception:
                continue
            for g in got:
                v = list(vals)
                for nm, x in g.items():
                    if nm in pos and nm not in fixed:
                        v[pos[nm]] = x
                v = prop.sanitize(w[1], w[2], v)
                out.append('rf%d_%d_%d %s %s %s' % (j0, len(out), seed, w[1], w[2], ' '.join(repr(float(x)) for x in v)))
    return out


def _safe_rare(a):
    try:
        return core.with_timeout(20, _rare_task, a)
    except Exception:
        return []


def rare_round(prop, bcov, blocks, seed, fl, thorough):
    """inputs aimed at the outcomes of comparison sites that few runs have taken, from several runs of the common outcome"""
    lim = 40 if thorough else 8
    tgt = {}
    for s, e in bcov.items():
        for o in (0, 1):
            if e[3 + o] <= lim and e[4 - o] > e[3 + o]:
                tgt[s] = o
    fl['rare_sites'] = len(tgt)
    if not tgt:
        return []
    rng = random.Random(seed * 7 + 5)
    bl = list(blocks)
    rng.shuffle(bl)
    per = 40 if thorough else 16
    need = {s: per for s in tgt}
    tasks = []
    t0 = time.time()
    for b in bl:
        if not need or time.time() - t0 > (60 if thorough else 15):
            break
        here = set()
        for ln in b.text:
            if ln[:2] == 'p ':
                x = ln.rsplit(None, 1)[1]
                try:
                    s = int(x)
                except ValueError:
                    continue
                if s in need:
                    here.add(s)
        if here:
            h = sorted(here)
            rng.shuffle(h)
            h = h[:4]
            for s in h:
                need[s] -= 1
                if need[s] <= 0:
                    del need[s]
            tasks.append((prop.pid, b.text, b.line, [(s, tgt[s]) for s in h], seed * 1000 + len(tasks), len(tasks)))
    out = []
    for r in core.pool_map(_safe_rare, tasks, time.time() + (150 if thorough else 30), 2):
        out += r
    fl['rare_lines'] = len(out)
    return out
