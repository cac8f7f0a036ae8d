"""Generic check: explore classes, decide VCs, search witnesses for classes that are not proved, replay, report."""
import json
import math
import os
import random
import shutil
import sys
import time
import core
from props import REG
from props_base import parse_block, degenerate
import flips

EVDIR = os.path.join(core.ROOT, 'evidence')
_P = {}


def finding_matches(f, line, name):
    w = line.split()
    if f.get('scenario') and f['scenario'] != w[1]:
        return False
    if f.get('space') and w[2] not in f['space']:
        return False
    if f.get('vc') and f['vc'] != name:
        return False
    cond = f.get('when')
    if cond:
        v = [float(x) for x in w[3:]]
        try:
            if not eval(cond, {'v': v, 'abs': abs, 'math': math}):
                return False
        except Exception:
            return False
    return True


def load_findings(pid):
    p = os.path.join(core.ROOT, 'known_findings.json')
    try:
        return [f for f in json.load(open(p)).get('findings', []) if f['property'] == pid]
    except Exception:
        return []


def vals_of(prop, line):
    return [float(x) for x in line.split()[3:]]


def eval_oracle(prop, line, outs, ints):
    """list of (vc name, error, strict tolerance, tolerance in degenerate classes)"""
    try:
        return prop.oracle(line.split()[1], line.split()[2], vals_of(prop, line), outs, ints)
    except (OverflowError, ZeroDivisionError, ValueError, KeyError) as e:
        return [('finite', float('nan'), 1.0, 1.0)]


def bad_of(res, deg):
    return [(n, e) for (n, e, ts, td) in res if not (e <= (td if deg else ts))]


def task_numeric(a):
    pid, i, text, line = a
    prop = REG[pid]
    b = core.Block('', '', text)
    outs, ints, inp = core.quick_vals(b)
    res = eval_oracle(prop, line, outs, ints)
    bs = bad_of(res, False)
    if not bs:
        return i, None
    deg = degenerate(parse_block(text))
    bd = bad_of(res, deg)
    return i, (bd, deg) if bd else (None, deg)


def task_prove(a):
    pid, i, text, line, sec = a
    prop = REG[pid]
    core.ZS.__init__()
    core.WIT.clear()
    t0 = time.time()
    note = ''
    vcs = []
    deg = False
    try:
        tr = parse_block(text)
        deg = degenerate(tr)
        vcs = core.with_timeout(sec, prop.vcs, tr, line)
        st = 'proved' if vcs and all(r == 'unsat' for _, r in vcs) else ('sat' if any(r == 'sat' for _, r in vcs) else 'undecided')
        if not vcs:
            st = 'undecided'
    except core.Timeout:
        st, note = 'undecided', 'timeout'
    except MemoryError:
        st, note = 'undecided', 'memory'
    except Exception as e:
        st, note = 'undecided', type(e).__name__ + ' ' + str(e)[:80]
    z = core.ZS
    return i, st, deg, note, [(n, r) for n, r in vcs], z.n, z.t, time.time() - t0, list(core.WIT[:20])


def perturb(r, prop, line, k):
    w = line.split()
    v = [float(x) for x in w[3:]]
    out = []
    fixed = prop.fixed(w[1], w[2], v)
    for j in range(k):
        s = r.choice([1e-3, 1e-2, 1e-1, .3, 1.0, 1.0, 4.0, 10.0])
        u = []
        for q, x in enumerate(v):
            if q in fixed or r.random() < .3:
                u.append(x)
            else:
                u.append(x + s * r.uniform(-1, 1) * (abs(x) + .1))
        u = prop.sanitize(w[1], w[2], u)
        out.append('%s~%d %s %s %s' % (w[0], j, w[1], w[2], ' '.join(repr(x) for x in u)))
    return out


def check(pid, tier, seed):
    t0 = time.time()
    prop = REG[pid]
    thorough = tier == 'thorough'
    budget = prop.budget_thorough if thorough else prop.budget_quick
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {}, 'wall_s': 0.0}
    bdir, ok = core.build()
    cov = ev['coverage']
    viol = []
    known = []
    core.worker_init()
    try:
        if not ok:
            print('NOTE tree does not build with the verification harness; nothing decided')
            cov.update({'states': 0, 'explanation': 'tree did not build'})
            return finish(ev, t0, viol, known, pid)
        lines = prop.jobs(tier, seed)
        classes, bcov, crashed = core.run_sym(bdir, lines, prop.symargs)
        nruns = len(lines)
        # ---- branch flipping: drive the exploration into branch outcomes no run has taken yet
        fl = {'sites': len(bcov), 'onesided_before': 0, 'flip_queries': 0, 'flip_sat': 0, 'rounds': 0}
        alllines = {l.split(None, 1)[0]: l for l in lines}
        nrun = [nruns]

        def explore(new):
            for l in new:
                alllines[l.split(None, 1)[0]] = l
            c2, b2, cr2 = core.run_sym(bdir, new, prop.symargs)
            nrun[0] += len(new)
            crashed.extend(cr2)
            fresh = 0
            for k, b in c2.items():
                if k in classes:
                    classes[k].count += b.count
                else:
                    classes[k] = b
                    fresh += 1
            for s, e in b2.items():
                o = bcov.setdefault(s, [0, None, None, 0, 0])
                o[0] |= e[0]
                for j in (0, 1):
                    if o[1 + j] is None:
                        o[1 + j] = e[1 + j]
                    o[3 + j] += e[3 + j]
            fl['new_classes'] = fl.get('new_classes', 0) + fresh
        if prop.flip:
            tf = time.time()
            tried = set()
            for rnd in range(4 if thorough else 2):
                one = [(s, e) for s, e in bcov.items() if e[0] in (1, 2)]
                if rnd == 0:
                    fl['onesided_before'] = len(one)
                if not one or time.time() - tf > (200 if thorough else 60):
                    break
                new = flips.flip_round(bdir, prop, one, alllines, seed + rnd, fl, tried, thorough)
                if not new:
                    break
                fl['rounds'] += 1
                explore(new)
            for rnd in range(3 if thorough else 1):
                new = flips.rare_round(prop, bcov, [b for b in classes.values() if b.line], seed + rnd, fl, thorough)
                if not new:
                    break
                explore(new)
            fl['onesided_after'] = sum(1 for e in bcov.values() if e[0] in (1, 2))
            fl['wall_s'] = round(time.time() - tf, 1)
        nruns = nrun[0]
        bl = [b for b in classes.values() if b.line]
        bl.sort(key=lambda b: (-b.count, b.cls))
        # ---- crashes / hangs on valid inputs
        cands = []
        for l in crashed:
            cands.append((l, 'terminates', False))
        # ---- concrete value of every VC at the class representative
        deadline = t0 + budget
        status = {}
        items = [(pid, i, b.text, b.line) for i, b in enumerate(bl)]
        for i, r in core.pool_map(task_numeric, items, deadline + 60, 4):
            if r is not None and r[0]:
                cands.append((bl[i].line, r[0][0][0], r[1]))
        seen = set()
        fnd = load_findings(pid)
        unconf = [0, 0]

        def settle(cands):
            """replay the candidates on the ordinary build"""
            for line, name, deg in cands:
                unconf[1] += 1
                if len(viol) >= 5 or unconf[1] > 600:
                    break
                rep = replay(bdir, prop, line, deg)
                if rep is None:
                    continue
                nm = rep[0]
                w = line.split()
                f = [x for x in fnd if finding_matches(x, line, nm)]
                if f:
                    if f[0]['id'] not in seen:
                        seen.add(f[0]['id'])
                        known.append(f[0])
                    continue
                key = (w[1], w[2], nm)
                if key in seen:
                    continue
                if nm != 'terminates' and not prop.confirm(bdir, line, nm):
                    unconf[0] += 1
                    continue
                seen.add(key)
                viol.append((line, nm, rep[1], rep[2]))
        settle(cands)
        results = {}
        if hasattr(prop, 'instrumented'):
            bad, clean, note = prop.instrumented(bdir, [l for l in alllines.values()][:60000])
            cov['instrumented_runs_clean'] = len(clean)
            if note:
                cov['instrumented_note'] = note
            for line, name, det in bad:
                f = [x for x in fnd if finding_matches(x, line, name)]
                if f:
                    if f[0]['id'] not in seen:
                        seen.add(f[0]['id'])
                        known.append(f[0])
                    continue
                if len(viol) < 5 and prop.again(bdir, line, name):
                    viol.append((line, name, det, {}))
            for i, b in enumerate(bl):
                results[i] = ('proved' if b.line.split(None, 1)[0] in clean else 'undecided', False, '', [], 0.0)
        # ---- proofs
        sec = prop.sec_thorough if thorough else prop.sec_quick
        zq = zt = 0
        sugg = []
        if not viol or thorough:
            order = prop.order(bl, tier)
            items = [(pid, i, bl[i].text, bl[i].line, sec) for i in order]
            for i, st, deg, note, vcs, a, b, w, wl in core.pool_map(task_prove, items, deadline):
                results[i] = (st, deg, note, vcs, w)
                sugg += ['%s@%d %s' % (l.split(None, 1)[0], i, l.split(None, 1)[1]) for l in wl]
                zq += a
                zt += b
        gl = []
        if hasattr(prop, 'global_vcs') and not viol:
            try:
                gl, sg = core.with_timeout(60, prop.global_vcs, [(parse_block(b.text), b.line) for b in bl])
                sugg += sg
            except Exception as e:
                gl = [('global', 'undecided ' + type(e).__name__)]
        # ---- witness search for classes the solver did not prove
        unproved = [i for i in range(len(bl)) if i not in results or results[i][0] != 'proved']
        unproved.sort(key=lambda i: (0 if i in results and results[i][0] == 'sat' and not results[i][1] else 1, i))
        rng = random.Random(seed * 31 + 7)
        wit = 0
        if not viol and unproved and prop.perturb:
            pl = list(sugg)
            cap = 40000 if thorough else 12000
            per = max(4, min(60, cap // max(1, len(unproved))))
            for i in unproved:
                pl += perturb(rng, prop, bl[i].line, per)
                if len(pl) > cap:
                    break
            pl += list(alllines.values())[:cap]
            settle(witness(bdir, prop, pl))
            wit = len(pl)
        npv = sum(1 for r in results.values() if r[0] == 'proved')
        nsat = sum(1 for r in results.values() if r[0] == 'sat')
        notes = {}
        for i, r in results.items():
            if r[0] != 'proved':
                k = ('tolerance-class ' if r[1] else '') + (r[2] or r[0])
                notes[k] = notes.get(k, 0) + 1
        vcn = {}
        for r in results.values():
            for nm, v in r[3]:
                e = vcn.setdefault(str(nm).split(' #')[0], {})
                e[v] = e.get(v, 0) + 1
        per_space = {}
        for i, b in enumerate(bl):
            w = b.line.split()
            e = per_space.setdefault(w[1] + ':' + w[2], {'classes': 0, 'proved': 0, 'not_proved': 0, 'runs': 0})
            e['classes'] += 1
            e['runs'] += b.count
            if i in results:
                e['proved' if results[i][0] == 'proved' else 'not_proved'] += 1
        cov.update({
            'states': len(bl), 'transitions': nruns,
            'bounds': prop.bounds,
            'exhausted': False,
            'functions_encoded': encoded(bdir),
            'expression_classes': len(bl), 'classes_proved': npv, 'classes_attempted': len(results),
            'classes_refuted_or_unknown': len(results) - npv, 'solver_sat': nsat,
            'not_proved_reasons': dict(sorted(notes.items(), key=lambda t: -t[1])[:12]),
            'per_scenario': per_space, 'vc_verdicts': vcn if len(vcn) <= 40 else {'distinct': len(vcn)},
            'solver': 'z3', 'queries': zq, 'solver_time_s': round(zt, 2),
            'branch_flipping': fl, 'global_vcs': gl, 'concolic_runs': nruns, 'candidates_dropped_as_rounding': unconf[0], 'witness_search_runs': wit,
            'assumptions': ['real-arithmetic semantics of double operations', 'libm functions and the Fresnel routine as exact mathematical functions (Fresnel accuracy is its own property)'],
            'explanation': prop.explain,
        })
        return finish(ev, t0, viol, known, pid)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def encoded(bdir):
    import subprocess
    try:
        o = subprocess.run(['nm', '-C', '--defined-only', os.path.join(bdir, 'symh')], stdout=subprocess.PIPE, text=True).stdout
        s = set()
        for l in o.split('\n'):
            w = l.split(None, 2)
            if len(w) == 3 and w[2].startswith('steering::') and w[1] in 'TtWw':
                s.add(w[2].split('(')[0])
        return sorted(s)
    except Exception:
        return []


def _wit(a):
    bdir, pid, lines = a
    prop = REG[pid]
    out = []
    res = core.run_plain(bdir, lines, 200)
    for l in lines:
        t = l.split(None, 1)[0]
        if t not in res:
            if not res:
                continue
            out.append((l, 'terminates', False))
            break
        o, ii = res[t]
        er = eval_oracle(prop, l, o, ii)
        if bad_of(er, True):
            out.append((l, bad_of(er, True)[0][0], True))
        elif bad_of(er, False):
            out.append((l, bad_of(er, False)[0][0], None))
        if len(out) > 6:
            break
    return out


def witness(bdir, prop, lines):
    import multiprocessing as mp
    k = core.NPROC
    with mp.Pool(k) as pool:
        r = pool.map(_wit, [(bdir, prop.pid, lines[i::k]) for i in range(k)])
    out = []
    sus = []
    for x in r:
        for c in x:
            (sus if c[2] is None else out).append(c)
    if sus and not out:
        # strict-tolerance deviations: only count when the run takes no tolerance branch
        cl, _, _ = core.run_sym(bdir, [c[0] for c in sus[:40]], ['--pc'] + list(prop.symargs))
        for b in cl.values():
            if b.line and not degenerate(parse_block(b.text)):
                out.append((b.line, 'strict', False))
    return out


def replay(bdir, prop, line, deg):
    """run the candidate on the plain optimised build; returns (vc, error, outs) when the violation reproduces"""
    tag = line.split()[0]
    res = core.run_plain(bdir, [line], 30)
    if tag not in res:
        r2 = core.run_plain(bdir, [line], 30)
        if tag not in r2:
            return ('terminates', float('nan'), {})
        res = r2
    outs, ints = res[tag]
    b = bad_of(eval_oracle(prop, line, outs, ints), bool(deg))
    if not b:
        return None
    return (b[0][0], b[0][1], {'outs': outs, 'ints': ints})


def finish(ev, t0, viol, known, pid):
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(EVDIR, exist_ok=True)
    rc = 0
    vl = []
    for k, (line, nm, err, o) in enumerate(viol):
        rp = os.path.join(EVDIR, 'replay_%s_%d.json' % (pid, k))
        json.dump({'property': pid, 'vc': nm, 'error': repr(err), 'input_line': line, 'observed': {a: (repr(b) if isinstance(b, float) else b) for a, b in list(o.get('outs', {}).items())[:400]},
                   'ints': o.get('ints', {}), 'reproduce': 'bash /verif/engine/build.sh /tmp/vb && echo "%s" | /tmp/vb/plainh' % line}, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  vc=%s error=%r input: %s' % (nm, err, line[:300]))
        vl.append({'vc': nm, 'error': repr(err), 'input': line, 'replay': rp})
        rc = 1
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    ev['coverage']['violations'] = vl
    json.dump(ev, open(os.path.join(EVDIR, pid + '.json'), 'w'), indent=1, default=str)
    c = ev['coverage']
    print('property %s: %s classes, %s proved of %s attempted, %s solver queries, %.1fs' % (
        pid, c.get('expression_classes'), c.get('classes_proved'), c.get('classes_attempted'), c.get('queries'), ev['wall_s']))
    return rc


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(check(pid, tier, seed))
