"""Encoding of an expression DAG into z3 (mixed real/integer arithmetic).  Transcendental nodes become real variables
constrained by their range axioms, so an 'unsat' answer holds for every interpretation within those axioms."""
import math
from fractions import Fraction
import z3
import core

PI_LO = Fraction(31415926535897932, 10 ** 16)
PI_HI = Fraction(31415926535897933, 10 ** 16)


def frac(v):
    return z3.RealVal(str(Fraction(v)))


class Enc:
    def __init__(self, tr, expand=None, cap=600):
        self.tr = tr
        self.expand = expand    # nodes to encode; everything else is a free variable (None: no limit)
        self.memo = {}
        self.ax = []
        self.cap = cap
        self.PI = z3.Real('PI')
        self.ax += [self.PI > z3.RealVal(str(PI_LO)), self.PI < z3.RealVal(str(PI_HI))]
        self.inputs = {}
        self.partial = []      # (node, kind, z3 condition under which the operation is defined)
        self.n = 0
        self.SP = None

    def const(self, v):
        if not math.isfinite(v):
            raise ValueError('non-finite constant')
        f = Fraction(v).limit_denominator(20000)
        if abs(float(f) - v) <= 4e-16 * abs(v):
            return z3.RealVal(str(f))
        for h, e in ((1, lambda q: q * self.PI), (-1, lambda q: q / self.PI)):
            w = v / math.pi ** h
            f = Fraction(w).limit_denominator(200)
            if f != 0 and abs(float(f) - w) <= 2e-15 * abs(w):
                return e(z3.RealVal(str(f)))
        for h in (1, -1):
            w = v / math.pi ** (h / 2)
            f = Fraction(w).limit_denominator(60)
            if f != 0 and abs(float(f) - w) <= 2e-15 * abs(w):
                if self.SP is None:
                    self.SP = z3.Real('SQRTPI')
                    self.ax += [self.SP > 0, self.SP * self.SP == self.PI]
                return self.SP * z3.RealVal(str(f)) if h == 1 else self.SP * z3.RealVal(str(f)) / self.PI
        return frac(v)

    def inp(self, name):
        if name not in self.inputs:
            self.inputs[name] = z3.Real(name)
        return self.inputs[name]

    def out(self, name):
        i, v = self.tr.outs[name]
        return self.get(i) if i else self.const(v)

    def get(self, k):
        m = self.memo
        if k in m:
            return m[k]
        tr = self.tr
        st = [k]
        while st:
            x = st[-1]
            if x in m:
                st.pop()
                continue
            op = tr.op[x]
            ch = [] if op in ('const', 'input') else [c for c in (tr.a[x], tr.b[x]) if c]
            if op in ('sin', 'cos', 'atan2', 'asin', 'acos', 'FS', 'FC', 'tan'):
                ch = []          # opaque below a transcendental node
            elif self.expand is not None and x not in self.expand and op not in ('const', 'input'):
                m[x] = z3.Real('o%d' % x)
                if op == 'sqrt':
                    self.ax.append(m[x] >= 0)
                st.pop()
                continue
            todo = [c for c in ch if c not in m]
            if todo:
                st.extend(todo)
                continue
            self.n += 1
            if self.n > self.cap:
                raise ValueError('too many nodes')
            m[x] = self.node(x)
            st.pop()
        return m[k]

    def node(self, k):
        tr = self.tr
        op = tr.op[k]
        if op == 'const':
            return self.const(tr.val[k])
        if op == 'input':
            return self.inp(tr.name[k])
        if op in ('add', 'sub', 'mul', 'div', 'neg', 'rem', 'fmod', 'sqrt', 'floor', 'ceil', 'trunc', 'atan'):
            a = self.memo[tr.a[k]]
            b = self.memo.get(tr.b[k]) if tr.b[k] else None
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            return a * b
        if op == 'neg':
            return -a
        if op == 'div':
            if tr.op[tr.b[k]] == 'const':
                return a / b
            q = z3.Real('d%d' % k)
            self.ax.append(q * b == a)
            self.partial.append((k, 'div', b != 0))
            return q
        if op == 'sqrt':
            q = z3.Real('r%d' % k)
            self.ax += [q >= 0, q * q == a]
            self.partial.append((k, 'sqrt', a >= 0))
            return q
        if op in ('floor', 'ceil', 'trunc'):
            i = z3.Int('i%d' % k)
            r = z3.ToReal(i)
            if op == 'floor':
                self.ax += [r <= a, a < r + 1]
            elif op == 'ceil':
                self.ax += [r >= a, a > r - 1]
            else:
                self.ax += [z3.If(a >= 0, z3.And(r <= a, a < r + 1), z3.And(r >= a, a > r - 1))]
            return r
        if op in ('rem', 'fmod'):
            i = z3.Int('i%d' % k)
            r = a - b * z3.ToReal(i)
            ab = z3.If(b >= 0, b, -b)
            self.ax += [z3.If(a >= 0, z3.And(r >= 0, r < ab), z3.And(r <= 0, r > -ab))]
            return r
        q = z3.Real('t%d' % k)
        P = self.PI
        if op in ('sin', 'cos'):
            self.ax += [q >= -1, q <= 1]
        elif op == 'atan2':
            self.ax += [q >= -P, q <= P]
        elif op == 'asin':
            self.ax += [2 * q >= -P, 2 * q <= P]
        elif op == 'acos':
            self.ax += [q >= 0, q <= P]
        elif op == 'atan':
            self.ax += [2 * q > -P, 2 * q < P, z3.Implies(a >= 0, q >= 0), z3.Implies(a <= 0, q <= 0), z3.Implies(a > 0, q > 0)]
        return q

    REL = {1: lambda a, b: a == b, 2: lambda a, b: a > b, 3: lambda a, b: a >= b, 4: lambda a, b: a < b, 5: lambda a, b: a <= b,
           6: lambda a, b: a != b}

    def pcs(self, keep=None, limit=80):
        """path condition of the representative as hypotheses (only comparisons whose operands encode cheaply)"""
        out = []
        tr = self.tr
        for p in tr.pc:
            if p[0] == 'm':
                continue
            pred, a, b, o, site = p
            if pred == 100:          # conversion to integer: operand truncates to o
                try:
                    x = self.get(a)
                except ValueError:
                    continue
                out.append(z3.If(x >= 0, z3.And(x >= o, x < o + 1), z3.And(x <= o, x > o - 1)))
                continue
            pr = pred - 8 if pred > 8 else pred
            if pr not in self.REL or not a or not b:
                continue
            if keep and not keep(a, b):
                continue
            try:
                c = self.REL[pr](self.get(a), self.get(b))
            except ValueError:
                continue
            out.append(c if o else z3.Not(c))
            if len(out) >= limit:
                break
        return out

    def prove(self, goal, hyps=(), timeout=3000):
        """'unsat' when goal holds for all values satisfying axioms and hyps"""
        s = z3.Solver()
        s.add(*self.ax)
        s.add(*hyps)
        s.add(z3.Not(goal))
        return core.z3_check(s, timeout)


def near(tr, roots, depth):
    """nodes within the given distance below the roots"""
    seen = {}
    cur = [r for r in roots if r]
    for lv in range(depth):
        nxt = []
        for k in cur:
            if k in seen:
                continue
            seen[k] = lv
            if tr.op[k] not in ('const', 'input'):
                nxt += [c for c in (tr.a[k], tr.b[k]) if c]
        cur = nxt
    return set(seen), set(seen) | set(cur)


def equal_roots(tr, roots):
    """groups of square-root nodes (e.g. one distance computed twice) that z3 proves equal; {node: [equal nodes]}"""
    st = list(roots)
    for p in tr.pc:
        if p[0] != 'm' and p[0] < 100:
            st += [x for x in p[1:3] if x]
    by = {}
    for k in cone(tr, st):
        if tr.op[k] == 'sqrt':
            by.setdefault('%.9e' % tr.val[k], []).append(k)
    eq = {}
    for g in by.values():
        if len(g) < 2 or len(g) > 8:
            continue
        a = g[0]
        for b in g[1:]:
            if local_prove(tr, [a, b], lambda e: e.get(tr.a[a]) == e.get(tr.a[b]), lambda e: [], 300, (4, 6)) == 'unsat':
                eq.setdefault(a, []).append(b)
                eq.setdefault(b, []).append(a)
    return eq


def local_prove(tr, roots, goal, hyp, timeout=1000, depths=(3, 5, 8, 12), usepc=(True,), eq=None):
    """prove goal(enc) with everything further than `depth` below the roots abstracted to free variables; path-condition
    atoms that mention the variables in sight are hypotheses"""
    r = 'unknown'
    for dep in depths:
        ex, fr = near(tr, roots, dep)
        pcs = []
        eqs = []
        if eq:
            for k in list(fr):
                for j in eq.get(k, ()):
                    eqs.append((k, j))
                    fr = fr | {j}
        for p in tr.pc:
            if p[0] == 'm' or p[0] >= 100:
                continue
            e2, f2 = near(tr, [p[1], p[2]], 3)
            if any(x in fr and tr.op[x] not in ('const', 'input') for x in f2):
                pcs.append(p)
                for x in p[1:3]:
                    ex = ex | near(tr, [x], 8 if size(tr, x, 14) else 2)[0]
        for up in usepc:
            try:
                e = Enc(tr, ex)
                g = goal(e)
                hy = hyp(e)
                hy = hy + [e.get(k) == e.get(j) for k, j in eqs]
                if up:
                    seen = set()
                    for p in pcs:
                        if p in seen or len(seen) > 60:
                            continue
                        seen.add(p)
                        pr = p[0] - 8 if p[0] > 8 else p[0]
                        if pr in e.REL:
                            c = e.REL[pr](e.get(p[1]), e.get(p[2]))
                            hy.append(c if p[3] else z3.Not(c))
                r = e.prove(g, hy, timeout)
            except ValueError:
                r = 'unknown'
            if r == 'unsat':
                return r
    return r


def cone(tr, roots):
    need = set()
    st = [r for r in roots if r]
    while st:
        k = st.pop()
        if k in need:
            continue
        need.add(k)
        if tr.op[k] not in ('const', 'input'):
            for c in (tr.a[k], tr.b[k]):
                if c:
                    st.append(c)
    return need


def size(tr, k, cap):
    """cone of k has at most cap nodes, none transcendental"""
    need = set()
    st = [k] if k else []
    while st:
        x = st.pop()
        if x in need:
            continue
        need.add(x)
        if len(need) > cap:
            return False
        if tr.op[x] in ('const', 'input'):
            continue
        if tr.op[x] not in ('add', 'sub', 'mul', 'div', 'neg', 'sqrt'):
            return False
        st += [c for c in (tr.a[x], tr.b[x]) if c]
    return True


ARI = ('add', 'sub', 'mul', 'div', 'neg')


def leaves(tr, k, rep, memo):
    """opaque leaves (inputs, roots, transcendental nodes) of the arithmetic expression k; None when it is large"""
    if k in memo:
        return memo[k]
    out = set()
    seen = set()
    st = [k]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 60:
            memo[k] = None
            return None
        op = tr.op[x]
        if op == 'const':
            continue
        if op in ARI:
            st += [c for c in (tr.a[x], tr.b[x]) if c]
        else:
            out.add(rep.get(x, x))
    memo[k] = out
    return out


class Cut(Enc):
    """cuts at roots and transcendental nodes; equal roots share one variable"""

    def __init__(self, tr, rep):
        super().__init__(tr)
        self.rep = rep

    def get(self, k):
        if k in self.memo:
            return self.memo[k]
        op = self.tr.op[k]
        if op in ('const', 'input'):
            r = self.node(k)
        elif op in ARI:
            a = self.get(self.tr.a[k])
            b = self.get(self.tr.b[k]) if self.tr.b[k] else None
            r = self.node(k)
        else:
            j = self.rep.get(k, k)
            if j in self.memo:
                r = self.memo[j]
            else:
                r = z3.Real('o%d' % j)
                if op == 'sqrt':
                    self.ax.append(r >= 0)
                elif op in ('sin', 'cos'):
                    self.ax += [r >= -1, r <= 1]
                self.memo[j] = r
        self.memo[k] = r
        return r


def focused_prove(tr, goal_nodes, goal, hyp, eq, timeout=800, radii=()):
    """goal over a cut at roots and transcendental nodes, with exactly the branch outcomes over the same leaves as hypotheses"""
    rep = {}
    for k, l in (eq or {}).items():
        rep[k] = min([k] + l)
    memo = {}
    gl = set()
    for g in goal_nodes:
        l = leaves(tr, g, rep, memo)
        if l is None:
            return 'unknown'
        gl |= l
    gl |= {rep.get(r, r) for r in radii}
    KG = {k for k in gl if tr.op[k] == 'input'}
    try:
        e = Cut(tr, rep)
        g = goal(e)
        hy = list(hyp(e))
        for r in radii:
            if rep.get(r, r) in gl:
                hy.append(e.get(r) * e.inp('K') > 1)
        seen = set()
        for p in tr.pc:
            if p[0] == 'm' or p[0] >= 100 or not p[1] or not p[2]:
                continue
            q = (p[0], rep.get(p[1], p[1]), rep.get(p[2], p[2]), p[3])
            if q in seen:
                continue
            seen.add(q)
            l1, l2 = leaves(tr, q[1], rep, memo), leaves(tr, q[2], rep, memo)
            if l1 is None or l2 is None or not (l1 | l2) & (gl - KG):
                continue
            if not all(x in gl or tr.op[x] == 'input' and tr.name[x] in ('K', 'G') for x in l1 | l2):
                continue
            pr = q[0] - 8 if q[0] > 8 else q[0]
            if pr in e.REL:
                c = e.REL[pr](e.get(q[1]), e.get(q[2]))
                hy.append(c if q[3] else z3.Not(c))
        return e.prove(g, hy, timeout)
    except (ValueError, RecursionError):
        return 'unknown'
