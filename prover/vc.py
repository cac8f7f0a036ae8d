"""Symbolic building blocks of the verification conditions (over dag.Norm normal forms)."""
import math
from fractions import Fraction
from algebra import Poly, TooBig
from dag import Norm, Unsupported, run_norm

H = Fraction(1, 2)


def val(n, o):
    return n.get(o[0]) if o[0] else n.constpoly(o[1])


def inp(n, name):
    for k, v in n.tr.name.items():
        if v == name:
            return n.get(k)
    raise Unsupported('input %s absent' % name)


def inp_or(n, name, default):
    """input node, or the constant it had when the trace does not depend on it"""
    for k, v in n.tr.name.items():
        if v == name:
            return n.get(k)
    # never used by the code: still a free symbol for the specification
    R = n.R
    for (xn, yn) in n.cin:
        if name in (xn, yn):
            w = n.cplxvar('Z:' + xn, complex(default.get(xn, 0.0), default.get(yn, 0.0)))
            wb = w.conj()
            return (w + wb) * H if name == xn else (w - wb) * R.I * (-H)
    return R.var(name, 'real', default.get(name, 0.0))


def segments(tr, pre='c'):
    return [(tr.outs['%s%d.ds' % (pre, i)], tr.outs['%s%d.k' % (pre, i)], tr.outs['%s%d.s' % (pre, i)])
            for i in range(tr.ints[pre + 'n'])]


def sqrt_abs(n, o):
    """sqrt |node|"""
    i, v = o
    tr = n.tr
    if i == 0:
        return n.R.sqrt(n.constpoly(abs(v)))
    if v >= 0:
        return n.sqrtnode(i)
    if tr.op[i] == 'neg':
        return n.sqrtnode(tr.a[i])
    return n.R.sqrt(-n.get(i))


def inv(n, o):
    return n.invnode(o[0]) if o[0] else n.constpoly(o[1]).inv()


def seg_step(n, E, ds, k, sg):
    """exact motion of one control segment from heading unit E: returns (displacement parts, new heading unit).
    Curvature k at its start, sharpness sg, signed length ds."""
    R = n.R
    DS, K, SG = val(n, ds), val(n, k), val(n, sg)
    d = -1 if ds[1] < 0 else 1
    L = DS * d
    if SG.d:
        sgn = -1 if sg[1] < 0 else 1
        rs = sqrt_abs(n, sg)
        isp = R.v(1, -1)
        irs = rs.inv()
        phase = K * K * inv(n, sg) * Fraction(-d, 2)
        a2 = isp * irs * (SG * sgn * L + K * sgn)
        a3 = isp * irs * K * sgn
        F = n.fresnel(a2) - n.fresnel(a3)
        Fx = F.conj() if sgn * d < 0 else F
        disp = E * n.expi(phase) * Fx * (R.v(1, 1) * irs * d)
        return disp, E * n.expi((K * L + SG * L * L * H) * d)
    if K.d:
        E2 = E * n.expi(DS * K)
        return (E2 - E) * inv(n, k) * R.I * (-1), E2
    return E * DS, E


def touch(n, pre='c'):
    for s in segments(n.tr, pre):
        for o in s:
            val(n, o)


def goal_parts(n, default):
    """parts whose sums must vanish: position and heading of the goal reached by the returned controls"""
    tr = n.tr
    R = n.R
    touch(n)
    g = lambda nm: inp_or(n, nm, default)
    z0 = g('x1') + g('y1') * R.I
    E = n.expi(g('th1'))
    parts = [z0]
    for (ds, k, sg) in segments(tr):
        disp, E = seg_step(n, E, ds, k, sg)
        parts.append(disp)
    parts.append(-(g('x2') + g('y2') * R.I))
    return parts, [E, -n.expi(g('th2'))]


def adv(n, E, L, d, k, sg, kp=None):
    """motion over the (polynomial) length L >= 0 in direction d from heading unit E; k, sg: (node, value) of start curvature
    and sharpness, kp: curvature polynomial when it is not a node.  Returns (displacement, new heading unit, curvature)"""
    R = n.R
    K = val(n, k) if kp is None else kp
    SG = val(n, sg)
    if SG.d:
        sgn = -1 if sg[1] < 0 else 1
        rs = sqrt_abs(n, sg)
        isp = R.v(1, -1)
        irs = rs.inv()
        phase = K * K * inv(n, sg) * Fraction(-d, 2)
        a2 = isp * irs * (SG * sgn * L + K * sgn)
        a3 = isp * irs * K * sgn
        F = n.fresnel(a2) - n.fresnel(a3)
        Fx = F.conj() if sgn * d < 0 else F
        disp = E * n.expi(phase) * Fx * (R.v(1, 1) * irs * d)
        return disp, E * n.expi((K * L + SG * L * L * H) * d), K + SG * L
    if K.d:
        E2 = E * n.expi(L * K * d)
        return (E2 - E) * inv(n, k) * R.I * (-1), E2, K
    return E * L * d, E, K
