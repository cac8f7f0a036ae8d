"""Numeric oracles used for replay: independent of the library (own Fresnel evaluation, own integration)."""
import cmath
import math
from dag import fresnel_num


def fres(s):
    r = fresnel_num(abs(s))
    return r if s >= 0 else -r


def advance(z, th, ds, k, s):
    """exact pose after driving signed length ds with start curvature k and sharpness s (d kappa / d|s|)"""
    d = -1.0 if ds < 0 else 1.0
    L = abs(ds)
    if not (math.isfinite(ds) and math.isfinite(k) and math.isfinite(s)):
        return complex(float('nan'), 0), float('nan')
    if s != 0 and abs(s) * L * L > 1e-9:
        # theta(u) = th + d (k u + s u^2/2)
        sg = 1.0 if s > 0 else -1.0
        q = math.sqrt(abs(s) * math.pi)
        b = (abs(s) * L + sg * k) / q
        a = sg * k / q
        if abs(a) > 60 or abs(b) > 60:
            return quad(z, th, d, L, k, s), th + d * (k * L + s * L * L / 2)
        F = fres(b) - fres(a)
        if sg * d < 0:
            F = F.conjugate()
        z = z + d * cmath.exp(1j * (th - d * k * k / (2 * s))) * math.sqrt(math.pi / abs(s)) * F
        return z, th + d * (k * L + s * L * L / 2)
    if s != 0:
        return quad(z, th, d, L, k, s), th + d * (k * L + s * L * L / 2)
    if abs(k) * L > 1e-7:
        th2 = th + d * k * L
        return z + (cmath.exp(1j * th2) - cmath.exp(1j * th)) / (1j * k), th2
    return z + d * L * cmath.exp(1j * (th + d * k * L / 2)), th + d * k * L


_gl = None


def quad(z, th, d, L, k, s):
    import numpy as np
    global _gl
    if _gl is None:
        _gl = np.polynomial.legendre.leggauss(30)
    xs, ws = _gl
    m = int(min(4000, (abs(k) * L + abs(s) * L * L) / 4 + 1))
    tot = 0j
    h = L / m / 2
    for i in range(m):
        u = (2 * i + 1) * h + h * xs
        tot += h * complex(ws @ np.exp(1j * (th + d * (k * u + s * u * u / 2))))
    return z + d * tot


def drive(z, th, ctl):
    for ds, k, s in ctl:
        z, th = advance(z, th, ds, k, s)
    return z, th


def angdiff(a, b):
    return math.remainder(a - b, 2 * math.pi) if math.isfinite(a - b) else float('nan')


def controls(outs, ints, pre='c'):
    n = ints.get(pre + 'n', 0)
    return [(outs['%s%d.ds' % (pre, i)], outs['%s%d.k' % (pre, i)], outs['%s%d.s' % (pre, i)]) for i in range(n)]
