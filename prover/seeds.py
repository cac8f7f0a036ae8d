"""Seed inputs for the concolic runs.  They only choose which expression classes are visited; every class is then decided
for all its inputs."""
import math
import random
from oracle import drive

PI = math.pi
DUB = ['dubins', 'dubins_b']
CCD = ['cc', 'cc00', 'cc0pm', 'ccpm0', 'ccpmpm']
HCS = ['hc', 'hc00', 'hc0pm', 'hcpm0', 'hcpmpm', 'cc00rs']
ALL = ['dubins', 'rs'] + CCD + HCS
ALLB = ALL + ['dubins_b'] + [c + '_b' for c in CCD]


def lu(r, a, b):
    return math.exp(r.uniform(math.log(a), math.log(b)))


def turn(K, G, ang, d, side, kind):
    """controls of one turn: kind 'arc' | 'cc' | 'hc0pm' | 'hcpm0'"""
    l = K / G
    c = []
    if kind in ('cc', 'hc0pm'):
        c.append((d * l, 0.0, side * G))
    c.append((d * ang / K, side * K, 0.0))
    if kind in ('cc', 'hcpm0'):
        c.append((d * l, side * K, -side * G))
    return c


MODES = ['rand', 'rand', 'rand', 'rand', 'rand', 'kone', 'lattice', 'wrap', 'aligned', 'equal', 'turn', 'turn2', 'par', 'opp', 'far', 'near', 'mid', 'kext', 'onturn', 'st', 'clo', 'wrap0', 'turn0', 'arcopp']


def pair(r, mode=None, kap=None):
    mode = mode or r.choice(MODES)
    K = lu(r, .2, 5)
    G = lu(r, .2, 5)
    if mode == 'kone':
        K, G = 1.0, 1.0
    if mode == 'kext':
        K, G = lu(r, .05, 20), lu(r, .05, 20)
    if mode == 'lattice':
        K, G = r.choice([.5, 1., 2.]), r.choice([.5, 1., 2., 4.])
    L = r.choice([2, 5, 10, 20]) / K
    if mode == 'far':
        L = lu(r, 50, 1000) / K
    if mode == 'near':
        L = lu(r, .01, 1) / K
    U = r.uniform
    x1, y1, t1 = U(-L / 2, L / 2), U(-L / 2, L / 2), U(-PI, PI)
    x2, y2, t2 = U(-L / 2, L / 2), U(-L / 2, L / 2), U(-PI, PI)
    d = r.choice([1, -1])
    side = r.choice([1, -1])
    if mode == 'lattice':
        q = 1 / K
        x1, y1, x2, y2 = [q * r.randint(-4, 4) for _ in range(4)]
        t1, t2 = [PI / 4 * r.randint(-4, 4) for _ in range(2)]
    if mode == 'wrap':
        t1 += 2 * PI * r.randint(-3, 3)
        t2 += 2 * PI * r.randint(-3, 3)
    if mode == 'wrap0':
        # headings on either side of the branch cut of angle normalisation
        t1 = r.choice([0.0, 1e-9, -1e-9, PI, -PI, 1e-6, -1e-6])
        t2 = t1 + r.choice([0.0, 1e-10, -1e-10, 1e-6, -1e-6])
        s = U(.1, L) * r.choice([1, -1, 0])
        x2, y2 = x1 + s * math.cos(t1), y1 + s * math.sin(t1)
    if mode == 'aligned':
        s = U(.1, L) * r.choice([1, -1])
        t2 = t1 = r.choice([t1, 0.0, PI / 2, -PI / 2, PI])
        x2, y2 = x1 + s * math.cos(t1), y1 + s * math.sin(t1)
    if mode == 'equal':
        x2, y2, t2 = x1, y1, t1 + r.choice([0, 0, 2 * PI])
    if mode == 'mid':
        x2, y2 = x1, y1
    if mode == 'par':
        t2 = t1
    if mode == 'opp':
        t2 = t1 + PI
    if mode in ('turn', 'turn2', 'onturn', 'st', 'turn0', 'arcopp'):
        kind = 'arc' if mode == 'arcopp' else r.choice(['arc', 'cc', 'hc0pm', 'hcpm0', 'arc', 'cc'])
        c = turn(K, G, U(.01, 2 * PI), d, side, kind)
        if mode == 'turn2':
            kind2 = r.choice([kind, 'arc', 'cc'])
            c += turn(K, G, U(.01, 2 * PI), r.choice([d, -d]), r.choice([side, -side]), kind2)
        if mode == 'st':
            c = [(d * U(.1, 5) / K, 0, 0)] + c if r.random() < .5 else c + [(d * U(.1, 5) / K, 0, 0)]
        z, t2 = drive(complex(x1, y1), t1, c)
        x2, y2 = z.real, z.imag
        if r.random() < .3:
            t2 = math.remainder(t2, 2 * PI)
        if mode == 'turn0':
            # one of the headings on a branch cut of angle normalisation
            a = r.choice([0.0, 0.0, PI]) - (t2 if r.random() < .7 else t1)
            z = complex(x1, y1) + (z - complex(x1, y1)) * complex(math.cos(a), math.sin(a))
            t1, t2 = t1 + a, t2 + a
            for h in (0.0, PI):
                t1 = h if abs(t1 - h) < 1e-12 else t1
                t2 = h if abs(t2 - h) < 1e-12 else t2
            x2, y2 = z.real, z.imag
        if mode == 'onturn' and r.random() < .5:
            e = r.choice([1e-6, 1e-5, 1e-4, 1e-3])
            x2 += e * U(-1, 1)
            y2 += e * U(-1, 1)
            t2 += e * U(-1, 1)

    def k():
        c = r.random()
        if c < .45:
            return U(-K, K)
        if c < .65:
            return 0.0
        return r.choice([K, -K])
    k1, k2 = k(), k()
    if mode == 'arcopp':
        k1, k2 = side * r.choice([K, K, U(.1, 1) * K]), -side * r.choice([K, K, U(.1, 1) * K])
    if kap == 0:
        k1 = k2 = 0.0
    if mode == 'clo':
        # goal reached by one or two clothoids only
        k1 = side * K * r.choice([U(.05, .95), U(.05, .95), 0., 1.])
        k2 = side * K * U(.05, .95)
        w = r.randint(0, 4)
        e = r.choice([d, d, -d])
        if w == 0:
            c = [(d * (K - abs(k1)) / G, k1, side * G), (e * (K - abs(k2)) / G, side * K, -side * G)]
        elif w == 1:
            c = [(d * abs(k1) / G, k1, -side * G), (e * abs(k2) / G, 0, side * G)]
        elif w == 2:
            k2 = -k2
            c = [(d * abs(k1) / G, k1, -side * G), (e * abs(k2) / G, 0, -side * G)]
        else:
            c = [(d * abs(k2 - k1) / G, k1, G * (1 if k2 > k1 else -1))]
        if r.random() < .2:
            c.append((0.0, 0.0, 0.0))
        z, t2 = drive(complex(x1, y1), t1, c)
        x2, y2 = z.real, z.imag
    return [K, G, x1, y1, t1, k1, r.choice([0, 0, 1, -1]), x2, y2, t2, k2, r.choice([0, 0, 1, -1])]


def line(tag, sc, sp, vals):
    return '%s %s %s %s' % (tag, sc, sp, ' '.join(repr(float(v)) if not isinstance(v, int) else str(v) for v in vals))


def pairs(seed, n, sc, spaces, modes=None, extra=None):
    r = random.Random(seed * 7919 + 13)
    out = []
    for i in range(n):
        p = pair(r, modes[i % len(modes)] if modes else None)
        for s in spaces:
            out.append(line('%s-%s-%d' % (sc, s, i), sc, s, p + (extra(r, p) if extra else [])))
    return out
