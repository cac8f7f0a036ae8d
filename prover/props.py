"""Property checks."""
import math
import core
import oracle
import seeds
import vc
from algebra import Poly
from dag import Norm, Unsupported, run_norm
from props_base import Prop, inputs_of, sig

REG = {}


def reg(c):
    p = c()
    REG[p.pid] = p
    return c


def prove(tr, builder):
    """builder(n) -> [(name, parts)]; all sums identically zero?"""
    n = Norm(tr)
    return [(name, core.decide_sum_zero(n, parts)) for name, parts in run_norm(n, builder)]


def gscale(v):
    return v[0]


class Goal(Prop):
    """returned controls drive the start pose exactly onto the goal pose"""
    spaces = []
    n_quick = 600
    n_thorough = 6000
    bounds = ('inputs: curvature limit and sharpness limit (free positive reals), both states (free); classes: the expression classes visited '
              'by the concolic exploration; a class covers all inputs for which the code computes the same expressions; sign cells of radicals as at '
              'the representative; classes entered through the tolerance tests (1e-4) are held to the tolerance, not to equality')
    explain = ('For every class, the controls returned by the library are integrated symbolically in closed form (lines, arcs, clothoids with '
               'Fresnel integrals as uninterpreted functions) from the symbolic start state; z3 decides whether end position - goal position and '
               'e^{i end heading} - e^{i goal heading} can be non-zero.')

    def jobs(self, tier, seed):
        n = self.n_thorough if tier == 'thorough' else self.n_quick
        out = []
        for s in self.spaces:
            out += seeds.pairs(seed, n * (4 if s in ('dubins', 'rs', 'dubins_b') else 1), 'ctl', [s])
        return out

    def oracle(self, sc, sp, v, outs, ints):
        c = oracle.controls(outs, ints)
        z, th = oracle.drive(complex(v[2], v[3]), v[4], c)
        K = v[0]
        L = sum(abs(x[0]) for x in c)
        sc_ = 1 + K * (abs(v[2]) + abs(v[3]) + abs(v[7]) + abs(v[8])) * 1e-3
        td = 5e-3 + 4e-4 * K * (L if L == L else 0)
        return [('position', abs(z - complex(v[7], v[8])) * K, 2e-5 * sc_, td),
                ('heading', abs(oracle.angdiff(th, v[9])), 2e-5, td)]

    def vcs(self, tr, line):
        d = inputs_of(line)

        def b(n):
            p, h = vc.goal_parts(n, d)
            return [('position', p), ('heading', h)]
        return prove(tr, b)


@reg
class P01(Goal):
    pid = 'P01'
    spaces = ['dubins', 'rs', 'dubins_b']


@reg
class P02(Goal):
    pid = 'P02'
    spaces = seeds.CCD + [s + '_b' for s in seeds.CCD]
    n_quick = 300


@reg
class P03(Goal):
    pid = 'P03'
    spaces = seeds.HCS
    n_quick = 500


import props_path
for _c in (props_path.P04, props_path.P05, props_path.P06, props_path.P07, props_path.P10, props_path.P15):
    reg(_c)
import props_motion
for _c in (props_motion.P08, props_motion.P09, props_motion.P19, props_motion.P20):
    reg(_c)
import props_ekf
for _c in (props_ekf.P16, props_ekf.P17, props_ekf.P18, props_ekf.P23):
    reg(_c)
import props_sym
for _c in (props_sym.P11, props_sym.P12, props_sym.P13):
    reg(_c)
import props_words
reg(props_words.P14)
import props_fresnel
reg(props_fresnel.P21)
import props_def
reg(props_def.P22)
import props_vari
reg(props_vari.P24)
import props_nest
reg(props_nest.P25)
import props_mem
reg(props_mem.P26)
import props_fam
reg(props_fam.P27)
