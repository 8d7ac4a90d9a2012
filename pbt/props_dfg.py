"""P23-P27: three-wave mixing (difference frequency generation)."""
import os
import numpy as np
from hypothesis import strategies as st
from util import *
from core import sub, Violation

PPLN_T = F(20., 200.)


# ------------------------------------------------------------------ shared
def setup_strategy(ns=(8, 16, 24, 32), kinds=('wg', 'free', 'bpm')):
    """Three non-overlapping grids inside the transparency range."""
    return dict(
        n=st.sampled_from(list(ns)), fp=F(190., 330.), rs=F(.53, .76), frac=F(.02, .95), kind=st.sampled_from(list(kinds)),
        T=PPLN_T, theta=F(.2, 1.4), L=logF(1e-4, .05), waist=logF(5e-6, 1e-3), Aeff=logF(1., 1e4), gouy=st.booleans(),
        cache=st.booleans(), frep=logF(1., 1e4), pp=F(8e-6, 60e-6), seed=SEED)


class Setup:
    """Problem built by the library, plus everything the oracle needs."""
    def __init__(self, p, aw=None, crystal_L=None, zero_idler=False):
        from pynlo.media.crystals import PPLN, AgGaSe2
        from pynlo.interactions.ThreeWaveMixing import dfg_problem
        self.p = p
        n = self.n = p['n']
        fp, fs = p['fp'], p['fp'] * p['rs']
        fi = fp - fs
        if p['kind'] == 'bpm':            # AgGaSe2 is used further in the infrared
            fp, fs, fi = fp / 1.5, fs / 1.5, fi / 1.5
        half = p['frac'] * min(fp - fs, fs - fi, .6 * fi) / 2.0
        self.Tw = n / (2.0 * half)
        self.L = p['L'] if crystal_L is None else crystal_L
        self.f = (fp, fs, fi)
        wl = [C_NMPS / x for x in self.f]
        self.gp, self.gs, self.gi = [dict(N=n, Tw=self.Tw, wl=w, frep=p['frep']) for w in wl]
        rng = np.random.RandomState(p['seed'])
        if aw is None:
            aw = [(rng.normal(size=n) + 1j * rng.normal(size=n)) * 10.0 ** rng.uniform(-2, 3) for _ in range(2)]
        self.pump, self.sgnl = make_pulse(self.gp, aw=aw[0]), make_pulse(self.gs, aw=aw[1])
        mk = (lambda: AgGaSe2(theta=p['theta'], length=self.L)) if p['kind'] == 'bpm' else (lambda: PPLN(p['T'], length=self.L))
        self.crystal = mk()
        self.crystal.set_caching(p['cache'])
        self.free = p['kind'] != 'wg'
        if p['kind'] != 'bpm':
            self.crystal.set_pp(p['pp'])
        kw = dict(pump_waist=p['waist'], apply_gouy_phase=p['gouy']) if self.free else dict(wg_mode=True, Aeff_squm=p['Aeff'],
                                                                                           apply_gouy_phase=p['gouy'])
        # either transform library; the fallback is picked when the other is not installed
        from pynlo.interactions.ThreeWaveMixing import DFG_integrand as mod
        lib = getattr(mod, 'PYFFTW_AVAILABLE', None)
        if lib and p.get('lib') is False:
            mod.PYFFTW_AVAILABLE = False
        if p.get('plot') and self.free:
            kw['plot_beam_overlaps'] = True
        try:
            self.problem = dfg_problem(self.pump, self.sgnl, self.crystal, disable_SPM=True, **kw)
        finally:
            if lib is not None:
                mod.PYFFTW_AVAILABLE = lib
        # oracle quantities, from a separate crystal on directly computed grids
        ref = mk()
        W = self.W = [gW(g) * 1e12 for g in (self.gp, self.gs, self.gi)]
        wls = [2e9 * np.pi * C / w for w in W]
        if p['kind'] == 'bpm':
            self.nn = [ref.n(wls[0], 'mix'), ref.n(wls[1], 'o'), ref.n(wls[2], 'o')]
        else:
            self.nn = [ref.n(w) for w in wls]
        self.k = [x * w / C for x, w in zip(self.nn, W)]
        self.deff = ref.deff
        self.ref = ref

    def sign(self, z):
        if self.p['kind'] == 'bpm':
            return 1.0
        return 1.0 if (z % self.p['pp']) < self.p['pp'] / 2 else -1.0

    def scales(self, z):
        """sqrt(power) to field, for pump, signal and idler."""
        if not self.free:
            return [1 / np.sqrt(self.p['Aeff'] * 1e-12 * x * EPS0 * C) for x in self.nn]
        h = self.n // 2
        lam = [2 * np.pi * C / w for w in self.W]
        zr = np.pi * self.p['waist'] ** 2 * self.nn[0][h] / lam[0][h]
        zf = z - self.L / 2.0
        w2 = [zr * l / (np.pi * x) * (1 + (zf / zr) ** 2) for l, x in zip(lam, self.nn)]
        s = min(range(3), key=lambda i: np.mean(np.sqrt(w2[i])))
        return [1 / np.sqrt(np.pi * w2[s] * x * EPS0 * C) for x in self.nn]

    def gouy(self, z):
        if not self.free or not self.p['gouy']:
            return 0.0
        h = self.n // 2
        zr = np.pi * self.p['waist'] ** 2 * self.nn[0][h] * self.W[0][h] / (2 * np.pi * C)
        return np.arctan2(z - self.L / 2.0, zr)

    def rhs(self, z, y):
        """The coupled equations, summed directly over photon triples."""
        n = self.n
        A = [y[:n], y[n:2 * n], y[2 * n:]]
        a = self.scales(z)
        g = self.gouy(z)
        E = [ai * Ai * np.exp(1j * (np.longdouble(1) * ki * z + g)).astype(complex) for ai, Ai, ki in zip(a, A, self.k)]
        N = np.zeros((3, n), complex)
        for js in range(n):
            for ji in range(max(0, n // 2 - js), min(n, n + n // 2 - js)):
                jp = js + ji - n // 2
                N[0, jp] += E[1][js] * E[2][ji]
                N[1, js] += E[0][jp] * np.conj(E[2][ji])
                N[2, ji] += E[0][jp] * np.conj(E[1][js])
        d = self.deff * self.sign(z)
        return np.concatenate([2j * W * d / (C * x) * Nk * np.exp(-1j * (np.longdouble(1) * kk * z + g)).astype(complex) / ak
                               for W, x, Nk, kk, ak in zip(self.W, self.nn, N, self.k, a)])

    def size(self, z, y):
        """Bound on each derivative from the norms of the other two fields."""
        n = self.n
        a = self.scales(z)
        m = [np.linalg.norm(ai * y[i * n:(i + 1) * n]) for i, ai in enumerate(a)]
        return [float(np.max(2 * W * abs(self.deff) / (C * x) / ak)) * m[i] * m[j]
                for W, x, ak, (i, j) in zip(self.W, self.nn, a, ((1, 2), (0, 2), (0, 1)))]

    def random_state(self, seed):
        rng = np.random.RandomState(seed)
        n = self.n
        y = []
        for _ in range(3):
            v = rng.normal(size=n) + 1j * rng.normal(size=n)
            if rng.rand() < .3:
                v = np.where(rng.rand(n) < .3, v, 0.0)
            if rng.rand() < .1:
                v = 0 * v
            y.append(v * 10.0 ** (rng.uniform(-3, 3) if rng.rand() < .8 else rng.uniform(-40, 6)))
        return np.concatenate(y)

    def z(self, u):
        """Position away from domain boundaries."""
        z = u * self.L
        if self.p['kind'] != 'bpm':
            h = self.p['pp'] / 2
            k = np.floor(z / h)
            if z - k * h < 1e-6 * h or (k + 1) * h - z < 1e-6 * h:
                z = (k + .5) * h
        return float(z)

    def deriv(self, z, y):
        d = np.full(3 * self.n, np.nan + 0j)
        self.problem.deriv(z, y, d)
        return arr(d, (3 * self.n,), 'derivative')


def clamp_L(p):
    """Keep the number of poling domains moderate."""
    p = dict(p)
    if p['kind'] != 'bpm':
        p['L'] = min(p['L'], 1500 * p['pp'])
    return p


# ------------------------------------------------------------------ P24
@sub('P24', 'equations', st.fixed_dictionaries(dict(us=st.lists(F(0., 1.), min_size=1, max_size=4), wall=logF(1e-5, .3), lib=st.booleans(), plot=st.sampled_from([False] * 19 + [True]), **setup_strategy())), quick=500,
     thorough=12000, rule='right-hand side against the directly summed coupled equations; non-trivial when a product of two fields is non-zero')
def equations(p, ctx):
    p = clamp_L(p)
    s = Setup(p)
    ctx.label(p['kind'])
    seen = {}
    order = [(i, s.z(u)) for i, u in enumerate(p['us'])] + [(0, s.z(p['us'][0]))]
    if p['kind'] != 'bpm' and s.L > p['pp'] / 2:
        # a step across a domain wall, forth and back
        h = p['pp'] / 2
        w = max(1, int(p['us'][0] * s.L / h)) * h
        e = p['wall'] * h
        order += [(100, w - e), (101, w + e), (100, w - e)]
        order = [(i, z) for i, z in order if 0 <= z <= s.L]
    nz = False
    for i, z in order:
        y = s.random_state(p['seed'] + i)
        y0 = y.copy()
        d = s.deriv(z, y)
        equal(y, y0, 'fields handed to the derivative')
        e = s.rhs(z, y)
        nz = nz or np.any(e)
        for k, nm in enumerate(('pump', 'signal', 'idler')):
            sl = slice(k * s.n, (k + 1) * s.n)
            if np.any(e[sl]):
                vclose(d[sl], e[sl], 2e-8, '%s derivative at z = %.4g' % (nm, z), floor=1e-11 * s.size(z, y)[k])
            else:
                # rounding of the products that fall outside the grid remains
                require(np.max(np.abs(d[sl])) <= 1e-9 * s.size(z, y)[k], '%s derivative should vanish', nm)
        if i in seen:
            equal(d, seen[i], 'derivative evaluated a second time')
        seen[i] = d
    ctx.trivial(not nz)


@sub('P24', 'cw_mixing', st.fixed_dictionaries(dict(
    bins=st.tuples(F(0, 1), F(0, 1)), mism=F(-8., 8.), gain=F(.3, 2.), sig=logF(1e-3, 1.), idl=st.one_of(st.just(0.0), F(.1, 1.)), ph=F(0, 6.28),
    nz=st.integers(2, 6), **setup_strategy(ns=(8, 16), kinds=('wg', 'bpm')))), quick=120, thorough=2500, budget=12_000_000,
    rule='three continuous waves integrated through the crystal against an independent integration of the three-wave equations')
def cw_mixing(p, ctx):
    from scipy.integrate import solve_ivp
    p = dict(p)
    p['gouy'] = False
    p['L'] = max(p['L'], 1e-3)
    if p['kind'] == 'bpm':
        p['waist'] = max(p['waist'], .02)
    else:
        p['L'] = 150 * p['pp']
    s0 = Setup(p)
    if p['kind'] == 'bpm':
        # choose the crystal length for the wanted mismatch
        pass
    n = s0.n
    h = n // 2
    jp = int(p['bins'][0] * (n - 1))
    js = min(max(int(p['bins'][1] * (n - 1)), jp + h - n + 1), jp + h)
    js = min(max(js, 0), n - 1)
    ji = jp - js + h
    if not 0 <= ji < n:
        ctx.trivial()
        return
    J = (jp, js, ji)
    dk = s0.k[1][js] + s0.k[2][ji] - s0.k[0][jp]
    if p['kind'] == 'wg':
        # unpoled first half period, quasi-phase-matched beyond
        p['pp'] = abs(2 * np.pi / (dk * (1 + .01 * p['mism'])))
        if not 3e-6 < p['pp'] < 200e-6:
            ctx.trivial()
            return
        p['L'] = 40 * p['pp']
    else:
        p['L'] = min(p['L'], 30. / abs(dk) * max(.05, abs(p['mism'])))
    s = Setup(p)
    ctx.label(p['kind'])
    a = s.scales(s.L / 2)
    av = [float(x[j]) for x, j in zip(a, J)]
    Wv = [float(x[j]) for x, j in zip(s.W, J)]
    nv = [float(x[j]) for x, j in zip(s.nn, J)]
    eff = s.deff * (2 / np.pi if p['kind'] == 'wg' else 1.0)
    Ap = p['gain'] / s.L / (2 * eff / C * np.sqrt(Wv[1] * Wv[2] / nv[1] / nv[2]))      # pump field for the wanted gain
    E0 = np.array([Ap, Ap * p['sig'] * np.sqrt(Wv[1] / Wv[0]) * np.exp(1j * p['ph']), Ap * p['idl'] * p['sig'] * np.sqrt(Wv[2] / Wv[0])])
    y0 = np.zeros(3 * n, complex)
    for k in range(3):
        y0[k * n + J[k]] = E0[k] / av[k]

    def f(z, e, sg):
        q = np.exp(1j * dk * z)
        d = 2j * s.deff * sg / C * np.array([Wv[0] / nv[0] * e[1] * e[2] * q, Wv[1] / nv[1] * e[0] * np.conj(e[2]) / q,
                                             Wv[2] / nv[2] * e[0] * np.conj(e[1]) / q])
        return d
    edges = np.array([0.0, s.L]) if p['kind'] == 'bpm' else np.arange(0, 81) * p['pp'] / 2
    e = E0.astype(complex)
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    y = y0.copy()
    worst = 0
    for i in range(len(edges) - 1):
        z1, z2 = edges[i], edges[i + 1]
        r = solve_ivp(lambda z, q: f(z, q, 1.0 if i % 2 == 0 else -1.0), (z1, z2), e, method='DOP853', rtol=1e-10, atol=1e-12 * np.max(np.abs(E0)))
        e = r.y[:, -1]
        if i >= 12 and p['kind'] != 'bpm':
            break
        # integrate domain by domain, staying clear of the walls
        ep = 0.0 if p['kind'] == 'bpm' else 1e-9 * (z2 - z1)
        out = ode_solve.Output(1)
        o = ode_solve.ODEint(y, z1 + ep, z2 - ep, 1e-12 * np.max(np.abs(y0)), 1e-10, (z2 - z1) / 20, 0.0, out, dopr853.StepperDopr853, s.problem,
                             dtype=np.complex128)
        o.integrate()
        for k in range(3):
            close(y[k * n + J[k]] * av[k], e[k], 0, 2e-6 * abs(E0[0]), 'CW amplitude %d after domain %d' % (k, i))
            others = np.delete(y[k * n:(k + 1) * n], J[k])
            require(np.max(np.abs(others)) * av[k] <= 1e-6 * abs(E0[0]), 'power appears at frequencies that no photon triple allows')
    ctx.trivial(abs(e[2] - E0[2]) < 1e-4 * abs(E0[0]))


# ------------------------------------------------------------------ P23
@sub('P23', 'photon_balance', st.fixed_dictionaries(dict(us=st.lists(F(0., 1.), min_size=1, max_size=4),
                                                        **setup_strategy(ns=(8, 16, 32, 64, 128), kinds=('wg',)))),
     quick=500, thorough=12000, rule='rate of change of photon numbers and of power, for arbitrary broadband fields in a waveguide')
def photon_balance(p, ctx):
    s = Setup(clamp_L(p))
    n = s.n
    for i, u in enumerate(p['us']):
        z = s.z(u)
        y = s.random_state(p['seed'] + i)
        d = s.deriv(z, y)
        r = [np.conj(y[k * n:(k + 1) * n]) * d[k * n:(k + 1) * n] for k in range(3)]
        ph = [np.sum(x.real / w) for x, w in zip(r, s.W)]
        # largest rate three fields of this size could have
        E = [np.linalg.norm(ai * y[k * n:(k + 1) * n]) for k, ai in enumerate(s.scales(z))]
        a0 = s.scales(z)[0]
        big = 2 * s.deff / C * E[0] * E[1] * E[2] / np.min(s.nn[0] * a0 ** 2)
        if big == 0 or max(np.sum(np.abs(x) / w) for x, w in zip(r, s.W)) < 1e-4 * big:
            ctx.trivial()
        tol = 1e-9 * big
        require(abs(ph[0] + ph[1]) <= tol, 'pump photons lost and signal photons gained differ: %r, %r (scale %r)', ph[0], ph[1], big)
        require(abs(ph[1] - ph[2]) <= tol, 'signal and idler photons gained differ: %r, %r (scale %r)', ph[1], ph[2], big)
        tot = sum(np.sum(x.real) for x in r)
        require(abs(tot) <= 1e-9 * big * np.max(s.W[0]), 'total power is not conserved: %r', tot)


@sub('P23', 'integrated', st.fixed_dictionaries(dict(gain=F(.5, 3.), sig=F(.05, 1.), dom=st.integers(2, 8), nsav=st.integers(1, 6), bw=F(.05, .5),
                                                     **setup_strategy(ns=(16, 32), kinds=('wg',)))), quick=80,
     thorough=1500, rule='photon numbers and power of pulses integrated through poled domains; non-trivial when over 0.1% is converted')
def integrated(p, ctx):
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    p = dict(p)
    p['L'] = p['dom'] * p['pp']
    s = Setup(p)
    n = s.n
    rng = np.random.RandomState(p['seed'])
    env = lambda: np.exp(-((np.arange(n) - n / 2.) / (n * p['bw'] / 2)) ** 2) * np.exp(2j * np.pi * rng.rand(n))
    a = s.scales(0.0)
    h = n // 2
    kap = 2 * s.deff / C * np.sqrt(s.W[1][h] * s.W[2][h] / s.nn[1][h] / s.nn[2][h])
    P = env()
    dk = abs(s.k[1][h] + s.k[2][h] - s.k[0][h])
    P = P / np.sum(np.abs(P)) * p['gain'] / kap / a[0][h] * max(1. / s.L, min(1. / p['pp'], dk / 4))
    Sg = env()
    Sg = Sg / np.linalg.norm(Sg) * np.linalg.norm(P) * p['sig'] * .6
    y = np.concatenate([P, Sg, .1 * Sg * np.exp(2j * np.pi * rng.rand(n))])
    ph = lambda v: np.array([np.sum(np.abs(v[k * n:(k + 1) * n]) ** 2 / s.W[k]) for k in range(3)])
    pw = lambda v: np.sum(np.abs(v) ** 2)
    n0, w0 = ph(y), pw(y)
    conv = 0
    for i in range(2 * p['dom']):
        z1, z2 = i * p['pp'] / 2, (i + 1) * p['pp'] / 2
        ep = 1e-9 * p['pp']
        out = ode_solve.Output(p['nsav'])
        ode_solve.ODEint(y, z1 + ep, z2 - ep, 1e-9 * np.max(np.abs(P)), 1e-9, (z2 - z1) / 20, 0.0, out, dopr853.StepperDopr853, s.problem,
                         dtype=np.complex128).integrate()
        for yy in list(out.ysave[:out.count]) + [y]:
            q = ph(yy)
            t = 1e-6 * n0[0]
            require(abs(q[0] + q[1] - n0[0] - n0[1]) <= t, 'pump plus signal photon number changes: %r to %r', n0[0] + n0[1], q[0] + q[1])
            require(abs(q[1] - q[2] - n0[1] + n0[2]) <= t, 'signal minus idler photon number changes: %r to %r', n0[1] - n0[2], q[1] - q[2])
            require(abs(pw(yy) - w0) <= 1e-6 * w0, 'power changes from %r to %r', w0, pw(yy))
            conv = max(conv, abs(q[0] - n0[0]) / n0[0])
    ctx.trivial(conv < 1e-3)


# ------------------------------------------------------------------ P25
@sub('P25', 'isolation', st.fixed_dictionaries(dict(us=F(0, 1), mut=st.lists(st.sampled_from(
    ['pump_AW', 'pump_wl', 'pump_tw', 'sgnl_AW', 'sgnl_wl', 'crystal_T', 'crystal_pp', 'crystal_deff', 'other']), min_size=1, max_size=4),
    **setup_strategy(ns=(8, 16)))), quick=300, rule='the problem copies its inputs: neither side sees later changes of the other')
def isolation(p, ctx):
    from pynlo.interactions.ThreeWaveMixing import dfg_problem
    p = clamp_L(p)
    s = Setup(p)
    n = s.n
    before = [pulse_state(s.pump), pulse_state(s.sgnl)]
    y = s.random_state(p['seed'])
    z = s.z(p['us'])
    ys = arr(s.problem.ystart, (3 * n,), 'initial state').copy()
    equal(ys[:n], s.pump.AW, 'pump part of the initial state')
    equal(ys[n:2 * n], s.sgnl.AW, 'signal part of the initial state')
    close(s.problem.idlr.center_wavelength_nm, C_NMPS / s.f[2], 1e-9, 0, 'idler center wavelength')
    require(np.all(np.isfinite(ys)), 'initial idler noise is not finite')
    close(s.problem.idlr.W_mks, s.W[2], 1e-9, 0, 'idler frequency grid')
    d = s.deriv(z, y)
    n_before = s.crystal.n(1550.) if p['kind'] != 'bpm' else s.crystal.n(1550., 'mix')
    for m in p['mut']:
        if m == 'pump_AW':
            s.pump.set_AW(np.ones(n) * 7.)
        elif m == 'sgnl_AW':
            s.sgnl.set_AW(np.ones(n) * 7.)
        elif m == 'pump_wl':
            s.pump.set_center_wavelength_nm(1234.)
        elif m == 'sgnl_wl':
            s.sgnl.set_center_wavelength_nm(2234.)
        elif m == 'pump_tw':
            s.pump.set_time_window_ps(s.Tw * 3)
        elif m == 'crystal_T':
            if p['kind'] == 'bpm':
                s.crystal.set_theta(.1)
            else:
                s.crystal.set_T(p['T'] + 50)
        elif m == 'crystal_pp' and p['kind'] != 'bpm':
            s.crystal.set_pp(p['pp'] * 1.7)
        elif m == 'crystal_deff':
            s.crystal.deff = 1e-12
        elif m == 'other':
            q = dict(p)
            q['fp'] = p['fp'] * .97
            q['seed'] = p['seed'] // 2
            o = Setup(q)
            o.deriv(o.z(.3), o.random_state(1))
    # the index at one pulse's grid is cached by grid: nothing changes
    equal(s.deriv(z, y), d, 'derivative after the inputs were changed')
    equal(s.problem.ystart, ys, 'initial state after the inputs were changed')
    if not any(m.startswith('pump') for m in p['mut']):
        same_state(before[0], pulse_state(s.pump), 'pump pulse given to the problem')
    if not any(m.startswith('sgnl') for m in p['mut']):
        same_state(before[1], pulse_state(s.sgnl), 'signal pulse given to the problem')
    if not any(m.startswith('crystal') for m in p['mut']):
        equal(s.crystal.n(1550.) if p['kind'] != 'bpm' else s.crystal.n(1550., 'mix'), n_before, 'index of the crystal given to the problem')


@sub('P25', 'rejection', st.fixed_dictionaries(dict(n=st.sampled_from([8, 16, 32]), fp=F(190., 330.), rs=F(.52, .8), frac=F(.05, 1.6), T=PPLN_T,
                                                   m=st.sampled_from([1, 1, 2, 4]))),
     quick=300, rule='overlapping grids and unequal sizes are refused, everything else accepted; non-trivial when refused')
def rejection(p, ctx):
    from pynlo.media.crystals import PPLN
    from pynlo.interactions.ThreeWaveMixing import dfg_problem
    n, fp = p['n'], p['fp']
    fs = fp * p['rs']
    fi = fp - fs
    gap = min(fp - fs, abs(fs - fi))
    half = min(p['frac'] * gap / 2.0, .8 * fi)
    Tw = n / (2 * half)
    mk = lambda f, k: make_pulse(dict(N=n * k, Tw=Tw * k, wl=C_NMPS / f, frep=100.), aw=np.ones(n * k, complex))
    pump, sgnl = mk(fp, 1), mk(fs, p['m'])
    top = half - 2 * half / n                # highest offset on the grid
    tops = half - 2 * half / (n * p['m'])
    m1 = (fp - half) - (fs + tops)           # lowest pump minus highest signal frequency
    m2 = (fs - half) - (fi + top)
    if min(abs(m1), abs(m2)) < 1e-6 * fp:
        ctx.trivial()
        return
    bad = m1 < 0 or m2 < 0 or p['m'] != 1
    try:
        pr = dfg_problem(pump, sgnl, PPLN(p['T'], length=1e-4), disable_SPM=True)
        got = True
    except ValueError:
        got = False
    ctx.trivial(not bad)
    ctx.label('refused' if bad else 'accepted')
    require(got == (not bad), 'grids %s although they %s', 'accepted' if got else 'refused',
            'overlap or differ in size' if bad else 'are disjoint and equal in size')


@sub('P25', 'results', st.fixed_dictionaries(dict(zs=st.lists(F(0, 1), min_size=1, max_size=5), reads=st.lists(st.tuples(
    st.sampled_from(['pump', 'sgnl', 'idlr']), st.integers(0, 4)), min_size=1, max_size=8), **setup_strategy(ns=(8, 16, 64)))), quick=300,
     rule='stored fields with dispersion put back, in the frame moving at the pump\'s phase velocity; saved data unchanged')
def results(p, ctx):
    from pynlo.util import ode_solve
    s = Setup(clamp_L(p))
    n = s.n
    out = ode_solve.Output(len(p['zs']) + 2)
    out.init(3 * n, 0.0, s.L, dtype=np.complex128)
    ys = []
    zs = [u * s.L for u in p['zs']]
    for i, z in enumerate(zs):
        y = s.random_state(p['seed'] + i)
        ys.append(y)
        out.save(z, y)
    raw = out.ysave.copy()
    r1 = s.problem.process_stepper_output(out)
    r2 = s.problem.process_stepper_output(out)
    equal(out.ysave, raw, 'the integrator\'s saved fields after post-processing')
    c = int(np.argmax(np.abs(s.pump.AW)))
    ctx.trivial(not any(np.any(y) for y in ys))
    names = ('pump', 'sgnl', 'idlr')
    reads = [(nm, k % len(zs)) for nm, k in p['reads']]
    for r in (r1, r2):
        for nm, k in reads:
            j = names.index(nm)
            pl = getattr(r, 'get_' + nm)(k)
            z = zs[k]
            close(np.real(r.get_z(k)), z, 1e-12, 0, 'position of a saved field')
            close(pl.center_wavelength_nm, C_NMPS / s.f[j], 1e-9, 0, '%s center wavelength' % nm)
            close(pl.W_mks, s.W[j], 1e-9, 0, '%s frequency grid' % nm)
            t = z * s.nn[0][c] / C
            e = ys[k][j * n:(j + 1) * n] * np.exp(1j * (np.longdouble(1) * s.k[j] * z - np.longdouble(1) * t * s.W[j])).astype(complex)
            close(pl.AW, e, 0, 1e-8 * max(np.max(np.abs(e)), 1e-300) + 1e-14 * np.max(np.abs(ys[k])), '%s field at save %d' % (nm, k))
            close(pl.AT, idft(pl.AW), 0, 1e-9 * max(np.max(np.abs(e)), 1e-300) * n, '%s temporal field at save %d' % (nm, k))
    require(r1.n_saves == len(zs), 'number of saved positions is %r, expected %d', r1.n_saves, len(zs))


@sub('P25', 'containers', st.fixed_dictionaries(dict(n=st.integers(1, 20), seed=SEED, w=st.tuples(logF(1e-6, 1e-3), logF(1e-6, 1e-3), logF(1e-6, 1e-3)))),
     quick=60, rule='containers for three fields and three beams')
def containers(p, ctx):
    from pynlo.interactions.ThreeWaveMixing import field_classes as fc
    rng = np.random.RandomState(p['seed'])
    n = p['n']
    v = rng.normal(size=(4, n)) + 1j * rng.normal(size=(4, n))
    a, b = fc.ThreeFields(n), fc.ThreeFields(n)
    a.set_pump(v[0]); a.set_sgnl(v[1]); a.set_idlr(v[2])
    equal(a.get_pump(), v[0], 'pump'); equal(a.get_sgnl(), v[1], 'signal'); equal(a.get_idlr(), v[2], 'idler')
    equal(a.get_all(), v[:3], 'all fields')
    c = a.create_copy()
    a.set_sgnl(v[3])
    equal(c.get_all(), v[:3], 'copied fields after the original was changed')
    c.set_idlr(v[3])
    equal(a.get_idlr(), v[2], 'idler after a copy was changed')
    equal(b.get_all(), np.zeros((3, n)), 'fields of another instance')
    bp = fc.beam_parameters(*p['w'])
    for i in range(3):
        for j in range(3):
            close(bp.calculate_overlap(i, j), (p['w'][i] + p['w'][j]) / 2, 1e-12, 0, 'mean waist of two beams')
    for bad in (('a', 0), (0, 1.0), (-1, 0), (0, 4)):
        try:
            bp.calculate_overlap(*bad)
        except (TypeError, ValueError):
            continue
        raise Violation('beam index %r accepted' % (bad,))


# ------------------------------------------------------------------ P26
_run = st.fixed_dictionaries(dict(seed=SEED, nsav=st.integers(1, 6), param=st.one_of(F(-1e3, 1e3), st.integers(-5, 5)), fp=F(190., 330.),
                                  n=st.sampled_from([8, 16, 24]), frep=st.one_of(st.none(), st.none(), logF(1., 1e4))))


@sub('P26', 'roundtrip', st.fixed_dictionaries(dict(
    groups=st.lists(st.tuples(st.sampled_from(['power', 'T', 'waist']), st.one_of(*[st.lists(_run, min_size=1, max_size=4)] * 5, st.lists(_run, min_size=11, max_size=14))), min_size=1, max_size=3),
    keep=st.booleans(), reads=st.lists(st.tuples(st.integers(0, 13), st.integers(-6, 6)), min_size=1, max_size=8), integ=st.booleans(), nxt=st.lists(st.one_of(st.none(), st.integers(-3, 3)), min_size=1, max_size=4),
    base=st.fixed_dictionaries(setup_strategy(ns=(8,), kinds=("wg",))))), quick=200, thorough=2500,
    fixed=[dict(groups=[['power', [dict(seed=1, nsav=3, param=1.5, fp=250., n=8), dict(seed=2, nsav=2, param=2.5, fp=250., n=16)]],
                        ['power', [dict(seed=3, nsav=1, param=4.5, fp=250., n=8)]]], keep=True, reads=[[0, 0], [0, 1], [1, 0]], integ=True, nxt=[None, 0],
                base=dict(n=8, fp=250., rs=.6, frac=.5, kind='wg', T=30., theta=.5, L=1e-3, waist=1e-4, Aeff=100., gouy=False, cache=False,
                          frep=80., pp=3e-5, seed=1)),
           dict(groups=[['T', [dict(seed=k, nsav=1, param=k * 1.0, fp=250., n=8) for k in range(13)]]], keep=True, reads=[[2, 0], [10, 0], [11, 1]], integ=False, nxt=[None, 0],
                base=dict(n=8, fp=250., rs=.6, frac=.5, kind='wg', T=30., theta=.5, L=1e-3, waist=1e-4, Aeff=100., gouy=False, cache=False,
                          frep=80., pp=3e-5, seed=1))],
    rule='runs written to HDF5 and read back; non-trivial with more than one run')
def roundtrip(p, ctx):
    from pynlo.interactions.ThreeWaveMixing.multi_run_rw import DFGReader, DFGWriter
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    import tables
    fn = os.path.join(os.environ['PBT_SCRATCH'], 'runs_%d.h5' % os.getpid())
    if os.path.exists(fn):
        os.unlink(fn)
    model = {}
    total = 0
    try:
        for name, runs in p['groups']:
            w = DFGWriter(fn, name)
            try:
                model[name] = []
                for r in runs:
                    q = dict(p['base'])
                    q.update(seed=r['seed'], fp=r['fp'], n=r['n'])
                    q['L'] = 2 * q['pp']
                    if r.get('frep'):
                        q['frep'] = r['frep']
                    s = Setup(q)
                    out = ode_solve.Output(r['nsav'])
                    y = s.random_state(r['seed'])
                    y *= min(1e-5, .03 / max(np.abs(y).max(), 1e-300))
                    o = ode_solve.ODEint(y, 0.0, s.L, 1e-4, 1e-4, s.L / 10, 0.0, out, dopr853.StepperDopr853, s.problem, dtype=np.complex128)
                    if p['integ'] and len(model[name]) in (0, 2):
                        o.integrate()
                    else:
                        for i in range(r['nsav'] + 1):
                            out.save(i * s.L / r['nsav'], s.random_state(r['seed'] + i))
                    w.add_run(s.problem, o, r['param'])
                    model[name].append((s, out.ysave[:out.count].copy(), r['param']))
                    total += 1
            finally:
                w.tables_file.close()
        ctx.trivial(total < 2)
        ctx.label('overwrite' if len(set(g[0] for g in p['groups'])) < len(p['groups']) else 'fresh')
        for name, runs in model.items():
            rd = DFGReader(fn, name)
            try:
                require(rd.run_ctr == len(runs), '%d runs stored, %r found', len(runs), rd.run_ctr)

                def check(got, k, z):
                    s, ys, _ = runs[k]
                    require(isinstance(got, tuple) and len(got) == 3, 'a run is not three pulses')
                    for j, pl in enumerate(got):
                        equal(pl.AW, ys[z][j * s.n:(j + 1) * s.n], 'field %d of run %d at save %d' % (j, k, z))
                        close(pl.center_wavelength_nm, C_NMPS / s.f[j], 1e-9, 0, 'center wavelength of field %d' % j)
                        close(pl.time_window_ps, s.Tw, 1e-9, 0, 'time window of field %d' % j)
                        close(pl.frep_MHz, s.p['frep'], 1e-9, 0, 'repetition rate of field %d' % j)
                        close(pl.W_mks, s.W[j], 1e-8, 0, 'grid of field %d' % j)
                for k, z in p['reads']:
                    if k >= len(runs):
                        for fnc in (rd.get_run, rd.get_run_param):
                            for bad in (len(runs), -1, k):
                                try:
                                    fnc(bad)
                                except IndexError:
                                    continue
                                raise Violation('run %d of %d accepted' % (bad, len(runs)))
                        continue
                    nz = len(runs[k][1])
                    z = max(-nz, min(nz - 1, z))
                    check(rd.get_run(k, z), k, z)
                    close(rd.get_run_param(k), float(runs[k][2]), 1e-15, 0, 'parameter of run %d' % k)
                check(rd.get_run(), len(runs) - 1, -1)
                close(rd.get_run_param(), float(runs[-1][2]), 1e-15, 0, 'parameter of the last run')
                for k in range(len(runs)):
                    z = p['nxt'][k % len(p['nxt'])]
                    if z is None:
                        check(rd.get_next_run(), k, -1)
                    else:
                        z = max(-len(runs[k][1]), min(len(runs[k][1]) - 1, z))
                        check(rd.get_next_run(z), k, z)
                require(rd.get_next_run() is None, 'a run beyond the last one is returned')
            finally:
                rd.tables_file.close()
    finally:
        tables.file._open_files.close_all()
        if os.path.exists(fn):
            os.unlink(fn)


# ------------------------------------------------------------------ P27
@sub('P27', 'poling', st.fixed_dictionaries(dict(
    kind=st.sampled_from(['scalar', 'tuple', 'chirp', 'function', 'default', 'steps']), p0=F(8e-6, 80e-6), p1=F(8e-6, 80e-6), ndom=st.one_of(F(.2, 120.), F(.2, 120.), F(120., 2500.)),
    walls=st.lists(st.tuples(F(0, 1), logF(1e-7, 1e-2), st.booleans()), max_size=3),
    us=st.lists(F(0, 1), min_size=1, max_size=12), order=st.booleans(), fp=F(190., 330.), rs=F(.53, .76), T=PPLN_T)), quick=600, thorough=15000,
    rule='sign of the nonlinearity, seen through the derivative, against domains laid out period by period')
def poling(p, ctx):
    from pynlo.media.crystals import PPLN
    from pynlo.interactions.ThreeWaveMixing import dfg_problem
    p0, p1 = p['p0'], p['p1']
    L = p['ndom'] * min(p0, p1)
    x = PPLN(p['T'], length=L)
    k = p['kind']
    if k == 'scalar':
        pp = lambda z: p0
        x.set_pp(p0)
    elif k == 'tuple':
        pp = lambda z: p0
        x.set_pp((p0, 1550.))
    elif k == 'chirp':
        pp = lambda z: p0 + (p1 - p0) * z / L
        x.set_pp_chirp(p0, p1)
    elif k == 'function':
        pp = lambda z: p0 + (p1 - p0) * np.sin(3 * z / L) ** 2
        x.set_pp(pp)
    elif k == 'steps':
        pp = lambda z: p0 if z < L / 2 else p1
        x.set_pp(pp)
    else:
        pp = lambda z: 30.49e-6
    n = 8
    fs = p['fp'] * p['rs']
    half = .2 * min(p['fp'] - fs, 2 * fs - p['fp'])
    g = lambda f: dict(N=n, Tw=n / 2 / half, wl=C_NMPS / f, frep=100.)
    aw = np.exp(1j * np.arange(n))
    pr = dfg_problem(make_pulse(g(p['fp']), aw=aw), make_pulse(g(fs), aw=aw), x, disable_SPM=True, wg_mode=True, Aeff_squm=100.)
    # domains: each period starts positive and is negative in its second half
    lb, ub, z = [], [], 0.0
    while z < L:
        d = pp(z)
        lb.append(z + d / 2)
        ub.append(z + d)
        z += d
    lb, ub = np.array(lb), np.array(ub)
    us = sorted(p['us']) if p['order'] else p['us']
    y = np.concatenate([aw, aw * (1 + 1j), aw * 2])
    from pynlo.media.crystals import PPLN as P2
    signs = set()
    zs = [u * L for u in us]
    for u, eps, up in p['walls']:
        # a step across a domain wall
        w = np.concatenate([lb, ub])
        w = w[w < L]
        if len(w):
            w = w[np.argmin(np.abs(w - u * L))]
            zs += [float(w + e * p0) for e in ((-eps, eps) if up else (eps, -eps))]
    for z in zs:
        i = int(np.searchsorted(ub, z))
        if z > L or i >= len(lb) or min(abs(z - lb[i]), abs(z - ub[i]), abs(z - (ub[i - 1] if i else 0.0))) < 1e-8 * p0 and z > 0:
            continue
        sgn = -1.0 if z > lb[i] else 1.0
        signs.add(sgn)
        require(pr.poling(z) == sgn, 'sign of the nonlinearity at z = %r is %r, expected %r', z, pr.poling(z), sgn)
        # through the equations: i * A_pump^* product sign
        d = np.zeros(3 * n, complex)
        pr.deriv(z, y, d)
        c = n // 2
        lam = [2e9 * np.pi * C / (gW(g(f)) * 1e12) for f in (p['fp'], fs, p['fp'] - fs)]
        kk = [x.n(l) * 2e9 * np.pi / l for l in lam]
        nn = [x.n(l) for l in lam]
        ac = [1 / np.sqrt(1e-10 * v * EPS0 * C) for v in nn]
        E = [ac[j] * y[j * n:(j + 1) * n] * np.exp(1j * kk[j] * z) for j in range(3)]
        acc = 0
        for js in range(n):
            ji = c + n // 2 - js
            if 0 <= ji < n:
                acc += E[1][js] * E[2][ji]
        e = sgn * 2j * gW(g(p['fp']))[c] * 1e12 * x.deff / (C * nn[0][c]) * acc * np.exp(-1j * kk[0][c] * z) / ac[0][c]
        close(d[c], e, 1e-6, 1e-9 * np.max(np.abs(d)), 'pump derivative at z = %r' % z)
    ctx.trivial(len(signs) < 2)
    ctx.label(k)


@sub('P27', 'unpoled', st.fixed_dictionaries(dict(us=st.lists(F(0, 1), min_size=1, max_size=4), **setup_strategy((8, 16), ('bpm',)))), quick=150,
     rule='a birefringent crystal has no domains: the equations with a positive nonlinearity everywhere')
def unpoled(p, ctx):
    s = Setup(p)
    for k, u in enumerate(p['us']):
        z = u * s.L
        y = s.random_state(p['seed'] + k)
        e = s.rhs(z, y)
        d = s.deriv(z, y)
        b = s.size(z, y)
        for i in range(3):
            close(d[i * s.n:(i + 1) * s.n], e[i * s.n:(i + 1) * s.n], 0, 1e-5 * b[i] + 1e-300, 'derivative of field %d at z = %r' % (i, z))
