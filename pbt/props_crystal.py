"""P28-P29: nonlinear crystals (refractive index, phase matching)."""
import copy
import numpy as np
from hypothesis import strategies as st
from util import *
from core import sub, Violation


# published Sellmeier equations, written out again ------------------------
def n_gayer(l, T):
    """5% MgO:LiNbO3, extraordinary (Gayer et al. 2008); l in um."""
    f = (T - 24.5) * (T + 570.82)
    return np.sqrt(5.756 + 2.860e-6 * f + (.0983 + 4.700e-8 * f) / (l ** 2 - (.2020 + 6.113e-8 * f) ** 2)
                   + (189.32 + 1.516e-4 * f) / (l ** 2 - 12.52 ** 2) - 1.32e-2 * l ** 2)


def n_deng(l, T):
    """LiNbO3, extraordinary (Deng et al. 2006)."""
    f = (T - 24.5) * (T + 570.82)
    return np.sqrt(5.39121 + 4.96827e-7 * f + (.100473 + 3.862e-8 * f) / (l ** 2 - (.20692 - .89e-8 * f) ** 2)
                   + (100.0 + 2.657e-5 * f) / (l ** 2 - 11.34927 ** 2) - (1.544e-2 + 9.62119e-10 * f) * l ** 2)


def n_gase_o(l):
    return np.sqrt(6.849065 + .417863 / (l ** 1.970203 - .178080) + .000442 / (l ** .340086 - .889242) + 1.209374 / (1 - 915.345 / l ** 1.921292))


def n_gase_e(l):
    return np.sqrt(6.675232 + .436579 / (l ** 1.893694 - .229775) + .012063 / (l ** 4.269152 - .213957) + 3.252722 / (1 - 3129.32 / l ** 2.047204))


def n_gas_o(l):
    return np.sqrt(5.814100 + .0867547 / (l ** 3.156983 - .0356502) + .0821721 / (l ** 4.430430 + .315646) + .506566 / (l ** 6.604280 + 6.582197)
                   + 176380.0 / (1 - 112586195.0 / l ** 2.225043))


def n_gas_e(l):
    return np.sqrt(5.530050 + .0510941 / (l ** 2.359877 - .141109) + .195314 / (l ** 2.566664 + .0910735)
                   + 4253.78 / (1 - 4304924.0 / l ** 2.383834))


def mixn(no, ne, th):
    return 1 / np.sqrt(np.sin(th) ** 2 / ne ** 2 + np.cos(th) ** 2 / no ** 2)


class Model:
    """Index of one crystal in its present state; wavelength in nm."""
    def __init__(self, kind, T=None, theta=None, src='Gayer_5pctMg'):
        self.kind, self.T, self.theta, self.src = kind, T, theta, src

    def n(self, wl, axis=None):
        l = wl * 1e-3
        if self.kind == 'ppln':
            return (n_gayer if self.src == 'Gayer_5pctMg' else n_deng)(l, self.T)
        o, e = (n_gase_o, n_gase_e) if self.kind == 'gase' else (n_gas_o, n_gas_e)
        if axis in (None, 'mix'):
            return mixn(o(l), e(l), self.theta)
        return o(l) if axis == 'o' else e(l)

    def range(self):
        return dict(ppln=(500., 5000.), gase=(1300., 12000.), gas=(700., 10000.))[self.kind]

    def dn(self, wl, axis=None):
        """dn/dlambda in 1/nm by the complex step."""
        h = 1e-20
        return np.imag(self.n(wl + 1j * h, axis)) / h

    def d2n(self, wl, axis=None):
        h = 1.0
        c = (1 / 280., -4 / 105., 1 / 5., -4 / 5., 0, 4 / 5., -1 / 5., 4 / 105., -1 / 280.)
        return sum(q * self.dn(wl + k * h, axis) for k, q in zip(range(-4, 5), c)) / h


def build(kind, T, theta, L, cache=None):
    from pynlo.media.crystals import PPLN, AgGaSe2
    from pynlo.media.crystals import XTAL_AgGaS
    kw = {} if cache is None else dict(enable_caching=cache)
    if L is not None:
        kw['length'] = L
    if kind == 'ppln':
        return PPLN(T, **kw), Model(kind, T=T)
    return (AgGaSe2 if kind == 'gase' else XTAL_AgGaS.AgGaSe2)(theta, **kw), Model(kind, theta=theta)


# nonlinear coefficients (SNLO), m/V
DEFF = dict(ppln=14.9e-12, gase=28.5e-12, gas=8.69e-12)

KIND = st.sampled_from(['ppln', 'ppln', 'gase', 'gas'])
STATE = dict(kind=KIND, T=F(15., 220.), theta=F(0., 1.57), L=logF(1e-4, .1))


# ------------------------------------------------------------------ P28
@sub('P28', 'index', st.fixed_dictionaries(dict(us=st.lists(F(0, 1), min_size=1, max_size=8), deng=st.booleans(), T2=F(15., 220.), th2=F(0., 1.57),
                                                scalar=st.booleans(), **STATE)), quick=800, thorough=20000,
     rule='indices against the published equations, before and after a change of temperature, source or angle')
def index(p, ctx):
    x, m = build(p['kind'], p['T'], p['theta'], p['L'])
    lo, hi = m.range()
    wl = lo + (hi - lo) * np.array(p['us'])
    w0 = wl.copy()
    axes = [None] if p['kind'] == 'ppln' else ['o', 'e', 'mix', None]
    close(x.deff, DEFF[p['kind']], 1e-12, 0, 'nonlinear coefficient')
    close(x.length_mks, p['L'], 0, 0, 'length')

    def check(what):
        for a in axes:
            e = m.n(w0, a)
            kw = {} if a is None else dict(axis=a)
            got = x.n(wl, **kw)
            close(got, e, 1e-11, 0, 'index %s along %s' % (what, a))
            if p['scalar']:
                close(x.n(float(w0[0]), **kw), e[0], 1e-11, 0, 'index of a single wavelength')
        equal(wl, w0, 'wavelengths handed to the index')
    check('as built')
    if p['kind'] == 'ppln':
        x.set_T(p['T2'])
        m.T = p['T2']
        check('after a temperature change')
        if p['deng']:
            x.load(p['T'], 'Deng')
            m.T, m.src = p['T'], 'Deng'
            check('from the other source')
            x.set_T(p['T2'])
            m.T = p['T2']
            check('from the other source after a temperature change')
    else:
        o, e, mx = x.n(wl, 'o'), x.n(wl, 'e'), x.n(wl, 'mix')
        require(np.all(mx >= np.minimum(o, e) * (1 - 1e-12)) and np.all(mx <= np.maximum(o, e) * (1 + 1e-12)), 'mixed index is not between the axes')
        x.set_theta(p['th2'])
        m.theta = p['th2']
        check('after turning the crystal')
        try:
            x.n(wl, 'q')
        except ValueError:
            pass
        else:
            raise Violation('unknown axis accepted')
    close(x.length_mks, p['L'], 1e-15, 0, 'length')
    close(x.length_nm, p['L'] * 1e9, 1e-14, 0, 'length in nm')
    y, _ = build(p['kind'], p['T'], p['theta'], None)
    close(y.length_mks, 1.0, 0, 0, 'default length')


@sub('P28', 'dispersion', st.fixed_dictionaries(dict(us=st.lists(F(.02, .98), min_size=1, max_size=5), axis=st.sampled_from(['o', 'e', 'mix']), u2=F(.02, .98),
                                                     own=st.booleans(), **STATE)), quick=800, thorough=20000,
     rule='group velocity, delay and D against derivatives of the published index (complex step)')
def dispersion(p, ctx):
    x, m = build(p['kind'], p['T'], p['theta'], p['L'])
    lo, hi = m.range()
    wl = lo + (hi - lo) * np.array(p['us'])
    ax = None if p['kind'] == 'ppln' else p['axis']
    vg = lambda w: C_NMPS / (m.n(w, ax) - w * m.dn(w, ax))
    close(x.calculate_group_velocity_nm_ps(wl, ax), vg(wl), 1e-8, 0, 'group velocity')
    w1, w2 = float(wl[0]), float(lo + (hi - lo) * p['u2'])
    close(x.calculate_group_velocity_nm_ps(w1, ax), vg(w1), 1e-8, 0, 'group velocity of one wavelength')
    d = 1 / vg(w1) - 1 / vg(w2)
    L = p['L']
    close(x.calculate_pulse_delay_ps(w1, w2, axis=ax), d * L * 1e9, 1e-7, 2e-8 * L * 1e9 / vg(w1), 'delay over the crystal')
    close(x.calculate_pulse_delay_ps(w1, w2, .0123, axis=ax), d * .0123e9, 1e-7, 2e-8 * .0123e9 / vg(w1), 'delay over a given length')
    D = -wl / C_NMPS * m.d2n(wl, ax) * 1e12
    atol = np.max(wl) / C_NMPS * 1e12 * 1.5e-12
    close(x.calculate_D_ps_nm_km(wl, ax), D, 1e-5, atol, 'D parameter')
    close(x.calculate_D_fs_um_mm(wl, ax), D, 1e-5, atol, 'D parameter in fs/um/mm')
    ctx.trivial(np.max(np.abs(D)) < 3 * atol)


_xop = st.one_of(
    st.tuples(st.just('T'), st.integers(0, 2), F(15., 220.)), st.tuples(st.just('theta'), st.integers(0, 2), F(0., 1.57)),
    st.tuples(st.just('load'), st.integers(0, 2), F(15., 220.)), st.tuples(st.just('cache'), st.integers(0, 2), st.booleans()),
    st.tuples(st.just('wl'), st.integers(0, 1), F(1500., 3000.)), st.tuples(st.just('tw'), st.integers(0, 1), F(2., 4.)),
    st.tuples(st.just('npts'), st.integers(0, 1), st.sampled_from([8, 16, 32])),
    st.tuples(st.just('copy'), st.integers(0, 2), st.integers(0, 2)), st.tuples(st.just('prop'), st.integers(0, 2), logF(.1, 10)),
    st.tuples(st.just('newpulse'), st.integers(0, 1), F(1500., 3000.)),
    # changes so small that something might take them for none
    st.tuples(st.sampled_from(['T+', 'theta+']), st.integers(0, 2), st.tuples(logF(1e-4, .5), st.sampled_from([-1, 1])).map(lambda x: x[0] * x[1])),
    st.tuples(st.sampled_from(['wl+', 'tw+']), st.integers(0, 1), logF(1e-7, 1e-2)),
    *[st.tuples(st.sampled_from(['read_n', 'read_k', 'poke']), st.integers(0, 2), st.tuples(st.integers(0, 1), st.sampled_from([None, 'o', 'e', 'mix'])))] * 4)


@sub('P28', 'histories', st.fixed_dictionaries(dict(kinds=st.tuples(KIND, KIND, KIND), cache=st.sampled_from([[True] * 3] * 3 + [[True, True, False], [False] * 3]),
                                                    T=F(15., 220.), theta=F(0., 1.57), ops=st.lists(_xop, min_size=6, max_size=30))), quick=1500, thorough=40000,
     fixed=[dict(kinds=['ppln', 'gase', 'gase'], cache=[True, True, True], T=30., theta=.5, ops=[
         ['read_n', 0, [0, None]], ['read_n', 1, [0, None]], ['T', 0, 100.], ['read_n', 0, [0, None]], ['wl', 0, 2500.], ['read_n', 0, [0, None]],
         ['theta', 1, 1.0], ['read_n', 1, [0, 'mix']], ['poke', 0, [0, None]], ['read_k', 0, [0, None]], ['read_n', 2, [0, 'o']], ['load', 0, 50.],
         ['read_n', 0, [0, None]], ['prop', 0, 2.], ['tw', 0, 3.], ['read_n', 0, [0, None]]])] + [
         dict(kinds=[k, k, 'gas' if k == 'gase' else 'gase'], cache=[True] * 3, T=30., theta=.7, ops=[['read_n', i, [0, a]] for i in range(3) for a in o] + [['theta', 1, .2]] + [['read_k', 1, [0, a]] for a in o])
         for k in ('gas', 'gase') for o in (('o', None, 'e', 'mix'), ('e', None, 'o', 'mix'), (None, 'mix', 'o', 'e'), ('mix', 'e', None, 'o'))],
     rule='index and wave number on pulse grids for several crystals and pulses whose states change; non-trivial when something changes between reads with caching on')
def histories(p, ctx):
    xs, ms = [], []
    for k, c in zip(p['kinds'], p['cache']):
        x, m = build(k, p['T'], p['theta'], .01, c)
        xs.append(x)
        ms.append(m)
    caching = list(p['cache'])
    props = [4.0 if k == 'ppln' else 1.0 for k in p['kinds']]
    gs = [dict(N=16, Tw=3., wl=2000., frep=100.), dict(N=16, Tw=3., wl=2400., frep=100.)]
    pulses = [make_pulse(g) for g in gs]
    reads = changed = 0
    for op, i, v in p['ops']:
        if op[-1] == '+':
            op = op[:-1]
            v = {'T': lambda: ms[i].T + v, 'theta': lambda: ms[i].theta + v * .3, 'wl': lambda: gs[i]['wl'] * (1 + v),
                 'tw': lambda: gs[i]['Tw'] * (1 + v)}[op]() if op in ('wl', 'tw') or getattr(ms[i], op) is not None else 0.
        if op == 'T' and ms[i].kind == 'ppln':
            xs[i].set_T(v)
            ms[i].T = v
            changed += reads > 0
        elif op == 'load' and ms[i].kind == 'ppln':
            src = 'Deng' if ms[i].src != 'Deng' else 'Gayer_5pctMg'
            xs[i].load(v, src)
            ms[i].T, ms[i].src = v, src
            changed += reads > 0
            props[i] = 4.0
        elif op == 'theta' and ms[i].kind != 'ppln':
            xs[i].set_theta(v)
            ms[i].theta = v
            changed += reads > 0
        elif op == 'cache':
            xs[i].set_caching(v)
            caching[i] = v
        elif op == 'wl':
            pulses[i].set_center_wavelength_nm(v)
            gs[i]['wl'] = v
            changed += reads > 0
        elif op == 'tw':
            pulses[i].set_time_window_ps(v)
            gs[i]['Tw'] = v
            changed += reads > 0
        elif op == 'npts':
            pulses[i].set_NPTS(v)
            gs[i]['N'] = v
            changed += reads > 0
        elif op == 'newpulse':
            gs[i] = dict(gs[i], wl=v)
            pulses[i] = make_pulse(gs[i])
        elif op == 'copy' and i != v:
            xs[i] = copy.deepcopy(xs[v])
            ms[i] = copy.copy(ms[v])
            caching[i], props[i] = caching[v], props[v]
        elif op == 'prop':
            d = getattr(xs[i], '_crystal_properties', None)      # the table subclasses fill in
            if isinstance(d, dict) and 'damage_threshold_GW_per_sqcm' in d:
                d['damage_threshold_GW_per_sqcm'] = v
                props[i] = v
        elif op in ('read_n', 'read_k', 'poke'):
            j, ax = v
            ax = None if ms[i].kind == 'ppln' else ax
            wl = 2e9 * np.pi * C / (gW(gs[j]) * 1e12)
            if np.any(wl < 0):
                continue
            e = ms[i].n(wl, ax)
            kw = {} if ax is None else dict(axis=ax)
            reads += caching[i]
            if op == 'read_k':
                close(xs[i].get_pulse_k(pulses[j], **kw), e * 2e9 * np.pi / wl, 1e-10, 0, 'wave number of crystal %d (%s) on pulse %d' % (i, ms[i].kind, j))
            else:
                r = xs[i].get_pulse_n(pulses[j], **kw)
                close(r, e, 1e-10, 0, 'index of crystal %d (%s) on pulse %d' % (i, ms[i].kind, j))
                if op == 'poke':
                    r[...] = 77.0
        for k in range(3):
            close(xs[k].damage_threshold_mks, props[k] * 1e13, 1e-12, 0, 'damage threshold of crystal %d' % k)
    ctx.trivial(changed == 0)


# ------------------------------------------------------------------ P29
@sub('P29', 'poling_period', st.fixed_dictionaries(dict(pump=F(600., 1600.), r=F(.2, .8), T=F(15., 220.), L=st.one_of(st.none(), logF(1e-4, .1)),
                                                        miss=st.sampled_from(['pump', 'sgnl', 'idlr', 'none', 'detuned']), dkl=st.one_of(st.none(), F(-5., 5.)),
                                                        deng=st.booleans(), silent=st.booleans(), det=F(-.02, .02))), quick=1000, thorough=20000,
     rule='mismatch of the three waves equals that of the grating plus the requested phase over the crystal')
def poling_period(p, ctx):
    from pynlo.media.crystals import PPLN
    x = PPLN(p['T'], length=p['L'])
    m = Model('ppln', T=p['T'])
    if p['deng']:
        x.load(p['T'], 'Deng')
        m.src = 'Deng'
    wp = p['pump']
    ws = wp / p['r']
    wi = 1 / (1 / wp - 1 / ws)
    if max(ws, wi) > 5200.:
        ctx.trivial()
        return
    a = [wp, ws, wi]
    if p['miss'] == 'detuned':
        a[2] = wi * (1 + p['det'])
    if p['miss'] in ('pump', 'sgnl', 'idlr'):
        a[('pump', 'sgnl', 'idlr').index(p['miss'])] = None
    kw = dict(silent=p['silent'])
    if p['dkl'] is not None:
        kw['delta_k_L'] = p['dkl']
    r = x.calculate_poling_period(*a, **kw)
    if p['miss'] in ('pump', 'sgnl', 'idlr'):
        require(isinstance(r, tuple) and len(r) == 2, 'period and wavelength expected, got %r', r)
        full = (wp, ws, wi)[('pump', 'sgnl', 'idlr').index(p['miss'])]
        close(r[1], full, 1e-9, 0, 'wavelength found from energy conservation')
        per = r[0]
    else:
        per = r
    w = [q if q is not None else f for q, f in zip(a, (wp, ws, wi))]
    k = [2e9 * np.pi * m.n(q) / q for q in w]
    dk = k[0] - k[1] - k[2]
    off = 0.0 if p['L'] is None else (3.2 if p['dkl'] is None else p['dkl']) / p['L']
    close(2 * np.pi / arr(per, (), 'period'), dk - off, 1e-8, 1e-10 * k[0], 'grating vector')
    if p['L'] is not None:
        x.set_pp(per)
        close(x.pp(0.3 * p['L']), per, 1e-15, 0, 'period in use')
        if p['miss'] in ('pump', 'sgnl', 'idlr'):
            x.set_pp(r)
            close(x.pp(0.9 * p['L']), per, 1e-15, 0, 'period in use')


@sub('P29', 'inversion', st.fixed_dictionaries(dict(pump=F(1000., 1085.), u=F(0., 1.), T=F(20., 200.), L=logF(1e-3, .1))), quick=300, thorough=6000,
     rule='the signal wavelength found for a grating is phase matched by that grating (pumps whose tuning curve is monotonic)')
def inversion(p, ctx):
    from pynlo.media.crystals import PPLN
    x = PPLN(p['T'], length=p['L'])
    m = Model('ppln', T=p['T'])
    wp = p['pump']
    # signals whose idler is transparent and that lie below degeneracy
    lo = 1 / (1 / wp - 1 / 4500.)
    hi = 1.9 * wp
    ws = lo + (hi - lo) * p['u']

    def kg(s):
        i = 1 / (1 / wp - 1 / s)
        return 2e9 * np.pi * (m.n(wp) / wp - m.n(s) / s - m.n(i) / i) - 3.2 / p['L']
    per = 2 * np.pi / kg(ws)
    r = x.invert_dfg_qpm_to_signal_wl(wp, per, max_signal_wl_nm=hi)
    r = arr(r, (), 'signal wavelength')
    require(lo * .9 <= r <= hi, 'signal wavelength %r is outside the searched range', r)
    close(2 * np.pi / kg(float(r)), per, 2e-4, 0, 'period that phase matches the signal found (%.6g for %.6g)' % (r, ws))


@sub('P29', 'angle', st.fixed_dictionaries(dict(kind=st.sampled_from(['gase', 'gas']), pump=F(0., 1.), r=F(.1, .9), miss=st.sampled_from(['pump', 'sgnl', 'idlr', 'none']),
                                                ret=st.booleans(), th=F(0., 1.5))), quick=1000, thorough=20000,
     rule='angle found iff the ordinary and extraordinary indices bracket the one needed; non-trivial when found')
def angle(p, ctx):
    x, m = build(p['kind'], 0, p['th'], .01)
    lo, hi = m.range()
    wp = 720. + p['pump'] ** 3 * 8000.          # (the ordinary and extraordinary index of AgGaSe2 cross near 810 nm)
    ws = wp / p['r']
    wi = 1 / (1 / wp - 1 / ws)
    if max(ws, wi) > hi * 1.4:
        ctx.trivial()
        return
    a = [wp, ws, wi]
    j = ('pump', 'sgnl', 'idlr', 'none').index(p['miss'])
    if j < 3:
        a[j] = None
    need = wp * (m.n(ws, 'o') / ws + m.n(wi, 'o') / wi)
    no, ne = m.n(wp, 'o'), m.n(wp, 'e')
    lo_, hi_ = min(no, ne), max(no, ne)
    if not np.isfinite(no * ne * need):
        ctx.trivial()
        return
    if min(abs(need - no), abs(need - ne)) < 1e-9:
        ctx.trivial()
        return
    possible = lo_ < need < hi_
    try:
        r = x.phasematch(*a, return_wavelength=p['ret'])
    except AttributeError as e:
        require(not possible, 'no phase matching found although the index needed, %r, is between %r and %r', need, lo_, hi_)
        ctx.trivial()
        return
    require(possible, 'an angle %r is returned although the index needed, %r, is not between %r and %r', r, need, lo_, hi_)
    if p['ret'] and j < 3:
        require(isinstance(r, tuple) and len(r) == 2, 'angle and wavelength expected, got %r', r)
        close(r[1], (wp, ws, wi)[j], 1e-9, 0, 'wavelength found from energy conservation')
        r = r[0]
    r = float(arr(r, (), 'angle'))
    require(0 <= r <= np.pi / 2, 'angle %r', r)
    close(mixn(no, ne, r), need, 1e-9, 0, 'index at the phase-matching angle')
    x.set_theta(r)
    close(x.n(wp, 'mix') / wp, x.n(ws, 'o') / ws + x.n(wi, 'o') / wi, 1e-9, 0, 'momentum balance after turning the crystal')


@sub('P29', 'bandwidth', st.fixed_dictionaries(dict(kind=KIND, T=F(15., 220.), theta=F(0., 1.57), up=F(0, 1), rs=st.lists(F(.25, .75), min_size=1, max_size=5),
                                                    axis=st.sampled_from(['o', 'e', 'mix']), scalar=st.booleans())), quick=500, thorough=10000,
     rule='smaller of the two acceptance bandwidths from the group velocities')
def bandwidth(p, ctx):
    x, m = build(p['kind'], p['T'], p['theta'], .01)
    lo, hi = m.range()
    ax = None if p['kind'] == 'ppln' else p['axis']
    wp = lo + p['up'] * (hi / 4.5 - lo) if hi / 4.5 > lo else lo
    ws = wp / np.array(p['rs'])
    wi = 1 / (1 / wp - 1 / ws)
    sl = lambda w: (m.n(w, ax) - w * m.dn(w, ax)) / C            # 1/vg, s/m
    d1, d2 = sl(ws) - sl(wp), sl(wi) - sl(wp)
    e = np.minimum(np.abs(.886 * np.pi / d1), np.abs(.886 * np.pi / d2)) / C
    d = np.maximum(np.abs(d1), np.abs(d2))
    ok = d > 1e-4 / C
    if not np.any(ok):
        ctx.trivial()
        return
    if p['scalar']:
        i = int(np.argmax(ok))
        close(x.calculate_mix_phasematching_bw(wp, float(ws[i]), ax), e[i], 1e-3, 0, 'bandwidth')
    r = arr(x.calculate_mix_phasematching_bw(wp, ws, ax), e.shape, 'bandwidth')
    close(r[ok], e[ok], 1e-3, 0, 'bandwidths')
