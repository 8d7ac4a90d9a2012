"""P10-P12: fibers (dispersion, configuration and state, gain)."""
import json, os
from math import factorial
import numpy as np
from hypothesis import strategies as st
from util import *
from core import sub, Violation

# ------------------------------------------------------------------ shared
BETAS = st.one_of(st.lists(F(-1., 1.), min_size=1, max_size=7), st.lists(F(-1., 1.), min_size=8, max_size=14))
HALF = lambda g: np.pi * g['N'] / g['Tw']            # half-span of V, rad/ps


def phys_betas(rel, half, scale):
    """betas[n] such that each Taylor term at the grid edge is rel*scale."""
    return [r * scale * factorial(i + 2) / half ** (i + 2) for i, r in enumerate(rel)]


def taylor(betas, V):
    return sum(b / factorial(i + 2) * V ** (i + 2) for i, b in enumerate(betas))


def rezero(B, V):
    """Remove value and central-difference slope at the grid centre (V = 0)."""
    c = int(np.argmin(np.abs(V)))
    s = (B[c + 1] - B[c - 1]) / (V[c + 1] - V[c - 1])
    return B - B[c] - s * V


def new_fiber(betas, wl, length=1.0, gamma=0.0, gain=0.0, units='ps^n/m', label=None):
    from pynlo.media.fibers.fiber import FiberInstance
    f = FiberInstance()
    kw = {} if label is None else dict(label=label)
    f.generate_fiber(length, center_wl_nm=wl, betas=betas, gamma_W_m=gamma, gain=gain, gvd_units=units, **kw)
    return f


def write_db(fibers, name):
    d = os.path.join(os.environ['PBT_SCRATCH'], 'db_%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + '.txt'), 'w') as fh:
        json.dump(fibers, fh)
    return d


# ------------------------------------------------------------------ P10
@sub('P10', 'taylor', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 8)), rel=BETAS, scale=logF(1e-3, 1e4), doff=F(-.3, .3),
    units=st.sampled_from(['ps^n/m', 'ps^n/km', None]), kind=st.sampled_from(['list', 'tuple', 'array']),
    src=st.sampled_from(['gen', 'db']))), quick=1500, thorough=40000,
     fixed=[dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), rel=[.5, .2, -.1], scale=10., doff=.1, units='ps^n/km',
                 kind='list', src='db'),
            dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), rel=[.5, .2, -.1], scale=10., doff=.1, units='ps^n/m',
                 kind='list', src='db')],
     rule='coefficients about the fiber wavelength against the directly summed series')
def taylor_(p, ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    g = p['g']
    V = gV(g)
    half = HALF(g)
    f0 = C_NMPS / g['wl'] + p['doff'] * g['N'] / g['Tw']
    if f0 < 10:
        f0 = C_NMPS / g['wl']
    wlf = C_NMPS / f0
    bet = phys_betas(p['rel'], half, p['scale'])
    si = list(bet)
    if p['units'] == 'ps^n/km':
        bet = [b * 1e3 for b in bet]
    arg = {'list': list, 'tuple': tuple, 'array': np.array}[p['kind']](bet)
    q = make_pulse(g)
    if p['src'] == 'gen':
        f = FiberInstance()
        kw = {} if p['units'] is None else dict(gvd_units=p['units'])
        f.generate_fiber(1.5, center_wl_nm=wlf, betas=arg, gamma_W_m=.3, **kw)
    else:
        d = write_db({'x': dict(name='x', dispersion_format='GVD', dispersion_data=bet, gamma=.3, is_gain=False,
                                dispersion_gvd_units=p['units'] or 'ps^n/m', dispersion_gvd_center_wavelength=wlf),
                      'y': dict(name='y', dispersion_format='GVD', dispersion_data=[1.], gamma=.1, is_gain=False,
                                dispersion_gvd_units='ps^n/m', dispersion_gvd_center_wavelength=700.)}, 'tdb')
        f = FiberInstance(fiber_db='tdb', fiber_db_dir=d)
        f.load_from_db(1.5, 'x')
    full = taylor(si, gW(g) - 2 * np.pi * f0)
    exp = rezero(full, V)
    mag = np.sum([np.max(np.abs(b / factorial(i + 2) * (gW(g) - 2 * np.pi * f0) ** (i + 2))) for i, b in enumerate(si)])
    tol = 1e-7 * mag * 1.0
    for k in range(2):
        B = f.get_betas(q)
        close(B, exp, 0, tol, 'propagation constant (read %d)' % k)
        c = g['N'] // 2
        require(abs(B[c]) <= 1e-12 * mag, 'propagation constant at the pulse center is %g, not zero', B[c])
        B[:] = 5.0       # the caller's array now
    require(f.length == 1.5, 'fiber length')
    require(f.get_gamma() == .3 and f.get_gamma(z=.7) == .3, 'fiber gamma')
    if p['kind'] != 'tuple':
        require(list(arg) == bet, 'the caller\'s coefficients were changed')
    if isinstance(arg, np.ndarray) and p['src'] == 'gen':
        arg *= 3
        close(f.get_betas(q), exp, 0, tol, 'propagation constant after the caller changed his array')
    # second derivative and D follow
    if g['N'] >= 16 and p['scale'] > .1:
        b2 = f.Beta2(q)
        dV = 2 * np.pi / g['Tw']
        t2 = 8 * np.max(np.abs(exp)) * 1e-9 / dV ** 2 + 1e-7 * mag / dV ** 2
        ref = np.diff(full, 2) / dV ** 2
        close(arr(b2, (g['N'],), 'beta2')[1:-1], ref, 0, t2, 'second derivative of the propagation constant')
        wl = 2 * np.pi * C_NMPS / gW(g)
        close(f.Beta2_to_D(q), -2 * np.pi * C_NMPS / wl ** 2 * b2 * 1000, 1e-9, 0, 'D parameter')


@sub('P10', 'beta2_value', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 16), max_ratio=.5), b2=F(-1, 1), rel3=F(-1, 1))), quick=500,
     rule='beta2 and D of a fiber with known beta2, beta3 at every frequency')
def beta2_value(p, ctx):
    g = p['g']
    V = gV(g)
    half = HALF(g)
    b2, b3 = p['b2'], p['rel3'] / half
    f = new_fiber([b2, b3], g['wl'])
    q = make_pulse(g)
    exp = b2 + b3 * V
    m = abs(b2) + abs(b3) * half
    tol = m * (1e-9 + 1e-13 * (half * g['Tw']) ** 2)
    B2 = f.Beta2(q)
    close(B2[1:-1], exp[1:-1], 0, tol, 'beta2')
    close(B2[[0, -1]], exp[[1, -2]], 0, tol, 'beta2 at the edges')
    wl = 2 * np.pi * C_NMPS / gW(g)
    close(f.Beta2_to_D(q)[1:-1], (-2 * np.pi * C_NMPS / wl ** 2 * exp * 1000)[1:-1], 0,
          2 * np.pi * C_NMPS / np.min(wl) ** 2 * 1000 * tol, 'D in ps/nm/km')


@sub('P10', 'd_table', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 8), max_ratio=.5), rel=st.lists(F(-1, 1), min_size=1, max_size=8),
    scale=logF(1e-2, 1e3), npt=st.integers(25, 80), extra=st.integers(0, 1), order=st.booleans(),
    src=st.sampled_from(['table', 'list', 'file', 'loadfile', 'db', 'func', 'assign']), skip=st.integers(0, 8),
    diag=st.booleans())), quick=1200, thorough=30000,
     fixed=[dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), rel=[.5, .2, -.1], scale=10., npt=40, extra=0, order=True,
                 src=s, skip=1, diag=True) for s in ['table', 'list', 'file', 'loadfile', 'db', 'func', 'assign']],
     rule='D(wavelength) tables generated from known coefficients give those coefficients back')
def d_table(p, ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    from pynlo.media.fibers.calculators import DTabulationToBetas
    g = p['g']
    V = gV(g)
    half = HALF(g)
    bet = phys_betas(p['rel'], half, p['scale'])
    f0 = C_NMPS / g['wl']
    fr = np.linspace(f0 - .55 * g['N'] / g['Tw'], f0 + .55 * g['N'] / g['Tw'], p['npt'])
    wl = C_NMPS / fr
    dw = 2 * np.pi * (fr - f0)
    b2 = sum(b / factorial(i) * dw ** i for i, b in enumerate(bet))        # ps^2/m
    D = -2 * np.pi * C_NMPS / wl ** 2 * b2 * 1000.                        # ps/nm/km
    if p['order']:
        wl, D, b2, dw = wl[::-1], D[::-1], b2[::-1], dw[::-1]
    order = len(bet) - 1 + p['extra']
    exp = taylor(bet, V)
    mag = p['scale'] * len(bet) * 30
    full = np.array(bet + [0.0] * p['extra'])
    btol = np.array([1e-9 * mag * factorial(i + 2) / half ** (i + 2) for i in range(order + 1)])
    q = make_pulse(g)
    src = p['src']
    sc = os.environ['PBT_SCRATCH']
    fn = os.path.join(sc, 'dt_%d.csv' % os.getpid())
    # the wavelengths a text file holds are exact to 17 digits
    rows = '\n'.join('%.17g,%.17g' % t for t in zip(wl, D)) + '\n'
    if src in ('table', 'list', 'file'):
        tab = np.column_stack([wl, D])
        keep = tab.copy()
        if src == 'list':
            tab = tab.tolist()
        if src == 'file':
            open(fn, 'w').write('lambda,D\n' + rows)
            r = DTabulationToBetas(g['wl'], fn, order, return_diagnostics=p['diag'])
        else:
            r = DTabulationToBetas(g['wl'], tab, order, DDataIsFile=False, return_diagnostics=p['diag'])
            equal(np.array(tab), keep, 'the caller\'s table')
        if p['diag']:
            require(len(r) == 4, 'diagnostics have %d parts', len(r))
            close(r[1], dw, 1e-9, 1e-9 * half, 'fit axis')
            close(r[2], b2, 1e-9, 1e-12 * mag / half ** 2, 'tabulated beta2')
            close(r[3], b2, 1e-7, 1e-8 * mag / half ** 2, 'fitted beta2')
            r = r[0]
        r = arr(r, full.shape, 'coefficients')
        require(np.all(np.abs(r - full) <= btol), 'coefficients from the table: got %s, expected %s', r, full)
        return
    if src == 'loadfile':
        f = FiberInstance()
        open(fn, 'w').write('lambda;D\n' * (p['skip'] % 3) + '1550.0;17.0\n' * (p['skip'] // 3) + rows.replace(',', ';'))
        f.load_from_file(fn, length=.25, gamma_W_m=.02, skiprows=p['skip'] % 3 + p['skip'] // 3, delimiter=';', poly_order=order)
        require(f.length == .25 and f.get_gamma() == .02, 'length or gamma of a fiber loaded from file')
        require(f.fibertype == os.path.basename(fn), 'name of a fiber loaded from file')
        close(f.get_gain(q), np.zeros(g['N']), 0, 0, 'gain of a passive fiber loaded from file')
    elif src == 'db':
        d = write_db({'x': dict(name='x', dispersion_format='D', dispersion_x_data=list(wl), dispersion_y_data=list(D),
                                dispersion_x_units='nm', dispersion_y_units='ps/nm/km', gamma=.02, is_gain=False)}, 'tdb')
        f = FiberInstance(fiber_db='tdb', fiber_db_dir=d)
        f.load_from_db(.25, 'x', poly_order=order)
    elif src == 'func':
        f = new_fiber([1.0], 900.)
        f.poly_order = order
        f.set_dispersion_function(lambda z: (wl, D * (1 + z)), dispersion_format='D')
        close(f.get_betas(q, z=.5), 1.5 * exp, 0, 1e-9 * mag, 'propagation constant of a z-dependent D table')
    else:
        f = FiberInstance()
        open(fn, 'w').write(rows)
        f.load_from_file(fn, poly_order=order)
        f.x, f.y = list(wl), list(2 * D)
        close(f.get_betas(q), 2 * exp, 0, 1e-9 * mag, 'propagation constant after replacing the table')
        f.x, f.y = wl, D
    for k in range(2):
        close(f.get_betas(q), exp, 0, 1e-9 * mag, 'propagation constant of a D table')
    # the expansion is about the pulse: shift the pulse, same table
    df = .05 * g['N'] / g['Tw']
    g2 = dict(g, wl=C_NMPS / (f0 + df))
    sh = 2 * np.pi * df
    b2s = [sum(b * sh ** (i - k) / factorial(i - k) for i, b in enumerate(bet) if i >= k) for k in range(len(bet))]
    close(f.get_betas(make_pulse(g2)), taylor(b2s, V), 0, 1e-8 * mag, 'propagation constant for a shifted pulse')
    close(f.get_betas(q), exp, 0, 1e-9 * mag, 'propagation constant for the first pulse again')


@sub('P10', 'effective_index', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 16), max_ratio=.45), npt=st.integers(20, 400), a=st.lists(F(-1, 1), min_size=3, max_size=3),
    n0=F(1.2, 3.5))), quick=600,
     fixed=[dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), npt=300, a=[.1, .2, -.1], n0=1.45)],
     rule='propagation constant n(w) w / c of a smooth index, value and slope removed at the pulse center')
def effective_index(p, ctx):
    g = p['g']
    V, W = gV(g), gW(g)
    w0 = 2 * np.pi * C_NMPS / g['wl']
    half = HALF(g)
    x = lambda w: (w - w0) / half
    nfun = lambda w: p['n0'] + .02 * p['a'][0] * x(w) + .02 * p['a'][1] * x(w) ** 2 + .01 * p['a'][2] * np.sin(2 * x(w))
    ww = np.linspace(w0 - 1.1 * half, w0 + 1.1 * half, p['npt'])[::-1]
    wl = 2 * np.pi * C_NMPS / ww
    f = new_fiber([0.0], g['wl'])
    y = nfun(ww)
    seen = []

    def fun(z):
        seen.append(z)
        return wl, y + .1 * z
    f.set_dispersion_function(fun, dispersion_format='n')
    q = make_pulse(g)
    for z in (0, .5):
        exp = rezero((nfun(W) + .1 * z) * W * 1e12 / C, V)
        B = f.get_betas(q, z=z)
        # cubic-spline error on npt points and rounding of n w / c
        tol = W[-1] * 1e12 / C * (5e-6 * (20. / p['npt']) ** 3 + 1e-12 * g['N'])
        close(B, exp, 0, tol, 'propagation constant from the effective index at z=%g' % z)
    require(set(seen) == {0, .5}, 'index evaluated at z = %s', sorted(set(seen)))


@sub('P10', 'shipped_fiber', st.fixed_dictionaries(dict(
    n=st.sampled_from([64, 128, 512]), tw=F(1., 10.), wl=F(700., 1000.), length=logF(1e-3, 10.))), quick=200,
     rule='the fiber shipped in the default database (coefficients of Dudley, Genty and Coen 2006)')
def shipped_fiber(p, ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    g = dict(N=p['n'], Tw=max(p['tw'], p['n'] / 500.), wl=p['wl'], frep=100.)
    f = FiberInstance()
    f.load_from_db(p['length'], 'dudley')
    bet = [-11.830e-3, 8.1038e-5, -9.5205e-8, 2.0737e-10, -5.3943e-13, 1.3486e-15, -2.5495e-18, 3.0524e-21, -1.7140e-24]
    d = gW(g) - 2 * np.pi * C_NMPS / 835.
    full = taylor(bet, d)
    close(f.get_betas(make_pulse(g)), rezero(full, gV(g)), 1e-8,
          1e-8 * np.sum([np.max(np.abs(b / factorial(i + 2) * d ** (i + 2))) for i, b in enumerate(bet)]),
          'propagation constant of the shipped fiber')
    require(f.length == p['length'] and f.get_gamma() == .11, 'length or gamma of the shipped fiber')
    close(f.get_gain(make_pulse(g)), np.zeros(g['N']), 0, 0, 'gain of the shipped fiber')


# ------------------------------------------------------------------ P11
_fb = st.fixed_dictionaries(dict(rel=BETAS, wl=F(600., 2000.), length=logF(1e-3, 10), gamma=F(0, 2),
                                 gain=st.one_of(st.just(0.0), F(-2, 2)), km=st.booleans()))
_fop = st.one_of(
    st.tuples(st.just('generate'), st.integers(0, 2), _fb),
    st.tuples(st.just('db'), st.integers(0, 2), st.integers(0, 2), logF(1e-3, 10)),
    st.tuples(st.just('dfun'), st.integers(0, 2), F(-1, 1), BETAS),
    st.tuples(st.just('gfun'), st.integers(0, 2), F(-1, 1), F(0, 2)),
    st.tuples(st.just('read'), st.integers(0, 2), F(0, 3)),
    st.tuples(st.just('readg'), st.integers(0, 2), F(0, 3)),
    st.tuples(st.just('mutate'), st.integers(0, 2), F(-3, 3)),
)


@sub('P11', 'instances', st.fixed_dictionaries(dict(
    g=grid(st.sampled_from([16, 32]), max_ratio=.5), ops=st.lists(_fop, min_size=2, max_size=14))),
     quick=1500, thorough=40000,
     fixed=[dict(g=dict(N=16, Tw=1., wl=1000., frep=100.),
                 ops=[['generate', 0, dict(rel=[.5], wl=900., length=1., gamma=1., gain=0., km=False)],
                      ['generate', 1, dict(rel=[.1], wl=900., length=1., gamma=1., gain=1., km=False)],
                      ['db', 2, 1, 1.], ['readg', 0, 0.]]),
            # sharing of the spec dictionary between instances
            dict(g=dict(N=16, Tw=1., wl=1000., frep=100.),
                 ops=[['dfun', 0, .5, [.2]], ['db', 1, 0, 1.], ['read', 0, 1.]])],
     rule='several fibers reconfigured and read in turn; each must match its own model')
def instances(p, ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    g = p['g']
    V, W = gV(g), gW(g)
    half = HALF(g)
    q = make_pulse(g, at=np.ones(g['N']))
    dbf = {}
    for i, (b, u, gm, gn) in enumerate([([.3, .1], 'ps^n/m', .5, False), ([20., -3., 1.], 'ps^n/km', .25, False),
                                        ([-.1], 'ps^n/m', 1.5, False)]):
        dbf['f%d' % i] = dict(name='f', dispersion_format='GVD', dispersion_data=phys_betas(b, half, 5.), gamma=gm,
                              is_gain=gn, dispersion_gvd_units=u, dispersion_gvd_center_wavelength=g['wl'] * (1 + .01 * i))
    d = write_db(dbf, 'idb')
    fs = [FiberInstance(fiber_db='idb', fiber_db_dir=d) for _ in range(3)]
    ms = [None, None, None]
    nread = 0

    def model_B(m, z):
        b = m['betas'](z) if callable(m['betas']) else m['betas']
        return rezero(taylor(b, W - 2 * np.pi * C_NMPS / m['wl']), V), taylor(np.abs(b), np.abs(W - 2 * np.pi * C_NMPS / m['wl']))

    def check(i, z, what):
        m = ms[i]
        if m is None:
            return
        exp, mag = model_B(m, z)
        close(fs[i].get_betas(q, z=z), exp, 0, 1e-8 * np.max(mag), what + 'propagation constant of fiber %d at z=%g' % (i, z))
        require(fs[i].length == m['length'], what + 'length of fiber %d', i)
        close(fs[i].get_gamma(z=z), m['gamma'](z) if callable(m['gamma']) else m['gamma'], 1e-12, 0,
              what + 'gamma of fiber %d' % i)
        close(fs[i].get_gain(q), np.full(g['N'], m['gain']), 1e-12, 0, what + 'gain of fiber %d' % i)

    for k, op in enumerate(p['ops']):
        what = 'op %d (%s): ' % (k, op[0])
        i = op[1]
        f, m = fs[i], ms[i]
        if op[0] == 'generate':
            o = op[2]
            bet = phys_betas(o['rel'], half, 5.)
            dyn = m and callable(m['betas'])
            if dyn:
                # a fresh object: what a z-dependence does to a regenerated
                # fiber is not specified
                f = fs[i] = FiberInstance(fiber_db='idb', fiber_db_dir=d)
                m = None
            gdyn = m and callable(m['gamma'])
            arg = np.array(bet) * (1e3 if o['km'] else 1)
            f.generate_fiber(o['length'], center_wl_nm=o['wl'], betas=arg, gamma_W_m=o['gamma'], gain=o['gain'],
                             gvd_units='ps^n/km' if o['km'] else 'ps^n/m')
            arg[:] = 77.
            ms[i] = dict(betas=bet, wl=o['wl'], length=o['length'], gamma=m['gamma'] if gdyn else o['gamma'], gain=o['gain'])
        elif op[0] == 'db':
            if m and (callable(m['betas']) or callable(m['gamma'])):
                f = fs[i] = FiberInstance(fiber_db='idb', fiber_db_dir=d)
            nm = 'f%d' % op[2]
            e = dbf[nm]
            f.load_from_db(op[3], nm)
            s = 1e-3 if e['dispersion_gvd_units'] == 'ps^n/km' else 1
            ms[i] = dict(betas=[b * s for b in e['dispersion_data']], wl=e['dispersion_gvd_center_wavelength'],
                         length=op[3], gamma=e['gamma'], gain=0.0)
        elif op[0] == 'dfun':
            if m is None:
                continue
            base, sl = phys_betas(op[3], half, 5.), op[2]
            fn = lambda z, base=base, sl=sl: [b * (1 + sl * z) for b in base]
            f.set_dispersion_function(fn)
            m['betas'] = fn
        elif op[0] == 'gfun':
            if m is None:
                continue
            fn = lambda z, a=op[3], s=op[2]: a * (1 + s * z)
            f.set_gamma_function(fn)
            m['gamma'] = fn
        elif op[0] == 'mutate':
            if m is not None:
                B = f.get_betas(q, z=1.)
                B *= op[2]
                G = f.get_gain(q)
                G += op[2]
        elif op[0] == 'read':
            check(i, op[2], what)
            nread += 1
        else:
            for j in range(3):
                check(j, op[2], what)
    for j in range(3):
        for z in (1., 0.):
            check(j, z, 'at the end: ')
    ctx.trivial(sum(m is not None for m in ms) < 2)


_cfg = st.one_of(
    st.tuples(st.just('db'), st.integers(0, 4), st.one_of(st.none(), st.integers(1, 5)), logF(1e-2, 10)),
    st.tuples(st.just('file'), st.integers(0, 1), st.one_of(st.none(), st.integers(1, 5)), st.one_of(st.just(0.0), F(-2, 2)), logF(1e-2, 10)),
    st.tuples(st.just('gen'), BETAS, F(600., 2000.), st.one_of(st.just(0.0), F(-2, 2)), st.booleans(), F(0, 2)))


@sub('P11', 'reuse', st.fixed_dictionaries(dict(
    g=grid(st.sampled_from([16, 32, 64]), max_ratio=.4), cfgs=st.lists(_cfg, min_size=2, max_size=6), reads=st.lists(st.booleans(), min_size=6, max_size=6),
    D=st.lists(st.tuples(F(-50, 50), F(-1, 1), F(-1, 1), F(-1, 1)), min_size=4, max_size=4), P=logF(1e-2, 10.))), quick=500,
     fixed=[dict(g=dict(N=32, Tw=2., wl=1550., frep=100.), cfgs=[['db', 0, 4, 1.], ['db', 1, None, 1.], ['file', 0, None, 0., 1.], ['db', 0, None, .5]],
                 reads=[True] * 6, D=[[17., .5, .2, .3]] * 4, P=1.)],
     rule='a fiber object configured again and again is each time the fiber a new object would be')
def reuse(p, ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    g = p['g']
    V, W = gV(g), gW(g)
    wl = np.linspace(.97, 1.03, 40)
    wl = np.interp(wl, [.97, 1.03], [2 * np.pi * C_NMPS / W[-1] * .97, 2 * np.pi * C_NMPS / W[0] * 1.03])
    x = (wl - g['wl']) / (wl[-1] - wl[0]) * 2
    tabs = [a[0] * (1 + a[1] * x + a[2] * x ** 2 + a[3] * x ** 3) for a in p['D']]
    dD = lambda i: dict(name='d', dispersion_format='D', dispersion_x_data=list(wl), dispersion_y_data=list(tabs[i]),
                        dispersion_x_units='nm', dispersion_y_units='ps/nm/km')
    db = {'k0': dict(dD(0), gamma=.1, is_gain=False), 'k1': dict(dD(1), gamma=.2, is_gain=False),
          'k2': dict(name='x', dispersion_format='GVD', dispersion_data=[20., -.3], gamma=.3, is_gain=False,
                     dispersion_gvd_units='ps^n/km', dispersion_gvd_center_wavelength=g['wl']),
          'k3': dict(name='x', dispersion_format='GVD', dispersion_data=[-.02], gamma=.4, is_gain=False,
                     dispersion_gvd_units='ps^n/m', dispersion_gvd_center_wavelength=g['wl'] * 1.01),
          'k4': dict(dD(2), gamma=.5, is_gain=True, gain_x_units='m', gain_x_data=list(wl * 1e-9),
                     gain_y_data=list(1 + .5 * np.cos(3 * x)))}
    d = write_db(db, 'udb')
    fns = []
    for k in range(2):
        fn = os.path.join(os.environ['PBT_SCRATCH'], 'ru%d_%d.csv' % (k, os.getpid()))
        np.savetxt(fn, np.transpose([wl, tabs[3 - k]]), delimiter=',', fmt='%.17g')
        fns.append(fn)
    q = make_pulse(g, at=np.exp(-np.linspace(-4, 4, g['N']) ** 2))

    def conf(f, c):
        if c[0] == 'db':
            f.load_from_db(c[3], 'k%d' % c[1], **({} if c[2] is None else dict(poly_order=c[2])))
        elif c[0] == 'file':
            f.load_from_file(fns[c[1]], length=c[4], gain=c[3], gamma_W_m=.7, **({} if c[2] is None else dict(poly_order=c[2])))
        else:
            f.generate_fiber(c[5] + .1, center_wl_nm=c[2], betas=phys_betas(c[1], HALF(g), 5.), gamma_W_m=c[5], gain=c[3],
                             gvd_units='ps^n/km' if c[4] else 'ps^n/m')
    one = FiberInstance('udb', d)
    kinds = set()
    for k, c in enumerate(p['cfgs']):
        conf(one, c)
        kinds.add((c[0], c[1] if c[0] != 'gen' else 0, c[2] if c[0] != 'gen' else 0))
        if not (p['reads'][k % 6] or k == len(p['cfgs']) - 1):
            continue
        new = FiberInstance('udb', d)
        conf(new, c)
        what = ' of a fiber object configured %d times (last: %s)' % (k + 1, list(c[:3]))
        for r in range(2):
            equal(one.get_betas(q), new.get_betas(q), 'propagation constant' + what)
            close(one.get_gain(q, p['P']), new.get_gain(q, p['P']), 1e-9, 0, 'gain' + what)
        require(one.length == new.length and one.get_gamma(z=.3) == new.get_gamma(z=.3) and one.fibertype == new.fibertype,
                'length, nonlinearity or name' + what)
    ctx.trivial(len(kinds) < 2)


@sub('P11', 'database', st.fixed_dictionaries(dict(
    names=st.lists(st.text('abcXYZ012 _-+.', min_size=1, max_size=8), min_size=1, max_size=6, unique=True), pick=st.integers(0, 5), bad=st.text('abc', min_size=9, max_size=10),
    length=logF(1e-3, 1e3), order=st.integers(1, 6), gen=st.booleans(), gamma=F(0, 5), label=st.one_of(st.none(), st.just('my fiber')))), quick=200,
     rule='a database lists the fibers it holds, hands out the one asked for and refuses unknown names')
def database(p, ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    from pynlo.media.fibers.JSONFiberLoader import JSONFiberLoader
    db = {nm: dict(name=nm, dispersion_format='GVD', dispersion_data=[.1 * (i + 1), -.01 * i], gamma=.5 * i, is_gain=False,
                   dispersion_gvd_units='ps^n/m', dispersion_gvd_center_wavelength=1000. + i) for i, nm in enumerate(p['names'])}
    d = write_db(db, 'ldb')
    ld = JSONFiberLoader('ldb', d)
    ld.print_fiber_list()
    require(sorted(ld.fiber_names) == sorted(p['names']), 'fibers listed: %s, in the database: %s', ld.fiber_names, p['names'])
    for nm in p['names']:
        require(ld.get_fiber(nm) == db[nm], 'specification of %r', nm)
    i = p['pick'] % len(p['names'])
    nm = p['names'][i]
    g = dict(N=16, Tw=1., wl=1000. + i, frep=100.)
    f = FiberInstance('ldb', d)
    if p['gen']:
        f.generate_fiber(1.0, center_wl_nm=900., betas=[.3], gamma_W_m=9., gain=2.)
    f.load_from_db(p['length'], nm)
    require(f.fibertype == nm and f.length == p['length'], 'type %r and length %r of %r', f.fibertype, f.length, nm)
    require(f.gamma == .5 * i, 'nonlinear coefficient %r of %r', f.gamma, nm)
    q = make_pulse(g, at=np.ones(16))
    close(f.get_betas(q), rezero(taylor([.1 * (i + 1), -.01 * i], gV(g)), gV(g)), 1e-9, 1e-9, 'dispersion of %r' % nm)
    close(f.get_gain(q), np.zeros(16), 0, 0, 'gain of a fiber without gain')
    try:
        f.load_from_db(1.0, p['bad'])
    except (KeyError, ValueError, AttributeError, RuntimeError):
        pass
    else:
        raise Violation('unknown fiber %r was loaded' % p['bad'])
    require(f.fibertype == nm and f.length == p['length'] and f.gamma == .5 * i, 'fiber after a refused load: type %r, length %r, gamma %r', f.fibertype, f.length, f.gamma)
    close(f.get_betas(q), rezero(taylor([.1 * (i + 1), -.01 * i], gV(g)), gV(g)), 1e-9, 1e-9, 'dispersion after a refused load')
    # a named fiber from a file, and one named after its file
    fn = os.path.join(os.environ['PBT_SCRATCH'], 'nm_%d.csv' % os.getpid())
    open(fn, 'w').write('\n'.join('%g,%g' % (w, (w - 1300.) / 20) for w in range(500, 2000, 50)))
    txt = open(fn).read()
    hd = i % 4
    open(fn, 'w').write('1.0,2.0\n' * hd + txt)
    f.load_from_file(fn, length=p['length'], fiberName=p['label'], gamma_W_m=p['gamma'], poly_order=p['order'], skiprows=hd)
    open(fn, 'w').write(txt)
    h = FiberInstance()
    h.load_from_file(fn, poly_order=p['order'])
    equal(f.get_betas(q), h.get_betas(q), 'dispersion from a file with %d lines to skip' % hd)
    require(f.fibertype == (p['label'] or os.path.basename(fn)), 'fiber from a file is called %r', f.fibertype)
    require(f.length == p['length'] and f.gamma == p['gamma'] and f.get_gamma(z=1.) == p['gamma'], 'length %r, gamma %r', f.length, f.gamma)
    h = FiberInstance()
    h.load_from_file(fn)
    require(h.length == .1 and h.gamma == 0, 'defaults of a fiber from a file: length %r, gamma %r', h.length, h.gamma)


@sub('P11', 'pulse_untouched', st.fixed_dictionaries(dict(gf=grid_field(EVEN_N.filter(lambda n: n >= 8)), rel=BETAS)),
     quick=300, rule='reading a fiber leaves the pulse as it was')
def pulse_untouched(p, ctx):
    g = p['gf']['g']
    q = make_pulse(g, at=build_field(p['gf']['f'], g))
    s0 = pulse_state(q)
    f = new_fiber(phys_betas(p['rel'], HALF(g), 1.), g['wl'], gain=.5, gamma=1.)
    f.get_betas(q), f.get_gain(q), f.Beta2(q), f.Beta2_to_D(q), f.get_gamma(z=1.)
    same_state(pulse_state(q), s0, 'reading a fiber')
    g2 = dict(g, wl=g['wl'] * 1.02, Tw=g['Tw'] * 1.1)
    b1 = f.get_betas(q)
    f.get_betas(make_pulse(g2))
    equal(f.get_betas(q), b1, 'propagation constant after use with another pulse')


# ------------------------------------------------------------------ P12
@sub('P12', 'flat', st.fixed_dictionaries(dict(
    g=grid(), gain=st.one_of(st.just(0.0), F(-20, 20)), P=st.one_of(st.none(), logF(1e-3, 10)),
    src=st.sampled_from(['gen', 'file']))), quick=300,
     rule='scalar gain is flat over the grid and independent of the pulse')
def flat(p, ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    g = p['g']
    if p['src'] == 'gen':
        f = new_fiber([1.0], g['wl'], gain=p['gain'])
    else:
        fn = os.path.join(os.environ['PBT_SCRATCH'], 'gf_%d.csv' % os.getpid())
        open(fn, 'w').write('\n'.join('%g,%g' % (w, 1.0) for w in range(500, 2000, 50)))
        f = FiberInstance()
        f.load_from_file(fn, gain=p['gain'])
    for amp in (1.0, 5.0):
        q = make_pulse(g, at=amp * np.ones(g['N']))
        kw = {} if p['P'] is None else dict(output_power=p['P'])
        close(np.broadcast_to(f.get_gain(q, **kw), (g['N'],)), np.full(g['N'], p['gain']), 1e-12, 0, 'flat gain')


def gain_db(p, g, length):
    """Write a database with a gain spectrum; returns (fiber, shape on the grid)."""
    from pynlo.media.fibers.fiber import FiberInstance
    import scipy.interpolate
    f0 = C_NMPS / g['wl']
    span = g['N'] / g['Tw']
    fx = np.linspace(f0 + p['lo'] * span, f0 + p['hi'] * span, p['npt'])
    rng = np.random.RandomState(p['gseed'])
    y = .4 + .6 * np.exp(-((fx - fx.mean()) / (fx[-1] - fx[0]) * 4) ** 2) + .1 * rng.uniform(-1, 1, p['npt'])
    y = y * p['scale']
    x = C_NMPS / fx * 1e-9             # wavelength in m, descending
    x, y = x[::-1], y[::-1]
    d = write_db({'amp': dict(name='amp', dispersion_format='GVD', dispersion_data=[p.get('b2', 0.0)], gamma=p.get('gamma', 0.0),
                              is_gain=True, dispersion_gvd_units='ps^n/m', dispersion_gvd_center_wavelength=g['wl'],
                              gain_x_units='m', gain_x_data=list(x), gain_y_data=list(y))}, 'gdb')
    f = FiberInstance(fiber_db='gdb', fiber_db_dir=d)
    f.load_from_db(length, 'amp')
    F_ = gW(g) / (2 * np.pi)
    # natural reference: cubic spline through the table in frequency, zero outside
    sp = scipy.interpolate.CubicSpline(C * 1e-12 / x[::-1], y[::-1], bc_type='not-a-knot')
    inside = (F_ >= C * 1e-12 / x[-1]) & (F_ <= C * 1e-12 / x[0])
    edge = (np.abs(F_ - fx[0]) < 1e-9 * f0) | (np.abs(F_ - fx[-1]) < 1e-9 * f0)
    return f, np.where(inside, sp(F_), 0.0), edge


GAIN = dict(lo=F(-.45, -.2), hi=F(.2, .45), npt=st.integers(6, 30), gseed=SEED, scale=logF(.1, 10))


@sub('P12', 'spectral', st.fixed_dictionaries(dict(
    g=grid(st.sampled_from([32, 64, 128]), max_ratio=.5), seed=SEED, length=st.one_of(logF(.01, 5), logF(1e-3, 1e3)), ratio=logF(.2, 50),
    Pin=st.one_of(logF(1e-4, .1), logF(1e-9, 1e3)), **GAIN)), quick=500, thorough=10000,
     fixed=[dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), seed=1, length=1., ratio=10., Pin=.01, lo=-.3, hi=.3, npt=10,
                 gseed=1, scale=1.),
            # total gain of the table far from one
            dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), seed=1, length=100., ratio=1., Pin=.1, lo=-.3, hi=.3, npt=10,
                 gseed=1, scale=1.),
            dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), seed=1, length=1e-3, ratio=20., Pin=1e-8, lo=-.3, hi=.3, npt=10,
                 gseed=1, scale=.1)],
     rule='tabulated gain: spline shape, zero outside the table, scaled to the requested linear output power')
def spectral(p, ctx):
    g = p['g']
    f, shape, edge = gain_db(p, g, p['length'])
    if np.any(edge):
        ctx.trivial()
        return
    at = np.exp(-(gT(g) / g['Tw'] * 10) ** 2) * (1 + .3j)
    q = make_pulse(g, at=at)
    q.set_epp(p['Pin'] / (g['frep'] * 1e6))
    aw = q.AW
    G = arr(f.get_gain(q, output_power=p['Pin'] * p['ratio']), shape.shape, 'gain')
    require(np.all(G[shape == 0] == 0), 'gain outside the tabulated range')
    k = np.dot(G, shape) / np.dot(shape, shape)
    close(G, k * shape, 1e-6, 1e-7 * np.max(np.abs(k * shape)), 'gain spectrum shape')
    out = np.sum(np.abs(idft(aw * np.exp(G * p['length'] / 2))) ** 2) * g['Tw'] / g['N'] * 1e-12 * g['frep'] * 1e6
    close(out, p["Pin"] * p["ratio"], 2e-2, 0, 'linear output power of the amplifier')
    # absorbing or amplifying as requested
    require((k > 0) == (p['ratio'] > 1) or abs(p['ratio'] - 1) < .01, 'sign of the gain')
