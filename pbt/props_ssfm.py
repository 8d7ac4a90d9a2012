"""P13-P20: propagation by the split-step solver."""
import os
from math import factorial
import numpy as np
from hypothesis import strategies as st
from util import *
from core import sub, Violation
from props_fiber import phys_betas, taylor, rezero, new_fiber, HALF, BETAS, gain_db, GAIN, write_db

C64 = 3e-6          # results columns are single precision


def ssfm(**kw):
    from pynlo.interactions.FourWaveMixing.SSFM import SSFM
    return SSFM(**kw)


METHOD = st.sampled_from([None, None, 'SSFM', 'RK4IP'])


def set_method(s, name, eta=None):
    if name is not None:
        s.method = getattr(type(s), 'METHOD_' + name)
    if eta is not None:
        s.eta = eta


def fiber_B(g, bet, wl):
    return rezero(taylor(bet, gW(g) - 2 * np.pi * C_NMPS / wl), gV(g))


# ------------------------------------------------------------ reference
def raman_response(g, kind, f_R=.18, tau1=.0122, tau2=.032):
    """1 - f + f h(V) on the unshifted grid, h normalised to one."""
    if kind == 'off':
        return 1.0
    T, dT = gT(g), g['Tw'] / g['N']
    tp = np.where(T < -1e-9 * dT, 0, np.abs(T))
    if kind == 'simple':
        h = np.exp(-tp / tau2) * np.sin(tp / tau1)
    else:
        taub, f_R = .096, .245
        h = .79 * tau1 / (tau1 ** 2 + tau2 ** 2) * np.exp(-tp / tau2) * np.sin(tp / tau1) \
            + .21 * (2 * taub - tp) / taub ** 2 * np.exp(-tp / taub)
    h = np.where(T < -1e-9 * dT, 0, h)
    h = h / np.sum(h)
    return np.fft.ifftshift(1 - f_R + f_R * g['N'] * dft(h))


def gnlse(at, g, B, gamma, gain, L, R=1.0, steep=True, zs=None, rtol=1e-9):
    """Fields at zs from the generalised nonlinear Schroedinger equation."""
    from scipy.integrate import solve_ivp
    V = np.fft.ifftshift(gV(g))
    D = 1j * np.fft.ifftshift(B) + np.fft.ifftshift(np.broadcast_to(gain, B.shape)) / 2.0
    s = 1 + V / (2 * np.pi * C_NMPS / g['wl']) if steep else 1.0
    u0 = np.fft.ifft(np.fft.ifftshift(at))

    def rhs(z, u):
        e = np.exp(D * z)
        A = np.fft.fft(u * e)
        RA = np.fft.fft(R * np.fft.ifft(np.abs(A) ** 2))
        return 1j * gamma * s * np.fft.ifft(A * RA) / e
    zs = [L] if zs is None else zs
    r = solve_ivp(rhs, (0, L), u0, method='DOP853', rtol=rtol, atol=rtol * 1e-3 * np.max(np.abs(u0)), t_eval=zs)
    return [np.fft.fftshift(np.fft.fft(r.y[:, k] * np.exp(D * z))) for k, z in enumerate(zs)]


# ------------------------------------------------------------ generators
@st.composite
def nlgrid(draw, npts=st.sampled_from([128, 256, 256, 512] * 5 + [202, 384, 700, 1024, 2048])):
    """Grid for nonlinear runs: positive frequencies, window longer than
    the Raman response."""
    n = draw(npts)
    wl = draw(F(700., 2200.))
    dT = max(draw(F(.008, .03)) * wl / 1000., 2.6 / n)
    return dict(N=n, Tw=n * dT, wl=wl, frep=draw(st.sampled_from([100.0, 1.0, 250.0])))


def nl_field(g, seed, kind):
    """Smooth field of unit peak, width several samples, inside the window."""
    rng = np.random.RandomState(seed)
    T, dT = gT(g), g['Tw'] / g['N']
    a = np.zeros(g['N'], complex)
    for _ in range(1 if kind == 'one' else 2):
        t0 = rng.uniform(-.12, .12) * g['Tw']
        c = rng.uniform(-1, 1)
        v = rng.uniform(-.1, .1) * np.pi / dT
        if rng.rand() < .6:
            x = (T - t0) / (rng.uniform(5, .05 * g['N']) * dT)
            sh = np.exp(-x ** 2 / 2 * (1 + 1j * c))
        else:
            sh = 1 / np.cosh((T - t0) / (rng.uniform(4, .02 * g['N'] + 3) * dT))
        a = a + rng.uniform(.4, 1) * sh * np.exp(-1j * v * T + 2j * np.pi * rng.rand())
    return a / np.max(np.abs(a))


NL = dict(g=nlgrid(), seed=SEED, kind=st.sampled_from(['one', 'two']), P=st.one_of(logF(1e-2, 1e4), logF(1e-8, 1e8)), L=st.one_of(logF(1e-6, 100.), logF(1e-6, 1e5)),
          phi=F(.1, 3.0), neg=st.booleans(), rel=st.lists(F(-1, 1), min_size=1, max_size=4),
          doff=F(-.05, .05), gainL=st.one_of(st.just(0.0), F(-1.5, -.01), F(.01, 1.5)), dz=logF(1e-3, 3.))


def nl_setup(p):
    """Pulse, field, fiber parameters of a nonlinear case."""
    g = p['g']
    at = nl_field(g, p['seed'], p['kind']) * np.sqrt(p['P'])
    dT = g['Tw'] / g['N']
    # a dispersion phase of a few radians over the band a pulse occupies
    bet = phys_betas(p['rel'], .5 * np.pi / dT, 4. / p['L'])
    wlf = C_NMPS / (C_NMPS / g['wl'] + p['doff'] / dT)
    gamma = p['phi'] / p['L'] / p['P'] * (-1 if p['neg'] else 1)
    return g, at, bet, wlf, gamma, p['gainL'] / p['L']


# ------------------------------------------------------------------ P13
@sub('P13', 'linear', st.fixed_dictionaries(dict(
    gf=grid_field(EVEN_N.filter(lambda n: n >= 8)), rel=BETAS, scale=logF(.1, 100.), doff=F(-.2, .2), L=st.one_of(logF(1e-4, 1e3), logF(1e-7, 1e6)),
    gainL=st.one_of(st.just(0.0), F(-5, 5)), n=st.one_of(st.integers(1, 4), st.integers(1, 20), st.integers(1, 20), st.integers(21, 150)), dzr=st.one_of(logF(1e-2, 30.), st.just(None)),
    ulp=st.integers(-2, 2), le=logF(1e-9, 1e-2), raman=st.booleans(), steep=st.booleans(), reload=st.booleans(), method=METHOD)),
     quick=1200, thorough=20000,
     fixed=[dict(gf=dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), f=dict(kind='two', seed=3, amp=1.)), rel=[.7, .2],
                 scale=30., doff=.1, L=1., gainL=-1., n=3, dzr=None, ulp=1, le=1e-3, raman=True, steep=True, reload=False, method=None),
            dict(gf=dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), f=dict(kind='noise', seed=3, amp=1.)), rel=[.7, .2],
                 scale=30., doff=.1, L=1., gainL=1., n=1, dzr=None, ulp=-1, le=1e-3, raman=False, steep=False, reload=True, method='SSFM')],
     rule='gamma = 0: every returned column and the output pulse against the exact solution')
def linear(p, ctx):
    g, L, n = p['gf']['g'], p['L'], p['n']
    at = build_field(p['gf']['f'], g)
    bet = phys_betas(p['rel'], HALF(g), p['scale'] / L)
    wlf = C_NMPS / (C_NMPS / g['wl'] + p['doff'] * g['N'] / g['Tw'] * .5)
    fib = new_fiber(bet, wlf, length=L, gamma=0.0, gain=p['gainL'] / L)
    q = make_pulse(g, at=at)
    s0 = pulse_state(q)
    dz = L / n / 2 if p['dzr'] is None else L / n * p['dzr'] / 10.
    for _ in range(abs(p['ulp'])):
        dz = float(np.nextafter(dz, 2 * dz if p['ulp'] > 0 else 0))
    s = ssfm(dz=dz, local_error=p['le'], disable_Raman=not p['raman'], disable_self_steepening=not p['steep'])
    set_method(s, p['method'])
    z, AW, AT, out = s.propagate(q, fib, n, reload_fiber_each_step=p['reload'])
    B = fiber_B(g, bet, wlf)
    aw0 = dft(at)
    nrm = np.linalg.norm(aw0)
    mag = np.sum([np.max(np.abs(b / factorial(i + 2) * (gW(g) - 2 * np.pi * C_NMPS / wlf) ** (i + 2)))
                  for i, b in enumerate(bet)]) * L
    ptol = 1e-8 * (1 + mag)
    close(z, np.linspace(0, L, n + 1), 1e-12, 1e-12 * L, 'z positions')
    for k in range(n):
        zz = L * (k + 1) / n
        exp = aw0 * np.exp((1j * B + p['gainL'] / L / 2) * zz)
        vclose(AW[:, k], exp, C64 + ptol, 'spectrum column %d' % k)
        vclose(AT[:, k], idft(exp), C64 + ptol, 'field column %d' % k)
    exp = aw0 * np.exp(1j * B * L + p['gainL'] / 2)
    vclose(out.AW, exp, ptol, 'spectrum of the output pulse')
    vclose(out.AT, idft(exp), ptol, 'field of the output pulse')
    same_state(pulse_state(q), s0, 'propagation (input pulse)')


ODD_N = st.one_of(st.integers(3, 150).map(lambda k: 2 * k + 1), st.sampled_from([127, 243, 255, 513, 1025]))


@sub('P13', 'odd_grid', st.fixed_dictionaries(dict(
    gf=grid_field(ODD_N), rel=BETAS, scale=logF(.1, 30.), doff=F(-.2, .2), L=logF(1e-3, 100.), gainL=st.one_of(st.just(0.0), F(-3, 3)),
    phi=F(.1, 3.), spm=st.booleans(), n=st.integers(1, 8), dzr=logF(1e-1, 5.), raman=st.booleans(), steep=st.booleans(), reload=st.booleans(), method=METHOD)),
     quick=240, thorough=5000,
     rule='grids with an odd number of points: dispersion and gain alone, or the Kerr effect alone, against the exact solution in every column and the output pulse')
def odd_grid(p, ctx):
    from pynlo.util.pynlo_ffts import FFT_t, IFFT_t
    g, L, n = p['gf']['g'], p['L'], p['n']
    at = build_field(p['gf']['f'], g)
    q = make_pulse(g, at=at)
    s0 = pulse_state(q)
    aw, at = q.AW, q.AT
    peak = np.max(np.abs(at)) ** 2
    if p['spm']:
        gamma = p['phi'] / L / peak
        fib = new_fiber([0.], g['wl'], length=L, gamma=gamma)
        s = ssfm(dz=L / n / 50, local_error=1e-8, disable_Raman=True, disable_self_steepening=True)
        want = lambda zz: FFT_t(at * np.exp(1j * gamma * np.abs(at) ** 2 * zz))
        tol = 1e-5
    else:
        bet = phys_betas(p['rel'], HALF(g), p['scale'] / L)
        wlf = C_NMPS / (C_NMPS / g['wl'] + p['doff'] * g['N'] / g['Tw'] * .5)
        fib = new_fiber(bet, wlf, length=L, gamma=0., gain=p['gainL'] / L)
        s = ssfm(dz=L / n * p['dzr'], disable_Raman=not p['raman'], disable_self_steepening=not p['steep'])
        B = np.array(fib.get_betas(q))
        want = lambda zz: aw * np.exp((1j * B + p['gainL'] / L / 2) * zz)
        tol = 1e-8 * (1 + np.max(np.abs(B)) * L)
    set_method(s, p['method'])
    z, AW, AT, out = s.propagate(q, fib, n, reload_fiber_each_step=p['reload'])
    for k in range(n):
        w = want(L * (k + 1) / n)
        vclose(AW[:, k], w, C64 + tol, 'spectrum column %d' % k)
        vclose(AT[:, k], IFFT_t(w), C64 + tol, 'field column %d' % k)
    vclose(out.AW, want(L), tol, 'spectrum of the output pulse')
    vclose(out.AT, IFFT_t(want(L)), tol, 'field of the output pulse')
    same_state(pulse_state(q), s0, 'propagation (input pulse)')


@sub('P13', 'spectral_gain', st.fixed_dictionaries(dict(
    g=grid(st.sampled_from([32, 64, 128]), max_ratio=.5), L=st.one_of(logF(.01, 5), logF(1e-3, 1e3)), ratio=logF(.3, 30), Pin=st.one_of(logF(1e-4, .1), logF(1e-9, 1e3)), n=st.integers(1, 5),
    b2=F(-1, 1), dzr=logF(.01, 2), **GAIN)), quick=200, thorough=4000,
     rule='gamma = 0 with a tabulated gain: output power as requested, spectrum amplified by the fiber\'s gain')
def spectral_gain(p, ctx):
    g, L = p['g'], p['L']
    b2 = p['b2'] / L * (g['Tw'] / 30.) ** 2
    f, shape, edge = gain_db(dict(p, b2=b2), g, L)
    if np.any(edge):
        ctx.trivial()
        return
    at = np.exp(-(gT(g) / g['Tw'] * 10) ** 2) * (1 + .3j)
    q = make_pulse(g, at=at)
    q.set_epp(p['Pin'] / (g['frep'] * 1e6))
    aw = q.AW
    P = p['Pin'] * p['ratio']
    z, AW, AT, out = ssfm(dz=L * p['dzr']).propagate(q, f, p['n'], output_power=P)
    close(out.calc_epp() * g['frep'] * 1e6, P, 2e-2, 0, 'average power after the amplifier')
    k = np.log(np.abs(out.AW) / np.abs(aw)) * 2 / L
    big = np.abs(aw) > 1e-6 * np.max(np.abs(aw))
    sc = np.dot(k[big], shape[big]) / np.dot(shape[big], shape[big])
    close(k[big], sc * shape[big], 1e-5, 1e-6 * np.max(np.abs(sc * shape)) + 1e-6 / L, 'gain seen by the spectrum')
    ph = np.angle(out.AW * aw.conj())
    B = fiber_B(g, [b2], g['wl'])
    close(np.exp(1j * ph[big]), np.exp(1j * B[big] * L), 0, 1e-5, 'dispersion phase in the amplifier')
    for j in range(p['n']):
        zz = L * (j + 1) / p['n']
        vclose(AW[:, j], aw * np.exp(sc * shape * zz / 2 + 1j * B * zz), 1e-4, 'column %d in the amplifier' % j)


# ------------------------------------------------------------------ P14
def edge_ok(a, g):
    w = np.abs(dft(a))
    m = max(1, g['N'] // 16)
    return max(w[:m].max(), w[-m:].max()) < 1e-5 * w.max()


@sub('P14', 'reference', st.fixed_dictionaries(dict(
    raman=st.sampled_from(['off', 'simple', 'default']), steep=st.booleans(), n=st.integers(1, 4),
    le=st.sampled_from([1e-5, 1e-6, 1e-7]), fR=st.one_of(st.just(.18), F(.05, .6)), taus=st.one_of(st.just((.0122, .032)), st.tuples(F(.01, .03), F(.03, .08))), **NL)),
     quick=480, thorough=12000,
     fixed=[dict(g=dict(N=128, Tw=3., wl=1000., frep=100.), seed=4, kind='one', P=100., L=.1, phi=2., neg=False,
                 rel=[-.5, .2], doff=.01, gainL=g_, dz=.1, raman=r, steep=s, n=2, le=1e-6, fR=.18, taus=[.0122, .032])
            for r in ('off', 'simple', 'default') for s in (False, True) for g_ in (0., 1.)],
     rule='against an independent integration of the generalised nonlinear Schroedinger equation; non-trivial when the spectrum stays on the grid and changes')
def reference(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    L, n = p['L'], p['n']
    B = fiber_B(g, bet, wlf)
    taus = tuple(p['taus'])
    kw = {}
    if p['raman'] == 'simple':
        R = raman_response(g, 'simple', p['fR'], *taus)
        kw = dict(USE_SIMPLE_RAMAN=True)
        # (the documented defaults when left out)
        if p['fR'] != .18:
            kw['f_R'] = p['fR']
        if taus != (.0122, .032):
            kw.update(tau_1=taus[0], tau_2=taus[1])
    else:
        R = raman_response(g, p['raman'])
    zs = np.linspace(0, L, n + 1)[1:]
    ref = gnlse(at, g, B, gamma, gain, L, R, p['steep'], zs)
    if not all(edge_ok(a, g) for a in ref):
        ctx.trivial()
        return
    s = ssfm(dz=p['dz'] * L, local_error=p['le'], disable_Raman=p['raman'] == 'off',
             disable_self_steepening=not p['steep'], **kw)
    z, AW, AT, out = s.propagate(make_pulse(g, at=at), new_fiber(bet, wlf, L, gamma, gain), n)
    tol = 2e-5 + 10 * p['le']
    vclose(out.AT, ref[-1], tol, 'output field')
    for k in range(n):
        vclose(AT[:, k], ref[k], tol + C64, 'field column %d' % k)
        vclose(AW[:, k], dft(ref[k]), tol + C64, 'spectrum column %d' % k)


@sub('P14', 'local_error', st.fixed_dictionaries(dict(
    steep=st.booleans(), le=logF(1e-7, 3e-3), **NL)), quick=240, thorough=6000,
     rule='the deviation from the reference is bounded by the requested local error, whatever the initial step')
def local_error(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    L = p['L']
    ref = gnlse(at, g, fiber_B(g, bet, wlf), gamma, gain, L, raman_response(g, 'default'), p['steep'])[-1]
    if not edge_ok(ref, g):
        ctx.trivial()
        return
    s = ssfm(dz=p['dz'] * L, local_error=p['le'], disable_self_steepening=not p['steep'])
    out = s.propagate(make_pulse(g, at=at), new_fiber(bet, wlf, L, gamma, gain), 1)[3]
    err = np.linalg.norm(out.AT - ref) / np.linalg.norm(ref)
    require(err < 2e-5 + 10 * p['le'], 'error %.3g with a local error goal of %.3g', err, p['le'])


@sub('P14', 'methods', st.fixed_dictionaries(dict(
    raman=st.sampled_from(['off', 'simple', 'default']), steep=st.booleans(), n=st.integers(1, 3), le=logF(3e-6, 1e-4),
    method=st.sampled_from([('SSFM', 3), ('SSFM', None), ('RK4IP', 3), ('RK4IP', 4)]), **NL)), quick=120, thorough=3000,
     rule='the split-step method and the other orders of extrapolation converge to the same solution')
def methods(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    L, le = p['L'], p['le']
    ref = gnlse(at, g, fiber_B(g, bet, wlf), gamma, gain, L, raman_response(g, p['raman']), p['steep'])[-1]
    if not edge_ok(ref, g):
        ctx.trivial()
        return
    s = ssfm(dz=p['dz'] * L, local_error=le, disable_Raman=p['raman'] == 'off', disable_self_steepening=not p['steep'],
             USE_SIMPLE_RAMAN=p['raman'] == 'simple')
    set_method(s, *p['method'])
    out = s.propagate(make_pulse(g, at=at), new_fiber(bet, wlf, L, gamma, gain), p['n'])[3]
    # (the split step is of first order in the self-steepening)
    tol = .3 * np.sqrt(le) if p['method'][0] == 'SSFM' else 2e-5 + 10 * le
    vclose(out.AT, ref, tol, 'output field of method %s, order %s' % tuple(p['method']))


@sub('P14', 'frequency_raman', st.fixed_dictionaries(dict(
    steep=st.booleans(), simple=st.booleans(), fR=st.one_of(st.just(.18), F(.05, .6)), taus=st.one_of(st.just((.0122, .032)), st.tuples(F(.01, .03), F(.03, .08))), **NL)),
     quick=80, thorough=2000, rule='Raman response selected in the frequency domain: closed-form transform of the simple response')
def frequency_raman(p, ctx):
    from pynlo.interactions.FourWaveMixing import global_variables as gv
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    L = p['L']
    t1, t2 = p['taus']
    # transform of exp(-t/t2) sin(t/t1) normalised to one
    w = np.fft.ifftshift(gV(g))
    Hw = (1 / t1 ** 2 + 1 / t2 ** 2) / ((1 / t2 - 1j * w) ** 2 + 1 / t1 ** 2)
    ref = gnlse(at, g, fiber_B(g, bet, wlf), gamma, gain, L, 1 - p['fR'] + p['fR'] * Hw, p['steep'])[-1]
    if not edge_ok(ref, g):
        ctx.trivial()
        return
    old = gv.USE_FREQUENCY_DOMAIN_RAMAN
    gv.USE_FREQUENCY_DOMAIN_RAMAN = True
    try:
        s = ssfm(dz=p['dz'] * L, local_error=1e-6, disable_self_steepening=not p['steep'], USE_SIMPLE_RAMAN=p['simple'], f_R=p['fR'], tau_1=t1, tau_2=t2)
        out = s.propagate(make_pulse(g, at=at), new_fiber(bet, wlf, L, gamma, gain), 1)[3]
    finally:
        gv.USE_FREQUENCY_DOMAIN_RAMAN = old
    vclose(out.AT, ref, 4e-5, 'output field with the frequency-domain Raman response')


# ------------------------------------------------------------------ P15
@sub('P15', 'invariants', st.fixed_dictionaries(dict(
    raman=st.sampled_from(['off', 'simple', 'default']), steep=st.booleans(), n=st.integers(1, 6),
    gslope=st.one_of(st.just(0.0), F(-.9, 2.)), **NL)), quick=500, thorough=12000,
     fixed=[dict(g=dict(N=128, Tw=3., wl=1000., frep=100.), seed=4, kind='two', P=100., L=.1, phi=3., neg=False,
                 rel=[-.5, .2], doff=.01, gainL=0., dz=.1, raman=r, steep=s, n=3, gslope=0.)
            for r in ('off', 'simple', 'default') for s in (False, True)],
     rule='energy / photon number after every step follow the flat gain exactly; Raman moves the mean frequency one way')
def invariants(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    L, n = p['L'], p['n']
    # no dispersive wave can leave the grid unnoticed: checked per column
    fib = new_fiber(bet, wlf, L, gamma, gain)
    reload = p['gslope'] != 0
    if reload:
        fib.set_gamma_function(lambda z: gamma * (1 + p['gslope'] * z / L))
    kw = dict(USE_SIMPLE_RAMAN=True) if p['raman'] == 'simple' else {}
    s = ssfm(dz=p['dz'] * L, local_error=1e-6, disable_Raman=p['raman'] == 'off',
             disable_self_steepening=not p['steep'], **kw)
    z, AW, AT, out = s.propagate(make_pulse(g, at=at), fib, n, reload_fiber_each_step=reload)
    V, w0 = gV(g), 2 * np.pi * C_NMPS / g['wl']
    aw0 = dft(at)
    cols = [(L * (k + 1) / n, AW[:, k].astype(complex), 3 * C64) for k in range(n)] + [(L, out.AW, 0)]
    E0, N0, F0 = np.sum(np.abs(aw0) ** 2), np.sum(np.abs(aw0) ** 2 / (1 + V / w0)), np.sum(np.abs(aw0) ** 2 * V)
    rms = np.sqrt(np.sum(np.abs(aw0) ** 2 * V ** 2) / E0)
    prev, done = F0 / E0, 0
    for zz, aw, c in cols:
        if not edge_ok(idft(aw), g):
            ctx.label('left the grid')
            break
        done += 1
        I = np.abs(aw) ** 2
        G = np.exp(gain * zz)
        what = 'at z = %.3g of %.3g: ' % (zz, L)
        if not p['steep'] or p['raman'] == 'off':
            close(np.sum(I), E0 * G, 4e-5 + c, 0, what + 'energy')
        if p['steep']:
            close(np.sum(I / (1 + V / w0)), N0 * G, 4e-5 + c, 0, what + 'photon number')
        mean = np.sum(I * V) / np.sum(I)
        if not p['steep'] and p['raman'] == 'off':
            require(abs(mean - F0 / E0) < (4e-5 + c) * rms * 3 + 1e-5 * np.pi / (g['Tw'] / g['N']),
                    what + 'mean frequency moved by %g rad/ps', mean - F0 / E0)
        if p['raman'] != 'off' and not p['steep']:
            # (the response must be resolved for its discrete form to be passive)
            require(g['Tw'] / g['N'] > .02 or (mean - prev) * np.sign(gamma) < (4e-5 + c) * rms * 3 + 1e-5 * np.pi / (g['Tw'] / g['N']),
                    what + 'Raman scattering raised the mean frequency by %g rad/ps', mean - prev)
        if p['raman'] != 'off' and p['steep']:
            require(g['Tw'] / g['N'] > .02 or np.sign(gamma) * (np.sum(I) - E0 * G) < (1e-4 + c) * E0 * G,
                    what + 'Raman scattering raised the energy by a factor %g', np.sum(I) / (E0 * G))
        prev = mean
    ctx.trivial(done == 0)


@sub('P15', 'raman_shift', st.fixed_dictionaries(dict(
    raman=st.sampled_from(['simple', 'default']), T0=F(.04, .15), N2=F(.5, 4.), wl=F(800., 2000.), fR=F(.1, .3))),
     quick=120, rule='first-order Raman self-frequency shift rate of a short piece of fiber')
def raman_shift(p, ctx):
    g = dict(N=512, Tw=20 * p['T0'] + 3.0, wl=p['wl'], frep=100.)
    T0 = p['T0']
    at = 1 / np.cosh(gT(g) / T0) + 0j
    R = raman_response(g, p['raman'], p['fR'])
    V = gV(g)
    # d<V>/dz = -gamma sum V Im R |F[I]|^2 / E  for a real pulse
    Iw = np.abs(dft(at ** 2)) ** 2
    E = np.sum(np.abs(dft(at)) ** 2)
    Rc = np.fft.fftshift(R)
    L = 1e-2
    exp = -np.sum(V * np.imag(Rc) * Iw) / E * L
    s = ssfm(dz=L / 10, local_error=1e-9, disable_self_steepening=True,
             **(dict(USE_SIMPLE_RAMAN=True, f_R=p['fR']) if p['raman'] == 'simple' else {}))
    out = s.propagate(make_pulse(g, at=at), new_fiber([0.0], g['wl'], L, 1.0), 1)[3]
    I = np.abs(out.AW) ** 2
    require(exp < 0, 'oracle')
    close(np.sum(I * V) / np.sum(I), exp, 1e-2, 1e-12, 'mean frequency shift')


# ------------------------------------------------------------------ P16
def _run(g, at, bet, wlf, gamma, gain, L, n=1, le=1e-7, dz=.02, **kw):
    s = ssfm(dz=dz * L, local_error=le, **kw)
    return s.propagate(make_pulse(g, at=at), new_fiber(bet, wlf, L, gamma, gain), n)[3].AT


@sub('P16', 'symmetries', st.fixed_dictionaries(dict(
    raman=st.sampled_from(['off', 'simple', 'default']), steep=st.booleans(),
    sym=st.sampled_from(['phase', 'shift', 'power', 'power', 'length', 'reverse', 'time', 'delay', 'split']), a=F(.2, 5.), pw=logF(1e-8, 1e6), k=st.integers(-300, 300), **NL)),
     quick=420, thorough=10000,
     fixed=[dict(g=dict(N=128, Tw=3., wl=1000., frep=100.), seed=4, kind='two', P=100., L=.1, phi=2., neg=False,
                 rel=[-.5, .2, .1], doff=.01, gainL=.5, dz=.02, raman='simple', steep=True, a=2., pw=1e-5, k=40, sym=y)
            for y in ('phase', 'shift', 'power', 'length', 'reverse', 'time', 'delay', 'split')],
     rule='the result of a transformed problem is the transformed result')
def symmetries(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    L, a = p['L'], p['a']
    kw = dict(disable_Raman=p['raman'] == 'off', disable_self_steepening=not p['steep'])
    if p['raman'] == 'simple':
        kw['USE_SIMPLE_RAMAN'] = True
    sym = p['sym']
    if sym == 'time' and p['raman'] == 'default':
        sym = 'reverse'
    base = _run(g, at, bet, wlf, gamma, gain, L, **kw)
    if not edge_ok(base, g):
        ctx.trivial()
        return
    tol = 3e-5
    if sym == 'phase':
        got = _run(g, at * np.exp(1j * a), bet, wlf, gamma, gain, L, **kw)
        exp = base * np.exp(1j * a)
    elif sym == 'shift':
        got = _run(g, np.roll(at, p['k']), bet, wlf, gamma, gain, L, **kw)
        exp = np.roll(base, p['k'])
    elif sym == 'power':
        a = p['pw']
        # (also with a first step that must be refused)
        got = _run(g, at * a, bet, wlf, gamma / a ** 2, gain, L, dz=p['dz'] if p['k'] % 2 else 1., **kw)
        exp = base * a
    elif sym == 'length':
        got = _run(g, at, [b / a for b in bet], wlf, gamma / a, gain / a, L * a, **kw)
        exp = base
    elif sym == 'reverse':
        got = _run(g, base, [-b for b in bet], wlf, -gamma, -gain, L, **kw)
        exp = at
        tol = 3e-4
    elif sym == 'time':
        g2 = dict(g, Tw=g['Tw'] * a, wl=g['wl'] * a)
        if p['raman'] == 'simple':
            kw.update(tau_1=.0122 * a, tau_2=.032 * a)
        got = _run(g2, at, [b * a ** (i + 2) for i, b in enumerate(bet)], wlf * a, gamma, gain, L, **kw)
        exp = base
    elif sym == 'delay':
        # repetition rate does not enter the propagation
        got = _run(dict(g, frep=g['frep'] * a), at, bet, wlf, gamma, gain, L, **kw)
        exp = base
    else:
        m = _run(g, at, bet, wlf, gamma, gain, L * .37, **kw)
        got = _run(g, m, bet, wlf, gamma, gain, L * .63, **kw)
        exp = base
    ctx.label(sym)
    vclose(got, exp, tol, 'problem transformed by "%s"' % sym)


@sub('P16', 'backward', st.fixed_dictionaries(dict(raman=st.sampled_from(['off', 'simple', 'default']), steep=st.booleans(), method=METHOD, first=st.booleans(), **NL)),
     quick=160, thorough=4000, rule='the solver\'s own integration in the backward direction undoes the forward one')
def backward(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    L = p['L']
    kw = dict(disable_Raman=p['raman'] == 'off', disable_self_steepening=not p['steep'])
    if p['raman'] == 'simple':
        kw['USE_SIMPLE_RAMAN'] = True
    s = ssfm(dz=.02 * L, local_error=1e-7, **kw)
    if not all(hasattr(s, a) for a in ('setup_fftw', 'load_fiber_parameters', 'integrate_over_dz')):
        ctx.trivial()
        return
    set_method(s, p['method'], 3 if p['method'] == 'SSFM' else None)
    q, f = make_pulse(g, at=at), new_fiber(bet, wlf, L, gamma, gain)
    s.setup_fftw(q, f, None)
    s.load_fiber_parameters(q, f, None)
    a0 = np.array(s.A)
    d = -1 if p['first'] else 1
    s.integrate_over_dz(L, d)
    a1 = np.array(s.A)
    if not edge_ok(np.fft.fftshift(a1), g):
        ctx.trivial()
        return
    s.integrate_over_dz(L, -d)
    # (what is lost to rounding and step errors grows with the loss undone)
    vclose(s.A, a0, 3e-4, 'field after integrating forth and back')
    if d == 1:
        # forward is what propagate does
        got = _run(g, at, bet, wlf, gamma, gain, L, **kw)
        vclose(np.fft.fftshift(a1), got, 3e-4, 'field after integrating over the length at once')


@sub('P16', 'exact_spm', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 16)), seed=SEED, kind=st.sampled_from(['one', 'noise']), P=logF(1e-3, 1e6),
    L=logF(1e-3, 100.), phi=F(.1, 30.), neg=st.booleans(), gainL=st.one_of(st.just(0.0), F(-2, -.01), F(.01, 2)), n=st.integers(1, 4), dz=logF(1e-3, 5.), method=METHOD)),
     quick=500, rule='no dispersion: the field only acquires its own intensity as phase')
def exact_spm(p, ctx):
    g, L = p['g'], p['L']
    rng = np.random.RandomState(p['seed'])
    at = rng.normal(size=g['N']) + 1j * rng.normal(size=g['N']) if p['kind'] == 'noise' else nl_field(dict(g, N=max(g['N'], 16)), p['seed'], 'one')
    at = at / np.max(np.abs(at)) * np.sqrt(p['P'])
    gamma = p['phi'] / L / p['P'] * (-1 if p['neg'] else 1)
    gn = p['gainL'] / L
    s = ssfm(dz=p['dz'] * L, local_error=1e-7, disable_Raman=True, disable_self_steepening=True)
    set_method(s, p['method'], 3 if p['method'] == 'SSFM' else None)
    z, AW, AT, out = s.propagate(make_pulse(g, at=at), new_fiber([0.0], g['wl'], L, gamma, gn), p['n'])
    for k in range(p['n'] + 1):
        zz = L * (k + 1) / p['n'] if k < p['n'] else L
        le = np.expm1(gn * zz) / gn if gn else zz
        exp = at * np.exp(gn * zz / 2) * np.exp(1j * gamma * np.abs(at) ** 2 * le)
        vclose(AT[:, k] if k < p['n'] else out.AT, exp, 3e-5, 'self-phase modulated field')


@sub('P16', 'soliton', st.fixed_dictionaries(dict(
    N=st.sampled_from([128, 256]), T0=logF(.01, 1.), wl=F(600., 2500.), b2=logF(1e-5, 10.), cyc=F(.2, 4.), raman=st.just(False), dz=logF(1e-3, 1.), v=F(-.3, .3))),
     quick=160, rule='fundamental soliton keeps its shape and acquires half its nonlinear phase')
def soliton(p, ctx):
    T0 = p['T0']
    g = dict(N=p['N'], Tw=T0 * 40, wl=p['wl'], frep=100.)
    if C_NMPS / g['wl'] < .6 * g['N'] / g['Tw']:
        ctx.trivial()
        return
    b2 = -p['b2'] * T0 ** 2
    P0, gamma = 50., p['b2'] / 50.
    L = p['cyc'] / p['b2']
    at = np.sqrt(P0) / np.cosh(gT(g) / T0) + 0j
    s = ssfm(dz=p['dz'] * L, local_error=1e-7, disable_Raman=True, disable_self_steepening=True)
    out = s.propagate(make_pulse(g, at=at), new_fiber([b2], g['wl'], L, gamma), 1)[3]
    vclose(out.AT, at * np.exp(1j * gamma * P0 * L / 2), 1e-4, 'soliton after %.2f nonlinear lengths' % p['cyc'])


# ------------------------------------------------------------------ P17
@sub('P17', 'bookkeeping', st.fixed_dictionaries(dict(
    n=st.integers(1, 9), m=st.integers(1, 9), reload=st.booleans(), prior=st.integers(0, 2), nfloat=st.booleans(), **NL)), quick=240, thorough=8000, budget=12_000_000,
     fixed=[dict(g=dict(N=128, Tw=3., wl=1000., frep=100.), seed=4, kind='two', P=100., L=.1, phi=2., neg=False,
                 rel=[-.5, .2, .1], doff=.01, gainL=.5, dz=.02, n=3, m=1, reload=False, prior=1, nfloat=False)],
     rule='axes, shapes, last column = output pulse, step-count independence, solver reuse, inputs untouched')
def bookkeeping(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    L, n = p['L'], p['n']
    q = make_pulse(g, at=at)
    s0 = pulse_state(q)
    fib = new_fiber(bet, wlf, L, gamma, gain)
    b0 = fib.get_betas(q).copy()
    s = ssfm(dz=p['dz'] * L, local_error=1e-6)
    for k in range(p['prior']):
        g2 = dict(g, N=g['N'] // (1 + (p['seed'] + k) % 2), Tw=g['Tw'] / (1 + k), wl=g['wl'] * (1.1 - .3 * k))
        fo = new_fiber([b * 2 for b in bet], wlf, L * 1.5, gamma / 2, .3 / L)
        s.propagate(make_pulse(g2, at=nl_field(g2, p['seed'] + k, 'one') * np.sqrt(p['P'])), fo, 2)
    r = s.propagate(q, fib, float(n) if p['nfloat'] else n, reload_fiber_each_step=p['reload'])
    require(len(r) == 4, 'propagate returned %d values', len(r))
    z, AW, AT, out = r
    close(z, np.linspace(0, L, n + 1), 1e-12, 1e-12 * L, 'z positions')
    require(AW.shape == (g['N'], n) and AT.shape == (g['N'], n), 'result arrays have shapes %s, %s', AW.shape, AT.shape)
    require(np.iscomplexobj(AW) and np.iscomplexobj(AT), 'results are not complex')
    for k in range(n):
        vclose(AW[:, k], dft(AT[:, k].astype(complex)), 3 * C64, 'spectrum column %d' % k)
    vclose(AT[:, -1], out.AT, C64, 'last field column and output pulse')
    vclose(AW[:, -1], out.AW, C64, 'last spectrum column and output pulse')
    require(out is not q, 'the output pulse is the input object')
    require((out.NPTS, out.frep_MHz) == (g['N'], g['frep']), 'output pulse grid')
    close(out.time_window_ps, g['Tw'], 1e-12, 0, 'output time window')
    close(out.center_wavelength_nm, g['wl'], 1e-12, 0, 'output center wavelength')
    same_state(pulse_state(q), s0, 'propagation (input pulse)')
    equal(fib.get_betas(q), b0, 'fiber after propagation')
    require(fib.length == L and fib.gamma == gamma, 'propagation changed the fiber')
    ref = pulse_state(out)
    # fresh solver, other number of steps
    s2 = ssfm(dz=p['dz'] * L, local_error=1e-6)
    out2 = s2.propagate(q, fib, p['m'])[3]
    same_state(pulse_state(out), ref, 'a later propagation (earlier output)')
    if edge_ok(out.AT, g):
        vclose(out2.AT, out.AT, 3e-4, 'output with %d instead of %d steps on a fresh solver' % (p['m'], n))
    else:
        ctx.trivial()
    out.set_AT(out.AT * 2)
    same_state(pulse_state(q), s0, 'changing the output pulse (input pulse)')


_reuse = st.fixed_dictionaries(dict(what=st.lists(st.sampled_from(['center', 'window', 'npts', 'field', 'betas', 'gamma', 'gain', 'length', 'function', 'gfunction', 'method']),
                                                  min_size=1, max_size=2), x=F(.7, 1.4), n=st.integers(1, 3), reload=st.booleans()))


@sub('P17', 'reuse', st.fixed_dictionaries(dict(steps=st.lists(_reuse, min_size=1, max_size=4), raman=st.sampled_from(['off', 'simple', 'default']), steep=st.booleans(), **NL)), quick=160, budget=12_000_000,
     rule='one solver, one fiber object and one pulse object, reconfigured between the propagations, against fresh ones')
def reuse(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    L = p['L']
    c = dict(g=dict(g), at=at, bet=list(bet), wlf=wlf, L=L, gamma=gamma, gain=gain, fun=False, gfun=False, method=None, raman=p['raman'])
    q = make_pulse(g, at=at)
    fib = new_fiber(bet, wlf, L, gamma, gain)
    new = lambda: ssfm(dz=p['dz'] * L, local_error=1e-6, disable_Raman=c['raman'] == 'off', USE_SIMPLE_RAMAN=c['raman'] == 'simple',
                       disable_self_steepening=not p['steep'])

    def setup(f):
        f.generate_fiber(c['L'], wlf, c['bet'], c['gamma'], gain=c['gain'])
        if c['fun']:
            b, l = list(c['bet']), c['L']
            f.set_dispersion_function(lambda z: [v * (1 + z / l) for v in b])
        if c['gfun']:
            ga, l = c['gamma'], c['L']
            f.set_gamma_function(lambda z: ga * (1 - .5 * z / l))
    s = new()
    ctx.label('%d' % len(p['steps']))
    s.propagate(q, fib, 1)
    for k, t in enumerate(p['steps']):
        gg = c['g']
        rebuild = False
        for w in t['what']:
            x = t['x']
            if w == 'center':
                gg['wl'] = gg['wl'] * max(x, .75)
                q.set_center_wavelength_nm(gg['wl'])
                q.set_AT(c['at'])
            elif w == 'window':
                x = max(x, 1.)
                gg['Tw'] = gg['Tw'] * x
                q.set_time_window_ps(gg['Tw'])
                q.set_AT(c['at'])
            elif w == 'npts':
                gg['N'], gg['Tw'] = gg['N'] * 2, gg['Tw'] * 2
                h = np.zeros(gg['N'], complex)
                h[gg['N'] // 4: gg['N'] * 3 // 4] = c['at']
                if gg['N'] > 1024:
                    gg['N'], gg['Tw'] = gg['N'] // 2, gg['Tw'] / 2
                    h = c['at']
                c['at'] = h
                q.clone_pulse(make_pulse(gg, at=h))
            elif w == 'field':
                c['at'] = np.roll(c['at'], 3) * x ** .5 * np.exp(1j)
                q.set_AT(c['at'])
            elif w == 'betas':
                c['bet'] = [b * x for b in c['bet']]
                if not c['fun']:
                    fib.betas = np.array(c['bet'])
                else:
                    rebuild = True
            elif w == 'gamma':
                c['gamma'] *= x
                fib.gamma = c['gamma']
                rebuild = rebuild or c['gfun']
            elif w == 'gain':
                c['gain'] = (x - 1) / c['L']
                rebuild = True
            elif w == 'length':
                c['L'] *= x
                rebuild = True
            elif w == 'function':
                c['fun'] = True
                rebuild = True
            elif w == 'gfunction':
                c['gfun'] = True
                rebuild = True
            elif w == 'method':
                c['method'] = ['SSFM', 'RK4IP'][x > 1]
                set_method(s, c['method'])
        if rebuild:
            if c['fun'] or c['gfun']:
                fib = new_fiber([0.], 800., 1., 0.)
            setup(fib)
        got = s.propagate(q, fib, t['n'], reload_fiber_each_step=t['reload'])
        f2 = new_fiber([0.], 800., 1., 0.)
        setup(f2)
        s2 = new()
        set_method(s2, c['method'])
        exp = s2.propagate(make_pulse(gg, at=c['at']), f2, t['n'], reload_fiber_each_step=t['reload'])
        if not edge_ok(exp[3].AT, gg):
            ctx.trivial(k == 0)
            return
        tol = 3e-4 if c['method'] != 'SSFM' else 3e-3
        close(got[0], exp[0], 1e-12, 0, 'positions of propagation %d' % k)
        vclose(got[3].AT, exp[3].AT, tol, 'output of propagation %d after changing %s' % (k, t['what']))
        vclose(got[1], exp[1], tol, 'spectra of propagation %d after changing %s' % (k, t['what']))


@sub('P17', 'repeatable', st.fixed_dictionaries(dict(n=st.integers(1, 4), raman=st.booleans(), steep=st.booleans(), **NL)),
     quick=120, rule='the same propagation on two fresh solvers gives bit-identical results')
def repeatable(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    r = []
    for k in range(2):
        s = ssfm(dz=p['dz'] * p['L'], local_error=1e-5, disable_Raman=not p['raman'], disable_self_steepening=not p['steep'])
        r.append(s.propagate(make_pulse(g, at=at), new_fiber(bet, wlf, p['L'], gamma, gain), p['n']))
        np.random.seed(k)
    for a, b, w in zip(r[0][:3], r[1][:3], ('z', 'spectra', 'fields')):
        equal(a, b, w + ' of a repeated propagation')
    equal(r[0][3].AW, r[1][3].AW, 'output of a repeated propagation')


@sub('P17', 'zero_length', st.fixed_dictionaries(dict(n=st.integers(1, 3), m=st.integers(1, 3), first=st.booleans(), raman=st.sampled_from(['off', 'simple']), steep=st.booleans(),
    method=METHOD, **NL)), quick=40, thorough=600, budget=12_000_000,
     rule='a fiber without length hands the input through and leaves the solver as it was')
def zero_length(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)

    def run(zero):
        s = ssfm(dz=p['dz'] * p['L'], local_error=1e-5, disable_Raman=p['raman'] == 'off', USE_SIMPLE_RAMAN=p['raman'] == 'simple', disable_self_steepening=not p['steep'])
        set_method(s, p['method'])
        q = make_pulse(g, at=at)
        fib = new_fiber(bet, wlf, p['L'], gamma, gain)
        if p['first']:
            s.propagate(q, fib, 1)
        if zero:
            r = s.propagate(q, new_fiber(bet, wlf, 0.0, gamma, gain), p['m'])
            vclose(r[3].AT, at, 1e-9 + C64, 'output of a fiber without length')
            equal(r[0], np.zeros(p['m'] + 1), 'positions in a fiber without length')
            vclose(r[1], np.repeat(dft(at)[:, None], p['m'], 1), 1e-9 + C64, 'spectra in a fiber without length')
        return s.propagate(q, fib, p['n'])
    a, b = run(False), run(True)
    ctx.trivial(not edge_ok(a[3].AT, g))
    for x, y, w in zip(a[:3], b[:3], ('z', 'spectra', 'fields')):
        equal(y, x, w + ' after a fiber without length')


@sub('P17', 'settings', st.fixed_dictionaries(dict(n=st.integers(1, 4), raman=st.sampled_from(['off', 'simple', 'default']), steep=st.booleans(),
    pre=st.booleans(), fftw=st.booleans(), verbose=st.booleans(), le=logF(1e-6, 1e-3), **NL)), quick=160, thorough=3000,
     rule='order of the transforms, transform library and progress output do not change the result')
def settings(p, ctx):
    from pynlo.interactions.FourWaveMixing import global_variables as gv, SSFM as mod
    g, at, bet, wlf, gamma, gain = nl_setup(p)

    def run(pre, fftw, quiet):
        old = [(m, k, getattr(m, k)) for m, k in ((gv, 'PRE_FFTSHIFT'), (mod, 'PYFFTW_AVAILABLE')) if hasattr(m, k)]
        try:
            for (m, k, v), new in zip(old, (pre, fftw)):
                setattr(m, k, v and new)
            s = ssfm(dz=p['dz'] * p['L'], local_error=p['le'], disable_Raman=p['raman'] == 'off', USE_SIMPLE_RAMAN=p['raman'] == 'simple',
                     disable_self_steepening=not p['steep'], suppress_iteration=quiet)
            return s.propagate(make_pulse(g, at=at), new_fiber(bet, wlf, p['L'], gamma, gain), p['n'])
        finally:
            for m, k, v in old:
                setattr(m, k, v)
    a = run(True, True, True)
    b = run(p['pre'], p['fftw'], not p['verbose'])
    ctx.trivial(p['pre'] and p['fftw'] and not p['verbose'])
    if not edge_ok(a[3].AT, g):
        ctx.trivial()
        return
    # (rounding may turn one accepted step into a rejected one)
    tol = 1e-9 if p['raman'] == 'off' and not p['steep'] else 10 * p['le'] + 2e-5
    for x, y, what in zip(a[:3], b[:3], ('positions', 'spectra', 'fields')):
        vclose(y, x, tol + C64, what + ' with other settings')
    vclose(b[3].AT, a[3].AT, tol, 'output field with other settings')
    vclose(b[3].AW, a[3].AW, tol, 'output spectrum with other settings')


# ------------------------------------------------------------------ P18
@sub('P18', 'dispersion_profile', st.fixed_dictionaries(dict(
    gf=grid_field(EVEN_N.filter(lambda n: n >= 8)), rel=BETAS, rel2=BETAS, scale=logF(.1, 100.), L=logF(1e-3, 100.),
    n=st.integers(1, 12), reload=st.booleans(), kind=st.sampled_from(['poly', 'jump', 'stop', 'start', 'static', 'pivot']), gainL=st.one_of(st.just(0.0), F(-2, -.01), F(.01, 2)),
    fmt=st.sampled_from(['GVD', 'GVD', 'D', 'n']), dz=logF(1e-2, 3))), quick=1000, thorough=15000,
     fixed=[dict(gf=dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), f=dict(kind='two', seed=3, amp=1.)), rel=[.7, .2], rel2=[.4, -.7],
                 scale=30., L=1., n=n, reload=r, kind='poly', gainL=.3, fmt='GVD', dz=.1) for r in (False, True) for n in (1, 5)],
     rule='gamma = 0: each step uses the dispersion at its start when reloading, the one at the input otherwise')
def dispersion_profile(p, ctx):
    g, L, n = p['gf']['g'], p['L'], p['n']
    at = build_field(p['gf']['f'], g)
    b1 = phys_betas(p['rel'], HALF(g), p['scale'] / L)
    b2 = phys_betas((p['rel2'] + [0.] * 7)[:len(b1)], HALF(g), p['scale'] / L)
    seen = []

    def betas(z):
        seen.append(z)
        if p['kind'] == 'jump':
            return list(b1 if z < L * .45 else b2)
        if p['kind'] in ('stop', 'start'):
            # no dispersion at all in one half
            return [b * float((z < L * .45) == (p['kind'] == 'stop')) for b in b1]
        if p['kind'] == 'pivot':
            return list(b1)
        return [x + y * (z / L) ** 2 for x, y in zip(b1, b2)]
    if p['kind'] == 'static' or (p['kind'] == 'pivot' and p['fmt'] == 'GVD'):
        betas = lambda z: list(b1)
    fib = new_fiber(b1, g['wl'], L, 0.0, p['gainL'] / L)
    tolB = 1e-8
    if p['fmt'] == 'D' and C_NMPS / g['wl'] > 1.2 * g['N'] / g['Tw']:
        f0 = C_NMPS / g['wl']
        fr = np.linspace(f0 - .5 * g['N'] / g['Tw'], f0 + .5 * g['N'] / g['Tw'], 60)
        dw, wl = 2 * np.pi * (fr - f0), C_NMPS / fr
        fib.poly_order = len(b1) - 1
        bz = betas
        if p['kind'] == 'pivot':
            # a table with one entry (first, last or another) that is the same all along the fiber
            k0 = [0, -1, 30][n % 3]
            y1, y0 = (p['rel2'] + [.5])[:2], dw[k0] / HALF(g)
            b1 = np.array((list(b1) + [0., 0.])[:max(2, len(b1))])
            b2 = phys_betas([y1[0] or .3, 0.], HALF(g), p['scale'] / L)[0]
            # beta2 (1 - (V / V0)) ~ zero at V0
            bz = lambda z: [b1[0] + b2 * (z / L) ** 2, b1[1] - b2 * (z / L) ** 2 / (y0 * HALF(g))] + list(b1[2:]) \
                if abs(y0) > .1 else [b1[0], b1[1] + b2 * (z / L) ** 2 / HALF(g)] + list(b1[2:])
            fib.poly_order = len(b1) - 1
        fib.set_dispersion_function(lambda z: (seen.append(z), wl, -2 * np.pi * C_NMPS / wl ** 2 * 1000 * sum(
            b / factorial(i) * dw ** i for i, b in enumerate(bz(z))))[1:], dispersion_format='D')
        Bz = lambda z: taylor(bz(z), gV(g))
        tolB = 1e-7
    elif p['fmt'] == 'n' and C_NMPS / g['wl'] > 1.2 * g['N'] / g['Tw']:
        # effective index whose propagation constant is the polynomial (and 1.45 w0 / c, group index 1.5)
        fr = np.linspace(C_NMPS / g['wl'] - .5 * g['N'] / g['Tw'], C_NMPS / g['wl'] + .5 * g['N'] / g['Tw'], 500)[::-1]
        w0, dw, wl = 2 * np.pi * C_NMPS / g['wl'], 2 * np.pi * (fr - C_NMPS / g['wl']), C_NMPS / fr
        fib.set_dispersion_function(lambda z: (wl, ((1.45 * w0 + 1.5 * dw) * 1e12 / C + taylor(betas(z), dw)) * wl * 1e-9 / 2 / np.pi), dispersion_format='n')
        Bz = lambda z: rezero(taylor(betas(z), gV(g)), gV(g))
        tolB = 1e-6 + 3e-15 * w0 * 1e12 / C * g['N'] * L
    elif p['kind'] not in ('static', 'pivot'):
        fib.set_dispersion_function(betas)
        Bz = lambda z: fiber_B(g, betas(z), g['wl'])
    else:
        Bz = lambda z: fiber_B(g, b1, g['wl'])
    s = ssfm(dz=p['dz'] * L)
    z, AW, AT, out = s.propagate(make_pulse(g, at=at), fib, n, reload_fiber_each_step=p['reload'])
    require(not seen or (min(seen) >= 0 and max(seen) <= L * (1 + 1e-12)), 'dispersion evaluated outside the fiber')
    aw = dft(at)
    mag = p['scale'] * 30
    for k in range(n):
        aw = aw * np.exp((1j * Bz(k * L / n if p['reload'] else 0.0) + p['gainL'] / L / 2) * L / n)
        vclose(AW[:, k], aw, C64 + tolB * (1 + mag), 'spectrum column %d' % k)
    vclose(out.AW, aw, tolB * (1 + mag), 'output spectrum')
    ctx.trivial(p['kind'] == 'static')


@sub('P18', 'gamma_profile', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 16)), seed=SEED, a=F(-2, 2), b=F(-2, 2), L=logF(1e-3, 100.), phi=F(.1, 10.),
    n=st.integers(1, 10), reload=st.booleans(), dz=logF(1e-2, 3))), quick=400,
     rule='no dispersion: each step uses gamma at its start when reloading, the one at the input otherwise')
def gamma_profile(p, ctx):
    g, L, n = p['g'], p['L'], p['n']
    rng = np.random.RandomState(p['seed'])
    at = rng.normal(size=g['N']) + 1j * rng.normal(size=g['N'])
    at /= np.max(np.abs(at))
    gam = lambda z: p['phi'] / L * (1 + p['a'] * z / L + p['b'] * (z / L) ** 2)
    fib = new_fiber([0.0], g['wl'], L, 123.0)
    fib.set_gamma_function(gam)
    s = ssfm(dz=p['dz'] * L, local_error=1e-7, disable_Raman=True, disable_self_steepening=True)
    z, AW, AT, out = s.propagate(make_pulse(g, at=at), fib, n, reload_fiber_each_step=p['reload'])
    ph = 0
    for k in range(n):
        ph += gam(k * L / n if p['reload'] else 0.0) * L / n
        vclose(AT[:, k], at * np.exp(1j * ph * np.abs(at) ** 2), 3e-5, 'field column %d' % k)
    vclose(out.AT, at * np.exp(1j * ph * np.abs(at) ** 2), 3e-5, 'output field')


# ------------------------------------------------------------------ P19
@sub('P19', 'coherence', st.fixed_dictionaries(dict(
    trials=st.integers(2, 6), n=st.integers(1, 4), rseed=st.integers(0, 2 ** 32 - 1), noise=st.sampled_from(['one_photon_freq', 'sqrt_N_freq', None]),
    weak=st.booleans(), big=st.booleans(), profile=st.booleans(), power=st.one_of(st.none(), F(.5, 2.)), **NL)), quick=160, thorough=4000,
     fixed=[dict(g=dict(N=256, Tw=2000., wl=1000., frep=100.), seed=4, kind='one', P=100., L=.1, phi=2., neg=False, rel=[-.5], doff=0.,
                 gainL=0., dz=.1, trials=3, n=1, rseed=5, noise='one_photon_freq', weak=False, big=False, profile=False, power=None)],
     rule='degree of coherence in [0, 1], reproducible, and equal to the pair average of the returned trials')
def coherence(p, ctx):
    g, at, bet, wlf, gamma, gain = nl_setup(p)
    L, n, K = p['L'], p['n'], p['trials']
    if p['weak']:
        # a field comparable to the quantum noise
        at = at / np.max(np.abs(dft(at))) * H * C_NMPS / g['wl'] * 1e12 * 1e12 / g['Tw'] * (3. if not p['big'] else 100.)
        gamma = 0.0
    q = make_pulse(g, at=at)
    s0 = pulse_state(q)
    fib = new_fiber(bet, wlf, L, gamma, gain)
    if p['profile']:
        fib.set_dispersion_function(lambda z: [b * (1 + z / L) for b in bet])
    kw = {} if p['noise'] is None else dict(noise_type=p['noise'])
    if p['profile']:
        kw['reload_fiber_each_step'] = True
    out = []
    for k in range(2):
        np.random.seed(k)
        s = ssfm(dz=p['dz'] * L)
        out.append(s.calculate_coherence(q, fib, num_trials=K, random_seed=p['rseed'], n_steps=n, **kw))
    (g12, res), (h12, res2) = out
    g12 = arr(g12, (g['N'], n), 'coherence')
    require(len(res) == K and all(len(r) == 5 for r in res), 'results list')
    same_state(pulse_state(q), s0, 'computing the coherence')
    E = np.array([r[1] for r in res]).astype(complex)
    require(E.shape == (K, g['N'], n), 'spectra of the trials have shape %s', E.shape)
    for r in res:
        close(r[0], np.linspace(0, L, n + 1), 1e-12, 1e-12 * L, 'z positions of a trial')
        vclose(r[4].AW, r[1][:, -1], C64, 'output pulse of a trial')
        if p['weak'] is False:
            close(r[4].calc_epp(), q.calc_epp() * np.exp(gain * L), .3, 0, 'energy of a trial')
    require(np.array_equal(g12, h12, equal_nan=True), 'coherence computed twice with one seed differs')
    for a, b in zip(res, res2):
        equal(a[1], b[1], 'trial computed twice with one seed')
    mag = np.min(np.abs(E), axis=0)
    ok = mag > 1e-15
    require(np.all(np.isfinite(g12[ok])), 'coherence is not a number where all trials have light')
    require(np.all((g12[ok] >= 0) & (g12[ok] <= 1 + 1e-5)), 'coherence outside [0, 1]: %g', np.max(g12[ok]))
    ph = np.where(ok, E / np.where(mag > 0, np.abs(E), 1), 0)
    tot = np.sum(ph, axis=0)
    exp = np.abs((np.abs(tot) ** 2 - np.sum(np.abs(ph) ** 2, axis=0)) / (K * (K - 1)))
    close(g12[ok], exp[ok], 0, 1e-5, 'coherence as the average over pairs of trials')
    # trials differ, and a different seed gives different trials
    if p['noise'] != 'sqrt_N_freq':
        require(not np.array_equal(res[0][1], res[1][1]) or not p['weak'], 'two trials are identical')
    # expected: independent noise gives low coherence where the field is weak,
    # full coherence where it is strong
    if p['noise'] != 'sqrt_N_freq':
        hv = H * gW(g) / 2 / np.pi * 1e12 * 1e12 / g['Tw']
        a0 = np.abs(q.AW)
        if p['weak'] is False and edge_ok(res[0][4].AT, g):
            strong = np.abs(E).min(axis=0) > 1e-2 * np.abs(E).max()
            if np.all(hv < 1e-6 * a0.max()):
                require(np.all(g12[strong] > .99), 'strong light is incoherent: %g', np.min(g12[strong]))
                ctx.label('coherent')
        if gamma == 0 and n == 1 and K >= 4:
            dark = a0 < .01 * hv
            if dark.sum() > 40:
                require(np.mean(g12[dark]) < .75, 'pure noise is coherent: mean %g', np.mean(g12[dark]))
                ctx.label('incoherent')


@sub('P19', 'trial_noise', st.fixed_dictionaries(dict(
    g=grid(st.sampled_from([64, 128, 256]), max_ratio=.5), trials=st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(7, 20)), n=st.integers(1, 3), rseed=st.integers(0, 2 ** 32 - 1), snr=logF(.1, 1e3), L=logF(1e-3, 10.),
    rel=BETAS, gainL=st.one_of(st.just(0.0), F(-.5, 1.)), noise=st.sampled_from(['one_photon_freq', 'sqrt_N_freq', None]), seed=SEED)), quick=200,
     rule='no nonlinearity: what the trials have in addition to the input is independent noise of the requested size')
def trial_noise(p, ctx):
    g, L, K = p['g'], p['L'], p['trials']
    N = g['N']
    hv = H * gW(g) / 2 / np.pi * 1e12 * 1e12 / g['Tw']           # photon energy times bin width
    aw = hv.mean() * p['snr'] * np.exp(1j * np.random.RandomState(p['seed']).uniform(0, 6.28, N))
    aw[: N // 4] = 0
    q = make_pulse(g, aw=aw)
    s0 = pulse_state(q)
    bet = phys_betas(p['rel'], HALF(g), 3. / L)
    kw = {} if p['noise'] is None else dict(noise_type=p['noise'])
    res = ssfm(dz=L / 3).calculate_coherence(q, new_fiber(bet, g['wl'], L, 0.0, p['gainL'] / L), num_trials=K, random_seed=p['rseed'], n_steps=p['n'], **kw)[1]
    same_state(pulse_state(q), s0, 'computing the coherence')
    tr = np.exp(1j * fiber_B(g, bet, g['wl']) * L + p['gainL'] / 2)
    if p['noise'] == 'sqrt_N_freq':
        # (the size of shot noise is the pulse's business)
        z = q.create_cloned_pulse()
        np.random.seed(1)
        s = np.zeros(N)
        for _ in range(200):
            c = q.create_cloned_pulse()
            c.add_noise('sqrt_N_freq')
            s += np.abs(c.AW - q.AW) ** 2
        sig = np.sqrt(s / 200)
    else:
        sig = hv
    # a seed one or two away gives trials of its own
    near = ssfm(dz=L / 3).calculate_coherence(q, new_fiber(bet, g['wl'], L, 0.0, p['gainL'] / L), num_trials=K,
                                              random_seed=min(p['rseed'] + 1 + K % 2, 2 ** 32 - 1), n_steps=p['n'], **kw)[1]
    r = np.array([x[4].AW / tr - aw for x in res])
    r2 = np.array([x[4].AW / tr - aw for x in near])[:, N // 4:] / sig[N // 4:]
    if p['noise'] == 'sqrt_N_freq':
        require(np.max(np.abs(r[:, : N // 4])) < 1e-6 * np.max(np.abs(aw)), 'shot noise in empty bins')
    r = r[:, N // 4:] / sig[N // 4:]
    m = r.shape[1]
    for j in range(K):
        # normally distributed amplitude: fourth moment 3
        v = np.mean(np.abs(r[j]) ** 2)
        require(abs(v - 1) < 7 * np.sqrt(2. / m) + .1, 'noise of trial %d has a variance %.3g times the requested one', j, v)
        for i in range(j):
            c = abs(np.vdot(r[i], r[j])) / m
            require(c < 7 / np.sqrt(m) * 1.2, 'noise of trials %d and %d is correlated (%.2g)', i, j, c)
        for i in range(K):
            c = abs(np.vdot(r2[i], r[j])) / m
            require(c < 7 / np.sqrt(m) * 1.2 or p['rseed'] > 2 ** 32 - 4, 'noise of trial %d and trial %d of a neighbouring seed is correlated (%.2g)', j, i, c)


@sub('P19', 'gain_and_seed', st.fixed_dictionaries(dict(
    g=grid(st.sampled_from([32, 64]), max_ratio=.5), L=logF(.01, 5), ratio=logF(.3, 30), Pin=logF(1e-4, .1), rseed=st.integers(0, 10 ** 6), **GAIN)),
     quick=60, rule='output power is forwarded; without a seed two runs differ, with different seeds too')
def gain_and_seed(p, ctx):
    g, L = p['g'], p['L']
    f, shape, edge = gain_db(p, g, L)
    if np.any(edge):
        ctx.trivial()
        return
    q = make_pulse(g, at=np.exp(-(gT(g) / g['Tw'] * 10) ** 2))
    q.set_epp(p['Pin'] / (g['frep'] * 1e6))
    P = p['Pin'] * p['ratio']
    r = [ssfm(dz=L / 5).calculate_coherence(q, f, num_trials=2, n_steps=1, output_power=P, **kw)[1]
         for kw in ({}, {}, dict(random_seed=p['rseed']), dict(random_seed=p['rseed'] + 1), dict(random_seed=p['rseed']))]
    for x in r[0]:
        close(x[4].calc_epp() * g['frep'] * 1e6, P, 3e-2, 0, 'average power of a trial')
    # noise must be representable next to the field in single precision
    d = lambda a, b: not np.array_equal(a[0][4].AW, b[0][4].AW)
    equal(r[2][0][4].AW, r[4][0][4].AW, 'trial with the same seed')
    tiny = H * C_NMPS / g['wl'] * 1e12 * 1e12 / g['Tw'] > 1e-13 * np.min(np.abs(q.AW))
    if tiny:
        require(d(r[0], r[1]), 'two unseeded runs are identical')
        require(d(r[2], r[3]), 'two seeds gave the same trial')


# ------------------------------------------------------------------ P20
@sub('P20', 'gain_goal', st.fixed_dictionaries(dict(
    g=nlgrid(st.sampled_from([128, 256])), seed=SEED, L=logF(.1, 5), ratio=logF(1.5, 20), Pin=logF(1e-3, .1), n=st.integers(1, 4),
    guess=st.one_of(st.none(), F(.6, 1.6)), tol=st.sampled_from([None, .05, .02, .005]), phi=st.one_of(st.just(0.0), F(0., 2.)), **GAIN)), quick=120, thorough=2500,
     rule='average output power within the tolerance of the goal; non-trivial when the first guess misses it')
def gain_goal(p, ctx):
    g, L = p['g'], p['L']
    at = nl_field(g, p['seed'], 'one')
    q = make_pulse(g, at=at)
    q.set_epp(p['Pin'] / (g['frep'] * 1e6))
    goal = p['Pin'] * p['ratio']
    peak = np.max(np.abs(q.AT)) ** 2
    f, shape, edge = gain_db(dict(p, gamma=p['phi'] / L / (peak * np.sqrt(p['ratio']))), g, L)
    aw = np.abs(q.AW) ** 2
    if np.any(edge) or np.sum(aw * (shape > 0)) < .9 * np.sum(aw):
        ctx.trivial()
        return
    s0 = pulse_state(q)
    tol = p['tol'] or .05
    kw = {} if p['tol'] is None else dict(powertol=p['tol'])
    if p['guess']:
        kw['scalefactor_guess'] = p['guess']
    s = ssfm(dz=L / 50, local_error=1e-5)
    (z, AW, AT, out), scale = s.propagate_to_gain_goal(q, f, p['n'], power_goal=goal, **kw)
    require(AW.shape == (g['N'], p['n']) and len(z) == p['n'] + 1, 'shape of the results')
    got = out.calc_epp() * g['frep'] * 1e6
    close(got, goal, tol * 1.02 + 2e-3, 0, 'average output power')
    vclose(AT[:, -1], out.AT, C64, 'last column')
    # the scale factor is the one that was used
    again = ssfm(dz=L / 50, local_error=1e-5).propagate(q, f, p['n'], output_power=goal * scale)[3]
    close(again.calc_epp() * g['frep'] * 1e6, got, 1e-3, 0, 'power with the returned scale factor')
    if scale != 1.0:
        # a good guess is used, and must be used for the result too
        (z, AW, AT, o2), sc2 = ssfm(dz=L / 50, local_error=1e-5).propagate_to_gain_goal(
            q, f, p['n'], power_goal=goal, scalefactor_guess=scale, powertol=tol * 1.05 + 2e-3)
        close(o2.calc_epp() * g['frep'] * 1e6, got, 2e-3, 0, 'average output power when started from the scale factor found')
        close(sc2, scale, 2e-3, 0, 'scale factor when started from the scale factor found')
    same_state(pulse_state(q), s0, 'gain-goal propagation (input pulse)')
    first = p['guess'] or 1.0
    ctx.trivial(abs(scale - first) < 1e-6)


@sub('P20', 'gain_goal_nonlinear', st.fixed_dictionaries(dict(
    N=st.sampled_from([128, 256]), wl=F(950., 1600.), width=F(1.5, 8.), off=F(-1.5, 1.5), phi=F(0., 8.), b2=F(-1., 1.), L=logF(.1, 5),
    Pin=logF(1e-3, .1), ratio=logF(1.2, 30), tol=logF(1e-4, 1e-2), guess=st.one_of(st.none(), F(.6, 1.6)))), quick=60, thorough=1200,
     fixed=[dict(N=256, wl=1000., width=8., off=1., phi=4., b2=-.3, L=1., Pin=.01, ratio=10., tol=1e-4, guess=None)],
     rule='spectrum pushed out of a gain line: wherever a secant search over separate propagations finds the scale factor, so '
          'does the library, to a tight tolerance; non-trivial with three or more corrections')
def gain_goal_nonlinear(p, ctx):
    from props_fiber import write_db
    from pynlo.media.fibers.fiber import FiberInstance
    N, L, wl = p['N'], p['L'], p['wl']
    g = dict(N=N, Tw=N * .02 * wl / 1000., wl=wl, frep=100.)
    if g['Tw'] < 2.6:
        g['Tw'] = 2.6
    t0 = .03 * g['Tw']
    at = np.exp(-(gT(g) / t0) ** 2 / 2)
    q = make_pulse(g, at=at)
    q.set_epp(p['Pin'] / 1e8)
    goal = p['Pin'] * p['ratio']
    peak = np.max(np.abs(q.AT)) ** 2 * p['ratio']
    fx = np.linspace(-.45, .45, 60) * N / g['Tw']
    gain = np.exp(-((fx * 2 * np.pi * t0 - p['off']) / p['width']) ** 2)
    x = (C_NMPS / (fx + C_NMPS / wl) * 1e-9)[::-1]
    d = write_db({'amp': dict(name='amp', dispersion_format='GVD', dispersion_data=[p['b2'] * t0 ** 2 / L], gamma=p['phi'] / L / peak,
                              is_gain=True, dispersion_gvd_units='ps^n/m', dispersion_gvd_center_wavelength=wl,
                              gain_x_units='m', gain_x_data=list(x), gain_y_data=list(gain[::-1]))}, 'gdb')

    def new():
        f = FiberInstance(fiber_db='gdb', fiber_db_dir=d)
        f.load_from_db(L, 'amp')
        return f, ssfm(dz=L / 50, local_error=1e-6, disable_Raman=True, disable_self_steepening=True)
    f, s = new()

    def power(scale):
        o = s.propagate(q, f, 1, output_power=goal * scale)[3]
        return o.calc_epp() * 1e8 / goal
    # reference search: secant steps, started with the linear estimate
    a = p['guess'] or 1.0
    pa = power(a)
    hist = [(a, pa)]
    b = 1 / pa
    while abs(hist[-1][1] - 1) > p['tol']:
        if len(hist) > 12 or not .05 < b < 20:
            ctx.trivial()
            ctx.label('search does not converge')
            return
        pb = power(b)
        hist.append((b, pb))
        if b == a or pb == pa:
            ctx.trivial()
            return
        a, pa, b = b, pb, b + (1 - pb) * (b - a) / (pb - pa)
    if any(abs(abs(h[1] - 1) / p['tol'] - 1) < 1e-3 for h in hist):
        ctx.trivial()
        return
    f, s = new()
    kw = {} if p['guess'] is None else dict(scalefactor_guess=p['guess'])
    (z, AW, AT, out), scale = s.propagate_to_gain_goal(q, f, 1, power_goal=goal, powertol=p['tol'], **kw)
    close(out.calc_epp() * 1e8, goal, p['tol'] * 1.01 + 3e-5, 0, 'average output power')
    close(power(scale), 1.0, p['tol'] * 1.01 + 3e-5, 0, 'average output power with the scale factor returned')
    ctx.trivial(len(hist) < 4)
