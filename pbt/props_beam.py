"""P30-P31: Gaussian beams and the grating compressor."""
import numpy as np
from hypothesis import strategies as st
from util import *
from core import sub, Violation
from props_crystal import build, Model, KIND


# ------------------------------------------------------------------ P30
BG = dict(n=st.sampled_from([8, 16, 32]), wl=F(1500., 3000.), bw=F(.01, .5), w0=logF(2e-6, 5e-2), nr=F(1., 3.),
          u=st.one_of(F(-5., 5.), F(-5., 5.), st.tuples(logF(5., 1e4), st.sampled_from([-1, 1])).map(lambda x: x[0] * x[1])))


@sub('P30', 'geometry', st.fixed_dictionaries(dict(vec=st.booleans(), setw=st.booleans(), **BG)), quick=800, thorough=20000,
     rule='spot size, curvature, Gouy phase, Rayleigh range against the complex beam parameter')
def geometry(p, ctx):
    from pynlo.light import OneDBeam
    g = dict(N=p['n'], Tw=p['n'] / (2 * p['bw'] * C_NMPS / p['wl']), wl=p['wl'], frep=100.)
    lam = 2 * np.pi * C / (gW(g) * 1e12)
    pl = make_pulse(g)
    if p['setw']:
        b = OneDBeam(1.0, this_pulse=pl)
        b.set_w0(p['w0'])
    else:
        b = OneDBeam(waist_meters=p['w0'], this_pulse=pl)
    nr = p['nr'] + (np.linspace(0, .2, p['n']) if p['vec'] else 0.0)
    zr = np.pi * p['w0'] ** 2 * nr / lam
    z = p['u'] * float(np.mean(zr))
    q = 1 / (z - 1j * zr)                       # 1/q for exp(+ikz - iwt)
    close(b.waist, p['w0'], 1e-15, 0, 'waist')
    close(b.calculate_zR(nr), zr, 1e-12, 0, 'Rayleigh range')
    close(b.calc_confocal(nr), 2 * zr, 1e-12, 0, 'confocal parameter')
    close(b.calculate_waist(z, nr), np.sqrt(lam / (np.pi * nr * q.imag)), 1e-11, 0, 'spot size')
    if abs(z) > 1e-9 * np.min(zr):
        close(b.calculate_R(z, nr), 1 / q.real, 1e-9, 0, 'radius of curvature')
    else:
        ctx.trivial()
    for zf in (0.0, 0):
        r0 = np.asarray(b.calculate_R(zf, nr))
        require(r0.shape == (p['n'],) and np.all(np.isinf(r0)), 'radius of curvature at the focus is %r', r0)
    e = (zr + 1j * z) / np.abs(zr + 1j * z)
    close(b.calculate_gouy_phase(z, nr), e, 0, 1e-12, 'Gouy phase factor')
    if not p['vec']:
        close(b.calculate_zR(), zr / p['nr'], 1e-12, 0, 'Rayleigh range in vacuum')
    # field of a given power at the focus
    close(b.rtP_to_a(nr), 1 / np.sqrt(np.pi * p['w0'] ** 2 * nr * EPS0 * C), 1e-9, 0, 'power to field conversion')


@sub('P30', 'in_crystal', st.fixed_dictionaries(dict(kind=KIND, T=F(20., 200.), theta=F(.1, 1.4), T2=F(20., 200.), th2=F(.1, 1.4), wl2=F(1500., 3000.), w2=logF(2e-6, 5e-2),
                                                     ax=st.tuples(st.sampled_from(['o', 'e', 'mix']), st.sampled_from(['o', 'e', 'mix'])), cache=st.booleans(), **BG)),
     quick=800, thorough=20000, rule='waist matching, conversion and mode overlap inside crystals')
def in_crystal(p, ctx):
    from pynlo.light import OneDBeam
    x, m = build(p['kind'], p['T'], p['theta'], .01, p['cache'])
    bw = p['bw'] / 2.5
    gs = [dict(N=p['n'], Tw=p['n'] / (2 * bw * C_NMPS / w), wl=w, frep=100.) for w in (p['wl'], p['wl2'])]
    ps = [make_pulse(g) for g in gs]
    ax = (None, None) if p['kind'] == 'ppln' else p['ax']
    lam = [2 * np.pi * C / (gW(g) * 1e12) for g in gs]
    nn = [m.n(l * 1e9, a) for l, a in zip(lam, ax)]
    kk = [2 * np.pi * q / l for q, l in zip(nn, lam)]
    b1, b2 = OneDBeam(p['w0'], ps[0], ax[0]), OneDBeam(p['w2'], ps[1], ax[1])
    zr = [np.pi * w ** 2 * q / l for w, q, l in zip((p['w0'], p['w2']), nn, lam)]
    z = p['u'] * float(np.mean(zr[0]))
    close(b1.get_n_in_crystal(ps[0], x), nn[0], 1e-10, 0, 'index seen by the beam')
    close(b1.get_k_in_crystal(ps[0], x), kk[0], 1e-10, 0, 'wave number seen by the beam')
    w2 = p['w0'] ** 2 * (1 + (z / zr[0]) ** 2)
    cv = lambda w2: 1 / np.sqrt(np.pi * w2 * nn[0] * EPS0 * C)
    close(b1.rtP_to_a_2(ps[0], x, z), cv(w2), 1e-9, 0, 'conversion away from the focus')
    close(b1.rtP_to_a_2(ps[0], x, None, 3e-5), cv(9e-10), 1e-9, 0, 'conversion for a given spot size')
    # mode overlap of two Gaussian beams: |<u1|u2>|^2 from their complex parameters
    ov = b1.calc_overlap_integral(z, ps[0], ps[1], b2, x)
    q1, q2 = z + 1j * zr[0], z + 1j * zr[1]
    e = 4 * kk[0] * kk[1] * zr[0] * zr[1] / np.abs(kk[0] * np.conj(q2) - kk[1] * q1) ** 2
    close(ov, e, 1e-6, 0, 'mode overlap')
    require(np.all(ov <= 1 + 1e-9) and np.all(ov >= 0), 'overlap outside [0, 1]')
    close(b2.calc_overlap_integral(z, ps[1], ps[0], b1, x), e, 1e-6, 0, 'mode overlap, beams exchanged')
    ctx.trivial(np.all(e > .9999))
    # waist matching
    b2.set_waist_to_match_central_waist(ps[1], p['w2'], x)
    h = p['n'] // 2
    z2 = np.pi * p['w2'] ** 2 * nn[1][h] / lam[1][h]
    close(arr(b2.waist, (p['n'],), 'matched waist')[h], p['w2'], 1e-10, 0, 'waist at the central color')
    close(b2.calculate_zR(nn[1]), np.full(p['n'], z2), 1e-9, 0, 'Rayleigh range of every color')
    b1.set_waist_to_match_confocal(ps[0], ps[1], b2, x)
    close(b1.calculate_zR(nn[0]), np.full(p['n'], z2), 1e-9, 0, 'Rayleigh range matched to the other beam')
    close(b1.waist, np.sqrt(z2 * lam[0] / np.pi / nn[0]), 1e-9, 0, 'waist matched to the other beam')
    close(b2.calculate_zR(nn[1]), np.full(p['n'], z2), 1e-9, 0, 'the other beam')
    # the same beams once the crystal has changed
    if p['kind'] == 'ppln':
        x.set_T(p['T2'])
        m.T = p['T2']
    else:
        x.set_theta(p['th2'])
        m.theta = p['th2']
    b1.set_w0(p['w0'])
    for b, pl, l, a in ((b2, ps[1], lam[1], ax[1]), (b1, ps[0], lam[0], ax[0])):
        nn = m.n(l * 1e9, a)
        close(b.get_n_in_crystal(pl, x), nn, 1e-10, 0, 'index seen by the beam in the changed crystal')
        close(b.get_k_in_crystal(pl, x), 2 * np.pi * nn / l, 1e-10, 0, 'wave number seen by the beam in the changed crystal')
    w2 = p['w0'] ** 2 * (1 + (z * lam[0] / (np.pi * p['w0'] ** 2 * nn)) ** 2)
    close(b1.rtP_to_a_2(ps[0], x, z), 1 / np.sqrt(np.pi * w2 * nn * EPS0 * C), 1e-9, 0, 'conversion in the changed crystal')
    # and for another pulse's grid
    nn = m.n(lam[1] * 1e9, ax[0])
    close(b1.get_n_in_crystal(ps[1], x), nn, 1e-10, 0, 'index seen by the beam on another grid')


@sub('P30', 'optimal_overlap', st.fixed_dictionaries(dict(kind=KIND, T=F(20., 200.), theta=F(.1, 1.4), wl=F(1500., 2000.), wl2=F(2200., 3000.), n=st.sampled_from([4, 8]),
     w2=logF(1e-5, 1e-3), L=logF(1e-4, .2), arg=st.one_of(st.none(), F(.01, 100.)), ax=st.tuples(st.sampled_from(['o', 'e', 'mix']), st.sampled_from(['o', 'e', 'mix'])))),
     quick=160, rule='the waist found for a second beam maximises the overlap integrated over the crystal; non-trivial when diffraction matters')
def optimal_overlap(p, ctx):
    from pynlo.light import OneDBeam
    x, m = build(p['kind'], p['T'], p['theta'], p['L'] * (p['arg'] or 1.), True)
    gs = [dict(N=p['n'], Tw=p['n'] / (.02 * C_NMPS / w), wl=w, frep=100.) for w in (p['wl'], p['wl2'])]
    ps = [make_pulse(g) for g in gs]
    ax = (None, None) if p['kind'] == 'ppln' else p['ax']
    lam = [2 * np.pi * C / (gW(g) * 1e12) for g in gs]
    nn = [m.n(l * 1e9, a) for l, a in zip(lam, ax)]
    kk = [2 * np.pi * q / l for q, l in zip(nn, lam)]
    b1, b2 = OneDBeam(1e-4, ps[0], ax[0]), OneDBeam(p['w2'], ps[1], ax[1])
    z2 = np.pi * p['w2'] ** 2 * nn[1] / lam[1]
    w = arr(b1.calc_optimal_beam_overlap_in_crystal(ps[0], ps[1], b2, x, *([p['L']] if p['arg'] else [])), (p['n'],), 'optimal waist')
    require(np.all(w > 0), 'optimal waist is not positive')
    close(b1.waist, 1e-4, 1e-15, 0, 'waist after the search')

    def mean(w, L):
        z1 = np.pi * w ** 2 * nn[0] / lam[0]
        a = kk[1] * z1 + kk[0] * z2
        t, wt = np.polynomial.legendre.leggauss(40)
        z = np.abs(t)[:, None] * L
        return np.sum(wt[:, None] / 2 * 4 * kk[0] * kk[1] * z1 * z2 / ((kk[0] - kk[1]) ** 2 * z ** 2 + a ** 2), axis=0)
    # equal wave numbers: the other beam's own shape is the best
    if p['n'] == 4:
        ws = arr(OneDBeam(1e-4, ps[1], ax[0]).calc_optimal_beam_overlap_in_crystal(ps[1], ps[1], OneDBeam(p['w2'], ps[1], ax[0]), x, *([p['L']] if p['arg'] else [])), (p['n'],), 'optimal waist')
        close(ws, np.full(p['n'], p['w2']), 1e-2, 0, 'optimal waist for a beam of the same color')
    # integrated from the focus on, either over the whole length or half of it
    ok = []
    for L in (p['L'], p['L'] / 2):
        best = np.max([mean(p['w2'] * s, L) for s in np.geomspace(.02, 50., 400)], axis=0)
        ok.append(mean(w, L) / best)
    require(np.max([np.min(o) for o in ok]) > .998, 'overlap with the optimal waist is %.4f of what another waist gives', np.max([np.min(o) for o in ok]))
    ctx.trivial(abs(kk[0][0] - kk[1][0]) * p['L'] < .1 * kk[1][0] * z2[0])


@sub('P30', 'waveguide', st.fixed_dictionaries(dict(T=F(20., 200.), T2=F(20., 200.), Aeff=logF(.1, 1e4), A2=logF(.1, 1e4), z=F(-.1, .1), **BG)), quick=200,
     rule='waveguide mode of fixed area')
def waveguide(p, ctx):
    from pynlo.light import OneDBeam_highV_WG
    x, m = build('ppln', p['T'], 0, .01)
    g = dict(N=p['n'], Tw=p['n'] / (.8 * p['bw'] * C_NMPS / p['wl']), wl=p['wl'], frep=100.)
    pl = make_pulse(g)
    lam = 2 * np.pi * C / (gW(g) * 1e12)
    nn = m.n(lam * 1e9)
    b, c = OneDBeam_highV_WG(p['Aeff'], pl), OneDBeam_highV_WG(p['A2'], pl)
    close(b.Aeff, p['Aeff'] * 1e-12, 1e-12, 0, 'mode area')
    e = 1 / np.sqrt(p['Aeff'] * 1e-12 * nn * EPS0 * C)
    close(b.rtP_to_a(nn), e, 1e-9, 0, 'conversion')
    close(b.rtP_to_a(nn, p['z']), e, 1e-9, 0, 'conversion at a position')
    close(b.rtP_to_a_2(pl, x, p['z']), e, 1e-9, 0, 'conversion in a crystal')
    close(b.calculate_gouy_phase(p['z'], nn) * np.ones(p['n']), np.ones(p['n']), 0, 0, 'Gouy factor')
    close(b.calc_overlap_integral(p['z'], pl, pl, c, x) * 1.0, 1.0, 0, 0, 'overlap')
    close(b.get_n_in_crystal(pl, x), nn, 1e-10, 0, 'index')
    close(b.get_k_in_crystal(pl, x), 2 * np.pi * nn / lam, 1e-10, 0, 'wave number')
    x.set_T(p['T2'])
    n2 = Model('ppln', T=p['T2']).n(lam * 1e9)
    close(b.get_n_in_crystal(pl, x), n2, 1e-10, 0, 'index at another temperature')
    close(b.get_k_in_crystal(pl, x), 2 * np.pi * n2 / lam, 1e-10, 0, 'wave number at another temperature')
    close(b.rtP_to_a_2(pl, x, p['z']), e * np.sqrt(nn / n2), 1e-9, 0, 'conversion at another temperature')
    b.set_Aeff(p['A2'] * 1e-12)
    close(b.rtP_to_a(nn), e * np.sqrt(p['Aeff'] / p['A2']), 1e-9, 0, 'conversion after changing the area')


# ------------------------------------------------------------------ P31
@st.composite
def gratings(draw):
    """Lines/mm, incidence angle and wavelength with a real first order."""
    wl = draw(F(400., 2500.))
    x = draw(F(.3, 1.6))                        # lambda / d
    beta = draw(F(-.85, .85))                   # sine of the diffracted angle
    sg = x - beta
    if not -.98 < sg < .98:
        sg = max(-.9, min(.9, sg))
        beta = x - sg
    if not -.9 < beta < .9:
        x = sg + max(-.85, min(.85, beta))
        if x < .1:
            sg, x = .5, .6
    return dict(lines=x / (wl * 1e-6), deg=float(np.degrees(np.arcsin(sg))), wl=wl, sep=draw(logF(1e-5, 1.)) * draw(st.sampled_from([1, 1, 1, -1])))    # negative: a stretcher


def treacy(p, w, sep):
    """(group delay per pass, its derivative) at angular frequency w, by ray tracing."""
    d = 1e-3 / p['lines']
    sg = np.sin(np.radians(p['deg']))
    cg = np.cos(np.radians(p['deg']))
    s = 2 * np.pi * C / (w * d) - sg            # sine of the diffracted angle
    cb = np.sqrt(1 - s ** 2)
    # slant b = G / cos(beta), p = b (1 + cos(gamma - beta))
    return sep / C * (1 + cg * cb + sg * s) / cb


def treacy_slope(p, w, sep):
    """Derivative of the group delay, closed form."""
    d = 1e-3 / p['lines']
    sg, cg = np.sin(np.radians(p['deg'])), np.cos(np.radians(p['deg']))
    s = 2 * np.pi * C / (w * d) - sg
    cb = np.sqrt(1 - s ** 2)
    # d/ds of (1 + sg s) / cb, plus the constant cg
    return sep / C * (sg / cb + (1 + sg * s) * s / cb ** 3) * (-2 * np.pi * C / (w ** 2 * d))


def treacy_derivs(p, w, sep, nmax):
    """Derivatives of the group delay by high-precision differentiation."""
    import mpmath as mp
    with mp.workdps(60):
        d = mp.mpf('1e-3') / mp.mpf(p['lines'])
        g = mp.mpf(p['deg']) * 2 * mp.pi / 360
        c = mp.mpf(C)

        def f(x):
            s = 2 * mp.pi * c / (x * d) - mp.sin(g)
            cb = mp.sqrt(1 - s * s)
            return mp.mpf(sep) / c * (1 + mp.cos(g) * cb + mp.sin(g) * s) / cb
        return [float(v) for v in mp.taylor(f, mp.mpf(w), nmax)]


def _nth(p, w, sep, n):
    """n-th derivative of the group delay per pass (contour integral)."""
    import math
    s0 = 2 * np.pi * C / (w * 1e-3 / p['lines'])
    sg = np.sin(np.radians(p['deg']))
    # distance to the branch points s = +-1 (complex plane) and to w = 0
    wa = [2 * np.pi * C / (1e-3 / p['lines'] * (q + sg)) for q in (1., -1.) if abs(q + sg) > 1e-9]
    r = .5 * min([abs(w)] + [abs(w - x) for x in wa])
    m = 128
    th = 2 * np.pi * np.arange(m) / m
    z = w + r * np.exp(1j * th)
    v = treacy(p, z, sep)
    return math.factorial(n) * np.real(np.mean(v * np.exp(-1j * n * th))) / r ** n


@sub('P31', 'orders', st.fixed_dictionaries(dict(g=gratings(), arr=st.booleans())), quick=800, thorough=20000,
     rule='angles, group delay and dispersion orders against ray tracing differentiated by contour integrals')
def orders(p, ctx):
    from pynlo.devices.grating_compressor import TreacyCompressor
    g = p['g']
    t = TreacyCompressor(g['lines'], g['deg'])
    d = 1e-3 / g['lines']
    w = 2 * np.pi * C / (g['wl'] * 1e-9)
    s = g['wl'] * 1e-9 / d - np.sin(np.radians(g['deg']))
    if abs(s) > .93:
        ctx.trivial()
        return
    th = arr(t.calc_theta(g['wl']), (), 'angle between the rays')
    close(np.sin(np.radians(g['deg']) - th) + np.sin(np.radians(g['deg'])), g['wl'] * 1e-9 / d, 1e-9, 1e-12, 'grating equation')
    wl = np.array([g['wl'], g['wl'] * .999, g['wl'] * 1.001])
    near = np.array([1 - 1e-6, 1 + 3e-6, 1 - 1e-8]) * g['wl']
    w0 = wl.copy()
    close(t.calc_theta(wl), np.radians(g['deg']) - np.arcsin(wl * 1e-9 / d - np.sin(np.radians(g['deg']))), 1e-9, 1e-9, 'angles')
    equal(wl, w0, 'wavelengths handed over')
    # colors without a first order are given the angle of grazing diffraction, the others their own
    lo_, hi_ = np.sort(np.array([-1, 1]) * d + d * np.sin(np.radians(g['deg']))) * 1e9
    wm = np.array([g['wl'], hi_ * 1.2, g['wl'] * 1.001] + ([lo_ * .8] if lo_ > 0 else []))
    sm = np.clip(wm * 1e-9 / d - np.sin(np.radians(g['deg'])), -1, 1)
    close(t.calc_theta(wm), np.radians(g['deg']) - np.arcsin(sm), 1e-9, 1e-9, 'angles of possible and impossible colors')
    for x, sx in zip(wm, sm):
        for one in (float(x), np.float64(x)):
            close(t.calc_theta(one), np.radians(g['deg']) - np.arcsin(sx), 1e-9, 1e-9, 'angle of one color')
    close(t.calc_dphi_domega(w, g['sep']), treacy(g, w, g['sep']), 1e-10, 0, 'group delay of one pass')
    g1 = _nth(g, w, g['sep'], 1)
    close(t.calc_dt_dw_singlepass(g['wl'], g['sep']), g1, 1e-8, 0, 'dispersion of one pass')
    close(t.calc_compressor_gdd(g['wl'], g['sep']), 2 * g1, 1e-8, 0, 'dispersion of the compressor')
    close(t.calc_compressor_gdd(wl, g['sep']), [2 * _nth(g, 2 * np.pi * C / (x * 1e-9), g['sep'], 1) for x in wl], 1e-8, 0, 'dispersion at several wavelengths')
    require(t.calc_compressor_gdd(g['wl'], g['sep']) * g['sep'] < 0, 'compressor dispersion is not anomalous')
    for x in near:
        # wavelengths picometres apart are told apart
        wx = 2 * np.pi * C / (x * 1e-9)
        close(t.calc_theta(x), np.radians(g['deg']) - np.arcsin(x * 1e-9 / d - np.sin(np.radians(g['deg']))), 1e-12, 1e-13, 'angle at a nearby wavelength')
        close(t.calc_dphi_domega(wx, g['sep']), treacy(g, wx, g['sep']), 1e-12, 0, 'group delay at a nearby wavelength')
        close(t.calc_compressor_gdd(x, g['sep']), 2 * treacy_slope(g, wx, g['sep']), 1e-10, 0, 'dispersion at a nearby wavelength')
    close(t.calc_compressor_gdd(g['wl'], 3 * g['sep']), 6 * g1, 1e-8, 0, 'dispersion at three times the separation')


@sub('P31', 'high_orders', st.fixed_dictionaries(dict(g=gratings(), n=st.integers(3, 5))), quick=600, thorough=12000,
     rule='third to fifth order dispersion; non-trivial away from grazing diffraction, where the finite differences resolve it')
def high_orders(p, ctx):
    from pynlo.devices.grating_compressor import TreacyCompressor
    g, n = p['g'], p['n']
    t = TreacyCompressor(g['lines'], g['deg'])
    d = 1e-3 / g['lines']
    sg = np.sin(np.radians(g['deg']))
    s = g['wl'] * 1e-9 / d - sg
    w = 2 * np.pi * C / (g['wl'] * 1e-9)
    # the finite differences reach 2.5 THz, the polynomial fit 1 THz to each side
    w1 = [abs(w - 2 * np.pi * C / (d * (q + sg))) for q in (1., -1.) if abs(q + sg) > 1e-6]
    room = min(w1 + [w])
    try:
        t.calc_compressor_HOD(g['wl'], g['sep'], 2)
    except ValueError:
        pass
    else:
        raise Violation('order 2 accepted as a higher order')
    try:
        t.calc_compressor_dnphi_domega_n(g['wl'], g['sep'], 0)
    except ValueError:
        pass
    else:
        raise Violation('order 0 accepted')
    if abs(s) > .93 or room < 2 * np.pi * 12e12:
        ctx.trivial()
        return
    h = 2 * np.pi * .5e12
    e = 2 * _nth(g, w, g['sep'], n - 1)
    scale = 2 * abs(_nth(g, w, g['sep'], 1))
    noise = 30 * 2.3e-16 * scale / h ** (n - 2)
    close(t.calc_compressor_HOD(g['wl'], g['sep'], n), e, 2e-3, 5 * noise, 'order %d' % n)


@sub('P31', 'fit_orders', st.fixed_dictionaries(dict(g=gratings(), n=st.integers(1, 2))), quick=400, thorough=8000,
     rule='derivatives of the group delay from the polynomial fit, in powers of fs')
def fit_orders(p, ctx):
    from pynlo.devices.grating_compressor import TreacyCompressor
    g, n = p['g'], p['n']
    t = TreacyCompressor(g['lines'], g['deg'])
    d = 1e-3 / g['lines']
    sg = np.sin(np.radians(g['deg']))
    w = 2 * np.pi * C / (g['wl'] * 1e-9)
    w1 = [abs(w - 2 * np.pi * C / (d * (q + sg))) for q in (1., -1.) if abs(q + sg) > 1e-6]
    if abs(g['wl'] * 1e-9 / d - sg) > .93 or min(w1 + [w]) < 4e13:
        ctx.trivial()
        return
    e = _nth(g, w, g['sep'], n) * 1e15 ** (n + 1)
    noise = 2.3e-16 * abs(treacy(g, w, g['sep'])) / (.2e12) ** n * 1e15 ** (n + 1)
    close(t.calc_compressor_dnphi_domega_n(g['wl'], g['sep'], n), e, 1e-5, 10 * noise, 'derivative %d of the group delay' % n)


@sub('P31', 'apply', st.fixed_dictionaries(dict(g=gratings(), N=st.sampled_from([16, 32, 80, 128]), bw=F(.005, .06), seed=SEED, sep=st.tuples(logF(1e-5, 3e-3), st.sampled_from([1, 1, 1, -1])).map(lambda t: t[0] * t[1]), pos=F(-.2, .2),
                                            weak=st.sampled_from([0, 0, 3, 8]))), quick=120,
     thorough=2000, rule='phase given to a pulse against the integrated group delay, up to a delay and a constant phase')
def apply_(p, ctx):
    from pynlo.devices.grating_compressor import TreacyCompressor
    gr = p['g']
    d = 1e-3 / gr['lines']
    sg = np.sin(np.radians(gr['deg']))
    w0 = 2 * np.pi * C / (gr['wl'] * 1e-9)
    g = dict(N=p['N'], Tw=p['N'] / (2 * p['bw'] * C_NMPS / gr['wl']), wl=gr['wl'], frep=100.)
    W = gW(g) * 1e12
    s = 2 * np.pi * C / (W * d) - sg
    if np.max(np.abs(s)) > .95:
        ctx.trivial()
        return
    rng = np.random.RandomState(p['seed'])
    aw = rng.normal(size=p['N']) + 1j * rng.normal(size=p['N'])
    if p['weak']:
        # strong and weak colours in one pulse
        aw = aw * 10. ** rng.uniform(-p['weak'], 0, p['N'])
    pl = make_pulse(g, aw=aw)
    before = pulse_state(pl)
    TreacyCompressor(gr['lines'], gr['deg']).apply_phase_to_pulse(p['sep'], pl)
    r = pl.AW / aw
    rnd = 1e-14 * np.max(np.abs(aw)) / np.min(np.abs(aw))      # rounding of the transforms, seen by the weakest colour
    close(np.abs(r), np.ones(p['N']), 1e-9 + rnd, 0, 'spectral amplitude')
    after = pulse_state(pl)
    for k, nm in enumerate(('point count', 'time window', 'center wavelength', 'repetition rate')):
        require(before[k] == after[k], '%s changed', nm)
    xg, wg = np.polynomial.legendre.leggauss(24)
    ph = np.array([np.sum(wg * treacy(gr, w0 + (x - w0) * (xg + 1) / 2, p['sep'])) * (x - w0) for x in W])    # 2 * int dphi/dw
    q = r * np.exp(-1j * ph)
    # what is left may be a delay and a constant: successive ratios are equal
    st_ = q[1:] / q[:-1]
    tol = 1e-6 + 4 * rnd + 1e-7 * np.max(np.abs(ph)) + 1e-9 * abs(p['sep']) / C * np.max(np.abs(W - w0))
    require(np.max(np.abs(st_ - st_[0])) <= tol, 'phase differs from the compressor\'s by more than a delay (%g, allowed %g)', np.max(np.abs(st_ - st_[0])), tol)
    lin = np.polyval(np.polyfit(W - w0, ph, 1), W - w0)
    ctx.trivial(np.max(np.abs(ph - lin)) < 10 * tol)
