"""P01-P09: the pulse (light field) representation."""
import copy, json, os, pickle, tempfile
import numpy as np
from hypothesis import strategies as st
from util import *
from core import sub, Violation

# ------------------------------------------------------------------ P01
GRID_READS = ['wl_nm', 'W_THz', 'F_THz', 'V_THz', 'T_ps', 'wl_mks', 'W_mks', 'F_mks', 'V_mks', 'T_mks']
SCALARS = ['dT_ps', 'dT_mks', 'dF_THz', 'dF_mks', 'time_window_ps', 'time_window_mks', 'center_wavelength_nm',
           'center_wavelength_mks', 'center_frequency_THz', 'center_frequency_mks', 'frep_MHz', 'frep_mks', 'NPTS']

_n_any = st.integers(2, 300)
_op = st.one_of(
    st.tuples(st.just('npts'), _n_any),
    st.tuples(st.just('tw_ps'), logF(0.05, 500)),
    st.tuples(st.just('tw_s'), logF(0.05e-12, 500e-12)),
    st.tuples(st.just('fw_THz'), logF(0.5, 2000)),
    st.tuples(st.just('fw_mks'), logF(0.5e12, 2000e12)),
    st.tuples(st.just('wl_nm'), F(200., 10000.)),
    st.tuples(st.just('wl_m'), F(200e-9, 10000e-9)),
    st.tuples(st.just('frep'), logF(1e-3, 1e5)),
    st.tuples(st.just('read'), st.sampled_from(GRID_READS)),
    st.tuples(st.just('poke'), st.sampled_from(GRID_READS)),
    # a change that keeps everything but one quantity close to the last one
    st.tuples(st.just('tw_scale'), F(0.3, 3.0)),
    st.tuples(st.just('wl_nudge'), st.one_of(F(-1e-3, 1e-3), logF(1e-9, 1e-3))),
    st.tuples(st.just('tw_scale'), logF(1e-9, 1e-3).map(lambda d: 1 + d)),
    st.tuples(st.just('npts_scale'), st.sampled_from([2, 3, 10])),
    # points and window changed together: the span of frequencies stays
    st.tuples(st.just('both'), st.tuples(st.sampled_from([2, 3, 4]), st.booleans())),
)


def _grid_model(m):
    n, tw, f0 = m['n'], m['tw'], m['f0']
    k = np.arange(n)
    d = {}
    d['T_ps'] = -tw / 2 + k * tw / n
    d['V_THz'] = 2 * np.pi * (k - n / 2.0) / tw
    d['W_THz'] = d['V_THz'] + 2 * np.pi * f0
    d['F_THz'] = (k - n / 2.0) / tw + f0
    with np.errstate(all='ignore'):
        d['wl_nm'] = C_NMPS / d['F_THz']
        d['wl_mks'] = d['wl_nm'] * 1e-9
    for a in ('W', 'F', 'V'):
        d[a + '_mks'] = d[a + '_THz'] * 1e12
    d['T_mks'] = d['T_ps'] * 1e-12
    d['dT_ps'] = tw / n
    d['dT_mks'] = tw / n * 1e-12
    d['dF_THz'] = 1 / tw
    d['dF_mks'] = 1e12 / tw
    d['time_window_ps'] = tw
    d['time_window_mks'] = tw * 1e-12
    d['center_wavelength_nm'] = C_NMPS / f0
    d['center_wavelength_mks'] = C_NMPS / f0 * 1e-9
    d['center_frequency_THz'] = f0
    d['center_frequency_mks'] = f0 * 1e12
    d['frep_MHz'] = m['frep']
    d['frep_mks'] = m['frep'] * 1e6
    d['NPTS'] = n
    return d


def _check_grid(p, m, names, what):
    d = _grid_model(m)
    n, tw, f0 = m['n'], m['tw'], m['f0']
    fmax = f0 + n / tw
    for nm in names:
        v = getattr(p, nm)
        e = d[nm]
        if nm.startswith('wl_'):
            v = arr(v, e.shape, nm)
            ok = np.abs(d['F_THz']) > 1e-4 * fmax
            close(v[ok], e[ok], 1e-9, 0, what + nm)
        elif nm.startswith('dF'):
            # difference of two absolute frequencies: rounding of the larger
            close(v, e, 1e-9, 1e-14 * fmax * (1e12 if nm.endswith('mks') else 1), what + nm)
        elif np.ndim(e):
            scale = np.max(np.abs(e))
            close(v, e, 1e-12, 1e-12 * scale, what + nm)
        else:
            close(v, e, 1e-12, 0, what + nm)


@sub('P01', 'setter_sequences',
     st.fixed_dictionaries(dict(
         n=_n_any, frep=logF(1e-3, 1e5), wl=F(200., 10000.), tw=logF(0.05, 500.),
         ops=st.lists(_op, min_size=1, max_size=14))),
     quick=2400, thorough=60000,
     fixed=[dict(n=64, frep=100., wl=1550., tw=10., ops=[['read', 'wl_nm'], ['tw_ps', 20.], ['read', 'wl_nm']]),
            dict(n=64, frep=100., wl=1550., tw=10., ops=[['read', 'W_mks'], ['fw_THz', 3.2], ['read', 'W_mks']]),
            dict(n=64, frep=100., wl=1550., tw=10., ops=[['poke', 'wl_nm'], ['read', 'wl_nm']]),
            dict(n=12, frep=100., wl=1550., tw=810., ops=[['read', 'wl_nm'], ['npts', 128], ['tw_ps', 10.0]])],
     rule='non-trivial when a setter follows a read')
def setter_sequences(p, ctx):
    from pynlo.light.PulseBase import Pulse
    q = Pulse(frep_MHz=p['frep'], n=p['n'])
    q.set_center_wavelength_nm(p['wl'])
    q.set_time_window_ps(p['tw'])
    m = dict(n=p['n'], tw=p['tw'], f0=C_NMPS / p['wl'], frep=p['frep'])
    read = False
    nt = False
    for i, (op, v) in enumerate(p['ops']):
        what = 'after op %d (%s): ' % (i, op)
        if op == 'npts':
            q.set_NPTS(v); m['n'] = v
        elif op == 'npts_scale':
            v = min(m['n'] * v, 3000)
            q.set_NPTS(v); m['n'] = v
        elif op == 'both':
            k, first = v
            n2, t2 = min(m['n'] * k, 3000), m['tw'] * min(m['n'] * k, 3000) / m['n']
            if first:
                q.set_NPTS(n2)
                q.set_time_window_ps(t2)
            else:
                q.set_time_window_ps(t2)
                q.set_NPTS(n2)
            m['n'], m['tw'] = n2, t2
        elif op == 'tw_ps':
            q.set_time_window_ps(v); m['tw'] = v
        elif op == 'tw_scale':
            v = v * m['tw']
            q.set_time_window_ps(v); m['tw'] = v
        elif op == 'tw_s':
            q.set_time_window_s(v); m['tw'] = v * 1e12
        elif op == 'fw_THz':
            q.set_frequency_window_THz(v); m['tw'] = m['n'] / v
        elif op == 'fw_mks':
            q.set_frequency_window_mks(v); m['tw'] = m['n'] / v * 1e12
        elif op == 'wl_nm':
            q.set_center_wavelength_nm(v); m['f0'] = C_NMPS / v
        elif op == 'wl_nudge':
            v = C_NMPS / m['f0'] * (1 + v)
            q.set_center_wavelength_nm(v); m['f0'] = C_NMPS / v
        elif op == 'wl_m':
            q.set_center_wavelength_m(v); m['f0'] = C_NMPS / (v * 1e9)
        elif op == 'frep':
            q.set_frep_MHz(v); m['frep'] = v
        elif op == 'read':
            _check_grid(q, m, [v], what)
            read = True
            continue
        elif op == 'poke':
            a = getattr(q, v)
            try:
                a *= 0.5
                a += 7.0
            except (ValueError, TypeError):
                pass
            _check_grid(q, m, [v], what + 'after changing a returned array, ')
            read = True
            continue
        nt = nt or read
        if (i * 7 + p['n']) % 3 == 0:
            _check_grid(q, m, SCALARS, what)
    _check_grid(q, m, SCALARS + GRID_READS, 'at the end: ')
    _check_grid(q, m, GRID_READS, 'read again: ')
    ctx.trivial(not nt)


@sub('P01', 'setting_order', st.fixed_dictionaries(dict(
    order=st.permutations(['npts', 'tw', 'wl']), n=_n_any, tw=logF(.05, 500), wl=F(200., 10000.), kind=st.sampled_from(['ps', 's', 'THz', 'mks']), ctor=st.booleans(),
    peek=st.booleans(), seed=SEED)), quick=400,
     rule='an empty pulse refuses axes and fields; settings made in any order give the same grid')
def setting_order(p, ctx):
    from pynlo.light.PulseBase import Pulse
    q = Pulse(n=p['n'], frep_MHz=100.) if p['ctor'] else Pulse()
    rng = np.random.RandomState(p['seed'])

    def refuse(name, f):
        try:
            v = f()
        except (RuntimeError, ValueError, TypeError, AttributeError):
            return
        raise Violation('%s of an empty pulse gave %r instead of an error' % (name, v))
    at = rng.normal(size=p['n']) + 1j
    if not p['ctor']:
        for nm in GRID_READS + ['dT_ps', 'dT_mks', 'dF_THz', 'dF_mks', 'AW', 'AT']:
            refuse(nm, lambda: getattr(q, nm))
        refuse('set_AT', lambda: q.set_AT(at))
        refuse('set_AW', lambda: q.set_AW(at))
    order = list(p['order'])
    if p['kind'] in ('THz', 'mks') and order.index('tw') < order.index('npts'):
        # a frequency window needs the number of points
        order.remove('npts')
        order.insert(order.index('tw'), 'npts')
    for o in order:
        if o == 'npts':
            if not p['ctor']:
                q.set_NPTS(p['n'])
        elif o == 'wl':
            q.set_center_wavelength_nm(p['wl'])
        elif p['kind'] == 'ps':
            q.set_time_window_ps(p['tw'])
        elif p['kind'] == 's':
            q.set_time_window_s(p['tw'] * 1e-12)
        elif p['kind'] == 'THz':
            q.set_frequency_window_THz(p['n'] / p['tw'])
        else:
            q.set_frequency_window_mks(p['n'] / p['tw'] * 1e12)
        if p['peek']:
            for nm in GRID_READS:
                try:
                    getattr(q, nm)
                except Exception:
                    pass
    m = dict(n=p['n'], tw=p['tw'], f0=C_NMPS / p['wl'], frep=100.)
    q.set_frep_MHz(100.)
    _check_grid(q, m, GRID_READS + SCALARS, 'once complete: ')
    q.set_AT(at)
    vclose(q.AT, at, 1e-12, 'field set once complete')


@sub('P01', 'derived_classes',
     st.fixed_dictionaries(dict(cls=st.sampled_from(['Sech', 'Gauss', 'Sinc', 'CW', 'CWoff', 'Noise']),
                                g=grid(lo=1.001), off=F(-.45, .45))),
     quick=400, rule='grids of every analytic pulse class')
def derived_classes(p, ctx):
    from pynlo.light import DerivedPulses as D
    g = p['g']
    n, tw, wl, fr = g['N'], g['Tw'], g['wl'], g['frep']
    f0 = C_NMPS / wl
    if p['cls'] == 'Sech':
        q = D.SechPulse(1.0, tw / 20, wl, time_window_ps=tw, frep_MHz=fr, NPTS=n)
    elif p['cls'] == 'Gauss':
        q = D.GaussianPulse(1.0, tw / 20, wl, time_window_ps=tw, frep_MHz=fr, NPTS=n)
    elif p['cls'] == 'Sinc':
        q = D.SincPulse(1.0, tw / 20, wl, time_window_ps=tw, frep_MHz=fr, NPTS=n)
    elif p['cls'] == 'Noise':
        q = D.NoisePulse(wl, time_window_ps=tw, NPTS=n, frep_MHz=fr)
    elif p['cls'] == 'CW':
        q = D.CWPulse(1.0, wl, time_window_ps=tw, NPTS=n)
        fr = 100.0
    else:
        noff = round(p['off'] * n / 2.2)
        q = D.CWPulse(1.0, wl, time_window_ps=tw, NPTS=n, offset_from_center_THz=noff / tw)
        fr = 100.0
        f0 = f0 - noff / tw
    _check_grid(q, dict(n=n, tw=tw, f0=f0, frep=fr), SCALARS + GRID_READS, p['cls'] + ': ')


# ------------------------------------------------------------------ P02
@sub('P02', 'transform_pair', grid_field(), quick=1200, thorough=30000,
     fixed=[dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), f=dict(kind='two', seed=3, amp=1.0))],
     rule='AT/AW against the directly summed Fourier series on the reported grids')
def transform_pair(p, ctx):
    g = p['g']
    at = build_field(p['f'], g)
    q = make_pulse(g, at=at)
    T, V = q.T_ps, q.V_THz
    M = np.exp(1j * np.outer(V, T)) if g['N'] <= 200 else None
    s = np.linalg.norm(at)
    tol = 1e-10 * s
    close(q.AT, at, 1e-10, tol, 'AT after setting AT')
    aw = q.AW
    close(aw, M @ at / g['N'] if M is not None else dft(at), 0, tol, 'AW of a given AT')
    close(np.sum(np.abs(aw) ** 2) * g['N'], np.sum(np.abs(at) ** 2), 1e-10, 0, 'Parseval')
    # the other direction with an arbitrary spectrum
    rng = np.random.RandomState(p['f']['seed'] ^ 77)
    bw = rng.normal(size=g['N']) + 1j * rng.normal(size=g['N'])
    q.set_AW(bw)
    close(q.AW, bw, 0, 0, 'AW after setting AW')
    close(q.AT, M.conj().T @ bw if M is not None else idft(bw), 0, 1e-9 * g['N'], 'AT of a given AW')
    # a single bin is an oscillation at exactly that relative frequency
    k = p['f']['seed'] % g['N']
    e = np.zeros(g['N'], complex)
    e[k] = 1.0
    q.set_AW(e)
    close(q.AT, np.exp(-1j * V[k] * T), 0, 1e-10 * g['N'], 'AT of one spectral bin')


@sub('P02', 'odd_grids', st.fixed_dictionaries(dict(n=st.integers(1, 150).map(lambda k: 2 * k + 1), seed=SEED)),
     quick=300, rule='round trip and Parseval on odd point counts')
def odd_grids(p, ctx):
    g = dict(N=p['n'], Tw=20., wl=1550., frep=100.)
    rng = np.random.RandomState(p['seed'])
    a = rng.normal(size=p['n']) + 1j * rng.normal(size=p['n'])
    q = make_pulse(g, at=a)
    close(q.AT, a, 1e-11, 1e-11 * p['n'], 'AT after setting AT')
    close(np.sum(np.abs(q.AW) ** 2) * p['n'], np.sum(np.abs(a) ** 2), 1e-10, 0, 'Parseval')
    q.set_AW(a)
    close(q.AW, a, 0, 0, 'AW after setting AW')
    q.set_AT(q.AT)
    close(q.AW, a, 1e-11, 1e-11 * p['n'], 'AW after writing AT back')


_fop = st.one_of(
    st.tuples(st.just('setAT'), FIELD, st.sampled_from(['c', 'list', 'real', 'strided', 'c64', 'int'])),
    st.tuples(st.just('setAW'), FIELD, st.sampled_from(['c', 'list', 'real', 'strided', 'c64', 'int'])),
    st.tuples(st.just('pokeAT')), st.tuples(st.just('pokeAW')), st.tuples(st.just('pokein')),
    st.tuples(st.just('scale'), st.one_of(F(-2, -.1), F(.1, 2))),
)


@sub('P02', 'isolation', st.fixed_dictionaries(dict(g=grid(), ops=st.lists(_fop, min_size=2, max_size=10))),
     quick=800, rule='non-trivial when a caller-held array is changed after a set')
def isolation(p, ctx):
    g = p['g']
    q = make_pulse(g)
    cur, held, nt = None, None, False
    for i, op in enumerate(p['ops']):
        what = 'op %d %s: ' % (i, op[0])
        if op[0] in ('setAT', 'setAW'):
            x = build_field(op[1], g) / op[1]['amp'] * 3.0
            tol = 1e-10
            if op[2] == 'real':
                x = np.real(x).copy()
            elif op[2] == 'int':
                x = np.round(np.real(x) * 3).astype(int)
            elif op[2] == 'c64':
                x = x.astype(np.complex64)
                tol = 2e-6
            elif op[2] == 'strided':
                y = np.zeros(2 * g['N'], complex)
                y[::2] = x
                x = y[::2]
            val = np.array(x, complex)
            held = list(x) if op[2] == 'list' else x
            getattr(q, 'set_' + op[0][3:])(held)
            if op[0] == 'setAT':
                cur = dft(val)
                tol *= 1
            else:
                cur = val
        elif cur is None:
            continue
        elif op[0] == 'scale':
            q.set_AW(op[1] * q.AW)
            cur = op[1] * cur
        else:
            nt = True
            if op[0] == 'pokein':
                if isinstance(held, list):
                    held[0] = 99.0
                else:
                    held[...] = 42
            else:
                a = getattr(q, op[0][4:])
                a[:] = 17.0
        s = np.linalg.norm(cur) + 1e-300
        close(q.AW, cur, 0, 5e-6 * s if any(len(o) > 2 and o[2] == 'c64' for o in p['ops']) else 1e-10 * s,
              what + 'spectrum')
        close(q.AT, idft(cur), 0, (5e-6 if any(len(o) > 2 and o[2] == 'c64' for o in p['ops']) else 1e-9)
              * s * g['N'], what + 'field')
    ctx.trivial(not nt)


@sub('P02', 'axes', st.fixed_dictionaries(dict(a=st.integers(1, 12), n=st.integers(1, 20), ax=st.integers(0, 1),
                                               seed=SEED)), quick=300,
     rule='two-dimensional transforms act on one axis')
def axes(p, ctx):
    from pynlo.util import FFT_t, IFFT_t
    rng = np.random.RandomState(p['seed'])
    n = 2 * p['n']
    x = rng.normal(size=(p['a'], n)) + 1j * rng.normal(size=(p['a'], n))
    if p['ax'] == 0:
        x = x.T.copy()
    y0 = x.copy()
    y = FFT_t(x, ax=p['ax'])
    ref = np.apply_along_axis(dft, p['ax'], x)
    close(y, ref, 0, 1e-10 * n, 'FFT along axis %d' % p['ax'])
    close(IFFT_t(x, ax=p['ax']), np.apply_along_axis(idft, p['ax'], x), 0, 1e-10 * n * n, 'inverse FFT along axis')
    close(IFFT_t(y, ax=p['ax']), x, 0, 1e-10 * n, 'round trip along axis')
    equal(x, y0, 'the transformed array')


# ------------------------------------------------------------------ P03
def _localized(draw_g, seed, amp, chirped=True):
    """Pulse-like field negligible (<1e-12) at the window edges."""
    rng = np.random.RandomState(seed)
    T, Tw = gT(draw_g), draw_g['Tw']
    a = np.zeros(draw_g['N'], complex)
    for _ in range(rng.randint(1, 4)):
        t0 = rng.uniform(-.12, .12) * Tw
        w = rng.uniform(.02, .045) * Tw
        a = a + rng.normal() * np.exp(-((T - t0) / w) ** 2 / 2 * (1 + (1j * rng.normal() if chirped else 0))
                                      + 2j * np.pi * rng.rand())
    return a * amp


@sub('P03', 'energy', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 32)), seed=SEED, amp=logF(1e-3, 1e5), E=logF(1e-28, 1.),
    E2=logF(1e-28, 1.), near=st.tuples(logF(1e-9, 1e-2), st.sampled_from([-1, 1])),
    mode=st.sampled_from(['local', 'flat']))),
     quick=1000, rule='pulse energy against an independent quadrature; set_epp round trip, also to an energy close to '
                      'the present one')
def energy(p, ctx):
    g = p['g']
    if p['mode'] == 'local':
        at = _localized(g, p['seed'], p['amp'])
    else:
        rng = np.random.RandomState(p['seed'])
        at = p['amp'] * np.exp(2j * np.pi * rng.rand(g['N']))
        at[0] = at[-1] = 0
    if np.max(np.abs(at)) < 1e-8 * p['amp']:
        ctx.trivial()
        return
    q = make_pulse(g, at=at)
    dt = g['Tw'] / g['N'] * 1e-12
    e0 = dt * np.sum(np.abs(at) ** 2)
    close(q.calc_epp(), e0, 1e-8, 0, 'pulse energy')
    ph = np.angle(at)
    for E in (p['E'], p['E2'], p['E2'] * (1 + p['near'][0] * p['near'][1])):
        q.set_epp(E)
        close(q.calc_epp(), E, 1e-12 * g['N'] ** .5 + 1e-11, 0, 'pulse energy after setting it')
        close(q.AT, at * np.sqrt(E / e0), 1e-8, 1e-8 * np.max(np.abs(at)) * np.sqrt(E / e0),
              'field shape after setting the energy')
    st_ = pulse_state(q)
    q.calc_epp()
    same_state(pulse_state(q), st_, 'computing the energy')
    require(q.frep_MHz == g['frep'] and q.time_window_ps == g['Tw'], 'setting the energy changed the grid')


@sub('P03', 'average_power', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 64), max_ratio=.8, lo=1.001), cls=st.sampled_from(['Sech', 'Gauss', 'Sinc', 'CW', 'CWoff', 'FROG']),
    P=logF(1e-6, 1e3), w=F(20., 60.), gdd=F(-1, 1), tod=F(-1, 1), c2=F(-2, 2), c3=F(-2, 2),
    off=F(-.45, .45), chirp=st.booleans())),
     quick=800, rule='average power of generated pulses equals the requested one')
def average_power(p, ctx):
    from pynlo.light import DerivedPulses as D
    g = p['g']
    T0 = g['Tw'] / p['w']
    n = g['N']
    if p['cls'].startswith('CW'):
        kw = {}
        if p['cls'] == 'CWoff':
            kw['offset_from_center_THz'] = round(p['off'] * n) / g['Tw'] * .8
        q = D.CWPulse(p['P'], g['wl'], time_window_ps=g['Tw'], NPTS=n, **kw)
        close(np.sum(np.abs(q.AW) ** 2), p['P'], 1e-9, 0, 'CW power')
        close(np.mean(np.abs(q.AT) ** 2), p['P'], 1e-9, 0, 'CW instantaneous power')
        return
    if p['cls'] == 'FROG':
        # amplitude and phase against wavelength, as measured
        f = C_NMPS / g['wl'] + np.linspace(-.4, .4, 40) * n / g['Tw']
        fn = os.path.join(os.environ['PBT_SCRATCH'], 'avg_%d.dat' % os.getpid())
        np.savetxt(fn, np.column_stack([C_NMPS / f, np.exp(-np.linspace(-3, 3, 40) ** 2), p['gdd'] * np.linspace(-3, 3, 40) ** 2]))
        for avg in (True, False):
            E = p['P'] / (g['frep'] * 1e6) if avg else 1e-9 * p['P']
            q = D.FROGPulse(g['Tw'], g['wl'], p['P'] if avg else E, frep_MHz=g['frep'], NPTS=n, power_is_avg=avg, fileloc=fn, flip_phase=p['chirp'])
            close(q.calc_epp(), E, 1e-9, 0, 'energy of a pulse from file')
            close(q.calc_epp() * q.frep_mks, E * g['frep'] * 1e6, 1e-9, 0, 'average power of a pulse from file')
        os.unlink(fn)
        return
    kw = dict(time_window_ps=g['Tw'], frep_MHz=g['frep'], NPTS=n, power_is_avg=True)
    if p['cls'] == 'Sinc':
        q = D.SincPulse(p['P'], 3 * T0, g['wl'], **kw)
        close(q.calc_epp() * q.frep_mks, p['P'], 1e-9, 0, 'average power')
        return
    if p['chirp']:
        ctx.label('chirped')
        b = T0 ** 2
        kw.update(GDD=p['gdd'] * b, TOD=p['tod'] * .2 * b * T0, chirp2=p['c2'], chirp3=p['c3'])
    resolved = n > 4 * p['w']
    ctx.trivial(not resolved)
    if p['chirp'] and (not resolved or p['cls'] == 'Sech' and p['w'] < 40):
        return
    q = getattr(D, dict(Sech='SechPulse', Gauss='GaussianPulse')[p['cls']])(p['P'], T0, g['wl'], **kw)
    close(q.calc_epp() * q.frep_mks, p['P'], 1e-9 if not p['chirp'] else 2e-5, 0, 'average power')


# ------------------------------------------------------------------ P04
@sub('P04', 'analytic_shapes', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 16), lo=1.001), cls=st.sampled_from(['Sech', 'Gauss', 'Sinc']),
    P=st.one_of(logF(1e-3, 1e6), logF(1e-12, 1e9)), w=F(3., 80.), gdd=F(-2, 2), tod=F(-2, 2), c2=F(-3, 3), c3=F(-3, 3),
    which=st.integers(0, 15), avg=st.booleans())),
     quick=1200, rule='field against the documented closed form with chirps applied independently')
def analytic_shapes(p, ctx):
    from pynlo.light import DerivedPulses as D
    g = p['g']
    T0 = g['Tw'] / p['w']
    w = p['which']
    T, V = gT(g), gV(g)
    x = T / T0
    chirpT = T0
    if p['cls'] == 'Sech':
        A, width = 1 / np.cosh(x), T0
    elif p['cls'] == 'Gauss':
        A, width = np.exp(-2.77 * .5 * x ** 2), T0
    else:
        width = 3.7909885 * T0
        with np.errstate(all='ignore'):
            A = np.where(np.abs(x) < 1e-9, 1.0, np.sin(x) / np.where(np.abs(x) < 1e-9, 1, x))
    b = T0 ** 2
    kw = {}
    if w & 1: kw['GDD'] = p['gdd'] * b
    if w & 2: kw['TOD'] = p['tod'] * b * T0
    if w & 4: kw['chirp2'] = p['c2']
    if w & 8: kw['chirp3'] = p['c3']
    ctx.label('chirped' if kw else 'unchirped')
    if p['avg']:
        dt = g['Tw'] / g['N'] * 1e-12
        peak = p['P'] / (g['frep'] * 1e6) / (dt * np.trapz(np.abs(A) ** 2))
    else:
        peak = p['P']
    A = A * np.sqrt(peak)
    B = idft(dft(A + 0j) * np.exp(1j * (kw.get('GDD', 0) / 2 * V ** 2 + kw.get('TOD', 0) / 6 * V ** 3)))
    B = B * np.exp(-1j * (kw.get('chirp2', 0) / 2 * x ** 2 + kw.get('chirp3', 0) / 3 * x ** 3))
    cls = getattr(D, dict(Sech='SechPulse', Gauss='GaussianPulse', Sinc='SincPulse')[p['cls']])
    q = cls(p['P'], width, g['wl'], time_window_ps=g['Tw'], frep_MHz=g['frep'], NPTS=g['N'],
            power_is_avg=p['avg'], **kw)
    # the Gaussian width constant is documented to three digits only
    tol = 2e-3 if p['cls'] == 'Gauss' else 1e-6
    phasemax = abs(kw.get('GDD', 0)) / 2 * V[0] ** 2 + abs(kw.get('TOD', 0)) / 6 * abs(V[0]) ** 3
    close(q.AT, B, 0, (tol + 1e-13 * phasemax) * np.sqrt(peak), p['cls'] + ' field')
    if not kw:
        require(np.argmax(np.abs(q.AT)) == g['N'] // 2, 'pulse peak is not at T=0')


@sub('P04', 'default_arguments', st.fixed_dictionaries(dict(cls=st.sampled_from(['Sech', 'Gauss', 'Sinc', 'CW']),
     P=logF(1e-3, 1e5), w=F(.1, 1.0), wl=F(500., 3000.))), quick=100, rule='default grids and shapes')
def default_arguments(p, ctx):
    from pynlo.light import DerivedPulses as D
    if p['cls'] == 'CW':
        q = D.CWPulse(p['P'], p['wl'])
        require(q.NPTS == 256 and q.time_window_ps == 10.0, 'default CW grid')
        A = np.full(256, np.sqrt(p['P']))
    else:
        q = getattr(D, dict(Sech='SechPulse', Gauss='GaussianPulse', Sinc='SincPulse')[p['cls']])(p['P'], p['w'], p['wl'])
        require(q.NPTS == 1024 and q.time_window_ps == 10.0 and q.frep_MHz == 100.0, 'default pulse grid')
        T = q.T_ps / p['w']
        A = dict(Sech=lambda: 1 / np.cosh(T), Gauss=lambda: np.exp(-2 * np.log(2) * T ** 2),
                 Sinc=lambda: np.sinc(T * 3.7909885 / np.pi))[p['cls']]() * np.sqrt(p['P'])
    close(q.AT, A, 0, 2e-3 * np.sqrt(p['P']), p['cls'] + ' with default arguments')
    close(q.center_wavelength_nm, p['wl'], 1e-12, 0, 'center wavelength')


@sub('P04', 'cw', st.fixed_dictionaries(dict(g=grid(lo=1.001), P=logF(1e-6, 1e6), off=F(-.49, .49), frac=F(-.4, .4),
                                             use=st.booleans(), out=st.integers(-3000, 3000))), quick=600,
     fixed=[dict(g=dict(N=64, Tw=10., wl=1000., frep=100.), P=1., off=0., frac=0., use=True, out=-7)],
     rule='CW line: one bin, right power, at the requested absolute frequency')
def cw(p, ctx):
    from pynlo.light.DerivedPulses import CWPulse
    g = p['g']
    n = g['N']
    f0 = C_NMPS / g['wl']
    kw = {}
    k = 0
    if p['use']:
        k = int(round(p['off'] * n))
        k = max(-n // 2, min(n // 2 - 1, k))
        kw['offset_from_center_THz'] = (k + p['frac']) / g['Tw']
    q = CWPulse(p['P'], g['wl'], time_window_ps=g['Tw'], NPTS=n, **kw)
    idx = n // 2 + k
    exp = np.zeros(n)
    exp[idx] = np.sqrt(p['P'])
    close(np.abs(q.AW), exp, 1e-9, 1e-9 * np.sqrt(p['P']), 'CW spectrum')
    close(q.F_THz[idx], f0, 1e-10, 0, 'frequency of the CW line')
    close(q.center_frequency_THz, f0 - k / g['Tw'], 1e-10, 0, 'grid center')
    # a line beyond either end of the grid
    k = n - n // 2 + p['out'] if p['out'] >= 0 else -(n // 2) + p['out']
    if f0 - k / g['Tw'] > 1 / g['Tw']:
        try:
            q = CWPulse(p['P'], g['wl'], time_window_ps=g['Tw'], NPTS=n, offset_from_center_THz=(k + .5 * p['frac']) / g['Tw'])
        except (IndexError, ValueError, RuntimeError, AssertionError):
            return
        raise Violation('a CW line %d bins from the center of a grid of %d points was put at %g THz instead of %g'
                        % (k, n, q.F_THz[np.argmax(np.abs(q.AW))], f0))


# ------------------------------------------------------------------ P05
_pop = st.one_of(
    st.tuples(st.just('chirpW'), F(-1, 1), F(-1, 1), F(-1, 1), F(-.5, .5), st.booleans()),
    st.tuples(st.just('chirpWabs'), F(-1, 1), F(-1, 1), F(-1, 1), st.sampled_from([0.0, 0, .01, -.5, 1.5])),
    st.tuples(st.just('chirpW1'), F(-1, 1)),
    st.tuples(st.just('phaseW'), SEED),
    st.tuples(st.just('phaseWs'), F(-10, 10)),
    st.tuples(st.just('chirpT'), F(-3, 3), F(-3, 3), F(.02, .5)),
    st.tuples(st.just('offset'), F(-.5, .5)),
    st.tuples(st.just('offsetk'), st.integers(-20, 20)),
)


@sub('P05', 'phase_operations', st.fixed_dictionaries(dict(g=grid(), f=FIELD, ops=st.lists(_pop, min_size=1, max_size=6))),
     quick=1500, thorough=40000, rule='every phase operation against its closed form; energy kept')
def phase_operations(p, ctx):
    g = p['g']
    at = build_field(p['f'], g)
    q = make_pulse(g, at=at)
    V, T, W = gV(g), gT(g), gW(g)
    Vm = np.abs(V[0])
    aw = dft(at)
    e0 = np.sum(np.abs(at) ** 2)
    s = np.linalg.norm(aw)
    ph = 0.0
    for i, op in enumerate(p['ops']):
        k = op[0]
        what = 'op %d %s: ' % (i, k)
        if k == 'chirpW':
            gdd, tod, fod = op[1] * 40 / Vm ** 2, op[2] * 40 / Vm ** 3, op[3] * 40 / Vm ** 4
            if op[5]:
                w0 = 2 * np.pi * C_NMPS / g['wl'] + op[4] * Vm
                x = W - w0
                q.chirp_pulse_W(gdd, TOD=tod, FOD=fod, w0_THz=w0)
            else:
                x = V
                q.chirp_pulse_W(gdd, TOD=tod, FOD=fod)
            phi = gdd / 2 * x ** 2 + tod / 6 * x ** 3 + fod / 24 * x ** 4
            aw = aw * np.exp(1j * phi)
        elif k == 'chirpWabs':
            # expanded far from the grid, at zero frequency for one
            w0 = op[4] * (2 * np.pi * C_NMPS / g['wl'])
            x = W - w0
            m = np.max(np.abs(x))
            gdd, tod, fod = op[1] * 40 / m ** 2, op[2] * 40 / m ** 3, op[3] * 40 / m ** 4
            q.chirp_pulse_W(gdd, tod, fod, w0)
            phi = gdd / 2 * x ** 2 + tod / 6 * x ** 3 + fod / 24 * x ** 4
            aw = aw * np.exp(1j * phi)
        elif k == 'chirpW1':
            q.chirp_pulse_W(op[1])
            phi = op[1] / 2 * V ** 2
            aw = aw * np.exp(1j * phi)
        elif k == 'phaseW':
            phi = np.random.RandomState(op[1]).uniform(-9, 9, g['N'])
            q.apply_phase_W(phi)
            aw = aw * np.exp(1j * phi)
        elif k == 'phaseWs':
            phi = np.array([op[1]])
            q.apply_phase_W(op[1])
            aw = aw * np.exp(1j * op[1])
        elif k == 'chirpT':
            t0 = op[3] * g['Tw']
            phi = -(op[1] / 2 * (T / t0) ** 2 + op[2] / 3 * (T / t0) ** 3)
            q.chirp_pulse_T(op[1], op[2], t0)
            aw = dft(idft(aw) * np.exp(1j * phi))
        else:
            tau = op[1] * g['Tw'] if k == 'offset' else op[1] * g['Tw'] / g['N']
            before = q.AT
            q.add_time_offset(tau)
            phi = -W * tau
            aw = aw * np.exp(1j * phi)
            if k == 'offsetk':
                # moved by whole samples toward earlier time, circularly
                close(np.abs(q.AT), np.abs(np.roll(before, -op[1])), 0,
                      1e-9 * s * np.sqrt(g['N']) * g['N'], what + 'shifted field')
        ph += np.max(np.abs(phi))
        tol = (1e-10 + 1e-14 * ph * 10) * s * (i + 1)
        close(q.AW, aw, 0, tol, what + 'spectrum')
        close(np.sum(np.abs(q.AT) ** 2), e0, 1e-9, 0, what + 'energy')
    require(q.NPTS == g['N'] and q.time_window_ps == g['Tw'] and q.frep_MHz == g['frep'], 'grid changed')


@sub('P05', 'inverse', st.fixed_dictionaries(dict(gf=grid_field(), gdd=F(-1, 1), tod=F(-1, 1), fod=F(-1, 1),
                                                  c2=F(-3, 3), c3=F(-3, 3), off=F(-.5, .5))),
     quick=400, rule='applying the opposite operation restores the field')
def inverse(p, ctx):
    g = p['gf']['g']
    at = build_field(p['gf']['f'], g)
    q = make_pulse(g, at=at)
    Vm = np.abs(gV(g)[0])
    a = (p['gdd'] * 30 / Vm ** 2, p['tod'] * 30 / Vm ** 3, p['fod'] * 30 / Vm ** 4)
    q.chirp_pulse_W(*a)
    q.add_time_offset(p['off'] * g['Tw'])
    q.chirp_pulse_T(p['c2'], p['c3'], g['Tw'] / 4)
    q.chirp_pulse_T(-p['c2'], -p['c3'], g['Tw'] / 4)
    q.add_time_offset(-p['off'] * g['Tw'])
    q.chirp_pulse_W(*[-x for x in a])
    close(q.AT, at, 0, 1e-8 * np.linalg.norm(at), 'field after undoing every operation')


@sub('P05', 'dechirp', st.fixed_dictionaries(dict(
    N=st.sampled_from([64, 128, 256, 512]), Tw=F(5., 40.), wl=F(500., 2500.), bw=F(.06, .2), cen=F(-.3, .3),
    gdd=F(-1, 1), delay=F(-1, 1), ph=F(-3, 3), tod=st.one_of(st.just(0.0), F(-.5, .5)),
    thr=st.sampled_from([None, .05, .01, .2, .5, 0.0, 1e-4]), floor=st.sampled_from([0.0, 0.0, .03, .15]), amp=st.one_of(logF(1e-2, 1e3), logF(1e-12, 1e9)))),
     quick=800, fixed=[], rule='non-trivial with a non-zero chirp or delay')
def dechirp(p, ctx):
    g = dict(N=p['N'], Tw=p['Tw'], wl=p['wl'], frep=100.)
    V = gV(g)
    Vm = -V[0]
    if C_NMPS / p['wl'] * 2 * np.pi < 1.05 * Vm:
        ctx.trivial()
        return
    x = V - p['cen'] * Vm
    sig = p['bw'] * Vm
    # some light all over the grid, so that a low threshold has more than the peak to see
    fl = p['floor'] or (.03 if p['thr'] in (0.0, 1e-4) else 0.0)
    amp = p['amp'] * (np.exp(-(x / sig) ** 2 / 2) + fl)
    dV = V[1] - V[0]
    # keep the phase step between neighbouring bins within +-2 rad where there is light
    phi = p['ph'] + p['delay'] * .7 / dV * x + p['gdd'] * .7 / dV / (4 * sig) * x ** 2 / 2 * 1.0
    cub = p['tod'] * .3 / dV / (4 * sig) ** 2 * x ** 3
    ctx.trivial(abs(p['gdd']) + abs(p['delay']) < 1e-3)
    aw = amp * np.exp(1j * (phi + cub))
    kw = {} if p['thr'] is None else dict(intensity_threshold=p['thr'])
    thr = .05 if p['thr'] is None else p['thr']
    m = amp ** 2 > thr * np.max(amp) ** 2
    if m.sum() < 6 or np.any(np.abs(np.diff((phi + cub)[m])) > 2.5):
        ctx.trivial()
        return
    lit = amp > 1e-3 * p['amp']
    q = make_pulse(g, aw=aw)
    q.dechirp_pulse(**kw)
    out = q.AW
    close(np.abs(out), amp, 1e-9, 1e-12 * p['amp'], 'spectral amplitude after dechirping')
    if p['tod'] == 0.0:
        close(out[m], amp[m], 0, 1e-5 * p['amp'], 'dechirped spectrum of a quadratically chirped pulse (flat phase)')
        r = lit & (np.abs(x) < 3 * sig)
    else:
        c = np.polyfit(V[m], np.unwrap(np.angle(aw))[m], 2)
        res = np.unwrap(np.angle(aw))[m] - np.polyval(c, V[m])
        close(out[m], amp[m] * np.exp(1j * res), 0, 1e-5 * p['amp'], 'phase left after removing the best-fit parabola')
    first = q.AT
    q.dechirp_pulse(**kw)
    close(q.AT, first, 0, 1e-4 * np.max(np.abs(first)), 'second dechirp')
    # removing the delay alone removes only the best-fit line
    q = make_pulse(g, aw=aw)
    q.remove_time_delay(**kw)
    out = q.AW
    close(np.abs(out), amp, 1e-9, 1e-12 * p['amp'], 'spectral amplitude after removing the delay')
    full = (phi + cub)[m]
    line = np.polyval(np.polyfit(x[m], full, 1), x[m])
    close(out[m], amp[m] * np.exp(1j * (full - line)), 0, 1e-5 * p['amp'], 'phase left after removing the delay')


# ------------------------------------------------------------------ P06
@sub('P06', 'expand_window', st.fixed_dictionaries(dict(
    gf=st.one_of(grid_field(), grid_field(st.integers(2, 100).map(lambda k: 2 * k + 1))),
    k=st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5, 6]), loc=st.sampled_from(['before', 'after', 'even', None]),
    read=st.booleans(), again=st.booleans())), quick=800,
     rule='samples embedded at the documented place, grid doubled k times')
def expand_window(p, ctx):
    g = p['gf']['g']
    at = build_field(p['gf']['f'], g)
    q = make_pulse(g, at=at)
    if p['read']:
        q.wl_nm, q.W_mks, q.T_ps
    ctx.trivial(p['k'] == 0 or len(at) * 2 ** p['k'] > 70000)
    if len(at) * 2 ** p['k'] > 70000:
        return
    for rep in range(2 if p['again'] and p['k'] <= 2 else 1):
        n, tw = len(at), q.time_window_ps
        kw = {} if p['loc'] is None else dict(new_pts_loc=p['loc'])
        q.expand_time_window(p['k'], **kw)
        N2 = n * 2 ** p['k']
        new = N2 - n
        start = {'before': new, None: new, 'after': 0, 'even': new // 2}[p['loc']]
        exp = np.zeros(N2, complex)
        exp[start:start + n] = at
        close(q.AT, exp, 0, 1e-10 * np.linalg.norm(at), 'expanded field')
        gg = dict(n=N2, tw=tw * 2 ** p['k'], f0=C_NMPS / g['wl'], frep=g['frep'])
        _check_grid(q, gg, ['NPTS', 'time_window_ps', 'dT_ps', 'T_ps', 'W_THz', 'wl_nm', 'W_mks', 'F_mks', 'wl_mks',
                            'center_wavelength_nm', 'frep_MHz'], 'after expansion: ')
        at = exp


@sub('P06', 'expand_bad', st.fixed_dictionaries(dict(gf=grid_field(), k=st.integers(0, 3),
                                                     loc=st.text(max_size=6).filter(
                                                         lambda s: s not in ('before', 'after', 'even')))),
     quick=100, rule='an unknown location or a factor below one is rejected and the pulse stays as it was')
def expand_bad(p, ctx):
    g = p['gf']['g']
    q = make_pulse(g, at=build_field(p['gf']['f'], g))
    s0 = pulse_state(q)
    try:
        q.expand_time_window(p['k'], new_pts_loc=p['loc'])
    except ValueError:
        pass
    else:
        raise Violation('an invalid location for the new points was accepted')
    same_state(pulse_state(q), s0, 'refused expansion')
    for loc in ('before', 'after', 'even'):
        try:
            q.expand_time_window(-1 - p['k'], loc)
        except (ValueError, TypeError):
            pass
        else:
            raise Violation('a factor of 2**%d was accepted' % (-1 - p['k']))
        same_state(pulse_state(q), s0, 'refused expansion')


@sub('P06', 'rotate', st.fixed_dictionaries(dict(gf=grid_field(), m=st.integers(-300, 300), frac=F(-.45, .45))),
     quick=800, rule='spectrum moved by the nearest whole number of bins')
def rotate(p, ctx):
    g = p['gf']['g']
    n = g['N']
    f0 = C_NMPS / g['wl']
    m = p['m'] % n if p['m'] >= 0 else -((-p['m']) % n)
    fn = f0 + (m + p['frac']) / g['Tw']
    if fn <= 0.02 * f0:
        ctx.trivial()
        return
    aw = dft(build_field(p['gf']['f'], g))
    q = make_pulse(g, aw=aw)
    q.rotate_spectrum_to_new_center_wl(C_NMPS / fn)
    close(q.AW, np.roll(aw, m), 1e-12, 0, 'rotated spectrum')
    require(q.NPTS == n and q.time_window_ps == g['Tw'], 'rotating the spectrum changed the grid')
    close(q.center_wavelength_nm, g['wl'], 1e-12, 0, 'rotating changed the center wavelength')


@sub('P06', 'interpolate', st.fixed_dictionaries(dict(gf=grid_field(), sh=F(-1.2, 1.2))), quick=800,
     rule='linear interpolation onto the new grid, zero outside the old one')
def interpolate(p, ctx):
    g = p['gf']['g']
    f0 = C_NMPS / g['wl']
    fn = f0 + p['sh'] * g['N'] / g['Tw']
    if fn - g['N'] / g['Tw'] / 2 <= 0.01 * f0:
        ctx.trivial()
        return
    aw = dft(build_field(p['gf']['f'], g))
    q = make_pulse(g, aw=aw)
    s0 = pulse_state(q)
    r = q.interpolate_to_new_center_wl(C_NMPS / fn)
    same_state(pulse_state(q), s0, 'interpolating to a new grid')
    require(r is not q, 'a new pulse is expected')
    gg = dict(n=g['N'], tw=g['Tw'], f0=fn, frep=g['frep'])
    _check_grid(r, gg, ['NPTS', 'time_window_ps', 'W_THz', 'wl_nm', 'center_wavelength_nm', 'frep_MHz'], 'new pulse: ')
    k = np.arange(g['N']) - g['N'] / 2.0 + (fn - f0) * g['Tw'] + g['N'] / 2.0     # position on the old grid
    lo = np.floor(k).astype(int)
    fr = k - lo
    inside = (k >= 0) & (k <= g['N'] - 1)
    a = np.where((lo >= 0) & (lo < g['N']), aw[np.clip(lo, 0, g['N'] - 1)], 0)
    b = np.where((lo + 1 >= 0) & (lo + 1 < g['N']), aw[np.clip(lo + 1, 0, g['N'] - 1)], 0)
    exp = np.where(inside, a * (1 - fr) + b * fr, 0)
    got = arr(r.AW, exp.shape, 'interpolated spectrum')
    border = (np.abs(k) < 1e-6) | (np.abs(k - (g['N'] - 1)) < 1e-6)
    slope = np.max(np.abs(np.diff(aw))) if len(aw) > 1 else 0
    close(got[~border], exp[~border], 1e-9, 1e-9 * np.max(np.abs(aw)) + 1e-7 * slope, 'interpolated spectrum')


@sub('P06', 'subset', st.fixed_dictionaries(dict(gf=grid_field(), frac=F(.05, .95), pos=F(0, 1), nud=F(-.4, .4),
                                                 read=st.booleans())), quick=800,
     rule='sub-pulse shares the absolute frequency grid and the field')
def subset(p, ctx):
    g = p['gf']['g']
    n = g['N']
    m = 2 * max(1, int(p['frac'] * n) // 2)
    if m >= n:
        m = n - 2
    if m < 2:
        ctx.trivial()
        return
    c = m // 2 + int(round(p['pos'] * (n - m)))
    aw = dft(build_field(p['gf']['f'], g))
    q = make_pulse(g, aw=aw)
    s0 = pulse_state(q)
    F_ = gW(g) / 2 / np.pi
    wl = C_NMPS / (F_[c])
    # nudge within 40% of the distance to the nearest neighbouring wavelength
    dwl = wl - C_NMPS / (F_[c] + 1 / g['Tw'])
    if p['read']:
        q.wl_nm
    r = q.create_subset_pulse(wl + p['nud'] * dwl, m)
    same_state(pulse_state(q), s0, 'creating a subset')
    require(r.NPTS == m, 'subset has %r points', r.NPTS)
    close(r.F_THz, F_[c - m // 2:c + m // 2], 1e-10, 0, 'subset frequency grid')
    close(r.AW, aw[c - m // 2:c + m // 2], 1e-12, 0, 'subset spectrum')
    close(r.center_frequency_THz, F_[c], 1e-10, 0, 'subset center')
    require(r.frep_MHz == g['frep'], 'repetition rate lost')
    close(r.time_window_ps, g['Tw'], 1e-12, 0, 'subset time window')
    r.set_AW(r.AW * 0)
    same_state(pulse_state(q), s0, 'changing the subset')
    for bad in (n, n + 2):
        try:
            q.create_subset_pulse(wl, bad)
        except ValueError:
            continue
        raise Violation('a subset as large as the pulse was accepted')
    # no sub-grid can reach beyond the ends of the grid
    if m >= 4:
        for cb in (0, m // 4, m // 2 - 1, n - m // 2 + 1, n - 1):
            if cb - m // 2 >= 0 and cb + m // 2 <= n:
                continue
            try:
                r = q.create_subset_pulse(float(q.wl_nm[cb]), m)
            except Violation:
                raise
            except Exception:
                continue
            raise Violation('a subset reaching beyond the grid was accepted (center %d, %d of %d points)' % (cb, m, n))


@sub('P06', 'wavelength_filter', st.fixed_dictionaries(dict(
    gf=grid_field(), cuts=st.lists(st.tuples(F(0, 1), F(0, 1)), min_size=1, max_size=3), edge=st.sampled_from([(False, False), (False, False), (True, False), (False, True), (True, True)]),
    read=st.booleans())), quick=1200,
     rule='bins outside the band are zero, others untouched, bands intersect')
def wavelength_filter(p, ctx):
    g = p['gf']['g']
    aw = dft(build_field(p['gf']['f'], g))
    q = make_pulse(g, aw=aw)
    wl = 2 * np.pi * C_NMPS / gW(g)
    keep = np.ones(g['N'], bool)
    for a, b in p['cuts']:
        f = np.sort(np.array([a, b])) * g['N']
        hi_wl = C_NMPS / ((f[0] - g['N'] / 2 - .37) / g['Tw'] + C_NMPS / g['wl'])
        lo_wl = C_NMPS / ((f[1] - g['N'] / 2 + .37) / g['Tw'] + C_NMPS / g['wl'])
        if np.any(np.abs(wl - hi_wl) < 1e-9 * wl) or np.any(np.abs(wl - lo_wl) < 1e-9 * wl) or hi_wl <= 0 or lo_wl <= 0:
            continue
        # limits that are the wavelength of a bin: that bin is inside
        if p['edge'][0]:
            lo_wl = q.wl_nm[int(np.argmin(np.abs(wl - lo_wl)))]
        if p['edge'][1]:
            hi_wl = q.wl_nm[int(np.argmin(np.abs(wl - hi_wl)))]
        q.filter_by_wavelength_nm(lo_wl, hi_wl)
        keep &= (wl >= lo_wl * (1 - 1e-11)) & (wl <= hi_wl * (1 + 1e-11))
        close(q.AW, np.where(keep, aw, 0), 0, 0, 'filtered spectrum')
    ctx.trivial(bool(keep.all()) or not keep.any())


# ------------------------------------------------------------------ P07
_copy_kinds = ['clone', 'create', 'dict', 'json', 'deepcopy', 'pickle']
_mut = st.sampled_from(['AT', 'AW', 'chirp', 'epp', 'wl', 'tw', 'frep', 'filter', 'expand', 'rotate', 'offset'])


def _mutate(q, kind):
    if kind == 'AT': q.set_AT(q.AT * 2j + 1)
    elif kind == 'AW': q.set_AW(q.AW * 0.5 + 1)
    elif kind == 'chirp': q.chirp_pulse_W(0.37)
    elif kind == 'epp': q.set_epp(1.234e-9)
    elif kind == 'wl': q.set_center_wavelength_nm(q.center_wavelength_nm * 1.01)
    elif kind == 'tw': q.set_time_window_ps(q.time_window_ps * 1.7)
    elif kind == 'frep': q.set_frep_MHz(q.frep_MHz * 3)
    elif kind == 'filter': q.filter_by_wavelength_nm(q.center_wavelength_nm, 1e9)
    elif kind == 'expand': q.expand_time_window(1)
    elif kind == 'rotate': q.rotate_spectrum_to_new_center_wl(C_NMPS / (q.center_frequency_THz + 2.0 / q.time_window_ps))
    elif kind == 'offset': q.add_time_offset(0.3)


@sub('P07', 'copies', st.fixed_dictionaries(dict(
    gf=grid_field(), old=grid_field(), kind=st.sampled_from(_copy_kinds), fresh=st.booleans(), read=st.booleans(),
    mut=st.lists(st.tuples(st.booleans(), _mut), max_size=5))), quick=1200, thorough=30000,
     fixed=[dict(gf=dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), f=dict(kind='two', seed=1, amp=1.)),
                 old=dict(g=dict(N=32, Tw=5., wl=1300., frep=10.), f=dict(kind='two', seed=2, amp=1.)),
                 kind=k, fresh=False, read=True, mut=[]) for k in _copy_kinds],
     rule='copy equals original in every grid and field; later changes to one never show in the other')
def copies(p, ctx):
    from pynlo.light.PulseBase import Pulse
    g = p['gf']['g']
    src = make_pulse(g, at=build_field(p['gf']['f'], g))
    s0 = pulse_state(src)
    og = p['old']['g']
    dst = Pulse() if p['fresh'] else make_pulse(og, at=build_field(p['old']['f'], og))
    if p['read'] and not p['fresh']:
        dst.wl_nm, dst.W_mks
    if p['read']:
        src.wl_nm, src.W_mks
    if p['kind'] == 'clone':
        dst.clone_pulse(src)
    elif p['kind'] == 'create':
        dst = src.create_cloned_pulse()
    elif p['kind'] == 'deepcopy':
        dst = copy.deepcopy(src)
    elif p['kind'] == 'pickle':
        dst = pickle.loads(pickle.dumps(src))
    else:
        d = src.get_pulse_dict()
        if p['kind'] == 'json':
            d = json.loads(json.dumps(d))
        keep = json.dumps(d)
        dst.load_pulse_dict(d)
        require(json.dumps(d) == keep, 'loading a pulse changed the dictionary')
    require(dst is not src, 'the copy is the same object')
    if p['kind'] == 'clone':
        # a pulse cloned from itself, and one refused a copy, keep what they have
        d0 = pulse_state(dst)
        dst.clone_pulse(dst)
        same_state(pulse_state(dst), d0, 'cloning a pulse from itself', rtol=1e-10)
        blank = Pulse()
        if p['fresh']:
            blank.set_NPTS(16)
        try:
            dst.clone_pulse(blank)
        except (RuntimeError, ValueError, TypeError, AttributeError):
            pass
        else:
            raise Violation('a pulse without a field was cloned')
        same_state(pulse_state(dst), d0, 'refused cloning', rtol=1e-10)
    same_state(pulse_state(src), s0, 'copying a pulse (source)')
    same_state(pulse_state(dst), s0, 'copy', rtol=1e-10)
    _check_grid(dst, dict(n=g['N'], tw=g['Tw'], f0=C_NMPS / g['wl'], frep=g['frep']), SCALARS + GRID_READS, 'copy: ')
    ctx.trivial(not p['mut'])
    for which, kind in p['mut']:
        a, b = (src, dst) if which else (dst, src)
        other = pulse_state(b)
        if kind == 'epp' and a.calc_epp() <= 0:
            continue
        if kind == 'expand' and a.NPTS > 1000:
            continue
        axes = [getattr(b, nm).copy() for nm in GRID_READS]
        _mutate(a, kind)
        _check_grid(a, dict(n=a.NPTS, tw=a.time_window_ps, f0=a.center_frequency_THz, frep=a.frep_MHz), GRID_READS,
                    'after changing one pulse (%s): ' % kind)
        for nm, x in zip(GRID_READS, axes):
            equal(getattr(b, nm), x, 'the axis %s of the copy, after changing one pulse (%s) and reading its axes,'
                  % (nm, kind))
        same_state(pulse_state(b), other, 'changing one pulse (%s) changed its copy' % kind)


@sub('P07', 'frog_roundtrip', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 8), lo=1.001), f=FIELD, flip=st.tuples(st.booleans(), st.booleans()),
    default=st.booleans(), P=logF(1e-12, 1e-6), avg=st.booleans())), quick=500,
     fixed=[dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), f=dict(kind='two', seed=1, amp=1.), flip=[True, True],
                 default=True, P=1e-9, avg=False)],
     rule='file written from a pulse and read back on the same grid')
def frog_roundtrip(p, ctx):
    from pynlo.light.DerivedPulses import FROGPulse
    g = p['g']
    at = build_field(p['f'], g)
    q = make_pulse(g, at=at)
    s0 = pulse_state(q)
    aw = dft(at)
    fn = os.path.join(os.environ['PBT_SCRATCH'], 'frog_%d.dat' % os.getpid())
    kw = [{}, {}] if p['default'] else [dict(flip_phase=p['flip'][0]), dict(flip_phase=p['flip'][1])]
    same = p['default'] or p['flip'][0] == p['flip'][1]
    q.write_frog(fileloc=fn, **kw[0])
    same_state(pulse_state(q), s0, 'writing the file')
    r = FROGPulse(g['Tw'], g['wl'], p['P'] * (1e6 * g['frep'] if p['avg'] else 1), frep_MHz=g['frep'], NPTS=g['N'],
                  power_is_avg=p['avg'], fileloc=fn, **kw[1])
    os.unlink(fn)
    close(r.calc_epp(), p['P'], 1e-9, 0, 'energy of the pulse read from file')
    exp = aw if same else aw.conj()
    got = arr(r.AW, exp.shape, 'spectrum read from file')
    scale = np.sum(np.abs(got)) / np.sum(np.abs(exp))
    close(got, exp * scale, 1e-7, 1e-9 * scale * np.max(np.abs(exp)), 'spectrum read back from file')
    _check_grid(r, dict(n=g['N'], tw=g['Tw'], f0=C_NMPS / g['wl'], frep=g['frep']),
                ['NPTS', 'W_THz', 'wl_nm', 'frep_mks', 'T_ps'], 'pulse read from file: ')


@sub('P07', 'frog_tables', st.fixed_dictionaries(dict(
    g=grid(EVEN_N.filter(lambda n: n >= 32), lo=1.001), k=st.integers(5, 60), lo=F(.1, .45), hi=F(.55, .9), seed=SEED,
    flip=st.booleans(), P=logF(1e-12, 1e-6), order=st.booleans())), quick=400,
     rule='tabulated amplitude and phase interpolated linearly in wavelength, zero outside the table')
def frog_tables(p, ctx):
    from pynlo.light.DerivedPulses import FROGPulse
    g = p['g']
    f = (np.array([p['hi'], p['lo']]) - .5) * g['N'] / g['Tw'] + C_NMPS / g['wl']
    wl = np.linspace(C_NMPS / f[0], C_NMPS / f[1], p['k'])
    rng = np.random.RandomState(p['seed'])
    amp = rng.uniform(.2, 1, p['k'])
    ph = np.cumsum(rng.normal(size=p['k']) * .5)
    if p['order']:
        wl, amp, ph = wl[::-1], amp[::-1], ph[::-1]
    fn = os.path.join(os.environ['PBT_SCRATCH'], 'ftab_%d.dat' % os.getpid())
    np.savetxt(fn, np.column_stack([wl, amp, ph]))
    r = FROGPulse(g['Tw'], g['wl'], p['P'], frep_MHz=g['frep'], NPTS=g['N'], fileloc=fn, flip_phase=p['flip'])
    os.unlink(fn)
    gwl = 2 * np.pi * C_NMPS / gW(g)
    o = np.argsort(wl)
    A = np.interp(gwl, wl[o], amp[o], left=0, right=0)
    B = np.interp(gwl, wl[o], ph[o])
    edge = (np.abs(gwl - wl[0]) < 1e-7) | (np.abs(gwl - wl[-1]) < 1e-7)
    if np.any(edge) or np.sum(A > 0) < 3:
        ctx.trivial()
        return
    exp = A * np.exp(1j * (-B if p['flip'] else B))
    got = arr(r.AW, exp.shape, 'FROG pulse spectrum')
    scale = np.sum(np.abs(got)) / np.sum(np.abs(exp))
    close(got, exp * scale, 1e-6, 1e-8 * scale, 'FROG pulse spectrum')
    close(r.calc_epp(), p['P'], 1e-9, 0, 'FROG pulse energy')


# ------------------------------------------------------------------ P08
@sub('P08', 'noise_statistics', st.fixed_dictionaries(dict(
    N=st.sampled_from([4096, 8192, 6000]), Tw=logF(30., 3000.), wl=F(600., 3000.), seed=SEED, fseed=SEED,
    amp=logF(1e-6, 1e3), type=st.sampled_from(['one_photon_freq', 'sqrt_N_freq', None]))), quick=260, thorough=4000,
     rule='moments of the added noise over thousands of bins')
def noise_statistics(p, ctx):
    g = dict(N=p['N'], Tw=p['Tw'], wl=p['wl'], frep=100.)
    if C_NMPS / p['wl'] <= .55 * p['N'] / p['Tw']:
        ctx.trivial()
        return
    rng = np.random.RandomState(p['fseed'])
    aw = p['amp'] * rng.uniform(.1, 1, p['N']) * np.exp(2j * np.pi * rng.rand(p['N']))
    # zero bins receive no shot noise, but do receive one photon
    zero = rng.rand(p['N']) < .1
    aw[zero] = 0
    F_ = gW(g) / 2 / np.pi * 1e12
    dF = 1e12 / p['Tw']
    if p['type'] == 'one_photon_freq':
        unit = H * F_ * dF
        # rms must be visible over rounding of the field
        if np.min(unit) < 1e-12 * p['amp']:
            aw = aw * 0
            ctx.label('field zeroed')
    else:
        unit = np.sqrt(np.abs(aw) ** 2 / dF / (H * F_)) * H * F_ * dF
        if np.min(unit[~zero] / np.abs(aw[~zero])) < 1e-11:
            ctx.trivial()
            return
    q = make_pulse(g, aw=aw)
    np.random.seed(p['seed'])
    if p['type'] is None:
        q.add_noise()
    else:
        q.add_noise(noise_type=p['type'])
    d = arr(q.AW, aw.shape, 'noisy spectrum') - aw
    if p['type'] != 'one_photon_freq':
        require(np.all(d[zero] == 0), 'shot noise appeared in empty bins')
        z = d[~zero] / unit[~zero]
    else:
        z = d / unit
    n = len(z)
    s = 1 / np.sqrt(n)
    r2 = np.mean(np.abs(z) ** 2)
    require(abs(r2 - 1) < 9 * 1.5 * s, 'noise power is %.4f of the specified one', r2)
    require(abs(np.mean(z)) < 7 * s, 'noise has a mean of %s', np.mean(z))
    require(abs(np.mean(z ** 2)) < 9 * 1.75 * s, 'noise phase is not uniform: <z^2> = %s', np.mean(z ** 2))
    r4 = np.mean(np.abs(z) ** 4)
    require(abs(r4 - 3) < 9 * 10 * s, 'noise amplitude is not normally distributed: <|z|^4> = %.3f', r4)
    require(abs(np.mean(z[1:] * z[:-1].conj())) < 8 * 1.1 * s, 'noise of neighbouring bins is correlated')
    # nor is anything repeated at any distance: amplitude and phase, phase alone, magnitude alone
    m = np.abs(z)
    u = np.where(m > 0, z / np.where(m > 0, m, 1), 0)
    for x, sd, what in ((z, 1., 'noise'), (u ** 2, 1., 'phase of the noise'), (u, 1., 'phase of the noise'),
                        (m - np.mean(m), np.std(m), 'magnitude of the noise')):
        c = np.abs(np.fft.ifft(np.abs(np.fft.fft(x, 2 * n)) ** 2)[1:n]) / sd ** 2
        cnt = np.sqrt(np.arange(n - 1, 0, -1))
        ok = cnt > 17          # at least 300 pairs
        worst = np.argmax(np.where(ok, c / cnt, 0))
        require(c[worst] / cnt[worst] < 9, '%s repeats at a distance of %d bins (%.1f standard deviations)', what,
                worst + 1, c[worst] / cnt[worst])
    if p['type'] == 'one_photon_freq':
        # each part of the spectrum has its own photon energy
        for sl in (slice(0, n // 4), slice(3 * n // 4, n)):
            r2 = np.mean(np.abs(z[sl]) ** 2)
            require(abs(r2 - 1) < 9 * 1.5 * 2 * s, 'noise power in part of the spectrum is %.4f of the specified', r2)
    require(q.NPTS == p['N'] and q.time_window_ps == p['Tw'], 'adding noise changed the grid')


@sub('P08', 'noise_scaling', st.fixed_dictionaries(dict(
    gf=grid_field(), seed=SEED, c=logF(.1, 10.), k=st.sampled_from(['one_photon_freq', 'sqrt_N_freq']),
    bad=st.booleans())), quick=400,
     rule='repeatable with a seed; shot noise scales with the field; unknown types rejected unchanged')
def noise_scaling(p, ctx):
    g = p['gf']['g']
    f0 = C_NMPS / g['wl'] * 1e12
    unit = H * f0 * 1e12 / g['Tw']
    aw = dft(build_field(dict(p['gf']['f'], kind='spectral', amp=1.0), g))
    # field of the order of the one-photon amplitude, so that noise is visible
    aw = aw / np.max(np.abs(aw)) * unit * 10
    q = make_pulse(g, aw=aw)
    if p['bad']:
        try:
            q.add_noise(noise_type='no such noise')
        except ValueError:
            equal(q.AW, aw, 'the spectrum after a rejected noise type')
            return
        raise Violation('an unknown noise type was accepted')
    out = []
    for c in (1.0, 1.0, p['c']):
        r = make_pulse(g, aw=aw * c)
        np.random.seed(p['seed'])
        r.add_noise(noise_type=p['k'])
        out.append(r.AW - aw * c)
    close(out[1], out[0], 0, 0, 'noise drawn twice from the same seed')
    require(np.any(out[0] != 0), 'no noise was added')
    s = np.max(np.abs(out[0]))
    fac = p['c'] if p['k'] == 'sqrt_N_freq' else 1.0
    close(out[2], out[0] * fac, 1e-6, 1e-9 * s * max(1, p['c']) + 1e-13 * unit * 100 * max(1, p['c']),
          'noise of a field scaled by %g' % p['c'])
    r = make_pulse(g, aw=aw)
    r.add_noise(noise_type=p['k'])
    first = r.AW - aw
    r = make_pulse(g, aw=aw)
    r.add_noise(noise_type=p['k'])
    require(not np.array_equal(first, r.AW - aw), 'two draws gave the same noise')


# ------------------------------------------------------------------ P09
@sub('P09', 'autocorrelation', grid_field(), quick=800,
     fixed=[dict(g=dict(N=64, Tw=10., wl=1550., frep=100.), f=dict(kind='two', seed=1, amp=3.))],
     rule='against the directly summed correlation of the intensity with itself')
def autocorrelation(p, ctx):
    g = p['g']
    n = g['N']
    at = build_field(p['f'], g)
    q = make_pulse(g, at=at)
    s0 = pulse_state(q)
    I = np.abs(at) ** 2
    full = np.zeros(2 * n)
    if n > 2048:
        c = np.fft.irfft(np.abs(np.fft.rfft(I, 2 * n)) ** 2, 2 * n)
        full[:n] = c[np.abs(np.arange(-n // 2, n // 2))]
    for lag in range(-n // 2, n // 2) if n <= 2048 else []:
        a = I[max(0, lag):n + min(0, lag)]
        b = I[max(0, -lag):n + min(0, -lag)]
        full[lag + n // 2] = np.dot(a, b)
    ac = q.calculate_intensity_autocorrelation()
    close(ac, full[:n], 1e-9, 1e-9 * np.sum(I ** 2), 'intensity autocorrelation on the time grid')
    same_state(pulse_state(q), s0, 'computing the autocorrelation')


@sub('P09', 'mean_frequency', st.fixed_dictionaries(dict(gf=grid_field(), ph=SEED, c=logF(1e-3, 1e3))), quick=600,
     rule='power-weighted mean frequency and wavelength')
def mean_frequency(p, ctx):
    g = p['gf']['g']
    aw = dft(build_field(p['gf']['f'], g))
    F_ = gW(g) / (2 * np.pi) * 1e12
    m = np.sum(np.abs(aw) ** 2 * F_) / np.sum(np.abs(aw) ** 2)
    q = make_pulse(g, aw=aw)
    for _ in range(2):
        close(q.calculate_weighted_avg_frequency_mks(), m, 1e-10, 0, 'mean frequency')
        close(q.calculate_weighted_avg_wavelength_nm(), C / m * 1e9, 1e-10, 0, 'mean wavelength')
        q.apply_phase_W(np.random.RandomState(p['ph']).uniform(0, 6, g['N']))
        q.set_AW(q.AW * p['c'])
        q.add_time_offset(.1)


@sub('P09', 'spectrogram', st.fixed_dictionaries(dict(
    N=st.sampled_from([64, 128, 200]), over=F(2.1, 4.0), wl=F(500., 2000.), seed=SEED, gate=F(2., 30.),
    type=st.sampled_from(['xfrog', 'frog']), steps=st.one_of(st.integers(3, 60), st.integers(60, 500)), kind=st.sampled_from(['gauss', 'two', 'spectral', 'pedestal']))),
     quick=300, rule='against the directly summed gated Fourier transform on the returned axes')
def spectrogram(p, ctx):
    n = p['N']
    f0 = C_NMPS / p['wl']
    # the grid must span the absolute frequencies: 1/dT > 2 f0
    g = dict(N=n, Tw=n / (p['over'] * f0), wl=p['wl'], frep=100.)
    rng = np.random.RandomState(p['seed'])
    if p['kind'] == 'spectral':
        at = rng.normal(size=n) + 1j * rng.normal(size=n)
    else:
        at = 0
        T = gT(g)
        for _ in range(2 if p['kind'] == 'two' else 1):
            t0, w = rng.uniform(-.15, .15) * g['Tw'], rng.uniform(.03, .05) * g['Tw']
            # (the second harmonic of the field must lie below the Nyquist frequency)
            v = rng.uniform(-.3, .02 if p['type'] == 'frog' else .3) * 2 * np.pi * f0
            at = at + rng.uniform(.5, 1) * np.exp(-((T - t0) / w) ** 2 / 2 - 1j * v * T + 1j * rng.uniform(0, 6))
    if p['kind'] == 'pedestal':
        # light at the ends of the window
        at = at + .1 * np.exp(1j * rng.uniform(0, 6)) * np.max(np.abs(at))
    dt = g['Tw'] / n
    q = make_pulse(g, at=at)
    s0 = pulse_state(q)
    T = gT(g)
    if p['type'] == 'frog':
        steps = n
        if p['kind'] == 'spectral':
            at = at * np.hanning(n)
            q.set_AT(at)
            s0 = pulse_state(q)
        DL, FR, ext, S = q.spectrogram(gate_type='frog', time_steps=steps)
    else:
        steps = p['steps']
        DL, FR, ext, S = q.spectrogram(gate_type='xfrog', gate_function_width_ps=p['gate'] * dt, time_steps=steps)
    same_state(pulse_state(q), s0, 'computing the spectrogram')
    S = arr(S, (n // 2, steps), 'spectrogram')
    DL = arr(DL, S.shape, 'delay axis')
    FR = arr(FR, S.shape, 'frequency axis')
    delay = np.linspace(T[0], T[-1], steps)
    freq = np.arange(n // 2) / g['Tw']
    close(DL, np.tile(delay, (n // 2, 1)), 1e-9, 1e-9 * g['Tw'], 'delay axis')
    close(FR, np.tile(freq[:, None], (1, steps)), 1e-9, 1e-9 * freq[-1], 'frequency axis')
    close(ext, [delay[0], delay[-1], freq[0], freq[-1]], 1e-9, 1e-9 * max(g['Tw'], freq[-1]), 'extent')
    k = np.exp(2j * np.pi * np.outer(freq - f0, T))
    if p['type'] == 'xfrog':
        gate = np.exp(-(T[:, None] - delay[None, :]) ** 2 / 2 / (p['gate'] * dt) ** 2)
    else:
        gate = np.zeros((n, n), complex)
        for j in range(n):              # delay = T[0] + j dT; gate(t) = A(t - delay)
            sft = j - n // 2
            if sft >= 0:
                gate[sft:, j] = at[:n - sft]
            else:
                gate[:sft, j] = at[-sft:]
    exp = np.abs(k @ (at[:, None] * gate))
    scale = np.max(np.sum(np.abs(at[:, None] * gate), axis=0))     # bounds the signal in and out of the shown band
    ctx.trivial(np.max(exp) < 1e-3 * scale)
    # (the gate's end sample may fall just outside the window)
    end = 2.1 * max(abs(at[0]), abs(at[-1])) * np.max(np.abs(at)) if p['kind'] == 'pedestal' and p['type'] == 'frog' else 0
    close(S, exp, 1e-6, (1e-7 if p['type'] == 'xfrog' else 1e-3 if p['kind'] == 'spectral' else 1e-5) * scale + end,
          p['type'] + ' spectrogram')


@sub('P09', 'spectrogram_bad', st.fixed_dictionaries(dict(t=st.text(max_size=8).filter(lambda s: s not in ('xfrog', 'frog')))),
     quick=20, rule='unknown gates are rejected')
def spectrogram_bad(p, ctx):
    g = dict(N=64, Tw=.1, wl=1000., frep=100.)
    q = make_pulse(g, at=np.ones(64))
    try:
        q.spectrogram(gate_type=p['t'])
    except ValueError:
        return
    raise Violation('unknown gate type accepted')
