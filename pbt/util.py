"""Shared generators, field builders and comparisons."""
import numpy as np
from hypothesis import strategies as st
from core import Violation, sub, HarnessError     # noqa: F401

C = 299792458.0                 # m/s, exact
C_NMPS = 299792.458             # nm/ps
H = 6.62607015e-34
EPS0 = 8.8541878128e-12


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def arr(x, shape=None, what='value'):
    """Array of finite numbers of the given shape, or a Violation."""
    try:
        a = np.asarray(x)
        if a.dtype == object:
            raise TypeError
        a = a + 0.0
    except (TypeError, ValueError):
        raise Violation('%s is not numeric: %r' % (what, type(x)))
    if shape is not None and a.shape != tuple(shape):
        raise Violation('%s has shape %s, expected %s' % (what, a.shape, tuple(shape)))
    return a


def close(a, b, rtol, atol, what):
    """a (from the library) must match b (the oracle) elementwise."""
    b = np.asarray(b)
    a = arr(a, b.shape, what)
    err = np.abs(a - b)
    tol = atol + rtol * np.abs(b)
    bad = ~(err <= tol)
    if np.any(bad):
        if b.ndim == 0:
            raise Violation('%s: got %r, expected %r' % (what, a[()], b[()]))
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err - tol)), b.shape)
        raise Violation('%s: at index %s got %r, expected %r (%d of %d wrong)' % (
            what, tuple(int(k) for k in i), a[i], b[i], int(bad.sum()), b.size))


def vclose(a, b, rtol, what, floor=0.0):
    """Relative L2 distance of two arrays."""
    b = np.asarray(b)
    a = arr(a, b.shape, what)
    d = np.linalg.norm((a - b).ravel())
    n = np.linalg.norm(b.ravel())
    if not d <= rtol * n + floor:
        raise Violation('%s: relative L2 difference %.3g exceeds %.3g' % (what, d / n if n else d, rtol))


def equal(a, b, what):
    b = np.asarray(b)
    a = arr(a, b.shape, what)
    if not np.array_equal(a, b):
        raise Violation('%s is not exactly what it should be' % what)


# ------------------------------------------------------------- strategies
def F(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


def logF(lo, hi):
    import math
    return st.floats(math.log10(lo), math.log10(hi)).map(lambda e: min(hi, max(lo, 10.0 ** e)))


SEED = st.integers(0, 2 ** 31 - 1)
EVEN_N = st.one_of(*[st.sampled_from([16, 32, 64, 128, 256]), st.integers(4, 150).map(lambda k: 2 * k)] * 4,
                   st.sampled_from([512, 1000, 1024, 2048, 4096, 8192, 16384]))
# also grids of hardly any points
ALL_N = st.one_of(*[EVEN_N] * 9, st.sampled_from([2, 4, 6]))
POW2 = st.sampled_from([64, 128, 256])


@st.composite
def grid(draw, npts=ALL_N, max_ratio=0.9, lo=.03):
    """Grid whose frequencies are all positive: half-span <= max_ratio * f0.
    lo: shortest window in ps (the derived pulse classes ask for more than 1)."""
    n = draw(npts)
    wl = draw(F(400., 4000.))
    f0 = C_NMPS / wl
    tmin = max(lo, n / (2.0 * max_ratio * f0))
    tw = draw(F(tmin, tmin * 20))
    return dict(N=n, Tw=tw, wl=wl, frep=draw(st.one_of(st.just(100.0), logF(1e-3, 9e5))))


def gT(g):
    return -g['Tw'] / 2.0 + np.arange(g['N']) * (g['Tw'] / g['N'])


def gV(g):
    return 2 * np.pi * (np.arange(g['N']) - g['N'] / 2.0) / g['Tw']


def gW(g):
    return gV(g) + 2 * np.pi * C_NMPS / g['wl']


def dft(at):
    """AW = (1/N) sum_T AT exp(+i V T) on the centred grids (even N)."""
    n = len(at)
    k = np.arange(n) - n // 2
    if n <= 128:
        return np.exp(2j * np.pi * np.outer(k, k) / n) @ at / n
    return np.roll(np.fft.ifft(np.roll(at, n // 2)), n // 2)


def idft(aw):
    n = len(aw)
    k = np.arange(n) - n // 2
    if n <= 128:
        return np.exp(-2j * np.pi * np.outer(k, k) / n) @ aw
    return np.roll(np.fft.fft(np.roll(aw, n // 2)), n // 2)


FIELD = st.fixed_dictionaries(dict(
    kind=st.sampled_from(['noise', 'gauss', 'two', 'spectral', 'edge']),
    seed=SEED,
    amp=st.one_of(logF(1e-3, 1e3), logF(1e-9, 1e6), logF(1e-30, 1e12)),
))


def build_field(f, g, tpad=1.0):
    """Complex time-domain field on grid g. 'noise' fills the window."""
    rng = np.random.RandomState(f['seed'])
    n, T, Tw = g['N'], gT(g), g['Tw']
    k = f['kind']
    if k == 'noise':
        a = rng.normal(size=n) + 1j * rng.normal(size=n)
    elif k == 'edge':
        a = np.zeros(n, complex)
        a[rng.randint(n)] = 1.0 + 0.5j
        a[0] = 0.3
    elif k == 'spectral':
        a = idft(rng.normal(size=n) * np.exp(2j * np.pi * rng.rand(n)))
    else:
        a = np.zeros(n, complex)
        for _ in range(1 if k == 'gauss' else 2):
            t0 = rng.uniform(-.2, .2) * Tw
            w = rng.uniform(.02, .08) * Tw
            v = rng.uniform(-.25, .25) * 2 * np.pi * n / Tw / 2
            c = rng.uniform(-3, 3)
            a = a + rng.uniform(.5, 1) * np.exp(-((T - t0) / w) ** 2 / 2 * (1 + 1j * c) - 1j * v * T
                                                + 2j * np.pi * rng.rand())
    return a * f['amp']


@st.composite
def grid_field(draw, npts=ALL_N, max_ratio=0.9):
    return dict(g=draw(grid(npts, max_ratio)), f=draw(FIELD))


def make_pulse(g, at=None, aw=None):
    from pynlo.light.PulseBase import Pulse
    p = Pulse(frep_MHz=g['frep'], n=g['N'])
    p.set_time_window_ps(g['Tw'])
    p.set_center_wavelength_nm(g['wl'])
    if at is not None:
        p.set_AT(at)
    if aw is not None:
        p.set_AW(aw)
    return p


def pulse_state(p):
    return (p.NPTS, p.time_window_ps, p.center_wavelength_nm, p.frep_MHz, p.AW.copy(), p.AT.copy())


def same_state(a, b, what, rtol=0.0):
    for i, nm in enumerate(('NPTS', 'time window', 'center wavelength', 'repetition rate', 'spectrum', 'field')):
        if rtol == 0.0:
            require(np.array_equal(np.asarray(a[i]), np.asarray(b[i])), '%s: %s changed', what, nm)
        else:
            close(a[i], b[i], rtol, rtol * np.max(np.abs(b[i])), what + ': ' + nm)
