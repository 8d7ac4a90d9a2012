"""P21-P22: the embedded Runge-Kutta integrator."""
import numpy as np
from hypothesis import strategies as st
from util import *
from core import sub, Violation


class Rhs:
    def __init__(self, f):
        self.f, self.xs = f, []

    def deriv(self, x, y, dydx):
        self.xs.append(float(np.real(x)))
        dydx[:] = self.f(x, y)


def ode(f, y0, x1, x2, atol=1e-9, rtol=1e-9, h1=None, hmin=0.0, nsaves=10, dense=True, **kw):
    """Integrate; returns (x, y, ODEint, ystart, rhs)."""
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    out = ode_solve.Output(nsaves)
    r = f if isinstance(f, Rhs) else Rhs(f)
    ys = np.array(y0)
    a = ode_solve.ODEint(ys, x1, x2, atol, rtol, (x2 - x1) / 50. if h1 is None else h1, hmin, out,
                         dopr853.StepperDopr853, r, dense, **kw)
    a.integrate()
    n = out.count
    return (np.real(out.xsave[:n]) if out.xsave is not None else None,
            out.ysave[:n] if out.ysave is not None else None, a, ys, r)


# right-hand sides with known solutions ---------------------------------
def _problem(p):
    """(f(x, y), y0, exact(x)) for the parameters."""
    rng = np.random.RandomState(p['seed'])
    n, k, cplx = p['dim'], p['kind'], p['cplx']
    s = p['scale'] / abs(p['x2'] - p['x1'])
    x1 = p['x1']
    rnd = lambda *sh: rng.normal(size=sh) + (1j * rng.normal(size=sh) if cplx else 0.0)
    amp = 10.0 ** p['mag']
    y0 = rnd(n) * amp
    if k == 'linear':
        import scipy.linalg
        A = rnd(n, n)
        A = A / np.linalg.norm(A, 2) * s
        return (lambda x, y: A @ y), y0, lambda x: scipy.linalg.expm(A * (x - x1)) @ y0
    if k == 'rotate':
        w = np.abs(rng.normal(size=n)) * s
        if cplx:
            return (lambda x, y: 1j * w * y), y0, lambda x: y0 * np.exp(1j * w * (x - x1))
        w = w[0]
        m = max(1, n // 2)
        y0 = rnd(2 * m) * amp
        J = np.kron(np.eye(m), np.array([[0, -w], [w, 0]]))
        R = lambda t: np.kron(np.eye(m), np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]))
        return (lambda x, y: J @ y), y0, lambda x: R(w * (x - x1)) @ y0
    if k == 'nonauto':
        a, b = rnd(n) * s / 3, rnd(n) * s / 3
        c = 3.0 / abs(p['x2'] - p['x1'])
        return ((lambda x, y: (a + b * np.cos(c * x)) * y), y0,
                lambda x: y0 * np.exp(a * (x - x1) + b / c * (np.sin(c * x) - np.sin(c * x1))))
    if k == 'riccati':
        y0 = np.abs(rng.normal(size=n)) + .1 + (1j * rng.normal(size=n) if cplx else 0)
        y0 = y0 * amp
        d = np.sign(p['x2'] - p['x1'])
        a = s / amp / 3 * d
        return (lambda x, y: -a * y ** 2), y0, lambda x: y0 / (1 + a * y0 * (x - x1))
    if k == 'poly':
        co = rnd(9, n) * amp
        L = p['x2'] - p['x1']
        return ((lambda x, y: sum((i) * co[i] * ((x - x1) / L) ** (i - 1) / L for i in range(1, 9))), co[0].copy(),
                lambda x: sum(co[i] * ((x - x1) / L) ** i for i in range(9)))
    return (lambda x, y: np.zeros_like(y)), y0, lambda x: y0


@st.composite
def span(draw):
    a = draw(st.one_of(st.just(0.0), F(-10, 10).map(lambda v: round(v, 3)), F(-2000, 2000).map(lambda v: round(v, 1))))
    L = draw(st.one_of(logF(1e-3, 30.), logF(1e-3, 30.), logF(1e-12, 1e9)).map(lambda v: float('%.3g' % v)))
    if L < 1e-3:
        a = float('%.3g' % (a * L))
    return (a, a + L) if draw(st.booleans()) else (a + L, a)


PROB = dict(kind=st.sampled_from(['linear', 'rotate', 'nonauto', 'riccati', 'poly', 'zero']), seed=SEED, dim=st.integers(1, 6),
            cplx=st.booleans(), scale=logF(.05, 6.), mag=st.one_of(st.integers(-3, 3), st.integers(-20, 20)), sp=span())


def _norm(p):
    p['x1'], p['x2'] = p['sp']
    return p


# ------------------------------------------------------------------ P21
@sub('P21', 'exact', st.fixed_dictionaries(dict(
    tol=logF(1e-12, 1e-3), atolr=st.sampled_from([1.0, 1e-3, 1e-6]), h=logF(1e-4, 5.), dense=st.booleans(), nsaves=st.integers(1, 40), **PROB)),
     quick=900, thorough=20000,
     fixed=[dict(kind=k, seed=1, dim=3, cplx=c, scale=3., mag=0, sp=s, tol=1e-8, atolr=1., h=.1, dense=True, nsaves=5)
            for k in ('linear', 'rotate', 'nonauto', 'riccati', 'poly', 'zero') for c in (False, True) for s in ([0., 2.], [3., 1.])],
     rule='systems with known solutions, both directions, real and complex')
def exact(p, ctx):
    _norm(p)
    f, y0, sol = _problem(p)
    big = max(np.max(np.abs(sol(x))) for x in np.linspace(p['x1'], p['x2'], 20))
    atol = p['tol'] * p['atolr'] * big
    x, y, a, ys, r = ode(f, y0, p['x1'], p['x2'], atol, p['tol'], h1=p['h'] * abs(p['x2'] - p['x1']),
                         nsaves=p['nsaves'] if p['dense'] else 0, dense=p['dense'])
    require(y.dtype == y0.dtype, 'results have dtype %s', y.dtype)
    cond = np.exp(min(p['scale'], 6.))
    # an estimate made of few numbers is now and then small by accident
    dof = len(y0) * (2 if p['cplx'] else 1)
    tol = (30 if dof > 3 else 300 if dof > 1 else 1e4) * cond * p['tol'] * big + 2e-12 * big * cond
    # rounding of positions far from zero
    tol += 1e-14 * max(abs(p['x1']), abs(p['x2'])) / abs(p['x2'] - p['x1']) * (p['scale'] + 10) * big * cond
    close(ys, sol(p['x2']), 0, tol, 'final state (left in the start array)')
    # the interpolant is of lower order: it follows the solution less closely
    dt = tol if not p['dense'] else 1e2 * tol + 1e-6 * big * min(1, p['tol'] ** .5 * 1e3)
    for i in range(len(x)):
        close(y[i], sol(x[i]), 0, dt, 'state at x = %g' % x[i])
    lo, hi = min(p['sp']), max(p['sp'])
    e = 1e-9 * (hi - lo) + 1e-12 * max(abs(lo), abs(hi))
    require(min(r.xs) >= lo - e and max(r.xs) <= hi + e, 'right-hand side evaluated outside the interval')


@sub('P21', 'steps', st.fixed_dictionaries(dict(tol=logF(1e-11, 1e-2), h=logF(1e-3, 2.), **PROB)), quick=500, thorough=12000,
     rule='every accepted step redone with the reference coefficients: same state, error estimate within tolerance')
def steps(p, ctx):
    from scipy.integrate._ivp import dop853_coefficients as k
    _norm(p)
    f, y0, sol = _problem(p)
    big = np.max(np.abs(y0)) + 1e-30
    atol = p['tol'] * big
    x, y, a, ys, r = ode(f, y0, p['x1'], p['x2'], atol, p['tol'], h1=p['h'] * abs(p['x2'] - p['x1']), nsaves=0, dense=False)
    require(x[0] == p['x1'] and np.array_equal(y[0], y0), 'the first saved state is not the start')
    close(x[-1], p['x2'], 1e-12, 1e-12 * abs(p['x2'] - p['x1']), 'last saved position')
    d = np.diff(x) * np.sign(p['x2'] - p['x1'])
    require(np.all(d > 0), 'saved positions are not monotonic')
    ctx.trivial(len(x) < 3 or p['kind'] == 'zero')
    A, B, Cc = k.A[:12, :12], k.B, k.C[:12]
    rx = 1e-14 * max(abs(p['x1']), abs(p['x2'])) / abs(p['x2'] - p['x1']) * (p['scale'] + 10)     # rounding of the positions
    for i in range(len(x) - 1):
        if i > 25 and i < len(x) - 3:
            continue
        h = x[i + 1] - x[i]
        K = [f(x[i], y[i])]
        for j in range(1, 12):
            K.append(f(x[i] + Cc[j] * h, y[i] + h * sum(A[j, m] * K[m] for m in range(j))))
        yn = y[i] + h * sum(B[m] * K[m] for m in range(12))
        sc = np.maximum(np.abs(y[i]), np.abs(yn))
        close(y[i + 1], yn, 1e-9, (1e-10 + rx) * np.max(sc), 'state after step %d' % i)
        K.append(f(x[i + 1], yn))
        s = atol + p['tol'] * sc
        e5 = np.sum(np.abs(np.dot(k.E5, K) / s) ** 2)
        e3 = np.sum(np.abs(np.dot(k.E3, K) / s) ** 2)
        err = abs(h) * e5 / np.sqrt((e5 + .01 * e3) * len(y0)) if e5 > 0 else 0.0
        require(err <= 1 + 1e-6 + (1e-10 + rx) / p['tol'], 'accepted step %d has %.3g times the tolerated error', i, err)


@sub('P21', 'convergence', st.fixed_dictionaries(dict(seed=SEED, dim=st.integers(1, 4), cplx=st.booleans(), h=F(.3, 1.2), sp=span(), th=F(.05, .95),
                                                      kind=st.sampled_from(['linear', 'nonauto']))), quick=400, thorough=8000,
     rule='one step and its interpolant against the reference pair (scipy DOP853) on the same step')
def convergence(p, ctx):
    from scipy.integrate import DOP853
    _norm(p)
    x1, x2 = p['sp']
    p.update(scale=p['h'] * 3, mag=0)
    f, y0, sol = _problem(p)
    n = 8
    x, y, a, ys, r = ode(f, y0, x1, x2, 1e3, 1e3, h1=abs(x2 - x1), nsaves=n)
    s = DOP853(f, x1, y0, x2, rtol=1e3, atol=1e3, first_step=abs(x2 - x1))
    s.step()
    if s.status != 'finished':
        ctx.trivial()
        return
    big = np.max(np.abs(y0)) * 10
    close(ys, s.y, 0, 1e-12 * big, 'state after one step')
    d = s.dense_output()
    for i in range(n + 1):
        close(y[i], d(x[i]), 0, 1e-11 * big, 'interpolated state %d' % i)


@sub('P21', 'failures', st.fixed_dictionaries(dict(kind=st.sampled_from(['blowup', 'hmin', 'fine', 'steps']), a=F(.5, 3.), cplx=st.booleans(),
                                                   cap=st.integers(1, 60))), quick=100,
     rule='a solution that cannot be continued, or a step below the minimum, raises instead of returning')
def failures(p, ctx):
    dt = complex if p['cplx'] else float
    y0 = np.ones(2, dt)
    if p['kind'] == 'blowup':
        # y' = y^2 has its pole at x = 1/a
        try:
            ode(lambda x, y: p['a'] * y ** 2, y0, 0.0, 2.0 / p['a'], 1e-8, 1e-8)
        except (RuntimeError, OverflowError, AssertionError, ArithmeticError):
            return
        raise Violation('integration went through a pole')
    if p['kind'] == 'hmin':
        try:
            ode(lambda x, y: 1j * 300 * y if p['cplx'] else np.array([-300 * y[1], 300 * y[0]]), y0, 0.0, p['a'], 1e-9, 1e-9, hmin=.3)
        except RuntimeError:
            return
        raise Violation('a step below the minimum was accepted')
    if p['kind'] == 'steps':
        # a problem that needs more steps than allowed is refused, one that does not is solved
        from pynlo.util import ode_solve
        from pynlo.util.ode_solve import dopr853
        w = 40. * p['a']
        f = (lambda x, y: 1j * w * y) if p['cplx'] else (lambda x, y: w * np.array([-y[1], y[0]]))
        r = ode(f, y0, 0.0, 1.0, 1e-9, 1e-9, nsaves=0, dense=False)
        need = len(r[0]) - 1
        out = ode_solve.Output(0)
        ys = np.array(y0)
        a = ode_solve.ODEint(ys, 0.0, 1.0, 1e-9, 1e-9, .02, 0.0, out, dopr853.StepperDopr853, Rhs(f), False)
        a.MAXSTP = p['cap']
        try:
            a.integrate()
        except RuntimeError:
            require(p['cap'] < need, 'refused with %d steps allowed, %d needed', p['cap'], need)
            return
        require(p['cap'] >= need, '%d steps taken, %d allowed', need, p['cap'])
        equal(ys, r[3], 'final state')
        return
    ode(lambda x, y: -y, y0, 0.0, p['a'], 1e-6, 1e-6, hmin=1e-9)


@sub('P21', 'tolerance_effect', st.fixed_dictionaries(dict(seed=SEED, dim=st.integers(1, 5), cplx=st.booleans(), sp=span(), scale=F(2., 6.),
                                                           kind=st.sampled_from(['linear', 'nonauto', 'riccati']))), quick=200,
     rule='tighter tolerances give smaller errors and more steps')
def tolerance_effect(p, ctx):
    _norm(p)
    p['mag'] = 0
    f, y0, sol = _problem(p)
    ev, er = [], []
    for t in (1e-4, 1e-8, 1e-12):
        x, y, a, ys, r = ode(f, y0, p['x1'], p['x2'], t, t, nsaves=0, dense=False, h1=abs(p['x2'] - p['x1']) / 5)
        ev.append(len(x))
        er.append(np.max(np.abs(ys - sol(p['x2']))))
    require(ev[0] <= ev[1] <= ev[2], 'numbers of steps %s do not grow with the accuracy', ev)
    require(er[2] < 1e-8 * (1 + np.max(np.abs(y0))) * np.exp(p['scale']), 'error %g at the tightest tolerance', er[2])
    require(ev[2] < 400, '%d steps for a smooth problem', ev[2])


@sub('P21', 'first_step', st.fixed_dictionaries(dict(k=st.integers(2, 5), s=logF(1., 3e3), h=logF(1e-2, 10.), y0=logF(1e-3, 1e3), cplx=st.booleans(), n=st.integers(1, 4),
                                                     tol=logF(1e-10, 1e-4), sp=span())), quick=200,
     fixed=[dict(k=3, s=300., h=1., y0=1., cplx=c, n=2, tol=1e-8, sp=[0., 1.]) for c in (False, True)],
     rule='decay so fast that the first trial step overflows: it is retried until the solution is right; non-trivial when s > 30')
def first_step(p, ctx):
    k, (x1, x2) = p['k'], p['sp']
    L = x2 - x1
    y0 = p['y0'] * (1 + np.arange(p['n']) / 4.) + (0j if p['cplx'] else 0)
    a = p['s'] / L / p['y0'] ** (k - 1)
    ctx.trivial(p['s'] < 30)
    x, y, o, ys, r = ode(lambda x, y: -a * y ** k, y0, x1, x2, atol=p['tol'] * p['y0'], rtol=p['tol'], h1=p['h'] * L, nsaves=3)
    ex = lambda x: y0 / (1 + (k - 1) * a * y0 ** (k - 1) * (x - x1)) ** (1. / (k - 1))
    close(o.y if ys is None else ys, ex(x2), 0, 300 * p['tol'] * p['y0'], 'end value')
    require(np.all(np.isfinite(y)), 'saved values are not finite')


# ------------------------------------------------------------------ P22
@sub('P22', 'dense_grid', st.fixed_dictionaries(dict(nsaves=st.one_of(st.integers(1, 60), st.sampled_from([499, 500, 501, 999, 1000, 1200])),
                                                     h=logF(1e-3, 5.), **PROB)), quick=500, thorough=10000,
     fixed=[dict(kind='linear', seed=1, dim=2, cplx=c, scale=2., mag=0, sp=s, nsaves=n, h=.1)
            for c in (False, True) for s in ([0., 1.], [1., -1.]) for n in (1, 2, 7, 500, 1100)],
     rule='saved positions are the requested equally spaced grid from start to end')
def dense_grid(p, ctx):
    _norm(p)
    f, y0, sol = _problem(p)
    n, x1, x2 = p['nsaves'], p['x1'], p['x2']
    x, y, a, ys, r = ode(f, y0, x1, x2, 1e-8 * 10. ** p['mag'], 1e-8, h1=p['h'] * abs(x2 - x1), nsaves=n)
    grid_ = x1 + np.arange(n + 1) * (x2 - x1) / n
    eps = 1e-10 * abs(x2 - x1) + 1e-13 * max(abs(x1), abs(x2))
    require(len(x) == n + 1, '%d states saved, %d requested', len(x), n + 1)
    close(x, grid_, 0, eps, 'saved positions')
    equal(y[0], y0, 'state saved at the start')
    big = max(np.max(np.abs(sol(t))) for t in grid_[:: max(1, n // 20)])
    for i in sorted(set(list(range(0, n + 1, max(1, n // 30))) + [n])):
        close(y[i], sol(x[i]), 0, 1e-4 * big, 'state saved at x = %g' % x[i])
    close(y[-1], ys, 1e-9, 1e-9 * big, 'last saved state and final state')
    # rows are distinct storage and independent of the solver's state
    k = y.copy()
    ys[:] = 0
    a.s.y[:] = 99
    equal(y, k, 'saved states after changing the solver\'s state')


@sub('P22', 'dense_accuracy', st.fixed_dictionaries(dict(w=F(.5, 30.), nsaves=st.integers(50, 3000), tol=logF(1e-12, 1e-6), sp=span(), cplx=st.booleans(),
                                                         seed=SEED)), quick=150,
     rule='values between the steps are as accurate as the steps; saved positions fall anywhere inside a step')
def dense_accuracy(p, ctx):
    x1, x2 = p['sp']
    w = p['w'] / (x2 - x1)
    c = np.random.RandomState(p['seed']).uniform(-1, 1, 2)
    if p['cplx']:
        y0 = np.array([1.0, 1j * c[0]])
        f = lambda x, y: 1j * w * np.array([1, c[1]]) * y
        ex = lambda x: y0 * np.exp(1j * w * np.outer(x - x1, [1, c[1]]))
    else:
        y0 = np.array([np.cos(c[0]), np.sin(c[0])])
        f = lambda x, y: w * np.array([-y[1], y[0]])
        ex = lambda x: np.array([np.cos(c[0] + w * (x - x1)), np.sin(c[0] + w * (x - x1))]).T
    x, y, a, ys, r = ode(f, y0, x1, x2, p['tol'], p['tol'], h1=abs(x2 - x1), nsaves=p['nsaves'])
    ctx.trivial(a.nok < 2)
    # (rounding of the positions, when they are large compared with the interval)
    close(y, ex(x), 0, 40 * p['tol'] + 1e-13 + 2e-14 * p['w'] * (abs(x1) + abs(x2)) / abs(x2 - x1), 'state between the steps')


@sub('P22', 'large_systems', st.fixed_dictionaries(dict(n=st.integers(6, 400), cplx=st.booleans(), nsaves=st.one_of(st.none(), st.integers(0, 40)), seed=SEED, sp=span(),
                                                        w=F(1., 20.))), quick=150,
     rule='systems of many independent oscillators: saved states against the exact ones')
def large_systems(p, ctx):
    x1, x2 = p['sp']
    rng = np.random.RandomState(p['seed'])
    n = p['n']
    w = rng.uniform(-1, 1, n) * p['w'] / abs(x2 - x1)
    if p['cplx']:
        y0 = rng.normal(size=n) + 1j * rng.normal(size=n)
        f = lambda x, y: 1j * w * y
        ex = lambda x: y0 * np.exp(1j * w * (x - x1))
    else:
        y0 = rng.normal(size=n)
        f = lambda x, y: w * np.cos(w * (x - x1)) * y
        ex = lambda x: y0 * np.exp(np.sin(w * (x - x1)))
    x, y, a, ys, r = ode(f, y0, x1, x2, 1e-9, 1e-9, nsaves=p['nsaves'], dense=bool(p['nsaves']))
    close(ys, ex(x2), 0, 1e-5, 'final state')
    if p['nsaves'] is None:
        return
    require(y.shape == (len(x), n), 'saved states have shape %s', y.shape)
    if p['nsaves']:
        close(x, np.linspace(x1, x2, p['nsaves'] + 1), 0, 1e-10 * (abs(x1) + abs(x2)), 'saved positions')
    for i in range(len(x)):
        close(y[i], ex(x[i]), 0, 1e-4, 'state saved at x = %g' % x[i])


@sub('P22', 'modes', st.fixed_dictionaries(dict(nsaves=st.sampled_from([None, 0, -1, 5]), dense=st.booleans(), cplx=st.booleans(), sp=span(),
                                                seed=SEED, long=st.booleans())), quick=200,
     rule='step saves, no saves, and refused combinations')
def modes(p, ctx):
    x1, x2 = p['sp']
    y0 = np.array([1.0, .5], complex if p['cplx'] else float)
    w = (60. if p['long'] else 2.) / abs(x2 - x1)
    f = (lambda x, y: 1j * w * y) if p['cplx'] else (lambda x, y: w * np.array([-y[1], y[0]]))
    rot = (lambda t: y0 * np.exp(1j * w * (t - x1))) if p['cplx'] else (lambda t: np.array(
        [y0[0] * np.cos(w * (t - x1)) - y0[1] * np.sin(w * (t - x1)), y0[0] * np.sin(w * (t - x1)) + y0[1] * np.cos(w * (t - x1))]))
    on = p['nsaves'] is not None and p['nsaves'] > 0
    if p['dense'] and not on:
        from pynlo.util import ode_solve
        try:
            ode(f, y0, x1, x2, nsaves=p['nsaves'], dense=True)
        except AttributeError:
            return
        raise Violation('dense output from an Output without save points')
    x, y, a, ys, r = ode(f, y0, x1, x2, 1e-10, 1e-10, nsaves=p['nsaves'], dense=p['dense'])
    close(ys, rot(x2), 0, 1e-6, 'final state')
    if p['nsaves'] is None:
        require(a.out.count == 0, 'states saved by an Output without saves')
        return
    if not p['dense']:
        close(x[[0, -1]], [x1, x2], 1e-12, 1e-12, 'first and last saved positions')
        require(np.all(np.diff(x) * (x2 - x1) > 0), 'saved positions are not monotonic')
        require(len(x) == a.nok + a.nbad + 1, '%d saves after %d steps', len(x), a.nok + a.nbad)
        for i in range(len(x)):
            close(y[i], rot(x[i]), 0, 1e-6, 'state after step %d' % i)


@sub('P22', 'many_steps', st.fixed_dictionaries(dict(w=F(800., 2500.), cplx=st.booleans(), back=st.booleans())), quick=24,
     rule='more saved steps than the initial storage')
def many_steps(p, ctx):
    x1, x2 = (1.0, 0.0) if p['back'] else (0.0, 1.0)
    y0 = np.array([1.0, .5], complex if p['cplx'] else float)
    w = p['w']
    f = (lambda x, y: 1j * w * y) if p['cplx'] else (lambda x, y: w * np.array([-y[1], y[0]]))
    x, y, a, ys, r = ode(f, y0, x1, x2, 1e-12, 1e-12, nsaves=0, dense=False)
    ctx.trivial(len(x) < 501)
    require(np.all(np.diff(x) * (x2 - x1) > 0) and x[0] == x1, 'saved positions are not monotonic')
    for i in range(len(x)):
        t = w * (x[i] - x1)
        e = y0 * np.exp(1j * t) if p['cplx'] else np.array([y0[0] * np.cos(t) - y0[1] * np.sin(t), y0[0] * np.sin(t) + y0[1] * np.cos(t)])
        close(y[i], e, 0, 1e-7, 'state after step %d' % i)


@sub('P22', 'dtypes', st.fixed_dictionaries(dict(dt=st.sampled_from(['c16', 'f8', 'mix']), n=st.integers(1, 5), seed=SEED)), quick=80,
     rule='explicit dtypes; storage of another type is refused')
def dtypes(p, ctx):
    rng = np.random.RandomState(p['seed'])
    y0 = rng.normal(size=p['n'])
    if p['dt'] == 'mix':
        # real start, complex work space requested explicitly
        x, y, a, ys, r = ode(lambda x, y: 1j * y, y0.astype(complex), 0., 1., nsaves=4, dtype=np.complex128)
        close(y[-1], y0 * np.exp(1j), 0, 1e-6, 'complex state')
        # a save of another type is refused
        o = a.out
        k = o.count
        try:
            o.save(2.0, y0)
        except TypeError:
            require(o.count == k, 'a refused save was counted')
            return
        raise Violation('state of another type was saved')
    dt = np.dtype(p['dt'])
    x, y, a, ys, r = ode(lambda x, y: -y, y0.astype(dt), 0., 1., nsaves=4)
    require(y.dtype == dt, 'saved states have type %s', y.dtype)
    close(y[-1], y0 * np.exp(-1), 0, 1e-6, 'state')


@sub('P22', 'interleaved', st.fixed_dictionaries(dict(a=st.fixed_dictionaries(PROB), b=st.fixed_dictionaries(PROB), ta=logF(1e-9, 1e-4), tb=logF(1e-9, 1e-4),
                                                      na=st.integers(1, 20), nb=st.integers(1, 20), mode=st.sampled_from(['nested', 'created', 'after']))),
     quick=300, rule='an integration gives bit-identical results whatever other integrations do meanwhile')
def interleaved(p, ctx):
    A, B = _norm(p['a']), _norm(p['b'])
    fa, ya, sa = _problem(A)
    fb, yb, sb = _problem(B)
    run_b = lambda: ode(fb, yb, B['x1'], B['x2'], p['tb'] * 10. ** B['mag'], p['tb'], nsaves=p['nb'])
    run_a = lambda f: ode(f, ya, A['x1'], A['x2'], p['ta'] * 10. ** A['mag'], p['ta'], nsaves=p['na'])
    x, y, _, ys, _ = run_a(fa)
    keep = (x.copy(), y.copy(), ys.copy())
    if p['mode'] == 'nested':
        cnt = [0]

        def f(x, y):
            cnt[0] += 1
            if cnt[0] in (1, 5, 14, 30):
                run_b()
            return fa(x, y)
        x, y, _, ys, _ = run_a(f)
    elif p['mode'] == 'created':
        from pynlo.util import ode_solve
        from pynlo.util.ode_solve import dopr853
        o1, o2 = ode_solve.Output(p['na']), ode_solve.Output(p['nb'])
        z1, z2 = np.array(ya), np.array(yb)
        i1 = ode_solve.ODEint(z1, A['x1'], A['x2'], p['ta'] * 10. ** A['mag'], p['ta'], (A['x2'] - A['x1']) / 50., 0., o1, dopr853.StepperDopr853, Rhs(fa))
        i2 = ode_solve.ODEint(z2, B['x1'], B['x2'], p['tb'] * 10. ** B['mag'], p['tb'], (B['x2'] - B['x1']) / 50., 0., o2, dopr853.StepperDopr853, Rhs(fb))
        i2.integrate()
        i1.integrate()
        x, y, ys = np.real(o1.xsave[:o1.count]), o1.ysave[:o1.count], z1
    else:
        r1 = run_a(fa)
        run_b()
        x, y, ys = r1[0], r1[1], r1[3]
    for u, v, w in zip((x, y, ys), keep, ('positions', 'saved states', 'final state')):
        equal(u, v, w + ' of an integration among others')


@sub('P22', 'reused_output', st.fixed_dictionaries(dict(a=st.fixed_dictionaries(PROB), b=st.fixed_dictionaries(PROB), n=st.sampled_from([-1, 0, 1, 7, 40, 600]))),
     quick=200, fixed=[dict(a=dict(kind='linear', seed=1, dim=2, cplx=False, scale=2., mag=0, sp=[0., 1.]),
                            b=dict(kind='linear', seed=2, dim=3, cplx=c, scale=2., mag=0, sp=[2., 1.]), n=n) for c in (False, True) for n in (0, 5)],
     rule='an Output handed to a second integration ends up with the states of that integration alone')
def reused_output(p, ctx):
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    n = p['n'] if p['n'] >= 0 else None
    shared, got = ode_solve.Output(n), []
    for o in (shared, None):
        for q in (p['a'], p['b']):
            q = _norm(dict(q))
            f, y0, sol = _problem(q)
            out = o or ode_solve.Output(n)
            ys = np.array(y0)
            ode_solve.ODEint(ys, q['x1'], q['x2'], 1e-7 * 10. ** q['mag'], 1e-7, (q['x2'] - q['x1']) / 30, 0.0, out, dopr853.StepperDopr853, Rhs(f),
                             bool(n)).integrate()
        got.append((out.count, None if out.xsave is None else out.xsave[:out.count].copy(), None if out.ysave is None else out.ysave[:out.count].copy(), ys))
    a, b = got
    require(a[0] == b[0], '%d states saved in a used Output, %d in a new one', a[0], b[0])
    for u, v, w in zip(a[1:], b[1:], ('positions', 'states', 'final state')):
        if v is None:
            require(u is None, '%s saved without saves', w)
        else:
            equal(u, v, w + ' saved in a used Output')
