import _boot
from harness import *
from gen import *
import tidalref as R
import predref as P
import pyTMD.solve, pyTMD.predict

PROPERTY = 'C07'
RULE = ('Sets of constituents separable over the generated record (regular, shuffled, gappy or random sampling), amplitudes, phases, offset, solver and '
        'convention are generated; non-trivial when two or more constituents are recovered (reference design matrix well conditioned).')
ASSUMPTIONS = ['series are built by the independent reference of lib/predref.py and, in half of the cases, by pyTMD.predict.time_series',
               'records whose reference design matrix has a condition number over 200 are skipped (not separable)']

CORR = st.sampled_from(['OTIS', 'OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'GOT', 'perth3'])
POOL = ['m2', 's2', 'n2', 'k2', 'k1', 'o1', 'p1', 'q1', '2n2', 'mu2', 'l2', 'j1', 'oo1', 'mf', 'mm', 'm4', 'ms4', 'mn4', 'm6', 'm8', 'mk3', 's6', '2sm2',
        '2mk3', 'rho1', 'm3', 's4', 'm1', '2q1', 'ssa', 's1', 'so1', '2sm6', 'sk4', 'so3', 'ups1', 'eta2', 'mtm', 'msqm']
SOLVERS = ['lstsq', 'gelsy', 'gelss', 'gelsd', 'bvls']


def sample(case, nc):
    n = 2*nc + 1 + case['extra']
    kind, step, t0 = case['kind'], case['step'], case['t0']
    if kind == 'random':
        r = np.random.default_rng(case['seed'])
        t = t0 + r.uniform(0, case['span'], n)
    else:
        t = t0 + step*np.arange(n)/24.0
        if kind == 'gap':
            t[n//2:] += 40.0
        if kind == 'shuffled':
            t = np.random.default_rng(case['seed']).permutation(t)
    return t


def design(t, names, corr, dt):
    M = [np.ones(len(t))]
    for c in names:
        th, f, u = P.angle(t, c, corr, dt)
        M += [f*np.cos(th+u), -f*np.sin(th+u)]
    return np.array(M).T


def f_recover(case, ctx):
    names = [c for c, _, _ in case['h']]
    amp = np.array([a for _, a, _ in case['h']])
    pha = np.array([g for _, _, g in case['h']])
    h = amp*np.exp(-1j*np.radians(pha))
    corr, dt, solver = case['corr'], case['dt'], case['solver']
    t = sample(case, len(names))
    D = design(t, names, corr, dt)
    cond = np.linalg.cond(D)
    if not cond < 200:
        ctx.skip()
    ctx.nt(len(names) > 1 and np.sum(amp > 1e-3) > 1)
    ctx.label(solver)
    if case['own']:
        ht = np.ma.getdata(pyTMD.predict.time_series(t, np.ma.array(h[None, :], mask=np.zeros((1, len(h)), bool)), names, deltat=dt, corrections=corr))
    else:
        ht = P.height(t, h, names, corr, dt)
    ht = ht + case['offset']
    t0, h0 = t.copy(), ht.copy()
    arg = names[0] if (case['str'] and len(names) == 1) else np.array(names) if case['str'] else names
    kw = dict(bounds=(-60.0, 60.0)) if (solver == 'bvls' and case['own']) else {}
    a, g = pyTMD.solve.constants(t, ht, arg, deltat=dt, corrections=corr, solver=solver, **kw)
    ctx.check(np.array_equal(t, t0) and np.array_equal(ht, h0), 'inputs modified')
    ctx.check(np.shape(a) == (len(names),) and np.shape(g) == (len(names),), f'shapes {np.shape(a)} {np.shape(g)}')
    ctx.check(np.all((g >= 0) & (g <= 360)), f'phase outside 0..360: {g}')
    tol = 1e-6*cond*(1e-2 + amp.max() + abs(case['offset']))*0.1
    ctx.close(a, amp, f'amplitudes of {names} ({corr}, {solver})', rtol=0, atol=tol)
    got = a*np.exp(-1j*np.radians(g))
    ctx.close(got, h, f'constants of {names} ({corr}, {solver})', rtol=0, atol=tol)
    # a scaled and shifted series has scaled constants
    k, off = case['scale'], case['shift']
    a2, g2 = pyTMD.solve.constants(t, k*ht + off, arg, deltat=dt, corrections=corr, solver=solver)
    ctx.close(a2*np.exp(-1j*np.radians(g2)), k*h, f'constants of the scaled series of {names} ({corr}, {solver})', rtol=0, atol=tol*(abs(k)+1) + 1e-7*cond*abs(off))
    # fitting with noise: the normal equations hold (least squares, not just interpolation)
    if case['extra'] >= 4:
        y = ht + 0.1*np.random.default_rng(case['seed']).normal(size=len(t))
        a3, g3 = pyTMD.solve.constants(t, y, arg, deltat=dt, corrections=corr, solver=solver)
        p = np.linalg.lstsq(D, y, rcond=None)[0]
        w = p[1::2] + 1j*p[2::2]
        ctx.close(a3*np.exp(-1j*np.radians(g3)), w, f'least squares constants of {names} ({corr}, {solver})', rtol=0, atol=tol + 1e-6*cond)


def f_bounded(case, ctx):
    """the bounded solver: the least squares solution among the coefficients within the bounds"""
    import scipy.optimize
    names = [c for c, _, _ in case['h']]
    h = np.array([a*np.exp(-1j*np.radians(g)) for _, a, g in case['h']])
    r = np.random.default_rng(case['seed'])
    t = case['t0'] + np.sort(r.uniform(0, 200 + case['span'], 2*len(names) + 6 + case['extra'] % 200))
    corr = case['corr']
    D = design(t, names, corr, 0.0)
    if not np.linalg.cond(D) < 50:
        ctx.skip()
    y = P.height(t, h, names, corr, 0.0) + case['offset'] + 0.05*r.normal(size=len(t))
    if not np.abs(h).max() > 1e-2:
        ctx.skip()
    b = case['b']*float(np.abs(h).max())
    lim = (-b, b) if case['sym'] else (-b, 4*b)
    kw = {} if case['iter'] is None else dict(max_iter=case['iter'])
    w = scipy.optimize.lsq_linear(D, y, bounds=lim, method='bvls')
    if w.status <= 0:
        ctx.skip()
    a, g = pyTMD.solve.constants(t, y, names, corrections=corr, solver='bvls', bounds=lim, **kw)
    active = bool(np.any(w.active_mask[1:]))
    ctx.label('active' if active else 'free')
    ctx.nt(active)
    ctx.close(a*np.exp(-1j*np.radians(g)), w.x[1::2] + 1j*w.x[2::2], f'bounded constants of {names} ({corr})', rtol=0, atol=1e-4*(1 + float(np.abs(h).max())))


def f_refuse(case, ctx):
    names = case['names']
    n = max(1, 2*len(names) - case['short'])
    t = np.linspace(0, 30, n)
    kw = dict(corrections=case['corr'], solver=case['solver'])
    ctx.nt()
    try:
        pyTMD.solve.constants(t, np.cos(t), names, **kw)
    except ValueError:
        pass
    else:
        ctx.fail(f'{n} observations for {2*len(names)+1} unknowns accepted')
    m = 2*len(names) + 5
    t = np.linspace(0, 30, m)
    try:
        pyTMD.solve.constants(t, np.cos(t)[:-1-case['short']], names, **kw)
    except ValueError:
        pass
    else:
        ctx.fail('different numbers of times and heights accepted')


H = st.lists(st.tuples(st.sampled_from(POOL), st.one_of(fl(0, 3), st.sampled_from([0.0, 1.0])), mix(0., 359.999, 0., 90., 180., 270.)).map(list),
             min_size=1, max_size=6, unique_by=lambda x: x[0])
SUBS = [Sub('recover', st.fixed_dictionaries(dict(h=H, corr=CORR, dt=st.sampled_from([0.0, 0.0, 0.0007]), solver=st.sampled_from(SOLVERS), t0=fl(-12000, 15000),
            kind=st.sampled_from(['regular', 'random', 'random', 'gap', 'shuffled']), step=st.sampled_from([1.0, 2.0, 0.5, 3.0, 1.37]), extra=st.one_of(st.integers(0, 600), st.integers(0, 600), st.integers(0, 600), st.sampled_from([1100, 4200, 8800])),
            span=fl(60, 1500), seed=st.integers(0, 99999), own=st.booleans(), offset=st.sampled_from([0.0, 1.5, -20.0]), str=st.booleans(),
            scale=fl(0.2, 4), shift=fl(-3, 3))), f_recover, 1200, 30000, shards=6),
        Sub('bounded', st.fixed_dictionaries(dict(h=H, corr=CORR, t0=fl(-12000, 15000), extra=st.integers(0, 200), span=fl(0, 600), seed=st.integers(0, 99999),
            offset=st.sampled_from([0.0, 0.2]), b=fl(0.3, 1.5), sym=st.booleans(), iter=st.sampled_from([None, 1000]))), f_bounded, 160, 4000, shards=2),
        Sub('refuse', st.fixed_dictionaries(dict(names=st.lists(st.sampled_from(POOL), min_size=1, max_size=5, unique=True), short=st.integers(0, 3), corr=CORR,
            solver=st.sampled_from(SOLVERS))), f_refuse, 100, 1000)]

if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
