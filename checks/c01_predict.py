import _boot
from harness import *
from gen import *
import large
import tidalref as R
import predref as P
import pyTMD.predict

PROPERTY = 'C01'
RULE = ('Constituent lists (any order, tabulated and untabulated, long-period to compound), complex constants, times 1950-2060, TT-UT1 offsets and '
        'correction conventions are generated; non-trivial when two or more constituents with non-zero constants are summed.')
ASSUMPTIONS = ['reference arguments, frequencies, phases and nodal terms are typed independently in lib/tidalref.py and lib/predref.py',
               'nodal terms that C04 lists as known findings (FES L2 family) are taken from pyTMD.arguments']

CORR = st.sampled_from(['OTIS', 'OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'FES', 'GOT', 'GOT', 'perth3'])
NAMES = st.one_of(st.sampled_from(sorted(P.OTIS)), st.sampled_from(sorted(P.OTIS)), st.sampled_from(sorted(R.ALL)))
CONST = st.lists(st.tuples(NAMES, cplx(-4, 4)).map(list), min_size=1, max_size=8, unique_by=lambda x: x[0])
DAY = st.one_of(fl(-15000, 25000), fl(0, 12000), st.integers(-10000, 20000).map(float), st.integers(-2000, 2000).map(lambda i: i/24))
DT = st.one_of(st.just(0.0), fl(0.0, 0.0015))


def kinds(names, kind):
    return {'tuple': tuple, 'array': np.array}.get(kind, list)(names)


def tolerance(t, h, names):
    # positions of the longitudes are exact to ~1e-7 degrees; the tabulated frequencies are literal
    return 1e-7*(1.0 + np.sum(np.abs(h), axis=-1))


def run(ctx, case):
    names = [c for c, _ in case['h']]
    h = C([z for _, z in case['h']])
    t = np.array(case['t'])
    corr = case['corr']
    dt = np.array((case['dt']*len(t))[:len(t)]) if case['dtarr'] else case['dt'][0]
    return names, h, t, corr, dt


def f_sum(case, ctx):
    names, h, t, corr, dt = run(ctx, case)
    ctx.nt(np.sum(np.abs(h) > 1e-6) > 1)
    ctx.label('greenwich argument' if corr not in R.OTIS_TYPES else 'tabulated frequency' if all(c in P.OTIS for c in names) else 'mixed')
    want = P.height(t, h, names, corr, dt)
    arg = kinds(names, case['kind'])
    tol = tolerance(t, h, names)
    got = pyTMD.predict.time_series(t, np.ma.array(h[None, :], mask=False), arg, deltat=dt, corrections=corr)
    ctx.check(got.shape == t.shape, f'time series shape {got.shape}')
    ctx.check(not np.any(np.ma.getmaskarray(got)), 'time series masked')
    ctx.close(np.ma.getdata(got), want, f'time series of {names} ({corr})', rtol=0, atol=tol)
    # every sample of a trajectory, and a map per time
    hh = np.tile(h, (len(t), 1))
    hd = np.ma.array(hh, mask=np.zeros(hh.shape, bool))
    got = pyTMD.predict.drift(t, hd, arg, deltat=dt, corrections=corr)
    ctx.close(np.ma.getdata(got), want, f'drift of {names} ({corr})', rtol=0, atol=tol)
    i = case['pick'] % len(t)
    dti = float(dt[i]) if np.ndim(dt) else dt
    got = pyTMD.predict.map(t[i], hd[:2], arg, deltat=dti, corrections=corr)
    ctx.close(np.atleast_1d(np.ma.getdata(got)), np.repeat(want[i], min(2, len(t))), f'map of {names} ({corr})', rtol=0, atol=tol)


def f_points(case, ctx):
    """different constants at every point: map at one time, drift with a time per point"""
    names = case['c']
    n = len(case['t'])
    t = np.array(case['t'])
    z = C(case['z'])
    h = np.array([[z[(7*i+3*k) % len(z)]*(1+0.1*i) for k in range(len(names))] for i in range(n)])
    corr, dt = case['corr'], case['dt']
    ctx.nt(n > 1 and len(names) > 1 and np.abs(z).max() > 1e-6)
    hm = np.ma.array(h, mask=np.zeros(h.shape, bool))
    tol = 1e-7*(1.0 + np.abs(h).sum(axis=1).max())
    got = pyTMD.predict.drift(t, hm, names, deltat=dt, corrections=corr)
    ctx.close(np.ma.getdata(got), P.height(t, h, names, corr, dt), f'drift of {names} ({corr})', rtol=0, atol=tol)
    got = pyTMD.predict.map(t[0], hm, names, deltat=dt, corrections=corr)
    want = P.height(t[:1], h, names, corr, dt)
    ctx.close(np.atleast_1d(np.ma.getdata(got)), want, f'map of {names} ({corr})', rtol=0, atol=tol)
    # the three modes agree exactly
    for i in (0, n-1):
        a = pyTMD.predict.map(t[i], hm[i:i+1], names, deltat=dt, corrections=corr)
        b = pyTMD.predict.time_series(t[i:i+1], hm[i:i+1], names, deltat=dt, corrections=corr)
        c = pyTMD.predict.drift(t, hm, names, deltat=dt, corrections=corr)[i]
        ctx.close([float(b[0]), float(c)], [float(a)]*2, f'modes disagree at point {i}', rtol=1e-12, atol=1e-12)


SUBS = [Sub('sum', st.fixed_dictionaries(dict(h=CONST, t=lists(DAY, 1, 5), corr=CORR, dt=st.lists(DT, min_size=1, max_size=4), dtarr=st.booleans(),
            kind=st.sampled_from(['list', 'list', 'tuple', 'array']), pick=st.integers(0, 10))), f_sum, 1500, 40000, shards=4),
        Sub('points', st.fixed_dictionaries(dict(c=st.lists(NAMES, min_size=1, max_size=5, unique=True), t=lists(DAY, 1, 5), corr=CORR, dt=DT,
            z=lists(cplx(), 1, 7))), f_points, 1000, 20000, shards=3)]
SUBS.append(large.sub(['map', 'drift', 'series']))
SUBS.append(large.pure(['map', 'drift', 'series']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
