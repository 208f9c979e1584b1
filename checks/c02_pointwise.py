import _boot
from harness import *
from gen import *
import large
import tidalref as R
import predref as P
import pyTMD.predict

PROPERTY = 'C02'
RULE = ('Constant arrays, per-constant masks, permutations, subsets of points and times, scalings and sums are generated; non-trivial when the '
        'constants are not all zero and there is more than one constituent or point, or a mask.')
ASSUMPTIONS = ['metamorphic relations only (linearity, order, batch, masks); values themselves are judged by C01 and C06',
               'inference works in single precision (complex64)']

CORR = st.sampled_from(['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'GOT', 'GOT', 'perth3'])
NAMES = st.one_of(st.sampled_from(sorted(P.OTIS)), st.sampled_from(sorted(R.ALL)))
DAY = st.one_of(fl(-15000, 25000), fl(0, 12000), st.integers(-10000, 20000).map(float))
DT = st.one_of(st.just(0.0), fl(0.0, 0.0015))
MAJ = P.SHORT[:8] + ['node', 'mm', 'mf']


def grid(z, npts, nc, a=3, b=5):
    return np.array([[z[(a*i + b*k + i*k) % len(z)]*(1 + 0.07*k - 0.03*i) for k in range(nc)] for i in range(npts)])


def masked(h, bits):
    m = np.zeros(h.shape, bool)
    if len(bits):
        m.flat[:] = [bool(bits[(i*i + 3*i) % len(bits)]) for i in range(h.size)]
    a = np.ma.array(h.copy(), mask=m)
    return a, m


def call(fn, t, h, names, **kw):
    """one of the four predictions; series take constants of one point"""
    f = dict(map=pyTMD.predict.map, drift=pyTMD.predict.drift, series=pyTMD.predict.time_series, minor=pyTMD.predict.infer_minor)[fn]
    r = f(t, h, names, **kw)
    return np.ma.getdata(r), np.ma.getmaskarray(np.ma.asarray(r))


def f_linear(case, ctx):
    fn, corr = case['fn'], case['corr']
    names = case['names'] if fn != 'minor' else case['majors']
    t = np.array(case['t'])
    npts = dict(map=case['npts'], series=1, drift=len(t), minor=case['mode_pts'] and len(t) or 1)[fn]
    if fn == 'map':
        t = float(t[0])
    h1, h2 = grid(C(case['z1']), npts, len(names)), grid(C(case['z2']), npts, len(names), 5, 2)
    a, b = case['a'], case['b']
    nm = (lambda x: np.ma.array(x, mask=np.zeros(x.shape, bool))) if case['masked'] else (lambda x: x)
    kw = dict(deltat=case['dt'], corrections=corr)
    A, B = call(fn, t, nm(h1), names, **kw)[0], call(fn, t, nm(h2), names, **kw)[0]
    S = call(fn, t, nm(a*h1 + b*h2), names, **kw)[0]
    tol = (2e-6 if fn == 'minor' else 1e-11)*(1 + abs(a)*np.abs(h1).sum(axis=1).max() + abs(b)*np.abs(h2).sum(axis=1).max())
    ctx.nt(np.abs(h1).max() > 1e-6 and np.abs(h2).max() > 1e-6 and len(names) > 1)
    ctx.label(fn)
    ctx.close(S, a*A + b*B, f'{fn} ({corr}) is not linear in the constants', rtol=0, atol=tol)
    Z = call(fn, t, nm(0*h1), names, **kw)[0]
    ctx.check(np.all(Z == 0), f'{fn} ({corr}) of zero constants is {Z}')
    # constituents contribute separately: the order of the list does not matter
    perm = [int(i) for i in np.argsort([(case['seed']*(i+1)*7919) % 1009 for i in range(len(names))])]
    Pm = call(fn, t, nm(h1[:, perm]), [names[i] for i in perm], **kw)[0]
    ctx.close(Pm, A, f'{fn} ({corr}) depends on the order of the constituents', rtol=0, atol=tol)
    if fn != 'minor' and len(names) > 1:
        j = case['seed'] % (len(names)-1) + 1
        p1 = call(fn, t, nm(h1[:, :j]), names[:j], **kw)[0]
        p2 = call(fn, t, nm(h1[:, j:]), names[j:], **kw)[0]
        ctx.close(p1 + p2, A, f'{fn} ({corr}) is not a sum over constituents', rtol=0, atol=tol)


def f_mask(case, ctx):
    """masked exactly where a constant that is summed is masked; inputs kept; batches do not matter"""
    fn, corr = case['fn'], case['corr']
    names = case['names'] if fn != 'minor' else case['majors']
    t = np.array(case['t'])
    npts = dict(map=case['npts'], series=1, drift=len(t), minor=case['mode_pts'] and len(t) or 1)[fn]
    if fn == 'map':
        t = t[:1]
    h = grid(C(case['z1']), npts, len(names))
    hm, m = masked(h, case['bits'])
    kw = dict(deltat=case['dt'], corrections=corr)
    minor = None
    if fn == 'minor':
        minor = case['minor'] or None
        kw['minor'] = minor
        if corr == 'GOT':
            kw['method'] = case['method']
        _, _, used = P.inferred(t, np.abs(h)+1, names, corr, case['dt'], minor, case['method'] if corr == 'GOT' else 'linear')
        cols = [names.index(c) for c in used]
    else:
        cols = list(range(len(names)))
    n = npts if fn == 'map' else len(t)
    tt = float(t[0]) if fn == 'map' else t
    before, tb = hm.copy(), np.copy(t)
    v, vm = call(fn, tt, hm, list(names), **kw)
    v, vm = np.atleast_1d(v), np.atleast_1d(vm)
    ctx.check(v.shape == (n,), f'{fn}: shape {v.shape} expected {(n,)}')
    ctx.check(np.array_equal(before.data, hm.data) and np.array_equal(before.mask, hm.mask), f'{fn} modified the constants')
    ctx.check(np.array_equal(tb, t), f'{fn} modified the times')
    want = np.any(m[:, cols], axis=1) if cols else np.zeros(npts, bool)
    if len(want) != n:
        want = np.repeat(want, n)
    bad = np.argwhere(vm != want)
    ctx.check(not len(bad), f'{fn} ({corr}, {names}, minor={minor}): mask {vm.tolist()} expected {want.tolist()}', key='mask')
    ctx.nt(bool(np.any(m)) or n > 1)
    ctx.label(fn)
    # one point (and time) alone
    i = case['seed'] % n
    hi = hm if npts == 1 else hm[i:i+1]
    ti = float(t[0]) if fn == 'map' else t[i:i+1]
    a, am = call(fn, ti, hi, list(names), **kw)
    a, am = np.atleast_1d(a), np.atleast_1d(am)
    ctx.check(am[0] == want[i], f'{fn}: mask of point {i} alone is {am[0]}')
    if not want[i]:
        tol = (2e-6 if fn == 'minor' else 1e-11)*(1 + np.abs(h).sum())
        ctx.check(abs(a[0] - v[i]) <= tol, f'{fn} ({corr}): point {i} alone {a[0]!r}, in the batch {v[i]!r}')
        # the other constants do not matter
        if npts > 1:
            h2, _ = masked(h*3.0 + 1.0, [])
            h2[i] = hm[i]
            b, bm = call(fn, tt, h2, list(names), **kw)
            ctx.check(abs(np.atleast_1d(b)[i] - v[i]) <= tol, f'{fn} ({corr}): point {i} changes with the other points')
    # reversed points and times
    if n > 1:
        hr = hm if npts == 1 else hm[::-1]
        tr = tt if fn == 'map' else t[::-1].copy()
        r, rm = call(fn, tr, hr, list(names), **kw)
        ctx.check(np.array_equal(rm[::-1], want), f'{fn}: mask depends on the order of points')
        ok = ~want
        ctx.close(r[::-1][ok], v[ok], f'{fn}: values depend on the order of points', rtol=0, atol=(2e-6 if fn == 'minor' else 1e-11)*(1 + np.abs(h).sum()))
    # a mask hides its data: the hidden number is irrelevant
    if np.any(m):
        h3 = np.ma.array(np.where(m, 9.0e3 - 4.0e3j, h), mask=m)
        b, bm = call(fn, tt, h3, list(names), **kw)
        b, bm = np.atleast_1d(b), np.atleast_1d(bm)
        ctx.check(np.array_equal(bm, want), f'{fn}: mask depends on hidden data')
        ctx.close(b[~want], v[~want], f'{fn}: hidden data leaks into unmasked output', rtol=0, atol=1e-9)


base = dict(fn=st.sampled_from(['map', 'drift', 'series', 'minor', 'minor']), corr=CORR, names=st.lists(NAMES, min_size=1, max_size=5, unique=True),
            majors=st.sampled_from([MAJ, MAJ[::-1], MAJ + ['2n2'], MAJ[:8], MAJ[3:] + MAJ[:3]]), t=lists(DAY, 1, 4), npts=st.integers(1, 4),
            mode_pts=st.booleans(), z1=lists(cplx(), 1, 7), dt=DT, seed=st.integers(0, 1000))
MINOR = st.one_of(st.just([]), st.lists(st.sampled_from(sorted({m for v in P.MINORS_OF.values() for m in v})), min_size=1, max_size=3, unique=True))
SUBS = [Sub('linear', st.fixed_dictionaries(dict(base, z2=lists(cplx(), 1, 7), a=fl(-3, 3), b=fl(-3, 3), masked=st.booleans())), f_linear, 500, 15000, shards=3),
        Sub('mask', st.fixed_dictionaries(dict(base, bits=st.one_of(st.just([]), st.lists(st.integers(0, 1), min_size=1, max_size=12),
            st.integers(0, 40).map(lambda i: [0]*i + [1] + [0]*(40-i))), minor=MINOR, method=st.sampled_from(['linear', 'admittance']))), f_mask, 700, 20000, shards=4)]
SUBS.append(large.sub(['map', 'drift', 'series']))
SUBS.append(large.pure(['map', 'drift', 'series']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
