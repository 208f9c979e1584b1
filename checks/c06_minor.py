import _boot
from harness import *
from gen import *
import large
import tidalref as R
import predref as P
import pyTMD.predict
import pyTMD.arguments as pa

PROPERTY = 'C06'
RULE = ('Constants on generated subsets and orders of the major constituents (plus minors already in the model), requested minors, conventions, '
        'interpolation methods and times are generated; non-trivial when at least one minor is inferred from non-zero majors.')
ASSUMPTIONS = ['reference admittance coefficients (Egbert & Erofeeva, FES splines, Munk-Cartwright, Cartwright-Edden potentials) typed in lib/predref.py',
               'a missing major counts as zero when at least six short-period majors are given',
               'inference works in single precision (complex64): compared at 4e-6 of the summed magnitudes']

CORR = st.sampled_from(['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'FES', 'GOT', 'GOT', 'GOT', 'GOT', 'GOT', 'perth3'])
ALLMINOR = sorted({m for v in P.MINORS_OF.values() for m in v})
EXTRA = st.sampled_from(ALLMINOR + ['m4', 'ms4', 'mn4', 's1', 'm3', 'z0'])
DAY = st.one_of(fl(-15000, 25000), fl(0, 12000), st.integers(-10000, 20000).map(float))
DT = st.one_of(st.just(0.0), fl(0.0, 0.0015))


@st.composite
def model(draw):
    kind = draw(st.sampled_from(['all', 'all', 'some', 'few']))
    short, longp = list(P.SHORT), ['node', 'mm', 'mf']
    if kind == 'some':
        drop = draw(st.lists(st.sampled_from(short), max_size=4, unique=True))
        short = [c for c in short if c not in drop]
        longp = draw(st.sampled_from([longp, [], ['mm', 'mf']]))
    elif kind == 'few':
        short = draw(st.lists(st.sampled_from(short), max_size=6, unique=True))
        longp = draw(st.sampled_from([longp, [], ['mm', 'mf']]))
    if draw(st.booleans()) and '2n2' in short:
        short.remove('2n2')
    names = short + longp
    for c in draw(st.lists(EXTRA, max_size=5, unique=True)):
        if c not in names:
            names.append(c)
    if not names:
        names = ['m2']
    if draw(st.booleans()):
        names = list(draw(st.permutations(names)))
    return names


def constants(names, zs, npts):
    z = C(zs)
    return np.array([[z[(5*i + 3*k + (i*k) % 2) % len(z)]*(1 + 0.07*k) for k in range(len(names))] for i in range(npts)])


def setup(case):
    names, t, mode = case['names'], np.array(case['t']), case['mode']
    npts = 1 if mode == 'series' else len(t) if mode == 'drift' else case['npts']
    if mode == 'map':
        t = t[:1]
    h = constants(names, case['z'], npts)
    minor = case['minor'] or None
    dt = np.array((case['dt']*len(t))[:len(t)]) if case['dtarr'] else case['dt'][0]
    return names, t, mode, h, minor, dt


def compare(ctx, got, want, scale, what):
    got = np.ma.asarray(got)
    ctx.check(got.shape == want.shape, f'{what}: shape {got.shape} expected {want.shape}')
    ctx.check(not np.any(np.ma.getmaskarray(got)), f'{what}: masked without masked constants')
    d = np.abs(np.ma.getdata(got) - want)
    tol = 4e-6*scale + 1e-7
    if np.any(~(d <= tol)):
        i = int(np.argmax(d - tol))
        ctx.fail(f'{what}: got {np.ma.getdata(got)[i]!r} expected {want[i]!r} (point {i})')


def f_infer(case, ctx):
    names, t, mode, h, minor, dt = setup(case)
    corr, method = case['corr'], case['method']
    kw = dict(deltat=dt, corrections=corr)
    if minor is not None:
        kw['minor'] = minor
    if corr == 'GOT':
        kw['method'] = method
    found = P.minors_inferred(names, corr, minor)
    want, scale, used = P.inferred(t, h, names, corr, dt, minor, method if corr == 'GOT' else 'linear')
    ctx.nt(bool(found) and float(scale.max()) > 1e-4)
    for b in sorted({b for b, m in found}):
        ctx.label(b)
    if not found:
        ctx.label('nothing inferred')
    tt = float(t[0]) if (mode == 'map' and case['scalar']) else t
    h0 = h.copy()
    hm = np.ma.array(h, mask=np.zeros(h.shape, bool)) if case['masked'] else h
    got = pyTMD.predict.infer_minor(tt, hm, names, **kw)
    compare(ctx, got, want, scale, f'minors {minor or "all"} ({corr}, {kw.get("method")}, {mode})')
    ctx.check(np.array_equal(h, h0), 'constants modified')
    # one minor at a time: the sum of the parts is the whole
    if found and case['parts']:
        total = 0.0
        for m in sorted({m for _, m in found}):
            total = total + np.ma.getdata(pyTMD.predict.infer_minor(tt, hm, names, **{**kw, 'minor': [m]}))
        ctx.close(total, np.ma.getdata(got), f'sum over single minors ({corr})', rtol=1e-6, atol=1e-9 + 1e-6*float(scale.max()))
    # minors already in the model, or not inferable, add nothing
    other = [m for m in ALLMINOR if m in names or m not in {x for b in P.bands_of(corr) for x in P.MINORS_OF[b]}]
    if other:
        z = pyTMD.predict.infer_minor(tt, hm, names, **{**kw, 'minor': other})
        ctx.check(np.all(np.ma.getdata(z) == 0.0), f'given constituents {other} were inferred again ({corr})')
    # raise_exception when a species lacks majors
    enough = [all(c in names for c in P.BANDS[b][0]) if b != 'short' else len([c for c in P.SHORT if c in names]) >= 6 for b in P.bands_of(corr)]
    try:
        pyTMD.predict.infer_minor(tt, hm, names, **{**kw, 'raise_exception': True})
        ctx.check(all(enough), f'too few majors accepted with raise_exception: {names} ({corr})')
    except Exception as e:
        if isinstance(e, Violation):
            raise
        ctx.check(not all(enough), f'inference refused with enough majors {names} ({corr}): {e}')


def f_recover(case, ctx):
    """constants that follow a linear admittance exactly are recovered: the inferred tide is the tide of that admittance"""
    corr, band = 'GOT', case['band']
    majors, amp, amin, _ = P.BANDS[band]
    a, b = C([case['a']])[0], C([case['b']])[0]
    w0 = P.omega(majors[1], corr)
    def adm(c):
        w = P.omega(c, corr)
        return (a + b*(w - w0)/1e-5)*(P.tilt(w) if band == 'diurnal' else 1.0)
    names = list(majors)
    h = np.array([[x*adm(c) for c, x in zip(majors, amp)]])
    t = np.array(case['t'])
    ctx.nt(abs(a) > 1e-3)
    got = pyTMD.predict.infer_minor(t, h, names, corrections=corr, deltat=case['dt'])
    want = 0.0
    for m, x in amin.items():
        th, f, u = P.angle_G(t, m, corr, case['dt'])
        z = x*adm(m)
        want = want + f*np.abs(z)*np.cos(th + u + np.angle(z))
    ctx.close(np.ma.getdata(got), want, f'{band} minors of a linear admittance', rtol=0, atol=5e-6*(abs(a)+abs(b)) + 1e-9)


def f_love(case, ctx):
    om = case['om']
    model_ = case['model']
    got = pa._love_numbers(om) if model_ == 'PREM' else pa._love_numbers(om, model=model_)
    if abs(P.LOVE[model_][0]*7.292115e-5 - om) < 1e-9 or min(abs(om-1e-4), abs(om-2e-5)) < 1e-12:
        ctx.skip()
    ctx.nt(2e-5 < om < 1e-4)
    want = P.love(om, model_)
    ctx.close(np.array(got), np.array(want), f'Love numbers at {om} ({model_})', rtol=1e-5, atol=1e-9)


base = dict(names=model(), z=lists(cplx(), 1, 9), t=lists(DAY, 1, 4), npts=st.integers(1, 4), mode=st.sampled_from(['series', 'drift', 'map']),
            minor=st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(ALLMINOR), min_size=1, max_size=6, unique=True)), corr=CORR, dt=st.lists(DT, min_size=1, max_size=4), dtarr=st.booleans(),
            method=st.sampled_from(['linear', 'linear', 'admittance']), scalar=st.booleans(), masked=st.booleans(), parts=st.booleans())
OM = st.one_of(fl(2.1e-5, 9.9e-5), fl(1e-7, 1.9e-5), fl(1.01e-4, 6e-4), fl(6.2e-5, 7.9e-5),
               st.sampled_from(sorted(R.ALL)).map(lambda c: abs(P.omega(c, 'OTIS'))))
SUBS = [Sub('infer', st.fixed_dictionaries(base), f_infer, 900, 30000, shards=6),
        Sub('recover', st.fixed_dictionaries(dict(band=st.sampled_from(['semi', 'diurnal', 'long']), a=cplx(), b=cplx(), t=lists(DAY, 1, 3), dt=DT)), f_recover, 200, 6000),
        Sub('love', st.fixed_dictionaries(dict(om=OM, model=st.sampled_from(sorted(P.LOVE)))), f_love, 300, 6000)]
SUBS.append(large.sub(['minor']))
SUBS.append(large.pure(['minor']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
