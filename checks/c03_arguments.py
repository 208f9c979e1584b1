import _boot
from harness import *
from gen import *
import large
import tidalref as R
import pyTMD.arguments as pa
import pyTMD.astro

PROPERTY = 'C03'
RULE = ('Times (MJD 15000-88000, integers, fractions, repeated), constituent lists (any subset and order of the shipped table, repeats, '
        'list/tuple/array/str), conventions, M1 options and delta-times are generated; non-trivial when at least two constituents and a '
        'non-integer day are evaluated.')
ASSUMPTIONS = ['reference multipliers: Doodson/Cartwright values for linear constituents, sums of parents for compounds (lib/tidalref.py)',
               'arguments are compared modulo 360 degrees']

CORR = st.sampled_from(['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'GOT', 'perth3'])
NAMES = st.sampled_from(sorted(R.ALL))
MAJOR = st.sampled_from(['m2', 's2', 'n2', 'k2', 'k1', 'o1', 'p1', 'q1', 's1', 'mf', 'mm', 'ssa', 'sa', 'm4', 'ms4', 'mn4', '2n2', 'l2', 't2', 'nu2'])
mjd = st.one_of(fl(15000, 88000), st.integers(15000, 88000).map(float), fl(48000, 62000),
                st.integers(15000*24, 88000*24).map(lambda i: i/24.0), st.sampled_from([51544.5, 51544.0, 48622.0, 51543.999999]))


def container(names, kind):
    if kind == 'tuple':
        return tuple(names)
    if kind == 'array':
        return np.array(names)
    if kind == 'str' and len(names) == 1:
        return names[0]
    return list(names)


def f_args(case, ctx):
    names, corr, kind = case['c'], case['corr'], case['kind']
    t = np.array(case['t'])
    dt = np.array(case['dt'][:len(t)]) if case['dtarr'] and len(case['dt']) >= len(t) else case['dt'][0]
    if case['scalar']:
        t = t[0]; dt = dt if np.ndim(dt) == 0 else dt[0]
    t0 = np.copy(t)
    pu, pf, G = pa.arguments(t, container(names, kind), deltat=dt, corrections=corr, M1=case['M1'])
    ctx.check(np.array_equal(t, t0), 'arguments() modified its times')
    nt = np.size(t)
    for n, a in dict(pu=pu, pf=pf, G=G).items():
        ctx.check(np.shape(a) == (nt, len(names)), f'{n} shape {np.shape(a)}')
    ctx.nt(len(names) > 1 and bool(np.any(np.mod(t, 1) > 0)))
    want = R.G(t, names, corr, dt)
    d = R.wrap180(G - want)
    bad = np.argwhere(np.abs(d) > 2e-6)
    if len(bad):
        i, j = bad[0]
        ctx.fail(f'argument of {names[j]} ({corr}) at MJD {np.atleast_1d(t)[i]!r}: {np.mod(G[i, j], 360)} expected {np.mod(want[i, j], 360)}')
    # alone / other company / other batch
    k = case['pick'] % len(names)
    u1, f1, G1 = pa.arguments(t, [names[k]], deltat=dt, corrections=corr, M1=case['M1'])
    ctx.close(G1[:, 0], G[:, k], f'argument of {names[k]} alone', atol=1e-9)
    ctx.close(u1[:, 0], pu[:, k], f'nodal angle of {names[k]} alone'); ctx.close(f1[:, 0], pf[:, k], f'nodal factor of {names[k]} alone')
    i = case['pick'] % nt
    ti = np.atleast_1d(t)[i:i+1]; di = dt if np.ndim(dt) == 0 else dt[i:i+1]
    u1, f1, G1 = pa.arguments(ti, list(reversed(names)), deltat=di, corrections=corr, M1=case['M1'])
    ctx.close(G1[0], G[i, ::-1], 'argument at one time, reversed list', atol=1e-9)
    ctx.close(f1[0], pf[i, ::-1], 'nodal factor at one time, reversed list'); ctx.close(u1[0], pu[i, ::-1], 'nodal angle at one time, reversed list')


def f_rate(case, ctx):
    """the argument advances with the tabulated frequency"""
    names, corr = case['c'], case['corr']
    t = 48000.0 + 10000.0*case['x']
    h = case['h']
    _, _, G = pa.arguments(np.array([t, t+h]), names, corrections=corr)
    om = pa.frequency(names, corrections=corr)
    ctx.check(np.shape(om) == (len(names),), f'frequency shape {np.shape(om)}')
    ctx.nt(len(names) > 1 and h > 1e-3)
    want = np.degrees(om)*86400.0*h
    d = R.wrap180(G[1]-G[0]-want)
    # (rates vary by less than 1e-5 degrees per day over these years)
    tol = 1e-5 + 1e-5*h*np.array([1+np.abs(R.coefficients(c, corr)).sum() for c in names])
    j = np.argmax(np.abs(d)/tol)
    ctx.check(np.abs(d[j]) <= tol[j], f'{names[j]} ({corr}) advanced {G[1, j]-G[0, j]} in {h} days, frequency gives {want[j]}')
    # the frequency itself, against the multiplier rates at J2000
    base = np.array([R.longitudes(51544.5+x, corr) for x in (-10.0, 10.0)])
    s, hh, p, n, pp = (base[1]-base[0])/20.0
    rates = np.array([360.0 - s + hh, s, hh, p, n, pp, 0.0])
    ref = np.radians(np.array([R.coefficients(c, corr) @ rates for c in names]))/86400.0
    ctx.close(om, ref, 'angular frequency', rtol=1e-7, atol=2e-13)


def f_minor(case, ctx):
    corr = case['corr']
    t = np.array(case['t'])
    dt = case['dt'][0]
    u, f, G = pa.minor_arguments(t, deltat=dt, corrections=corr)
    ctx.nt(len(t) > 1)
    ctx.check(G.shape == (len(t), 20) and u.shape == G.shape and f.shape == G.shape, f'shape {G.shape}')
    want = R.G(t, R.MINORS, corr, dt)
    d = R.wrap180(G - want)
    bad = np.argwhere(np.abs(d) > 2e-6)
    if len(bad):
        i, j = bad[0]
        ctx.fail(f'minor argument of {R.MINORS[j]} ({corr}): {G[i, j]} expected {want[i, j]}')
    _, _, G1 = pa.arguments(t, R.MINORS, deltat=dt, corrections=corr)
    ctx.check(np.all(np.abs(R.wrap180(G-G1)) < 1e-7), 'minor arguments disagree with arguments()')
    i = case['pick'] % len(t)
    u1, f1, G1 = pa.minor_arguments(t[i:i+1], deltat=dt, corrections=corr)
    ctx.close(G1[0], G[i], 'minor arguments at one time', atol=1e-9); ctx.close(u1[0], u[i], 'minor u at one time'); ctx.close(f1[0], f[i], 'minor f at one time')


def f_table(case, ctx):
    """multipliers of the shipped table, one list; unknown names refused"""
    names, corr = case['c'], case['corr']
    coef = pa.coefficients_table(container(names, case['kind']), corrections=corr)
    ctx.check(coef.shape == (7, len(names)), f'table shape {coef.shape}')
    ctx.nt(len(names) > 1)
    for j, c in enumerate(names):
        w = R.coefficients(c, corr)
        ctx.check(np.array_equal(coef[:6, j], w[:6]), f'multipliers of {c}: {coef[:, j]} expected {w}')
        ctx.check((coef[6, j]-w[6]) % 4 == 0, f'phase multiple of {c}: {coef[6, j]} expected {w[6]}')
    bad = case['bad']
    if bad not in R.ALL:
        ctx.label('unknown name')
        for fn in (lambda: pa.coefficients_table([bad], corrections=corr), lambda: pa.frequency(names+[bad], corrections=corr),
                   lambda: pa.arguments(np.array([51544.0]), names+[bad], corrections=corr)):
            try:
                fn()
            except ValueError:
                pass
            else:
                ctx.fail(f'unknown constituent {bad!r} accepted')


base = dict(c=st.lists(st.one_of(NAMES, NAMES, MAJOR), min_size=1, max_size=8), corr=CORR, t=lists(mjd, 1, 5),
            dt=st.lists(st.one_of(st.just(0.0), fl(0, 0.002)), min_size=1, max_size=5), dtarr=st.booleans(), scalar=st.sampled_from([False, False, True]),
            M1=st.sampled_from(['Doodson', 'Ray', 'perth5']), kind=st.sampled_from(['list', 'tuple', 'array', 'str']), pick=st.integers(0, 40))
SUBS = [Sub('arguments', st.fixed_dictionaries(base), f_args, 900, 40000),
        Sub('rate', st.fixed_dictionaries(dict(c=base['c'], corr=CORR, x=fl(0, 1), h=fl(0, 3))), f_rate, 500, 20000),
        Sub('minor', st.fixed_dictionaries(dict(corr=CORR, t=base['t'], dt=base['dt'], pick=base['pick'])), f_minor, 300, 10000),
        Sub('table', st.fixed_dictionaries(dict(c=st.lists(NAMES, min_size=1, max_size=60), corr=CORR, kind=base['kind'],
            bad=st.sampled_from(['m9', 'xx', 'M2', '', '2(mn)', 'k', 'o1o', 'm2 ']))), f_table, 400, 10000)]
SUBS.append(large.sub(['arguments', 'minor_arguments']))
SUBS.append(large.pure(['arguments', 'minor_arguments']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
