import _boot
from harness import *
from gen import *
import large
import tidalref as R
import pyTMD.arguments as pa
import pyTMD.astro

PROPERTY = 'C04'
RULE = ('Node and perigee angles (any degrees, multiples of 90, seams, repeats), constituent lists and conventions are generated; '
        'non-trivial when at least two constituents with a nodal correction are evaluated away from node 0.')
ASSUMPTIONS = ['published expansions: Schureman (FES), Doodson/Foreman/OTIS, Ray (GOT, perth5, perth3), typed in lib/tidalref.py',
               'compound constituents without nodal terms in pyTMD (f=1, u=0) are not judged against their parents',
               'angles are compared modulo 360 degrees']

CORR = st.sampled_from(['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'FES', 'GOT', 'GOT', 'perth3'])
HAVE = sorted({c for c in R.ALL if R.linear(c, 1., 1., 'GOT') is not None or c in R.LIKE or c in R.NODAL_COMPOUND}) + ['mfdw']
NAMES = st.one_of(st.sampled_from(HAVE), st.sampled_from(HAVE), st.sampled_from(sorted(R.ALL)))
ANG = mix(-360., 720., 0., 90., 180., 270., 360.)
TOL = 1e-9


def has_l2(c):
    return c in ('l2', 'sl4') or any(q == 'l2' for q, k in R.NODAL_COMPOUND.get(c, []))


def degree_bug(c, n, p):
    """FES factors of constituents with L2 when the perigee enters the trigonometric functions in degrees"""
    if c in ('l2', 'sl4'):
        return R.fes_l2(n, p, p)
    f, u = 1.0, 0.0
    for q, k in R.NODAL_COMPOUND[c]:
        fq, uq = R.fes_l2(n, p, p) if q == 'l2' else R.nodal(q, n, p, 'FES')
        f, u = f*fq**abs(k), u + k*uq
    return f, u


def agrees(f, u, F, U):
    # compare as complex factors and the factor itself (never negative)
    return np.all(np.isclose(f, F, rtol=1e-9, atol=TOL)) and np.all(np.abs(np.abs(F)*(np.exp(1j*u)-np.exp(1j*U))) < 1e-8)


def judge(ctx, c, f, u, n, p, corr, M1):
    if c == 'mfdw':
        F, U = R.linear('mf', n, p, 'OTIS')
        ctx.check(agrees(f, u, F, U), f'mfdw {corr}: f={f} u={u} expected {F} {U}')
        return
    F, U = R.nodal(c, n, p, corr, M1)
    if agrees(f, u, F, U):
        return
    if corr == 'perth3' and c in R.LIKE:
        F2, U2 = R.nodal(c, n, p, corr, M1, perth3_like=True)
        if agrees(f, u, F2, U2):
            return
    if corr == 'FES' and has_l2(c):
        F2, U2 = degree_bug(c, n, p)
        if agrees(f, u, F2, U2):
            ctx.fail(f'{c} (FES): perigee taken in degrees as if radians: f={f} u={u} expected {F} {U}', key='fes-l2-perigee-degrees')
    ctx.fail(f'{c} ({corr}, M1={M1}) n={n} p={p}: f={f} u={u} expected f={F} u={U}', key='nodal')


def f_nodal(case, ctx):
    names, corr, M1 = case['c'], case['corr'], case['M1']
    n = np.array([a for a, b in case['np']]); p = np.array([b for a, b in case['np']])
    if case['scalar']:
        n, p = n[0], p[0]
    arg = {'tuple': tuple, 'array': np.array, 'list': list}.get(case['kind'], list)(names)
    if case['kind'] == 'str' and len(names) == 1:
        arg = names[0]
    n0, p0 = np.copy(n), np.copy(p)
    u, f = pa.nodal(n, p, arg, corrections=corr, M1=M1)
    ctx.check(np.array_equal(n, n0) and np.array_equal(p, p0), 'nodal() modified its inputs')
    nt = np.size(n)
    ctx.check(u.shape == f.shape == (nt, len(names)), f'shapes {u.shape} {f.shape}')
    nn, ppp = np.atleast_1d(n), np.atleast_1d(p)
    ctx.nt(len([c for c in names if c in HAVE]) > 1 and bool(np.any(np.abs(np.sin(np.radians(nn))) > 1e-3)))
    known = None
    for j, c in enumerate(names):
        try:
            judge(ctx, c, f[:, j], u[:, j], nn, ppp, corr, M1)
        except Violation as v:
            if v.key != 'fes-l2-perigee-degrees':
                raise
            known = v
    # same constituent alone, other time batch
    j, i = case['pick'] % len(names), case['pick'] % nt
    u1, f1 = pa.nodal(nn[i:i+1], ppp[i:i+1], [names[j]], corrections=corr, M1=M1)
    ctx.close(u1[0, 0], u[i, j], f'u of {names[j]} alone'); ctx.close(f1[0, 0], f[i, j], f'f of {names[j]} alone')
    # periodic in both angles
    a, b = case['turns']
    u2, f2 = pa.nodal(nn+360*a, ppp+360*b, names, corrections=corr, M1=M1)
    for j, c in enumerate(names):
        if agrees(f2[:, j], u2[:, j], f[:, j], u[:, j]):
            continue
        if corr == 'FES' and has_l2(c) and b != 0:
            known = known or Violation(f'{c} (FES) not periodic in the perigee', 'fes-l2-perigee-degrees')
            continue
        ctx.fail(f'{c} ({corr}) not periodic: f={f[:, j]} -> {f2[:, j]}, u={u[:, j]} -> {u2[:, j]}', key='periodic')
    if known is not None:
        raise known


def f_minor(case, ctx):
    """nodal terms used for the inference of minor constituents (at dates)"""
    corr = case['corr']
    t = np.array(case['t'])
    u, f, G = pa.minor_arguments(t, corrections=corr, deltat=case['dt'])
    s, h, p, n, pp = R.longitudes(t + case['dt'], corr)
    ctx.nt()
    for j, c in enumerate(R.MINORS):
        F, U = R.minor_nodal(c, n, p, corr)
        if not np.all(np.abs(f[:, j]*np.exp(1j*u[:, j]) - F*np.exp(1j*U)) < 1e-7):
            ctx.fail(f'minor {c} ({corr}) at {t}: f={f[:, j]} u={u[:, j]} expected {F} {U}', key='minor')


def f_dates(case, ctx):
    """arguments() passes the node and perigee of the date to the expansions"""
    names, corr, M1 = case['c'], case['corr'], case['M1']
    t = np.array(case['t'])
    u, f, G = pa.arguments(t, names, corrections=corr, M1=M1, deltat=case['dt'])
    s, h, p, n, pp = pyTMD.astro.mean_longitudes(t + case['dt'], ASTRO5=corr not in R.OTIS_TYPES)
    s2, h2, p2, n2, pp2 = R.longitudes(t + case['dt'], corr)
    ctx.check(np.all(np.abs(R.wrap180(n-n2)) < 1e-6) and np.all(np.abs(R.wrap180(p-p2)) < 1e-6), 'mean longitudes')
    ctx.nt(len(names) > 1)
    known = None
    for j, c in enumerate(names):
        try:
            judge(ctx, c, f[:, j], u[:, j], n, p, corr, M1)
        except Violation as v:
            if v.key != 'fes-l2-perigee-degrees':
                raise
            known = v
    if known is not None:
        raise known


mjd = st.one_of(fl(30000, 75000), st.integers(30000, 75000).map(float), fl(48000, 62000))
M1 = st.sampled_from(['Doodson', 'Ray', 'perth5'])
DATED = st.sampled_from([c for c in HAVE if c != 'mfdw'])
SUBS = [Sub('nodal', st.fixed_dictionaries(dict(c=st.lists(NAMES, min_size=1, max_size=12), corr=CORR, M1=M1,
            np=st.lists(st.tuples(ANG, ANG).map(list), min_size=1, max_size=4), scalar=st.sampled_from([False, False, True]),
            kind=st.sampled_from(['list', 'tuple', 'array', 'str']), pick=st.integers(0, 60),
            turns=st.tuples(st.integers(-2, 2), st.integers(-2, 2)).map(list))), f_nodal, 1600, 60000),
        Sub('minor', st.fixed_dictionaries(dict(corr=CORR, t=lists(mjd, 1, 4), dt=st.one_of(st.just(0.0), fl(0, 0.002)))), f_minor, 300, 10000),
        Sub('dates', st.fixed_dictionaries(dict(corr=CORR, t=lists(mjd, 1, 4), dt=st.one_of(st.just(0.0), fl(0, 0.002)), M1=M1,
            c=st.lists(DATED, min_size=1, max_size=10))), f_dates, 400, 10000)]
SUBS.append(large.sub(['nodal', 'arguments']))
SUBS.append(large.pure(['nodal', 'arguments']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
