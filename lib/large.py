"""Large batches: a function of many points (or times) gives each the value it has in a small batch."""
import os, pathlib
from harness import np, st, Sub
import pyTMD.arguments, pyTMD.astro, pyTMD.compute, pyTMD.crs, pyTMD.ellipse, pyTMD.interpolate, pyTMD.math, pyTMD.predict, pyTMD.spatial

CONS = ['m2', 's2', 'n2', 'k2', 'k1', 'o1', 'p1', 'q1', 'm4', 'mf', 'mm', 'l2', 'm1', '2n2', 'ssa']
CORR = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES', 'perth3']
SIZES = [300, 513, 1025, 2049, 5001, 10001, 32769, 70001]


def sizes(top):
    return st.sampled_from([n for n in SIZES if n <= top])


def case_st(kinds, top):
    return st.fixed_dictionaries(dict(kind=st.sampled_from(kinds), n=sizes(top), seed=st.integers(0, 10**6), opt=st.integers(0, 10**6)))


def times(r, n):
    """days relative to 1992"""
    t = r.uniform(-12000, 22000) + (r.uniform(0, 3000, n) if r.random() < 0.5 else np.arange(n)*r.choice([1/24, 0.25, 0.01]))
    return t


def places(r, n):
    lat = np.degrees(np.arcsin(r.uniform(-0.9999, 0.9999, n)))
    return r.uniform(-180, 180, n), lat


def xyz(r, n, R=6.4e6):
    lon, lat = np.radians(places(r, n))
    R = R*(1 + r.uniform(-0.003, 0.003, n))
    return np.stack([R*np.cos(lat)*np.cos(lon), R*np.cos(lat)*np.sin(lon), R*np.sin(lat)], axis=-1)


def build(kind, r, n):
    """(function of arrays with the points along the first axis, arrays)"""
    corr = str(r.choice(CORR))
    k = int(r.integers(1, 4))
    cons = [str(c) for c in r.choice(CONS, k, replace=False)]
    hc = lambda m, p=None: np.ma.array(r.normal(size=(m, p or k)) + 1j*r.normal(size=(m, p or k)), mask=r.random((m, p or k)) < 0.02)
    dt = r.uniform(0, 0.001, n) if r.random() < 0.5 else None
    P = pyTMD.predict
    if kind == 'map':
        t = float(times(r, 1)[0]); d = 0.0 if dt is None else 0.0007
        return (lambda h: P.map(t, h, cons, deltat=d, corrections=corr)), [hc(n)]
    if kind == 'drift':
        if dt is None:
            return (lambda t, h: P.drift(t, h, cons, corrections=corr)), [times(r, n), hc(n)]
        return (lambda t, h, d: P.drift(t, h, cons, deltat=d, corrections=corr)), [times(r, n), hc(n), dt]
    if kind == 'series':
        h = np.ma.array(hc(1).data)
        if dt is None:
            return (lambda t: P.time_series(t, h, cons, corrections=corr)), [times(r, n)]
        return (lambda t, d: P.time_series(t, h, cons, deltat=d, corrections=corr)), [times(r, n), dt]
    if kind == 'minor':
        c8 = CONS[:8]
        if r.random() < 0.5:
            return (lambda t, h: P.infer_minor(t, h, c8, corrections=corr)), [times(r, n), hc(n, 8)]
        t = times(r, 1)
        return (lambda h: P.infer_minor(t, h, c8, corrections=corr)), [hc(n, 8)]
    if kind == 'equilibrium':
        return (lambda t, la: P.equilibrium_tide(t, la, corrections=corr)), [times(r, n), places(r, n)[1]]
    if kind == 'solid':
        sysm = str(r.choice(['tide_free', 'mean_tide']))
        return (lambda t, X, S, L: P.solid_earth_tide(t, X, S, L, tide_system=sysm)), [times(r, n), xyz(r, n), xyz(r, n, 1.5e11), xyz(r, n, 3.8e8)]
    if kind == 'lpt':
        return (lambda t, X: P.load_pole_tide(t, X)), [r.uniform(3000, 11000, n), xyz(r, n)]
    if kind == 'opt':
        U = r.normal(size=(n, 3)) + 1j*r.normal(size=(n, 3))
        return (lambda t, X, u: P.ocean_pole_tide(t, X, u)), [r.uniform(3000, 11000, n), xyz(r, n), U]
    mjd = times(r, n) + 48622.0
    if kind == 'arguments':
        f = lambda t, d: np.concatenate(pyTMD.arguments.arguments(t, cons, deltat=d, corrections=corr), axis=1)
        return f, [mjd, np.zeros(n) if dt is None else dt]
    if kind == 'minor_arguments':
        f = lambda t, d: np.concatenate(pyTMD.arguments.minor_arguments(t, deltat=d, corrections=corr), axis=1)
        return f, [mjd, np.zeros(n) if dt is None else dt]
    if kind == 'nodal':
        m1 = str(r.choice(['Ray', 'Doodson', 'Godin', '']))
        kw = {'M1': m1} if m1 else {}
        return (lambda a, b: np.concatenate(pyTMD.arguments.nodal(a, b, cons, corrections=corr, **kw), axis=1)), [r.uniform(-400, 400, n), r.uniform(-400, 400, n)]
    A = pyTMD.astro
    if kind == 'longitudes':
        kw = [{}, dict(MEEUS=True), dict(ASTRO5=True)][int(r.integers(3))]
        return (lambda t: np.stack(A.mean_longitudes(t, **kw)).T), [mjd]
    if kind == 'astro':
        f = [lambda t: np.stack(A.phase_angles(t)).T, lambda t: np.stack(A.doodson_arguments(t)).T, lambda t: np.stack(A.delaunay_arguments(t)).T, lambda t: A.mean_obliquity(t)][int(r.integers(4))]
        return f, [mjd]
    if kind == 'bodies':
        f = A.solar_ecef if r.random() < 0.5 else A.lunar_ecef
        return (lambda t: np.stack(f(t, ephemerides='approximate')).T), [mjd]
    if kind == 'sidereal':
        return (lambda T: A.gast(T)), [(mjd - 51544.5)/36525.0]
    lon, lat = places(r, n)
    sec = r.uniform(-2e8, 4.2e8, n)
    C = pyTMD.compute
    kw = dict(EPOCH=(2000, 1, 1, 0, 0, 0), TIME='UTC')
    if kind == 'LPET':
        return (lambda a, b, t: C.LPET_elevations(a, b, t, TYPE='drift', **kw)), [lon, lat, sec]
    if kind == 'SET':
        v = str(r.choice(['X', 'R']))
        return (lambda a, b, t: C.SET_displacements(a, b, t, TYPE='drift', **kw)), [lon, lat, sec]
    if kind == 'LPT':
        return (lambda a, b, t: C.LPT_displacements(a, b, t, TYPE='drift', **kw)), [lon, lat, sec]
    S = pyTMD.spatial
    h = r.uniform(-500, 9000, n)
    wgs = dict(a_axis=6378137.0, flat=1/298.257223563)
    if kind == 'cartesian':
        return (lambda a, b, c: np.stack(S.to_cartesian(a, b, h=c, **wgs)).T), [lon, lat, h]
    if kind == 'geodetic':
        m = str(r.choice(['moritz', 'bowring', 'zhu']))
        return (lambda X: np.stack(S.to_geodetic(X[:, 0], X[:, 1], X[:, 2], method=m, **wgs)).T), [xyz(r, n)]
    if kind == 'sphere':
        return (lambda X: np.stack(S.to_sphere(X[:, 0], X[:, 1], X[:, 2])).T), [xyz(r, n)]
    if kind == 'local':
        lo, la = float(lon[0]), float(lat[0])
        if r.random() < 0.5:
            return (lambda X: np.stack(S.to_ENU(X[:, 0], X[:, 1], X[:, 2], lon0=lo, lat0=la, **wgs)).T), [xyz(r, n)]
        return (lambda X: np.stack(S.from_ENU(X[:, 0], X[:, 1], X[:, 2], lon0=lo, lat0=la, **wgs)).T), [r.normal(size=(n, 3))*1e5]
    if kind == 'horizontal':
        return (lambda X: np.stack(S.to_horizontal(X[:, 0], X[:, 1], X[:, 2])).T), [r.normal(size=(n, 3))*1e5]
    if kind == 'dms':
        return (lambda d: np.stack(S.to_dms(d)).T.astype(float)), [r.uniform(-360, 360, n)]
    if kind == 'ellipsoid':
        return (lambda p, q: np.stack(S.convert_ellipsoid(p, q, 6378136.3, 1/298.257, 6378137.0, 1/298.257223563, eps=1e-12, itmax=20)).T), [lat, h]
    if kind == 'delta':
        return (lambda p: S.compute_delta_h(6378136.3, 6356751.6, 6378137.0, 6356752.3142, p)), [lat]
    if kind == 'scale':
        m = str(r.choice(['area', 'distance']))
        ref = float(r.choice([70.0, -71.0, 90.0]))
        return (lambda p: S.scale_factors(p, reference_latitude=ref, metric=m)), [lat]
    if kind == 'crs':
        crs = pyTMD.crs()
        code = ['3031', 3413, dict(proj='stere', lat_0=-90, lat_ts=-71, lon_0=-70, x_0=0, y_0=0, units='km'), dict(proj='laea', lat_0=90, lon_0=270, units='km', x_0=0, y_0=0)][int(r.integers(4))]
        south = code == '3031' or (isinstance(code, dict) and code['lat_0'] < 0)
        if r.random() < 0.5:
            la = np.abs(lat)*0.4 + 50
            return (lambda a, b: np.stack(crs.convert(a, b, code, 'F')).T), [lon, -la if south else la]
        s = 1e-3 if isinstance(code, dict) else 1.0
        return (lambda a, b: np.stack(crs.convert(a, b, code, 'B')).T), [r.uniform(-2e6, 2e6, n)*s, r.uniform(-2e6, 2e6, n)*s]
    if kind == 'legendre':
        l, x = int(r.integers(0, 6)), r.uniform(-1, 1, n)
        m = int(r.integers(0, min(l, 3) + 1))
        if l == 0 or l > 3:
            return (lambda q: np.moveaxis(pyTMD.math.assoc_legendre(l, q)[0], -1, 0)), [x]
        return (lambda q: np.stack(pyTMD.math.legendre(l, q, m=m)).T), [x]
    if kind == 'harmonics':
        l = int(r.integers(1, 4)); m = int(r.integers(0, l + 1))
        return (lambda a, b: np.stack(pyTMD.math.sph_harm(l, a, b, m=m)).T), [r.uniform(0, np.pi, n), r.uniform(0, 6, n)]
    if kind == 'polynomial':
        c = r.normal(size=4)
        return (lambda t: pyTMD.math.polynomial_sum(c, t)), [r.uniform(-3, 3, n)]
    if kind == 'angles':
        return (lambda t: pyTMD.math.normalize_angle(t)), [r.uniform(-1e4, 1e4, n)]
    if kind == 'ellipse':
        return (lambda u, v: np.ma.stack(pyTMD.ellipse.ellipse(u, v)).T), [hc(n, 1)[:, 0], hc(n, 1)[:, 0]]
    if kind == 'inverse':
        return (lambda a, b, c, d: np.stack(pyTMD.ellipse.inverse(a, b, c, d)).T), [r.uniform(0, 3, n), r.uniform(-3, 3, n), r.uniform(0, 180, n), r.uniform(0, 360, n)]
    # interpolation
    ilon, ilat = np.arange(0, 40.0, 2.0), np.arange(-20, 20.0, 2.5)
    Z = np.ma.array(r.normal(size=(len(ilat), len(ilon))) + 1j*r.normal(size=(len(ilat), len(ilon))), mask=r.random((len(ilat), len(ilon))) < 0.2)
    x, y = r.uniform(-3, 43, n), r.uniform(-22, 22, n)
    i = r.random(n) < 0.2
    x[i], y[i] = r.choice(ilon, i.sum()), r.choice(ilat, i.sum())
    I = pyTMD.interpolate
    if kind == 'bilinear':
        return (lambda a, b: I.bilinear(ilon, ilat, Z, a, b, dtype=complex)), [x, y]
    if kind == 'regulargrid':
        m = str(r.choice(['linear', 'nearest']))
        x, y = np.clip(x, 0, 38), np.clip(y, -20, 17.5)
        return (lambda a, b: I.regulargrid(ilon, ilat, Z, a, b, dtype=complex, method=m, fill_value=np.nan, bounds_error=False)), [x, y]
    if kind == 'spline':
        x, y = np.clip(x, 0, 38), np.clip(y, -20, 17.5)
        Z2 = np.ma.array(Z.data, mask=Z.mask)
        return (lambda a, b: I.spline(ilon, ilat, Z2, a, b, dtype=complex, kx=1, ky=1)), [x, y]
    if kind == 'extrapolate':
        cut = float(r.choice([np.inf, 200.0, 800.0]))
        return (lambda a, b: I.extrapolate(ilon, ilat, Z, a, b, dtype=complex, cutoff=cut)), [x, y]
    raise ValueError(kind)


def pick(r, n):
    i = np.unique(np.concatenate([[0, 1, n-1, n-2, n//2], r.integers(0, n, 12), [b + d for b in (256, 1000, 1024, 4096, 8192, 10000, 16384, 32768, 50000, 65536) for d in (-1, 0, 1)]]))
    return i[i < n]


def compare(ctx, a, b, what, i, tol=1e-9):
    ma, mb = np.ma.getmaskarray(np.ma.asanyarray(a)), np.ma.getmaskarray(np.ma.asanyarray(b))
    ctx.check(np.shape(a) == np.shape(b), f'{what}: shapes {np.shape(a)} {np.shape(b)}')
    if (ma != mb).any():
        ctx.fail(f'{what}: the masks of point {int(i[np.argwhere(ma != mb)[0][0]])} differ in the large and the small batch')
    x, y = np.ma.getdata(a), np.ma.getdata(b)
    same = (x == y) | (np.isnan(x) & np.isnan(y)) | ma
    fin = y[np.isfinite(y) & ~ma]
    size = np.max(np.abs(fin), initial=0.0)
    with np.errstate(invalid='ignore'):
        bad = ~(same | (np.abs(x - y) <= tol*size))
    if bad.any():
        j = np.argwhere(bad)[0]
        ctx.fail(f'{what}: point {int(i[j[0]])} is {x[tuple(j)]!r} in the large batch and {y[tuple(j)]!r} in a small one')


def f_large(case, ctx):
    r = np.random.default_rng([case['seed'], case['opt']])
    n = case['n']
    fn, arrays = build(case['kind'], r, n)
    with np.errstate(all='ignore'):
        big = fn(*[a.copy() for a in arrays])
        i = pick(r, n)
        ctx.check(np.shape(big)[0] == n, f'{case["kind"]}: {n} points give the shape {np.shape(big)}')
        small = fn(*[a[i].copy() for a in arrays])
    ctx.nt()
    ctx.label(case['kind'])
    compare(ctx, np.ma.asanyarray(big)[i], small, f'{case["kind"]} of {n} points', i)


def sub(kinds, quick=30, thorough=400, top=70001, **kw):
    return Sub('large', case_st(kinds, top), f_large, quick, thorough, **kw)


# ---- models ---------------------------------------------------------------------------------------
def spots(m, var, r, n):
    """positions of many points around and inside the grid of a model"""
    x, y = m.grid(var)[:2]
    px = r.uniform(x[0] - 1.5*m.dx, x[-1] + 1.5*m.dx, n)
    py = r.uniform(y[0] - 1.5*m.dy, y[-1] + 1.5*m.dy, n)
    i = r.random(n) < 0.15
    px[i] = r.choice(x, i.sum())
    i = r.random(n) < 0.15
    py[i] = r.choice(y, i.sum())
    if m.spec['proj'] is None:
        py = np.clip(py, -90, 90)
    return px, py


@st.composite
def model_case(draw, formats, kind, top):
    import models as M
    s = draw(M.specs(maxcons=2, **(dict(formats=formats) if formats else {})))
    uv = (s['fmt'] in M.FES_NAMES or s['fmt'] in ('OTIS', 'OTIS-list', 'TMD3', 'ATLAS-netcdf')) and kind == 'read'
    v = draw(st.sampled_from('zzuv')) if uv else 'z'
    method = draw(st.sampled_from(['spline', 'linear', 'nearest', 'bilinear']))
    n = draw(sizes(top if method != 'bilinear' else min(top, 1025)))
    return dict(spec=s, var=v, transport=draw(st.booleans()) if v != 'z' and s['fmt'] not in M.FES_NAMES else False, pos=[], method=method, ex=draw(st.sampled_from([None, None, 300.0])),
                n=n, seed=draw(st.integers(0, 10**6)), how=draw(st.sampled_from(['extract', 'interp'])), kind=kind, opts=draw(st.integers(0, 10**6)))


def f_model(case, ctx):
    import models as M
    import c20_invariance as C20
    r = np.random.default_rng([case['seed'], 1])
    m, d, acc, x, y, lon, lat = C20.setup(case, ctx)
    n = case['n']
    px, py = spots(m, case['var'], r, n)
    lon, lat = m.lonlat(px, py)
    i = pick(r, n)
    ctx.nt()
    # masks at points on the edge of validity (weights of round-off size) are not compared
    S = M.want(m, d, case['var'], px[i], py[i], case['method'], transport=case['transport'])[1]
    kind = case['kind']
    if kind == 'read':
        kw = dict(method=case['method'])
        if case['ex'] is not None:
            kw.update(extrapolate=True, cutoff=case['ex'])
        c = acc.read() if case['how'] == 'interp' else None
        ask = (lambda a, b: acc.interp(a, b, c, **kw)) if c is not None else (lambda a, b: acc.extract(a, b, **kw))
        big, small = ask(lon.copy(), lat.copy()), ask(lon[i].copy(), lat[i].copy())
        V = (S == 1) if case['ex'] is not None else None
        C20.agree(ctx, big, small, f'{n} points and a few of them', sel=i, S=(S != -1) if case['ex'] is None else (S == 1), V=V)
        return
    p = M.definition(d, ctx.tmp + '/def.json')
    kw = dict(DEFINITION_FILE=p, METHOD=case['method'])
    ok = (S != -1).all(axis=1)
    if kind == 'masks':
        big = np.asarray(pyTMD.compute.tide_masks(lon.copy(), lat.copy(), **kw)).astype(bool)
        small = np.asarray(pyTMD.compute.tide_masks(lon[i].copy(), lat[i].copy(), **kw)).astype(bool)
        ctx.check(big.shape == (n,), f'{n} points have a mask of shape {big.shape}')
        bad = ok & (big[i] != small)
        if bad.any():
            ctx.fail(f'mask of point {int(i[bad][0])}: {bool(big[i][bad][0])} with {n} points and {bool(small[bad][0])} with few')
        return
    o = np.random.default_rng([case['opts'], 2])
    kw.update(EPOCH=(2000, 1, 1, 0, 0, 0), TIME='UTC', INFER_MINOR=False, APPLY_FLEXURE=False)
    if case['ex'] is not None:
        kw.update(EXTRAPOLATE=True, CUTOFF=case['ex'])
        ok = (S == 1).all(axis=1)
    f = pyTMD.compute.tide_elevations
    layout = ['drift', 'series', 'grid'][int(o.integers(3))]
    ctx.label(layout)
    t = o.uniform(-2e8, 4.2e8, n)
    if layout == 'drift':
        big = f(lon.copy(), lat.copy(), t.copy(), TYPE='drift', **kw)
        small = f(lon[i].copy(), lat[i].copy(), t[i].copy(), TYPE='drift', **kw)
        j = np.flatnonzero(ok)
        compare(ctx, big[i][j], small[j], f'drift of {n} points', i[j], 1e-6)
    elif layout == 'series':
        k = min(3, len(i))
        a, b = lon[i[:k]], lat[i[:k]]
        big = f(a.copy(), b.copy(), t.copy(), TYPE='time series', **kw)
        small = f(a.copy(), b.copy(), t[i].copy(), TYPE='time series', **kw)
        ctx.check(np.shape(big) == (k, n), f'shape {np.shape(big)} of {k} stations and {n} times')
        compare(ctx, big[:, i].T, small.T, f'{n} times', i, 1e-6)
    else:
        ny = 25
        nx = n//ny
        N = nx*ny
        sh = (ny, nx)
        big = f(lon[:N].reshape(sh).copy(), lat[:N].reshape(sh).copy(), t[:2].copy(), TYPE='grid', **kw)
        ctx.check(np.shape(big) == (ny, nx, 2), f'shape {np.shape(big)} of a grid {sh} and 2 times')
        q = i < N
        small = f(lon[i[q]][None, :].copy(), lat[i[q]][None, :].copy(), t[:2].copy(), TYPE='grid', **kw)[0]
        j = np.flatnonzero(ok[q])
        compare(ctx, big.reshape(N, 2)[i[q]][j], small[j], f'grid of {N} points', i[q][j], 1e-6)


def models(kind, formats=None, quick=30, thorough=400, top=10001, name='large', **kw):
    return Sub(name, model_case(formats, kind, top), f_model, quick, thorough, tmp=True, **kw)


def f_again(case, ctx):
    """a model whose files are replaced: the answers are those of the files as they are now"""
    import pathlib
    import models as M
    import c20_invariance as C20
    r = np.random.default_rng([case['seed'], 5])
    top, kind = ctx.tmp, case['kind']
    n = 1 + case['n'] % 30

    def answer(folder, spec, where=None):
        ctx.tmp = os.path.join(top, folder)
        try:
            m, d, acc, _, _, _, _ = C20.setup({**case, 'spec': spec}, ctx)
        finally:
            ctx.tmp = top
        if where is None:
            px, py = spots(m, case['var'], r, n)
            where = m.lonlat(px, py)
        lon, lat = (q.copy() for q in where)
        if kind == 'read':
            kw = dict(method=case['method'])
            if case['how'] == 'interp':
                a, g, D = acc.interp(lon, lat, acc.read(), **kw)[:3]
            else:
                a, g, D = acc.extract(lon, lat, **kw)[:3]
            out = [a, g] + ([] if D is None else [D])
        else:
            kw = dict(DEFINITION_FILE=M.definition(d, os.path.join(top, folder, 'def.json')), METHOD=case['method'])
            if kind == 'masks':
                out = [pyTMD.compute.tide_masks(lon, lat, **kw)]
            else:
                t = np.linspace(0, 3e8, n)
                out = [pyTMD.compute.tide_elevations(lon, lat, t, TYPE='drift', EPOCH=(2000, 1, 1, 0, 0, 0), **kw)]
        keep = [np.ma.array(q, copy=True) for q in out]
        for q in out:                     # the answer belongs to the caller
            if isinstance(q, np.ndarray) and q.flags.writeable:
                try:
                    np.ma.getdata(q)[...] = 1
                except (ValueError, TypeError):
                    pass
        return keep, where

    new = case['spec']
    old = dict(new, seed=new['seed'] + 1, land=new['land'] and 0.5 - new['land'])
    if case['opts'] % 3 == 0:
        old.update(x0=new['x0'] + (new['dx'] if not new['glob'] else 0.0))
    if case['opts'] % 3 == 1:
        old = dict(new)                   # the same files again
    first, where = answer('a', old)
    again, _ = answer('a', new, where)
    fresh, _ = answer('b', new, where)
    ctx.nt()
    for p, q in zip(again, fresh):
        same = np.ma.getmaskarray(p) == np.ma.getmaskarray(q)
        ctx.check(bool(np.all(same)), f'masks of replaced files differ from those of new ones at {np.argwhere(~same)[:1]}')
        k = ~np.ma.getmaskarray(p)
        ctx.close(np.ma.getdata(p)[k], np.ma.getdata(q)[k], 'answers of replaced files and of new ones', rtol=1e-9, atol=1e-9)


def again(kind, formats=None, quick=24, thorough=400, name='again', **kw):
    return Sub(name, model_case(formats, kind, 1001), f_again, quick, thorough, tmp=True, **kw)


def one(a):
    a = np.ma.asanyarray(a)
    return a.reshape(1) if a.ndim == 0 else a


# ---- purity ---------------------------------------------------------------------------------------
FORMS = ['readonly', 'strided', 'swapped', 'backward', 'fortran', 'history', 'history', 'mutated', 'mutated', 'threads', 'sub']


def form(a, how):
    if how == 'readonly':
        b = a.copy(); b.flags.writeable = False
        if np.ma.isMA(b):
            b.data.flags.writeable = False
        return b
    if how == 'strided':
        b = np.ma.zeros((2*len(a) + 1,) + a.shape[1:], a.dtype) if np.ma.isMA(a) else np.full((2*len(a) + 1,) + a.shape[1:], 7, a.dtype)
        b = b[1::2]
        b[...] = a
        return b
    if how == 'backward':
        return a[::-1].copy()[::-1]
    if how == 'fortran':
        return a.copy(order='F')
    if how == 'swapped' and not np.ma.isMA(a):
        return a.astype(a.dtype.newbyteorder())
    if how == 'sub' and not np.ma.isMA(a):
        class Sub_(np.ndarray):
            pass
        return a.copy().view(Sub_)
    return a.copy()


def f_pure(case, ctx):
    r = np.random.default_rng([case['seed'], case['opt'], 3])
    n, how = case['n'], case['form']
    fn, arrays = build(case['kind'], r, n)
    keep = [a.copy() for a in arrays]
    with np.errstate(all='ignore'):
        ref = fn(*[a.copy() for a in arrays])
        ref0 = np.ma.array(ref, copy=True) if np.ma.isMA(ref) else np.array(ref, copy=True)
        ctx.nt()
        ctx.label(how)
        i = np.arange(len(np.atleast_1d(ref0)))
        if how == 'threads':
            import concurrent.futures as cf
            rng = np.random.default_rng(case['seed'])
            orders = [np.arange(n)] + [rng.permutation(n) for _ in range(3)]
            with cf.ThreadPoolExecutor(4) as ex:
                res = list(ex.map(lambda p: fn(*[a[p].copy() for a in arrays]), orders*2))
            for p, q in zip(orders*2, res):
                compare(ctx, one(q), one(ref0)[p], f'{case["kind"]} in a thread', i)
            return
        if how == 'history':
            # other calls in between
            other, oa = build(case['other'], np.random.default_rng([case['seed'], 9]), max(1, n - 1))
            other(*oa)
            fn(*[a[::-1].copy() for a in arrays])
            if n > 2:
                fn(*[a[:n-1].copy() for a in arrays])
        if how == 'mutated':
            # the answer belongs to the caller
            try:
                ref[...] = 3
            except (ValueError, TypeError):
                pass
        b = [form(a, how) for a in arrays]
        got = fn(*b)
    compare(ctx, np.ma.asanyarray(got), np.ma.asanyarray(ref0), f'{case["kind"]} of {how} arrays', i)
    for x, y in zip(b, keep):
        ctx.check(np.array_equal(np.ma.getdata(x), np.ma.getdata(y)) and np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(y)), f'{case["kind"]} changes the arrays of the caller ({how})')


def pure(kinds, quick=60, thorough=800, **kw):
    return Sub('pure', st.fixed_dictionaries(dict(kind=st.sampled_from(kinds), other=st.sampled_from(kinds), n=st.integers(1, 12), seed=st.integers(0, 10**6), opt=st.integers(0, 10**6), form=st.sampled_from(FORMS))), f_pure, quick, thorough, **kw)
