"""C25: conversions between geodetic, cartesian, spherical, local and horizontal coordinates agree with vector geometry and invert each other."""
import _boot
from harness import *
from gen import *
import large
import warnings
import pyTMD.spatial as S
warnings.simplefilter('ignore')

PROPERTY = 'C25'
RULE = ('Positions on and near poles, equator, axes and dateline, at heights from ocean floor to the Moon, on many ellipsoids, in every layout; expected values from '
        'independent vector formulas; non-trivial when at least one position is neither at the equator nor on the rotation axis, or the batch mixes an axis position with others.')
ASSUMPTIONS = ['positions are further than 4000 km from the centre of the earth', 'ellipsoids have flattenings of 1/1000 to 1/150', 'longitudes are compared modulo 360 and not on the rotation axis',
               'round trips hold to 1e-6 m for iterative methods and 1e-4 m (scaled with the distance) for the closed form', 'angles of spherical coordinates are those of an arc cosine (1e-6 degrees)',
               'masked inputs keep the values of their valid points']

ELL = {'WGS84': (6378137.0, 1/298.257223563), 'IERS': (6378136.6, 1/298.25642), 'CLK66': (6378206.4, 1/294.9786982), 'INTER': (6378388.0, 1/297.0), 'TOPEX': (6378136.3, 1/298.257),
       'big': (6400000.0, 1/150), 'round': (6371000.0, 1/1000), 'unit': (6378.137, 1/298.257223563)}
METHODS = ['moritz', 'bowring', 'zhu', 'Bowring', 'ZHU', None]


@st.composite
def positions(draw, n=None):
    """[kind, longitude, latitude, height]"""
    k = n or draw(st.integers(1, 6))
    out = []
    for _ in range(k):
        kind = draw(st.sampled_from(['geo']*7 + ['axis']))
        h = draw(st.one_of(mix(-11000, 9000, 0, -11000), fl(-11000, 9000), fl(2e5, 4.2e7), st.sampled_from([0.0, 35786000.0, 378000000.0, 1.496e11])))
        out.append([kind, draw(mix(-360, 360, -180, -90, 0, 90, 180, 270)), draw(mix(-90, 90, -90, -45, 0, 45, 90)), h])
    return out


LAYOUT = ['array', 'array', 'column', 'matrix', 'scalar', 'list', 'masked', 'int']


@st.composite
def geo_case(draw):
    return {'p': draw(positions()), 'ell': draw(st.sampled_from(sorted(ELL))), 'default': draw(st.booleans()), 'method': draw(st.sampled_from(METHODS)),
            'layout': draw(st.sampled_from(LAYOUT)), 'h': draw(st.sampled_from(['array', 'number', 'none'])), 'mask': draw(st.integers(0, 63))}


def normal(lon, lat):
    o, a = np.radians(lon), np.radians(lat)
    # exact at the quarter turns
    co, so, ca, sa = np.cos(o), np.sin(o), np.cos(a), np.sin(a)
    return np.array([ca*co, ca*so, sa])


def vector(lon, lat, h, a, f):
    """position whose foot on the ellipsoid has the normal direction of (lon, lat): A^2 n/|A n| + h n"""
    n = normal(lon, lat)
    b = a*(1 - f)
    A2 = np.array([a*a, a*a, b*b])
    A2 = A2.reshape((3,) + (1,)*(n.ndim - 1))
    return A2*n/np.sqrt((A2*n*n).sum(axis=0)) + np.asarray(h)*n


def lay(v, how, mask=0):
    v = np.array(v, dtype=float)
    if how == 'scalar':
        return float(v[0])
    if how == 'column':
        return v[:, None]
    if how == 'matrix':
        return np.stack([v, v[::-1]])
    if how == 'list':
        return [float(x) for x in v]
    if how == 'int':
        return np.round(v).astype(int)
    if how == 'masked':
        return np.ma.array(v, mask=[bool(mask >> i & 1) for i in range(len(v))])
    return v


def used(v, how):
    v = np.array(v, dtype=float)
    if how == 'scalar':
        return v[:1]
    if how == 'matrix':
        return np.concatenate([v, v[::-1]])
    if how == 'int':
        return np.round(v)
    return v


def shape_of(v, how):
    return () if how == 'scalar' else np.shape(lay(v, how))


def chosen(c):
    if c['default'] and c['ell'] == 'WGS84':
        return ELL['WGS84'], {}
    a, f = ELL[c['ell']]
    return (a, f), {'a_axis': a, 'flat': f}


def wrap(d):
    return (np.asarray(d) + 180.0) % 360.0 - 180.0


def geodetic(c, ctx):
    (a, f), kw = chosen(c)
    how = c['layout']
    lon, lat, h = ([p[i] for p in c['p']] for i in (1, 2, 3))
    if a < 1e5:
        h = [x/1000 for x in h]
    if c['h'] == 'none':
        h = [0.0]*len(h)
    elif c['h'] == 'number':
        h = [h[0]]*len(h)
    ha = {'none': None, 'number': h[0]}.get(c['h'], lay(h, 'array' if how == 'int' else how, c['mask']))
    if isinstance(ha, list):
        ha = np.array(ha)
    ul, ut, uh = used(lon, how), used(lat, how), used(h, how if how != 'int' else 'array')
    O, T = lay(lon, how, c['mask']), lay(lat, how, c['mask'])
    keep = copy_all(O, T, ha)
    x, y, z = S.to_cartesian(O, T, **({} if ha is None else {'h': ha}), **kw)
    ctx.check(same_all(keep, (O, T, ha)), 'to_cartesian changed its arguments')
    want = vector(ul, ut, uh, a, f)
    size = float(np.max(np.abs(want))) + a
    for v, w, n in zip((x, y, z), want, 'xyz'):
        ctx.check(np.shape(v) == shape_of(lon, how), f'{n}: shape {np.shape(v)} for {how}')
        ctx.close(np.ravel(np.ma.getdata(v))[valid(c, how, len(ul))], w[valid(c, how, len(ul))], n, rtol=1e-14, atol=1e-14*size)
    # heights are distances along the normal: ellipsoid equation at the foot
    b = a*(1 - f)
    foot = np.array([np.ravel(np.ma.getdata(v)) for v in (x, y, z)]) - uh*normal(ul, ut)
    eq = (foot[0]**2 + foot[1]**2)/a**2 + foot[2]**2/b**2
    ctx.close(eq[valid(c, how, len(ul))], np.ones(int(valid(c, how, len(ul)).sum())), 'ellipsoid equation', atol=1e-13*size/a)
    inverse(c, ctx, want, ul, ut, uh, a, f, kw, how)
    ctx.nt(bool(np.any((np.abs(ut) > 1e-3) & (np.abs(ut) < 89.99))) or len(ut) > 1)
    ctx.label(how)
    ctx.label(c['ell'])


def valid(c, how, n):
    if how != 'masked':
        return np.ones(n, bool)
    return np.array([not (c['mask'] >> i & 1) for i in range(n)])


def copy_all(*v):
    import copy
    return copy.deepcopy(v)


def same_all(a, b):
    return all((x is None and y is None) or (type(x) is type(y) and same(x, y)) for x, y in zip(a, b))


def inverse(c, ctx, want, ul, ut, uh, a, f, kw, how):
    """the positions are given on the rotation axis exactly for some points"""
    if how in ('int', 'matrix', 'scalar'):
        kinds = [p[0] for p in c['p']]
        kinds = kinds[:1] if how == 'scalar' else (kinds + kinds[::-1] if how == 'matrix' else kinds)
    else:
        kinds = [p[0] for p in c['p']]
    X = want.copy()
    axis = np.array([k == 'axis' for k in kinds])
    b = a*(1 - f)
    s = np.where(ut >= 0, 1.0, -1.0)
    X[0, axis] = X[1, axis] = 0.0
    X[2, axis] = (s*(b + uh))[axis]
    # reference: latitude and height of the positions
    rt = np.where(axis, 90.0*s, ut)
    ro = ul
    ctx.label('axis') if axis.any() else None
    n = len(ul)
    g = valid(c, how, n)

    def mk(v):
        if how == 'matrix':
            return v.reshape(2, -1)
        if how == 'column':
            return v[:, None]
        if how == 'scalar':
            return float(v[0])
        if how == 'list':
            return [float(q) for q in v]
        if how == 'masked':
            return np.ma.array(v, mask=~g)
        return v.copy()
    args = [mk(X[i]) for i in range(3)]
    keep = copy_all(*args)
    kk = dict(kw)
    if c['method'] is not None:
        kk['method'] = c['method']
    m = (c['method'] or 'bowring').lower()
    lo, la, h = S.to_geodetic(*args, **kk)
    ctx.check(same_all(keep, args), 'to_geodetic changed its arguments')
    shp = () if how == 'scalar' else np.shape(args[0])
    for v in (lo, la, h):
        ctx.check(np.shape(v) == shp, f'{m}: shape {np.shape(v)} expected {shp}')
    lo, la, h = (np.ravel(np.ma.getdata(v)).astype(float) for v in (lo, la, h))
    r = np.sqrt((X**2).sum(axis=0))
    # the closed form loses digits far above the ellipsoid
    tol = np.where(m != 'zhu', 1e-6, np.where(r < 2e7, 1e-4, 2e-3))*(r/6.4e6)
    if a < 1e5:
        tol = tol + (1e-9 if m != 'zhu' else 1e-7)
    check_points(ctx, m, lo, la, h, ro, rt, uh, axis, r, tol, g)
    # any method and batch gives the position again
    back = vector(lo, la, h, a, f)
    d = np.sqrt(((back - X)**2).sum(axis=0))
    if np.any(~(d <= 2*tol)[g]):
        i = int(np.argmax(np.where(g, d, 0)))
        ctx.fail(f'{m}: position of ({lo[i]}, {la[i]}, {h[i]}) is {d[i]} m away')
    for i in range(n):
        if not g[i]:
            continue
        q = S.to_geodetic(float(X[0, i]), float(X[1, i]), float(X[2, i]), **kk)
        ctx.check(all(np.ndim(v) == 0 for v in q), 'numbers give arrays')
        check_points(ctx, m + ' alone', *[np.array([float(v)]) for v in q], ro[i:i+1], rt[i:i+1], uh[i:i+1], axis[i:i+1], r[i:i+1], tol[i:i+1], np.array([True]))


def check_points(ctx, m, lo, la, h, ro, rt, uh, axis, r, tol, g):
    e = np.abs(wrap(lo - ro))*np.cos(np.radians(rt))*np.pi/180*r
    e = np.where(axis | (np.abs(np.abs(rt) - 90) < 1e-9), 0.0, e)
    for name, d in (('longitude', e), ('latitude', np.abs(la - rt)*np.pi/180*r), ('height', np.abs(h - uh))):
        bad = g & ~(d <= tol)
        if bad.any():
            i = int(np.argmax(bad))
            ctx.fail(f'{m}: {name} off by {d[i]} m: got {lo[i]}, {la[i]}, {h[i]} for {ro[i]}, {rt[i]}, {uh[i]}', key=f'{m.split()[0]}:{name}')


# ---- spherical ------------------------------------------------------------------------------------------
@st.composite
def sphere_case(draw):
    n = draw(st.integers(1, 6))
    return {'lon': draw(lists(mix(-360, 360, -180, 0, 90, 180), n, n)), 'lat': draw(lists(mix(-90, 90, -90, 0, 90), n, n)), 'r': draw(lists(st.one_of(fl(1e-3, 1e9), st.sampled_from([1.0, 6371000.0])), n, n)),
            'exact': draw(st.booleans()), 'layout': draw(st.sampled_from(['array', 'column', 'matrix', 'scalar', 'list', 'masked'])), 'mask': draw(st.integers(0, 63))}


def sphere(c, ctx):
    how = c['layout']
    lon, lat, r = (np.array(c[k]) for k in ('lon', 'lat', 'r'))
    V = normal(lon, lat)*r
    if c['exact']:
        # exact positions on axes and planes
        V[np.abs(V) < 1e-15*r] = 0.0
    args = [lay(V[i], how, c['mask']) for i in range(3)]
    keep = copy_all(*args)
    out = S.to_sphere(*args)
    ctx.check(same_all(keep, args), 'to_sphere changed its arguments')
    for v in out:
        ctx.check(np.shape(v) == shape_of(lon, how), f'shape {np.shape(v)}')
    g = valid({'mask': c['mask']}, how, len(lon))
    g = np.concatenate([g, g]) if how == 'matrix' else (g[:1] if how == 'scalar' else g)
    o, t, q = (np.ravel(np.ma.getdata(v))[g] for v in out)
    uo, ut, ur = (used(v, how)[g] for v in (lon, lat, r))
    ctx.check(bool(np.all((o >= 0) & (o <= 360) & (t >= -90) & (t <= 90))), f'ranges {o}, {t}')
    ctx.close(q, ur, 'radius', rtol=1e-14)
    ctx.close(t, ut, 'latitude', atol=2e-6)
    away = np.abs(ut) < 88
    ctx.close(t[away], ut[away], 'latitude away from the poles', atol=1e-11)
    off = np.abs(np.abs(ut) - 90) > 1e-3
    ctx.close(wrap(o - uo)[off], np.zeros(int(off.sum())), 'longitude', atol=1e-9)
    # a sphere is an ellipsoid without flattening
    x, y, z = S.to_cartesian(o, t, h=0.0, a_axis=1.0, flat=0.0)
    W = (V.reshape(3, -1) if how != 'matrix' else np.concatenate([V, V[:, ::-1]], axis=1))
    W = (W[:, :1] if how == 'scalar' else W)[:, g]
    ctx.close(np.array([x, y, z])*q, W, 'position of the spherical coordinates', atol=4e-8*float(np.max(r)), rtol=0)
    ctx.close(np.array([x, y, z]), W/ur, 'direction of the spherical coordinates', atol=4e-8, rtol=0)
    ctx.nt(bool(np.any(np.abs(ut) % 90 > 1e-3)))
    ctx.label(how)


# ---- local ------------------------------------------------------------------------------------------------
@st.composite
def local_case(draw):
    n = draw(st.integers(1, 5))
    obj = draw(lists(st.tuples(mix(-1, 1, -1, 0, 1), mix(-1, 1, -1, 0, 1), mix(-1, 1, -1, 0, 1)).map(list), n, n))
    return {'obj': obj, 'far': draw(st.sampled_from([1.0, 1e3, 1e6, 4e8, 1.5e11])), 'site': draw(positions(n)), 'ref': draw(st.sampled_from(['number', 'number', 'numpy', 'one', 'each', 'default'])),
            'ell': draw(st.sampled_from(sorted(set(ELL) - {'unit'}))), 'default': draw(st.booleans()), 'layout': draw(st.sampled_from(['array', 'array', 'scalar', 'list', 'masked', 'column'])), 'mask': draw(st.integers(0, 31)),
            'mode': draw(st.sampled_from(['local', 'earth']))}


def local(c, ctx):
    (a, f), kw = chosen(c)
    how = c['layout']
    n = len(c['obj'])
    if how == 'scalar':
        n = 1
    site = np.array([p[1:] for p in c['site']], dtype=float)[:n].T
    ref = c['ref']
    if ref == 'each' and how == 'scalar':
        ref = 'number'
    if ref != 'each':
        site = np.repeat(site[:, :1], n, axis=1)
    if ref == 'default':
        site = np.zeros_like(site)
    o0, a0, h0 = site
    site_kw = dict(lon0=float(o0[0]), lat0=float(a0[0]), h0=float(h0[0]))
    if ref == 'numpy':
        site_kw = {k: np.float64(v) for k, v in site_kw.items()}
    elif ref == 'one':
        site_kw = {k: np.array([v]) for k, v in site_kw.items()}
    elif ref == 'each':
        site_kw = dict(lon0=lay(o0, 'column' if how == 'column' else 'array'), lat0=lay(a0, 'column' if how == 'column' else 'array'), h0=lay(h0, 'column' if how == 'column' else 'array'))
    elif ref == 'default':
        site_kw = {}
    site_kw.update(kw)
    up = normal(o0, a0)
    east = np.array([-np.sin(np.radians(o0)), np.cos(np.radians(o0)), 0*o0])
    north = np.cross(up, east, axis=0)
    X0 = vector(o0, a0, h0, a, f)
    e, nn, u = np.array(c['obj'], dtype=float)[:n].T*c['far']
    V = X0 + e*east + nn*north + u*up
    far = np.sqrt(e*e + nn*nn + u*u)
    size = float(np.max(np.abs(V)) + np.max(far))
    g = valid(c, how, n)
    mk = lambda v: lay(v, how, c['mask'])
    get = lambda v: np.ravel(np.ma.getdata(v)).astype(float)[g]
    args = [mk(v) for v in V]
    keep = copy_all(*args, *site_kw.values())
    E, N, U = S.to_ENU(*args, **site_kw)
    ctx.check(same_all(keep, (*args, *site_kw.values())), 'to_ENU changed its arguments')
    shp = () if how == 'scalar' else np.shape(args[0])
    tol = 4e-15*size
    for v, w, name in zip((E, N, U), (e, nn, u), 'ENU'):
        ctx.check(np.shape(v) == shp, f'{name}: shape {np.shape(v)} expected {shp}')
        ctx.close(get(v), w[g], name, atol=tol, rtol=1e-14)
    loc = [mk(v) for v in (e, nn, u)]
    keep = copy_all(*loc)
    x, y, z = S.from_ENU(*loc, **site_kw)
    ctx.check(same_all(keep, loc), 'from_ENU changed its arguments')
    for v, w, name in zip((x, y, z), V, 'xyz'):
        ctx.check(np.shape(v) == shp, f'{name}: shape {np.shape(v)} expected {shp}')
        ctx.close(get(v), w[g], name, atol=tol, rtol=1e-14)
    # inverse pair
    back = S.from_ENU(E, N, U, **site_kw)
    for v, w, name in zip(back, V, 'xyz'):
        ctx.close(get(v), w[g], name + ' again', atol=2*tol, rtol=1e-14)
    # horizontal coordinates
    some = g & (far > 1e-3*c['far'])
    if how in ('list', 'masked', 'scalar'):
        loc = [np.array(v)[:n] if how != 'scalar' else v for v in (e, nn, u)]
    if how == 'scalar':
        loc = [np.float64(v[0]) for v in (e, nn, u)]
    keep = copy_all(*loc)
    alt, az, D = S.to_horizontal(*loc)
    ctx.check(same_all(keep, loc), 'to_horizontal changed its arguments')
    alt, az, D = (np.ravel(np.asarray(v, dtype=float)) for v in (alt, az, D))
    ctx.close(D[some], far[some], 'distance', rtol=1e-14)
    hz = np.hypot(e, nn)
    wa = np.degrees(np.arctan2(u, hz))
    ctx.close(alt[some], wa[some], 'altitude', atol=2e-6)
    flat = some & (np.abs(wa) < 85)
    ctx.close(alt[flat], wa[flat], 'altitude', atol=1e-11)
    tilted = some & (hz > 1e-6*far)
    waz = np.degrees(np.arctan2(e, nn)) % 360
    ctx.close(wrap(az - waz)[tilted], np.zeros(int(tilted.sum())), 'azimuth', atol=1e-9)
    ctx.check(bool(np.all((az[some] >= 0) & (az[some] <= 360))), f'azimuth {az[some]} outside of 0 to 360')
    # zenith angles of the objects (angles lose digits with the distance of the site)
    zen = S.to_zenith(*args, **site_kw)
    ctx.check(np.shape(zen) == shp, f'zenith: shape {np.shape(zen)}')
    zen = get(zen)
    acc = np.degrees(tol/np.maximum(far, 1e-300))*4
    ok = (some & (acc < 1e-3))[g]
    w = (90.0 - wa)[g]
    bad = ok & ~(np.abs(zen - w) <= acc[g] + 2e-6)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.fail(f'zenith angle {zen[i]} expected {w[i]}', key='zenith')
    # distances are kept
    if n > 1 and ref != 'each':
        L = np.array([np.ravel(np.ma.getdata(v)) for v in (E, N, U)])
        for i in range(1, n):
            if g[0] and g[i]:
                ctx.close(np.linalg.norm(L[:, 0] - L[:, i]), np.linalg.norm(V[:, 0] - V[:, i]), 'distance of two objects', atol=2*tol, rtol=1e-13)
    ctx.nt(bool(np.any(np.abs(a0) % 90 > 1e-3)))
    ctx.label(how)
    ctx.label('site:' + ref)


@st.composite
def refuse_case(draw):
    return {'method': draw(st.sampled_from(['', 'newton', 'zhu ', 'bowringx', 'iterative'])), 'p': draw(positions(2))}


def refuse(c, ctx):
    X = vector(np.array([p[1] for p in c['p']]), np.array([p[2] for p in c['p']]), 0.0, *ELL['WGS84'])
    ctx.nt(True)
    try:
        out = S.to_geodetic(*X, method=c['method'])
    except ValueError:
        return
    ctx.fail(f"method {c['method']!r} gives {out}")


SUBS = [Sub('geodetic', geo_case(), geodetic, 1500, 40000), Sub('sphere', sphere_case(), sphere, 600, 10000), Sub('local', local_case(), local, 800, 20000), Sub('refused', refuse_case(), refuse, 30, 60)]
SUBS.append(large.sub(['cartesian', 'geodetic', 'sphere', 'local', 'horizontal', 'dms']))
SUBS.append(large.pure(['cartesian', 'geodetic', 'sphere', 'local', 'horizontal', 'dms']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
