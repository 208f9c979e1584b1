import _boot
from harness import *
from gen import *
import os, pathlib
import kernel, large
import setref as S
import pyTMD.predict, pyTMD.compute, pyTMD.astro, pyTMD.spatial
import timescale.time

PROPERTY = 'C09'
RULE = ('Station positions (off the rotation axis), free lunar and solar position vectors or ephemerides at dates, Love numbers, ellipsoid axis and tide '
        'system are generated; non-trivial when station and bodies are not aligned with the axes.')
ASSUMPTIONS = ['IERS Conventions (2010) equations 7.5-7.13 and tables 7.3a/b typed in lib/setref.py in local (radial, north, east) components',
               'the permanent tide is the displacement of the -0.3146 m potential, added for the mean-tide system (ICESat-2 convention of the repository)',
               'stations exactly on the rotation axis are outside the domain (no east direction)']

# latitude, longitude, height -> ECEF
STATION = st.tuples(mix(-89.99, 89.99, -45.0, 0.0, 45.0), mix(-180., 180., -180., -90., 0., 90., 180.), fl(-5000., 9000.)).map(list)
DIRECTION = st.tuples(mix(-89., 89., 0.0), mix(-180., 180., 0.0, 90.0)).map(list)
DAY = st.one_of(fl(-12000, 25000), fl(0, 12000), st.integers(-8000, 15000).map(float), st.integers(-8000, 15000).map(lambda i: i + 0.5))


def place(lat, lon, h, a=6378137.0, f=1/298.257223563):
    p, l = np.radians(lat), np.radians(lon)
    N = a/np.sqrt(1 - f*(2-f)*np.sin(p)**2)
    return np.array([(N+h)*np.cos(p)*np.cos(l), (N+h)*np.cos(p)*np.sin(l), (N*(1-f)**2+h)*np.sin(p)])


def aim(d, r):
    p, l = np.radians(d[0]), np.radians(d[1])
    return r*np.array([np.cos(p)*np.cos(l), np.cos(p)*np.sin(l), np.sin(p)])


def rz(x, ang):
    c, s = np.cos(ang), np.sin(ang)
    return x @ np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]).T


def f_vector(case, ctx):
    rows = case['rows']
    X = np.array([place(*r['x']) for r in rows])
    sun = np.array([aim(r['s'], r['sr']) for r in rows])
    moon = np.array([aim(r['m'], r['mr']) for r in rows])
    t = np.array([r['t'] for r in rows])
    kw = {k: case['love'][k] for k in case['love']} if case['custom'] else {}
    akw = dict(a_axis=case['a']) if case['a'] else {}
    ref = dict(h2=kw.get('h2', S.H2), l2=kw.get('l2', S.L2), h3=kw.get('h3', S.H3), l3=kw.get('l3', S.L3), ms=kw.get('mass_ratio_solar', S.MS),
               mm=kw.get('mass_ratio_lunar', S.MM), a=case['a'] or S.RE)
    sys_ = case['system']
    skw = {} if sys_ is None else dict(tide_system=sys_)
    ctx.nt(any(abs(r['x'][0]) > 1 and abs(r['s'][0]) > 0.1 for r in rows))
    keep = X.copy(), sun.copy(), moon.copy(), t.copy()
    got = pyTMD.predict.solid_earth_tide(t, X, sun, moon, **akw, **skw, **kw)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (X, sun, moon, t))), 'inputs modified')
    want = np.array([S.displacement(X[i], sun[i], moon[i], t[i]+48622.0, tide_system=(sys_ or 'tide_free').lower(), **ref) for i in range(len(t))])
    ctx.close(got, want, f'displacement ({sys_})', rtol=0, atol=3e-9)
    # each row alone
    i = case['pick'] % len(t)
    one = pyTMD.predict.solid_earth_tide(t[i:i+1], X[i:i+1], sun[i:i+1], moon[i:i+1], **akw, **skw, **kw)
    ctx.close(one[0], got[i], 'station alone', rtol=0, atol=1e-13)
    # permanent tide
    free = pyTMD.predict.solid_earth_tide(t, X, sun, moon, tide_system='tide_free', **akw, **kw)
    mean = pyTMD.predict.solid_earth_tide(t, X, sun, moon, tide_system='mean_tide', **akw, **kw)
    for j in range(len(t)):
        phi = S.frame(X[j])[3]
        w = S.permanent(X[j], ref['h2'] - 0.0006*S.P2lat(phi), ref['l2'] + 0.0002*S.P2lat(phi))
        ctx.close(mean[j]-free[j], w, 'permanent tide', rtol=0, atol=1e-11)
    # turning everything about the axis turns the part that has no clock
    ang = np.radians(case['turn'])
    F = np.array([S.displacement(X[j], sun[j], moon[j], t[j]+48622.0, parts=True, **ref)[2] for j in range(len(t))])
    XR = rz(X, ang)
    turned = pyTMD.predict.solid_earth_tide(t, XR, rz(sun, ang), rz(moon, ang), **akw, **kw)
    FR = np.array([S.displacement(XR[j], sun[j], moon[j], t[j]+48622.0, parts=True, **ref)[2] for j in range(len(t))])
    ctx.close(turned - FR, rz(free - F, ang), 'rotation about the polar axis', rtol=0, atol=3e-9)


def _compute(lon, lat, sec, ell, sys_, eph, TYPE='drift'):
    if TYPE == 'grid':
        lon, lat = lon.reshape(1, -1), lat.reshape(1, -1)
    return pyTMD.compute.SET_displacements(lon, lat, sec, EPSG=4326, EPOCH=(2000, 1, 1, 0, 0, 0), TYPE=TYPE, TIME='UTC', ELLIPSOID=ell,
        TIDE_SYSTEM=sys_, EPHEMERIDES=eph)


def f_compute(case, ctx):
    """radial displacement of the correction function, with the ephemerides of pyTMD.astro"""
    rows = case['rows']
    lat, lon = np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
    sec = np.array([r[2] for r in rows])
    TYPE = case['type']
    if TYPE != 'drift':
        # some stations at every time
        lat, lon = lat[:case['n']], lon[:case['n']]
    ctx.label(TYPE)
    ell, sys_ = case['ell'], case['system']
    eph, kw = case['eph'], {}
    if eph.upper() == 'JPL':
        # without this attribute there is no way to have the function read a kernel of ours
        if not hasattr(pyTMD.astro, '_default_kernel'):
            ctx.skip()
        kw['kernel'] = os.path.join(ctx.tmp, 'k.bsp')
        kernel.realistic(kw['kernel'], 51544.0 + sec/86400.0, len(sec) + int(abs(lat[0])))
        keep, pyTMD.astro._default_kernel = pyTMD.astro._default_kernel, pathlib.Path(kw['kernel'])
        try:
            got = np.atleast_1d(_compute(lon, lat, sec, ell, sys_, eph, TYPE))
        finally:
            pyTMD.astro._default_kernel = keep
    else:
        got = _compute(lon, lat, sec, ell, sys_, eph, TYPE)
    ctx.label(eph)
    ctx.nt(np.any(np.abs(lat) > 1))
    u = pyTMD.datum(ellipsoid=ell, units='MKS')
    ts = timescale.time.Timescale().from_deltatime(sec, epoch=(2000, 1, 1, 0, 0, 0), standard='UTC')
    sun = np.array(pyTMD.astro.solar_ecef(ts.MJD, ephemerides=eph, **kw)).reshape(3, -1).T
    moon = np.array(pyTMD.astro.lunar_ecef(ts.MJD, ephemerides=eph, **kw)).reshape(3, -1).T
    t = ts.tide + ts.tt_ut1
    def radial(j, i):
        x = place(lat[j], lon[j], 0.0, u.a_axis, u.flat)
        d = S.displacement(x, sun[i], moon[i], t[i]+48622.0, a=u.a_axis, tide_system=sys_.lower())
        return d @ (x/np.linalg.norm(x))
    if TYPE == 'drift':
        want = [radial(i, i) for i in range(len(sec))]
    else:
        want = [[radial(j, i) for i in range(len(sec))] for j in range(len(lat))]
        want = [want] if TYPE == 'grid' else want
    ctx.close(got, np.array(want), f'SET_displacements ({TYPE}, {ell}, {sys_}) at {lat} {lon} {sec}', rtol=0, atol=1e-8)


ROW = st.fixed_dictionaries(dict(x=STATION, s=DIRECTION, m=DIRECTION, sr=fl(1.45e11, 1.53e11), mr=fl(3.5e8, 4.1e8), t=DAY))
LOVE = st.fixed_dictionaries(dict(h2=fl(0.3, 0.9), l2=fl(0.02, 0.2), h3=fl(0.1, 0.5), l3=fl(0.0, 0.1), mass_ratio_solar=fl(2e5, 4e5), mass_ratio_lunar=fl(0.005, 0.02)))
SYS = st.sampled_from([None, 'tide_free', 'mean_tide', 'MEAN_TIDE', 'Tide_Free'])
SUBS = [Sub('vector', st.fixed_dictionaries(dict(rows=st.lists(ROW, min_size=1, max_size=4), love=LOVE, custom=st.booleans(), a=st.one_of(st.none(), st.none(), fl(6.3e6, 6.4e6)),
            system=SYS, pick=st.integers(0, 9), turn=fl(-180, 180))), f_vector, 1200, 40000, shards=4),
        Sub('compute', st.fixed_dictionaries(dict(type=st.sampled_from(['drift', 'time series', 'grid']), n=st.integers(1, 3), rows=st.lists(st.tuples(mix(-89.99, 89.99, 0.), lon180, fl(-6e8, 7e8)).map(list), min_size=1, max_size=3),
            ell=st.sampled_from(['WGS84', 'IERS', 'TOPEX', 'GRS80']), system=st.sampled_from(['tide_free', 'mean_tide']),
            eph=st.sampled_from(['approximate', 'approximate', 'Approximate', 'JPL', 'jpl']))), f_compute, 300, 6000, tmp=True, shards=3)]
SUBS.append(large.sub(['solid']))
SUBS.append(large.pure(['solid']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
