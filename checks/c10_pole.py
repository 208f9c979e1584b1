import _boot
from harness import *
from gen import *
import large
import poleref, opole, pathlib
import pyTMD.predict, pyTMD.compute, pyTMD.io.IERS, pyTMD.spatial
import timescale.time, timescale.eop

PROPERTY = 'C10'
RULE = ('Stations anywhere off the rotation axis (radius near the Earth), times 1976-2014 (all conventions) or 1976-2023, paired, one-to-many '
        'and many-to-one, physical constants, complex coefficients and the compute functions are generated; non-trivial when some '
        'displacement is above 0.01 mm.')
ASSUMPTIONS = ['observed polar motion and the 2015 mean pole table come from the timescale package',
               'stations exactly on the rotation axis are not judged (longitude undefined)']
CONV = ['2003', '2010', '2015', '2018']


@st.composite
def station(draw):
    la = draw(st.one_of(mix(-89.9, 89.9, 0., 45., -45.), st.just(0.0))); lo = draw(mix(-180, 180, -180., -90., 0., 90., 180.))
    r = draw(fl(6.35e6, 6.39e6))
    return [la, lo, r]


def times(draw, conv, n):
    hi = 8000.0 if conv == '2015' else 11400.0
    return draw(lists(st.one_of(fl(-5700, hi), st.integers(-5700, int(hi)).map(float)), n, n))


@st.composite
def case_st(draw):
    conv = draw(st.sampled_from(CONV))
    mode = draw(st.sampled_from(['pair', '1t', '1p', 'one']))
    n = draw(st.integers(2, 4))
    nt, npt = dict(pair=(n, n), one=(1, 1))[mode] if mode in ('pair', 'one') else ((1, n) if mode == '1t' else (n, 1))
    return dict(conv=conv, t=times(draw, conv, nt), p=[draw(station()) for _ in range(npt)],
                dt=draw(st.sampled_from([None, 0.0, 0.0008, 'array'])),
                kw=draw(st.one_of(st.just({}), st.fixed_dictionaries(dict(gamma_0=fl(9.7, 9.9), omega=fl(7.2e-5, 7.4e-5), h2=fl(0.5, 0.7), l2=fl(0.05, 0.1))))),
                okw=draw(st.one_of(st.just({}), st.fixed_dictionaries(dict(gamma_0=fl(9.7, 9.9), omega=fl(7.2e-5, 7.4e-5), a_axis=fl(6.37e6, 6.38e6), GM=fl(3.98e14, 3.99e14), rho_w=fl(1000, 1050))))),
                g2=draw(st.one_of(st.none(), cplx(-1, 1))), U=draw(lists(lists(fl(-2, 2), 6, 6), npt, npt)))


def xyz(p):
    la, lo, r = p
    la, lo = np.radians(la), np.radians(lo)
    return np.array([r*np.cos(la)*np.cos(lo), r*np.cos(la)*np.sin(lo), r*np.sin(la)])


def f_predict(case, ctx):
    t = np.array(case['t']); X = np.array([xyz(p) for p in case['p']])
    n = max(len(t), len(X))
    d = case['dt']
    dt = 0.0 if d is None else (np.linspace(0.0005, 0.0009, len(t)) if d == 'array' else d)
    kw = {} if d is None else dict(deltat=dt)
    mjd = t + 48622.0 + dt
    m1, m2 = poleref.deviation(mjd, case['conv'])
    m1, m2 = np.broadcast_to(m1, n), np.broadcast_to(m2, n)
    XX = np.broadcast_to(X, (n, 3))
    X0, t0 = X.copy(), t.copy()
    got = pyTMD.predict.load_pole_tide(t, X, convention=case['conv'], **kw, **case['kw'])
    k = dict(case['kw'])
    if 'gamma_0' in k: k['gamma'] = k.pop('gamma_0')
    want = np.array([poleref.load(XX[i], m1[i], m2[i], **k)[0] for i in range(n)])
    ctx.nt(bool(np.max(np.abs(want)) > 1e-5))
    ctx.check(np.shape(got) == (n, 3), f'load pole tide shape {np.shape(got)}')
    ctx.close(got, want, f'load pole tide convention {case["conv"]} at {case["p"]} {case["t"]}', rtol=1e-8, atol=2e-9)
    # ocean pole tide
    U = C(np.array(case['U']).reshape(len(X), 3, 2))
    kw2 = dict(case['okw'])
    if case['g2'] is not None:
        kw2['g2'] = complex(*case['g2'])
    got = pyTMD.predict.ocean_pole_tide(t, X, U, convention=case['conv'], **kw, **kw2)
    k = dict(kw2)
    for a, b in (('gamma_0', 'gamma'), ('a_axis', 'a'), ('rho_w', 'rho')):
        if a in k: k[b] = k.pop(a)
    fr, fi = poleref.ocean_factor(m1, m2, **k)
    want = fr[:, None]*U.real + fi[:, None]*U.imag
    ctx.check(np.shape(got) == (n, 3), f'ocean pole tide shape {np.shape(got)}')
    ctx.close(got, want, f'ocean pole tide convention {case["conv"]}', rtol=1e-8, atol=2e-9)
    ctx.check(np.array_equal(X, X0) and np.array_equal(t, t0), 'inputs were modified')
    # each pair alone
    if n > 1 and d != 'array':
        i = n-1
        ti = t[-1:]; xi = X[-1:]
        one = pyTMD.predict.load_pole_tide(ti, xi, convention=case['conv'], **kw, **case['kw'])
        full = pyTMD.predict.load_pole_tide(t, X, convention=case['conv'], **kw, **case['kw'])
        ctx.close(one[0], full[i], 'single station and batch', atol=1e-13)


def f_compute(case, ctx):
    lat, lon = np.array([p[0] for p in case['p']]), np.array([p[1] for p in case['p']])
    sec = np.array(case['sec'])
    TYPE = case['type']
    if TYPE == 'drift':
        n = min(len(lat), len(sec)); lat, lon, sec = lat[:n], lon[:n], sec[:n]
    kw = dict(EPSG=4326, EPOCH=(2000, 1, 1, 0, 0, 0), TYPE=TYPE, TIME='UTC', CONVENTION=case['conv'], ELLIPSOID=case['ell'])
    x, y = lon, lat
    if TYPE == 'grid':
        x, y = lon.reshape(1, -1), lat.reshape(1, -1)
    ts = timescale.time.Timescale().from_deltatime(sec, epoch=(2000, 1, 1, 0, 0, 0), standard='UTC')
    mjd = ts.tide + 48622.0 + ts.tt_ut1
    m1, m2 = poleref.deviation(mjd, case['conv'])
    d = pyTMD.datum(ellipsoid=case['ell'], units='MKS')
    e2 = d.flat*(2-d.flat)

    def grid(f):
        if TYPE == 'drift':
            return np.array([f(lat[i], lon[i], i) for i in range(len(lat))])
        w = np.array([[f(a, o, i) for i in range(len(sec))] for a, o in zip(lat, lon)])
        return w.reshape(1, len(lat), len(sec)) if TYPE == 'grid' else w

    def ld(la, lo, i):
        a = np.radians(la); o = np.radians(lo)
        N = d.a_axis/np.sqrt(1-e2*np.sin(a)**2)
        X = np.array([N*np.cos(a)*np.cos(o), N*np.cos(a)*np.sin(o), N*(1-e2)*np.sin(a)])
        gc = np.arctan2(X[2], np.hypot(X[0], X[1]))
        g0 = d.gamma_0(np.pi/2 - gc)
        return poleref.load(X, m1[i], m2[i], gamma=g0, omega=d.omega)[1]
    if case['what'] == 'load':
        got = pyTMD.compute.LPT_displacements(x, y, sec, **kw)
        want = grid(ld)
        rt = 1e-6
    else:
        nodes = {}
        k = 0
        gc = np.degrees(np.arctan((1-e2)*np.tan(np.radians(lat))))
        for lo, la in zip(lon, gc):
            for c in opole.corners(lo, la):
                if c not in nodes:
                    nodes[c] = opole.rounded([a*(1+0.1*(k % 7)) for a in case['v']]); k += 1
        p = pathlib.Path(ctx.tmp)/'coef.txt.gz'
        opole.write(p, nodes)
        pyTMD.io.IERS._ocean_pole_tide_file = p
        meth = case['meth']
        got = pyTMD.compute.OPT_displacements(x, y, sec, METHOD=meth, **kw)
        U = {(la, lo): opole.interp(nodes, lo, g) for la, lo, g in zip(lat, lon, gc)}
        fr, fi = poleref.ocean_factor(m1, m2, gamma=9.7803278, a=d.a_axis, GM=d.GM, omega=d.omega)
        want = grid(lambda la, lo, i: fr[i]*U[la, lo][0] + fi[i]*U[la, lo][1])
        rt = 1e-6
    ctx.nt(bool(np.max(np.abs(want)) > 1e-5))
    ctx.check(np.shape(got) == want.shape, f'{case["what"]} pole tide {TYPE}: shape {np.shape(got)} expected {want.shape}')
    ctx.close(np.ma.getdata(got), want, f'{case["what"]} pole tide {TYPE} {case["conv"]} {case["ell"]} at {lat},{lon}', rtol=rt, atol=2e-8)
    ctx.check(not np.ma.getmaskarray(got).any(), 'finite displacements are masked')


ELL = ['WGS84', 'IERS', 'GRS80', 'WGS72']
comp = st.fixed_dictionaries(dict(conv=st.sampled_from(CONV), p=lists(station(), 1, 3), sec=lists(fl(-7e8, 4.3e8), 1, 3), type=st.sampled_from(['drift', 'grid', 'time series']),
        ell=st.sampled_from(ELL), what=st.sampled_from(['load', 'load', 'ocean']), v=lists(fl(-2, 2), 6, 6), meth=st.sampled_from(['spline', 'linear', 'bilinear'])))
SUBS = [Sub('predict', case_st(), f_predict, 800, 10000, shards=4),
        Sub('compute', comp, f_compute, 240, 3000, tmp=True, shards=4)]
SUBS.append(large.sub(['lpt', 'opt']))
SUBS.append(large.pure(['lpt', 'opt']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
