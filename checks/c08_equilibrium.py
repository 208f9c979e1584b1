import _boot
from harness import *
from gen import *
import large
import tidalref as R
import pyTMD.predict, pyTMD.io, pyTMD.compute
from math import factorial

PROPERTY = 'C08'
RULE = ('Latitudes (poles, equator, nodal latitudes of P20), times, subsets and spellings of the fifteen lines and conventions are generated; '
        'non-trivial when the requested lines include at least one known line and the latitude is not a zero of P20.')
ASSUMPTIONS = ['line amplitudes and multipliers of Cartwright & Tayler (1971), Cartwright & Edden (1973) typed here by Doodson number',
               'astronomical mean longitudes are those of lib/tidalref.py (C03)']

# Doodson number (argument of s, h, p, N', p' after the zero for tau) -> amplitude (cm)
LINES = {'node': ('055.565', 2.7929), 'sa': ('056.554', -0.4922), 'ssa': ('057.555', -3.0988), 'msm': ('063.655', -0.6728),
         '065.445': ('065.445', 0.231), 'mm': ('065.455', -3.5184), '065.465': ('065.465', 0.228), 'msf': ('073.555', -0.5837),
         '075.355': ('075.355', -0.288), 'mf': ('075.555', -6.6607), 'mf+': ('075.565', -2.763), '075.575': ('075.575', -0.258),
         'mst': ('083.655', -0.2422), 'mt': ('085.455', -1.2753), '085.465': ('085.465', -0.528)}
CORR = st.sampled_from(['OTIS', 'OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'GOT', 'perth3'])


def multipliers(do):
    d = do.replace('.', '')
    return np.array([int(c) - 5 for c in d[1:]])


def reference(t, lat, names, corr, dt):
    """potential-derived height for one time and one latitude"""
    s, h, p, n, pp = np.array(R.longitudes(np.array([t + 48622.0 + dt]), corr)).reshape(5)
    a = np.array([s, h, p, -n, pp])
    z = 0.0
    for name in names:
        do, H = LINES[name]
        z += H/100.0*np.cos(np.radians(multipliers(do) @ a))
    P20 = np.polynomial.legendre.legval(np.sin(np.radians(lat)), [0, 0, 1])
    return (1.0 + 0.299 - 0.606)*np.sqrt(5/(4*np.pi))*P20*z


def spell(names, k):
    return [n.upper() if (k >> i) & 1 else n for i, n in enumerate(names)]


def f_height(case, ctx):
    lat, t = np.array(case['lat']), np.array(case['t'])
    corr, dt = case['corr'], case['dt']
    kw = dict(corrections=corr, deltat=dt)
    names = list(LINES)
    if case['c'] is not None:
        names = [c for c in case['c'] if c in LINES]
        arg = spell(case['c'], case['case'])
        kw['constituents'] = {'tuple': tuple, 'array': np.array}.get(case['kind'], list)(arg) if arg else arg
        if case['kind'] == 'str' and len(arg) == 1:
            kw['constituents'] = arg[0]
    ctx.nt(bool(names) and np.any(np.abs(3*np.sin(np.radians(lat))**2 - 1) > 1e-6))
    lat0, t0 = lat.copy(), t.copy()
    got = pyTMD.predict.equilibrium_tide(t, lat, **kw)
    ctx.check(np.array_equal(lat, lat0) and np.array_equal(t, t0), 'inputs modified')
    if len(lat) == len(t):
        ctx.label('paired')
        want = np.array([reference(a, b, set(names), corr, dt) for a, b in zip(t, lat)])
    else:
        ctx.label('outer')
        want = np.array([[reference(a, b, set(names), corr, dt) for a in t] for b in lat])
    ctx.close(got, want, f'equilibrium tide of {kw.get("constituents", "all")} ({corr}) at {lat}, {t}', rtol=0, atol=2e-9)
    # the sum of the lines is the whole
    if case['parts']:
        parts = sum(pyTMD.predict.equilibrium_tide(t, lat, **{**kw, 'constituents': [c]}) for c in set(names)) if names else 0*want
        ctx.close(parts, got, 'sum over single lines', rtol=0, atol=1e-12)
    # symmetric about the equator
    ctx.close(pyTMD.predict.equilibrium_tide(t, -lat, **kw), got, 'northern and southern latitudes', rtol=0, atol=1e-12)


def f_node(case, ctx):
    lat = np.array(case['lat'])
    amp, ph = pyTMD.io.model.node_equilibrium(lat)
    ctx.nt(np.any(np.abs(3*np.sin(np.radians(lat))**2 - 1) > 1e-6))
    P20 = np.polynomial.legendre.legval(np.sin(np.radians(lat)), [0, 0, 1])
    ctx.mclose(amp, np.ma.array(0.027929*0.693*np.sqrt(5/(4*np.pi))*P20, mask=np.zeros(lat.shape, bool)), 'node amplitude', rtol=0, atol=1e-12)
    ctx.mclose(ph, np.ma.array(180.0 + 0*lat, mask=np.zeros(lat.shape, bool)), 'node phase')
    # the constants and the node line give the same heights
    t = np.array(case['t'])
    h = np.ma.array((amp.data*np.exp(-1j*np.pi))[:, None], mask=np.zeros((len(lat), 1), bool))
    for i in range(len(lat)):
        a = pyTMD.predict.time_series(t, h[i:i+1], ['node'], corrections='GOT')
        b = np.array([pyTMD.predict.equilibrium_tide(t[j:j+1], lat[i:i+1], constituents=['node'], corrections='GOT')[0] for j in range(len(t))])
        ctx.close(np.ma.getdata(a), b.ravel(), f'node constants and node line at latitude {lat[i]}', rtol=0, atol=1e-9)


def f_compute(case, ctx):
    """the correction function: node to mt at geographic points, datetimes"""
    import timescale.time
    lat, lon = np.array(case['lat'][:3]), np.array(case['lon'][:1]*3)[:len(case['lat'][:3])]
    sec, TYPE = np.array(case['sec']), case['type']
    if TYPE == 'drift':
        sec = np.array(case['sec'][:len(lat)] + [0.0]*(len(lat)-len(case['sec'][:len(lat)])))
    elif TYPE == 'grid':
        lat, lon = lat.reshape(1, -1), lon.reshape(1, -1)
    got = pyTMD.compute.LPET_elevations(lon, lat, sec, EPSG=4326, EPOCH=(2000, 1, 1, 0, 0, 0), TYPE=TYPE, TIME='UTC')
    ts = timescale.time.Timescale().from_deltatime(sec, epoch=(2000, 1, 1, 0, 0, 0), standard='UTC')
    ctx.nt()
    tt = ts.tide + ts.tt_ut1
    if TYPE == 'drift':
        want = np.array([reference(a, b, set(LINES), 'OTIS', 0.0) for a, b in zip(tt, lat)])
    else:
        want = np.array([[reference(a, b, set(LINES), 'OTIS', 0.0) for a in tt] for b in lat.ravel()]).reshape(lat.shape + tt.shape)
    ctx.label(TYPE)
    ctx.close(got, want, f'LPET_elevations ({TYPE}) at {lat} {sec}', rtol=0, atol=2e-8)


LAT = st.one_of(mix(-90., 90., -90., 0., 90.), st.sampled_from([35.264389682754654, -35.264389682754654]))
DAY = st.one_of(fl(-15000, 25000), fl(0, 12000), st.integers(-10000, 20000).map(float))
SEL = st.one_of(st.none(), st.lists(st.sampled_from(list(LINES) + ['m2', 'z0', 'mtm']), min_size=0, max_size=15, unique=True),
                st.sampled_from(list(LINES)).map(lambda c: [c]))
SUBS = [Sub('height', st.fixed_dictionaries(dict(lat=lists(LAT, 1, 4), t=lists(DAY, 1, 4), corr=CORR, dt=st.one_of(st.just(0.0), fl(0, 0.002)), c=SEL,
            case=st.integers(0, 2**15-1), kind=st.sampled_from(['list', 'tuple', 'array', 'str']), parts=st.booleans())), f_height, 1500, 60000, shards=3),
        Sub('node', st.fixed_dictionaries(dict(lat=lists(LAT, 1, 5), t=lists(DAY, 1, 3))), f_node, 300, 5000),
        Sub('compute', st.fixed_dictionaries(dict(lat=lists(LAT, 1, 4), lon=lists(lon180, 1, 1), sec=lists(fl(-3e8, 7e8), 1, 3), type=st.sampled_from(['drift', 'time series', 'grid']))), f_compute, 300, 5000, shards=2)]
SUBS.append(large.sub(['equilibrium']))
SUBS.append(large.pure(['equilibrium']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
