"""C26: ellipsoid parameters satisfy the identities of geodesy, and conversions that depend on the ellipsoid keep the physical point."""
import _boot
from harness import *
from gen import *
import large
import copy
import warnings
import pyTMD
import pyTMD.spatial as S
from pyTMD.crs import datum
warnings.simplefilter('ignore')

PROPERTY = 'C26'
RULE = ('Named and generated ellipsoids, units, latitudes, heights and angles against published constants, closed formulas (Somigliana normal gravity, potential theory), '
        'vector geometry and numerical distortion of the projection; non-trivial when the ellipsoid is not the default one or the position is off the equator and the poles.')
ASSUMPTIONS = ['generated ellipsoids have flattenings of 1/600 to 1/150 and earth-like rotation and mass', 'the truncated series of normal gravity (Hofmann-Wellenhof and Moritz) agree with the closed '
               'formulas to third order of the flattening', 'heights of -12 to 100 km for conversions between ellipsoids, whose axes differ by less than 10 km',
               'compute_delta_h is an empirical relation: compared with the exact difference to second order', 'negative angles of less than one degree carry the sign in a negative zero of the degrees']

# name: semi-major axis, inverse flattening, GM, angular velocity (published values)
GM0, OM0 = 3.986004418e14, 7292115e-11
TABLE = {'CLK66': (6378206.4, 294.9786982, GM0, OM0), 'NAD27': (6378206.4, 294.9786982, GM0, OM0), 'GRS80': (6378137.0, 298.257222101, 3.986005e14, OM0), 'NAD83': (6378137.0, 298.257222101, 3.986005e14, OM0),
         'GRS67': (6378160.0, 298.247167427, 3.98603e14, 7292115.1467e-11), 'WGS72': (6378135.0, 298.26, GM0, OM0), 'WGS84': (6378137.0, 298.257223563, GM0, OM0), 'ATS77': (6378135.0, 298.257, GM0, OM0),
         'KRASS': (6378245.0, 298.3, GM0, OM0), 'INTER': (6378388.0, 297.0, GM0, OM0), 'MAIRY': (6377340.189, 299.3249646, GM0, OM0), 'HGH80': (6378273.0, 298.279411123064, GM0, OM0),
         'TOPEX': (6378136.3, 298.257, 3.986004415e14, OM0), 'EGM96': (6378136.3, 298.256415099, 3.986004415e14, OM0), 'IERS': (6378136.6, 298.25642, GM0, OM0)}
# derived constants of GRS80 (Moritz, 2000) and WGS84 (NIMA TR8350.2)
PUBLISHED = {'GRS80': dict(b_axis=(6356752.3141, 1e-9), ecc=(521854.0097, 1e-9), rad_p=(6399593.6259, 1e-10), J2=(108263e-8, 2e-6), m=(0.00344978600308, 1e-11), U0=(62636860.850, 1e-9),
                           gamma_a=(9.7803267715, 2e-7), gamma_b=(9.8321863685, 2e-7), f2=(0.005302440112 - 0.0, 2e-3), rad_e=(6371000.7900, 1e-9), q=(0.000073346258, 1e-6)),
             'WGS84': dict(b_axis=(6356752.3142, 1e-9), ecc=(521854.00842339, 1e-9), rad_p=(6399593.6258, 1e-10), C20=(-0.484166774985e-3, 2e-6), m=(0.00344978650684, 1e-11), U0=(62636851.7146, 1e-9),
                           gamma_a=(9.7803253359, 2e-7), gamma_b=(9.8321849378, 2e-7), ecc1=(0.081819190842622, 1e-11), ecc2=(0.082094437949696, 1e-11), volume=(1.0832073e21, 1e-6), area=(5.10065622e14, 1e-7))}


@st.composite
def datum_case(draw):
    own = draw(st.booleans())
    c = {'units': draw(st.sampled_from(['MKS', 'CGS', 'mks', 'cgs'])), 'own': own, 'colat': draw(lists(mix(0, 180, 0, 90, 180), 1, 5)), 'h': draw(fl(-5000, 9000)), 'GM': draw(st.sampled_from([None, None, 3.986e14, 4.0e14])),
         'omega': draw(st.sampled_from([None, None, 7.292e-5, 7e-5]))}
    if own:
        c.update(a=draw(fl(6.2e6, 6.6e6)), rf=draw(fl(150, 600)))
    else:
        n = draw(st.sampled_from(sorted(TABLE)))
        c['name'] = draw(st.sampled_from([n, n, n.lower()]))
    return c


def parameters(c, ctx):
    kw = {'units': c['units']}
    if c['own']:
        a, f = c['a'], 1/c['rf']
        gm, om = GM0, OM0
        kw.update(a_axis=a, flat=f)
    else:
        a, rf, gm, om = TABLE[c['name'].upper()]
        f = 1/rf
        kw['ellipsoid'] = c['name']
    if c['GM'] is not None:
        gm = kw['GM'] = c['GM']
    if c['omega'] is not None:
        om = kw['omega'] = c['omega']
    d = datum(**kw)
    cgs = c['units'].upper() == 'CGS'
    L = 100.0 if cgs else 1.0
    close = lambda got, want, what, tol=1e-12: ctx.check(abs(float(got) - want) <= tol*abs(want) and np.isfinite(float(got)), f'{what}: {float(got)!r} expected {want!r} ({kw})', key=what)
    b = a*(1 - f)
    E = math.sqrt(a*a - b*b)
    e1, e2 = E/a, E/b
    close(d.a_axis, a*L, 'a_axis')
    close(d.flat, f, 'flat')
    close(d.GM, gm*(1e6 if cgs else 1), 'GM')
    close(d.omega, om, 'omega')
    close(d.G, 6.67430e-11*(1e3 if cgs else 1), 'G')
    close(d.gamma, 9.80665*L, 'gamma')
    close(d.b_axis, b*L, 'b_axis')
    close(d.ratio, b/a, 'ratio')
    close(d.rad_p, a*a/b*L, 'rad_p')
    close(d.rad_e, (a*a*b)**(1/3)*L, 'rad_e')
    close(d.ecc, E*L, 'ecc', 1e-10)
    close(d.ecc1, e1, 'ecc1', 1e-10)
    close(d.ecc2, e2, 'ecc2', 1e-10)
    m = om*om*a*a*b/gm
    close(d.m, m, 'm')
    # series of arctan for the differences that lose digits: sum of (-1)^n x^(2n+1)/(2n+1)
    def tail(x, k):
        return sum((-1)**n*x**(2*n + 1)/(2*n + 1) for n in range(k, 40))
    q = 0.5*(tail(e2, 1) + 3/e2**2*tail(e2, 2))
    qp = 3*(1 + 1/e2**2)*(-tail(e2, 1)/e2) - 1
    close(d.q, q, 'q', 1e-6)
    close(d.q0, qp, 'q0', 1e-6)
    J2 = e1**2/3*(1 - 2/15*m*e2/q)
    close(d.J2, J2, 'J2', 1e-6)
    close(d.C20, -J2/math.sqrt(5), 'C20', 1e-6)
    close(d.U0, (gm/E*math.atan(e2) + om*om*a*a/3)*L*L, 'U0', 1e-11)
    # closed formulas of normal gravity (HW&M 2-141, 2-142)
    ga = gm/(a*b)*(1 - m - m/6*e2*qp/q)
    gb = gm/(a*a)*(1 + m/3*e2*qp/q)
    t3 = 40*max(f, m)**3
    close(d.gamma_a, ga*L, 'gamma_a', t3)
    close(d.gamma_b, gb*L, 'gamma_b', t3)
    k = b*gb/(a*ga) - 1
    close(float(d.dk) + 1, k + 1, 'dk', 2*t3)
    close(d.area/L**2, 2*math.pi*a*a*(1 + (1 - e1**2)/e1*math.atanh(e1)), 'area', 1e-11)
    V = 4/3*math.pi*a*a*b
    close(d.volume/L**3, V, 'volume', 1e-11)
    close(d.rho_e/(1 if not cgs else 1e-3), gm/6.67430e-11/V, 'rho_e', 1e-11)
    # normal gravity at latitudes (Somigliana) and heights
    th = np.array(c['colat'])
    s2 = np.cos(np.radians(th))**2
    som = (a*ga*(1 - s2) + b*gb*s2)/np.sqrt(a*a*(1 - s2) + b*b*s2)
    ctx.close(np.asarray(d.gamma_0(np.radians(th)), float)/L, som, 'gamma_0', rtol=2*t3)
    h = c['h']
    gh = som*(1 - 2/a*(1 + f + m - 2*f*s2)*h + 3*(h/a)**2)
    ctx.close(np.asarray(d.gamma_h(np.radians(th), h*L), float)/L, gh, 'gamma_h', rtol=2*t3)
    # the series of gravity with height follow from the derivative of the potential
    for n, x in (('GRS80', None), ('WGS84', None)):
        if not c['own'] and c['name'].upper() == n and c['GM'] is None and c['omega'] is None and not cgs:
            for key, (value, tol) in PUBLISHED[n].items():
                if key != 'f2':
                    close(getattr(d, key), value, f'published {key} of {n}', tol)
    ctx.check(d['a_axis'] == d.a_axis and str(d).startswith('pyTMD.datum'), 'item access')
    ctx.check((d.name == 'user_defined') == c['own'], f'name {d.name}')
    ctx.nt(c['own'] or c['name'].upper() != 'WGS84' or cgs)
    ctx.label(c['units'].upper())
    ctx.label('own' if c['own'] else 'named')


def tables(c, ctx):
    """the same ellipsoid in both systems of units, and refusals"""
    if c['bad'] is not None:
        ctx.nt(True)
        try:
            d = datum(**c['bad'])
        except Exception:
            return
        ctx.fail(f'accepted {c["bad"]}: {d.name}')
        return
    a, b = datum(ellipsoid=c['name'], units='MKS'), datum(ellipsoid=c['name'], units='CGS')
    dims = dict(a_axis=100, b_axis=100, rad_e=100, rad_p=100, ecc=100, GM=1e6, gamma=100, gamma_a=100, gamma_b=100, U0=1e4, area=1e4, volume=1e6, rho_e=1e-3, omega=1, flat=1, m=1, f2=1, f4=1, q=1, q0=1, J2=1, C20=1, dk=1,
                ecc1=1, ecc2=1, ratio=1)
    for k, v in dims.items():
        x, y = float(getattr(a, k)), float(getattr(b, k))
        ctx.check(abs(x*v - y) <= 1e-7*abs(y), f'{k}: {x!r} and {y!r} in the two systems of units', key=k)
    ctx.nt(c['name'] != 'WGS84')


# ---- conversion between ellipsoids ----------------------------------------------------------------------
@st.composite
def axes(draw):
    if draw(st.booleans()):
        a, rf = TABLE[draw(st.sampled_from(sorted(TABLE)))][:2]
        return [a, 1/rf]
    return [draw(fl(6.374e6, 6.382e6)), 1/draw(fl(280, 320))]


@st.composite
def convert_case(draw):
    n = draw(st.integers(1, 6))
    return {'one': draw(axes()), 'two': draw(axes()), 'lat': draw(lists(mix(-90, 90, -90, -45, 0, 45, 90), n, n)), 'h': draw(lists(st.one_of(fl(-12000, 100000), st.sampled_from([0.0])), n, n)), 'kind': draw(st.sampled_from(['array', 'list', 'masked', 'int'])),
            'beyond': draw(st.sampled_from([False, False, False, True]))}


def place(lat, h, a, f):
    """meridian plane coordinates of a latitude and height"""
    b = a*(1 - f)
    c, s = np.cos(np.radians(lat)), np.sin(np.radians(lat))
    w = np.sqrt((a*c)**2 + (b*s)**2)
    return np.array([a*a*c/w + h*c, b*b*s/w + h*s])


def convert(c, ctx):
    lat, h = np.array(c['lat']), np.array(c['h'])
    if c['kind'] == 'int':
        lat, h = np.round(lat), np.round(h)
    (a1, f1), (a2, f2) = c['one'], c['two']
    given = lat.copy()
    if c['beyond']:
        # latitudes beyond the poles are those of the poles
        given[0] = 91.5 if lat[0] >= 0 else -100.0
        lat = np.clip(given, -90, 90)
    arg = {'array': (given, h), 'list': (list(map(float, given)), list(map(float, h))), 'masked': (np.ma.array(given), np.ma.array(h)), 'int': (given.astype(int), h.astype(int))}[c['kind']]
    if c['kind'] == 'int':
        lat = np.clip(given.astype(int), -90, 90).astype(float)
    keep = copy.deepcopy(arg)
    p2, h2 = S.convert_ellipsoid(*arg, a1, f1, a2, f2)
    ctx.check(all(np.array_equal(np.ma.getdata(x), np.ma.getdata(y)) for x, y in zip(keep, arg)), f'changed the caller\'s latitudes or heights: {arg} from {keep}', key='mutation')
    p2, h2 = np.asarray(p2, float), np.asarray(h2, float)
    ctx.check(p2.shape == lat.shape and h2.shape == lat.shape, 'shape')
    ctx.check(bool(np.all(np.abs(p2) <= 90)), f'latitude {p2}')
    d = np.hypot(*(place(p2, h2, a2, f2) - place(lat, h, a1, f1)))
    if np.any(~(d <= 2e-6)):
        i = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
        ctx.fail(f'({lat[i]}, {h[i]}) becomes ({p2[i]}, {h2[i]}), {d[i]} m away')
    q, g = S.convert_ellipsoid(p2, h2, a2, f2, a1, f1)
    ctx.close(q, lat, 'latitude and back', atol=4e-11)
    ctx.close(g, h, 'height and back', atol=4e-6)
    same_, _ = S.convert_ellipsoid(lat.copy(), h.copy(), a1, f1, a1, f1)
    ctx.close(same_, lat, 'same ellipsoid', atol=1e-11)
    # the simplified relation agrees to second order of the differences (per meter of axes)
    x0, z0 = place(lat, 0*h, a1, f1)
    _, dh = S.convert_ellipsoid(lat.copy(), 0*h, a1, f1, a2, f2)
    e = S.compute_delta_h(given, a1, f1, a2, f2)
    ctx.check(np.shape(e) == lat.shape, 'shape of the difference')
    s2 = np.sin(np.radians(lat))**2
    b1, b2 = a1*(1 - f1), a2*(1 - f2)
    ctx.close(e, -((a2 - a1)*(1 - s2) + (b2 - b1)*s2), 'delta_h', rtol=1e-12, atol=1e-9)
    size = max(abs(a2 - a1), abs(b2 - b1))
    ctx.close(e, dh, 'delta_h against the conversion', atol=1e-6 + size*0.02 + size**2/1e6)
    if len(lat) > 1:
        ctx.check(float(S.compute_delta_h(float(given[0]), a1, f1, a2, f2)) == float(e[0]), 'delta_h of a number')
    try:
        S.convert_ellipsoid(lat, h[:-1], a1, f1, a2, f2)
    except ValueError:
        pass
    else:
        ctx.fail('different numbers of latitudes and heights accepted')
    ctx.nt(bool(np.any((np.abs(lat) > 1e-6) & (np.abs(lat) < 89.9999))) and c['one'] != c['two'])
    ctx.label(c['kind'])


# ---- polar stereographic distortion -----------------------------------------------------------------------
@st.composite
def scale_case(draw):
    lat = mix(30, 90, 90, 70, 71, 60)
    n = draw(st.integers(1, 5))
    return {'lat': draw(lists(st.tuples(lat, st.booleans()).map(lambda t: -t[0] if t[1] else t[0]), n, n)), 'ref': draw(st.one_of(st.sampled_from([70.0, 71.0, -71.0, 60.0, 90.0, -90.0, None]), fl(50, 89))), 'rf': draw(st.sampled_from([None, 298.257223563, 297.0, 150.0])),
            'metric': draw(st.sampled_from(['area', 'distance', 'Area', None])), 'layout': draw(st.sampled_from(['array', 'number', 'column'])), 'alias': draw(st.integers(0, 9))}


def factor(lat, f, ref):
    """ratio of lengths on the map and on the ellipsoid: rho(lat)/(radius of the parallel), by isometric colatitude"""
    e = math.sqrt(f*(2 - f))

    def t(p):
        s = e*np.sin(p)
        # tan(pi/4 - p/2) without loss at the pole
        c = np.pi/2 - p
        return np.tan(c/2)*np.exp(e*np.arctanh(s))

    def r(p):
        return np.sin(np.pi/2 - p)/np.sqrt(1 - (e*np.sin(p))**2)
    p, q = np.abs(lat)*np.pi/180, abs(ref)*np.pi/180
    near = np.abs(p - np.pi/2) < 1e-7
    pole = 0.5*math.sqrt((1 + e)**(1 + e)*(1 - e)**(1 - e))  # t/r at the pole
    tr = np.where(near, pole, t(np.where(near, 0.5, p))/r(np.where(near, 0.5, p)))
    trq = pole if abs(q - np.pi/2) < 1e-7 else t(q)/r(q)
    return tr/trq


def scale(c, ctx):
    lat = np.array(c['lat'])
    kw = {}
    f = 1/298.257223563
    ref = 70.0
    if c['rf'] is not None:
        f = kw['flat'] = 1/c['rf']
    if c['ref'] is not None:
        ref = kw['reference_latitude'] = c['ref']
    if c['metric'] is not None:
        kw['metric'] = c['metric']
    arg = {'array': lat, 'number': float(lat[0]), 'column': lat[:, None]}[c['layout']]
    keep = copy.deepcopy(arg)
    fn = S.scale_areas if c['alias'] == 0 else S.scale_factors
    got = fn(arg, **kw)
    ctx.check(np.array_equal(keep, arg), 'latitudes changed')
    ctx.check(np.shape(got) == np.shape(arg), f'shape {np.shape(got)}')
    used = lat[:1] if c['layout'] == 'number' else lat
    k = factor(used, f, ref)
    power = 1 if (c['metric'] or 'area').lower() == 'distance' else 2
    near = np.abs(np.abs(used) - 90) < 1e-3
    g = np.ravel(np.asarray(got, float))
    ctx.close(g[~near], (1/k**power)[~near], 'scale factor', rtol=1e-9)
    ctx.close(g[near], (1/k**power)[near], 'scale factor at the pole', rtol=2e-9)
    # true scale at the reference latitude
    ctx.close(float(S.scale_factors(ref, **kw)), 1.0, 'scale at the latitude of true scale', atol=1e-9)
    try:
        S.scale_factors(arg, metric='volume')
    except Exception:
        pass
    else:
        ctx.fail('unknown metric accepted')
    ctx.nt(bool(np.any(np.abs(np.abs(used) - 90) > 1e-3)))
    ctx.label(f'{power}')


# ---- angles ------------------------------------------------------------------------------------------------
@st.composite
def angle_case(draw):
    n = draw(st.integers(1, 6))
    return {'d': draw(lists(st.one_of(mix(-720, 720, -180, -90, -1, 0, 1, 90, 180, 360, 540), fl(-1, 1), st.integers(-43200, 43200).map(lambda i: i/60), st.integers(-3600*3, 3600*3).map(lambda i: i/3600)), n, n)), 'scalar': draw(st.booleans()),
            'dms': draw(lists(st.tuples(st.integers(-180, 180), st.integers(0, 59), fl(0, 59.999)).map(list), 1, 4))}


def angles(c, ctx):
    d = np.array(c['d'])
    arg = float(d[0]) if c['scalar'] else d.copy()
    used = d[:1] if c['scalar'] else d
    deg, mi, se = S.to_dms(arg)
    ctx.check(np.array_equal(np.asarray(arg), d[0] if c['scalar'] else d), 'argument changed')
    deg, mi, se = (np.ravel(np.asarray(v, float)) for v in (deg, mi, se))
    ctx.check(bool(np.all((mi >= 0) & (mi < 60) & (se >= 0) & (se < 60) & (mi == np.floor(mi)) & (deg == np.trunc(deg)))), f'{deg} {mi} {se} from {used}')
    ctx.check(bool(np.all((np.sign(deg) == np.sign(used)) | (deg == 0))), 'sign of the degrees')
    ctx.close(np.abs(deg) + mi/60 + se/3600, np.abs(used), 'degrees, minutes and seconds', atol=1e-12)
    back = S.from_dms(*S.to_dms(arg))
    ctx.check(np.shape(back) == np.shape(arg), 'shape')
    ctx.close(np.ravel(back), used, 'degrees after the round trip', atol=1e-12)
    t = np.array(c['dms'], dtype=float)
    v = np.ravel(S.from_dms(t[:, 0], t[:, 1], t[:, 2]))
    want = np.array([(-1 if x < 0 else 1)*(abs(x) + y/60 + z/3600) for x, y, z in c['dms']])
    ctx.close(v, want, 'degrees of degrees, minutes and seconds', atol=1e-12)
    p = t[0]
    ctx.close(float(S.from_dms(float(p[0]), float(p[1]), float(p[2]))), want[0], 'degrees of numbers', atol=1e-12)
    w = S.wrap_longitudes(arg)
    ctx.check(np.shape(w) == np.shape(arg), 'shape of wrapped longitudes')
    w = np.ravel(np.asarray(w, float))
    ctx.check(bool(np.all((w >= -180) & (w <= 180))), f'wrapped {w}')
    diff = (w - used + 180) % 360 - 180
    ctx.close(diff, np.zeros(len(used)), 'wrapped longitude modulo 360', atol=1e-10)
    ctx.nt(bool(np.any(used < 0)) or bool(np.any(np.abs(used) > 180)))


BAD = [None, None, None, dict(ellipsoid='nonesuch'), dict(units='SI'), dict(ellipsoid=''), dict(ellipsoid='WGS 84'), dict(ellipsoid='WGS84', units='')]
SUBS = [Sub('datum', datum_case(), parameters, 500, 8000), Sub('units', st.fixed_dictionaries({'name': st.sampled_from(sorted(TABLE)), 'bad': st.sampled_from(BAD)}), tables, 60, 120),
        Sub('convert', convert_case(), convert, 500, 10000), Sub('scale', scale_case(), scale, 500, 8000), Sub('angles', angle_case(), angles, 700, 10000)]
SUBS.append(large.sub(['ellipsoid', 'delta', 'scale']))
SUBS.append(large.pure(['ellipsoid', 'delta', 'scale']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
