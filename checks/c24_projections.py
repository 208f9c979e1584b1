"""C24: conversions to and from model coordinates equal the documented map projections (closed formulas) and invert each other."""
import _boot
from harness import *
from gen import *
import large
import pyproj
import copy
import math
import pyTMD
import pyTMD.crs
import pyTMD.io

PROPERTY = 'C24'
RULE = ('Points, layouts and projections (those of every projected or geographic model of the database, EPSG codes as numbers and strings, generated definitions) '
        'against closed formulas of Snyder (1987); non-trivial when the points differ and at least one lies off the projection centre and off its central meridian.')
ASSUMPTIONS = ['the definitions of the model families are those published: polar stereographic on WGS84 (true at 71S about 70W for CATS2008, at 70N about 45W for '
               'Arc2kmTM and Gr1km), x = (90-lat)*111.7 km*cos(lon), y = (90-lat)*111.7 km*sin(lon) for AOTIM-5, AODTM-5 and AOTIM-5-2018, longitude and latitude otherwise',
               'points of polar projections lie within 60 degrees of the pole', 'longitudes are compared modulo 360 and not at the pole',
               'forward formulas to 1e-9 of the earth radius, round trips to 1e-9 degrees']

A, RF = 6378137.0, 298.257223563
ECC = math.sqrt((2.0 - 1.0/RF)/RF)
RATM = 6399938.5716113


def stere(lon, lat, lat_ts, lon_0, unit, south):
    """Snyder (1987) equations 15-9, 14-15, 21-33 and 21-34: ellipsoidal polar stereographic"""
    lon, lat = np.radians(lon), np.radians(lat)
    s = -1.0 if south else 1.0
    phi, ts = s*lat, math.radians(abs(lat_ts))
    dl = lon - math.radians(lon_0)

    def t(p):
        e = ECC*np.sin(p)
        return np.tan(math.pi/4 - p/2)/((1 - e)/(1 + e))**(ECC/2)
    if abs(lat_ts) == 90:
        rho = 2*A*t(phi)/math.sqrt((1 + ECC)**(1 + ECC)*(1 - ECC)**(1 - ECC))
    else:
        m = math.cos(ts)/math.sqrt(1 - (ECC*math.sin(ts))**2)
        rho = A*m*t(phi)/t(ts)
    return rho*np.sin(dl)/unit, -s*rho*np.cos(dl)/unit


def aeqd(lon, lat, R, lon_0, unit):
    """spherical azimuthal equidistant projection centred on the north pole"""
    rho = R*np.radians(90.0 - lat)
    dl = np.radians(lon - lon_0)
    return rho*np.sin(dl)/unit, -rho*np.cos(dl)/unit


def geographic(lon, lat):
    return np.array(lon, dtype=float), np.array(lat, dtype=float)


KNOWN = {'CATS2008': lambda o, a: stere(o, a, -71, -70, 1e3, True),
         'arctic': lambda o, a: stere(o, a, 70, -45, 1e3, False),
         'AOTIM': lambda o, a: (111.7*(90 - a)*np.cos(np.radians(o)), 111.7*(90 - a)*np.sin(np.radians(o))),
         'geographic': geographic}
DB = pyTMD.io.load_database()
MODELS = {}
for _kind in ('elevation', 'current'):
    for _name in DB[_kind]:
        if _name in ('CATS2008', 'CATS2008_load', 'CATS2008-v2023'):
            MODELS[_kind, _name] = 'CATS2008'
        elif _name in ('Arc2kmTM', 'Gr1kmTM', 'Gr1km-v2'):
            MODELS[_kind, _name] = 'arctic'
        elif _name in ('AOTIM-5', 'AODTM-5', 'AOTIM-5-2018'):
            MODELS[_kind, _name] = 'AOTIM'
        elif DB[_kind][_name].get('format') in ('OTIS', 'ATLAS-compact', 'ATLAS-netcdf', 'TMD3'):
            MODELS[_kind, _name] = 'geographic'
EPSG = {3031: lambda o, a: stere(o, a, -71, 0, 1, True), 3413: lambda o, a: stere(o, a, 70, -45, 1, False), 3976: lambda o, a: stere(o, a, -70, 0, 1, True),
        3995: lambda o, a: stere(o, a, 71, 0, 1, False), 4326: geographic}
SOUTH = {3031: True, 3976: True, 3413: False, 3995: False, 4326: None}


@st.composite
def points(draw, hemi, n=None):
    """lists of longitude and latitude"""
    k = n or draw(st.integers(1, 6))
    lon = draw(lists(mix(-360, 360, -180, 0, 90, 180, 270), k, k))
    if hemi is None:
        lat = draw(lists(mix(-90, 90, -90, 0, 90), k, k))
    else:
        c = draw(lists(mix(0, 60, 0, 19, 20), k, k))
        lat = [(c_ - 90.0 if hemi else 90.0 - c_) for c_ in c]
    return [lon, lat]


LAYOUTS = ['array', 'column', 'list', 'scalar', 'grid', 'np0']


@st.composite
def model_case(draw):
    key = draw(st.sampled_from(['CATS2008', 'arctic', 'AOTIM', 'geographic']))
    kind, name = draw(st.sampled_from(sorted(k for k in MODELS if MODELS[k] == key)))
    hemi = {'CATS2008': True, 'arctic': False, 'AOTIM': False, 'geographic': None}[key]
    return {'kind': kind, 'name': name, 'points': draw(points(hemi)), 'layout': draw(st.sampled_from(LAYOUTS)),
            'F': draw(st.sampled_from(['F', 'f', 'forward', 'Forwards'])), 'B': draw(st.sampled_from(['B', 'b', 'backward', 'Back']))}


@st.composite
def dict_case(draw):
    which = draw(st.sampled_from(['stere', 'stere', 'aeqd', 'epsg']))
    if which == 'epsg':
        code = draw(st.sampled_from(sorted(EPSG)))
        return {'proj': 'epsg', 'code': code, 'form': draw(st.sampled_from(['int', 'str', 'EPSG:', 'epsg:'])), 'points': draw(points(SOUTH[code])),
                'layout': draw(st.sampled_from(LAYOUTS)), 'F': 'F', 'B': 'B'}
    south = draw(st.booleans()) if which == 'stere' else False
    c = {'proj': which, 'south': south, 'lon_0': draw(st.one_of(st.integers(-180, 270), fl(-180, 180))), 'units': draw(st.sampled_from(['km', 'm'])),
         'form': draw(st.sampled_from(['dict', 'dict', 'string'])), 'points': draw(points(south)), 'layout': draw(st.sampled_from(LAYOUTS)), 'F': 'F', 'B': 'B'}
    if which == 'stere':
        c['lat_ts'] = draw(st.sampled_from([60, 70, 71, 75.5, 90]))*(-1 if south else 1)
    else:
        c['R'] = draw(st.sampled_from([RATM, 6371000.0, 6378137.0]))
    return c


def definition(c):
    """projection as given to the library, and its formula"""
    unit = 1e3 if c.get('units') == 'km' else 1.0
    if c['proj'] == 'epsg':
        code = c['code']
        return {'int': code, 'str': str(code), 'EPSG:': f'EPSG:{code}', 'epsg:': f'epsg:{code}'}[c['form']], EPSG[code]
    d = {'proj': c['proj'], 'lat_0': -90 if c['south'] else 90, 'lon_0': c['lon_0'], 'x_0': 0, 'y_0': 0, 'units': c['units'], 'type': 'crs'}
    if c['proj'] == 'stere':
        d.update(lat_ts=c['lat_ts'], datum='WGS84')
        f = lambda o, a: stere(o, a, c['lat_ts'], c['lon_0'], unit, c['south'])
    else:
        d.update(R=c['R'])
        f = lambda o, a: aeqd(o, a, c['R'], c['lon_0'], unit)
    if c['form'] == 'string':
        return ' '.join(f'+{k}={v!r}'.replace("'", '') for k, v in d.items()) + ' +no_defs', f
    return d, f


def layout(v, how):
    a = np.array(v, dtype=float)
    if how == 'list':
        return list(map(float, v))
    if how == 'scalar':
        return float(v[0])
    if how == 'np0':
        return np.float64(v[0])
    if how == 'column':
        return a[:, None]
    if how == 'grid':
        return np.stack([a, a[::-1]])
    return a


def flat(v, how):
    a = np.array(v, dtype=float)
    if how in ('scalar', 'np0'):
        return a[:1]
    return np.concatenate([a, a[::-1]]) if how == 'grid' else a


def wrap(d):
    return (np.asarray(d, dtype=float) + 180.0) % 360.0 - 180.0


def examine(proj, formula, c, ctx, epsg=None):
    lon, lat = c['points']
    o, a = layout(lon, c['layout']), layout(lat, c['layout'])
    keep = copy.deepcopy((o, a, proj))
    kw = {} if epsg is None else {'EPSG': epsg}
    x, y = pyTMD.crs().convert(o, a, proj, c['F'], **kw)
    ctx.check(repr(keep) == repr((o, a, proj)), 'the caller\'s coordinates or projection changed')
    for v in (x, y):
        ctx.check(np.shape(v) == np.shape(o), f'shape {np.shape(v)} from {np.shape(o)}')
        if c['layout'] == 'scalar':
            ctx.check(np.ndim(v) == 0, f'{type(v)} from a number')
    fo, fa = flat(lon, c['layout']), flat(lat, c['layout'])
    wx, wy = formula(fo, fa)
    size = 1.0 if formula is geographic else float(np.max(np.hypot(wx, wy)) + 1e-9)
    unit = 1e-9*6.4e6/(1e3 if size < 3e4 else 1.0) if formula is not geographic else 1e-9
    gx, gy = np.ravel(x).astype(float), np.ravel(y).astype(float)
    if formula is geographic:
        ctx.close(wrap(gx - wx), np.zeros(len(fo)), 'longitude', atol=1e-9)
    else:
        ctx.close(gx, wx, 'easting', rtol=1e-9, atol=1e-2*unit)
    ctx.close(gy, wy, 'northing', rtol=1e-9, atol=1e-2*unit)
    # one point at a time
    for i in range(len(fo)):
        px, py = pyTMD.crs().convert(float(fo[i]), float(fa[i]), proj, c['F'], **kw)
        ctx.close([px, py], [gx[i], gy[i]], 'single point', rtol=1e-14, atol=1e-15)
    # back again
    bo, ba = pyTMD.crs().convert(x, y, proj, c['B'], **kw)
    ctx.check(np.shape(bo) == np.shape(o) and np.shape(ba) == np.shape(a), 'shape of the inverse')
    ctx.close(np.ravel(ba), fa, 'latitude after the round trip', atol=1e-9)
    off = np.abs(np.abs(fa) - 90) > 1e-6
    ctx.close((wrap(np.ravel(bo) - fo)*np.cos(np.radians(fa)))[off], np.zeros(int(off.sum())), 'longitude after the round trip', atol=1e-9)
    # backward conversion of the coordinates given by the formula
    bo, ba = pyTMD.crs().convert(wx, wy, proj, c['B'], **kw)
    ctx.close(ba, fa, 'inverse latitude', atol=1e-9)
    ctx.close((wrap(bo - fo)*np.cos(np.radians(fa)))[off], np.zeros(int(off.sum())), 'inverse longitude', atol=1e-9)
    ctx.nt(len(set(fo)) > 1 and bool(np.any(off & (np.abs(fo) % 90 > 1e-3))))
    ctx.label(c['layout'])


def models(c, ctx):
    key = MODELS[c['kind'], c['name']]
    m = pyTMD.io.model(ctx.tmp, verify=False)
    m = getattr(m, c['kind'])(c['name'])
    ctx.check(m.format in ('OTIS', 'ATLAS-compact', 'ATLAS-netcdf', 'TMD3'), m.format)
    if m.projection is None and m.format == 'ATLAS-netcdf':
        # the projection is only used for (and required of) the OTIS family
        return ctx.skip()
    ctx.check(m.projection is not None, 'no projection')
    want = key == 'geographic'
    ctx.check(bool(pyTMD.crs().get(m.projection).is_geographic) == want, 'geographic or projected')
    ctx.label(key)
    examine(m.projection, KNOWN[key], c, ctx)


def definitions(c, ctx):
    proj, f = definition(c)
    ctx.label(c['proj'])
    examine(proj, f, c, ctx)
    geo = pyTMD.crs().get(proj).is_geographic
    ctx.check(bool(geo) == (c['proj'] == 'epsg' and c['code'] == 4326), f'is_geographic {geo}')


@st.composite
def via_case(draw):
    south = draw(st.booleans())
    code = draw(st.sampled_from([k for k in SOUTH if SOUTH[k] is south]))
    name = draw(st.sampled_from(['CATS2008'] if south else ['arctic', 'AOTIM']))
    return {'epsg': code, 'as': draw(st.sampled_from(['int', 'str', 'EPSG:'])), 'model': name, 'points': draw(points(south)), 'reuse': draw(st.booleans())}


PROJ = {'CATS2008': ('elevation', 'CATS2008'), 'arctic': ('elevation', 'Gr1km-v2'), 'AOTIM': ('elevation', 'AOTIM-5')}


def via(c, ctx):
    """input and output coordinates in another reference system than longitude and latitude"""
    kind, name = PROJ[c['model']]
    proj = getattr(pyTMD.io.model(ctx.tmp, verify=False), kind)(name).projection
    lon, lat = (np.array(v) for v in c['points'])
    code = {'int': c['epsg'], 'str': str(c['epsg']), 'EPSG:': f"EPSG:{c['epsg']}"}[c['as']]
    px, py = EPSG[c['epsg']](lon, lat)
    wx, wy = KNOWN[c['model']](lon, lat)
    crs = pyTMD.crs()
    x, y = crs.convert(px, py, proj, 'F', EPSG=code)
    tol = 1e-5
    ctx.close(x, wx, 'easting from projected coordinates', atol=tol, rtol=1e-9)
    ctx.close(y, wy, 'northing from projected coordinates', atol=tol, rtol=1e-9)
    if not c['reuse']:
        crs = pyTMD.crs()
    bx, by = crs.convert(wx, wy, proj, 'B', EPSG=code)
    ctx.close(bx, px, 'projected easting', atol=1e-2, rtol=1e-9)
    ctx.close(by, py, 'projected northing', atol=1e-2, rtol=1e-9)
    # the object keeps nothing of the previous conversion
    x, y = crs.convert(lon, lat, proj, 'F')
    ctx.close(x, wx, 'easting of a used object', atol=tol, rtol=1e-9)
    ctx.close(y, wy, 'northing of a used object', atol=tol, rtol=1e-9)
    # two step interface
    two = pyTMD.crs().get(proj)
    x, y = two.transform(lon, lat)
    ctx.close(x, wx, 'easting (get, transform)', atol=tol, rtol=1e-9)
    x, y = two.transform(wx, wy, direction='INVERSE')
    ctx.close(y, lat, 'latitude (get, inverse transform)', atol=1e-8)
    x, y = two.transform(px, py, EPSG=code)
    ctx.close(y, wy, 'northing (get, transform, EPSG)', atol=tol, rtol=1e-9)
    ctx.nt(len(lon) > 1)
    ctx.label(c['model'])


BAD = ['', 'CATS2008x', 'PSNorth', 'EPSG:999999', 999999, -1, {'proj': 'nonesuch'}, {'lat_0': 90}, 'not a projection', None, 3.5e9]


@st.composite
def bad_case(draw):
    return {'what': draw(st.sampled_from(['projection', 'direction', 'epsg'])), 'bad': draw(st.sampled_from(range(len(BAD)))),
            'direction': draw(st.one_of(st.sampled_from(['X', 'inverse', 'q', 'reverse', '1', ' ']), st.text(min_size=1, max_size=4).filter(lambda s: s[0].upper() not in 'FB'))),
            'points': draw(points(True))}


def refused(c, ctx):
    lon, lat = (np.array(v) for v in c['points'])
    good = {'proj': 'stere', 'lat_0': -90, 'lat_ts': -71, 'lon_0': -70, 'units': 'km', 'datum': 'WGS84', 'type': 'crs'}
    try:
        if c['what'] == 'projection':
            try:
                out = pyTMD.crs().from_input(BAD[c['bad']])
            except Exception:
                out = pyTMD.crs().convert(lon, lat, BAD[c['bad']], 'F')
        elif c['what'] == 'epsg':
            out = pyTMD.crs().convert(lon, lat, good, 'F', EPSG=BAD[c['bad']])
        else:
            out = pyTMD.crs().convert(lon, lat, good, c['direction'])
    except Exception as e:
        ctx.nt(True)
        ctx.label(c['what'])
        return
    ctx.fail(f"accepted {c['what']} {BAD[c['bad']] if c['what'] != 'direction' else c['direction']!r}: {out}", key='accepted:' + c['what'])


SUBS = [Sub('models', model_case(), models, 350, 6000, tmp=True), Sub('definitions', dict_case(), definitions, 350, 6000),
        Sub('other', via_case(), via, 200, 3000, tmp=True), Sub('refused', bad_case(), refused, 150, 1500)]
SUBS.append(large.sub(['crs']))


# ---- unknown reference systems --------------------------------------------------------------------
def unknown(case, ctx):
    """a reference system that does not exist is an error of reference systems"""
    p, where = case['proj'], case['where']
    ctx.nt()
    ctx.label(where)
    try:
        if where == 'get':
            pyTMD.crs().get(p)
        elif where == 'input' and not isinstance(p, dict):
            pyTMD.crs().from_input(p)
        elif where == 'epsg' and not isinstance(p, dict):
            pyTMD.crs().convert(np.array([1.0]), np.array([2.0]), 3031, case['BF'], EPSG=p)
        else:
            pyTMD.crs().convert(np.array([1.0]), np.array([2.0]), p, case['BF'])
    except pyproj.exceptions.CRSError:
        return
    ctx.fail(f'the projection {p!r} is accepted')


SUBS.append(Sub('unknown', st.fixed_dictionaries(dict(proj=st.one_of(st.sampled_from(['', 'xyz', 'EPSG:999999', '999999', 999999, 0, -1, '+proj=nothing', 'CATS9999', {'proj': 'nothing'}]), st.integers(200000, 900000)),
                where=st.sampled_from(['get', 'input', 'epsg', 'convert']), BF=st.sampled_from(['F', 'B', 'forward', 'backward']))), unknown, 60, 400))
SUBS.append(large.pure(['crs']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
