"""C14: tides of a model on disk are its constants at the points, predicted by the model's convention, with fill where it is not valid."""
import _boot
from harness import *
from gen import *
import large
import models as M
import predref as P
import json, pathlib, re
import pyTMD.compute, pyTMD.io.model
import timescale.time

PROPERTY = 'C14'
RULE = ('Synthetic models of every format, and synthetic files at the places named by the model database, are written to disk and asked for elevations '
        'and currents at generated points, times and options; non-trivial when at least one value is valid.')
ASSUMPTIONS = ['the time scale (UT1 days, TT-UT1) is that of the timescale package', 'the reference interpolation of lib/models.py and the reference '
               'prediction of lib/predref.py', 'a point on the edge of the domain up to round-off may be valid or not',
               'cropping bounds enclose the points and the buffer is at least one cell', 'inference of minor constituents is compared in single precision']
METHODS = ['spline', 'bilinear', 'linear', 'nearest']
TYPES = ['drift', 'grid', 'time series']
CORR = dict(OTIS='OTIS', TMD3='TMD3', **{'ATLAS-netcdf': 'ATLAS', 'ATLAS-compact': 'ATLAS', 'GOT-ascii': 'perth3', 'GOT-netcdf': 'GOT',
            'FES-ascii': 'FES', 'FES-netcdf': 'FES'})
OTHERS = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'GOT', 'perth3']
MAJOR = P.SHORT + ['mm', 'mf']


def node(lat):
    """self-consistent equilibrium of the nodal tide: complex amplitude"""
    p = 0.5*(3*np.sin(np.radians(lat))**2 - 1)
    return -0.027929*(1 + 0.299 - 0.606)*np.sqrt(5/(4*np.pi))*p


@st.composite
def layout(draw, npos):
    """kind of output, and its times"""
    TYPE = draw(st.sampled_from(TYPES))
    n = npos if TYPE == 'drift' else draw(st.integers(1, 3))
    t = draw(lists(st.one_of(fl(-5e8, 2.4e8), st.integers(-6000, 2700).map(lambda d: 86400.0*d)), n, n))
    return dict(TYPE=TYPE, t=t, shape=draw(st.sampled_from(['row', 'column', 'flat'])), auto=draw(st.booleans()))


@st.composite
def values_case(draw):
    kind = draw(st.sampled_from(['major', 'major', 'few', 'any']))
    s = draw(M.specs(maxcons=3 if kind != 'any' else 6))
    if kind == 'major':
        drop = draw(st.lists(st.sampled_from(MAJOR), max_size=4, unique=True))
        s['cons'] = [c for c in MAJOR if c not in drop] + [c for c in s['cons'] if c not in MAJOR]
        if draw(st.booleans()):
            s['cons'] = list(draw(st.permutations(s['cons'])))
    var = draw(st.sampled_from(['z', 'z', 'z', 'uv']))
    if s['fmt'].startswith('GOT') or s['fmt'] in ('EOT20', 'FES-ascii'):
        var = 'z'
    pos = draw(M.positions(4))
    o = dict(spec=s, var=var, pos=pos, method=draw(st.sampled_from(METHODS)), layout=draw(layout(len(pos))), minor=draw(st.booleans()),
             sub=draw(st.one_of(st.none(), st.lists(st.sampled_from(sorted(P.RATIO)+['mtm', 'ssa', 'sa', 'node', 'mt']), min_size=1, max_size=4, unique=True))),
             own=draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(sorted(P.RATIO)+['mtm', 'ssa', 'sa', 'node', 'mt']), min_size=1, max_size=4, unique=True))),
             corr=draw(st.one_of(st.none(), st.sampled_from(OTHERS))), flex=draw(st.booleans()), node=draw(st.booleans()),
             fill=draw(st.sampled_from(['nan', 'nan', '-9999', '0', '1e30'])), crop=draw(st.sampled_from(['no', 'no', 'yes', 'bounds'])),
             pad=draw(lists(fl(0, 30), 4, 4)), buffer=draw(st.sampled_from([1.0, 1.5, 3.0])), extra=draw(st.sampled_from(['no', 'no', 'some', 'inf'])),
             cutoff=draw(fl(0.0, 3000.0)), scale=draw(st.sampled_from([None, None, 0.01, 0.001, 1.0, 1e-4])), std=draw(st.sampled_from(['UTC', 'UTC', 'datetime'])))
    return o


def reference(ctx, m, d, v, px, py, lat, ts, TYPE, o, corr):
    """expected values, the magnitudes summed, and which are decided valid (1), invalid (0) or left open (-1)"""
    W, S, D = M.want(m, d, v, px, py, o['method'], flex=o['flex'] and m.fmt == 'TMD3' and v == 'z')
    W = W*(1.0 if v == 'z' else 1.0)
    names = list(m.cons)
    if o['node'] and v == 'z' and 'node' not in names:
        names.append('node')
        W = np.concatenate((W, node(lat)[:, None]), axis=1)
        S = np.concatenate((S, np.ones((len(lat), 1), int)), axis=1)
    status = np.where((S == 0).any(axis=1), 0, np.where((S == 1).all(axis=1), 1, -1))
    dt = np.zeros_like(ts.tt_ut1) if corr in ('OTIS', 'ATLAS', 'TMD3', 'netcdf') else ts.tt_ut1
    t = np.asarray(ts.tide)
    def at(ti, h, dti):
        out = P.height(ti, h, names, corr, dti)
        size = 1.7*np.abs(h).sum(axis=-1)*np.ones_like(out)
        small = 0.0*out
        if o['minor']:
            mi, sc, used = P.inferred(ti, h, names, corr, dti, o['sub'])
            out, size, small = out + mi, size + sc, small + sc
        return out, size, small
    if TYPE == 'drift':
        val, size, small = at(t, W, dt)
        return val, size, small, status
    cols = [at(t, W[p], dt) for p in range(len(lat))]
    val, size, small = (np.array([c[k] for c in cols]) for k in range(3))
    return val, size, small, np.repeat(status[:, None], len(t), axis=1)


def judge(ctx, got, val, size, small, S, fill, what, proj, only_valid=False):
    ctx.check(isinstance(got, np.ma.MaskedArray), f'{what}: not a masked array')
    ctx.check(got.shape == val.shape, f'{what}: shape {got.shape} expected {val.shape}')
    mk, g = np.ma.getmaskarray(got), np.ma.getdata(got)
    if np.any((S == 1) & mk):
        ctx.fail(f'{what}: fill where the model is valid, at {np.argwhere((S == 1) & mk)[0].tolist()}')
    if not only_valid and np.any((S == 0) & ~mk):
        i = np.argwhere((S == 0) & ~mk)[0]
        ctx.fail(f'{what}: value {g[tuple(i)]!r} where the model is not valid, at {i.tolist()}')
    w = mk & ~((g == fill) | (np.isnan(g) if np.isnan(fill) else False))
    if w.any():
        ctx.fail(f'{what}: masked value is {g[w][0]!r}, not the fill value {fill}')
    if not (got.fill_value == fill or (np.isnan(fill) and np.isnan(got.fill_value))):
        ctx.fail(f'{what}: fill_value {got.fill_value!r} expected {fill}')
    ok = S == 1
    tol = (3e-5 if proj else 4e-6)*size + 1e-5*small + 1e-8
    bad = ok & ~(np.abs(g - val) <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.fail(f'{what}: {g[i]!r} expected {val[i]!r} at {list(map(int, i))}')


def shaped(TYPE, lay, lon, lat):
    n = len(lon)
    if TYPE != 'grid':
        return lon, lat, (n,)
    if lay['shape'] == 'row':
        return lon.reshape(1, n), lat.reshape(1, n), (1, n)
    if lay['shape'] == 'column':
        return lon.reshape(n, 1), lat.reshape(n, 1), (n, 1)
    return lon, lat, (1, n)


def times(o, lay):
    t = np.array(lay['t'])
    if o.get('std') == 'datetime':
        t = np.datetime64('2000-01-01T00:00:00', 'ms') + np.round(t*1000).astype('timedelta64[ms]')
        return t, 'datetime', timescale.time.Timescale().from_datetime(t)
    return t, 'UTC', timescale.time.Timescale().from_deltatime(t, epoch=(2000, 1, 1, 0, 0, 0), standard='UTC')


def ask(ctx, o, lay, m, d, where, px, py, corr, inside, extra=None):
    """run the library and judge every component asked for"""
    lon, lat = m.lonlat(px, py)
    t, std, ts = times(o, lay)
    TYPE = lay['TYPE']
    x, y, sh = shaped(TYPE, lay, lon, lat)
    fill = float(o['fill'])
    kw = dict(where, TYPE=TYPE, TIME=std, METHOD=o['method'], INFER_MINOR=o['minor'], FILL_VALUE=fill, **(extra or {}))
    if o['sub'] is not None:
        kw['MINOR_CONSTITUENTS'] = o['sub']
    if o['corr'] is not None:
        kw['CORRECTIONS'] = o['corr']
    if o['var'] == 'z':
        kw.update(APPEND_NODE=o['node'], APPLY_FLEXURE=o['flex'])
        got = dict(z=pyTMD.compute.tide_elevations(x, y, t, **kw))
    else:
        got = pyTMD.compute.tide_currents(x, y, t, **kw)
        ctx.check(sorted(got) == ['u', 'v'], f'components {sorted(got)}')
    valid = False
    for v, g in got.items():
        # constituents asked for, or those that the model lists
        a = dict(o, sub=o['sub'] or o.get('own'))
        val, size, small, S = reference(ctx, m, d, v, px, py, lat, ts, TYPE, a, corr)
        if inside is not None:
            S = np.where(inside if S.ndim == 1 else inside[:, None], S, -1)
        if TYPE == 'grid':
            val, size, small, S = (q.reshape(sh + q.shape[1:]) for q in (val, size, small, S))
        judge(ctx, g, val, size, small, S, fill, f'{v} {TYPE}', m.spec['proj'], only_valid=bool(kw.get('EXTRAPOLATE')))
        valid = valid or bool((S == 1).any())
    ctx.nt(valid)
    return valid


def f_values(o, ctx):
    s = o['spec']
    m = M.Model(s)
    var = o['var']
    d = M.write(m, ctx.tmp, 'z' if var == 'z' else 'uv', o['scale'])
    v0 = 'z' if var == 'z' else 'u'
    px, py = M.locate(m, o['pos'], v0)
    lay = o['layout']
    corr = o['corr'] or CORR[d['format']]
    ctx.label(d['format'])
    extra, inside = {}, None
    if o['crop'] != 'no':
        # points in the domain of every component
        inside = np.ones(len(px), bool)
        for v in (['z'] if var == 'z' else ['u', 'v']):
            gx, gy = m.grid(v)[:2]
            inside &= (py >= gy[0]) & (py <= gy[-1])
            if not m.glob:
                q = px
                if s['proj'] is None:
                    q = np.where(q < gx[0], q+360.0, q); q = np.where(q > gx[-1], q-360.0, q)
                inside &= (q >= gx[0]) & (q <= gx[-1])
        if not inside.any():
            raise Skip('no point in the domain')
        if o['crop'] == 'yes' and m.dy > 2.5*m.dx or px[inside].max() - px[inside].min() > 420:
            raise Skip('buffer of fewer than two rows or bounds of more than one cycle')
        # all points are inside of the bounds: others are dropped
        k = np.flatnonzero(inside)
        px, py = px[k], py[k]
        if lay['TYPE'] == 'drift':
            lay = dict(lay, t=[lay['t'][i] for i in k])
        inside = None
        extra = dict(CROP=True)
        if o['crop'] == 'bounds':
            extra['BOUNDS'] = [px.min()-o['pad'][0], px.max()+o['pad'][1], py.min()-o['pad'][2], py.max()+o['pad'][3]]
            extra['BUFFER'] = float(o['buffer']*max(m.dx, m.dy)) + (0.5*max(m.dx, m.dy) if var != 'z' else 0.0)
    if o['extra'] != 'no':
        extra.update(EXTRAPOLATE=True, CUTOFF=np.inf if o['extra'] == 'inf' else o['cutoff'])
    own = {} if o['own'] is None else dict(minor=o['own'])
    ask(ctx, o, lay, m, d, dict(DEFINITION_FILE=M.definition(d, ctx.tmp + '/def.json', **own)), px, py, corr, inside, extra)


# ---- models of the database ------------------------------------------------------------------------
DB = json.load(open(pathlib.Path(pyTMD.__file__).parent/'data'/'database.json'))
LATER = {'2n': '2n2', 'e2': 'eps2', 'la2': 'lambda2', 'sig1': 'sigma1'}


def token(name):
    """constituent in a file name of the database"""
    b = name.lower()
    for s in ('.nc', '.d'):
        b = b[:-len(s)] if b.endswith(s) else b
    if b.startswith('hamcurrent'):
        b = b.split('_')[-1]
    elif b.startswith('hf.'):
        b = b[3:].split('_')[0]
    elif re.match(r'[huv]_', b):
        b = b.split('_')[1]
    b = re.split(r'[_.]', b)[0]
    b = re.sub(r'(load|x)$', '', b)
    return LATER.get(b, b)


NAMED = [(k, n) for k in ('elevation', 'current') for n in DB[k] if DB[k][n]['format'] != 'ATLAS-compact']


@st.composite
def named_case(draw):
    kind, name = draw(st.sampled_from(NAMED))
    p = DB[kind][name]
    fmt = dict(OTIS='OTIS', TMD3='TMD3', **{'ATLAS-netcdf': 'ATLAS-netcdf', 'GOT-ascii': 'GOT-ascii', 'GOT-netcdf': 'GOT-netcdf'}).get(p['format']) or p['version']
    s = draw(M.specs(formats=[fmt], projected=False, names=['m2', 's2', 'k1', 'o1']))
    mf = p['model_file'] if kind == 'elevation' else p['model_file']['u']
    if isinstance(mf, list):
        s['cons'] = [token(pathlib.PurePosixPath(f).name) for f in mf]
    proj = p.get('projection')
    s['proj'] = None
    s['gz'] = draw(st.booleans()) and fmt not in ('OTIS', 'TMD3')
    pos = draw(M.positions(3))
    return dict(kind=kind, name=name, spec=s, var='z' if kind == 'elevation' else 'uv', pos=pos, method=draw(st.sampled_from(METHODS)),
                layout=draw(layout(len(pos))), minor=draw(st.booleans()), sub=None, corr=None, flex=False, node=draw(st.booleans()), fill='nan', std='UTC')


def put(m, p, folder, gz):
    """write the model at the places the database names"""
    folder = pathlib.Path(folder)
    fmt = p['format']
    def at(rel):
        q = folder/rel
        q.parent.mkdir(parents=True, exist_ok=True)
        return q
    uv = isinstance(p['model_file'], dict)
    if fmt == 'OTIS':
        M.otis_grid(at(p['grid_file']), m)
        w = M.otis_transport if uv else M.otis_elevation
        mf = p['model_file']['u'] if uv else p['model_file']
        if isinstance(mf, str):
            w(at(mf), m)
        else:
            for k, f in enumerate(mf):
                w(at(f), m, [k])
        return
    if fmt == 'TMD3':
        M.tmd3(at(p['grid_file']), m)
        return
    if fmt == 'ATLAS-netcdf':
        M.atlas_grid(at(p['grid_file']), m)
        M._gz(folder/p['grid_file'], gz)
    done = set()
    for v, mf in (p['model_file'].items() if uv else [('z', p['model_file'])]):
        for k, f in enumerate(mf):
            if f in done:
                continue
            q = at(f)
            if fmt == 'ATLAS-netcdf':
                M.atlas_cons(q, m, k, 'u' if uv else 'h')
            elif fmt == 'GOT-ascii':
                M.got_ascii(q, m, k)
            elif fmt == 'GOT-netcdf':
                M.netcdf_field(q, m, k, 'z', ('longitude', 'latitude', 'amplitude', 'phase', 'longitude', 'latitude'), False, fill=-999.0,
                               attrs=dict(Constituent=m.cons[k].upper()))
            elif p['version'] == 'HAMTIDE11' and uv:
                ham_uv(q, m, k)
            else:
                a, g = M.FES_NAMES[p['version']][v]
                ll = ('LON', 'LAT') if p['version'] == 'HAMTIDE11' else ('lon', 'lat')
                M.netcdf_field(q, m, k, v, (ll[0], ll[1], a, g, ll[0], ll[1]), False, fill=-999.0)
            M._gz(q, gz)
            done.add(f)


def ham_uv(q, m, k):
    """both components in one file"""
    import netCDF4
    with netCDF4.Dataset(q, 'w') as d:
        d.createDimension('LON', m.nx); d.createDimension('LAT', m.ny)
        d.createVariable('LON', 'f8', ('LON',))[:] = m.x
        d.createVariable('LAT', 'f8', ('LAT',))[:] = m.y
        for v in 'uv':
            for n, F in zip(M.FES_NAMES['HAMTIDE11'][v], (getattr(m, 'amp_'+v)[k], getattr(m, 'ph_'+v)[k])):
                x = d.createVariable(n, 'f8', ('LAT', 'LON'), fill_value=-999.0)
                x[:] = np.ma.array(F, mask=m.miss[k])


def f_named(o, ctx):
    p = DB[o['kind']][o['name']]
    s = dict(o['spec'], dup=False)
    if p.get('projection') and p['projection'] != 'EPSG:4326':
        # the projections themselves are the matter of C24: the grid is placed around a point of the region
        s = place(s, p['projection'])
    m = M.Model(s)
    ctx.label(o['name'] if False else p['format'])
    if p.get('projection') and p['projection'] != 'EPSG:4326':
        m.otis_proj = p['projection']
    folder = pathlib.Path(ctx.tmp)/'models'
    folder.mkdir()
    put(m, p, folder, s['gz'])
    px, py = M.locate(m, o['pos'], 'z' if o['var'] == 'z' else 'u')
    d = dict(format=p['format'], scale=p.get('scale', 1.0))
    if s['proj']:
        import pyTMD
        lonlat = pyTMD.crs().convert(px, py, p['projection'], 'B')
        m.lonlat = lambda a, b: (np.atleast_1d(lonlat[0]), np.atleast_1d(lonlat[1]))
    ask(ctx, o, o['layout'], m, d, dict(DIRECTORY=[str(folder), folder][s['seed'] % 2], MODEL=o['name'], GZIP=bool(s['gz'])), px, py, CORR[p['format']], None)


def place(s, projection):
    """a small grid near the middle of a polar projection"""
    s = dict(s, glob=False, proj='model', nx=max(3, min(s['nx'], 9)), dx=20.0, dy=20.0)
    s['x0'] = -20.0*(s['nx']-1) - 100.0*(s['seed'] % 9)
    s['y0'] = -20.0*(s['ny']-1) + 100.0*(s['seed'] % 7)
    return s


SUBS = [
    Sub('values', values_case(), f_values, 700, 9000, tmp=True, shards=6),
    Sub('named', named_case(), f_named, 90, 2500, tmp=True, shards=6),
]
SUBS.append(large.models('tides'))
SUBS.append(large.again('tides'))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
