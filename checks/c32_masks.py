"""C32: tide masks and the point check say where a model has values."""
import _boot
from harness import *
from gen import *
import large
import models as M
import pathlib, warnings
import pyproj
import pyTMD, pyTMD.compute, pyTMD.io.model
from c17_otis import Compact
import c14_model_tides as named

PROPERTY = 'C32'
RULE = ('Synthetic models of every format with land are written to disk and points inside, outside and at the nodes and edges are checked by every method, '
        'layout and coordinate system; non-trivial when both answers occur, or a valid point is given at another expression of its longitude.')
ASSUMPTIONS = ['a point on the edge of the domain or of a cell up to round-off may be valid or not, as may one equally near to two nodes (nearest)',
               'the points are compared with the first file of models with a file for each constituent']
METHODS = ['spline', 'bilinear', 'linear', 'nearest']


@st.composite
def mask_case(draw):
    s = draw(M.specs(maxcons=1, names=['m2', 's2', 'k1', 'mf']))
    s['land'] = draw(st.sampled_from([0.0, 0.3, 0.6, 0.9]))
    return dict(spec=s, pos=draw(M.positions(8)), method=draw(st.sampled_from(METHODS)), shape=draw(st.sampled_from(['flat', 'flat', 'row', 'column', 'grid', 'scalar'])),
                crs=draw(st.sampled_from(['4326', '4326', '3413', '3031', '3857'])), name=draw(st.sampled_from(['masks', 'masks', 'check', 'again'])),
                text=draw(st.booleans()))


def expected(m, px, py, method):
    """1 valid, 0 not, -1 undecided"""
    x, y, ok, hc, D = m.grid('z')
    out = np.zeros(len(px), int)
    for p, c in enumerate(m.corners('z', px, py)):
        if c is None:
            continue
        if c == 'edge':
            out[p] = -1
            continue
        if method == 'nearest':
            w = max(q[2] for q in c)
            best = [q for q in c if q[2] > w - 1e-6]
            out[p] = -1 if len(best) > 1 else int(ok[0][best[0][0], best[0][1]])
            continue
        v = [bool(ok[0][q[0], q[1]]) for q in c]
        sure = [o for o, q in zip(v, c) if q[2] >= 1e-7]
        out[p] = 1 if any(sure) else (0 if not any(v) else -1)
    return out


def f_mask(case, ctx):
    s = case['spec']
    m = M.Model(s)
    d = M.write(m, ctx.tmp, 'z')
    ctx.label(d['format'])
    px, py = M.locate(m, case['pos'])
    lon, lat = m.lonlat(px, py)
    E = expected(m, px, py, case['method'])
    x, y = lon, lat
    kw = dict(DEFINITION_FILE=M.definition(d, ctx.tmp + '/def.json'), METHOD=case['method'])
    if case['crs'] != '4326':
        n = case['crs']
        # the places within the region of the reference system
        k = (lat > 40) & (lat < 89.9) if n == '3413' else (lat < -40) & (lat > -89.9) if n == '3031' else (np.abs(lat) < 80)
        if not k.any():
            raise Skip('no point in the region')
        lon, lat, E, px, py = (q[k] for q in (lon, lat, E, px, py))
        x, y = pyproj.Transformer.from_crs(4326, int(n), always_xy=True).transform((lon+180)%360-180, lat)
        # back to degrees: points at nodes are left open, and the edges
        E2 = [expected(m, px + a*1e-7*m.dx, py + b*1e-7*m.dy, case['method']) for a in (-1, 1) for b in (-1, 1)]
        E = np.where(np.all([e == E for e in E2], axis=0), E, -1)
        kw['EPSG'] = n if case['text'] else int(n)
        if s['proj'] is None and (np.abs(np.abs(lon) - 180) < 1e-6).any():
            E[np.abs(np.abs(lon) - 180) < 1e-6] = -1
    elif case['text']:
        kw['EPSG'] = '4326'
    sh = case['shape']
    if sh == 'row':
        x, y, E = x[None, :], y[None, :], E[None, :]
    elif sh == 'column':
        x, y, E = x[:, None], y[:, None], E[:, None]
    elif sh == 'grid':
        k = len(x)//2*2
        if k == 0:
            raise Skip('one point')
        x, y, E = (q[:k].reshape(2, -1) for q in (x, y, E))
    elif sh == 'scalar':
        x, y, E = float(x[0]), float(y[0]), E[0]
    a = (np.copy(x), np.copy(y))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = pyTMD.compute.tide_masks if case['name'] != 'check' else pyTMD.check_points
        got = f(x, y, **kw)
    ctx.check(np.array_equal(a[0], x) and np.array_equal(a[1], y), 'the coordinates of the caller changed')
    ctx.check(np.shape(got) == np.shape(E), f'shape {np.shape(got)} for points of shape {np.shape(E)}')
    got = np.asarray(got).astype(bool)
    bad = ((E == 1) & ~got) | ((E == 0) & got)
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0]) if np.ndim(bad) else ()
        ctx.fail(f'{case["method"]}: {bool(got[i])} at {np.asarray(x)[i]!r}, {np.asarray(y)[i]!r}, expected {bool(E[i])}')
    ctx.nt(bool(np.any(E == 1) and np.any(E == 0)) or bool(np.any((E == 1) & got) and (np.any(lon < 0) or case['crs'] != '4326')))
    if case['name'] == 'again' and np.size(got) > 1:
        # a point alone, and the points in another order
        X, Y, G, EE = (np.ravel(q) for q in (x, y, got, E))
        one = np.asarray(pyTMD.compute.tide_masks(X[:1], Y[:1], **kw)).astype(bool)
        ctx.check(EE[0] == -1 or one[0] == G[0], f'{bool(one[0])} alone and {bool(G[0])} with other points')
        rev = np.asarray(pyTMD.compute.tide_masks(X[::-1], Y[::-1], **kw)).astype(bool)[::-1]
        ctx.check(bool(np.all((rev == G) | (EE == -1))), 'depends on the order of the points')


@st.composite
def compact_case(draw):
    nx, ny = draw(st.sampled_from([(12, 6), (8, 4), (20, 10)]))
    L = []
    for k in range(draw(st.integers(1, 2))):
        n = draw(st.integers(6, 30))
        L.append(dict(i0=draw(st.integers(10, 10700)), j0=draw(st.integers(100, 5300)), nx=n, ny=draw(st.integers(6, 30)), frac=draw(st.sampled_from([0.5, 1.0])),
                      cons=['m2'], name=f'local{k}'))
    return dict(nx=nx, ny=ny, seed=draw(st.integers(0, 999)), nob=0, cons=['m2'], loc=L, method=draw(st.sampled_from(['bilinear', 'linear', 'nearest'])),
                pts=draw(lists(st.tuples(fl(0.01, 0.99), fl(0.01, 0.99), st.booleans()).map(list), 6, 6)))


def f_compact(case, ctx):
    """where constants are given, and only there"""
    ctx.tmp = pathlib.Path(ctx.tmp)
    c = Compact(case)
    c.write(ctx.tmp)
    pts = np.array([[p[0], p[1]] for p in case['pts']])
    lon = 360*pts[:, 0] - np.where([p[2] for p in case['pts']], 360.0, 0.0)
    lat = -90 + 180*pts[:, 1]
    # half of them at the local solutions
    for k, L in enumerate(c.loc):
        lon[k::3] = (L['i0'] + L['nx']*pts[k::3, 0])/30
        lat[k::3] = -90 + (L['j0'] + L['ny']*pts[k::3, 1])/30
    d = dict(name='compact', format='ATLAS-compact', type='z', grid_file=str(ctx.tmp/'grid'), model_file=str(ctx.tmp/'h'), projection='EPSG:4326',
             variable='tide_ocean', reference='x')
    f = M.definition(d, str(ctx.tmp/'def.json'))
    got = np.asarray(pyTMD.compute.tide_masks(lon, lat, DEFINITION_FILE=f, METHOD=case['method'])).astype(bool)
    amp = pyTMD.io.model().from_file(f).extract_constants(lon, lat, type='z', method=case['method'])[0]
    ref = ~np.ma.getmaskarray(amp)[:, 0]
    ctx.nt(bool(ref.any()))
    ctx.check(got.shape == lon.shape, f'shape {got.shape}')
    ctx.check(not np.any(ref & ~got), f'not valid where the model has constants: {lon[ref & ~got]}, {lat[ref & ~got]}')
    if case['method'] in ('bilinear', 'nearest'):
        ctx.check(not np.any(got & ~ref), f'valid where the model has no constants: {lon[got & ~ref]}, {lat[got & ~ref]}')


def f_named(case, ctx):
    """models by the names of the database, at the places it gives under a directory"""
    p = named.DB['elevation'][case['name']]
    s = dict(case['spec'], dup=False)
    if p.get('projection') and p['projection'] != 'EPSG:4326':
        s = named.place(s, p['projection'])
    m = M.Model(s)
    ctx.label(p['format'])
    if s['proj']:
        m.otis_proj = p['projection']
    folder = pathlib.Path(ctx.tmp)/'models'
    folder.mkdir()
    named.put(m, p, folder, s['gz'])
    px, py = M.locate(m, case['pos'])
    E = expected(m, px, py, case['method'])
    if s['proj']:
        lon, lat = (np.atleast_1d(q) for q in pyTMD.crs().convert(px, py, p['projection'], 'B'))
        E2 = [expected(m, px + a*1e-7*m.dx, py + b*1e-7*m.dy, case['method']) for a in (-1, 1) for b in (-1, 1)]
        E = np.where(np.all([e == E for e in E2], axis=0), E, -1)
    else:
        lon, lat = m.lonlat(px, py)
    kw = dict(DIRECTORY=[str(folder), folder][s['seed'] % 2], MODEL=case['name'], GZIP=bool(s['gz']), METHOD=case['method'])
    f = pyTMD.check_points if s['seed'] % 3 == 0 else pyTMD.compute.tide_masks
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = np.asarray(f(lon, lat, **kw)).astype(bool)
    ctx.check(got.shape == E.shape, f'shape {got.shape}')
    bad = ((E == 1) & ~got) | ((E == 0) & got)
    ctx.check(not bad.any(), f'{case["name"]}, {case["method"]}: {got} at {lon}, {lat}, expected {E}')
    ctx.nt(bool((E == 1).any()))


SUBS = [
    Sub('named', st.builds(lambda c, l: {**c, 'spec': {**c['spec'], 'land': l}}, named.named_case().filter(lambda c: c['kind'] == 'elevation'),
                           st.sampled_from([0.0, 0.3, 0.6])), f_named, 60, 1500, tmp=True, shards=4),
    Sub('mask', mask_case(), f_mask, 900, 15000, tmp=True, shards=6),
    Sub('compact', compact_case(), f_compact, 12, 60, tmp=True, shards=4),
]
SUBS.append(large.models('masks'))
SUBS.append(large.again('masks'))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
