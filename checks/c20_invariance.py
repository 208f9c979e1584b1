"""C20: the access path, the batch, cropping, longitude conventions and earlier calls do not change interpolated constants."""
import _boot
from harness import *
from gen import *
import large
import models as M
from pyTMD.io import OTIS, ATLAS, GOT, FES

PROPERTY = 'C20'
RULE = 'non-trivial: at least one point is valid in every way of asking that is compared (paths, extrap: or was extrapolated)'
ASSUMPTIONS = ['longitudes are given within one period of the grid', 'cropping bounds enclose the points and the buffer is at least one cell',
               'a point closer than 1e-6 (relative) to the cutoff may be extrapolated or not']
METHODS = ['spline', 'bilinear', 'linear', 'nearest']
MOD = {'OTIS': OTIS, 'TMD3': OTIS, 'ATLAS-netcdf': ATLAS, 'GOT-ascii': GOT, 'GOT-netcdf': GOT,
       'FES-ascii': FES, 'FES-netcdf': FES}


class Access:
    """both ways of asking the library for constants of the model on disk"""
    def __init__(self, m, d, var, transport=False):
        self.m, self.d, self.var = m, d, var
        self.mod = MOD[d['format']]
        self.mf = d['model_file'] if var == 'z' else d['model_file'][var]
        t = var.upper() if transport else var
        f = d['format']
        self.scaled = {}
        if self.mod is OTIS:
            self.args = [d['grid_file'], self.mf, d['projection']]
            self.kw = dict(type=t, grid=f)
        elif self.mod is ATLAS:
            self.args = [d['grid_file'], self.mf]
            self.kw = dict(type=t, compressed=d['compressed'])
            self.scaled = dict(scale=d['scale'])
        elif self.mod is GOT:
            self.args = [self.mf]
            self.kw = dict(compressed=d['compressed'], grid=f[4:])
            self.scaled = dict(scale=d['scale'])
        else:
            self.args = [self.mf]
            self.kw = dict(type=t, version=d['version'], compressed=d['compressed'])
            self.scaled = dict(scale=d['scale'])
        self.type = t

    def extract(self, lon, lat, **kw):
        r = self.mod.extract_constants(lon, lat, *self.args, **self.kw, **self.scaled, **kw)
        D = r[2] if self.mod in (OTIS, ATLAS) else None
        cons = list(r[-1]) if self.mod is not FES else None
        return r[0], r[1], D, cons

    def read(self, **kw):
        return self.mod.read_constants(*self.args, **self.kw, **kw)

    def interp(self, lon, lat, c, **kw):
        if self.mod in (OTIS, ATLAS):
            kw['type'] = self.type
        r = self.mod.interpolate_constants(lon, lat, c, **self.scaled, **kw)
        return r[0], r[1], (r[2] if len(r) > 2 else None), list(c.fields)


def agree(ctx, a, b, what, tol=2e-6, sel=slice(None), S=None, V=None):
    """same masks (where S) and values (where V, S by default; complex) for two answers"""
    ma, mb = np.ma.getmaskarray(a[0])[sel], np.ma.getmaskarray(b[0])
    pa, pb = np.ma.getmaskarray(a[1])[sel], np.ma.getmaskarray(b[1])
    ctx.check(ma.shape == mb.shape, f'{what}: shapes {ma.shape} {mb.shape}')
    use = np.ones(ma.shape, bool) if S is None else S
    bad = use & ((ma != mb) | (pa != pb))
    if bad.any():
        i = np.argwhere(bad)[0].tolist()
        ctx.fail(f'{what}: masks differ at {i}: {ma[tuple(i)]} {mb[tuple(i)]}')
    za = M.complexes(a[0], a[1])[sel]
    zb = M.complexes(b[0], b[1])
    ok = use & ~ma if V is None else use & ~ma & V
    if ok.any():
        size = np.max(np.abs(za[ok]))
        bad = ok & ~(np.abs(za-zb) <= tol*size)
        if bad.any():
            i = tuple(np.argwhere(bad)[0].tolist())
            ctx.fail(f'{what}: values differ at {list(i)}: {za[i]!r} {zb[i]!r}')
    if a[2] is not None and b[2] is not None:
        Da, Db = np.atleast_1d(a[2])[sel], np.atleast_1d(b[2])
        ka, kb = np.ma.getmaskarray(Da), np.ma.getmaskarray(Db)
        u = use.any(axis=1)
        ctx.check(not (u & (ka != kb)).any(), f'{what}: masks of the depth differ {ka} {kb}')
        g = u & ~ka
        ctx.close(np.ma.getdata(Db)[g], np.ma.getdata(Da)[g], what + ': depth', max(1e-5, tol), 1e-5 if tol < 1e-5 else 5e3*tol)
    if a[3] and b[3]:
        ctx.check(a[3] == b[3], f'{what}: constituents {a[3]} {b[3]}')


@st.composite
def base_case(draw, **kw):
    s = draw(M.specs(maxcons=3, **kw))
    uv = s['fmt'] in M.FES_NAMES or s['fmt'] in ('OTIS', 'OTIS-list', 'TMD3', 'ATLAS-netcdf')
    v = draw(st.sampled_from('zzuv')) if uv else 'z'
    return dict(spec=s, var=v, transport=draw(st.booleans()) if v != 'z' and s['fmt'] not in M.FES_NAMES else False,
                pos=draw(M.positions()))


def setup(case, ctx):
    m = M.Model(case['spec'])
    d = M.write(m, ctx.tmp, 'z' if case['var'] == 'z' else 'uv')
    acc = Access(m, d, case['var'], case['transport'])
    x, y = M.locate(m, case['pos'], case['var'])
    if m.spec['proj'] is not None:
        lon, lat = m.lonlat(x, y)
    else:
        lon, lat = x, y
    for q in (m.fmt + ':' + case['var'], 'global' if m.glob else 'regional'):
        ctx.label(q)
    return m, d, acc, x, y, lon, lat


call_st = st.fixed_dictionaries(dict(
    how=st.sampled_from(['interp', 'interp', 'interp', 'extract']), method=st.sampled_from(METHODS),
    ex=st.sampled_from([None, None, 'inf', 50.0, 1000.0]), sub=st.integers(0, 3)))


@st.composite
def history_case(draw):
    c = draw(base_case())
    c['calls'] = draw(lists(call_st, 2, 4))
    return c


def kws(k):
    kw = dict(method=k['method'])
    if k['ex'] is not None:
        kw.update(extrapolate=True, cutoff=np.inf if k['ex'] == 'inf' else k['ex'])
    return kw


def snapshot(c):
    return {k: copy_of(v) if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v) for k, v in vars(c).items()}


def history(case, ctx):
    """one read object, a history of interpolations: each equals a fresh extraction"""
    m, d, acc, x, y, lon, lat = setup(case, ctx)
    c = acc.read()
    before = snapshot(c)
    for n, k in enumerate(case['calls']):
        q = slice(None) if k['sub'] == 0 else slice(k['sub'] % len(lon), k['sub'] % len(lon) + 1)
        kw = kws(k)
        lo, la = lon[q].copy(), lat[q].copy()
        fresh = acc.extract(lo, la, **kw)
        ctx.check(same(lo, lon[q]) and same(la, lat[q]), 'extract modified its coordinates')
        if k['how'] == 'interp':
            r = acc.interp(lo, la, c, **kw)
            ctx.check(same(lo, lon[q]) and same(la, lat[q]), 'interpolate modified its coordinates')
        else:
            r = acc.extract(lo, la, **kw)
        ctx.nt(not np.ma.getmaskarray(fresh[0]).all())
        ctx.label(k['method'] + (':ex' if k['ex'] else ''))
        # masks at points on the edge of validity (weights of round-off size) are not compared
        S = M.want(m, d, case['var'], x[q], y[q], k['method'], transport=case['transport'])[1]
        agree(ctx, fresh, r, f'call {n} {k["how"]} {kw}', S=(S != -1), tol=2e-6 if m.dyadic else 5e-5)
        after = snapshot(c)
        for q in before:
            ctx.check(q in after and same(before[q], after[q]), f'call {n} {k["how"]} {kw} modified {q} of the constituents')


@st.composite
def batch_case(draw):
    c = draw(base_case())
    c.update(method=draw(st.sampled_from(METHODS)), ex=draw(st.sampled_from([None, None, 'inf', 300.0])), sub=0,
             how=draw(st.sampled_from(['interp', 'extract'])), perm=draw(st.integers(0, 1000)),
             wrap=draw(lists(st.sampled_from([0, 0, 360, -360]), 1, 6)), form=draw(st.sampled_from(['array', 'list', 'scalar', 'int', 'readonly'])))
    return c


def batch(case, ctx):
    m, d, acc, x, y, lon, lat = setup(case, ctx)
    kw = kws(case)
    c = acc.read() if case['how'] == 'interp' else None
    ask = (lambda a, b: acc.interp(a, b, c, **kw)) if c is not None else (lambda a, b: acc.extract(a, b, **kw))
    ref = ask(lon, lat)
    n = len(lon)
    ctx.nt(n > 1 and not np.ma.getmaskarray(ref[0]).all())
    S = M.want(m, d, case['var'], x, y, case['method'], transport=case['transport'])[1]
    # the nearest valid node may be a tie: extrapolated values are judged in `extrap`
    S, V = (S != -1), (S == 1)
    again = ask(lon, lat)
    agree(ctx, ref, again, 'same call again', tol=0)
    p = np.random.default_rng(case['perm']).permutation(n)
    agree(ctx, ref, ask(lon[p], lat[p]), f'order {p.tolist()} of the points', sel=p, S=S[p], V=V[p])
    for i in range(n):
        lo, la = lon[i:i+1], lat[i:i+1]
        if case['form'] == 'scalar':
            lo, la = float(lon[i]), float(lat[i])
        elif case['form'] == 'list':
            lo, la = [float(lon[i])], [float(lat[i])]
        elif case['form'] == 'readonly':
            lo, la = lo.copy(), la.copy()
            lo.flags.writeable = la.flags.writeable = False
        agree(ctx, ref, ask(lo, la), f'point {i} alone ({case["form"]})', sel=slice(i, i+1), S=S[i:i+1], V=V[i:i+1])
    if m.spec['proj'] is None:
        g = m.grid(case['var'])[0]
        w = np.array([case['wrap'][i % len(case['wrap'])] for i in range(n)], float)
        q = lon + w
        # within one period of the grid
        q = np.where((q < g[0]-360.0) | (q > g[-1]+360.0), lon, q)
        got = ask(q, lat)
        agree(ctx, ref, got, f'longitudes {lon} expressed as {q}', S=S, V=V)
    elif case['form'] == 'int':
        q = np.where(lon > 0, lon-360.0, lon+360.0)
        agree(ctx, ref, ask(q, lat), 'longitudes +-360 of a projected model', tol=1e-4, S=S, V=V)


@st.composite
def crop_case(draw):
    c = draw(base_case())
    c.update(method=draw(st.sampled_from(METHODS)), how=draw(st.sampled_from(['interp', 'extract', 'extract-auto'])),
             pad=draw(lists(fl(0, 30), 4, 4)), buffer=draw(st.sampled_from([1.0, 1.5, 3.0])))
    return c


def crop(case, ctx):
    """reading only the part of the grid around the points gives the constants of the full grid"""
    m, d, acc, x, y, lon, lat = setup(case, ctx)
    gx, gy = m.grid(case['var'])[:2]
    inside = (y >= gy[0]) & (y <= gy[-1])
    if not m.glob:
        q = x
        if m.spec['proj'] is None:
            q = np.where(q < gx[0], q+360.0, q); q = np.where(q > gx[-1], q-360.0, q)
        inside &= (q >= gx[0]) & (q <= gx[-1])
    if not inside.any():
        raise Skip('no point in the domain')
    x, y, lon, lat = (q[inside] for q in (x, y, lon, lat))
    if x.max() - x.min() > 420:
        raise Skip('bounds of more than one cycle')
    buf = float(case['buffer']*max(m.dx, m.dy)) + (0.5*max(m.dx, m.dy) if case['var'] != 'z' else 0.0)
    if case['how'] == 'extract-auto' and m.dy > 2.5*m.dx:
        raise Skip('buffer of fewer than two rows')
    if case['how'] == 'extract-auto':
        kw = {}
    else:
        kw = dict(bounds=[x.min()-case['pad'][0], x.max()+case['pad'][1], y.min()-case['pad'][2], y.max()+case['pad'][3]], buffer=buf)
    k = dict(method=case['method'])
    ref = acc.extract(lon, lat, **k)
    ctx.nt(not np.ma.getmaskarray(ref[0]).all())
    S = M.want(m, d, case['var'], x, y, case['method'], transport=case['transport'])[1] != -1
    if case['how'] == 'interp':
        got = acc.interp(lon, lat, acc.read(crop=True, **kw), **k)
    else:
        got = acc.extract(lon, lat, crop=True, **kw, **k)
    # grids of OTIS files have coordinates of single precision
    agree(ctx, ref, got, f'cropped to {kw}', S=S, tol=2e-6 if m.dyadic else 5e-5)


@st.composite
def order_case(draw):
    c = draw(base_case(formats=[f for f in M.FORMATS if f not in ('OTIS', 'TMD3')]))
    c.update(method=draw(st.sampled_from(METHODS)), how=draw(st.sampled_from(['interp', 'extract'])), perm=draw(st.integers(0, 1000)),
             keep=draw(st.integers(1, 3)))
    return c


def order(case, ctx):
    """permuting or selecting the files of a model permutes or selects the columns"""
    m, d, acc, x, y, lon, lat = setup(case, ctx)
    kw = dict(method=case['method'])
    ref = acc.extract(lon, lat, **kw)
    ctx.nt(not np.ma.getmaskarray(ref[0]).all())
    nc = len(m.cons)
    p = np.random.default_rng(case['perm']).permutation(nc)[:case['keep']]
    files = [acc.mf[i] for i in p]
    acc.args = [files if q is acc.mf else q for q in acc.args]
    got = acc.interp(lon, lat, acc.read(), **kw) if case['how'] == 'interp' else acc.extract(lon, lat, **kw)
    agree(ctx, (ref[0][:, p], ref[1][:, p], ref[2], None), got, f'files {p.tolist()}')
    if got[3]:
        ctx.check(got[3] == [m.cons[i] for i in p], f'constituents {got[3]} of files {p.tolist()}')


@st.composite
def extrap_case(draw):
    c = draw(base_case())
    c.update(method=draw(st.sampled_from(METHODS)), how=draw(st.sampled_from(['interp', 'extract'])),
             cutoff=draw(st.one_of(st.just('inf'), fl(5, 3000), fl(100, 10000))))
    return c


def ecef(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    f = 1/298.257223563
    e2 = f*(2-f)
    N = 6378.137/np.sqrt(1-e2*np.sin(lat)**2)
    return np.array([N*np.cos(lat)*np.cos(lon), N*np.cos(lat)*np.sin(lon), N*(1-e2)*np.sin(lat)])


def extrap(case, ctx):
    """valid points keep their constants; invalid ones get those of the nearest valid node within the cutoff"""
    m, d, acc, x, y, lon, lat = setup(case, ctx)
    cut = np.inf if case['cutoff'] == 'inf' else case['cutoff']
    kw = dict(method=case['method'])
    ex = dict(extrapolate=True, cutoff=cut, **kw)
    if case['how'] == 'interp':
        c = acc.read()
        ref, got = acc.interp(lon, lat, c, **kw), acc.interp(lon, lat, c, **ex)
    else:
        ref, got = acc.extract(lon, lat, **kw), acc.extract(lon, lat, **ex)
    gx, gy, ok, hc, dep = m.grid(case['var'])
    out = (y < gy[0]) | (y > gy[-1])
    if not m.glob:
        if m.spec['proj'] is None:
            x = np.where(x < gx[0], x+360.0, x); x = np.where(x > gx[-1], x-360.0, x)
        out |= (x < gx[0]) | (x > gx[-1])
    S = M.want(m, d, case['var'], x, y, case['method'], transport=case['transport'])[1]
    rm, gm = np.ma.getmaskarray(ref[0]), np.ma.getmaskarray(got[0])
    za, zb = M.complexes(ref[0], ref[1]), M.complexes(got[0], got[1])
    velocity = case['var'] != 'z' and not case['transport'] and acc.mod in (OTIS, ATLAS)
    scale = d.get('scale', 1.0) if acc.mod is not OTIS else 1.0
    X, Y = np.meshgrid(gx, gy)
    size = np.max(np.abs(hc))*scale
    if velocity:
        size = size/(np.min(np.abs(dep[dep > 0]))/100.0) if (dep > 0).any() else size
    for i in range(len(lon)):
        for k in range(len(m.cons)):
            if not rm[i, k]:
                ctx.nt(True)
                ctx.check(not gm[i, k] and abs(za[i, k]-zb[i, k]) <= 2e-6*size + 2e-6*abs(za[i, k]), f'extrapolation changed the valid point {i},{k}: {za[i, k]!r} {zb[i, k]!r}')
                continue
            if S[i, k] == -1 and m.spec['proj'] is not None:
                continue        # on the edge of the domain up to round-off
            if out[i]:
                ctx.check(gm[i, k], f'point {i} outside of the domain was extrapolated')
                continue
            v = ok[k] & np.isfinite(hc[k])
            if not v.any():
                ctx.check(gm[i, k], 'extrapolated without valid nodes')
                continue
            if m.spec['proj'] is None:
                q = ecef(x[i:i+1], y[i:i+1]); g = ecef(X[v], Y[v])
            else:
                q = np.array([[x[i]], [y[i]]]); g = np.array([X[v], Y[v]])
            dist = np.sqrt(((q-g)**2).sum(axis=0))
            near = dist.min()
            tol = (1e-6 if m.spec['proj'] is None else 1e-4)*(1+near) + 1e-5
            if abs(near-cut) <= tol:
                continue
            if near > cut:
                ctx.check(gm[i, k], f'point {i} is {near} km from the nearest valid node, cutoff {cut}, but not masked')
                continue
            ctx.nt(True); ctx.label('extrapolated')
            ctx.check(not gm[i, k], f'point {i},{k} is {near} km from a valid node (cutoff {cut}) but masked')
            cand = hc[k][v][dist <= near + tol]*scale
            if velocity:
                dm = np.atleast_1d(ref[2])
                if np.ma.getmaskarray(dm)[i]:
                    cand = cand/(dep[v][dist <= near + tol]/100.0)
                else:
                    cand = cand/(np.ma.getdata(dm)[i]/100.0)
            ctx.check(np.any(np.abs(cand - zb[i, k]) <= 1e-5*np.abs(cand) + 1e-9),
                      f'point {i},{k}: {zb[i, k]!r} is not the constant of the nearest valid node {cand}')


SUBS = [
    Sub('history', history_case(), history, 500, 6000, tmp=True, shards=5),
    Sub('batch', batch_case(), batch, 400, 5000, tmp=True, shards=5),
    Sub('crop', crop_case(), crop, 500, 6000, tmp=True, shards=5),
    Sub('order', order_case(), order, 250, 3000, tmp=True, shards=3),
    Sub('extrap', extrap_case(), extrap, 500, 6000, tmp=True, shards=5),
]
SUBS.append(large.models('read', quick=60))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
