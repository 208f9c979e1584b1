"""C17: OTIS, ATLAS-compact and TMD3 files decode to the constants they encode.

Files are written by lib/models.py (independent of pyTMD) from generated grids; the readers must give back
exactly the arrays that were written, and the constants at a point must be the reference interpolation of them.
"""
import _boot
from harness import *
from gen import *
import large
import models as M
import pathlib
from pyTMD.io import OTIS

PROPERTY = 'C17'
RULE = ('non-trivial: at least two constituents or a land cell are in the file (readers); at least one point is '
        'strictly inside the domain (constants); at least one local solution covers cells (ATLAS-compact)')
ASSUMPTIONS = ['constants of wet nodes are not exactly zero (zero is no data in OTIS form)', 'generated files follow the OTIS Fortran record layout (big-endian, 4-byte record markers), the '
               'TMD3 netCDF layout and the ATLAS-compact layout with local solutions at 1/30 degree',
               'pyproj is the oracle of the projected coordinates']
OT = ['OTIS', 'OTIS-list', 'TMD3']
METHODS = ['spline', 'spline', 'bilinear', 'linear', 'nearest']


# ---- readers -----------------------------------------------------------------------------------
@st.composite
def reader_case(draw):
    s = draw(M.specs(formats=['OTIS', 'OTIS-list'], maxcons=4))
    nob = draw(st.integers(0, 3))
    iob = [[draw(st.integers(1, s['nx'])), draw(st.integers(1, s['ny']))] for _ in range(nob)]
    return dict(spec=s, iob=iob, ks=draw(st.permutations(list(range(len(s['cons']))))))


def otis_files(case, ctx):
    m = M.Model(case['spec'])
    t = pathlib.Path(ctx.tmp)
    ctx.nt(len(m.cons) > 1 or (m.hz == 0).any())
    ctx.label('obc' if case['iob'] else 'closed')
    dt = M.otis_grid(t/'g', m, iob=case['iob'])
    x, y, hz, mz, iob, dt_ = OTIS.read_otis_grid(t/'g')
    ctx.close(x, m.xr, 'grid x', 1e-6, 1e-6 if m.dyadic else 5e-5)
    ctx.close(y, m.y, 'grid y', 1e-6, 1e-6)
    ctx.close(hz, m.hz, 'bathymetry', 0, 0)
    ctx.close(mz, ((m.hz > 0) & ~m.dry).astype(int), 'mask', 0, 0)
    ctx.close(np.asarray(iob).reshape(-1, 2), np.array(case['iob']).reshape(-1, 2), 'open boundary', 0, 0)
    ctx.close(dt_, np.float32(dt), 'time step', 0, 0)
    ks = case['ks']
    M.otis_elevation(t/'h', m, ks)
    M.otis_transport(t/'u', m, ks)
    for f in ('h', 'u'):
        c, n = OTIS.read_constituents(t/f)
        ctx.check(list(c) == [m.cons[k] for k in ks] and n == len(ks), f'constituents of {f}: {c}')
    for i, k in enumerate(ks):
        h = OTIS.read_otis_elevation(t/'h', i)
        ctx.mclose(h, np.ma.array(m.hc['z'][k], mask=False), f'elevation {i}', 0, 0)
        u, v = OTIS.read_otis_transport(t/'u', i)
        ctx.mclose(u, np.ma.array(m.hc['u'][k], mask=False), f'u transport {i}', 0, 0)
        ctx.mclose(v, np.ma.array(m.hc['v'][k], mask=False), f'v transport {i}', 0, 0)


def tmd3_files(case, ctx):
    m = M.Model(case['spec'])
    t = pathlib.Path(ctx.tmp)
    ctx.nt(len(m.cons) > 1 or (m.hz == 0).any())
    M.tmd3(t/'m.nc', m)
    x, y, hz, mz, sf = OTIS.read_netcdf_grid(t/'m.nc')
    ctx.close(x, m.x, 'grid x', 0, 0)
    ctx.close(y, m.y, 'grid y', 0, 0)
    ctx.close(np.ma.getdata(hz), m.hz, 'bathymetry', 0, 0)
    ctx.close(np.ma.getmaskarray(hz), m.hz == 0, 'bathymetry mask', 0, 0)
    ctx.close(np.ma.getdata(mz), ((m.hz > 0) & ~m.dry).astype(int), 'mask', 0, 0)
    ctx.close(np.ma.getdata(sf), m.flex/100.0, 'flexure', 1e-6, 0)
    c, n = OTIS.read_constituents(t/'m.nc', grid='TMD3')
    ctx.check(list(c) == m.cons and n == len(m.cons), f'constituents: {c}')
    for k in range(len(m.cons)):
        for v in 'zuv':
            for q in {v, v.upper()} if v != 'z' else {v}:
                h = OTIS.read_netcdf_file(t/'m.nc', k, variable=q)
                ctx.mclose(h, np.ma.array(m.hc[v][k], mask=False), f'{q} {k}', 0, 0)


# ---- constants ----------------------------------------------------------------------------------
@st.composite
def const_case(draw):
    s = draw(M.specs(formats=OT, maxcons=3))
    v = draw(st.sampled_from(['z', 'z', 'u', 'v', 'U', 'V']))
    return dict(spec=s, pos=draw(M.positions()), var=v, method=draw(st.sampled_from(METHODS)))


def constants(case, ctx):
    m = M.Model(case['spec'])
    v = case['var']
    var = v.lower()
    d = M.write(m, ctx.tmp, 'z' if v == 'z' else 'uv')
    px, py = M.locate(m, case['pos'], var)
    lon, lat = m.lonlat(px, py)
    grid = 'TMD3' if d['format'] == 'TMD3' else 'OTIS'
    mf = d['model_file'] if v == 'z' else d['model_file']['u']
    flex = bool(case['spec']['flex']) and grid == 'TMD3' and v == 'z'
    W, S, D = M.want(m, d, var, px, py, case['method'], flex=flex, transport=v in 'UV')
    ctx.label(f"{case['spec']['fmt']}:{v}")
    ctx.label(case['spec']['proj'] or ('global' if m.glob else 'regional'))
    ctx.label(case['method'])
    ctx.nt(bool((S == 1).any()))
    kw = dict(type=v, grid=grid, apply_flexure=flex)
    a, p, Dm, c = OTIS.extract_constants(lon, lat, d['grid_file'], mf, m.projection, method=case['method'], **kw)
    ctx.check(list(c) == m.cons, f'constituents {c} expected {m.cons}')
    M.compare(ctx, m, d, a, p, W, S, 'extract')
    g = (S == 1).all(axis=1)
    ctx.check(not np.ma.getmaskarray(Dm)[g].any(), 'bathymetry masked where the model is valid')
    ctx.close(np.ma.getdata(Dm)[g], D[g], 'bathymetry', 1e-4 if m.spec['proj'] else 1e-5, 1e-3)
    # the fields that are read
    cons = OTIS.read_constants(d['grid_file'], mf, m.projection, **kw)
    x, y, ok, hc, DD = m.grid(var)
    if flex:
        hc = hc*(m.flex/100.0)
    ctx.check(list(cons.fields) == m.cons, f'fields {cons.fields}')
    sl = slice(1, -1) if m.glob and m.spec['proj'] is None else slice(None)
    ctx.close(np.asarray(cons.x)[sl], x, 'x of the nodes', 1e-6, 1e-6 if m.dyadic else 5e-5)
    ctx.close(cons.y, y, 'y of the nodes', 1e-6, 1e-6)
    gx, gy = np.meshgrid(cons.x, cons.y)
    glon, glat = m.lonlat(gx, gy)
    ctx.close(np.exp(1j*np.radians(cons.longitude)), np.exp(1j*np.radians(glon)), 'longitude of the nodes', 0, 1e-7)
    ctx.close(cons.latitude, glat, 'latitude of the nodes', 0, 1e-7)
    for k, n in enumerate(m.cons):
        h = cons.get(n)
        H = np.ma.getdata(h)[:, sl]
        mk = np.ma.getmaskarray(h)[:, sl]
        ctx.close(mk, ~ok[k], f'mask of {n}', 0, 0)
        ctx.close(H[~mk], hc[k][~mk], f'field of {n}', 1e-6, 1e-6)
        if sl != slice(None):
            F = np.ma.getdata(h)
            ctx.check(np.array_equal(F[:, 0], F[:, -2]) and np.array_equal(F[:, -1], F[:, 1]),
                      f'global field of {n} is not extended cyclically')
    a, p, Dm = OTIS.interpolate_constants(lon, lat, cons, type=v, method=case['method'])
    M.compare(ctx, m, d, a, p, W, S, 'interpolate')


# ---- ATLAS-compact ---------------------------------------------------------------------------------
def _local(draw, cons, nmax=3, nmin=0):
    out = []
    for k in range(draw(st.integers(nmin, nmax))):
        nx1, ny1 = draw(st.integers(3, 8)), draw(st.integers(3, 8))
        lc = draw(st.lists(st.sampled_from(cons), min_size=1, max_size=len(cons), unique=True))
        out.append(dict(nx=nx1, ny=ny1, i0=draw(st.integers(0, 10700)), j0=draw(st.integers(200, 5100)), cons=lc,
                        name=f'loc{k}'.ljust(draw(st.integers(4, 12)), 'x'), frac=draw(st.sampled_from([1.0, 0.6]))))
    return out


@st.composite
def compact_case(draw, nmin=0):
    names = [n for n in M.NAMES if len(n) <= 4]
    cons = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True))
    return dict(cons=cons, nx=draw(st.sampled_from([6, 8, 12])), ny=draw(st.sampled_from([3, 5, 6])),
                seed=draw(st.integers(0, 9999)), nob=draw(st.integers(0, 2)), loc=_local(draw, cons, nmin=nmin))


class Compact:
    """arrays of an ATLAS-compact model: coarse global grid and local solutions at 1/30 degree"""
    def __init__(self, c):
        self.c, self.cons = c, c['cons']
        nx, ny = c['nx'], c['ny']
        r = np.random.RandomState(c['seed'])
        self.hz = np.round(r.uniform(20, 4000, (ny, nx)), 1).astype('f4')
        self.mz = (r.uniform(size=(ny, nx)) < 0.8).astype(int)
        self.hz[self.mz == 0] = 0
        self.pm = r.randint(0, 4, (ny, nx))
        self.iob = r.randint(1, nx, (c['nob'], 2))
        nc = len(self.cons)
        cp = lambda *sh: (r.uniform(-2, 2, sh) + 1j*r.uniform(-2, 2, sh)).astype('c8')
        self.z, self.u, self.v = cp(nc, ny, nx), cp(nc, ny, nx), cp(nc, ny, nx)
        self.loc = []
        for L in c['loc']:
            k = {}
            for q in ('z', 'u', 'v'):
                k[q+'ok'] = r.uniform(size=(L['ny'], L['nx'])) < L['frac']
                k[q+'ok'][0, 0] = True
                k[q] = cp(len(L['cons']), L['ny'], L['nx'])
            k['depth'] = np.round(r.uniform(20, 400, (L['ny'], L['nx'])), 1).astype('f4')
            if L.get('flat'):
                # the same constants and depth in every cell: the place within the block does not matter
                k['depth'][:] = k['depth'][0, 0]
                for q in ('z', 'u', 'v'):
                    k[q][:] = k[q][:, :1, :1]
            d = 1/30
            e = 0.02*d      # limits just inside of the first cell: the reader truncates them
            k['lon'] = np.array([L['i0']*d + e, (L['i0']+L['nx'])*d + e], 'f4')
            k['lat'] = np.array([-90 + L['j0']*d + e, -90 + (L['j0']+L['ny'])*d + e], 'f4')
            self.loc.append({**L, **k})

    def head(self):
        return M.f4(-90, 90), M.f4(0, 360)

    def write(self, t):
        c = self.c
        nx, ny, nc = c['nx'], c['ny'], len(self.cons)
        with open(t/'grid', 'wb') as f:
            M.rec(f, M.i4(nx, ny), *self.head(), M.f4(12.0), M.i4(len(self.iob)))
            M.rec(f, M.i4(*self.iob.ravel())) if len(self.iob) else M.rec(f, M.i4(0))
            M.rec(f, self.hz.astype('>f4').tobytes())
            M.rec(f, self.mz.astype('>i4').tobytes())
            M.rec(f, self.pm.astype('>i4').tobytes())
            for L in self.loc:
                jz, iz = np.nonzero(L['zok'])
                M.rec(f, M.i4(L['nx'], L['ny'], len(iz)), M.f4(*L['lat']), M.f4(*L['lon']), L['name'].ljust(20).encode())
                M.rec(f, M.i4(*(iz+1)), M.i4(*(jz+1)))
                M.rec(f, M.f4(*L['depth'][jz, iz]))
        cn = lambda l: b''.join(x.ljust(4).encode() for x in l)
        with open(t/'h', 'wb') as f:
            M.rec(f, M.i4(nx, ny, nc), *self.head(), cn(self.cons))
            for k in range(nc):
                M.rec(f, M.pairs(self.z[k]))
            for L in self.loc:
                jz, iz = np.nonzero(L['zok'])
                M.rec(f, M.i4(L['nx'], L['ny'], len(L['cons']), len(iz)), M.f4(*L['lat']), M.f4(*L['lon']), cn(L['cons']),
                      L['name'].ljust(20).encode())
                M.rec(f, M.i4(*(iz+1)), M.i4(*(jz+1)))
                for k in range(len(L['cons'])):
                    M.rec(f, M.pairs(L['z'][k][jz, iz]))
        with open(t/'uv', 'wb') as f:
            M.rec(f, M.i4(nx, ny, nc), *self.head(), cn(self.cons))
            for k in range(nc):
                M.rec(f, M.pairs(self.u[k], self.v[k]))
            for L in self.loc:
                ju, iu = np.nonzero(L['uok'])
                jv, iv = np.nonzero(L['vok'])
                M.rec(f, M.i4(L['nx'], L['ny'], len(L['cons']), len(iu), len(iv)), M.f4(*L['lat']), M.f4(*L['lon']),
                      cn(L['cons']), L['name'].ljust(20).encode())
                M.rec(f, M.i4(*(iu+1)), M.i4(*(ju+1)))
                M.rec(f, M.i4(*(iv+1)), M.i4(*(jv+1)))
                for k in range(len(L['cons'])):
                    M.rec(f, M.pairs(L['u'][k][ju, iu]))
                    M.rec(f, M.pairs(L['v'][k][jv, iv]))


def compact_files(case, ctx):
    m = Compact(case)
    t = pathlib.Path(ctx.tmp)
    m.write(t)
    ctx.nt(len(m.loc) > 0)
    ctx.label(f'{len(m.loc)} local')
    x, y, hz, mz, iob, dt, pm, local = OTIS.read_atlas_grid(t/'grid')
    dx, dy = 360/case['nx'], 180/case['ny']
    ctx.close(x, dx/2 + dx*np.arange(case['nx']), 'x', 1e-6, 1e-5)
    ctx.close(y, -90 + dy/2 + dy*np.arange(case['ny']), 'y', 1e-6, 1e-5)
    ctx.close(hz, m.hz, 'bathymetry', 0, 0)
    ctx.close(mz, m.mz, 'mask', 0, 0)
    ctx.close(pm, m.pm, 'provenance mask', 0, 0)
    ctx.close(np.asarray(iob).reshape(-1, 2), m.iob.reshape(-1, 2), 'open boundary', 0, 0)
    key = lambda L: L['name'].encode()
    ctx.check(set(local) == {key(L) for L in m.loc}, f'local solutions {sorted(local)}')
    for L in m.loc:
        g = local[key(L)]
        ctx.close(g['lon'], L['lon'], 'local lon', 0, 0)
        ctx.close(g['lat'], L['lat'], 'local lat', 0, 0)
        ctx.mclose(g['depth'], np.ma.array(L['depth'], mask=~L['zok']), 'local depth', 0, 0)
    for f in ('h', 'uv'):
        cc, n = OTIS.read_constituents(t/f, grid='ATLAS')
        ctx.check(list(cc) == m.cons and n == len(m.cons), f'constituents of {f}: {cc}')
    for i, c in enumerate(m.cons):
        h, lz = OTIS.read_atlas_elevation(t/'h', i, c)
        ctx.close(np.ma.getdata(h), m.z[i], f'global elevation {c}', 0, 0)
        u, v, luv = OTIS.read_atlas_transport(t/'uv', i, c)
        ctx.close(np.ma.getdata(u), m.u[i], f'global u {c}', 0, 0)
        ctx.close(np.ma.getdata(v), m.v[i], f'global v {c}', 0, 0)
        has = [L for L in m.loc if c in L['cons']]
        for nm, l in (('elevation', lz), ('transport', luv)):
            ctx.check(set(l) == {key(L) for L in has}, f'local solutions of {c} in the {nm} file: {sorted(l)}')
        for L in has:
            k = L['cons'].index(c)
            for nm, l, q in (('z', lz, 'z'), ('u', luv, 'u'), ('v', luv, 'v')):
                g = l[key(L)]
                ctx.close(g['lon'], L['lon'], 'local lon', 0, 0)
                ctx.close(g['lat'], L['lat'], 'local lat', 0, 0)
                ctx.mclose(g[nm], np.ma.array(L[q][k], mask=~L[q+'ok']), f'local {nm} {c}', 0, 0)


def compact_combine(case, ctx):
    """extraction from the combined solution (1/30 degree): local cells win, bilinear of the global grid elsewhere"""
    m = Compact(case)
    t = pathlib.Path(ctx.tmp)
    m.write(t)
    ctx.nt(len(m.loc) > 0)
    nx, ny = case['nx'], case['ny']
    x, y = 360/nx*(0.5 + np.arange(nx)), -90 + 180/ny*(0.5 + np.arange(ny))
    ctx.label(case['what'])
    d = 1/30
    local = {}
    for L in m.loc:
        v = np.ma.array(L['z'][0], mask=~L['zok'], fill_value=np.nan)
        if case['what'] == 'depth':
            v = np.ma.array(L['depth'].astype(float), mask=~L['zok'])
        local[L['name']] = dict(lon=L['lon'], lat=L['lat'], q=v)
    z = m.z[0] if case['what'] == 'z' else m.hz.astype(float)
    xs, ys, zs = OTIS.combine_atlas_model(x, y, np.ma.array(z, mask=False), m.pm, local, variable='q')
    ctx.close(xs, d*(0.5 + np.arange(10800)), 'x30', 0, 1e-9)
    ctx.close(ys, -90 + d*(0.5 + np.arange(5400)), 'y30', 0, 1e-9)
    r = np.random.RandomState(case['seed'])
    # global part at random cells that no local solution covers
    ii, jj = r.randint(0, 10800, 400), r.randint(0, 5400, 400)
    far = np.ones(400, bool)
    for L in m.loc:
        far &= ~((np.abs(ii - L['i0'] - L['nx']/2) < L['nx']/2 + 3) & (np.abs(jj - L['j0'] - L['ny']/2) < L['ny']/2 + 3))
    ii, jj = ii[far], jj[far]
    fx, fy = np.clip((xs[ii] - x[0])/(x[1]-x[0]), 0, nx-1), np.clip((ys[jj] - y[0])/(y[1]-y[0]), 0, ny-1)
    i, j = np.minimum(fx.astype(int), nx-2), np.minimum(fy.astype(int), ny-2)
    wx, wy = fx - i, fy - j
    w = (z[j, i]*(1-wx)*(1-wy) + z[j, i+1]*wx*(1-wy) + z[j+1, i]*(1-wx)*wy + z[j+1, i+1]*wx*wy)
    ctx.close(np.ma.getdata(zs)[jj, ii], w, 'global part', 1e-4, 1e-3*np.max(np.abs(z)))
    # local part: every valid cell within one cell of where it belongs, with one offset for the whole block
    for n, L in enumerate(m.loc):
        if any(abs(L['i0']-K['i0']) < 20 and abs(L['j0']-K['j0']) < 20 for k, K in enumerate(m.loc) if k != n):
            continue
        if L['i0'] < 2:
            continue
        q = local[L['name']]['q']
        jz, iz = np.nonzero(L['zok'])
        best = min(np.max(np.abs(np.ma.getdata(zs)[(L['j0']+jz+b).clip(0, 5399), (L['i0']+iz+a) % 10800] - np.ma.getdata(q)[jz, iz]))
                   for a in (-1, 0) for b in (-1, 0))
        ctx.check(best <= 1e-3, f'local solution {n} is not in the combined model (difference {best})')
    # mask: local cells are valid, the global mask elsewhere
    if case['what'] == 'depth':
        mk = OTIS.create_atlas_mask(x, y, m.mz, local, variable='q')
        near = lambda q, g: np.abs((q - g)/(g[1]-g[0]) - np.floor((q - g)/(g[1]-g[0])) - 0.5)
        gx, gy = np.rint(fx).astype(int), np.rint(fy).astype(int)
        sure = (np.abs(np.abs(fx - np.floor(fx)) - 0.5) > 1e-3) & (np.abs(np.abs(fy - np.floor(fy)) - 0.5) > 1e-3)
        ctx.close(np.ma.getdata(mk)[jj, ii][sure], m.mz[gy, gx][sure], 'global mask', 0, 0)
        for n, L in enumerate(m.loc):
            jz, iz = np.nonzero(L['zok'])
            if L['i0'] < 2:
                continue
            best = max(np.min(np.ma.getdata(mk)[(L['j0']+jz+b).clip(0, 5399), (L['i0']+iz+a) % 10800])
                       for a in (-1, 0) for b in (-1, 0))
            ctx.check(best == 1, f'cells of local solution {n} are not in the mask')


def compact_extract(case, ctx):
    """the whole ATLAS-compact path: grid, mask and constituents at points away from the local solutions"""
    m = Compact(case)
    t = pathlib.Path(ctx.tmp)
    m.write(t)
    nx, ny = case['nx'], case['ny']
    d = 1/30
    x, y = 360/nx*(0.5 + np.arange(nx)), -90 + 180/ny*(0.5 + np.arange(ny))
    r = np.random.RandomState(case['seed'])
    i0, j0 = r.randint(100, 10000), r.randint(300, 5000)
    ii, jj = i0 + r.randint(0, 600, 60), (j0 + r.randint(0, 300, 60)).clip(0, 5390)
    flat = [L for L in m.loc if L.get('flat')]
    if flat:
        # within a local solution, away from its edges
        L = flat[0]
        ii, jj = L['i0'] + r.randint(4, L['nx']-5, 60), L['j0'] + r.randint(4, L['ny']-5, 60)
    ox, oy = r.uniform(0.05, 0.95, 60), r.uniform(0.05, 0.95, 60)

    def glob(z, a, b):
        fx, fy = np.clip((d*(a+0.5) - x[0])/(x[1]-x[0]), 0, nx-1), np.clip((-90 + d*(b+0.5) - y[0])/(y[1]-y[0]), 0, ny-1)
        i, j = np.minimum(fx.astype(int), nx-2), np.minimum(fy.astype(int), ny-2)
        wx, wy = fx - i, fy - j
        v = z[j, i]*(1-wx)*(1-wy) + z[j, i+1]*wx*(1-wy) + z[j+1, i]*(1-wx)*wy + z[j+1, i+1]*wx*wy
        clear = (np.abs(np.abs(fx - np.floor(fx)) - 0.5) > 1e-3) & (np.abs(np.abs(fy - np.floor(fy)) - 0.5) > 1e-3)
        return v, m.mz[np.rint(fy).astype(int), np.rint(fx).astype(int)], clear
    what = case['what']
    q = dict(z=m.z, u=m.u, v=m.v)[what.lower()]
    # nodes of transports lie between two cells of the combined grid
    sx, sy = (1, 0) if what in 'uU' else (0, 1) if what in 'vV' else (0, 0)
    n = len(m.cons)
    W = np.zeros((60, n), complex)
    D0 = np.zeros(60)
    good = np.ones(60, bool)
    allw, alld = np.ones(60, bool), np.ones(60, bool)
    for a, wa in ((0, 1-ox), (1, ox)):
        for b, wb in ((0, 1-oy), (1, oy)):
            h, w, clear = glob(m.hz.astype(float), ii+a, jj+b)
            h2, w2, clear2 = glob(m.hz.astype(float), ii+a-sx, jj+b-sy)
            good &= clear & clear2
            wet = (w == 1) & (h > 0) & (w2 == 1) & (h2 > 0)
            allw &= wet
            alld &= ~wet
            D0 += wa*wb*0.5*(h + h2)
            for k in range(n):
                W[:, k] += wa*wb*glob(q[k], ii+a, jj+b)[0]
    for L in m.loc:
        if flat and L is flat[0]:
            good[:], allw[:], alld[:] = True, True, False
            D0[:] = L['depth'][0, 0]
            for k, c in enumerate(m.cons):
                if c in L['cons']:
                    W[:, k] = L[what.lower()][L['cons'].index(c), 0, 0]
        else:
            good &= ~((np.abs(ii - L['i0'] - L['nx']/2) < L['nx']/2 + 4) & (np.abs(jj - L['j0'] - L['ny']/2) < L['ny']/2 + 4))
    ctx.nt(bool((good & allw).any()))
    ctx.label(what + (' local' if flat else ''))
    lon, lat = d*(ii + 0.5 + ox - 0.5*sx), -90 + d*(jj + 0.5 + oy - 0.5*sy)
    args = (t/'grid', t/('h' if what == 'z' else 'uv'), 'EPSG:4326')
    if case['path'] == 'extract':
        a, p, D, c = OTIS.extract_constants(lon, lat, *args, grid='ATLAS', type=what, crop=True, method='bilinear')
        D = np.asarray(D)
    else:
        cs = OTIS.read_constants(*args, grid='ATLAS', type=what, crop=True, bounds=[lon.min()-1, lon.max()+1, lat.min()-1, lat.max()+1])
        a, p, D = OTIS.interpolate_constants(lon, lat, cs, type=what, method='bilinear')
        c, D = cs.fields, np.asarray(D)
    ctx.check(list(c) == m.cons, f'constituents {c}')
    mk = np.ma.getmaskarray(a)
    ctx.check(not mk[good & allw].any(), 'masked in water of the global solution')
    ctx.check(mk[good & alld].all(), 'not masked on land of the global solution')
    g = good & allw
    ctx.close(D[g], D0[g], 'depth', 1e-4, 1.0)
    if what in 'uv':
        W = W/(D0/100.0)[:, None]
    ctx.close(M.complexes(a, p)[g], W[g], f'constants of {what}', 1e-4, 1e-3*max(1e-3, float(np.abs(W[g]).max(initial=0.0))))



def whole(kinds, path='extract'):
    return st.builds(lambda c, w: {**c, 'what': w, 'path': path, 'cons': c['cons'][:1], 'loc': []}, compact_case(), st.sampled_from(kinds))

@st.composite
def local_case(draw):
    c = draw(compact_case())
    c['cons'] = c['cons'][:2]
    L = dict(nx=draw(st.integers(16, 40)), ny=draw(st.integers(16, 40)), i0=draw(st.integers(60, 10700)), j0=draw(st.integers(200, 5100)),
             cons=draw(st.lists(st.sampled_from(c['cons']), min_size=1, max_size=2, unique=True)), name='flat' + 'x'*draw(st.integers(0, 8)),
             frac=1.0, flat=True)
    # another solution elsewhere, before or after it
    far = [K for K in _local(draw, c['cons'], 1) if abs(K['i0']-L['i0']) > 100 or abs(K['j0']-L['j0']) > 100]
    c['loc'] = far + [L] if draw(st.booleans()) else [L] + far
    return {**c, 'what': draw(st.sampled_from('zuvUV')), 'path': draw(st.sampled_from(['extract', 'read']))}


SUBS = [
    Sub('otis_files', reader_case(), otis_files, 240, 4000, tmp=True, shards=3),
    Sub('tmd3_files', st.fixed_dictionaries(dict(spec=M.specs(formats=['TMD3'], maxcons=4))), tmd3_files, 80, 1500, tmp=True, shards=2),
    Sub('constants', const_case(), constants, 500, 9000, tmp=True, shards=6),
    Sub('compact_files', compact_case(), compact_files, 200, 3000, tmp=True, shards=3),
    Sub('compact_combine', st.builds(lambda c, w: {**c, 'what': w}, compact_case(nmin=1), st.sampled_from(['z', 'depth'])),
        compact_combine, 16, 100, tmp=True, shards=4),
    Sub('compact_local', local_case(), compact_extract, 12, 80, tmp=True, shards=4),
    Sub('compact_z', whole(['z']), compact_extract, 1, 12, tmp=True, shards=1),
    Sub('compact_u', whole(['u', 'U']), compact_extract, 1, 12, tmp=True, shards=1),
    Sub('compact_v', whole(['v', 'V']), compact_extract, 1, 12, tmp=True, shards=1),
    Sub('compact_read', whole(['z', 'u', 'V'], 'read'), compact_extract, 1, 12, tmp=True, shards=1),
]
SUBS.append(large.models('read', ['OTIS', 'OTIS-list', 'TMD3']))
SUBS.append(large.again('read', ['OTIS', 'OTIS-list', 'TMD3']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
