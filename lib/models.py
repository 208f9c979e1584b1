"""Synthetic tide models: generated specs, independent writers of every file format, and the reference values.

A spec is JSON-able.  `Model(spec)` derives the arrays from it; the writers below put them on disk in
the layout the data providers document (OTIS Fortran records, TMD3 / ATLAS / FES / GOT netCDF, FES and
GOT text) without using pyTMD; `Model.ref` evaluates the constants at fractional grid positions.
"""
from harness import np, st
from gen import *
import gzip, json, os, pathlib, struct
import netCDF4

LONG = ['lambda2', 'sigma1', 'theta1']
NAMES = ['m2', 's2', 'n2', 'k2', 'k1', 'o1', 'p1', 'q1', '2n2', 'mu2', 'nu2', 'l2', 't2', 'j1', 'm4', 'ms4',
         'mn4', 'mf', 'mm', 'ssa', '2q1', 'm1', 'oo1', 'rho1', 's1', 'eps2', 'mtm', 'msqm', 'm3', 'm6', 'm8',
         's4', 'n4', 'mks2', 'r2', 'eta2', 'msf', '2sm2', 'mk3', 'sa', 'pi1', 'phi1', 'psi1', 'chi1']

PS_N = dict(proj='stere', lat_0=90, lat_ts=70, lon_0=-45, x_0=0, y_0=0, datum='WGS84', units='km', type='crs')
PS_S = dict(proj='stere', lat_0=-90, lat_ts=-71, lon_0=-70, x_0=0, y_0=0, datum='WGS84', units='km', type='crs')
AEQD = dict(proj='aeqd', lat_0=90, lon_0=270, x_0=0, y_0=0, R=6399938.5716113, units='km', type='crs')
PROJ = dict(PSN=PS_N, PSS=PS_S, AEQD=AEQD)

MULTI = ('OTIS', 'TMD3', 'ATLAS')           # one grid, bathymetry, constituents
FORMATS = ['OTIS', 'OTIS-list', 'TMD3', 'ATLAS-netcdf', 'GOT-ascii', 'GOT-netcdf', 'FES-ascii',
           'FES2012', 'FES2014', 'FES2022', 'EOT20', 'HAMTIDE11']


@st.composite
def specs(draw, formats=FORMATS, glob=None, projected=True, maxcons=3, big=False, names=NAMES):
    fmt = draw(st.sampled_from(formats))
    g = draw(st.booleans()) if glob is None else glob
    proj = None
    if g:
        dx = draw(st.sampled_from([60.0, 45.0, 30.0, 20.0, 15.0, 10.0, 14.4, 7.2, 3.6, 2.4] if not big else [20.0, 15.0, 10.0, 7.5, 5.0, 7.2, 3.6, 2.4]))
        nx = round(360/dx)
        x0 = draw(st.sampled_from([dx/2, 0.0, -180.0+dx/2, -180.0, dx]))
        ny = draw(st.integers(3, 8))
        dy = draw(st.sampled_from([d for d in (5.0, 10.0, 15.0, 20.0) if d*(ny-1) <= 178]))
        y0 = draw(st.sampled_from([-90.0+dy/2, -90.0, 90.0-dy*(ny-1), -dy*(ny//2)]))
        dup = fmt not in ('OTIS', 'OTIS-list', 'TMD3') and draw(st.integers(0, 5)) == 0
    else:
        dup = False
        nx, ny = draw(st.integers(3, 9)), draw(st.integers(3, 8))
        if fmt in ('OTIS', 'OTIS-list', 'TMD3') and projected and draw(st.booleans()):
            proj = draw(st.sampled_from(['PSN', 'PSS', 'AEQD']))
            dx = dy = draw(st.sampled_from([5.0, 20.0, 50.0]))
            x0 = draw(st.integers(-30, 30))*50.0
            y0 = draw(st.integers(-30, 30))*50.0
        else:
            dx, dy = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0])), draw(st.sampled_from([0.25, 0.5, 1.0, 2.0]))
            x0 = draw(st.integers(-170*4, 345*4))/4.0
            y0 = draw(st.integers(-80*4, 65*4))/4.0
    # OTIS files keep four characters of a name
    if names is NAMES and not fmt.startswith('OTIS') and fmt != 'ATLAS-compact' and draw(st.integers(0, 4)) == 0:
        names = NAMES + LONG
    cons = draw(st.lists(st.sampled_from(names), min_size=1, max_size=maxcons, unique=True))
    return dict(fmt=fmt, glob=g, proj=proj, nx=nx, ny=ny, x0=x0, y0=y0, dx=dx, dy=dy, dup=dup, cons=cons,
                seed=draw(st.integers(0, 9999)), land=draw(st.sampled_from([0.0, 0.0, 0.15, 0.4])),
                gz=draw(st.booleans()), flex=draw(st.booleans()))


class Model:
    """arrays of the spec. All (ny, nx), y ascending; hc[var] is (nc, ny, nx)."""
    def __init__(self, spec):
        s = self.spec = spec
        self.fmt, self.cons = s['fmt'], list(s['cons'])
        nx, ny = s['nx'], s['ny']
        self.nx, self.ny, self.dx, self.dy = nx, ny, s['dx'], s['dy']
        self.glob = s['glob']
        # the steps are binary fractions: positions at nodes and edges are exact
        self.dyadic = float(s['dx']*64).is_integer()
        self.x = s['x0'] + s['dx']*np.arange(nx)
        self.y = s['y0'] + s['dy']*np.arange(ny)
        self.otis = self.fmt in ('OTIS', 'OTIS-list', 'TMD3')
        if self.otis and self.x[0] - self.dx/2 < 0 and self.x[-1] + self.dx/2 < 0 and s['proj'] is None and self.fmt != 'TMD3':
            self.xr = self.x + 360.0     # the reader moves wholly negative geographic limits (dt > 0)
        else:
            self.xr = self.x
        r = np.random.RandomState(s['seed'])
        # bathymetry and land
        self.hz = np.round(r.uniform(20, 4000, (ny, nx)), 1).astype('f4')
        land = r.uniform(size=(ny, nx)) < s['land']
        if land.all():
            land[ny//2, nx//2] = False
        # shallow and very deep nodes, in some models
        q = np.random.RandomState(s['seed'] + 77777)
        self.odd = q.uniform() < 0.5
        for h in (self.hz,):
            self.vary(q, h)
        self.hz[land] = 0.0
        # a wet cell whose mask is dry (OTIS only): invalid as well
        self.dry = (r.uniform(size=(ny, nx)) < 0.5*s['land']) & ~land
        self.water = ~land
        nc = len(self.cons)
        self.hc = {}
        for v in ('z', 'u', 'v'):
            a = np.round(r.uniform(0.05, 2.0, (nc, ny, nx)), 3)*(100 if v != 'z' else 1)
            p = np.round(r.uniform(0.0, 360.0, (nc, ny, nx)), 2)
            if self.odd:
                # nodes without motion, and phases of a full turn
                k = q.uniform(size=a.shape)
                if not self.otis:           # in OTIS form zero stands for no data
                    a[k < 0.04] = 0.0
                p[(k > 0.04) & (k < 0.06)] = 0.0
                p[(k > 0.06) & (k < 0.08)] = 360.0
            # phases as -180 to 180 degrees
            if q.uniform() < 0.3:
                p = np.where(p > 180.0, np.round(p - 360.0, 2), p)
            # an amplitude and a phase of zero together stand for no data
            p[(a == 0.0) & (p == 0.0)] = 12.5
            self.hc[v] = a*np.exp(-1j*np.radians(p))
            if v == 'z':
                self.amp, self.ph = a, p
            setattr(self, 'amp_'+v, a)
            setattr(self, 'ph_'+v, p)
        self.flex = np.round(r.uniform(5, 100, (ny, nx)), 0).astype('f4')
        # missing values of the per-constituent formats
        self.miss = r.uniform(size=(nc, ny, nx)) < 0.5*s['land']
        self.miss |= land
        # ATLAS transports are stored on their own nodes with their own depths
        self.hu = np.round(r.uniform(20, 4000, (ny, nx)), 1).astype('f4')
        self.hv = np.round(r.uniform(20, 4000, (ny, nx)), 1).astype('f4')
        self.vary(q, self.hu)
        self.vary(q, self.hv)
        self.hu[r.uniform(size=(ny, nx)) < s['land']] = 0.0
        self.hv[r.uniform(size=(ny, nx)) < s['land']] = 0.0
        if self.otis or self.fmt == 'ATLAS-netcdf':
            for v in self.hc:
                self.hc[v] = self.hc[v].astype('c8').astype('c16')

    def vary(self, q, h):
        k = q.uniform(size=h.shape)
        if self.odd:
            h[k < 0.15] = np.round(q.uniform(0.1, 20, h.shape), 2).astype('f4')[k < 0.15]
            h[k > 0.95] = 10900.0

    # ---- reference grids -------------------------------------------------------------------
    def grid(self, var):
        """x, y of the nodes of a variable, its valid mask (nc, ny, nx), its values and the depth there"""
        nc = len(self.cons)
        x, y = self.xr.copy(), self.y.copy()
        if self.otis:
            if var == 'z':
                ok = (self.hz > 0)
                if self.fmt != 'TMD3' or True:
                    ok = ok & ~self.dry
                D = self.hz.astype(float)
            else:
                w = (self.hz > 0)
                ax = 1 if var == 'u' else 0
                if ax == 1 and self.glob:
                    nb, hb = np.roll(w, 1, 1), np.roll(self.hz, 1, 1)
                else:
                    nb, hb = w.copy(), self.hz.copy()
                    if ax == 1:
                        nb[:, 1:], hb[:, 1:] = w[:, :-1], self.hz[:, :-1]
                    else:
                        nb[1:, :], hb[1:, :] = w[:-1, :], self.hz[:-1, :]
                ok = w & nb
                D = np.where(ok, 0.5*(self.hz.astype(float) + hb), 0.0)
                x, y = (x - self.dx/2, y) if var == 'u' else (x, y - self.dy/2)
            ok = np.broadcast_to(ok, (nc,) + ok.shape)
        elif self.fmt == 'ATLAS-netcdf':
            D = dict(z=self.hz, u=self.hu, v=self.hv)[var].astype(float)
            ok = np.broadcast_to(D > 0, (nc,) + D.shape)
            if var == 'u':
                x = x - self.dx/2
            elif var == 'v':
                y = y - self.dy/2
        else:
            D = np.ones((self.ny, self.nx))
            ok = ~self.miss
        return x, y, ok, self.hc[var], D

    # ---- reference interpolation -------------------------------------------------------------
    def corners(self, var, px, py):
        """corner indices and weights of points in model coordinates; None where outside the nodes"""
        x, y, ok, hc, D = self.grid(var)
        out = []
        for a, b in zip(px, py):
            fj = (b - y[0])/self.dy
            fi = (a - x[0])/self.dx
            if self.glob:
                fi = fi % self.nx
            elif self.spec['proj'] is None:
                # any 360 degree alias that falls in the grid
                for k in (-2, -1, 1, 2):
                    if not (0 <= fi <= self.nx-1):
                        g = (a + 360.0*k - x[0])/self.dx
                        if 0 <= g <= self.nx-1:
                            fi = g
            # on an edge of the domain up to round-off: undecided
            e = 1e-7
            edge = abs(fj) < e or abs(fj - (self.ny-1)) < e
            if not self.glob:
                edge = edge or abs(fi) < e or abs(fi - (self.nx-1)) < e
            exact = self.dyadic and self.spec['proj'] is None and float(fi*64).is_integer() and float(fj*64).is_integer()
            if not exact and edge:
                out.append('edge')
                continue
            if not (0 <= fj <= self.ny-1) or (not self.glob and not (0 <= fi <= self.nx-1)):
                out.append(None)
                continue
            i, j = int(np.floor(fi)), int(np.floor(fj))
            wx, wy = fi - i, fj - j
            c = []
            lo = 0.0 if exact else -e      # nearly unused corners count when the position is inexact
            for di, wi in ((-1, -wx), (0, 1-wx), (1, wx), (2, wx-1)):
                for dj, wj in ((-1, -wy), (0, 1-wy), (1, wy), (2, wy-1)):
                    if not (wi > lo and wj > lo):
                        continue
                    wi_, wj_ = max(wi, 1e-12), max(wj, 1e-12)
                    if di in (0, 1) and dj in (0, 1) and wi*wj > 0:
                        w = wi*wj
                    else:
                        w = 1e-12
                    ii = (i + di) % self.nx if self.glob else i + di
                    if 0 <= j + dj < self.ny and 0 <= ii < self.nx:
                        c.append((j + dj, ii, w))
            out.append(c)
        return out

    def ref(self, var, px, py, method, flex=False):
        """complex constants (npts, nc), status (npts, nc): 1 valid, 0 invalid, -1 undecided; depth (npts)"""
        x, y, ok, hc, D = self.grid(var)
        hc = hc*(self.flex/100.0) if flex and var == 'z' else hc
        nc, n = len(self.cons), len(px)
        V = np.zeros((n, nc), complex)
        S = np.zeros((n, nc), int)
        d = np.zeros(n)
        for p, c in enumerate(self.corners(var, px, py)):
            if c is None:
                continue
            if c == 'edge':
                S[p] = -1
                continue
            if method == 'nearest':
                w = max(q[2] for q in c)
                best = [q for q in c if q[2] > w - 1e-6]
                if len(best) > 1:
                    S[p] = -1
                    continue
                c = [(best[0][0], best[0][1], 1.0)]
            tiny = any(q[2] < 1e-7 for q in c)
            for k in range(nc):
                good = [q for q in c if ok[k][q[0], q[1]]]
                if method == 'bilinear':
                    W = sum(q[2] for q in good)
                    if not good:
                        continue
                    if tiny and len(good) < len(c):
                        S[p, k] = -1
                        continue
                    V[p, k] = sum(hc[k][q[0], q[1]]*q[2] for q in good)/W
                    d[p] = sum(D[q[0], q[1]]*q[2] for q in good)/W
                    S[p, k] = 1
                else:
                    if len(good) < len(c):
                        S[p, k] = -1 if tiny else 0
                        continue
                    V[p, k] = sum(hc[k][q[0], q[1]]*q[2] for q in c)
                    d[p] = sum(D[q[0], q[1]]*q[2] for q in c)
                    S[p, k] = 1
        return V, S, d

    # ---- geographic coordinates of model coordinates --------------------------------------------
    def lonlat(self, px, py):
        p = self.spec['proj']
        if p is None:
            return np.asarray(px, float), np.asarray(py, float)
        import pyproj
        tr = pyproj.Transformer.from_crs(pyproj.CRS.from_dict({k: v for k, v in PROJ[p].items()}),
                                         pyproj.CRS.from_epsg(4326), always_xy=True)
        a, b = tr.transform(np.asarray(px, float), np.asarray(py, float))
        return np.asarray(a), np.asarray(b)

    @property
    def projection(self):
        p = self.spec['proj']
        return 'EPSG:4326' if p is None else dict(PROJ[p])


# ---- writers -------------------------------------------------------------------------------------
def rec(fid, *parts):
    """one Fortran sequential record"""
    b = b''.join(parts)
    fid.write(struct.pack('>i', len(b)) + b + struct.pack('>i', len(b)))


def f4(*v):
    return np.asarray(v, dtype='>f4').tobytes()


def i4(*v):
    return np.asarray(v, dtype='>i4').tobytes()


def pairs(*planes):
    """interleaved real and imaginary parts of complex planes"""
    n = planes[0].size
    out = np.zeros((n, 2*len(planes)), '>f4')
    for k, p in enumerate(planes):
        out[:, 2*k] = np.asarray(p).real.ravel()
        out[:, 2*k+1] = np.asarray(p).imag.ravel()
    return out.tobytes()


def otis_grid(path, m, dt=12.0, iob=None):
    xl = (m.x[0] - m.dx/2, m.x[-1] + m.dx/2)
    yl = (m.y[0] - m.dy/2, m.y[-1] + m.dy/2)
    if m.spec['proj'] is not None:
        dt = 0.0 if (xl[0] < 0 and xl[1] < 0) else dt
    iob = [] if iob is None else iob
    with open(path, 'wb') as f:
        rec(f, i4(m.nx, m.ny), f4(*yl), f4(*xl), f4(dt), i4(len(iob)))
        rec(f, i4(*np.ravel(iob))) if len(iob) else rec(f, i4(0))
        rec(f, m.hz.astype('>f4').tobytes())
        rec(f, ((m.hz > 0) & ~m.dry).astype('>i4').tobytes())
    return dt


def otis_head(m, cons):
    xl = (m.x[0] - m.dx/2, m.x[-1] + m.dx/2)
    yl = (m.y[0] - m.dy/2, m.y[-1] + m.dy/2)
    return [i4(m.nx, m.ny, len(cons)), f4(*yl), f4(*xl), b''.join(c.ljust(4).encode() for c in cons)]


def otis_elevation(path, m, ks=None):
    ks = range(len(m.cons)) if ks is None else ks
    with open(path, 'wb') as f:
        rec(f, *otis_head(m, [m.cons[k] for k in ks]))
        for k in ks:
            rec(f, pairs(m.hc['z'][k]))


def otis_transport(path, m, ks=None):
    ks = range(len(m.cons)) if ks is None else ks
    with open(path, 'wb') as f:
        rec(f, *otis_head(m, [m.cons[k] for k in ks]))
        for k in ks:
            rec(f, pairs(m.hc['u'][k], m.hc['v'][k]))


def tmd3(path, m):
    with netCDF4.Dataset(path, 'w') as d:
        d.createDimension('x', m.nx)
        d.createDimension('y', m.ny)
        d.createDimension('constituents', len(m.cons))
        def put(name, dims, val, t='f4'):
            v = d.createVariable(name, t, dims)
            v[:] = val
            return v
        put('x', ('x',), m.x, 'f8')
        put('y', ('y',), m.y[::-1], 'f8')
        put('wct', ('y', 'x'), m.hz[::-1])
        put('mask', ('y', 'x'), ((m.hz > 0) & ~m.dry)[::-1].astype('i1'), 'i1')
        put('flexure', ('y', 'x'), m.flex[::-1])
        v = put('constituents', ('constituents',), np.arange(len(m.cons)), 'i4')
        v.constituent_order = ' '.join(m.cons)
        for n, q in (('h', 'z'), ('U', 'u'), ('V', 'v')):
            put(n+'Re', ('constituents', 'y', 'x'), m.hc[q].real[:, ::-1])
            put(n+'Im', ('constituents', 'y', 'x'), -m.hc[q].imag[:, ::-1])


def _gz(path, on):
    if on:
        b = open(path, 'rb').read()
        out = str(path) + '.gz'
        with gzip.open(out, 'wb', compresslevel=1) as f:
            f.write(b)
        os.remove(path)
        return out
    return str(path)


def atlas_grid(path, m):
    with netCDF4.Dataset(path, 'w') as d:
        d.createDimension('nx', m.nx)
        d.createDimension('ny', m.ny)
        for v, h in (('z', m.hz), ('u', m.hu), ('v', m.hv)):
            x, y = m.grid(v)[:2]
            a = d.createVariable('lon_'+v, 'f8', ('nx',))
            a[:] = x
            a = d.createVariable('lat_'+v, 'f8', ('ny',))
            a[:] = y
            a = d.createVariable('h'+v, 'f4', ('nx', 'ny'))
            a[:] = h.T


def atlas_cons(path, m, k, kind):
    with netCDF4.Dataset(path, 'w') as d:
        d.createDimension('nx', m.nx)
        d.createDimension('ny', m.ny)
        nct = max(4, len(m.cons[k]))
        d.createDimension('nct', nct)
        c = d.createVariable('con', 'S1', ('nct',))
        c[:] = np.array([ch.encode() for ch in m.cons[k].ljust(nct)], dtype='S1')
        for v in (('z',) if kind == 'h' else ('u', 'v')):
            n = 'h' if v == 'z' else v
            for part, val in (('Re', m.hc[v][k].real), ('Im', m.hc[v][k].imag)):
                a = d.createVariable(n+part, 'f4', ('nx', 'ny'))
                a[:] = val.T


def got_ascii(path, m, k, fill=999.0):
    A = np.where(m.miss[k], fill, m.amp_z[k])
    P = np.where(m.miss[k], fill, m.ph_z[k])
    x1, y1 = m.x[-1], m.y[-1]
    with open(path, 'w') as f:
        for t, F in (('AMPLITUDE', A), ('PHASE', P)):
            f.write(f'{m.cons[k].upper()} ocean tide\n')
            f.write(f'generated {t}\n')
            f.write(f'{m.ny:8d}{m.nx:8d}\n')
            f.write(f'{m.y[0]:12.4f}{y1:12.4f}\n')
            f.write(f'{m.x[0]:12.4f}{x1:12.4f}\n')
            f.write(f'{fill:9.2f}{fill:9.2f}\n')
            f.write('(11f9.3)\n')
            for j in range(m.ny):
                for i in range(0, m.nx, 11):
                    f.write(''.join(f'{v:9.3f}' for v in F[j, i:i+11]) + '\n')


def netcdf_field(path, m, k, var, names, dup, fill=None, attrs=None, nan=False):
    lon, lat, an, pn, xd, yd = names
    A = getattr(m, 'amp_'+var)[k]
    P = getattr(m, 'ph_'+var)[k]
    x, M = m.x, m.miss[k]
    if dup:
        x = np.append(x, x[0] + 360.0)
        A, P, M = (np.concatenate([q, q[:, :1]], axis=1) for q in (A, P, M))
    with netCDF4.Dataset(path, 'w') as d:
        d.createDimension(xd, len(x))
        d.createDimension(yd, m.ny)
        v = d.createVariable(lon, 'f8', (xd,))
        v[:] = x
        v = d.createVariable(lat, 'f8', (yd,))
        v[:] = m.y
        for n, F in ((an, A), (pn, P)):
            if nan:
                v = d.createVariable(n, 'f8', (yd, xd))
                v[:] = np.where(M, np.nan, F)
            else:
                v = d.createVariable(n, 'f8', (yd, xd), fill_value=fill)
                v[:] = np.ma.array(F, mask=M)
        for a, b in (attrs or {}).items():
            d.setncattr(a, b)


def fes_ascii(path, m, k, fill=99.99):
    fill = 999.9
    A = np.where(m.miss[k], fill, m.amp_z[k])
    P = np.where(m.miss[k], fill, m.ph_z[k])
    with open(path, 'w') as f:
        f.write(f'{m.x[0]:10.3f}{m.x[-1]:10.3f}\n{m.y[0]:10.3f}{m.y[-1]:10.3f}\n')
        f.write(f'{m.dx:10.3f}{m.dy:10.3f}\n{m.nx:6d}{m.ny:6d}\n{fill:10.3f}{fill:10.3f}\n')
        for j in range(m.ny):
            for i in range(0, m.nx, 30):
                f.write(''.join(f'{v:9.3f}' for v in A[j, i:i+30]) + '\n')
                f.write(''.join(f'{v:9.3f}' for v in P[j, i:i+30]) + '\n')


FES_NAMES = {
    'FES2012': dict(z=('Ha', 'Hg'), u=('Ua', 'Ug'), v=('Va', 'Vg')),
    'FES2014': dict(z=('amplitude', 'phase'), u=('Ua', 'Ug'), v=('Va', 'Vg')),
    'HAMTIDE11': dict(z=('AMPL', 'PHAS'), u=('UAMP', 'UPHA'), v=('VAMP', 'VPHA')),
}
FES_NAMES['FES2022'] = FES_NAMES['EOT20'] = FES_NAMES['FES2014']


def write(m, folder, var='z', scale=None):
    """Put the model on disk and return its definition (paths absolute)."""
    folder = pathlib.Path(folder)
    folder.mkdir(parents=True, exist_ok=True)
    s = m.spec
    fmt = m.fmt
    kind = 'z' if var == 'z' else ['u', 'v']
    d = dict(name='synthetic-' + fmt, type=kind)
    if var == 'z':
        d['variable'] = 'tide_ocean'
        d['reference'] = 'generated'
    gz = bool(s['gz'])
    if fmt in ('OTIS', 'OTIS-list'):
        otis_grid(folder/'grid', m)
        d.update(format='OTIS', grid_file=str(folder/'grid'), projection=m.projection)
        w = otis_elevation if var == 'z' else otis_transport
        if fmt == 'OTIS':
            w(folder/'model', m)
            mf = str(folder/'model')
        else:
            mf = []
            for k, c in enumerate(m.cons):
                w(folder/f'model_{c}', m, [k])
                mf.append(str(folder/f'model_{c}'))
        d['model_file'] = mf if var == 'z' else dict(u=mf, v=mf)
    elif fmt == 'TMD3':
        tmd3(folder/'model.nc', m)
        p = str(folder/'model.nc')
        d.update(format='TMD3', grid_file=p, projection=m.projection, model_file=p if var == 'z' else dict(u=p, v=p))
    elif fmt == 'ATLAS-netcdf':
        atlas_grid(folder/'grid.nc', m)
        g = _gz(folder/'grid.nc', gz)
        mf = []
        for k, c in enumerate(m.cons):
            p = folder/f'{"h" if var == "z" else "u"}_{c}_synth.nc'
            atlas_cons(p, m, k, 'h' if var == 'z' else 'u')
            mf.append(_gz(p, gz))
        d.update(format=fmt, grid_file=g, projection='EPSG:4326', model_file=mf if var == 'z' else dict(u=mf, v=list(mf)),
                 scale=scale or 1.0, compressed=gz)
    elif fmt in ('GOT-ascii', 'GOT-netcdf'):
        mf = []
        for k, c in enumerate(m.cons):
            if fmt == 'GOT-ascii':
                p = folder/f'{c}.d'
                got_ascii(p, m, k)
            else:
                p = folder/f'{c}.nc'
                netcdf_field(p, m, k, 'z', ('longitude', 'latitude', 'amplitude', 'phase', 'longitude', 'latitude'), s['dup'],
                             fill=[None, -999.0, 1e20][s['seed'] % 3], nan=s['seed'] % 4 == 3, attrs=dict(Constituent=c.upper()))
            mf.append(_gz(p, gz))
        d.update(format=fmt, model_file=mf, scale=scale or 0.01, compressed=gz)
    else:
        version = 'FES2004' if fmt == 'FES-ascii' else fmt
        out = {}
        for v in (['z'] if var == 'z' else ['u', 'v']):
            sub = folder/v
            sub.mkdir(exist_ok=True)
            out[v] = []
            for k, c in enumerate(m.cons):
                p = sub/(f'{c}.asc' if fmt == 'FES-ascii' else f'{c}.nc')
                if fmt == 'FES-ascii':
                    fes_ascii(p, m, k)
                else:
                    a, g = FES_NAMES[fmt][v]
                    ll = ('LON', 'LAT') if fmt == 'HAMTIDE11' else ('lon', 'lat')
                    netcdf_field(p, m, k, v, (ll[0], ll[1], a, g, ll[0], ll[1]), s['dup'],
                                 fill=[None, -999.0, 1e20][s['seed'] % 3], nan=s['seed'] % 4 == 3)
                out[v].append(_gz(p, gz))
        d.update(format='FES-ascii' if fmt == 'FES-ascii' else 'FES-netcdf', version=version,
                 model_file=out['z'] if var == 'z' else out, scale=scale or (0.01 if var == 'z' else 1.0), compressed=gz)
    return d


def definition(d, path, **extra):
    """model definition file"""
    d = {**d, **extra}
    with open(path, 'w') as f:
        json.dump(d, f)
    return str(path)


# ---- points -----------------------------------------------------------------------------------------
def positions(nmax=6, out=True):
    """fractional node positions: [fi, fj, k]; fi, fj in units of the grid's extent, dyadic"""
    e = st.one_of(st.integers(0, 64).map(lambda i: i/64.0), fl(0.0, 1.0), st.sampled_from([0.0, 1.0]))
    if out:
        e = st.one_of(e, e, e, st.sampled_from([-0.5, 1.5, -0.1, 1.1, 2.0, -1.0]))
    return lists(st.tuples(e, e, st.sampled_from([0, 0, 0, 1, -1])).map(list), 1, nmax)


def locate(m, pos, var='z', margin=0.0):
    """model coordinates of the positions.  Fractions scale to the node index range (nodes drawn often)."""
    x, y = m.grid(var)[:2]
    px, py = [], []
    for a, b, k in pos:
        n = m.nx if m.glob else m.nx - 1
        fi, fj = a*n, b*(m.ny - 1)
        fi, fj = np.round(fi*8)/8 if abs(fi*8-round(fi*8)) < 0.3 else fi, np.round(fj*8)/8 if abs(fj*8-round(fj*8)) < 0.3 else fj
        if not m.dyadic:
            i = min(np.floor(fi), n - 1 if 0 <= a <= 1 else 2*n - 1)      # longitudes are moved by one cycle
            fi = i + np.clip(fi - i, 0.1, 0.9)
        k = k if 0 <= a <= 1 else 0
        px.append(x[0] + m.dx*fi + (360.0*k if m.spec['proj'] is None else 0.0))
        py.append(y[0] + m.dy*fj)
    py = np.array(py)
    if m.spec['proj'] is None:
        py = np.clip(py, -90.0, 90.0)
    return np.array(px), py


# ---- the library's view of a model on disk ------------------------------------------------------------
def obj(d, directory=None):
    """pyTMD model object of a definition"""
    from pyTMD.io import model
    m = model(directory, compressed=d.get('compressed', False), verify=False).from_dict(json.loads(json.dumps(d)))
    if getattr(m, 'grid_file', None):
        m.grid_file = pathlib.Path(m.grid_file)
    if m.format.startswith('FES'):
        m.parse_constituents()
    return m


def want(m, d, var, px, py, method, flex=False, transport=False):
    """expected complex constants in output units, status, depth"""
    V, S, D = m.ref(var, px, py, method, flex=flex)
    if d['format'] in ('OTIS', 'ATLAS-compact', 'TMD3'):
        W = V
    else:
        W = V*d.get('scale', 1.0)
    if var != 'z' and not transport and d['format'] in ('OTIS', 'ATLAS-compact', 'TMD3', 'ATLAS-netcdf'):
        W = W/np.where(D > 0, D/100.0, 1.0)[:, None]
    return W, S, D


def complexes(a, p):
    return np.ma.getdata(a)*np.exp(-1j*np.radians(np.ma.getdata(p)))


def compare(ctx, m, d, a, p, W, S, what):
    """amplitude and phase against expected constants: masks exact where decided, values where valid"""
    mk, pk = np.ma.getmaskarray(a), np.ma.getmaskarray(p)
    if mk.shape != S.shape:
        ctx.fail(f'{what}: shape {mk.shape} expected {S.shape}')
    if np.any(mk != pk):
        ctx.fail(f'{what}: masks of amplitude and phase differ')
    if np.any((S == 1) & mk):
        i = np.argwhere((S == 1) & mk)[0]
        ctx.fail(f'{what}: masked where the model is valid, at {i.tolist()}')
    if np.any((S == 0) & ~mk):
        i = np.argwhere((S == 0) & ~mk)[0]
        ctx.fail(f'{what}: not masked where the model is invalid, at {i.tolist()} (value {np.ma.getdata(a)[tuple(i)]!r})')
    g = S == 1
    if not g.any():
        return
    z = complexes(a, p)
    size = np.max(np.abs(W[g]))
    tol = (3e-5 if m.spec['proj'] else 3e-6)*size
    bad = g & ~(np.abs(z - W) <= tol + 1e-5*np.abs(W))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.fail(f'{what}: constant {z[i]!r} expected {W[i]!r} at {list(map(int, i))}')
    ph = np.ma.getdata(p)[g]
    if np.any((ph < 0) | (ph > 360)):
        ctx.fail(f'{what}: phase outside of [0, 360]')
