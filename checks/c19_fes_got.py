"""C19: FES (text and netCDF, every version) and GOT (text and netCDF) files decode to the constants they encode."""
import _boot
from harness import *
from gen import *
import large
import models as M
import pathlib
from pyTMD.io import FES, GOT

PROPERTY = 'C19'
RULE = 'non-trivial: the files hold a missing value or several rows of text (readers); a point is valid (constants); a point is valid in two files (mixed grids)'
ASSUMPTIONS = ['generated files follow the providers\' layouts: GOT text (11 values per line, amplitude block then phase block), '
               'FES text (30 values per line, alternating), and the netCDF variable names of each version']
METHODS = ['spline', 'spline', 'bilinear', 'linear', 'nearest']
FMT = ['GOT-ascii', 'GOT-netcdf', 'FES-ascii', 'FES2012', 'FES2014', 'FES2022', 'EOT20', 'HAMTIDE11']


@st.composite
def file_case(draw):
    s = draw(M.specs(formats=FMT, maxcons=2))
    if draw(st.integers(0, 3)) == 0 and not s['glob']:
        s['nx'] = draw(st.integers(10, 70))      # several lines of text per row
        s['dx'] = 0.25
    v = draw(st.sampled_from('zzuv')) if s['fmt'] in M.FES_NAMES else 'z'
    return dict(spec=s, var=v)


def read(d, f, var):
    if d['format'].startswith('GOT'):
        fn = GOT.read_ascii_file if d['format'] == 'GOT-ascii' else GOT.read_netcdf_file
        return fn(f, compressed=d['compressed'])
    fn = FES.read_ascii_file if d['format'] == 'FES-ascii' else FES.read_netcdf_file
    return fn(f, compressed=d['compressed'], type=var, version=d['version']) + (None,)


def files(case, ctx):
    m = M.Model(case['spec'])
    v = case['var']
    d = M.write(m, ctx.tmp, 'z' if v == 'z' else 'uv')
    mf = d['model_file'] if v == 'z' else d['model_file'][v]
    ctx.label(m.fmt + ':' + v)
    ctx.nt(bool(m.miss.any()) or m.nx > 30)
    for k, c in enumerate(m.cons):
        hc, lon, lat, con = read(d, mf[k], v)
        x = np.append(m.x, m.x[0]+360.0) if m.spec['dup'] and not m.fmt.endswith('ascii') else m.x
        H, K = m.hc[v][k], m.miss[k]
        if len(x) > m.nx:
            H, K = np.c_[H, H[:, :1]], np.c_[K, K[:, :1]]
        ctx.close(np.ma.getdata(lon), x, 'longitude', 1e-9, 1e-9)
        ctx.close(np.ma.getdata(lat), m.y, 'latitude', 1e-9, 1e-9)
        ctx.close(np.ma.getmaskarray(hc), K, f'mask of {c}', 0, 0)
        ctx.close(np.ma.getdata(hc)[~K], H[~K], f'constants of {c}', 2e-6, 2e-6*np.max(np.abs(H)))
        if con is not None:
            ctx.check(con == c, f'constituent {con!r} expected {c!r}')


@st.composite
def const_case(draw):
    s = draw(M.specs(formats=FMT, maxcons=3))
    v = draw(st.sampled_from('zzuv')) if s['fmt'] in M.FES_NAMES else 'z'
    return dict(spec=s, pos=draw(M.positions()), var=v, method=draw(st.sampled_from(METHODS)),
                scale=draw(st.sampled_from([1.0, 0.001, 0.01])))


def constants(case, ctx):
    m = M.Model(case['spec'])
    v = case['var']
    d = M.write(m, ctx.tmp, 'z' if v == 'z' else 'uv', scale=case['scale'])
    mf = d['model_file'] if v == 'z' else d['model_file'][v]
    lon, lat = M.locate(m, case['pos'], v)
    W, S, D = M.want(m, d, v, lon, lat, case['method'])
    for q in (m.fmt + ':' + v, 'global' if m.glob else 'regional', case['method']):
        ctx.label(q)
    ctx.nt(bool((S == 1).any()))
    kw = dict(compressed=d['compressed'])
    if d['format'].startswith('GOT'):
        kw['grid'] = d['format'][4:]
        a, p, c = GOT.extract_constants(lon, lat, mf, method=case['method'], scale=case['scale'], **kw)
        ctx.check(list(c) == m.cons, f'constituents {c} expected {m.cons}')
        mod = GOT
    else:
        kw.update(type=v, version=d['version'])
        a, p = FES.extract_constants(lon, lat, mf, method=case['method'], scale=case['scale'], **kw)
        mod = FES
    M.compare(ctx, m, d, a, p, W, S, 'extract')
    cons = mod.read_constants(mf, **kw)
    ctx.check(list(cons.fields) == m.cons, f'fields {cons.fields}')
    # global grids may be extended cyclically: every node must hold the value of the node it stands for
    lo = np.ma.getdata(cons.longitude)
    col = (lo - m.x[0])/m.dx
    ctx.check(np.all(np.abs(col - np.rint(col)) < 1e-6) and np.all(np.diff(lo) > 0), f'longitudes of the nodes {lo}')
    col = np.rint(col).astype(int)
    ctx.check(set(range(m.nx)) <= set(col) and (m.glob or len(col) == m.nx), f'columns of the grid {col}')
    col = col % m.nx
    ctx.close(np.ma.getdata(cons.latitude), m.y, 'latitude', 1e-9, 1e-9)
    for k, n in enumerate(m.cons):
        h = cons.get(n)
        mk = np.ma.getmaskarray(h)
        ctx.close(mk, m.miss[k][:, col], f'mask of {n}', 0, 0)
        ctx.close(np.ma.getdata(h)[~mk], m.hc[v][k][:, col][~mk], f'field of {n}', 2e-6, 2e-6*np.max(np.abs(m.hc[v])))
    a, p = mod.interpolate_constants(lon, lat, cons, method=case['method'], scale=case['scale'])
    M.compare(ctx, m, d, a, p, W, S, 'interpolate')


@st.composite
def mixed_case(draw):
    a = draw(M.specs(formats=FMT, maxcons=1))
    v = draw(st.sampled_from('zzuv')) if a['fmt'] in M.FES_NAMES else 'z'
    rest = []
    for c in draw(st.lists(st.sampled_from([n for n in ('m2', 's2', 'k1', 'o1') if n not in a['cons']]), min_size=1, max_size=2, unique=True)):
        b = draw(M.specs(formats=[a['fmt']], maxcons=1))
        b['cons'] = [c]
        if draw(st.booleans()):
            # the same place and extent
            for k in ('nx', 'ny', 'dx', 'dy', 'x0', 'y0', 'glob', 'dup'):
                if k in a:
                    b[k] = a[k]
        if draw(st.booleans()) and not b['glob'] and not 0 < b['x0'] <= 180:
            # the other convention of longitude
            b['x0'] = b['x0'] + (360.0 if b['x0'] <= 0 else -360.0)
        b['gz'] = a['gz']
        rest.append(b)
    return dict(specs=[a] + rest, pos=draw(M.positions()), which=draw(st.integers(0, 2)), var=v, method=draw(st.sampled_from(METHODS)))


def mixed(case, ctx):
    v = case['var']
    ms = [M.Model(s) for s in case['specs']]
    files, ds = [], []
    for i, m in enumerate(ms):
        d = M.write(m, f'{ctx.tmp}/m{i}', 'z' if v == 'z' else 'uv')
        files += d['model_file'] if v == 'z' else d['model_file'][v]
        ds.append(d)
    lon, lat = M.locate(ms[case['which'] % len(ms)], case['pos'], v)
    # longitudes of either convention
    lon = np.where((lon < -180) | (lon >= 360), np.mod(lon, 360.0), lon)
    if ds[0]['format'].startswith('GOT'):
        a, p, c = GOT.extract_constants(lon, lat, files, method=case['method'], compressed=ds[0]['compressed'], grid=ds[0]['format'][4:])
    else:
        a, p = FES.extract_constants(lon, lat, files, method=case['method'], compressed=ds[0]['compressed'], type=v, version=ds[0]['version'])
    ctx.check(a.shape == (len(lon), len(ms)), f'shape {a.shape}')
    n = 0
    for i, (m, d) in enumerate(zip(ms, ds)):
        W, S, D = M.want(m, dict(d, scale=1.0), v, lon, lat, case['method'])
        n += bool((S == 1).any())
        M.compare(ctx, m, d, a[:, i:i+1], p[:, i:i+1], W, S, f'file {i}')
    ctx.nt(n > 1)
    ctx.label(ms[0].fmt)


SUBS = [
    Sub('files', file_case(), files, 300, 4000, tmp=True, shards=4),
    Sub('mixed', mixed_case(), mixed, 300, 4000, tmp=True, shards=4),
    Sub('constants', const_case(), constants, 600, 9000, tmp=True, shards=6),
]
SUBS.append(large.models('read', ['GOT-ascii', 'GOT-netcdf', 'FES-ascii', 'FES2012', 'FES2014', 'FES2022', 'EOT20', 'HAMTIDE11']))
SUBS.append(large.again('read', ['GOT-ascii', 'GOT-netcdf', 'FES-ascii', 'FES2012', 'FES2014', 'FES2022', 'EOT20', 'HAMTIDE11']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
