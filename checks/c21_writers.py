"""C21: model files written by the library read back as the model they were given."""
import _boot
from harness import *
from gen import *
import models as M
import pathlib, netCDF4
from pyTMD.io import OTIS, ATLAS, FES, GOT

PROPERTY = 'C21'
RULE = 'non-trivial: the grid has invalid nodes, open boundaries, or an input that is not a contiguous array of the format\'s own type'
ASSUMPTIONS = ['constants of valid nodes are not exactly zero (zero is no data for the readers)', 'OTIS constituents have at most four characters (the format\'s field)', 'FES and GOT constants are masked arrays (as the readers return)']
LONG = ['lambda2', 'sigma1', 'theta1', 'alpha2', 'eps2', 'msqm']


@st.composite
def case_st(draw):
    fmt = draw(st.sampled_from(['OTIS', 'OTIS', 'ATLAS', 'FES', 'GOT']))
    src = dict(OTIS='OTIS', ATLAS='ATLAS-netcdf', FES='FES2014', GOT='GOT-netcdf')[fmt]
    s = draw(M.specs(formats=[src], maxcons=3, projected=fmt == 'OTIS'))
    s['dup'] = False
    names = draw(lists(st.sampled_from(M.NAMES + (LONG if fmt != 'OTIS' else [])), 1, 3))
    s['cons'] = list(dict.fromkeys(n for n in names if fmt != 'OTIS' or len(n) <= 4)) or ['m2']
    n = draw(st.integers(0, 4))
    return dict(spec=s, fmt=fmt, var=draw(st.sampled_from('zzuv')) if fmt != 'GOT' else 'z',
                dtype=draw(st.sampled_from(['f4', 'f8', '>f4', '>f8'])), order=draw(st.sampled_from(['C', 'F', 'reversed', 'strided'])),
                nob=draw(lists(st.tuples(st.integers(1, 40), st.integers(1, 40)).map(list), 0, 5)) if fmt == 'OTIS' else [],
                iob=draw(st.sampled_from(['list', 'array', 'f8'])), lim=draw(st.sampled_from(['list', 'tuple', 'array', 'f4'])),
                masked=draw(st.booleans()), mi=draw(st.sampled_from(['i4', 'i8', 'bool', 'f8'])),
                path=draw(st.sampled_from(['str', 'path'])), method=draw(st.sampled_from(['spline', 'bilinear', 'linear'])),
                pos=draw(M.positions(4)), fill=draw(st.sampled_from([None, -9999.0, 0.0])))


def layout(a, order):
    """the same values in another memory layout"""
    a = np.asarray(a)
    if order == 'F':
        return np.asfortranarray(a)
    if order == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    if order == 'strided':
        b = np.zeros(a.shape[:-1] + (2*a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    return np.ascontiguousarray(a)


def writers(case, ctx):
    m = M.Model(case['spec'])
    for a in m.hc.values():
        a[a == 0] = 0.25
    d = pathlib.Path(ctx.tmp)
    dt, var = np.dtype(case['dtype']), case['var']
    native = dt.newbyteorder('=')
    ctype = np.dtype('c8') if native.itemsize == 4 else np.dtype('c16')
    order, fmt = case['order'], case['fmt']
    P = (lambda n: str(d/n)) if case['path'] == 'str' else (lambda n: d/n)
    lon, lat = M.locate(m, case['pos'], var)
    W, S, D = M.want(m, dict(format=fmt, scale=1.0), var, lon, lat, case['method'])
    ctx.label(fmt + ':' + var); ctx.label(case['dtype'] + order)
    ctx.nt(bool((m.hz == 0).any()) or len(case['nob']) > 0 or order != 'C' or case['dtype'] != 'f4')
    kw = dict(method=case['method'])
    ma = lambda a, k: layout_ma(a, k, order, case['fill'])
    if fmt == 'OTIS':
        xl = [m.x[0]-m.dx/2, m.x[-1]+m.dx/2]
        yl = [m.y[0]-m.dy/2, m.y[-1]+m.dy/2]
        lim = dict(list=list, tuple=tuple, array=np.array, f4=lambda a: np.array(a, 'f4'))[case['lim']]
        mz = ((m.hz > 0) & ~m.dry).astype(case['mi'])
        iob = case['nob'] if case['iob'] == 'list' else np.array(case['nob'], 'i4' if case['iob'] == 'array' else 'f8')
        step = 0.0 if m.spec['proj'] is not None and xl[1] < 0 else 12.0
        hz = layout(m.hz.astype(dt), order)
        hz0, mz0 = copy_of(hz), copy_of(mz)
        OTIS.output_otis_grid(P('grid'), lim(xl), lim(yl), hz, layout(mz, order), iob, step)
        ctx.check(same(hz, hz0) and same(mz, mz0), 'the writer modified its input')
        x, y, h, mk, ib, t = OTIS.read_otis_grid(P('grid'))
        ctx.close(x, m.xr, 'x', 2e-6, 2e-6*np.max(np.abs(xl)))
        ctx.close(y, m.y, 'y', 2e-6, 2e-6*np.max(np.abs(yl)))
        ctx.close(h, m.hz, 'bathymetry', 0, 0)
        ctx.close(mk, mz.astype(int), 'mask', 0, 0)
        ctx.check(np.array_equal(np.array(ib, int).reshape(-1, 2), np.array(case['nob'], int).reshape(-1, 2)), f'open boundary {ib} expected {case["nob"]}')
        ctx.check(t == np.float32(step), f'time step {t}')
        st3 = lambda v: layout(np.stack(list(m.hc[v]), axis=-1).astype(ctype), order)
        if var == 'z':
            OTIS.output_otis_elevation(P('model'), st3('z'), lim(xl), lim(yl), m.cons)
        else:
            OTIS.output_otis_transport(P('model'), st3('u'), st3('v'), lim(xl), lim(yl), m.cons)
        ctx.check(list(OTIS.read_constituents(P('model'))[0]) == m.cons, 'constituents of the file')
        for k in range(len(m.cons)):
            if var == 'z':
                got = dict(z=OTIS.read_otis_elevation(P('model'), k))
            else:
                u, v = OTIS.read_otis_transport(P('model'), k)
                got = dict(u=u, v=v)
            for q, g in got.items():
                ctx.check(not np.ma.getmaskarray(g).any(), 'mask of the constants')
                ctx.close(np.ma.getdata(g), m.hc[q][k], f'constants {q} of {m.cons[k]}', 1e-6, 1e-6)
        pl, pt = m.lonlat(lon, lat)
        a, p, dep, c = OTIS.extract_constants(pl, pt, P('grid'), P('model'), m.projection, type=var.upper() if var != 'z' else 'z', grid='OTIS', **kw)
    elif fmt == 'ATLAS':
        u_, v_ = m.x - m.dx/2, m.y - m.dy/2
        g = [layout(q.astype(native), order) for q in (m.hz, m.hu, m.hv)]
        if case['masked']:
            g = [np.ma.array(q, mask=q == 0) for q in g]
        L = [q.astype('f8') for q in (m.x, m.y, u_, m.y, m.x, v_)]
        ATLAS.output_netcdf_grid(P('grid.nc'), *g, *L)
        for t, h, x, y in (('z', m.hz, m.x, m.y), ('u', m.hu, u_, m.y), ('v', m.hv, m.x, v_)):
            for T in {t, t.upper()} if t != 'z' else {'z'}:
                a, b, c = ATLAS.read_netcdf_grid(P('grid.nc'), T)
                ctx.close(np.ma.getdata(a), x, 'longitude', 1e-12, 1e-12)
                ctx.close(np.ma.getdata(b), y, 'latitude', 1e-12, 1e-12)
                ctx.close(np.ma.getmaskarray(c), h == 0, f'mask of the depth {T}', 0, 0)
                ctx.close(np.ma.getdata(c)[h > 0], h[h > 0], f'depth {T}', 1e-7, 0)
        files = []
        for k, n in enumerate(m.cons):
            f = P(f'h{k}.nc')
            H = {q: ma(m.hc[q][k].astype(ctype), m.miss[k] & False) if case['masked'] else layout(m.hc[q][k].astype(ctype), order) for q in 'zuv'}
            H0 = {q: copy_of(H[q]) for q in H}
            if var == 'z':
                ATLAS.output_netcdf_elevation(f, H['z'], L[0], L[1], n)
            else:
                ATLAS.output_netcdf_transport(f, H['u'], H['v'], L[2], L[3], L[4], L[5], n)
            ctx.check(all(same(H[q], H0[q]) for q in H), 'the writer modified its input')
            h, c = ATLAS.read_netcdf_file(f, var)
            ctx.check(c == n, f'constituent {c!r} expected {n!r}')
            ctx.close(np.ma.getdata(h), m.hc[var][k], f'constants {var}', 1e-6, 1e-6)
            files.append(f)
        a, p, dep, c = ATLAS.extract_constants(lon, lat, P('grid.nc'), files, type=var.upper() if var != 'z' else 'z', compressed=False, **kw)
    else:
        files = []
        for k, n in enumerate(m.cons):
            f = P(f'{n}.nc')
            H = ma(m.hc[var][k].astype(ctype), m.miss[k])
            H0 = copy_of(H)
            x, y = m.x.astype('f8'), m.y.astype('f8')
            if fmt == 'FES':
                FES.output_netcdf_file(f, H, x, y, n, type=var)
                h, a, b = FES.read_netcdf_file(f, type=var, version='FES2014', compressed=False)
            else:
                GOT.output_netcdf_file(f, H, x, y, n)
                h, a, b, c = GOT.read_netcdf_file(f, compressed=False)
                ctx.check(c == n, f'constituent {c!r} expected {n!r}')
            ctx.check(same(H, H0), 'the writer modified its input')
            ctx.close(np.ma.getdata(a), x, 'longitude', 0, 0)
            ctx.close(np.ma.getdata(b), y, 'latitude', 0, 0)
            ctx.close(np.ma.getmaskarray(h), m.miss[k], 'mask', 0, 0)
            ok = ~m.miss[k]
            ctx.close(np.ma.getdata(h)[ok], m.hc[var][k][ok], 'constants', 2e-6, 2e-6)
            files.append(f)
        if fmt == 'FES':
            a, p = FES.extract_constants(lon, lat, files, type=var, version='FES2014', compressed=False, **kw)
            c = m.cons
        else:
            a, p, c = GOT.extract_constants(lon, lat, files, grid='netcdf', compressed=False, **kw)
    ctx.check(list(c) == m.cons, f'constituents {c} expected {m.cons}')
    W, S, D = M.want(m, dict(format='OTIS' if fmt == 'OTIS' else fmt, scale=1.0), var, lon, lat, case['method'], transport=True)
    M.compare(ctx, m, None, a, p, W, S, 'extract')


def layout_ma(a, mask, order, fill):
    """masked array with unrelated values under the mask"""
    b = np.ma.array(layout(a, order), mask=layout(mask, order))
    b.data[b.mask] = 77+5j
    if fill is not None:
        b.fill_value = fill
    return b


# ---- the same values in arrays of other types ------------------------------------------------------
REAL = ['<f8', '>f8', '<f4', '>f4', '<i4', '>i4', '<i2', '>i2', '<i8', '>i8', 'u1']
CPLX = ['<c16', '>c16', '<c8', '>c8', '<f8', '>f4', '<i4', '>i4']


@st.composite
def bytes_st(draw):
    ny, nx, nc = draw(st.integers(2, 5)), draw(st.integers(2, 5)), draw(st.integers(1, 3))
    n = ny*nx
    ints = st.integers(0, 100)
    return dict(ny=ny, nx=nx, cons=draw(st.lists(st.sampled_from(['m2', 's2', 'k1', 'o1', '2n2', 'mf']), min_size=nc, max_size=nc, unique=True)),
                hz=draw(st.lists(ints, min_size=n, max_size=n)), re=draw(st.lists(ints, min_size=n*nc, max_size=n*nc)),
                im=draw(st.sampled_from([0, 1, 1]).flatmap(lambda k: st.lists(ints.map(lambda i: i*k), min_size=n*nc, max_size=n*nc))),
                real=draw(st.sampled_from(REAL)), mask=draw(st.sampled_from(REAL + ['?'])), cplx=draw(st.sampled_from(CPLX)), iob=draw(st.sampled_from(['<i4', '>i4', '<i8', '>i2', '>f8'])),
                nob=draw(lists(st.tuples(st.integers(1, 40), st.integers(1, 40)).map(list), 1, 4)), order=draw(st.sampled_from(['C', 'F', 'reversed', 'strided'])),
                container=draw(st.sampled_from(['array', 'masked', 'nomask'])), names=draw(st.sampled_from(['list', 'tuple', 'array'])), fmt=draw(st.sampled_from(['OTIS', 'OTIS', 'FES', 'GOT', 'ATLAS'])))


def contents(f):
    """values of a netCDF file"""
    with netCDF4.Dataset(f) as n:
        out = {}
        for k, v in n.variables.items():
            a = v[:]
            out[k] = (v.dimensions, np.ma.getmaskarray(a).tolist() if a.dtype.kind in 'fiu' else None,
                      np.where(np.ma.getmaskarray(a), -1, np.ma.getdata(a).astype('f8')) if a.dtype.kind in 'fiu' and a.size else np.asarray(a).tolist())
        return out


def types(case, ctx):
    ny, nx, nc, d = case['ny'], case['nx'], len(case['cons']), pathlib.Path(ctx.tmp)
    hz = np.array(case['hz']).reshape(ny, nx)
    mz = (hz > 0)
    z = (np.array(case['re']) + 1j*np.array(case['im'])).reshape(ny, nx, nc)
    real_only = np.dtype(case['cplx']).kind != 'c'
    if real_only:
        z = z.real + 0j
    ctx.nt(case['real'] != '<f8' or case['cplx'] != '<c16' or case['order'] != 'C')
    ctx.label(case['fmt']); ctx.label(case['real']); ctx.label(case['cplx'])

    def wrap(a):
        a = layout(a, case['order'])
        if case['container'] == 'masked':
            return np.ma.array(a, mask=np.zeros(a.shape, bool))
        return np.ma.array(a) if case['container'] == 'nomask' else a
    cast = lambda a: wrap((a.real if real_only else a).astype(case['cplx']))
    names = dict(list=list, tuple=tuple, array=np.array)[case['names']](case['cons'])
    xl, yl = [0.0, float(nx)], [0.0, float(ny)]
    if case['fmt'] == 'OTIS':
        ref = [('grid', (xl, yl, hz.astype('f8'), mz.astype('i4'), case['nob'], 12.0)), ('elevation', (z, xl, yl, case['cons'])), ('transport', (z, 2*z, xl, yl, case['cons']))]
        oth = [('grid', (xl, yl, wrap(hz.astype(case['real'])), wrap(mz.astype(case['mask'])), np.array(case['nob'], case['iob']), 12.0)),
               ('elevation', (cast(z), np.array(xl, '>f8'), tuple(yl), names)), ('transport', (cast(z), cast(2*z), np.array(xl, 'f4'), tuple(yl), names))]
        for (k, a), (_, b) in zip(ref, oth):
            w = getattr(OTIS, f'output_otis_{k}')
            w(d/'a', *a); w(d/'b', *b)
            ctx.check((d/'a').read_bytes() == (d/'b').read_bytes(), f'bytes of the {k} file', key=f'bytes {k}')
        return
    x, y = np.arange(nx) + 10.0, np.arange(ny) - 2.0
    zz = np.ma.array(z[:, :, 0], mask=np.zeros((ny, nx), bool))
    o = np.ma.array(layout((z[:, :, 0].real if real_only else z[:, :, 0]).astype(case['cplx']), case['order']), mask=np.zeros((ny, nx), bool))
    X, Y = x.astype(case['real']), (y + 2).astype(case['real'])
    if case['fmt'] == 'FES':
        FES.output_netcdf_file(d/'a', zz, x, y + 2, 'm2', type='z'); FES.output_netcdf_file(d/'b', o, X, Y, 'm2', type='z')
    elif case['fmt'] == 'GOT':
        GOT.output_netcdf_file(d/'a', zz, x, y + 2, 'm2'); GOT.output_netcdf_file(d/'b', o, X, Y, 'm2')
    else:
        h = layout(hz.astype(case['real']), case['order'])
        ATLAS.output_netcdf_elevation(d/'a', zz, x, y + 2, 'm2'); ATLAS.output_netcdf_elevation(d/'b', o, X, Y, 'm2')
        ATLAS.output_netcdf_transport(d/'c', zz, 2*zz, x, y + 2, x, y + 2, 'm2'); ATLAS.output_netcdf_transport(d/'d', o, 2*o, X, Y, X, Y, 'm2')
        ATLAS.output_netcdf_grid(d/'e', *[hz.astype('f8')]*3, *[x, y + 2]*3); ATLAS.output_netcdf_grid(d/'f', *[h]*3, *[X, Y]*3)
    for a, b in (('a', 'b'), ('c', 'd'), ('e', 'f')):
        if not (d/a).exists():
            continue
        A, B = contents(d/a), contents(d/b)
        ctx.check(list(A) == list(B), 'variables')
        for k in A:
            ctx.check(A[k][:2] == B[k][:2], f'dimensions and mask of {k}', key=f'mask {k}')
            if isinstance(A[k][2], np.ndarray):
                ctx.close(B[k][2], A[k][2], f'values of {k}', 3e-7, 3e-5)
            else:
                ctx.check(A[k][2] == B[k][2], f'values of {k}')


SUBS = [Sub('writers', case_st(), writers, 700, 9000, tmp=True, shards=6),
        Sub('types', bytes_st(), types, 600, 9000, tmp=True, shards=2)]


if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
