"""C34: a regional subset of an OTIS model holds the nodes of the model within the bounds, and nothing else changes."""
import _boot
from harness import *
from gen import *
import models as M
import c14_model_tides as C14
import c33_programs as C33
import io, os, pathlib, sys
import pyproj
import pyTMD.io, pyTMD.io.OTIS

PROPERTY = 'C34'
RULE = ('OTIS models with the names and projections of the database (one file, or one for each constituent; elevations, currents or both) are written to scratch '
        'directories and reduced to generated bounds in several reference systems; non-trivial when the region is smaller than the grid and has a wet node.')
ASSUMPTIONS = ['bounds enclose at least one node and lie in the longitude convention of the grid', 'no node lies on a bound (to round-off)', 'limits are single precision numbers, as the format has them',
               'open boundary nodes are not carried over, and constants of dry nodes are not judged', 'elevations and currents of a model share a grid']
NAMES = ['CATS0201', 'CATS2008', 'CATS2008_load', 'TPXO9-atlas', 'TPXO9.1', 'TPXO7.2', 'TPXO7.2_load', 'AODTM-5', 'AOTIM-5', 'AOTIM-5-2018']
GEO = 'EPSG:4326'


def records(path):
    b, i, out = pathlib.Path(path).read_bytes(), 0, []
    while i < len(b):
        n = int(np.frombuffer(b, '>i4', 1, i)[0])
        out.append(b[i+4:i+4+n])
        assert int(np.frombuffer(b, '>i4', 1, i+4+n)[0]) == n, 'record marks'
        i += n + 8
    return out


def read_grid(path):
    r = records(path)
    nx, ny = np.frombuffer(r[0], '>i4', 2)
    lim = np.frombuffer(r[0], '>f4', 4, 8).astype(float)
    dt = float(np.frombuffer(r[0], '>f4', 1, 24)[0])
    return dict(nx=int(nx), ny=int(ny), lim=lim, dt=dt, hz=np.frombuffer(r[2], '>f4').reshape(ny, nx), mz=np.frombuffer(r[3], '>i4').reshape(ny, nx))


def read_fields(path, planes):
    r = records(path)
    nx, ny, nc = np.frombuffer(r[0], '>i4', 3)
    lim = np.frombuffer(r[0], '>f4', 4, 12).astype(float)
    cons = [r[0][28+4*k:32+4*k].decode().strip() for k in range(nc)]
    assert len(r) == nc + 1, 'records'
    f = [np.frombuffer(a, '>f4').astype(float).reshape(ny, nx, planes, 2) for a in r[1:]]
    return dict(nx=int(nx), ny=int(ny), lim=lim, cons=cons, f=[[a[:, :, k, 0] + 1j*a[:, :, k, 1] for k in range(planes)] for a in f])


@st.composite
def case_st(draw):
    name = draw(st.sampled_from(NAMES))
    s = draw(M.specs(formats=['OTIS'], projected=False, maxcons=4, names=['m2', 's2', 'n2', 'k2', 'k1', 'o1', 'p1', 'q1', 'mf', 'mm', 'm4', 'ms4', 'mn4', '2n2']))
    return dict(name=name, spec=s, parts=draw(st.sampled_from(['both', 'both', 'z', 'uv'])), box=draw(lists(st.tuples(st.integers(0, 12), fl(0.05, 0.95)).map(list), 4, 4)),
                crs=draw(st.sampled_from(['4326', '4326', 'own', '3857'])), again=draw(st.booleans()), mode=draw(st.sampled_from([None, '664'])), longnames=draw(st.booleans()))


def f_reduce(case, ctx):
    name = case['name']
    P = {k: C14.DB[k].get(name) for k in ('elevation', 'current')}
    parts = [k for k, v in (('elevation', 'z'), ('current', 'uv')) if P[k] and case['parts'] in ('both', v)] or ['elevation']
    if len(parts) == 2 and P['elevation']['grid_file'] != P['current']['grid_file'] and case['again']:
        ctx.label('two grids')
    proj = P[parts[0]].get('projection', GEO)
    s = dict(case['spec'], dup=False)
    if proj != GEO:
        s = C14.place(s, proj)
    several = isinstance(P[parts[0]]['model_file'], list) or (isinstance(P[parts[0]]['model_file'], dict) and isinstance(P[parts[0]]['model_file']['u'], list))
    if several:
        n = len(P['elevation']['model_file'])
        s['cons'] = (['m2', 's2', 'k1', 'o1', 'n2', 'k2', 'p1', 'q1', 'm4', 'mf', 'mm', 'ms4', 'mn4', '2n2', 's1'])[:n]
        ctx.label('one file each')
    m = M.Model(s)
    if proj != GEO:
        m.otis_proj = proj
    x, y = m.xr.copy(), m.y.copy()
    folder = pathlib.Path(ctx.tmp)/'models'
    folder.mkdir()
    for k in parts:
        C14.put(m, P[k], folder, False)
    ctx.label('projected' if proj != GEO else 'geographic'); ctx.label('+'.join(parts))
    # bounds, in the middle of cells (model coordinates)
    def span(a, i, j, fi, fj, d):
        i, j = sorted((i % len(a), j % len(a)))
        return a[i] - d*fi, a[j] + d*fj
    b = case['box']
    bx = span(x, b[0][0], b[1][0], b[0][1], b[1][1], m.dx)
    by = span(y, b[2][0], b[3][0], b[2][1], b[3][1], m.dy)
    if case['crs'] in ('4326', 'own') and proj == GEO:
        code, crs = '4326', pyproj.CRS.from_epsg(4326)
        bounds = [*bx, *by]
    elif case['crs'] == 'own' or case['crs'] == '3857' and proj != GEO:
        crs = pyproj.CRS.from_user_input(proj)
        code = crs.to_proj4()
        bounds = [*bx, *by]
    elif case['crs'] == '3857':
        code, crs = '3857', pyproj.CRS.from_epsg(3857)
        if bx[0] < -180 or bx[1] > 180 or by[0] < -85 or by[1] > 85:
            ctx.skip()
        T = pyproj.Transformer.from_crs(4326, 3857, always_xy=True)
        (x0, x1), (y0, y1) = T.transform(bx, by)
        bounds = [x0, x1, y0, y1]
    else:
        # degrees around a part of a polar grid
        code, crs = '4326', pyproj.CRS.from_epsg(4326)
        T = pyproj.Transformer.from_crs(proj, 4326, always_xy=True)
        lo, la = T.transform(np.array([bx[0], bx[1], bx[1], bx[0]]), np.array([by[0], by[0], by[1], by[1]]))
        if lo.max() - lo.min() > 120:
            ctx.skip()
        bounds = [lo.min(), lo.max(), la.min(), la.max()]
    if bounds[0] >= bounds[1] or bounds[2] >= bounds[3]:
        ctx.skip()
    # the box of the corners in model coordinates
    T = pyproj.Transformer.from_crs(crs, proj, always_xy=True)
    cx, cy = T.transform(np.array(bounds)[[0, 1, 1, 0]], np.array(bounds)[[2, 2, 3, 3]])
    for a, c, d in ((x, cx, m.dx), (y, cy, m.dy)):
        if np.min(np.abs(np.subtract.outer(a, c))) < 1e-3*d:
            ctx.skip()
    ix, = np.nonzero((x > cx.min()) & (x < cx.max()))
    iy, = np.nonzero((y > cy.min()) & (y < cy.max()))
    if len(ix) == 0 or len(iy) == 0:
        ctx.skip()
    wet = (m.hz > 0)[np.ix_(iy, ix)]
    ctx.nt(bool(wet.any()) and len(ix)*len(iy) < m.nx*m.ny)
    before = {q: q.read_bytes() for q in sorted(folder.rglob('*')) if q.is_file()}
    argv = ['--directory', folder, '--tide', name, '--projection', code, '--bounds'] + [repr(float(a)) for a in bounds] + (['--mode', case['mode']] if case['mode'] else [])
    what = f'reduce {name}'
    for turn in range(2 if case['again'] else 1):
        have = {q for q in folder.rglob('*') if q.is_file()}
        keep = {q: q.read_bytes() for q in have}
        C33.run(ctx, 'reduce_OTIS_files', argv, what)
        new = {q for q in folder.rglob('*') if q.is_file()} - have
        for q, v in keep.items():
            ctx.check(q.read_bytes() == v, f'{what}: {q.name} changed', key='changed')
        used = [folder/P[parts[0]]['grid_file']]
        fields = []
        for k in parts:
            mf = P[k]['model_file']
            mf = mf['u'] if isinstance(mf, dict) else mf
            for j, f in enumerate([mf] if isinstance(mf, str) else mf):
                fields.append((folder/f, k, [j] if isinstance(mf, list) else list(range(len(m.cons)))))
        def reduced(q):
            base = q.stem if q.suffix in ('.out', '.oce') else q.name
            return [r for r in new if r.parent == q.parent and (r.name == base + '.reduced' or r.name.startswith(base + '.reduced_'))]
        ctx.check(len(new) == len(used) + len(fields), f'{what}: {len(new)} files for {len(used) + len(fields)}: {sorted(q.name for q in new)}', key='files')
        lim = np.array([y[iy[0]]-m.dy/2, y[iy[-1]]+m.dy/2, x[ix[0]]-m.dx/2, x[ix[-1]]+m.dx/2])
        size = 1e-6*max(1.0, np.abs(lim).max())
        r = reduced(used[0])
        ctx.check(len(r) == 1, f'{what}: no reduced grid', key='files')
        g = read_grid(r[0])
        ctx.check((g['ny'], g['nx']) == wet.shape, f'{what}: grid of {g["ny"]} by {g["nx"]}, expected {wet.shape}', key='shape')
        ctx.close(g['lim'], lim, f'{what}: limits of the grid', rtol=0, atol=size)
        ctx.close(g['hz'], m.hz[np.ix_(iy, ix)], f'{what}: depths', rtol=0, atol=0)
        mz = ((m.hz > 0) & ~m.dry)[np.ix_(iy, ix)]
        ctx.check(np.array_equal(g['mz'], mz.astype(int)), f'{what}: mask', key='mask')
        ctx.close(g['dt'], read_grid(used[0])['dt'], f'{what}: time step', rtol=0, atol=0)
        for q, k, js in fields:
            r = reduced(q)
            ctx.check(len(r) == 1, f'{what}: no reduced file of {q.name}', key='files')
            v = ['z'] if k == 'elevation' else ['u', 'v']
            f = read_fields(r[0], len(v))
            ctx.check((f['ny'], f['nx']) == wet.shape, f'{what}: {q.name} of {f["ny"]} by {f["nx"]}', key='shape')
            ctx.close(f['lim'], lim, f'{what}: limits of {q.name}', rtol=0, atol=size)
            ctx.check(f['cons'] == [m.cons[j] for j in js], f'{what}: {q.name} holds {f["cons"]}', key='constituents')
            for a, j in enumerate(js):
                for c, n in enumerate(v):
                    w = m.hc[n][j][np.ix_(iy, ix)]
                    ctx.close(f['f'][a][c][wet & mz], w[wet & mz], f'{what}: {n} of {m.cons[j]}', rtol=1e-7, atol=0)
            if case['mode']:
                ctx.check(r[0].stat().st_mode & 0o777 == 0o664, f'{what}: mode of {r[0].name}', key='mode')


SUBS = [Sub('reduce', case_st(), f_reduce, 400, 8000, tmp=True)]
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
