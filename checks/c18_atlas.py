"""C18: ATLAS netCDF files decode to the constants they encode."""
import _boot
from harness import *
from gen import *
import large
import models as M
import pathlib
from pyTMD.io import ATLAS

PROPERTY = 'C18'
RULE = 'non-trivial: the files hold a land cell or several constituents (readers); a point is valid (constants)'
ASSUMPTIONS = ['generated files follow the TPXO9-atlas netCDF layout: (nx, ny) variables, z, u and v nodes with their own coordinates']
METHODS = ['spline', 'spline', 'bilinear', 'linear', 'nearest']


def files(case, ctx):
    m = M.Model(case['spec'])
    d = M.write(m, ctx.tmp, 'z')
    e = M.write(m, ctx.tmp, 'uv')
    gz = d['compressed']
    ctx.nt(len(m.cons) > 1 or (m.hz == 0).any())
    ctx.label('gz' if gz else 'plain')
    for v in 'zuvUV':
        x, y, ok, hc, D = m.grid(v.lower())
        lon, lat, h = ATLAS.read_netcdf_grid(d['grid_file'], v, compressed=gz)
        ctx.close(np.ma.getdata(lon), x, f'longitude of {v}', 0, 0)
        ctx.close(np.ma.getdata(lat), y, f'latitude of {v}', 0, 0)
        ctx.close(np.ma.getdata(h), D, f'depth at {v}', 0, 0)
        ctx.close(np.ma.getmaskarray(h), D == 0, f'mask at {v}', 0, 0)
        for k, c in enumerate(m.cons):
            f = d['model_file'][k] if v == 'z' else e['model_file']['u'][k]
            a, con = ATLAS.read_netcdf_file(f, v, compressed=gz)
            ctx.check(con == c, f'constituent {con!r} expected {c!r}')
            ctx.close(np.ma.getdata(a), hc[k], f'{v} of {c}', 0, 0)


@st.composite
def const_case(draw):
    s = draw(M.specs(formats=['ATLAS-netcdf'], maxcons=3))
    return dict(spec=s, pos=draw(M.positions()), var=draw(st.sampled_from('zzuvUV')), method=draw(st.sampled_from(METHODS)),
                scale=draw(st.sampled_from([1.0, 1e-3, 1e-4, 0.01])))


def constants(case, ctx):
    m = M.Model(case['spec'])
    v = case['var']
    var = v.lower()
    d = M.write(m, ctx.tmp, 'z' if v == 'z' else 'uv', scale=case['scale'])
    mf = d['model_file'] if v == 'z' else d['model_file'][var]
    lon, lat = M.locate(m, case['pos'], var)
    W, S, D = M.want(m, d, var, lon, lat, case['method'], transport=v in 'UV')
    for q in (v, 'global' if m.glob else 'regional', case['method']):
        ctx.label(q)
    ctx.nt(bool((S == 1).any()))
    kw = dict(type=v, compressed=d['compressed'])
    a, p, Dm, c = ATLAS.extract_constants(lon, lat, d['grid_file'], mf, method=case['method'], scale=case['scale'], **kw)
    ctx.check(list(c) == m.cons, f'constituents {c} expected {m.cons}')
    M.compare(ctx, m, d, a, p, W, S, 'extract')
    g = (S == 1).all(axis=1)
    ctx.check(not np.ma.getmaskarray(Dm)[g].any(), 'bathymetry masked where the model is valid')
    ctx.close(np.ma.getdata(Dm)[g], D[g], 'bathymetry', 1e-5, 1e-3)
    cons = ATLAS.read_constants(d['grid_file'], mf, **kw)
    x, y, ok, hc, DD = m.grid(var)
    sl = slice(1, -1) if np.shape(cons.get(m.cons[0]))[1] == m.nx + 2 else slice(None)
    ctx.check((sl == slice(1, -1)) == m.glob, 'only global grids are extended')
    ctx.check(list(cons.fields) == m.cons, f'fields {cons.fields}')
    ctx.close(np.ma.getdata(cons.longitude)[sl], x, 'longitude', 1e-9, 1e-9)
    ctx.close(np.ma.getdata(cons.latitude), y, 'latitude', 1e-9, 1e-9)
    for k, n in enumerate(m.cons):
        h = cons.get(n)
        mk = np.ma.getmaskarray(h)[:, sl]
        ctx.close(mk, ~ok[k], f'mask of {n}', 0, 0)
        ctx.close(np.ma.getdata(h)[:, sl][~mk], hc[k][~mk], f'field of {n}', 1e-6, 1e-6)
    a, p, Dm = ATLAS.interpolate_constants(lon, lat, cons, type=v, method=case['method'], scale=case['scale'])
    M.compare(ctx, m, d, a, p, W, S, 'interpolate')


SUBS = [
    Sub('files', st.fixed_dictionaries(dict(spec=M.specs(formats=['ATLAS-netcdf'], maxcons=3))), files, 120, 1500, tmp=True, shards=4),
    Sub('constants', const_case(), constants, 500, 8000, tmp=True, shards=6),
]
SUBS.append(large.models('read', ['ATLAS-netcdf']))
SUBS.append(large.again('read', ['ATLAS-netcdf']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
