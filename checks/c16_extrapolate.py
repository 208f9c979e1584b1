import _boot
from harness import *
from gen import *
import large
import pyTMD.interpolate as pi
import c20_invariance as C20

PROPERTY = 'C16'
RULE = ('Geographic (regional, global, polar) and projected grids with random masks and non-finite values, and query points near and far '
        'from the grid, in either longitude convention, with cutoffs around the distance to the nearest valid node are generated; '
        'non-trivial when the grid has both valid and invalid nodes and at least one query is filled.')
ASSUMPTIONS = ['distances for geographic grids are straight lines between points on the WGS84 ellipsoid in kilometres; nodes within '
               '1e-9 of the smallest distance are ties', 'a node exactly at the cutoff may be used or not']
A, F = 6378.137, 1/298.257223563


def ecef(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    e2 = F*(2-F)
    N = A/np.sqrt(1-e2*np.sin(lat)**2)
    return np.array([N*np.cos(lat)*np.cos(lon), N*np.cos(lat)*np.sin(lon), N*(1-e2)*np.sin(lat)])


@st.composite
def case_st(draw):
    geo = draw(st.booleans())
    nx, ny = draw(st.integers(2, 10)), draw(st.integers(2, 8))
    if geo:
        kind = draw(st.sampled_from(['regional', 'global', 'polar']))
        if kind == 'global':
            nx = draw(st.sampled_from([4, 8, 12])); dx = 360.0/nx
            x = [draw(st.sampled_from([0.0, -180.0])) + dx/2 + dx*i for i in range(nx)]
            dy = 180.0/ny; y = [-90+dy/2+dy*i for i in range(ny)]
        else:
            dx = draw(st.sampled_from([0.25, 0.5, 2.0])); dy = draw(st.sampled_from([0.25, 0.5, 2.0]))
            x0 = draw(st.sampled_from([-10.0, 0.0, 100.0, 170.0, 350.0, -179.0]))
            y0 = draw(st.sampled_from([-40.0, -5.0, 30.0])) if kind == 'regional' else draw(st.sampled_from([90-dy*(ny-1), -90.0]))
            x = [x0+dx*i for i in range(nx)]; y = [y0+dy*i for i in range(ny)]
    else:
        dx, dy = draw(st.sampled_from([1.0, 4.0, 50.0])), draw(st.sampled_from([1.0, 4.0, 50.0]))
        x0, y0 = draw(st.sampled_from([-2000.0, 0.0, 500.0])), draw(st.sampled_from([-2000.0, 0.0, 500.0]))
        x = [x0+dx*i for i in range(nx)]; y = [y0+dy*i for i in range(ny)]
    f = st.one_of(fl(-0.3, 1.3), fl(0, 1), st.sampled_from([0.0, 1.0, 0.5, -2.0, 3.0]))
    return dict(geo=geo, x=x, y=y, mask=draw(lists(st.sampled_from([0, 0, 0, 1, 1, 1, 2, 3]), 3, 40)), all=draw(st.sampled_from([None]*8+[0, 1])),
                q=draw(lists(st.tuples(f, f, st.sampled_from([0, 0, 0, 360, -360])).map(list), 1, 6)),
                cut=draw(st.one_of(st.just(['inf', 0]), st.tuples(st.just('rel'), fl(0.3, 3.0)).map(list), st.tuples(st.just('abs'), fl(0.1, 500)).map(list))),
                fill=draw(st.sampled_from([None, -99.0])), cplx=draw(st.booleans()), nomask=draw(st.sampled_from([False]*6+[True])), scalar=draw(st.booleans()))


def f_extrap(case, ctx):
    x, y = np.array(case['x']), np.array(case['y'])
    ny, nx = len(y), len(x)
    n = nx*ny
    k = np.array([case['mask'][(i*5 + i//len(case['mask'])) % len(case['mask'])] for i in range(n)]).reshape(ny, nx)
    if case['all'] is not None:
        k[:] = case['all']
    d = np.arange(n, dtype=float).reshape(ny, nx) + 1.0
    if case['cplx']:
        d = d*(1+0.5j)
    d = np.where(k == 2, np.nan, d)
    d = np.where(k == 3, [np.inf, -np.inf, np.inf][n % 3], d)
    if case['nomask']:
        a = np.ma.array(np.where(k > 0, np.nan, d))
    else:
        a = np.ma.array(d, mask=(k == 1))
    valid = (k == 0)
    px, py = [], []
    for fx, fy, w in case['q']:
        px.append(x[0]+fx*(x[-1]-x[0]) + (w if case['geo'] else 0)); v = y[0]+fy*(y[-1]-y[0])
        py.append(float(np.clip(v, -90, 90)) if case['geo'] else v)
    px, py = np.array(px), np.array(py)
    X, Y = np.meshgrid(x, y)
    if case['geo']:
        G = ecef(X[valid], Y[valid]); Q = ecef(px, py)
    else:
        G = np.array([X[valid], Y[valid]]); Q = np.array([px, py])
    D = np.sqrt(((Q[:, :, None]-G[:, None, :])**2).sum(axis=0))     # (points, valid nodes)
    near = D.min(axis=1) if valid.any() else np.full(len(px), np.inf)
    if case['cut'][0] == 'inf':
        cut = np.inf
    elif case['cut'][0] == 'rel':
        cut = case['cut'][1]*float(near[0]) if np.isfinite(near[0]) and near[0] > 1e-3 else 10.0
    else:
        cut = case['cut'][1]
    kw = dict(cutoff=cut, is_geographic=case['geo'], dtype=a.dtype)
    if case['fill'] is not None:
        kw['fill_value'] = case['fill']
    a0 = copy_of(a)
    out = pi.extrapolate(x, y, a, px, py, **kw)
    ctx.check(same(a, a0), 'extrapolate modified the model data')
    ctx.check(out.shape == px.shape, f'shape {out.shape}')
    M = np.ma.getmaskarray(out)
    vals = np.ma.getdata(a)[valid]
    fill = case['fill'] if case['fill'] is not None else a.fill_value
    for i in range(len(px)):
        if abs(near[i]-cut) < 1e-6*(1+near[i]) and np.isfinite(near[i]):
            continue
        if near[i] < cut:
            ctx.label('filled')
            ctx.nt(valid.any() and not valid.all())
            ctx.check(not M[i], f'point {px[i]},{py[i]}: nearest valid node at {near[i]} within {cut} but masked')
            ok = vals[D[i] <= near[i] + 1e-9*(1+near[i]) + 1e-6]
            ctx.check(out.data[i] in ok, f'point {px[i]},{py[i]}: value {out.data[i]} is not the nearest valid node {ok}')
        else:
            ctx.label('beyond')
            ctx.check(M[i], f'point {px[i]},{py[i]}: nearest valid node at {near[i]} beyond {cut} but {out.data[i]}')
            ctx.check(out.data[i] == fill, f'masked point holds {out.data[i]} not {fill}')
        if case['scalar']:
            one = pi.extrapolate(x, y, a, float(px[i]), float(py[i]), **kw)
        else:
            one = pi.extrapolate(x, y, a, px[i:i+1], py[i:i+1], **kw)
        ties = (D[i] <= near[i] + 1e-9*(1+near[i]) + 1e-6).sum() > 1
        ctx.check(bool(np.ma.getmaskarray(one)[0]) == bool(M[i]) and (M[i] or ties or one.data[0] == out.data[i]),
                  f'point {i} depends on the batch')


SUBS = [Sub('extrapolate', case_st(), f_extrap, 2000, 40000, shards=5),
        Sub('models', C20.extrap_case(), C20.extrap, 500, 6000, tmp=True, shards=5)]
SUBS.append(large.sub(['extrapolate']))
SUBS.append(large.pure(['extrapolate']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
