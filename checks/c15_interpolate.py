import _boot
from harness import *
from gen import *
import large
import pyTMD.interpolate as pi

PROPERTY = 'C15'
RULE = ('Regular and uneven ascending grids (2-9 nodes per axis, geographic-sized and projected-sized), real and complex data with no, '
        'allocated or unallocated masks and query points on nodes, edges, inside cells and outside are generated; non-trivial when at '
        'least one query point is strictly inside a cell or next to an invalid node.')
ASSUMPTIONS = ['points within the documented corner tolerance (np.isclose) of a node may take the node value in the bilinear method',
               'the spline method evaluates points outside of the grid at its edge (scipy RectBivariateSpline)',
               'a partially invalid cell is masked by the spline and regular grid methods (ceil reducer) and averaged over its valid corners by bilinear']

METHODS = ['bilinear', 'spline', 'linear', 'nearest']


@st.composite
def axis(draw, scale):
    n = draw(st.integers(2, 9))
    if draw(st.booleans()):
        d = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 10.0])) * scale
        x0 = draw(st.integers(-40, 40))*0.5*scale
        return [x0 + d*i for i in range(n)]
    x = [draw(fl(-50, 50))*scale]
    for _ in range(n-1):
        x.append(x[-1] + draw(fl(0.05, 5.0))*scale)
    return x


@st.composite
def query(draw, outside=True):
    """cell fraction coordinates: (i, frac, j, frac); integers are on nodes"""
    f = st.one_of(fl(0.02, 0.98), st.sampled_from([0.0, 0.5, 1.0, 0.0, 0.25]))
    o = draw(st.sampled_from([0]*6 + ([1, 2, 3, 4] if outside else [])))
    return [draw(st.integers(0, 7)), draw(f), draw(st.integers(0, 7)), draw(f), o]


@st.composite
def grid(draw, outside=True, masks=True, cubic=False):
    s = draw(st.sampled_from([1.0, 1.0, 1.0, 1000.0]))
    x, y = draw(axis(s)), draw(axis(draw(st.sampled_from([1.0, s]))))
    c = draw(st.booleans())
    data = draw(lists(fl(-10, 10), 5, 30))
    mk = draw(st.sampled_from(['plain', 'nomask', 'mask', 'mask', 'mask'])) if masks else draw(st.sampled_from(['plain', 'nomask', 'mask0']))
    mask = draw(lists(st.booleans(), 5, 40)) if mk == 'mask' else []
    return dict(x=x, y=y, cplx=c, data=data, mk=mk, mask=mask, coef=draw(lists(fl(-2, 2), 8, 8)),
                hidden=draw(st.sampled_from(['same', 'zero', 'big'])),
                q=draw(lists(query(outside), 1, 8)))


def cycle(v, n):
    return np.array([v[(i*7 + i//len(v)) % len(v)] for i in range(n)]) if len(v) else np.zeros(n)


def build(case, field=None):
    x, y = np.array(case['x'], float), np.array(case['y'], float)
    ny, nx = len(y), len(x)
    if field is not None:
        X, Y = np.meshgrid(x, y)
        d = field(X, Y)
    else:
        d = cycle(case['data'], ny*nx).reshape(ny, nx)
        if case['cplx']:
            d = d + 1j*cycle(case['data'][::-1], ny*nx).reshape(ny, nx)
    m = np.zeros((ny, nx), bool)
    if case['mk'] == 'mask':
        m = np.array([case['mask'][(i*5 + i//len(case['mask'])) % len(case['mask'])] for i in range(ny*nx)]).reshape(ny, nx)
        d = np.where(m, {'same': d, 'zero': 0.0*d, 'big': d*0 + 100.0}[case['hidden']], d)
        a = np.ma.array(d, mask=m)
    elif case['mk'] == 'mask0':
        a = np.ma.array(d, mask=m.copy())
    elif case['mk'] == 'nomask':
        a = np.ma.array(d)
    else:
        a = d
    return x, y, d, m, a


def points(case, x, y):
    """coordinates, cell indices, fractions, outside flag"""
    P = []
    for i, fx, j, fy, o in case['q']:
        i %= len(x)-1; j %= len(y)-1
        px = x[i] if fx == 0 else x[i+1] if fx == 1 else x[i] + fx*(x[i+1]-x[i])
        py = y[j] if fy == 0 else y[j+1] if fy == 1 else y[j] + fy*(y[j+1]-y[j])
        dx, dy = x[-1]-x[0], y[-1]-y[0]
        if o == 1: px = x[0] - (0.01+fx)*dx
        if o == 2: px = x[-1] + (0.01+fx)*dx
        if o == 3: py = y[0] - (0.01+fy)*dy
        if o == 4: py = y[-1] + (0.01+fy)*dy
        P.append((px, py, i, j, fx, fy, o))
    return P


def call(method, x, y, a, px, py, **kw):
    dt = np.complex128 if np.iscomplexobj(a) else np.float64
    if method == 'bilinear':
        return pi.bilinear(x, y, a, px, py, dtype=dt, **kw)
    if method == 'spline':
        return pi.spline(x, y, a, px, py, dtype=dt, **kw)
    return pi.regulargrid(x, y, a, px, py, dtype=dt, method=method, **kw)


def snaps(px, py, x, y, i, j, fx, fy):
    """true when the point is within the corner tolerance of a node without being on it"""
    for a in (i, i+1):
        for b in (j, j+1):
            if np.isclose(px, x[a], rtol=2e-5, atol=2e-8) and np.isclose(py, y[b], rtol=2e-5, atol=2e-8) and not (px == x[a] and py == y[b]):
                return True
    return False


def weights(px, py, x, y, i, j):
    tx = (px-x[i])/(x[i+1]-x[i]); ty = (py-y[j])/(y[j+1]-y[j])
    return np.array([(1-tx)*(1-ty), tx*(1-ty), (1-tx)*ty, tx*ty])


def f_values(case, ctx):
    """general data: reference bilinear weights, masks, fill values, bounds, batch independence"""
    x, y, d, m, a = build(case)
    P = points(case, x, y)
    px = np.array([p[0] for p in P]); py = np.array([p[1] for p in P])
    ctx.nt(any((0 < p[4] < 1 or 0 < p[5] < 1) and not p[6] for p in P) or bool(m.any()))
    a0 = copy_of(a)
    fill = -99.0
    scale = np.max(np.abs(d)) + 1e-30
    for meth in METHODS:
        out = call(meth, x, y, a, px, py, fill_value=fill)
        ctx.check(same(a, a0), f'{meth} modified the input data')
        ctx.check(np.ma.isMA(out) and out.shape == px.shape, f'{meth}: shape {np.shape(out)}')
        M = np.ma.getmaskarray(out)
        for k, (qx, qy, i, j, fx, fy, o) in enumerate(P):
            one = call(meth, x, y, a, px[k:k+1], py[k:k+1], fill_value=fill)
            ctx.check(bool(np.ma.getmaskarray(one)[0]) == bool(M[k]) and
                      (M[k] or abs(one.data[0]-out.data[k]) <= 1e-12*scale), f'{meth}: value of point {k} depends on the batch')
            if o:
                if meth != 'spline':
                    ctx.label('outside')
                    ctx.check(M[k], f'{meth}: point {qx},{qy} outside of the grid is not masked: {out.data[k]}')
                    ctx.check(out.data[k] == fill, f'{meth}: point outside of the grid holds {out.data[k]} not the fill value')
                continue
            if meth == 'bilinear' and snaps(qx, qy, x, y, i, j, fx, fy):
                continue
            w = weights(qx, qy, x, y, i, j)
            cd = np.array([d[j, i], d[j, i+1], d[j+1, i], d[j+1, i+1]])
            cm = np.array([m[j, i], m[j, i+1], m[j+1, i], m[j+1, i+1]])
            if meth == 'nearest':
                # any node within the closest distance along each axis
                ix = [n for n in (i, i+1) if abs(qx-x[n]) <= min(abs(qx-x[i]), abs(qx-x[i+1])) + 1e-9*abs(x[-1]-x[0])]
                iy = [n for n in (j, j+1) if abs(qy-y[n]) <= min(abs(qy-y[j]), abs(qy-y[j+1])) + 1e-9*abs(y[-1]-y[0])]
                cand = [(jj, ii) for ii in ix for jj in iy]
                hit = any(bool(m[c]) == bool(M[k]) and (M[k] or out.data[k] == d[c]) for c in cand)
                ctx.check(hit, f'nearest: {out.data[k]} mask {M[k]} is not a closest node of {qx},{qy}')
                continue
            used = w > 1e-12
            if not cm[used].any():
                # corners with no weight do not matter
                ctx.check(not M[k], f'{meth}: valid point {qx},{qy} is masked') if not (cm.any() and 0 < w[cm].max()) else None
                if not M[k]:
                    want = np.sum(w[used]*cd[used])/np.sum(w[used])
                    ctx.close(out.data[k], want, f'{meth} at {qx},{qy}', atol=1e-9*scale)
                    if not np.iscomplexobj(d):
                        ctx.check(cd[used].min()-1e-9*scale <= out.data[k] <= cd[used].max()+1e-9*scale, f'{meth}: outside of node range')
            elif cm.all():
                ctx.label('invalid cell')
                ctx.check(M[k], f'{meth}: point {qx},{qy} between invalid nodes is not masked')
            elif cm[used].all():
                # on an edge or node whose nodes are all invalid
                ctx.label('invalid node')
                ctx.check(M[k], f'{meth}: point {qx},{qy} on invalid nodes is not masked: {out.data[k]}')
            elif w[used].min() > 1e-9:
                ctx.label('partial cell')
                if meth == 'bilinear':
                    v = used & ~cm
                    ctx.check(not M[k], f'bilinear: point {qx},{qy} next to valid nodes is masked')
                    ctx.close(out.data[k], np.sum(w[v]*cd[v])/np.sum(w[v]), f'bilinear with invalid corners at {qx},{qy}', atol=1e-9*scale)
                else:
                    ctx.check(M[k], f'{meth}: point {qx},{qy} next to an invalid node is not masked')
    # a floor reducer keeps partially valid cells
    for meth in ('spline', 'linear'):
        out = call(meth, x, y, a, px, py, reducer=np.floor)
        for k, (qx, qy, i, j, fx, fy, o) in enumerate(P):
            w = weights(qx, qy, x, y, i, j)
            cm = np.array([m[j, i], m[j, i+1], m[j+1, i], m[j+1, i+1]])
            if not o and np.sum(w[~cm]) > 1e-9:
                ctx.check(not np.ma.getmaskarray(out)[k], f'{meth} with a floor reducer: partially valid point is masked')


def f_nodes(case, ctx):
    """every node of the grid, in one batch"""
    x, y, d, m, a = build(case)
    X, Y = np.meshgrid(x, y)
    ctx.nt(True)
    scale = np.max(np.abs(d)) + 1e-30
    for meth in METHODS:
        out = call(meth, x, y, a, X.ravel(), Y.ravel())
        M = np.ma.getmaskarray(out)
        ctx.check(np.array_equal(M, m.ravel()), f'{meth}: mask at the nodes {M} expected {m.ravel()}')
        ctx.close(out.data[~M], d.ravel()[~M], f'{meth} at the nodes', rtol=1e-11, atol=1e-11*scale)


def f_field(case, ctx):
    """fields in the space of each method"""
    q = case['coef']
    x, y = np.array(case['x'], float), np.array(case['y'], float)
    xm, ym, sx, sy = x.mean(), y.mean(), np.ptp(x), np.ptp(y)

    def lin(X, Y):
        u, v = (X-xm)/sx, (Y-ym)/sy
        f = q[0]+q[1]*u+q[2]*v+q[3]*u*v
        return f + 1j*(q[4]+q[5]*u+q[6]*v+q[7]*u*v) if case['cplx'] else f

    def cub(X, Y):
        u, v = (X-xm)/sx, (Y-ym)/sy
        f = q[0]+q[1]*u**3+q[2]*v**2+q[3]*u*v+q[4]*u**2*v**3
        return f + 1j*(q[4]+q[5]*u**2+q[6]*v**3+q[7]*u*v**2) if case['cplx'] else f
    P = [p for p in points(case, x, y) if not p[6]]
    if not P:
        ctx.skip()
    px = np.array([p[0] for p in P]); py = np.array([p[1] for p in P])
    ctx.nt(any(0 < p[4] < 1 or 0 < p[5] < 1 for p in P))
    _, _, d, _, a = build(case, lin)
    for meth in METHODS[:3]:
        ok = np.array([meth != 'bilinear' or not snaps(p[0], p[1], x, y, *p[2:6]) for p in P])
        out = call(meth, x, y, a, px, py)
        ctx.check(not np.ma.getmaskarray(out).any(), f'{meth}: valid points are masked')
        ctx.close(out.data[ok], lin(px, py)[ok], f'{meth} of a bilinear field', atol=1e-9)
    if min(len(x), len(y)) >= 4:
        ctx.label('cubic')
        _, _, d, _, a = build(case, cub)
        out = call('spline', x, y, a, px, py, kx=3, ky=3)
        ctx.close(out.data, cub(px, py), 'cubic spline of a cubic field', atol=1e-6)
    # linear in the data: scaled and shifted data
    _, _, d, _, a = build(case)
    k = complex(1.5, -0.5) if case['cplx'] else 1.5
    for meth in METHODS:
        o1 = call(meth, x, y, a, px, py); o2 = call(meth, x, y, a*k + 2.0, px, py)
        ctx.close(o2.data, o1.data*k + 2.0, f'{meth} of transformed data', rtol=1e-9, atol=1e-8)


SUBS = [Sub('values', grid(), f_values, 900, 20000, shards=4),
        Sub('nodes', grid(), f_nodes, 400, 6000, shards=2),
        Sub('fields', grid(outside=False, masks=False), f_field, 400, 6000, shards=2)]
SUBS.append(large.sub(['bilinear', 'regulargrid', 'spline'], top=10001))
SUBS.append(large.pure(['bilinear', 'regulargrid', 'spline']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
