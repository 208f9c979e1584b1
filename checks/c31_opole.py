import _boot
from harness import *
from gen import *
import opole, pathlib
import pyTMD.io.IERS as IERS

PROPERTY = 'C31'
RULE = ('Coefficient files in the IERS layout with generated headers and node values around the queries, and queries on nodes, in cells, '
        'across the seam of the file and the dateline, in either longitude convention, are generated; non-trivial when a query is '
        'strictly inside a cell with non-zero coefficients.')
ASSUMPTIONS = ['files may list any subset of the nodes; nodes that are not listed are zero',
               'latitudes poleward of the last cell centres (89.75) are not judged']
METH = ['spline', 'linear', 'bilinear', 'nearest']

HEADERS = ['header {} 12.0 -- ', '- notes of {}', '', '  ---------- not at the start {}', '-------- eight {}', '0.25 89.75 1 2 3 4 5 6 ({})', '# --------- {}']


@st.composite
def case_st(draw):
    lon = st.one_of(mix(-180, 360, -180., 0., 180., 360.), st.integers(-360, 719).map(lambda i: 0.25+0.5*i),
                    fl(179.5, 180.5), fl(-0.5, 0.5), fl(359.5, 360.0), fl(-180, -179.5))
    lat = st.one_of(fl(-89.75, 89.75), st.integers(0, 359).map(lambda j: -89.75+0.5*j), fl(89, 89.75), fl(-89.75, -89))
    return dict(q=draw(lists(st.tuples(lon, lat).map(list), 1, 4)), v=draw(lists(lists(fl(-2, 2), 6, 6), 2, 6)), meth=draw(st.sampled_from(METH)),
                h=draw(st.integers(0, 12)), prev=draw(st.booleans()))


def files(case, ctx):
    if case['prev']:
        # an earlier file at the same path
        nodes, p = write({**case, 'v': [[3 - a for a in v] for v in case['v']], 'h': 5}, ctx)
        lo, la = map(np.array, zip(*case['q']))
        for u in (*IERS.extract_coefficients(lo, la, model_file=p, method=case['meth']), *IERS.read_binary_file(model_file=p)[:3]):
            if isinstance(u, np.ndarray) and u.flags.writeable:
                u[...] = 1
    return write(case, ctx)


def write(case, ctx):
    nodes = {}
    k = 0
    for lo, la in case['q']:
        for c in opole.corners(lo, la):
            if c not in nodes:
                nodes[c] = opole.rounded([a*(1 + 0.1*(k % 11)) for a in case['v'][k % len(case['v'])]]); k += 1
    p = pathlib.Path(ctx.tmp)/'coef.txt.gz'
    opole.write(p, nodes, header=[HEADERS[i % len(HEADERS)].format(i) for i in range(case['h'])])
    return nodes, p


def f_extract(case, ctx):
    nodes, p = files(case, ctx)
    lon = np.array([a for a, b in case['q']]); lat = np.array([b for a, b in case['q']])
    U = IERS.extract_coefficients(lon, lat, model_file=p, method=case['meth'])
    ctx.check(len(U) == 3 and all(np.shape(u) == lon.shape for u in U), 'shape of the coefficients')
    got = np.array([[U[0][k].real, U[0][k].imag, U[1][k].real, U[1][k].imag, U[2][k].real, U[2][k].imag] for k in range(len(lon))], float)
    for k in range(len(lon)):
        if case['meth'] == 'nearest':
            fx = ((lon[k]-0.25) % 360)/0.5; fy = (lat[k]+89.75)/0.5
            I = {int(np.floor(fx+0.5+e)) % 720 for e in (-1e-6, 1e-6)}; J = {int(np.clip(np.floor(fy+0.5+e), 0, 359)) for e in (-1e-6, 1e-6)}
            cand = [np.array(nodes.get((i, j), np.zeros(6))) for i in I for j in J]
            ctx.nt()
            ctx.check(any(np.allclose(got[k], c, rtol=1e-9, atol=1e-9) for c in cand), f'nearest at {lon[k]},{lat[k]}: {got[k]} not in {cand}')
        else:
            want = opole.interp(nodes, lon[k], lat[k])
            ctx.nt(bool(np.any(want)))
            ctx.close(got[k], want, f'{case["meth"]} R, N, E coefficients at {lon[k]},{lat[k]}', rtol=1e-7, atol=1e-8)
    one = IERS.extract_coefficients(lon[-1:], lat[-1:], model_file=p, method=case['meth'])
    for a, b in zip(one, U):
        ctx.close(np.array([complex(a[0])]), np.array([complex(b[-1])]), 'single point and batch', atol=1e-12)
    # equivalent longitudes
    V = IERS.extract_coefficients(np.where(lon > 0, lon-360.0, lon+360.0), lat, model_file=p, method=case['meth'])
    if case['meth'] != 'nearest':
        for a, b in zip(V, U):
            ctx.close(a.astype(complex), b.astype(complex), 'equivalent longitudes', atol=1e-8)


def f_read(case, ctx):
    nodes, p = files(case, ctx)
    ctx.nt()
    for f in (lambda: IERS.read_binary_file(model_file=p), lambda: IERS.ocean_pole_tide(p)):
        R, N, E, lo, la = f()
        ctx.check(R.shape == N.shape == E.shape == (len(lo), len(la)), 'shape of the maps')
        got = {}
        for a in range(len(lo)):
            hit = np.nonzero(R[a] != 0)[0]
            for b in hit:
                got.setdefault((int(round((lo[a]-0.25)/0.5)) % 720, int(round((la[b]+89.75)/0.5))), []).append(
                    [R[a, b].real, R[a, b].imag, N[a, b].real, N[a, b].imag, E[a, b].real, E[a, b].imag])
        want = {k: v for k, v in nodes.items() if v[0] or v[1]}
        ctx.check(set(got) == set(want), f'nodes of the map {sorted(set(got)^set(want))[:4]}')
        for k, v in got.items():
            for w in v:
                ctx.close(np.array(w, float), np.array(want[k]), f'coefficients of node {k}', rtol=1e-12)
        # spans all longitudes
        ctx.check(lo.min() <= -180.0 and lo.max() >= 180.0 and np.all(np.diff(lo) > 0), f'longitudes {lo.min()} to {lo.max()}')


SUBS = [Sub('extract', case_st(), f_extract, 240, 3000, tmp=True, shards=6),
        Sub('read', case_st(), f_read, 40, 300, tmp=True, shards=2)]

if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
