"""C12: the same place and instant has the same correction in every data layout."""
import _boot
from harness import *
from gen import *
import large
import corr as K
import models as M
import pyTMD.compute

PROPERTY = 'C12'
RULE = ('Scattered and gridded places, times, corrections, model formats and options are generated and evaluated in the grid, drift and time '
        'series layouts; non-trivial when there are at least two places or times and the values are not all masked or zero.')
ASSUMPTIONS = ['drift with one place and one time per value is the reference', 'stations are not exactly on the rotation axis']
CASES = {'grid': ['grid', 'GRID', 'Grid'], 'drift': ['drift', 'Drift', 'DRIFT'], 'time series': ['time series', 'Time Series', 'TIME SERIES']}
LAT = st.one_of(mix(-89.5, 89.5, 0.0, 45.0), fl(-80, 80))
SEC = st.one_of(fl(-7e8, 4.3e8), st.integers(-8000, 4900).map(lambda d: 86400.0*d))


@st.composite
def layout_st(draw):
    what = draw(st.sampled_from(K.SIMPLE))
    ny, nx, nt = draw(st.sampled_from([1, 1, 2, 3])), draw(st.sampled_from([1, 2, 2, 3, 4])), draw(st.sampled_from([1, 2, 3, 4, 6]))
    axes = draw(st.booleans())
    return dict(what=what, opt=K.options(draw, what), axes=axes, ny=ny, nx=nx,
                lon=draw(lists(lon180, nx if axes else nx*ny, nx if axes else nx*ny)), lat=draw(lists(LAT, ny if axes else nx*ny, ny if axes else nx*ny)),
                t=draw(lists(SEC, nt, nt)), dt=draw(st.booleans()), cs=draw(st.integers(0, 2)), v=draw(lists(fl(-2, 2), 6, 6)),
                via=draw(st.sampled_from(['direct', 'direct', 'corrections'])))


def times(t, dt):
    """seconds since 2000, or datetimes of the same instants to the microsecond"""
    if not dt:
        return np.array(t, dtype=float), dict(EPOCH=(2000, 1, 1, 0, 0, 0), TIME='UTC')
    return np.datetime64('2000-01-01T00:00:00.000000') + np.round(np.array(t)*1e6).astype('m8[us]'), dict(TIME='datetime')


def compare(ctx, call, lon, lat, t, ny, nx, axes, cs, what, atol=1e-9):
    """call(x, y, t, TYPE) in every layout.  lon, lat: (ny, nx)"""
    nt = len(t)
    P, Q = lon.ravel(), lat.ravel()
    n = len(P)
    ref = K.data(call(np.repeat(P, nt), np.repeat(Q, nt), np.tile(t, n), CASES['drift'][cs]))
    ctx.check(ref.shape == (n*nt,), f'{what} drift: shape {ref.shape} expected {(n*nt,)}')
    ref = ref.reshape(n, nt)
    ctx.nt(n*nt > 1 and bool(np.any(np.isfinite(ref) & (ref != 0))))
    tol = dict(rtol=1e-8, atol=atol)

    def agree(got, want, label, copies=True):
        g = K.data(got)
        ctx.check(g.shape == want.shape, f'{what} {label}: shape {g.shape} expected {want.shape}')
        ctx.close(g, want, f'{what} {label} and drift', **tol)
    tsr = call(P.copy(), Q.copy(), t, CASES['time series'][cs])
    agree(tsr, ref, 'time series')
    want = ref.reshape(ny, nx, nt)
    g = call(lon.copy(), lat.copy(), t, CASES['grid'][cs])
    agree(g, want, 'grid of two-dimensional coordinates')
    if axes and nx != ny:
        agree(call(lon[0].copy(), lat[:, 0].copy(), t, CASES['grid'][cs]), want, 'grid of axes')
        if not (nx == 1 and ny == 1):
            ctx.label('deduced grid of axes')
            agree(call(lon[0].copy(), lat[:, 0].copy(), t, None), want, 'deduced grid of axes')
    # deduced layouts
    if n == 1:
        ctx.label('deduced time series')
        agree(call(P.copy(), Q.copy(), t, None), ref, 'deduced time series')
        agree(call(float(P[0]), float(Q[0]), t, 'time series'), ref, 'scalar time series')
    elif n == nt:
        ctx.label('deduced drift')
        agree(call(P.copy(), Q.copy(), t, None), ref.diagonal(), 'deduced drift')
    else:
        ctx.label('deduced grid')
        agree(call(lon.copy(), lat.copy(), t, None), want, 'deduced grid')
    if n > 1 and nt > 1 and n != nt:
        # one-dimensional places that are neither a drift nor a grid
        try:
            call(P.copy(), Q.copy(), t, None)
        except Exception:
            pass
        else:
            ctx.fail(f'{what}: undecidable layout accepted')
    # each value alone
    one = K.data(call(P[-1:], Q[-1:], t[-1:], 'drift'))
    ctx.close(one, ref[-1, -1:], f'{what} alone and in a batch', **tol)


def f_layouts(case, ctx):
    what = case['what']
    ny, nx = case['ny'], case['nx']
    if case['axes']:
        lon, lat = np.meshgrid(case['lon'], case['lat'])
    else:
        lon, lat = np.array(case['lon']).reshape(ny, nx), np.array(case['lat']).reshape(ny, nx)
    t, tk = times(case['t'], case['dt'])
    ctx.label(what)
    if what == 'OPT':
        K.pole_file(ctx.tmp, lon, lat, case['v'])
    kw = dict(case['opt'])
    if kw.get('CONVENTION') == '2015':
        t, tk = times([min(s, 2.5e8) for s in case['t']], case['dt'])

    def call(x, y, tt, TYPE):
        if case['via'] == 'direct':
            return K.FUNC[what](x, y, tt, TYPE=TYPE, **tk, **kw)
        return pyTMD.compute.corrections(x, y, tt, CORRECTION=what, TYPE=TYPE, **tk, **kw)
    compare(ctx, call, lon, lat, t, ny, nx, case['axes'], case['cs'], what)


@st.composite
def model_st(draw):
    var = draw(st.sampled_from('zzu'))
    s = draw(M.specs(formats=M.FORMATS if var == 'z' else [f for f in M.FORMATS if not f.startswith('GOT')],
                     names=['m2', 's2', 'n2', 'k1', 'o1', 'p1', 'q1', 'k2', 'mf', 'mm', 'm4', 'ssa', 'node'], maxcons=8))
    ny, nx, nt = draw(st.sampled_from([1, 2, 3])), draw(st.sampled_from([1, 2, 3])), draw(st.sampled_from([1, 2, 3, 5]))
    return dict(spec=s, var=var, ny=ny, nx=nx, pos=draw(M.positions(9).filter(lambda p: len(p) >= 1)),
                t=draw(lists(SEC, nt, nt)), dt=draw(st.booleans()), cs=draw(st.integers(0, 2)), minor=draw(st.booleans()),
                method=draw(st.sampled_from(['spline', 'bilinear', 'linear', 'nearest'])), fill=draw(st.sampled_from([None, -9999.0, np.inf, 0.0])),
                extrap=draw(st.sampled_from([False, False, True])))


def f_models(case, ctx):
    m = M.Model(case['spec'])
    var = case['var']
    d = M.write(m, ctx.tmp, 'z' if var == 'z' else 'uv')
    f = M.definition(d, ctx.tmp + '/def.json')
    ny, nx = case['ny'], case['nx']
    pos = [case['pos'][i % len(case['pos'])] for i in range(ny*nx)]
    px, py = M.locate(m, pos, var)
    lon, lat = m.lonlat(px, py)
    lon, lat = np.reshape(lon, (ny, nx)), np.reshape(lat, (ny, nx))
    t, tk = times(case['t'], case['dt'])
    kw = dict(DEFINITION_FILE=f, METHOD=case['method'], INFER_MINOR=case['minor'], EXTRAPOLATE=case['extrap'], CUTOFF=np.inf, **tk)
    if case['fill'] is not None:
        kw['FILL_VALUE'] = case['fill']
    ctx.label(case['spec']['fmt'] + ':' + var)

    def call(x, y, tt, TYPE):
        if var == 'z':
            o = pyTMD.compute.tide_elevations(x, y, tt, TYPE=TYPE, **kw)
        else:
            o = pyTMD.compute.tide_currents(x, y, tt, TYPE=TYPE, **kw)
            ctx.check(list(o) == ['u', 'v'], f'currents {list(o)}')
            ctx.check(o['u'].shape == o['v'].shape, 'shapes of u and v')
            v = o['v']
            o = o['u'] if case['cs'] != 2 else v
        mk = np.ma.getmaskarray(o)
        fv = np.nan if case['fill'] is None else case['fill']
        b = np.ma.getdata(o)[mk]
        ctx.check(bool(np.all((b == fv) | ((b != b) & (fv != fv)))), f'masked values {b[:3]} are not the fill value {fv}')
        ctx.check(o.fill_value == fv or (fv != fv and o.fill_value != o.fill_value), f'fill value {o.fill_value}')
        return o
    compare(ctx, call, lon, lat, t, ny, nx, False, case['cs'], case['spec']['fmt'], atol=1e-9*(1 if var == 'z' else 100))


SUBS = [Sub('layouts', layout_st(), f_layouts, 360, 8000, tmp=True, shards=6),
        Sub('models', model_st(), f_models, 300, 6000, tmp=True, shards=6)]
SUBS.append(large.sub(['LPET', 'SET', 'LPT'], top=10001))
SUBS.append(large.pure(['LPET', 'SET', 'LPT']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
