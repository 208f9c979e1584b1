"""C13: a correction does not depend on how the place and the instant are expressed, nor on the name it is called by."""
import _boot
from harness import *
from gen import *
import corr as K
import models as M
import datetime, warnings
import pyproj
import pyTMD, pyTMD.compute, pyTMD.time, pyTMD.eop, pyTMD.astro, pyTMD.spatial, pyTMD.io.IERS
import timescale.time, timescale.eop

PROPERTY = 'C13'
RULE = ('Places in geographic and projected reference systems (given as number, text or definition), equivalent longitudes, instants in every '
        'time standard with random epochs and as datetimes, deprecated names and invalid options are generated; non-trivial when the expression '
        'differs from plain degrees and UTC seconds since 2000 and the value is not zero.')
ASSUMPTIONS = ['projected coordinates are produced by pyproj', 'GPS, TAI and LORAN seconds count the seconds elapsed since the (UTC) epoch, leap '
               'seconds included; instants within two minutes of a leap second are not generated']

LEAPS = [datetime.datetime(*d) for d in ((1981, 7, 1), (1982, 7, 1), (1983, 7, 1), (1985, 7, 1), (1988, 1, 1), (1990, 1, 1), (1991, 1, 1),
         (1992, 7, 1), (1993, 7, 1), (1994, 7, 1), (1996, 1, 1), (1997, 7, 1), (1999, 1, 1), (2006, 1, 1), (2009, 1, 1), (2012, 7, 1),
         (2015, 7, 1), (2017, 1, 1))]
Y2K = datetime.datetime(2000, 1, 1)
LEAPSEC = np.array([(d-Y2K).total_seconds() for d in LEAPS])


def crs_st(draw):
    """reference system, as the user gives it, and the latitudes it is used for"""
    k = draw(st.sampled_from(['geo', 'north', 'south', 'merc', 'utm', 'custom']))
    form = draw(st.integers(0, 3))
    if k == 'geo':
        return draw(st.sampled_from([4326, '4326', 'EPSG:4326', '+proj=longlat +datum=WGS84 +type=crs', 'OGC:CRS84'])), (-89.5, 89.5), (-180, 180)
    if k in ('north', 'south', 'merc', 'utm'):
        z = draw(st.integers(1, 60))
        n = dict(north=3413, south=3031, merc=3857, utm=32600+z)[k]
        lat = dict(north=(50, 89.9), south=(-89.9, -50), merc=(-80, 80), utm=(0, 80))[k]
        lon = (-183+6*z-2, -183+6*z+2) if k == 'utm' else (-179.9, 179.9)
        return [n, str(n), f'EPSG:{n}', f'epsg:{n}'][form], lat, lon
    la, lo = draw(st.integers(-80, 80)), draw(st.integers(-170, 170))
    p = draw(st.sampled_from(['laea', 'aeqd', 'stere']))
    u = draw(st.sampled_from(['m', 'km']))
    s = f'+proj={p} +lat_0={la} +lon_0={lo} +datum=WGS84 +units={u} +type=crs'
    if form == 1:
        s = dict(proj=p, lat_0=la, lon_0=lo, datum='WGS84', units=u, type='crs')
    return s, (max(la-8, -89), min(la+8, 89)), (lo-8, lo+8)


CURRENT = ['OTIS', 'TMD3', 'ATLAS-netcdf', 'FES2012', 'FES2014', 'FES2022', 'HAMTIDE11']


@st.composite
def place_st(draw):
    what = draw(st.sampled_from(K.SIMPLE + ['ocean', 'ocean', 'currents']))
    n = draw(st.integers(1, 4))
    c, la, lo = crs_st(draw)
    o = dict(what=what, opt=K.options(draw, what), crs=c, lat=draw(lists(fl(*la), n, n)), lon=draw(lists(fl(*lo), n, n)),
             t=draw(lists(fl(-3e8, 2.4e8), n, n)), wrap=draw(lists(st.sampled_from([0, 1, -1, 0.5]), n, n)), v=draw(lists(fl(-2, 2), 6, 6)),
             type=draw(st.sampled_from(['drift', 'grid', 'time series'])))
    if what == 'ocean':
        s = draw(M.specs(formats=[f for f in M.FORMATS if f not in ('OTIS-list',)], glob=True, names=['m2', 's2', 'k1', 'o1', 'mf', 'm4']))
        s['land'], s['dup'] = 0.0, False
        o['spec'] = s
    if what == 'currents':
        s = draw(M.specs(formats=CURRENT, glob=True, names=['m2', 's2', 'k1', 'o1', 'mf', 'm4']))
        s['land'], s['dup'] = 0.0, False
        o['spec'] = s
    if 'spec' in o:
        o['method'] = draw(st.sampled_from(['spline', 'bilinear', 'linear']))
    return o


def f_place(case, ctx):
    what = case['what']
    lon, lat, t = np.array(case['lon']), np.array(case['lat']), np.array(case['t'])
    kw = dict(case['opt'])
    ctx.label(what)
    if what in ('ocean', 'currents'):
        m = M.Model(case['spec'])
        d = M.write(m, ctx.tmp, 'z' if what == 'ocean' else 'uv')
        kw.update(DEFINITION_FILE=M.definition(d, ctx.tmp + '/def.json'), METHOD=case['method'], INFER_MINOR=False)
        f = K.FUNC[what]
        # well within the latitudes of the model: the mask at its edges is not the matter here
        e = 0.01 if what == 'ocean' else 0.51
        lo_, hi_ = m.y[0]+e*m.dy, m.y[-1]-e*m.dy
        keep = (lat > lo_) & (lat < hi_)
        if not keep.any():
            ctx.skip()
        lon, lat, t = lon[keep], lat[keep], t[keep]
    else:
        f = K.FUNC[what]
        if what == 'OPT':
            K.pole_file(ctx.tmp, lon, lat, case['v'])
    TYPE = case['type']
    shape = (lambda a: a.reshape(1, -1)) if TYPE == 'grid' else (lambda a: a)
    call = lambda x, y, epsg: K.data(f(shape(np.array(x)), shape(np.array(y)), t, EPSG=epsg, TYPE=TYPE, **kw))
    ref = call(lon, lat, 4326)
    ctx.nt(bool(np.any(np.isfinite(ref) & (ref != 0))))
    if what in ('ocean', 'currents'):
        ctx.check(bool(np.isfinite(ref).all()), 'masked within the domain of the model')
    c = case['crs']
    x, y = pyproj.Transformer.from_crs(pyproj.CRS.from_epsg(4326), pyproj.CRS.from_user_input(int(c) if str(c).isdigit() else c), always_xy=True).transform(lon, lat)
    scale = max(1.0, float(np.nanmax(np.abs(ref))))
    tol = dict(rtol=0, atol=scale*2e-7)
    ctx.close(call(x, y, c), ref, f'{what} {TYPE} in {c} and in degrees', **tol)
    # equivalent longitudes: one period more or less, or 0 to 360
    w = np.array([k if k != 0.5 else (1 if a < 0 else 0) for k, a in zip(case['wrap'], lon)][:len(lon)])
    if what in ('ocean', 'currents'):
        w = np.where((w > 0) & (lon > 0), 0, np.where((w < 0) & (lon < 0), 0, w))
    if what == 'OPT':
        w = np.where((w > 0) & (lon > 0), 0, np.where(w < 0, 0, w))
    ctx.close(call(lon + 360.0*w, lat, 4326), ref, f'{what} {TYPE} at equivalent longitudes {w}', **tol)


@st.composite
def time_st(draw):
    what = draw(st.sampled_from(K.SIMPLE + ['ocean', 'currents']))
    n = draw(st.integers(1, 4))
    t = draw(lists(st.one_of(fl(-5.6e8, 2.4e8), st.integers(-6000, 2700).map(lambda d: 86400.0*d)), n, n))
    t = [round(a, 3) for a in t]
    ep = [draw(st.integers(1982, 2020)), draw(st.integers(1, 12)), draw(st.integers(2, 28)), draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59))]
    o = dict(what=what, opt=K.options(draw, what), t=t, epoch=ep, std=draw(st.sampled_from(['UTC', 'utc', 'GPS', 'gps', 'TAI', 'tai', 'LORAN', 'Loran'])),
             unit=draw(st.sampled_from(['ms', 'us', 'ns'])), ek=draw(st.sampled_from(['tuple', 'list', 'short'])),
             lon=draw(lists(lon180, n, n)), lat=draw(lists(fl(-85, 85), n, n)), v=draw(lists(fl(-2, 2), 6, 6)),
             type=draw(st.sampled_from(['drift', 'grid', 'time series'])))
    if what in ('ocean', 'currents'):
        s = draw(M.specs(formats=['OTIS', 'GOT-netcdf', 'FES2014', 'ATLAS-netcdf'] if what == 'ocean' else CURRENT, glob=True, names=['m2', 's2', 'k1', 'o1', 'mf', 'm4']))
        s['land'] = 0.0
        o['spec'] = s
    return o


def leap_count(sec):
    return np.searchsorted(LEAPSEC, sec, side='right')


def f_time(case, ctx):
    what, t = case['what'], np.array(case['t'])
    for i in range(len(t)):
        if np.min(np.abs(LEAPSEC - t[i])) < 120:
            t[i] += 600.0
    lon, lat = np.array(case['lon']), np.array(case['lat'])
    kw = dict(case['opt'])
    ctx.label(what); ctx.label(case['std'].upper())
    if what in ('ocean', 'currents'):
        m = M.Model(case['spec'])
        d = M.write(m, ctx.tmp, 'z' if what == 'ocean' else 'uv')
        kw.update(DEFINITION_FILE=M.definition(d, ctx.tmp + '/def.json'))
        f = K.FUNC[what]
        lon, lat = m.lonlat(*[np.array(a) for a in (m.x[0] + m.dx*np.arange(len(t))*0.3, m.y[0] + 0.5*m.dy + 0.1*np.arange(len(t)))])
    else:
        f = K.FUNC[what]
        if what == 'OPT':
            K.pole_file(ctx.tmp, lon, lat, case['v'])
    TYPE = case['type']
    shape = (lambda a: np.array(a).reshape(1, -1)) if TYPE == 'grid' else np.array
    call = lambda tt, **k: K.data(f(shape(lon), shape(lat), tt, TYPE=TYPE, **k, **kw))
    ref = call(t, EPOCH=(2000, 1, 1, 0, 0, 0), TIME='UTC')
    ctx.nt(bool(np.any(np.isfinite(ref) & (ref != 0))))
    # seconds since another epoch, in another standard
    ep = list(case['epoch'])
    if case['ek'] == 'short':
        ep = ep[:3]
    e = (datetime.datetime(*ep) - Y2K).total_seconds()
    if np.min(np.abs(LEAPSEC - e)) < 120:
        ctx.skip()
    s = t - e
    if case['std'].upper() != 'UTC':
        s = s + leap_count(t) - leap_count(np.array([e]))
    atol = 2e-7*max(1.0, float(np.nanmax(np.abs(ref), initial=0.0)))
    got = call(s, EPOCH=tuple(ep) if case['ek'] != 'list' else ep, TIME=case['std'])
    ctx.close(got, ref, f'{what} {TYPE}: {case["std"]} seconds since {ep}', rtol=0, atol=atol)
    # datetimes of the same instants
    dt = np.datetime64('2000-01-01T00:00:00', 'ms') + np.round(t*1e3).astype('m8[ms]')
    dt = dt.astype(f'M8[{case["unit"]}]')
    ctx.close(call(dt, TIME='datetime'), ref, f'{what} {TYPE}: datetimes', rtol=0, atol=atol)
    if len(t) == 1:
        ctx.close(call(t[0], EPOCH=(2000, 1, 1, 0, 0, 0), TIME='UTC'), ref, f'{what} {TYPE}: scalar time', rtol=0, atol=0)


# ---------------------------------------------------------------- names
def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)) and not isinstance(a, np.ndarray):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, np.generic, float, int)) and not isinstance(a, bool):
        a_, b_ = np.ma.asarray(a), np.ma.asarray(b)
        if a_.dtype.kind in 'OUSM':
            return bool(np.all(a_ == b_))
        return same(a_, b_)
    return type(a) is type(b) and (a == b)


YEAR = st.integers(1975, 2030)
NAMES = dict(
    ocean=['compute_tide_corrections', 'corr:ocean', 'corr:OCEAN', 'corr:load', 'old:ocean', 'old:Load', 'new:ocean', 'new:LOAD'],
    LPET=['compute_LPET_corrections', 'new:LPET', 'old:lpet', 'new:Lpet'], LPT=['compute_LPT_corrections', 'new:LPT', 'old:lpt'],
    OPT=['compute_OPT_corrections', 'new:OPT', 'old:Opt'], SET=['compute_SET_corrections', 'new:SET', 'old:set'])


@st.composite
def name_st(draw):
    kind = draw(st.sampled_from(['correction', 'correction', 'time', 'astro', 'spatial', 'points', 'iers', 'eop', 'class']))
    o = dict(kind=kind, n=draw(st.integers(1, 4)))
    n = o['n']
    o.update(t=draw(lists(fl(-3e8, 2.4e8), n, n)), lon=draw(lists(lon180, n, n)), lat=draw(lists(fl(-85, 85), n, n)),
             ymd=draw(lists(st.tuples(YEAR, st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), fl(0, 59.9)).map(list), 1, 3)))
    if kind in ('correction', 'points'):
        what = draw(st.sampled_from(K.SIMPLE + ['ocean'])) if kind == 'correction' else 'ocean'
        o.update(what=what, opt=K.options(draw, what), type=draw(st.sampled_from(['drift', 'grid', 'time series'])), v=draw(lists(fl(-2, 2), 6, 6)),
                 name=draw(st.sampled_from(NAMES[what])))
        if what == 'ocean':
            o['spec'] = draw(M.specs(formats=['OTIS', 'GOT-netcdf', 'FES2014', 'ATLAS-netcdf']))
    o['unit'] = draw(st.sampled_from(['seconds', 'ms', 'days', 'hours', 'minutes', 'microseconds', 'sec', 'h', 'd']))
    o['conv'] = draw(st.sampled_from(K.CONV))
    return o


def f_names(case, ctx):
    kind, n = case['kind'], case['n']
    lon, lat, t = np.array(case['lon']), np.array(case['lat']), np.array(case['t'])
    ctx.label(kind); ctx.nt()
    Y = np.array(case['ymd'], dtype=float)
    dates = [datetime.datetime(int(a[0]), int(a[1]), int(a[2]), int(a[3]), int(a[4]), int(a[5])) for a in case['ymd']]

    def eq(a, b, what):
        ctx.check(equal(a, b), f'{what}: {a!r} and {b!r}')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind in ('correction', 'points'):
            what = case['what']
            kw = dict(case['opt'])
            if what == 'ocean':
                m = M.Model(case['spec'])
                d = M.write(m, ctx.tmp, 'z')
                kw.update(DEFINITION_FILE=M.definition(d, ctx.tmp + '/def.json'))
                lon, lat = m.lonlat(*M.locate(m, [[0.1*i, 0.2*i, 0] for i in range(n)]))
            if what == 'OPT':
                K.pole_file(ctx.tmp, lon, lat, case['v'])
            if kind == 'points':
                eq(pyTMD.check_points(lon, lat, **kw), pyTMD.compute.tide_masks(lon, lat, **kw), 'check_points')
                return
            if case['type'] == 'grid':
                lon, lat = lon.reshape(1, -1), lat.reshape(1, -1)
            kw['TYPE'] = case['type']
            f = K.FUNC[what]
            ref = f(lon, lat, t, **kw)
            name = case['name']
            if name.startswith('compute_'):
                got = getattr(pyTMD, name)(lon, lat, t, **kw)
            else:
                a, b = name.split(':')
                g = dict(corr=pyTMD.compute.corrections, new=pyTMD.compute.corrections, old=pyTMD.compute_corrections)[a]
                got = g(lon, lat, t, CORRECTION=b, **kw)
                if b.lower() == 'ocean':
                    eq(g(lon, lat, t, **kw), ref, f'{name} by default')
            eq(got, ref, name)
        elif kind == 'time':
            P, T = pyTMD.time, timescale.time
            s = dates[0].strftime('%Y-%m-%d %H:%M:%S')
            eq(P.parse(s), T.parse(s), 'parse')
            u = f'{case["unit"]} since {s}'
            for q in (u, s):
                eq(P.parse_date_string(q), T.parse_date_string(q), f'parse_date_string of {q}')
            eq(P.split_date_string(u), T.split_date_string(u), 'split_date_string')
            eq(P.datetime_to_list(dates[0]), T.datetime_to_list(dates[0]), 'datetime_to_list')
            eq(P.calendar_days(dates[0].year), T.calendar_days(dates[0].year), 'calendar_days')
            a = np.array(dates, 'M8[s]')
            ep = tuple(int(v) for v in case['ymd'][-1][:5]) + (0,)
            eq(P.convert_datetime(a, epoch=ep), T.convert_datetime(a, epoch=ep), 'convert_datetime')
            eq(P.convert_delta_time(t, epoch1=ep, epoch2=(2000, 1, 1, 0, 0, 0), scale=1/86400.0), T.convert_delta_time(t, epoch1=ep, epoch2=(2000, 1, 1, 0, 0, 0), scale=1/86400.0), 'convert_delta_time')
            k = dict(hour=Y[:, 3], minute=Y[:, 4], second=Y[:, 5])
            eq(P.convert_calendar_dates(Y[:, 0], Y[:, 1], Y[:, 2], epoch=ep, scale=2.0, **k), T.convert_calendar_dates(Y[:, 0], Y[:, 1], Y[:, 2], epoch=ep, scale=2.0, **k), 'convert_calendar_dates')
            eq(P.convert_calendar_decimal(Y[:, 0], Y[:, 1], day=Y[:, 2], **k), T.convert_calendar_decimal(Y[:, 0], Y[:, 1], day=Y[:, 2], **k), 'convert_calendar_decimal')
            jd = 2451544.5 + t/86400.0
            for fmt in ('dict', 'tuple', 'zip'):
                a, b = (f.convert_julian(jd, format=fmt) for f in (P, T))
                eq(*((list(a), list(b)) if fmt == 'zip' else (a, b)), 'convert_julian')
        elif kind == 'class':
            for std in ('UTC', 'GPS', 'TAI'):
                a = pyTMD.time.timescale().from_deltatime(t, epoch=(2000, 1, 1, 0, 0, 0), standard=std)
                b = timescale.time.Timescale().from_deltatime(t, epoch=(2000, 1, 1, 0, 0, 0), standard=std)
                for q in ('MJD', 'tide', 'tt_ut1', 'tt', 'gmst', 'T'):
                    eq(getattr(a, q), getattr(b, q), f'timescale {q}')
        elif kind == 'astro':
            mjd = 51544.0 + t/86400.0
            TAU, S, H, P, ZNS, PS = pyTMD.astro.doodson_arguments(mjd)
            eq(pyTMD.astro.phase_angles(mjd), (S, H, P, TAU, ZNS, PS), 'phase_angles')
        elif kind == 'spatial':
            for k in ({}, dict(reference_latitude=71.0), dict(flat=1/298.0, metric='distance'), dict(metric='area', reference_latitude=60.0)):
                eq(pyTMD.spatial.scale_areas(lat, **k), pyTMD.spatial.scale_factors(lat, **k), f'scale_areas {k}')
        elif kind == 'iers':
            K.pole_file(ctx.tmp, lon, lat, [1., 2., 3., 4., 5., 6.])
            f = pyTMD.io.IERS._ocean_pole_tide_file
            eq(pyTMD.io.IERS.ocean_pole_tide(f), pyTMD.io.IERS.read_binary_file(model_file=f), 'ocean_pole_tide')
        elif kind == 'eop':
            P, T = pyTMD.eop, timescale.eop
            y = 2000.0 + t/3.15576e7
            eq(P.iers_mean_pole(y, convention=case['conv']), T.iers_mean_pole(y, convention=case['conv']), 'iers_mean_pole')
            mjd = 51544.0 + t/86400.0
            eq(P.iers_polar_motion(mjd, k=3, s=0), T.iers_polar_motion(mjd, k=3, s=0), 'iers_polar_motion')
            eq(P.iers_daily_EOP(), T.iers_daily_EOP(), 'iers_daily_EOP')
            # downloads are replaced with recorders: the alias passes its arguments and the result
            for name in ('update_mean_pole', 'calculate_mean_pole', 'pull_pole_coordinates', 'update_finals_file'):
                seen = []
                old = getattr(T, name)
                try:
                    setattr(T, name, lambda *a, **k: (seen.append((a, k)), 'result')[1])
                    if name == 'pull_pole_coordinates':
                        got = P.pull_pole_coordinates('file', verbose=True)
                        ctx.check(seen == [(('file',), dict(verbose=True))], f'{name} {seen}')
                        ctx.check(got == 'result', f'{name} returned {got!r}')
                    else:
                        getattr(P, name)(verbose=True, mode=0o600)
                        ctx.check(seen == [((), dict(verbose=True, mode=0o600))], f'{name} {seen}')
                finally:
                    setattr(T, name, old)


# ---------------------------------------------------------------- invalid options
BAD = st.sampled_from(['', 'none', 'utc ', 'foo', 'UT1', 'griddy', 'time_series', 'cubicspline', 'SETT', '2016', 'WGS85', 'mean', 'de440', '9999'])


def f_refuse(case, ctx):
    what, name, bad = case['what'], case['opt'], case['bad']
    valid = dict(TIME=('gps', 'loran', 'tai', 'utc', 'datetime'), TYPE=('grid', 'drift', 'time series'), METHOD=('bilinear', 'spline', 'linear', 'nearest'),
                 CONVENTION=('2003', '2010', '2015', '2018'), EPHEMERIDES=('approximate', 'jpl'), TIDE_SYSTEM=('mean_tide', 'tide_free'), CORRECTION=(), ELLIPSOID=())
    if bad.lower() in valid[name] or (name == 'TYPE' and not bad):
        ctx.skip()
    has = dict(LPET=('TIME', 'TYPE'), LPT=('TIME', 'TYPE', 'CONVENTION', 'ELLIPSOID'), OPT=('TIME', 'TYPE', 'CONVENTION', 'ELLIPSOID', 'METHOD'),
               SET=('TIME', 'TYPE', 'EPHEMERIDES', 'TIDE_SYSTEM', 'ELLIPSOID'), ocean=('TIME', 'TYPE', 'METHOD'))[what]
    lon, lat, t = np.array(case['lon']), np.array(case['lat']), np.array(case['t'])
    kw = {}
    if what == 'ocean':
        m = M.Model(case['spec'])
        kw['DEFINITION_FILE'] = M.definition(M.write(m, ctx.tmp, 'z'), ctx.tmp + '/def.json')
    if what == 'OPT':
        K.pole_file(ctx.tmp, lon, lat, [1.]*6)
    ctx.nt()
    ctx.label(name)
    if name == 'CORRECTION':
        f = lambda: pyTMD.compute.corrections(lon, lat, t, CORRECTION=bad, **kw)
    elif name in has:
        f = lambda: K.FUNC[what](lon, lat, t, **{name: bad}, **kw)
    else:
        ctx.skip()
    try:
        f()
    except Exception:
        return
    ctx.fail(f'{what}: {name}={bad!r} is accepted')


refuse = st.fixed_dictionaries(dict(what=st.sampled_from(K.SIMPLE + ['ocean']), opt=st.sampled_from(['TIME', 'TYPE', 'METHOD', 'CONVENTION', 'EPHEMERIDES', 'TIDE_SYSTEM', 'CORRECTION', 'ELLIPSOID']),
         bad=BAD, lon=lists(lon180, 1, 1), lat=lists(fl(-80, 80), 1, 1), t=lists(fl(0, 1e8), 1, 1), spec=M.specs(formats=['OTIS', 'GOT-netcdf'])))
SUBS = [Sub('place', place_st(), f_place, 400, 9000, tmp=True, shards=4),
        Sub('time', time_st(), f_time, 300, 8000, tmp=True, shards=4),
        Sub('names', name_st(), f_names, 250, 3000, tmp=True, shards=3),
        Sub('refuse', refuse, f_refuse, 150, 1500, tmp=True)]

if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
