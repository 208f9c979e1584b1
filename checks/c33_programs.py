"""C33: the command-line programs write what the library computes, for every file format, layout and option."""
import _boot
from harness import *
from gen import *
import corr as K
import kernel
import models as M
import c14_model_tides as C14
import csv, datetime, importlib.util, io, json, logging, os, pathlib, sys, tempfile
import h5py, netCDF4, pandas as pd, pyproj
from osgeo import gdal, osr
import pyTMD, pyTMD.compute, pyTMD.io.IERS, pyTMD.spatial
import timescale.time
gdal.UseExceptions(); osr.UseExceptions()
logging.root.addHandler(logging.NullHandler())

PROPERTY = 'C33'
RULE = ('Input files of every format with generated places, times and attributes are given to the programs with generated options; non-trivial when the '
        'output has a value that is not zero and not the fill value.')
ASSUMPTIONS = ['the values are those of the functions of pyTMD.compute at the same places and instants (C01 to C14 decide those)',
               'text and parquet files hold drift data', 'times that the file does not hold are given with --deltatime',
               'geographic coordinates on output are in degrees, times in days since 1992 (UTC), or datetimes to the second']

SCRIPTS = pathlib.Path(REPO)/'scripts'
Y2K = datetime.datetime(2000, 1, 1)
LEAPS = [datetime.datetime(*d) for d in ((1981, 7, 1), (1982, 7, 1), (1983, 7, 1), (1985, 7, 1), (1988, 1, 1), (1990, 1, 1), (1991, 1, 1),
         (1992, 7, 1), (1993, 7, 1), (1994, 7, 1), (1996, 1, 1), (1997, 7, 1), (1999, 1, 1), (2006, 1, 1), (2009, 1, 1), (2012, 7, 1),
         (2015, 7, 1), (2017, 1, 1))]
LEAPSEC = np.array([(d-Y2K).total_seconds() for d in LEAPS])
PROG = dict(ocean='compute_tidal_elevations', currents='compute_tidal_currents', LPET='compute_LPET_elevations', LPT='compute_LPT_displacements',
            OPT='compute_OPT_displacements', SET='compute_SET_displacements')
OUT = dict(LPET='tide_lpe', LPT='tide_pole', OPT='tide_oc_pole', SET='tide_earth')
UNITS = dict(days=86400.0, hours=3600.0, minutes=60.0, seconds=1.0)
EXT = dict(csv='csv', netCDF4='nc', HDF5='h5', GTiff='tif', cog='tif', parquet='parquet')
_mod = {}


def program(name):
    if name not in _mod:
        spec = importlib.util.spec_from_file_location(name, SCRIPTS/f'{name}.py')
        _mod[name] = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_mod[name])
    return _mod[name]


class Logs(logging.Handler):
    def __init__(self):
        super().__init__(); self.text = []
    def emit(self, r):
        if r.levelno >= logging.ERROR:
            self.text.append(r.getMessage())


def run(ctx, name, argv, what):
    mod = program(name)
    h, old, level = Logs(), sys.argv, logging.root.level
    logging.root.addHandler(h)
    sys.argv = [name + '.py'] + [str(a) for a in argv]
    try:
        mod.main()
    except SystemExit as e:
        ctx.fail(f'{what}: the program refuses {argv}: {e}', key='refused')
    finally:
        sys.argv = old
        logging.root.removeHandler(h)
        logging.root.setLevel(level)
    bad = [t for t in h.text if 'Traceback' in t]
    if bad:
        lines = [l for l in bad[0].strip().split('\n') if l.strip()]
        where = [l.strip() for l in lines if l.strip().startswith('File')]
        ctx.fail(f'{what}: the program failed: {lines[-1]} ({where[-1] if where else ""})', key='failed ' + lines[-1].split(':')[0])


def proj4(c):
    return pyproj.CRS.from_user_input(int(c) if str(c).isdigit() else c)


@st.composite
def case_st(draw, progs, series=False):
    what = draw(st.sampled_from(progs))
    fmt = draw(st.sampled_from(['csv', 'csv', 'netCDF4', 'HDF5', 'GTiff', 'cog', 'parquet'] if not series else ['netCDF4', 'HDF5']))
    layout = 'time series' if series else 'grid' if fmt in ('GTiff', 'cog') else 'drift' if fmt in ('csv', 'parquet') else draw(st.sampled_from(['drift', 'grid', 'time series']))
    nt = draw(st.integers(1, 3))
    n = draw(st.integers(2 if series else 1, 4))
    o = dict(what=what, fmt=fmt, layout=layout, nt=nt, n=n, ny=draw(st.integers(1, 4)), nx=draw(st.integers(1, 4)),
             t=draw(lists(st.one_of(fl(-5e8, 2.4e8), st.integers(-6000, 2700).map(lambda d: 86400.0*d)), 4, 4)),
             unit=draw(st.sampled_from(sorted(UNITS))), std=draw(st.sampled_from(['UTC', 'UTC', 'GPS', 'TAI', 'LORAN', 'datetime'])),
             epoch=[draw(st.integers(1982, 2020)), draw(st.integers(1, 12)), draw(st.integers(2, 28)), draw(st.sampled_from([0, 12])), 0, 0],
             how=draw(st.sampled_from(['attr', 'option', 'default'])), fill=draw(st.sampled_from(['-9999.0', '-9999.0', '1e20', '0.0', '-1.5', 'nan'])),
             crs=draw(st.sampled_from(['geo', 'geo', 'north', 'south', 'merc'])), tell=draw(st.sampled_from(['attr', 'option'])),
             pos=draw(lists(st.tuples(fl(0, 1), fl(0, 1)).map(list), 4, 4)), v=draw(lists(fl(-2, 2), 6, 6)), opt=K.options(draw, what) if what not in ('ocean', 'currents') else {},
             delim=draw(st.sampled_from([',', ',', ';', '|'])), header=draw(st.integers(0, 2)), order=draw(st.permutations(['time', 'y', 'x', 'data'])),
             names=draw(st.sampled_from([None, ['t', 'latitude', 'longitude', 'h'], ['time', 'y', 'x', 'z']])), given=draw(st.booleans()),
             explicit=draw(st.booleans()), prj=draw(st.integers(0, 3)), mode=draw(st.sampled_from([None, None, '600', '640', '664'])), jpl=draw(st.booleans()), filledtime=draw(st.booleans()), gz=draw(st.booleans()), rev=draw(st.booleans()))
    if what in ('ocean', 'currents'):
        fm = [f for f in M.FORMATS if f not in ('OTIS-list',)] if what == 'ocean' else ['OTIS', 'TMD3', 'ATLAS-netcdf', 'FES2012', 'FES2014', 'FES2022', 'HAMTIDE11']
        s = draw(M.specs(formats=fm, names=['m2', 's2', 'k1', 'o1', 'n2', 'mf', 'm4'], maxcons=5))
        o['spec'] = s
        o.update(method=draw(st.sampled_from(['spline', 'bilinear', 'linear', 'nearest'])), minor=draw(st.booleans()),
                 sub=draw(st.one_of(st.none(), st.lists(st.sampled_from(['2n2', 'mu2', 'k2', 'p1', 'q1', 'ssa']), min_size=1, max_size=3, unique=True))),
                 corr=draw(st.one_of(st.none(), st.sampled_from(['OTIS', 'FES', 'GOT', 'perth3']))), flex=draw(st.booleans()), node=draw(st.booleans()),
                 crop=draw(st.booleans()), buffer=draw(st.one_of(st.none(), fl(0.5, 3.0))), extra=draw(st.booleans()), cutoff=draw(st.sampled_from(['10.0', '500', 'inf'])))
    return o


def write_input(path, case, names, x, y, tv, units, prj):
    """the input file, in the format asked for"""
    fmt, layout = case['fmt'], case['layout']
    tn, yn, xn, dn = names
    shape = (len(y), len(x)) if layout == 'grid' else (len(x),)
    data = np.arange(1.0, 1.0 + np.prod(shape)).reshape(shape)
    if fmt == 'csv':
        order = case['order']
        cols = dict(time=tv, y=y, x=x, data=data)
        with open(path, 'w') as f:
            for k in range(case['header']):
                f.write(f'# line {k} of the header, 12.5\n')
            for i in range(len(x)):
                f.write(case['delim'].join(str(cols[c][i]) if isinstance(cols[c][i], str) else repr(float(cols[c][i])) for c in order) + '\n')
    elif fmt == 'netCDF4':
        with netCDF4.Dataset(path, 'w') as f:
            if layout == 'grid':
                f.createDimension('y', len(y)); f.createDimension('x', len(x)); dims = dict(y=('y',), x=('x',), d=('y', 'x'))
            else:
                f.createDimension('n', len(x)); dims = dict(y=('n',), x=('n',), d=('n',))
            v = f.createVariable(yn, 'f8', dims['y']); v[:] = y
            v = f.createVariable(xn, 'f8', dims['x']); v[:] = x
            v = f.createVariable(dn, 'f8', dims['d'], fill_value=-1e5); v[:] = data
            if tv is not None:
                f.createDimension('t', len(tv))
                v = f.createVariable(tn, 'f8', ('t',), fill_value=-1e30 if case['filledtime'] else None); v[:] = tv
                if units:
                    v.units = units
            if prj:
                f.setncattr('projection', prj)
    elif fmt == 'HDF5':
        with h5py.File(path, 'w') as f:
            f[yn] = y; f[xn] = x; f[dn] = data
            if tv is not None:
                f[tn] = tv
                if units:
                    f[tn].attrs['units'] = units
            if prj:
                f.attrs['projection'] = prj
    elif fmt in ('GTiff', 'cog'):
        dx = x[1]-x[0] if len(x) > 1 else 1.0
        dy = y[1]-y[0] if len(y) > 1 else -1.0
        ds = gdal.GetDriverByName('GTiff').Create(str(path), len(x), len(y), 1, gdal.GDT_Float64)
        ds.SetGeoTransform((x[0]-dx/2, dx, 0, y[0]-dy/2, 0, dy))
        sr = osr.SpatialReference(); sr.ImportFromEPSG(case['epsg']); ds.SetProjection(sr.ExportToWkt())
        ds.GetRasterBand(1).WriteArray(data)
        ds = None
    else:
        d = {yn: y, xn: x, dn: data}
        if tv is not None:
            d = {tn: tv, **d}
        pd.DataFrame(d).to_parquet(path)


def read_output(path, case, outs):
    """{name: array} of the output file"""
    fmt = case['fmt']
    if fmt == 'csv':
        rows = list(csv.reader(open(path, newline=''), delimiter=case['delim']))
        cols = list(zip(*rows))
        r = dict(zip(['time', 'lat', 'lon'] + outs, cols))
        return {k: (np.array(v, dtype='M8[ms]') if k == 'time' and case['std'] == 'datetime' else np.array(v, float)) for k, v in r.items()}, {}
    if fmt == 'netCDF4':
        with netCDF4.Dataset(path) as f:
            f.set_auto_mask(False)
            return {k: np.array(v[:]) for k, v in f.variables.items()}, {k: {a: v.getncattr(a) for a in v.ncattrs()} for k, v in f.variables.items()}
    if fmt == 'HDF5':
        with h5py.File(path) as f:
            return {k: np.array(v[()]) for k, v in f.items()}, {k: dict(v.attrs) for k, v in f.items()}
    if fmt in ('GTiff', 'cog'):
        ds = gdal.Open(str(path))
        a = np.array([ds.GetRasterBand(i+1).ReadAsArray() for i in range(ds.RasterCount)])
        r = {'bands': a, 'gt': ds.GetGeoTransform(), 'nodata': ds.GetRasterBand(1).GetNoDataValue(), 'driver': ds.GetMetadataItem('LAYOUT', 'IMAGE_STRUCTURE')}
        r['epsg'] = osr.SpatialReference(ds.GetProjection())
        ds = None
        return r, {}
    d = pd.read_parquet(path)
    return {k: d[k].values for k in d.columns}, {}


def f_program(case, ctx):
    what, fmt, layout = case['what'], case['fmt'], case['layout']
    case = dict(case)
    tmp = ctx.tmp
    ctx.label(what); ctx.label(fmt); ctx.label(layout)
    # -- the places
    epsg = dict(geo=4326, north=3413, south=3031, merc=3857)[case['crs']]
    case['epsg'] = epsg
    P = np.array(case['pos'])
    argv, kw, outs = [], dict(case['opt']), None
    m = None
    if what in ('ocean', 'currents'):
        m = M.Model(case['spec'])
        if m.spec['proj'] is None:
            lo, la = (m.x[0]-m.dx/2, m.x[-1]+m.dx/2), (max(m.y[0]-m.dy/2, -89.0), min(m.y[-1]+m.dy/2, 89.0))
        else:
            cx, cy = m.lonlat(np.array([m.x.mean()]), np.array([m.y.mean()]))
            lo, la = (cx[0]-1.0, cx[0]+1.0), (max(cy[0]-1.0, -89.0), min(cy[0]+1.0, 89.0))
        lo = (lo[0], min(lo[1], lo[0]+300.0))
    else:
        lo, la = (-150.0, 150.0), dict(geo=(-85.0, 85.0), north=(55.0, 85.0), south=(-85.0, -55.0), merc=(-75.0, 75.0))[case['crs']]
    if case['crs'] != 'geo' and m is not None:
        a, b = dict(north=(50.0, 89.0), south=(-89.0, -50.0), merc=(-80.0, 80.0))[case['crs']]
        if max(la[0], a) < min(la[1], b):
            la = (max(la[0], a), min(la[1], b))
        else:
            epsg, case['epsg'], case['crs'] = 4326, 4326, 'geo'
    lon, lat = lo[0] + (lo[1]-lo[0])*P[:, 0], la[0] + (la[1]-la[0])*P[:, 1]
    tr = pyproj.Transformer.from_crs(4326, epsg, always_xy=True)
    back = pyproj.Transformer.from_crs(epsg, 4326, always_xy=True)
    X, Y = tr.transform(lon, lat)
    if layout == 'grid':
        nx, ny = case['nx'], case['ny']
        if fmt in ('GTiff', 'cog'):
            nx, ny = max(nx, 2), max(ny, 2)
        x0, y0 = X[0], Y[0]
        dx = dy = 0.25 if epsg == 4326 else 20e3
        x, y = x0 + dx*np.arange(nx), y0 + (-dy if case['rev'] or fmt in ('GTiff', 'cog') else dy)*np.arange(ny)
        gx, gy = np.meshgrid(x, y)
        lon, lat = back.transform(gx, gy)
        if epsg == 4326 and (np.abs(lat) > 89.5).any():
            ctx.skip()
        nt = case['nt']
    else:
        n = case['n']
        x, y = X[:n], Y[:n]
        lon, lat = back.transform(x, y)
        nt = n if layout == 'drift' else case['nt']
    lon, lat = np.asarray(lon), np.asarray(lat)
    # -- the times
    t = np.array(case['t'][:nt])
    std, unit = case['std'], case['unit']
    if std == 'datetime' and fmt not in ('csv', 'parquet'):
        std = 'UTC'
    case['std'] = std
    for i in range(len(t)):
        if np.min(np.abs(LEAPSEC - t[i])) < 120:
            t[i] += 600.0
    ep = datetime.datetime(*case['epoch'])
    if case['how'] == 'default' and std == 'UTC':
        ep, unit = datetime.datetime(1858, 11, 17), 'days'
    e = (ep - Y2K).total_seconds()
    if np.min(np.abs(LEAPSEC - e)) < 120:
        ctx.skip()
    s = t - e
    if std not in ('UTC', 'datetime'):
        s = s + np.searchsorted(LEAPSEC, t, side='right') - np.searchsorted(LEAPSEC, e, side='right')
    tv = s/UNITS[unit]
    stamp = f'{unit} since {ep:%Y-%m-%dT%H:%M:%S}'
    given = fmt in ('GTiff', 'cog') or (fmt != 'csv' and case['given'] and std != 'datetime')
    units = stamp if case['how'] == 'attr' and fmt in ('netCDF4', 'HDF5') and not given else None
    if std == 'datetime':
        t = np.round(t*1e3)/1e3
        tt = [str(Y2K + datetime.timedelta(milliseconds=round(a*1e3))).replace(' ', 'T') for a in t]
    # -- the file
    names = case['names'] or ['time', 'lat', 'lon', 'data']
    prj = None
    if epsg != 4326:
        if case['tell'] == 'attr' and fmt in ('netCDF4', 'HDF5'):
            prj = pyproj.CRS.from_epsg(epsg).to_proj4() if case['gz'] else f'EPSG:{epsg}'
        elif fmt not in ('GTiff', 'cog'):
            argv += ['--projection', [epsg, f'EPSG:{epsg}', f'epsg:{epsg}', pyproj.CRS.from_epsg(epsg).to_proj4()][case['prj']]]
    src, dst = pathlib.Path(tmp)/f'in.{EXT[fmt]}', pathlib.Path(tmp)/f'out.{EXT[fmt]}'
    write_input(src, case, names, x, y, ((tt if fmt == 'csv' else np.array(tt, 'M8[ms]')) if std == 'datetime' else tv) if not given or fmt == 'parquet' else (None if fmt in ('GTiff', 'cog') else np.zeros(nt)), units, prj)
    argv += ['--format', fmt, '--type', layout, '--standard', std]
    if fmt == 'csv':
        cols = [dict(y='lat', x='lon').get(c, c) if case['gz'] else c for c in case['order']]
        if cols == ['time', 'lat', 'lon', 'data']:
            ctx.label('default columns')
        else:
            argv += ['--variables'] + cols
        if case['delim'] != ',':
            argv += ['--delimiter', case['delim']]
        if case['header']:
            argv += ['--header', case['header']]
    elif fmt not in ('GTiff', 'cog') and case['names']:
        argv += ['--variables'] + names
    if given:
        argv += ['--deltatime'] + [repr(float(a)) for a in tv]
    if units is None and std != 'datetime' and not (case['how'] == 'default' and std == 'UTC'):
        argv += ['--epoch', stamp]
    argv += [f'--fill-value={case["fill"]}']
    fill = float(case['fill'])
    # -- the options of the program, and of the function
    if m is not None:
        var = 'z' if what == 'ocean' else 'uv'
        d = M.write(m, tmp, var)
        D = M.definition(d, tmp + '/def.json', **(dict(reference='https://doi.org/10.0/none') if case['rev'] else {}))
        argv += ['--definition-file', D, '--interpolate', case['method']]
        kw.update(DEFINITION_FILE=D, METHOD=case['method'], INFER_MINOR=case['minor'], EXTRAPOLATE=case['extra'], CUTOFF=float(case['cutoff']), FILL_VALUE=fill)
        if case['minor']:
            argv += ['--infer-minor']
        if case['sub']:
            argv += ['--minor-constituents'] + case['sub']; kw['MINOR_CONSTITUENTS'] = case['sub']
        if case['corr']:
            argv += ['--nodal-corrections', case['corr']]; kw['CORRECTIONS'] = case['corr']
        if case['extra']:
            argv += ['--extrapolate', '--cutoff', case['cutoff']]
        if case['crop']:
            argv += ['--crop']; kw['CROP'] = True
            if case['buffer']:
                b = 8*max(m.dx, m.dy)*case['buffer']
                argv += ['--buffer', b]; kw['BUFFER'] = b
        if what == 'ocean' and case['node']:
            argv += ['--append-node']; kw['APPEND_NODE'] = True
        if what == 'ocean' and case['flex'] and m.fmt == 'TMD3':
            argv += ['--apply-flexure']; kw['APPLY_FLEXURE'] = True
        f = pyTMD.compute.tide_elevations if what == 'ocean' else pyTMD.compute.tide_currents
        outs = ['tide_ocean'] if what == 'ocean' else ['u', 'v']
    else:
        if kw.get('METHOD') == 'bilinear':
            kw['METHOD'] = 'nearest'
        for a, b in kw.items():
            argv += [dict(ELLIPSOID='--ellipsoid', CONVENTION='--convention', METHOD='--interpolate', TIDE_SYSTEM='--tide-system')[a], b]
        if what in ('LPT', 'OPT'):
            kw['FILL_VALUE'] = fill
        f = K.FUNC[what]
        outs = [OUT[what]]
        if what == 'OPT':
            K.pole_file(tmp, lon, lat, case['v'])
    if case['mode']:
        argv += [['--mode', '-M'][case['prj'] % 2], case['mode']]
    keep = None
    if what == 'SET' and case['jpl'] and hasattr(pyTMD.astro, '_default_kernel'):
        # a synthetic kernel in the place of the one of JPL
        ctx.label('kernel')
        argv += ['--ephemerides', 'JPL']; kw['EPHEMERIDES'] = 'JPL'
        p = pathlib.Path(tmp)/'k.bsp'
        kernel.realistic(p, 51544.0 + t/86400.0, nt + len(x))
        keep, pyTMD.astro._default_kernel = pyTMD.astro._default_kernel, p
    try:
        _program(case, ctx, what, fmt, layout, src, dst, argv, m, f, kw, outs, tt if std == 'datetime' else None, s, t, ep, lon, lat, x, y, nt, fill, epsg)
    finally:
        if keep is not None:
            pyTMD.astro._default_kernel = keep


def _program(case, ctx, what, fmt, layout, src, dst, argv, m, f, kw, outs, tt, s, t, ep, lon, lat, x, y, nt, fill, epsg):
    tmp, std = ctx.tmp, case['std']
    argv = [src] + ([dst] if case['explicit'] or m is not None else []) + argv
    label = f'{PROG[what]} {fmt} {layout}'
    before = set(os.listdir(tmp))
    run(ctx, PROG[what], argv, label)
    new = sorted(set(os.listdir(tmp)) - before)
    ctx.check(len(new) == 1, f'{label}: files written {new}', key='files')
    if case['explicit'] or m is not None:
        ctx.check(new[0] == dst.name, f'{label}: wrote {new[0]}, not {dst.name}', key='name')
    else:
        ctx.check(new[0].startswith('in_') and new[0].endswith('.' + EXT[fmt]), f'{label}: default output {new[0]}', key='name')
    mode = int(case['mode'] or '775', 8)
    got = os.stat(pathlib.Path(tmp)/new[0]).st_mode & 0o777
    ctx.check(got == mode, f'{label}: permissions {got:o} of the output, expected {mode:o}', key='mode')
    out, attrs = read_output(pathlib.Path(tmp)/new[0], case, outs)
    # -- what it should be
    if std == 'datetime':
        want = f(lon, lat, np.array(tt, 'M8[ms]'), TYPE=layout, TIME='datetime', **kw)
    else:
        want = f(lon, lat, s, TYPE=layout, TIME=std, EPOCH=tuple(ep.timetuple())[:6], **kw)
    want = want if isinstance(want, dict) else {outs[0]: want}
    nz = False
    for k in outs:
        w = np.ma.asarray(want[k])
        mk = np.ma.getmaskarray(w)
        w = np.where(mk, np.nan, np.ma.getdata(w))
        mk = mk | np.isnan(w)
        nz = nz or bool(np.any(~mk & (w != 0)))
        size = max(1e-3, float(np.nanmax(np.abs(w), initial=0.0)))
        if fmt in ('GTiff', 'cog'):
            i = outs.index(k)
            ctx.check(out['bands'].shape == (nt*len(outs), len(y), len(x)), f'{label}: raster of shape {out["bands"].shape}', key='shape')
            got = np.moveaxis(out['bands'][i*nt:(i+1)*nt], 0, -1)
        else:
            ctx.check(k in out, f'{label}: no variable {k} in {sorted(out)}', key='variable')
            got = out[k]
        ctx.check(got.shape == w.shape, f'{label}: {k} of shape {got.shape}, expected {w.shape}', key='shape')
        # invalid where the library says invalid
        if mk.any():
            inv = got[mk]
            ok = np.isnan(inv) if np.isnan(fill) else ((inv == fill) | (np.isnan(inv) if fmt == 'parquet' else False))
            ctx.check(bool(np.all(ok)), f'{label}: {k} holds {inv[~ok][:1]} where invalid, fill value {fill}', key='fill')
        if (~mk).any():
            ctx.close(got[~mk], w[~mk], f'{label}: {k}', rtol=0, atol=size*(2e-7 if case['crs'] == 'geo' else 2e-6))
        a = attrs.get(k, {})
        if '_FillValue' in a and m is not None:
            ctx.check(a['_FillValue'] == fill or (np.isnan(fill) and np.isnan(a['_FillValue'])), f'{label}: _FillValue {a["_FillValue"]} is not {fill}', key='attribute')
    ctx.nt(nz)
    if fmt in ('GTiff', 'cog'):
        dx, dy = x[1]-x[0], y[1]-y[0]
        ctx.close(np.array(out['gt']), np.array([x[0]-dx/2, dx, 0, y[0]-dy/2, 0, dy]), f'{label}: geotransform', rtol=1e-12, atol=1e-9*abs(dx))
        a = osr.SpatialReference(); a.ImportFromEPSG(epsg)
        ctx.check(bool(out['epsg'].IsSame(a, ['IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES'])), f'{label}: reference system changed', key='crs')
        ctx.check((out['driver'] == 'COG') == (fmt == 'cog'), f'{label}: layout {out["driver"]}', key='driver')
        return
    # places and times
    ctx.close(np.asarray(out['lon'], float), lon, f'{label}: longitudes', rtol=0, atol=1e-8)
    ctx.close(np.asarray(out['lat'], float), lat, f'{label}: latitudes', rtol=0, atol=1e-8)
    if std == 'datetime' and fmt == 'csv':
        ctx.check(bool(np.all(np.abs((out['time'] - np.array(tt, 'M8[ms]')).astype(int)) <= 1000)), f'{label}: times {out["time"]} expected {tt}', key='time')
    else:
        days = t/86400.0 + (Y2K - datetime.datetime(1992, 1, 1)).days
        ctx.close(np.asarray(out['time'], float), days, f'{label}: times', rtol=0, atol=1e-6)


@st.composite
def named_st(draw):
    o = draw(C14.named_case())
    n = len(o['pos'])
    o['t'] = draw(lists(fl(-5e8, 2.4e8), n, n))
    return o


def f_named(o, ctx):
    """models of the database in a data directory"""
    p = C14.DB[o['kind']][o['name']]
    s = dict(o['spec'], dup=False)
    if p.get('projection') and p['projection'] != 'EPSG:4326':
        s = C14.place(s, p['projection'])
    m = M.Model(s)
    if p.get('projection') and p['projection'] != 'EPSG:4326':
        m.otis_proj = p['projection']
    folder = pathlib.Path(ctx.tmp)/'models'
    folder.mkdir()
    C14.put(m, p, folder, s['gz'])
    px, py = M.locate(m, o['pos'], 'z' if o['var'] == 'z' else 'u')
    if s['proj']:
        lon, lat = pyTMD.crs().convert(px, py, p['projection'], 'B')
    else:
        lon, lat = m.lonlat(px, py)
    lon, lat, t = np.atleast_1d(lon), np.atleast_1d(lat), np.array(o['t'])
    src, dst = pathlib.Path(ctx.tmp)/'points.csv', pathlib.Path(ctx.tmp)/'tides.csv'
    with open(src, 'w') as f:
        for row in zip(t, lat, lon):
            f.write(','.join(repr(float(a)) for a in row) + '\n')
    what = 'ocean' if o['kind'] == 'elevation' else 'currents'
    label = f'{PROG[what]} {o["name"]}'
    ctx.label(p['format'])
    run(ctx, PROG[what], [src, dst, '--variables', 'time', 'y', 'x', '--directory', folder, '--tide', o['name'], '--epoch', 'seconds since 2000-01-01T00:00:00',
                          '--interpolate', o['method'], '--fill-value=-9999'] + (['--gzip'] if s['gz'] else []) + (['--infer-minor'] if o['minor'] else []), label)
    ctx.check(dst.exists(), f'{label}: no output', key='files')
    got = np.loadtxt(dst, delimiter=',', ndmin=2)
    f = pyTMD.compute.tide_elevations if what == 'ocean' else pyTMD.compute.tide_currents
    want = f(lon, lat, t, DIRECTORY=folder, MODEL=o['name'], GZIP=bool(s['gz']), EPOCH=(2000, 1, 1, 0, 0, 0), TYPE='drift', TIME='UTC', METHOD=o['method'],
             INFER_MINOR=o['minor'], FILL_VALUE=-9999.0)
    want = [want[k] for k in 'uv'] if isinstance(want, dict) else [want]
    ctx.check(got.shape == (len(t), 3 + len(want)), f'{label}: {got.shape} values', key='shape')
    for i, w in enumerate(want):
        mk = np.ma.getmaskarray(w)
        ctx.nt(bool((~mk).any()))
        ctx.check(bool(np.all(got[mk, 3+i] == -9999.0)), f'{label}: {got[mk, 3+i]} where invalid', key='fill')
        w = np.ma.getdata(w)
        ctx.close(got[~mk, 3+i], w[~mk], f'{label}: tides', rtol=0, atol=1e-6*max(1.0, float(np.abs(w[~mk]).max(initial=0.0))))


SUBS = [
    Sub('tides', case_st(['ocean', 'ocean', 'currents']), f_program, 220, 5000, tmp=True),
    Sub('named', named_st(), f_named, 60, 1500, tmp=True),
    Sub('others', case_st(['LPET', 'LPT', 'OPT', 'SET']), f_program, 220, 5000, tmp=True),
    Sub('stations', case_st(['LPET', 'LPT', 'OPT', 'SET', 'ocean', 'currents'], series=True), f_program, 100, 2500, tmp=True),
]
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
