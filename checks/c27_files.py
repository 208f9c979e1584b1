"""C27: data files written by the library read back with the same data."""
import _boot
from harness import *
from gen import *
import copy
import gzip
import io
import os
import pathlib
import pickle
import warnings
import pyproj
import h5py
import netCDF4
import pandas as pd
import pyarrow.parquet
import pyTMD
import pyTMD.spatial as S
warnings.simplefilter('ignore')

PROPERTY = 'C27'
RULE = ('Generated data sets (drift, grid, time series; data types; missing values; attributes; coordinate reference systems) are written, possibly written again, and read by path, other letter case, compressed file or stream; '
        'the result is compared value by value with what was written. Non-trivial when there are at least two values and either missing values, attributes or a reading mode other than the path.')
ASSUMPTIONS = ['values are finite (missing values are masked or equal to the fill value) and text is non-empty', 'fill values of text files are representable in the type of the data', 'ascii columns are numbers (the shortest text that reads back as the same double) or ISO dates to the microsecond',
               'free-format text (no delimiter) holds decimal numbers only', 'only the attributes that the readers name are read', 'geotiff readers return bands first and writers take bands last (both as on the original tree)',
               'geotiff bounds are aligned to pixel edges with half a pixel of slack', 'parquet missing values read back as NaN']
LIST = ['description', 'units', 'long_name', 'calendar', 'standard_name', 'grid_mapping', '_FillValue']
TEXT = st.one_of(st.sampled_from(['meters', 'seconds since 2018-01-01T00:00:00', 'Degrees_North', 'tide: load', '10 % #1', '[m]', '- x', '"q"', "it's", 'yes', '1.0', '{a}', 'été', 'a\\b', 'null', '# End', '*x', 'D0E']),
                 st.text(st.sampled_from('abcXYZ 019:#-_.%"\'[]{}é,'), min_size=1, max_size=12).map(str.strip).filter(bool))
TYPES = {'f8': 'float64', 'f4': 'float32', 'i4': 'int32', 'i8': 'int64', 'i2': 'int16'}
NUM = st.one_of(fl(-1e3, 1e3), st.sampled_from([0.0, 1.0, -1.0, 1e-7, -2.5e-10, 1e15, 123456789.125]), st.integers(-300, 300).map(float))
FILLS = [-9999.0, 1e20, 'nan', 0.0, -32768.0, 9.969209968386869e+36]


def attributes(names):
    one = st.dictionaries(st.sampled_from(['description', 'units', 'long_name', 'standard_name', 'calendar', 'reference', 'source', 'units_vocabulary', 'long_name_local']), TEXT, max_size=4)
    return st.fixed_dictionaries({n: one for n in names})


@st.composite
def dataset(draw, kinds=('drift', 'grid', 'time series')):
    kind = draw(st.sampled_from(kinds))
    ny, nx, nt = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 4))
    n = {'drift': nt, 'grid': ny*nx*nt, 'time series': nx*nt}[kind]
    many = lambda k: draw(lists(NUM, k, k))
    t = draw(st.sampled_from(['f8', 'f8', 'f4', 'i4', 'i2']))
    fill = draw(st.sampled_from(FILLS + [None, None]))
    if t[0] == 'i' and fill not in (None, -9999.0, 0.0, -32768.0):
        fill = -9999.0
    c = {'kind': kind, 'n': [ny, nx, nt], 'type': t, 'fill': fill, 'data': many(n), 'missing': draw(lists(st.booleans(), n, n)) if draw(st.booleans()) else [False]*n,
         'x': many({'drift': nt, 'grid': nx, 'time series': nx}[kind]), 'y': many({'drift': nt, 'grid': ny, 'time series': nx}[kind]), 'time': many(nt), 'flat': draw(st.sampled_from(['f8', 'f8', 'f4', 'i4'])),
         'square': draw(st.booleans()) and kind == 'grid', 'store': draw(st.sampled_from(['masked', 'filled'])), 'names': draw(st.sampled_from([['time', 'y', 'x', 'data'], ['time', 'lat', 'lon', 'tide'], ['time', 'latitude', 'longitude', 'h']]))}
    if kind == 'grid':
        c['gridxy'] = draw(st.booleans())
        if c['gridxy']:
            c['x'], c['y'] = many(nx*ny), many(nx*ny)
    c['attrs'] = draw(attributes(c['names']))
    c['root'] = draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(['title', 'description', 'institution', 'projection']), TEXT, max_size=3)))
    c['crs'] = draw(st.sampled_from([None, None, None, 4326, 3031, 3413]))
    c['scalar'] = draw(st.one_of(st.none(), NUM))
    c['cfill'] = draw(st.booleans())
    return c


def build(c):
    """output, attributes as given to the writer, and expected (values, missing)"""
    ny, nx, nt = c['n']
    shape = {'drift': (nt,), 'grid': (ny, nx, nt), 'time series': (nx, nt)}[c['kind']]
    T = TYPES[c['type']]
    data = np.array(c['data']).astype('f8')
    if T[0] == 'i':
        data = np.clip(np.round(data), -300, 300)
    data = data.astype(T).reshape(shape)
    miss = np.array(c['missing'], dtype=bool).reshape(shape)
    fill = float('nan') if c['fill'] == 'nan' else c['fill']
    tn, yn, xn, dn = c['names']
    attrs = copy.deepcopy(c['attrs'])
    if fill is not None:
        f = np.array(fill).astype(T)
        # values equal to the fill value are missing values
        data[data == f] += 1
        attrs[dn]['_FillValue'] = fill if T[0] == 'f' else int(fill)
    if fill is None:
        miss[...] = False
    if c['store'] == 'filled' or fill is None:
        val = data.copy()
        if fill is not None:
            val[miss] = f
    else:
        val = np.ma.array(data, mask=miss)
        if c['time'][0] > 0 and np.any(miss):
            val.data[miss] = f
    out = {}
    F = TYPES[c['flat']]
    g = lambda v: (np.round(np.clip(v, -1e6, 1e6)) if F[0] == 'i' else np.asarray(v)).astype(F)
    x, y = g(np.array(c['x'])), g(np.array(c['y']))
    if c.get('gridxy'):
        x, y = x.reshape(ny, nx), y.reshape(ny, nx)
    out[xn], out[yn], out[dn], out[tn] = x, y, val, np.array(c['time'])
    want = {'x': (x, None), 'y': (y, None), 'data': (data, miss if fill is not None else None), 'time': (np.array(c['time']), None)}
    if c['scalar'] is not None:
        out['k'] = np.array(c['scalar'])
        attrs['k'] = {'units': 'm'}
    if c['cfill']:
        for n in ([xn, yn] if c['scalar'] is None else [xn, yn, 'k']):
            attrs[n]['_FillValue'] = -2147483648 if np.asarray(out[n]).dtype.kind == 'i' else 2.0**100
    return out, attrs, want, fill


def georeference(c, out, attrs):
    if c['crs'] is not None:
        cf = pyproj.CRS.from_epsg(c['crs']).to_cf()
        out['crs'] = np.array(0.0)
        attrs['crs'] = {k: v for k, v in cf.items() if isinstance(v, (str, float, int))}
        attrs[c['names'][3]]['grid_mapping'] = 'crs'
    if c['root'] is not None:
        attrs['ROOT'] = dict(c['root'])


def snapshot(o):
    return pickle.dumps({k: (np.ma.getdata(v).tobytes(), np.ma.getmaskarray(v).tobytes(), np.shape(v), str(np.asarray(v).dtype), np.ma.isMaskedArray(v)) for k, v in o.items()})


def frozen(a):
    return repr(sorted((k, sorted((i, repr(j)) for i, j in v.items()) if isinstance(v, dict) else repr(v)) for k, v in a.items()))


def reading(c, path, fn, ctx, text=False, **kw):
    """read a file in one of the modes"""
    mode = c['mode']
    path = pathlib.Path(path)
    if mode in ('gzip', 'gzip str', 'gzip case'):
        z = path.with_name(path.name + '.gz')
        with gzip.open(z, 'wb') as f:
            f.write(path.read_bytes())
        z = {'gzip': z, 'gzip str': str(z), 'gzip case': z.with_name(z.name.upper())}[mode]
        return fn(z, compression='gzip', **kw)
    if mode == 'stream':
        with path.open('rb') as f:
            return fn(f, compression='bytes', **kw)
    if mode == 'memory':
        return fn(io.BytesIO(path.read_bytes()), compression='bytes', **kw)
    if mode == 'text' and text:
        with path.open('r', encoding='utf8') as f:
            return fn(f, compression='bytes', **kw)
    if mode == 'case':
        path = path.with_name(path.name.swapcase())
    if c.get('twice'):
        # what was read belongs to the caller
        for v in fn(str(path) if mode == 'str' else path, **kw).values():
            if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in 'if':
                np.ma.getdata(v)[...] = 1
            elif isinstance(v, dict):
                v.clear()
    return fn(str(path) if mode == 'str' else path, **kw)


MODES = st.sampled_from(['path', 'str', 'case', 'gzip', 'gzip str', 'gzip case', 'stream', 'memory', 'text'])


def equal(got, want, miss, what, ctx):
    g = np.ma.getdata(got)
    ctx.check(np.shape(g) == np.shape(want), f'{what}: shape {np.shape(g)} expected {np.shape(want)}')
    m = np.ma.getmaskarray(got)
    if miss is not None:
        ctx.check(np.array_equal(m, miss), f'{what}: missing {m.tolist()} expected {miss.tolist()}', key=f'{what} missing')
    else:
        miss = np.zeros(np.shape(want), bool)
        ctx.check(not np.any(m), f'{what}: values masked {m}', key=f'{what} missing')
    ok = (np.asarray(g) == want) | miss
    ctx.check(bool(np.all(ok)), f'{what}: {np.asarray(g)[~ok]} expected {np.asarray(want)[~ok]}', key=f'{what} values')


def known(a, ctx, got, what, text=False):
    for k, v in a.items():
        if k in LIST or text:
            ctx.check(k in got, f'attribute {k} of {what} is not read: {got}', key='attribute lost')
            g = got[k]
            if isinstance(v, str):
                ctx.check(str(g) == v, f'attribute {k} of {what}: {g!r} expected {v!r}', key='attribute')
            else:
                ctx.check(float(g) == float(v) or (v != v and float(g) != float(g)) or float(np.float32(v)) == float(g), f'attribute {k} of {what}: {g!r} expected {v!r}', key='attribute')


# ---- netCDF4 and HDF5 ---------------------------------------------------------------------------------
@st.composite
def binary_case(draw):
    c = draw(dataset())
    c.update(format=draw(st.sampled_from(['netCDF4', 'HDF5'])), mode=draw(MODES), mapping=draw(st.booleans()), again=draw(st.sampled_from([None, None, 'w', 'a'])), wrapper=draw(st.booleans()), twice=draw(st.booleans()), shift=draw(st.integers(1, 5)))
    return c


def binary(c, ctx):
    out, attrs, want, fill = build(c)
    georeference(c, out, attrs)
    h5 = c['format'] == 'HDF5'
    path = os.path.join(ctx.tmp, 'Data_1.H5' if h5 else 'Data_1.nc')
    kw = {} if h5 else {'data_type': c['kind']}
    w = (lambda o, a, **k: S.to_file(o, a, path, c['format'], **k)) if c['wrapper'] else (lambda o, a, **k: (S.to_HDF5 if h5 else S.to_netCDF4)(o, a, pathlib.Path(path), **k))
    before, frozen_before = snapshot(out), frozen(attrs)
    if c['again'] is not None:
        # an earlier version of the same file
        o = {k: (v + c['shift']).astype(v.dtype) for k, v in out.items()}
        w(o, copy.deepcopy(attrs), **kw)
        if c['twice']:
            reading(c, path, S.from_HDF5 if h5 else S.from_netCDF4, ctx, timename=None, yname=c['names'][1], xname=c['names'][2], varname=c['names'][3])
        if c['again'] == 'a':
            kw['mode'] = 'a'
    keep = dict(out)
    w(out, attrs, **kw)
    ctx.check(list(out) == list(keep) and all(out[k] is keep[k] for k in out) and snapshot(out) == before, 'writing changed the data', key='mutation')
    ctx.check(frozen(attrs) == frozen_before, f'writing changed the attributes: {frozen(attrs)[:300]} from {frozen_before[:300]}', key='mutation')
    tn, yn, xn, dn = c['names']
    if c['mapping']:
        rk = {'field_mapping': {'time': tn, 'y': yn, 'x': xn, 'data': dn}}
        if c['scalar'] is not None:
            rk['field_mapping']['scalar'] = 'k'
        if c['crs'] is None and c['shift'] == 1:
            rk['field_mapping'].pop('time')
    else:
        rk = {'timename': tn, 'yname': yn, 'xname': xn, 'varname': dn}
        if c['shift'] == 1:
            rk['timename'] = None
    fn = (lambda f, **k: S.from_file(f, c['format'], **k)) if c['wrapper'] else (S.from_HDF5 if h5 else S.from_netCDF4)
    asked = copy.deepcopy(rk)
    d = reading(c, path, fn, ctx, **rk)
    ctx.check(rk == asked, 'reading changed the arguments')
    names = {'time': tn, 'y': yn, 'x': xn, 'data': dn}
    if 'time' not in rk.get('field_mapping', {'time': 1}) or ('timename' in rk and rk['timename'] is None):
        ctx.check('time' not in d, 'time read without being asked for')
        want.pop('time')
    for k, (v, m) in want.items():
        equal(d[k], v, m, k, ctx)
        ctx.check(np.ma.getdata(d[k]).dtype == v.dtype, f'{k}: type {np.ma.getdata(d[k]).dtype} expected {v.dtype}')
        known(attrs[names[k]], ctx, d['attributes'][k], k)
    if c['scalar'] is not None and c['mapping']:
        ctx.check(float(d['scalar']) == c['scalar'], f'scalar {d["scalar"]} expected {c["scalar"]}', key='scalar')
    if fill is not None:
        ctx.check(np.ma.isMaskedArray(d['data']), 'not a masked array')
        f = np.array(fill).astype(d['data'].dtype)
        ctx.check(d['data'].fill_value == f or (f != f and d['data'].fill_value != d['data'].fill_value), f'fill value {d["data"].fill_value}')
    for k, v in (c['root'] or {}).items():
        if k in ('title', 'description') or (k == 'projection' and c['crs'] is None):
            ctx.check(str(d['attributes'].get(k)) == v, f'file attribute {k}: {d["attributes"].get(k)!r} expected {v!r}', key='file attribute')
    if c['crs'] is not None:
        crs = pyproj.CRS.from_epsg(c['crs'])
        ctx.check(pyproj.CRS.from_wkt(d['attributes']['crs']['crs_wkt']) == crs, 'coordinate reference system')
        p = pyproj.CRS.from_user_input(d['attributes']['projection'])
        a = pyproj.Transformer.from_crs(p, crs, always_xy=True).transform(-100.0, 65.0 if c['crs'] == 4326 else 1e5)
        ctx.close(np.array(a), np.array([-100.0, 65.0 if c['crs'] == 4326 else 1e5]), 'projection', atol=1e-4)
    if c['again'] == 'w' or c['again'] is None:
        # the independent library sees the same names
        if h5:
            with h5py.File(path, 'r') as f:
                ctx.check(set(f) == set(out), f'variables {list(f)}')
        else:
            with netCDF4.Dataset(path) as f:
                ctx.check(set(f.variables) == set(out), f'variables {list(f.variables)}')
                nc = f.variables[dn]
                ctx.check(nc.dimensions == {'drift': ('time',), 'grid': ('y', 'x', 'time'), 'time series': ('station', 'time')}[c['kind']], f'dimensions {nc.dimensions}')
    ctx.nt(np.size(want['data'][0]) > 1 and (bool(np.any(c['missing'])) or any(c['attrs'].values()) or c['mode'] not in ('path', 'str')))
    ctx.label(c['format'])
    ctx.label(c['kind'])


# ---- files from other programs ---------------------------------------------------------------------------
@st.composite
def foreign_case(draw):
    n = draw(st.integers(1, 5))
    return {'format': draw(st.sampled_from(['netCDF4', 'HDF5'])), 'group': draw(st.sampled_from([None, 'g', 'gt1l'])), 'mode': draw(MODES), 'data': draw(lists(NUM, n, n)), 'x': draw(lists(NUM, n, n)), 'y': draw(lists(NUM, n, n)),
            'fill': draw(st.sampled_from([None, -9999.0, 'nan', 1e20])), 'missing': draw(lists(st.booleans(), n, n)), 'attrs': draw(attributes(['x', 'y', 'data'])), 'upper': draw(st.booleans()), 'default': draw(st.booleans()),
            'crs': draw(st.sampled_from([None, 3031])), 'other': draw(NUM), 'twice': draw(st.booleans())}


def foreign(c, ctx):
    """variables within groups, written with the format's own library"""
    fill = float('nan') if c['fill'] == 'nan' else c['fill']
    data, miss = np.array(c['data']), np.array(c['missing']) & (fill is not None)
    names = {'x': 'lon', 'y': 'lat', 'data': 'data', 'time': 'time'} if c['default'] else {'x': 'X', 'y': 'Y', 'data': 'H', 'time': 'T'}
    if fill is not None:
        data[data == fill] += 1
        stored = np.where(miss, fill, data)
    else:
        stored = data
    n = len(data)
    values = {'x': np.array(c['x']), 'y': np.array(c['y']), 'data': stored, 'time': np.arange(n) + 0.5}
    h5 = c['format'] == 'HDF5'
    path = os.path.join(ctx.tmp, 'Other.h5')
    wkt = pyproj.CRS.from_epsg(3031).to_wkt()
    A = copy.deepcopy(c['attrs'])
    if c['crs']:
        A['data']['grid_mapping'] = 'polar'
    if h5:
        with h5py.File(path, 'w') as f:
            g = f.create_group(c['group']) if c['group'] else f
            for k, v in values.items():
                g[names[k]] = v
                for i, j in A.get(k, {}).items():
                    g[names[k]].attrs[i] = j
                if k == 'data' and fill is not None:
                    g[names[k]].attrs['_FillValue'] = fill
            if c['crs']:
                g['polar'] = 1
                g['polar'].attrs['crs_wkt'] = wkt
            if c['group']:
                f[names['data']] = np.full(n, c['other'])
    else:
        with netCDF4.Dataset(path, 'w') as f:
            g = f.createGroup(c['group']) if c['group'] else f
            g.createDimension('n', n)
            for k, v in values.items():
                nc = g.createVariable(names[k], 'f8', ('n',), fill_value=fill if k == 'data' else None)
                nc[:] = v
                for i, j in A.get(k, {}).items():
                    # attribute names of other programs are in any letter case
                    nc.setncattr(i.upper() if c['upper'] and i != 'grid_mapping' else i, j)
            if c['crs']:
                p = g.createVariable('polar', 'i4', ())
                p.crs_wkt = wkt
            if c['group']:
                f.createDimension('n', n)
                f.createVariable(names['data'], 'f8', ('n',))[:] = c['other']
    kw = {} if c['default'] else {'xname': 'X', 'yname': 'Y', 'varname': 'H', 'timename': 'T'}
    if c['group']:
        kw['group'] = c['group']
    d = reading(c, path, S.from_HDF5 if h5 else S.from_netCDF4, ctx, **kw)
    for k, v in values.items():
        equal(d[k], data if k == 'data' else v, miss if k == 'data' and fill is not None else None, k, ctx)
        known(A.get(k, {}), ctx, d['attributes'][k], k)
    if c['crs']:
        ctx.check(pyproj.CRS.from_user_input(d['attributes']['projection']).to_epsg(min_confidence=20) == 3031 or 'stere' in d['attributes']['projection'], 'projection')
    ctx.nt(n > 1 and (c['group'] is not None or bool(np.any(miss)) or c['mode'] not in ('path', 'str')))
    ctx.label(c['format'])


# ---- ascii ----------------------------------------------------------------------------------------------------
@st.composite
def ascii_case(draw):
    c = draw(dataset(('drift',)))
    names = c['names']
    c.update(mode=draw(MODES), delimiter=draw(st.sampled_from([',', ',', ' ', '\t', ';', 'free'])), header=draw(st.booleans()), order=draw(st.permutations(range(4))), extra=draw(st.integers(0, 3)), wrapper=draw(st.booleans()),
             dates=draw(st.booleans()), subset=draw(st.integers(2, 4)), fortran=draw(st.sampled_from([None, None, 'D', 'E'])))
    c['when'] = draw(lists(st.tuples(st.integers(0, 2**31), st.integers(0, 999999)).map(list), c['n'][2], c['n'][2]))
    c['style'] = draw(st.sampled_from(['iso', 'space', 'words']))
    return c


def text(c, ctx):
    if c['fill'] == 1e20 and c['type'] == 'f4':
        # fill value of single precision
        c = dict(c, fill=float(np.float32(1e20)))
    out, attrs, want, fill = build(c)
    n = c['n'][2]
    tn, yn, xn, dn = c['names']
    cols = [c['names'][i] for i in c['order']]
    delim = ' ' if c['delimiter'] == 'free' else c['delimiter']
    dates = c['dates'] and c['delimiter'] in (',', ';', '\t')
    stamps = None
    if dates:
        stamps = np.array([s*10**6 + (u if c['style'] != 'words' else 0) for s, u in c['when']]).astype('M8[us]')
        import datetime as dt
        o = [v.astype(object) for v in stamps]
        out[tn] = np.array({'iso': [str(v) for v in stamps], 'space': [v.strftime('%Y-%m-%d %H:%M:%S.%f') for v in o], 'words': [v.strftime('%d %b %Y %H:%M:%S') for v in o]}[c['style']])
    path = os.path.join(ctx.tmp, 'Data_a.CSV')
    before, fb = snapshot(out), frozen(attrs)
    (S.to_ascii(out, attrs, path, delimiter=delim, columns=cols, header=c['header']) if not c['wrapper'] else S.to_file(out, attrs, path, 'ascii', delimiter=delim, columns=cols, header=c['header']))
    ctx.check(snapshot(out) == before and frozen(attrs) == fb, 'writing changed the data or attributes', key='mutation')
    keys = {tn: 'time', yn: 'y', xn: 'x', dn: 'data'}
    extra = 0
    if not c['header'] and c['extra']:
        # lines of another header
        with open(path, encoding='utf8') as f:
            body = f.read()
        extra = c['extra']
        with open(path, 'w', encoding='utf8') as f:
            f.write(''.join(f'# line {i} 12.5\n' for i in range(extra)) + body)
    if c['fortran'] and not c['header'] and not dates:
        # numbers as written by fortran programs
        rows = open(path, encoding='utf8').read().splitlines()
        new = rows[:extra] + [delim.join(f'{float(v):.17e}'.replace('e', c['fortran']) for v in r.split(delim)) for r in rows[extra:]]
        with open(path, 'w', encoding='utf8') as f:
            f.write('\n'.join(new) + '\n')
    if c['delimiter'] == 'free' and fill is not None and fill != fill:
        return ctx.skip()
    # names of columns of the text file are those given to the reader
    rename = not c['header']
    rc = [keys[k] for k in cols] if rename else cols
    if rename and c['subset'] < 4:
        rc = rc[:c['subset']]
    kw = dict(columns=rc, delimiter='' if c['delimiter'] == 'free' else delim, header='YAML' if c['header'] else extra, parse_dates=dates)
    keep = copy.deepcopy(kw)
    d = reading(c, path, (lambda f, **k: S.from_file(f, 'ascii', **k)) if c['wrapper'] else S.from_ascii, ctx, text=True, **kw)
    ctx.check(kw == keep, 'reading changed the arguments')
    for k in rc:
        role = k if rename else keys[k]
        if role == 'time' and dates and k != 'time':
            return ctx.skip()
        v, m = want[role]
        if role == 'time' and dates:
            ctx.check(bool(np.all(d[k].astype('M8[us]') == stamps)), f'dates {d[k]} expected {stamps}', key='dates')
            continue
        if dates and v.dtype == 'f4':
            # text of single precision next to text
            d[k] = d[k].astype('f4')
            ctx.label('single')
            if role == 'data' and m is not None:
                continue
        v = v.astype('f8')
        if role == 'data' and m is not None:
            f = np.array(np.array(fill).astype(want['data'][0].dtype), dtype='f8')
            masked = c['header'] and k == 'data'
            if not masked:
                # the reader does not know the fill value
                g = np.asarray(d[k])
                v = np.where(m, f, v)
                ctx.check(bool(np.all((g == v) | ((g != g) & (v != v)))), f'{k}: {g} expected {v}', key='data values')
                continue
            equal(d[k], v, m, k, ctx)
        else:
            equal(d[k], v, None, k, ctx)
    if c['header']:
        for k in cols:
            known(attrs[k], ctx, d['attributes'][k], k, text=True)
    else:
        ctx.check(set(d['attributes']) == set(rc), 'attributes of columns')
    ctx.nt(n > 1 and (c['header'] or dates or bool(np.any(c['missing'])) or c['mode'] not in ('path', 'str') or c['delimiter'] != ','))
    ctx.label('header' if c['header'] else 'plain')
    ctx.label(c['delimiter'])


# ---- parquet ----------------------------------------------------------------------------------------------------
@st.composite
def parquet_case(draw):
    c = draw(dataset(('drift',)))
    c.update(mode=draw(st.sampled_from(['path', 'str', 'case'])), geo=draw(st.booleans()), epsg=draw(st.sampled_from([None, 4326, 3031, 3413])), how=draw(st.sampled_from(['int', 'dict'])), codec=draw(st.sampled_from([None, 'gzip', 'none'])),
             index=draw(st.sampled_from([None, True, False])), primary=draw(st.sampled_from([None, 'position'])), columns=draw(st.booleans()), wrapper=draw(st.booleans()), foreign=draw(st.sampled_from([False, False, True])))
    return c


def parquet(c, ctx):
    out, attrs, want, fill = build(c)
    out.pop('k', None)
    attrs.pop('k', None)
    tn, yn, xn, dn = c['names']
    path = os.path.join(ctx.tmp, 'Data_p.parquet')
    if c['foreign']:
        # table of another program with times as its index
        df = pd.DataFrame(out).set_index(tn)
        if c['codec'] == 'gzip':
            df.index.name = None
        df.to_parquet(path)
        d = reading(c, path, S.from_parquet, ctx, **({} if tn == 'time' else {'index': tn}))
        for k, role in ((tn, 'time'), (yn, 'y'), (xn, 'x'), (dn, 'data')):
            v, m = want[role]
            g = d[k].to_numpy()
            w = v.astype('f8') if m is None else np.where(m, np.nan if c['store'] == 'masked' else (np.nan if fill != fill else np.array(fill).astype(v.dtype)), v.astype('f8'))
            ctx.check(bool(np.all((g == w) | ((g != g) & (w != w)))), f'{k}: {g} expected {w}')
        ctx.check(d.attrs['geoparquet'] is False and 'projection' not in d.attrs, 'no georeference')
        ctx.nt(c['n'][2] > 1)
        ctx.label('foreign')
        return
    geo = c['geo'] and c['epsg'] is not None
    kw = {}
    if c['epsg'] is not None:
        crs = pyproj.CRS.from_epsg(c['epsg'])
        kw['crs'] = c['epsg'] if c['how'] == 'int' else crs.to_json_dict()
    if geo:
        kw['geoparquet'] = True
        if c['primary']:
            kw['primary_column'] = c['primary']
    if c['codec']:
        kw['compression'] = c['codec']
    if c['index'] is not None:
        kw['index'] = c['index']
    before, fb, keep = snapshot(out), frozen(attrs), dict(out)
    kb = copy.deepcopy(kw)
    S.to_file(out, attrs, path, 'parquet', **kw) if c['wrapper'] else S.to_parquet(out, attrs, path, **kw)
    ctx.check(list(out) == list(keep) and snapshot(out) == before, 'writing changed the data', key='mutation')
    ctx.check(frozen(attrs) == fb, f'writing changed the attributes: {frozen(attrs)[:200]} from {fb[:200]}', key='mutation')
    ctx.check(kw == kb, 'writing changed the arguments')
    rk = {'columns': [tn, yn, xn, dn]} if c['columns'] and not geo else {}
    if c['index']:
        rk['index'] = 'row'
    d = reading(c, path, (lambda f, **k: S.from_file(f, 'parquet', **k)) if c['wrapper'] else S.from_parquet, ctx, **rk)
    pick = {'time': tn, 'y': yn, 'x': xn, 'data': dn}
    if 'columns' in rk:
        pick = {k: k for k in pick}
    elif geo:
        pick['x'], pick['y'] = 'x', 'y'
    for role, name in pick.items():
        v, m = want[role]
        g = np.asarray(d[name], dtype='f8')
        w = v.astype('f8') if m is None else np.where(m, np.nan if c['store'] == 'masked' else (np.nan if fill != fill else np.array(fill).astype(v.dtype)), v.astype('f8'))
        ctx.check(g.shape == w.shape and bool(np.all((g == w) | ((g != g) & (w != w)))), f'{role}: {g} expected {w}', key=f'{role} values')
    ctx.check(d.attrs['geoparquet'] == bool(geo), 'geoparquet')
    if c['epsg'] is not None:
        ctx.check(pyproj.CRS.from_wkt(d.attrs['wkt']).equals(crs, ignore_axis_order=True), 'coordinate reference system')
        pyproj.CRS.from_user_input(d.attrs['projection'])
    meta = d.attrs['pyTMD']
    for k, a in attrs.items():
        if not (geo and k in (xn, yn)):
            for i, j in a.items():
                ctx.check(meta[k][i] == j or j != j, f'attribute {i} of {k}: {meta[k]}')
    ctx.check(meta['software_reference'] == 'pyTMD', 'software attribute')
    if geo:
        b = d.attrs['geo']['columns'][c['primary'] or 'geometry']['bbox']
        x, y = want['x'][0].astype('f8'), want['y'][0].astype('f8')
        ctx.check(list(b) == [x.min(), y.min(), x.max(), y.max()], f'bounding box {b}')
    # other programs see the same table
    p = pd.read_parquet(path)
    ctx.check(len(p) == c['n'][2], 'rows')
    ctx.nt(c['n'][2] > 1)
    ctx.label('geo' if geo else 'plain')


# ---- geotiff -----------------------------------------------------------------------------------------------------
@st.composite
def tiff_case(draw):
    ny, nx, nb = draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 3))
    n = ny*nx*nb
    return {'n': [ny, nx, nb], 'data': draw(lists(NUM, n, n)), 'missing': draw(lists(st.booleans(), n, n)), 'fill': draw(st.sampled_from(FILLS + [None])), 'store': draw(st.sampled_from(['masked', 'filled'])), 'flat': draw(st.booleans()),
            'dx': draw(st.sampled_from([1.0, 0.25, 500.0, 8.0])), 'dy': draw(st.sampled_from([1.0, 0.5, 250.0])), 'x0': draw(st.integers(-100, 100)), 'y0': draw(st.integers(-100, 100)), 'epsg': draw(st.sampled_from([3031, 4326, 3413])),
            'driver': draw(st.sampled_from(['GTiff', 'GTiff', 'cog', None])), 'mode': draw(MODES), 'cut': draw(lists(st.integers(0, 5), 4, 4)), 'bounds': draw(st.booleans()), 'varname': draw(st.sampled_from(['data', 'tide'])), 'single': draw(st.booleans()), 'twice': draw(st.booleans())}


def tiff(c, ctx):
    ny, nx, nb = c['n']
    data = np.array(c['data']).reshape(ny, nx, nb)
    fill = float('nan') if c['fill'] == 'nan' else c['fill']
    single = c['single'] and fill not in (9.969209968386869e+36, 1e20)
    if single:
        data = data.astype('f4')
    miss = np.array(c['missing']).reshape(data.shape) & (fill is not None)
    if fill is not None:
        data[data == fill] += 1
    name = c['varname']
    if c['store'] == 'masked' or fill is None:
        val = np.ma.array(data, mask=miss)
    else:
        val = np.where(miss, fill, data).astype(data.dtype)
    if c['flat'] and nb == 1:
        val = val[:, :, 0]
    out = {name: val, 'time': 0.0}
    dx, dy = c['dx'], -c['dy']
    x0, y0 = c['x0']*dx, c['y0']*c['dy']
    wkt = pyproj.CRS.from_epsg(c['epsg']).to_wkt()
    attrs = {'wkt': wkt, 'spacing': (dx, dy), 'extent': (x0, x0 + (nx - 1)*dx, y0 + (ny - 1)*dy, y0), name: {} if fill is None else {'_FillValue': fill}}
    keep = dict(out)
    before, fb = snapshot(out), frozen(attrs)
    path = os.path.join(ctx.tmp, 'Image.TIF')
    kw = {} if c['driver'] is None else {'driver': c['driver']}
    if name != 'data':
        kw['varname'] = name
    if c['twice']:
        S.to_geotiff({**out, name: (val + 1).astype(val.dtype)}, dict(attrs, extent=(5*dx, (4 + nx)*dx, 7*dy + (ny - 1)*dy, 7*dy)), path, **kw)
        S.from_geotiff(path)
    S.to_geotiff(out, attrs, path, **kw)
    ctx.check(all(out[k] is keep[k] for k in keep) and snapshot(out) == before, 'writing changed the data', key='mutation')
    ctx.check(frozen(attrs) == fb, 'writing changed the attributes', key='mutation')
    rk = {}
    i0, i1, j0, j1 = 0, nx, 0, ny
    if c['bounds']:
        i0, i1 = sorted([c['cut'][0] % nx, c['cut'][1] % nx])
        j0, j1 = sorted([c['cut'][2] % ny, c['cut'][3] % ny])
        i1, j1 = i1 + 1, j1 + 1
        rk['bounds'] = [x0 + (i0 + 0.5)*dx, x0 + (i1 - 0.5)*dx, y0 + (j1 - 0.5)*dy, y0 + (j0 + 0.5)*dy]
    d = reading(c, path, S.from_geotiff, ctx, **rk)
    ctx.close(d['x'], x0 + (np.arange(i0, i1) + 0.5)*dx, 'x', atol=0)
    ctx.close(d['y'], y0 + (np.arange(j0, j1) + 0.5)*dy, 'y', atol=0)
    want, m = data[j0:j1, i0:i1], miss[j0:j1, i0:i1]
    if nb == 1:
        want, m = want[:, :, 0], m[:, :, 0]
    else:
        want, m = np.moveaxis(want, 2, 0), np.moveaxis(m, 2, 0)
    equal(d['data'], want.astype('f8'), m, 'data', ctx)
    ctx.close(np.array(d['attributes']['spacing']), np.array([dx, dy]), 'spacing', atol=0)
    ctx.close(np.array(d['attributes']['extent']), np.array([x0 + i0*dx, x0 + (i1 - 1)*dx, y0 + (j1 - 1)*dy, y0 + j0*dy]), 'extent', atol=0)
    ctx.check(np.array_equal(d['time'], np.zeros(nb)), 'time')
    ctx.check(pyproj.CRS.from_wkt(d['attributes']['wkt']).equals(pyproj.CRS.from_epsg(c['epsg']), ignore_axis_order=True), 'coordinate reference system')
    if fill is not None:
        f = float(d['attributes']['data']['_FillValue'])
        ctx.check(f == fill or (f != f and fill != fill), f'fill value {f}')
        ctx.check(float(d['data'].fill_value) == fill or fill != fill, 'fill value of the array')
    # a second generation of the file is the same
    a2 = {k: d['attributes'][k] for k in ('wkt', 'spacing', 'extent', 'data')}
    again = os.path.join(ctx.tmp, 'Again.tif')
    S.to_file({'data': d['data'] if nb == 1 else np.ma.array(np.moveaxis(d['data'].data, 0, 2), mask=np.moveaxis(d['data'].mask, 0, 2), fill_value=d['data'].fill_value)}, a2, again, 'GTiff', driver='GTiff')
    e = S.from_file(again, 'GTiff')
    equal(e['data'], want.astype('f8'), m, 'data written again', ctx)
    ctx.close(e['x'], d['x'], 'x written again', atol=0)
    ctx.close(e['y'], d['y'], 'y written again', atol=0)
    ctx.nt(nx*ny > 1 and (bool(np.any(miss)) or c['bounds'] or nb > 1))
    ctx.label(str(c['driver']))


# ---- file names and small helpers ------------------------------------------------------------------------------------
NAMES = st.text(st.sampled_from('abAB1.+(['), min_size=1, max_size=6).filter(lambda s: set(s) != {'.'})


def filename(c, ctx):
    d = pathlib.Path(ctx.tmp, 'd')
    d.mkdir(parents=True, exist_ok=True)
    kinds = {}
    for n in c['files']:
        if n in c['folders']:
            (d/n).mkdir(exist_ok=True)
        elif not (d/n).exists():
            (d/n).write_bytes(b'x')
        kinds[n] = 1
    if set(c['ask']) <= {'.'}:
        return ctx.skip()
    ask = d/c['ask']
    match = [n for n in kinds if n.lower() == c['ask'].lower()]
    ctx.nt(bool(match) and c['ask'] not in match or any(n.lower().startswith(c['ask'].lower()) for n in kinds))
    arg = str(ask) if c['str'] else ask
    try:
        got = S.case_insensitive_filename(arg)
    except FileNotFoundError:
        ctx.check(not match, f'{c["ask"]} not found among {list(kinds)}')
        ctx.label('missing')
        return
    ctx.check(bool(match), f'{c["ask"]} found as {got.name} among {list(kinds)}', key='wrong file')
    ctx.check(got == ask if c['ask'] in match else (got.parent == d and got.name in match), f'{c["ask"]} found as {got} among {list(kinds)}', key='wrong file')
    ctx.label('found')


@st.composite
def filename_case(draw):
    files = draw(st.lists(NAMES, min_size=0, max_size=5, unique=True))
    base = draw(st.one_of(NAMES, st.sampled_from(files)) if files else NAMES)
    return {'files': files, 'folders': [f for f in files if draw(st.booleans())] if draw(st.booleans()) else [], 'ask': draw(st.sampled_from([base, base.upper(), base.swapcase(), base[:-1] or base, '.' + base])), 'str': draw(st.booleans())}


def shape_st():
    return st.sampled_from([[], [1], [2], [3], [1, 1], [2, 3], [3, 2], [1, 6], [6], [4], [2, 2]])


def helpers(c, ctx):
    x, y, t = (np.zeros(s) for s in c['shapes'])
    nx, ny, nt = x.size, y.size, t.size
    if nx == ny == 1:
        want = 'time series'
    elif nx == ny == nt:
        want = 'drift'
    elif nx != ny or x.ndim > 1:
        want = 'grid'
    else:
        want = None
    try:
        got = S.data_type(x, y, t)
    except ValueError:
        got = None
    ctx.check(got == want, f'data type {got} expected {want} for {c["shapes"]}')
    names = c['names']
    m = S.default_field_mapping(list(names))
    ctx.check(m == dict(zip(['time', 'y', 'x', 'data'], names)), f'mapping {m}')
    if len(set(names)) == len(names):
        ctx.check(S.inverse_mapping(m) == {v: k for k, v in m.items()} and S.inverse_mapping(S.inverse_mapping(m)) == m, 'inverse mapping')
    o = {'time': c['time'], 'data': np.array(c['data'])[:, None] if c['shapes'][0] else np.array(c['data']), 'b': np.zeros((2, 3))}
    keep = {k: np.copy(v) for k, v in o.items()}
    e = S.expand_dims(dict(o), varname=['data', 'b'] if c['both'] else 'data')
    ctx.check(np.ndim(e['data']) == 3 and np.array_equal(np.ravel(e['data']), np.ravel(keep['data'])), 'expanded data')
    if o['data'].ndim == 2:
        ctx.check(e['data'].shape == o['data'].shape + (1,), 'shape of expanded data')
    ctx.check(np.array_equal(e['time'], np.atleast_1d(c['time'])) and np.ndim(e['b']) == (3 if c['both'] else 2), 'other variables')
    for f in ('csv', 'nc', '', 'NETCDF4'):
        for fn in (lambda: S.from_file('x', f), lambda: S.to_file({}, {}, os.path.join(ctx.tmp, 'x'), f)):
            try:
                fn()
            except ValueError:
                continue
            ctx.fail(f'format {f!r} accepted')
    ctx.nt(nx > 1)


HELP = st.fixed_dictionaries({'shapes': lists(shape_st(), 3, 3), 'names': lists(st.sampled_from(['a', 'b', 'c', 'd', 'e', 'x', 'time']), 0, 4), 'time': st.one_of(NUM, lists(NUM, 1, 3)), 'data': lists(NUM, 1, 4), 'both': st.booleans()})
SUBS = [Sub('binary', binary_case(), binary, 700, 12000, tmp=True), Sub('foreign', foreign_case(), foreign, 250, 4000, tmp=True), Sub('ascii', ascii_case(), text, 600, 10000, tmp=True), Sub('parquet', parquet_case(), parquet, 250, 4000, tmp=True),
        Sub('geotiff', tiff_case(), tiff, 250, 4000, tmp=True), Sub('filename', filename_case(), filename, 300, 5000, tmp=True), Sub('helpers', HELP, helpers, 300, 4000, tmp=True)]


# ---- large files ----------------------------------------------------------------------------------
def big(case, ctx):
    """drift data of many rows, or grids of many nodes, read back exactly"""
    r = np.random.default_rng(case['seed'])
    n, kind = case['n'], case['fmt']
    shape = (n,)
    if case['grid'] and kind in ('netCDF4', 'HDF5'):
        ny = int(r.choice([3, 7, 64])); nx = n//ny
        shape = (ny, nx, 2)
    fill = -9999.0
    data = np.ma.array(np.round(r.normal(size=shape)*100, 6), mask=r.random(shape) < 0.1, fill_value=fill)
    data.data[data.mask] = fill
    if len(shape) == 1:
        out = dict(time=np.round(r.uniform(0, 9000, n), 6), x=np.round(r.uniform(-180, 180, n), 6), y=np.round(r.uniform(-90, 90, n), 6), data=data)
    else:
        out = dict(time=np.array([1.0, 2.0]), x=np.arange(shape[1])*0.5, y=np.arange(shape[0])*0.25, data=data)
    attrs = {k: dict(units='1') for k in out}
    attrs['data']['_FillValue'] = fill
    path = os.path.join(ctx.tmp, 'big.dat')
    cols = ['time', 'y', 'x', 'data']
    if kind == 'ascii':
        S.to_ascii(out, attrs, path, columns=cols, header=case['header'])
        d = S.from_ascii(path, columns=cols, header='YAML' if case['header'] else 0)
        if not case['header']:
            # the fill value of a text file without header is not known to the reader
            d['data'] = np.ma.masked_equal(np.ma.getdata(d['data']), fill)
    elif kind == 'parquet':
        pq = {k: np.ma.getdata(v) for k, v in out.items()}
        S.to_parquet(pq, attrs, path, geoparquet=case['header'], crs=4326)
        t = S.from_parquet(path)
        d = {k: np.asarray(t[k]) for k in cols}
        d['data'] = np.ma.array(d['data'], mask=d['data'] == fill)
    elif kind == 'netCDF4':
        S.to_netCDF4(out, attrs, path, data_type='drift' if len(shape) == 1 else 'grid')
        d = S.from_netCDF4(path, timename='time', xname='x', yname='y', varname='data')
    else:
        S.to_HDF5(out, attrs, path)
        d = S.from_HDF5(path, timename='time', xname='x', yname='y', varname='data')
    ctx.nt()
    ctx.label(kind)
    for k in cols:
        g, w = np.ma.asanyarray(d[k]), np.ma.asanyarray(out[k])
        ctx.check(g.shape == w.shape, f'{kind}: {k} has the shape {g.shape}, not {w.shape}')
        mg, mw = np.ma.getmaskarray(g), np.ma.getmaskarray(w)
        bad = (mg != mw) | (~mw & (np.abs(np.ma.getdata(g) - np.ma.getdata(w)) > 1e-9))
        if bad.any():
            i = np.argwhere(bad)[0]
            ctx.fail(f'{kind}: {k} at {i.tolist()} is {g[tuple(i)]!r}, not {w[tuple(i)]!r}')


SUBS.append(Sub('large', st.fixed_dictionaries(dict(fmt=st.sampled_from(['ascii', 'parquet', 'netCDF4', 'HDF5']), n=st.sampled_from([300, 1025, 2050, 5001, 10007, 33000]), grid=st.booleans(), header=st.booleans(), seed=st.integers(0, 10**6))), big, 24, 300, tmp=True))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
