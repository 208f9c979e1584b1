"""C23: model definitions (database, extra database, JSON file, dictionary) give exactly the named files, format and variables."""
import _boot
from harness import *
from gen import *
import copy
import io
import json
import os
import pathlib
import pyTMD.io
import models as M

PROPERTY = 'C23'
RULE = ('Named models and generated definition files are resolved in scratch directories and compared with the JSON text; generated models on disk answer sequences of '
        'read, extract, interpolate and export calls; non-trivial when a list, glob, suffix, missing file, unusual source of the definition, or a history of two calls is involved.')
ASSUMPTIONS = ['one model object holds one definition', 'definition files used with a working directory name their files relative to it', 'files found by one glob pattern may come in any '
               'order; several patterns in the listed order', 'a lookup by name checks that the files exist (unless verify is off); a definition file does not',
               'for OTIS, ATLAS-compact and TMD3 currents one file holds both components', 'the node tide has equilibrium amplitude in meters for every model']

DB = json.loads(pathlib.Path(os.path.dirname(pyTMD.__file__), 'data', 'database.json').read_text())
REMAP = {'ATLAS': 'ATLAS-compact', 'netcdf': 'ATLAS-netcdf', 'FES': 'FES-netcdf', 'GOT': 'GOT-ascii'}
FILEFORMAT = {'OTIS': ('OTIS', 'OTIS'), 'ATLAS-compact': ('ATLAS', 'ATLAS'), 'TMD3': ('TMD3', 'TMD3'), 'ATLAS-netcdf': ('ATLAS', 'netcdf'), 'GOT-ascii': ('perth3', 'ascii'),
              'GOT-netcdf': ('GOT', 'netcdf'), 'FES-ascii': ('FES', 'ascii'), 'FES-netcdf': ('FES', 'netcdf')}
ATTRS = {'tide_ocean': ('tide_ocean', 'tide_ocean', 'height_segment_ocean', 'height_segment_ocean', 'tide_ocean', 'tide_ocean_seg', 'd_ocElv', 'ocean_tide_elevation'),
         'tide_load': ('tide_load', 'tide_load', 'height_segment_load', 'height_segment_load', 'tide_load', 'tide_load_seg', 'd_ldElv', 'load_tide_elevation'),
         'tide_lpe': ('tide_equilibrium', 'tide_equilibrium', 'height_segment_lpe', 'height_segment_lpe', 'tide_equilibrium', 'tide_equilibrium_seg', 'd_eqElv', 'equilibrium_tide_elevation')}
PRODUCTS = ('atl03', 'atl06', 'atl07', 'atl10', 'atl11', 'atl12', 'gla12', 'long_name')
FIELDS = ['name', 'format', 'type', 'grid_file', 'model_file', 'projection', 'variable', 'scale', 'constituents', 'version', 'reference']
SHORT = {'2n': '2n2', 'la2': 'lambda2', 'sig1': 'sigma1', 'the1': 'theta1', 'e2': 'eps2', 'msq': 'msqm', 'rho': 'rho1'}


def refuses(ctx, what, f, kinds=(Exception,)):
    try:
        out = f()
    except kinds:
        return
    except Exception as e:
        ctx.fail(f'{what}: {type(e).__name__}({e}) instead of {[k.__name__ for k in kinds]}', key='refusal:' + what)
        return
    ctx.fail(f'{what}: accepted', key='accepted:' + what)


def attributes(ctx, m):
    """attribute strings follow from the variable"""
    got = tuple(getattr(m, a) for a in PRODUCTS)
    if m.type == 'z' and m.variable in ATTRS:
        ctx.check(got == ATTRS[m.variable], f'attribute strings {got} of {m.variable}')
        ctx.check({'tide_ocean': 'Ocean tidal elevations', 'tide_load': 'Local displacement due to ocean tidal loading', 'tide_lpe': 'Long-period equilibrium'}[m.variable]
                  in m.description, f'description {m.description}')
    elif m.type == ['u', 'v']:
        ctx.check(got[:7] == (None,)*7 and got[7] == dict(u='zonal_tidal_current', v='meridional_tidal_current'), f'attribute strings of currents {got}')
        ctx.check('zonal' in m.description['u'] and 'meridional' in m.description['v'], 'description of currents')
    ctx.check((m.corrections, m.file_format) == FILEFORMAT[m.format], f'{m.format}: {m.corrections}, {m.file_format}')


# ---- models by name -------------------------------------------------------------------------------------
NAMES = sorted((k, n) for k in ('elevation', 'current') for n in DB[k])


@st.composite
def named_case(draw):
    kind, name = draw(st.sampled_from(NAMES))
    return {'kind': kind, 'name': name, 'gz': draw(st.booleans()), 'verify': draw(st.sampled_from([True, True, False])), 'files': draw(st.sampled_from(['all', 'all', 'none', 'one missing', 'other suffix'])),
            'drop': draw(st.integers(0, 1000)), 'dir': draw(st.sampled_from(['str', 'path', 'home', 'cwd'])), 'as': draw(st.sampled_from(FORMATS_EXTRA)),
            'extra': draw(st.booleans()), 'new': draw(st.sampled_from(['my model', 'CATS2008', 'x-1', 'GOT4.7'])), 'unlisted': draw(st.sampled_from(['', 'CATS', 'cats2008', 'nonesuch', 'GOT', ' FES2014']))}


FORMATS_EXTRA = ['copy', 'relabelled']


def every(v):
    if isinstance(v, dict):
        return [f for k in v for f in every(v[k])]
    return list(v) if isinstance(v, list) else [v]


def under(v, folder, suffix):
    if isinstance(v, dict):
        return {k: under(x, folder, suffix) for k, x in v.items()}
    if isinstance(v, list):
        return [under(x, folder, suffix) for x in v]
    return pathlib.Path(folder, v + suffix)


def touch(paths):
    for p in paths:
        p.parent.mkdir(parents=True, exist_ok=True)
        p.touch()


def constituent(path):
    """constituent named by the files of FES models"""
    stem = pathlib.Path(path).name.lower()
    for end in ('.gz', '.nc', '.asc', '.d'):
        stem = stem[:-len(end)] if stem.endswith(end) else stem
    for cut in ('_fes2012_slev', '_ocean_eot20', '_load_eot20', '_fes2022', '.hamtide11a', '_fes2004'):
        stem = stem.replace(cut, '')
    stem = stem.replace('hamcurrent11a_', '')
    return SHORT.get(stem, stem)


def named(c, ctx):
    kind, name = c['kind'], c['name']
    entry = DB[kind][name]
    suffix = '.gz' if c['gz'] else ''
    folder = pathlib.Path(ctx.tmp, 'models')
    folder.mkdir()
    lookup, extra = name, []
    if c['extra']:
        # the same definition from another database, under another name
        lookup = c['new']
        other = copy.deepcopy(entry)
        other['name'] = lookup
        p = os.path.join(ctx.tmp, 'extra.json')
        with open(p, 'w') as f:
            json.dump({kind: {**DB[kind], lookup: other}}, f)
        extra, entry = [p], other
        ctx.label('extra database')
    files = every(under(entry['model_file'], folder, suffix))
    if entry.get('grid_file'):
        files.insert(0, under(entry['grid_file'], folder, suffix))
    complete = c['files'] == 'all'
    if c['files'] == 'all':
        touch(files)
    elif c['files'] == 'one missing':
        gone = files[c['drop'] % len(files)]
        touch([f for f in files if f != gone])
    elif c['files'] == 'other suffix':
        touch([pathlib.Path(str(f)[:-3]) if c['gz'] else pathlib.Path(str(f) + '.gz') for f in files])
    arg = {'str': str(folder), 'path': folder, 'home': '~/models', 'cwd': None}[c['dir']]
    home, cwd = os.environ.get('HOME'), os.getcwd()
    try:
        os.environ['HOME'] = ctx.tmp
        os.chdir(folder)
        m = pyTMD.io.model(arg, compressed=c['gz'], verify=c['verify'])
        call = lambda n: getattr(m, kind)(n, extra_databases=extra) if extra else getattr(m, kind)(n)
        refuses(ctx, 'unlisted name', lambda: call(c['unlisted']), (ValueError,))
        if kind == 'current' and name not in DB['elevation'] and not extra:
            refuses(ctx, 'currents of an elevation model', lambda: pyTMD.io.model(arg, verify=False).elevation(name), (ValueError,))
        if kind == 'elevation' and name not in DB['current'] and not extra:
            refuses(ctx, 'elevations of a currents model', lambda: pyTMD.io.model(arg, verify=False).current(name), (ValueError,))
        m = pyTMD.io.model(arg, compressed=c['gz'], verify=c['verify'])
        if c['verify'] and not complete:
            refuses(ctx, f"missing files ({c['files']})", lambda: call(lookup), (FileNotFoundError,))
            ctx.nt(True)
            ctx.label('refused')
            return
        r = call(lookup)
    finally:
        os.chdir(cwd)
        if home is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = home
    ctx.check(r is m, 'the lookup does not return the object')
    fmt = REMAP.get(entry['format'], entry['format'])
    for k, v in entry.items():
        if k in ('model_file', 'grid_file', 'format'):
            continue
        ctx.check(getattr(m, k) == v, f'{k}: {getattr(m, k)!r} expected {v!r}')
    ctx.check(m.format == fmt, f'format {m.format} expected {fmt}')
    for k in ('grid_file', 'model_file'):
        v = entry.get(k)
        want = under(v, folder, suffix) if v else None
        if want != getattr(m, k):
            ctx.fail(f'{k}: {str(getattr(m, k))[:300]} expected {str(want)[:300]}')
    for k in ('grid_file', 'projection', 'variable', 'scale', 'version', 'reference'):
        if k not in entry:
            ctx.check(getattr(m, k) is None, f'{k} is {getattr(m, k)!r} without being defined')
    if fmt.startswith('FES'):
        first = entry['model_file']['u'] if isinstance(entry['model_file'], dict) else entry['model_file']
        want = [constituent(f) for f in (first if isinstance(first, list) else [first])]
        ctx.check(m.constituents == want, f'constituents {m.constituents} expected {want}')
        if isinstance(entry['model_file'], dict):
            v = [constituent(f) for f in entry['model_file']['v']]
            ctx.check(v == want, f'the two components list other constituents, {want} and {v}')
    ctx.check(bool(m.compressed) == c['gz'], 'compressed')
    attributes(ctx, m)
    # paths of further files, as text or path objects
    for f in ('extra/file', pathlib.Path('extra', 'file.nc')):
        n = pyTMD.io.model(folder, compressed=c['gz'], verify=False)
        ctx.check(n.pathfinder(f) == folder/(str(f) + suffix), f'path of {f!r}')
        ctx.check(n.pathfinder([f, str(f)]) == [folder/(str(f) + suffix)]*2, f'paths of {f!r}')
        n = pyTMD.io.model(folder, compressed=c['gz'])
        refuses(ctx, 'missing file', lambda: n.pathfinder(f), (FileNotFoundError,))
    # the database read again is unchanged
    fresh = pyTMD.io.load_database()
    ctx.check(json.loads(json.dumps({k: v for k, v in fresh.items()})) == DB, 'the database changed')
    ctx.nt(isinstance(entry['model_file'], (list, dict)) or c['gz'] or c['extra'])
    ctx.label(fmt)


# ---- definition files -------------------------------------------------------------------------------------
SCALED = ('ATLAS-netcdf', 'GOT-ascii', 'GOT-netcdf', 'FES-ascii', 'FES-netcdf')
GRIDDED = ('OTIS', 'ATLAS-compact', 'TMD3', 'ATLAS-netcdf')
TOKENS = ['m2', 's2', 'n2', 'k1', 'o1', 'p1', 'q1', '2n2', 'mf', 'mm', 'm4', 'lambda2', 'sa', 'k2', 'mks2', 'msqm', 'eps2', 'ssa', 't2']


@st.composite
def file_case(draw):
    fmt = draw(st.sampled_from(sorted(FILEFORMAT)))
    uv = draw(st.booleans()) and not fmt.startswith('GOT')
    cons = draw(st.lists(st.sampled_from(TOKENS), min_size=1, max_size=5, unique=True))
    return {'fmt': fmt, 'alias': draw(st.booleans()), 'uv': uv, 'cons': cons, 'perm': draw(st.permutations(list(range(len(cons))))),
            'form': draw(st.sampled_from(['list', 'list', 'single', 'glob', 'globs', 'globs', 'no match'])), 'dir': draw(st.sampled_from([None, 'str', 'path'])),
            'home': draw(st.booleans()), 'source': draw(st.sampled_from(['str', 'path', 'StringIO', 'text', 'BytesIO', 'binary', 'home'])), 'gz': draw(st.sampled_from([None, True, False])),
            'scale': draw(st.sampled_from([1.0, 0.01, 0.001, 2.5])), 'named': draw(st.booleans()), 'variable': draw(st.sampled_from(['tide_ocean', 'tide_load', None])),
            'version': draw(st.sampled_from(['FES2012', 'FES2014', 'EOT20', 'HAMTIDE11'])), 'projection': draw(st.sampled_from(['EPSG:4326', 'dict'])),
            'spoil': draw(st.sampled_from([None]*6 + ['name', 'type', 'format', 'model_file', 'grid_file', 'projection', 'scale', 'version', 'unknown format', 'not json', 'ascii', 'empty'])),
            'again': draw(st.booleans())}


def define(c, ctx):
    """JSON dictionary, working directory, and the expected paths of the model files"""
    fmt, uv = c['fmt'], c['uv']
    root = pathlib.Path(ctx.tmp, 'w')
    ext = {'FES-ascii': '.asc', 'GOT-ascii': '.d'}.get(fmt, '.nc') + ('.gz' if c['gz'] else '')
    # names of files below the root: first half in one folder, the rest in another
    def names(t):
        sub = 'a' + t
        out = []
        for i, k in enumerate(c['cons']):
            out.append(f"{sub}{'x' if i % 2 else 'y'}/{k}{ext}")
        return out
    keys = ['u', 'v'] if uv else ['z']
    form = c['form']
    listed = {t: names(t) for t in keys}
    for t in keys:
        for f in listed[t]:
            (root/f).parent.mkdir(parents=True, exist_ok=True)
            (root/f).touch()
            (root/f).with_name('README').touch()
    if c['dir'] is None and form in ('glob', 'globs', 'no match'):
        form = 'list'
    prefix = '' if c['dir'] else ('~/w/' if c['home'] else f'{root}/')
    value, want = {}, {}
    for t in keys:
        ls = listed[t]
        if form == 'single':
            value[t] = prefix + ls[0]
            want[t] = [[root/ls[0]]]
        elif form == 'list':
            value[t] = [prefix + f for f in ls]
            want[t] = [[root/f] for f in ls]
        elif form == 'glob':
            value[t] = f'a{t}?/*{ext}'
            want[t] = [[root/f for f in ls]]
        elif form == 'no match':
            value[t] = f'b{t}?/*{ext}'
            want[t] = []
        else:
            value[t] = [f'a{t}y/*{ext}', f'a{t}x/*{ext}']
            want[t] = [[root/f for f in ls[::2]], [root/f for f in ls[1::2]]]
    d = {'name': 'generated', 'format': c['fmt'], 'type': ['u', 'v'] if uv else 'z', 'model_file': value if uv else value['z'], 'reference': 'none'}
    if c['alias']:
        d['format'] = {v: k for k, v in REMAP.items()}.get(c['fmt'], c['fmt'])
    if fmt in GRIDDED:
        (root/'grid').touch()
        d['grid_file'] = prefix + 'grid'
    if c['projection'] == 'dict' and fmt in ('OTIS', 'TMD3'):
        d['projection'] = M.PS_S
    elif fmt in ('OTIS', 'TMD3', 'ATLAS-compact'):
        d['projection'] = 'EPSG:4326'
    if fmt in SCALED:
        d['scale'] = c['scale']
        if c['gz'] is not None:
            d['compressed'] = c['gz']
    if fmt.startswith('FES'):
        d['version'] = c['version']
        if c['named'] and form in ('list', 'single'):
            d['constituents'] = c['cons'] if form == 'list' else c['cons'][:1]
    if not uv and c['variable']:
        d['variable'] = c['variable']
    return d, {None: None, 'str': str(root), 'path': root}[c['dir']], want, root, form


def load(ctx, c, text, directory, **kw):
    """definition given by its file, path or an open file"""
    p = pathlib.Path(ctx.tmp, 'definition.json')
    p.write_text(text)
    src = c['source']
    m = pyTMD.io.model(directory)
    if c['again'] and src in ('str', 'path', 'home', 'text'):
        # another definition in the same file
        p.write_text(json.dumps({'name': 'earlier', 'format': 'OTIS', 'type': 'z', 'model_file': '/nonesuch/h', 'grid_file': '/nonesuch/g', 'projection': 'EPSG:3031', 'variable': 'tide_load'}))
        pyTMD.io.model().from_file(p)
        p.write_text(text)
    if src == 'str':
        return m.from_file(str(p), **kw)
    if src == 'home':
        return m.from_file('~/definition.json', **kw)
    if src == 'path':
        return m.from_file(p, **kw)
    if src == 'StringIO':
        return m.from_file(io.StringIO(text), **kw)
    if src == 'BytesIO':
        return m.from_file(io.BytesIO(text.encode()), **kw)
    with open(p, 'r' if src == 'text' else 'rb') as f:
        return m.from_file(f, **kw)


def groups(got, want, ctx, what):
    """the paths of every listed name (or pattern) in the listed order"""
    got = list(got) if isinstance(got, (list, tuple)) else [got]
    n = sum(len(g) for g in want)
    ctx.check(len(got) == n and all(isinstance(g, pathlib.Path) for g in got), f'{what}: {got} expected {want}')
    i = 0
    for g in want:
        ctx.check(sorted(map(str, got[i:i+len(g)])) == sorted(map(str, g)), f'{what}: {got} expected {want}')
        i += len(g)


def files(c, ctx):
    d, directory, want, root, form = define(c, ctx)
    spoil = c['spoil']
    home = os.environ.get('HOME')
    os.environ['HOME'] = ctx.tmp
    try:
        if spoil is not None:
            kw = {}
            text = None
            if spoil == 'unknown format':
                d['format'] = 'nonesuch'
            elif spoil == 'not json':
                text = 'name generated\nformat OTIS\n'
            elif spoil == 'empty':
                text = ''
            elif spoil == 'ascii':
                kw['format'] = 'ascii'
            elif spoil not in d:
                return ctx.skip()
            else:
                del d[spoil]
            ctx.label('refused')
            ctx.nt(True)
            refuses(ctx, f'definition without {spoil}' if text is None and not kw else spoil, lambda: load(ctx, c, json.dumps(d) if text is None else text, directory, **kw))
            return
        m = load(ctx, c, json.dumps(d), directory)
    finally:
        if home is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = home
    for k, v in d.items():
        if k not in ('format', 'model_file', 'grid_file'):
            ctx.check(getattr(m, k) == v, f'{k}: {getattr(m, k)!r} expected {v!r}')
    for k in ('projection', 'scale', 'version', 'variable', 'grid_file'):
        if k not in d:
            ctx.check(getattr(m, k) is None, f'{k}: {getattr(m, k)!r} without being defined')
    if 'compressed' not in d:
        ctx.check(not m.compressed, 'compressed')
    ctx.check(m.format == c['fmt'], f"format {m.format} from {d['format']}")
    if 'grid_file' in d:
        ctx.check(pathlib.Path(m.grid_file) == (root/'grid'), f'grid {m.grid_file}')
        ctx.check(isinstance(m.grid_file, pathlib.Path), 'grid path')
    if c['uv']:
        ctx.check(sorted(m.model_file) == ['u', 'v'], 'components')
        for t in 'uv':
            groups(m.model_file[t], want[t], ctx, t)
    else:
        groups(m.model_file, want['z'], ctx, 'model_file')
        if c['fmt'] in ('OTIS', 'ATLAS-compact', 'TMD3') and form == 'single' and c['dir'] is None:
            ctx.check(isinstance(m.model_file, pathlib.Path), 'single model file')
    if c['fmt'].startswith('FES'):
        first = m.model_file['u'] if c['uv'] else m.model_file
        ctx.check(m.constituents == d.get('constituents', [constituent(f) for f in first]), f'constituents {m.constituents} of {first}')
    attributes(ctx, m)
    # export and load again
    text = json.dumps(m.to_dict(serialize=True))
    if form == 'no match':
        return ctx.label(form)
    m2 = pyTMD.io.model().from_file(io.StringIO(text))
    for k in FIELDS:
        ctx.check(listed_paths(getattr(m2, k)) == listed_paths(getattr(m, k)), f'{k} after JSON export: {getattr(m2, k)!r} expected {getattr(m, k)!r}')
    ctx.check(bool(m2.compressed) == bool(m.compressed), f'compressed after JSON export: {m2.compressed} expected {m.compressed}', key='export:compressed')
    m3 = pyTMD.io.model().from_dict(m.to_dict())
    for k in FIELDS:
        ctx.check(getattr(m3, k) == getattr(m, k), f'{k} after export: {getattr(m3, k)!r}')
    ctx.check(bool(m3.compressed) == bool(m.compressed), 'compressed after export', key='export:compressed')
    fields = FIELDS[:1 + len(c['cons'])] + ['compressed']
    s = m.to_dict(fields=fields, serialize=c['again'])
    ctx.check(set(s) == {k for k in fields if getattr(m, k) is not None}, f'exported fields {sorted(s)} of {fields}')
    if c['again']:
        # exporting keeps the paths of the model
        ctx.check(all(isinstance(f, pathlib.Path) for f in (every(m.model_file))), 'paths became text')
    ctx.nt(form != 'single' or c['uv'] or c['source'] not in ('str', 'path'))
    ctx.label(c['fmt'])
    ctx.label(form)
    ctx.label(c['source'])


def listed_paths(v):
    """one path and a list of this path are the same"""
    if isinstance(v, dict):
        return {k: listed_paths(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) and len(v) == 1 and isinstance(v[0], pathlib.Path):
        return v[0]
    return v


# ---- requests never change the definition -------------------------------------------------------------------
FMTS = ['OTIS', 'OTIS-list', 'TMD3', 'ATLAS-netcdf', 'GOT-ascii', 'GOT-netcdf', 'FES-ascii', 'FES2012', 'FES2014', 'FES2022', 'EOT20', 'HAMTIDE11']


@st.composite
def history_case(draw):
    var = draw(st.sampled_from(['z', 'uv', 'uv']))
    f = [x for x in FMTS if not (var == 'uv' and x in ('FES-ascii', 'GOT-ascii', 'GOT-netcdf', 'EOT20'))]
    spec = draw(M.specs(formats=f, maxcons=3, projected=False))
    ty = ['z'] if var == 'z' else ['u', 'v']
    op = st.one_of(st.tuples(st.just('extract'), st.sampled_from(ty), st.booleans()), st.tuples(st.just('read'), st.sampled_from(ty), st.booleans()),
                   st.tuples(st.just('interpolate'), st.sampled_from(ty), st.just(False)), st.tuples(st.just('export'), st.just(''), st.just(False)))
    return {'spec': spec, 'var': var, 'ops': draw(st.lists(op.map(list), min_size=2, max_size=5)), 'pos': draw(M.positions(3, out=False)),
            'perm': draw(st.integers(0, 5)), 'scale': draw(st.sampled_from([None, 0.01, 1.0])), 'how': draw(st.sampled_from(['file', 'dict', 'file'])),
            'glob': draw(st.booleans()), 'method': draw(st.sampled_from(['bilinear', 'nearest', 'linear'])), 'module': draw(st.booleans())}


def node(lat):
    """equilibrium node tide of Cartwright and Edden (1973) with the Love numbers of Wahr (1981)"""
    return -0.027929*(1 + 0.299 - 0.606)*0.5*(3*np.sin(np.radians(lat))**2 - 1)*np.sqrt(5/(4*np.pi))


def history(c, ctx):
    m = M.Model(c['spec'])
    var = c['var']
    d = M.write(m, os.path.join(ctx.tmp, 'm'), var, scale=c['scale'])
    if isinstance(d['model_file'], dict) and d['format'] in ('FES-netcdf', 'ATLAS-netcdf'):
        # the files of the two components in different orders
        v = list(d['model_file']['v'])
        for _ in range(c['perm']):
            v = v[1:] + v[:1] if _ % 2 else v[1::-1] + v[2:]
        d['model_file']['v'] = v
    if c['how'] == 'file':
        o = pyTMD.io.model().from_file(M.definition(d, os.path.join(ctx.tmp, 'd.json')))
    else:
        o = M.obj(d)
    px, py = M.locate(m, c['pos'], 'z' if var == 'z' else 'u')
    lon, lat = m.lonlat(px, py)
    ref = {}
    for t in (['z'] if var == 'z' else ['u', 'v']):
        ref[t] = M.want(m, d, t, px, py, c['method'])
    keep = copy.deepcopy({k: v for k, v in o.__dict__.items() if not k.startswith('_')})
    cache = None
    mod = pyTMD.io.model.__module__

    def judge(amp, ph, names, t, with_node, what, interpolated):
        n = [str(x) for x in names]
        ctx.check(sorted(n) == sorted(list(m.cons) + (['node'] if with_node else [])), f'{what}: constituents {n} of {m.cons}')
        ctx.check(np.shape(amp) == (len(lon), len(n)), f'{what}: shape {np.shape(amp)} for {n}')
        W, S, D = ref[t]
        k = [n.index(x) for x in m.cons]
        M.compare(ctx, m, d, amp[:, k], ph[:, k], W, S, what)
        if with_node:
            j = n.index('node')
            a, p = np.ma.getdata(amp)[:, j], np.ma.getdata(ph)[:, j]
            mk = np.ma.getmaskarray(amp)[:, j]
            z = a*np.exp(-1j*np.radians(p))
            want = node(lat)
            if interpolated:
                # interpolated between the rows of the grid; for whole cells of valid constants
                tol = 1e-7 + (3*0.0125*np.radians(m.dy)**2/8 if c['method'] != 'nearest' else 0.0125*1.5*np.radians(m.dy)/2*1.01)
                g = (S == 1).all(axis=1)
            else:
                tol, g = 1e-7, np.ones(len(lat), bool)
                ctx.check(not mk.any(), f'{what}: masked node tide')
            if g.any():
                ctx.check(not mk[g].any() and np.max(np.abs(z - want)[g]) <= tol, f'{what}: node tide {z[g][:3]} expected {want[g][:3]}', key='node')

    for i, (op, t, nd) in enumerate(c['ops']):
        nd = bool(nd and var == 'z')
        what = f'call {i} {op} {t}'
        kw = {'type': t}
        if op == 'extract':
            if nd:
                kw['append_node'] = True
            if c['module']:
                a, p, n = pyTMD.io.extract_constants(lon, lat, o, method=c['method'], **kw) if hasattr(pyTMD.io, 'extract_constants') else o.extract_constants(lon, lat, method=c['method'], **kw)
            else:
                a, p, n = o.extract_constants(lon, lat, method=c['method'], **kw)
            judge(a, p, n, t, nd, what, False)
        elif op == 'read':
            k = o.read_constants(append_node=nd, **kw)
            cache = (t, nd)
            ctx.check(sorted(k.fields) == sorted(list(m.cons) + (['node'] if nd else [])), f'{what}: {k.fields}')
        elif op == 'interpolate':
            before = cache
            if cache is None or cache[0] != t:
                # constants of another component are of no use
                cache = (t, False)
            a, p = o.interpolate_constants(lon, lat, method=c['method'], **kw)
            judge(a, p, o._constituents.fields, t, cache[1], what + f' after {before}', True)
        else:
            s = json.dumps(o.to_dict(serialize=True))
            ctx.check('generated' in s or 'synthetic' in s, 'export')
        now = {k: v for k, v in o.__dict__.items() if not k.startswith('_')}
        for k in keep:
            ctx.check(k in now and repr(now[k]) == repr(keep[k]), f'{what} changed {k} from {keep[k]!r} to {now.get(k)!r}')
        ctx.check(set(now) == set(keep), f'{what} added {sorted(set(now) - set(keep))}')
    ctx.nt(len({tuple(x) for x in c['ops']}) > 1)
    ctx.label(m.fmt)
    ctx.label(var)


# ---- lists of models -------------------------------------------------------------------------------------
LISTS = {'OTIS': lambda k, e: k == 'elevation' and e['format'] == 'OTIS', 'ATLAS_compact': lambda k, e: k == 'elevation' and e['format'] == 'ATLAS-compact',
         'TMD3': lambda k, e: k == 'elevation' and e['format'] == 'TMD3', 'ATLAS': lambda k, e: k == 'elevation' and e['format'] == 'ATLAS-netcdf',
         'GOT': lambda k, e: k == 'elevation' and e['format'].startswith('GOT'), 'FES': lambda k, e: k == 'elevation' and e['format'].startswith('FES'),
         'ocean_elevation': lambda k, e: k == 'elevation' and e['variable'] in ('tide_ocean', 'tide_lpe'), 'load_elevation': lambda k, e: k == 'elevation' and e['variable'] == 'tide_load',
         'ocean_current': lambda k, e: k == 'current'}


def catalogue(c, ctx):
    got = getattr(pyTMD.io.model, c['list'])()
    want = sorted({n for k in ('elevation', 'current') for n, e in DB[k].items() if LISTS[c['list']](k, e)})
    ctx.check(got == want, f"{c['list']}: {got} expected {want}")
    f = pyTMD.io.model.formats()
    ctx.check(f == sorted(FILEFORMAT), f'formats {f}')
    # every definition of the database is complete, and each listed file appears once
    for n in want:
        for k in ('elevation', 'current'):
            e = DB[k].get(n)
            if e is None or (c['list'] == 'ocean_current') != (k == 'current'):
                continue
            fl = every(e['model_file'])
            ctx.check(e['name'] in (n, n.replace('-nc', ''), n.replace('_extrapolated', '')), f"{n} is named {e['name']}")
            for t in ([None] if e['type'] == 'z' else ['u', 'v']):
                ff = fl if t is None else every(e['model_file'].get(t, []))
                ctx.check(len(set(ff)) == len(ff), f'{n} lists a file twice')
            ctx.check(e['type'] == ('z' if k == 'elevation' else ['u', 'v']), f'{n}: type')
            if e['format'] in ('OTIS', 'TMD3', 'ATLAS-compact', 'ATLAS-netcdf'):
                ctx.check(bool(e.get('grid_file')), f'{n}: no grid file')
            if e['format'] in SCALED:
                want = {'ATLAS': (0.001, 1e-4), 'GOT': (0.001 if e.get('variable') == 'tide_load' else 0.01, None), 'FES': (0.01, 1.0)}[e['format'][:5].split('-')[0]]
                ctx.check(e.get('scale') == want[k == 'current'], f"{n}: scale {e.get('scale')} expected {want}")
    ctx.nt(len(got) > 1)
    ctx.label(c['list'])


def merged():
    d = dict(elevation={}, current={})
    for f in sorted((pathlib.Path(REPO)/'providers').glob('*.json')):
        for k, v in json.loads(f.read_text()).items():
            d[k].update(v)
    return d


def providers(c, ctx):
    """the definitions of the database are those of the providers"""
    d = merged()
    k = c['kind']
    ctx.check(sorted(d[k]) == sorted(DB[k]), f'{k}: {sorted(set(d[k]) ^ set(DB[k]))} are not in both the database and the files of the providers')
    n = sorted(DB[k])[c['i'] % len(DB[k])]
    ctx.nt(); ctx.label(k)
    ctx.check(d[k][n] == DB[k][n], f'{n} of the database is not the {k} definition of its provider')
    m = pyTMD.io.load_database() if hasattr(pyTMD.io, 'load_database') else None
    if m is not None:
        ctx.check(m[k][n] == d[k][n], f'{n} as loaded')


SUBS = [Sub('named', named_case(), named, 400, 4000, tmp=True), Sub('files', file_case(), files, 700, 6000, tmp=True), Sub('history', history_case(), history, 400, 3000, tmp=True),
        Sub('lists', st.fixed_dictionaries({'list': st.sampled_from(sorted(LISTS))}), catalogue, 20, 20),
        Sub('providers', st.fixed_dictionaries({'kind': st.sampled_from(['elevation', 'elevation', 'current']), 'i': st.integers(0, 99)}), providers, 200, 400)]
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
