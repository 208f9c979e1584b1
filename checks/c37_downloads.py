"""C37: the download programs bring each file of an archive, unchanged, to the place where the model database looks for it."""
import _boot
from harness import *
from gen import *
import servers
import builtins, contextlib, getpass, gzip, hashlib, importlib.util, io, json, logging, lzma, os, pathlib, stat, sys, tarfile, time, urllib.request, zipfile
import pyTMD, pyTMD.io
logging.root.addHandler(logging.NullHandler())

PROPERTY = 'C37'
RULE = ('Histories of runs of the download programs over archives with generated members, contents, times and versions, served by stand-ins on the '
        'loopback interface; non-trivial when at least one file is transferred or one transfer is declined.')
ASSUMPTIONS = ['the archives are laid out as at their sites: names of folders and files as in the model database, with documents beside them',
               'modification times are compared to the even second, as the programs do', 'names within one archive differ where they are flattened']

SCRIPTS = pathlib.Path(REPO)/'scripts'
_mod = {}


def program(name):
    if name not in _mod:
        spec = importlib.util.spec_from_file_location(name, SCRIPTS/f'{name}.py')
        _mod[name] = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_mod[name])
    return _mod[name]


@contextlib.contextmanager
def process(argv, table, env=(), answers=()):
    """the arguments, the names of servers, the environment and the answers to prompts of one run"""
    old, level, names = sys.argv, logging.root.level, servers.names(table)
    keep = {k: os.environ.get(k) for k in ('AVISO_USERNAME', 'AVISO_PASSWORD', 'https_proxy', 'HTTPS_PROXY', 'no_proxy')}
    inp, gp, given = builtins.input, getpass.getpass, list(answers)
    def answer(*a, **k):
        if not given:
            raise EOFError('an unexpected prompt')
        return given.pop(0)
    for k in keep:
        os.environ.pop(k, None)
    os.environ.update(dict(env))
    sys.argv = [str(a) for a in argv]
    builtins.input = getpass.getpass = answer
    out = io.StringIO()
    try:
        with names, contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield out
    finally:
        sys.argv, builtins.input, getpass.getpass = old, inp, gp
        logging.root.setLevel(level)
        for k, v in keep.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        urllib.request.install_opener(urllib.request.build_opener())


def content(*key):
    """bytes that depend on the whole of the key, from none to some hundred kilobytes"""
    h = hashlib.sha256(repr(key).encode()).digest()
    n = (0, 1, 30, 100, 100, 8192, 8193, 20000, 40000, 100000)[h[0] % 10]
    return np.random.RandomState(int.from_bytes(h[1:5], 'big')).bytes(n)


def found(root):
    """every file below a folder"""
    return {str(p.relative_to(root)): p for p in sorted(root.rglob('*')) if not p.is_dir()}


def read(p, zipped):
    b = p.read_bytes()
    return gzip.decompress(b) if zipped else b


def compare(ctx, what, root, want, zipped=lambda n: False):
    """want: {name: (content, mtime or None, mode or None)}"""
    have = found(root)
    ctx.check(set(have) == set(want), f'{what}: files that are missing {sorted(set(want)-set(have))[:4]}, files that should not be there {sorted(set(have)-set(want))[:4]}', key='files')
    for n, (b, mtime, mode) in want.items():
        got = read(have[n], zipped(n))
        ctx.check(got == b, f'{what}: {n} holds {len(got)} bytes that are not the {len(b)} bytes of the archive', key='content')
        s = have[n].stat()
        if mtime is not None:
            ctx.check(abs(s.st_mtime-mtime) < 1e-3, f'{what}: {n} has the modification time {s.st_mtime}, not {mtime}', key='mtime')
        if mode is not None:
            ctx.check(stat.S_IMODE(s.st_mode) == mode, f'{what}: {n} has the mode {oct(stat.S_IMODE(s.st_mode))}, not {oct(mode)}', key='mode')


def located(ctx, what, root, name, kinds=('elevation',), zipped=False):
    """the database looks for the files of the model where they are now"""
    for kind in kinds:
        m = getattr(pyTMD.io.model(directory=root, compressed=zipped, verify=False), kind)(name)
        f = m.model_file
        f = [x for v in f.values() for x in (v if isinstance(v, list) else [v])] if isinstance(f, dict) else f if isinstance(f, list) else [f]
        if m.get('grid_file', None) is not None if hasattr(m, 'get') else getattr(m, 'grid_file', None) is not None:
            f = f + [m.grid_file]
        lost = [str(x) for x in f if not pathlib.Path(x).exists()]
        ctx.check(not lost, f'{what}: the database looks for {name} at {lost[:2]}', key='located')


MODES = st.sampled_from(['775', '775', '640', '664', '600', '444'])

# ---------------------------------------------------------------- Arctic models
ARCTIC = {'AODTM-5': ('10.18739/A2901ZG3N', 'aodtm5_tmd', ['grid_Arc5km', 'h0_Arc5km.oce', 'UV0_Arc5km', 'Model_AODTM5', 'xy_ll_Arc5km']),
          'AOTIM-5': ('10.18739/A2S17SS80', 'aotim5_tmd', ['grid_Arc5km', 'h_Arc5km.oce', 'UV_Arc5km', 'Model_Arc5km', 'xy_ll_Arc5km.m']),
          'AOTIM-5-2018': ('10.18739/A21R6N14K', 'Arc5km2018', ['grid_Arc5km2018', 'h_Arc5km2018', 'UV_Arc5km2018', 'Model_Arc5km2018', 'xy_ll_Arc5km2018']),
          'Arc2kmTM': ('10.18739/A2D21RK6K', 'Arc2kmTM', ['grid_Arc2kmTM_v1', 'h_Arc2kmTM_v1', 'UV_Arc2kmTM_v1', 'Model_Arc2kmTM_v1']),
          'Gr1kmTM': ('10.18739/A2B853K18', 'Gr1kmTM', ['grid_Gr1kmTM_v1', 'h_Gr1kmTM_v1', 'UV_Gr1kmTM_v1', 'Model_Gr1kmTM_v1'])}
BAG = ['bagit.txt', 'manifest-md5.txt', 'tagmanifest-md5.txt', 'bag-info.txt', 'metadata/eml.xml', 'data/README.txt', 'data/license.pdf', 'metadata/sysmeta/sysmeta-1.xml']


@st.composite
def arctic_st(draw):
    runs = draw(st.lists(st.fixed_dictionaries(dict(
        models=st.lists(st.sampled_from(sorted(ARCTIC)), min_size=0, max_size=5, unique=True), mode=MODES, version=st.integers(0, 3))), min_size=1, max_size=3))
    return dict(runs=runs, folder=draw(st.sampled_from(['data', 'data/x-grid/sub', '', 'data/model_h'])), order=draw(st.integers(0, 5)), extra=draw(st.lists(st.sampled_from(BAG), unique=True, max_size=5)),
                pack=draw(st.booleans()), dirs=draw(st.booleans()), deep=draw(st.booleans()), down=draw(st.integers(0, 24).map({7: 'connection', 23: 'archive'}.get)))


def arctic_url(doi):
    return 'arcticdata.io/metacat/d1/mn/v2/packages/application%2Fbagit-097/resource_map_doi%3A' + doi.replace('/', '%2F')


def arctic(c, ctx):
    web = servers.site()
    root = pathlib.Path(ctx.tmp)/'models'
    if c['deep']:
        root = root/'tides'/'arctic'
    want = {}
    moved = False
    for k, r in enumerate(c['runs']):
        web.pages = {'arcticdata.io/': b'home', 'arcticdata.io': b'home'}
        for m, (doi, local, members) in ARCTIC.items():
            buf = io.BytesIO()
            with zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED if c['pack'] else zipfile.ZIP_STORED) as z:
                names = [f'{c["folder"]}/{x}'.strip('/') for x in members] + c['extra']
                if c['dirs'] and c['folder'] == 'data':
                    z.writestr('data/', b'')
                s = c['order'] % len(names)
                for n in names[s:] + names[:s]:
                    z.writestr(n, content(m, os.path.basename(n), r['version']))
            web.pages[arctic_url(doi)] = buf.getvalue()
        if c['down'] == 'archive':
            web.pages = {k: v for k, v in web.pages.items() if 'packages' not in k}
        models = r['models'] or ['Gr1kmTM']
        argv = ['arcticdata_tides.py', '--directory', root, '--mode', r['mode']] + (['--tide', *r['models']] if r['models'] else [])
        failed = None
        with process(argv, {} if c['down'] == 'connection' else {('arcticdata.io', 443): web.port}):
            try:
                program('arcticdata_tides').main()
            except Exception as e:
                failed = e
        if c['down']:
            ctx.check(failed is not None, f'the server has no {c["down"]}, and the program does not fail', key='silent')
            ctx.check(not (root.exists() and found(root)), f'files {list(found(root))[:3] if root.exists() else ""} without a server', key='files')
            ctx.label('down')
            ctx.nt()
            return
        if failed is not None:
            raise failed
        for m in models:
            _, local, members = ARCTIC[m]
            for n in members:
                want[f'{local}/{n}'] = (content(m, n, r['version']), None, int(r['mode'], 8))
                moved = True
        compare(ctx, f'run {k} for {models}', root, want)
        for m in models:
            located(ctx, f'run {k}', root, m, ('elevation', 'current'))
    if moved:
        ctx.nt()
    ctx.label(f'{len(c["runs"])} runs')


# ---------------------------------------------------------------- archives of members with times
T0 = 1500000000
TIME = st.one_of(st.integers(T0, T0+12), st.integers(10**9, 17*10**8))


def tarball(members, kind, dirs=True, links=False):
    """members: [(name, bytes, mtime)]"""
    buf = io.BytesIO()
    t = tarfile.open(fileobj=buf, mode='w')
    seen = set()
    for n, b, mt in members:
        d = os.path.dirname(n)
        if dirs and d and d not in seen:
            seen.add(d)
            i = tarfile.TarInfo(d)
            i.type, i.mode, i.mtime = tarfile.DIRTYPE, 0o755, mt
            t.addfile(i)
        i = tarfile.TarInfo(n)
        i.size, i.mtime, i.mode = len(b), mt, 0o400
        t.addfile(i, io.BytesIO(b))
    if links:
        i = tarfile.TarInfo((os.path.dirname(members[0][0]) + '/latest').strip('/'))
        i.type, i.linkname = tarfile.SYMTYPE, os.path.basename(members[0][0])
        t.addfile(i)
    t.close()
    raw = buf.getvalue()
    return dict(gz=lambda: gzip.compress(raw, 1), xz=lambda: lzma.compress(raw, preset=0),
                lzma=lambda: lzma.compress(raw, format=lzma.FORMAT_ALONE, preset=0), plain=lambda: raw)[kind]()


class Local:
    """what should be in the folder of the user: {name: [content, mtime, mode, zipped]}"""
    def __init__(self):
        self.files, self.moved, self.kept = {}, 0, 0

    def offer(self, name, b, mtime, mode, zipped):
        """a file of the archive comes unless the one that is there is as new, to the even second"""
        old = self.files.get(name)
        if old is not None and 2*(mtime//2) <= 2*(old[1]//2):
            self.kept += 1
            return
        self.files[name] = [b, mtime, mode, zipped]
        self.moved += 1

    def touch(self, root, k, mtime, b):
        """the user changes one of the files"""
        names = sorted(self.files)
        if not names:
            return
        n = names[k % len(names)]
        p = root/n
        old = self.files[n]
        if b is not None:
            p.chmod(0o600)
            p.write_bytes(gzip.compress(b) if old[3] else b)
            old[0] = b
            old[2] = 0o600
        os.utime(p, (mtime, mtime))
        old[1] = mtime

    def compare(self, ctx, what, root):
        compare(ctx, what, root, {n: (b, t, m) for n, (b, t, m, z) in self.files.items()}, lambda n: self.files[n][3])


def edits():
    return st.lists(st.tuples(st.integers(0, 60), TIME, st.booleans()).map(list), max_size=3)


# ---------------------------------------------------------------- GOT
GOT = {'GOT4.8': ('2022-07/got4.8.tar.gz', 'gz', ['GOT4.8', 'GOT4.8_load'], 'ascii'),
       'GOT4.10': ('2023-12/got4.10c.tar.gz', 'gz', ['GOT4.10', 'GOT4.10_load'], 'ascii'),
       'GOT5.5': ('2024-07/GOT5.5.tar%201.gz', 'gz', ['GOT5.5', 'GOT5.5_load', 'GOT5.5_extrapolated'], 'netcdf'),
       'GOT5.5D': ('2024-07/GOT5.5D.tar%201.gz', 'gz', ['GOT5.5D'], 'netcdf'),
       'GOT5.6': ('2024-07/GOT5.6.tar%201.gz', 'gz', ['GOT5.6'], 'netcdf'),
       'RE14': ('2022-07/re14_longperiodtides_rel.tar', 'plain', ['RE14'], 'netcdf')}
DOCS = ['README', 'README.txt', 'docs/ray.pdf', 'docs/changes.txt', '.DS_Store', '._README', 'docs/._ray.pdf', 'sub/.DS_Store', 'aux/table.asc', 'aux/mask.nc4']


def db_paths(name, kind='elevation'):
    m = getattr(pyTMD.io.model(directory='/', verify=False), kind)(name)
    f = m.model_file
    f = [x for v in f.values() for x in (v if isinstance(v, list) else [v])] if isinstance(f, dict) else f if isinstance(f, list) else [f]
    return [str(pathlib.Path(x).relative_to('/')) for x in f]


@st.composite
def got_st(draw):
    runs = draw(st.lists(st.fixed_dictionaries(dict(models=st.lists(st.sampled_from(sorted(GOT)), min_size=0, max_size=2, unique=True), mode=MODES, gz=st.booleans(),
        format=st.sampled_from([None, 'netcdf', 'ascii']), steps=lists(st.sampled_from([0, 0, 1, 2, 3, 86400, -5, -1]), 8, 8), edits=edits())), min_size=1, max_size=3))
    return dict(runs=runs, same=draw(st.booleans()), docs=draw(st.lists(st.sampled_from(DOCS), unique=True, max_size=6)), twin=draw(st.booleans()), dirs=draw(st.booleans()), links=draw(st.booleans()),
                base=draw(lists(TIME, 4, 4)), order=draw(st.integers(0, 20)), down=draw(st.integers(0, 24).map({7: 'connection', 23: 'archive'}.get)), at=draw(st.booleans()))


def got(c, ctx):
    web = servers.site()
    root = pathlib.Path(ctx.tmp)/'models'
    local = Local()
    time_of, version = {}, {}
    for k, r in enumerate(c['runs']):
        if c['same']:
            r = {**r, **{q: c['runs'][0][q] for q in ('models', 'format', 'gz')}}
        models = r['models'] or ['GOT5.5']
        web.pages = {'earth.gsfc.nasa.gov': b'home', 'earth.gsfc.nasa.gov/': b'home'}
        offered = {}
        for m in models:
            url, kind, bases, _ = GOT[m]
            names = list(dict.fromkeys(x for b in bases for x in db_paths(b)))
            top = names[0].split('/')[0]
            # the other format of some of the files, and the documents
            if c['twin']:
                names += [os.path.splitext(n)[0] + ('.d' if n.endswith('.nc') else '.nc') for n in names[:5]]
            names += [f'{top}/{n}' for n in c['docs']]
            s = c['order'] % len(names)
            names = names[s:] + names[:s]
            members = []
            for i, n in enumerate(names):
                key = (m, n)
                if key not in time_of:
                    time_of[key], version[key] = c['base'][i % 4], 0
                elif r['steps'][i % 8]:
                    time_of[key] += r['steps'][i % 8]
                    version[key] += 1
                members.append((n, content(m, n, version[key]), time_of[key]))
            web.pages[f'earth.gsfc.nasa.gov/sites/default/files/{url}'] = tarball(members, kind, c['dirs'], c['links'])
            offered[m] = members
        if c['down'] == 'archive':
            web.pages = {k: v for k, v in web.pages.items() if 'sites' not in k}
        argv = ['gsfc_got_tides.py', '-D', root, '-M', r['mode']] + (['--tide', *r['models']] if r['models'] else []) + (['--gzip'] if r['gz'] else [])
        if r['format']:
            argv += ['--format', r['format']]
        if c['at']:
            # the arguments in a file
            f = pathlib.Path(ctx.tmp)/'args.txt'
            f.write_text('# arguments\n' + ' '.join(str(a) for a in argv[1:5]) + '\n' + '\n'.join(' '.join(str(a) for a in argv[5:]).split(' --')[0:1]) + '\n')
            rest = ' '.join(str(a) for a in argv[5:])
            f.write_text('# arguments\n' + ' '.join(str(a) for a in argv[1:5]) + ' # where\n\n' + rest + '\n')
            argv = [argv[0], f'@{f}']
        failed = None
        with process(argv, {} if c['down'] == 'connection' else {('earth.gsfc.nasa.gov', 443): web.port}):
            try:
                program('gsfc_got_tides').main()
            except Exception as e:
                failed = e
        if c['down']:
            ctx.check(failed is not None, f'the server has no {c["down"]}, and the program does not fail', key='silent')
            ctx.check(not (root.exists() and found(root)), 'files without a server', key='files')
            ctx.label('down')
            ctx.nt()
            return
        if failed is not None:
            raise failed
        fmt = r['format'] or 'netcdf'
        for m in models:
            for n, b, mt in offered[m]:
                base, ext = os.path.basename(n), os.path.splitext(n)[1]
                if base.startswith('.DS') or base.startswith('._') or (ext == '.nc' and fmt == 'ascii') or (ext == '.d' and fmt == 'netcdf'):
                    continue
                z = r['gz'] and ext in ('.nc', '.d')
                local.offer(n + ('.gz' if z else ''), b, mt, int(r['mode'], 8), z)
        local.compare(ctx, f'run {k} for {models}', root)
        for m in models:
            if GOT[m][3] == fmt:
                for b in GOT[m][2]:
                    located(ctx, f'run {k}', root, b, zipped=r['gz'])
        for which, t, write in r['edits']:
            local.touch(root, which, t, content('user', which, t) if write else None)
    if local.moved or local.kept:
        ctx.nt()
    ctx.label('kept' if local.kept else 'all new')


# ---------------------------------------------------------------- FES
AVISO = 'ftp-access.aviso.altimetry.fr'
PLAIN = 'auxiliary/tide_model/'
TARS = {'FES1999': [('fes1999_fes2004/fes1999.tar.gz', 'gz', True, None)],
        'FES2004': [('fes1999_fes2004/fes2004.tar.gz', 'gz', True, None)],
        'FES2012': [('fes2012_heights/fes2012_heights_v1.1.tar.lzma', 'lzma', True, None)] + [(f'fes2012_currents/fes2012_currents_v1.1_block{i}.tar.lzma', 'lzma', False, 'currents') for i in (1, 2, 3, 4)],
        'FES2014': [('fes2014_elevations_and_load/fes2014b_elevations/ocean_tide.tar.xz', 'xz', False, None),
                    ('fes2014_elevations_and_load/fes2014a_loadtide/load_tide.tar.xz', 'xz', False, 'load'),
                    ('fes2014a_currents/eastward_velocity.tar.xz', 'xz', False, 'currents'), ('fes2014a_currents/northward_velocity.tar.xz', 'xz', False, 'currents')]}
READMES = {'FES1999': [('fes1999_fes2004/readme_fes1999.html', None)], 'FES2004': [('fes1999_fes2004/readme_fes2004.html', None)],
           'FES2012': [('fes2012_heights/readme_fes2012_heights_v1.1', None), ('fes2012_currents/readme_fes2012_currents_v1.1', 'currents')],
           'FES2014': [('fes2014_elevations_and_load/readme_fes2014_elevation_and_load_v1.2.txt', None), ('fes2014a_currents/readme_fes2014_currents_v1.2.txt', 'currents')]}
LISTS = [('fes2022b/ocean_tide_20241025', None, 'FES2022'), ('fes2022b/load_tide', 'load', 'FES2022_load'), ('fes2022b/ocean_tide_extrapolated', 'extrapolated', 'FES2022_extrapolated')]
USER = st.text(st.characters(min_codepoint=33, max_codepoint=126, exclude_characters='#"\'\\'), min_size=1, max_size=10).filter(lambda t: not t.startswith('-') and not t.startswith('@'))


@st.composite
def fes_st(draw):
    run = st.fixed_dictionaries(dict(models=st.lists(st.sampled_from(['FES1999', 'FES2004', 'FES2012', 'FES2014', 'FES2022']), max_size=2, unique=True), mode=MODES, gz=st.booleans(),
        load=st.booleans(), currents=st.booleans(), extrapolated=st.booleans(), log=st.booleans(), how=st.sampled_from(['args', 'env', 'netrc', 'prompt', 'password']),
        wrong=st.integers(0, 9).map(lambda i: i == 4), steps=lists(st.sampled_from([0, 0, 1, 2, 3, 86400, -5, -1]), 8, 8), edits=edits()))
    return dict(same=draw(st.booleans()), runs=draw(st.lists(run, min_size=1, max_size=3)), base=draw(lists(TIME, 5, 5)), user=draw(USER), password=draw(USER), dirs=draw(st.booleans()),
                links=draw(st.booleans()), fraction=draw(st.sampled_from(['', '', '', '.5', '.000'])), slash=draw(st.booleans()), order=draw(st.integers(0, 40)))


def fes(c, ctx):
    srv = servers.tree()
    srv.accounts = {c['user']: c['password']}
    root = pathlib.Path(ctx.tmp)/'models'
    root.mkdir()
    local = Local()
    logs = set()
    time_of, version = {}, {}
    refused = 0
    for k, r in enumerate(c['runs']):
        if c['same']:
            r = {**r, **{q: c['runs'][0][q] for q in ('models', 'gz')}}
        models = r['models'] or ['FES2022']
        on = lambda flag: flag is None or r[flag]
        srv.files = {}
        count = 0
        def state(key):
            nonlocal count
            count += 1
            if key not in time_of:
                time_of[key], version[key] = c['base'][count % 5], 0
            elif r['steps'][count % 8]:
                time_of[key] += r['steps'][count % 8]
                version[key] += 1
            return content(key, version[key]), time_of[key]
        def stamp(t):
            return time.strftime('%Y%m%d%H%M%S', time.gmtime(t)) + c['fraction']
        plan = []          # (name, content, mtime, mode, zipped) in the order of the archive
        mode = int(r['mode'], 8)
        for m in models:
            low = m.lower()
            for path, flag in READMES.get(m, []):
                b, t = state(path)
                srv.files[PLAIN + path] = (b, stamp(t))
                if on(flag):
                    plan.append((f'{low}/{os.path.basename(path)}', b, t, mode, False))
            for path, kind, flat, flag in TARS.get(m, []):
                stem = os.path.basename(path).split('.')[0]
                if m == 'FES2014':
                    names = [f'{stem}/{x}' for x in ('2n2.nc', 'eps2.nc', 'm2.nc', 's1.nc')] + [f'{stem}/notes.asc']
                    if stem in ('ocean_tide', 'load_tide'):
                        names = [n.split('/', 1)[1] for n in db_paths('FES2014' if stem == 'ocean_tide' else 'FES2014_load')] + [f'{stem}/info.txt']
                elif m == 'FES2012':
                    names = [f'data/{os.path.basename(path).split(".tar")[0]}_{x}' for x in ('K1.nc', 'M2.nc', 'list.txt')]
                else:
                    names = [f'{low}/data/{x}_{low}.asc' for x in ('M2', 'S2', 'K1', '2N2')] + [f'{low}/data/{x}_drfes.asc' for x in ('M2', 'K1')] + [f'{low}/src/fes.c']
                members = []
                for n in names:
                    b, t = state((path, n))
                    members.append((n, b, t))
                    if on(flag):
                        z = r['gz'] and os.path.splitext(n)[1] in ('.asc', '.nc')
                        plan.append((f'{low}/{os.path.basename(n) if flat else n}' + ('.gz' if z else ''), b, t, mode, z))
                srv.files[PLAIN + path] = (tarball(members, kind, c['dirs'], c['links']), stamp(T0))
            if m == 'FES2022':
                for folder, flag, name in LISTS:
                    files = [os.path.basename(x) + '.xz' for x in db_paths(name)][:9 if flag else None] + ['README.txt', 'mask.nc', 'grid.asc.xz']
                    s = c['order'] % len(files)
                    for f in files[s:] + files[:s]:
                        b, t = state((folder, f))
                        srv.files[f'{PLAIN}{folder}/{f}'] = (lzma.compress(b, preset=0) if f.endswith('.xz') else b, stamp(t))
                        if on(flag):
                            n = f[:-3] if f.endswith('.xz') else f
                            z = r['gz'] and os.path.splitext(n)[1] in ('.asc', '.nc')
                            plan.append((f'{folder}/{n}' + ('.gz' if z else ''), b, t, mode, z))
        user, password = c['user'], c['password'] + ('x' if r['wrong'] else '')
        netrc = pathlib.Path(ctx.tmp)/f'netrc{k}'
        env, answers, cred = {}, [], []
        if r['how'] == 'args':
            cred = ['--user', user, '--password', password]
        elif r['how'] == 'env':
            env = dict(AVISO_USERNAME=user, AVISO_PASSWORD=password)
        elif r['how'] == 'netrc':
            netrc.write_text(f'machine example.org login other password secret\nmachine {AVISO} login {user} password {password}\n')
            netrc.chmod(0o600)
        elif r['how'] == 'prompt':
            answers = [user, password]
        else:
            cred, answers = ['-U', user], [password]
        argv = ['aviso_fes_tides.py', '--directory', root, '--netrc', netrc, '--mode', r['mode'], *cred] + (['--tide', *r['models']] if r['models'] else [])
        argv += [f'--{x}' for x in ('load', 'currents', 'extrapolated', 'log') if r[x]] + (['--gzip'] if r['gz'] else [])
        failed = None
        with process(argv, {(AVISO, 21): srv.port}, env, answers):
            try:
                program('aviso_fes_tides').main()
            except Exception as e:
                failed = e
        what = f'run {k} for {models} ({", ".join(x for x in ("load", "currents", "extrapolated", "gz") if r[x])})'
        if r['wrong']:
            refused += 1
            ctx.check(isinstance(failed, Exception) and not isinstance(failed, EOFError), f'{what}: the server refuses the password, and the program does not fail', key='silent')
        else:
            if failed is not None:
                ctx.fail(f'{what}: {type(failed).__name__}: {failed}', key='failed')
            for p in plan:
                local.offer(*p)
            if r['log']:
                now = {n: p for n, p in found(root).items() if '/' not in n and n.startswith('AVISO_FES_tides_') and n.endswith('.log')}
                ctx.check(len(now) >= 1, f'{what}: no log file', key='log')
                for p in now.values():
                    p.unlink()
        local.compare(ctx, what, root)
        if not r['wrong']:
            if 'FES2014' in models:
                located(ctx, what, root, 'FES2014', zipped=r['gz'])
                if r['load']:
                    located(ctx, what, root, 'FES2014_load', zipped=r['gz'])
            if 'FES2022' in models:
                located(ctx, what, root, 'FES2022', zipped=r['gz'])
        for which, t, write in r['edits']:
            local.touch(root, which, t, content('user', which, t) if write else None)
    if local.moved or local.kept or refused:
        ctx.nt()
    ctx.label('kept' if local.kept else 'refused' if refused else 'all new')


# ---------------------------------------------------------------- TPXO9-atlas on Box
@st.composite
def box_st(draw):
    return dict(model=draw(st.sampled_from(['TPXO9-atlas-v5', 'TPXO9-atlas-v4', 'TPXO9-atlas-v3', 'TPXO9-atlas-v2', 'TPXO9-atlas', 'TPXO10-atlas-v2', 'TPXO9-atlas-v5-nc'])), currents=draw(st.booleans()), mode=draw(MODES), mtimes=draw(lists(TIME, 5, 5)),
                zone=draw(st.sampled_from([-8, 0, 5.5, 1])), token=draw(USER), folder=str(draw(st.integers(1, 10**10))), change=draw(st.one_of(st.none(), st.tuples(st.integers(0, 60), st.booleans()).map(list))),
                junk=draw(st.booleans()), order=draw(st.integers(0, 30)), part=draw(st.booleans()))


def box(c, ctx):
    web = servers.site()
    root = pathlib.Path(ctx.tmp)/'models'
    names = db_paths(c['model'])
    m = pyTMD.io.model(directory='/', verify=False).elevation(c['model'])
    names.append(str(pathlib.Path(m.grid_file).relative_to('/')))
    flows = [n for n in db_paths(c['model'], 'current')] if c['currents'] or c['part'] else []
    flows = [n for n in dict.fromkeys(flows)]
    every = list(dict.fromkeys(names + flows))
    where = root/os.path.dirname(names[0])
    data = {}
    for i, n in enumerate(every):
        (root/n).parent.mkdir(parents=True, exist_ok=True)
        b = content(c['model'], n)
        (root/n).write_bytes(b)
        os.utime(root/n, (T0-10**7, T0-10**7))
        (root/n).chmod(0o644)
        data[n] = (b, c['mtimes'][i % 5])
    entries = [dict(type='file', id=str(1000+i), name=os.path.basename(n), sha1=hashlib.sha1(data[n][0]).hexdigest()) for i, n in enumerate(every)]
    pages = {'app.box.com/': b'box', 'app.box.com': b'box'}
    hours = c['zone']
    for e, n in zip(entries, every):
        t = time.strftime('%Y-%m-%dT%H:%M:%S', time.gmtime(data[n][1] + 3600*hours)) + f'{"-" if hours < 0 else "+"}{int(abs(hours)):02d}:{int(60*(abs(hours)%1)):02d}'
        pages[f'api.box.com/2.0/files/{e["id"]}'] = json.dumps(dict(type='file', id=e['id'], name=e['name'], modified_at=t)).encode()
    if c['junk']:
        entries += [dict(type='folder', id='7', name='grids'), dict(type='file', id='8', name='README.txt', sha1='0'*40), dict(type='folder', id='9', name='h_old')]
    s = c['order'] % len(entries)
    entries = entries[s:] + entries[:s]
    pages[f'api.box.com/2.0/folders/{c["folder"]}/items'] = json.dumps(dict(total_count=len(entries), entries=entries)).encode()
    web.pages = pages
    chosen = set(names) | (set(flows) if c['currents'] else set())
    bad = None
    if c['change']:
        bad = every[c['change'][0] % len(every)]
        (root/bad).write_bytes(data[bad][0][:-1] if c['change'][1] and data[bad][0] else data[bad][0] + b'\0')
        os.utime(root/bad, (T0-10**7, T0-10**7))
    argv = ['verify_box_tpxo.py', '--directory', root, '--token', c['token'], '--folder', c['folder'], '--tide', c['model'], '--mode', c['mode']] + (['--currents'] if c['currents'] else [])
    failed = None
    with process(argv, {('api.box.com', 443): web.port, ('app.box.com', 443): web.port}):
        try:
            program('verify_box_tpxo').main()
        except Exception as e:
            failed = e
    ctx.nt()
    if bad in chosen:
        ctx.label('changed file')
        ctx.check(failed is not None, f'{bad} is not the file of the server, and the program does not say so', key='silent')
        ctx.check(abs((root/bad).stat().st_mtime - (T0-10**7)) < 1, f'{bad} fails the verification and is dated as the file of the server', key='mtime')
        return
    if failed is not None:
        ctx.fail(f'{type(failed).__name__}: {failed}', key='failed')
    want = {n: (data[n][0], data[n][1], int(c['mode'], 8)) if n in chosen else ((root/n).read_bytes(), T0-10**7, 0o644) for n in every}
    compare(ctx, c['model'], root, want)
    asked = [h.get('Authorization') for _, k, h in web.seen if k.startswith('api.box.com')]
    ctx.check(asked and set(asked) == {f'Bearer {c["token"]}'}, f'requests with the authorization {set(asked)}', key='token')


SUBS = [Sub('arctic', arctic_st(), arctic, 60, 1200, tmp=True, shards=2),
        Sub('got', got_st(), got, 60, 1500, tmp=True, shards=2),
        Sub('fes', fes_st(), fes, 60, 1500, tmp=True, shards=3),
        Sub('box', box_st(), box, 40, 800, tmp=True, shards=1)]

if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
