"""C28: downloads, listings, hashes and text helpers are faithful."""
import _boot
from harness import *
from gen import *
import calendar
import datetime as dt
import fractions
import ftplib
import hashlib
import io
import json as js
import logging
import os
import pathlib
import posixpath
import re
import stat
import time
import urllib.parse
import servers
import pyTMD
import pyTMD.utilities as U
os.environ['no_proxy'] = '*'

PROPERTY = 'C28'
RULE = ('Generated directories, files, failures of the transfer, dates in many formats and host time zones, against servers on the loopback interface and closed definitions in the standard library; '
        'non-trivial when a name, byte content, date or argument is present and something can go wrong (several names, an existing local file, another time zone, a comment, a subtractive numeral).')
ASSUMPTIONS = ['remote hosts are stand-ins on 127.0.0.1 (the default ftp port of ftplib is set to that of the stand-in)', 'listings have the layout of Apache, CDDIS, IERS and UHSLC pages', 'URLs have a scheme, a host and non-empty parts',
               'dates that are not in the given format carry a year, month and day', 'hash algorithms of fixed length', 'argument lines are single lines']
ZONES = ['UTC0', 'AAA8', 'BBB-5:45', 'CCC3DDD,M3.2.0,M11.1.0', 'EEE-13']
NAME = st.text(st.sampled_from('abcxyzAB019_-.'), min_size=1, max_size=8).filter(lambda s: set(s) - {'.'} and not s.startswith('-'))
SIZES = [0, 1, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072, 150000]
SIZED = st.none() | st.tuples(st.one_of(st.sampled_from(SIZES), st.integers(0, 300).map(lambda i: 512*i)), st.sampled_from(['00', 'ff', '0a', '0d0a', '1a', '20', '']), st.integers(0, 6)).map(list)


def sized(body, size):
    """repeats a body up to a length, with given last bytes"""
    if size is None:
        return body
    n, tail, times = size
    tail = (bytes.fromhex(tail)*times)[:n]
    body = body or b'abc'
    return (body*(n//len(body) + 1))[:n - len(tail)] + tail


ISO = '%Y-%m-%d %H:%M'


def zone(tz):
    os.environ['TZ'] = tz
    time.tzset()


# ---- listings ----------------------------------------------------------------------------------------------
@st.composite
def list_case(draw):
    names = draw(st.lists(NAME, min_size=0, max_size=7, unique=True))
    n = len(names)
    return {'style': draw(st.sampled_from(['apache', 'apache', 'cddis', 'iers', 'uhslc', 'ftp', 'ftp'])), 'names': names, 'times': draw(lists(st.integers(0, 2**31 - 1), n, n)), 'dirs': draw(lists(st.sampled_from([False, False, False, True]), n, n)),
            'pattern': draw(st.sampled_from(['', None, r'\.', r'^a', r'[xyz]', r'\d$', 'zzz', r'^[A-Z]', r'a|b'])), 'sort': draw(st.booleans()), 'whole': draw(st.booleans()), 'tz': draw(st.sampled_from(ZONES)),
            'format': draw(st.sampled_from([None, '%d-%b-%Y %H:%M', '%Y/%m/%d %H:%M:%S', '%Y-%m-%d %H:%M:%S %z'])), 'basename': draw(st.booleans()), 'full': draw(st.booleans()), 'parent': draw(st.booleans()), 'fraction': draw(st.booleans()),
            'fault': draw(st.sampled_from([None]*6 + [404, 500, 'refused'])), 'other': draw(st.booleans()), 'url': draw(st.booleans())}


def listing(c, ctx):
    zone(c['tz'])
    names, times = c['names'], list(c['times'])
    style = c['style']
    fmt = c['format'] or ISO
    g = [dt.datetime(1970, 1, 1) + dt.timedelta(seconds=t) for t in times]
    kw = {}
    if c['pattern'] is not None:
        kw['pattern'] = c['pattern']
    if c['sort']:
        kw['sort'] = True
    if style == 'ftp':
        return ftp_listing(c, ctx, kw)
    w = servers.web()
    path = '/pub/data'
    known = {}
    order = list(names)
    if style == 'apache':
        rows = []
        if c['parent']:
            rows.append('<tr><td valign="top"><img src="/i.gif" alt="[DIR]"></td><td><a href="/pub/">Parent Directory</a></td><td>&nbsp;</td><td align="right">  - </td><td>&nbsp;</td></tr>')
            order = ['/pub/'] + order
            known['/pub/'] = None
        for n, t, d in zip(names, g, c['dirs']):
            # folders are dated as files are; sizes are in columns of the same alignment
            ref = n + '/' if d else n
            s = t.replace(tzinfo=dt.timezone.utc).astimezone(dt.timezone(dt.timedelta(hours=5, minutes=30))).strftime(fmt) if '%z' in fmt else t.strftime(fmt)
            rows.append(f'<tr><td valign="top"><img src="/i.gif" alt="[   ]"></td><td><a href="{ref}">{n}</a></td><td align="right">{s}  </td><td align="right">{"-" if d else "1.2K"} </td><td>&nbsp;</td></tr>')
            known[ref] = calendar.timegm(t.timetuple()) if '%S' in fmt else calendar.timegm(t.replace(second=0).timetuple())
        order = [(n + '/' if n in dict(zip(names, c['dirs'])) and dict(zip(names, c['dirs']))[n] else n) for n in order]
        body = '<html><body><h1>Index</h1><table><tr><th valign="top"></th><th><a href="?C=N">Name</a></th><th><a href="?C=M">Last modified</a></th></tr><tr><th colspan="5"><hr></th></tr>' + ''.join(rows) + '</table></body></html>'
        if c['format']:
            kw['format'] = c['format']
        fn = U.http_list
    elif style == 'cddis':
        folders = [n for n, d in zip(names, c['dirs']) if d]
        files = [(n, t) for n, t, d in zip(names, g, c['dirs']) if not d]
        order = folders + [n for n, _ in files]
        known = {n: None for n in folders}
        known.update({n: calendar.timegm(t.timetuple()) for n, t in files})
        body = '<html><body>' + ''.join(f'<div class="archiveDir"><div class="archiveDirTextContainer"><a class="archiveDirText" href="{n}">{n}</a></div></div>' for n in folders) + \
            ''.join(f'<div class="archiveItem"><div class="archiveItemTextContainer"><a class="archiveItemText" href="{n}">{n}</a><span class="fileInfo">{t.strftime("%Y:%m:%d %H:%M:%S")}&nbsp;&nbsp;12KB</span></div></div>' for n, t in files) + '</body></html>'
        fn = lambda h, **k: U.cddis_list(h, username='u', password='p', build=False, **k)
    elif style == 'iers':
        kw = {}
        body = '<html><body><table>' + ''.join(f'<tr><td class="$tdclass">x</td><td class="$tdclass"><span>{t.strftime("%Y-%m-%d")}</span></td><td class="$tdclass">y</td><td class="$tdclass"><a href="{n}">{n}</a></td></tr>' for n, t in zip(names, g)) + '</table></body></html>'
        known = {n: t//86400*86400 for n, t in zip(names, times)}
        order = order[::-1]
        fn = U.iers_list
    else:
        body = '<html><body>' + ''.join(f'<a href="x/{n}">{n}</a><br>' for n in names) + '</body></html>'
        fn = U.uhslc_list
    w.pages[path] = {'body': body.encode()}
    if c['fault'] in (404, 500):
        w.pages[path]['status'] = c['fault']
    url = w.url
    if c['fault'] == 'refused':
        import socket
        with socket.create_server(('127.0.0.1', 0)) as s:
            url = f'http://127.0.0.1:{s.getsockname()[1]}'
    host = url + path if c['url'] else [url, 'pub', 'data']
    if c['fault'] is not None:
        ctx.nt(True)
        ctx.label('fault')
        try:
            r = fn(host, timeout=10, **kw)
        except Exception:
            return
        ctx.fail(f'a listing was returned from a failing server: {r}')
        return
    got = fn(host, timeout=10, **kw)
    keep = [n for n in order if not kw.get('pattern') or re.search(kw['pattern'], n)]
    if kw.get('sort'):
        keep = sorted(keep)
    if style == 'uhslc':
        ctx.check(list(map(str, got)) == keep, f'listing {got} expected {keep}')
    else:
        ctx.check(list(map(str, got[0])) == keep, f'listing {got[0]} expected {keep}', key='names')
        ctx.check(list(got[1]) == [known[n] for n in keep], f'times {got[1]} expected {[known[n] for n in keep]}', key='times')
    ctx.nt(len(names) > 1 and style != 'uhslc' or len(keep) > 1)
    ctx.label(style)


def ftp_listing(c, ctx, kw):
    s = servers.ftp()
    ftplib.FTP.port = s.port
    s.root = '/pub/d'
    known = {}
    for n, t, d in zip(c['names'], c['times'], c['dirs']):
        if d:
            s.folders.append(n)
            known[n] = None
        else:
            s.files[n] = (b'', time.strftime('%Y%m%d%H%M%S', time.gmtime(t)) + ('.000' if c['fraction'] else ''))
            known[n] = t
    s.order = list(c['names'])
    s.full = c['full']
    s.accounts = {'me': 'secret'} if c['other'] else None
    if c['other']:
        kw.update(username='me', password='secret')
    if c['basename']:
        kw['basename'] = True
    full = lambda n: n if c['basename'] or not c['full'] else posixpath.join('pub/d', n)
    host = '127.0.0.1/pub/d' if c['url'] else ['127.0.0.1', 'pub', 'd']
    if c['fault'] is not None:
        ctx.nt(True)
        ctx.label('fault')
        if c['fault'] == 'refused':
            s.accounts = {'me': 'other'}
            kw.update(username='me', password='secret')
        else:
            s.root = '/elsewhere'
        try:
            r = U.ftp_list(host, timeout=10, **kw)
        except Exception:
            return
        ctx.fail(f'a listing was returned from a failing server: {r}')
        return
    names, times = U.ftp_list(host, timeout=10, **kw)
    keep = [n for n in s.order if not kw.get('pattern') or re.search(kw['pattern'], full(n))]
    if kw.get('sort'):
        keep = sorted(keep, key=full)
    ctx.check(names == [full(n) for n in keep], f'listing {names} expected {[full(n) for n in keep]}', key='names')
    ctx.check(times == [known[n] for n in keep], f'times {times} expected {[known[n] for n in keep]}', key='times')
    ctx.nt(len(c['names']) > 1)
    ctx.label('ftp')


# ---- downloads ---------------------------------------------------------------------------------------------------
@st.composite
def get_case(draw):
    return {'how': draw(st.sampled_from(['http', 'http', 'ftp', 'ftp', 'cddis', 'json', 'jpl'])), 'name': draw(NAME), 'body': draw(st.binary(max_size=40)).hex(), 'sized': draw(SIZED), 'repeat': draw(st.sampled_from([0, 1, 1, 3, 1000])), 'chunk': draw(st.sampled_from([None, 1, 7, 64, 100000])),
            'style': draw(st.sampled_from(['length', 'length', 'chunked', 'close', 'cut', 'cut', '404', '500', '403'])), 'cut': draw(fl(0, 0.999)), 'local': draw(st.sampled_from([None, 'path', 'str', 'deep'])), 'old': draw(st.sampled_from([None, 'same', 'other', 'longer'])),
            'hash': draw(st.sampled_from([None, 'local', 'wrong'])), 'mode': draw(st.sampled_from([None, 0o600, 0o644, 0o775])), 'time': draw(st.integers(10**8, 2**31 - 1)), 'tz': draw(st.sampled_from(ZONES)), 'url': draw(st.booleans()), 'fraction': draw(st.booleans()),
            'json': draw(st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10**6, 10**6), fl(-1e6, 1e6), st.text(st.sampled_from('aé"\\ \n{'), max_size=4)), lambda e: st.one_of(st.lists(e, max_size=3), st.dictionaries(st.sampled_from('abc'), e, max_size=3)), max_leaves=6))}


def download(c, ctx):
    zone(c['tz'])
    body = sized(bytes.fromhex(c['body'])*c['repeat'], c['sized'])
    how, style = c['how'], c['style']
    if how == 'json':
        return load_json(c, ctx)
    cut = int(len(body)*c['cut'])
    if style == 'cut' and cut >= len(body):
        style = 'length'
    kw = {'timeout': 10}
    if c['chunk']:
        kw['chunk'] = c['chunk']
    local = None
    if c['local'] is not None or how == 'jpl':
        local = pathlib.Path(ctx.tmp, *(['a', 'b c'] if c['local'] == 'deep' else []), 'local_' + c['name'])
        kw['local'] = str(local) if c['local'] == 'str' else local
        if how == 'jpl':
            local = kw['local'] = local.with_name(c['name'])
    old = None
    if local is not None and c['old'] is not None:
        local.parent.mkdir(parents=True, exist_ok=True)
        old = {'same': body, 'other': b'other', 'longer': body + b'more'}[c['old']]
        local.write_bytes(old)
        os.utime(local, (10**9, 10**9))
    if c['hash'] is not None:
        kw['hash'] = U.get_hash(local) if c['hash'] == 'local' and local is not None else 'f'*32
    if c['mode'] is not None:
        kw['mode'] = c['mode'] | (0o700 if c['local'] == 'deep' else 0)
    fault = style in ('cut', '404', '500', '403')
    if how == 'ftp':
        s = servers.ftp()
        ftplib.FTP.port = s.port
        s.root = '/pub/d'
        s.files = {c['name']: (body, time.strftime('%Y%m%d%H%M%S', time.gmtime(c['time'])) + ('.250' if c['fraction'] else '')), 'zz' + c['name']: (b'another', '20000101000000')}
        if style == 'cut':
            s.cut = cut
        elif fault:
            s.files.pop(c['name'])
        host = f'127.0.0.1/pub/d/{c["name"]}' if c['url'] else ['127.0.0.1', 'pub', 'd', c['name']]
        fn = U.from_ftp
    else:
        w = servers.web()
        w.pages['/pub/d/' + c['name']] = {'body': body, 'style': style if style in ('length', 'chunked', 'close', 'cut') else 'length', 'cut': cut, 'status': int(style) if style.isdigit() else 200}
        host = f'{w.url}/pub/d/{c["name"]}' if c['url'] else [w.url, 'pub', 'd', c['name']]
        fn = U.from_http if how == 'http' else (lambda h, **k: U.from_cddis(h, username='u', password='pass', build=False, **k))
        if how == 'jpl':
            # send the request of the kernel to the stand-in
            w.pages['/ftp/eph/planets/bsp/' + c['name']] = w.pages.pop('/pub/d/' + c['name'])
            real = U.from_http

            def jpl(h, **k):
                def moved(HOST, **kk):
                    ctx.check(HOST[0] == 'https://ssd.jpl.nasa.gov', f'host {HOST}')
                    return real([w.url] + list(HOST[1:]), **kk)
                U.from_http = moved
                try:
                    U.from_jpl_ssd(c['name'] if c['url'] else None, **k)
                finally:
                    U.from_http = real
            fn = jpl
    ctx.nt(len(body) > 0 and (local is not None or fault))
    ctx.label('fault' if fault else how)
    try:
        got = fn(host, **kw)
    except Exception as e:
        if not fault:
            raise
        # a failing download leaves what was there
        if local is not None:
            ctx.check(local.exists() == (old is not None) and (old is None or local.read_bytes() == old), f'a failing download ({style}) left a wrong file', key='wrong file')
        return
    if fault:
        if how == 'jpl':
            ctx.fail('a failing download was not reported', key='fault unreported')
        ctx.fail(f'a failing download ({style}, {cut} of {len(body)} bytes) returned {len(got.getvalue())} bytes', key='fault unreported')
    if how != 'jpl':
        ctx.check(got.read() == body, f'{len(got.getvalue())} bytes expected {len(body)}', key='bytes')
        ctx.check(got.filename == c['name'], f'name {got.filename}')
    if local is not None:
        skip_ = kw.get('hash') == hashlib.md5(body).hexdigest()
        ctx.check(local.exists() == (not skip_ or old is not None), 'local file')
        if local.exists():
            ctx.check(local.read_bytes() == (old if skip_ else body), f'local file of {local.stat().st_size} bytes expected {len(body)}', key='local bytes')
            if skip_:
                ctx.check(local.stat().st_mtime == 10**9, 'file touched')
            else:
                ctx.check(stat.S_IMODE(local.stat().st_mode) == kw.get('mode', 0o775), f'mode {oct(local.stat().st_mode)}')
                if how == 'ftp':
                    ctx.check(local.stat().st_mtime == c['time'], f'time {local.stat().st_mtime} expected {c["time"]}', key='timestamp')
        rest = [p for p in pathlib.Path(ctx.tmp).rglob('*') if p.is_file()]
        ctx.check(rest == ([local] if local.exists() else []), f'other files {rest}')
    if how == 'cddis':
        import base64
        ctx.check(w.seen[-1][2].get('Authorization') == 'Basic ' + base64.b64encode(b'u:pass').decode(), 'authorization')


def load_json(c, ctx):
    w = servers.web()
    body = js.dumps(c['json'], ensure_ascii=c['url']).encode()
    fault = c['style'].isdigit()
    w.pages['/api/' + c['name']] = {'body': body, 'style': 'length' if fault or c['style'] == 'cut' else c['style'], 'status': int(c['style']) if fault else 200}
    host = f'{w.url}/api/{c["name"]}' if c['url'] else [w.url, 'api', c['name']]
    ctx.nt(True)
    ctx.label('json')
    try:
        got = U.from_json(host, timeout=10)
    except RuntimeError:
        ctx.check(fault, 'failed to load')
        return
    ctx.check(not fault, f'loaded {got} from an error')
    ctx.check(got == c['json'], f'{got} expected {c["json"]}')
    ctx.check(w.seen[-1][2].get('Accept') == 'application/json', 'requested type')
    # user tokens: method and address of the requests
    w.pages['/t'] = {'body': body}
    w.pages['/t?token=abc'] = {'body': b'{}'}
    ctx.check(U.list_tokens(HOST=w.url + '/t', build=False) == c['json'] and w.seen[-1][0] == 'GET', 'list of tokens')
    ctx.check(U.get_token(HOST=w.url + '/t', build=False) == c['json'] and w.seen[-1][0] == 'POST', 'token')
    U.revoke_token('abc', HOST=w.url + '/t', build=False)
    ctx.check(w.seen[-1][:2] == ('POST', '/t?token=abc'), f'revoked {w.seen[-1]}')
    ctx.check(U.check_connection(w.url + '/t') is True, 'connection')
    for bad in ('/none',):
        for fn in (U.check_connection, lambda u: U.get_token(HOST=u, build=False), lambda u: U.list_tokens(HOST=u, build=False), lambda u: U.revoke_token('x', HOST=u, build=False)):
            try:
                fn(w.url + bad)
            except RuntimeError:
                continue
            ctx.fail('no error for an address that is not there')
    s = servers.ftp()
    ftplib.FTP.port = s.port
    s.accounts = {'me': 'pw'}
    ctx.check(U.check_ftp_connection('127.0.0.1', 'me', 'pw') is True, 'ftp connection')
    try:
        U.check_ftp_connection('127.0.0.1', 'me', 'no')
    except RuntimeError:
        pass
    else:
        ctx.fail('wrong credentials accepted')


# ---- dates ------------------------------------------------------------------------------------------------------------
FORMATS = [('%Y-%m-%d %H:%M:%S', 1), ('%Y-%m-%d %H:%M', 60), ('%Y%m%d%H%M%S', 1), ('%d-%b-%Y %H:%M', 60), ('%Y:%m:%d %H:%M:%S', 1), ('%Y-%m-%d', 86400), ('%a, %d %b %Y %H:%M:%S', 1), ('%Y/%j %H:%M:%S', 1), ('%B %d, %Y', 86400), ('%Y-%m-%dT%H:%M:%S%z', 1)]
LOOSE = [('%Y-%m-%d %H:%M:%S', 1), ('%Y-%m-%dT%H:%M:%S', 1), ('%d %b %Y %H:%M', 60), ('%B %d, %Y', 86400), ('%a, %d %b %Y %H:%M:%S GMT', 1), ('%Y-%m-%dT%H:%M:%SZ', 1), ('%Y-%m-%dT%H:%M:%S%z', 1), ('%Y%m%dT%H%M%S', 1), ('%Y-%m-%dT%H:%M:%S.%f', 1e-6), ('%d %B %Y %I:%M:%S %p', 1)]
DATE = st.fixed_dictionaries({'s': st.integers(0, 2**32), 'us': st.integers(0, 999999), 'f': st.integers(0, 9), 'off': st.integers(-56, 56), 'tz': st.sampled_from(ZONES), 'loose': st.booleans(), 'tail': st.sampled_from(['', ' ', '\n', '  \t']),
                             'junk': st.one_of(st.text(st.sampled_from('qwxz'), min_size=3, max_size=9), st.text(st.sampled_from('0123456789'), min_size=17, max_size=24))})


def dates(c, ctx):
    zone(c['tz'])
    t = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(seconds=c['s'], microseconds=c['us'])
    fmt, res = (LOOSE if c['loose'] else FORMATS)[c['f']]
    shown = t.astimezone(dt.timezone(dt.timedelta(minutes=15*c['off']))) if '%z' in fmt else t
    text = shown.strftime(fmt)
    micro = c['s']*10**6 + c['us']
    r = int(round(res*1e6))
    want = fractions.Fraction(micro//r*r, 10**6)
    got = U.get_unix_time(text + c['tail'], **({} if c['loose'] else {'format': fmt}))
    ctx.check(got is not None and abs(fractions.Fraction(got) - want) < fractions.Fraction(1, 10**6), f'{text!r} is {got!r} in {c["tz"]}, expected {float(want)!r}', key='unix time')
    ctx.check(U.get_unix_time(c['junk']) is None and U.isoformat(c['junk']) is None, 'text that is not a date')
    if c['loose']:
        iso = U.isoformat(text + c['tail'])
        back = dt.datetime.fromisoformat(iso)
        floor = (shown - dt.timedelta(microseconds=(micro % r)))
        ctx.check(back.replace(tzinfo=None) == floor.replace(tzinfo=None), f'{text!r} is {iso!r} expected {floor.isoformat()}', key='iso')
        zoned = any(k in fmt for k in ('%z', 'GMT', 'SZ'))
        ctx.check((back.tzinfo is not None) == zoned and (not zoned or back == floor), f'{text!r} is {iso!r}', key='iso zone')
    ctx.nt(c['tz'] != 'UTC0')
    ctx.label('loose' if c['loose'] else 'format')


# ---- text, numbers, hashes ------------------------------------------------------------------------------------------------
ARG = st.text(st.sampled_from('ab-=.,/#\'" \t1é'), max_size=20)
FIXED = sorted(a for a in hashlib.algorithms_guaranteed if not a.startswith('shake'))


@st.composite
def text_case(draw):
    return {'line': draw(ARG), 'parts': draw(st.lists(st.text(st.sampled_from('ab.-_%20?=&:'), min_size=1, max_size=6), max_size=5)), 'scheme': draw(st.sampled_from(['https://', 'http://', 'ftp://', 's3://', ''])), 'host': draw(st.sampled_from(['host.org', 'a', '10.0.0.1:8080'])),
            'roman': draw(st.integers(1, 3999)), 'lower': draw(st.booleans()), 'v': draw(st.one_of(st.integers(-10**12, 10**12), fl(-1e12, 1e12), st.integers(-20, 20).map(lambda i: i/2), fl(-2, 2))), 'body': draw(st.binary(max_size=60)).hex(), 'sized': draw(SIZED), 'algorithm': draw(st.sampled_from(FIXED + ['md5', 'sha1'])),
            'slash': draw(st.booleans()), 'seek': draw(st.integers(0, 60)), 'numpy': draw(st.booleans())}


def numeral(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v:
            out += s
            n -= v
    return out


def texts(c, ctx):
    got = list(U.convert_arg_line_to_args(c['line']))
    ctx.check(got == c['line'].split('#')[0].split(), f'arguments {got} of {c["line"]!r}', key='arguments')
    url = c['scheme'] + c['host'] + ''.join('/' + p for p in c['parts'])
    s = U.url_split(url)
    ctx.check(tuple(s) == (c['scheme'] + c['host'], *c['parts']), f'{url} splits into {s}', key='url')
    ctx.check(posixpath.join(*s) == url, f'{s} of {url}')
    r = numeral(c['roman'])
    ctx.check(U.roman_to_int(r.lower() if c['lower'] else r) == c['roman'], f'{r} is {U.roman_to_int(r)}', key='roman')
    v = np.float64(c['v']) if c['numpy'] else c['v']
    e = U.even(v)
    ctx.check(isinstance(e, int) and e % 2 == 0 and e <= v < e + 2, f'even of {v} is {e}', key='even')
    z = U.ceil(v)
    ctx.check(isinstance(z, int) and z == math.ceil(v), f'ceil of {v} is {z}', key='ceil')
    b = sized(bytes.fromhex(c['body']), c['sized'])
    f = pathlib.Path(ctx.tmp, 'file')
    f.write_bytes(b)
    want = hashlib.new(c['algorithm'], b).hexdigest()
    buf = io.BytesIO(b)
    buf.seek(min(c['seek'], len(b)))
    for what, o in (('path', f), ('text', str(f)), ('buffer', buf)):
        ctx.check(U.get_hash(o, algorithm=c['algorithm']) == want, f'{c["algorithm"]} of the {what}', key='hash')
    ctx.check(buf.tell() == min(c['seek'], len(b)), 'position of the buffer')
    ctx.check(U.get_hash(f) == hashlib.md5(b).hexdigest() and U.get_hash(f.with_name('none')) == '' and U.get_hash(None) == '', 'default hash')
    for o in (f, io.BytesIO(b)):
        try:
            U.get_hash(o, algorithm='nonesuch')
        except ValueError:
            continue
        ctx.fail('unknown algorithm accepted')
    ctx.nt('#' in c['line'] or any(k in r for k in ('IV', 'IX', 'XL', 'XC', 'CD', 'CM')))


# ---- copies of files and package helpers ---------------------------------------------------------------------------------------
@st.composite
def copy_case(draw):
    return {'body': draw(st.binary(max_size=40)).hex(), 'mode': draw(st.sampled_from([0o600, 0o644, 0o755, 0o400])), 'time': draw(st.integers(10**8, 2**31 - 1)), 'move': draw(st.booleans()), 'old': draw(st.sampled_from([None, 'other'*20])), 'str': draw(st.booleans()),
            'where': draw(st.sampled_from(['new', 'new', 'same', 'link', 'folder', 'missing'])), 'level': draw(st.sampled_from([logging.DEBUG, logging.INFO, logging.WARNING, logging.CRITICAL])), 'module': draw(st.sampled_from(['json', 'xml.dom', 'no_such_module_x', 'json.nothing']))}


def copies(c, ctx):
    b = bytes.fromhex(c['body'])
    d = pathlib.Path(ctx.tmp)
    src = d/'source.bin'
    src.write_bytes(b)
    src.chmod(c['mode'])
    os.utime(src, (c['time'], c['time']))
    dst = {'new': d/'copy.bin', 'same': d/'x'/'..'/'source.bin', 'link': d/'link.bin', 'folder': d/'x', 'missing': d/'none'/'copy.bin'}[c['where']]
    (d/'x').mkdir(exist_ok=True)
    if c['where'] == 'link':
        dst.symlink_to(src)
    if c['where'] == 'new' and c['old']:
        dst.write_text(c['old'])
    arg = (str(src), str(dst)) if c['str'] else (src, dst)
    try:
        U.copy(*arg, move=c['move'])
    except OSError:
        ctx.check(c['where'] != 'new', 'failed to copy')
        ctx.check(src.read_bytes() == b, f'the source is lost when copying to {c["where"]}', key='source lost')
    else:
        ctx.check(c['where'] == 'new', f'copied to {c["where"]}')
        ctx.check(dst.read_bytes() == b and stat.S_IMODE(dst.stat().st_mode) == c['mode'] and dst.stat().st_mtime == c['time'], 'copy differs', key='copy')
        ctx.check(src.exists() != c['move'], 'source')
    # logger
    s = io.StringIO()
    name = f'log{os.getpid()}_{id(s)}_{time.monotonic_ns()}'
    log = U.build_logger(name, level=c['level'], stream=s, format='%(levelno)s %(message)s')
    for lv in (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL):
        log.log(lv, 'm%d', lv)
    ctx.check(s.getvalue().split('\n')[:-1] == [f'{lv} m{lv}' for lv in (10, 20, 30, 40, 50) if lv >= c['level']], f'log {s.getvalue()!r}')
    ctx.check(U.build_logger(name, level=c['level'], stream=s) is log and len(log.handlers) == 1 and not log.propagate, 'one handler')
    # optional modules
    have = c['module'] in ('json', 'xml.dom')
    m = U.import_dependency(c['module'])
    ctx.check((getattr(m, '__name__', '') == c['module']) == have, f'module {m}')
    try:
        U.import_dependency(c['module'], raise_exception=True)
        ctx.check(have, 'no exception for a missing module')
    except ImportError:
        ctx.check(not have, 'exception for a module')
    base = pathlib.Path(U.__file__).absolute().parent
    ctx.check(U.get_data_path(['data', 'doodson.json']) == base/'data'/'doodson.json' == U.get_data_path('data/doodson.json') == U.get_data_path(pathlib.Path('data/doodson.json')), 'data path')
    calls = []

    class A:
        @U.reify
        def value(self):
            calls.append(1)
            return c['time']
    a = A()
    ctx.check(a.value == c['time'] and a.value == c['time'] and len(calls) == 1 and isinstance(A.value, U.reify) and A().value == c['time'] and len(calls) == 2, 'property evaluated once per object')
    ctx.nt(c['where'] != 'new' or c['move'] or bool(c['old']))
    ctx.label(c['where'])


SUBS = [Sub('listing', list_case(), listing, 400, 6000), Sub('download', get_case(), download, 600, 8000, tmp=True), Sub('dates', DATE, dates, 1500, 20000), Sub('texts', text_case(), texts, 800, 10000, tmp=True), Sub('copies', copy_case(), copies, 200, 2000, tmp=True)]
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
