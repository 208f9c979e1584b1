"""C35: logins to the Earthdata servers use the stated credentials, in the stated order, and reach only the servers they are for."""
import _boot
from harness import *
from gen import *
import base64, builtins, getpass, http.server, json, os, pathlib, socketserver, threading, urllib.error, urllib.parse, urllib.request
import pyTMD.utilities as U

PROPERTY = 'C35'
RULE = ('logins with credentials from a netrc file, the arguments, the environment or the prompts, against servers on the loopback interface that accept one pair of credentials '
        '(by a challenge or by the header, or after redirects between two servers with a session cookie); non-trivial when credentials reach a server or are refused by it.')
ASSUMPTIONS = ['the servers of NASA are replaced by servers on the loopback interface, and the question of the archive (`check_credentials`) is asked of these', 'user names hold no colon', 'values within netrc files are quoted']


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.0'

    def pair(self):
        h = self.headers.get('Authorization')
        if h is None or not h.startswith('Basic '):
            return None
        return base64.b64decode(h[6:]).decode().split(':', 1)

    def answer(self, code, body=b'', **headers):
        self.send_response(code)
        for k, v in headers.items():
            self.send_header(k.replace('_', '-'), v)
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def reply(self):
        s, c = self.server, self.server.case
        pair = self.pair()
        s.seen.append([self.command, self.path, pair])
        url = urllib.parse.urlparse(self.path)
        ok = pair == c['accept']
        refuse = {'WWW_Authenticate': 'Basic realm="login"'} if c['challenge'] else {}
        if url.path.startswith('/oauth/'):
            # login server: back to the archive with a code
            return self.answer(302, Location=f'{s.peer}/code{url.path[6:]}') if ok else self.answer(401, b'no', **refuse)
        if url.path.startswith('/code/'):
            return self.answer(302, Location=url.path[5:], Set_Cookie='session=open; Path=/')
        if url.path.startswith('/session/') and 'session=open' not in (self.headers.get('Cookie') or ''):
            return self.answer(302, Location=f'{s.peer}/oauth{url.path}')
        if url.path.startswith('/open/') or url.path.startswith('/session/') or ok:
            if url.path in c.get('status', {}):
                return self.answer(c['status'][url.path], b'status')
            return self.answer(200, c.get('body', b'welcome'))
        return self.answer(401, b'no', **refuse)

    do_GET = do_POST = reply

    def log_message(self, *a):
        pass


class Threads(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True

    def handle_error(self, *a):
        pass


_servers = {}


def servers(case):
    """the archive and the login server of this process"""
    if os.getpid() not in _servers:
        two = []
        for i in range(2):
            s = Threads(('127.0.0.1', 0), Handler)
            s.host = f'127.0.0.1:{s.server_address[1]}'
            s.url = f'http://{s.host}'
            threading.Thread(target=s.serve_forever, daemon=True).start()
            two.append(s)
        two[0].peer, two[1].peer = two[1].url, two[0].url
        _servers[os.getpid()] = two
    for s in _servers[os.getpid()]:
        s.case, s.seen = case, []
    return _servers[os.getpid()]


class World:
    """the home directory, environment, prompts and the question of the archive are those of the case"""
    def __init__(self, ctx, env=None, prompts=(), question=None):
        self.home, self.env, self.prompts, self.question = str(ctx.tmp), env or {}, list(prompts), question
        self.asked = []

    def ask(self, kind):
        def f(prompt='', *a, **k):
            if k.get('prompt'):
                prompt = k['prompt']
            self.asked.append((kind, prompt))
            if not self.prompts:
                raise EOFError('no further answers')
            i = next((i for i, p in enumerate(self.prompts) if p[0] == kind), None)
            if i is None:
                raise EOFError('no further answers')
            return self.prompts.pop(i)[1]
        return f

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in ('HOME', 'EARTHDATA_USERNAME', 'EARTHDATA_PASSWORD')}
        for k in self.old:
            os.environ.pop(k, None)
        os.environ['HOME'] = self.home
        os.environ.update(self.env)
        self.fn = (builtins.input, getpass.getpass, U.check_credentials)
        builtins.input, getpass.getpass = self.ask('user'), self.ask('pass')
        if self.question is not None:
            U.check_credentials = self.question
        urllib.request.install_opener(None)
        return self

    def __exit__(self, *a):
        builtins.input, getpass.getpass, U.check_credentials = self.fn
        urllib.request.install_opener(None)
        for k, v in self.old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


CH = [chr(i) for i in range(33, 127) if chr(i) not in ':']
USER = st.one_of(st.sampled_from(['user', 'first.last', 'a']), st.text(st.sampled_from(CH + ['é', 'ß', '水']), min_size=1, max_size=12))
PASS = st.one_of(st.sampled_from(['secret', 'a:b', ':', 'p@ss/w?rd#1']), st.text(st.sampled_from(CH + [':', ':', ' ', 'é', '漢', '%']), min_size=1, max_size=16))
PAIR = st.tuples(USER, PASS).map(list)


def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def write_netrc(path, entries, mode=0o600):
    path = pathlib.Path(path)
    path.write_text(''.join(f'machine {m} login {quote(u)} password {quote(p)}\n' if m != 'default' else f'default login {quote(u)} password {quote(p)}\n' for m, u, p in entries), encoding='utf8')
    path.chmod(mode)


# ---- login ----------------------------------------------------------------------------------------
@st.composite
def login_case(draw):
    pairs = draw(lists(PAIR, 5, 5))
    return dict(pairs=pairs, netrc=draw(st.sampled_from(['none', 'none', 'entry', 'entry', 'other', 'bad', 'default'])), args=draw(st.sampled_from(['none', 'both', 'both', 'user', 'pass'])),
                env=draw(st.sampled_from(['none', 'both', 'both', 'user'])), where=draw(st.sampled_from(['home', 'file'])), retries=draw(st.sampled_from([None, 1, 2, 3])), good=draw(st.sampled_from([0, 0, 0, 1, 2, 9])),
                how=draw(st.sampled_from(['manager', 'manager', 'header', 'both'])), redirect=draw(st.booleans()), certs=draw(st.booleans()), mode=draw(st.sampled_from([0o600, 0o644, 0o400])))


def login(case, ctx):
    netrc_pair, arg_pair, env_pair, p1, p2 = case['pairs']
    answers = [('user', p1[0]), ('pass', p1[1])]
    prompts = [p1, p2, [p1[0] + 'x', p2[1]], [p2[0] + 'y', p1[1]], ['z', 'z'], ['zz', 'zz']]
    A, B = servers(dict(accept=None, challenge=case['how'] != 'header', body=b'granted'))
    # the pairs of credentials that the login tries, in order
    if case['netrc'] in ('entry', 'default'):
        first, used = list(netrc_pair), 0
        ctx.label('netrc')
    else:
        env_user = env_pair[0] if case['env'] != 'none' else None
        env_pass = env_pair[1] if case['env'] == 'both' else None
        u = arg_pair[0] if case['args'] in ('both', 'user') else env_user
        p = arg_pair[1] if case['args'] in ('both', 'pass') else env_pass
        first = [u, p]
    users, passes = [x[0] for x in prompts], [x[1] for x in prompts]
    script = [('user', x) for x in users], [('pass', x) for x in passes]
    it = iter(users), iter(passes)
    first = [first[0] or next(it[0]), first[1] or next(it[1])]
    n = 5 if case['retries'] is None else case['retries']
    tries = [first] + [[next(it[0]), next(it[1])] for _ in range(n - 1)]
    good = case['good']
    accept = tries[good] if good < n else ['nobody', 'nothing']
    if good >= n and accept in tries:
        ctx.skip()
    good = tries.index(accept) if accept in tries else None
    A.case['accept'] = accept
    kw = dict(password_manager=case['how'] != 'header', authorization_header=case['how'] != 'manager', redirect=case['redirect'], get_ca_certs=case['certs'])
    if case['args'] in ('both', 'user'):
        kw['username'] = arg_pair[0]
    if case['args'] in ('both', 'pass'):
        kw['password'] = arg_pair[1]
    if case['retries'] is not None:
        kw['retries'] = case['retries']
    env = {}
    if case['env'] != 'none':
        env['EARTHDATA_USERNAME'] = env_pair[0]
    if case['env'] == 'both':
        env['EARTHDATA_PASSWORD'] = env_pair[1]
    path = pathlib.Path(ctx.tmp, '.netrc' if case['where'] == 'home' else 'credentials')
    if case['where'] == 'file':
        kw['netrc'] = str(path) if case['certs'] else path
        # the file of the home directory is not that of the call
        write_netrc(pathlib.Path(ctx.tmp, '.netrc'), [(A.host, 'wrong', 'wrong')])
    entries = {'entry': [('some.host', 'other', 'other'), (A.host, *netrc_pair)], 'default': [('some.host', 'other', 'other'), ('default', *netrc_pair)], 'other': [('some.host', 'other', 'other')]}.get(case['netrc'])
    if entries:
        write_netrc(path, entries, case['mode'])
    elif case['netrc'] == 'bad':
        path.write_text('machine\nlogin "')

    def question():
        try:
            return urllib.request.urlopen(f'{A.url}/archive', timeout=20).read()
        except urllib.error.URLError as exc:
            raise RuntimeError(str(exc)) from exc

    with World(ctx, env, script[0] + script[1], question) as w:
        try:
            got = U.attempt_login(A.host, **kw)
        except RuntimeError:
            got = None
        tried = []
        for c, p, pair in A.seen:
            if pair is not None and (not tried or tried[-1] != pair):
                tried.append(pair)
        want = []
        for t in tries[:n if good is None else good + 1]:
            if not want or want[-1] != t:
                want.append(t)
        ctx.check(tried == want, f'the credentials that reached the server were {tried}, not {want}')
        ctx.nt()
        ctx.label(case['how'])
        if good is None:
            ctx.label('refused')
            ctx.check(got is None, 'a login that was refused succeeds')
            return
        ctx.check(got is not None, 'a login with accepted credentials does not succeed')
        ctx.check(all(len([a for a in w.asked if a[0] == k]) == len([x for x in it_used]) for k, it_used in (('user', [t for i, t in enumerate(tries[:good+1]) if i > 0 or first_prompted(case, 'user')]), ('pass', [t for i, t in enumerate(tries[:good+1]) if i > 0 or first_prompted(case, 'pass')]))),
                  f'the questions asked were {w.asked}')
        # requests that follow are those of the session
        A.seen.clear()
        ctx.check(urllib.request.urlopen(f'{A.url}/data/file', timeout=20).read() == b'granted', 'requests after the login are not granted')
        ctx.check(got.open(f'{A.url}/data/file', timeout=20).read() == b'granted', 'requests with the returned opener are not granted')
        if case['how'] == 'manager':
            # credentials are those of one host
            try:
                urllib.request.urlopen(f'{B.url}/data/file', timeout=20).read()
                ctx.fail('the other server grants the request')
            except urllib.error.HTTPError as exc:
                ctx.check(exc.code == 401, f'status {exc.code}')
            ctx.check(all(pair is None for _, _, pair in B.seen), f'the credentials reached another server: {B.seen}')
        if case['netrc'] in ('entry', 'default', 'other'):
            ctx.check((path.stat().st_mode & 0o777) == 0o600, f'the netrc file has the mode {path.stat().st_mode:o}')


def first_prompted(case, kind):
    if case['netrc'] in ('entry', 'default'):
        return False
    if kind == 'user':
        return case['args'] not in ('both', 'user') and case['env'] == 'none'
    return case['args'] not in ('both', 'pass') and case['env'] != 'both'


# ---- tokens ---------------------------------------------------------------------------------------
TOKEN = st.text(st.sampled_from(list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.')), min_size=1, max_size=60)
JSON = st.dictionaries(st.sampled_from(['access_token', 'token_type', 'expiration_date', 'n']), st.one_of(st.text(max_size=12), st.integers(-5, 5), st.none()), max_size=4)


@st.composite
def token_case(draw):
    return dict(what=draw(st.sampled_from(['get', 'list', 'revoke'])), pair=draw(PAIR), source=draw(st.sampled_from(['args', 'args', 'netrc', 'session'])), token=draw(TOKEN), reply=draw(st.one_of(JSON, lists(JSON, 0, 3))),
                status=draw(st.sampled_from([200, 200, 200, 403, 500])), challenge=draw(st.booleans()))


def tokens(case, ctx):
    what = case['what']
    body = json.dumps(case['reply']).encode()
    c = dict(accept=case['pair'], challenge=case['challenge'], body=body)
    A, B = servers(c)
    page = '/api/users/' + {'get': 'token', 'list': 'tokens', 'revoke': 'revoke_token'}[what]
    if case['status'] != 200:
        c['status'] = {page: case['status']}
    kw = dict(HOST=A.url + page)

    def question():
        try:
            return urllib.request.urlopen(f'{A.url}/archive', timeout=20).read()
        except urllib.error.URLError as exc:
            raise RuntimeError(str(exc)) from exc

    fn = {'get': U.get_token, 'list': U.list_tokens, 'revoke': lambda **k: U.revoke_token(case['token'], **k)}[what]
    with World(ctx, {}, [], question):
        if case['source'] == 'args':
            kw.update(username=case['pair'][0], password=case['pair'][1], urs=A.host)
        elif case['source'] == 'netrc':
            write_netrc(pathlib.Path(ctx.tmp, '.netrc'), [(A.host, *case['pair'])])
            kw.update(urs=A.host)
        else:
            U.build_opener(*case['pair'], password_manager=False, get_ca_certs=False, authorization_header=True, urs=A.host)
            kw['build'] = False
        try:
            got, err = fn(**kw), None
        except RuntimeError as exc:
            got, err = None, exc
        ctx.nt()
        ctx.label(what); ctx.label(case['source'])
        asked = [s for s in A.seen if s[1].startswith('/api')]
        want = [['GET' if what == 'list' else 'POST', page + (f"?token={case['token']}" if what == 'revoke' else ''), case['pair']]]
        ctx.check(asked == want, f'requests {asked}, not {want}')
        ctx.check(not B.seen, 'another server was asked')
        if case['status'] != 200:
            ctx.check(err is not None, f'status {case["status"]} raises nothing')
        else:
            ctx.check(err is None, f'error {err!r}')
            if what != 'revoke':
                ctx.check(got == case['reply'], f'{got!r} is returned, not {case["reply"]!r}')


# ---- archive --------------------------------------------------------------------------------------
@st.composite
def archive_case(draw):
    return dict(what=draw(st.sampled_from(['list', 'get', 'get'])), pair=draw(PAIR), source=draw(st.sampled_from(['args', 'netrc'])), route=draw(st.sampled_from(['direct', 'session', 'session'])), body=draw(st.binary(max_size=60)).hex(),
                good=draw(st.sampled_from([True, True, True, False])), names=draw(lists(st.text(st.sampled_from(list('abcXYZ019._-')), min_size=1, max_size=8), 0, 4)), challenge=draw(st.booleans()))


def archive(case, ctx):
    names = case['names']
    if case['what'] == 'list':
        body = '<html><body>' + ''.join(f'<div class="archiveItem"><div><a href="{n}">{n}</a><span>2024:01:{i+1:02d} 00:00:00 1KB</span></div></div>' for i, n in enumerate(names)) + '</body></html>'
        body = body.encode()
    else:
        body = bytes.fromhex(case['body'])
    accept = case['pair'] if case['good'] else [case['pair'][0] + 'x', case['pair'][1]]
    c = dict(accept=accept, challenge=case['challenge'], body=body)
    A, B = servers(c)
    kw = {}
    asked = []
    with World(ctx, {}, [], lambda: asked.append(1) or True):
        if case['source'] == 'args':
            kw.update(username=case['pair'][0], password=case['pair'][1])
        else:
            write_netrc(pathlib.Path(ctx.tmp, '.netrc'), [('urs.earthdata.nasa.gov', *case['pair'])])
        url = A.url + ('/session/' if case['route'] == 'session' else '/data/') + 'file'
        local = pathlib.Path(ctx.tmp, 'x', 'y', 'file')
        ctx.nt()
        ctx.label(case['what']); ctx.label(case['route'])
        try:
            if case['what'] == 'list':
                got = U.cddis_list(url, timeout=20, **kw)
            else:
                got = U.from_cddis(url, timeout=20, local=local, **kw)
        except Exception as exc:
            if case['good']:
                ctx.fail(f'a request with accepted credentials fails: {exc!r}')
            ctx.check(not local.exists(), 'a refused download writes a file')
            return
        ctx.check(case['good'], 'a request with refused credentials succeeds')
        ctx.check(len(asked) == 1, 'the credentials were not checked')
        ctx.check(all(p in (None, case['pair']) for _, _, p in A.seen + B.seen), f'other credentials reached the servers: {A.seen + B.seen}')
        if case['what'] == 'list':
            ctx.check(got[0] == names and len(got[1]) == len(names), f'{got} is listed, not {names}')
        else:
            ctx.check(got.getvalue() == body and local.read_bytes() == body, 'the bytes are not those of the server')
            ctx.check(got.filename == 'file', got.filename)


# ---- the question of the archive ------------------------------------------------------------------
@st.composite
def question_case(draw):
    return dict(what=draw(st.sampled_from(['ok', 'ok', 'status', 'status', 'lost'])), code=draw(st.sampled_from([401, 403, 404, 429, 500, 503])))


def question(case, ctx):
    urls = []

    class Https(urllib.request.HTTPSHandler):
        def https_open(self, req):
            urls.append(req.full_url)
            if case['what'] == 'lost':
                raise urllib.error.URLError('unreachable')
            import email.message, io as _io
            r = urllib.response.addinfourl(_io.BytesIO(b''), email.message.Message(), req.full_url, 200 if case['what'] == 'ok' else case['code'])
            r.msg = 'status'
            return r

    with World(ctx):
        urllib.request.install_opener(urllib.request.build_opener(Https()))
        try:
            got, err = U.check_credentials(), None
        except RuntimeError as exc:
            got, err = None, exc
    ctx.nt()
    ctx.check(urls and urllib.parse.urlparse(urls[0]).hostname == 'cddis.nasa.gov', f'{urls} were asked')
    if case['what'] == 'ok':
        ctx.check(got is True and err is None, f'{got} {err!r}')
    else:
        ctx.check(err is not None, 'refused credentials are reported as valid')


SUBS = [Sub('login', login_case(), login, 250, 4000, tmp=True), Sub('tokens', token_case(), tokens, 200, 3000, tmp=True), Sub('archive', archive_case(), archive, 200, 3000, tmp=True),
        Sub('question', question_case(), question, 30, 100, tmp=True)]
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
