"""HTTP and FTP servers on the loopback interface, one of each per process, that serve what a case asks for."""
import http.server
import os
import posixpath
import socket
import socketserver
import ssl
import threading

_servers = {}


class HTTP(http.server.BaseHTTPRequestHandler):
    disable_nagle_algorithm = True
    protocol_version = 'HTTP/1.1'

    def reply(self):
        s = self.server
        s.seen.append((self.command, self.path, dict(self.headers)))
        page = s.pages.get(self.path)
        if page is None:
            page = {'status': 404, 'body': b'<html>Not Found</html>'}
        body = page['body']
        self.send_response(page.get('status', 200))
        style = page.get('style', 'length')
        for k, v in page.get('headers', {}).items():
            self.send_header(k, v)
        if style == 'chunked':
            self.send_header('Transfer-Encoding', 'chunked')
            self.end_headers()
            for i in range(0, len(body), 7):
                b = body[i:i+7]
                self.wfile.write(b'%x\r\n%s\r\n' % (len(b), b))
            self.wfile.write(b'0\r\n\r\n')
            return
        self.close_connection = True
        if style == 'close':
            self.send_header('Connection', 'close')
            self.end_headers()
            self.wfile.write(body)
        elif style == 'cut':
            # the connection ends before the whole of the body
            self.send_header('Content-Length', str(len(body)))
            self.end_headers()
            self.wfile.write(body[:page['cut']])
        else:
            self.send_header('Content-Length', str(len(body)))
            self.end_headers()
            self.wfile.write(body)

    do_GET = do_POST = reply

    def log_message(self, *a):
        pass


class Threads(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True

    def handle_error(self, *a):
        pass


def web():
    """the web server of this process: set .pages, read .seen, use .url"""
    key = ('http', os.getpid())
    if key not in _servers:
        s = Threads(('127.0.0.1', 0), HTTP)
        s.url = f'http://127.0.0.1:{s.server_address[1]}'
        threading.Thread(target=s.serve_forever, daemon=True).start()
        _servers[key] = s
    s = _servers[key]
    s.pages, s.seen = {}, []
    return s


class FTP(socketserver.StreamRequestHandler):
    disable_nagle_algorithm = True

    def say(self, line):
        self.wfile.write((line + '\r\n').encode())

    def data(self, payload):
        c, _ = self.passive.accept()
        c.sendall(payload)
        c.close()
        self.passive.close()

    def handle(self):
        s = self.server
        self.passive = None
        self.say('220 ready')
        user = None
        while True:
            line = self.rfile.readline().decode().strip('\r\n')
            if not line:
                return
            cmd, _, arg = line.partition(' ')
            cmd = cmd.upper()
            s.seen.append((cmd, arg))
            if cmd == 'USER':
                user = arg
                self.say('331 password')
            elif cmd == 'PASS':
                self.say('230 in' if s.accounts is None or s.accounts.get(user) == arg else '530 refused')
            elif cmd in ('TYPE', 'NOOP', 'CWD'):
                self.say('200 ok')
            elif cmd in ('EPSV', 'PASV'):
                self.passive = socket.create_server(('127.0.0.1', 0))
                p = self.passive.getsockname()[1]
                self.say(f'229 entering (|||{p}|)' if cmd == 'EPSV' else f'227 entering (127,0,0,1,{p//256},{p%256})')
            elif cmd == 'NLST':
                d = arg.strip('/')
                names = [posixpath.join(arg, n) if s.full else n for n in s.order if n in s.files or n in s.folders] if d == s.root.strip('/') else None
                if names is None:
                    self.say('550 no such directory')
                else:
                    self.say('150 list')
                    self.data(''.join(n + '\r\n' for n in names).encode())
                    self.say('226 done')
            elif cmd in ('MDTM', 'RETR'):
                n = posixpath.basename(arg)
                ok = n in s.files and (posixpath.dirname(arg).strip('/') == s.root.strip('/') or not s.full)
                if not ok:
                    self.say('550 no such file')
                elif cmd == 'MDTM':
                    self.say('213 ' + s.files[n][1])
                else:
                    self.say('150 data')
                    b = s.files[n][0]
                    self.data(b if s.cut is None else b[:s.cut])
                    self.say('226 done' if s.cut is None else '426 connection lost')
            elif cmd == 'QUIT':
                self.say('221 bye')
                return
            else:
                self.say('502 not implemented')


class FThreads(socketserver.ThreadingTCPServer):
    daemon_threads = True
    allow_reuse_address = True

    def handle_error(self, *a):
        pass


def ftp():
    """the ftp server of this process: set .root, .files {name: (bytes, MDTM text)}, .folders, .order, .full, .cut, .accounts"""
    key = ('ftp', os.getpid())
    if key not in _servers:
        s = FThreads(('127.0.0.1', 0), FTP)
        s.port = s.server_address[1]
        threading.Thread(target=s.serve_forever, daemon=True).start()
        _servers[key] = s
    s = _servers[key]
    s.root, s.files, s.folders, s.order, s.full, s.cut, s.accounts, s.seen = '', {}, [], [], True, None, None, []
    return s


CERT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'loopback.pem')


class Site(HTTP):
    """as HTTP, but the pages are keyed by host and path"""
    def reply(self):
        s = self.server
        key = self.headers.get('Host', '').split(':')[0] + self.path
        s.seen.append((self.command, key, dict(self.headers)))
        body = s.pages.get(key)
        self.send_response(404 if body is None else 200)
        self.close_connection = True
        self.send_header('Content-Length', str(len(body or b'')))
        self.send_header('Connection', 'close')
        self.end_headers()
        self.wfile.write(body or b'')

    do_GET = do_POST = do_HEAD = reply


class Tree(FTP):
    """an FTP server of whole paths: .files {path: (bytes, MDTM text)}"""
    def handle(self):
        s = self.server
        self.passive, user, inside = None, None, False
        self.say('220 ready')
        while True:
            line = self.rfile.readline().decode().strip('\r\n')
            if not line:
                return
            cmd, _, arg = line.partition(' ')
            cmd = cmd.upper()
            s.seen.append((cmd, arg))
            path = arg.strip('/')
            if cmd == 'USER':
                user = arg
                self.say('331 password')
            elif cmd == 'PASS':
                inside = s.accounts.get(user) == arg
                self.say('230 in' if inside else '530 refused')
            elif cmd == 'QUIT':
                self.say('221 bye')
                return
            elif not inside:
                self.say('530 log in first')
            elif cmd in ('TYPE', 'NOOP'):
                self.say('200 ok')
            elif cmd in ('EPSV', 'PASV'):
                self.passive = socket.create_server(('127.0.0.1', 0))
                p = self.passive.getsockname()[1]
                self.say(f'229 entering (|||{p}|)' if cmd == 'EPSV' else f'227 entering (127,0,0,1,{p//256},{p%256})')
            elif cmd == 'NLST':
                names = [f for f in s.files if posixpath.dirname(f) == path]
                if not names:
                    self.say('550 no such directory')
                else:
                    self.say('150 list')
                    self.data(''.join(('/' if arg.startswith('/') else '') + n + '\r\n' for n in names).encode())
                    self.say('226 done')
            elif cmd in ('MDTM', 'RETR', 'SIZE'):
                if path not in s.files:
                    self.say('550 no such file')
                elif cmd == 'MDTM':
                    self.say('213 ' + s.files[path][1])
                elif cmd == 'SIZE':
                    self.say(f'213 {len(s.files[path][0])}')
                else:
                    self.say('150 data')
                    self.data(s.files[path][0])
                    self.say('226 done')
            else:
                self.say('502 not implemented')


def site():
    """the https server of this process: set .pages {host/path: bytes}, read .seen, reach it at .port"""
    key = ('https', os.getpid())
    if key not in _servers:
        s = Threads(('127.0.0.1', 0), Site)
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        c.load_cert_chain(CERT)
        s.socket = c.wrap_socket(s.socket, server_side=True)
        s.port = s.server_address[1]
        threading.Thread(target=s.serve_forever, daemon=True).start()
        _servers[key] = s
    s = _servers[key]
    s.pages, s.seen = {}, []
    return s


def tree():
    """the ftp server of whole paths of this process: set .files and .accounts, reach it at .port"""
    key = ('tree', os.getpid())
    if key not in _servers:
        s = FThreads(('127.0.0.1', 0), Tree)
        s.port = s.server_address[1]
        threading.Thread(target=s.serve_forever, daemon=True).start()
        _servers[key] = s
    s = _servers[key]
    s.files, s.accounts, s.seen = {}, {}, []
    return s


class names:
    """within this context the names of the outside world lead to the stand-ins: {(host, port): port on the loopback}"""
    def __init__(self, table):
        self.table = table

    def __enter__(self):
        self.old = socket.getaddrinfo
        def lookup(host, port, *a, **k):
            h = host.decode() if isinstance(host, bytes) else host
            if h in ('127.0.0.1', 'localhost', '::1', None, ''):
                return self.old(host, port, *a, **k)
            p = self.table.get((h, int(port or 0)))
            if p is None:
                raise socket.gaierror(socket.EAI_NONAME, f'no such host {h}:{port}')
            return self.old('127.0.0.1', p, socket.AF_INET, socket.SOCK_STREAM)
        socket.getaddrinfo = lookup

    def __exit__(self, *a):
        socket.getaddrinfo = self.old
