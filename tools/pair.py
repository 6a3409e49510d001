"""For demonstrations of planted bugs only: real clients and the real request handlers, each command in a process of its own."""
import os, sys, json, io, contextlib, traceback
KEY = 'bkUg07WLoxKcsWaupuVIyyMrVyWMdX8q8Zvta+wwKi6kmF7pCyklcIoNAOkfo1YR7O/Fb/Z0bJJ1j/lATtkKQ6c='
PUB = 'mF7pCyklcIoNAOkfo1YR7O/Fb/Z0bJJ1j/lATtkKQ6c='


class Pair:
    def __init__(self, d, clients=('A', 'B')):
        self.d = d; self.clock = 1600000000
        os.makedirs(d + 'server')
        for c in clients:
            os.makedirs(d + c + '/.bvn')
            with open(d + c + '/.bvn/client_configuration.json', 'w') as f: json.dump({'server_domain': 'none', 'user': 'test', 'repository': 'repo', 'private_key': KEY}, f)

    # ---- working copies
    def write(self, c, **_): raise TypeError
    def put(self, c, path, data):
        p = self.d + c + path; os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f: f.write(data)
        self.clock += 100; os.utime(p, (self.clock, self.clock))

    def remove(self, c, path): os.remove(self.d + c + path)

    def files(self, c):
        out = {}
        for r, ds, fs in os.walk(self.d + c):
            if '.bvn' in ds: ds.remove('.bvn')
            for f in fs:
                with open(os.path.join(r, f), 'rb') as x: out['/' + os.path.relpath(os.path.join(r, f), self.d + c)] = x.read()
        return out

    def head(self):
        try:
            with open(self.d + 'server/head') as f: return f.read()
        except FileNotFoundError: return 'root'

    def revision(self, c):
        import sqlite3
        con = sqlite3.connect(self.d + c + '/.bvn/manifest.db')
        try: return [r for r in con.execute('select have_revision from system_meta')][0][0]
        finally: con.close()

    # ---- commands
    def run(self, c, *argv, answers=(), cut=None, ip='10.0.0.1', before=None, prepare=None):
        """bvn <argv> in the working copy: (exit status, output).  cut=(op, n, 'request' or 'answer'): the connection is lost at the n-th request op.
        before=(op, n, f): f() runs before the server gets that request.  prepare(): runs in the process of the command"""
        out = self.d + 'out'
        pid = os.fork()
        if pid == 0:
            rc = 70
            try:
                fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC); os.dup2(fd, 1); os.dup2(fd, 2)
                rc = self.child(c, argv, list(answers), cut, ip, before, prepare)
            except BaseException: traceback.print_exc()
            finally: sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        with open(out) as f: return rc, f.read()

    def ok(self, c, *argv, **kw):
        rc, o = self.run(c, *argv, **kw)
        if rc != 0: raise SystemExit('bvn %s of %s: %d %s' % (' '.join(argv), c, rc, o))
        return o

    def child(self, c, argv, answers, cut, ip, before, prepare):
        from bversion import client, server
        from bversion.http.http_server import Request, ConnectionContext
        server.init_server({'repositories': {'repo': {'path': self.d + 'server', 'transient_db_path_override': None}}, 'users': {'test': {'public_key': PUB, 'uses_repositories': ['repo']}}})
        counts = {}

        class Reader:
            def __init__(self, data): self.r = io.BytesIO(data)
            def read(self, n=None): return self.r.read(n) or None
            def read_all(self): return self.r.read()

        class Connection:
            def __init__(self, *a): self.context = ConnectionContext()

            def send(self, url, headers, data):
                counts[url] = n = counts.get(url, 0) + 1
                when = cut[2] if cut and cut[0] == url and cut[1] == n else None
                if before and before[0] == url and before[1] == n: before[2]()
                if when == 'request': self.close(); raise Exception('Socket closed')
                h = {k: v.decode('utf8') if isinstance(v, bytes) else v for k, v in headers.items()}
                r = server.endpoint(Request(ip, 80, '/' + url, h, Reader(data)), self.context)
                if when == 'answer': self.close(); raise Exception('Socket closed')
                return r

            def close(self): self.context.shutdown_handler()

            def request(self, url, headers, data=None, gen=False):
                r = self.send(url, headers, json.dumps(data or {}).encode() if data is None or isinstance(data, dict) else data)
                b = r.body
                if not isinstance(b, bytes):
                    with open(b.path, 'rb') as f: b = f.read()
                if not gen: return b, dict(r.headers)

                def writer(path):
                    with open(path, 'wb') as f: f.write(b)
                return writer, dict(r.headers)

            def send_file(self, url, headers, path):
                with open(path, 'rb') as f: data = f.read()
                r = self.send(url, headers, data)
                return r.body, dict(r.headers)

        client.client_http_request = Connection
        os.chdir(self.d + c); sys.argv = ['bvn'] + list(argv)
        if prepare: prepare()
        import builtins
        builtins.input = lambda *a: answers.pop(0)
        try: client.run()
        except SystemExit as e:
            if e.code not in (None, 0): print(e.code); return 1
        except Exception: traceback.print_exc(); return 2
        finally:
            if client.server_connection is not None: client.server_connection.close()
        return 0
