"""C22: messages are transferred whole and a closed connection is always noticed."""
import json
import urllib.parse
from ..world import *
from ..generic import obj, mkdict
from .. import model
from ..server_env import connection_entry, setup_alias

RULES = {
    'body': 'a message body ends exactly at its declared length, however the message is cut up on the network and whatever else arrives',
    'sent': 'every byte of a message reaches the network, even if it accepts only part at a time, and the declared length is the length of what is sent',
    'download': 'a downloaded file has exactly the bytes of the body',
    'closed': 'when the peer closes the connection, at any point of a message, or the network fails, reading stops with an error',
    'released': 'whatever ends a connection, the server calls the shutdown handler of the connection and closes the socket',
    'reader': 'the body reader hands out every byte of the body once and in order, for every length asked for, and nothing after it',
}
HTTP = 'bversion/http/'
FILE = mkpath([const('/f/served')]); DOWN = mkpath([const('/f/download')]); SRC = mkpath([const('/f/source')])
LIMIT = 400


class Wire(World):
    """one connection: `script`: pieces the peer sends, then `ending`: 'closed' (end of file), 'open' (silence), 'error'; `accept`: how many bytes a send takes at most (None: all);
    `failsend`: number of the transmission that fails.  autos: 'inp' (pieces not yet received), 'out' (bytes transmitted), 'sends', 'eof' (how often the end was read), 'closed', 'released'"""
    script = (); ending = 'open'; accept = None; failsend = None; label = ''; blocked = None; pos = None; handler = None; mtimeless = True; cap = 4 * 10 ** 6

    def intrinsics(self):
        r = super().intrinsics()
        r.update({'socket.socket': lambda e, st, a, k, node: [(st, mk('sock', 0))], 'ssl.wrap_socket': lambda e, st, a, k, node: [(st, a[0])], 'os.stat': self.i_osstat, 'os.path.getsize': self.i_size, 'io.BytesIO': self.i_bytesio,
                  'os.fstat': self.i_osstat, 'released': self.i_released, 'handler': lambda e, st, a, k, node: self.handler(e, st, a, node), 'json.dumps': self.i_dumps, 'json.loads': self.i_loads,
                  'ssl.create_default_context': lambda e, st, a, k, node: [(st, mk('sslctx', 0))], 'ssl.SSLContext': lambda e, st, a, k, node: [(st, mk('sslctx', 0))],
                  'urllib.parse.urlparse': self.i_url, 'urllib.parse.urlsplit': self.i_url,
                  'traceback.print_exc': lambda e, st, a, k, node: [(st, NONE)]})
        return r

    def begin(self, base, fs=()):
        st = World.start(base, list(fs), ())
        self.seen = set(); self.snaps = []
        return st.setauto(inp=tuple(self.script), out=b'', sends=0, eof=0, closed=False, released=0, got=(), mem=frozenset(), short=0)

    # ---- library
    def i_dumps(self, e, st, args, kw, node):
        v = e.py(args[0], st)
        k = {n: e.py(x, st) for n, x in kw.items() if n is not None}
        return [(st, const(json.dumps(v, **k)))]

    def i_url(self, e, st, args, kw, node):
        u = urllib.parse.urlparse(e.py(args[0], st)); self.n += 1
        return [obj(st, 'url%d' % self.n, H(INST, [(const(k), const(getattr(u, k))) for k in ('scheme', 'netloc', 'hostname', 'port', 'path', 'params', 'query', 'fragment', 'username', 'password')]))]

    def i_loads(self, e, st, args, kw, node): return [(st, mk('call', 'json.loads', (args[0],), ()))]

    def i_released(self, e, st, args, kw, node): return [(st.setauto(released=st.auto['released'] + 1), NONE)]

    def content(self, e, st, a):
        o = [x for x in st.auto['op'] if x[0] is a]
        if o: return self.fs(st).get(o[0][1])
        return self.fs(st).get(mkpath([a]))

    def i_size(self, e, st, args, kw, node):
        c = self.content(e, st, args[0])
        return self.missing(e, st) if c is None else [(st, const(len(cval(c))))]

    def i_osstat(self, e, st, args, kw, node):
        c = self.content(e, st, args[0])
        if c is None: return self.missing(e, st)
        self.n += 1
        return [obj(st, 'stat%d' % self.n, H(INST, [(const('st_size'), const(len(cval(c)))), (const('st_mtime'), const(1.0))]))]

    def i_bytesio(self, e, st, args, kw, node):
        self.n += 1; h = mk('memfile', self.n)
        return [(st.setauto(mem=st.auto['mem'] | {(h, cval(args[0]) if args else b'', 0)}), h)]

    # ---- files and the socket
    def event(self, ev, st):
        r = ev.recv
        if ev.kind == 'meth' and r is not None:
            if r.op == 'sock': return self.sock(ev, st)
            if r.op == 'memfile': return self.memfile(ev, st)
            if r.op == 'sslctx' and ev.name == 'wrap_socket': return [(st, mk('sock', 0))]
        if ev.kind == 'exit' and r is not None and r.op == 'sock': return st.setauto(closed=True)
        return super().event(ev, st)

    def number(self, ev, name='size'):
        n = ev.args[0] if ev.args else ev.kw.get(name, NONE)
        n = cval(n) if is_const(n) else None
        return n if isinstance(n, int) and n >= 0 else None

    def memfile(self, ev, st):
        m = [x for x in st.auto['mem'] if x[0] is ev.recv]
        if not m: return st
        if ev.name in ('read', 'read1'):
            n = self.number(ev); p = m[0][2]; d = m[0][1][p:] if n is None else m[0][1][p:p + n]
            return [(st.setauto(mem=st.auto['mem'] - {m[0]} | {(ev.recv, m[0][1], p + len(d))}), const(d))]
        if ev.name == 'seek' and ev.args and is_const(ev.args[0]) and type(cval(ev.args[0])) is int:
            w = cval(ev.args[1]) if len(ev.args) > 1 and is_const(ev.args[1]) else 0; p = max(0, cval(ev.args[0]) + (len(m[0][1]) if w == 2 else m[0][2] if w == 1 else 0))
            return [(st.setauto(mem=st.auto['mem'] - {m[0]} | {(ev.recv, m[0][1], p)}), const(p))]
        if ev.name == 'tell': return [(st, const(m[0][2]))]
        if ev.name in ('getvalue', 'getbuffer'): return [(st, const(m[0][1]))]
        return st

    def handle(self, ev, st):
        o = [x for x in st.auto['op'] if x[0] is ev.recv]
        if o and ev.name in ('read', 'read1') and o[0][3] == 'r':
            n = self.number(ev); c = cval(o[0][2]); d = c if n is None else c[:n]
            return [(st.setauto(op=st.auto['op'] - {o[0]} | {(ev.recv, o[0][1], const(c[len(d):]), 'r')}), const(d))]
        if o and ev.name == 'write' and o[0][3] == 'w':
            a = ev.args[0]
            if not is_const(a) or not isinstance(cval(a), bytes) or not isinstance(cval(o[0][2]), bytes): return st
            c = cval(o[0][2]) + cval(a); fs = self.fs(st); fs[o[0][1]] = const(c)
            return [(st.setauto(op=st.auto['op'] - {o[0]} | {(ev.recv, o[0][1], const(c), 'w')}, fs=frozenset(fs.items())), const(len(cval(a))))]
        return super().handle(ev, st)

    def close(self, ev, st): return st.setauto(op=frozenset(x for x in st.auto['op'] if x[0] is not ev.recv))

    def transmit(self, ev, st, data, part):
        """a transmission of data: the result of send/sendall"""
        n = st.auto['sends'] + 1
        if st.auto['closed']: ev.eng.raise_(st, mk('exc', 'OSError', const('bad file descriptor'))); return []
        if self.failsend is not None and n >= self.failsend: ev.eng.raise_(st.setauto(sends=n), mk('exc', 'BrokenPipeError', const('injected'))); return []
        k = len(data)
        if part and self.accept is not None: k = min(k, self.accept)
        if part and k < len(data): st = st.setauto(short=st.auto['short'] + 1)
        if len(st.auto['out']) > self.cap: self.blocked.append(('floods', st, ev)); return []
        return [(st.setauto(sends=n, out=st.auto['out'] + data[:k]), const(k) if part else NONE)]

    def sock(self, ev, st):
        e = ev.eng; n = ev.name
        if n in ('recv', 'recv_into', 'read'):
            if st.auto['closed']: e.raise_(st, mk('exc', 'OSError', const('bad file descriptor'))); return []
            want = self.number(ev, 'bufsize'); inp = st.auto['inp']
            flags = ev.args[1] if len(ev.args) > 1 else NONE
            if n == 'recv_into' or want is None: return st
            if inp:
                d = inp[0][:want]; rest = inp[0][len(d):]
                if flags is NONE or is_const(flags): st = st.setauto(inp=((rest,) if rest else ()) + inp[1:])
                return [(st, const(d))]
            if self.ending == 'closed':
                k = st.auto['eof'] + 1
                if k > 40: self.blocked.append(('forever', st, ev)); return []
                return [(st.setauto(eof=k), const(b''))]
            if self.ending == 'error': e.raise_(st, mk('exc', 'ConnectionResetError', const('injected'))); return []
            self.blocked.append(('waits', st, ev)); return []
        if n in ('sendall', 'send', 'write'):
            a = ev.args[0]
            try: d = e.py(a, st)
            except Exception: d = None
            if not isinstance(d, (bytes, bytearray, memoryview)): raise AnalysisBroken('what is sent at %s is not understood: %s' % (ev.loc, show(a)[:380]))
            return self.transmit(ev, st, bytes(d), n == 'send')
        if n == 'sendfile':
            c = self.content(e, st, ev.args[0]); o = [x for x in st.auto['op'] if x[0] is ev.args[0]]
            off = ev.args[1] if len(ev.args) > 1 else ev.kw.get('offset', const(0)); cnt = ev.args[2] if len(ev.args) > 2 else ev.kw.get('count', NONE)
            if c is None or not is_const(off) or not is_const(cnt): raise AnalysisBroken('socket.sendfile at %s is not understood' % ev.loc)
            d = cval(c)[cval(off) or 0:]; d = d if cval(cnt) is None else d[:cval(cnt)]
            r = self.transmit(ev, st, d, False)
            return [(s, const(len(d))) for s, _ in r]
        if n in ('close', 'detach'): return [(st.setauto(closed=True), NONE)]
        if n == 'accept': return [(st, tup(ev.recv, tup(const('1.2.3.4'), const(99))))]
        if n in ('__enter__',): return [(st, ev.recv)]
        return [(st, NONE)]


# ------------------------------------------------------------------------------------------------------------------------- messages
def cuts(msg, at=(), tier='quick'):
    """ways a message can be cut up on the network"""
    n = len(msg); out = [[msg]]
    if n <= 400: out.append([msg[i:i + 1] for i in range(n)] if n <= 60 else [msg[i:i + 7] for i in range(0, n, 7)])
    pos = sorted({p + d for p in at for d in (-3, -2, -1, 0, 1, 2) if 0 < p + d < n} | ({1, n - 1} if n > 1 else set()))
    for p in pos: out.append([msg[:p], msg[p:]])
    for i, p in enumerate(pos):
        for q in pos[i + 1:]:
            if tier == 'thorough' or q - p in (1, 3, 4): out.append([msg[:p], msg[p:q], msg[q:]])
    return out


def parse_message(data):
    """bytes of one or more messages -> [(first line, {header: value}, body)], or None if the declared lengths do not fit"""
    out = []
    while data:
        head, sep, rest = data.partition(b'\r\n\r\n')
        if not sep: return None
        lines = head.split(b'\r\n'); h = {}
        for l in lines[1:]:
            k, s, v = l.partition(b':')
            if not s: return None
            h[k.strip().lower().decode()] = v.strip().decode()
        try: n = int(h['content-length'])
        except (KeyError, ValueError): return None
        if len(rest) < n: return None
        out.append((lines[0], h, rest[:n])); data = rest[n:]
    return out


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = Wire(rep); mon.blocked = []
    eng = make_engine(mon, dict(mon.intrinsics())); eng.unroll = LIMIT; eng.reclimit = LIMIT
    st0 = eng.initial.clone(); st0.facts = {}; st0.eqs = {}; st0.auto = {}; eng.base = st0
    total = [0]

    def go(label, f, args, kw, st, script=(), ending='open', accept=None, failsend=None):
        total[0] += 1
        mon.label = label; mon.script = script; mon.ending = ending; mon.accept = accept; mon.failsend = failsend; mon.blocked = []
        st = mon.begin(st, st.auto.get('files', ())).setauto(got=())
        return eng.run(f, args, kw, st, label)

    return run_all(rep, tier, mon, eng, go, total)


class Part:
    """takes some rules of another check's analysis over into this one"""
    def __init__(self, rep, rules): self.rep, self.rules = rep, rules; self.tier = getattr(rep, 'tier', 'quick'); self.info = {}
    def rule(self, *a): pass
    def ob(self, r, *a, **k):
        if r in self.rules: self.rep.ob(self.rules[r], *a, **k)
    def violate(self, r, *a, **k):
        if r in self.rules: self.rep.violate(self.rules[r], *a, **k)
    def need(self, *a, **k): pass


def run_all(rep, tier, mon, eng, go, total):
    from . import c03
    c03.check(Part(rep, {'release': 'released', 'no-leak': 'released'}), 'quick')
    reader(rep, tier, mon, eng, go)
    client(rep, tier, mon, eng, go)
    server(rep, tier, mon, eng, go)
    rep.info['scenarios'] = total[0]
    return [eng]


def val(t): return cval(t) if is_const(t) else t


def reader(rep, tier, mon, eng, go):
    """read_body: all small bodies, parts already received, cuts and lengths asked for"""
    cls = eng.lookup_public('bversion.http.http_common:read_body'); AT = (HTTP + 'http_common.py', 'read_body')
    sock = mk('sock', 0); n = 0
    def make(st, length, part):
        recv = eng.attr_of(st, sock, 'recv', None)[0][1]
        return eng.run(cls, [recv, const(length), const(part)], {}, st, 'read_body')[0]
    for length in range(0, 5 if tier != 'thorough' else 7):
        body = bytes(range(65, 65 + length)); extra = b'xyz'
        for have in range(0, length + 3):
            part = (body + extra)[:have]
            rest = (body + extra)[have:] if have < length else b''
            for piece in (1, 2, 5) if rest else (1,):
                pieces = tuple(rest[i:i + piece] for i in range(0, len(rest), piece))
                for asks in ([1] * 9, [2] * 9, [3, 1, 2, 3, 1, 2, 3], [100] * 9, [None] * 9, 'read_all', 'dump', [1, 'read_all'], [2, 'dump']):
                    if tier != 'thorough' and asks in ([2] * 9, [3, 1, 2, 3, 1, 2, 3]) and (piece == 2 or have == 1): continue
                    for ending in ('open', 'closed'):
                        # 'closed': the peer closes before the body is complete
                        if ending == 'closed' and (have >= length or not pieces): continue
                        scr = pieces if ending == 'open' else tuple(x for x in pieces)[:max(0, (length - have - 1) // piece)]
                        label = 'a body of %d bytes, %d received with the header, the rest in pieces of %d%s, %s' % (length, have, piece, ', cut short' if ending == 'closed' else '', asks if isinstance(asks, str) else 'read(%s)' % asks[0])
                        mon.script = scr; mon.ending = ending; mon.blocked = []
                        st = mon.begin(eng.base); ok = True; got = b''; n += 1; end = None
                        for st, o in make(st, length, part):
                            for a in [asks] if isinstance(asks, str) else asks:
                                meth, args = (a, []) if isinstance(a, str) else ('read', [] if a is None else [const(a)])
                                f = eng.attr_of(st, o, meth, None)[0][1]
                                R, X = eng.run(f, args, {}, st, label)
                                if X and not R: end = 'error'; break
                                if not R: end = 'stuck'; break
                                st, v = R[0]
                                v = val(v)
                                if meth == 'dump': end = 'none'; continue
                                if meth == 'read_all':
                                    if not isinstance(v, bytes): end = 'odd'; break
                                    got += v; end = 'none'; continue
                                if v is None: end = 'none'; break
                                if not isinstance(v, bytes): end = 'odd'; break
                                if a is not None and len(v) > a: rep.violate('reader', AT[0], AT[1], '%s: %d bytes are handed out' % (label, len(v)), st, key='reader:more')
                                got += v
                            if end == 'odd': continue
                            rep.ob('reader', label)
                            if ending == 'closed':
                                rep.ob('closed', label)
                                if end != 'error': rep.violate('closed', AT[0], AT[1], '%s: %s' % (label, 'it never ends' if end == 'stuck' else 'the body seems to be complete'), st, key='closed:reader')
                                continue
                            if end == 'stuck': rep.violate('reader', AT[0], AT[1], '%s: more is read from the connection than the body has' % label, st, key='reader:waits')
                            elif end == 'error': rep.violate('reader', AT[0], AT[1], '%s: it ends with an error' % label, st, key='reader:error')
                            elif asks != 'dump' and (not isinstance(asks, list) or 'dump' not in asks) and got != body: rep.violate('reader', AT[0], AT[1], '%s: %r is handed out instead of %r' % (label, got, body), st, key='reader:bytes')
                            # nothing after it has been taken from the connection
                            if end == 'none' and have <= length and b''.join(st.auto['inp']) != (body + extra)[length:] and rest: rep.violate('reader', AT[0], AT[1], '%s: the beginning of the next message has been consumed, or part of the body left' % label, st, key='reader:consumed')
    rep.info['bodies read'] = n


RESP = b'HTTP/1.1 200 OK\r\nConnection: Keep-Alive\r\nContent-Length: %d\r\nstatus:ok\r\nInfo:{"a": 1, "b:c": "d"}\r\n\r\n'
TRICKY = b'\r\n\r\nabc\r\nContent-Length: 3\r\n\r\n'


def client(rep, tier, mon, eng, go):
    AT = (HTTP + 'client_http_request.py', 'client_http_request'); HC = (HTTP + 'http_client.py', 'HTTPClient')
    cls = eng.lookup_public('bversion.http.client_http_request:client_http_request')
    mon.script = (); mon.ending = 'open'
    made = eng.run(cls, [const('http://localhost:8090')], {}, mon.begin(eng.base), 'client')[0]
    if not made: raise AnalysisBroken('the client cannot be made')
    base, c = made[0]
    hdr = {'session_token': 'TOKEN', 'path': '/a b', 'Raw': b'bytes'}

    def call(label, meth, args, files=(), **how):
        mon.script = how.get('script', ()); mon.ending = how.get('ending', 'open'); mon.accept = how.get('accept'); mon.failsend = how.get('failsend'); mon.blocked = []; mon.label = label
        st = base.setauto(fs=frozenset(files), op=frozenset(), inp=tuple(mon.script), out=b'', sends=0, eof=0, closed=False, released=0, short=0)
        st, h = mkdict(st, 'headers', [(k, v) for k, v in hdr.items()])
        f = eng.attr_of(st, c, meth, None)[0][1]
        return eng.run(f, [const('operation'), h] + args, {}, st, label)

    def result(label, R, X, body, gen=False):
        """of a call whose answer arrived whole"""
        rep.ob('body', label)
        for kind, s, ev in mon.blocked: rep.violate('body', ev.loc, ev.func, '%s: the client %s' % (label, 'waits for more than the message has' if kind == 'waits' else 'reads the closed connection again and again'), s, key='body:' + kind)
        for s, e in X: rep.violate('body', HC[0], HC[1], '%s: it ends with %s' % (label, show(e)[:80]), s, key='body:raises')
        out = []
        for s, v in R:
            if v.op != 'tup' or len(v.args[0]) != 2: continue
            b, h = v.args[0]
            hh = s.heap.get(h)
            if hh is not None and hh.kind == DICT:
                d = {val(k): val(x) for k, x in hh.known}
                if isinstance(d.get('status'), str) and (d.get('status') != 'ok' or d.get('info') != '{"a": 1, "b:c": "d"}'): rep.violate('body', HC[0], HC[1], '%s: the header fields are read as %s' % (label, d), s, key='body:headers')
            if gen: out.append((s, b)); continue
            if isinstance(val(b), bytes) and val(b) != body: rep.violate('body', HC[0], HC[1], '%s: the body is taken for %r' % (label, val(b)[:60]), s, key='body:bytes')
            elif isinstance(val(b), bytes): out.append((s, b))
        return out

    def sent(label, states, body, sizes=True):
        rep.ob('sent', label)
        for s in states:
            m = parse_message(s.auto['out'])
            if m is None or len(m) != 1: rep.violate('sent', AT[0], AT[1], '%s: what reaches the network is not one message of the declared length' % label, s, key='sent:length'); continue
            line, h, b = m[0]
            if b != body: rep.violate('sent', AT[0], AT[1], '%s: the body that reaches the network is %r' % (label, b[:60]), s, key='sent:body')
            if line != b'POST /operation HTTP/1.1': rep.violate('sent', AT[0], AT[1], '%s: the first line is %r' % (label, line), s, key='sent:line')
            for k, v in hdr.items():
                if h.get(k.lower()) != (v if isinstance(v, str) else v.decode()): rep.violate('sent', AT[0], AT[1], '%s: the header field %s does not reach the server' % (label, k), s, key='sent:header')

    bodies = [b'', b'B', b'0123456789', TRICKY]; decided = 0
    fd = {'k': 'v', 'non-ascii': '\u00e9\u4e2d', 'n': 1}
    for body in bodies:
        msg = RESP % len(body) + body; at = [msg.index(b'\r\n\r\n') + 4, msg.index(b'\r\n\r\n'), len(msg)]
        for extra in (b'', b'HTTP/1.1 200 OK\r\n\r\n'):
            for cut in cuts(msg + extra, at, tier):
                label = 'a response with a body of %d bytes in %d pieces%s' % (len(body), len(cut), ' and more after it' if extra else '')
                R, X = call(label, 'request', [NONE], script=cut); ok = result(label, R, X, body); decided += len(ok)
                sent(label, [s for s, _ in ok], b'{}')
                R, X = call(label, 'request', [NONE, TRUE], script=cut)
                for s, w in result(label, R, X, body, True): download(rep, mon, eng, label, s, w, body)
        # closed in the middle, or an error
        for k in range(0, len(msg)) if tier == 'thorough' or body == b'0123456789' else list(range(0, len(msg), 9)) + list(range(max(0, len(msg) - len(body) - 5), len(msg))):
            for ending in ('closed', 'error'):
                for piece in (len(msg), 11):
                    cut = [msg[:k][i:i + piece] for i in range(0, k, piece)]
                    label = 'a response of which %d of %d bytes arrive before the connection %s' % (k, len(msg), 'is closed' if ending == 'closed' else 'fails')
                    for gen in (False, True):
                        R, X = call(label, 'request', [NONE] + [TRUE] * gen, script=cut, ending=ending); rep.ob('closed', label)
                        if gen and R:
                            for s, v in R:
                                if v.op == 'tup': download(rep, mon, eng, label, s, v.args[0][0], body, False)
                            continue
                        for kind, s, ev in mon.blocked: rep.violate('closed', ev.loc, ev.func, '%s: the client reads on and on' % label, s, key='closed:forever')
                        for s, v in R: rep.violate('closed', HC[0], HC[1], '%s: it is taken for a whole answer' % label, s, key='closed:whole')
    if not decided: raise AnalysisBroken('no response of the server is understood')
    # what the client sends
    ok = RESP % 0
    for accept in (None, 1, 3, 700):
        if accept == 1 and tier != 'thorough': accept = 2
        for data, body in ((NONE, b'{}'), (fd, json.dumps(fd).encode())):
            label = 'a request%s' % (', the network takes at most %d bytes at a time' % accept if accept else '')
            arg = data
            if data is not NONE: base2, arg = mkdict(base, 'data', [(k, v) for k, v in data.items()])
            else: base2 = base
            R, X = call_with(base2, eng, mon, c, hdr, label, 'request', [arg], script=[ok], accept=accept)
            sent_states = [s for s, _ in R]
            for kind, s, ev in mon.blocked: rep.violate('sent', ev.loc, ev.func, '%s: the client waits for an answer' % label, s, key='sent:waits')
            for s, e in X: rep.violate('sent', AT[0], AT[1], '%s: it ends with %s' % (label, show(e)[:80]), s, key='sent:raises')
            for s in sent_states:
                m = parse_message(s.auto['out'])
                if data is NONE: sent(label, [s], b'{}')
                elif m is None or len(m) != 1: rep.violate('sent', AT[0], AT[1], '%s: what reaches the network is not one message of the declared length' % label, s, key='sent:length')
                else:
                    try: back = json.loads(m[0][2].decode())
                    except ValueError: back = None
                    if back != fd: rep.violate('sent', AT[0], AT[1], '%s: the fields of the body are sent as %r' % (label, m[0][2][:80]), s, key='sent:fields')
        for size in [0, 1, 10, 4096, 10 ** 6, 2500001] if accept in (None, 700) else [0, 1, 10]:
            if accept == 700 and size > 10: size = {4096: 4096}.get(size, 2000)
            content = (bytes(range(256)) * (size // 256 + 1))[:size]
            label = 'a file of %d bytes%s' % (size, ', the network takes at most %d bytes at a time' % accept if accept else '')
            R, X = call(label, 'send_file', [SRC], [(SRC, const(content))], script=[ok], accept=accept)
            for kind, s, ev in mon.blocked: rep.violate('sent', ev.loc, ev.func, '%s: the client waits for an answer' % label, s, key='sent:waits')
            for s, e in X: rep.violate('sent', AT[0], AT[1], '%s: it ends with %s' % (label, show(e)[:80]), s, key='sent:raises')
            sent(label, [s for s, _ in R], content)
    for k in range(1, 5):
        for meth, args in (('request', [NONE]), ('send_file', [SRC])):
            label = '%s, transmission %d fails' % (meth, k); R, X = call(label, meth, args, [(SRC, const(b'0123456789'))], script=[ok], failsend=k); rep.ob('closed', label)
            for s, v in R:
                if s.auto['sends'] >= k: rep.violate('closed', AT[0], AT[1], '%s: the request seems to succeed' % label, s, key='closed:send')
    # a large download
    for size in (1000001, 2000000):
        body = (bytes(range(251)) * (size // 251 + 1))[:size]; msg = RESP % size
        for cut in ([msg + body], [msg, body], [msg, body[:-7], body[-7:-5], body[-5:-2], body[-2:]], [msg + body[:5000]] + [body[i:i + 400000] for i in range(5000, size, 400000)]):
            label = 'a download of %d bytes in %d pieces' % (size, len(cut))
            R, X = call(label, 'request', [NONE, TRUE], script=cut)
            for s, w in result(label, R, X, body, True): download(rep, mon, eng, label, s, w, body)
            R, X = call(label, 'request', [NONE], script=cut); result(label, R, X, body)


def call_with(base, eng, mon, c, hdr, label, meth, args, **how):
    mon.script = how.get('script', ()); mon.ending = how.get('ending', 'open'); mon.accept = how.get('accept'); mon.failsend = how.get('failsend'); mon.blocked = []; mon.label = label
    st = base.setauto(fs=frozenset(), op=frozenset(), inp=tuple(mon.script), out=b'', sends=0, eof=0, closed=False, released=0, short=0)
    st, h = mkdict(st, 'headers', [(k, v) for k, v in hdr.items()])
    return eng.run(eng.attr_of(st, c, meth, None)[0][1], [const('operation'), h] + args, {}, st, label)


def download(rep, mon, eng, label, st, w, body, whole=True):
    AT = (HTTP + 'client_http_request.py', 'client_http_request.request')
    rep.ob('download', label); mon.blocked = []
    R, X = eng.run(w, [DOWN], {}, st, label)
    for kind, s, ev in mon.blocked: rep.violate('download' if whole else 'closed', ev.loc, ev.func, '%s: the client %s' % (label, 'waits for more than the body has' if kind == 'waits' else 'reads the closed connection again and again'), s, key='download:' + kind)
    if not whole:
        for s, v in R: rep.violate('closed', AT[0], AT[1], '%s: the download seems to be complete' % label, s, key='closed:download')
        return
    for s, e in X: rep.violate('download', AT[0], AT[1], '%s: it ends with %s' % (label, show(e)[:80]), s, key='download:raises')
    for s, v in R:
        got = dict(s.auto['fs']).get(DOWN)
        if got is not None and is_const(got) and cval(got) != body: rep.violate('download', AT[0], AT[1], '%s: %d bytes are written, and not those of the body' % (label, len(cval(got))), s, key='download:bytes')
        elif got is None: rep.violate('download', AT[0], AT[1], '%s: no file is written' % label, s, key='download:none')


REQ = b'POST /operation HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\nToken:t:1\r\n\r\n'
READS = ['read_all', 3, None, 'nothing', 'part', 'get_json']


def server(rep, tier, mon, eng, go):
    """the connection thread of the server, with a scripted handler"""
    AT = (HTTP + 'http_server.py', 'HTTPServer.handle_connection'); sock = mk('sock', 0)
    resp = eng.lookup_public('bversion.http.http_server:Responce'); serve = eng.lookup_public('bversion.http.http_server:ServeFile')
    mon.handler = None; mon.script = (); base, fv, args = connection_entry(eng, mk('ext', 'handler'))
    args = [sock if a.op == 'sock' or i == 0 else tup(const('1.2.3.4'), const(99)) for i, a in enumerate(args)]

    def handler(plan):
        """plan: per request (how the body is read, what is answered): None: an error; bytes; ('file', path)"""
        def run(e, st, a, node):
            k = len(st.auto['got']); how, answer, hdr = plan[min(k, len(plan) - 1)]
            rq, ctx = a[0], a[1]
            outs = [(st, b'')]
            h = dict((val(x), val(y)) for x, y in st.heap[rq].known) if st.heap.get(rq) is not None else {}
            hd = h.get('headers')
            hd = st.heap.get(hd) if hd is not None and not isinstance(hd, (str, bytes)) else None
            fields = {val(x): val(y) for x, y in hd.known} if hd is not None else None
            if fields and not all(isinstance(x, str) for x in fields): fields = None
            body = e.attr_of(st, rq, 'body', node)[0][1]
            def read(s, meth, args):
                f = e.attr_of(s, rq if meth == 'get_json' else body, meth, node)[0][1]
                return e.call_value(f, args, {}, s, node)
            if how == 'read_all': outs = [(s, val(v)) for s, v in read(st, 'read_all', [])]
            elif how == 'get_json': outs = [(s, val(v.args[1][0]) if v.op == 'call' and v.args[0] == 'json.loads' else None) for s, v in read(st, 'get_json', [])]
            elif how == 'part': outs = [(s, None) for s, v in read(st, 'read', [const(2)])]
            elif how == 'nothing': outs = [(st, None)]
            else:
                done = []; todo = [(st, b'')]
                for i in range(60):
                    nxt = []
                    for s, b in todo:
                        for s2, v in read(s, 'read', [] if how is None else [const(how)]):
                            v = val(v)
                            if v is None: done.append((s2, b))
                            elif isinstance(v, bytes): nxt.append((s2, b + v))
                    todo = nxt
                outs = done + [(s, 'endless') for s, b in todo]
            res = []
            for s, b in outs:
                s = s.setauto(got=s.auto['got'] + ((h.get('uri'), tuple(sorted((k, v) for k, v in (fields or {}).items() if isinstance(v, str))), b),))
                s = e.set_attr(s, ctx, 'shutdown_handler', mk('ext', 'released'))
                if answer is None: e.raise_(s, mk('exc', 'Exception', const('of the handler'))); continue
                s, hh = mkdict(s, 'answer%d' % k, list(hdr))
                for s, x in (e.call_value(serve, [answer[1]], {}, s, node) if isinstance(answer, tuple) else [(s, const(answer))]):
                    res += e.call_value(resp, [hh, x], {}, s, node)
            return res
        return run

    def connection(label, script, plan, ending='open', files=(), accept=None, failsend=None, rule='body'):
        mon.label = label; mon.script = tuple(script); mon.ending = ending; mon.accept = accept; mon.failsend = failsend; mon.blocked = []; mon.handler = handler(plan)
        mon.seen = set(); mon.snaps = []; mon.cap = 1300000
        st = base.setauto(fs=frozenset(files), db=base.auto.get('db', (frozenset(), ())), op=frozenset(), faults=0, inp=tuple(script), out=b'', sends=0, eof=0, closed=False, released=0, got=(), mem=frozenset(), short=0)
        R, X = eng.run(fv, args, {}, st, label)
        ends = [(s, None) for s, _ in R] + X
        waits = [s for kind, s, ev in mon.blocked if kind == 'waits']
        for kind, s, ev in mon.blocked:
            if kind == 'forever': rep.violate('closed', ev.loc, ev.func, '%s: the connection thread reads the closed connection again and again' % label, s, key='closed:forever')
            if kind == 'floods': rep.violate('sent', ev.loc, ev.func, '%s: more and more is sent' % label, s, key='sent:floods')
        for s, x in ends:
            rep.ob('released', label)
            if not s.auto['closed']: rep.violate('released', AT[0], AT[1], '%s: the thread ends without closing the socket' % label, s, key='released:open')
            if s.auto['got'] and not s.auto['released']: rep.violate('released', AT[0], AT[1], '%s: the thread ends without calling the shutdown handler' % label, s, key='released:handler')
        return ends, waits

    def seen(label, states, want):
        """want: [(how, body)]: what the handler must have been given"""
        rep.ob('body', label)
        for s in states:
            got = s.auto['got']
            if len(got) != len(want): rep.violate('body', AT[0], AT[1], '%s: %d requests are handled instead of %d' % (label, len(got), len(want)), s, key='body:requests'); continue
            for (uri, h, b), (how, body) in zip(got, want):
                if isinstance(uri, str) and uri != '/operation': rep.violate('body', AT[0], AT[1], '%s: the operation is taken for %r' % (label, uri), s, key='body:uri')
                if h and dict(h).get('token') != 't:1': rep.violate('body', AT[0], AT[1], '%s: the header fields are taken for %r' % (label, h), s, key='body:fields')
                if isinstance(b, (bytes, str)) and b != body: rep.violate('body', AT[0], AT[1], '%s: the body is taken for %r instead of %r' % (label, b[:60], body[:60]), s, key='body:server')

    def answered(label, states, want, hdr):
        rep.ob('sent', label)
        for s in states:
            m = parse_message(s.auto['out'])
            if m is None or len(m) != len(want): rep.violate('sent', AT[0], AT[1], '%s: what reaches the network is not %d message(s) of the declared length' % (label, len(want)), s, key='sent:answer'); continue
            for (line, h, b), w in zip(m, want):
                if not line.startswith(b'HTTP/1.1 200 '): rep.violate('sent', AT[0], AT[1], '%s: the first line is %r' % (label, line), s, key='sent:status')
                if b != w: rep.violate('sent', AT[0], AT[1], '%s: the body of the answer has %d bytes, and not those of the %d handed over' % (label, len(b), len(w)), s, key='sent:bytes')
                for k, v in hdr.items():
                    if h.get(k.lower()) != v: rep.violate('sent', AT[0], AT[1], '%s: the header field %s reaches the client as %r' % (label, k, h.get(k.lower())), s, key='sent:fields')

    done = 0
    HD = [('status', 'ok'), ('file_info_json', '{"a": "b:c"}')]
    bodies = [b'', b'B', b'0123456789', TRICKY]
    # one request, in all pieces, read in all ways
    for body in bodies:
        msg = REQ % len(body) + body; head = len(msg) - len(body)
        for cut in cuts(msg, [head, head - 4, len(msg)], tier):
            for how in READS:
                if how not in ('read_all', 'nothing') and len(cut) > 2 and tier != 'thorough': continue
                label = 'a request with a body of %d bytes in %d pieces (%s), the handler reads %s' % (len(body), len(cut), ', '.join(str(len(x)) for x in cut[:4]), how if isinstance(how, str) else 'with read(%s)' % ('' if how is None else how))
                ends, waits = connection(label, cut, [(how, b'answer', HD)])
                for s, x in ends: rep.violate('body', AT[0], AT[1], '%s: the connection ends' % label, s, key='body:ends')
                seen(label, waits, [(how, body)]); answered(label, waits, [b'answer'], dict(HD)); done += len(waits)
    # requests one after the other over the same connection
    for b1, b2 in ((b'', b''), (b'first', b'second'), (TRICKY, b'x'), (b'x', b'')):
        for how in READS:
            for piece in (None, 5, 1):
                m1, m2 = REQ % len(b1) + b1, REQ % len(b2) + b2
                cut = [x for m in (m1, m2) for x in ([m] if piece is None else [m[i:i + piece] for i in range(0, len(m), piece)])]
                if piece == 1 and tier != 'thorough' and how not in ('nothing', 'part'): continue
                label = 'two requests with %d and %d bytes of body in %s, the first handler reads %s' % (len(b1), len(b2), 'one piece each' if piece is None else 'pieces of %d' % piece, how)
                ends, waits = connection(label, cut, [(how, b'one', HD), ('read_all', b'', HD)])
                for s, x in ends: rep.violate('body', AT[0], AT[1], '%s: the connection ends' % label, s, key='body:ends')
                seen(label, waits, [(how, b1), ('read_all', b2)]); answered(label, waits, [b'one', b''], dict(HD))
    # a large body
    for size in (10000, 10001, 1500000):
        body = (bytes(range(251)) * (size // 251 + 1))[:size]; msg = REQ % size + body
        for cut in ([msg], [msg[:300], msg[300:]], [msg[:-7], msg[-7:-5], msg[-5:-2], msg[-2:]], [msg[:200]] + [msg[i:i + 90000] for i in range(200, len(msg), 90000)]):
            for how in ('read_all', 'nothing', 4096 * 64):
                label = 'a request with %d bytes of body in %d pieces, the handler reads %s' % (size, len(cut), how)
                ends, waits = connection(label, cut + [REQ % 1 + b'!'], [(how, b'one', HD), ('read_all', b'two', HD)])
                for s, x in ends: rep.violate('body', AT[0], AT[1], '%s: the connection ends' % label, s, key='body:ends')
                seen(label, waits, [(how, body), ('read_all', b'!')]); answered(label, waits, [b'one', b'two'], dict(HD))
    if not done: raise AnalysisBroken('no request is followed through the connection thread')
    # answers
    for size in (0, 1, 5, 4095, 4096, 4097, 8192, 10000, 1200001):
        body = (bytes(range(251)) * (size // 251 + 1))[:size]
        for served in (False, True):
            for accept in (None, 1000, 10) if size < 5000 and size != 4096 else (None, 1000) if size < 20000 else (None,):
                label = '%s of %d bytes is answered%s' % ('a file' if served else 'a body', size, ', the network takes at most %d bytes at a time' % accept if accept else '')
                ends, waits = connection(label, [REQ % 0], [('read_all', ('file', FILE) if served else body, HD)], files=[(FILE, const(body))], accept=accept)
                for s, x in ends: rep.violate('sent', AT[0], AT[1], '%s: the connection ends' % label, s, key='sent:ends')
                answered(label, waits, [body], dict(HD))
                for s in waits:
                    if any(x[1] is FILE for x in s.auto['op']): pass
    # every way a connection can end
    body = b'0123456789'; msg = REQ % 10 + body; head = len(msg) - 10
    ways = list(range(0, len(msg))) if tier == 'thorough' else list(range(0, head, 8)) + list(range(head - 5, len(msg)))
    for k in ways:
        for ending in ('closed', 'error'):
            for how in READS:
                for first in (False, True):
                    if tier != 'thorough' and (how in (None, 'get_json') or first and how != 'read_all'): continue
                    label = '%d of the %d bytes of %s request arrive, then the connection %s; the handler reads %s' % (k, len(msg), 'a second' if first else 'a', 'is closed' if ending == 'closed' else 'fails', how)
                    script = ([msg] if first else []) + ([msg[:k]] if k else [])
                    ends, waits = connection(label, script, [(how, b'answer', HD)] * 2, ending)
                    rep.ob('closed', label)
                    if not ends and not waits and not mon.blocked: rep.need(False, AT[0], AT[1], label)
                    for s, x in ends:
                        n = len(s.auto['got']) - first
                        if n > 0 and isinstance(s.auto['got'][-1][2], (bytes, str)): rep.violate('closed', AT[0], AT[1], '%s: the handler is given the incomplete body' % label, s, key='closed:body')
                        if (parse_message(s.auto['out']) or [0] * 9)[1 + first:] : pass
    ok = b'POST /operation HTTP/1.1\r\nContent-Length: 0\r\n\r\n'
    odd = {'a GET request': ok.replace(b'POST', b'GET'), 'a first line of two words': ok.replace(b' HTTP/1.1', b''), 'a first line of four words': ok.replace(b' HTTP', b' x HTTP'), 'no content length': ok.replace(b'Content-Length: 0\r\n', b''),
           'a content length which is no number': ok.replace(b'h: 0', b'h: x'), 'a header line without a colon': ok.replace(b'Content-Length', b'colonless\r\nContent-Length'), 'a header which is not UTF-8': ok.replace(b'Content-Length', b'\xff\xff: 1\r\nContent-Length'),
           'an empty request': b'\r\n\r\n'}
    for name, m in odd.items():
        for first in (False, True):
            label = name + (' after a good request' if first else '')
            connection(label, ([ok] if first else []) + [m], [('read_all', b'answer', HD)] * 2, 'closed')
    for k in range(1, 6):
        for size, served in ((0, False), (10000, False), (5, True)):
            label = 'transmission %d of an answer of %d bytes fails' % (k, size)
            connection(label, [ok], [('read_all', ('file', FILE) if served else b'x' * size, HD)] * 2, 'closed', files=[(FILE, const(b'12345'))], failsend=k)
    connection('the file to be served does not exist', [ok], [('read_all', ('file', FILE), HD)] * 2, 'closed')
    connection('the handler fails', [ok], [('read_all', None, HD)] * 2, 'closed')
    connection('the handler fails for the second request', [ok, ok], [('read_all', b'x', HD), ('read_all', None, HD)], 'closed')
