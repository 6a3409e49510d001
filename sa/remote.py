"""The remote object store of the backup tool, the secret-stream library and byte streams, on top of the small repositories of
repoworld.py.  Contents are sequences of segments; reading n bytes of an opaque content yields its first chunk and then the rest."""
import struct
from .repoworld import *
from .generic import *

GARBAGE = mk('bytes1', 'misaligned', (), NONE)
ABYTES, HEADERBYTES, KEYBYTES, SALTBYTES = 17, 24, 32, 16
EMPTY = 'e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855'
CONSTS = {'pysodium.crypto_secretstream_xchacha20poly1305_ABYTES': ABYTES, 'pysodium.crypto_secretstream_xchacha20poly1305_HEADERBYTES': HEADERBYTES,
          'pysodium.crypto_secretstream_xchacha20poly1305_KEYBYTES': KEYBYTES, 'pysodium.crypto_pwhash_SALTBYTES': SALTBYTES}
PASSWORD = sym('#password', None, True)


def b1(kind, *args, size=None): return mk('bytes1', kind, tuple(args), const(size) if isinstance(size, int) else size if size is not None else NONE)


def segs(c):
    """content -> list of segments"""
    c = canon_str(c)
    if c.op == 'cat': return [canon_str(x) for x in c.args[0]]
    if is_str(c) and len(cval(c)) == 0: return []
    return [c]


def lin(t):
    """linear form of an integer term: (constant, opaque parts); booleans of exactness are handled by the caller"""
    if is_const(t) and type(cval(t)) is int: return cval(t), ()
    if t.op == 'bin' and t.args[0] == '+':
        a, b = lin(t.args[1]), lin(t.args[2])
        return a[0] + b[0], tuple(sorted(a[1] + b[1], key=lambda x: x.id))
    if t.op == 'call' and t.args[0] == 'len' and t.args[1]: return size(t.args[1][0])
    return 0, (t,)


def size(c):
    """length of a byte term"""
    c = canon_str(c)
    if is_str(c):
        v = cval(c); return len(v.encode() if isinstance(v, str) else v), ()
    if c.op == 'cat':
        n, o = 0, ()
        for x in c.args[0]:
            a, b = size(x); n += a; o += b
        return n, tuple(sorted(o, key=lambda x: x.id))
    if c.op == 'call' and c.args[0] == 'struct.pack' and is_str(c.args[1][0]):
        try: return struct.calcsize(cval(c.args[1][0])), ()
        except struct.error: pass
    if c.op == 'bytes1':
        if is_const(c.args[2]) and cval(c.args[2]) is not None: return cval(c.args[2]), ()
        if c.args[0] == 'enc':
            n, o = size(c.args[1][2]); return n + ABYTES, o
    return 0, (mk('call', 'len', (c,), ()),)


def upper(form):
    """the largest value, None if unbounded: the rest of a content is not longer than the chunk read before it"""
    n, o = form
    for x in o:
        c = x.args[1][0] if x.op == 'call' and x.args[0] == 'len' else None
        if c is not None and c.op == 'bytes1' and c.args[0] == 'rest': n += cval(c.args[1][1])
        else: return None
    return n


def take(stream, n):
    """read n bytes (None: all) of a list of segments: (data, remaining segments)"""
    stream = list(stream)
    if n is None: return join(stream), []
    want = lin(n)
    if is_const(n) and type(cval(n)) is int and cval(n) < 0: return join(stream), []
    out = []; have = (0, ())
    while stream:
        if have == want: break
        s = stream[0]; sz = size(s)
        tot = (have[0] + sz[0], tuple(sorted(have[1] + sz[1], key=lambda x: x.id)))
        if tot == want or not tot[1] and not want[1] and tot[0] < want[0]:
            out.append(stream.pop(0)); have = tot; continue
        if not want[1] and not have[1] and s.op != 'bytes1' and not is_str(s) and not sz[0] and want[0] > have[0] and not (s.op == 'call' and s.args[0] == 'struct.pack'):      # opaque content: cut here
            k = want[0] - have[0]
            out.append(b1('chunk', s, const(k), size=k)); stream[0] = b1('rest', s, const(k)); have = want; continue
        if is_str(s) and not want[1] and not have[1]:
            v = cval(s); v = v.encode() if isinstance(v, str) else v; k = want[0] - have[0]
            out.append(const(v[:k])); stream[0] = const(v[k:]); have = want; continue
        u = upper(tot)
        if u is not None and not want[1] and u <= want[0]:
            out.append(stream.pop(0)); have = tot; continue
        if len(want[1]) == 1 and not have[1] and not have[0] and want[1][0] in sz[1] and want[0] == sz[0]:
            out.append(stream.pop(0)); have = tot; continue
        return GARBAGE, []
    return join(out), stream


def join(segments):
    """put a cut content together again"""
    out = []
    for s in segments:
        for x in segs(s):
            if out and x.op == 'bytes1' and x.args[0] == 'rest' and out[-1].op == 'bytes1' and out[-1].args[0] == 'chunk' and out[-1].args[1] == x.args[1]: out[-1] = x.args[1][0]
            else: out.append(x)
    if not out: return const(b'')
    acc = const(b'')
    for x in out: acc = cat(acc, const(cval(x).encode()) if is_str(x) and isinstance(cval(x), str) else x)
    return acc


def key_str(t):
    t = canon_str(t)
    if is_str(t): return cval(t) if isinstance(cval(t), str) else cval(t).decode('latin1')
    return '/'.join(cval(x) if is_str(x) else show(x) for x in path_parts(t))


class Remote(RepoWorld):
    """auto 'remote': {(key, content)}; 'mpu': uploads in progress (id, key, {part number: body}); 'mem': in-memory files and bodies"""
    page = None              # objects per listing
    salt_present = True

    def __init__(self, rep, errors=0):
        super().__init__(rep, errors); self.puts = []; self.pulled = []; self.cases = ''

    @staticmethod
    def begin(st, fs, remote): return RepoWorld.begin(st, fs).setauto(remote=frozenset(remote), mpu=frozenset(), mem=frozenset(), streams=frozenset())

    def intrinsics(self):
        r = super().intrinsics()
        for n in ('boto3.client', 'boto3.resource'): r[n] = lambda e, st, a, k, node: [(st, mk('ext', 's3'))]
        for n in [m[3:] for m in dir(self) if m.startswith('s3_')]: r['s3.' + n] = getattr(self, 's3_' + n)
        for n in [m[3:] for m in dir(self) if m.startswith('na_')]: r['pysodium.crypto_secretstream_xchacha20poly1305_' + n] = getattr(self, 'na_' + n)
        r.update({'s3.get_paginator': self.paginator, 's3page.paginate': self.paginate, 'io.BytesIO': self.i_bytesio, 'isinstance': self.i_isinstance, 'len': self.i_len, 'struct.pack': self.i_pack, 'struct.unpack': self.i_unpack,
                  'struct.calcsize': self.i_calcsize, 'binascii.unhexlify': self.undo('binascii.hexlify'), 'binascii.a2b_hex': self.undo('binascii.hexlify'),
                  'base64.b64decode': self.undo('base64.b64encode'), 'bytes.fromhex': self.undo('hex'), 'pysodium.crypto_pwhash': self.i_pwhash})
        r['bversion.common.cpjoin'] = self.i_cpjoin; r['os.path.join'] = self.i_osjoin
        for n in ('io.TextIOWrapper', 'io.BufferedReader', 'io.BufferedWriter'): r[n] = lambda e, st, a, k, node: [(st, a[0])]
        return r

    def slice_hook(self, r, lo, hi, step):
        if step is not NONE: return None
        d, rest = (NONE, segs(r)) if lo is NONE or lo is const(0) else take(segs(r), lo)
        if d is GARBAGE: return GARBAGE if any(x.op == 'bytes1' for x in segs(r)) else None
        if hi is NONE: return join(rest)
        if not is_const(hi) or type(cval(hi)) is not int or cval(hi) < 0 or not (lo is NONE or is_const(lo)): return None
        d, _ = take(rest, const(cval(hi) - (cval(lo) if lo is not NONE else 0)))
        return d if d is not GARBAGE or any(x.op == 'bytes1' for x in segs(r)) else None

    # ---- library functions
    @staticmethod
    def undo(fn):
        def f(e, st, args, kw, node):
            a = canon_str(args[0])
            if a.op == 'call' and a.args[0] == fn and a.args[1]: return [(st, a.args[1][0])]
            if a.op == 'bytes1': e.raise_(st, mk('exc', 'ValueError', NONE)); return []
            return None
        return f

    def i_isinstance(self, e, st, args, kw, node): return None

    def i_len(self, e, st, args, kw, node):
        a = canon_str(args[0])
        if a.op == 'bytes1' or a.op == 'cat' and any(x.op == 'bytes1' for x in a.args[0]):
            n, o = size(a)
            if not o: return [(st, const(n))]
        return None

    def i_pack(self, e, st, args, kw, node):
        if all(is_const(a) for a in args):
            try: return [(st, const(struct.pack(*[cval(a) for a in args])))]
            except Exception: return None
        return None

    def i_unpack(self, e, st, args, kw, node):
        a = canon_str(args[1])
        if a.op == 'call' and a.args[0] == 'struct.pack' and a.args[1][0] is args[0]: return [(st, tup(*a.args[1][1:]))]
        if is_str(a) and is_const(args[0]):
            try: return [(st, tup(*[const(x) for x in struct.unpack(cval(args[0]), cval(a) if isinstance(cval(a), bytes) else cval(a).encode())]))]
            except struct.error: pass
        e.raise_(st, mk('exc', 'error', NONE)); return []

    def i_calcsize(self, e, st, args, kw, node):
        try: return [(st, const(struct.calcsize(cval(args[0]))))]
        except Exception: return None

    def i_pwhash(self, e, st, args, kw, node):
        a = self.positional(args, kw, ('outlen', 'passwd', 'salt', 'opslimit', 'memlimit', 'alg'))
        return [(st, mk('call', 'pysodium.crypto_pwhash', tuple(canon_str(x) for x in a), ()))]

    def i_osjoin(self, e, st, args, kw, node):
        if args and all(is_str(a) and isinstance(cval(a), str) for a in args): return [(st, const(os.path.join(*[cval(a) for a in args])))]
        return [(st, mkpath(args))]

    def i_cpjoin(self, e, st, args, kw, node):
        if args and all(is_str(a) for a in args):
            a = [cval(x) if isinstance(cval(x), str) else cval(x).decode('latin1') for x in args]; parts = [y for x in a for y in x.split('/') if y]
            return [(st, const(('/' if a[0].startswith('/') else '') + '/'.join(parts) + ('/' if a[-1].endswith('/') else '')))]
        return [(st, mkpath(args))]

    # ---- secret streams: state objects carry the number of the next message
    def na_init_push(self, e, st, args, kw, node):
        self.n += 1; s = mk('pushstate', self.n)
        return [(st.setauto(streams=st.auto['streams'] | {(s, 0)}), tup(self.bind(s, args[0]), b1('cryptoheader', s, args[0], size=HEADERBYTES)))]

    def bind(self, s, key): return mk('stream', s, key)

    def seq(self, st, s):
        for x in st.auto['streams']:
            if x[0] is s: return x
        return None

    def na_push(self, e, st, args, kw, node):
        a = self.positional(args, kw, ('state', 'message', 'ad', 'tag'))
        if a[0].op != 'stream': return None
        o = self.seq(st, a[0].args[0])
        return [(st.setauto(streams=(st.auto['streams'] - {o}) | {(o[0], o[1] + 1)}), b1('enc', a[0], const(o[1]), canon_str(a[1]), canon_str(a[2])))]

    def positional(self, args, kw, names):
        out = list(args)
        for n in names[len(out):]: out.append(kw.get(n, NONE))
        return out

    def na_init_pull(self, e, st, args, kw, node):
        a = self.positional(args, kw, ('header', 'key'))
        h = canon_str(a[0]); self.n += 1
        s = mk('pullstate', self.n)
        return [(st.setauto(streams=st.auto['streams'] | {(s, 0)}), mk('pull', s, h, a[1]))]

    def na_pull(self, e, st, args, kw, node):
        a = self.positional(args, kw, ('state', 'cipher', 'ad'))
        if a[0].op != 'pull': return None
        s, h, key = a[0].args; c = canon_str(a[1]); o = self.seq(st, s)
        ok = c.op == 'bytes1' and c.args[0] == 'enc' and h.op == 'bytes1' and h.args[0] == 'cryptoheader'
        if ok:
            stream, n, msg, ad = c.args[1]
            ok = h.args[1][0] is stream.args[0] and stream.args[1] is key and cval(n) == o[1] and ad is canon_str(a[2])
        if not ok: e.raise_(st, mk('exc', 'ValueError', const('forged'))); return []
        return [(st.setauto(streams=(st.auto['streams'] - {o}) | {(o[0], o[1] + 1)}), tup(msg, const(0)))]

    # ---- in-memory files
    def i_bytesio(self, e, st, args, kw, node):
        self.n += 1; h = mk('memfile', self.n)
        return [(self.setmem(st, h, tuple(segs(args[0])) if args else (), tuple(segs(args[0])) if args else ()), h)]

    def mem(self, st, h):
        for x in st.auto['mem']:
            if x[0] is h: return x
        return None

    def setmem(self, st, h, content, rest):
        """rest: what is left to read"""
        return st.setauto(mem=frozenset(x for x in st.auto['mem'] if x[0] is not h) | {(h, content, rest)})

    def memfile(self, ev, st):
        m = self.mem(st, ev.recv); n = ev.args[0] if ev.args else ev.kw.get('size')
        if m is None: return st
        if ev.name in ('read', 'read1'):
            self.fail(ev.eng, st)
            d, rest = take(m[2], None if n is None or n is NONE else n)
            return [(self.setmem(st, ev.recv, m[1], tuple(rest)), d)]
        if ev.name == 'write':
            c = join(list(m[1]) + [ev.args[0]])
            return self.setmem(st, ev.recv, tuple(segs(c)), ())
        if ev.name == 'seek': return self.setmem(st, ev.recv, m[1], m[1] if is_const(ev.args[0]) and cval(ev.args[0]) == 0 and len(ev.args) < 2 else ())
        if ev.name in ('getvalue', 'getbuffer'): return [(st, join(m[1]))]
        return st

    # ---- open files: several reads and writes
    def handle(self, ev, st):
        e = ev.eng; h = ev.recv
        o = [x for x in st.auto['op'] if x[0] is h]
        if not o: return st
        o = o[0]; n = ev.args[0] if ev.args else None
        if ev.name in ('read', 'read1') and o[3] == 'r':
            self.fail(e, st)
            m = self.mem(st, h); rest = m[2] if m is not None else tuple(segs(o[2]))
            d, rest = take(rest, None if n is None or n is NONE else n)
            return [(self.setmem(st, h, (), tuple(rest)), d)]
        if ev.name == 'seek' and o[3] == 'r': return self.setmem(st, h, (), tuple(segs(o[2])))
        if ev.name == 'write' and o[3] == 'w':
            self.fail(e, st)
            fs = self.fs(st); fs[o[1]] = PART
            st = self.put(e, st, ev.node, fs, 'writing %s' % show(o[1]))
            return st.setauto(op=(st.auto['op'] - {o}) | {(h, o[1], join([o[2], ev.args[0]]) if o[2] is not PART else PART, 'w')})
        return super().handle(ev, st)

    def i_copyobj(self, e, st, args, kw, node): return None

    def event(self, ev, st):
        if ev.kind == 'meth' and ev.recv is not None and ev.recv.op == 'memfile': return self.memfile(ev, st)
        if ev.kind == 'meth' and ev.name == 'hex' and ev.recv is not None and not ev.args: return [(st, mk('call', 'hex', (ev.recv,), ()))]
        return super().event(ev, st)

    # ---- the store
    def resp(self, st, **kw):
        self.n += 1
        return mkdict(st, 'response%d' % self.n, [(k, v) for k, v in kw.items()])

    def remote(self, st): return dict(st.auto['remote'])

    def store_remote(self, e, st, node, key, content):
        r = self.remote(st); r[key] = content
        self.puts.append((key, content, st, e.loc(node), e.func.qual if e.func else '?', e))
        st = st.setauto(remote=frozenset(r.items()))
        self.published(e, st, node, key)
        return st

    def published(self, e, st, node, key): pass

    def sent(self, e, st, node, key, body): pass

    def s3_get_bucket_versioning(self, e, st, args, kw, node): return [self.resp(st, Status='Enabled')]
    def s3_list_multipart_uploads(self, e, st, args, kw, node): return [self.resp(st, IsTruncated=False)]
    def s3_abort_multipart_upload(self, e, st, args, kw, node): return [self.resp(st)]

    def s3_delete_object(self, e, st, args, kw, node):
        r = self.remote(st); r.pop(key_str(kw['Key']), None)
        s, v = self.resp(st.setauto(remote=frozenset(r.items())))
        return [(s, v)]

    def s3_create_multipart_upload(self, e, st, args, kw, node):
        self.fail(e, st)
        self.n += 1; u = const('upload%d' % self.n)
        return [self.resp(st.setauto(mpu=st.auto['mpu'] | {(u, key_str(kw['Key']), ())}), UploadId=u)]

    def upload(self, st, kw):
        for x in st.auto['mpu']:
            if x[0] is kw.get('UploadId'): return x
        return None

    def s3_upload_part(self, e, st, args, kw, node):
        self.sent(e, st, node, key_str(kw['Key']), kw.get('Body', NONE))
        self.fail(e, st)
        o = self.upload(st, kw); tag = mk('etag', kw.get('UploadId'), kw['PartNumber'])
        if o is None: e.raise_(st, mk('exc', 'ClientError', const('no such upload'))); return []
        body = kw['Body']; body = join(self.mem(st, body)[2]) if self.mem(st, body) is not None else body
        parts = tuple(p for p in o[2] if p[0] is not kw['PartNumber']) + ((kw['PartNumber'], join([body])),)
        return [self.resp(st.setauto(mpu=(st.auto['mpu'] - {o}) | {(o[0], o[1], parts)}), ETag=tag)]

    def s3_complete_multipart_upload(self, e, st, args, kw, node):
        self.fail(e, st)
        o = self.upload(st, kw)
        if o is None: e.raise_(st, mk('exc', 'ClientError', const('no such upload'))); return []
        mp = kw.get('MultipartUpload', NONE); h = st.heap.get(mp); nums = None
        if h is not None and h.get(const('Parts')) is not None:
            l = st.heap.get(h.get(const('Parts')))
            if l is not None and not l.rest and l.base is None:
                nums = [st.heap[x].get(const('PartNumber')) if x in st.heap else None for x in l.known]
        if nums is None: nums = [p[0] for p in o[2]]
        parts = dict(o[2])
        if not nums or any(n not in parts for n in nums) or not all(is_const(n) for n in nums) or sorted(cval(n) for n in nums) != [cval(n) for n in nums]:
            e.raise_(st, mk('exc', 'ClientError', const('bad parts'))); return []
        st = st.setauto(mpu=st.auto['mpu'] - {o})
        st = self.store_remote(e, st, node, key_str(kw['Key']), join([parts[n] for n in nums]))
        return [self.resp(st)]

    def s3_put_object(self, e, st, args, kw, node):
        b = kw.get('Body', const(b''))
        if self.mem(st, b) is not None: b = join(self.mem(st, b)[2])
        self.sent(e, st, node, key_str(kw['Key']), b)
        self.fail(e, st)
        st = self.store_remote(e, st, node, key_str(kw['Key']), canon_str(b))
        return [self.resp(st, VersionId='1')]

    def s3_get_object(self, e, st, args, kw, node):
        self.fail(e, st)
        k = key_str(kw['Key']); r = self.remote(st)
        if k not in r: e.raise_(st, mk('exc', 'NoSuchKey', NONE)); return []
        self.n += 1; h = mk('memfile', self.n)
        st = self.setmem(st, h, tuple(segs(r[k])), tuple(segs(r[k])))
        return [self.resp(st, VersionId='1', Body=h, ContentLength=mk('call', 'len', (r[k],), ()), ContentType='binary', Metadata='', LastModified='')]

    def s3_head_object(self, e, st, args, kw, node):
        if key_str(kw['Key']) not in self.remote(st): e.raise_(st, mk('exc', 'ClientError', const('404'))); return []
        return [self.resp(st, VersionId='1')]

    def list_page(self, e, st, kw):
        self.fail(e, st)
        pre = key_str(kw['Prefix']) if 'Prefix' in kw else ''
        if 'Prefix' in kw and is_str(canon_str(kw['Prefix'])) : pre = cval(canon_str(kw['Prefix']))
        elif 'Prefix' in kw and kw['Prefix'].op == 'path': pass
        after = [kw[k] for k in ('Marker', 'StartAfter', 'ContinuationToken') if k in kw and kw[k] is not NONE]
        keys = sorted(k for k in self.remote(st) if k.startswith(pre) and (not after or k > key_str(after[0])))
        more = self.page is not None and len(keys) > self.page
        if more: keys = keys[:self.page]
        items = []
        for k in keys:
            self.n += 1; st, d = mkdict(st, 'item%d' % self.n, [('Key', k)]); items.append(d)
        self.n += 1
        st, l = mklist(st, 'items%d' % self.n, items)
        d = dict(IsTruncated=more, KeyCount=const(len(keys)))
        if keys: d['Contents'] = l
        if more: d['NextContinuationToken'] = const(keys[-1]); d['NextMarker'] = const(keys[-1])
        return st, d, keys, more

    def s3_list_objects(self, e, st, args, kw, node):
        st, d, _, _ = self.list_page(e, st, kw)
        return [self.resp(st, **{k: v for k, v in d.items() if k not in ('NextMarker', 'NextContinuationToken', 'KeyCount')})]

    def s3_list_objects_v2(self, e, st, args, kw, node):
        st, d, _, _ = self.list_page(e, st, kw)
        return [self.resp(st, **d)]

    def paginator(self, e, st, args, kw, node): return [(st, mk('ext', 's3page'))]

    def paginate(self, e, st, args, kw, node):
        out = []; kw = dict(kw)
        while True:
            st, d, keys, more = self.list_page(e, st, kw)
            st, p = self.resp(st, **d); out.append(p)
            if not more: break
            kw['Marker'] = const(keys[-1])
        self.n += 1
        st, l = mklist(st, 'pages%d' % self.n, out)
        return [(st, l)]


def configure(st, repos, password=PASSWORD, **more):
    """configuration of bvn_repo: repos = [(name, {key: value})]"""
    rs = []
    for n, d in repos:
        st, x = mkdict(st, 'repo ' + n, list(d.items())); rs.append((n, x))
    st, rd = mkdict(st, 'repositories', rs)
    st, s3 = mkdict(st, 's3 configuration', [('access_key', 'a'), ('secret_key', 's'), ('bucket', 'bucket')])
    st, cr = mkdict(st, 'crypto configuration', [('crypt_password', password)])
    return mkdict(st, 'configuration', [('repositories', rd), ('s3', s3), ('crypto', cr)] + list(more.items()))


def run_tool(eng, st, config, what):
    """init(config) and one of backup(), restore()"""
    R, X = [], []
    init, exc = eng.run(eng.lookup_public('bversion.repo_manager:init'), [config], {}, st, 'init')
    X += exc
    for s, _ in init:
        r, x = eng.run(eng.lookup_public('bversion.repo_manager:' + what), [], {}, s, 'bvn_repo ' + what)
        R += r; X += x
    return R, X


def engine(mon):
    eng = make_engine(mon); eng.mon = mon; eng.unroll = 40; eng.reclimit = 6
    for t, h in list(eng.base.heap.items()):          # a process that has just been started: its module level caches are empty
        if h.base is not None and h.base.op == 'open': eng.base = eng.base.setheap(t, H(h.kind, h.known, h.rest, None, h.extra))
    eng.consts.update({k: const(v) for k, v in CONSTS.items()})
    return eng


def messages(content):
    """the clear text segments of a stored object, in order, and the segments that were not encrypted"""
    clear, enc = [], []
    for s in segs(content):
        if s.op == 'bytes1' and s.args[0] == 'enc': enc.append(s)
        else: clear.append(s)
    return clear, enc


def plain(content):
    """the content that can be recovered from a stored object, None if it is not complete and in order"""
    clear, enc = messages(content)
    if not enc: return join([x for x in clear])
    for i, s in enumerate(enc):
        if s.args[1][0] is not enc[0].args[1][0] or cval(s.args[1][1]) != i: return None
    return join([s.args[1][2] for s in enc])


def remote_history(base='/one', deep=False):
    """(store, commits in order, {commit: objects it needs remotely}): nested directories, shared and renamed files, the empty file, a directory that vanishes"""
    revs = [('C0', {'/a': 'a0', '/d/x': 'x', '/d/a': 'other a', '/old/only': 'gone later', '/e': 'empty'}),
            ('C1', {'/a': 'a1', '/d/x': 'x', '/copy': 'x', '/e': 'empty', '/d/e2': 'empty'}),
            ('C2', {'/a': 'a1', '/d/a': 'other a', '/d/x': 'x', '/d/y/z': 'z', '/copy': 'a0'})]
    if deep: revs += [('C3', {'/a': 'a1'}), ('C4', {'/p/q/r/s/t': 'deep', '/p/q/u': 'z', '/a': 'a4'})]
    s, log, files = history(const(base), revs)
    s.objects['empty'] = ('files', const(b'')); s.hash[const(b'')] = const(EMPTY)
    need = {c: reachable(s, c) for c, _ in revs}
    return s, [c for c, _ in revs], need




def reachable(s, commit):
    """names of the objects of one commit: itself, its trees, its files"""
    byid = {oid(n): n for n in s.objects}; out = {commit}

    def walk(n):
        out.add(n)
        d = dict(s.objects[n][1].args[1][0].args[0])
        for _, f in d[const('files')].args[0]: out.add(byid[dict(f.args[0])[const('hash')]])
        for _, t in d[const('dirs')].args[0]: walk(byid[t])
    walk(byid[dict(s.objects[commit][1].args[1][0].args[0])[const('tree_root')]])
    return out


def rkey(s, repo, name):
    h = cval(oid(name))
    return '%s/%s/%s/%s' % (repo, s.objects[name][0], h[:2], h[2:])


SALT = sym('#salt', None, True)
SALTED = [('salt_file', mk('call', 'binascii.hexlify', (SALT,), ()))]
