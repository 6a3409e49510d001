"""C06: stored objects are named by their content, published whole, never overwritten."""
from .store import *
from ..copyloop import Copy

RULES = {
    'publish': 'an object appears in the store only by a rename to <first two digits>/<the rest> of its name, from a file of the repository',
    'content-named': 'its name is the SHA-256 of exactly the bytes of the file renamed, which is complete and closed',
    'no-overwrite': 'an object is only stored after establishing that it is not in the store yet',
    'no-direct': 'nothing is opened for writing, copied or linked below the store directories',
    'hash-file': 'hash_file feeds every byte of the file into SHA-256 and answers with its hexadecimal digest',
    'body-copied': 'push_file writes every part of the received body to the file that is then stored',
}
OPTIONAL = ('no-direct',)
BODY = mk('attr', REQ, 'body')


class M(StoreMon):
    def object(self, ev, op, src, dst, o, st):
        if op in ('openw', 'copy', 'link'):
            self.bad('no-direct', ev, st, 'the store is written to directly by %s: %s' % (op, show(dst)[:120])); return st
        if op != 'rename': return st
        self.ok('publish', ev.func)
        kind, h, root = o
        if h is None: self.bad('publish', ev, st, 'an object is stored under a path not made of the two parts of its name: %s' % show(dst)[:160]); return st
        if not self.inrepo(src): self.bad('publish', ev, st, 'an object is moved into the store from outside the repository: %s' % show(src)[:100])
        self.ok('no-overwrite', ev.func)
        if not self.absent(st, h, kind): self.bad('no-overwrite', ev, st, 'an object is stored without establishing that it does not exist yet')
        self.ok('content-named', ev.func)
        p = hash_of_file(h)
        if p is not None:
            if p is not mkpath([src]): self.bad('content-named', ev, st, 'the object is named by the hash of another file: %s' % show(p)[:100])
            elif not st.has(('hashed', p)): self.bad('content-named', ev, st, 'the file may have been written to after it was hashed, or was hashed before it was complete')
            return st
        data = sha256_of(h)
        v = self.complete(st, src)
        if v is None: self.bad('content-named', ev, st, 'the file moved into the store is not known to be complete and closed')
        elif data is None or canon_str(data) is not canon_str(v): self.bad('content-named', ev, st, 'the object is not named by the SHA-256 of its bytes (name %s, content %s)' % (show(h)[:90], show(v)[:90]))
        return st


class HashFile(Copy):
    short_is_eof = True

    def reads(self, ev, st):
        if ev.kind == 'meth' and ev.name in ('read', 'read1', 'readline') and ev.recv.op == 'fresh' and ev.recv.args[0] == 'open':
            if mkpath([ev.recv.args[2]]) is not mkpath([PATH]): self.bad(ev, st, 'another file is read')
            n = ev.arg(0)
            return ev.result, n, n is None or is_const(n) and cval(n) in (None, -1)

    def sinks(self, ev, st):
        if ev.kind == 'meth' and ev.name == 'update': return ev.args
        if ev.kind == 'call' and ev.name in ('hashlib.sha256', 'hashlib.new') and ev.args: return ev.args


PATH = sym('file_path')


class Body(Copy):
    def reads(self, ev, st):
        if ev.kind == 'meth' and ev.recv is BODY and ev.name in ('read', 'read_all'): return ev.result, ev.arg(0), ev.name == 'read_all' or ev.arg(0) is None and False

    def sinks(self, ev, st):
        if ev.kind == 'meth' and ev.name == 'write' and ev.recv.op == 'fresh' and ev.recv.args[0] == 'open': return ev.args


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    eng = make_engine(intr=dict(model.READ, **storage.SUMMARY)); setup_alias(eng)
    m = M(rep, config(eng)); m.rules = set(RULES)
    run_routes(rep, m, eng, ('commit', 'push_file', 'begin_commit', 'delete_files'), tier)
    rep.ob('no-direct', 'all writing routes')

    b = Body(rep, 'body-copied', 'push_file'); eng.mon = b
    for st, v in run_handler(eng, 'push_file', handlers(eng)['push_file'])[0]:
        if response_status(st, v) == 'fail': continue
        b.finish(At('bversion/server.py', 'push_file'), st)

    eng2 = make_engine(prog=eng.prog); eng2.intr.pop('bversion.common.hash_file', None)
    h = HashFile(rep, 'hash-file', 'hash_file'); eng2.mon = h
    rets, _ = eng2.run(eng2.lookup_public('bversion.common:hash_file'), [PATH], {}, eng2.base, 'hash_file')
    at = At('bversion/common.py', 'hash_file')
    for st, v in rets:
        h.finish(at, st, need=not any(x.op == 'call' and x.args[0] == 'hashlib.file_digest' for x in subterms_c(v)))
        if not any('sha256' in str(x.args[0]).lower() or is_str(x) and 'sha256' in str(cval(x)).lower() for x in subterms_c(v) if x.op in ('fresh', 'call', 'const', 'ext')) or not (canon_str(v).op == 'meth' and canon_str(v).args[1] == 'hexdigest'):
            h.bad(at, st, 'the answer is not the hexadecimal SHA-256 digest: %s' % show(v)[:80])
    rep.ob('hash-file', 'bversion.common.hash_file')
    return [eng, eng2]
