"""C25: backed-up content leaves only encrypted and authenticated."""
from ..remote import *

RULES = {
    'encrypted': 'everything sent to the remote store, apart from the salt and the format header with its length, is a message of an authenticated secret stream',
    'key': 'the key of every stream comes from the password hash of the configured password with the salt that is on the remote',
    'salt': 'a salt that is not on the remote yet is fresh and random, and is stored there before anything is encrypted with it',
    'bound': 'the format header that is stored in front of the messages is the authenticated data of every message, and is stored exactly as authenticated',
    'header': 'the stored header reveals neither the password, the key nor any content',
    'no-password': 'without a password nothing is sent to the remote store',
    'verified': 'on the reading side a header or message that is not the one that was written is rejected: nothing of it is restored',
}
AT = ('bversion/repo_manager.py', 'restore')
PW_HASH = ('pysodium.crypto_pwhash',)


class Leak(Remote):
    secret = frozenset(); case = ''; mode = 'write'; forbidden = False; allow = frozenset()

    def sent(self, e, st, node, key, body):
        w = (e.loc(node), e.func.qual if e.func else '?')
        if self.forbidden:
            self.rep.ob('no-password', self.case)
            self.rep.violate('no-password', w[0], w[1], '%s: %s is sent' % (self.case, key), st); return
        if self.mem(st, body) is not None: body = join(self.mem(st, body)[2])
        what = '%s: %s' % (w[1], 'salt' if key == 'salt_file' else key.split('/')[1])
        self.rep.ob('encrypted', what)
        for s in segs(join([body])):
            if s.op == 'bytes1' and s.args[0] == 'enc': self.message(e, st, w, what, key, s)
            elif s.op == 'bytes1' and s.args[0] == 'cryptoheader': pass
            elif self.header(s): self.check_header(st, w, what, s)
            elif s.op == 'call' and s.args[0] == 'struct.pack' or is_str(s) and len(cval(s)) <= 4 and b1len(s): pass
            elif self.salt_text(s): self.check_salt(st, w, key, s)
            elif any(x.op in ('call', 'meth') and isinstance(x.args[0 if x.op == 'call' else 1], str) and any(y in x.args[0 if x.op == 'call' else 1] for y in ('secretbox', 'aead', 'crypto_box')) for x in [s]): pass
            else: self.rep.violate('encrypted', w[0], w[1], '%s is sent in clear: %s' % (key, show(s)[:100]), st, key='encrypted:' + w[1])

    def header(self, s): return s.op == 'call' and s.args[0] == 'json.dumps' and not any(x.op == 'fdict' and any(k is const('type') for k, _ in x.args[0]) for x in subterms_c(s))

    def check_header(self, st, w, what, s):
        self.rep.ob('header', what)
        for x in subterms_c(s):
            if x is PASSWORD or x.op == 'call' and x.args[0] in PW_HASH or x.op == 'sym' and x.args[0].startswith('#content'):
                self.rep.violate('header', w[0], w[1], 'the format header contains %s' % show(x)[:60], st)

    @staticmethod
    def salt_text(s): return s.op in ('call', 'meth') and random_bytes(s)

    def check_salt(self, st, w, key, s):
        self.rep.ob('salt', '%s: stored' % key)
        r = random_bytes(s)
        if not r or s is SALT or any(x is PASSWORD or x.op == 'call' and x.args[0] in PW_HASH for x in subterms_c(s)):
            self.rep.violate('salt', w[0], w[1], 'what is stored as salt is not fresh random data: %s' % show(s)[:80], st)

    def message(self, e, st, w, what, key, s):
        stream, n, msg, ad = s.args[1]; k = stream.args[1]
        self.rep.ob('key', what); self.rep.ob('bound', what)
        ok = k.op == 'call' and k.args[0] in PW_HASH and any(a is PASSWORD for a in k.args[1])
        salts = [a for a in k.args[1] if a is SALT or random_bytes(a)] if ok else []
        if not ok or not salts: self.rep.violate('key', w[0], w[1], '%s is encrypted under %s, which is not the hash of the configured password and salt' % (key, show(k)[:80]), st)
        elif salts[0] is not SALT:
            self.rep.ob('salt', 'used')
            if not any(mentions_t(c, salts[0]) for c in self.remote(st).values()): self.rep.violate('salt', w[0], w[1], '%s is encrypted with a salt that is not stored on the remote' % key, st)
        elif not any(mentions_t(c, SALT) for c in self.remote(st).values()): self.rep.violate('salt', w[0], w[1], 'the salt is gone from the remote', st)
        if not self.header(ad): self.rep.violate('bound', w[0], w[1], 'a message of %s is not bound to the format header: authenticated data is %s' % (key, show(ad)[:60]), st)

    def published(self, e, st, node, key):
        c = self.remote(st)[key]; clear, enc = messages(c); w = (e.loc(node), e.func.qual if e.func else '?')
        if enc:
            heads = [x for x in clear if self.header(x)]
            self.rep.ob('bound', '%s: header stored' % w[1])
            if any(m.args[1][3] not in heads for m in enc): self.rep.violate('bound', w[0], w[1], 'the header stored with %s is not the authenticated data of its messages' % key, st, key='bound:stored')
            if len({m.args[1][0] for m in enc}) > 1: self.rep.violate('bound', w[0], w[1], 'the messages of %s belong to several streams' % key, st, key='bound:streams')


def b1len(s): return isinstance(cval(s), bytes)
def mentions_t(t, x): return x in subterms_c(t)


def random_bytes(t):
    """a fresh random value in t"""
    for x in subterms_c(t):
        if x is SALT: return x
        if x.op == 'fresh' and isinstance(x.args[0], str) and any(w in x.args[0] for w in ('random', 'token')): return x
    return None


def tampered(content):
    """other contents of a stored object: an altered header, exchanged, repeated, dropped or foreign messages"""
    ss = segs(content); out = []
    for i, s in enumerate(ss):
        if s.op == 'call' and s.args[0] == 'json.dumps':
            d = s.args[1][0]
            for j, (k, v) in enumerate(d.args[0]):
                if is_str(v) and cval(v).isdigit() and len(cval(v)) == 1:
                    new = mk('call', 'json.dumps', (mk('fdict', d.args[0][:j] + ((k, const(str(int(cval(v)) + 1))),) + d.args[0][j + 1:], *d.args[1:]),), ())
                    out.append(('header field %s altered' % cval(k), [subst(x, {s: new}) if x.op != 'bytes1' else x for x in ss]))
    enc = [i for i, s in enumerate(ss) if s.op == 'bytes1' and s.args[0] == 'enc']
    if len(enc) > 1:
        a, b = enc[:2]
        x = list(ss); x[a], x[b] = x[b], x[a]; out.append(('messages exchanged', x))
    if enc:
        x = list(ss); m = x[enc[-1]]; x[enc[-1]] = b1('forged', size=None); out.append(('last message forged', x))
    return out


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = Leak(rep); eng = engine(mon); total = 0
    one = remote_history('/one', tier == 'thorough')
    mon.store = one[0]
    for n, (k, c) in one[0].objects.items(): pass

    def go(case, what, fs, remote, password=PASSWORD, page=None):
        nonlocal total
        total += 1
        mon.case = case; mon.seen = set(); mon.snaps = []; mon.effects = []; mon.puts = []; mon.page = page
        st = Remote.begin(eng.base, fs, remote)
        st, c = configure(st, [('one', {'path': '/one', 'backup': True})], password)
        return run_tool(eng, st, c, what)
    R, X = go('salt on the remote', 'backup', one[0].fs(), SALTED)
    R2, X2 = go('no salt yet', 'backup', one[0].fs(), [])
    if not R or not R2: raise AnalysisBroken('the backup does not end normally: %s' % [show(e) for _, e in X + X2][:2])
    full = dict(R[0][0].auto['remote'])
    mon.forbidden = True
    for pw, name in ((NONE, 'password not set'), (const(''), 'empty password')):
        for remote in (SALTED, []):
            rep.ob('no-password', name + (', salt present' if remote else ''))
            go(name, 'backup', one[0].fs(), remote, password=pw)
    mon.forbidden = False
    # reading side
    mon.mode = 'read'
    rd, xd = go('intact', 'restore', [], full.items())
    rep.info['restore of the intact backup'] = 'works' if rd else 'fails: %s' % [show(e) for _, e in xd][:1]
    victims = sorted({rkey(one[0], 'one', n) for n in ('C2', 'C0', 'a1', 'gone later') if n in one[0].objects} | {'one/head'})
    if not any(tampered(full[k]) for k in victims if k in full): raise AnalysisBroken('the stored format is not recognised')
    for k in victims:
        if k not in full: continue
        for what, ss in tampered(full[k]):
            remote = dict(full); remote[k] = join(ss)
            label = '%s of %s' % (what, k.split('/')[1])
            rep.ob('verified', label)
            R, X = go(label, 'restore', [], remote.items())
            for st, _ in R: rep.violate('verified', AT[0], AT[1], '%s: the restore ends normally although the %s' % (label, what), st, key='verified:' + what.split(' ')[0])
    # another password
    rep.ob('verified', 'wrong password')
    R, X = go('wrong password', 'restore', [], full.items(), password=sym('#other password', None, True))
    for st, _ in R: rep.violate('verified', AT[0], AT[1], 'a restore with a wrong password ends normally', st)
    rep.info['scenarios'] = total
    return [eng]
