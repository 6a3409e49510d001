"""C28: a password protected private key is stored encrypted and can be unlocked."""
from ..remote import *

RULES = {
    'encrypted': 'when protection is asked for, the secret key is in the stored private key only as authenticated ciphertext',
    'derived': 'the key of that ciphertext is the password hash of the confirmed password with a salt of full length',
    'fresh': 'salt and nonce are fresh random values of full length, drawn for this key and from each other',
    'revealed': 'the stored private key reveals neither the password nor the key derived from it',
    'unlock': 'unlocking a key, protected or not, gives the secret key that was generated',
    'wrong password': 'unlocking with another password, and a damaged key, fails',
    'public': 'the public key that is handed out belongs to the generated secret key and reveals nothing of it',
}
GEN = 'bversion.crypto:make_keypair'
OPEN = 'bversion.crypto:unlock_private_key'
NONCE, BOXKEY = 24, 32
SECRET, PUBLIC = b1('secret key', size=64), b1('public key', size=32)
RANDOM = ('pysodium.randombytes', 'os.urandom', 'secrets.token_bytes', 'nacl.utils.random')
HASH = 'pysodium.crypto_pwhash'
OTHER = sym('#other password', None, True)
TYPO = sym('#mistyped password', None, True)


class Keys(Remote):
    answers = (); passwords = ()

    def intrinsics(self):
        r = super().intrinsics()
        for n in RANDOM: r[n] = self.i_random
        r.update({'input': self.said('answers'), 'getpass.getpass': self.said('passwords'), 'pysodium.crypto_sign_keypair': lambda e, st, a, k, node: [(st, tup(PUBLIC, SECRET))],
                  'pysodium.crypto_secretbox': self.i_box, 'pysodium.crypto_secretbox_easy': self.i_box, 'pysodium.crypto_secretbox_open': self.i_open, 'pysodium.crypto_secretbox_open_easy': self.i_open,
                  'pysodium.crypto_sign_sk_to_pk': lambda e, st, a, k, node: [(st, PUBLIC if canon_str(a[0]) is SECRET else mk('call', 'sk_to_pk', (a[0],), ()))]})
        return r

    def said(self, what):
        def f(e, st, args, kw, node):
            n = st.auto.get(what, 0); seq = getattr(self, what)
            if n >= len(seq): e.raise_(st, mk('exc', 'EOFError', NONE)); return []
            return [(st.setauto(**{what: n + 1}), seq[n])]
        return f

    def i_random(self, e, st, args, kw, node):
        self.n += 1; n = args[0] if args else NONE
        return [(st, b1('random', const(self.n), n, size=n if is_const(n) and type(cval(n)) is int else None))]

    def i_box(self, e, st, args, kw, node):
        a = self.positional(args, kw, ('msg', 'nonce', 'k'))
        m, n, k = (canon_str(x) for x in a[:3]); s = size(m)
        return [(st, b1('box', m, n, k, size=s[0] + 16 if not s[1] else None))]

    def i_open(self, e, st, args, kw, node):
        a = self.positional(args, kw, ('c', 'nonce', 'k'))
        c, n, k = (canon_str(x) for x in a[:3])
        if c.op == 'bytes1' and c.args[0] == 'box' and c.args[1][1] is n and c.args[1][2] is k: return [(st, c.args[1][0])]
        e.raise_(st, mk('exc', 'ValueError', const('forged'))); return []


def plain(t):
    """the base64 encoding removed"""
    t = canon_str(t)
    while t.op in ('call', 'meth') and t.args[1 if t.op == 'meth' else 0] in ('base64.b64encode', 'encode', 'decode', 'str', 'bytes', 'base64.standard_b64encode', 'base64.urlsafe_b64encode'):
        t = canon_str(t.args[1][0] if t.op == 'call' else t.args[0])
    return t


def exposed(t):
    """parts of t that can be read without a key"""
    t = canon_str(t)
    if t.op == 'bytes1' and t.args[0] in ('box', 'random'):
        if t.args[0] == 'box': yield from exposed(t.args[1][1])
        yield t; return
    if t.op == 'call' and t.args[0] == HASH: yield t; return
    yield t
    if t.op == 'cat': kids = t.args[0]
    else: kids = [x for x in t.args if hasattr(x, 'op')] + [y for x in t.args if isinstance(x, tuple) for y in x if hasattr(y, 'op')]
    for x in kids: yield from exposed(x)


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = Keys(rep); eng = engine(mon)
    eng.consts.update({k: const(v) for k, v in {'pysodium.crypto_box_NONCEBYTES': NONCE, 'pysodium.crypto_secretbox_NONCEBYTES': NONCE, 'pysodium.crypto_secretbox_KEYBYTES': BOXKEY, 'pysodium.crypto_secretbox_MACBYTES': 16,
                       'pysodium.crypto_box_MACBYTES': 16, 'pysodium.crypto_sign_SECRETKEYBYTES': 64, 'pysodium.crypto_sign_PUBLICKEYBYTES': 32}.items()})
    for i, n in enumerate(('OPSLIMIT_INTERACTIVE', 'MEMLIMIT_INTERACTIVE', 'OPSLIMIT_MODERATE', 'MEMLIMIT_MODERATE', 'OPSLIMIT_SENSITIVE', 'MEMLIMIT_SENSITIVE', 'OPSLIMIT_MIN', 'MEMLIMIT_MIN')):
        for a in ('argon2i_', 'argon2id_', ''): eng.consts['pysodium.crypto_pwhash_%s%s' % (a, n)] = const(1000 + i)
    gen, opn = eng.lookup_public(GEN), eng.lookup_public(OPEN); total = 0
    AT = ('bversion/crypto.py', 'make_keypair'); UN = ('bversion/crypto.py', 'unlock_private_key')

    def run(fv, args, answers, passwords):
        nonlocal total
        total += 1
        mon.answers = tuple(const(a) for a in answers); mon.passwords = tuple(passwords)
        return eng.run(fv, args, {}, Remote.begin(eng.base, [], []).setauto(answers=0, passwords=0), 'keys')

    def unlock(label, key, secret=SECRET):
        """the right password, another one, and damaged keys"""
        protected = secret is not None and any(x.op == 'bytes1' and x.args[0] == 'box' for x in subterms_c(key))
        rep.ob('unlock', label)
        R, X = run(opn, [key], [], [PASSWORD, PASSWORD])
        for st, e in X: rep.violate('unlock', UN[0], UN[1], '%s: unlocking fails with %s' % (label, show(e)[:60]), st, key='unlock:raise')
        for st, v in R:
            if canon_str(v) is not SECRET: rep.violate('unlock', UN[0], UN[1], '%s: unlocking gives %s instead of the secret key' % (label, show(v)[:80]), st, key='unlock:value')
            if protected and st.auto.get('passwords', 0) == 0: rep.violate('unlock', UN[0], UN[1], '%s: the key is unlocked without a password' % label, st, key='unlock:asked')
        if not protected: return
        raw = plain(key); ss = segs(raw)
        wrong = [('another password', key, [OTHER, OTHER, OTHER])]
        for i, s in enumerate(ss):
            if s.op == 'bytes1': wrong.append(('part %d of the key damaged' % (i + 1), mk('call', 'base64.b64encode', (join(ss[:i] + [b1('damaged', size=size(s)[0])] + ss[i + 1:]),), ()), [PASSWORD] * 3))
        for what, k, pws in wrong:
            rep.ob('wrong password', '%s: %s' % (label, what))
            for st, v in run(opn, [k], [], pws)[0]:
                rep.violate('wrong password', UN[0], UN[1], '%s, %s: unlocking ends normally with %s' % (label, what, show(v)[:60]), st, key='wrong:' + what.split(' ')[0])

    cases = [('y', ['y'], [PASSWORD] * 2, True), ('Y', ['Y'], [PASSWORD] * 2, True), ('n', ['n'], [], False), ('N', ['N'], [], False), ('another answer, then y', ['maybe', 'y'], [PASSWORD] * 2, True),
             ('y, password mistyped once', ['y'], [PASSWORD, TYPO, PASSWORD, PASSWORD], True), ('y, first of two passwords mistyped', ['y'], [TYPO, PASSWORD, PASSWORD, PASSWORD], True), ('empty answer, then n', ['', 'n'], [], False)]
    for label, answers, passwords, protect in cases:
        R, X = run(gen, [], answers, passwords)
        if not R and label in ('y', 'n'): raise AnalysisBroken('no key pair is generated for the answer %s: %s' % (label, [show(e) for _, e in X][:2]))
        for st, e in X:
            if e.args[0] != 'EOFError': rep.violate('unlock', AT[0], AT[1], 'answer %s: no key pair is generated: %s' % (label, show(e)[:60]), st, key='gen:raise')
        for st, v in R:
            if v.op != 'tup' or len(v.args[0]) != 2: raise AnalysisBroken('make_keypair does not return the two keys: %s' % show(v)[:80])
            priv, pub = v.args[0]
            rep.ob('public', 'answer ' + label)
            if plain(pub) is not PUBLIC: rep.violate('public', AT[0], AT[1], 'answer %s: the public key handed out is %s' % (label, show(pub)[:80]), st)
            if protect: protected(rep, AT, label, priv, st)
            unlock('answer ' + label, canon_str(priv))
    rep.info['scenarios'] = total
    return [eng]


def protected(rep, AT, label, priv, st):
    rep.ob('encrypted', 'answer ' + label); rep.ob('derived', 'answer ' + label); rep.ob('revealed', 'answer ' + label)
    open_ = list(exposed(priv))
    if any(x is SECRET or x.op == 'bytes1' and x.args[0] in ('chunk', 'rest') and SECRET in subterms_c(x) for x in open_):
        rep.violate('encrypted', AT[0], AT[1], 'answer %s: the private key to be stored contains the secret key in clear' % label, st); return
    boxes = [x for x in open_ if x.op == 'bytes1' and x.args[0] == 'box' and SECRET in subterms_c(x)]
    if not boxes:
        rep.violate('encrypted', AT[0], AT[1], 'answer %s: the private key to be stored does not contain the secret key as authenticated ciphertext: %s' % (label, show(plain(priv))[:120]), st); return
    if any(x is PASSWORD or x is TYPO or x.op == 'call' and x.args[0] == HASH for x in open_):
        rep.violate('revealed', AT[0], AT[1], 'answer %s: the private key to be stored contains the password or the key derived from it' % label, st)
    fresh = [x for x in open_ if x.op == 'bytes1' and x.args[0] == 'random']
    for b in boxes:
        msg, nonce, k = b.args[1]
        rep.ob('fresh', 'answer %s: nonce' % label); rep.ob('fresh', 'answer %s: salt' % label)
        if k.op != 'call' or k.args[0] != HASH or k.args[1][1] is not PASSWORD or k.args[1][0] is not const(BOXKEY):
            rep.violate('derived', AT[0], AT[1], 'answer %s: the secret key is encrypted under %s, which is not the password hash of the confirmed password' % (label, show(k)[:100]), st); continue
        salt = k.args[1][2]
        for what, t, n in (('salt', salt, SALTBYTES), ('nonce', nonce, NONCE)):
            if t.op != 'bytes1' or t.args[0] != 'random': rep.violate('fresh', AT[0], AT[1], 'answer %s: the %s is %s, not a fresh random value' % (label, what, show(t)[:80]), st, key='fresh:' + what)
            elif size(t) != (n, ()): rep.violate('fresh', AT[0], AT[1], 'answer %s: the %s has %s instead of %d random bytes' % (label, what, show(t.args[1][1]), n), st, key='fresh:' + what)
            elif t not in fresh: rep.violate('unlock', AT[0], AT[1], 'answer %s: the %s is not stored with the key' % (label, what), st, key='stored:' + what)
        if salt is nonce: rep.violate('fresh', AT[0], AT[1], 'answer %s: the same random value is used as salt and as nonce' % label, st, key='fresh:same')
