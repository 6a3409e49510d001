"""Trusted summaries (intrinsics) of a few leaf functions, and classification of file-system effects.

Every summarised repository function is itself checked elsewhere (hash_file and the thread-local database
cache by their own rules, cpjoin is a pure path join)."""
from .terms import *
from .state import *

COMMON = 'bversion.common.'


def i_cpjoin(eng, st, args, kw, node):
    return [(st, mkpath(args))]


def i_hash_file(eng, st, args, kw, node):
    p = args[0] if args else kw.get('file_path')
    if p is None: return None
    eng.maybe_raise(st, 'hash_file')
    v = mk('call', 'hash_file', (mkpath([p]),), ())
    return eng.emit2('call', 'hash_file', [p], {}, None, v, node, st)


def i_sdb(eng, st, args, kw, node):
    path = args[0] if args else kw.get('db_file_path')
    ov = kw.get('path_override', args[2] if len(args) > 2 else NONE)
    return [(st, mk('sdb', path, ov))]


def i_mkdirs(eng, st, args, kw, node):
    return eng.emit2('call', 'os.makedirs', list(args), {}, None, NONE, node, st)


def i_read_file(eng, st, args, kw, node):
    """file_get_contents: contents of a file as a value that depends on the path (and on the write epoch of it)"""
    p = args[0] if args else kw.get('path')
    eng.maybe_raise(st, 'file_get_contents')
    v = mk('content', mkpath([p]), st.epochs.get(('fs', mkpath([p])), st.epochs.get(('fs', '*'), 'init')))
    return eng.emit2('call', 'file_get_contents', [p], {}, None, v, node, st)


STD = {COMMON + 'cpjoin': i_cpjoin, COMMON + 'hash_file': i_hash_file, COMMON + 'make_dirs_if_dont_exist': i_mkdirs,
       'bversion.storage.server_db.get_server_db_instance_for_thread': i_sdb}

WRITE_MODES = set('wax+')


def effects(ev):
    """file-system effects of an external call: list of (effect, *terms)"""
    if ev.kind != 'call': 
        if ev.kind == 'meth':
            r = ev.recv
            if ev.name in ('write', 'writelines') and r.op == 'fresh' and r.args[0] == 'open': return [('hwrite', r, ev.args[0] if ev.args else NONE)]
            if ev.name == 'truncate' and r.op == 'fresh' and r.args[0] == 'open': return [('hwrite', r, NONE)]
            p = r
            if ev.name in ('unlink', 'rmdir') and ev.recv.op == 'path': return [('remove', p)]
            if ev.name in ('rename', 'replace') and ev.recv.op == 'path': return [('rename', p, ev.args[0])]
            if ev.name in ('write_bytes', 'write_text') and ev.recv.op == 'path': return [('openw', p, ev.result), ('hwrite', ev.result, ev.args[0])]
        return []
    n, a = ev.name, ev.args
    if n == 'file_get_contents': return [('openr', a[0], ev.result)]
    if n == 'hash_file': return [('hash', a[0], ev.result)]
    if n in ('os.listdir', 'os.scandir', 'os.walk') and a: return [('list', a[0], ev.result)]
    if n == 'open' or n == 'io.open':
        mode = ev.arg(1, 'mode')
        if mode is None or (is_str(mode) and not set(cval(mode)) & WRITE_MODES): return [('openr', a[0], ev.result)]
        m = cval(mode) if is_str(mode) else 'w'
        return [('openw', a[0], ev.result, 'a' in m or ('+' in m and 'r' in m))]
    if n == 'os.open': return [('openw', a[0], ev.result, True)]
    if n in ('os.rename', 'os.replace', 'os.renames') and len(a) >= 2: return [('rename', a[0], a[1])]
    if n == 'shutil.move' and len(a) >= 2: return [('rename', a[0], a[1])]
    if n in ('shutil.copy', 'shutil.copyfile', 'shutil.copy2') and len(a) >= 2: return [('copy', a[0], a[1])]
    if n in ('os.link', 'os.symlink') and len(a) >= 2: return [('link', a[0], a[1])]
    if n in ('os.remove', 'os.unlink') and a: return [('remove', a[0])]
    if n in ('os.rmdir', 'os.removedirs') and a: return [('rmdir', a[0])]
    if n == 'shutil.rmtree' and a: return [('rmtree', a[0])]
    if n in ('os.makedirs', 'os.mkdir') and a: return [('mkdir', a[0])]
    if n in ('os.truncate',) and a: return [('openw', a[0], ev.result, True)]
    return []


def pp(t): return path_parts(t)


def under(t, *suffix):
    """does path t end in the constant components `suffix`?"""
    q = path_parts(t)
    return len(q) >= len(suffix) and all(is_const(a) and cval(a) == b for a, b in zip(q[-len(suffix):], suffix))


READ = {COMMON + 'file_get_contents': i_read_file}
