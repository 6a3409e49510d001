import json, os, re, fnmatch, errno, functools, itertools, collections, operator
from collections import defaultdict, OrderedDict, namedtuple, deque, Counter
from contextlib import contextmanager, suppress
from dataclasses import dataclass
from typing import List, Optional

def t_sorted(): return sorted(['b', 'a', 'c'])
def t_sorted_rev(): return sorted(['b', 'a', 'c'], reverse=True)
def t_sorted_key(): return sorted([{'p': 'b'}, {'p': 'a'}], key=lambda x: x['p'])[0]['p']
def t_sorted_len(): return sorted(['bbb', 'a', 'cc'], key=len)
def t_sorted_dict(): return sorted({'z': 1, 'b': 2})
def t_sorted_items(): return [k for k, v in sorted({'z': 1, 'b': 2}.items())]
def t_sorted_itemgetter(): return [x['p'] for x in sorted([{'p': 'b'}, {'p': 'a'}], key=operator.itemgetter('p'))]
def t_list_eq(): return sorted(x for x in ['b', 'a']) == sorted({'a', 'b'})
def t_list_ne(): return ['a', 'b'] != ['a', 'b']
def t_list_ne2(): return ['a', 'b'] == ['a', 'c']
def t_set_eq(): return {'a', 'b'} == {'b', 'a'}
def t_set_eq2(): return set(['a', 'b']) == {x for x in ('b', 'a')}
def t_set_ne(): return {'a'} == {'b'}
def t_dict_eq(): return {'a': 1, 'b': 2} == {'b': 2, 'a': 1}
def t_tuple_eq(): return ('a', 1) == ('a', 1)
def t_tuple_lt(): return (1, 2) < (1, 3)
def t_set_sub(): return {'a', 'b'} - {'b'}
def t_set_xor(): return {'a', 'b'} ^ {'b', 'c'}
def t_set_and(): return {'a', 'b'} & {'b', 'c'}
def t_set_or(): return {'a', 'b'} | {'b', 'c'}
def t_set_le(): return {'a'} <= {'b', 'a'}
def t_set_le2(): return {'a', 'z'} <= {'b', 'a'}
def t_set_issubset(): return {'a'}.issubset({'b', 'a'})
def t_set_issup(): return {'a', 'b'}.issuperset(['a'])
def t_set_disj(): return {'a', 'b'}.isdisjoint(['c'])
def t_set_symdiff(): return {'a', 'b'}.symmetric_difference({'b'})
def t_set_diff(): return {'a', 'b'}.difference(['b'])
def t_set_union(): return set().union({'a'}, ['b'])
def t_set_inter(): return {'a', 'b'}.intersection(['b', 'x'])
def t_set_discard():
    s = {'a', 'b'}; s.discard('a'); s.discard('q'); return s
def t_set_remove():
    s = {'a', 'b'}; s.remove('a'); return s
def t_set_add():
    s = set(); s.add('a'); s.add('a'); return len(s)
def t_set_update():
    s = {'a'}; s.update(['b', 'c']); s |= {'d'}; return s
def t_set_pop_empty(): return set().pop()
def t_len_list(): return len([1, 2, 3])
def t_len_str(): return len('hello')
def t_list_slice(): return [1, 2, 3, 4][1:3]
def t_list_slice2(): return [1, 2, 3, 4][:-1]
def t_list_slice3(): return [1, 2, 3, 4][::-1]
def t_list_neg(): return [1, 2, 3][-1]
def t_list_append():
    l = []
    for i in range(3): l.append(i * 2)
    return l
def t_list_extend():
    l = ['a']; l.extend(['b', 'c']); l += ['d']; return l
def t_list_insert():
    l = ['a', 'b']; l.insert(0, 'z'); l.insert(2, 'y'); return l
def t_list_pop():
    l = ['a', 'b', 'c']; x = l.pop(); y = l.pop(0); return (x, y, l)
def t_list_remove():
    l = ['a', 'b', 'c']; l.remove('b'); return l
def t_list_index(): return ['a', 'b'].index('b')
def t_list_index_missing(): return ['a', 'b'].index('q')
def t_list_count(): return ['a', 'b', 'a'].count('a')
def t_list_reverse():
    l = ['a', 'b']; l.reverse(); return l
def t_list_sort():
    l = ['c', 'a', 'b']; l.sort(); return l
def t_list_sort_key():
    l = ['ccc', 'a', 'bb']; l.sort(key=lambda s: -len(s)); return l
def t_list_mul(): return ['a'] * 3
def t_list_add(): return ['a'] + ['b']
def t_list_unpack():
    a, *b = [1, 2, 3]; return (a, b)
def t_list_unpack2():
    *a, b = [1, 2, 3]; return (a, b)
def t_list_star(): return [*[1, 2], 3, *(4, 5)]
def t_list_del():
    l = [1, 2, 3]; del l[0]; return l
def t_list_setslice():
    l = [1, 2, 3]; l[1] = 9; return l
def t_list_copy():
    l = [1]; m = list(l); m.append(2); return (l, m)
def t_list_copy2():
    l = [1]; m = l.copy(); m.append(2); return (l, m)
def t_list_copy3():
    l = [1]; m = l[:]; m.append(2); return (l, m)
def t_list_clear():
    l = [1]; l.clear(); return l
def t_list_nested():
    l = [[], []]; l[0].append(1); return l
def t_alias():
    l = []; m = l; m.append(1); return l
def t_dict_get(): return ({'a': 1}.get('a'), {'a': 1}.get('b'), {'a': 1}.get('b', 5))
def t_dict_pop():
    d = {'a': 1}; return (d.pop('a'), d.pop('x', 7), d)
def t_dict_popmiss():
    d = {'a': 1}; return d.pop('b')
def t_dict_setdefault():
    d = {}; d.setdefault('a', []).append(1); d.setdefault('a', []).append(2); return d
def t_dict_defaultdict():
    d = defaultdict(list); d['a'].append(1); d['b'].append(2); return dict(d)
def t_dict_defaultint():
    d = defaultdict(int); d['a'] += 1; d['a'] += 1; return d['a']
def t_counter(): return Counter(['a', 'b', 'a'])['a']
def t_dict_update():
    d = {'a': 1}; d.update({'b': 2}); d.update(c=3); d |= {'e': 5}; return d
def t_dict_or(): return {'a': 1} | {'a': 2, 'b': 3}
def t_dict_star(): return {**{'a': 1}, 'b': 2}
def t_dict_comp(): return {k: v + 1 for k, v in {'a': 1, 'b': 2}.items() if k != 'a'}
def t_dict_in(): return ('a' in {'a': 1}, 'b' in {'a': 1}, 'b' not in {'a': 1}.keys())
def t_dict_del():
    d = {'a': 1, 'b': 2}; del d['a']; return d
def t_dict_delmiss():
    d = {}; del d['a']; return d
def t_dict_miss(): return {'a': 1}['b']
def t_dict_keys_minus(): return {'a': 1, 'b': 2}.keys() - {'a': 1}.keys()
def t_dict_keys_and(): return {'a': 1, 'b': 2}.keys() & {'a', 'c'}
def t_dict_keys_xor(): return {'a': 1, 'b': 2}.keys() ^ {'a', 'c'}
def t_dict_keys_eq(): return {'a': 1}.keys() == {'a'}
def t_dict_keys_set(): return set({'a': 1, 'b': 2}) - set({'b': 1})
def t_dict_list(): return list({'a': 1, 'b': 2})
def t_dict_values(): return list({'a': 1, 'b': 2}.values())
def t_dict_zip(): return dict(zip(['a', 'b'], [1, 2]))
def t_dict_fromkeys(): return dict.fromkeys(['a', 'b'], 0)
def t_dict_pairs(): return dict([('a', 1), ('b', 2)])
def t_dict_kw(): return dict(a=1, b=2)
def t_dict_gen(): return dict((k, 1) for k in 'ab')
def t_dict_any(): return any(v == [] for v in {'a': [], 'b': [1]}.values())
def t_dict_all(): return all(v == [] for k, v in {'a': [], 'b': []}.items())
def t_dict_len(): return len({'a': 1, 'b': 2})
def t_dict_items_sorted(): return sorted({'b': 1, 'a': 2}.items(), key=lambda kv: kv[1])
def t_dict_next(): return next(iter({'a': 1}))
def t_dict_iter_mut():
    d = {'a': 1, 'b': 2}
    for k in list(d): 
        if d[k] == 1: del d[k]
    return d
def t_dict_copy():
    d = {'a': 1}; e = dict(d); e['b'] = 2; return (d, e)
def t_dict_copy2():
    d = {'a': 1}; e = d.copy(); e['b'] = 2; return (d, e)
def t_ordered():
    d = OrderedDict(); d['b'] = 1; d['a'] = 2; return list(d)
def t_namedtuple():
    P = namedtuple('P', 'x y'); p = P(1, 2); return (p.x, p.y)
def t_next_default(): return next((x for x in [1, 2, 3] if x > 5), None)
def t_next_found(): return next((x for x in [1, 2, 3] if x > 1), None)
def t_next_true(): return next((True for x in ['*.a', '*.b'] if fnmatch.fnmatch('q.b', x)), False)
def t_any_fn(): return any(fnmatch.fnmatch('/a/b.txt', p) for p in ['/c/*', '/a/*'])
def t_any_empty(): return any(x for x in [])
def t_all_empty(): return all([])
def t_filter(): return list(filter(lambda x: x > 1, [1, 2, 3]))
def t_filter_none(): return list(filter(None, ['', 'a', None]))
def t_map(): return list(map(str, [1, 2]))
def t_map_lambda(): return [*map(lambda x: x['a'], [{'a': 1}])]
def t_sum(): return sum([1, 2, 3])
def t_sum_gen(): return sum(len(x) for x in ['a', 'bb'])
def t_min_max(): return (min([3, 1, 2]), max([3, 1, 2]), max('a', 'b'), min((2, 3), default=0), max([], default=0))
def t_max_key(): return max([{'v': 1}, {'v': 5}], key=lambda d: d['v'])['v']
def t_enumerate(): return [(i, x) for i, x in enumerate(['a', 'b'])]
def t_enumerate1(): return [(i, x) for i, x in enumerate(['a', 'b'], 1)]
def t_reversed(): return list(reversed(['a', 'b', 'c']))
def t_reversed_for():
    r = []
    for x in reversed([1, 2, 3]): r.append(x)
    return r
def t_zip(): return list(zip([1, 2], ['a', 'b']))
def t_zip3(): return [a + b for a, b in zip(['x', 'y'], ['1', '2', '3'])]
def t_chain(): return list(itertools.chain([1], [2, 3]))
def t_chain_from(): return list(itertools.chain.from_iterable([[1], [2, 3]]))
def t_product(): return list(itertools.product([1, 2], ['a']))
def t_reduce(): return functools.reduce(lambda a, b: a + b, [1, 2, 3], 0)
def t_partial(): return functools.partial(lambda a, b: a + b, 1)(2)
def t_str_split(): return 'a/b/c'.split('/')
def t_str_split2(): return 'a/b/c'.split('/', 1)
def t_str_rsplit(): return 'a/b/c'.rsplit('/', 1)
def t_str_partition(): return 'a:b:c'.partition(':')
def t_str_rpartition(): return 'a:b:c'.rpartition(':')
def t_str_join(): return '/'.join(['a', 'b'])
def t_str_join_gen(): return ', '.join(x.upper() for x in ['a', 'b'])
def t_str_strip(): return (' a '.strip(), '/a/'.lstrip('/'), '/a/'.rstrip('/'))
def t_str_case(): return ('Ab'.lower(), 'Ab'.upper(), 'ab'.title(), 'AB'.casefold())
def t_str_replace(): return 'a/b/c'.replace('/', '.')
def t_str_starts(): return ('abc'.startswith('ab'), 'abc'.endswith(('x', 'bc')), 'abc'.startswith(('q', 'r')))
def t_str_in(): return ('b' in 'abc', 'q' in 'abc')
def t_str_slice(): return ('hello'[1:3], 'hello'[-1], 'hello'[0], 'hello'[:-2])
def t_str_fmt(): return '%s-%d' % ('a', 3)
def t_str_fmt1(): return '%s!' % 'a'
def t_str_fstring():
    a = 'x'; b = 3
    return f'{a}:{b}'
def t_str_fstring2():
    b = 3
    return f'{b:03d}'
def t_str_format(): return '{} {}'.format('a', 1)
def t_str_format2(): return '{a}-{b}'.format(a=1, b='q')
def t_str_format3(): return '{0}{1}{0}'.format('a', 'b')
def t_str_find(): return ('abc'.find('c'), 'abc'.find('z'), 'abc'.index('b'), 'a/b/c'.rfind('/'))
def t_str_count(): return 'banana'.count('a')
def t_str_lines(): return 'a\nb\n'.splitlines()
def t_str_encode(): return ('a'.encode(), b'a'.decode('utf-8'), 'a'.encode('utf8'))
def t_str_mul(): return '-' * 5
def t_str_removeprefix(): return 'foobar'.removeprefix('foo')
def t_str_isdigit(): return ('12'.isdigit(), 'a'.isdigit(), 'ab'.isalnum())
def t_str_zfill(): return '7'.zfill(3)
def t_str_iter(): return [c for c in 'abc']
def t_str_cmp(): return 'a' < 'b'
def t_str_concat():
    s = ''
    for x in ['a', 'b', 'c']: s += x
    return s
def t_str_repr(): return repr('a')
def t_str_of(): return (str(5), str(True), str('a'), str(None))
def t_int(): return (int('5'), int(True), int(3.7), int('ff', 16))
def t_int_bad(): return int('x')
def t_bool(): return (bool(''), bool('0'), bool([]), bool([0]), bool(0))
def t_bool_int(): return str(int(False))
def t_bytes(): return (b'abc'[0:2], b'a' + b'b', len(b'abc'), b'ab'.hex(), bytes.fromhex('6162'))
def t_bytes_idx(): return b'abc'[0]
def t_bytes_find(): return b'a\r\n\r\nb'.find(b'\r\n\r\n')
def t_bytes_split(): return b'a\r\nb'.split(b'\r\n')
def t_bytes_join(): return b''.join([b'a', b'b'])
def t_bytearray():
    b = bytearray(); b += b'ab'; b.extend(b'c'); return bytes(b)
def t_arith(): return (7 // 2, 7 % 3, 2 ** 3, 7 / 2, -3, abs(-3), divmod(7, 2))
def t_bits(): return (5 & 1, 4 | 1, 5 ^ 1, 1 << 3, ~0)
def t_round(): return (round(2.5), round(1.234, 2))
def t_cmp_chain(): return (1 < 2 < 3, 1 < 5 < 3)
def t_ternary(): return 'a' if 1 > 2 else 'b'
def t_boolop(): return (None or 'x', '' or 'y', 'a' and 'b', 0 and 5, not 0)
def t_is(): return (None is None, 'a' is not None)
def t_walrus():
    if (n := len('abc')) > 2: return n
    return 0
def t_while():
    i = 0
    while i < 4: i += 1
    return i
def t_while_else():
    i = 0
    while i < 3:
        i += 1
        if i == 9: break
    else: return 'else'
    return 'broke'
def t_while_true():
    i = 0
    while True:
        i += 1
        if i >= 3: break
    return i
def t_for_else():
    for x in ['a', 'b']:
        if x == 'z': break
    else: return 'none'
    return x
def t_for_else2():
    for x in ['a', 'b']:
        if x == 'b': break
    else: return 'none'
    return x
def t_for_continue():
    r = []
    for x in [1, 2, 3, 4]:
        if x % 2: continue
        r.append(x)
    return r
def t_for_nested():
    r = []
    for a in 'ab':
        for b in '12':
            r.append(a + b)
    return r
def t_for_index():
    r = []; l = ['a', 'b']
    for i in range(len(l)): r.append(l[i])
    return r
def t_for_tuple():
    r = []
    for k, (a, b) in [('x', (1, 2)), ('y', (3, 4))]: r.append(a + b)
    return r
def t_for_big():
    n = 0
    for i in range(10): n += i
    return n
def t_while_list():
    l = [1, 2, 3]; r = []
    while l: r.append(l.pop())
    return r
def t_while_list0():
    l = [1, 2, 3]; r = []
    while len(l) > 0: r.append(l.pop(0))
    return r
def t_while_idx():
    l = ['a', 'b']; i = 0; r = []
    while i < len(l):
        r.append(l[i]); i += 1
    return r
def t_while_iter():
    it = iter([1, 2]); r = []
    while True:
        try: x = next(it)
        except StopIteration: break
        r.append(x)
    return r
def t_iter_next():
    it = iter(['a', 'b']); return (next(it), next(it), next(it, 'end'))
def t_try():
    try: return {'a': 1}['b']
    except KeyError: return 'missing'
def t_try_else():
    try: x = 1
    except Exception: return 'no'
    else: x += 1
    finally: x += 10
    return x
def t_try_finally():
    r = []
    try:
        r.append(1)
        return r
    finally: r.append(2)
def t_try_nested():
    try:
        try: raise ValueError('a')
        except KeyError: return 'k'
    except ValueError as e: return str(e)
def t_try_reraise():
    try:
        try: raise KeyError('x')
        except KeyError: raise
    except LookupError: return 'lookup'
def t_try_tuple():
    try: raise OSError(errno.ENOENT, 'x')
    except (ValueError, FileNotFoundError): return 'fnf'
def t_try_errno():
    try: raise OSError(errno.ENOENT, 'x')
    except OSError as e: return e.errno == errno.ENOENT
def t_try_from():
    try:
        try: raise KeyError('x')
        except KeyError as e: raise RuntimeError('y') from e
    except RuntimeError as e: return e.args[0]
def t_suppress():
    with suppress(KeyError): {}['a']
    return 'ok'
def t_raise(): raise ValueError('x')
def t_custom_exc():
    class E(Exception): pass
    try: raise E('a')
    except E as e: return e.args[0]
class MyErr(Exception):
    def __init__(self, code): super().__init__('m'); self.code = code
def t_custom_exc2():
    try: raise MyErr(5)
    except MyErr as e: return e.code
def t_assert():
    assert 1 == 2
def t_lambda(): return (lambda x, y=2: x + y)(1)
def t_closure():
    n = [0]
    def inc(): n[0] += 1
    inc(); inc(); return n[0]
def t_nonlocal():
    n = 0
    def inc():
        nonlocal n
        n += 1
    inc(); inc(); return n
G = 1
def t_global():
    global G
    G = 5
    return G
def t_varargs():
    def f(*a, **k): return (a, k)
    return f(1, 2, x=3)
def t_kwonly():
    def f(a, *, b=2): return a + b
    return f(1, b=5)
def t_default():
    def f(a, b=None):
        b = b or 'd'
        return a + b
    return f('x')
def t_starcall():
    def f(a, b, c): return [a, b, c]
    return f(*[1, 2], **{'c': 3})
def t_gen():
    def g():
        yield 1
        yield 2
    return list(g())
def t_gen_for():
    def g(l):
        for x in l:
            if x > 1: yield x
    r = []
    for y in g([1, 2, 3]): r.append(y)
    return r
def t_gen_from():
    def g(): yield from [1, 2]
    return [x for x in g()]
def t_gen_expr(): return tuple(x * 2 for x in (1, 2))
def t_listcomp_if(): return [x for x in [1, 2, 3] if x != 2]
def t_listcomp_nested(): return [x for l in [[1], [2, 3]] for x in l]
def t_setcomp(): return {x % 2 for x in [1, 2, 3]}
def t_comp_dict_list(): return {f['path'] for f in [{'path': 'a'}, {'path': 'b'}]}
class A:
    cls = 'c'
    def __init__(self, x): self.x = x; self.l = []
    def get(self): return self.x
    @property
    def prop(self): return self.x + 1
    @staticmethod
    def st(a): return a
    @classmethod
    def mk(cls, x): return cls(x)
    def __enter__(self): self.l.append('in'); return self
    def __exit__(self, *a): self.l.append('out')
    def __len__(self): return 7
    def __getitem__(self, k): return k
    def __contains__(self, k): return k == 1
    def __iter__(self): return iter([1, 2])
    def __call__(self, q): return q
    def __eq__(self, o): return self.x == o.x
class B(A):
    def __init__(self, x): super().__init__(x); self.y = 2
    def get(self): return super().get() + self.y
def t_class(): return A(1).get()
def t_class_prop(): return A(1).prop
def t_class_static(): return (A.st(1), A.mk(3).x, A.cls)
def t_class_inherit(): return B(1).get()
def t_class_with():
    a = A(1)
    with a as b: b.l.append('mid')
    return a.l
def t_class_with_exc():
    a = A(1)
    try:
        with a: raise KeyError('x')
    except KeyError: a.l.append('exc')
    return a.l
def t_class_magic():
    a = A(1); return (len(a), a['q'], 1 in a, list(a), a(5))
def t_class_eq(): return A(1) == A(1)
def t_class_attr():
    a = A(1); setattr(a, 'z', 3); return (getattr(a, 'z'), hasattr(a, 'nope'), getattr(a, 'nope', 4))
def t_isinstance(): return (isinstance('a', str), isinstance([], (list, tuple)), isinstance(B(1), A), isinstance(1, str))
def t_type(): return type('a') == str
@contextmanager
def cm(l):
    l.append('in')
    try: yield l
    finally: l.append('out')
def t_cm():
    l = []
    with cm(l) as m: m.append('mid')
    return l
def t_cm_exc():
    l = []
    try:
        with cm(l): raise ValueError('x')
    except ValueError: l.append('exc')
    return l
@dataclass
class DC:
    a: int
    b: str = 'q'
def t_dataclass():
    d = DC(1); return (d.a, d.b)
def deco(f):
    @functools.wraps(f)
    def w(*a, **k): return ('w', f(*a, **k))
    return w
@deco
def decorated(x): return x
def t_deco(): return decorated(3)
def t_json(): return json.loads(json.dumps({'a': [1, None, True], 'b': 'x'}))
def t_json_bytes(): return json.loads(b'{"a": 1}')
def t_json_bad():
    try: json.loads('{')
    except ValueError: return 'bad'
def t_path_join(): return (os.path.join('a', 'b'), os.path.dirname('/a/b'), os.path.basename('/a/b'), os.path.split('/a/b'), os.path.splitext('a.txt'))
def t_path_norm(): return (os.path.normpath('/a/../b'), os.path.relpath('/a/b', '/a'), os.path.isabs('/a'), os.path.abspath('/a/b/'))
def t_re(): return bool(re.match(r'^a+$', 'aaa'))
def t_re_sub(): return re.sub('a', 'b', 'aca')
def t_re_split(): return re.split(r'[,;]', 'a,b;c')
def t_re_group(): return re.match(r'(\w+):(\w+)', 'k:v').group(2)
def t_re_full(): return re.fullmatch(r'[a-f0-9]{4}', 'zzzz') is None
def t_fnmatch_filter(): return fnmatch.filter(['a.txt', 'b.py'], '*.py')
def t_multi_assign():
    a = b = 1; a, b = b, a + 1; return (a, b)
def t_swap():
    l = [1, 2]; l[0], l[1] = l[1], l[0]; return l
def t_aug_dict():
    d = {'n': 1}; d['n'] += 2; return d['n']
def t_ann():
    x: int = 5
    return x
def t_match():
    x = 'deleted'
    match x:
        case 'new' | 'changed': return 1
        case 'deleted': return 2
        case _: return 3
def t_match_default():
    match 5:
        case 1: return 1
        case _: return 'd'
def t_dispatch():
    return {'a': lambda: 1, 'b': lambda: 2}['b']()
def t_dispatch_get():
    return {'a': len}.get('z', lambda x: -1)([1])
def t_getitem_or(): return ({'a': None}.get('a') or 'd')
def t_in_tuple(): return ('a' in ('a', 'b'), 'q' not in ['a'])
def t_in_set(): return 'a' in frozenset(['a', 'b'])
def t_deque():
    d = deque([1]); d.append(2); d.appendleft(0); return (d.popleft(), d.pop(), list(d))
def t_none_cmp(): return (None == 'a', None != [], [] == None)
def t_empty_cmp(): return ([] == [], {} == {}, [] == {}, '' == '')
def t_tuple_idx(): return (1, 2, 3)[1]
def t_tuple_add(): return (1,) + (2, 3)
def t_tuple_of(): return tuple(['a', 'b'])
def t_tuple_in_set(): return ('a', 1) in {('a', 1), ('b', 2)}
def t_tuple_key():
    d = {}; d['a', 1] = 'x'; return d[('a', 1)]
def t_list_of_tuple_sorted(): return sorted([('b', 1), ('a', 2)])
def t_sort_stable(): return sorted(['b', 'A', 'a'], key=str.lower)
def t_slice_obj(): return [1, 2, 3, 4, 5][::2]
def t_recursion():
    def f(n): return 1 if n == 0 else n * f(n - 1)
    return f(3)
def t_print():
    print('x'); return 1
def t_ord(): return (ord('a'), chr(98))
def t_hexs(): return (hex(255), '%x' % 255, '%02x' % 5)
def t_del_var():
    x = 1; y = [x]; del x; return y
def t_dictview_len(): return len({'a': 1}.items())
def t_list_from_keys(): return list({'a': 1, 'b': 2}.keys())[1]
def t_list_contains_dict(): return {'a': 1} in [{'a': 1}]
def t_list_index_dict(): return [{'p': 1}, {'p': 2}].index({'p': 2})
def t_group():
    r = {}
    for k, v in [('a', 1), ('b', 2), ('a', 3)]:
        if k not in r: r[k] = []
        r[k].append(v)
    return r
def t_groupby(): return [(k, list(g)) for k, g in itertools.groupby(['a', 'a', 'b'])]
def t_takewhile(): return list(itertools.takewhile(lambda x: x < 2, [1, 2, 1]))
def t_islice(): return list(itertools.islice([1, 2, 3], 2))
def t_sum_lists(): return sum([[1], [2]], [])
def t_bool_sum(): return sum(1 for x in ['a', 'b'] if x == 'a')
def t_none_filter(): return [x for x in (None, 'a') if x is not None]
def t_strip_none(): return [l for l in (x.strip() for x in ' a \n\n b '.split('\n')) if l]
def t_exc_str():
    try: raise Exception('boom')
    except Exception as e: return str(e)
def t_systemexit():
    try: raise SystemExit('bye')
    except Exception: return 'caught'
    except SystemExit: return 'exit'
def t_with_multi():
    a = A(1); b = A(2)
    with a as x, b as y: x.l.append(1)
    return (a.l, b.l)
def t_return_in_loop():
    for x in [1, 2, 3]:
        if x == 2: return x
def t_implicit_none():
    pass
def t_return_finally():
    def f():
        try: return 1
        finally: pass
    return f()
def t_break_finally():
    r = []
    for x in [1, 2]:
        try:
            if x == 1: continue
            break
        finally: r.append(x)
    return r
def t_ifexp_chain():
    s = 'deleted'
    return 1 if s == 'new' else 2 if s == 'changed' else 3
def t_type_hint(a: Optional[List[str]] = None): return a or []
def t_all_in(): return all(k in {'a': 1, 'b': 2} for k in ('a', 'b'))
def t_setcmp(): return set(['a', 'b']) >= {'a'}
def t_notset(): return not ({'a'} - {'a'})
def t_dict_subset(): return {'a': 1}.items() <= {'a': 1, 'b': 2}.items()
def t_int_cmp(): return (1 == True, 0 == False, 1 == 1.0, '1' == 1)
def t_float(): return (float('1.5'), 1.5 + 1, int(1.9))
def t_str_mod_dict(): return '%(a)s' % {'a': 'x'}
def t_join_map(): return ':'.join(map(str, [1, 2]))
def t_extend_gen():
    l = []; l.extend(x for x in [1, 2]); return l
def t_list_eq_nested(): return [{'a': [1]}] == [{'a': [1]}]
def t_set_of_tuples(): return {(f['p'], f['h']) for f in [{'p': 'a', 'h': 1}]} == {('a', 1)}
def t_sorted_set_cmp(): return sorted({'b', 'a'}) == ['a', 'b']
def t_dict_order():
    d = {'b': 1}; d['a'] = 2; d['b'] = 3; return list(d.items())
def t_max_str(): return max(['a', 'c', 'b'])
def t_swapcase(): return 'a' != 'A'
def t_global_const(): return CONST['x'] + CONST2
CONST = {'x': 1}
CONST2 = 3
class Src:
    def __init__(self, parts): self.parts = parts; self.i = 0
    def read(self, n=None):
        if self.i >= len(self.parts): return None
        x = self.parts[self.i]; self.i += 1
        return x if n is None else x[:n]
def t_walrus_while():
    s = Src([b'ab', b'c']); out = []
    while (c := s.read()) is not None: out.append(c)
    return b''.join(out)
def t_walrus_while2():
    s = Src([b'ab', b'c']); out = b''
    while (c := s.read()) is not None: out += c
    return out
def t_walrus_arg():
    s = Src([b'ab', b'c']); out = []
    while (c := s.read(1000 * 1000)) is not None:
        out.append(c)
    return out
def t_iter_sentinel():
    s = Src([b'ab', b'c']); return [c for c in iter(s.read, None)]
def t_iter_lambda():
    s = Src([b'ab', b'c']); r = b''
    for c in iter(lambda: s.read(1), None): r += c
    return r
def t_bytearray_ext():
    b = bytearray(); b.extend(b'ab'); b += b'cd'; b.append(101); return bytes(b)
def t_bytearray_in():
    b = bytearray(b'a\r\n\r\nb'); return (b'\r\n\r\n' in b, len(b), bytes(b[1:3]))
def t_bytearray_part():
    b = bytearray(b'a\r\n\r\nb'); h, s, r = bytes(b).partition(b'\r\n\r\n'); return (h, s, r)
def t_bytearray_del():
    b = bytearray(b'abcdef'); del b[:2]; return bytes(b)
def t_bytearray_find():
    b = bytearray(b'abcdef'); i = b.find(b'cd'); return (bytes(b[:i]), bytes(b[i + 2:]))
def t_bytearray_loop():
    s = Src([b'ab', b'c\r', b'\nd']); b = bytearray()
    while b'\r\n' not in b:
        c = s.read()
        if not c: raise ValueError
        b.extend(c)
    return bytes(b)
def t_memoryview():
    v = memoryview(b'abcdef'); out = b''
    while v:
        out += bytes(v[:4]); v = v[4:]
    return out
def t_memoryview_range():
    v = memoryview(b'abcdef'); out = b''
    for off in range(0, len(v), 4): out += bytes(v[off:off + 4])
    return out
def t_bytes_join2():
    return b''.join([b'a', b'b']) + b'-'.join(x.encode() for x in ('c', 'd'))
def t_bytes_fmt(): return b'%s: %d\r\n' % (b'a', 5)
def t_fstr_encode(): return f'POST {"/x"} HTTP/1.1\r\n'.encode('ascii') + b'x'
def t_enc_gen():
    def enc(x): return x.encode('utf8') if isinstance(x, str) else x
    return b''.join(enc(k) + b': ' + enc(v) + b'\r\n' for k, v in {'a': 'b', b'c': b'd'}.items())
def t_bytes_concat_types(): return [type(b'a' + b'b') is bytes, isinstance(b'a' + 'b'.encode(), bytes), isinstance((b'a' + b'c').decode(), str)]
def t_bytes_iter(): return [x for x in b'ab']
def t_bytes_idx2(): return (b'ab'[0], b'ab'[0:1], b'abc'[-1:], b'abc'[:-1])
def t_min_none(): return min(3, 4) if None is None else 0
def t_while_len():
    got = b''; parts = [b'ab', b'cd', b'e']; n = 5
    while len(got) < n: got += parts.pop(0)[:n - len(got)]
    return got
def t_split1(): return b'a: b:c'.split(b':', 1)
def t_isinst_bytes(): return isinstance(b'a', (bytes, bytearray))
def t_dictcomp_lower(): return {k.lower(): v for k, v in dict({'A': '1', 'b': '2'}).items()}
def t_list_of_lines(): return ('\r\n'.join(['a', 'b']) + '\r\n').encode('ascii')
def t_str_int_bytes(): return bytes(str(12), encoding='utf8') + b'x'
def t_str_int_bytes2(): return str(12).encode() + b'x'
def t_try_int():
    try: return int('x')
    except ValueError: return -1
def t_decode_error():
    try: return b'\xff'.decode('utf8')
    except UnicodeDecodeError: return 'bad'
def t_nested_fn_state():
    out = []
    def w(x): out.append(x)
    for i in (b'a', b'b'): w(i)
    return out
def t_closure_nonlocal():
    n = 0
    def inc(k):
        nonlocal n
        n += k
        return n
    inc(1); inc(2)
    return n
def t_gen_fn():
    def g(n):
        i = 0
        while i < n:
            yield i
            i += 1
    return list(g(3))
def t_gen_chunks():
    def chunks(b, n):
        for i in range(0, len(b), n): yield b[i:i + n]
    return b'|'.join(chunks(b'abcde', 2))
def t_gen_read():
    s = Src([b'ab', b'c'])
    def it():
        while True:
            c = s.read()
            if c is None: return
            yield c
    return b''.join(it())
