"""The per-thread server database cache (used by several properties): whatever the earlier calls were, the instance
returned is open on the database asked for."""
from ..framework import *

Q = 'bversion.storage.server_db.get_server_db_instance_for_thread'


def check(rep, eng, rule):
    f = eng.lookup_public('bversion.storage.server_db:get_server_db_instance_for_thread')
    opened = {}
    P1, O1 = sym('#db_path'), sym('#override')
    save = dict(eng.intr); eng.intr.pop(Q, None)
    eng.intr['bversion.storage.db_common.init_db'] = lambda e, st, a, kw, node: [(st, tup(mk('condb', mkpath([a[0]] if a else list(kw.values()))), sym('cur')))]

    class D(Mon):
        def rel(self, t): return True
    eng.mon = D(rep)
    for label, override in (('repository path', NONE), ('override path', O1)):
        rets, exc = eng.run(f, [P1], {'path_override': override}, eng.base, 'db cache')
        want = mkpath([P1, const('server_transient.db')]) if override is NONE else mkpath([O1])
        key = P1 if override is NONE else O1
        ok = bool(rets)
        for st, v in rets:
            if override is not NONE and any(x is True and a.op == 'cmp' and NONE in a.args[1:] and O1 in a.args[1:] for a, x in st.facts.items()) or st.eqs.get(O1) is NONE: continue
            h = st.heap.get(v)
            construct = 'get_server_db_instance_for_thread (%s)' % label
            if h is not None and h.kind == INST:
                con = h.get(const('con'))
                if con is None or con.op != 'condb' or con.args[0] is not want:
                    rep.violate(rule, 'bversion/storage/server_db.py', 'get_server_db_instance_for_thread',
                                'a new instance for the %s is opened on %s' % (label, show(con) if con is not None else None), st)
                # must be remembered under the path it was made for
                stored = [(a, x) for t, hh in st.heap.items() if hh.kind == INST for a, x in hh.known if x is v]
                tl = [t for t, hh in st.heap.items() if any(x is v for _, x in (hh.known if hh.kind in (INST, DICT) else ()))]
                for t in tl:
                    hh = st.heap[t]
                    if not any(x is key for _, x in hh.known) and not any(k is key for k, _ in hh.known):
                        rep.violate(rule, 'bversion/storage/server_db.py', 'get_server_db_instance_for_thread',
                                    'the new instance is cached without remembering the path it belongs to', st)
                rep.ob(rule, construct + ': new instance')
            else:
                # an earlier instance: the path remembered with it equals the requested one
                eqs = [(a, x) for a, x in st.facts.items() if x is True and a.op == 'cmp' and a.args[0] == 'eq' and key in a.args[1:]]
                keyed = v.op == 'sub' and v.args[1] is key
                if not eqs and not keyed and not any(k2 is key for k, k2 in st.eqs.items()):
                    rep.violate(rule, 'bversion/storage/server_db.py', 'get_server_db_instance_for_thread',
                                'an earlier instance (%s) is returned although it may belong to another repository' % show(v), st)
                rep.ob(rule, construct + ': cached instance')
    eng.intr.clear(); eng.intr.update(save)
