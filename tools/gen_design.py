#!/usr/bin/env python3
"""writes DESIGN.md: the text below, the rules of each check (from its RULES table) and the planted bugs (from seeded/*/meta.json)"""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(V + '/tools/design_head.md').read()
TAIL = open(V + '/tools/design_tail.md').read()
# domain, bounds, cost (seconds, 8 cores, otherwise idle)
HOW = {
 'C01': ('routes', 'every registered route is entered with arbitrary headers, body, session rows and configuration; each repository effect must be dominated by the session facts. Unbounded.', 15),
 'C02': ('routes', 'both login steps from arbitrary requests and rows; facts and provenance at the point where a session row is written and at every successful answer. Unbounded.', 1),
 'C03': ('routes', 'all routes and the connection loop with the lock as typestate (who holds it, on which file, who keeps the handle alive). Unbounded.', 20),
 'C04': ('routes', 'begin_commit with every relation of declared revision, head, owner of the unfinished commit and requester.', 4),
 'C05': ('routes', 'the commit route and everything below it; order of write, close, rename, log. Unbounded in trees (induction over write_dir_tree).', 6),
 'C06': ('routes', 'every function that puts something into the store; the copy loop rule shows that hash_file and the upload loop treat every byte.', 6),
 'C07': ('routes', 'rollback and every path that logs; the log is a container with a tracked element and an arbitrary rest.', 10),
 'C08': ('routes + small trees', 'tracked path next to an arbitrary rest for deletions and additions; commit document, log and tree computed for tracked files; the tree conversion of tracked paths of depth 1 to 4.', 4),
 'C09': ('routes', 'taint from every header and body field into every path; pushed paths with "." and ".." components in every position.', 8),
 'C10': ('repository world', 'histories of up to 4 revisions with every kind of change, every revision asked for; also one history of 110 revisions.', 10),
 'C11': ('repository world', 'every object of the example missing or damaged in turn, referenced or not, alone and in pairs with shared trees; also 110 revisions.', 50),
 'C12': ('routes', 'all pairs of statuses (server: new, changed, deleted, unchanged, absent; client likewise) of a tracked path next to arbitrary others.', 30),
 'C13': ('client world', 'conflicts of every kind, every choice, complete, incomplete, foreign and repeated resolution files.', 25),
 'C14': ('client world', 'updates that are refused or break at every request, stop at every effect or fail at every operation, and the update after that.', 35),
 'C15': ('client world', 'commits that are refused or break at every request, and edits of each file at every moment.', 6),
 'C16': ('file system world', 'every sequence of up to 2 journalled operations, stopped at each effect, composed with recovery (thorough: 3).', 8),
 'C17': ('file system world', 'recoveries that stop or fail at each effect, composed with the next recovery.', 15),
 'C18': ('file system world', 'put, move, delete of the client storage, stopped or failing at each effect.', 6),
 'C19': ('client world', 'files in every relation to the manifest and the filters; what update, update -f, commit and status make of them.', 6),
 'C20': ('client world', 'updates, commits, reverts and bvn pull-ignore, with files in every relation to the filters; composed.', 60),
 'C21': ('client world', 'all commands from every directory, lock free or busy; every access compared with the lock held and with whether its handle is still referred to.', 30),
 'C22': ('wire world', 'messages cut up around every boundary, partial sends, disconnection at every point; contents symbolic.', 60),
 'C23': ('system world', 'all commands against the real handlers, also after refusals and lost connections.', 30),
 'C24': ('remote world', 'paged listings, earlier interrupted backups, a stop at every upload and a failure of every operation, composed with the next backup.', 100),
 'C25': ('remote world', 'provenance of every byte sent; every message tampered with, dropped, swapped or taken from another file.', 6),
 'C26': ('remote world', 'backup and restore composed; each object missing, each operation failing.', 10),
 'C27': ('client world', 'every kind of answer to the questions of revert and pull-ignore, including repeated and unaccepted ones.', 50),
 'C28': ('key terms', 'generation and unlocking composed; other passwords, each part of the stored key damaged.', 1),
 'C29': ('repository world', 'collection over example stores with unfinished commits, busy lock, failing operations; also 110 revisions.', 28),
 'C31': ('system world', 'two or three working copies and the server: updates, commits, conflicts, each request lost before or after it was served, the server stopped at each of its effects, the client at each of its, edits meanwhile, another client in between.', 150),
 'C32': ('system world', 'every reading request in every state that commits, clean-ups, refused commits after stopped ones, the first commit and collections leave between two effects; the state replaced before each single read of the handler; the lock busy.', 30),
 'C33': ('system world', 'reverts to the held revision, the head and named ones, of working copies in four kinds of disorder, with nine selections, pull-ignore filters; cut off at each request, stopped at each effect, failing, with commits in between.', 60),
 'C34': ('system world', 'the listing commands with every combination of options over three revisions, filters and refusals; printed text compared line by line.', 4),
 'C30': ('-', 'not applicable: equality of run-time strings after json, header and path encodings is not decided by any static rule in reach (header values are stripped of white space, so it does not even hold for every name).', 0),
}
seeds = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m.get('caught', True)))
out = [HEAD.rstrip('\n'), '', '## Per property', 'The rules are quoted from the `RULES` table of each check. *Planted* lists the bugs under `seeded/` that the check reports.', '']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append('### %s %s' % (i, p['title']))
    w, b, c = HOW[i]
    f = V + '/sa/checks/%s.py' % i.lower()
    if i == 'C30': out += [b, '']; continue
    rules = next(ast.literal_eval(n.value) for n in ast.parse(open(f).read()).body if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'RULES')
    out.append('*World:* %s. *Explored:* %s *Cost:* about %d s.' % (w, b, c))
    out += ['* `%s` – %s' % kv for kv in rules.items()]
    for n, t, caught in seeds.get(i, ()): out.append('* *Planted:* `%s` (%s)%s' % (n, t, '' if caught is True else ' – NOT caught: ' + str(caught)))
    out.append('')
out.append(TAIL)
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
print(len('\n'.join(out).split('\n')), 'lines')
