#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'interprocedural abstract interpretation of the source (path-sensitive dataflow over provenance terms)'
CHECKS = {
    'C01': ('guard dominance + taint', 'every repository effect of every route is dominated by live-session and authorisation facts'),
    'C02': ('guard dominance + provenance', 'session issue dominated by signature, challenge and permission facts; randomness provenance'),
    'C03': ('lock typestate', 'lock typestate over all routes and the connection loop'),
    'C04': ('typestate + provenance', 'head compared under the lock, owner facts at resume, rollback before begin'),
    'C05': ('write-publish typestate', 'write/close/rename order, commit and tree objects published before the head'),
    'C06': ('write-publish typestate + copy-loop dataflow', 'object name = hash of complete source, existence test before publication'),
    'C07': ('log-before-effect typestate', 'durable log before object, rollback removals guarded and complete'),
    'C08': ('tracked-element dataflow + typestate', 'pending-row typestate of tracked paths; the commit document, change log and tree computed for tracked files; tree conversion of tracked paths'),
    'C16': ('abstract interpretation over a file-system and database domain', 'every effect of every operation sequence is a stopping point; the recovery code is composed with the durable state it leaves behind'),
    'C17': ('abstract interpretation over a file-system and database domain', 'every stop and every failing operation of recoveries and of finishing a transaction, composed with the next recovery'),
    'C18': ('abstract interpretation over a file-system and database domain', 'file state and manifest rows compared at every stop, error and return of the client file operations'),
    'C09': ('taint analysis + tracked-element dataflow', 'client supplied strings are followed into every file, directory and database path; pushed paths with relative components are driven through the upload route'),
    'C10': ('abstract interpretation over small repositories', 'the history queries are interpreted over constructed repositories with symbolic contents and compared with the answer the history determines'),
    'C11': ('abstract interpretation over small repositories', 'verification is interpreted over constructed repositories with every object removed or damaged in turn, up to the text it prints'),
    'C29': ('abstract interpretation over small repositories', 'collection is interpreted over constructed repositories; every removal is compared with reachability from the head and with the lock held at that point'),
    'C24': ('abstract interpretation over a small repository and a remote-store domain', 'the backup is interpreted over a remote object store with paged listings; every upload is a stopping point and every operation a failing one, composed with the next backup'),
    'C25': ('abstract interpretation over a small repository and a remote-store domain', 'provenance of every byte sent to the store under encryption, and the decryption of messages tampered with in turn'),
    'C26': ('abstract interpretation over a small repository and a remote-store domain', 'backup and restore composed; every missing object and failing operation in turn'),
    'C15': ('abstract interpretation over a small working copy', 'a commit is interpreted against a server that refuses or breaks at every request, and files that are edited at every moment'),
    'C19': ('abstract interpretation over a small working copy', 'every command that looks for local changes is interpreted over working copies whose files are in every relation to the manifest and the filters'),
    'C13': ('abstract interpretation over a small working copy', 'bvn update is interpreted over working copies in conflict with the server in every way, for every choice of the user and for complete, incomplete and foreign resolution files'),
    'C14': ('abstract interpretation over a small working copy', 'the recorded revision and the manifest are compared with the working copy after every stop, refusal and error of an update'),
    'C20': ('abstract interpretation over a small working copy', 'updates, commits, reverts and bvn pull-ignore are interpreted over working copies with files in every relation to the filters, and composed'),
    'C21': ('lock typestate over a small working copy', 'every access to the manifest and to tracked files in every command is compared with the lock held at that point, including whether anything still refers to its handle'),
    'C22': ('abstract interpretation over a connection with tracked bytes', 'client and connection thread are interpreted over messages cut up in every way around their boundaries, partial and failing transmissions, and every point of disconnection'),
    'C23': ('composed abstract interpretation of client and server', 'every command of the client is interpreted over a small working copy, each request it makes by the real handler over a small repository: fields, operations and answers are those the two sides really exchange, also after lost connections and refusals'),
    'C31': ('composed abstract interpretation of clients and server', 'commands of two or three working copies and the real request handlers are interpreted together through updates, commits, conflicts, and stops of either side at every request and every effect; what the working copies hold afterwards is compared with their revision and with each other'),
    'C32': ('composed abstract interpretation of readers and writers', 'every reading request of a real client is answered by the real handlers in every state a commit, a clean-up or a collection leaves between two effects, and with the state changing at every read; the answers are compared with those of before and after'),
    'C33': ('composed abstract interpretation of client and server', 'bvn revert is interpreted over working copies in every relation to the requested revision, with every kind of selection, cut off at every request, stopped at every effect and with commits in between'),
    'C34': ('composed abstract interpretation of client and server', 'the listing commands are interpreted against the real handlers over a small history; the text they print is compared with what is there, the state with what it was'),
    'C27': ('abstract interpretation over a small working copy', 'every change of a local file during bvn revert and bvn pull-ignore is compared with the answers given up to that point, for every kind of answer'),
    'C28': ('abstract interpretation over key and message terms', 'generation and unlocking of private keys composed; other passwords and damaged keys in turn'),
    'C12': ('tracked-element dataflow', 'every pair of two-sided statuses of a tracked path next to arbitrary others is driven through the comparison'),
}
NA = {
    'C30': 'quantifies over byte contents and every file name through json, HTTP header and path encodings: the equality of run-time strings after those library transformations is not decided by any static rule in reach (header values are stripped of white space, so it does not even hold for every name)',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 10)"', 'checks': [], 'not_applicable': [],
     'notes': 'Every check parses the current source under /repo (stdlib ast only), runs its own abstract interpreter from the public entry points and decides the rules of one property; see DESIGN.md.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        t, n = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': 'static analysis: ' + t, 'level': 'other',
                            'level_note': AI + ': ' + n + '. Holds for every input and path the abstraction covers; assumptions and limits in DESIGN.md.'})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks;', len(m['not_applicable']), 'not applicable')
