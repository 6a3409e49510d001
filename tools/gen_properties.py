"""Source of /verif/properties.jsonl: run 'python3 tools/gen_properties.py' after editing."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(observe), 'hook_needed': None}})

SRV, VS, SDB = 'bversion/server.py', 'bversion/storage/versioned_storage.py', 'bversion/storage/server_db.py'
CL, JFS, CDB, CFI = ('bversion/client.py', 'bversion/storage/journaling_filesystem.py',
                     'bversion/storage/client_db.py', 'bversion/storage/client_filesystem_interface.py')
COM, MRG, RM = 'bversion/common.py', 'bversion/merge_client_and_server_changes.py', 'bversion/repo_manager.py'
HS, HC, HX = 'bversion/http/http_server.py', 'bversion/http/http_client.py', 'bversion/http/http_common.py'

prop('C01', 'Repository requests need a live session authorised for that repository',
 "Every server request other than the two login steps reads or changes repository data only after establishing that the presented session token is on record for the requesting network address, has not expired (the session that owns an unfinished commit is exempt from expiry), and belongs to a user whose configuration lists the very repository the request acts on. Otherwise the answer is a failure and nothing in the repository is read or changed.",
 ['inputs', 'histories', 'configurations'], 'every request to every registered operation, every combination of headers, every session history and configuration',
 'tests/test_system.py only ever sends valid tokens from one address of one user with one repository; no request is ever refused.',
 [SRV, SDB], [('have_authenticated_user', SRV), ('route handlers', SRV), ('gc_session_tokens / get_session_token', SDB), ('get_server_db_instance_for_thread', SDB)],
 [('session_tokens', 'live sessions: token, ip, username, expiry', SDB)], ['HTTP responses', 'repository files'])

prop('C02', 'Sessions are issued only for a verified, single-use challenge',
 "A login yields a session only if the signature verifies under the named user's configured public key over a challenge that the server issued to the same network address, that has not expired, and that user may use the requested repository; the challenge is spent before the session token is handed out. Any error during a login is a refusal, and challenges and session tokens are produced by a cryptographic random generator (at least 32 bytes).",
 ['inputs', 'histories'], 'every login request, valid or forged, in every history of issued and spent challenges',
 'the tests perform only honest logins; none replays, forges, or uses another address or repository.',
 [SRV, SDB], [('begin_auth / authenticate', SRV), ('issue_token, get_token, delete_token, gc_tokens, create_session', SDB)],
 [('tokens', 'outstanding login challenges', SDB)], ['authenticate response'])

prop('C03', 'Repository writes happen only under that repository\'s exclusive lock',
 "Starting, adding to, deleting from, committing or aborting a commit takes effect only on a connection that at that moment holds the exclusive, cross-process write lock of the repository named in the request; if the lock is taken elsewhere the request fails at once without effect. The lock is released when the commit is finished or aborted, and however the connection ends.",
 ['schedules', 'inputs', 'fault_sequences'], 'any number of clients, connections, repositories and server processes, interleaved in any way, with connections dropped at any point',
 'the tests drive one client at a time through one in-process connection against one repository.',
 [SRV, VS, HS], [('context.lock / shutdown_handler', SRV), ('lock / unlock (flock)', VS), ('handle_connection', HS)],
 [('lock_file', 'flock that serialises writers of a repository', VS), ('context', 'per-connection lock state', HS)], ['responses of push/delete/commit', 'lock file'])

prop('C04', 'A commit starts only from the current head and is resumed only by its owner',
 "A commit is started or resumed only if the revision the client declares equals the head as read while the write lock is held; otherwise it is refused and any unfinished commit is rolled back. An unfinished commit is resumed only for the authenticated user and network address that began it; for anybody else it is rolled back before a new one starts.",
 ['schedules', 'inputs', 'histories'], 'every interleaving of clients, every declared revision, every leftover unfinished commit',
 'one user, one address; the stale case is tried once sequentially, never racing with another commit and never with a foreign leftover.',
 [SRV, VS, SDB], [('begin_commit', SRV), ('begin / get_active_commit', VS), ('begin_commit / resume_commit', SDB)],
 [('active_commit_exists', 'owner of the unfinished commit', SDB)], ['begin_commit response'])

prop('C05', 'The head moves atomically and only to a completely stored commit',
 "The repository head is only ever replaced by an atomic rename of a fully written file that names the new commit, after that commit object and its whole tree have been stored, and working state is discarded only afterwards. A server stopped at any instant therefore leaves either the old or the new revision as head, with everything it refers to present.",
 ['crash_points', 'histories'], 'a crash at any point of any commit, rollback or read',
 'the tests never stop the server inside a commit.',
 [VS, SDB], [('commit', VS), ('write_index_object / write_dir_tree', VS), ('clean_commit_state', SDB)],
 [('head', 'file naming the current commit', VS)], ['head file', 'objects it reaches'])

prop('C06', 'Stored objects are named by their content, published whole, never overwritten',
 "Every object a commit adds to the repository store is stored under the SHA-256 of exactly the bytes it holds and appears under that name only by a rename of an already complete file, so no reader or crash sees a partial object. An object that already exists is never written again, so identical content is stored once and history cannot change.",
 ['inputs', 'crash_points', 'histories'], 'every file content and tree, every crash point, every sequence of commits',
 'the tests look at a handful of small files after successful commits.',
 [VS, COM, SRV], [('fs_put_from_file / write_index_object', VS), ('hash_file', COM), ('push_file', SRV)],
 [('files/, index/', 'object store', VS)], ['object files'])

prop('C07', 'Rolling back an abandoned commit undoes exactly what it added',
 "Every object a commit adds is durably logged before it is stored, and only additions that were not in the store before are logged; rolling back deletes logged objects only, deletes nothing if the head already names a commit in the log, never changes the head, and ends with no unfinished commit. The unfinished commit's list of uploaded files is durably forgotten before any object is deleted, so that a rollback cut short can never be resumed into a commit that refers to missing content.",
 ['crash_points', 'histories', 'fault_sequences'], 'every sequence of commits, crashes (also repeated ones, also during rollback), resumes and rollbacks',
 'one rollback of one intact commit is tested; no crash and no resumed commit precedes it.',
 [VS, SDB], [('rollback', VS), ('gc_log_item / get_gc_log / clean_commit_state', SDB)],
 [('gc_log', 'objects added by the unfinished commit', SDB), ('active_commit_changes', 'files pushed or deleted so far', SDB)], ['object files', 'head'])

prop('C08', 'A commit records exactly the pending changes on top of its parent',
 "A new revision's file set is that of its parent with every pending addition, change and deletion applied and nothing else; its change log lists exactly those changes, its parent is the previous head, and its author is the authenticated user. Each requested deletion is applied independently of the others, pushing a path again supersedes what was pending for it, and a file the client pushed and then deleted is not committed.",
 ['inputs', 'histories'], 'every sequence of pushes and deletions, including repeated, resumed and unknown paths, on every parent tree',
 'the tests commit a few files at top level and never delete an unknown path or push a path twice within a commit.',
 [VS, SDB, SRV], [('get_commit_state / add_to_commit / remove_from_commit', SDB), ('commit / begin', VS), ('commit handler', SRV)],
 [('active_commit_changes', 'pending changes', SDB), ('active_files', 'file set of the parent', SDB)], ['list_files', 'list_changes'])

prop('C09', 'Client-supplied strings cannot steer server file access',
 "No header or body value sent by a client becomes part of a path the server opens, serves, creates, renames or deletes, except object identifiers that have been checked to consist of hexadecimal digits only. A pushed file whose path contains a '.' or '..' component, separated by either slash, is refused before anything is stored.",
 ['inputs'], 'every possible header and body value of every request',
 'tests send only well-formed paths and identifiers.',
 [SRV, VS], [('push_file path check', SRV), ('read_index_object', VS), ('endpoint', SRV)], (), ['files opened by the server'])

prop('C10', 'History queries answer for the requested revision, newest change last',
 "Listing changes or files and fetching a file answer for exactly the revision asked for (or for the head when the head is asked for), and a fetched file is the stored content that revision names for that path. The changes between two revisions take every commit in between into account, a later change to a path superseding an earlier one.",
 ['inputs', 'histories'], 'every revision, path and commit history',
 'histories of two or three commits and single lookups are sampled.',
 [SRV, VS], [('pull_file, list_changes, list_files', SRV), ('get_changes_since, get_commit_files, get_file_info_from_path', VS)], (), ['pull_file, list_* and find_changed responses'])

prop('C11', 'Verification never passes a damaged repository',
 "Repository verification reports a repository as valid only if every commit, tree and file object reachable from the head exists in the store and every stored index and file object still hashes to its name, and it never modifies the repository.",
 ['inputs', 'histories', 'fault_sequences'], 'every repository and every combination of missing or altered objects',
 'verification is not tested at all.',
 [VS, RM, COM], [('verify_fs, get_reachable_objects, get_all_object_hashes', VS)], (), ['verify result'])

prop('C12', 'Every path gets the disposition its two-sided status calls for',
 "Comparing client and server changes sends each path to exactly the outcome its pair of statuses calls for: changed on one side only flows to the other side, deleted on one side only is deleted on the other, changed on both or changed on one and deleted on the other is a conflict, and unchanged on both is left alone. No path is dropped, and no change present on both sides is ever resolved silently.",
 ['inputs'], 'every pair of change sets of any size',
 'one change set with a few files is compared.',
 [MRG], [('merge_client_and_server_changes', MRG)], (), ['find_changed response'])

prop('C13', 'Conflicts are settled by the user before anything is changed',
 "While any conflict is unresolved an update changes no working-copy file and records no new revision. Each conflicting path follows its own resolution: 'server' fetches the server's version or applies its deletion, 'client' leaves the local state alone; a resolution file that does not name exactly the conflicting paths, each with a valid choice, is refused.",
 ['inputs', 'histories'], 'every set of conflicts, every resolution file, every answer of the user',
 'one mixture of four conflicts with one resolution file and one malformed file is tried.',
 [CL], [('resolve_update_conflicts', CL), ('update', CL)], (), ['working copy files', 'have_revision'])

prop('C14', 'An update records a revision only when all of it has been applied',
 "A client records a revision as held only after every file that revision adds or changes has been fetched (from that revision, or found already fetched with that content) and stored, and every deletion applied, except for pull-ignored paths. If anything could not be fetched the recorded revision stays unchanged, so the next update retries it.",
 ['fault_sequences', 'crash_points', 'inputs'], 'every set of changes, with any request failing and the client stopped at any point',
 'one interruption after the first file is tried; no request ever fails.',
 [CL, CFI], [('update', CL), ('fs_put', CFI)], [('have_revision', 'revision the working copy is at', CDB)], ['manifest', 'working copy'])

prop('C15', 'The client believes only what the server acknowledged, and hides no later edit',
 "After a commit the client's manifest and recorded revision change only if the server confirmed the commit, and then only for files and deletions the server accepted; if any push or deletion fails the whole commit is aborted. What the manifest records for a pushed file is its state from before the upload, so an edit made during or after the upload is still seen as a change.",
 ['fault_sequences', 'schedules', 'inputs'], 'every pattern of failed requests, and edits to files at any moment during a commit',
 'all requests succeed and no file changes during a commit in the tests.',
 [CL], [('commit', CL)], [('files', 'manifest', CDB), ('have_revision', '', CDB)], ['manifest', 'commit response'])

prop('C16', 'Working-copy mutations are undoable from a durable journal at every instant',
 "Every change the journaling filesystem makes to the working copy is preceded by a durably committed journal entry that undoes it, with replaced or deleted content preserved first, so a stop at any instant can be rolled back to the state before the transaction. Undo data is complete before it can be used (a copy cut short is never moved over the original), never taken from an earlier transaction's leftovers, and undoing a move that never happened does not overwrite the source.",
 ['crash_points', 'histories'], 'a crash at any point of any sequence of put, move and delete operations',
 'rollback is tested only after operations that completed; no crash inside an operation.',
 [JFS, CDB], [('do_action, file_put_contents, move_file, delete_file, new_tmp', JFS), ('write_fs_journal', CDB)],
 [('journal', 'undo records', CDB), ('tmp_dir', 'preserved content', JFS)], ['working copy files', 'journal table'])

prop('C17', 'An interrupted transaction is rolled back completely before the next one',
 "Starting a transaction while journal entries exist first undoes them, newest first, each entry being dropped durably only after it was undone, so recovery itself may be interrupted and resumed. Finishing a transaction durably clears the journal before preserved content is deleted.",
 ['crash_points', 'histories'], 'crashes during transactions, commits and recoveries, in any number',
 'no test interrupts recovery or commit, or starts a transaction with a leftover journal.',
 [JFS, CDB], [('begin, rollback, commit', JFS), ('get_fs_journal, delete_from_fs_journal, clear_fs_journal', CDB)],
 [('journal', 'undo records', CDB)], ['working copy files', 'journal table'])

prop('C18', 'A file and its manifest entry change together or not at all',
 "Adding, moving or deleting a working-copy file and the matching manifest change become durable in one step: a stop or error at any point leaves both in the old or both in the new state. Any error rolls the file changes back, discards the manifest change and is reported to the caller.",
 ['crash_points', 'fault_sequences'], 'an error or crash at any point of any working-copy operation',
 'the tests only run operations that succeed.',
 [CFI, JFS, CDB], [('fs_put, fs_move, fs_delete', CFI), ('commit, rollback', JFS)], [('files', 'manifest', CDB)], ['working copy', 'manifest'])

prop('C19', 'Local changes are detected for every file that is not ignored',
 "A file that is on disk but not in the manifest is new, one whose modification time differs in either direction from the manifest is changed, and one in the manifest but no longer on disk is deleted; nothing else is reported, except unchanged files when these are asked for. Files matching any ignore filter, and the client's own control data, are left out, and no other file is (one that was recorded before it was ignored counts as deleted, as documented).",
 ['inputs', 'configurations'], 'every directory tree, manifest and filter list',
 'one hand-made pair of file lists.',
 [COM, CL], [('find_manifest_changes, get_file_list', COM), ('find_local_changes', CL)], (), ['status, commit and update'])

prop('C20', 'Pull-ignored files are left out of the working copy and left alone on the server',
 "No update, revert or checkout fetches or writes a file matching a pull-ignore filter, and no such file is uploaded by a commit. Reverting considers exactly the files of the revision that match the given filters (or all of them) and are not pull-ignored, and once confirmed gives each of them the content of that revision, whatever was there before, to be seen as a local change if another revision is held.",
 ['inputs', 'configurations'], 'every filter list and file set',
 'one filter on one file, for update only; revert is untested.',
 [CL], [('init, update, revert', CL)], [('pull_ignore_filters', '', CL)], ['working copy', 'requests sent'])

prop('C21', 'Only one client works on a working copy at a time',
 "A client command takes an exclusive lock on the working copy before it opens the manifest or touches any tracked file (apart from renaming files that carry the system's old name), gives up at once if another process has it, and keeps it for as long as the process works on the working copy.",
 ['schedules'], 'any number of client processes started on one working copy at any time',
 'a single process is tested.',
 [CL], [('init', CL)], [('.bvn/lock_file', 'working copy lock', CL)], ['lock file'])

prop('C22', 'Messages are transferred whole and a closed connection is always noticed',
 "Both ends hand every byte of a message to the network even if it accepts only part at a time, and a message body ends exactly at its declared length, whatever else arrives on the connection. When the peer closes the connection, at any point of a message, reading stops with an error, and the server then releases everything the connection holds.",
 ['fault_sequences', 'schedules', 'inputs'], 'every fragmentation, partial write and disconnect',
 'the tests replace the network by an in-process stub.',
 ['bversion/http/http_server.py', 'bversion/http/http_client.py', 'bversion/http/http_common.py', 'bversion/http/client_http_request.py'],
 [('handle_connection', HS), ('send, read_headers', HC), ('read_body', HX)], (), ['socket'])

prop('C23', 'Client and server agree on operations and their fields',
 "Every request the client can send names an operation the server registers, and carries every header and body field that the server's handler requires; every response header and body field the client goes on to use after checking for success is present in every successful answer of that operation that can lead there.",
 ['inputs', 'configurations'], 'every client command, request variant and handler path',
 'only the commands exercised by the system test are matched, via a stub; revert, list and error paths are not.',
 [CL, SRV], [('request / send_file call sites', CL), ('route handlers', SRV)], (), ['requests and responses'])

prop('C24', 'A backup marks a commit as done only after uploading all of it',
 "A commit is marked as backed up only after the commit object, every tree object and every file it refers to (apart from the empty file and objects already present remotely) have been uploaded without error. Commits already marked are skipped, every other commit in the history is processed, and a failed upload aborts the backup rather than being ignored.",
 ['histories', 'fault_sequences'], 'every history and remote state, an upload failing at any point',
 'backup is not tested.',
 [RM, 'bversion/backup/s3_interface.py'], [('backup, streaming_upload', RM), ('streaming_upload, list_remote_objects', 'bversion/backup/s3_interface.py')], (), ['remote objects'])

prop('C25', 'Backed-up content leaves only encrypted and authenticated',
 "Every byte of repository content sent to the remote store has passed through authenticated encryption under the key derived from the configured password and salt, and the stored format header is bound to each chunk as authenticated data on both the writing and the reading side. Only the salt and the format header are sent in clear; without a password nothing is uploaded.",
 ['inputs', 'configurations'], 'every object and every configuration',
 'backup is not tested.',
 [RM, 'bversion/backup/crypto.py', 'bversion/backup/pipeline.py', 'bversion/backup/s3_interface.py'],
 [('streaming_encrypt, streaming_decrypt, preprocess_config', 'bversion/backup/crypto.py'), ('build_pipeline_streaming', 'bversion/backup/pipeline.py')], (), ['bytes handed to the S3 client'])

prop('C26', 'A restore brings back every commit, tree and file before publishing the head',
 "Restoring downloads the head's commit, every ancestor commit, every tree and every file they refer to, recreating empty files, and only when all of them are in place writes the head of the restored repository.",
 ['histories', 'crash_points', 'fault_sequences'], 'every history, a failure or stop at any point of the restore',
 'restore is not tested.',
 [RM], [('restore', RM)], (), ['restored repository'])

prop('C27', 'Local files are destroyed only after an explicit confirmation',
 "Reverting files, and deleting newly pull-ignored files, removes or replaces local files only after the user answered the question with the confirming answer, in upper or lower case; any other accepted answer leaves every local file alone. Pull-ignoring is refused while there are uncommitted local changes, unless forced.",
 ['inputs'], 'every answer, filter list and working copy state',
 'neither command is tested.',
 [CL, COM], [('revert, pull_ignore', CL), ('question_user', COM)], (), ['working copy files'])

prop('C28', 'A password-protected private key is stored encrypted and can be unlocked',
 "When the user asks for password protection the stored private key contains the secret key only as authenticated ciphertext under a key derived from the password and a fresh random salt, with a fresh nonce. Unlocking recognises a protected key, takes salt, nonce and ciphertext from exactly where generation put them, derives the key in the same way, and fails on a wrong password.",
 ['inputs'], 'every password and key',
 'the existing test never checks that unlocking gives back the key.',
 ['bversion/crypto.py'], [('make_keypair, unlock_private_key, hash_password', 'bversion/crypto.py')], (), ['stored key', 'unlocked key'])

prop('C29', 'Garbage collection never removes reachable or pending objects',
 "Garbage collection deletes only objects that exist in the store and are reachable neither from the head's history nor from an unfinished commit, runs only while holding the repository's write lock, and releases the lock whatever the outcome.",
 ['histories', 'schedules', 'fault_sequences'], 'every repository state, with commits attempted at any time',
 'garbage collection is not tested.',
 [VS, RM], [('garbage_collect', VS), ('run', RM)], (), ['object files', 'lock file'])

prop('C30', 'Content and paths survive the round trip byte for byte',
 "A file committed by one client and fetched by another has identical bytes and an identical path, for every file name the file system permits.",
 ['inputs'], 'every file content and file name', 'a few ASCII names and contents are sampled.',
 [CL, SRV, HX], [('generate_headers / parse_headers', HX)], (), ['working copies'])

prop('C31', 'Working copies at the same revision without local changes are identical',
 "After any history of commits, updates, conflicts, lost connections, stops of the client or the server and retries, a file that is not shown as a local change has exactly the content it has in the revision the working copy reports (files newer than that only after an interrupted update, until it is completed); so two working copies that report the same revision, no local changes and the same filters contain the same files with the same content. After an interruption, updating and committing again gets there: a resumed commit contains neither changes nor deletions the working copy does not have any more, nor any made by another working copy; and files which the interrupted operation has left as they were are not shown as local changes.",
 ['histories', 'schedules', 'crash_points'], 'every history of any number of clients, stopped anywhere', 'one scripted history of two clients.',
 [CL, SRV, VS, SDB, JFS], [('update / commit / init', CL), ('begin_commit', SRV), ('resume_commit', SDB)], (), ['working copies'])


prop('C32', 'Reading requests are answered from one committed state and change nothing',
 "Looking for changes, fetching a file and listing revisions, the changes or the files of a revision never fail, wait or change their answer because a commit, the cleaning-up of an abandoned commit or a garbage collection is in progress, was stopped, or holds the lock: every answer is, as a whole, the one of the state before or of the state after it, also when a commit becomes current while the request is being answered; garbage collection and cleaning up change no answer at all. Answering changes no file of the repository, and nothing in its database but the sessions.",
 ['schedules', 'crash_points', 'histories'], 'every reading request at every moment of every writer', 'the tests have no concurrent requests.',
 [SRV, VS], [('find_changed, pull_file, list_versions, list_changes, list_files', SRV), ('commit, rollback, garbage_collect', VS)], (), ['answers of the server', 'object store'])


prop('C33', 'A revert gives back exactly the selected files of the requested revision',
 "After a confirmed revert every selected file that the requested revision has (the one of the working copy, the head, or the one named) has exactly the content it has there, however it was changed, deleted or replaced before; no other file of the working copy and nothing recorded about it changes (with --all, recorded files that the requested revision does not have may be removed), pull-ignored files are left alone, and the recorded revision stays. Files reverted to the recorded revision are not shown as local changes; files taken from another revision are, unless they are the same. All files come from one revision, also when somebody commits meanwhile. A revert that is stopped, cut off or fails leaves each selected file as before, missing, or as requested, and reverting again completes it. A revert that selects nothing, or names a revision that does not exist, changes nothing.",
 ['inputs', 'schedules', 'crash_points', 'fault_sequences'], 'every working copy, revision and selection, stopped anywhere', 'revert is not tested.',
 [CL, CFI], [('revert', CL), ('fs_put', CFI)], (), ['working copy files', 'manifest'])

prop('C34', 'Commands that only look show exactly what is there and change nothing',
 "bvn list-files shows each file of the requested revision exactly once (with -i exactly those that are kept from this working copy by its pull-ignore filters), list-changes exactly the changes of the requested revision with their kind, list-versions the latest revisions in the order in which they were made, each with its own author, date and message, and list-ignored-files exactly the files of the working copy that match an ignore or pull-ignore filter. For a revision that does not exist, or contradictory options, nothing is listed and the command fails. None of them, nor bvn status, changes the files of the working copy, the manifest, the recorded revision or the repository, whether they succeed, fail or are cut off.",
 ['inputs', 'histories', 'fault_sequences'], 'every history, working copy, filter list and combination of options', 'none of these commands is tested.',
 [CL, SRV, VS], [('list_remote_files, list_changes_in_revision, list_versions, list_ignored_files, display_status', CL)], (), ['output of the client', 'working copy'])


here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
