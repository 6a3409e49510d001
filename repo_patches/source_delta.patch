From 47b399e7b11f4d81b13ba6c4912a0bcb6007ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 01/34] fix: rollback must recognise every logged commit as the
 possible head

A commit interrupted before the head moved and then resumed logs two commit
objects. Only the first one was compared with the head, so a rollback after
the second attempt had succeeded deleted the objects of the head revision.
---
 bversion/storage/versioned_storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 8bd5738..c125858 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -316,8 +316,9 @@ class versioned_storage:
         if gc_log_items != []:
             # If a commit exists and it's hash matches the current head we do not need to do anything
             # The commit succeeded but we failed before deleting the active commit file for some reason
-            is_commit = next((item for item in gc_log_items if item['item_type'] == 'commit'), None)
-            if is_commit is not None and is_commit['item_hash'] == self.get_head():
+            # The log may name more than one commit, as finishing a commit may have been tried more than once.
+            head = self.get_head()
+            if any(item['item_type'] == 'commit' and item['item_hash'] == head for item in gc_log_items):
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
-- 
2.43.0


From d53fcb18461c9f58c4196a0cc0b82dc7e4abb545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 02/34] fix: forget uploaded files before a rollback deletes
 their objects

A rollback interrupted while deleting objects left the unfinished commit with
its full list of uploaded files. The owner could resume it and commit a
revision that refers to objects which no longer exist.
---
 bversion/storage/server_db.py         | 5 +++++
 bversion/storage/versioned_storage.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index f21086e..8c1b8d0 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -274,6 +274,11 @@ class server_db:
     def get_active_commit_changes(self):
         return self.con.execute("select * from active_commit_changes").fetchall()
 
+    #===============================================================================
+    def clear_active_commit_changes(self):
+        self.con.execute("delete from active_commit_changes")
+        self.con.commit()
+
     #===============================================================================
     def get_commit_state(self):
         if self.active_files is None: raise Exception('active files not initilised')
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index c125858..c930951 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -322,6 +322,10 @@ class versioned_storage:
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
+                # Durably forget what was uploaded before deleting any of it, otherwise a rollback which
+                # is interrupted could be resumed as a commit referring to objects that are gone.
+                sdb.clear_active_commit_changes()
+
                 for item in gc_log_items:
                     # delete the object for this file, noting that it may not exist
                     object_dir = 'files' if item['item_type'] == 'file' else 'index'
-- 
2.43.0


From 6c804702b8078861eb3a3929f1fb37b09aea3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 03/34] fix: apply each requested deletion independently of the
 others

A path that is not in the parent revision made remove_from_commit return,
skipping all remaining deletions and the database commit while success was
reported. A file pushed earlier in the same commit and then deleted stayed in
the commit, and deleting a file pushed as changed failed on the unique path.
---
 bversion/storage/server_db.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 8c1b8d0..fa8de64 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -254,19 +254,18 @@ class server_db:
         for it in files:
             file_path = it['path']
 
-            # We don't need to do anything if the file doesnt exist
+            # The deletion supersedes anything that was pending for this path
+            self.con.execute("delete from active_commit_changes where path = ?", (file_path,))
+
+            # There is nothing to delete if the file is not in the parent revision
             the_file = self.file_exists_in_commit(file_path)
-            if the_file == []: return
+            if the_file == []: continue
             file_info = the_file[0]
 
             # Update commit changes
-            already_deleted = self.con.execute("select * from active_commit_changes where status='deleted' and path = ?",
-                                            (file_info['path'],)).fetchall()
-
-            if already_deleted == []:
-                file_info['status'] = 'deleted'
-                self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
-                                (file_info['hash'], file_info['path'], file_info['status']))
+            file_info['status'] = 'deleted'
+            self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+                            (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
 
-- 
2.43.0


From 9111a18cb4f0b1f6791a68906e51870f4627c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 04/34] fix: allow a path to be pushed again within one commit

A resumed commit re-uploads files that changed locally in the meantime. The
plain insert failed on the unique path, so such a commit could never finish.
---
 bversion/storage/server_db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index fa8de64..81a23af 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -239,8 +239,8 @@ class server_db:
 
         file_info['status'] = 'changed' if self.file_exists_in_commit (file_info['path']) != [] else 'new'
 
-        # Update commit changes
-        self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+        # Update commit changes, superseding anything that was pending for this path
+        self.con.execute("insert or replace into active_commit_changes (hash, path, status) values (?, ?, ?)",
                          (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
-- 
2.43.0


From 74a7cea804ce26a731b3faec7e938e0b409ee423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 05/34] fix: an unfinished commit belongs to the authenticated
 user

begin_commit took the owner from the unauthenticated 'user' header, so another
user at the same address could resume somebody else's unfinished commit.
---
 bversion/server.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index c815333..0fa8850 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -429,17 +429,17 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     commit_files = {}
 
     if active_commit is not None:
-        if active_commit['user'] == request.headers['user'] and active_commit['ip'] == request.remote_addr:
+        if active_commit['user'] == current_user['username'] and active_commit['ip'] == request.remote_addr:
             commit_files = data_store.get_active_commit_changes()
             commit_files = [it for it in commit_files if it['status'] != 'deleted']
-            data_store.begin(request.headers['user'], request.remote_addr, session_token, resume = True)
+            data_store.begin(current_user['username'], request.remote_addr, session_token, resume = True)
 
         else:
             data_store.rollback()
-            data_store.begin(request.headers['user'], request.remote_addr, session_token)
+            data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     else:
-        data_store.begin(request.headers['user'], request.remote_addr, session_token)
+        data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     #------------
     return success(data={'partial_commit' : commit_files})
-- 
2.43.0


From 2be7cbfa98f1b6c75984321c7a6b1ffdb3179d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 06/34] fix: tie the write lock of a connection to the
 repository it was taken for

The connection only remembered that it held a lock. After locking one
repository a client could push to, delete from, commit or abort in another
repository without holding that repository's lock.
---
 bversion/server.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index 0fa8850..9c25933 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -400,15 +400,18 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     data_store = versioned_storage(repository_path,
                                    path_override = config['repositories'][repository]['transient_db_path_override'])
 
+    # A connection holds the lock of one repository at a time
+    if context.lock != repository: context.shutdown_handler()
+
     # ==
     have_lock = data_store.lock()
     if not have_lock:
         return fail(lock_fail_msg)
 
     else:
-        context.lock = True
+        context.lock = repository
         def unlock():
-            if context.lock is True:
+            if context.lock == repository:
                 data_store.unlock()
                 context.lock = False
 
@@ -461,7 +464,7 @@ def push_file(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -505,7 +508,7 @@ def delete_files(request: Request, context: ConnectionContext) -> Responce:
     body_data = request.get_json()
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -541,7 +544,7 @@ def commit(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
-- 
2.43.0


From 4d544a51e08ba3c103f403cfa70f5c5b4f84caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 07/34] fix: a preserved copy cut short must not be used to
 undo

The undo entry is journaled before the copy is made. A stop during the copy
left a truncated file that recovery then moved over the intact original.
---
 bversion/storage/journaling_filesystem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index ffbd3c7..d8cb7f0 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -75,7 +75,10 @@ class journaling_filesystem:
             self.client_db.commit()
 
         d = command['do']
-        if   d[cmd] == 'copy':   shutil.copy(d[src], d[dst])
+        if d[cmd] == 'copy':
+            # A copy which was cut short must never be usable for undo
+            shutil.copy(d[src], d[dst] + '.part')
+            os.rename(d[dst] + '.part', d[dst])
         elif d[cmd] == 'move':   shutil.move(d[src], d[dst])
         elif d[cmd] == 'backup': shutil.move(d[src], self.new_backup(d[src]))
         elif d[cmd] == 'write' :
-- 
2.43.0


From 37537c733cba39e500cd2febaabafbd65a592670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 08/34] fix: do not reuse leftover temporary files for undo
 data

A stop after the journal was cleared but before tmp was emptied leaves old
content in tmp. The next transaction reused the same names, so a stop before
it had written its own copy made recovery restore the stale content.
---
 bversion/storage/journaling_filesystem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index d8cb7f0..67433aa 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -33,8 +33,12 @@ class journaling_filesystem:
     def new_tmp(self):
         """ Create a new temp file allocation """
 
-        self.tmp_idx += 1
-        return p.join(self.tmp_dir, 'tmp_' + str(self.tmp_idx))
+        # Never reuse a file left over from an earlier transaction, an undo
+        # entry journaled before the file is written would restore its content.
+        while True:
+            self.tmp_idx += 1
+            tmp_path = p.join(self.tmp_dir, 'tmp_' + str(self.tmp_idx))
+            if not p.exists(tmp_path): return tmp_path
 
 ############################################################################################
     def new_backup(self, src: str):
-- 
2.43.0


From dcd4d4b8bbf9abba3034dcd642eac9be3fb15db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 09/34] fix: undoing a move that never happened must not
 overwrite the source

The undo entry is journaled before the move. When the destination existed, a
stop in between made recovery move the old destination over the source.
---
 bversion/storage/journaling_filesystem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 67433aa..154f983 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -84,6 +84,9 @@ class journaling_filesystem:
             shutil.copy(d[src], d[dst] + '.part')
             os.rename(d[dst] + '.part', d[dst])
         elif d[cmd] == 'move':   shutil.move(d[src], d[dst])
+        elif d[cmd] == 'move_back':
+            # When the destination still exists the move to be undone never happened
+            if not p.exists(d[dst]): shutil.move(d[src], d[dst])
         elif d[cmd] == 'backup': shutil.move(d[src], self.new_backup(d[src]))
         elif d[cmd] == 'write' :
             if callable(d[data]): d[data](d[path])
@@ -170,7 +173,7 @@ class journaling_filesystem:
 
         self.do_action(
             {'do'   : ['move', src, dst],
-             'undo' : ['move', dst, src]})
+             'undo' : ['move_back', dst, src]})
 
 ############################################################################################
     def delete_file(self, path: str):
-- 
2.43.0


From 75a893dabf85d1358826690cc61f69fbeee25df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 10/34] fix: keep a journal entry that could not be undone

Any IO error while undoing was ignored and the entry dropped, after which the
preserved content is deleted with the next transaction.
---
 bversion/storage/journaling_filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 154f983..7bccef1 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -100,7 +100,7 @@ class journaling_filesystem:
 
         for j_itm in reversed(journ_list):
             try: self.do_action({'do' : j_itm['data']}, write_journal = False)
-            except IOError: pass
+            except FileNotFoundError: pass # never done or already undone
 
             # As each item is completed remove it from the journal. In case
             # something fails during the rollback we can pick up where it stopped.
-- 
2.43.0


From 91ecf08d27cccdf46d47c82b9b14135b02a9c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 11/34] fix: discard manifest changes when file changes are
 rolled back

Rolling back after an error restored the file but committed the pending
manifest change together with the journal.
---
 bversion/storage/client_db.py             | 4 ++++
 bversion/storage/journaling_filesystem.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bversion/storage/client_db.py b/bversion/storage/client_db.py
index 5759f37..db53c06 100644
--- a/bversion/storage/client_db.py
+++ b/bversion/storage/client_db.py
@@ -53,6 +53,10 @@ class client_db:
     def commit(self):
         self.con.commit()
 
+    # --------------
+    def rollback(self):
+        self.con.rollback()
+
 
 # ===================================================
 # Handling of system metadata
diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 7bccef1..4289bba 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -96,6 +96,10 @@ class journaling_filesystem:
     def rollback(self):
         """ Do journal rollback """
 
+        # Discard manifest changes made by the transaction, committing the
+        # journal below would make them durable.
+        self.client_db.rollback()
+
         journ_list = self.client_db.get_fs_journal()
 
         for j_itm in reversed(journ_list):
-- 
2.43.0


From 7846b543cae340b9c46bc02f5dfebeb912e27add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 12/34] fix: replace the backup index atomically

A stop while it was written left an empty index, on which every later
recovery failed.
---
 bversion/storage/journaling_filesystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 4289bba..4037f96 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -50,7 +50,8 @@ class journaling_filesystem:
         backup_name = str(backup_num) + "_" + os.path.basename(src)
         backup_num += 1
 
-        file_put_contents(backup_id_file, bytes(str(backup_num), encoding='utf8'))
+        file_put_contents(backup_id_file + '.new', bytes(str(backup_num), encoding='utf8'))
+        os.rename(backup_id_file + '.new', backup_id_file)
         return p.join(self.backup_dir, backup_name)
 
 ############################################################################################
-- 
2.43.0


From 4cc4188254a7610d483a0567ab8a5f538dc90e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 13/34] fix: do not treat a failed deletion as done during an
 update

Any OSError, such as missing permission, was taken to mean that the file does
not exist, and the new revision was recorded although the file remained.
---
 bversion/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index 96953a9..071abf6 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -651,7 +651,7 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             try:
                 data_store.fs_delete(fle['path'])
-            except OSError:
+            except FileNotFoundError:
                 # If this happens, a file was deleted on the server which
                 # never existed on this client, thus do nothing.
                 pass
-- 
2.43.0


From 3bc0a5ad31761d38a7772a981725ac038d730211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 14/34] fix: record a revision only when all of it was fetched

When pulling a file failed the new revision was recorded regardless, so the
file was never fetched again and appeared as deleted locally.
---
 bversion/client.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 071abf6..31f3392 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -664,11 +664,13 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
                 if e.errno not in [errno.ENOTEMPTY, errno.ENOENT]: raise
 
 
-    # Update the latest revision in the manifest
-    manifest_meta = cdb.get_system_meta()
-    manifest_meta['have_revision'] = result['head']
-    cdb.update_system_meta(manifest_meta)
-    cdb.commit()
+    # Update the latest revision in the manifest, unless something could
+    # not be fetched, in which case the next update has to try again.
+    if affected_files['errors'] == []:
+        manifest_meta = cdb.get_system_meta()
+        manifest_meta['have_revision'] = result['head']
+        cdb.update_system_meta(manifest_meta)
+        cdb.commit()
 
     # Delete the conflicts resolution file and recursively delete any conflict files downloaded for comparison
     ignore(os.remove, config['conflict_resolution_file'])
@@ -678,6 +680,10 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     for item in affected_files['errors']:
         print(item)
 
+    if affected_files['errors'] != []:
+        print(colored('\nUpdate incomplete, please update again', 'red'))
+        return affected_files
+
     # ==================
     print('\n-------------------------------\n')
     print(colored('At revision: ' + result['head'], 'yellow'))
-- 
2.43.0


From 7f3b3741f2f371d550a35f878590bcb90fef989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 15/34] fix: record the state a file had before it was uploaded

The manifest recorded the modification time after the commit, so an edit made
during or after the upload was never seen as a change.
---
 bversion/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 31f3392..2f1289e 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -11,7 +11,7 @@ import pysodium #type: ignore
 
 #=================================================
 from bversion.common import (cpjoin, get_file_list, find_manifest_changes, make_dirs_if_dont_exist,
-                             manifestFileDetails, get_single_file_info, file_or_default, question_user,
+                             manifestFileDetails, file_or_default, question_user,
                              file_put_contents, file_get_contents, ignore, find_bvn_dir, hash_file)
 
 from bversion.http.client_http_request import client_http_request
@@ -783,6 +783,7 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 changes_made.append({
                     'status'    : 'new/changed',
                     'path'      : fle['path'],
+                    'local_info': fle,
                     'file_info' : previous_uploads[fle['path']]
                 })
 
@@ -800,6 +801,7 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 changes_made.append({
                     'status'    : 'new/changed',
                     'path'      : fle['path'],
+                    'local_info': fle,
                     'file_info' : json.loads(headers['file_info_json'])
                 })
             else:
@@ -848,7 +850,8 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 cdb.remove_file_from_manifest(change['path'])
 
             elif change['status'] == 'new/changed':
-                file_info = get_single_file_info(cpjoin(config['data_dir'], change['path']), change['path'])
+                # The state from before the upload, so that later edits are seen as changes
+                file_info = dict(change['local_info'])
                 file_info['server_file_hash'] = change['file_info']['hash']
                 cdb.add_file_to_manifest(file_info)
 
-- 
2.43.0


From e3fbb05df3136e2ca1d835470a8fe39b3a5ce27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 16/34] fix: return the answer of the user in lower case

Answers are accepted in any case but compared in lower case by all callers, so
'NO' went on with a revert.
---
 bversion/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/common.py b/bversion/common.py
index 58e12bc..cdc2613 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -46,7 +46,7 @@ def question_user(prompt_text: str, valid_choices) -> str:
         choice = input('> ')
         if choice.lower() in valid_choices: break
 
-    return choice
+    return choice.lower()
 
 ############################################################################
 def ignore(*args):
-- 
2.43.0


From 24b94e9f3bfa657446bcdf108905a6da25e97b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 17/34] fix: revert must leave out the pull ignored files

The filter was inverted, only pull ignored files could be reverted.
---
 bversion/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index 2f1289e..cc42a9a 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -909,7 +909,7 @@ def revert(session_token, args):
     # Apply pull ignore filters
     filtered_files_in_revision = {}
     for path, fle in files_in_revision.items():
-        if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
+        if not next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):
             filtered_files_in_revision[path] = fle
     files_in_revision = filtered_files_in_revision
 
-- 
2.43.0


From 337f7cc8733d374531a534ea02e6e53770dd3e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 18/34] fix: keep the lock of the working copy while working on
 it

The handle was local to init, so the lock was released when init returned.
---
 bversion/client.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index cc42a9a..5d8b403 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -40,11 +40,12 @@ server_connection: client_http_request         = None
 
 working_copy_base_path: str                    = ''
 relative_cwd: str                              = ''
+working_copy_lock                              = None
 
 
 #===============================================================================
 def init(unlocked = False):
-    global cdb, data_store, server_connection, config, working_copy_base_path, relative_cwd
+    global cdb, data_store, server_connection, config, working_copy_base_path, relative_cwd, working_copy_lock
 
     working_copy_base_path, relative_cwd = find_bvn_dir()
 
@@ -64,10 +65,13 @@ def init(unlocked = False):
     except IOError:    raise SystemExit('No BVersion configuration found')
     except ValueError: raise SystemExit('Configuration file syntax error')
 
-    # Lock for sanity check, only one client can use the working copy at any time
+    # Lock for sanity check, only one client can use the working copy at any time.
+    # The handle has to outlive this function as closing it releases the lock.
+    if working_copy_lock is not None: working_copy_lock.close()
+
     try:
-        lockfile = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
-        fcntl.flock(lockfile, fcntl.LOCK_EX | fcntl.LOCK_NB)
+        working_copy_lock = open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')
+        fcntl.flock(working_copy_lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
     except IOError: raise SystemExit('Could not lock working copy')
 
     #-----------
-- 
2.43.0


From 994b0c1ded31e056d8a4f71f723c4da592e4d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 19/34] fix: send every byte of a message

socket.send may accept only part of the data and the rest was lost.
---
 bversion/http/http_client.py | 2 +-
 bversion/http/http_server.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index 77e3758..63c2169 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -15,7 +15,7 @@ class HTTPClient:
         self.s.connect((host,port))
 
     def send(self, data: bytes):
-        self.s.send(data)
+        self.s.sendall(data)
 
     def send_headers(self, uri: str, headers: Dict[str, str]):
         msg = b"POST " + uri.encode('utf8') + b" HTTP/1.1\r\n"
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index 9a4e155..a348feb 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -97,7 +97,7 @@ def HTTPServer(host, port, connection_handler):
                     responce_headers += k + b':' + v + b'\r\n'
 
                 responce_headers += b"\r\n"
-                c.send(responce_headers)
+                c.sendall(responce_headers)
 
                 if isinstance(rsp.body, ServeFile):
                     c.sendfile(open(rsp.body.path, 'rb'), 0)
@@ -106,7 +106,7 @@ def HTTPServer(host, port, connection_handler):
                     while True:
                         chunk = reader.read(4096)
                         if chunk == b'': break
-                        c.send(chunk)
+                        c.sendall(chunk)
 
         except:
             context.shutdown_handler()
-- 
2.43.0


From 0b367327f42a289a6d375d6d64165fd589463dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 20/34] fix: notice a connection closed within the headers of a
 message

Both ends looped forever, on the server with the write lock still held.
---
 bversion/http/http_client.py | 4 +++-
 bversion/http/http_server.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index 63c2169..93d7526 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -35,7 +35,9 @@ class HTTPClient:
 
         # read request preamble
         while True:
-            data += self.s.recv(1024)
+            chunk = self.s.recv(1024)
+            if chunk == b'': raise Exception('Socket closed')
+            data += chunk
             if b"\r\n\r\n" in data: break
 
         preamble, body_partial = data.split(b"\r\n\r\n", 1)
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index a348feb..c38367b 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -52,8 +52,9 @@ def HTTPServer(host, port, connection_handler):
 
                 # read request preamble
                 while True:
-                    data += c.recv(1024)
-                    if data == b'': raise Exception('Socket closed')
+                    chunk = c.recv(1024)
+                    if chunk == b'': raise Exception('Socket closed')
+                    data += chunk
                     if b"\r\n\r\n" in data: break
 
                 preamble, body_partial = data.split(b"\r\n\r\n", 1)
-- 
2.43.0


From abadf48ea9f5e998bb6629caf77fab049c982fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 21/34] fix: never read past the declared length of a message
 body

Whatever arrived after the body was returned as part of it.
---
 bversion/http/http_common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bversion/http/http_common.py b/bversion/http/http_common.py
index 3500f45..b9557f2 100644
--- a/bversion/http/http_common.py
+++ b/bversion/http/http_common.py
@@ -69,7 +69,8 @@ class read_body:
     def read(self, length = None) -> Union[bytes, None]:
         if self.have_read >= self.body_length: return None
 
-        if length is None: length = self.body_length - self.have_read
+        remaining = self.body_length - self.have_read
+        length = remaining if length is None else min(length, remaining)
 
         retbuffer: bytes
         if len(self.body_partial) > 0:
-- 
2.43.0


From 99e9a6f7d4b643c021e818a92951e1d5e970fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 22/34] fix: recognise a password protected private key

Indexing bytes gives an integer, so a protected key was never unlocked.
---
 bversion/crypto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/crypto.py b/bversion/crypto.py
index a66f5ea..cccffd8 100644
--- a/bversion/crypto.py
+++ b/bversion/crypto.py
@@ -44,7 +44,7 @@ def make_keypair() -> Tuple[bytes, bytes]:
 def unlock_private_key(private_key_b64: str) -> bytes:
     private_key: bytes = base64.b64decode(private_key_b64)
 
-    if private_key[0] == b'y':
+    if private_key[:1] == b'y':
         sbytes: int = pysodium.crypto_pwhash_SALTBYTES
         nbytes: int = pysodium.crypto_box_NONCEBYTES
         salt: bytes = private_key[1:sbytes+1]
-- 
2.43.0


From 7125787dc494b12d8eb0a6e33fcc46ef80c9ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 23/34] fix: publish the head of a restored repository last

An interrupted restore left a head that refers to missing objects.
---
 bversion/repo_manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bversion/repo_manager.py b/bversion/repo_manager.py
index cfc7eb1..ac4329f 100644
--- a/bversion/repo_manager.py
+++ b/bversion/repo_manager.py
@@ -293,10 +293,7 @@ def restore():
                            file_handle = fle)
 
         fle.seek(0)
-        commit_pointer = fle.read().decode('utf8')
-
-        with open(cpjoin(repository_path, 'head'), 'w') as fle:
-            fle.write(commit_pointer)
+        commit_pointer = head = fle.read().decode('utf8')
 
         while True:
             # Download commit
@@ -367,6 +364,10 @@ def restore():
             if commit_pointer == 'root':
                 break
 
+        # Everything is in place, publish the head
+        with open(cpjoin(repository_path, 'head'), 'w') as fle:
+            fle.write(head)
+
 
 #===============================================================================
 def run():
-- 
2.43.0


From d197c3b6a458501b3ec9cd9d4f4829c24d97daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 24/34] fix: use collections.abc.Mapping

collections.Mapping is gone since Python 3.10, reading the configuration
for a backup failed.
---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index cdc2613..6397fd9 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -1,5 +1,5 @@
 import os.path, hashlib, errno, copy
-import collections
+import collections.abc
 from typing import List, Dict, Any, cast, Tuple
 from typing_extensions import TypedDict
 from termcolor import colored
@@ -8,7 +8,7 @@ from termcolor import colored
 def merge_config(config, parsed_config):
     def dict_merge(dct, merge_dct): # recursive dict merge from https://gist.github.com/angstwad/bf22d1822c38a92ec0a9
         for k in merge_dct.keys():
-            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.Mapping)):
+            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.abc.Mapping)):
                 dict_merge(dct[k], merge_dct[k])
             else: dct[k] = merge_dct[k]
     dict_merge(config, parsed_config)
-- 
2.43.0


From 0d1f46d0c0283e9d1833a70b22631e952daa6de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 25/34] fix: garbage collection must delete exactly the
 unreachable objects

The set difference was the wrong way round and file objects were looked for in
the index. Objects of an unfinished commit are kept, the lock is released
whatever happens and the result is what the caller unpacks.
---
 bversion/storage/versioned_storage.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index c930951..b53da54 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -573,6 +573,14 @@ class versioned_storage:
         if lock_status is False:
             return False, ['failed to lock']
 
+        try:
+            return self.garbage_collect_locked()
+        finally:
+            self.unlock()
+
+
+#===============================================================================
+    def garbage_collect_locked(self):
         head, reachable_objects = self.get_reachable_objects()
         all_objects             = self.get_all_object_hashes()
 
@@ -607,9 +615,13 @@ class versioned_storage:
         file_objects_that_should_exist =   set(reachable_objects['files'].keys())
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
+        # Objects of an unfinished commit are needed to resume it
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        pending_objects = {it['item_hash'] for it in sdb.get_gc_log()} | {it['hash'] for it in sdb.get_active_commit_changes()}
+
         # ===============
-        garbage_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
-        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
+        garbage_index_objects = index_objects_that_do_exist - index_objects_that_should_exist - pending_objects
+        garbage_file_objects = file_objects_that_do_exist - file_objects_that_should_exist - pending_objects
 
         #================================================================
         # Delete garbage objects
@@ -619,8 +631,7 @@ class versioned_storage:
             os.remove(object_path)
 
         for object_hash in garbage_file_objects:
-            object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
+            object_path = sfs.cpjoin(self.base_path, 'files', object_hash[:2], object_hash[2:])
             os.remove(object_path)
 
-        self.unlock()
-        return True
+        return True, issues
-- 
2.43.0


From 9c8438c81fa17a9d6563ccb91549210bcf11ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 26/34] fix: refuse to move a file that does not exist before
 journaling the move

---
 bversion/storage/journaling_filesystem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 4037f96..115d56b 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -167,6 +167,10 @@ class journaling_filesystem:
 
         src = self.get_full_file_path(src); dst = self.get_full_file_path(dst)
 
+        # Undoing the move of a missing file would move the destination away
+        if not os.path.exists(src):
+            raise OSError(errno.ENOENT, 'No such file or directory', src)
+
         # record where file moved
         if os.path.isfile(src):
             # if destination file exists, copy it to tmp first
-- 
2.43.0


From f2242e798c7dbfbc627deb94182d049bac952a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 27/34] fix: update must fetch a recorded file again when it
 has been changed locally

---
 bversion/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 5d8b403..ee3440d 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -614,9 +614,11 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             file_in_manifest = cdb.get_single_file_from_manifest(fle['path'])
             file_hash = fle['hash']
 
-            # Chech we don't already have the file due to a previous run that failed mid-process
+            # Chech we don't already have the file due to a previous run that failed mid-process,
+            # the manifest tells nothing about a file which has been changed locally since.
             have_file = False
-            if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash:
+            locally_changed = fle['path'] in client_changes and client_changes[fle['path']]['status'] != 'unchanged'
+            if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash and not locally_changed:
                 have_file = True
 
             # ===================
-- 
2.43.0


From 53ab3225de1b96fa476b2c40d36bca9427428e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 28/34] fix: revert must restore files which have been deleted
 locally

---
 bversion/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index ee3440d..ed17c22 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -982,7 +982,8 @@ def revert(session_token, args):
     # ===============================
     for file_path in files_to_revert:
         print('Deleting file: ' + file_path)
-        os.remove(cpjoin(working_copy_base_path, file_path))
+        try: os.remove(cpjoin(working_copy_base_path, file_path))
+        except FileNotFoundError: pass # The file has been deleted locally
 
     # ===============================
     for file_path in files_to_revert:
@@ -998,6 +999,8 @@ def revert(session_token, args):
 
 
         if headers['status'] == 'ok':
+            make_dirs_if_dont_exist(os.path.dirname(cpjoin(working_copy_base_path, file_path)) + '/')
+
             # If we are using the local revision, we need to add the file to the manifest,
             # otherwise just download it so it will appear as a changed file, and can be committed.
             if version_id == meta['have_revision']:
-- 
2.43.0


From 1d4331a4d072ba23c1267f7ae096cc61920f1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 29/34] fix: revert to the head must fetch every file from the
 revision it listed

---
 bversion/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index ed17c22..8ea671c 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -993,8 +993,8 @@ def revert(session_token, args):
             'session_token' : session_token,
             'repository'    : config['repository'],
             'path'          : file_path,
-            'use_head'      : str(int(use_head)),
-            'version_id'    : '' if version_id is None else version_id
+            'use_head'      : str(int(False)), # The head may have moved since the files were listed
+            'version_id'    : version_id
             }, gen = True)
 
 
-- 
2.43.0


From b3f093e759503a03b48dbc1ca88b77459b0750c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 30/34] fix: pull-ignore must not fail on files and directories
 that are gone already

---
 bversion/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 8ea671c..b3c0907 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -1070,7 +1070,8 @@ def pull_ignore(filters, require_commit_changes):
             for path in affected_local_files:
                 full_path = cpjoin(working_copy_base_path, path)
                 print(colored('Deleting local file: ' + full_path, 'red'))
-                os.remove(full_path)
+                try: os.remove(full_path)
+                except FileNotFoundError: pass # The file has been deleted locally
 
                 affected_dirs[os.path.dirname(full_path)] = None
 
@@ -1080,7 +1081,8 @@ def pull_ignore(filters, require_commit_changes):
 
                 while True:
                     walking_path = '/' + cpjoin(*split_path)
-                    contents = os.listdir(walking_path)
+                    try: contents = os.listdir(walking_path)
+                    except FileNotFoundError: break # Removed along with one of its sub-directories
 
                     if len(contents) == 0:
                         print(colored('Deleting empty directory: ' + walking_path, 'red'))
-- 
2.43.0


From d6ffceb0d52305ce14a70fad80306dc1f9db9565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 31/34] fix: a resumed commit must not carry out deletions the
 client has not asked for again

---
 bversion/storage/server_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 81a23af..506c7e6 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -220,6 +220,9 @@ class server_db:
         # Add the existing files to the commit
         self.active_files = active_files
 
+        # The client only keeps track of its uploads, and sends its deletions again
+        self.con.execute("delete from active_commit_changes where status = 'deleted'")
+
         self.con.execute("update active_commit_exists set session_token = ?", (session_token,))
         self.con.commit()
 
-- 
2.43.0


From 2011ff21163710a54ae9b1eff62dab67415d959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 32/34] fix: a resumed commit must not contain uploads of files
 which are no longer changed

---
 bversion/client.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index b3c0907..7aa425b 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -728,21 +728,40 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
 
     # Acquire the commit lock and check we still have the latest revision
     manifest_meta = cdb.get_system_meta()
-    body, headers = server_connection.request("begin_commit", {
-        "session_token"     : session_token,
-        'user'              : config['user'],
-        'repository'        : config['repository'],
-        "previous_revision" : manifest_meta['have_revision']})
+    def begin_commit():
+        body, headers = server_connection.request("begin_commit", {
+            "session_token"     : session_token,
+            'user'              : config['user'],
+            'repository'        : config['repository'],
+            "previous_revision" : manifest_meta['have_revision']})
 
 
-    if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
 
+        return json.loads(body)['partial_commit']
+
+    previous_uploads = begin_commit()
+
+    # The server would commit everything uploaded by a partial commit. If it contains a file which is not
+    # a local change any more, and which can not just be removed from it, start again without it.
+    def is_obsolete(path):
+        return path not in client_changes and (
+            os.path.isfile(cpjoin(config['data_dir'], path)) or
+            any(fnmatch.fnmatch(path, flter) for flter in config['ignore_filters']))
+
+    if any(is_obsolete(fle['path']) for fle in previous_uploads):
+        headers = server_connection.request("commit", {
+            "session_token"  : session_token,
+            'repository'     : config['repository'],
+            'commit_message' : '',
+            'mode'           : 'abort'})[1] # Only care about headers
+
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+
+        previous_uploads = begin_commit()
 
     # If we are resuming a partial commit, handle the previously uploaded files
     # Hash local files to ensure they have not changed and thus need reuploading
-    previous_uploads = json.loads(body)
-    previous_uploads = previous_uploads['partial_commit']
-
     filtered_previous = {}
     if len(previous_uploads) != 0:
         for fle in previous_uploads:
-- 
2.43.0


From 27b5dffa0c70d269718aceb678facbfa46727273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 33/34] fix: undo an interrupted operation before looking at
 the working copy

---
 bversion/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 7aa425b..74566cc 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -97,6 +97,10 @@ def init(unlocked = False):
 
     cdb = client_db(cpjoin(config['data_dir'], '.bvn', 'manifest.db'))
     journaling_fs = journaling_filesystem(cdb, config['data_dir'], '.bvn')
+
+    # Undo what an interrupted operation has left half done before anything looks at the working copy
+    if cdb.get_fs_journal() != []: journaling_fs.rollback()
+
     data_store = client_filesystem_interface(cdb, journaling_fs)
 
     if server_connection is None:
-- 
2.43.0


From 54844ed1dae5c95447fe07546511e9ad1e3bdac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 34/34] fix: undoing an interrupted operation must keep the
 modification time of a file

---
 bversion/storage/journaling_filesystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 115d56b..057a33d 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -81,8 +81,9 @@ class journaling_filesystem:
 
         d = command['do']
         if d[cmd] == 'copy':
-            # A copy which was cut short must never be usable for undo
-            shutil.copy(d[src], d[dst] + '.part')
+            # A copy which was cut short must never be usable for undo. It keeps the modification
+            # time, as a file which has been restored from it would look locally changed otherwise.
+            shutil.copy2(d[src], d[dst] + '.part')
             os.rename(d[dst] + '.part', d[dst])
         elif d[cmd] == 'move':   shutil.move(d[src], d[dst])
         elif d[cmd] == 'move_back':
-- 
2.43.0

