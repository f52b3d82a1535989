From 4426eaa7aad7c7f10d01fbe78e801f9fd316e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 01/40] fix: prevent archive members with '..' from being
 extracted outside of the target

---
 common/devpi_common/archive.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/common/devpi_common/archive.py b/common/devpi_common/archive.py
index 6877b6e..e574d2c 100644
--- a/common/devpi_common/archive.py
+++ b/common/devpi_common/archive.py
@@ -43,6 +43,24 @@ def Archive(path_or_file):
         raise
 
 
+def get_member_target(basedir, name):
+    """ return path of archive member below ``basedir``.
+
+    A ``ValueError`` is raised if the member would end up outside of it.
+    """
+    target = basedir.joinpath(name)
+    try:
+        relpath = target.relative_to(basedir)
+    except ValueError as e:
+        raise ValueError(
+            f"archive name {name!r} out of bound") from e
+    # the check above is purely lexical
+    if os.pardir in relpath.parts:
+        raise ValueError(
+            f"archive name {name!r} out of bound")
+    return target
+
+
 class BaseArchive:
     class FileNotExist(ValueError):
         """ File does not exist. """
@@ -92,12 +110,7 @@ class TarArchive(BaseArchive):
         to_path = Path(to_path)
         members = self._archive.getmembers()
         for member in members:
-            target = to_path.joinpath(member.name)
-            try:
-                target.relative_to(to_path)
-            except ValueError as e:
-                raise ValueError(
-                    f"archive name {member.name!r} out of bound") from e
+            get_member_target(to_path, member.name)
         if hasattr(tarfile, 'data_filter'):
             self._archive.extractall(str(to_path), members=members, filter='data')  # type: ignore[call-arg,unused-ignore]
         else:
@@ -127,12 +140,7 @@ class ZipArchive(BaseArchive):
         unzipfile = self._archive
         members = unzipfile.namelist()
         for name in members:
-            fpath = basedir.joinpath(name)
-            try:
-                fpath.relative_to(basedir)
-            except ValueError as e:
-                raise ValueError(
-                    f"archive name {name!r} out of bound") from e
+            fpath = get_member_target(basedir, name)
             if name.endswith((os.sep, "/")):
                 fpath.mkdir(parents=True, exist_ok=True)
             else:
-- 
2.43.0


From 9c644b302802bf232095cdbba948e96354a70790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 02/40] fix: don't serve files outside of the unpacked
 documentation

---
 web/devpi_web/doczip.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/web/devpi_web/doczip.py b/web/devpi_web/doczip.py
index 3eceec4..dd21d47 100644
--- a/web/devpi_web/doczip.py
+++ b/web/devpi_web/doczip.py
@@ -76,7 +76,8 @@ def docs_file_exists(stage, name, version, entry, relpath):
                     return False
     else:
         doc_path = unpack_docs(stage, name, version, entry)
-        if doc_path.join(relpath).isfile():
+        path = get_path_below(doc_path, relpath)
+        if path is not None and path.isfile():
             return True
     return False
 
@@ -85,7 +86,15 @@ def docs_file_path(stage, name, version, entry, relpath):
     if keep_docs_packed(stage.xom.config):
         return None
     doc_path = unpack_docs(stage, name, version, entry)
-    return doc_path.join(relpath)
+    return get_path_below(doc_path, relpath)
+
+
+def get_path_below(doc_path, relpath):
+    # the relpath comes from the request and may contain ".."
+    path = doc_path.join(relpath)
+    if path.common(doc_path) != doc_path:
+        return None
+    return path
 
 
 def unpack_docs(stage, name, version, entry):
-- 
2.43.0


From 3156ddf3be4487f491d92125b973b29b933b59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 03/40] fix: don't allow '.' and '..' as user and index names

---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 6605057..2944bb7 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -295,6 +295,9 @@ name_char_blocklist_regexp = re.compile(
 
 
 def is_valid_name(name):
+    if name in (".", ".."):
+        # these have a special meaning in paths and URLs
+        return False
     return not name_char_blocklist_regexp.search(name)
 
 
-- 
2.43.0


From 8af299e7da0eb5fb1f816e71c0fadfe818d94d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 04/40] fix: persist changelog entry before renaming and
 removing files on the filesystem

---
 server/devpi_server/keyfs_sqlite_fs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/server/devpi_server/keyfs_sqlite_fs.py b/server/devpi_server/keyfs_sqlite_fs.py
index e571271..fad9823 100644
--- a/server/devpi_server/keyfs_sqlite_fs.py
+++ b/server/devpi_server/keyfs_sqlite_fs.py
@@ -148,13 +148,18 @@ class Connection(BaseConnection):
 
     def _write_dirty_files(self, rel_renames):
         basedir = str(self.storage.basedir)
+        # the changelog entry must be persisted before the first rename or
+        # removal of a file, otherwise a crash would leave us with changed
+        # files for which there is no information to recover from
+        self.commit()
+        # from here on the renames are completed by the crash recovery,
+        # so the temporary files must not be dropped by a rollback
+        self.dirty_files.clear()
         # If we crash in the remainder, the next restart will
         # - call check_pending_renames which will replay any remaining
         #   renames from the changelog entry, and
         # - initialize next_serial from the max committed serial + 1
-        result = commit_renames(basedir, rel_renames)
-        self.dirty_files.clear()
-        return result
+        return commit_renames(basedir, rel_renames)
 
     def _drop_dirty_files(self):
         drop_dirty_files(self.dirty_files)
-- 
2.43.0


From 48d731f503222b7a3725516a8ba20a123d6ab4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 05/40] fix: run on_finished listeners when committing a
 transaction failed

---
 server/devpi_server/keyfs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/keyfs.py b/server/devpi_server/keyfs.py
index ed5205b..d655bd7 100644
--- a/server/devpi_server/keyfs.py
+++ b/server/devpi_server/keyfs.py
@@ -745,8 +745,12 @@ class Transaction(object):
                 if commit_serial is absent:
                     # for storages which don't have the attribute yet
                     commit_serial = self.conn.last_changelog_serial + 1
-        finally:
+        except BaseException:
+            # the changes were rolled back by the writer
             self._close()
+            self._run_listeners(self._finished_listeners)
+            raise
+        self._close()
         self.commit_serial = commit_serial
         self._run_listeners(self._success_listeners)
         self._run_listeners(self._finished_listeners)
-- 
2.43.0


From c680f2b0f7144773eab9cd58cf616fac201496a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 06/40] fix: return the result of is_primary from deprecated
 is_master

---
 server/devpi_server/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/main.py b/server/devpi_server/main.py
index 822f51f..b09afa1 100644
--- a/server/devpi_server/main.py
+++ b/server/devpi_server/main.py
@@ -682,7 +682,7 @@ class XOM:
             "is_master is deprecated, use is_primary instead.",
             DeprecationWarning,
             stacklevel=2)
-        return self.is_primary
+        return self.is_primary()
 
     def is_primary(self):
         return self.config.role == "primary"
-- 
2.43.0


From 125d508128e09da9a77add2ce22de7673e13d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 07/40] fix: handle pre-existing files with mismatch in other
 than best hash type

---
 server/devpi_server/replica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/replica.py b/server/devpi_server/replica.py
index 765d38a..d584706 100644
--- a/server/devpi_server/replica.py
+++ b/server/devpi_server/replica.py
@@ -948,7 +948,7 @@ class FileReplicationThread:
             f.close()
             # get one error
             error_msg = errors.get(
-                entry.best_available_hash_type, next(iter(errors)))['msg']
+                entry.best_available_hash_type, next(iter(errors.values())))['msg']
             threadlog.info(
                 "%s: %s", error_msg, path)
             return None
-- 
2.43.0


From 8f1a5b641e9b0ed105e2b322c863fee6acb1be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 08/40] fix: don't keep partial changes of failed uploads and
 pushes

---
 server/devpi_server/views.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 32d85ce..8b70088 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -119,6 +119,9 @@ def abort_submit(request, code, msg, level="error"):
         threadlog.warn("while handling %s:\n%s" % (request.url, msg))
     else:
         threadlog.error("while handling %s:\n%s" % (request.url, msg))
+    if code >= 400:
+        # don't keep any changes made before the error
+        request.registry["xom"].keyfs.tx.doom()
     raise error(headers=meta_headers)
 
 
@@ -1066,10 +1069,10 @@ class PyPIView:
             try:
                 results.extend(self._push_links(links, target_stage, name, version))
             except target_stage.NonVolatile as e:
-                apireturn(409, "%s already exists in non-volatile index" % (
-                          e.link.basename,))
+                request.apifatal(409, "%s already exists in non-volatile index" % (
+                                 e.link.basename,))
             except BadGateway as e:
-                return apireturn(502, e.args[0])
+                request.apifatal(502, e.args[0])
             apireturn(200, result=results, type="actionlog")
         else:
             register_project = pushdata.pop("register_project", False)
-- 
2.43.0


From 140491c899818150d1ab9f761d39ddff35fe8738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 09/40] fix: don't keep automatically created user if creating
 the index failed

---
 server/devpi_server/views.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 8b70088..1539b88 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -908,16 +908,16 @@ class PyPIView:
         if stage is not None:
             apireturn(409, "index %r exists" % stage.name)
         if not self.request.has_permission("index_create"):
-            apireturn(403, "no permission to create index %s/%s" % (
+            self.request.apifatal(403, "no permission to create index %s/%s" % (
                 self.context.username, self.context.index))
         json = getjson(self.request)
         try:
             stage = self.context.user.create_stage(self.context.index, **json)
             ixconfig = stage.ixconfig
         except InvalidIndex as e:
-            apireturn(400, "%s" % e)
+            self.request.apifatal(400, "%s" % e)
         except InvalidIndexconfig as e:
-            apireturn(400, message=", ".join(e.messages))
+            self.request.apifatal(400, message=", ".join(e.messages))
         try:
             stage.customizer.on_modified(self.request, {})
         except InvalidIndexconfig as e:
-- 
2.43.0


From 64f4e5a71a585e26ab8c2fb30452443b6bb850c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 10/40] fix: export history log of documentation zips

---
 server/devpi_server/importexport.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/server/devpi_server/importexport.py b/server/devpi_server/importexport.py
index 6d46b6a..543cdb7 100644
--- a/server/devpi_server/importexport.py
+++ b/server/devpi_server/importexport.py
@@ -252,7 +252,7 @@ class IndexDump:
                 if hasattr(self.stage, 'get_doczip_entry'):
                     entry = self.stage.get_doczip_entry(vername, version)
                 if entry:
-                    self.dump_docfile(vername, version, entry)
+                    self.dump_docfile(vername, version, entry, linkstore)
         self.exporter.completed("index %r" % self.stage.name)
 
     def dump_releasefiles(self, linkstore):
@@ -298,13 +298,18 @@ class IndexDump:
         self.indexmeta["files"].append(d)
         self.exporter.completed(f"{type}: {relpath} ")
 
-    def dump_docfile(self, project, version, entry):
+    def dump_docfile(self, project, version, entry, linkstore):
         relpath = self.exporter.copy_file(
             entry,
             self.basedir.join("%s-%s.doc.zip" % (project, version)))
         self.add_filedesc(
             "doczip", project, relpath,
-            version=version, entrymapping=entry.meta)
+            version=version, entrymapping=entry.meta,
+            log=[
+                log
+                for link in linkstore.get_links(rel="doczip")
+                if link.entrypath == entry.relpath
+                for log in link.get_logs()])
 
 
 class Importer:
-- 
2.43.0


From 8950ad55e216398c2dfb16b296481cc25700aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 11/40] fix: only send the login token to the server it belongs
 to

---
 client/devpi/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/devpi/main.py b/client/devpi/main.py
index 770a011..8bc76e6 100644
--- a/client/devpi/main.py
+++ b/client/devpi/main.py
@@ -153,7 +153,7 @@ class Hub:
         try:
             data = json.dumps(kvdict) if kvdict is not None else None
             if auth is notset:
-                auth = self.current.get_auth()
+                auth = self.current.get_auth(url=url)
             set_devpi_auth_header(headers, auth)
             if basic_auth is notset:
                 basic_auth = self.current.get_basic_auth(url=url)
-- 
2.43.0


From a9abb365d476a20754ea9f6560f1fd35f7b6b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 12/40] fix: release transaction when preparing its commit or
 its rollback failed

---
 server/devpi_server/keyfs.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/server/devpi_server/keyfs.py b/server/devpi_server/keyfs.py
index d655bd7..3160703 100644
--- a/server/devpi_server/keyfs.py
+++ b/server/devpi_server/keyfs.py
@@ -712,16 +712,7 @@ class Transaction(object):
         self.cache[typedkey] = val
         self.dirty.add(typedkey)
 
-    def commit(self):
-        if self.doomed:
-            threadlog.debug("closing doomed transaction")
-            result = self._close()
-            self._run_listeners(self._finished_listeners)
-            return result
-        if not self.write:
-            result = self._close()
-            self._run_listeners(self._finished_listeners)
-            return result
+    def _get_records(self):
         records = []
         for typedkey in self.dirty:
             val = self.cache[typedkey]
@@ -732,6 +723,24 @@ class Transaction(object):
             if val is deleted:
                 val = None
             records.append((typedkey, val, back_serial, old_val))
+        return records
+
+    def commit(self):
+        if self.doomed:
+            threadlog.debug("closing doomed transaction")
+            result = self._close()
+            self._run_listeners(self._finished_listeners)
+            return result
+        if not self.write:
+            result = self._close()
+            self._run_listeners(self._finished_listeners)
+            return result
+        try:
+            records = self._get_records()
+        except BaseException:
+            self._close()
+            self._run_listeners(self._finished_listeners)
+            raise
         if not records and not self.conn.dirty_files:
             threadlog.debug("nothing to commit, just closing tx")
             result = self._close()
@@ -794,7 +803,7 @@ class Transaction(object):
             threadlog.debug("transaction rollback at %s" % (self.at_serial))
         finally:
             result = self._close()
-        self._run_listeners(self._finished_listeners)
+            self._run_listeners(self._finished_listeners)
         return result
 
     def restart(self, write=False):
-- 
2.43.0


From c82275cfaad4ead6cb5996984d4913f922b72d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:18 +0000
Subject: [PATCH 13/40] fix: remove temporary files of doomed transactions

---
 server/devpi_server/keyfs.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/keyfs.py b/server/devpi_server/keyfs.py
index 3160703..f05155a 100644
--- a/server/devpi_server/keyfs.py
+++ b/server/devpi_server/keyfs.py
@@ -727,10 +727,8 @@ class Transaction(object):
 
     def commit(self):
         if self.doomed:
-            threadlog.debug("closing doomed transaction")
-            result = self._close()
-            self._run_listeners(self._finished_listeners)
-            return result
+            threadlog.debug("rolling back doomed transaction")
+            return self.rollback()
         if not self.write:
             result = self._close()
             self._run_listeners(self._finished_listeners)
@@ -798,7 +796,7 @@ class Transaction(object):
 
     def rollback(self):
         try:
-            if hasattr(self.conn, 'rollback'):
+            if not self.closed and hasattr(self.conn, 'rollback'):
                 self.conn.rollback()
             threadlog.debug("transaction rollback at %s" % (self.at_serial))
         finally:
-- 
2.43.0


From dbcc96c57032d38494a36ba2b6d0af930194f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:18 +0000
Subject: [PATCH 14/40] fix: don't keep changes of requests answered with a
 keyfs timeout

---
 server/devpi_server/views.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 1539b88..16aabe8 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -254,6 +254,7 @@ def tween_keyfs_transaction(handler, registry):
                 msg = lazy_format_exception_only(e)
                 threadlog.error(
                     "Keyfs timeout: %s", msg)
+                tx.doom()
                 return HTTPInternalServerError(msg)
         set_header_devpi_serial(response, tx)
         return response
-- 
2.43.0


From 08cb2635290dc50bf0d630425e5a1ea00265dc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 15/40] fix: don't mark a serial as handled if a subscriber was
 interrupted by shutdown

---
 server/devpi_server/keyfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/devpi_server/keyfs.py b/server/devpi_server/keyfs.py
index f05155a..b89e7cd 100644
--- a/server/devpi_server/keyfs.py
+++ b/server/devpi_server/keyfs.py
@@ -227,6 +227,8 @@ class TxNotificationThread:
                               subname, ev.typedkey, event_serial, ev.back_serial)
                     try:
                         sub(ev)
+                    except mythread.Shutdown:
+                        raise
                     except Exception:
                         if raising:
                             raise
-- 
2.43.0


From 3c4fdb0b17bd6247c68c19298dcf60618481b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 16/40] fix: don't keep automatically created user if the
 request body is invalid

---
 server/devpi_server/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 16aabe8..a64d81c 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -893,6 +893,7 @@ class PyPIView:
         route_name="/{user}/{index}/", request_method="PUT")
     def index_create(self):
         username = self.context.username
+        json = getjson(self.request)
         user = self.model.get_user(username)
         if user is None:
             # If the currently authenticated user tries to create an index,
@@ -911,7 +912,6 @@ class PyPIView:
         if not self.request.has_permission("index_create"):
             self.request.apifatal(403, "no permission to create index %s/%s" % (
                 self.context.username, self.context.index))
-        json = getjson(self.request)
         try:
             stage = self.context.user.create_stage(self.context.index, **json)
             ixconfig = stage.ixconfig
-- 
2.43.0


From 7df68914edf5ca70efa4fbf7e233fae6b67bf4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 17/40] fix: don't change anything when deletion of an unknown
 project is refused

---
 server/devpi_server/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index a64d81c..dc6700e 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1397,7 +1397,7 @@ class PyPIView:
         try:
             stage.del_project(project)
         except KeyError:
-            apireturn(404, "project not found")
+            self.request.apifatal(404, "project not found")
         apireturn(200, "project {project} deleted from stage {sname}".format(
                   project=project, sname=stage.name))
 
-- 
2.43.0


From 25f6fb1006f72ed5808aa04596440f2d8aac1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:25 +0000
Subject: [PATCH 18/40] fix: verify checksums of documentation and test results
 on import

---
 server/devpi_server/importexport.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/server/devpi_server/importexport.py b/server/devpi_server/importexport.py
index 543cdb7..58837dd 100644
--- a/server/devpi_server/importexport.py
+++ b/server/devpi_server/importexport.py
@@ -574,7 +574,6 @@ class Importer:
                     p.basename, f,
                     hashes=hashes,
                     last_modified=mapping["last_modified"])
-                entry = link.entry
             else:  # mirrors
                 link = None
                 url = URL(mapping['url']).replace(fragment=hashes.best_available_spec)
@@ -594,15 +593,6 @@ class Importer:
                     yanked.append(is_yanked)
                 stage._save_cache_links(
                     project, links, requires_python, yanked, serial, None)
-            errors = entry.file_get_hash_errors(hashes)
-            if errors:
-                # get one error
-                error_hash_type = next(iter(errors))
-                error_info = errors[error_hash_type]
-                digest = error_info['got']
-                expected = error_info['expected']
-                msg = f"File {p} has bad checksum {digest}, expected {expected}."
-                raise Fatal(msg)
         elif filedesc["type"] == "doczip":
             version = filedesc["version"]
             # docs didn't always have entrymapping in export dump
@@ -624,6 +614,17 @@ class Importer:
         else:
             msg = f"unknown file type: {type}"
             raise Fatal(msg)
+        if link is not None:
+            entry = link.entry
+        errors = entry.file_get_hash_errors(hashes)
+        if errors:
+            # get one error
+            error_hash_type = next(iter(errors))
+            error_info = errors[error_hash_type]
+            digest = error_info['got']
+            expected = error_info['expected']
+            msg = f"File {p} has bad checksum {digest}, expected {expected}."
+            raise Fatal(msg)
         if link is not None:
             history_log = filedesc.get('log')
             if history_log is None:
-- 
2.43.0


From 1719f685958d099741579cd15dd4c1451e24a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:03 +0000
Subject: [PATCH 19/40] fix: create the generated secret file with owner only
 access

---
 server/devpi_server/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/devpi_server/config.py b/server/devpi_server/config.py
index 65a8370..a296d74 100644
--- a/server/devpi_server/config.py
+++ b/server/devpi_server/config.py
@@ -1146,6 +1146,8 @@ def gensecret():
         if config.args.secretfile is None:
             raise Fatal("You need to provide a location for the secret file.")
         if not config.secret_path.exists():
+            # the secret must not be accessible by others at any time
+            config.secret_path.touch(mode=0o600, exist_ok=False)
             config.secret_path.write_bytes(new_secret())
             log.info("New secret written to '%s'" % config.secret_path)
             if sys.platform != "win32":
-- 
2.43.0


From 6e92bd446e8e0e17acaa18eff9bf18077b36a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 20/40] fix: visit each base index only once during stage
 resolution

---
 server/devpi_server/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 2944bb7..0193b5f 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1127,12 +1127,11 @@ class BaseStage(object):
         """ return stage resolution order. """
         todo = [self]
         todo_mirrors = []
-        seen = set()
+        seen = {self.name}
         devpiserver_sro_skip = self.xom.config.hook.devpiserver_sro_skip
         while todo:
             stage = todo.pop(0)
             yield stage
-            seen.add(stage.name)
             for base in stage.ixconfig.get("bases", ()):
                 if base in seen:
                     continue
@@ -1147,11 +1146,12 @@ class BaseStage(object):
                         "Index %s base %s excluded via devpiserver_sro_skip.",
                         self.name, base)
                     continue
+                # an index can be reached several ways before it is processed,
+                # so we need to prevent duplicates here
+                seen.add(base)
                 if current_stage.ixconfig['type'] == 'mirror':
+                    # mirrors are processed last
                     todo_mirrors.append(current_stage)
-                    # mirrors are processed last,
-                    # but we need to prevent duplicates
-                    seen.add(base)
                 else:
                     todo.append(current_stage)
         for stage in todo_mirrors:
-- 
2.43.0


From d976655440ab9d6c4444ec51e7d79bdbde1a7ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:33 +0000
Subject: [PATCH 21/40] fix: update simple links when requires_python of a
 version changes

---
 server/devpi_server/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 0193b5f..fd09ecb 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1277,7 +1277,14 @@ class PrivateStage(BaseStage):
         if self.customizer.readonly:
             raise ReadonlyIndex("index is marked read only")
         validate_metadata(metadata)
+        (project, version) = (metadata["name"], metadata["version"])
+        old_metadata = self.get_versiondata_perstage(project, version)
+        old_requires_python = old_metadata.get("requires_python")
+        has_links = bool(old_metadata.get("+elinks"))
         self._set_versiondata(metadata)
+        if has_links and metadata.get("requires_python", old_requires_python) != old_requires_python:
+            # the simple links contain requires_python of the version
+            self._regen_simplelinks(project)
 
     def key_projversions(self, project):
         return self.keyfs.PROJVERSIONS(user=self.username,
-- 
2.43.0


From 0cc334225e1e7b9baa97c3e3f4d97e30d641279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 22/40] fix: remove projects from the search index however
 their name is spelled

---
 web/devpi_web/whoosh_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/devpi_web/whoosh_index.py b/web/devpi_web/whoosh_index.py
index 1ec8c0c..9d95e1c 100644
--- a/web/devpi_web/whoosh_index.py
+++ b/web/devpi_web/whoosh_index.py
@@ -559,7 +559,7 @@ class Index:
             text=fields.TEXT(analyzer=NgramWordAnalyzer(), stored=False, phrase=False))
 
     def _delete_project(self, indexname, project, serial, counter, writer, searcher):
-        path = u"/%s/%s" % (indexname, project)
+        path = u"/%s/%s" % (indexname, normalize_name(project))
         writer.delete_by_term('path', path, searcher=searcher)
         next(counter)
         log.debug("Removed %s from search index.", path)
-- 
2.43.0


From e12dfe05262ae97c9bd7577b396cac1d698be1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:27 +0000
Subject: [PATCH 23/40] fix: remove the cached links when the last file of a
 mirrored project is deleted

---
 server/devpi_server/mirror.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index f5b58b7..d4388a2 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -395,7 +395,11 @@ class MirrorStage(BaseStage):
         if not has_links and cleanup:
             projects = self.key_projects.get(readonly=False)
             if project in projects:
+                # without the project name the cached links wouldn't be
+                # found anymore when the index is deleted
+                self.key_projsimplelinks(project).delete()
                 projects.remove(project)
+                self.cache_retrieve_times.expire(project)
                 self.key_projects.set(projects)
 
     @property
-- 
2.43.0


From 30aaa522f4ef45b2268e405d9222c3b50f2fb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:27 +0000
Subject: [PATCH 24/40] fix: remove entries of files not downloaded yet when a
 mirror is deleted

---
 server/devpi_server/mirror.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index d4388a2..e81280f 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -338,6 +338,10 @@ class MirrorStage(BaseStage):
     def delete(self):
         # delete all projects on this index
         for name in self.key_projects.get():
+            # del_project keeps the entries of files which weren't downloaded
+            (is_expired, links, cache_serial) = self._load_cache_links(name)
+            for link in links or ():
+                self._entry_from_href(link[1]).delete()
             self.del_project(name)
         self.key_projects.delete()
         BaseStage.delete(self)
-- 
2.43.0


From 3d56259a56f74fe9b8bc78ad31e689778dc2fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 25/40] fix: keep index options of plugins on partial
 modifications

---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index fd09ecb..a625e4c 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -741,6 +741,9 @@ class BaseStage(object):
                     "existing index configuration keys for '%s': %s"
                     % (index_type, ", ".join(sorted(conflicting))))
             for key, value in defaults.items():
+                if key not in kwargs and key in self.ixconfig:
+                    # keep the current value on partial modifications
+                    continue
                 new_value = kwargs.pop(key, value)
                 if isinstance(value, bool):
                     new_value = ensure_boolean(new_value)
-- 
2.43.0


From 7cb960bc4aaaeb91bba407991c89b5f25f0e641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 26/40] fix: do not cache a project as not found when the
 project list of a mirror is not available

---
 server/devpi_server/mirror.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index e81280f..90e6c60 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -195,6 +195,7 @@ class MirrorStage(BaseStage):
         self.key_projects = self.keyfs.PROJNAMES(user=username, index=index)
         # used to log about stale projects only once
         self._offline_logging = set()
+        self._project_list_failed = False
 
     def _get_extra_headers(self, extra_headers):
         # make a copy of extra_headers
@@ -469,7 +470,9 @@ class MirrorStage(BaseStage):
         except self.UpstreamError as e:
             threadlog.warn(
                 "upstream error (%s): using stale projects list" % e)
+            self._project_list_failed = True
             return self._stale_list_projects_perstage()
+        self._project_list_failed = False
         old = self.cache_projectnames.get()
         if not self.cache_projectnames.exists() or old != projects:
             self.cache_projectnames.set(projects, etag)
@@ -771,6 +774,10 @@ class MirrorStage(BaseStage):
                 if exists is Unknown and self.no_project_list:
                     pass
                 elif not exists:
+                    if self._project_list_failed:
+                        # we can't know whether the project exists
+                        raise self.UpstreamError(
+                            "project list not available while getting data for %r", project)
                     # immediately cache the not found with no ETag
                     self.cache_retrieve_times.refresh(project, None)
                     raise self.UpstreamNotFoundError(
-- 
2.43.0


From 86dc76ad85b1ae1b5927c98d9e0c6cfc546abc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 27/40] fix: treat unparsable answers of the upstream of a
 mirror as upstream errors

---
 server/devpi_server/mirror.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index 90e6c60..eab7ec5 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -451,12 +451,17 @@ class MirrorStage(BaseStage):
             raise self.UpstreamError(
                 "URL %r returned %s %s",
                 self.mirror_url, response.status_code, response.reason)
-        if response.headers.get('content-type') == SIMPLE_API_V1_JSON:
-            parser = ProjectJSONv1Parser(response.url)
-            parser.feed(response.json())
-        else:
-            parser = ProjectHTMLParser(response.url)
-            parser.feed(response.text)
+        try:
+            if response.headers.get('content-type') == SIMPLE_API_V1_JSON:
+                parser = ProjectJSONv1Parser(response.url)
+                parser.feed(response.json())
+            else:
+                parser = ProjectHTMLParser(response.url)
+                parser.feed(response.text)
+        except (KeyError, OSError, TypeError, ValueError) as e:
+            # incomplete or unparsable answer
+            raise self.UpstreamError(
+                "URL %r returned invalid data: %s", self.mirror_url, e) from e
         return (
             {normalize_name(x): x for x in parser.projects},
             response.headers.get("ETag"))
@@ -643,10 +648,14 @@ class MirrorStage(BaseStage):
         # make sure we don't store credential in the database
         response_url = URL(response.url).replace(username=None, password=None)
         # parse simple index's link
-        if response.headers.get('content-type') == SIMPLE_API_V1_JSON:
-            releaselinks = parse_index_v1_json(response_url, text)
-        else:
-            releaselinks = parse_index(response_url, text).releaselinks
+        try:
+            if response.headers.get('content-type') == SIMPLE_API_V1_JSON:
+                releaselinks = parse_index_v1_json(response_url, text)
+            else:
+                releaselinks = parse_index(response_url, text).releaselinks
+        except (KeyError, TypeError, ValueError) as e:
+            raise self.UpstreamError(
+                "GET %r returned invalid data: %s", url, e) from e
         num_releaselinks = len(releaselinks)
         key_hrefs = [None] * num_releaselinks
         requires_python = [None] * num_releaselinks
-- 
2.43.0


From a65c08f91ef02dbe3a0aa1951124c2334a33c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 28/40] fix: release the lock of a project when an update of
 its links in the background fails

---
 server/devpi_server/mirror.py | 47 ++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index eab7ec5..a2c2516 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -595,6 +595,15 @@ class MirrorStage(BaseStage):
         threadlog.debug("cleared cache for %s", project)
 
     async def _async_fetch_releaselinks(self, newlinks_future, project, cache_serial, _key_from_link):
+        try:
+            await self._async_fetch_releaselinks_to_future(
+                newlinks_future, project, cache_serial, _key_from_link)
+        finally:
+            # nobody must wait for a result which won't arrive anymore,
+            # this does nothing if the result was set
+            newlinks_future.cancel()
+
+    async def _async_fetch_releaselinks_to_future(self, newlinks_future, project, cache_serial, _key_from_link):
         # get the simple page for the project
         url = self.mirror_url.joinpath(project).asdir()
         get_url = self.mirror_url_without_auth.joinpath(project).asdir()
@@ -720,23 +729,27 @@ class MirrorStage(BaseStage):
             return self.SimpleLinks(newlinks)
 
     async def _update_simplelinks_in_future(self, newlinks_future, project, lock):
-        threadlog.debug("Awaiting simple links for %r", project)
-        info = await newlinks_future
-        threadlog.debug("Got simple links for %r", project)
-
-        newlinks = join_links_data(
-            info["key_hrefs"], info["requires_python"], info["yanked"])
-        with self.keyfs.write_transaction():
-            self.keyfs.tx.on_finished(lock.release)
-            # fetch current links
-            (is_expired, links, cache_serial) = self._load_cache_links(project)
-            if links is None or set(links) != set(newlinks):
-                # we got changes, so store them
-                self._update_simplelinks(project, info, links, newlinks)
-                threadlog.debug(
-                    "Updated simplelinks for %r in background", project)
-            else:
-                threadlog.debug("Unchanged simplelinks for %r", project)
+        try:
+            threadlog.debug("Awaiting simple links for %r", project)
+            info = await newlinks_future
+            threadlog.debug("Got simple links for %r", project)
+
+            newlinks = join_links_data(
+                info["key_hrefs"], info["requires_python"], info["yanked"])
+            with self.keyfs.write_transaction():
+                # fetch current links
+                (is_expired, links, cache_serial) = self._load_cache_links(project)
+                if links is None or set(links) != set(newlinks):
+                    # we got changes, so store them
+                    self._update_simplelinks(project, info, links, newlinks)
+                    threadlog.debug(
+                        "Updated simplelinks for %r in background", project)
+                else:
+                    threadlog.debug("Unchanged simplelinks for %r", project)
+        finally:
+            # the lock is missing if it was already held by this thread
+            if lock is not None:
+                lock.release()
 
     def get_simplelinks_perstage(self, project):
         """ return all releaselinks from the index, returning cached entries
-- 
2.43.0


From cee8888b226bd9ee0ea39aac1b0a3324a6d68571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 29/40] fix: replace file content set before in the same
 transaction with storages keeping files in the database

---
 postgresql/devpi_postgresql/main.py | 4 ++++
 server/devpi_server/keyfs_sqlite.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/postgresql/devpi_postgresql/main.py b/postgresql/devpi_postgresql/main.py
index 124a53e..a671c2b 100644
--- a/postgresql/devpi_postgresql/main.py
+++ b/postgresql/devpi_postgresql/main.py
@@ -303,6 +303,10 @@ class Connection:
         f = self.dirty_files.get(path, None)
         if f is None:
             f = SpooledTemporaryFile(max_size=1048576)
+        else:
+            # forget the content which was set before
+            f.seek(0)
+            f.truncate()
         if not isinstance(content_or_file, bytes) and not callable(getattr(content_or_file, "seekable", None)):
             content_or_file = content_or_file.read()
             if len(content_or_file) > 1048576:
diff --git a/server/devpi_server/keyfs_sqlite.py b/server/devpi_server/keyfs_sqlite.py
index 5a0a500..8fb5a1f 100644
--- a/server/devpi_server/keyfs_sqlite.py
+++ b/server/devpi_server/keyfs_sqlite.py
@@ -254,6 +254,10 @@ class Connection(BaseConnection):
         f = self.dirty_files.get(path, None)
         if f is None:
             f = SpooledTemporaryFile(max_size=1048576)
+        else:
+            # forget the content which was set before
+            f.seek(0)
+            f.truncate()
         if isinstance(content_or_file, bytes):
             f.write(content_or_file)
             f.seek(0)
-- 
2.43.0


From 044414e80dcdcfa10f480c90211728229e4a92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 30/40] fix: size of a file deleted in the same transaction is
 unknown with all storages

---
 postgresql/devpi_postgresql/main.py | 2 +-
 server/devpi_server/keyfs_sqlite.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/devpi_postgresql/main.py b/postgresql/devpi_postgresql/main.py
index a671c2b..8604d2c 100644
--- a/postgresql/devpi_postgresql/main.py
+++ b/postgresql/devpi_postgresql/main.py
@@ -403,7 +403,7 @@ class Connection:
         assert not os.path.isabs(path)
         f = self.dirty_files.get(path, absent)
         if f is None:
-            raise IOError()
+            return None
         elif f is not absent:
             pos = f.tell()
             size = f.seek(0, 2)
diff --git a/server/devpi_server/keyfs_sqlite.py b/server/devpi_server/keyfs_sqlite.py
index 8fb5a1f..c295cb3 100644
--- a/server/devpi_server/keyfs_sqlite.py
+++ b/server/devpi_server/keyfs_sqlite.py
@@ -302,7 +302,7 @@ class Connection(BaseConnection):
         assert not os.path.isabs(path)
         f = self.dirty_files.get(path, absent)
         if f is None:
-            raise IOError()
+            return None
         elif f is not absent:
             pos = f.tell()
             size = f.seek(0, 2)
-- 
2.43.0


From 472b6e2b0aac7bd54ced868cbbe10600b2f3f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:28 +0000
Subject: [PATCH 31/40] fix: escape names of files, projects and mirrors on
 simple pages

---
 server/devpi_server/views.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index dc6700e..af4300e 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -719,7 +719,7 @@ class PyPIView:
         return make_url
 
     def _simple_list_project(self, stage, project, result, embed_form, blocked_index):
-        title = "%s: links for %s" % (stage.name, project)
+        title = escape("%s: links for %s" % (stage.name, project))
         yield ("<!DOCTYPE html><html><head><title>%s</title></head><body><h1>%s</h1>\n" %
                (title, title)).encode("utf-8")
 
@@ -730,19 +730,19 @@ class PyPIView:
             yield ("<p><strong>INFO:</strong> Because this project isn't in "
                    "the <code>mirror_whitelist</code>, no releases from "
                    "<strong>%s</strong> are included.</p>"
-                   % blocked_index).encode('utf-8')
+                   % escape(blocked_index)).encode('utf-8')
 
         make_url = self._makeurl_factory()
 
         for link in result:
-            stage = "/".join(link.href.split("/", 2)[:2])
-            attribs = 'href="%s"' % make_url(link.href).url
+            stage = escape("/".join(link.href.split("/", 2)[:2]))
+            attribs = 'href="%s"' % escape(make_url(link.href).url)
             if link.require_python is not None:
                 attribs += ' data-requires-python="%s"' % escape(link.require_python)
             if link.yanked is not None and link.yanked is not False:
                 yanked = "" if link.yanked is True else link.yanked
                 attribs += ' data-yanked="%s"' % escape(yanked)
-            data = dict(stage=stage, attribs=attribs, key=link.key)
+            data = dict(stage=stage, attribs=attribs, key=escape(link.key))
             yield '{stage} <a {attribs}>{key}</a><br/>\n'.format(
                 **data).encode('utf-8')
 
@@ -827,7 +827,7 @@ class PyPIView:
             vary=set(["Accept", "User-Agent"]))
 
     def _simple_list_all(self, stage_name, stage_results):
-        title = f"{stage_name}: simple list (including inherited indices)"
+        title = escape(f"{stage_name}: simple list (including inherited indices)")
         yield f"<!DOCTYPE html><html><head><title>{title}</title></head><body><h1>{title}</h1>".encode("utf-8")
         last_index = len(stage_results) - 1
         seen = set()
@@ -836,10 +836,11 @@ class PyPIView:
             bases = getattr(stage, "ixconfig", {}).get("bases")
             if bases:
                 h2 += " (bases: %s)" % ",".join(bases)
-            yield f"<h2>{h2}</h2>".encode("utf-8")
+            yield f"<h2>{escape(h2)}</h2>".encode("utf-8")
             for name in sorted(names):
                 if name not in seen:
-                    yield f'<a href="{name}/">{name}</a><br/>\n'.encode("utf-8")
+                    html_name = escape(name)
+                    yield f'<a href="{html_name}/">{html_name}</a><br/>\n'.encode("utf-8")
                     if index != last_index:
                         seen.add(name)
         yield "</body></html>".encode("utf-8")
@@ -851,7 +852,8 @@ class PyPIView:
         for index, (stage, names) in enumerate(stage_results):
             for name in names:
                 if name not in seen:
-                    yield f'<a href="{name}/">{name}</a>\n'.encode("utf-8")
+                    html_name = escape(name)
+                    yield f'<a href="{html_name}/">{html_name}</a>\n'.encode("utf-8")
                     if index != last_index:
                         seen.add(name)
         yield "</body></html>".encode("utf-8")
-- 
2.43.0


From c81a5d73c3b612aa8a30cf9417cfb8dfac148176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:28 +0000
Subject: [PATCH 32/40] fix: encode project names in the JSON list of projects

---
 server/devpi_server/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index af4300e..0b42ef9 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -866,7 +866,7 @@ class PyPIView:
         for index, (stage, names) in enumerate(stage_results):
             for name in names:
                 if name not in seen:
-                    info = f'{{"name":"{name}"}}'
+                    info = f'{{"name":{json.dumps(name)}}}'
                     if first:
                         yield f'{info}'.encode("utf-8")
                         first = False
-- 
2.43.0


From 43de5c5d7adc1fbad6a389140debef7a08c6030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:25 +0000
Subject: [PATCH 33/40] fix: link only to web addresses from metadata and index
 configurations

---
 web/devpi_web/description.py | 13 +++++++++++++
 web/devpi_web/views.py       |  8 ++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/web/devpi_web/description.py b/web/devpi_web/description.py
index 7793a82..4e13175 100644
--- a/web/devpi_web/description.py
+++ b/web/devpi_web/description.py
@@ -1,10 +1,19 @@
 from html import escape
+from urllib.parse import urlsplit
 import io
 import readme_renderer.markdown
 import readme_renderer.rst
 import readme_renderer.txt
 
 
+def is_web_url(url):
+    # links must not use schemes like "javascript:" or "data:"
+    try:
+        return urlsplit(url).scheme in ('http', 'https')
+    except ValueError:
+        return False
+
+
 def get_description(stage, name, version):
     return DescriptionRenderer(
         stage, name, version).get_description()
@@ -65,6 +74,10 @@ class DescriptionRenderer:
         link = self._get_mirror_web_url_fmt().format(
             name=self.name).rstrip('/') + '/%s/' % self.version
 
+        if not is_web_url(link):
+            return '<div>Please refer to description on remote server {link}</div>'.format(
+                link=escape(link))
+
         return (
             '<div>Please refer to description on remote server '
             '<a href="{link}">{link}</a></div>').format(link=escape(link))
diff --git a/web/devpi_web/views.py b/web/devpi_web/views.py
index 94f2aed..b1cb110 100644
--- a/web/devpi_web/views.py
+++ b/web/devpi_web/views.py
@@ -12,6 +12,7 @@ from devpi_server.views import PyPIView
 from devpi_web.compat import get_entry_hash_spec
 from devpi_web.compat import get_entry_hash_value
 from devpi_web.description import get_description
+from devpi_web.description import is_web_url
 from devpi_web.doczip import Docs
 from devpi_web.doczip import docs_exist
 from devpi_web.doczip import docs_file_content
@@ -628,9 +629,12 @@ def add_mirror_page_navlink(request, context, whitelist_info, nav_links):
             mirror_web_url_fmt = base.ixconfig.get("mirror_web_url_fmt")
             if not mirror_web_url_fmt:
                 continue
+            url = mirror_web_url_fmt.format(name=context.verified_project)
+            if not is_web_url(url):
+                continue
             nav_links.append(dict(
                 title="%s page" % base.ixconfig.get("title", "Mirror"),
-                url=mirror_web_url_fmt.format(name=context.verified_project)))
+                url=url))
 
 
 def _index_refresh_form(request, stage, project):
@@ -781,7 +785,7 @@ def version_get(context, request):
         nav_links.append(dict(
             title="Documentation",
             url=docs['url']))
-    if home_page:
+    if home_page and is_web_url(home_page):
         nav_links.append(dict(
             title="Homepage",
             url=home_page))
-- 
2.43.0


From 99908ce593d43802a056f010c7850c25e50c8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:47 +0000
Subject: [PATCH 34/40] fix: escape messages of refused submissions in HTML

---
 server/devpi_server/views.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 0b42ef9..4f51629 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -33,6 +33,7 @@ from pyramid.threadlocal import RequestContext
 from pyramid.traversal import DefaultRootFactory
 from pyramid.view import exception_view_config
 from pyramid.view import view_config
+from string import Template
 from urllib.parse import urlparse
 import itertools
 import json
@@ -110,9 +111,14 @@ def abort(request, code, body):
 def abort_submit(request, code, msg, level="error"):
     # we construct our own type because we need to set the title
     # so that setup.py upload/register use it to explain the failure
+    # the title isn't escaped by pyramid when it is used in HTML
+    html_status = escape(f"{code} {msg}").replace("$", "$$")
+    html_template = HTTPException.html_template_obj.template
     error = type(
         'HTTPError', (HTTPException,), dict(
-            code=code, title=msg))
+            code=code, title=msg,
+            html_template_obj=Template(
+                html_template.replace("${status}", html_status))))
     if level == "info":
         threadlog.info("while handling %s:\n%s" % (request.url, msg))
     elif level == "warn":
-- 
2.43.0


From 857dd9127363ee4e4999b97ca20f0e27cdc0d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:35 +0000
Subject: [PATCH 35/40] fix: report failed tests of any of several packages in
 devpi test

The exit status only told about the last package specification.
---
 client/devpi/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/devpi/test.py b/client/devpi/test.py
index 5dba51c..7989897 100644
--- a/client/devpi/test.py
+++ b/client/devpi/test.py
@@ -287,6 +287,7 @@ def main(hub, args):
             hub.fatal("index %r not of form URL, USER/NAME or NAME" % index)
     with hub.workdir(prefix="devpi-test-") as tmpdir:
         devindex = DevIndex(hub, tmpdir, current)
+        all_ret = 0
         for pkgspec in args.pkgspec:
             versioninfo = devindex.get_matching_versioninfo(pkgspec, index)
             if not versioninfo:
@@ -301,7 +302,6 @@ def main(hub, args):
             toxrunargs = prepare_toxrun_args(
                 devindex, versioninfo, sdist_links, wheel_links,
                 select=args.select)
-            all_ret = 0
             if args.list:
                 hub.info("would test:")
             for toxargs in toxrunargs:
-- 
2.43.0


From 3faa2bbd259f5ad85feb21a1ff7a84befaceb4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:35 +0000
Subject: [PATCH 36/40] fix: only add the login token to urls it was stored for

With devpi test --index URL for another server the token of the current
server was sent there.
---
 client/devpi/use.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/devpi/use.py b/client/devpi/use.py
index 1e011cb..c55d0f7 100644
--- a/client/devpi/use.py
+++ b/client/devpi/use.py
@@ -162,7 +162,7 @@ class Current:
 
     def add_auth_to_url(self, url):
         url = URL(url)
-        auth = self.get_auth()
+        auth = self.get_auth(url)
         if auth is not None:
             url = url.replace(
                 username=url_quote(auth[0]), password=url_quote(auth[1]))
-- 
2.43.0


From 5787f671f35feb29ec2f1427b9c9b907a2929612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:35 +0000
Subject: [PATCH 37/40] fix: upload with the login token stored for the upload
 url

The token was looked up for the login url, which a server may announce
elsewhere.
---
 client/devpi/upload.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/devpi/upload.py b/client/devpi/upload.py
index a214818..281ba3c 100644
--- a/client/devpi/upload.py
+++ b/client/devpi/upload.py
@@ -151,7 +151,7 @@ class Uploader:
         dic[":action"] = pypi_action
         dic["protocol_version"] = "1"
         headers = {}
-        auth = hub.current.get_auth()
+        auth = hub.current.get_auth(self.pypisubmit)
         if auth:
             auth = (auth[0], hub.derive_token(auth[1], meta['name']))
             set_devpi_auth_header(headers, auth)
-- 
2.43.0


From 98a0116cc521cd6c88aca45afc06549ce57633ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:35 +0000
Subject: [PATCH 38/40] fix: report failed refreshes as such

---
 client/devpi/refresh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/devpi/refresh.py b/client/devpi/refresh.py
index 292686c..9345a25 100644
--- a/client/devpi/refresh.py
+++ b/client/devpi/refresh.py
@@ -2,6 +2,7 @@ def main(hub, args):
     current = hub.require_valid_current_with_index()
     if args.index and args.index.count("/") > 1:
         hub.fatal("index %r not of form USER/NAME or NAME" % args.index)
+    ret = 0
     for pkg in args.pkgnames:
         url = current.get_simpleproject_url(
             pkg, indexname=args.index).addpath('refresh').url
@@ -9,4 +10,7 @@ def main(hub, args):
         if r.status_code != 200:
             hub.error("Couldn't refresh %s via %s: %s %s" % (
                 pkg, url, r.status_code, r.reason))
+            ret = 1
+            continue
         hub.info("Refreshed %s" % pkg)
+    return ret
-- 
2.43.0


From 179199226b6a5ecc77cbbd037fd2008bfb7efad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:53 +0000
Subject: [PATCH 39/40] fix: exit status of python -m devpi

---
 client/devpi/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/devpi/__main__.py b/client/devpi/__main__.py
index cfed64b..e3e07f6 100644
--- a/client/devpi/__main__.py
+++ b/client/devpi/__main__.py
@@ -1,3 +1,4 @@
 if __name__ == "__main__":
     from devpi import main
-    main.main()
+    import sys
+    sys.exit(main.main())
-- 
2.43.0


From abc2c14a2ad12b509ad6f6af995b74ee4660261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:02 +0000
Subject: [PATCH 40/40] fix: no traceback when an index may not be read

When logged in the command went on with the answer to the refused request.
---
 client/devpi/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/devpi/index.py b/client/devpi/index.py
index 3a965f4..c1721f0 100644
--- a/client/devpi/index.py
+++ b/client/devpi/index.py
@@ -55,7 +55,7 @@ def index_show(hub, url):
         "get", url, fatal=False, quiet=True, type="indexconfig")
     if reply.status_code == 403:
         hub.requires_login()
-    elif reply.status_code >= 400:
+    if reply.status_code >= 400:
         raise SystemExit(1)
     ixconfig = reply.result
     hub.info(url.url + ":")
-- 
2.43.0

