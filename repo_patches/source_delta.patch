From 34ff0788659a1fc6d71f2fb2ff9b0ee2f871bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 01/44] fix: treat a TOC that has no TOC_INIT record yet as a
 database that does not exist

The TOC file is created before its TOC_INIT record is written. A retrieve at
that moment, or after the creating process was killed in between, failed with
'Cannot find a TOC_INIT record'.
---
 src/fdb5/toc/TocHandler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 68f7695..6ccfab0 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -219,7 +219,8 @@ TocHandler::~TocHandler() {
 }
 
 bool TocHandler::exists() const {
-    return tocPath_.exists();
+    // n.b. the TOC file is created before its TOC_INIT record is written. Until then there is no database yet.
+    return tocPath_.exists() && tocPath_.size() > eckit::Length(0);
 }
 
 void TocHandler::openForAppend() {
@@ -1305,7 +1306,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
 
     std::vector<Index> indexes;
 
-    if (!tocPath_.exists()) {
+    if (!exists()) {
         return indexes;
     }
 
-- 
2.43.0


From cdf97cebd13defb786c47f3f8ed795a025865538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 02/44] fix: make the schema of a new database durable before
 its TOC_INIT record

The rename that puts the schema in place was never synchronised: after power
loss the TOC could hold TOC_INIT while the schema was missing, which made the
database unusable and every list that visits it fail.
---
 src/fdb5/toc/TocHandler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 6ccfab0..9ea1209 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1064,6 +1064,9 @@ void TocHandler::writeInitRecord(const Key& key) {
             in.copyTo(out);
 
             eckit::LocalPathName::rename(tmp, schemaPath_);
+
+            // The schema must be in place before the TOC_INIT record can reach the disk
+            schemaPath_.syncParentDirectory();
         }
 
         auto r2 = std::make_unique<TocRecord>(
-- 
2.43.0


From e8fd4f746a50c65849ba7f0ceb3d2579b131cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 03/44] fix: remove the partial record left by a short write to
 a TOC

A short write (e.g. disk full) left a torn record which made the whole
database unreadable for every process.
---
 src/fdb5/toc/TocHandler.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 9ea1209..3c3ae6f 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -10,7 +10,9 @@
 
 #include <fcntl.h>
 #include <pwd.h>
+#include <sys/stat.h>
 #include <sys/types.h>
+#include <unistd.h>
 #include <cstddef>
 #include <utility>
 
@@ -347,7 +349,19 @@ void TocHandler::appendRaw(const void* data, size_t size) {
     size_t len;
     SYSCALL2(len = ::write(fd_, data, size), tocPath_);
     dirty_ = true;
-    ASSERT(len == size);
+
+    if (len != size) {
+        // e.g. the disk is full. A partial record makes everything appended after it, by any process, unreadable.
+        // So remove it again, unless it is no longer at the end of the TOC
+        struct stat st;
+        off_t end = ::lseek(fd_, 0, SEEK_CUR);
+        if (end >= off_t(len) && ::fstat(fd_, &st) == 0 && st.st_size == end && ::ftruncate(fd_, end - len) == 0) {
+            Log::warning() << "Removed partial record from TOC " << tocPath_ << std::endl;
+        }
+        std::ostringstream ss;
+        ss << tocPath_ << ", only " << len << " of " << size << " bytes written";
+        throw eckit::WriteError(ss.str(), Here());
+    }
 }
 
 void TocHandler::appendBlock(TocRecord& r, size_t payloadSize) {
-- 
2.43.0


From 75b8725c858ca8eb0411cf2e37b09d01572ff61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 04/44] fix: report a database root that cannot be opened
 instead of crashing in list

---
 src/fdb5/toc/TocEngine.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fdb5/toc/TocEngine.cc b/src/fdb5/toc/TocEngine.cc
index a04002b..d0051f5 100644
--- a/src/fdb5/toc/TocEngine.cc
+++ b/src/fdb5/toc/TocEngine.cc
@@ -19,6 +19,7 @@
 #include "eckit/eckit.h"
 
 #include "eckit/config/Resource.h"
+#include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/LocalFileManager.h"
 #include "eckit/filesystem/LocalPathName.h"
 #include "eckit/filesystem/StdDir.h"
@@ -45,6 +46,10 @@ namespace fdb5 {
 void TocEngine::scan_dbs(const std::string& path, std::list<std::string>& dbs) const {
 
     eckit::StdDir d(path.c_str());
+    if (d == nullptr) {
+        Log::error() << "opendir(" << path << ")" << Log::syserr << std::endl;
+        throw eckit::FailedSystemCall("opendir " + path, Here());
+    }
 
     // Once readdir_r finally gets deprecated and removed, we may need to
     // protecting readdir() as not yet guarranteed thread-safe by POSIX
-- 
2.43.0


From 3618a552c61d79bad1ffaa3c935705453bcc2491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 05/44] fix: make flush() durable with fdbAsyncWrite

AIOHandle::flush() only synchronises to storage when asked to, so the index
and TOC could be durable while the data they refer to was not.
---
 src/fdb5/io/LustreFileHandle.h | 2 +-
 src/fdb5/toc/TocStore.cc       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/io/LustreFileHandle.h b/src/fdb5/io/LustreFileHandle.h
index bf61de6..7ea35bc 100644
--- a/src/fdb5/io/LustreFileHandle.h
+++ b/src/fdb5/io/LustreFileHandle.h
@@ -40,7 +40,7 @@ public:  // methods
         HANDLE(path, buffsize), stripe_(stripe) {}
 
     LustreFileHandle(const std::string& path, size_t buffcount, size_t buffsize, LustreStripe stripe) :
-        HANDLE(path, buffcount, buffsize), stripe_(stripe) {}
+        HANDLE(path, buffcount, buffsize, true /* flush() synchronises to storage */), stripe_(stripe) {}
 
     ~LustreFileHandle() override {}
 
diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 52d72af..8d910eb 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -242,7 +242,8 @@ std::unique_ptr<eckit::DataHandle> TocStore::createAsyncHandle(const eckit::Path
                                                                     stripeDataLustreSettings());
     }
 
-    return std::make_unique<eckit::AIOHandle>(path, nbBuffers, sizeBuffer);
+    const bool fsync = true;  // flush() must make the data durable, as FDBFileHandle::flush() does
+    return std::make_unique<eckit::AIOHandle>(path, nbBuffers, sizeBuffer, fsync);
 }
 
 std::unique_ptr<eckit::DataHandle> TocStore::createDataHandle(const eckit::PathName& path) {
-- 
2.43.0


From ad125edf6cc49bf9d32e48126d55fb032b9a3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 06/44] fix: purge and wipe skip a database locked for wiping
 instead of failing

purge crashed and wipe failed an assertion, although both mean to treat such
a database as if it did not exist.
---
 src/fdb5/api/local/PurgeVisitor.cc | 6 ++++++
 src/fdb5/api/local/WipeVisitor.cc  | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/local/PurgeVisitor.cc b/src/fdb5/api/local/PurgeVisitor.cc
index 789386c..fa9ef27 100644
--- a/src/fdb5/api/local/PurgeVisitor.cc
+++ b/src/fdb5/api/local/PurgeVisitor.cc
@@ -75,6 +75,12 @@ void PurgeVisitor::visitDatum(const Field& field, const std::string& keyFingerpr
 }
 
 void PurgeVisitor::catalogueComplete(const Catalogue& catalogue) {
+
+    // The DB was not visited, as it is locked for wiping
+    if (!internalVisitor_) {
+        return;
+    }
+
     internalVisitor_->catalogueComplete(catalogue);
 
     internalVisitor_->gatherAuxiliaryURIs();
diff --git a/src/fdb5/api/local/WipeVisitor.cc b/src/fdb5/api/local/WipeVisitor.cc
index 8a631c4..863e8f8 100644
--- a/src/fdb5/api/local/WipeVisitor.cc
+++ b/src/fdb5/api/local/WipeVisitor.cc
@@ -112,7 +112,12 @@ bool WipeCatalogueVisitor::visitIndex(const Index& index) {
 void WipeCatalogueVisitor::catalogueComplete(const Catalogue& catalogue) {
 
     ASSERT(currentCatalogue_ == &catalogue);
-    ASSERT(catalogueWipeState_);
+
+    // The Catalogue was not visited, as it is locked for wiping
+    if (!catalogueWipeState_) {
+        EntryVisitor::catalogueComplete(catalogue);
+        return;
+    }
 
     catalogue.finaliseWipeState(*catalogueWipeState_);
     catalogueWipeState_->sanityCheck();
-- 
2.43.0


From ab571ff2564b7be0480b9c5d80034f9256a3356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 07/44] fix: purge does not fail on files an earlier purge has
 removed

It aborted, leaving the rest undone, whenever an index also referring to
visible fields referred to data removed before, or a purge was interrupted.
---
 src/fdb5/toc/TocPurgeVisitor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocPurgeVisitor.cc b/src/fdb5/toc/TocPurgeVisitor.cc
index 96464cb..4e8fbed 100644
--- a/src/fdb5/toc/TocPurgeVisitor.cc
+++ b/src/fdb5/toc/TocPurgeVisitor.cc
@@ -187,7 +187,8 @@ void TocPurgeVisitor::purge(std::ostream& out, bool porcelain, bool doit) const
     for (const auto& it : dataUsage_) {  // <std::string, size_t>
         if (it.second == 0) {
             eckit::PathName path(it.first);
-            if (path.dirName().sameAs(directory)) {
+            // n.b. an earlier purge may have removed the data, but not the index if that also has visible fields
+            if (path.exists() && path.dirName().sameAs(directory)) {
                 store_.remove(eckit::URI(store_.type(), path), logAlways, logVerbose, doit);
             }
         }
@@ -202,7 +203,7 @@ void TocPurgeVisitor::purge(std::ostream& out, bool porcelain, bool doit) const
     for (const auto& it : indexUsage_) {  // <std::string, size_t>
         if (it.second == 0) {
             eckit::PathName path(it.first);
-            if (path.dirName().sameAs(directory)) {
+            if (path.exists() && path.dirName().sameAs(directory)) {
                 currentCatalogue->remove(path, logAlways, logVerbose, doit);
             }
         }
-- 
2.43.0


From e5ca814a0a55c8d49a444cec832718b3047d815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 08/44] fix: an interrupted wipe of a database can be repeated

The toc was removed first (after the data): a wipe interrupted after that left
lock, index and sub toc files that no later wipe finds, and locks that prevent
the database being used anew; without the schema it also failed every reader.
---
 src/fdb5/toc/TocCatalogue.cc | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocCatalogue.cc b/src/fdb5/toc/TocCatalogue.cc
index 154a42a..c7fe6ef 100644
--- a/src/fdb5/toc/TocCatalogue.cc
+++ b/src/fdb5/toc/TocCatalogue.cc
@@ -296,15 +296,42 @@ bool TocCatalogue::doWipeURIs(const CatalogueWipeState& wipeState) const {
 
     bool wipeAll = wipeState.safeURIs().empty();  // nothing else in the directory.
 
+    // Without a toc there is no database, and without a schema it cannot be opened. So they go last, in that order, such
+    // that an interrupted wipe can be repeated.
+    const eckit::PathName toc = tocPath().path();
+    const eckit::PathName schema = schemaPath().path();
+    bool removeToc = false;
+    bool removeSchema = false;
+
+    // Sub tocs are removed before the toc referring to them, so mask them
+    if (wipeAll && toc.exists() && !subTocPaths().empty()) {
+        TocHandler handler(basePath(), config_);
+        handler.writeClearAllRecord();
+    }
+
     for (const auto& [type, uris] : wipeState.deleteMap()) {
 
         for (auto& uri : uris) {
-            if (uri.path().exists()) {
+            if (uri.path() == toc) {
+                removeToc = true;
+            }
+            else if (uri.path() == schema) {
+                removeSchema = true;
+            }
+            else if (uri.path().exists()) {
                 remove(uri.path(), eckit::Log::info(), eckit::Log::info(), true);
             }
         }
     }
 
+    if (removeToc && toc.exists()) {
+        remove(toc, eckit::Log::info(), eckit::Log::info(), true);
+    }
+
+    if (removeSchema && schema.exists()) {
+        remove(schema, eckit::Log::info(), eckit::Log::info(), true);
+    }
+
     // Grab the database URI from the first uri in the wipeState
     if (wipeAll && !wipeState.deleteMap().empty()) {
         cleanupEmptyDatabase_ = true;
-- 
2.43.0


From 15afa288247f4efc1bc1f2b90e9cae95f72a63d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 09/44] fix: wipe of a database locked for wiping fails again,
 as callers expect

ad125ed made wipe skip such a database without an error, like purge does.
---
 src/fdb5/api/local/WipeVisitor.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/fdb5/api/local/WipeVisitor.cc b/src/fdb5/api/local/WipeVisitor.cc
index 863e8f8..8a631c4 100644
--- a/src/fdb5/api/local/WipeVisitor.cc
+++ b/src/fdb5/api/local/WipeVisitor.cc
@@ -112,12 +112,7 @@ bool WipeCatalogueVisitor::visitIndex(const Index& index) {
 void WipeCatalogueVisitor::catalogueComplete(const Catalogue& catalogue) {
 
     ASSERT(currentCatalogue_ == &catalogue);
-
-    // The Catalogue was not visited, as it is locked for wiping
-    if (!catalogueWipeState_) {
-        EntryVisitor::catalogueComplete(catalogue);
-        return;
-    }
+    ASSERT(catalogueWipeState_);
 
     catalogue.finaliseWipeState(*catalogueWipeState_);
     catalogueWipeState_->sanityCheck();
-- 
2.43.0


From 7c7dbdfaa7159e41856c6dcb36ad0d32f5083335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 10/44] fix: fdb-move does not go on to remove the source when
 copying a file failed

---
 src/fdb5/tools/fdb-move.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fdb5/tools/fdb-move.cc b/src/fdb5/tools/fdb-move.cc
index 6089379..6b6524b 100644
--- a/src/fdb5/tools/fdb-move.cc
+++ b/src/fdb5/tools/fdb-move.cc
@@ -244,6 +244,8 @@ private:  // methods
             message.rewind();
         }
         pool.wait();
+        // n.b. only waitForThreads() reports (throws) that a copy has failed. The source must not be removed in this case
+        pool.waitForThreads();
 
         message.rewind();
         consumer.shutdown(message);
-- 
2.43.0


From cfff1a536a48b8c873a56e2673d7af7d5bed09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 11/44] fix: a moved database appears at the destination only
 once its toc is complete

---
 src/fdb5/api/helpers/MoveIterator.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/helpers/MoveIterator.h b/src/fdb5/api/helpers/MoveIterator.h
index 932ac17..a45f654 100644
--- a/src/fdb5/api/helpers/MoveIterator.h
+++ b/src/fdb5/api/helpers/MoveIterator.h
@@ -55,8 +55,18 @@ public:
 
     void execute() {
         eckit::FileHandle src(src_);
-        eckit::FileHandle dest(dest_);
+        if (!sync_) {
+            eckit::FileHandle dest(dest_);
+            src.copyTo(dest);
+            return;
+        }
+        // The synchronising file (toc) makes the database appear at the destination: it must be complete as soon as
+        // it is visible, and persisted before the source is removed.
+        const eckit::PathName partial{dest_.asString() + ".partial"};
+        eckit::FileHandle dest(partial);
         src.copyTo(dest);
+        eckit::PathName::rename(partial, dest_);
+        dest_.syncParentDirectory();
     }
 
     void cleanup() {
-- 
2.43.0


From eb19b389a5bec41e3bf6d889deb0f596258979da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 12/44] fix: report a directory that cannot be opened while
 moving a database instead of crashing

---
 src/fdb5/toc/TocMoveVisitor.cc | 14 +++++++++++---
 src/fdb5/toc/TocStore.cc       |  3 +++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/toc/TocMoveVisitor.cc b/src/fdb5/toc/TocMoveVisitor.cc
index 47dace3..46c7217 100644
--- a/src/fdb5/toc/TocMoveVisitor.cc
+++ b/src/fdb5/toc/TocMoveVisitor.cc
@@ -44,6 +44,14 @@ TocMoveVisitor::TocMoveVisitor(const TocCatalogue& catalogue, const Store& store
 
 TocMoveVisitor::~TocMoveVisitor() {}
 
+static DIR* openDirectory(const std::string& path) {
+    DIR* dirp = ::opendir(path.c_str());
+    if (dirp == nullptr) {
+        throw eckit::FailedSystemCall("opendir(" + path + ")", Here());
+    }
+    return dirp;
+}
+
 bool TocMoveVisitor::visitDatabase(const Catalogue& catalogue) {
 
     // Overall checks
@@ -52,7 +60,7 @@ bool TocMoveVisitor::visitDatabase(const Catalogue& catalogue) {
     MoveVisitor::visitDatabase(catalogue_);
 
     // TOC specific checks: index files not locked
-    DIR* dirp = ::opendir(catalogue_.basePath().c_str());
+    DIR* dirp = openDirectory(catalogue_.basePath());
     struct dirent* dp;
     while ((dp = readdir(dirp)) != NULL) {
         if (strstr(dp->d_name, ".index")) {
@@ -120,7 +128,7 @@ void TocMoveVisitor::move() {
                 dest_db.mkdir();
             }
 
-            DIR* dirp = ::opendir(catalogue_.basePath().c_str());
+            DIR* dirp = openDirectory(catalogue_.basePath());
             struct dirent* dp;
             while ((dp = readdir(dirp)) != NULL) {
                 if (strstr(dp->d_name, ".index") || strstr(dp->d_name, "toc.") || strstr(dp->d_name, "schema")) {
@@ -134,7 +142,7 @@ void TocMoveVisitor::move() {
             FileCopy toc(catalogue_.basePath(), dest_db, "toc", true);
             queue_.emplace(toc);
 
-            dirp = ::opendir(catalogue_.basePath().c_str());
+            dirp = openDirectory(catalogue_.basePath());
             while ((dp = readdir(dirp)) != NULL) {
                 if (strstr(dp->d_name, ".lock") || strstr(dp->d_name, "duplicates.allow")) {
 
diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 8d910eb..946e010 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -363,6 +363,9 @@ void TocStore::moveTo(const Key& key, const Config& config, const eckit::URI& de
 
             dest_db.mkdir();
             DIR* dirp = ::opendir(src_db.asString().c_str());
+            if (dirp == nullptr) {
+                throw eckit::FailedSystemCall("opendir(" + src_db.asString() + ")", Here());
+            }
             struct dirent* dp;
             std::multimap<long, std::unique_ptr<FileCopy>, std::greater<long>> files;
             while ((dp = ::readdir(dirp)) != NULL) {
-- 
2.43.0


From 5a1e3e7c1a1f787bdeeff7122af2d3154e55dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 13/44] fix: do not keep a reference to a temporary path while
 preloading sub-tocs

---
 src/fdb5/toc/TocHandler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 3c3ae6f..d6146ae 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -127,7 +127,7 @@ public:  // methods
 
 private:  // members
 
-    const eckit::PathName& path_;
+    const eckit::PathName path_;  // n.b. constructed from a LocalPathName: a reference would dangle
     int fd_;
     MemoryHandle* cached_;
 };
-- 
2.43.0


From e980306ae5e31fc3c4af2e7d74aca70a0a9f5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 14/44] fix: list no longer fails on a database that has been
 overlaid twice

---
 src/fdb5/toc/TocHandler.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index d6146ae..5989168 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -902,7 +902,15 @@ public:
         return std::move(subTocReadCache_);
     }
 
-    void addPath(const eckit::LocalPathName& path) { paths_.push_back(path); }
+    void addPath(const eckit::LocalPathName& path) {
+        // n.b. the same sub toc may be referred to more than once (e.g. if fdb-overlay has been repeated)
+        for (const auto& p : paths_) {
+            if (p == path) {
+                return;
+            }
+        }
+        paths_.push_back(path);
+    }
 };
 
 void TocHandler::preloadSubTocs(bool readMasked) const {
-- 
2.43.0


From e8958709a73825f913022fc9191a9e441b006a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 15/44] fix: reading a database that does not exist is not an
 error when every root is closed to writing

---
 src/fdb5/toc/FileSpace.cc          | 8 ++++++--
 src/fdb5/toc/FileSpace.h           | 3 ++-
 src/fdb5/toc/RootManager.cc        | 4 ++--
 src/fdb5/toc/RootManager.h         | 3 ++-
 src/fdb5/toc/TocCatalogueReader.cc | 4 +++-
 5 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/fdb5/toc/FileSpace.cc b/src/fdb5/toc/FileSpace.cc
index 8fa31b0..8664d2f 100644
--- a/src/fdb5/toc/FileSpace.cc
+++ b/src/fdb5/toc/FileSpace.cc
@@ -39,7 +39,7 @@ FileSpace::FileSpace(const std::string& name, const std::string& re, const std::
                      const std::vector<Root>& roots) :
     name_(name), handler_(handler), re_(re), roots_(roots) {}
 
-TocPath FileSpace::filesystem(const Config& config, const Key& key, const eckit::PathName& db) const {
+TocPath FileSpace::filesystem(const Config& config, const Key& key, const eckit::PathName& db, bool create) const {
     // check that the database isn't present already
     // if it is, then return that path
 
@@ -49,7 +49,11 @@ TocPath FileSpace::filesystem(const Config& config, const Key& key, const eckit:
         return existingDB;
     }
 
-    LOG_DEBUG_LIB(LibFdb5) << "FDB for key " << key << " not found, selecting a root" << std::endl;
+    // Nothing to read is not an error, even if nothing can be written either
+    if (!create && !roots_.empty() && enabled(ControlIdentifier::Archive).empty()) {
+        return TocPath{roots_.front().path() / db, roots_.front().controlIdentifiers()};
+    }
+
     LOG_DEBUG_LIB(LibFdb5) << "FDB for key " << key << " not found, selecting a root" << std::endl;
 
     return TocPath{FileSpaceHandler::lookup(handler_, config).selectFileSystem(key, *this) / db, ControlIdentifiers{}};
diff --git a/src/fdb5/toc/FileSpace.h b/src/fdb5/toc/FileSpace.h
index 654e7f5..ca9856f 100644
--- a/src/fdb5/toc/FileSpace.h
+++ b/src/fdb5/toc/FileSpace.h
@@ -51,7 +51,8 @@ public:  // methods
     /// @note This method must be idempotent -- it returns always the same value after the first call
     /// @param key is a complete identifier for the first level of the schema
     /// @param db part of the full path
-    TocPath filesystem(const Config& config, const Key& key, const eckit::PathName& db) const;
+    /// @param create false if a database that does not exist yet is not going to be created, so no root has to be writable
+    TocPath filesystem(const Config& config, const Key& key, const eckit::PathName& db, bool create = true) const;
 
     void all(eckit::StringSet&) const;
     void enabled(const ControlIdentifier& controlIdentifier, eckit::StringSet&) const;
diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 47e3489..dcd5384 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -592,7 +592,7 @@ std::vector<std::string> RootManager::possibleDbPathNames(const Key& key, const
 }
 
 
-TocPath RootManager::directory(const Key& key) {
+TocPath RootManager::directory(const Key& key, bool create) {
 
     PathName dbpath = dbPathName(key);
 
@@ -612,7 +612,7 @@ TocPath RootManager::directory(const Key& key) {
 
     for (FileSpaceTable::const_iterator i = spacesTable_.begin(); i != spacesTable_.end(); ++i) {
         if (i->match(keystr)) {
-            TocPath db = i->filesystem(config_, key, dbpath);
+            TocPath db = i->filesystem(config_, key, dbpath, create);
             LOG_DEBUG_LIB(LibFdb5) << "Database directory " << db.directory_ << std::endl;
             return db;
         }
diff --git a/src/fdb5/toc/RootManager.h b/src/fdb5/toc/RootManager.h
index c4419c6..84a9e22 100644
--- a/src/fdb5/toc/RootManager.h
+++ b/src/fdb5/toc/RootManager.h
@@ -46,7 +46,8 @@ public:  // methods
     RootManager(const Config& config);
 
     /// Uniquely selects a directory where the Key will be put or already exists
-    TocPath directory(const Key& key);
+    /// @param create false if the database is only going to be read
+    TocPath directory(const Key& key, bool create = true);
 
     /// Lists the roots that can be visited given a DB key
     // std::vector<eckit::PathName> allRoots(const Key& key);
diff --git a/src/fdb5/toc/TocCatalogueReader.cc b/src/fdb5/toc/TocCatalogueReader.cc
index c1369bd..f3bc971 100644
--- a/src/fdb5/toc/TocCatalogueReader.cc
+++ b/src/fdb5/toc/TocCatalogueReader.cc
@@ -15,6 +15,7 @@
 
 #include "fdb5/LibFdb5.h"
 #include "fdb5/database/Key.h"
+#include "fdb5/toc/RootManager.h"
 #include "fdb5/toc/TocCatalogueReader.h"
 #include "fdb5/toc/TocIndex.h"
 
@@ -22,7 +23,8 @@ namespace fdb5 {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-TocCatalogueReader::TocCatalogueReader(const Key& dbKey, const fdb5::Config& config) : TocCatalogue(dbKey, config) {
+TocCatalogueReader::TocCatalogueReader(const Key& dbKey, const fdb5::Config& config) :
+    TocCatalogue(dbKey, CatalogueRootManager(config).directory(dbKey, false), config) {
     loadIndexesAndRemap();
 }
 
-- 
2.43.0


From bdd1a532592617690346b5d9dbecedb2c59d5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 16/44] fix: partial requests visit every file space that may
 hold matching databases

---
 src/fdb5/rules/Rule.cc      | 12 ++++++++++++
 src/fdb5/rules/Rule.h       |  3 +++
 src/fdb5/toc/RootManager.cc |  4 +++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 43cffe5..8b352f5 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -379,6 +379,18 @@ bool Rule::match(const Key& key) const {
     return true;
 }
 
+bool Rule::isComplete(const Key& key) const {
+    for (const auto& pred : predicates_) {
+        if (pred->optional()) {
+            continue;
+        }
+        if (const auto [iter, found] = key.find(pred->keyword()); !found || iter->second.empty()) {
+            return false;
+        }
+    }
+    return true;
+}
+
 bool Rule::tryFill(Key& key, const eckit::StringList& values) const {
     // See FDB-103. This is a hack to work around the indexing abstraction
     // being leaky.
diff --git a/src/fdb5/rules/Rule.h b/src/fdb5/rules/Rule.h
index 9fcb6e8..30ba943 100644
--- a/src/fdb5/rules/Rule.h
+++ b/src/fdb5/rules/Rule.h
@@ -63,6 +63,9 @@ public:  // methods
 
     bool match(const Key& key) const;
 
+    /// @returns true if the key has a value for every keyword of this rule that is not optional
+    bool isComplete(const Key& key) const;
+
     void check(const Key& key) const;
 
     void dump(std::ostream& out) const;
diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index dcd5384..fbf27bc 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -667,7 +667,9 @@ std::vector<eckit::PathName> RootManager::visitableRoots(const metkit::mars::Mar
     std::set<Key> keys;
     config_.schema().matchDatabase(request, results, "");
     for (const auto& [key, rule] : results) {
-        keys.insert(key);
+        // If the request does not fix the whole database key, the expression of a space cannot be evaluated
+        // on it: any space may have matching databases, and the empty key visits all of them
+        keys.insert(rule->isComplete(key) ? key : Key{});
     }
     return visitableRoots(keys);
 }
-- 
2.43.0


From f501e971b012a77ac91e84ece7e84eca284d706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 17/44] fix: errors reported by a remote server keep their text
 on the client

---
 src/fdb5/api/RemoteFDB.cc                  |  4 +---
 src/fdb5/remote/client/ClientConnection.cc | 10 +++-------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index b659412..48e312a 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -404,9 +404,7 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
                 // goes out of scope in the worker thread).
                 messageQueues_.erase(iter);
             }
-            std::string msg;
-            msg.resize(payload.size(), ' ');
-            payload.copy(&msg[0], payload.size());
+            std::string msg(static_cast<const char*>(payload.data()), payload.size());
             queue->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
             return true;
         }
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index c75e32f..fbba3e7 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -408,7 +408,7 @@ void ClientConnection::listeningControlThreadLoop() {
                         if (hdr.message == Message::Error) {
                             std::string msg(hdr.payloadSize, ' ');
                             if (hdr.payloadSize != 0) {
-                                payload.copy(msg.data(), payload.size());
+                                msg.assign(static_cast<const char*>(payload.data()), payload.size());
                             }
                             pp->second.set_exception(
                                 std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint_)));
@@ -455,9 +455,7 @@ void ClientConnection::listeningControlThreadLoop() {
                         ss << "RemoteFDB received an unhandled error on CONTROL connection. [clientID="
                            << hdr.clientID() << ",requestID=" << hdr.requestID << "]";
                         if (hdr.payloadSize) {
-                            std::string msg;
-                            msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
+                            std::string msg(static_cast<const char*>(payload.data()), payload.size());
                             ss << ": " << msg;
                         }
                         throw RemoteFDBException(ss.str(), controlEndpoint_);
@@ -540,9 +538,7 @@ void ClientConnection::listeningDataThreadLoop() {
                         ss << "RemoteFDB received an unhandled error on DATA connection. [clientID=" << hdr.clientID()
                            << ",requestID=" << hdr.requestID << "]";
                         if (hdr.payloadSize) {
-                            std::string msg;
-                            msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
+                            std::string msg(static_cast<const char*>(payload.data()), payload.size());
                             ss << ": " << msg;
                         }
                         throw RemoteFDBException(ss.str(), dataEndpoint_);
-- 
2.43.0


From a403ba4b1f49673852f1874c934ad2a0078c429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 18/44] fix: abandoning a remote list iterator no longer blocks
 the connection it came from

---
 src/fdb5/api/RemoteFDB.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index 48e312a..1275298 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -298,6 +298,12 @@ auto RemoteFDB::forwardApiCall(const HelperClass& helper, const FDBToolRequest&
         // n.b. Don't worry about catching exceptions in lambda, as
         // this is handled in the AsyncIterator.
         new AsyncIterator(shared_from_this(), [messageQueue, remoteFDB](Queue<ValueType>& queue) {
+            // However this ends (the iterator may be abandoned), nobody is going to take any more out of the queue
+            struct Done {
+                MessageQueue& queue;
+                ~Done() { queue.interrupt(std::make_exception_ptr(AsyncIterationCancellation())); }
+            } done{*messageQueue};
+
             Buffer msg{0};
             while (true) {
                 if (messageQueue->pop(msg) == -1) {
@@ -386,7 +392,12 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
                 }
                 queue = iter->second;
             }
-            queue->emplace(std::move(payload));
+            try {
+                queue->emplace(std::move(payload));
+            }
+            catch (const AsyncIterationCancellation&) {
+                // the caller is not interested any more
+            }
             return true;
         }
 
-- 
2.43.0


From f228a25560bb9b65f5182ea990f2668e7c936695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 19/44] fix: destroying an FDB that cannot be flushed neither
 terminates the process nor publishes its fields

---
 src/fdb5/api/FDB.cc                |  9 ++++++++-
 src/fdb5/database/Archiver.cc      | 13 ++++++++++++-
 src/fdb5/database/Catalogue.h      |  4 ++++
 src/fdb5/toc/TocCatalogueWriter.cc | 12 +++++++++++-
 src/fdb5/toc/TocCatalogueWriter.h  |  2 ++
 5 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/api/FDB.cc b/src/fdb5/api/FDB.cc
index d5f914d..dc6f074 100644
--- a/src/fdb5/api/FDB.cc
+++ b/src/fdb5/api/FDB.cc
@@ -58,6 +58,7 @@
 
 #include <cctype>
 #include <cstddef>
+#include <exception>
 #include <memory>
 #include <mutex>
 #include <ostream>
@@ -77,7 +78,13 @@ FDB::FDB(const Config& config) :
 
 
 FDB::~FDB() {
-    flush();
+    try {
+        flush();
+    }
+    catch (std::exception& e) {
+        // n.b. throwing from here would terminate the process
+        eckit::Log::error() << "FDB destroyed, but its data could not be flushed: " << e.what() << std::endl;
+    }
     if (reportStats_ && internal_) {
         stats_.report(eckit::Log::info(), (internal_->name() + " ").c_str());
     }
diff --git a/src/fdb5/database/Archiver.cc b/src/fdb5/database/Archiver.cc
index 47051c8..c8323bd 100644
--- a/src/fdb5/database/Archiver.cc
+++ b/src/fdb5/database/Archiver.cc
@@ -20,8 +20,10 @@
 #include "fdb5/rules/Schema.h"
 
 #include "eckit/config/Resource.h"
+#include "eckit/log/Log.h"
 
 #include <ctime>
+#include <exception>
 #include <mutex>
 
 namespace fdb5 {
@@ -32,7 +34,16 @@ Archiver::Archiver(const Config& dbConfig, const ArchiveCallback& callback) :
     dbConfig_(dbConfig), db_(nullptr), callback_(callback) {}
 
 Archiver::~Archiver() {
-    flush();  // certify that all sessions are flushed before closing them
+    try {
+        flush();  // certify that all sessions are flushed before closing them
+    }
+    catch (std::exception& e) {
+        // n.b. throwing from here would terminate the process
+        eckit::Log::error() << "Archiver destroyed, but its data could not be flushed: " << e.what() << std::endl;
+        for (auto& [key, db] : databases_) {
+            db.catalogue_->discard();
+        }
+    }
 }
 
 void Archiver::archive(const Key& key, const void* data, size_t len) {
diff --git a/src/fdb5/database/Catalogue.h b/src/fdb5/database/Catalogue.h
index 608e016..7911557 100644
--- a/src/fdb5/database/Catalogue.h
+++ b/src/fdb5/database/Catalogue.h
@@ -211,6 +211,10 @@ public:
     virtual void index(const Key& key, const eckit::URI& uri, eckit::Offset offset, eckit::Length length) = 0;
     virtual void reconsolidate() = 0;
     virtual size_t archivedLocations() const { NOTIMP; }
+
+    /// The data of the fields archived since the last flush has not been (and will not be) flushed: don't make them
+    /// visible, not even when this is destroyed
+    virtual void discard() {}
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/fdb5/toc/TocCatalogueWriter.cc b/src/fdb5/toc/TocCatalogueWriter.cc
index 5ab59e7..9328546 100644
--- a/src/fdb5/toc/TocCatalogueWriter.cc
+++ b/src/fdb5/toc/TocCatalogueWriter.cc
@@ -65,7 +65,9 @@ TocCatalogueWriter::TocCatalogueWriter(const eckit::URI& uri, const fdb5::Config
 }
 
 TocCatalogueWriter::~TocCatalogueWriter() {
-    clean();
+    if (!discarded_) {
+        clean();
+    }
     close();
 }
 
@@ -399,6 +401,14 @@ void TocCatalogueWriter::flush(size_t archivedFields) {
     currentFull_ = Index();
 }
 
+void TocCatalogueWriter::discard() {
+    std::lock_guard lock(mutex_);
+    if (archivedLocations_ != 0) {
+        Log::warning() << "Discarding " << archivedLocations_ << " unflushed entries of " << directory_ << std::endl;
+        discarded_ = true;
+    }
+}
+
 eckit::PathName TocCatalogueWriter::generateIndexPath(const Key& key) const {
     eckit::PathName tocPath(directory_);
     tocPath /= key.valuesToString();
diff --git a/src/fdb5/toc/TocCatalogueWriter.h b/src/fdb5/toc/TocCatalogueWriter.h
index 872a619..bf685a9 100644
--- a/src/fdb5/toc/TocCatalogueWriter.h
+++ b/src/fdb5/toc/TocCatalogueWriter.h
@@ -79,6 +79,7 @@ protected:  // methods
 
     bool open() override;
     void flush(size_t archivedFields) override;
+    void discard() override;
     void clean() override;
     void close() override;
 
@@ -125,6 +126,7 @@ private:  // members
 
     eckit::AutoUmask umask_;
     size_t archivedLocations_;
+    bool discarded_{false};
 
     std::mutex mutex_;
 };
-- 
2.43.0


From 7cfa8f33fd5b392710f85c4dc1ec8e10484d669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 20/44] fix: do not go on using a read store whose connection
 has been lost

---
 src/fdb5/remote/client/RemoteStore.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 5308eeb..a8b6eba 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -478,11 +478,18 @@ RemoteStore& RemoteStore::get(const eckit::URI& uri) {
     // we memoise one read store for each endpoint. Do not need to have one for each key
     static std::map<std::string, std::unique_ptr<RemoteStore>> readStores_;
 
+    // the ones whose connection has been lost, which may still be in use
+    static std::vector<std::unique_ptr<RemoteStore>> lostStores_;
+
     std::lock_guard lock(storeMutex_);
     const std::string& endpoint = uri.hostport();
     auto it = readStores_.find(endpoint);
     if (it != readStores_.end()) {
-        return *(it->second);
+        if (it->second->connection_->valid()) {
+            return *(it->second);
+        }
+        lostStores_.push_back(std::move(it->second));
+        readStores_.erase(it);
     }
 
     return *(readStores_[endpoint] = std::make_unique<RemoteStore>(uri, Config()));
-- 
2.43.0


From 7d2ebbe87a0d0f48d12b0c0e002f077cb9f44990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 21/44] fix: a read request that cannot be sent fails its own
 reader only, and is forgotten

---
 src/fdb5/remote/client/ReadLimiter.cc | 57 ++++++++++++++++-----------
 src/fdb5/remote/client/ReadLimiter.h  |  2 +-
 src/fdb5/remote/client/RemoteStore.cc |  9 +++++
 src/fdb5/remote/client/RemoteStore.h  |  3 ++
 4 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/fdb5/remote/client/ReadLimiter.cc b/src/fdb5/remote/client/ReadLimiter.cc
index d0f8b9e..6a452f1 100644
--- a/src/fdb5/remote/client/ReadLimiter.cc
+++ b/src/fdb5/remote/client/ReadLimiter.cc
@@ -66,41 +66,52 @@ void ReadLimiter::add(RemoteStore* client, uint32_t id, const FieldLocation& fie
 
 bool ReadLimiter::tryNextRequest() {
     std::lock_guard<std::mutex> lock(mutex_);
-    if (requests_.empty()) {
-        return false;
-    }
+    while (!requests_.empty()) {
 
-    const auto& request = requests_.front();
+        const auto& request = requests_.front();
 
-    if (memoryUsed_ + request.resultSize > memoryLimit_) {
-        return false;
-    }
+        if (memoryUsed_ + request.resultSize > memoryLimit_) {
+            return false;
+        }
 
-    activeRequests_[request.client->id()].insert(request.id);
-    resultSizes_[{request.client->id(), request.id}] = request.resultSize;
-    memoryUsed_ += request.resultSize;
+        try {
+            sendRequest(request);
+        }
+        catch (...) {
+            // Nothing will be received. Tell the reader of that field, who is not necessarily our caller.
+            request.client->failRead(request.id, std::current_exception());
+            requests_.pop_front();
+            continue;
+        }
 
-    sendRequest(request);
+        activeRequests_[request.client->id()].insert(request.id);
+        resultSizes_[{request.client->id(), request.id}] = request.resultSize;
+        memoryUsed_ += request.resultSize;
 
-    requests_.pop_front();
-    return true;
+        requests_.pop_front();
+        return true;
+    }
+    return false;
 }
 
 void ReadLimiter::finishRequest(uint32_t clientID, uint32_t requestID) {
     {
         std::lock_guard<std::mutex> lock(mutex_);
 
-        auto it = activeRequests_.find(clientID);
-        if (it == activeRequests_.end()) {
-            return;
+        if (auto it = resultSizes_.find({clientID, requestID}); it != resultSizes_.end()) {
+            memoryUsed_ -= it->second;
+            activeRequests_[clientID].erase(requestID);
+            resultSizes_.erase(it);
+        }
+        else {
+            // not sent yet: don't send it
+            for (auto it = requests_.begin(); it != requests_.end(); ++it) {
+                if (it->client->id() == clientID && it->id == requestID) {
+                    requests_.erase(it);
+                    break;
+                }
+            }
         }
-
-        auto it2 = it->second.find(requestID);
-        ASSERT(it2 != it->second.end());
-
-        memoryUsed_ -= resultSizes_[{clientID, requestID}];
-        it->second.erase(it2);
-        resultSizes_.erase({clientID, requestID});
     }
 
     tryNextRequest();
diff --git a/src/fdb5/remote/client/ReadLimiter.h b/src/fdb5/remote/client/ReadLimiter.h
index bcacc40..8cdff9a 100644
--- a/src/fdb5/remote/client/ReadLimiter.h
+++ b/src/fdb5/remote/client/ReadLimiter.h
@@ -26,7 +26,7 @@ namespace fdb5::remote {
 //----------------------------------------------------------------------------------------------------------------------
 
 struct RequestInfo {
-    const RemoteStore* client;  // Non-owning
+    RemoteStore* client;  // Non-owning
     uint32_t id;                // note request ids are only unique per connection. Client id is unique within a process
     eckit::Buffer requestBuffer;  // Payload to send to the server
     size_t requestSize;
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index a8b6eba..bcc7ecc 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -374,6 +374,15 @@ void RemoteStore::closeConnection() {
     }
 }
 
+void RemoteStore::failRead(uint32_t requestID, const std::exception_ptr& eptr) {
+    std::lock_guard lock(messageMutex_);
+    auto iter = messageQueues_.find(requestID);
+    if (iter != messageQueues_.end()) {
+        iter->second->interrupt(eptr);
+        messageQueues_.erase(iter);
+    }
+}
+
 const eckit::Configuration& RemoteStore::clientConfig() const {
     return config();
 }
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 44369bc..6c42c8d 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -180,6 +180,9 @@ public:  // methods
 
     const Config& config() const { return config_; }
 
+    // The data of this field is not coming
+    void failRead(uint32_t requestID, const std::exception_ptr& eptr);
+
 protected:  // methods
 
     std::string type() const override { return typeName(); }
-- 
2.43.0


From 71faab06ae2c9c7c9b22471a0630d343555a2957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 22/44] fix: an error reported on the data connection fails the
 request waiting for its reply

---
 src/fdb5/remote/client/ClientConnection.cc | 56 ++++++++++++++--------
 src/fdb5/remote/client/ClientConnection.h  |  6 +++
 2 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index fbba3e7..ff6e51a 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -349,6 +349,17 @@ void ClientConnection::failPendingRequests(const std::exception_ptr& eptr) {
     promises_.clear();
 }
 
+bool ClientConnection::failPendingRequest(uint32_t requestID, const std::string& what) {
+    std::lock_guard lock(promisesMutex_);
+    auto it = promises_.find(requestID);
+    if (it == promises_.end()) {
+        return false;
+    }
+    it->second.set_exception(std::make_exception_ptr(RemoteFDBException(what, controlEndpoint_)));
+    promises_.erase(it);
+    return true;
+}
+
 void ClientConnection::handleConnectionError(const std::exception_ptr& eptr) {
     std::string reason;
     try {
@@ -399,7 +410,8 @@ void ClientConnection::listeningControlThreadLoop() {
                 ASSERT(hdr.control() || single_);
 
                 bool isPromise = false;
-                {
+                // n.b. on a single connection, the data of a request may well come before the reply to it
+                if (hdr.message != Message::Blob && hdr.message != Message::Complete) {
                     // Hold promisesMutex_ only for the promise lookup/erase (NOT across handle(); risk a deadlock.
                     std::lock_guard lock(promisesMutex_);
 
@@ -430,14 +442,12 @@ void ClientConnection::listeningControlThreadLoop() {
 
                     auto it = clients_.find(hdr.clientID());
                     if (it == clients_.end()) {
-                        std::ostringstream ss;
-                        ss << "ERROR: CONTROL connection=" << controlEndpoint_
-                           << " received [clientID=" << hdr.clientID() << ",requestID=" << hdr.requestID
-                           << ",message=" << hdr.message << ",payload=" << hdr.payloadSize << "]" << std::endl;
-                        ss << "ClientID (" << hdr.clientID() << ") not found. ABORTING";
-                        Log::status() << ss.str() << std::endl;
-                        Log::error() << "Retrieving... " << ss.str() << std::endl;
-                        throw SeriousBug(ss.str(), Here());
+                        // n.b. a client may well go while there still is something on its way to it
+                        LOG_DEBUG_LIB(LibFdb5) << "CONTROL connection=" << controlEndpoint_ << " ignored [clientID="
+                                               << hdr.clientID() << ",requestID=" << hdr.requestID
+                                               << ",message=" << hdr.message << ",payload=" << hdr.payloadSize << "]"
+                                               << std::endl;
+                        continue;
                     }
                     Client* client = it->second;
 
@@ -449,6 +459,11 @@ void ClientConnection::listeningControlThreadLoop() {
                     }
                 }
 
+                if (!handled && hdr.message == Message::Received) {
+                    // the request has been accepted, and has failed before we were told so
+                    handled = true;
+                }
+
                 if (!handled) {
                     std::ostringstream ss;
                     if (hdr.message == Message::Error) {
@@ -507,29 +522,32 @@ void ClientConnection::listeningDataThreadLoop() {
             }
             if (hdr.clientID()) {
                 bool handled = false;
+                if (hdr.message == Message::Error) {
+                    // The server reports all the errors on the data connection
+                    std::string msg(static_cast<const char*>(payload.data()), payload.size());
+                    handled = failPendingRequest(hdr.requestID, msg);
+                }
                 // Hold clientsMutex_ across the virtual dispatch too (not just the lookup)
                 std::lock_guard lock(clientsMutex_);
 
                 auto it = clients_.find(hdr.clientID());
                 if (it == clients_.end()) {
-                    std::ostringstream ss;
-                    ss << "ERROR: DATA connection=" << dataEndpoint_ << " received [clientID=" << hdr.clientID()
-                       << ",requestID=" << hdr.requestID << ",message=" << hdr.message << ",payload=" << hdr.payloadSize
-                       << "]" << std::endl;
-                    ss << "ClientID (" << hdr.clientID() << ") not found. ABORTING";
-                    Log::status() << ss.str() << std::endl;
-                    Log::error() << "Retrieving... " << ss.str() << std::endl;
-                    throw SeriousBug(ss.str(), Here());
+                    // n.b. a client may well go while there still is something on its way to it
+                    LOG_DEBUG_LIB(LibFdb5) << "DATA connection=" << dataEndpoint_ << " ignored [clientID="
+                                           << hdr.clientID() << ",requestID=" << hdr.requestID
+                                           << ",message=" << hdr.message << ",payload=" << hdr.payloadSize << "]"
+                                           << std::endl;
+                    continue;
                 }
                 Client* client = it->second;
 
                 ASSERT(client);
                 ASSERT(!hdr.control());
                 if (hdr.payloadSize == 0) {
-                    handled = client->handle(hdr.message, hdr.requestID);
+                    handled = client->handle(hdr.message, hdr.requestID) || handled;
                 }
                 else {
-                    handled = client->handle(hdr.message, hdr.requestID, std::move(payload));
+                    handled = client->handle(hdr.message, hdr.requestID, std::move(payload)) || handled;
                 }
 
                 if (!handled) {
diff --git a/src/fdb5/remote/client/ClientConnection.h b/src/fdb5/remote/client/ClientConnection.h
index 2c78205..ed99b96 100644
--- a/src/fdb5/remote/client/ClientConnection.h
+++ b/src/fdb5/remote/client/ClientConnection.h
@@ -90,6 +90,12 @@ private:  // methods
     // Tears down *only this* connection
     void handleConnectionError(const std::exception_ptr& eptr);
 
+    // An error may be the reply to a pending request. Returns true if it is.
+    bool failPendingRequest(uint32_t requestID, const std::string& what);
+
+    // Give up on this connection (whatever is waiting on its sockets returns), without waiting for any thread
+    void abandon() const;
+
     // do not hang forever once the connection is known to be dead.
     void failPendingRequests(const std::exception_ptr& eptr);
 
-- 
2.43.0


From 8903d89e34cd6cc99faf59635e5e2e6b93bc68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 23/44] fix: whatever waits for a remote server is told when
 the connection is lost

---
 src/fdb5/api/RemoteFDB.cc                  |  8 ++++
 src/fdb5/api/RemoteFDB.h                   |  1 +
 src/fdb5/remote/Connection.cc              | 14 ++++++
 src/fdb5/remote/Connection.h               |  7 +++
 src/fdb5/remote/client/Client.cc           |  1 +
 src/fdb5/remote/client/ClientConnection.cc | 56 +++++++++++++++++-----
 src/fdb5/remote/client/ClientConnection.h  |  4 +-
 src/fdb5/remote/client/RemoteStore.cc      | 14 ++----
 8 files changed, 82 insertions(+), 23 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index 1275298..39bb7a3 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -424,6 +424,14 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
     }
 }
 
+void RemoteFDB::closeConnection() {
+    std::lock_guard lock(messageQueueMutex_);
+    for (auto& [requestID, queue] : messageQueues_) {
+        queue->interrupt(std::make_exception_ptr(RemoteFDBException("Unexpected closure of catalogue", controlEndpoint())));
+    }
+    messageQueues_.clear();
+}
+
 static FDBBuilder<RemoteFDB> builder("remote");
 
 }  // namespace fdb5
diff --git a/src/fdb5/api/RemoteFDB.h b/src/fdb5/api/RemoteFDB.h
index 178a2cd..4325a3f 100644
--- a/src/fdb5/api/RemoteFDB.h
+++ b/src/fdb5/api/RemoteFDB.h
@@ -82,6 +82,7 @@ private:  // methods
     const eckit::Configuration& clientConfig() const override;
     bool handle(Message message, uint32_t requestID) override;
     bool handle(Message message, uint32_t requestID, eckit::Buffer&& payload) override;
+    void closeConnection() override;
 
 private:  // members
 
diff --git a/src/fdb5/remote/Connection.cc b/src/fdb5/remote/Connection.cc
index 2d0be87..35547e1 100644
--- a/src/fdb5/remote/Connection.cc
+++ b/src/fdb5/remote/Connection.cc
@@ -44,6 +44,20 @@ void Connection::teardown() {
     }
 }
 
+void Connection::shutdown(eckit::net::TCPSocket& socket) {
+    // n.b. already disconnected is fine
+    try {
+        socket.closeInput();
+    }
+    catch (...) {
+    }
+    try {
+        socket.closeOutput();
+    }
+    catch (...) {
+    }
+}
+
 //----------------------------------------------------------------------------------------------------------------------
 
 void Connection::writeUnsafe(const eckit::net::TCPSocket& socket, const void* const data, const size_t length) const {
diff --git a/src/fdb5/remote/Connection.h b/src/fdb5/remote/Connection.h
index 727354f..bcae044 100644
--- a/src/fdb5/remote/Connection.h
+++ b/src/fdb5/remote/Connection.h
@@ -82,8 +82,15 @@ public:  // methods
 
     void teardown();
 
+    /// Shut a socket down in both directions: whatever thread is blocked on it (on either side) returns.
+    static void shutdown(eckit::net::TCPSocket& socket);
+
     bool valid() const { return isValid_; }
 
+protected:  // methods
+
+    void invalidate() const { isValid_ = false; }
+
 private:  // methods
 
     eckit::Buffer read(bool control, MessageHeader& hdr) const;
diff --git a/src/fdb5/remote/client/Client.cc b/src/fdb5/remote/client/Client.cc
index 09d62fe..8113762 100644
--- a/src/fdb5/remote/client/Client.cc
+++ b/src/fdb5/remote/client/Client.cc
@@ -66,6 +66,7 @@ void Client::refreshConnection() {
     eckit::Log::warning() << "Connection to " << connection_->controlEndpoint()
                           << " is invalid, attempting to reconnect" << std::endl;
     connection_->remove(id_);
+    closeConnection();  // nothing more will be received from the one that is lost
     connection_ = ClientConnectionRouter::instance().refresh(clientConfig(), connection_);
     connection_->add(*this);
 }
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index ff6e51a..4f937be 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -45,12 +45,12 @@ class DataWriteRequest {
 
 public:
 
-    DataWriteRequest() : client_(nullptr), msg_(Message::None), id_(0), data_(Buffer(0)) {}
+    DataWriteRequest() : clientID_(0), msg_(Message::None), id_(0), data_(Buffer(0)) {}
 
-    DataWriteRequest(Client* client, Message msg, uint32_t id, Buffer&& data) :
-        client_(client), msg_(msg), id_(id), data_(std::move(data)) {}
+    DataWriteRequest(uint32_t clientID, Message msg, uint32_t id, Buffer&& data) :
+        clientID_(clientID), msg_(msg), id_(id), data_(std::move(data)) {}
 
-    Client* client_;
+    uint32_t clientID_;  // n.b. the client itself may be gone by the time the data is sent
     Message msg_;
     uint32_t id_;
     Buffer data_;
@@ -164,6 +164,10 @@ void ClientConnection::disconnect() {
     }
 
     if (connected_) {
+        if (!valid()) {
+            // the server has not been told that we are leaving: do not wait for it to say goodbye
+            abandon();
+        }
         if (dataWriteThread_.joinable()) {
             dataWriteThread_.join();
         }
@@ -201,16 +205,39 @@ std::future<Buffer> ClientConnection::controlWrite(const Client& client, const M
     std::future<Buffer> f;
     {
         std::lock_guard lock(promisesMutex_);
+        // n.b. checked again under the lock, as no one will fulfil a promise made after failPendingRequests()
+        if (!valid()) {
+            throw RemoteFDBException("Connection to " + std::string(controlEndpoint_) + " is no longer valid",
+                                     controlEndpoint_);
+        }
         auto pp = promises_.emplace(requestID, std::promise<Buffer>{}).first;
         f = pp->second.get_future();
     }
-    Connection::write(msg, true, client.clientId(), requestID, payloads);
+    try {
+        Connection::write(msg, true, client.clientId(), requestID, payloads);
+    }
+    catch (...) {
+        {
+            std::lock_guard lock(promisesMutex_);
+            promises_.erase(requestID);
+        }
+        abandon();
+        throw;
+    }
 
     return f;
 }
 
+void ClientConnection::abandon() const {
+    invalidate();
+    Connection::shutdown(controlClient_);
+    if (!single_) {
+        Connection::shutdown(dataClient_);
+    }
+}
+
 void ClientConnection::dataWrite(DataWriteRequest& request) const {
-    Connection::write(request.msg_, false, request.client_->clientId(), request.id_, request.data_.data(),
+    Connection::write(request.msg_, false, request.clientID_, request.id_, request.data_.data(),
                       request.data_.size());
 }
 
@@ -248,7 +275,7 @@ void ClientConnection::dataWrite(Client& client, remote::Message msg, uint32_t r
         offset += payload.length;
     }
 
-    dataWriteQueue_->emplace(&client, msg, requestID, std::move(buffer));
+    dataWriteQueue_->emplace(client.clientId(), msg, requestID, std::move(buffer));
 }
 
 void ClientConnection::dataWriteThreadLoop() {
@@ -267,12 +294,10 @@ void ClientConnection::dataWriteThreadLoop() {
         dataWriteQueue_.reset();
     }
     catch (...) {
+        // Reported to whoever tries to send more, and to whoever is waiting for an answer
         dataWriteQueue_->interrupt(std::current_exception());
-        throw;
+        handleConnectionError(std::current_exception());
     }
-
-    // We are inside an async, so don't need to worry about exceptions escaping.
-    // They will be released when flush() is called.
 }
 
 void ClientConnection::writeControlStartupMessage(const Configuration& config) {
@@ -379,9 +404,12 @@ void ClientConnection::handleConnectionError(const std::exception_ptr& eptr) {
     // nothing else will ever fulfil a promise once the listening thread has stopped
     std::ostringstream ss;
     ss << "Connection to " << controlEndpoint_ << " lost: " << reason;
+
+    abandon();
     failPendingRequests(std::make_exception_ptr(RemoteFDBException(ss.str(), controlEndpoint_)));
 
-    teardown();
+    // ... nor will any of the clients receive the data they may be waiting for
+    closeConnection();
 }
 
 void ClientConnection::listeningControlThreadLoop() {
@@ -402,6 +430,10 @@ void ClientConnection::listeningControlThreadLoop() {
             if (hdr.message == Message::Exit) {
                 LOG_DEBUG_LIB(LibFdb5) << "ClientConnection::listeningControlThreadLoop() -- Control thread stopping"
                                        << std::endl;
+                invalidate();
+                failPendingRequests(std::make_exception_ptr(RemoteFDBException(
+                    "Connection to " + std::string(controlEndpoint_) + " has been closed", controlEndpoint_)));
+                closeConnection();
                 return;
             }
             if (hdr.clientID()) {
diff --git a/src/fdb5/remote/client/ClientConnection.h b/src/fdb5/remote/client/ClientConnection.h
index ed99b96..1430263 100644
--- a/src/fdb5/remote/client/ClientConnection.h
+++ b/src/fdb5/remote/client/ClientConnection.h
@@ -115,8 +115,8 @@ private:  // members
 
     std::string defaultEndpoint_;
 
-    eckit::net::TCPClient controlClient_;
-    eckit::net::TCPClient dataClient_;
+    mutable eckit::net::TCPClient controlClient_;
+    mutable eckit::net::TCPClient dataClient_;
 
     std::mutex clientsMutex_;
     std::map<uint32_t, Client*> clients_;
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index bcc7ecc..26b79b1 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -30,7 +30,6 @@
 #include "eckit/io/Offset.h"
 #include "eckit/log/Log.h"
 #include "eckit/net/Endpoint.h"
-#include "eckit/runtime/Main.h"
 #include "eckit/serialisation/MemoryStream.h"
 #include "eckit/serialisation/Reanimator.h"
 #include "eckit/serialisation/ResizableMemoryStream.h"
@@ -248,14 +247,9 @@ RemoteStore::~RemoteStore() {
     // stop listening otherwise it may invoke a virtual call - e.g. closeConnection()
     deregister();
 
-    std::lock_guard lock(messageMutex_);
-
-    // If we have launched a thread with an async and we manage to get here, this is
-    // an error. n.b. if we don't do something, we will block in the destructor
-    // of std::future.
-    if (!locations_.complete()) {
-        Log::error() << "Attempting to destruct RemoteStore with active archival" << std::endl;
-        eckit::Main::instance().terminate();
+    // The fields which have not been flushed are lost, as flush() has reported (if it has been called)
+    if (locations_.active()) {
+        Log::error() << "Destructing RemoteStore with active archival" << std::endl;
     }
 
     if (ReadLimiter::isInitialised()) {
@@ -366,6 +360,8 @@ void RemoteStore::print(std::ostream& out) const {
 }
 
 void RemoteStore::closeConnection() {
+    locations_.fail(std::make_exception_ptr(RemoteFDBException("Unexpected closure of store", controlEndpoint())));
+
     std::lock_guard lock(messageMutex_);
     for (auto& kv : messageQueues_) {
         if (!kv.second->closed()) {
-- 
2.43.0


From 94b28eb494b0fb97f3702640d00e580ef30797b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 24/44] fix: flush on a remote FDB reports the fields that
 could not be archived

---
 src/fdb5/remote/client/RemoteCatalogue.cc | 16 +++++++++
 src/fdb5/remote/client/RemoteCatalogue.h  |  4 +++
 src/fdb5/remote/client/RemoteStore.cc     | 14 ++++++--
 src/fdb5/remote/client/RemoteStore.h      | 44 ++++++++++++++++++++++-
 4 files changed, 74 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/remote/client/RemoteCatalogue.cc b/src/fdb5/remote/client/RemoteCatalogue.cc
index 7674e90..8d2845e 100644
--- a/src/fdb5/remote/client/RemoteCatalogue.cc
+++ b/src/fdb5/remote/client/RemoteCatalogue.cc
@@ -152,6 +152,11 @@ void RemoteCatalogue::flush(size_t archivedFields) {
         // The flush call is blocking
         controlWriteCheckResponse(Message::Flush, generateRequestID(), false, sendBuf, s.position());
 
+        std::lock_guard<std::mutex> lock(failureMutex_);
+        if (!failure_.empty()) {
+            throw RemoteFDBException(failure_, controlEndpoint());
+        }
+
         numLocations_ = 0;
     }
 }
@@ -207,6 +212,17 @@ bool RemoteCatalogue::handle(Message message, uint32_t requestID) {
 bool RemoteCatalogue::handle(Message message, uint32_t requestID, eckit::Buffer&& payload) {
     LOG_DEBUG_LIB(LibFdb5) << *this << " - Received [message=" << ((uint)message) << ",requestID=" << requestID
                            << ",payloadSize=" << payload.size() << "]" << std::endl;
+
+    if (message == Message::Error) {
+        // A field that could not be archived. Reported by flush()
+        std::string msg(static_cast<const char*>(payload.data()), payload.size());
+
+        std::lock_guard<std::mutex> lock(failureMutex_);
+        if (failure_.empty()) {
+            failure_ = msg;
+        }
+        return true;
+    }
     return false;
 }
 
diff --git a/src/fdb5/remote/client/RemoteCatalogue.h b/src/fdb5/remote/client/RemoteCatalogue.h
index b71a23b..2b52fd7 100644
--- a/src/fdb5/remote/client/RemoteCatalogue.h
+++ b/src/fdb5/remote/client/RemoteCatalogue.h
@@ -118,6 +118,10 @@ private:
 
     std::mutex archiveMutex_;
     size_t numLocations_{0};
+
+    // n.b. set by the listening thread, which must never wait for archiveMutex_
+    std::mutex failureMutex_;
+    std::string failure_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 26b79b1..779eead 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -324,6 +324,9 @@ bool RemoteStore::open() {
 
 size_t RemoteStore::flush() {
 
+    // The fields which have not been archived are not forgotten
+    locations_.check();
+
     // Flush only does anything if there is an ongoing archive();
     if (locations_.archived() == 0) {
         return 0;
@@ -436,12 +439,17 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
             return true;
         }
         case Message::Error: {
+            std::string msg(static_cast<const char*>(payload.data()), payload.size());
+
+            // a field that could not be archived...
+            if (locations_.fail(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())), requestID)) {
+                return true;
+            }
+
+            // ... or read
             std::lock_guard lock(messageMutex_);
             auto iter = messageQueues_.find(requestID);
             if (iter != messageQueues_.end()) {
-                std::string msg;
-                msg.resize(payload.size(), ' ');
-                payload.copy(&msg[0], payload.size());
                 iter->second->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
 
                 // Remove entry (shared_ptr --> message queue will be destroyed when it
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 6c42c8d..5f2b87e 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -35,6 +35,7 @@
 #include <atomic>
 #include <cstddef>
 #include <cstdint>
+#include <exception>
 #include <functional>
 #include <future>
 #include <map>
@@ -65,6 +66,7 @@ public:
     void archive(uint32_t requestID,
                  std::function<void(const std::unique_ptr<const FieldLocation> fieldLocation)> catalogue_archive) {
         std::lock_guard<std::mutex> lock(locationMutex_);
+        checkFailure();
         locations_[requestID] = catalogue_archive;
         fieldsArchived_++;
         ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
@@ -85,8 +87,9 @@ public:
         locationsReceived_++;
 
         ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
-        if (archivalCompleted_.valid() && (fieldsArchived_ == locationsReceived_)) {
+        if (waiting_ && (fieldsArchived_ == locationsReceived_)) {
             promiseArchivalCompleted_.set_value(locationsReceived_);
+            waiting_ = false;
         }
         return true;
     }
@@ -94,6 +97,7 @@ public:
     bool complete() {
         std::lock_guard<std::mutex> lock(locationMutex_);
 
+        checkFailure();
         ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
         if (fieldsArchived_ == locationsReceived_) {
             return true;
@@ -101,6 +105,7 @@ public:
 
         promiseArchivalCompleted_ = std::promise<size_t>{};
         archivalCompleted_ = promiseArchivalCompleted_.get_future();
+        waiting_ = true;
         return false;
     }
 
@@ -109,6 +114,33 @@ public:
         return archivalCompleted_.get();
     }
 
+    // Throws if the locations of some of the fields sent will never be received
+    void check() {
+        std::lock_guard<std::mutex> lock(locationMutex_);
+        checkFailure();
+    }
+
+    // Some locations will never be received. If requestID is given, only if that is one of those expected.
+    bool fail(const std::exception_ptr& eptr, uint32_t requestID = 0) {
+        std::lock_guard<std::mutex> lock(locationMutex_);
+        if (requestID != 0 ? locations_.find(requestID) == locations_.end() : locations_.empty()) {
+            return false;
+        }
+        if (!failure_) {
+            failure_ = eptr;
+            if (waiting_) {
+                promiseArchivalCompleted_.set_exception(eptr);
+                waiting_ = false;
+            }
+        }
+        return true;
+    }
+
+    bool active() {
+        std::lock_guard<std::mutex> lock(locationMutex_);
+        return !locations_.empty();
+    }
+
     void reset() {
         std::lock_guard<std::mutex> lock(locationMutex_);
         ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
@@ -117,6 +149,14 @@ public:
         storeRequested_ = false;
     }
 
+private:
+
+    void checkFailure() const {
+        if (failure_) {
+            std::rethrow_exception(failure_);
+        }
+    }
+
 private:
 
     std::mutex locationMutex_;
@@ -125,6 +165,8 @@ private:
     size_t locationsReceived_{0};
     std::promise<size_t> promiseArchivalCompleted_;
     std::future<size_t> archivalCompleted_;
+    bool waiting_{false};
+    std::exception_ptr failure_;
     std::atomic<bool> storeRequested_{false};
 };
 
-- 
2.43.0


From cb6bf6765c1975f421eeb2dd622051f112f3cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 25/44] fix: a server connection neither hangs nor dies when
 its client disappears or a field cannot be archived

---
 src/fdb5/remote/server/CatalogueHandler.cc |  43 +++++--
 src/fdb5/remote/server/CatalogueHandler.h  |  22 ++++
 src/fdb5/remote/server/ServerConnection.cc | 126 ++++++++++++++-------
 src/fdb5/remote/server/ServerConnection.h  |  14 +++
 src/fdb5/remote/server/StoreHandler.cc     |  18 ++-
 src/fdb5/remote/server/StoreHandler.h      |   1 +
 6 files changed, 173 insertions(+), 51 deletions(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 28cbfd8..d3737ac 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -46,7 +46,9 @@ namespace fdb5::remote {
 CatalogueHandler::CatalogueHandler(eckit::net::TCPSocket& socket, const Config& config) :
     ServerConnection(socket, config), fdbControlConnection_(false), fdbDataConnection_(false) {}
 
-CatalogueHandler::~CatalogueHandler() {}
+CatalogueHandler::~CatalogueHandler() {
+    stopThreads();
+}
 
 Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID) {
 
@@ -94,7 +96,8 @@ Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    // the client has been told
+    return Handled::Replied;
 }
 
 Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID,
@@ -172,7 +175,8 @@ Handled CatalogueHandler::handleControl(Message message, uint32_t clientID, uint
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    // the client has been told
+    return Handled::Replied;
 }
 
 
@@ -487,8 +491,8 @@ void CatalogueHandler::flush(uint32_t clientID, uint32_t requestID, eckit::Buffe
         it->second.locationsExpected =
             numArchived;  // setting locationsExpected also means that a flush has been requested
         it->second.archivalCompleted = it->second.fieldLocationsReceived.get_future();
-        if (it->second.locationsArchived == numArchived) {
-            it->second.fieldLocationsReceived.set_value(numArchived);
+        if (it->second.locationsArchived == numArchived || !it->second.failure.empty()) {
+            it->second.completeFlush();
         }
     }
 
@@ -498,6 +502,10 @@ void CatalogueHandler::flush(uint32_t clientID, uint32_t requestID, eckit::Buffe
         it->second.fieldLocationsReceived = std::promise<size_t>{};
         it->second.locationsExpected = 0;
         it->second.locationsArchived = 0;
+
+        if (!it->second.failure.empty()) {
+            throw eckit::WriteError("Not all fields have been archived: " + it->second.failure, Here());
+        }
     }
 
     it->second.catalogue->flush(numArchived);
@@ -539,9 +547,30 @@ void CatalogueHandler::archiveBlob(const uint32_t clientID, const uint32_t reque
         it->second.locationsArchived++;
         if (it->second.locationsExpected != 0 && it->second.archivalCompleted.valid() &&
             it->second.locationsExpected == it->second.locationsArchived) {
-            it->second.fieldLocationsReceived.set_value(it->second.locationsExpected);
+            it->second.completeFlush();
+        }
+    }
+}
+
+void CatalogueHandler::archiveFailed(uint32_t clientID, uint32_t requestID, const std::string& what) {
+    {
+        std::lock_guard<std::mutex> lock(handlerMutex_);
+        if (auto it = catalogues_.find(clientID); it != catalogues_.end()) {
+            std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
+            it->second.failure = what;
+            it->second.completeFlush();
         }
     }
+    ServerConnection::archiveFailed(clientID, requestID, what);
+}
+
+void CatalogueHandler::archiveInterrupted(const std::string& what) {
+    std::lock_guard<std::mutex> lock(handlerMutex_);
+    for (auto& [clientID, archiver] : catalogues_) {
+        std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
+        archiver.failure = what;
+        archiver.completeFlush();
+    }
 }
 
 bool CatalogueHandler::remove(bool control, uint32_t clientID) {
@@ -586,7 +615,7 @@ CatalogueWriter& CatalogueHandler::catalogue(uint32_t id, const Key& dbKey) {
     if (!single_) {
         numDataConnection_++;
     }
-    return *((catalogues_.emplace(id, CatalogueArchiver(!single_, dbKey, config_)).first)->second.catalogue);
+    return *((catalogues_.try_emplace(id, !single_, dbKey, config_).first)->second.catalogue);
 }
 
 const CatalogueHandler::WipeInProgress& CatalogueHandler::cachedWipeState(Key dbKey) const {
diff --git a/src/fdb5/remote/server/CatalogueHandler.h b/src/fdb5/remote/server/CatalogueHandler.h
index 6fa7083..b2eec57 100644
--- a/src/fdb5/remote/server/CatalogueHandler.h
+++ b/src/fdb5/remote/server/CatalogueHandler.h
@@ -30,6 +30,13 @@ struct CatalogueArchiver {
         locationsExpected(0),
         locationsArchived(0) {}
 
+    ~CatalogueArchiver() {
+        // The client has gone without a (successful) flush
+        if (locationsArchived != 0 || !failure.empty()) {
+            catalogue->discard();
+        }
+    }
+
     bool controlConnection;
     bool dataConnection;
 
@@ -39,6 +46,17 @@ struct CatalogueArchiver {
 
     std::promise<size_t> fieldLocationsReceived;
     std::future<size_t> archivalCompleted;
+
+    // Why the fields sent by the client cannot all be indexed (empty if they can)
+    std::string failure;
+
+    // Wake up the flush waiting for the locations, if there is one
+    void completeFlush() {
+        if (locationsExpected != 0) {
+            locationsExpected = 0;
+            fieldLocationsReceived.set_value(locationsArchived);
+        }
+    }
 };
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -75,6 +93,10 @@ private:  // methods
 
     void archiveBlob(const uint32_t clientID, const uint32_t requestID, const void* data, size_t length) override;
 
+    void archiveFailed(uint32_t clientID, uint32_t requestID, const std::string& what) override;
+
+    void archiveInterrupted(const std::string& what) override;
+
     bool remove(bool control, uint32_t clientID) override;
 
     CatalogueWriter& catalogue(uint32_t catalogueID, const Key& dbKey);
diff --git a/src/fdb5/remote/server/ServerConnection.cc b/src/fdb5/remote/server/ServerConnection.cc
index 6655c2f..ca9e233 100644
--- a/src/fdb5/remote/server/ServerConnection.cc
+++ b/src/fdb5/remote/server/ServerConnection.cc
@@ -77,13 +77,18 @@ ServerConnection::ServerConnection(eckit::net::TCPSocket& socket, const Config&
 
 ServerConnection::~ServerConnection() {
     // We don't want to die before the worker threads are cleaned up
+    stopThreads();
+
+    eckit::Log::info() << "Done" << std::endl;
+}
+
+void ServerConnection::stopThreads() {
     waitForWorkers();
 
+    archiveQueue_.close();
     if (archiveFuture_.valid()) {
         archiveFuture_.wait();
     }
-
-    eckit::Log::info() << "Done" << std::endl;
 }
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -110,7 +115,8 @@ Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    // the client has been told
+    return Handled::Replied;
 }
 
 Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload) {
@@ -137,7 +143,8 @@ Handled ServerConnection::handleData(Message message, uint32_t clientID, uint32_
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    // the client has been told
+    return Handled::Replied;
 }
 
 RemoteConfiguration ServerConnection::availableFunctionality() const {
@@ -274,45 +281,59 @@ size_t ServerConnection::archiveThreadLoop() {
 
     try {
         while (archiveQueue_.pop(elem) != -1) {
-            if (elem.multiblob_) {
-                // Handle MultiBlob
-
-                const char* firstData = reinterpret_cast<const char*>(elem.payload_.data());  // For pointer arithmetic
-                const char* charData = firstData;
-                while (size_t(charData - firstData) < elem.payload_.size()) {
-                    const MessageHeader* hdr = reinterpret_cast<const MessageHeader*>(charData);
-                    ASSERT(hdr->message == Message::Blob);
-                    ASSERT(hdr->clientID() == elem.clientID_);
-                    ASSERT(hdr->requestID == elem.requestID_);
-                    charData += sizeof(MessageHeader);
-
-                    const void* payloadData = charData;
-                    charData += hdr->payloadSize;
-
-                    const auto* e = reinterpret_cast<const MessageHeader::MarkerType*>(charData);
-                    ASSERT(*e == MessageHeader::EndMarker);
-                    charData += MessageHeader::markerBytes;
-
-                    archiveBlob(elem.clientID_, elem.requestID_, payloadData, hdr->payloadSize);
+            try {
+                if (elem.multiblob_) {
+                    // Handle MultiBlob
+
+                    const char* firstData =
+                        reinterpret_cast<const char*>(elem.payload_.data());  // For pointer arithmetic
+                    const char* charData = firstData;
+                    while (size_t(charData - firstData) < elem.payload_.size()) {
+                        const MessageHeader* hdr = reinterpret_cast<const MessageHeader*>(charData);
+                        ASSERT(hdr->message == Message::Blob);
+                        ASSERT(hdr->clientID() == elem.clientID_);
+                        ASSERT(hdr->requestID == elem.requestID_);
+                        charData += sizeof(MessageHeader);
+
+                        const void* payloadData = charData;
+                        charData += hdr->payloadSize;
+
+                        const auto* e = reinterpret_cast<const MessageHeader::MarkerType*>(charData);
+                        ASSERT(*e == MessageHeader::EndMarker);
+                        charData += MessageHeader::markerBytes;
+
+                        archiveBlob(elem.clientID_, elem.requestID_, payloadData, hdr->payloadSize);
+                        totalArchived += 1;
+                    }
+                }
+                else {
+                    // Handle single blob
+                    archiveBlob(elem.clientID_, elem.requestID_, elem.payload_.data(), elem.payload_.size());
                     totalArchived += 1;
                 }
             }
-            else {
-                // Handle single blob
-                archiveBlob(elem.clientID_, elem.requestID_, elem.payload_.data(), elem.payload_.size());
-                totalArchived += 1;
+            catch (std::exception& e) {
+                archiveFailed(elem.clientID_, elem.requestID_, e.what());
+            }
+            catch (...) {
+                archiveFailed(elem.clientID_, elem.requestID_, "Caught unexpected and unknown error in archival");
             }
         }
     }
     catch (...) {
         // Ensure exception propagates across the queue back to the parent thread.
         archiveQueue_.interrupt(std::current_exception());
+        archiveInterrupted("archival interrupted");
         throw;
     }
 
     return totalArchived;
 }
 
+void ServerConnection::archiveFailed(uint32_t clientID, uint32_t requestID, const std::string& what) {
+    error(what, clientID, requestID);
+}
+
 void ServerConnection::listeningThreadLoopData() {
 
     MessageHeader hdr;
@@ -367,12 +388,21 @@ void ServerConnection::listeningThreadLoopData() {
     }
     catch (std::exception& e) {
         // n.b. more general than eckit::Exception
-        error(e.what(), hdr.clientID(), hdr.requestID);
-        throw;
+        eckit::Log::error() << "Terminating DATA listener: " << e.what() << std::endl;
+        archiveInterrupted(e.what());
+        shutdownSockets();
     }
     catch (...) {
-        error("Caught unexpected, unknown exception in retrieve worker", hdr.clientID(), hdr.requestID);
-        throw;
+        eckit::Log::error() << "Terminating DATA listener: unknown exception" << std::endl;
+        archiveInterrupted("unknown exception");
+        shutdownSockets();
+    }
+}
+
+void ServerConnection::shutdownSockets() {
+    Connection::shutdown(controlSocket_);
+    if (!single_ && dataSocket_) {
+        Connection::shutdown(*dataSocket_);
     }
 }
 
@@ -381,6 +411,28 @@ void ServerConnection::handle() {
 
     std::thread listeningThreadData;
 
+    try {
+        listeningThreadLoopControl(listeningThreadData);
+    }
+    catch (...) {
+        // The client disappeared without saying so
+        shutdownSockets();
+        if (listeningThreadData.joinable()) {
+            listeningThreadData.join();
+        }
+        throw;
+    }
+
+    if (listeningThreadData.joinable()) {
+        listeningThreadData.join();
+    }
+    archiveQueue_.close();
+
+    teardown();
+}
+
+void ServerConnection::listeningThreadLoopControl(std::thread& listeningThreadData) {
+
     MessageHeader hdr;
 
     // listen loop
@@ -449,14 +501,6 @@ void ServerConnection::handle() {
             }
         }
     }
-
-    if (listeningThreadData.joinable()) {
-        listeningThreadData.join();
-    }
-    ASSERT(archiveQueue_.empty());
-    archiveQueue_.close();
-
-    teardown();
 }
 
 void ServerConnection::handleException(std::exception_ptr e) {
@@ -508,7 +552,7 @@ void ServerConnection::waitForWorkers() {
     for (auto& it : workerThreads_) {
         eckit::Log::error() << "Worker thread still alive for request ID: " << it.first << std::endl;
         eckit::Log::error() << "Joining ..." << std::endl;
-        it.second.get();
+        it.second.wait();
         eckit::Log::error() << "Thread complete" << std::endl;
     }
 
diff --git a/src/fdb5/remote/server/ServerConnection.h b/src/fdb5/remote/server/ServerConnection.h
index 903d3fa..5dd0bdd 100644
--- a/src/fdb5/remote/server/ServerConnection.h
+++ b/src/fdb5/remote/server/ServerConnection.h
@@ -112,11 +112,21 @@ protected:
     void tidyWorkers();
     void waitForWorkers();
 
+    // Wait for every thread that works for this connection. They use members of the derived classes, which therefore
+    // call this first thing in their destructors.
+    void stopThreads();
+
     // archival thread
     size_t archiveThreadLoop();
 
     virtual void archiveBlob(uint32_t clientID, uint32_t requestID, const void* data, size_t length) = 0;
 
+    // A field could not be archived: tell the client, which is waiting for it
+    virtual void archiveFailed(uint32_t clientID, uint32_t requestID, const std::string& what);
+
+    // Nothing more will be archived on this connection
+    virtual void archiveInterrupted(const std::string& what) {}
+
     // archival helper methods
     void archiver();
     void queue(Message message, uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload);
@@ -125,8 +135,12 @@ protected:
 
 private:
 
+    void listeningThreadLoopControl(std::thread& listeningThreadData);
     void listeningThreadLoopData();
 
+    // The client has gone, or cannot be understood any more: make sure that no thread goes on waiting for it
+    void shutdownSockets();
+
     const eckit::net::TCPSocket& controlSocket() const override { return controlSocket_; }
 
     const eckit::net::TCPSocket& dataSocket() const override {
diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index a616a8a..2182148 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -45,6 +45,10 @@ StoreHandler::StoreHandler(eckit::net::TCPSocket& socket, const Config& config)
     LibFdb5::instance().constructorCallback()(*this);
 }
 
+StoreHandler::~StoreHandler() {
+    stopThreads();
+}
+
 Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID) {
 
     try {
@@ -69,7 +73,8 @@ Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    // the client has been told
+    return Handled::Replied;
 }
 
 Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload) {
@@ -125,7 +130,8 @@ Handled StoreHandler::handleControl(Message message, uint32_t clientID, uint32_t
     catch (...) {
         error("Caught unexpected and unknown error", clientID, requestID);
     }
-    return Handled::No;
+    // the client has been told
+    return Handled::Replied;
 }
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -159,7 +165,13 @@ void StoreHandler::readLocationThreadLoop() {
         // send the data back to the client.
 
         // Forward the API call
-        writeToParent(elem.clientID, elem.requestID, std::move(elem.readLocation));
+        try {
+            writeToParent(elem.clientID, elem.requestID, std::move(elem.readLocation));
+        }
+        catch (std::exception& e) {
+            // n.b. the client is not there any more to be told
+            Log::error() << "Unable to report failed read: " << e.what() << std::endl;
+        }
     }
 }
 
diff --git a/src/fdb5/remote/server/StoreHandler.h b/src/fdb5/remote/server/StoreHandler.h
index 8b4f10a..a4870a7 100644
--- a/src/fdb5/remote/server/StoreHandler.h
+++ b/src/fdb5/remote/server/StoreHandler.h
@@ -30,6 +30,7 @@ class StoreHandler : public ServerConnection, public CallbackRegistry {
 public:  // methods
 
     StoreHandler(eckit::net::TCPSocket& socket, const Config& config);
+    ~StoreHandler() override;
 
 private:  // methods
 
-- 
2.43.0


From c9e22de1f9762764c3444dd54d1926b1ae1ce01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 26/44] fix: a flush after a failed fdatasync does not report
 success

---
 src/fdb5/io/FDBFileHandle.cc | 6 ++++++
 src/fdb5/io/FDBFileHandle.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/fdb5/io/FDBFileHandle.cc b/src/fdb5/io/FDBFileHandle.cc
index c56ee71..884d839 100644
--- a/src/fdb5/io/FDBFileHandle.cc
+++ b/src/fdb5/io/FDBFileHandle.cc
@@ -81,12 +81,18 @@ void FDBFileHandle::flush() {
         }
 
         if (fdbDataSyncOnFlush) {
+            if (syncFailed_) {
+                // What could not be written back is lost, but the kernel reports that once only
+                throw eckit::WriteError(path_ + " (an earlier fdatasync failed)");
+            }
+
             int ret = eckit::fdatasync(::fileno(file_));
 
             while (ret < 0 && errno == EINTR) {
                 ret = eckit::fdatasync(::fileno(file_));
             }
             if (ret < 0) {
+                syncFailed_ = true;
                 Log::error() << "Cannot fdatasync(" << path_ << ") " << ::fileno(file_) << Log::syserr << std::endl;
                 throw eckit::WriteError(path_);
             }
diff --git a/src/fdb5/io/FDBFileHandle.h b/src/fdb5/io/FDBFileHandle.h
index e70aba4..2385d21 100644
--- a/src/fdb5/io/FDBFileHandle.h
+++ b/src/fdb5/io/FDBFileHandle.h
@@ -58,6 +58,7 @@ private:  // members
     FILE* file_;
     eckit::Buffer buffer_;
     off_t pos_;
+    bool syncFailed_{false};
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 54b2ef3ff92051985cad6ef65b5ac9dd0e0fdcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 27/44] fix: on a single connection data is sent before the
 flush that waits for it

---
 src/fdb5/remote/client/ClientConnection.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index 4f937be..e58bc25 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -251,6 +251,12 @@ void ClientConnection::dataWrite(Client& client, remote::Message msg, uint32_t r
         ASSERT(clients_.find(client.clientId()) != clients_.end());
     }
 
+    if (single_) {
+        // The server reads data and control messages in the order in which they come: a flush must not overtake data
+        Connection::write(msg, false, client.clientId(), requestID, payloads);
+        return;
+    }
+
     {
         std::lock_guard lock(dataWriteMutex_);
         if (!dataWriteThread_.joinable()) {
-- 
2.43.0


From 46e107b5796f66085570d3fedd9654f1a5b50d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 28/44] fix: the flush of a remote store does not wait for a
 field that could not be sent

---
 src/fdb5/remote/client/RemoteStore.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 779eead..efbb904 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -313,7 +313,14 @@ void RemoteStore::archiveCb(
     payloads.emplace_back(keyStream.position(), keyBuffer.data());
     payloads.emplace_back(length, data);
 
-    dataWrite(Message::Blob, id, payloads);
+    try {
+        dataWrite(Message::Blob, id, payloads);
+    }
+    catch (...) {
+        // the location of a field which has not been sent will never come
+        locations_.fail(std::current_exception(), id);
+        throw;
+    }
 
     eckit::Log::status() << "Field " << locations_.archived() << " enqueued for store archival" << std::endl;
 }
-- 
2.43.0


From 904784a55c931884124b468f39d4acfab3839d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 29/44] fix: the thread listening to a server does not wait for
 a list that is not being read

---
 src/fdb5/api/RemoteFDB.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index 39bb7a3..beae694 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -29,6 +29,7 @@
 
 #include <cstdint>
 #include <exception>
+#include <limits>
 #include <memory>
 #include <mutex>
 #include <ostream>
@@ -52,7 +53,9 @@ struct BaseAPIHelper {
     typedef T ValueType;
 
     static size_t bufferSize() { return 1_MiB; }
-    static size_t queueSize() { return 100; }
+    // n.b. The messages are queued by the thread that listens to the connection. It must not wait until this list is
+    //      read, as that may take the reply to another request (or to this one, on a single connection).
+    static size_t queueSize() { return std::numeric_limits<size_t>::max(); }
     static Message message() { return msgID; }
 
     void encodeExtra(Stream& s) const {}
-- 
2.43.0


From bb93b2b6461c8830098eea4ffb9751011249f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 30/44] fix: an axis is not released from the registry while
 another thread takes it

---
 src/fdb5/database/AxisRegistry.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/AxisRegistry.cc b/src/fdb5/database/AxisRegistry.cc
index 4eca643..f13cbfc 100644
--- a/src/fdb5/database/AxisRegistry.cc
+++ b/src/fdb5/database/AxisRegistry.cc
@@ -27,12 +27,13 @@ AxisRegistry& AxisRegistry::instance() {
 
 void AxisRegistry::release(const keyword_t& keyword, std::shared_ptr<axis_t>& ptr) {
 
+    eckit::AutoLock<eckit::Mutex> lock(mutex_);
+
+    // n.b. under the lock, as another thread may be taking this axis from the registry
     if (ptr.use_count() != 2) {
         return;
     }
 
-    eckit::AutoLock<eckit::Mutex> lock(mutex_);
-
     axis_map_t::iterator it = axes_.find(keyword);
     ASSERT(it != axes_.end());
 
-- 
2.43.0


From b3a386efe5ac9291f34a7f5515e08e91d0dccae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 31/44] fix: threads sharing a remote FDB renew its lost
 connection one at a time

---
 src/fdb5/remote/client/Client.cc      | 29 +++++++++++++++++----------
 src/fdb5/remote/client/Client.h       | 15 ++++++++++----
 src/fdb5/remote/client/RemoteStore.cc |  2 +-
 3 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/fdb5/remote/client/Client.cc b/src/fdb5/remote/client/Client.cc
index 8113762..d218375 100644
--- a/src/fdb5/remote/client/Client.cc
+++ b/src/fdb5/remote/client/Client.cc
@@ -60,20 +60,27 @@ Client::Client(const eckit::Configuration& config,
 }
 
 void Client::refreshConnection() {
-    if (connection_->valid()) {
+    // The threads that share this client share its new connection too
+    std::lock_guard<std::mutex> lock(refreshMutex_);
+
+    const auto lost = connection();
+    if (lost->valid()) {
         return;
     }
-    eckit::Log::warning() << "Connection to " << connection_->controlEndpoint()
-                          << " is invalid, attempting to reconnect" << std::endl;
-    connection_->remove(id_);
+    eckit::Log::warning() << "Connection to " << lost->controlEndpoint() << " is invalid, attempting to reconnect"
+                          << std::endl;
+    lost->remove(id_);
     closeConnection();  // nothing more will be received from the one that is lost
-    connection_ = ClientConnectionRouter::instance().refresh(clientConfig(), connection_);
-    connection_->add(*this);
+    auto fresh = ClientConnectionRouter::instance().refresh(clientConfig(), lost);
+    fresh->add(*this);
+
+    std::lock_guard<std::mutex> connectionLock(connectionMutex_);
+    connection_ = std::move(fresh);
 }
 
 void Client::deregister() {
     if (!deregistered_.exchange(true)) {
-        connection_->remove(id_);
+        connection()->remove(id_);
     }
 }
 
@@ -91,7 +98,7 @@ eckit::Buffer Client::waitControlResponse(std::future<eckit::Buffer>& response,
         std::ostringstream ss;
         ss << "Error while waiting for response to control message " << msg << " with requestID " << requestID << ": "
            << e.what();
-        throw RemoteFDBException(ss.str(), connection_->controlEndpoint());
+        throw RemoteFDBException(ss.str(), connection()->controlEndpoint());
     }
 }
 
@@ -107,7 +114,7 @@ void Client::controlWriteCheckResponse(const Message msg, const uint32_t request
         payloads.emplace_back(payloadLength, payload);
     }
 
-    auto response = connection_->controlWrite(*this, msg, requestID, dataListener, payloads);
+    auto response = connection()->controlWrite(*this, msg, requestID, dataListener, payloads);
     ASSERT(waitControlResponse(response, msg, requestID).size() == 0);
 }
 
@@ -123,12 +130,12 @@ eckit::Buffer Client::controlWriteReadResponse(const Message msg, const uint32_t
         payloads.emplace_back(payloadLength, payload);
     }
 
-    auto response = connection_->controlWrite(*this, msg, requestID, false, payloads);
+    auto response = connection()->controlWrite(*this, msg, requestID, false, payloads);
     return waitControlResponse(response, msg, requestID);
 }
 
 void Client::dataWrite(Message msg, uint32_t requestID, PayloadList payloads) {
-    connection_->dataWrite(*this, msg, requestID, std::move(payloads));
+    connection()->dataWrite(*this, msg, requestID, std::move(payloads));
 }
 
 }  // namespace fdb5::remote
diff --git a/src/fdb5/remote/client/Client.h b/src/fdb5/remote/client/Client.h
index 2bf4c6b..4f0ed78 100644
--- a/src/fdb5/remote/client/Client.h
+++ b/src/fdb5/remote/client/Client.h
@@ -67,11 +67,11 @@ public:  // methods
 
     uint32_t id() const { return id_; }
 
-    const eckit::net::Endpoint& controlEndpoint() const { return connection_->controlEndpoint(); }
+    eckit::net::Endpoint controlEndpoint() const { return connection()->controlEndpoint(); }
 
-    const std::string& defaultEndpoint() const { return connection_->defaultEndpoint(); }
+    std::string defaultEndpoint() const { return connection()->defaultEndpoint(); }
 
-    uint32_t generateRequestID() const { return connection_->generateRequestID(); }
+    uint32_t generateRequestID() const { return connection()->generateRequestID(); }
 
     // blocking requests
     void controlWriteCheckResponse(Message msg, uint32_t requestID, bool dataListener, const void* payload = nullptr,
@@ -99,7 +99,10 @@ protected:
     // in their destructor, before that state is destroyed.
     void deregister();
 
-    std::shared_ptr<ClientConnection> connection_;
+    std::shared_ptr<ClientConnection> connection() const {
+        std::lock_guard<std::mutex> lock(connectionMutex_);
+        return connection_;
+    }
 
 private:
 
@@ -110,6 +113,10 @@ private:
 
 private:
 
+    std::shared_ptr<ClientConnection> connection_;
+    mutable std::mutex connectionMutex_;
+    std::mutex refreshMutex_;
+
     uint32_t id_;
     std::atomic<bool> deregistered_{false};
     mutable std::mutex blockingRequestMutex_;
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index efbb904..d88c7b1 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -505,7 +505,7 @@ RemoteStore& RemoteStore::get(const eckit::URI& uri) {
     const std::string& endpoint = uri.hostport();
     auto it = readStores_.find(endpoint);
     if (it != readStores_.end()) {
-        if (it->second->connection_->valid()) {
+        if (it->second->connection()->valid()) {
             return *(it->second);
         }
         lostStores_.push_back(std::move(it->second));
-- 
2.43.0


From b7b2e999b59a9d8232e7237d87825898a963c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 32/44] fix: the process serving a client does not keep the
 port of the server

---
 src/fdb5/remote/FdbServer.cc | 9 ++++++---
 src/fdb5/remote/FdbServer.h  | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/remote/FdbServer.cc b/src/fdb5/remote/FdbServer.cc
index ac254ec..d0f31ca 100644
--- a/src/fdb5/remote/FdbServer.cc
+++ b/src/fdb5/remote/FdbServer.cc
@@ -35,13 +35,16 @@ namespace fdb5::remote {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-FDBForker::FDBForker(net::TCPSocket& socket, const Config& config) :
-    ProcessControler(true), socket_(socket), config_(config) {}
+FDBForker::FDBForker(net::TCPServer& server, net::TCPSocket& socket, const Config& config) :
+    ProcessControler(true), server_(server), socket_(socket), config_(config) {}
 
 FDBForker::~FDBForker() {}
 
 void FDBForker::run() {
 
+    // This process serves one client. It must not keep hold of the port, where nobody would accept its connections
+    server_.close();
+
     eckit::Monitor::instance().reset();  // needed to the monitor to work on forked (but not execed process)
 
     eckit::Log::info() << "FDB forked pid " << ::getpid() << "  --  connection: " << socket_.localHost() << ":"
@@ -143,7 +146,7 @@ void FdbServerBase::doRun() {
                 t.start();
             }
             else {
-                FDBForker f(server.accept(), config);
+                FDBForker f(server, server.accept(), config);
                 f.start();
             }
         }
diff --git a/src/fdb5/remote/FdbServer.h b/src/fdb5/remote/FdbServer.h
index 0776cb8..561b99c 100644
--- a/src/fdb5/remote/FdbServer.h
+++ b/src/fdb5/remote/FdbServer.h
@@ -37,13 +37,14 @@ class FDBForker : public eckit::ProcessControler {
 
 public:  // methods
 
-    FDBForker(eckit::net::TCPSocket& socket, const Config& config);
+    FDBForker(eckit::net::TCPServer& server, eckit::net::TCPSocket& socket, const Config& config);
     ~FDBForker() override;
 
 private:  // methods
 
     void run() override;
 
+    eckit::net::TCPServer& server_;
     eckit::net::TCPSocket socket_;
     eckit::LocalConfiguration config_;
 };
-- 
2.43.0


From 2e8b782ba61ec4b0db94c9538f76679532abb8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 33/44] fix: a server does not wait for ever for the data
 connection of a client that has gone

---
 src/fdb5/remote/server/ServerConnection.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/remote/server/ServerConnection.cc b/src/fdb5/remote/server/ServerConnection.cc
index ca9e233..98d26f8 100644
--- a/src/fdb5/remote/server/ServerConnection.cc
+++ b/src/fdb5/remote/server/ServerConnection.cc
@@ -212,8 +212,11 @@ void ServerConnection::initialiseConnections() {
 
         dataEndpoint = eckit::net::Endpoint{endpointFromClient.hostname(), dataSocket_->localPort()};
 
+        // n.b. the client may disappear before it connects
+        static const int timeout = eckit::Resource<int>("fdbDataConnectionTimeout", 120);
+
         dataSocketFuture = std::async(std::launch::async, [this] {
-            dataSocket_->accept();
+            dataSocket_->accept("Waiting for data connection", timeout);
             return true;
         });
     }
@@ -230,7 +233,7 @@ void ServerConnection::initialiseConnections() {
 
     if (!single_) {
         ASSERT(dataSocketFuture.valid());
-        dataSocketFuture.wait();
+        dataSocketFuture.get();
 
         // Check the response from the client.
         // Ensure that the hostname matches the original hostname, and that
-- 
2.43.0


From 02d98a00fd73f23235edf47cd84ff770e2597c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 34/44] fix: a remote FDB whose construction fails stops
 listening first

---
 src/fdb5/api/RemoteFDB.cc | 11 +++++++++++
 src/fdb5/api/RemoteFDB.h  |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index beae694..c0416bb 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -184,6 +184,17 @@ const net::Endpoint& RemoteFDB::storeEndpoint(const net::Endpoint& fieldLocation
 }
 
 RemoteFDB::RemoteFDB(const Configuration& config, const std::string& name) : LocalFDB(config, name), Client(config) {
+    try {
+        initialise();
+    }
+    catch (...) {
+        // n.b. the destructor is not going to be called
+        deregister();
+        throw;
+    }
+}
+
+void RemoteFDB::initialise() {
 
     Buffer buf = controlWriteReadResponse(remote::Message::Stores, generateRequestID());
     MemoryStream s(buf);
diff --git a/src/fdb5/api/RemoteFDB.h b/src/fdb5/api/RemoteFDB.h
index 4325a3f..d9a299c 100644
--- a/src/fdb5/api/RemoteFDB.h
+++ b/src/fdb5/api/RemoteFDB.h
@@ -72,6 +72,8 @@ public:  // method
 
 private:  // methods
 
+    void initialise();
+
     template <typename HelperClass>
     auto forwardApiCall(const HelperClass& helper, const FDBToolRequest& request)
         -> APIIterator<typename HelperClass::ValueType>;
-- 
2.43.0


From 0c2a57780e389b4a038312a963318feac9babcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 35/44] fix: a server does not remove the client it is
 archiving a field for

---
 src/fdb5/remote/server/ServerConnection.cc | 3 +++
 src/fdb5/remote/server/ServerConnection.h  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/fdb5/remote/server/ServerConnection.cc b/src/fdb5/remote/server/ServerConnection.cc
index 98d26f8..88948b0 100644
--- a/src/fdb5/remote/server/ServerConnection.cc
+++ b/src/fdb5/remote/server/ServerConnection.cc
@@ -285,6 +285,8 @@ size_t ServerConnection::archiveThreadLoop() {
     try {
         while (archiveQueue_.pop(elem) != -1) {
             try {
+                std::lock_guard<std::mutex> lock(archiveMutex_);
+
                 if (elem.multiblob_) {
                     // Handle MultiBlob
 
@@ -447,6 +449,7 @@ void ServerConnection::listeningThreadLoopControl(std::thread& listeningThreadDa
 
         if (hdr.message == Message::Stop) {
             ASSERT(hdr.clientID());
+            std::lock_guard<std::mutex> lock(archiveMutex_);
             remove(true, hdr.clientID());
         }
         else {
diff --git a/src/fdb5/remote/server/ServerConnection.h b/src/fdb5/remote/server/ServerConnection.h
index 5dd0bdd..563f854 100644
--- a/src/fdb5/remote/server/ServerConnection.h
+++ b/src/fdb5/remote/server/ServerConnection.h
@@ -169,6 +169,10 @@ protected:
     eckit::net::TCPSocket controlSocket_;
 
     std::mutex handlerMutex_;
+
+    // Held while a field is being archived, so that what it is archived to is not removed meanwhile
+    std::mutex archiveMutex_;
+
     size_t numControlConnection_{0};
     size_t numDataConnection_{0};
 
-- 
2.43.0


From 61a3f8f3ce5781334b02e52fd20ffcf17d726023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 36/44] fix: the FDBs of a catalogue server are guarded by one
 mutex

---
 src/fdb5/remote/server/CatalogueHandler.cc | 2 +-
 src/fdb5/remote/server/CatalogueHandler.h  | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index d3737ac..4044a7d 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -308,7 +308,7 @@ void CatalogueHandler::handleApiCall(uint32_t clientID, uint32_t requestID, ecki
     ASSERT(workerThreads_.find(requestID) == workerThreads_.end());
 
     {
-        std::lock_guard<std::mutex> lock(fdbMutex_);
+        std::lock_guard<std::mutex> lock(handlerMutex_);
         auto it = fdbs_.find(clientID);
         if (it == fdbs_.end()) {
             fdbs_[clientID];
diff --git a/src/fdb5/remote/server/CatalogueHandler.h b/src/fdb5/remote/server/CatalogueHandler.h
index b2eec57..d7e08c1 100644
--- a/src/fdb5/remote/server/CatalogueHandler.h
+++ b/src/fdb5/remote/server/CatalogueHandler.h
@@ -117,7 +117,6 @@ private:  // member
     std::map<uint32_t, CatalogueArchiver> catalogues_;
     std::map<uint32_t, FDB> fdbs_;
 
-    std::mutex fdbMutex_;
     std::mutex fieldLocationsMutex_;
 
     bool fdbControlConnection_;
-- 
2.43.0


From 80c1526843168e13fa60cec1ec61e57bdca776da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 37/44] fix: a de-duplicated retrieve returns each field, not
 the last one n times

---
 src/fdb5/api/FDB.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/api/FDB.cc b/src/fdb5/api/FDB.cc
index dc6f074..d9c1bd2 100644
--- a/src/fdb5/api/FDB.cc
+++ b/src/fdb5/api/FDB.cc
@@ -249,7 +249,7 @@ eckit::DataHandle* FDB::read(ListIterator& it, bool sorted) {
             ListElementDeduplicator deduplicator;
             metkit::hypercube::HyperCubePayloaded<ListElement> cube(cubeRequest, deduplicator);
             for (const auto& elem : elements) {
-                cube.add(elem.combinedKey().request(), el);
+                cube.add(elem.combinedKey().request(), elem);
             }
 
             if (cube.countVacant() > 0) {
-- 
2.43.0


From 3b0d2d89300bd3b2f847414d6c04fafda52b34e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 38/44] fix: tocs can be read without being cached in memory

---
 src/fdb5/toc/TocHandler.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 5989168..13b2a7b 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -14,7 +14,9 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <cstddef>
+#include <list>
 #include <utility>
+#include <vector>
 
 #include "eckit/config/Resource.h"
 #include "eckit/filesystem/PathName.h"
@@ -86,8 +88,9 @@ public:  // methods
     }
 
     long read(void* buf, long len, const char** pdata = nullptr) {
+        // n.b. There is only data in memory to point to if cached
         if (pdata && !cached_) {
-            throw SeriousBug("Can only return a pointer to data in memory if cached", Here());
+            *pdata = nullptr;
         }
         if (cached_) {
             if (pdata) {
@@ -1358,6 +1361,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
         LocalPathName tocDirectoryName;  // May differ if using the overlay
     };
     std::vector<IndexEntry> indexEntries;
+    std::list<std::vector<char>> uncachedRecords;  // the TocRecords read from a toc which isn't in memory
 
     bool debug = LibFdb5::instance().debug();
     bool walkSubTocs = true;
@@ -1386,6 +1390,11 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
                 break;
 
             case TocRecord::TOC_INDEX:
+                if (!pdata) {
+                    const char* start = reinterpret_cast<const char*>(r.get());
+                    uncachedRecords.emplace_back(start, start + dataLength);
+                    pdata = reinterpret_cast<const TocRecord*>(uncachedRecords.back().data());
+                }
                 indexEntries.emplace_back(IndexEntry{indexEntries.size(), pdata, dataLength, currentDirectory()});
 
                 if (subTocs && subTocRead_) {
@@ -1668,6 +1677,9 @@ DbStats TocHandler::stats() const {
 
 void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metadata, std::set<eckit::URI>& data) const {
 
+    openForRead();
+    TocHandlerCloser close(*this);
+
     if (!enumeratedMaskedEntries_) {
         populateMaskedEntriesList();
     }
@@ -1710,9 +1722,6 @@ void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metada
     // Get the data files referenced by the masked indexes (those in subtocs are
     // referenced internally)
 
-    openForRead();
-    TocHandlerCloser close(*this);
-
     auto r = std::make_unique<TocRecord>(
         serialisationVersion_.used());  // allocate (large) TocRecord on heap not stack (MARS-779)
 
-- 
2.43.0


From ae4cb15b4169b51ed2fd6ea27ceee70df4d2bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 39/44] fix: fields archived through a remote store into a
 local catalogue are indexed under their own index key

---
 src/fdb5/database/ArchiveVisitor.cc     | 2 +-
 src/fdb5/database/BaseArchiveVisitor.cc | 2 ++
 src/fdb5/database/BaseArchiveVisitor.h  | 6 ++++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/database/ArchiveVisitor.cc b/src/fdb5/database/ArchiveVisitor.cc
index 191890d..539b54a 100644
--- a/src/fdb5/database/ArchiveVisitor.cc
+++ b/src/fdb5/database/ArchiveVisitor.cc
@@ -36,7 +36,7 @@ void ArchiveVisitor::callbacks(std::shared_ptr<CatalogueWriter> catalogue, const
 bool ArchiveVisitor::selectDatum(const Key& datumKey, const Key& fullKey) {
 
     checkMissingKeys(fullKey);
-    const Key idxKey = catalogue()->currentIndexKey();
+    const Key idxKey = indexKey();
 
     auto p = std::make_shared<std::promise<std::shared_ptr<const FieldLocation>>>();
 
diff --git a/src/fdb5/database/BaseArchiveVisitor.cc b/src/fdb5/database/BaseArchiveVisitor.cc
index 9d45304..8a333a6 100644
--- a/src/fdb5/database/BaseArchiveVisitor.cc
+++ b/src/fdb5/database/BaseArchiveVisitor.cc
@@ -32,10 +32,12 @@ bool BaseArchiveVisitor::selectDatabase(const Key& dbKey, const Key&) {
 }
 
 bool BaseArchiveVisitor::selectIndex(const Key& idxKey) {
+    indexKey_ = idxKey;
     return catalogue()->selectIndex(idxKey);
 }
 
 bool BaseArchiveVisitor::createIndex(const Key& idxKey, size_t datumKeySize) {
+    indexKey_ = idxKey;
     return catalogue()->createIndex(idxKey, datumKeySize);
 }
 
diff --git a/src/fdb5/database/BaseArchiveVisitor.h b/src/fdb5/database/BaseArchiveVisitor.h
index 87b153c..521830f 100644
--- a/src/fdb5/database/BaseArchiveVisitor.h
+++ b/src/fdb5/database/BaseArchiveVisitor.h
@@ -52,12 +52,18 @@ protected:  // methods
 
     const Key& initialFieldKey() const { return initialFieldKey_; }
 
+    /// the index this field belongs to. The current index of the catalogue may be another one by now, if it is
+    /// indexing fields whose locations arrive asynchronously
+    const Key& indexKey() const { return indexKey_; }
+
 private:  // members
 
     Archiver& owner_;
 
     Key initialFieldKey_;
 
+    Key indexKey_;
+
     bool checkMissingKeysOnWrite_;
 };
 
-- 
2.43.0


From 570119a41fa82a5fce8eb03e3b5225bce6ab53d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 40/44] fix: list of a local catalogue whose fields are in
 remote stores

---
 src/fdb5/toc/TocIndex.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocIndex.cc b/src/fdb5/toc/TocIndex.cc
index f30454b..54f9fe0 100644
--- a/src/fdb5/toc/TocIndex.cc
+++ b/src/fdb5/toc/TocIndex.cc
@@ -176,7 +176,11 @@ public:
 
     void visit(const std::string& keyFingerprint, const FieldRef& ref) {
 
-        Field field(TocFieldLocation(uris_, ref), visitor_.indexTimestamp(), ref.details());
+        // the data may be in another type of store
+        const eckit::URI& uri = uris_.get(ref.uriId());
+        std::unique_ptr<FieldLocation> loc(
+            FieldLocationFactory::instance().build(uri.scheme(), uri, ref.offset(), ref.length(), Key()));
+        Field field(std::move(*loc), visitor_.indexTimestamp(), ref.details());
         visitor_.visitDatum(field, keyFingerprint);
     }
 };
-- 
2.43.0


From 360e3c6bac60407368ac10414c17053ad90fb861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 41/44] fix: a wipe does not call stores of which nothing is
 wiped

---
 src/fdb5/database/WipeCoordinator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/WipeCoordinator.cc b/src/fdb5/database/WipeCoordinator.cc
index b679e68..fe7534f 100644
--- a/src/fdb5/database/WipeCoordinator.cc
+++ b/src/fdb5/database/WipeCoordinator.cc
@@ -229,7 +229,8 @@ void WipeCoordinator::doWipeURIs(const CatalogueWipeState& catalogueWipeState,
     // 4. Wipe files known by the stores
     LOG_DEBUG_LIB(LibFdb5) << "WipeCoordinator::wipe - wiping store known URIs" << std::endl;
     for (const auto& [uri, storeState] : storeWipeStates) {
-        if (storeWiped[uri]) {
+        // a store all of whose data is kept takes no part in the wipe
+        if (storeWiped[uri] || storeState->includedDataURIs().empty()) {
             continue;
         }
         const Store& store = storeState->store(config);
@@ -250,7 +251,7 @@ void WipeCoordinator::doWipeURIs(const CatalogueWipeState& catalogueWipeState,
     }
 
     for (const auto& [uri, storeState] : storeWipeStates) {
-        if (storeWiped[uri]) {
+        if (storeWiped[uri] || storeState->includedDataURIs().empty()) {
             continue;
         }
         const Store& store = storeState->store(config);
-- 
2.43.0


From 9e8ed11d000f729c61c1d130713da4cf53528df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 42/44] fix: a wipe which was not carried out does not prevent
 later ones of the same client

---
 src/fdb5/remote/server/CatalogueHandler.cc | 5 ++---
 src/fdb5/remote/server/StoreHandler.cc     | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 4044a7d..5c3664b 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -251,9 +251,8 @@ struct WipeHelper : public BaseHelper<CatalogueWipeState> {
         if (doit_) {
             // Keep a local copy of the catalogue wipe state, awaiting an explicit doWipeURIs command from the client
 
-            // Expect this dbKey not to already be in progress
-            ASSERT(handler.wipesInProgress_.find(dbKey) == handler.wipesInProgress_.end());
-
+            // Replaces the state of a wipe which the client did not carry out, as it was refused or had nothing to wipe
+            handler.wipesInProgress_.erase(dbKey);
             handler.wipesInProgress_.emplace(
                 dbKey, CatalogueHandler::WipeInProgress{unsafeWipeAll_,
                                                         CatalogueReaderFactory::instance().build(dbKey, state.config()),
diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index 2182148..ae6040d 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -488,6 +488,8 @@ void StoreHandler::finaliseWipeState(const uint32_t clientID, const uint32_t req
     // keep state for doWipeURIs
     if (doit) {
         ASSERT(!unsafeAll);  // Until Im explicitly told otherwise, we dont support unsafeAll on remote fdb.
+        // ... replacing the state of a wipe which the client did not carry out
+        wipesInProgress_.erase(dbkey);
         wipesInProgress_.emplace(dbkey, WipeInProgress{unsafeAll, std::move(storeState)});
     }
 }
-- 
2.43.0


From 7e39f8ff03a41d180708a09eb7af6489264bc8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 43/44] fix: a wipe of all the fields a database with overlays
 has of its own failed removing its directory

---
 src/fdb5/toc/TocStore.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 946e010..90c076a 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -484,7 +484,12 @@ void TocStore::doWipeEmptyDatabase() const {
         eckit::URI uri = this->uri();
 
         if (uri.path().exists()) {
-            remove(uri, eckit::Log::info(), eckit::Log::info(), true);
+            // n.b. the catalogue may be in the same directory and keep indexes that have no data here (as of an overlay)
+            std::vector<eckit::PathName> kept;
+            StdDir(basePath()).children(kept);
+            if (kept.empty()) {
+                remove(uri, eckit::Log::info(), eckit::Log::info(), true);
+            }
         }
         cleanupEmptyDatabase_ = false;
     }
-- 
2.43.0


From d52ac04a143509b1d290c374a3244b03ec69c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 44/44] fix: control, purge and move compare the canonical form
 of the request with the database

A request saying time=12 selected the database in a listing or a wipe, but
fdb.control did nothing with it and a purge refused it as over-specified.
---
 src/fdb5/api/local/ControlVisitor.cc | 2 +-
 src/fdb5/api/local/MoveVisitor.cc    | 2 +-
 src/fdb5/api/local/PurgeVisitor.cc   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/api/local/ControlVisitor.cc b/src/fdb5/api/local/ControlVisitor.cc
index ee817a0..ea1cd27 100644
--- a/src/fdb5/api/local/ControlVisitor.cc
+++ b/src/fdb5/api/local/ControlVisitor.cc
@@ -29,7 +29,7 @@ bool ControlVisitor::visitDatabase(const Catalogue& catalogue) {
 
     // Only lock/unlock things that match exactly.
 
-    if (catalogue.key().match(request_)) {
+    if (catalogue.key().match(canonicalise(catalogue.rule()))) {
         catalogue.control(action_, identifiers_);
         queue_.emplace(catalogue);
     }
diff --git a/src/fdb5/api/local/MoveVisitor.cc b/src/fdb5/api/local/MoveVisitor.cc
index 12f1d42..b746e5d 100644
--- a/src/fdb5/api/local/MoveVisitor.cc
+++ b/src/fdb5/api/local/MoveVisitor.cc
@@ -40,7 +40,7 @@ MoveVisitor::MoveVisitor(eckit::Queue<MoveElement>& queue, const metkit::mars::M
     QueryVisitor<MoveElement>(queue, request), dest_(dest) {}
 
 bool MoveVisitor::visitDatabase(const Catalogue& catalogue) {
-    if (catalogue.key().match(request_)) {
+    if (catalogue.key().match(canonicalise(catalogue.rule()))) {
         catalogue.control(ControlAction::Disable,
                           ControlIdentifier::Archive | ControlIdentifier::Wipe | ControlIdentifier::UniqueRoot);
 
diff --git a/src/fdb5/api/local/PurgeVisitor.cc b/src/fdb5/api/local/PurgeVisitor.cc
index fa9ef27..1e49914 100644
--- a/src/fdb5/api/local/PurgeVisitor.cc
+++ b/src/fdb5/api/local/PurgeVisitor.cc
@@ -49,7 +49,7 @@ bool PurgeVisitor::visitDatabase(const Catalogue& catalogue) {
     // If the request is overspecified relative to the DB key, then we
     // bail out here.
 
-    if (!catalogue.key().match(request_)) {
+    if (!catalogue.key().match(canonicalise(catalogue.rule()))) {
         std::ostringstream ss;
         ss << "Purging not supported for over-specified requests. "
            << "db=" << catalogue.key() << ", request=" << request_;
-- 
2.43.0

