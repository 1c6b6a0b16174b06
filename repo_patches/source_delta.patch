From 0fdb5de59464836c439876b888c0ade4cc2308ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:13 +0000
Subject: [PATCH 001/102] fix: zero-padding of the attachment-directory segment
 must start behind its entries

---
 Src/libCZI/CziWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e957ccf..3f2d5ec 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -771,7 +771,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 
     if (totalBytesWritten < attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader))
     {
-        bytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + bytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - bytesWritten);
+        CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + totalBytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
     return make_tuple(attchmDirPos, static_cast<std::uint64_t>(attchmntDirSegmentHeaderAllocatedSize));
-- 
2.43.0


From 81b0e424ed5c260e43ff41104296b50b1998d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:12 +0000
Subject: [PATCH 002/102] fix: reader-writer must not store the line padding of
 a strided bitmap

---
 Src/libCZI/CziWriter.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziWriter.h b/Src/libCZI/CziWriter.h
index 3b03cfe..18ead33 100644
--- a/Src/libCZI/CziWriter.h
+++ b/Src/libCZI/CziWriter.h
@@ -107,15 +107,16 @@ namespace libCZI
             {
                 libCZI::AddSubBlockInfo addSbInfo(addSbBlkInfoStrideBitmap);
 
-                addSbInfo.sizeData = static_cast<size_t>(addSbBlkInfoStrideBitmap.physicalHeight) * addSbBlkInfoStrideBitmap.strideBitmap;
+                const size_t lineSize = addSbBlkInfoStrideBitmap.physicalWidth * static_cast<size_t>(CziUtils::GetBytesPerPel(addSbBlkInfoStrideBitmap.PixelType));
+                addSbInfo.sizeData = addSbBlkInfoStrideBitmap.physicalHeight * lineSize;
                 addSbInfo.getData = [&](int callCnt, size_t offset, const void*& ptr, size_t& size)->bool
                     {
                         (void)offset;
 
                         if (callCnt < addSbBlkInfoStrideBitmap.physicalHeight)
                         {
-                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * addSbBlkInfoStrideBitmap.strideBitmap;
-                            size = addSbBlkInfoStrideBitmap.strideBitmap;
+                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * static_cast<size_t>(addSbBlkInfoStrideBitmap.strideBitmap);
+                            size = lineSize;
                             return true;
                         }
 
-- 
2.43.0


From 41bfd1ef33cecdca45dcb9a18ae78e8a2acf2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:02 +0000
Subject: [PATCH 003/102] fix: an attachment which was replaced at the end of
 the file must not be overwritten by the next segment

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 1479722..19a38a8 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -849,7 +849,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     if (get<0>(allocatedSizeAndNewAttchmntEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry));
     }
 }
 
@@ -892,7 +892,7 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
     memcpy(entry.ContentFileType, addAttchmntInfo.contentFileType, sizeof(entry.ContentFileType));
     memcpy(entry.Name, addAttchmntInfo.name, sizeof(entry.Name));
 
-    return make_tuple(false, sizeOfSbBlk, entry);
+    return make_tuple(true, sizeOfSbBlk, entry);
 }
 
 std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> CCziReaderWriter::ReplaceAttachmentInplace(const libCZI::AddAttachmentInfo& addAttchmntInfo, const CCziAttachmentsDirectoryBase::AttachmentEntry& attchmntInfo, std::uint64_t existingSegmentAllocatedSize)
-- 
2.43.0


From e3cd1c251c2dbeaaa3b7b23b8e09bc82cdfbdad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:02 +0000
Subject: [PATCH 004/102] fix: no gap in the segment chain after a sub-block
 replaced at the end of the file

---
 Src/libCZI/CziReaderWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 19a38a8..22c879f 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -177,7 +177,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     if (get<0>(allocatedSizeAndNewSbEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry));
     }
 }
 
-- 
2.43.0


From a1ebe4c966ddd2646b9588c128e750a8e2444eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:02 +0000
Subject: [PATCH 005/102] fix: directory segments appended by the reader-writer
 must not overlap

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 22c879f..8023811 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -285,7 +285,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == sbBlkDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the subblock-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
@@ -323,7 +323,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == attchmntDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the attachment-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
-- 
2.43.0


From 9d14d4fc6ebd844554e6fe46495c537ae7f3b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:02 +0000
Subject: [PATCH 006/102] fix: clear the pyramid statistics before they are
 re-created

---
 Src/libCZI/CziSubBlockDirectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 782684b..fd3599c 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -40,6 +40,7 @@ void CSbBlkStatisticsUpdater::Clear()
 {
     this->statistics.Invalidate();
     this->statistics.subBlockCount = 0;
+    this->pyramidStatistics.scenePyramidStatistics.clear();
     this->pyramidStatisticsDirty = false;
 }
 
-- 
2.43.0


From dbb16953444e2ef0b3894739eb241d03209f1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:02 +0000
Subject: [PATCH 007/102] fix: consolidating the pyramid statistics must reset
 the dirty-flag

---
 Src/libCZI/CziSubBlockDirectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index fd3599c..89a0df8 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -169,7 +169,7 @@ void CSbBlkStatisticsUpdater::Consolidate()
     if (this->pyramidStatisticsDirty)
     {
         this->SortPyramidStatistics();
-        this->pyramidStatisticsDirty = true;
+        this->pyramidStatisticsDirty = false;
     }
 }
 
-- 
2.43.0


From 40d4113d3fdaa5d8f2e6ab54cd5914d5339b0fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:02 +0000
Subject: [PATCH 008/102] fix: M-index statistics must include sub-blocks
 without any dimension

---
 Src/libCZI/CziSubBlockDirectory.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 89a0df8..c85707a 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -82,22 +82,22 @@ void CSbBlkStatisticsUpdater::UpdateStatistics(const CCziSubBlockDirectoryBase::
                 }
             }
 
-            if (entry.IsMIndexValid())
-            {
-                if (entry.mIndex < this->statistics.minMindex)
-                {
-                    this->statistics.minMindex = entry.mIndex;
-                }
-
-                if (entry.mIndex > this->statistics.maxMindex)
-                {
-                    this->statistics.maxMindex = entry.mIndex;
-                }
-            }
-
             return true;
         });
 
+    if (entry.IsMIndexValid())
+    {
+        if (entry.mIndex < this->statistics.minMindex)
+        {
+            this->statistics.minMindex = entry.mIndex;
+        }
+
+        if (entry.mIndex > this->statistics.maxMindex)
+        {
+            this->statistics.maxMindex = entry.mIndex;
+        }
+    }
+
     // now deal with "enclosing Rect" for the scenes...
     int sceneIndex;
     if (entry.coordinate.TryGetPosition(libCZI::DimensionIndex::S, &sceneIndex))
-- 
2.43.0


From d8746e559d150295ccd8db79117f177d894aaa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:26 +0000
Subject: [PATCH 009/102] fix: fixed-size strings of an attachment entry need
 not be zero-terminated

---
 Src/libCZI/CZIReader.cpp             |  6 +++---
 Src/libCZI/CziAttachmentsDirectory.h | 10 ++++++++++
 Src/libCZI/CziParse.cpp              |  1 -
 Src/libCZI/CziReaderCommon.cpp       |  6 +++---
 Src/libCZI/CziReaderWriter.cpp       |  9 +++++----
 5 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 8993289..2b6a61a 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -274,7 +274,7 @@ CCZIReader::CCZIReader() :
         static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
         memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
         info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        info->name = entry.GetName();
     }
 
     return true;
@@ -290,7 +290,7 @@ CCZIReader::CCZIReader() :
         {
             ai.contentGuid = ae.ContentGuid;
             memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-            ai.name = ae.Name;
+            ai.name = ae.GetName();
             bool b = funcEnum(index, ai);
             return b;
         });
@@ -419,7 +419,7 @@ std::shared_ptr<libCZI::IAttachment> CCZIReader::ReadAttachment(const CCziAttach
     static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
     memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
     attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    attchmentInfo.name = entry.GetName();
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index 886255a..b569e0f 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -4,7 +4,9 @@
 
 #pragma once
 #include "libCZI_Utilities.h"
+#include <algorithm>
 #include <functional>
+#include <string>
 #include <vector>
 #include <set>
 #include <map>
@@ -23,6 +25,14 @@ namespace libCZI
                 libCZI::GUID ContentGuid;
                 char ContentFileType[8];
                 char Name[80];
+
+                /// Gets the content-file-type as a string (note that the fixed-size field is not necessarily zero-terminated).
+                std::string GetContentFileType() const { return FixedSizeToString(this->ContentFileType, sizeof(this->ContentFileType)); }
+
+                /// Gets the name as a string (note that the fixed-size field is not necessarily zero-terminated).
+                std::string GetName() const { return FixedSizeToString(this->Name, sizeof(this->Name)); }
+            private:
+                static std::string FixedSizeToString(const char* sz, size_t maxLength) { return std::string(sz, std::find(sz, sz + maxLength, '\0')); }
             };
 
             struct AttachmentEntryEx : AttachmentEntry
diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 76fa3e5..82b9c61 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -243,7 +243,6 @@ using namespace libCZI::detail;
             ae.ContentGuid = pSrc->ContentGuid;
             memcpy(&ae.ContentFileType[0], &pSrc->ContentFileType[0], sizeof(AttachmentEntryA1::ContentFileType));
             memcpy(&ae.Name[0], &pSrc->Name[0], sizeof(AttachmentEntryA1::Name));
-            ae.Name[sizeof(AttachmentEntryA1::Name) - 1] = '\0';
             addFunc(ae);
         }
     }
diff --git a/Src/libCZI/CziReaderCommon.cpp b/Src/libCZI/CziReaderCommon.cpp
index 77c4983..f3c49ef 100644
--- a/Src/libCZI/CziReaderCommon.cpp
+++ b/Src/libCZI/CziReaderCommon.cpp
@@ -93,13 +93,13 @@ using namespace libCZI::detail;
     func(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& ae)
         {
-            if (contentFileType == nullptr || strcmp(contentFileType, ae.ContentFileType) == 0)
+            if (contentFileType == nullptr || ae.GetContentFileType() == contentFileType)
             {
-                if (name == nullptr || strcmp(name, ae.Name) == 0)
+                if (name == nullptr || ae.GetName() == name)
                 {
                     ai.contentGuid = ae.ContentGuid;
                     memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-                    ai.name = ae.Name;
+                    ai.name = ae.GetName();
                     bool b = funcEnum(index, ai);
                     return b;
                 }
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 8023811..95b6f14 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -789,9 +789,9 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     {
         info->contentGuid = entry.ContentGuid;
         static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(info->contentFileType));
+        memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
         info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        info->name = entry.GetName();
     }
 
     return true;
@@ -806,7 +806,8 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
             libCZI::AttachmentInfo info;
             info.contentGuid = entry.ContentGuid;
             memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-            info.name = entry.Name;
+            info.contentFileType[sizeof(entry.ContentFileType)] = '\0';
+            info.name = entry.GetName();
             bool b = funcEnum(index, info);
             return b;
         });
@@ -939,7 +940,7 @@ std::shared_ptr<libCZI::IAttachment> CCziReaderWriter::ReadAttachment(const CCzi
     static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
     memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
     attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    attchmentInfo.name = entry.GetName();
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
-- 
2.43.0


From 33b5f6ed08a6ad1cd9778cbba96d84b503d98e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:07 +0000
Subject: [PATCH 010/102] fix: writer must not keep a directory entry for an
 item whose writing failed

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 11 ++++++++---
 Src/libCZI/CziAttachmentsDirectory.h   |  3 +++
 Src/libCZI/CziSubBlockDirectory.cpp    |  5 +++++
 Src/libCZI/CziSubBlockDirectory.h      |  3 +++
 Src/libCZI/CziWriter.cpp               | 10 ++++++----
 5 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 68bf85a..779b161 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -68,12 +68,17 @@ bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entr
 
 //-----------------------------------------------------------------------------
 
-bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry)
+bool CWriterCziAttachmentsDirectory::CanAddAttachment(const AttachmentEntry& entry) const
 {
-    if (std::find_if(
+    return std::find_if(
         this->attachments_.cbegin(),
         this->attachments_.cend(),
-        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) != this->attachments_.cend())
+        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) == this->attachments_.cend();
+}
+
+bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry)
+{
+    if (!this->CanAddAttachment(entry))
     {
         return false;
     }
diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index b569e0f..c3dc19c 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -71,6 +71,9 @@ namespace libCZI
         {
         public:
             bool TryAddAttachment(const AttachmentEntry& entry);
+
+            /// Query whether the specified entry could be added, i.e. whether it is not regarded as a duplicate.
+            bool CanAddAttachment(const AttachmentEntry& entry) const;
             int GetAttachmentCount() const;
             bool EnumEntries(const std::function<bool(int index, const AttachmentEntry&)>& func) const;
         private:
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index c85707a..6501fab 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -463,6 +463,11 @@ bool CWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry)
     return insert.second;
 }
 
+bool CWriterCziSubBlockDirectory::CanAddSubBlock(const SubBlkEntry& entry) const
+{
+    return this->subBlks.find(entry) == this->subBlks.cend();
+}
+
 bool CWriterCziSubBlockDirectory::SubBlkEntryCompare::operator()(const SubBlkEntry& a, const SubBlkEntry& b) const
 {
     // returns true if the first argument goes before the second argument in the strict weak ordering it defines, 
diff --git a/Src/libCZI/CziSubBlockDirectory.h b/Src/libCZI/CziSubBlockDirectory.h
index ca653b2..46ed594 100644
--- a/Src/libCZI/CziSubBlockDirectory.h
+++ b/Src/libCZI/CziSubBlockDirectory.h
@@ -146,6 +146,9 @@ namespace libCZI
             CWriterCziSubBlockDirectory(bool allow_duplicate_subblocks);
             bool TryAddSubBlock(const SubBlkEntry& entry);
 
+            /// Query whether the specified entry could be added, i.e. whether it is not regarded as a duplicate.
+            bool CanAddSubBlock(const SubBlkEntry& entry) const;
+
             bool EnumEntries(const std::function<bool(size_t index, const SubBlkEntry&)>& func) const;
 
             const libCZI::SubBlockStatistics& GetStatistics() const;
diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 3f2d5ec..e545131 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -966,13 +966,14 @@ CCziWriter::~CCziWriter()
 
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry);
-    if (b == false)
+    if (!this->sbBlkDirectory.CanAddSubBlock(entry))
     {
         throw LibCZIWriteException("Could not add subblock because it already exists", LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting);
     }
 
+    // the entry is only added to the directory if the subblock was successfully written
     this->WriteSubBlock(addSbBlkInfo);
+    this->sbBlkDirectory.TryAddSubBlock(entry);
 }
 
 /*virtual*/void CCziWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -984,13 +985,14 @@ CCziWriter::~CCziWriter()
 
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->attachmentDirectory.TryAddAttachment(entry);
-    if (b == false)
+    if (!this->attachmentDirectory.CanAddAttachment(entry))
     {
         throw LibCZIWriteException("Could not add attachment because it already exists", LibCZIWriteException::ErrorType::AddAttachmentAlreadyExisting);
     }
 
+    // the entry is only added to the directory if the attachment was successfully written
     this->WriteAttachment(addAttachmentInfo);
+    this->attachmentDirectory.TryAddAttachment(entry);
 }
 
 /*virtual*/void CCziWriter::SyncWriteMetadata(const libCZI::WriteMetadataInfo& metadataInfo)
-- 
2.43.0


From d52a5401bfde0517f641b704996e93ef33397dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:07 +0000
Subject: [PATCH 011/102] fix: reader-writer must not keep a directory entry
 for an item whose writing failed

---
 Src/libCZI/CziReaderWriter.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 95b6f14..46f5e7a 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -122,7 +122,8 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry, nullptr);
+    int key;
+    bool b = this->sbBlkDirectory.TryAddSubBlock(entry, &key);
     if (b == false)
     {
         throw LibCZIReaderWriteException("Could not add subblock because it already exists", LibCZIReaderWriteException::ErrorType::AddCoordinateAlreadyExisting);
@@ -133,8 +134,17 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     wi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     wi.useSpecifiedAllocatedSize = false;
 
-    const auto sizeOfSbBlk = CWriterUtils::WriteSubBlock(wi, addSbBlkInfo);
-    this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfSbBlk);
+    try
+    {
+        const auto sizeOfSbBlk = CWriterUtils::WriteSubBlock(wi, addSbBlkInfo);
+        this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfSbBlk);
+    }
+    catch (...)
+    {
+        // the subblock was not written, so there must not be an entry for it
+        this->sbBlkDirectory.TryRemoveSubBlock(key, nullptr);
+        throw;
+    }
 }
 
 /*virtual*/void CCziReaderWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -147,7 +157,8 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->attachmentDirectory.TryAddAttachment(entry, nullptr);
+    int key;
+    bool b = this->attachmentDirectory.TryAddAttachment(entry, &key);
     if (b == false)
     {
         throw LibCZIReaderWriteException("Could not add attachment because it already exists", LibCZIReaderWriteException::ErrorType::AddAttachmentAlreadyExisting);
@@ -158,8 +169,17 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     wi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     wi.useSpecifiedAllocatedSize = false;
 
-    auto sizeOfAttchmnt = CWriterUtils::WriteAttachment(wi, addAttachmentInfo);
-    this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfAttchmnt);
+    try
+    {
+        auto sizeOfAttchmnt = CWriterUtils::WriteAttachment(wi, addAttachmentInfo);
+        this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfAttchmnt);
+    }
+    catch (...)
+    {
+        // the attachment was not written, so there must not be an entry for it
+        this->attachmentDirectory.TryRemoveAttachment(key, nullptr);
+        throw;
+    }
 }
 
 /*virtual*/void CCziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfo& addSbBlkInfo)
-- 
2.43.0


From 728f8d564c31a54c9f1e46fd13c09c6fcbcedae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:07 +0000
Subject: [PATCH 012/102] fix: a file created with the reader-writer always
 needs a sub-block directory

---
 Src/libCZI/CziReaderWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 46f5e7a..a73921a 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -272,6 +272,12 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 
 void CCziReaderWriter::Finish()
 {
+    if (!this->subBlockDirectorySegment.IsValid())
+    {
+        // a CZI must have a subblock-directory, even if it is empty
+        this->sbBlkDirectory.SetModified(true);
+    }
+
     if (this->sbBlkDirectory.IsModified())
     {
         this->EnsureNextSegmentInfo();
-- 
2.43.0


From f4e9a0874106f77925f64ac32a53cdf7d19142dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:17 +0000
Subject: [PATCH 013/102] fix: write the requested number of zeroes if more
 than 4096 are needed

---
 Src/libCZI/CziWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e545131..0d81421 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -470,12 +470,12 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 {
     size_t totalBytesWritten = 0;
     std::uint8_t zeroes[4096] = { 0 };
-    for (std::uint64_t i = 0; i < (count + sizeof(zeroes) - 1) / sizeof(zeroes); ++i)
+    for (std::uint64_t i = 0; count > 0; ++i)
     {
         uint64_t bytesWritten;
         const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count);
         writeFunc(filePos + i * sizeof(zeroes), zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
-        count -= sizeof(zeroes);
+        count -= bytesToWrite;
         totalBytesWritten += (size_t)bytesWritten;
     }
 
-- 
2.43.0


From 81978787e297966bbf5a132b90b5b1da922477dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:36 +0000
Subject: [PATCH 014/102] fix: reader reports absence (instead of throwing
 std::out_of_range) for a negative index

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 2 +-
 Src/libCZI/CziSubBlockDirectory.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 779b161..c483b0a 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -57,7 +57,7 @@ void CCziAttachmentsDirectory::EnumAttachments(const std::function<bool(int inde
 
 bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entry) const
 {
-    if (index < (int)this->attachmentEntries.size())
+    if (index >= 0 && index < (int)this->attachmentEntries.size())
     {
         entry = this->attachmentEntries.at(index);
         return true;
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 6501fab..8d3c5c9 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -416,7 +416,7 @@ void CCziSubBlockDirectory::EnumSubBlocks(const std::function<bool(int index, co
 
 bool CCziSubBlockDirectory::TryGetSubBlock(int index, SubBlkEntry& entry) const
 {
-    if (index < (int)this->subBlks.size())
+    if (index >= 0 && index < (int)this->subBlks.size())
     {
         entry = this->subBlks.at(index);
         return true;
-- 
2.43.0


From beba18f63810c65e4e6f2578e059449e9bb122d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 015/102] fix: decode hi-lo-byte-packed Bgr48 data completely
 (a unit is a 16-bit word, not a pixel)

---
 Src/libCZI/decoder_zstd.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 5aeef82..e856c2b 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -280,6 +280,7 @@ namespace
         size_t expectedSize = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
+        // Note: the unit for the hi-lo-byte-packing is a 16-bit word, so we have to divide by 2 (irrespective of the number of channels) in what follows.
         if (zstd_frame_content_size == expectedSize)
         {
             unique_ptr<void, decltype(&free)> temporary_buffer(malloc(zstd_frame_content_size), free);
@@ -292,7 +293,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / bytes_per_pel, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / 2, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
             return bitmap;
         }
         else if (zstd_frame_content_size < expectedSize)
@@ -307,7 +308,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
             memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
             return bitmap;
         }
@@ -331,7 +332,7 @@ namespace
                 throw runtime_error("Failed to allocate temporary buffer for Zstd-decompression.");
             }
 
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
 
             // now we can release the first temporary buffer
             temporary_buffer.reset();
-- 
2.43.0


From bd2faaa79b2f41be7222bac9d53bbdbffb2786d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 016/102] fix: zero-fill the odd byte of undersized
 hi-lo-byte-packed data

---
 Src/libCZI/decoder_zstd.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index e856c2b..0002806 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -309,7 +309,9 @@ namespace
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
             LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
-            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
+            // only complete 16-bit words have been written (so, if the size is odd, the last byte is to be cleared as well)
+            const size_t packed_size = (decompressed_size / 2) * 2;
+            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + packed_size, 0, expectedSize - packed_size);
             return bitmap;
         }
         else
-- 
2.43.0


From b4b79a6794fc54ea7095a2fbdead00b02c46d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 017/102] fix: do not read beyond the data when parsing a
 zstd1-header

---
 Src/libCZI/decoder_zstd.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 0002806..7d7e8a1 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -375,13 +375,10 @@ namespace
             return retVal;
         }
 
-        if (*ptrData == 3)
+        // in this case... the size must be at least 3 
+        if (size < 3)
         {
-            // in this case... the size must be at least 3 
-            if (size < 3)
-            {
-                return retVal;
-            }
+            return retVal;
         }
 
         // is "chunk type 1" next?
-- 
2.43.0


From 049e8539b216c6cbd0ff8efb6d2a5505fecba28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 018/102] fix: refuse bitmaps with a line-size exceeding 32
 bits instead of truncating the stride

---
 Src/libCZI/CreateBitmap.cpp |  9 ++++++++-
 Src/libCZI/bitmapData.h     | 13 ++++++++++---
 Src/libCZI/decoder_zstd.cpp | 26 +++++++++++++++++++++-----
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 26a8e67..8403fc8 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <limits>
 #include "bitmapData.h"
 #include "Site.h"
 #include "libCZI.h"
@@ -104,7 +105,13 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_Uncompresse
     const auto& sub_block_info = subBlk->GetSubBlockInfo();
 
     // The stride with an uncompressed bitmap in CZI is exactly the line-size.
-    const std::uint32_t stride = sub_block_info.physicalSize.w * CziUtils::GetBytesPerPel(sub_block_info.pixelType);
+    const std::uint64_t line_size = sub_block_info.physicalSize.w * static_cast<std::uint64_t>(CziUtils::GetBytesPerPel(sub_block_info.pixelType));
+    if (line_size > (std::numeric_limits<std::uint32_t>::max)())
+    {
+        throw std::logic_error("the size of a line exceeds the limit for a bitmap");
+    }
+
+    const std::uint32_t stride = static_cast<std::uint32_t>(line_size);
     const size_t expected_size = static_cast<size_t>(stride) * sub_block_info.physicalSize.h;
 
     size_t size;
diff --git a/Src/libCZI/bitmapData.h b/Src/libCZI/bitmapData.h
index aec0c3f..de72e71 100644
--- a/Src/libCZI/bitmapData.h
+++ b/Src/libCZI/bitmapData.h
@@ -6,6 +6,8 @@
 
 #include <memory>
 #include <atomic>
+#include <limits>
+#include <stdexcept>
 #include "libCZI_Pixels.h"
 #include "CziUtils.h"
 #include "stdAllocator.h"
@@ -121,11 +123,16 @@ namespace libCZI
             }
 
         private:
-            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, int width)
+            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, std::uint32_t width)
             {
-                auto stride = CziUtils::GetBytesPerPel(pixeltype) * width;
+                std::uint64_t stride = CziUtils::GetBytesPerPel(pixeltype) * static_cast<std::uint64_t>(width);
                 stride = ((stride + 3) / 4) * 4;
-                return stride;
+                if (stride > (std::numeric_limits<std::uint32_t>::max)())
+                {
+                    throw std::invalid_argument("The width of the bitmap is too large.");
+                }
+
+                return static_cast<std::uint32_t>(stride);
             }
 
             static void ThrowIfPointerIsNull(const void* ptr, uint64_t size)
diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 7d7e8a1..2586d8a 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -13,6 +13,7 @@
 #include "libCZI_Utilities.h"
 #include "utilities.h"
 #include <cstring>
+#include <limits>
 
 using namespace std;
 using namespace libCZI;
@@ -95,6 +96,22 @@ namespace
         return zstd_frame_content_size;
     }
 
+    /// Calculates the size of a line (in bytes) of a bitmap with minimal stride.
+    ///
+    /// \exception  runtime_error   Raised if the line is too large for being represented as a bitmap.
+    size_t CalculateStrideOrThrow(libCZI::PixelType pixel_type, uint32_t width)
+    {
+        const uint64_t stride = width * static_cast<uint64_t>(Utils::GetBytesPerPixel(pixel_type));
+        if (stride > (numeric_limits<uint32_t>::max)())
+        {
+            ostringstream ss;
+            ss << "The size of a line (" << stride << " bytes) exceeds the limit for a bitmap.";
+            throw runtime_error(ss.str());
+        }
+
+        return static_cast<size_t>(stride);
+    }
+
     size_t DecompressAndThrowIfError(const void* ptr_compressed_data, size_t size_compressed_data, void* ptr_destination, size_t size_destination, size_t expected_decompressed_size)
     {
         const size_t decompressed_size = ZSTD_decompress(ptr_destination, size_destination, ptr_compressed_data, size_compressed_data);
@@ -130,7 +147,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeRequireCorrectSize(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        const size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        const size_t stride = CalculateStrideOrThrow(pixel_type, width);
         const size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
         if (zstd_frame_content_size != expected_size)
@@ -165,7 +182,7 @@ namespace
     {
         // calculate the expected size of the uncompressed data
         const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
-        size_t stride = width * static_cast<size_t>(bytes_per_pel);
+        size_t stride = CalculateStrideOrThrow(pixel_type, width);
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
         if (zstd_frame_content_size != expected_size)
@@ -209,7 +226,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        size_t stride = CalculateStrideOrThrow(pixel_type, width);
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
@@ -275,8 +292,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHiLoBytePackAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
-        size_t stride = width * static_cast<size_t>(bytes_per_pel);
+        size_t stride = CalculateStrideOrThrow(pixel_type, width);
         size_t expectedSize = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
-- 
2.43.0


From 61af5d554b1f9dc4f7a9c90748309ea236d76016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 019/102] fix: unlock the bitmaps if adjusting a mismatching
 JPGXR-bitmap throws

---
 Src/libCZI/CreateBitmap.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 8403fc8..2886ef7 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -44,8 +44,8 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             // create a bitmap of the size described in the subblock
             auto adjusted_bitmap = CStdBitmapData::Create(sub_block_info.pixelType, sub_block_info.physicalSize.w, sub_block_info.physicalSize.h);
             CBitmapOperations::Fill(adjusted_bitmap.get(), RgbFloatColor{ 0,0,0 });
-            auto adjusted_bitmap_lock = adjusted_bitmap->Lock();
-            auto decoded_bitmap_lock = decoded_bitmap->Lock();
+            const ScopedBitmapLockerSP adjusted_bitmap_lock(adjusted_bitmap);
+            const ScopedBitmapLockerSP decoded_bitmap_lock(decoded_bitmap);
             CBitmapOperations::CopyWithOffsetInfo copy_info;
             copy_info.xOffset = 0;
             copy_info.yOffset = 0;
@@ -61,8 +61,6 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             copy_info.dstHeight = adjusted_bitmap->GetHeight();
             copy_info.drawTileBorder = false;
             CBitmapOperations::CopyWithOffset(copy_info);
-            adjusted_bitmap->Unlock();
-            decoded_bitmap->Unlock();
             return adjusted_bitmap;
         }
     }
-- 
2.43.0


From 824a586bdae064584d514ece86b9808f78f05d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:02 +0000
Subject: [PATCH 020/102] fix: conversion Bgr24 to Bgr48 must read 8-bit
 components

---
 Src/libCZI/BitmapOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 2d41edb..608a3f4 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -94,7 +94,7 @@ namespace libCZI
         {
             void ConvertPixel(void* ptrDest, const void* ptrSrc) const
             {
-                const std::uint16_t* src = (const std::uint16_t*)ptrSrc;
+                const std::uint8_t* src = (const std::uint8_t*)ptrSrc;
                 std::uint16_t* dst = (std::uint16_t*)ptrDest;
                 *dst = *src;
                 *(dst + 1) = *(src + 1);
-- 
2.43.0


From 60f6f2a28f2f2ccf6ca8b40fdd9237ac3511a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:02 +0000
Subject: [PATCH 021/102] fix: drawing a tile border must not shift the tile
 (or copy a negative number of bytes for a width of one pixel)

---
 Src/libCZI/BitmapOperations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 608a3f4..53ec555 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -40,7 +40,11 @@ namespace libCZI
                 {
                     char* dest = static_cast<char*>(dstPtr) + y * static_cast<std::ptrdiff_t>(dstStride);
                     const char* src = static_cast<const char*>(srcPtr) + y * static_cast<std::ptrdiff_t>(srcStride);
-                    memcpy(dest + kBytesPerPel, src, bytes_to_copy - 2 * kBytesPerPel);
+                    if (width > 2)
+                    {
+                        memcpy(dest + kBytesPerPel, src + kBytesPerPel, bytes_to_copy - 2 * kBytesPerPel);
+                    }
+
                     memset(dest, 0, kBytesPerPel);
                     memset(dest + bytes_to_copy - kBytesPerPel, 0, kBytesPerPel);
                 }
-- 
2.43.0


From ac003c378eccf8c347d55f6021145aa32f19cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:02 +0000
Subject: [PATCH 022/102] fix: mask-aware copy with pixel type conversion must
 advance pixel by pixel

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5832c35..5624313 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -713,10 +713,10 @@ namespace
                 {
                     conv.ConvertPixel(dest, src);
                 }
-            }
 
-            dest += CziUtils::BytesPerPel<tDstPixelType>();;
-            src += CziUtils::BytesPerPel<tSrcPixelType>();;
+                dest += CziUtils::BytesPerPel<tDstPixelType>();
+                src += CziUtils::BytesPerPel<tSrcPixelType>();
+            }
         }
     }
 
-- 
2.43.0


From b0d424c94154141dd28a0f4821f1aec7282c1f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:02 +0000
Subject: [PATCH 023/102] fix: visibility-check optimization must not drop
 tiles visible through a mask

---
 Src/libCZI/SingleChannelScalingTileAccessor.cpp | 3 ++-
 Src/libCZI/SingleChannelTileAccessor.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index e12854d..b93c9c3 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -368,7 +368,8 @@ void CSingleChannelScalingTileAccessor::Paint(libCZI::IBitmapData* bmDest, const
         }
     }
 
-    if (!options.useVisibilityCheckOptimization)
+    // with masks, a tile does not necessarily hide what is below it, so the visibility check cannot be used then
+    if (!options.useVisibilityCheckOptimization || options.maskAware)
     {
         for (auto it = start_iterator; it != end_iterator; ++it)
         {
diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 543ca57..53cc236 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -51,7 +51,8 @@ void CSingleChannelTileAccessor::ComposeTiles(libCZI::IBitmapData* pBm, int xPos
     composeOptions.Clear();
     composeOptions.drawTileBorder = options.drawTileBorder;
 
-    if (options.useVisibilityCheckOptimization)
+    // with masks, a tile does not necessarily hide what is below it, so the visibility check cannot be used then
+    if (options.useVisibilityCheckOptimization && !options.maskAware)
     {
         // Try to reduce the number of subblocks to be rendered by doing a visibility check, and only rendering those which are visible.
         // We report the subblocks in the order as they are given in the vector 'subBlocksSet', the lambda will be called with the
-- 
2.43.0


From a46cc07a3abc25437f671ac2aaf02562a87c18a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:02 +0000
Subject: [PATCH 024/102] fix: mask from the sub-block cache must be used if
 and only if the operation is mask-aware

---
 Src/libCZI/SingleChannelAccessorBase.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/SingleChannelAccessorBase.cpp b/Src/libCZI/SingleChannelAccessorBase.cpp
index 286b50f..bb01ae1 100644
--- a/Src/libCZI/SingleChannelAccessorBase.cpp
+++ b/Src/libCZI/SingleChannelAccessorBase.cpp
@@ -175,17 +175,21 @@ std::vector<int> CSingleChannelAccessorBase::CheckForVisibility(const libCZI::In
             }
 
             result.bitmap = bitmap_from_cache.bitmap;
-            result.mask = bitmap_from_cache.mask;
+            result.mask = mask_aware_mode ? bitmap_from_cache.mask : nullptr;
         }
         else
         {
             const auto subblock = sub_block_repository->ReadSubBlock(sub_block_index);
             result.bitmap = subblock->CreateBitmap();
-            result.mask = mask_aware_mode ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
             result.subBlockInfo = subblock->GetSubBlockInfo();
-            if (!only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed)
+            const bool add_to_cache = !only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed;
+
+            // an item in the cache must be complete (i.e. include the mask), because it may be used by a mask-aware operation later on
+            const auto mask = (mask_aware_mode || add_to_cache) ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
+            result.mask = mask_aware_mode ? mask : nullptr;
+            if (add_to_cache)
             {
-                cache->Add(sub_block_index, { result.bitmap, result.mask });
+                cache->Add(sub_block_index, { result.bitmap, mask });
             }
         }
     }
-- 
2.43.0


From c2e63ea2f9d0ab680cfb434a9ece76e656b2c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:02 +0000
Subject: [PATCH 025/102] fix: pyramid-layer accessor must not throw if the
 region contains no tile of the requested layer

---
 Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index 88d166e..1891e0a 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -86,7 +86,13 @@ void CSingleChannelPyramidLevelTileAccessor::InternalGet(libCZI::IBitmapData* pD
 
     const auto byLayer = CalcByLayer(subSet, pyramidInfo.minificationFactor);
     // ok, now we just have to look at our requested pyramid-layer
-    const auto& indices = byLayer.at(pyramidInfo.pyramidLayerNo).indices;
+    const auto layer = byLayer.find(pyramidInfo.pyramidLayerNo);
+    if (layer == byLayer.end())
+    {	// there are no subblocks of the requested pyramid-layer in the requested plane/ROI, so there is nothing to do
+        return;
+    }
+
+    const auto& indices = layer->second.indices;
 
     // and now... copy...
     this->ComposeTiles(pDest, xPos, yPos, sizeOfPixelOnLayer0, static_cast<int>(indices.size()), options,
-- 
2.43.0


From 16b4a2378812da39c06deb9e709aee46b7330f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:51 +0000
Subject: [PATCH 026/102] fix: pyramid-layer accessor must not loop endlessly
 if the minification factor is less than two (as with the identification of
 layer-0)

---
 Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index 1891e0a..404fc37 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -190,7 +190,7 @@ int CSingleChannelPyramidLevelTileAccessor::CalcPyramidLayerNo(const libCZI::Int
     }
 
     const int minFactorInt = static_cast<int>(round(minFactor));
-    int f = 1;
+    std::int64_t f = 1;
     int layerNo = -1;
     for (int layer = 0;; layer++)
     {
@@ -200,6 +200,13 @@ int CSingleChannelPyramidLevelTileAccessor::CalcPyramidLayerNo(const libCZI::Int
             break;
         }
 
+        if (minificationFactorPerLayer < 2)
+        {
+            // such a "pyramid" (e.g. "layer-0" is commonly identified with a minification-factor of zero) has no layers besides layer-0,
+            //  so this subblock is not on any of its layers
+            break;
+        }
+
         f *= minificationFactorPerLayer;
     }
 
-- 
2.43.0


From 93af5c519272273d3f5c2593abda0690b6c63144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:51 +0000
Subject: [PATCH 027/102] fix: tile accessor must honour the scene filter

---
 Src/libCZI/SingleChannelTileAccessor.cpp | 14 ++++++++++----
 Src/libCZI/SingleChannelTileAccessor.h   |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 53cc236..992c86d 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -136,17 +136,17 @@ void CSingleChannelTileAccessor::InternalGet(int xPos, int yPos, libCZI::IBitmap
     Clear(pBm, pOptions->backGroundColor);
     const IntSize sizeBm = pBm->GetSize();
     const IntRect roi{ xPos,yPos,static_cast<int>(sizeBm.w),static_cast<int>(sizeBm.h) };
-    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sortByM);
+    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sceneFilter.get(), pOptions->sortByM);
 
     this->ComposeTiles(pBm, xPos, yPos, subBlocksSet, *pOptions);
 }
 
-std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, bool sortByM)
+std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM)
 {
     // ok... for a first tentative, experimental and quick-n-dirty implementation, simply
     // get all subblocks by enumerating all
     std::vector<IndexAndM> subBlocksSet;
-    this->GetAllSubBlocks(roi, planeCoordinate, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
+    this->GetAllSubBlocks(roi, planeCoordinate, sceneFilter, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
     if (sortByM == true)
     {
         // sort ascending-by-M-index (-> lowest M-index first, highest last)
@@ -162,11 +162,17 @@ std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::G
     return subBlocksSet;
 }
 
-void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const
+void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const
 {
     this->sbBlkRepository->EnumSubset(planeCoordinate, nullptr, true,
         [&](int idx, const SubBlockInfo& info)->bool
         {
+            int indexS;
+            if (sceneFilter != nullptr && info.coordinate.TryGetPosition(DimensionIndex::S, &indexS) && !sceneFilter->IsContained(indexS))
+            {
+                return true;
+            }
+
             if (Utilities::DoIntersect(roi, info.logicalRect))
             {
                 appender(idx, info.mIndex);
diff --git a/Src/libCZI/SingleChannelTileAccessor.h b/Src/libCZI/SingleChannelTileAccessor.h
index 7a6555a..2d4bcb9 100644
--- a/Src/libCZI/SingleChannelTileAccessor.h
+++ b/Src/libCZI/SingleChannelTileAccessor.h
@@ -26,7 +26,7 @@ namespace libCZI
             void Get(libCZI::IBitmapData* pDest, const libCZI::IntPointAndFrameOfReference& position, const libCZI::IDimCoordinate* planeCoordinate, const Options* pOptions) override;
         private:
             void InternalGet(int xPos, int yPos, libCZI::IBitmapData* pBm, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::ISingleChannelTileAccessor::Options* pOptions);
-            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const;
+            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const;
 
             struct IndexAndM
             {
@@ -34,7 +34,7 @@ namespace libCZI
                 int mIndex;
             };
 
-            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, bool sortByM);
+            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM);
             void ComposeTiles(libCZI::IBitmapData* pBm, int xPos, int yPos, const std::vector<IndexAndM>& subBlocksSet, const libCZI::ISingleChannelTileAccessor::Options& options);
         };
 
-- 
2.43.0


From 4f23126cb49bf85f48bfd811c7671a8578a38c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:51 +0000
Subject: [PATCH 028/102] fix: enumerating the chunks of a sub-block attachment
 must advance to the next chunk

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index da621b2..9bc9509 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -73,7 +73,7 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
         attachment_data += 4;
 
         // is sufficient data available?
-        if (size_attachment_data < offset + 20 + chunk_info.size)
+        if (size_attachment_data < static_cast<std::uint64_t>(offset) + 20 + chunk_info.size)
         {
             throw LibCZIException("Corrupted chunk data.");
         }
@@ -88,9 +88,11 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
         }
 
         offset += 20 + chunk_info.size;
+        attachment_data += chunk_info.size;
+        ++index;
 
         // if there are not at least 21 bytes left, we are done (note that we require at least 1 byte of payload!)
-        if (size_attachment_data < offset + 21)
+        if (size_attachment_data < static_cast<std::uint64_t>(offset) + 21)
         {
             break;
         }
-- 
2.43.0


From 4901773ad58b125d6544de53abb1e45ddf95bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:51 +0000
Subject: [PATCH 029/102] fix: absent or too short valid-pixel-mask chunk must
 be reported (instead of accessing arbitrary memory)

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 9bc9509..18e20d8 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -108,19 +108,31 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Subblock does not have a chunk container.");
     }
 
-    ChunkInfo chunk_info_valid_pixel_mask;
+    ChunkInfo chunk_info_valid_pixel_mask{};
+    bool chunk_found = false;
     this->EnumerateChunksInChunkContainer(
-        [&chunk_info_valid_pixel_mask](int /*index*/, const ChunkInfo& info)
+        [&chunk_info_valid_pixel_mask, &chunk_found](int /*index*/, const ChunkInfo& info)
         {
             if (info.guid == kGuidValidPixelMask)
             {
                 chunk_info_valid_pixel_mask = info;
+                chunk_found = true;
                 return false; // stop enumeration
             }
 
             return true; // continue enumeration
         });
 
+    if (!chunk_found)
+    {
+        throw LibCZIException("No valid pixel mask found in the chunk container.");
+    }
+
+    if (chunk_info_valid_pixel_mask.size < 3 * sizeof(uint32_t))
+    {
+        throw LibCZIException("Invalid valid pixel mask chunk.");
+    }
+
     SubBlockAttachmentMaskInfoGeneral mask_info_general;
     shared_ptr<const void> spData = this->sub_block_->GetRawData(ISubBlock::MemBlkType::Attachment, nullptr);
     memcpy(&mask_info_general.width, static_cast<const uint8_t*>(spData.get()) + chunk_info_valid_pixel_mask.offset, sizeof(mask_info_general.width));
-- 
2.43.0


From b5ca4533e7e33353fdfc5d4b2bd347a602f99167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:51 +0000
Subject: [PATCH 030/102] fix: size check of the valid-pixel-mask must not
 overflow

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 18e20d8..99eb7f9 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -188,7 +188,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid dimensions for uncompressed bitonal bitmap.");
     }
 
-    const uint32_t minimal_stride = (mask_info.width + 7) / 8;
+    const size_t minimal_stride = (static_cast<size_t>(mask_info.width) + 7) / 8;
     if (mask_info.stride < minimal_stride)
     {
         throw LibCZIException("Invalid stride for uncompressed bitonal bitmap.");
-- 
2.43.0


From 0991d60fc0677d037a85c26625893c1fea411281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:09 +0000
Subject: [PATCH 031/102] fix: pyramid-layer accessor must reject a layer
 specification which gives no usable scale (division by zero, integer
 overflow)

---
 Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index 404fc37..f94756b 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -155,13 +155,17 @@ libCZI::IntRect CSingleChannelPyramidLevelTileAccessor::NormalizePyramidRect(int
 /// <returns>	The calculated size of pixel (in units of pixels on pyramid layer 0). </returns>
 /*static*/int CSingleChannelPyramidLevelTileAccessor::CalcSizeOfPixelOnLayer0(const PyramidLayerInfo& pyramidInfo)
 {
-    int f = 1;
+    std::int64_t f = 1;
     for (int i = 0; i < pyramidInfo.pyramidLayerNo; ++i)
     {
         f *= pyramidInfo.minificationFactor;
+        if (f < 1 || f > (numeric_limits<int>::max)())
+        {
+            throw invalid_argument("Illegal pyramid-layer information.");
+        }
     }
 
-    return f;
+    return static_cast<int>(f);
 }
 
 std::map<int, CSingleChannelPyramidLevelTileAccessor::SbByLayer> CSingleChannelPyramidLevelTileAccessor::CalcByLayer(const std::vector<SbInfo>& sbinfos, int minificationFactor)
-- 
2.43.0


From 34268b57f7fadcf328a07e8b1215f989bf99c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:33 +0000
Subject: [PATCH 032/102] fix: scaling accessor: the comparator for sorting
 must be a strict weak ordering if layer-0 and other subblocks have the same
 zoom

---
 .../SingleChannelScalingTileAccessor.cpp      | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index b93c9c3..09ff477 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -222,20 +222,21 @@ std::vector<int> CSingleChannelScalingTileAccessor::CreateSortByZoom(const std::
                     return true;
                 }
 
-                if (zoom1 > zoom2 ||
-                    static_cast<uint32_t>(sb1.logicalRect.w) != sb1.physicalSize.w ||  // if the logical rect is not the same as the physical size, then the subblock is not on layer-0
-                    static_cast<uint32_t>(sb1.logicalRect.h) != sb1.physicalSize.h ||  // and we want to apply the "sorting by M-index" only for layer-0
-                    static_cast<uint32_t>(sb2.logicalRect.w) != sb2.physicalSize.w ||
-                    static_cast<uint32_t>(sb2.logicalRect.h) != sb2.physicalSize.h)
+                if (zoom1 > zoom2)
                 {
                     return false;
                 }
 
-                // an invalid mIndex should go before a valid one (just to have a deterministic sorting) - and "invalid mIndex" is represented by both maximum int and minimum int
-                const int mIndex1 = Utils::IsValidMindex(sb1.mIndex) ? sb1.mIndex : (numeric_limits<int>::min)();
-                const int mIndex2 = Utils::IsValidMindex(sb2.mIndex) ? sb2.mIndex : (numeric_limits<int>::min)();
+                // An invalid mIndex should go before a valid one (just to have a deterministic sorting) - and "invalid mIndex" is represented by both maximum int and minimum int.
+                // If the logical rect is not the same as the physical size, then the subblock is not on layer-0, and we want to apply the "sorting by M-index" only for layer-0. In
+                // order to have a strict weak ordering, such a subblock is treated as if it had no mIndex.
+                const auto get_m_index_for_sorting = [](const SbInfo& sb)->int
+                    {
+                        const bool is_layer0 = static_cast<uint32_t>(sb.logicalRect.w) == sb.physicalSize.w && static_cast<uint32_t>(sb.logicalRect.h) == sb.physicalSize.h;
+                        return is_layer0 && Utils::IsValidMindex(sb.mIndex) ? sb.mIndex : (numeric_limits<int>::min)();
+                    };
 
-                return mIndex1 < mIndex2;
+                return get_m_index_for_sorting(sb1) < get_m_index_for_sorting(sb2);
             });
     }
     else
-- 
2.43.0


From b78b8e523705566f8131d4c238c040ce3c77d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:32 +0000
Subject: [PATCH 033/102] fix: check for the first source bitmap before taking
 the size of the destination from it

---
 Src/libCZI/MultiChannelCompositor.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 5da9b83..a05f8e8 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -1288,6 +1288,20 @@ public:
     }
 };
 
+/// The variants which create the destination bitmap take its size from the first source bitmap, so there must be one.
+static void CheckFirstSourceBitmap(int channelCount, libCZI::IBitmapData* const* srcBitmaps)
+{
+    if (channelCount <= 0)
+    {
+        throw std::invalid_argument("channelCount must be >0");
+    }
+
+    if (srcBitmaps == nullptr || *srcBitmaps == nullptr)
+    {
+        throw std::invalid_argument("srcBitmaps==nullptr or srcBitmaps[0]==nullptr");
+    }
+}
+
 /*static*/void Compositors::ComposeMultiChannel_Bgr24(
     libCZI::IBitmapData* dest,
     int channelCount,
@@ -1312,6 +1326,7 @@ public:
     libCZI::IBitmapData* const* srcBitmaps,
     const ChannelInfo* channelInfos)
 {
+    CheckFirstSourceBitmap(channelCount, srcBitmaps);
     auto bmDest = GetSite()->CreateBitmap(PixelType::Bgr24, (*srcBitmaps)->GetWidth(), (*srcBitmaps)->GetHeight());
     Compositors::ComposeMultiChannel_Bgr24(bmDest.get(), channelCount, srcBitmaps, channelInfos);
     return bmDest;
@@ -1323,6 +1338,7 @@ public:
     libCZI::IBitmapData* const* srcBitmaps,
     const ChannelInfo* channelInfos)
 {
+    CheckFirstSourceBitmap(channelCount, srcBitmaps);
     auto bmDest = GetSite()->CreateBitmap(PixelType::Bgra32, (*srcBitmaps)->GetWidth(), (*srcBitmaps)->GetHeight());
     Compositors::ComposeMultiChannel_Bgra32(bmDest.get(), alphaVal, channelCount, srcBitmaps, channelInfos);
     return bmDest;
-- 
2.43.0


From a7d2e078bc840d2847009e1a71b14fea930813e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:11 +0000
Subject: [PATCH 034/102] fix: validate the number of dimensions of a
 sub-block-directory entry before reading into the fixed-size array

---
 Src/libCZI/CziParse.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 82b9c61..351c6e4 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -287,7 +287,7 @@ using namespace libCZI::detail;
         sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
-        if (subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
+        if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
         {
             stringstream ss;
             ss << "'DimensionCount' was found to be " << subBlckSegment.data.entryDV.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
@@ -500,8 +500,14 @@ using namespace libCZI::detail;
             funcRead(4 + 8 + 4 + 4 + 6 + 4, reinterpret_cast<uint8_t*>(&dv) + 2);
             ConvertToHostByteOrder::Convert(&dv);
 
+            if (dv.DimensionCount < 0 || dv.DimensionCount > MAXDIMENSIONS)
+            {
+                stringstream ss;
+                ss << "'DimensionCount' of sub-block-directory-entry #" << i << " was found to be " << dv.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
+                CCZIParse::ThrowIllegalData(ss.str().c_str());
+            }
+
             int sizeToRead = dv.DimensionCount * sizeof(DimensionEntryDV);
-            // TODO: check for max size etc.
             funcRead(sizeToRead, &dv.DimensionEntries[0]);
             ConvertToHostByteOrder::Convert(&dv.DimensionEntries[0], dv.DimensionCount);
 
-- 
2.43.0


From 37a7423ac322ec495124f8040d87ce83dd768b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:11 +0000
Subject: [PATCH 035/102] fix: initialize the information about a sub-block, so
 that dimensions missing in the file do not leave it undefined

---
 Src/libCZI/CziParse.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 351c6e4..403afd5 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -278,13 +278,14 @@ using namespace libCZI::detail;
     }
 
     uint32_t lengthSubblockSegmentData = 0;
-    SubBlockData sbd;
+    SubBlockData sbd{};
+    sbd.logicalRect.Invalidate();   // the information about X and Y may be missing
+    sbd.mIndex = (std::numeric_limits<int>::max)();
     if (subBlckSegment.data.entrySchema[0] == 'D' && subBlckSegment.data.entrySchema[1] == 'V')
     {
         ConvertToHostByteOrder::Convert(&subBlckSegment.data.entryDV);
         sbd.compression = subBlckSegment.data.entryDV.Compression;
         sbd.pixelType = subBlckSegment.data.entryDV.PixelType;
-        sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
         if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
-- 
2.43.0


From ac5af7f4d10a34d794a84392558de3fbfa0dcc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:11 +0000
Subject: [PATCH 036/102] fix: reject negative sizes in segments, report a
 failed allocation, and read payloads of 2 GB and more

---
 Src/libCZI/CziParse.cpp | 69 ++++++++++++++++++++++++++++++++---------
 Src/libCZI/CziParse.h   |  1 +
 2 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 403afd5..cd7b42f 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -8,6 +8,8 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
+#include <new>
 #include "Site.h"
 
 using namespace std;
@@ -116,6 +118,11 @@ using namespace libCZI::detail;
 
     // now read the used-size from stream
     std::unique_ptr<void, decltype(free)*> pBuffer(malloc((size_t)subBlkDirSize), free);
+    if (!pBuffer && subBlkDirSize > 0)
+    {
+        throw std::bad_alloc();
+    }
+
     try
     {
         str->Read(offset + sizeof(subBlckDirSegment), pBuffer.get(), subBlkDirSize, &bytesRead);
@@ -210,6 +217,10 @@ using namespace libCZI::detail;
         // now read the AttachmentEntries
         const uint64_t attachmentEntriesSize = static_cast<uint64_t>(attachmentDirSegment.data.EntryCount) * sizeof(AttachmentEntryA1);
         unique_ptr<AttachmentEntryA1, decltype(free)*> pBuffer(static_cast<AttachmentEntryA1*>(malloc((size_t)attachmentEntriesSize)), free);
+        if (!pBuffer)
+        {
+            throw std::bad_alloc();
+        }
 
         // now read the attachment-entries
         try
@@ -368,11 +379,15 @@ using namespace libCZI::detail;
     //  the reserved (minimal) size here
     lengthSubblockSegmentData = max(lengthSubblockSegmentData, (uint32_t)SIZE_SUBBLOCKDATA_MINIMUM);
 
-    // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
+    if (subBlckSegment.data.MetadataSize < 0 || subBlckSegment.data.DataSize < 0 || subBlckSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in SubBlock-segment");
+    }
+
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocateInfo.alloc(subBlckSegment.data.MetadataSize) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pDataBuffer(subBlckSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(subBlckSegment.data.DataSize)) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(subBlckSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(subBlckSegment.data.AttachmentSize) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(CCZIParse::AllocateOrThrow(allocateInfo, subBlckSegment.data.MetadataSize), deleter);
+    std::unique_ptr<void, decltype(deleter)> pDataBuffer(CCZIParse::AllocateOrThrow(allocateInfo, subBlckSegment.data.DataSize), deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(CCZIParse::AllocateOrThrow(allocateInfo, subBlckSegment.data.AttachmentSize), deleter);
 
     // TODO: now get the information from the SubBlockDirectoryEntryDV/DE structure, and figure out their size
     // TODO: compare this information against the information from the SubBlock-directory
@@ -387,7 +402,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.MetadataSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.MetadataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize, bytesRead);
         }
@@ -404,7 +419,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.DataSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize, bytesRead);
         }
@@ -421,7 +436,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize, bytesRead);
         }
@@ -461,9 +476,13 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid Attachment-magic");
     }
 
-    // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
+    if (attchmntSegment.data.DataSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in Attachment-segment");
+    }
+
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(CCZIParse::AllocateOrThrow(allocateInfo, attchmntSegment.data.DataSize), deleter);
 
     if (pAttchmntBuffer)
     {
@@ -476,7 +495,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading AttachmentSegment", offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != attchmntSegment.data.DataSize)
+        if (bytesRead != static_cast<uint64_t>(attchmntSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize, bytesRead);
         }
@@ -676,10 +695,14 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid MetadataSegment-magic");
     }
 
-    // TODO: perform consistency checks...
+    if (metadataSegment.data.XmlSize < 0 || metadataSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in MetadataSegment");
+    }
+
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pXmlBuffer(CCZIParse::AllocateOrThrow(allocateInfo, metadataSegment.data.XmlSize), deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(CCZIParse::AllocateOrThrow(allocateInfo, metadataSegment.data.AttachmentSize), deleter);
     if (pXmlBuffer)
     {
         try
@@ -691,7 +714,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment), metadataSegment.data.XmlSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.XmlSize)
+        if (bytesRead != static_cast<uint64_t>(metadataSegment.data.XmlSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment), metadataSegment.data.XmlSize, bytesRead);
         }
@@ -708,7 +731,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<uint64_t>(metadataSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize, bytesRead);
         }
@@ -722,6 +745,22 @@ using namespace libCZI::detail;
     return segData;
 }
 
+/*static*/void* CCZIParse::AllocateOrThrow(const SubBlockStorageAllocate& allocateInfo, std::int64_t size)
+{
+    if (size == 0)
+    {
+        return nullptr;
+    }
+
+    void* ptr = static_cast<std::uint64_t>(size) <= (std::numeric_limits<size_t>::max)() ? allocateInfo.alloc(static_cast<size_t>(size)) : nullptr;
+    if (ptr == nullptr)
+    {
+        throw std::bad_alloc();
+    }
+
+    return ptr;
+}
+
 /*static*/char CCZIParse::ToUpperCase(char c)
 {
     if (isascii(c) != 0 && isupper(c) == 0)
diff --git a/Src/libCZI/CziParse.h b/Src/libCZI/CziParse.h
index 4c50fd2..be16517 100644
--- a/Src/libCZI/CziParse.h
+++ b/Src/libCZI/CziParse.h
@@ -215,6 +215,7 @@ namespace libCZI
             static bool IsMDimension(const char* ptr, size_t size);
             static bool IsXDimension(const char* ptr, size_t size);
             static bool IsYDimension(const char* ptr, size_t size);
+            static void* AllocateOrThrow(const SubBlockStorageAllocate& allocateInfo, std::int64_t size);
             static char ToUpperCase(char c);
 
             [[noreturn]] static void ThrowNotEnoughDataRead(std::uint64_t offset, std::uint64_t bytesRequested, std::uint64_t bytesActuallyRead);
-- 
2.43.0


From d08ff7a84b9224e988d4f827245dd4974a03c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:23 +0000
Subject: [PATCH 037/102] fix: do not report more data for a valid-pixel mask
 than what is available if its last line is not padded

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 99eb7f9..42732c0 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -200,6 +200,18 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Insufficient size of uncompressed bitonal bitmap pixel mask data.");
     }
     
+    if (mask_info.size_data < mask_info.height * static_cast<size_t>(mask_info.stride))
+    {
+        // The last line is not padded to the full stride, so the data cannot be used in place (the bitmap would
+        // report a size which is larger than what is available) - we need to make a copy.
+        auto bitonal_bitmap_copy = CStdBitonalBitmapData::Create(mask_info.width, mask_info.height, mask_info.stride);
+        const auto lock_info = bitonal_bitmap_copy->Lock();
+        memset(lock_info.ptrData, 0, static_cast<size_t>(lock_info.size));
+        memcpy(lock_info.ptrData, mask_info.data.get(), mask_info.size_data);
+        bitonal_bitmap_copy->Unlock();
+        return bitonal_bitmap_copy;
+    }
+
     // Create a new bitonal bitmap data object (but using the existing data buffer!).
     CSharedPtrAllocator sharedPtrAllocator(mask_info.data); 
     auto bitonal_bitmap = CBitonalBitmapData<CSharedPtrAllocator>::Create(
-- 
2.43.0


From de275b4ee15931a8897f5eff343ab197d9b4dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:33 +0000
Subject: [PATCH 038/102] fix: check the source bitmaps for null before using
 them, and reject a negative look-up-table size

---
 Src/libCZI/MultiChannelCompositor.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index a05f8e8..fc24128 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -1052,6 +1052,13 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
+            if (srcBitmaps[i] == nullptr)
+            {
+                stringstream ss;
+                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
+                throw std::invalid_argument(ss.str());
+            }
+
             if (srcBitmaps[i]->GetWidth() != dest->GetWidth() || srcBitmaps[i]->GetHeight() != dest->GetHeight())
             {
                 throw std::invalid_argument("All the source bitmaps must have same width/height as destination.");
@@ -1060,19 +1067,12 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
-            if (srcBitmaps[i] == nullptr)
-            {
-                stringstream ss;
-                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
-                throw std::invalid_argument(ss.str());
-            }
-
-            if (channelInfos[i].lookUpTableElementCount > 0)
+            if (channelInfos[i].lookUpTableElementCount != 0)
             {
                 if (channelInfos[i].ptrLookUpTable == nullptr)
                 {
                     stringstream ss;
-                    ss << "index #" << i << " -> if lookUpTableElementCount>0, then ptrLookUpTable must be valid";
+                    ss << "index #" << i << " -> if lookUpTableElementCount!=0, then ptrLookUpTable must be valid";
                     throw std::invalid_argument(ss.str());
                 }
 
-- 
2.43.0


From 616a96f00a993e40e518f21faa3e7c1f08b306f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:33 +0000
Subject: [PATCH 039/102] fix: clamp black point and white point before
 converting them to the pixel's integer type

---
 Src/libCZI/MultiChannelCompositor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index fc24128..580850a 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -478,8 +478,9 @@ private:
 
         CGetBlackWhitePtBase(float blackPt, float whitePt)
         {
-            this->blackPt = static_cast<tValue>(std::ceil(blackPt * maxValue));
-            this->whitePt = static_cast<tValue>(std::floor(whitePt * maxValue));
+            // values outside of [0,1] are valid, they must be clamped before converting to the integer type
+            this->blackPt = static_cast<tValue>(std::ceil((std::max)(0.f, (std::min)(1.f, blackPt)) * maxValue));
+            this->whitePt = static_cast<tValue>(std::floor((std::max)(0.f, (std::min)(1.f, whitePt)) * maxValue));
         };
     };
 
-- 
2.43.0


From c83a73dfb19dff4dea8a713cb9fcf01c0c584dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:17 +0000
Subject: [PATCH 040/102] fix: parsing a number from an XML-node: do not loop
 forever if there is trailing whitespace, and do not report success if there
 is no number

---
 Src/libCZI/CziMetadata.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index ecbb902..2267f74 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -113,11 +113,16 @@ static bool TryConvert(IXmlNodeRead* node, typename t::type* p)
         try
         {
             i = t::convert(str, &posFirstCharNotParsed);
+            if (posFirstCharNotParsed == 0)
+            {
+                // nothing was parsed at all
+                return false;
+            }
 
             // where we stopped parsing, we expect to find only spaces - otherwise we have a parse-error and return false
-            while (posFirstCharNotParsed < str.length())
+            for (; posFirstCharNotParsed < str.length(); ++posFirstCharNotParsed)
             {
-                if (!isspace(str[posFirstCharNotParsed]))
+                if (!iswspace(str[posFirstCharNotParsed]))
                 {
                     return false;
                 }
-- 
2.43.0


From b3caf22fbfcb0373b446259cb18c5c0df5782063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:26 +0000
Subject: [PATCH 041/102] fix: classify wide characters with the functions for
 wide characters (the others are undefined for values above 255)

---
 Src/libCZI/CziDisplaySettings.cpp       | 6 +++---
 Src/libCZI/CziMetadata.cpp              | 1 +
 Src/libCZI/CziMetadataDocumentInfo.cpp  | 7 ++++---
 Src/libCZI/CziMetadataDocumentInfo2.cpp | 9 +++++----
 Src/libCZI/utilities.cpp                | 3 ++-
 5 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/Src/libCZI/CziDisplaySettings.cpp b/Src/libCZI/CziDisplaySettings.cpp
index 6661f86..3470185 100644
--- a/Src/libCZI/CziDisplaySettings.cpp
+++ b/Src/libCZI/CziDisplaySettings.cpp
@@ -2,7 +2,7 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
-#include <cctype>
+#include <cwctype>
 #include "CziDisplaySettings.h"
 #include "splines.h"
 #include "utilities.h"
@@ -32,7 +32,7 @@ public:
             for (;;)
             {
                 wchar_t c = *szString;
-                if (std::isspace(c))
+                if (std::iswspace(c))
                 {
                     ++szString;
                     continue;
@@ -55,7 +55,7 @@ public:
             for (;;)
             {
                 wchar_t c = *szString;
-                if (std::isspace(c))
+                if (std::iswspace(c))
                 {
                     ++szString;
                     continue;
diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index 2267f74..430c97d 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <cwctype>
 #include "CziMetadata.h"
 #include "CziMetadataDocumentInfo.h"
 
diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 0b6e4cf..bffd881 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -5,6 +5,7 @@
 #include "CziMetadataDocumentInfo.h"
 
 #include <cstddef>
+#include <cwctype>
 #include <utility>
 #include "CziDimensionInfo.h"
 #include "CziDisplaySettings.h"
@@ -290,7 +291,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 
             if (parsedOk == true)
             {
-                if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                 {
                     parsedOk = false;
                 }
@@ -344,7 +345,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 
                     if (parsedOk == true)
                     {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                        if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                         {
                             parsedOk = false;
                         }
@@ -428,7 +429,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 
                     if (parsedOk == true)
                     {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                        if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                         {
                             parsedOk = false;
                         }
diff --git a/Src/libCZI/CziMetadataDocumentInfo2.cpp b/Src/libCZI/CziMetadataDocumentInfo2.cpp
index 9b99814..7a4e82f 100644
--- a/Src/libCZI/CziMetadataDocumentInfo2.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo2.cpp
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <cwctype>
 #include <limits>
 #include "CziMetadataDocumentInfo.h"
 #include "CziMetadataDocumentInfo2.h"
@@ -1815,12 +1816,12 @@ void CDimensionChannelPolarizingSettings::ParseInformation(pugi::xml_node node)
                 break;
             }
 
-            if (!isspace(str[offset + s]))
+            if (!iswspace(str[offset + s]))
             {
                 break;
             }
 
-            for (++s; isspace(str[offset + s]); ++s) {}
+            for (++s; iswspace(str[offset + s]); ++s) {}
             offset += s;
             vec.push_back(d);
         }
@@ -1852,12 +1853,12 @@ void CDimensionChannelPolarizingSettings::ParseInformation(pugi::xml_node node)
                 break;
             }
 
-            if (!isspace(str[offset + s]))
+            if (!iswspace(str[offset + s]))
             {
                 break;
             }
 
-            for (++s; isspace(str[offset + s]); ++s) {}
+            for (++s; iswspace(str[offset + s]); ++s) {}
             offset += s;
             vec.push_back(d);
         }
diff --git a/Src/libCZI/utilities.cpp b/Src/libCZI/utilities.cpp
index 7c5bc13..386c1bb 100644
--- a/Src/libCZI/utilities.cpp
+++ b/Src/libCZI/utilities.cpp
@@ -8,6 +8,7 @@
 #include <codecvt>
 #include <sstream>
 #include <cstring>
+#include <cwctype>
 #include <array>
 #if LIBCZI_WINDOWSAPI_AVAILABLE || LIBCZI_WINDOWS_UWPAPI_AVAILABLE
 #include <Windows.h>
@@ -234,7 +235,7 @@ tString trimImpl(const tString& str, const tString& whitespace)
         std::uint8_t r = 0, g = 0, b = 0, a = 0;
         for (size_t i = 1; i < (std::max)(static_cast<size_t>(9), str.size()); ++i)
         {
-            if (!isxdigit(str[i]))
+            if (!iswxdigit(str[i]))
             {
                 return false;
             }
-- 
2.43.0


From 358000cd4f3d8c7d56961004d852061ff2b76d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:39 +0000
Subject: [PATCH 042/102] fix: read the Z-drive-mode from its own node

---
 Src/libCZI/CziMetadataDocumentInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index bffd881..995d068 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -261,7 +261,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
     auto zdriveModeNode = GetNodeRelativeFromNode(dimZnode, L"ZDriveMode");
     if (!zdriveModeNode.empty())
     {
-        auto s = Utilities::Trim(zaxisDirNode.text().as_string());
+        auto s = Utilities::Trim(zdriveModeNode.text().as_string());
         if (s.compare(L"Continuous") == 0)
         {
             zinfo->SetZDriveMode(IDimensionZInfo::ZDriveMode::Continuous);
-- 
2.43.0


From 57ccfe1dc983e49111b079048897f6e30ce27d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:39 +0000
Subject: [PATCH 043/102] fix: do not overflow when calculating the end of a
 dimension's interval

---
 Src/libCZI/CziDimensionInfo.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziDimensionInfo.cpp b/Src/libCZI/CziDimensionInfo.cpp
index ef474d4..f1fb227 100644
--- a/Src/libCZI/CziDimensionInfo.cpp
+++ b/Src/libCZI/CziDimensionInfo.cpp
@@ -2,6 +2,9 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <algorithm>
+#include <cstdint>
+#include <limits>
 #include "CziDimensionInfo.h"
 
 using namespace libCZI::detail;
@@ -20,7 +23,11 @@ using namespace libCZI::detail;
 
     if (end != nullptr)
     {
-        *end = this->dimAndStartSize_.size + this->dimAndStartSize_.start;
+        // start and size stem from the XML and may be arbitrary, so make sure not to overflow here
+        const std::int64_t end_of_interval = static_cast<std::int64_t>(this->dimAndStartSize_.size) + this->dimAndStartSize_.start;
+        *end = static_cast<int>((std::max)(
+            static_cast<std::int64_t>((std::numeric_limits<int>::min)()),
+            (std::min)(static_cast<std::int64_t>((std::numeric_limits<int>::max)()), end_of_interval)));
     }
 }
 
-- 
2.43.0


From 8ad6746004e8e9bb859aeda75067467366ae21a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:37 +0000
Subject: [PATCH 044/102] fix: do not overflow when intersecting rectangles

---
 Src/libCZI/libCZI_Pixels.h | 20 +++++++++++---------
 Src/libCZI/utilities.h     | 12 +-----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/Src/libCZI/libCZI_Pixels.h b/Src/libCZI/libCZI_Pixels.h
index c966545..9ccb90b 100644
--- a/Src/libCZI/libCZI_Pixels.h
+++ b/Src/libCZI/libCZI_Pixels.h
@@ -40,10 +40,11 @@ namespace libCZI
                 return false;
             }
 
-            return !(this->x + this->w <= r.x ||
-                        r.x + r.w <= this->x ||
-                        this->y + this->h <= r.y ||
-                        r.y + r.h <= this->y);
+            // (with 64-bit arithmetic, because the sum of coordinate and extent may exceed the range of an int)
+            return !(static_cast<std::int64_t>(this->x) + this->w <= r.x ||
+                        static_cast<std::int64_t>(r.x) + r.w <= this->x ||
+                        static_cast<std::int64_t>(this->y) + this->h <= r.y ||
+                        static_cast<std::int64_t>(r.y) + r.h <= this->y);
         }
 
         /// Calculate the intersection with the specified rectangle.
@@ -64,13 +65,14 @@ namespace libCZI
         /// \return A rectangle which is the intersection of the two rectangles. If the two rectangles do not intersect, an empty rectangle is returned (width=height=0).
         static IntRect Intersect(const IntRect& a, const IntRect& b)
         {
-            const int x1 = (std::max)(a.x, b.x);
-            const int x2 = (std::min)(a.x + a.w, b.x + b.w);
-            const int y1 = (std::max)(a.y, b.y);
-            const int y2 = (std::min)(a.y + a.h, b.y + b.h);
+            // (with 64-bit arithmetic, because the sum of coordinate and extent may exceed the range of an int)
+            const std::int64_t x1 = (std::max)(a.x, b.x);
+            const std::int64_t x2 = (std::min)(static_cast<std::int64_t>(a.x) + a.w, static_cast<std::int64_t>(b.x) + b.w);
+            const std::int64_t y1 = (std::max)(a.y, b.y);
+            const std::int64_t y2 = (std::min)(static_cast<std::int64_t>(a.y) + a.h, static_cast<std::int64_t>(b.y) + b.h);
             if (x2 >= x1 && y2 >= y1)
             {
-                return IntRect{ x1, y1, x2 - x1, y2 - y1 };
+                return IntRect{ static_cast<int>(x1), static_cast<int>(y1), static_cast<int>(x2 - x1), static_cast<int>(y2 - y1) };
             }
 
             return IntRect{ 0,0,0,0 };
diff --git a/Src/libCZI/utilities.h b/Src/libCZI/utilities.h
index ae11243..f4bc937 100644
--- a/Src/libCZI/utilities.h
+++ b/Src/libCZI/utilities.h
@@ -52,17 +52,7 @@ namespace libCZI
 
             static libCZI::IntRect Intersect(const libCZI::IntRect& a, const libCZI::IntRect& b)
             {
-                const int x1 = (std::max)(a.x, b.x);
-                const int x2 = (std::min)(a.x + a.w, b.x + b.w);
-                const int y1 = (std::max)(a.y, b.y);
-                const int y2 = (std::min)(a.y + a.h, b.y + b.h);
-
-                if (x2 >= x1 && y2 >= y1)
-                {
-                    return libCZI::IntRect{ x1, y1, x2 - x1, y2 - y1 };
-                }
-
-                return libCZI::IntRect{ 0,0,0,0 };
+                return libCZI::IntRect::Intersect(a, b);
             }
 
             static bool DoIntersect(const libCZI::IntRect& a, const libCZI::IntRect& b)
-- 
2.43.0


From b6314062cbf5b95e03979d178c8dab9b0625dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:11 +0000
Subject: [PATCH 045/102] fix: report an error if a coordinate transformed to
 another frame-of-reference is out of range, instead of overflowing

---
 Src/libCZI/CZIReader.cpp       |  8 ++++++--
 Src/libCZI/CziReaderWriter.cpp |  8 ++++++--
 Src/libCZI/CziUtils.cpp        | 11 +++++++++++
 Src/libCZI/CziUtils.h          |  3 +++
 Src/libCZI/libCZI.h            | 16 ++++++++--------
 5 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 2b6a61a..eda6ab7 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -152,14 +152,18 @@ CCZIReader::CCZIReader() :
         destination_frame_of_reference_consolidated == CZIFrameOfReference::RawSubBlockCoordinateSystem)
     {
         const auto& statistics = this->subBlkDir.GetStatistics();
-        return { CZIFrameOfReference::RawSubBlockCoordinateSystem, {source_point.point.x + statistics.boundingBoxLayer0Only.x, source_point.point.y + statistics.boundingBoxLayer0Only.y} };
+        return { CZIFrameOfReference::RawSubBlockCoordinateSystem, {
+            CziUtils::ToIntOrThrow(static_cast<std::int64_t>(source_point.point.x) + statistics.boundingBoxLayer0Only.x),
+            CziUtils::ToIntOrThrow(static_cast<std::int64_t>(source_point.point.y) + statistics.boundingBoxLayer0Only.y)} };
     }
 
     if (source_frame_of_reference_consolidated == CZIFrameOfReference::RawSubBlockCoordinateSystem &&
         destination_frame_of_reference_consolidated == CZIFrameOfReference::PixelCoordinateSystem)
     {
         const auto& statistics = this->subBlkDir.GetStatistics();
-        return { CZIFrameOfReference::PixelCoordinateSystem, {source_point.point.x - statistics.boundingBoxLayer0Only.x, source_point.point.y - statistics.boundingBoxLayer0Only.y} };
+        return { CZIFrameOfReference::PixelCoordinateSystem, {
+            CziUtils::ToIntOrThrow(static_cast<std::int64_t>(source_point.point.x) - statistics.boundingBoxLayer0Only.x),
+            CziUtils::ToIntOrThrow(static_cast<std::int64_t>(source_point.point.y) - statistics.boundingBoxLayer0Only.y)} };
     }
 
     throw logic_error("Unsupported frame-of-reference transformation.");
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index a73921a..b3a1ed1 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -783,14 +783,18 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
         destination_frame_of_reference_consolidated == CZIFrameOfReference::RawSubBlockCoordinateSystem)
     {
         const auto& statistics = this->GetStatistics();
-        return libCZI::IntPointAndFrameOfReference{ CZIFrameOfReference::RawSubBlockCoordinateSystem, {source_point.point.x + statistics.boundingBoxLayer0Only.x, source_point.point.y + statistics.boundingBoxLayer0Only.y} };
+        return libCZI::IntPointAndFrameOfReference{ CZIFrameOfReference::RawSubBlockCoordinateSystem, {
+            CziUtils::ToIntOrThrow(static_cast<std::int64_t>(source_point.point.x) + statistics.boundingBoxLayer0Only.x),
+            CziUtils::ToIntOrThrow(static_cast<std::int64_t>(source_point.point.y) + statistics.boundingBoxLayer0Only.y)} };
     }
 
     if (source_frame_of_reference_consolidated == CZIFrameOfReference::RawSubBlockCoordinateSystem &&
         destination_frame_of_reference_consolidated == CZIFrameOfReference::PixelCoordinateSystem)
     {
         const auto& statistics = this->GetStatistics();
-        return libCZI::IntPointAndFrameOfReference{ CZIFrameOfReference::PixelCoordinateSystem, {source_point.point.x - statistics.boundingBoxLayer0Only.x, source_point.point.y - statistics.boundingBoxLayer0Only.y} };
+        return libCZI::IntPointAndFrameOfReference{ CZIFrameOfReference::PixelCoordinateSystem, {
+            CziUtils::ToIntOrThrow(static_cast<std::int64_t>(source_point.point.x) - statistics.boundingBoxLayer0Only.x),
+            CziUtils::ToIntOrThrow(static_cast<std::int64_t>(source_point.point.y) - statistics.boundingBoxLayer0Only.y)} };
     }
 
     throw logic_error("Unsupported frame-of-reference transformation.");
diff --git a/Src/libCZI/CziUtils.cpp b/Src/libCZI/CziUtils.cpp
index 244785b..59adfe0 100644
--- a/Src/libCZI/CziUtils.cpp
+++ b/Src/libCZI/CziUtils.cpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <limits>
+#include <stdexcept>
 #include "CziUtils.h"
 
 using namespace libCZI;
@@ -193,6 +194,16 @@ using namespace libCZI::detail;
     return minFactor;
 }
 
+/*static*/int CziUtils::ToIntOrThrow(std::int64_t value)
+{
+    if (value < (std::numeric_limits<int>::min)() || value > (std::numeric_limits<int>::max)())
+    {
+        throw std::out_of_range("The coordinate is out of the range which can be represented.");
+    }
+
+    return static_cast<int>(value);
+}
+
 /*static*/bool CziUtils::IsPixelTypeEndianessAgnostic(libCZI::PixelType pixelType)
 {
     switch (pixelType)
diff --git a/Src/libCZI/CziUtils.h b/Src/libCZI/CziUtils.h
index b4de21b..7436e16 100644
--- a/Src/libCZI/CziUtils.h
+++ b/Src/libCZI/CziUtils.h
@@ -36,6 +36,9 @@ namespace libCZI
 
             static double CalculateMinificationFactor(int logicalSizeWidth, int logicalSizeHeight, int physicalSizeWidth, int physicalSizeHeight);
 
+            /// Convert the specified value to an int. If it cannot be represented as an int, then an exception of type std::out_of_range is thrown.
+            static int ToIntOrThrow(std::int64_t value);
+
             static bool IsPixelTypeEndianessAgnostic(libCZI::PixelType);
 
             template <libCZI::PixelType tPixelType>
diff --git a/Src/libCZI/libCZI.h b/Src/libCZI/libCZI.h
index 8a71a24..c447bb5 100644
--- a/Src/libCZI/libCZI.h
+++ b/Src/libCZI/libCZI.h
@@ -658,17 +658,17 @@ namespace libCZI
             libCZI::IntPointAndFrameOfReference source_point_and_frame_of_reference;
             source_point_and_frame_of_reference.frame_of_reference = source_rectangle.frame_of_reference;
             source_point_and_frame_of_reference.point = { source_rectangle.rectangle.x, source_rectangle.rectangle.y };
-            libCZI::IntPoint transformed_point_upper_left = this->TransformPoint(source_point_and_frame_of_reference, destination_frame_of_reference).point;
-            source_point_and_frame_of_reference.point = { source_rectangle.rectangle.x + source_rectangle.rectangle.w, source_rectangle.rectangle.y + source_rectangle.rectangle.h };
-            libCZI::IntPointAndFrameOfReference transformed_point_lower_right = this->TransformPoint(source_point_and_frame_of_reference, destination_frame_of_reference);
+            // The coordinate systems differ only by a translation, so the extent of the rectangle is not affected (and the
+            // lower-right point, which may exceed the range of an int, is not needed).
+            const libCZI::IntPointAndFrameOfReference transformed_point_upper_left = this->TransformPoint(source_point_and_frame_of_reference, destination_frame_of_reference);
             return
             {
-                transformed_point_lower_right.frame_of_reference,
+                transformed_point_upper_left.frame_of_reference,
                 {
-                    transformed_point_upper_left.x,
-                    transformed_point_upper_left.y,
-                    transformed_point_lower_right.point.x - transformed_point_upper_left.x,
-                    transformed_point_lower_right.point.y - transformed_point_upper_left.y
+                    transformed_point_upper_left.point.x,
+                    transformed_point_upper_left.point.y,
+                    source_rectangle.rectangle.w,
+                    source_rectangle.rectangle.h
                 }
             };
         }
-- 
2.43.0


From 49952519a1849f31a178c8c99441f2e5a4d75cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:11 +0000
Subject: [PATCH 046/102] fix: do not overflow when determining the bounding
 box and the dimension bounds

---
 Src/libCZI/CziSubBlockDirectory.cpp | 52 +++++++++--------------------
 1 file changed, 15 insertions(+), 37 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 8d3c5c9..ab8e3f4 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -63,22 +63,13 @@ void CSbBlkStatisticsUpdater::UpdateStatistics(const CCziSubBlockDirectoryBase::
             }
             else
             {
-                bool changed = false;
-                if (value < start)
+                // the size of the interval may exceed the range of an int, in which case it is limited to the largest possible value
+                const std::int64_t last = (std::max)(static_cast<std::int64_t>(start) + size - 1, static_cast<std::int64_t>(value));
+                const int newStart = (std::min)(start, value);
+                const int newSize = static_cast<int>((std::min)(last - newStart + 1, static_cast<std::int64_t>((std::numeric_limits<int>::max)())));
+                if (newStart != start || newSize != size)
                 {
-                    size += (start - value);
-                    start = value;
-                    changed = true;
-                }
-                else if (value >= start + size)
-                {
-                    size = 1 + value - start;
-                    changed = true;
-                }
-
-                if (changed)
-                {
-                    this->statistics.dimBounds.Set(dim, start, size);
+                    this->statistics.dimBounds.Set(dim, newStart, newSize);
                 }
             }
 
@@ -188,29 +179,16 @@ const libCZI::PyramidStatistics& CSbBlkStatisticsUpdater::GetPyramidStatistics()
 {
     if (rect.IsValid() == true)
     {
-        if (rect.x > entry.x)
-        {
-            int diff = rect.x - entry.x;
-            rect.x = entry.x;
-            rect.w += diff;
-        }
-
-        if (rect.y > entry.y)
-        {
-            int diff = rect.y - entry.y;
-            rect.y = entry.y;
-            rect.h += diff;
-        }
-
-        if (rect.x + rect.w < entry.x + entry.width)
-        {
-            rect.w = (entry.x + entry.width) - rect.x;
-        }
+        // the extent of the bounding box may exceed the range of an int, in which case it is limited to the largest possible value
+        const auto updateInterval = [](int& start, int& size, int entryStart, int entrySize)->void
+            {
+                const std::int64_t end = (std::max)(static_cast<std::int64_t>(start) + size, static_cast<std::int64_t>(entryStart) + entrySize);
+                start = (std::min)(start, entryStart);
+                size = static_cast<int>((std::min)(end - start, static_cast<std::int64_t>((std::numeric_limits<int>::max)())));
+            };
 
-        if (rect.y + rect.h < entry.y + entry.height)
-        {
-            rect.h = (entry.y + entry.height) - rect.y;
-        }
+        updateInterval(rect.x, rect.w, entry.x, entry.width);
+        updateInterval(rect.y, rect.h, entry.y, entry.height);
     }
     else
     {
-- 
2.43.0


From 77c2efdd9baea28f5f949afeede77f2faa506a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:11 +0000
Subject: [PATCH 047/102] fix: do not leave the position of an invalidated
 rectangle uninitialized (it is used as the origin if there is no layer-0
 subblock)

---
 Src/libCZI/libCZI_Pixels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/libCZI_Pixels.h b/Src/libCZI/libCZI_Pixels.h
index 9ccb90b..a818582 100644
--- a/Src/libCZI/libCZI_Pixels.h
+++ b/Src/libCZI/libCZI_Pixels.h
@@ -22,7 +22,7 @@ namespace libCZI
         int h;  ///< The height of the rectangle.
 
         /// Invalidates this object.
-        void Invalidate() { this->w = this->h = -1; }
+        void Invalidate() { this->x = this->y = 0; this->w = this->h = -1; }
 
         /// Returns a boolean indicating whether this rectangle contains valid information.
         bool IsValid() const { return this->w >= 0 && this->h >= 0; }
-- 
2.43.0


From 2fb3301d673c921608a722c25b51c7ba36decee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:07 +0000
Subject: [PATCH 048/102] fix: do not overflow when checking a coordinate
 against the bounds of its dimension

---
 Src/libCZI/SingleChannelAccessorBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/SingleChannelAccessorBase.cpp b/Src/libCZI/SingleChannelAccessorBase.cpp
index bb01ae1..b8b14c5 100644
--- a/Src/libCZI/SingleChannelAccessorBase.cpp
+++ b/Src/libCZI/SingleChannelAccessorBase.cpp
@@ -63,7 +63,7 @@ void CSingleChannelAccessorBase::CheckPlaneCoordinates(const libCZI::IDimCoordin
             }
             else
             {
-                if (co < start || co >= start + size)
+                if (co < start || static_cast<int64_t>(co) >= static_cast<int64_t>(start) + size)
                 {
                     stringstream ss;
                     ss << "Coordinate for dimension '" << Utils::DimensionToChar(d) << "' is out-of-range.";
-- 
2.43.0


From 0a5e3dc6731bf18a8009b5d3638c15018594aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:07 +0000
Subject: [PATCH 049/102] fix: do not overflow when calculating the position of
 a tile relative to the destination

---
 .../SingleChannelScalingTileAccessor.cpp      | 29 ++++++++++------
 Src/libCZI/SingleChannelTileCompositor.cpp    | 33 +++++++++++++++++--
 2 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index 09ff477..40c1bcc 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -104,11 +104,20 @@ void CSingleChannelScalingTileAccessor::ScaleBlt(libCZI::IBitmapData* bmDest, fl
     //  and do instead a simple copy operation. This should ensure a pixel-accurate result if zoom is exactly 1.
     if (zoom == 1)
     {
+        // if the offset cannot be represented as an int, then the subblock does not intersect with the destination
+        const int64_t x_offset = static_cast<int64_t>(sbInfo.logicalRect.x) - roi.x;
+        const int64_t y_offset = static_cast<int64_t>(sbInfo.logicalRect.y) - roi.y;
+        if (x_offset < (numeric_limits<int>::min)() || x_offset > (numeric_limits<int>::max)() ||
+            y_offset < (numeric_limits<int>::min)() || y_offset > (numeric_limits<int>::max)())
+        {
+            return;
+        }
+
         ScopedBitmapLockerSP srcLck{ source };
         ScopedBitmapLockerP dstLck{ bmDest };
         BitmapOperationsBitonal::CopyWithOffsetAndMaskInfo info;
-        info.xOffset = sbInfo.logicalRect.x - roi.x;
-        info.yOffset = sbInfo.logicalRect.y - roi.y;
+        info.xOffset = static_cast<int>(x_offset);
+        info.yOffset = static_cast<int>(y_offset);
         info.srcPixelType = source->GetPixelType();
         info.srcPtr = srcLck.ptrDataRoi;
         info.srcStride = srcLck.stride;
@@ -139,15 +148,15 @@ void CSingleChannelScalingTileAccessor::ScaleBlt(libCZI::IBitmapData* bmDest, fl
         // calculate the intersection of the subblock (logical rect) and the destination
         const auto intersect = Utilities::Intersect(sbInfo.logicalRect, roi);
 
-        const double roiSrcTopLeftX = static_cast<double>(intersect.x - sbInfo.logicalRect.x) / sbInfo.logicalRect.w;
-        const double roiSrcTopLeftY = static_cast<double>(intersect.y - sbInfo.logicalRect.y) / sbInfo.logicalRect.h;
-        const double roiSrcBttmRightX = static_cast<double>(intersect.x + intersect.w - sbInfo.logicalRect.x) / sbInfo.logicalRect.w;
-        const double roiSrcBttmRightY = static_cast<double>(intersect.y + intersect.h - sbInfo.logicalRect.y) / sbInfo.logicalRect.h;
+        const double roiSrcTopLeftX = (static_cast<double>(intersect.x) - sbInfo.logicalRect.x) / sbInfo.logicalRect.w;
+        const double roiSrcTopLeftY = (static_cast<double>(intersect.y) - sbInfo.logicalRect.y) / sbInfo.logicalRect.h;
+        const double roiSrcBttmRightX = (static_cast<double>(intersect.x) + intersect.w - sbInfo.logicalRect.x) / sbInfo.logicalRect.w;
+        const double roiSrcBttmRightY = (static_cast<double>(intersect.y) + intersect.h - sbInfo.logicalRect.y) / sbInfo.logicalRect.h;
 
-        const double destTopLeftX = static_cast<double>(intersect.x - roi.x) / roi.w;
-        const double destTopLeftY = static_cast<double>(intersect.y - roi.y) / roi.h;
-        const double destBttmRightX = static_cast<double>(intersect.x + intersect.w - roi.x) / roi.w;
-        const double destBttmRightY = static_cast<double>(intersect.y + intersect.h - roi.y) / roi.h;
+        const double destTopLeftX = (static_cast<double>(intersect.x) - roi.x) / roi.w;
+        const double destTopLeftY = (static_cast<double>(intersect.y) - roi.y) / roi.h;
+        const double destBttmRightX = (static_cast<double>(intersect.x) + intersect.w - roi.x) / roi.w;
+        const double destBttmRightY = (static_cast<double>(intersect.y) + intersect.h - roi.y) / roi.h;
 
         DblRect srcRoi{ roiSrcTopLeftX ,roiSrcTopLeftY,roiSrcBttmRightX - roiSrcTopLeftX ,roiSrcBttmRightY - roiSrcTopLeftY };
         DblRect dstRoi{ destTopLeftX ,destTopLeftY,destBttmRightX - destTopLeftX ,destBttmRightY - destTopLeftY };
diff --git a/Src/libCZI/SingleChannelTileCompositor.cpp b/Src/libCZI/SingleChannelTileCompositor.cpp
index 819bc3d..aadf0cf 100644
--- a/Src/libCZI/SingleChannelTileCompositor.cpp
+++ b/Src/libCZI/SingleChannelTileCompositor.cpp
@@ -2,14 +2,31 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <cstdint>
+#include <limits>
 #include "libCZI.h"
 #include "SingleChannelTileCompositor.h"
 #include "BitmapOperations.h"
 #include "BitmapOperationsBitonal.h"
 
+using namespace std;
 using namespace libCZI;
 using namespace libCZI::detail;
 
+/// Calculate the offset of a tile relative to the destination. If the offset cannot be represented (as an int), then
+/// the tile cannot intersect with the destination, and false is returned.
+static bool TryCalcOffset(int pos_tile, int pos, int& offset)
+{
+    const int64_t offset64 = static_cast<int64_t>(pos_tile) - pos;
+    if (offset64 < (numeric_limits<int>::min)() || offset64 > (numeric_limits<int>::max)())
+    {
+        return false;
+    }
+
+    offset = static_cast<int>(offset64);
+    return true;
+}
+
 /*static*/void CSingleChannelTileCompositor::Compose(libCZI::IBitmapData* dest, libCZI::IBitmapData* source, int x, int y, bool drawTileBorder)
 {
     const ScopedBitmapLockerP source_locker{ source };
@@ -98,8 +115,14 @@ using namespace libCZI::detail;
             break;
         }
 
+        int x_offset, y_offset;
+        if (!TryCalcOffset(posXTile, xPos, x_offset) || !TryCalcOffset(posYTile, yPos, y_offset))
+        {
+            continue;
+        }
+
         // TODO: check return values?
-        CSingleChannelTileCompositor::Compose(dest, src.get(), posXTile - xPos, posYTile - yPos, pOptions->drawTileBorder);
+        CSingleChannelTileCompositor::Compose(dest, src.get(), x_offset, y_offset, pOptions->drawTileBorder);
     }
 }
 
@@ -129,7 +152,13 @@ using namespace libCZI::detail;
             break;
         }
 
+        int x_offset, y_offset;
+        if (!TryCalcOffset(posXTile, xPos, x_offset) || !TryCalcOffset(posYTile, yPos, y_offset))
+        {
+            continue;
+        }
+
         // TODO: check return values?
-        CSingleChannelTileCompositor::ComposeMaskAware(dest, src.get(), src_mask.get(), posXTile - xPos, posYTile - yPos, pOptions->drawTileBorder);
+        CSingleChannelTileCompositor::ComposeMaskAware(dest, src.get(), src_mask.get(), x_offset, y_offset, pOptions->drawTileBorder);
     }
 }
-- 
2.43.0


From 5c4b0c88ff368a2dcb08666ac0b438db61de59eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:07 +0000
Subject: [PATCH 050/102] fix: nothing must be copied from an empty bitmap when
 scaling

---
 Src/libCZI/BitmapOperations.hpp        | 7 +++++++
 Src/libCZI/BitmapOperationsBitonal.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 53ec555..a151c29 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -422,6 +422,13 @@ namespace libCZI
             constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
             constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
+            // there is nothing to do if the source or the destination is empty (note: this is written so that it also catches NaNs)
+            if (resizeInfo.srcWidth <= 0 || resizeInfo.srcHeight <= 0 ||
+                !(resizeInfo.srcRoiW > 0) || !(resizeInfo.srcRoiH > 0) || !(resizeInfo.dstRoiW > 0) || !(resizeInfo.dstRoiH > 0))
+            {
+                return;
+            }
+
             const int dstXStart = (std::max)(static_cast<int>(resizeInfo.dstRoiX), 0);
             const int dstXEnd = (std::min)(static_cast<int>(resizeInfo.dstRoiX + resizeInfo.dstRoiW), resizeInfo.dstWidth - 1);
 
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5624313..9966f20 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -434,6 +434,13 @@ namespace
         constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
         constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
+        // there is nothing to do if the source or the destination is empty (note: this is written so that it also catches NaNs)
+        if (resize_info.srcWidth <= 0 || resize_info.srcHeight <= 0 ||
+            !(resize_info.srcRoiW > 0) || !(resize_info.srcRoiH > 0) || !(resize_info.dstRoiW > 0) || !(resize_info.dstRoiH > 0))
+        {
+            return;
+        }
+
         const int dstXStart = (std::max)(static_cast<int>(resize_info.dstRoiX), 0);
         const int dstXEnd = (std::min)(static_cast<int>(resize_info.dstRoiX + resize_info.dstRoiW), resize_info.dstWidth - 1);
 
-- 
2.43.0


From 9078de4fea05a71c2fb6c7eaa9359ba0a60150b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:00 +0000
Subject: [PATCH 051/102] fix: pyramid-layer accessor: do not overflow when
 calculating the region and the position of a tile

---
 Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index f94756b..419e54f 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -78,7 +78,9 @@ void CSingleChannelPyramidLevelTileAccessor::InternalGet(libCZI::IBitmapData* pD
     this->CheckPlaneCoordinates(planeCoordinate);
     Clear(pDest, options.backGroundColor);
     const auto sizeBitmap = pDest->GetSize();
-    const auto subSet = GetSubBlocksSubset(IntRect{ xPos,yPos,static_cast<int>(sizeBitmap.w) * sizeOfPixelOnLayer0,static_cast<int>(sizeBitmap.h) * sizeOfPixelOnLayer0 }, planeCoordinate, pyramidInfo, options.sceneFilter.get(), options.sortByM);
+    const int roi_width = static_cast<int>((min)(static_cast<int64_t>(sizeBitmap.w) * sizeOfPixelOnLayer0, static_cast<int64_t>((numeric_limits<int>::max)())));
+    const int roi_height = static_cast<int>((min)(static_cast<int64_t>(sizeBitmap.h) * sizeOfPixelOnLayer0, static_cast<int64_t>((numeric_limits<int>::max)())));
+    const auto subSet = GetSubBlocksSubset(IntRect{ xPos, yPos, roi_width, roi_height }, planeCoordinate, pyramidInfo, options.sceneFilter.get(), options.sortByM);
     if (subSet.empty())
     {	// no subblocks were found in the requested plane/ROI, so there is nothing to do
         return;
@@ -122,8 +124,8 @@ void CSingleChannelPyramidLevelTileAccessor::ComposeTiles(libCZI::IBitmapData* b
                         options.maskAware);
                 out_bitmap = subblock_bitmap_data.bitmap;
                 out_mask_bitmap = subblock_bitmap_data.mask;
-                tile_x_position = (subblock_bitmap_data.subBlockInfo.logicalRect.x - xPos) / sizeOfPixel;
-                tile_y_position = (subblock_bitmap_data.subBlockInfo.logicalRect.y - yPos) / sizeOfPixel;
+                tile_x_position = static_cast<int>((static_cast<int64_t>(subblock_bitmap_data.subBlockInfo.logicalRect.x) - xPos) / sizeOfPixel);
+                tile_y_position = static_cast<int>((static_cast<int64_t>(subblock_bitmap_data.subBlockInfo.logicalRect.y) - yPos) / sizeOfPixel);
                 return true;
             }
 
-- 
2.43.0


From f4f9564e171dc57b77f8443bcf58aa0350f2fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:16 +0000
Subject: [PATCH 052/102] fix: reader-writer: an attempt to open which failed
 must not leave parts of the document behind

---
 Src/libCZI/CziReaderWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index b3a1ed1..f16fa03 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -97,6 +97,14 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     }
     catch (...)
     {
+        // discard everything which has been read so far, so that a subsequent attempt starts over
+        this->sbBlkDirectory = CReaderWriterCziSubBlockDirectory();
+        this->attachmentDirectory = CReaderWriterCziAttachmentsDirectory();
+        this->hdrSegmentData = CFileHeaderSegmentData();
+        this->metadataSegment.Invalidate();
+        this->subBlockDirectorySegment.Invalidate();
+        this->attachmentDirectorySegment.Invalidate();
+        this->nextSegmentInfo = CNextSegment();
         this->stream.reset();
         this->info.reset();
         throw;
-- 
2.43.0


From 895ded018204acc8d93106d7e9278d243a0e84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:16 +0000
Subject: [PATCH 053/102] fix: writer: must not be operational if creating the
 file failed

---
 Src/libCZI/CziWriter.cpp | 46 ++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 0d81421..b18bd70 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -931,27 +931,41 @@ CCziWriter::~CCziWriter()
         this->info = make_shared<CCziWriterInfo>(Utilities::GenerateNewGuid());
     }
 
-    FileHeaderData fhd;
-    memset(&fhd, 0, sizeof(fhd));
-    fhd.primaryFileGuid = this->info->GetFileGuid();
-    this->WriteFileHeader(fhd);
+    try
+    {
+        FileHeaderData fhd;
+        memset(&fhd, 0, sizeof(fhd));
+        fhd.primaryFileGuid = this->info->GetFileGuid();
+        this->WriteFileHeader(fhd);
 
-    this->nextSegmentPos = sizeof(FileHeaderSegment);
+        this->nextSegmentPos = sizeof(FileHeaderSegment);
 
-    size_t s;
-    if (this->info->TryGetReservedSizeForMetadataSegment(&s))
-    {
-        this->ReserveMetadataSegment(s);
-    }
+        size_t s;
+        if (this->info->TryGetReservedSizeForMetadataSegment(&s))
+        {
+            this->ReserveMetadataSegment(s);
+        }
 
-    if (this->info->TryGetReservedSizeForSubBlockDirectory(&s))
-    {
-        this->ReserveSubBlockDirectory(s);
-    }
+        if (this->info->TryGetReservedSizeForSubBlockDirectory(&s))
+        {
+            this->ReserveSubBlockDirectory(s);
+        }
 
-    if (this->info->TryGetReservedSizeForAttachmentDirectory(&s))
+        if (this->info->TryGetReservedSizeForAttachmentDirectory(&s))
+        {
+            this->ReserveAttachmentDirectory(s);
+        }
+    }
+    catch (...)
     {
-        this->ReserveAttachmentDirectory(s);
+        // if we fail here, then we are not operational
+        this->nextSegmentPos = 0;
+        this->metadataSegment.Invalidate();
+        this->subBlockDirectorySegment.Invalidate();
+        this->attachmentDirectorySegment.Invalidate();
+        this->stream.reset();
+        this->info.reset();
+        throw;
     }
 }
 
-- 
2.43.0


From 825f0aa356a83c85c4e6a225cd222479bfbac854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:16 +0000
Subject: [PATCH 054/102] fix: reader-writer: mark a replaced segment as
 deleted only after it is no longer referenced, so that an I/O-error does not
 leave an item referring to it

---
 Src/libCZI/CziReaderWriter.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index f16fa03..01bfef5 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -206,6 +206,12 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
         this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry));
+
+        // the existing segment is marked as deleted only after it is no longer referenced
+        CWriterUtils::MarkDeletedInfo mdi;
+        mdi.segmentPos = sbEntryExisting.FilePosition;
+        mdi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
+        CWriterUtils::WriteDeletedSegment(mdi);
     }
 }
 
@@ -599,11 +605,6 @@ std::tuple<bool, std::uint64_t, CCziSubBlockDirectoryBase::SubBlkEntry> CCziRead
 
     auto sizeOfSbBlk = CWriterUtils::WriteSubBlock(wi, addSubBlockInfo);
 
-    CWriterUtils::MarkDeletedInfo mdi;
-    mdi.segmentPos = subBlkEntry.FilePosition;
-    mdi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
-    CWriterUtils::WriteDeletedSegment(mdi);
-
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSubBlockInfo);
     entry.FilePosition = wi.segmentPos;
 
@@ -889,6 +890,12 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
         this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry));
+
+        // the existing segment is marked as deleted only after it is no longer referenced
+        CWriterUtils::MarkDeletedInfo mdi;
+        mdi.segmentPos = attchmntEntryExisting.FilePosition;
+        mdi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
+        CWriterUtils::WriteDeletedSegment(mdi);
     }
 }
 
@@ -920,11 +927,6 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
 
     auto sizeOfSbBlk = CWriterUtils::WriteAttachment(wi, addAttchmntInfo);
 
-    CWriterUtils::MarkDeletedInfo mdi;
-    mdi.segmentPos = attchmntInfo.FilePosition;
-    mdi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
-    CWriterUtils::WriteDeletedSegment(mdi);
-
     CCziAttachmentsDirectoryBase::AttachmentEntry entry;
     entry.FilePosition = wi.segmentPos;
     entry.ContentGuid = addAttchmntInfo.contentGuid;
-- 
2.43.0


From d64da13ba292400a4447918f51bb8580863023d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:28 +0000
Subject: [PATCH 055/102] fix: reader-writer: check the arguments when
 replacing a sub-block or attachment, so that an invalid request does not
 destroy the existing item

---
 Src/libCZI/CziReaderWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 01bfef5..2e83f2d 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -193,6 +193,10 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 /*virtual*/void CCziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfo& addSbBlkInfo)
 {
     this->ThrowIfNotOperational();
+
+    // check arguments
+    CWriterUtils::CheckAddSubBlockArguments(addSbBlkInfo);
+
     CCziSubBlockDirectoryBase::SubBlkEntry sbEntryExisting;
     bool b = this->sbBlkDirectory.TryGetSubBlock(key, &sbEntryExisting);
     if (b == false)
@@ -877,6 +881,10 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 /*virtual*/void CCziReaderWriter::ReplaceAttachment(int attchmntId, const libCZI::AddAttachmentInfo& addAttachmentInfo)
 {
     this->ThrowIfNotOperational();
+
+    // check arguments
+    CWriterUtils::CheckAddAttachmentArguments(addAttachmentInfo);
+
     CCziAttachmentsDirectoryBase::AttachmentEntry attchmntEntryExisting;
     bool b = this->attachmentDirectory.TryGetAttachment(attchmntId, &attchmntEntryExisting);
     if (b == false)
-- 
2.43.0


From 43c7ea7d872d3119c842916f13060dab95d95ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:28 +0000
Subject: [PATCH 056/102] fix: writer: the bounds for the M-index have to be
 checked also if there are no bounds for the dimensions

---
 Src/libCZI/CziWriter.cpp | 44 +++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index b18bd70..4305e09 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -1332,36 +1332,34 @@ void CCziWriter::ThrowIfCoordinateIsOutOfBounds(const libCZI::AddSubBlockInfo& a
 CCziWriter::SbBlkCoordinateCheckResult CCziWriter::CheckCoordinate(const libCZI::AddSubBlockInfo& addSbBlkInfo) const
 {
     const IDimBounds* dimBounds = this->info->GetDimBounds();
-    if (dimBounds == nullptr)
+    if (dimBounds != nullptr)
     {
-        return SbBlkCoordinateCheckResult::Ok;
-    }
-
-    int cntOfValidDimensionsInDimBounds = 0;
-    for (auto i = static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MinDim); i <= static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MaxDim); ++i)
-    {
-        int startIndex, sizeIndex;
-        if (dimBounds->TryGetInterval(static_cast<DimensionIndex>(i), &startIndex, &sizeIndex))
+        int cntOfValidDimensionsInDimBounds = 0;
+        for (auto i = static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MinDim); i <= static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MaxDim); ++i)
         {
-            int coord;
-            bool b = addSbBlkInfo.coordinate.TryGetPosition(static_cast<DimensionIndex>(i), &coord);
-            if (b == false)
+            int startIndex, sizeIndex;
+            if (dimBounds->TryGetInterval(static_cast<DimensionIndex>(i), &startIndex, &sizeIndex))
             {
-                return SbBlkCoordinateCheckResult::InsufficientCoordinate;
-            }
+                int coord;
+                bool b = addSbBlkInfo.coordinate.TryGetPosition(static_cast<DimensionIndex>(i), &coord);
+                if (b == false)
+                {
+                    return SbBlkCoordinateCheckResult::InsufficientCoordinate;
+                }
 
-            if (!(startIndex <= coord && (startIndex + sizeIndex) > coord))
-            {
-                return SbBlkCoordinateCheckResult::OutOfBounds;
-            }
+                if (!(startIndex <= coord && (static_cast<int64_t>(startIndex) + sizeIndex) > coord))
+                {
+                    return SbBlkCoordinateCheckResult::OutOfBounds;
+                }
 
-            ++cntOfValidDimensionsInDimBounds;
+                ++cntOfValidDimensionsInDimBounds;
+            }
         }
-    }
 
-    if (cntOfValidDimensionsInDimBounds != addSbBlkInfo.coordinate.GetNumberOfValidDimensions())
-    {
-        return SbBlkCoordinateCheckResult::UnexpectedCoordinate;
+        if (cntOfValidDimensionsInDimBounds != addSbBlkInfo.coordinate.GetNumberOfValidDimensions())
+        {
+            return SbBlkCoordinateCheckResult::UnexpectedCoordinate;
+        }
     }
 
     int mMin, mMax;
-- 
2.43.0


From d5c5dae33a3c1295397c184a6f288011408dbf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:37 +0000
Subject: [PATCH 057/102] fix: reader: opening a document without attachments
 must not report the attachments of the document opened before

---
 Src/libCZI/CZIReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index eda6ab7..ded2a55 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -56,6 +56,7 @@ CCZIReader::CCZIReader() :
     this->hdrSegmentData = CCZIParse::ReadFileHeaderSegmentData(stream.get());
     this->subBlkDir = CCZIParse::ReadSubBlockDirectory(stream.get(), this->hdrSegmentData.GetSubBlockDirectoryPosition(), GetParseOptionsFromOpenOptions(*options));
     const auto attachmentPos = this->hdrSegmentData.GetAttachmentDirectoryPosition();
+    this->attachmentDir = CCziAttachmentsDirectory();   // discard what may be left from a document opened before
     if (attachmentPos != 0)
     {
         // we should be operational without an attachment-directory as well I suppose.
-- 
2.43.0


From 0bd66fef5bd4c2c46268c5177e8e71396f965e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:04 +0000
Subject: [PATCH 058/102] fix: choosing the SIMD implementation at first use
 must not be a data race

---
 Src/libCZI/utilities_simd.cpp | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/Src/libCZI/utilities_simd.cpp b/Src/libCZI/utilities_simd.cpp
index 47b37f1..012328f 100644
--- a/Src/libCZI/utilities_simd.cpp
+++ b/Src/libCZI/utilities_simd.cpp
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <atomic>
 #include <stdexcept>
 #include <cstdint>
 #include "inc_libCZI_Config.h"
@@ -86,21 +87,8 @@ static int check_4th_gen_intel_core_features()
 
 static bool CheckWhetherCpuSupportsAVX2()
 {
-    static int avx2Supported = -1;
-
-    if (avx2Supported == 0)
-    {
-        return false;
-    }
-    else if (avx2Supported == 1)
-    {
-        return true;
-    }
-    else
-    {
-        avx2Supported = (check_4th_gen_intel_core_features() > 0) ? 1 : 0;
-        return (avx2Supported == 1);
-    }
+    static const bool avx2Supported = check_4th_gen_intel_core_features() > 0;
+    return avx2Supported;
 }
 
 class LoHiBytePackUnpackAvx : public LoHiBytePackUnpack
@@ -109,8 +97,8 @@ public:
     typedef void(*pfnLoHiByteUnpackStrided_t)(const void*, std::uint32_t, std::uint32_t, std::uint32_t, void*);
     typedef void(*pfnLoHiBytePackStrided_t)(const void*, size_t, std::uint32_t, std::uint32_t, std::uint32_t, void*);
 
-    static pfnLoHiByteUnpackStrided_t pfnLoHiByteUnpackStrided;
-    static pfnLoHiBytePackStrided_t pfnLoHiBytePackStrided;
+    static std::atomic<pfnLoHiByteUnpackStrided_t> pfnLoHiByteUnpackStrided;
+    static std::atomic<pfnLoHiBytePackStrided_t> pfnLoHiBytePackStrided;
 
     static void LoHiByteUnpackStrided_Choose(const void* ptrSrc, std::uint32_t wordCount, std::uint32_t stride, std::uint32_t lineCount, void* ptrDst);
     static void LoHiBytePackStrided_Choose(const void* ptrSrc, size_t sizeSrc, std::uint32_t width, std::uint32_t height, std::uint32_t stride, void* dest);
@@ -119,19 +107,19 @@ public:
     static void LoHiBytePackStrided_AVX(const void* ptrSrc, size_t sizeSrc, std::uint32_t width, std::uint32_t height, std::uint32_t stride, void* dest);
 };
 
-LoHiBytePackUnpackAvx::pfnLoHiByteUnpackStrided_t LoHiBytePackUnpackAvx::pfnLoHiByteUnpackStrided = &LoHiBytePackUnpackAvx::LoHiByteUnpackStrided_Choose;
-LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided_t LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided = &LoHiBytePackUnpackAvx::LoHiBytePackStrided_Choose;
+std::atomic<LoHiBytePackUnpackAvx::pfnLoHiByteUnpackStrided_t> LoHiBytePackUnpackAvx::pfnLoHiByteUnpackStrided{ &LoHiBytePackUnpackAvx::LoHiByteUnpackStrided_Choose };
+std::atomic<LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided_t> LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided{ &LoHiBytePackUnpackAvx::LoHiBytePackStrided_Choose };
 
 /*static*/void LoHiBytePackUnpack::LoHiByteUnpackStrided(const void* ptrSrc, std::uint32_t wordCount, std::uint32_t stride, std::uint32_t lineCount, void* ptrDst)
 {
     LoHiBytePackUnpack::CheckLoHiByteUnpackArgumentsAndThrow(wordCount, stride, ptrSrc, ptrDst);
-    (*LoHiBytePackUnpackAvx::pfnLoHiByteUnpackStrided)(ptrSrc, wordCount, stride, lineCount, ptrDst);
+    (*LoHiBytePackUnpackAvx::pfnLoHiByteUnpackStrided.load())(ptrSrc, wordCount, stride, lineCount, ptrDst);
 }
 
 /*static*/void LoHiBytePackUnpack::LoHiBytePackStrided(const void* ptrSrc, size_t sizeSrc, std::uint32_t width, std::uint32_t height, std::uint32_t stride, void* dest)
 {
     LoHiBytePackUnpack::CheckLoHiBytePackArgumentsAndThrow(ptrSrc, sizeSrc, width, height, stride, dest);
-    (*LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided)(ptrSrc, sizeSrc, width, height, stride, dest);
+    (*LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided.load())(ptrSrc, sizeSrc, width, height, stride, dest);
 }
 
 /*static*/void LoHiBytePackUnpackAvx::LoHiByteUnpackStrided_AVX(const void* source, std::uint32_t wordCount, std::uint32_t stride, std::uint32_t lineCount, void* dest)
@@ -218,7 +206,7 @@ LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided_t LoHiBytePackUnpackAvx::pfnLoHiBy
         LoHiBytePackUnpackAvx::pfnLoHiByteUnpackStrided = LoHiBytePackUnpackAvx::LoHiByteUnpackStrided_C;
     }
 
-    (*LoHiBytePackUnpackAvx::pfnLoHiByteUnpackStrided)(ptrSrc, wordCount, stride, lineCount, ptrDst);
+    (*LoHiBytePackUnpackAvx::pfnLoHiByteUnpackStrided.load())(ptrSrc, wordCount, stride, lineCount, ptrDst);
 }
 
 /*static*/void LoHiBytePackUnpackAvx::LoHiBytePackStrided_Choose(const void* ptrSrc, size_t sizeSrc, std::uint32_t width, std::uint32_t height, std::uint32_t stride, void* dest)
@@ -232,7 +220,7 @@ LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided_t LoHiBytePackUnpackAvx::pfnLoHiBy
         LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided = LoHiBytePackUnpackAvx::LoHiBytePackStrided_C;
     }
 
-    (*LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided)(ptrSrc, sizeSrc, width, height, stride, dest);
+    (*LoHiBytePackUnpackAvx::pfnLoHiBytePackStrided.load())(ptrSrc, sizeSrc, width, height, stride, dest);
 }
 
 #elif LIBCZI_HAS_NEOININTRINSICS
-- 
2.43.0


From e379596360dbdbb0c62b7c10b3c26bc3e3af0c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:04 +0000
Subject: [PATCH 059/102] fix: reader: the operational state is accessed
 concurrently by Close and other operations

---
 Src/libCZI/CZIReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CZIReader.h b/Src/libCZI/CZIReader.h
index 7bd08fa..fa5fa62 100644
--- a/Src/libCZI/CZIReader.h
+++ b/Src/libCZI/CZIReader.h
@@ -6,6 +6,7 @@
 
 #include <functional>
 #include <memory>
+#include <atomic>
 #include <mutex>
 #include "libCZI.h"
 #include "CziSubBlockDirectory.h"
@@ -25,7 +26,7 @@ namespace libCZI
             CFileHeaderSegmentData hdrSegmentData;
             CCziSubBlockDirectory subBlkDir;
             CCziAttachmentsDirectory attachmentDir;
-            bool    isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
+            std::atomic<bool> isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
             libCZI::CZIFrameOfReference default_frame_of_reference;
             libCZI::ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy sub_block_directory_info_policy_;
         public:
-- 
2.43.0


From 53568ff5cc0e86beeefa81c0bfe24b34a4fb749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:40 +0000
Subject: [PATCH 060/102] fix: filling a region of a bitonal bitmap: clip the
 region correctly if it lies left of or above the bitmap or is very large

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 9966f20..8507ae5 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -1048,12 +1048,13 @@ namespace
 
 /*static*/void BitmapOperationsBitonal::Fill(std::uint32_t width, std::uint32_t height, void* ptrData, std::uint32_t stride, const libCZI::IntRect& roi, bool value)
 {
-    const int x1 = (std::max)(roi.x, 0);
-    const int y1 = (std::max)(roi.y, 0);
-    const int x2 = (std::min)(static_cast<uint32_t>(roi.x + roi.w), width);
-    const int y2 = (std::min)(static_cast<uint32_t>(roi.y + roi.h), height);
-    const int w = x2 - x1;
-    const int h = y2 - y1;
+    // (with 64-bit arithmetic, because the sum of coordinate and extent may be negative or exceed the range of an int)
+    const std::int64_t x1 = (std::max)(roi.x, 0);
+    const std::int64_t y1 = (std::max)(roi.y, 0);
+    const std::int64_t x2 = (std::min)(static_cast<std::int64_t>(roi.x) + roi.w, static_cast<std::int64_t>(width));
+    const std::int64_t y2 = (std::min)(static_cast<std::int64_t>(roi.y) + roi.h, static_cast<std::int64_t>(height));
+    const std::int64_t w = x2 - x1;
+    const std::int64_t h = y2 - y1;
 
     if (w <= 0 || h <= 0)
     {
@@ -1061,8 +1062,8 @@ namespace
     }
 
     // first, fill the "bulk"
-    const int x1RoundedUp = ((x1 + 7) / 8) * 8;
-    const int wRounded = w - (x1RoundedUp - x1);
+    const std::int64_t x1RoundedUp = ((x1 + 7) / 8) * 8;
+    const std::int64_t wRounded = w - (x1RoundedUp - x1);
     if (wRounded >= 8)
     {
         SetByte(
@@ -1073,7 +1074,7 @@ namespace
     }
 
     // ...now we just have to deal with the two vertical borders...
-    int rem = x1 % 8;
+    int rem = static_cast<int>(x1 % 8);
     if (rem != 0)
     {
         const uint8_t v = w >= 8 ? 0xff : static_cast<uint8_t>(0xff << (8 - w));    // we must not set more bits than our width
@@ -1092,7 +1093,7 @@ namespace
 
     if (rem == 0 || x1 / 8 < x2 / 8)	// check whether the "right border" is a different byte than the left border, otherwise - nothing to do here
     {
-        rem = x2 % 8;
+        rem = static_cast<int>(x2 % 8);
         if (rem != 0)
         {
             const uint8_t rightBorderValue = static_cast<uint8_t>(0xff << (8 - rem));
-- 
2.43.0


From 6931874cd7f4c3f0da14c754aee124a156c79500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:18 +0000
Subject: [PATCH 061/102] fix: decimating a bitonal bitmap: all lines of the
 neighborhood have to be considered

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 8507ae5..813e619 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -301,7 +301,7 @@ namespace
         for (int i = start; i <= end; ++i)
         {
             dw &= *ptr;
-            ptr = reinterpret_cast<const uint32_t*>(static_cast<const uint8_t*>(ptrSrc) + pitchSrc);
+            ptr = reinterpret_cast<const uint32_t*>(reinterpret_cast<const uint8_t*>(ptr) + pitchSrc);
         }
 
         return dw;
-- 
2.43.0


From e505451e0761c49c31a4f9929f4dc96098c613eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:18 +0000
Subject: [PATCH 062/102] fix: decimating a bitonal bitmap: the byte next to a
 group of 32 pixels must not be read from beyond the line, and all lines of
 the neighborhood have to be considered

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 31 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 813e619..bb4f81b 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -109,7 +109,7 @@ namespace
     private:
         static const std::uint8_t DecimateBitonalTable[256];
         static void DecimateLine(int y, int height, int regionSize, const std::uint8_t* ptrSrc, int widthSrc, int strideSrc, std::uint8_t* ptrDest, int widthDest, int strideDest);
-        static std::uint8_t GetByteAfter(const void* ptr, int x, int width);
+        static std::uint8_t GetByteAfter(int y, int height, const void* ptr, int x, int width, int stride);
         static std::uint16_t FilterDword(std::uint32_t dw, uint8_t byteBefore, uint8_t byteAfter);
     };
 
@@ -175,7 +175,7 @@ namespace
 
         for (int x = 0; x < numberOfDwords; ++x)
         {
-            uint8_t byteAfter = GetByteAfter(ptrSrc, (x * 4) + 4, widthSrc);
+            uint8_t byteAfter = GetByteAfter(y, height, ptrSrc, (x * 4) + 4, widthSrc, strideSrc);
             uint32_t dw = EndianessConv::BswapDWORD(DecimateHelpers<RegionSize>::GetDword(y, height, ptrSrc + static_cast<size_t>(x) * 4, strideSrc));
             uint16_t dest = FilterDword(dw, byteBefore, byteAfter);
             byteBefore = static_cast<uint8_t>(dw);
@@ -203,14 +203,33 @@ namespace
     }
 
     template <int RegionSize, class EndianessConv>
-    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(const void* ptr, int x, int width)
+    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(int y, int height, const void* ptr, int x, int width, int stride)
     {
-        if (x < width)
+        // note: 'x' is in units of bytes, whereas 'width' is the number of pixels (i.e. bits) 
+        const int bitCount = width - x * 8;
+        if (bitCount <= 0)
         {
-            return *(static_cast<const uint8_t*>(ptr) + x);
+            return 0xff;
         }
 
-        return 0xff;
+        const int start = (std::max)(y - RegionSize, 0);
+        const int end = (std::min)(y + RegionSize, height - 1);
+
+        const uint8_t* ptrByte = static_cast<const uint8_t*>(ptr) - (y - start) * static_cast<size_t>(stride) + x;
+        uint8_t b = 0xff;
+        for (int i = start; i <= end; ++i)
+        {
+            b &= *ptrByte;
+            ptrByte += stride;
+        }
+
+        if (bitCount < 8)
+        {
+            // the bits beyond the width of the bitmap must have no effect
+            b |= static_cast<uint8_t>(0xff >> bitCount);
+        }
+
+        return b;
     }
 
     template <>
-- 
2.43.0


From bcc213f6a7f1bf762a4696f0afb79193123da134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:18 +0000
Subject: [PATCH 063/102] fix: decimating a bitonal bitmap: do not write beyond
 the line of the destination

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index bb4f81b..03ee231 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -191,11 +191,14 @@ namespace
             // then filter the DWORD as usually
             const uint16_t dest = FilterDword(dw, byteBefore, 0xff);
 
-            if (bitsRemaining <= 16)
+            // note: the destination may end before the pixels we have calculated here (if the width of the source is an odd number), so
+            //        we must not write more bytes than what the line of the destination has
+            const int bytesRemaining = (widthDest + 7) / 8 - 2 * numberOfDwords;
+            if (bytesRemaining == 1)
             {
                 *reinterpret_cast<uint8_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = static_cast<uint8_t>(dest >> 8);
             }
-            else
+            else if (bytesRemaining > 1)
             {
                 *reinterpret_cast<uint16_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = EndianessConv::BswapUSHORT(dest);
             }
-- 
2.43.0


From 06259dfb268624a066aa2beb102cec63297e0957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:18 +0000
Subject: [PATCH 064/102] fix: check of a bitonal bitmap's lock information
 must not overflow

---
 Src/libCZI/libCZI_Pixels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/libCZI_Pixels.cpp b/Src/libCZI/libCZI_Pixels.cpp
index 20d8f14..3df7393 100644
--- a/Src/libCZI/libCZI_Pixels.cpp
+++ b/Src/libCZI/libCZI_Pixels.cpp
@@ -25,7 +25,7 @@ namespace
             throw std::invalid_argument("extent must have non-zero width and height.");
         }
 
-        const size_t minimal_stride = (extent.w + 7) / 8;
+        const std::uint64_t minimal_stride = (static_cast<std::uint64_t>(extent.w) + 7) / 8;
         if (lockInfo.stride < minimal_stride)
         {
             throw std::invalid_argument("lockInfo.stride is too small for the specified stride.");
-- 
2.43.0


From f200859b5ddef12a7dc342bbdffb2973642c1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:44 +0000
Subject: [PATCH 065/102] fix: nearest-neighbor scaling: when magnifying, fill
 the destination completely (the pixels covered by the last column and line of
 the source were left uninitialized)

---
 Src/libCZI/BitmapOperations.hpp        | 8 ++++++--
 Src/libCZI/BitmapOperationsBitonal.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index a151c29..d5fcca6 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -440,10 +440,14 @@ namespace libCZI
             auto xMin = ((0 - resizeInfo.srcRoiX) * resizeInfo.dstRoiW) / (resizeInfo.srcRoiW) + resizeInfo.dstRoiX;
             auto xMax = ((resizeInfo.srcWidth - 1 - resizeInfo.srcRoiX) * (resizeInfo.dstRoiW)) / resizeInfo.srcRoiW + resizeInfo.dstRoiX;
 
+            // when magnifying, the last pixel of the source covers more than one pixel in the destination
+            auto yEnd = ((resizeInfo.srcHeight - resizeInfo.srcRoiY) * resizeInfo.dstRoiH) / resizeInfo.srcRoiH + resizeInfo.dstRoiY;
+            auto xEnd = ((resizeInfo.srcWidth - resizeInfo.srcRoiX) * resizeInfo.dstRoiW) / resizeInfo.srcRoiW + resizeInfo.dstRoiX;
+
             const int dstXStartClipped = (std::max)(static_cast<int>(std::ceil(xMin)), dstXStart);
-            const int dstXEndClipped = (std::min)(static_cast<int>(std::ceil(xMax)), dstXEnd);
+            const int dstXEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(xMax)), static_cast<int>(std::ceil(xEnd)) - 1), dstXEnd);
             const int dstYStartClipped = (std::max)(static_cast<int>(std::ceil(yMin)), dstYStart);
-            const int dstYEndClipped = (std::min)(static_cast<int>(std::ceil(yMax)), dstYEnd);
+            const int dstYEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(yMax)), static_cast<int>(std::ceil(yEnd)) - 1), dstYEnd);
 
             const auto srcWidthOverDstWidth = resizeInfo.srcRoiW / resizeInfo.dstRoiW;
             const auto srcHeightOverDstHeight = resizeInfo.srcRoiH / resizeInfo.dstRoiH;
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 03ee231..5862349 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -474,10 +474,14 @@ namespace
         auto xMin = ((0 - resize_info.srcRoiX) * resize_info.dstRoiW) / (resize_info.srcRoiW) + resize_info.dstRoiX;
         auto xMax = ((resize_info.srcWidth - 1 - resize_info.srcRoiX) * (resize_info.dstRoiW)) / resize_info.srcRoiW + resize_info.dstRoiX;
 
+        // when magnifying, the last pixel of the source covers more than one pixel in the destination
+        auto yEnd = ((resize_info.srcHeight - resize_info.srcRoiY) * resize_info.dstRoiH) / resize_info.srcRoiH + resize_info.dstRoiY;
+        auto xEnd = ((resize_info.srcWidth - resize_info.srcRoiX) * resize_info.dstRoiW) / resize_info.srcRoiW + resize_info.dstRoiX;
+
         const int dstXStartClipped = (std::max)(static_cast<int>(std::ceil(xMin)), dstXStart);
-        const int dstXEndClipped = (std::min)(static_cast<int>(std::ceil(xMax)), dstXEnd);
+        const int dstXEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(xMax)), static_cast<int>(std::ceil(xEnd)) - 1), dstXEnd);
         const int dstYStartClipped = (std::max)(static_cast<int>(std::ceil(yMin)), dstYStart);
-        const int dstYEndClipped = (std::min)(static_cast<int>(std::ceil(yMax)), dstYEnd);
+        const int dstYEndClipped = (std::min)((std::max)(static_cast<int>(std::ceil(yMax)), static_cast<int>(std::ceil(yEnd)) - 1), dstYEnd);
 
         const auto srcWidthOverDstWidth = resize_info.srcRoiW / resize_info.dstRoiW;
         const auto srcHeightOverDstHeight = resize_info.srcRoiH / resize_info.dstRoiH;
-- 
2.43.0


From 72f3dc2ea43e3d2a08acec0edd77c7415945c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 066/102] fix: enumerating the coordinates inside bounds: there
 are none if a dimension has no extent, and do not overflow

---
 Src/libCZI/libCZI_Utilities.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/libCZI_Utilities.cpp b/Src/libCZI/libCZI_Utilities.cpp
index 3bb0066..f59dcc9 100644
--- a/Src/libCZI/libCZI_Utilities.cpp
+++ b/Src/libCZI/libCZI_Utilities.cpp
@@ -626,16 +626,25 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
 
     CDimCoordinate coord;
     std::vector<DimensionIndex> dims;
+    bool containsNoCoordinate = false;
     bounds.EnumValidDimensions(
         [&](libCZI::DimensionIndex dim, int start, int size)->bool
         {
-            (void)size;
+            if (size <= 0)
+            {
+                containsNoCoordinate = true;
+            }
 
             coord.Set(dim, start);
             dims.push_back(dim);
             return true;
         });
 
+    if (containsNoCoordinate)
+    {
+        return true;
+    }
+
     uint64_t coordNo = 0;
     for (;;)
     {
@@ -652,7 +661,7 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
             int minVal, sizeVal;
             bounds.TryGetInterval(dims[i], &minVal, &sizeVal);
 
-            if (v < minVal + sizeVal - 1)
+            if (v < static_cast<std::int64_t>(minVal) + sizeVal - 1)
             {
                 ++v;
                 coord.Set(dims[i], v);
-- 
2.43.0


From 43be2f50a9e3c54d463fdc6cf39f6929fc1663db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 067/102] fix: parsing a coordinate: accept a negative number
 with ten digits also if it has a leading zero

---
 Src/libCZI/DimCoordinate.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/DimCoordinate.cpp b/Src/libCZI/DimCoordinate.cpp
index 7161769..2e9cf81 100644
--- a/Src/libCZI/DimCoordinate.cpp
+++ b/Src/libCZI/DimCoordinate.cpp
@@ -99,9 +99,9 @@ public:
 private:
     static bool Int_ParseCoordinate(const char* str, int& charsParsedOk, DimensionIndex& dimIdx, int& value)
     {
-        // a 32-bit integer can have 10 digits at most, plus one for the +/- sign , that's 11 altogether
-        // plus the trailing zero, which gives us 12
-        constexpr int MAX_CHARS_FOR_NUMBER = 11;
+        // a 32-bit integer can have 10 digits at most, plus one for the +/- sign and one for a leading zero (which we store), that's
+        // 12 altogether plus the trailing zero, which gives us 13
+        constexpr int MAX_CHARS_FOR_NUMBER = 12;
         char number[MAX_CHARS_FOR_NUMBER + 1];
         int numberPos = 0;
         charsParsedOk = 0;
-- 
2.43.0


From bb05a0fc9abccd666692c2bf6f83499cd65e055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 068/102] fix: parsing bounds: do not skip over text which is
 not understood

---
 Src/libCZI/DimCoordinate.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/DimCoordinate.cpp b/Src/libCZI/DimCoordinate.cpp
index 2e9cf81..d31c424 100644
--- a/Src/libCZI/DimCoordinate.cpp
+++ b/Src/libCZI/DimCoordinate.cpp
@@ -3,6 +3,8 @@
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
 #include "libCZI.h"
+#include <algorithm>
+#include <cctype>
 #include <climits>
 #include <regex>
 
@@ -43,7 +45,7 @@ public:
     static CDimBounds ParseBounds(const char* str)
     {
         string s(str);
-        regex bounds_regex(R"((?:([a-zA-Z])(?:([\+|-]?[0-9]+):([\+|-]?[0-9]+))\s*))");
+        regex bounds_regex(R"((?:([a-zA-Z])(?:([+-]?[0-9]+):([+-]?[0-9]+))\s*))");
 
         std::regex_iterator<std::string::iterator> it(s.begin(), s.end(), bounds_regex);
         std::regex_iterator<std::string::iterator> end;
@@ -55,6 +57,13 @@ public:
         {
             if (it->size() == 4)
             {
+                // there must be nothing in between two matches, and before the first one there may only be whitespace
+                const auto prefix = it->prefix().str();
+                if (std::any_of(prefix.cbegin(), prefix.cend(), [](unsigned char c)->bool {return isspace(c) == 0; }))
+                {
+                    throw LibCZIStringParseException("Bounds-string did not parse", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+                }
+
                 auto dimMatch = it->operator[](1);
                 auto dimIdx = Utils::CharToDimension(dimMatch.str()[0]);
                 if (dimIdx == DimensionIndex::invalid)
-- 
2.43.0


From 7b79e53da92a53755fcb39ed27aebf07a38d557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 069/102] fix: parsing an index-set: a sign without digits is
 not a number

---
 Src/libCZI/IndexSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Src/libCZI/IndexSet.cpp b/Src/libCZI/IndexSet.cpp
index ace691d..a359ad9 100644
--- a/Src/libCZI/IndexSet.cpp
+++ b/Src/libCZI/IndexSet.cpp
@@ -163,6 +163,12 @@ second_part_done:
     }
     else
     {
+        if (str.empty() || !iswdigit(str.back()))
+        {
+            // there is only a sign, but no digit
+            throw LibCZIStringParseException("Syntax error", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+        }
+
         long int liValue = wcstol(str.c_str(), nullptr, 10);
         if (liValue == (std::numeric_limits<long int>::max)() || liValue == (std::numeric_limits<long int>::min)())
         {
-- 
2.43.0


From 452b91c273f33528a6e5d6bb7e76ddbdece2a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:45 +0000
Subject: [PATCH 070/102] fix: look-up tables: black/white points outside of
 0..1 (or next to each other) gave tables of wrong size, shifted or undefined
 values

---
 Src/libCZI/libCZI_Utilities.cpp | 57 +++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/Src/libCZI/libCZI_Utilities.cpp b/Src/libCZI/libCZI_Utilities.cpp
index f59dcc9..c060172 100644
--- a/Src/libCZI/libCZI_Utilities.cpp
+++ b/Src/libCZI/libCZI_Utilities.cpp
@@ -194,30 +194,51 @@ static double CalcSplineValue(double x, const std::vector<libCZI::IDisplaySettin
     return CSplines::CalculateSplineValue(xPosNormalized, splineData.at(index).coefficients);
 }
 
+/// Get the position in a look-up table (with the specified number of elements) which corresponds to the specified
+/// (normalized) position. The position may be outside of the table (if the normalized position is not in the range 0 to 1).
+template <typename tFloat>
+static int GetPositionInLookUpTable(int tableElementCnt, tFloat position)
+{
+    constexpr int Limit = 1 << 29;
+    const tFloat positionInTable = tableElementCnt * position;
+    if (positionInTable >= static_cast<tFloat>(Limit))
+    {
+        return Limit;
+    }
+
+    if (!(positionInTable > static_cast<tFloat>(-Limit)))
+    {
+        return -Limit;
+    }
+
+    return static_cast<int>(positionInTable);
+}
+
 /*static*/std::vector<std::uint8_t> Utils::Create8BitLookUpTableFromSplines(int tableElementCnt, float blackPoint, float whitePoint, const std::vector<libCZI::IDisplaySettings::SplineData>& splineData)
 {
     std::vector<std::uint8_t> lut;
     lut.reserve(tableElementCnt);
 
     // TODO - look into rounding
-    int blackVal = static_cast<int>(tableElementCnt * blackPoint);
-    int whiteVal = static_cast<int>(tableElementCnt * whitePoint);
+    const int blackVal = GetPositionInLookUpTable(tableElementCnt, blackPoint);
+    const int whiteVal = GetPositionInLookUpTable(tableElementCnt, whitePoint);
 
-    for (int i = 0; i < blackVal; ++i)
+    // note: black-point and white-point may be outside of the table, the table always has exactly 'tableElementCnt' elements
+    int i = 0;
+    for (; i < (std::min)(blackVal, tableElementCnt); ++i)
     {
         lut.emplace_back(0);
     }
 
-    for (int i = blackVal; i < whiteVal; ++i)
+    for (; i < (std::min)(whiteVal, tableElementCnt); ++i)
     {
-        double x = (i - blackVal) / static_cast<double>(whiteVal - blackVal - 1);
-        double s = CalcSplineValue(x, splineData);
-        int is = static_cast<int>(s * 255);
-        std::uint8_t value = (is < 0 ? 0 : is>255 ? 255 : static_cast<std::uint8_t>(is));
+        const double x = (whiteVal - blackVal > 1) ? (i - blackVal) / static_cast<double>(whiteVal - blackVal - 1) : 0;
+        const double s = CalcSplineValue(x, splineData) * 255;
+        std::uint8_t value = !(s > 0) ? 0 : s > 255 ? 255 : static_cast<std::uint8_t>(s);
         lut.emplace_back(value);
     }
 
-    for (int i = whiteVal; i < tableElementCnt; ++i)
+    for (; i < tableElementCnt; ++i)
     {
         lut.emplace_back(255);
     }
@@ -282,10 +303,12 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
 {
     std::vector<tOutput> lut; lut.reserve(tableElementCnt);
 
-    int lowOut = static_cast<int>(blackPoint * tableElementCnt);
-    int highOut = static_cast<int>(whitePoint * tableElementCnt);
+    const int lowOut = GetPositionInLookUpTable(tableElementCnt, blackPoint);
+    const int highOut = GetPositionInLookUpTable(tableElementCnt, whitePoint);
 
-    for (int i = 0; i < lowOut; ++i)
+    // note: black-point and white-point may be outside of the table, the table always has exactly 'tableElementCnt' elements
+    int i = 0;
+    for (; i < (std::min)(lowOut, tableElementCnt); ++i)
     {
         lut.emplace_back(0);
     }
@@ -299,9 +322,9 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
         tFloat a = GetParameterForToeSlopeAdjustment(gamma);
         tFloat denumeratorToeSlope = (std::pow(a + 1, gamma) - 1);
 
-        for (int i = lowOut; i < highOut; ++i)
+        for (; i < (std::min)(highOut, tableElementCnt); ++i)
         {
-            tFloat x = (i - lowOut) / tFloat(highOut - lowOut - 1);
+            tFloat x = (highOut - lowOut > 1) ? (i - lowOut) / tFloat(highOut - lowOut - 1) : 0;
 
             tFloat val = maxOut * (pow(a * x + 1, gamma) - 1) / denumeratorToeSlope;
             if (val > maxOut)
@@ -319,9 +342,9 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
     }
     else
     {
-        for (int i = lowOut; i < highOut; ++i)
+        for (; i < (std::min)(highOut, tableElementCnt); ++i)
         {
-            tFloat x = (i - lowOut) / tFloat(highOut - lowOut - 1);
+            tFloat x = (highOut - lowOut > 1) ? (i - lowOut) / tFloat(highOut - lowOut - 1) : 0;
             tFloat val = maxOut * pow(x, gamma);
             if (val > maxOut)
             {
@@ -337,7 +360,7 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
         }
     }
 
-    for (int i = highOut; i < tableElementCnt; ++i)
+    for (; i < tableElementCnt; ++i)
     {
         lut.emplace_back(maxOut);
     }
-- 
2.43.0


From a10d7afc0f1ef0b785a08e0b6853e50f03262544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:45 +0000
Subject: [PATCH 071/102] fix: writing display-settings: the weight of a
 channel was not written

---
 Src/libCZI/CziMetadataBuilder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 4242f62..2192ac0 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -966,6 +966,7 @@ static void WriteChannelDisplaySettings(const IChannelDisplaySetting* channel_di
     channel_display_setting->GetBlackWhitePoint(&black_point, &white_point);
     node->GetOrCreateChildNode("Low")->SetValueFlt(black_point);
     node->GetOrCreateChildNode("High")->SetValueFlt(white_point);
+    node->GetOrCreateChildNode("Weight")->SetValueFlt(channel_display_setting->GetWeight());
 
     const auto gradation_curve_mode = channel_display_setting->GetGradationCurveMode();
     if (gradation_curve_mode == IDisplaySettings::GradationCurveMode::Gamma)
-- 
2.43.0


From d335861738fa7351f35d081da13398831b91aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:12 +0000
Subject: [PATCH 072/102] fix: writing floating point numbers into the
 metadata: write as many digits as necessary to recover the number

---
 Src/libCZI/CziMetadataBuilder.cpp | 12 ++++--------
 Src/libCZI/utilities.cpp          | 31 +++++++++++++++++++++++++++++++
 Src/libCZI/utilities.h            |  5 +++++
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 2192ac0..972046b 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -197,19 +197,15 @@ pugi::xml_node CNodeWrapper::GetChildNodePathMustExist(const char* path)
 /*virtual*/void CNodeWrapper::SetValueDbl(double value)
 {
     this->ThrowIfCannotSetValue();
-    wstringstream ss;
-    ss << std::setprecision(numeric_limits<double>::digits10) << value;
     auto pcdata = this->GetOrCreatePcDataChild();
-    pcdata.set_value(ss.str().c_str());
+    pcdata.set_value(Utilities::convertUtf8ToWchar_t(Utilities::FloatingPointToString(value).c_str()).c_str());
 }
 
 /*virtual*/void CNodeWrapper::SetValueFlt(float value)
 {
     this->ThrowIfCannotSetValue();
-    wstringstream ss;
-    ss << std::setprecision(numeric_limits<float>::digits10) << value;
     auto pcdata = this->GetOrCreatePcDataChild();
-    pcdata.set_value(ss.str().c_str());
+    pcdata.set_value(Utilities::convertUtf8ToWchar_t(Utilities::FloatingPointToString(value).c_str()).c_str());
 }
 
 /*virtual*/void CNodeWrapper::RemoveChildren()
@@ -804,7 +800,7 @@ bool libCZI::XmlDateTime::IsValid() const
                 ss << ' ';
             }
 
-            ss << std::setprecision(numeric_limits<double>::digits10) << v;
+            ss << Utilities::FloatingPointToString(v);
         }
 
         builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/T/Positions/List/Offsets")->SetValue(ss.str().c_str());
@@ -852,7 +848,7 @@ bool libCZI::XmlDateTime::IsValid() const
                 ss << ' ';
             }
 
-            ss << std::setprecision(numeric_limits<double>::digits10) << v;
+            ss << Utilities::FloatingPointToString(v);
         }
 
         builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/Positions/List/Offsets")->SetValue(ss.str().c_str());
diff --git a/Src/libCZI/utilities.cpp b/Src/libCZI/utilities.cpp
index 386c1bb..1d60a02 100644
--- a/Src/libCZI/utilities.cpp
+++ b/Src/libCZI/utilities.cpp
@@ -7,6 +7,8 @@
 #include <locale>
 #include <codecvt>
 #include <sstream>
+#include <iomanip>
+#include <limits>
 #include <cstring>
 #include <cwctype>
 #include <array>
@@ -211,6 +213,35 @@ tString trimImpl(const tString& str, const tString& whitespace)
 #endif
 }
 
+template <typename tFloat>
+static std::string InternalFloatingPointToString(tFloat value)
+{
+    ostringstream stream;
+    stream.imbue(locale::classic());
+    stream << setprecision(numeric_limits<tFloat>::digits10) << value;
+
+    istringstream input_stream(stream.str());
+    input_stream.imbue(locale::classic());
+    tFloat value_from_string;
+    if (!(input_stream >> value_from_string) || value_from_string != value)
+    {
+        stream.str(string());
+        stream << setprecision(numeric_limits<tFloat>::max_digits10) << value;
+    }
+
+    return stream.str();
+}
+
+/*static*/std::string Utilities::FloatingPointToString(double value)
+{
+    return InternalFloatingPointToString(value);
+}
+
+/*static*/std::string Utilities::FloatingPointToString(float value)
+{
+    return InternalFloatingPointToString(value);
+}
+
 /*static*/std::string Utilities::Rgb8ColorToString(const libCZI::Rgb8Color& color)
 {
     string color_text;
diff --git a/Src/libCZI/utilities.h b/Src/libCZI/utilities.h
index f4bc937..802d48e 100644
--- a/Src/libCZI/utilities.h
+++ b/Src/libCZI/utilities.h
@@ -144,6 +144,11 @@ namespace libCZI
             static bool TryGetRgb8ColorFromString(const std::wstring& strXml, libCZI::Rgb8Color& color);
             static std::string Rgb8ColorToString(const libCZI::Rgb8Color& color);
 
+            /// Convert the specified floating point number into a string, from which the number can be recovered exactly. The
+            /// shorter representation (with 'digits10' digits) is used if this is sufficient.
+            static std::string FloatingPointToString(double value);
+            static std::string FloatingPointToString(float value);
+
             static std::map<std::wstring, std::wstring> TokenizeAzureUriString(const std::wstring& input);
         };
 
-- 
2.43.0


From b95ce3fbb298532f80deb44f5a8dd6124a71cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:19 +0000
Subject: [PATCH 073/102] fix: XmlDateTime: negative years and negative
 single-digit time-zone offsets gave text which is not a valid date/time

---
 Src/libCZI/CziMetadataBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 972046b..25998f6 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -606,7 +606,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
 
     stringstream ss;
-    ss << setfill('0') << setw(4) << this->year << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
+    ss << ((this->year < 0) ? "-" : "") << setfill('0') << setw(4) << abs(this->year) << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
         << setw(2) << this->hour << ':' << setw(2) << this->min << ':' << setw(2) << this->sec;
     if (this->isUTC == true)
     {
@@ -614,7 +614,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
     else if (this->HasTimeZoneOffset())
     {
-        ss << ((this->offsetHours >= 0) ? "+" : "") << setw(2) << this->offsetHours << ':' << setw(2) << this->offsetMinutes;
+        ss << ((this->offsetHours >= 0) ? "+" : "-") << setw(2) << abs(this->offsetHours) << ':' << setw(2) << this->offsetMinutes;
     }
 
     return ss.str();
-- 
2.43.0


From 59195bb96be0268f57ea55f321d3b4311205a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:19 +0000
Subject: [PATCH 074/102] fix: XmlDateTime::TryParse: threw an exception for a
 year with very many digits

---
 Src/libCZI/CziMetadataBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 25998f6..2ee4ef0 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -659,6 +659,12 @@ bool libCZI::XmlDateTime::IsValid() const
 
         if (pieces_match[1].matched)
         {
+            if (pieces_match[1].length() > 9)
+            {
+                // such a year is not valid (and possibly cannot be represented as an integer)
+                return false;
+            }
+
             dateTime.year = std::stoi(pieces_match[1]);
         }
 
-- 
2.43.0


From de4ed544309e4519b9ee85d182b64433da21da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:19 +0000
Subject: [PATCH 075/102] fix: WriteDimInfoZ_List: the start-position was
 written into the start-time of the T-dimension

---
 Src/libCZI/CziMetadataBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 2ee4ef0..36167ac 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -835,7 +835,7 @@ bool libCZI::XmlDateTime::IsValid() const
 {
     if (!isnan(startPos) && !isinf(startPos))
     {
-        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/T/StartTime")->SetValueDbl(startPos);
+        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/StartPosition")->SetValueDbl(startPos);
     }
 
     if (funcGetOffsets)
-- 
2.43.0


From 7eaa930ed1c5898d976c8b41a4bd98c7a1ababd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:19 +0000
Subject: [PATCH 076/102] fix: preparing metadata: channel ids and names with
 characters like ',' or '/' were refused or mangled

---
 Src/libCZI/CziMetadataBuilder.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 36167ac..2ceb97c 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -512,18 +512,16 @@ CCZiMetadataBuilder::CCZiMetadataBuilder(const wchar_t* rootNodeName, const std:
     for (int ch = channelIdxStart; ch < channelIdxStart + channelIdxSize; ++ch)
     {
         auto idAndOptionalName = getIdAndName(ch);
-        string s{ "Metadata/Information/Image/Dimensions/Channels/Channel[Id=" };
-        s.append(get<0>(idAndOptionalName));
+
+        // note: the attributes are set explicitly here (instead of using a path with an attribute-specifier), because id and
+        //        name may contain characters which have a special meaning in a path
+        const auto channelNode = root->GetOrCreateChildNode("Metadata/Information/Image/Dimensions/Channels")->AppendChildNode("Channel");
+        channelNode->SetAttribute("Id", get<0>(idAndOptionalName).c_str());
         if (get<0>(get<1>(idAndOptionalName)) == true)
         {
-            s.append(",Name=");
-            s.append(get<1>(get<1>(idAndOptionalName)));
+            channelNode->SetAttribute("Name", get<1>(get<1>(idAndOptionalName)).c_str());
         }
 
-        s.append("]");
-
-        const auto channelNode = root->GetOrCreateChildNode(s.c_str());
-
         auto pxlTypeIterator = pixelTypeForChannel.GetChannelIndexPixelTypeMap().find(ch);
         if (pxlTypeIterator != pixelTypeForChannel.GetChannelIndexPixelTypeMap().end())
         {
-- 
2.43.0


From fee908a4d8dc8de232f8094c5d39820ef54fb3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 077/102] fix: XML nodes: text given as a CDATA-section is the
 value of the node

---
 Src/libCZI/CziMetadataBuilder.cpp | 12 ++++++++++--
 Src/libCZI/XmlNodeWrapper.h       |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 2ceb97c..62bc660 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -61,7 +61,8 @@ using namespace std;
 
 /*virtual*/bool CNodeWrapper::TryGetValue(std::wstring* value) const
 {
-    if (this->node.first_child().type() == xml_node_type::node_pcdata)
+    const auto type_of_first_child = this->node.first_child().type();
+    if (type_of_first_child == xml_node_type::node_pcdata || type_of_first_child == xml_node_type::node_cdata)
     {
         if (value != nullptr)
         {
@@ -277,11 +278,18 @@ void CNodeWrapper::ThrowIfCannotSetValue()
 
 pugi::xml_node CNodeWrapper::GetOrCreatePcDataChild()
 {
-    auto node = this->node.find_child([=](const xml_node& n) {return n.type() == xml_node_type::node_pcdata; });
+    auto node = this->node.find_child([=](const xml_node& n) {return n.type() == xml_node_type::node_pcdata || n.type() == xml_node_type::node_cdata; });
     if (!node)
     {
         node = this->node.append_child(xml_node_type::node_pcdata);
     }
+    else if (node.type() == xml_node_type::node_cdata)
+    {
+        // a CDATA-section cannot represent every text, so we replace it with an ordinary text
+        auto pcdata_node = this->node.insert_child_before(xml_node_type::node_pcdata, node);
+        this->node.remove_child(node);
+        node = pcdata_node;
+    }
 
     return node;
 }
diff --git a/Src/libCZI/XmlNodeWrapper.h b/Src/libCZI/XmlNodeWrapper.h
index a3ac496..93d3045 100644
--- a/Src/libCZI/XmlNodeWrapper.h
+++ b/Src/libCZI/XmlNodeWrapper.h
@@ -296,7 +296,8 @@ namespace libCZI
 
             bool TryGetValue(std::wstring* value) const override
             {
-                if (this->node.first_child().type() == libCZI::detail::pugi::xml_node_type::node_pcdata)
+                const auto type_of_first_child = this->node.first_child().type();
+                if (type_of_first_child == libCZI::detail::pugi::xml_node_type::node_pcdata || type_of_first_child == libCZI::detail::pugi::xml_node_type::node_cdata)
                 {
                     if (value != nullptr)
                     {
-- 
2.43.0


From bc90120e9039d5c2cb94711de2cd66d4c5f7477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:23 +0000
Subject: [PATCH 078/102] fix: file streams: a read or write which transferred
 only a part was reported as being complete up to there

---
 Src/libCZI/StreamImpl.cpp                     | 78 ++++++++++++++++++-
 .../StreamsLib/preadfileinputstream.cpp       | 38 ++++++++-
 2 files changed, 112 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index f1388ed..4a75289 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -22,6 +22,78 @@ using namespace libCZI::detail;
 
 #if LIBCZI_USE_PREADPWRITEBASED_STREAMIMPL
 
+/// Write the specified data to the file, with as many pwrite-calls as it takes (a single call may transfer
+/// less than requested, e.g. there is an upper limit for the number of bytes per call).
+///
+/// \param  fileDescriptor  The file descriptor.
+/// \param  pv              Pointer to the data.
+/// \param  size            The size of the data in bytes.
+/// \param  offset          The file-position.
+///
+/// \returns    The number of bytes written, or -1 in case of an error (and errno is set).
+static ssize_t PwriteAll(int fileDescriptor, const void* pv, std::uint64_t size, std::uint64_t offset)
+{
+    std::uint64_t totalBytesWritten = 0;
+    do
+    {
+        const ssize_t bytesWritten = pwrite(fileDescriptor, static_cast<const char*>(pv) + totalBytesWritten, size - totalBytesWritten, offset + totalBytesWritten);
+        if (bytesWritten < 0)
+        {
+            if (errno == EINTR)
+            {
+                continue;
+            }
+
+            return -1;
+        }
+
+        if (bytesWritten == 0)
+        {
+            break;
+        }
+
+        totalBytesWritten += bytesWritten;
+    } while (totalBytesWritten < size);
+
+    return static_cast<ssize_t>(totalBytesWritten);
+}
+
+/// Read the specified range from the file, with as many pread-calls as it takes (a single call may transfer
+/// less than requested, e.g. there is an upper limit for the number of bytes per call).
+///
+/// \param       fileDescriptor  The file descriptor.
+/// \param [out] pv              The buffer receiving the data.
+/// \param       size            The number of bytes to read.
+/// \param       offset          The file-position.
+///
+/// \returns    The number of bytes read (less than requested only at the end of the file), or -1 in case of an error (and errno is set).
+static ssize_t PreadAll(int fileDescriptor, void* pv, std::uint64_t size, std::uint64_t offset)
+{
+    std::uint64_t totalBytesRead = 0;
+    do
+    {
+        const ssize_t bytesRead = pread(fileDescriptor, static_cast<char*>(pv) + totalBytesRead, size - totalBytesRead, offset + totalBytesRead);
+        if (bytesRead < 0)
+        {
+            if (errno == EINTR)
+            {
+                continue;
+            }
+
+            return -1;
+        }
+
+        if (bytesRead == 0)
+        {
+            break;
+        }
+
+        totalBytesRead += bytesRead;
+    } while (totalBytesRead < size);
+
+    return static_cast<ssize_t>(totalBytesRead);
+}
+
 COutputStreamImplPwrite::COutputStreamImplPwrite(const wchar_t* filename, bool overwriteExisting)
     : fileDescriptor(0)
 {
@@ -55,7 +127,7 @@ COutputStreamImplPwrite::~COutputStreamImplPwrite()
 
 /*virtual*/void COutputStreamImplPwrite::Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten)
 {
-    ssize_t bytesWritten = pwrite(this->fileDescriptor, pv, size, offset);
+    ssize_t bytesWritten = PwriteAll(this->fileDescriptor, pv, size, offset);
     if (bytesWritten < 0)
     {
         auto err = errno;
@@ -282,7 +354,7 @@ CInputOutputStreamImplPreadPwrite::~CInputOutputStreamImplPreadPwrite()
 
 /*virtual*/void CInputOutputStreamImplPreadPwrite::Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead)
 {
-    ssize_t bytesRead = pread(this->fileDescriptor, pv, size, offset);
+    ssize_t bytesRead = PreadAll(this->fileDescriptor, pv, size, offset);
     if (bytesRead < 0)
     {
         auto err = errno;
@@ -299,7 +371,7 @@ CInputOutputStreamImplPreadPwrite::~CInputOutputStreamImplPreadPwrite()
 
 /*virtual*/void CInputOutputStreamImplPreadPwrite::Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten)
 {
-    ssize_t bytesWritten = pwrite(this->fileDescriptor, pv, size, offset);
+    ssize_t bytesWritten = PwriteAll(this->fileDescriptor, pv, size, offset);
     if (bytesWritten < 0)
     {
         auto err = errno;
diff --git a/Src/libCZI/StreamsLib/preadfileinputstream.cpp b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
index 5959f10..befcba4 100644
--- a/Src/libCZI/StreamsLib/preadfileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
@@ -15,6 +15,42 @@
 using namespace libCZI;
 using namespace libCZI::detail;
 
+/// Read the specified range from the file, with as many pread-calls as it takes (a single call may transfer
+/// less than requested, e.g. there is an upper limit for the number of bytes per call).
+///
+/// \param       fileDescriptor  The file descriptor.
+/// \param [out] pv              The buffer receiving the data.
+/// \param       size            The number of bytes to read.
+/// \param       offset          The file-position.
+///
+/// \returns    The number of bytes read (less than requested only at the end of the file), or -1 in case of an error (and errno is set).
+static ssize_t PreadAll(int fileDescriptor, void* pv, std::uint64_t size, std::uint64_t offset)
+{
+    std::uint64_t totalBytesRead = 0;
+    do
+    {
+        const ssize_t bytesRead = pread(fileDescriptor, static_cast<char*>(pv) + totalBytesRead, size - totalBytesRead, offset + totalBytesRead);
+        if (bytesRead < 0)
+        {
+            if (errno == EINTR)
+            {
+                continue;
+            }
+
+            return -1;
+        }
+
+        if (bytesRead == 0)
+        {
+            break;
+        }
+
+        totalBytesRead += bytesRead;
+    } while (totalBytesRead < size);
+
+    return static_cast<ssize_t>(totalBytesRead);
+}
+
 PreadFileInputStream::PreadFileInputStream(const std::string& filename)
 {
     this->fileDescriptor = open(filename.c_str(), O_RDONLY);
@@ -42,7 +78,7 @@ PreadFileInputStream::~PreadFileInputStream()
 
 /*virtual*/void PreadFileInputStream::Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead)
 {
-    ssize_t bytesRead = pread(this->fileDescriptor, pv, size, offset);
+    ssize_t bytesRead = PreadAll(this->fileDescriptor, pv, size, offset);
     if (bytesRead < 0)
     {
         auto err = errno;
-- 
2.43.0


From 2cb070c2a483831a758f74f074eabc962f782172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:23 +0000
Subject: [PATCH 079/102] fix: C-runtime based file stream: a read error was
 reported as the end of the file

---
 Src/libCZI/StreamsLib/simplefileinputstream.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Src/libCZI/StreamsLib/simplefileinputstream.cpp b/Src/libCZI/StreamsLib/simplefileinputstream.cpp
index 084d0c8..a3718bc 100644
--- a/Src/libCZI/StreamsLib/simplefileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/simplefileinputstream.cpp
@@ -76,6 +76,15 @@ SimpleFileInputStream::~SimpleFileInputStream()
     }
 
     const std::uint64_t bytesRead = fread(pv, 1, static_cast<size_t>(size), this->fp_);
+    if (bytesRead < size && ferror(this->fp_))
+    {
+        const auto err = errno;
+        clearerr(this->fp_);
+        stringstream ss;
+        ss << "Error reading from file (errno=" << err << ").";
+        throw std::runtime_error(ss.str());
+    }
+
     if (ptrBytesRead != nullptr)
     {
         *ptrBytesRead = bytesRead;
-- 
2.43.0


From 27d6f8fba39ba8bc04f7cbee9aa02620d7ce6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:35 +0000
Subject: [PATCH 080/102] fix: file streams: a file which happened to get the
 descriptor 0 was never closed

---
 Src/libCZI/StreamImpl.cpp                      | 8 ++++----
 Src/libCZI/StreamsLib/preadfileinputstream.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index 4a75289..b54d7a7 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -95,7 +95,7 @@ static ssize_t PreadAll(int fileDescriptor, void* pv, std::uint64_t size, std::u
 }
 
 COutputStreamImplPwrite::COutputStreamImplPwrite(const wchar_t* filename, bool overwriteExisting)
-    : fileDescriptor(0)
+    : fileDescriptor(-1)
 {
     auto filename_utf8 = Utilities::convertWchar_tToUtf8(filename);
 
@@ -119,7 +119,7 @@ COutputStreamImplPwrite::COutputStreamImplPwrite(const wchar_t* filename, bool o
 
 COutputStreamImplPwrite::~COutputStreamImplPwrite()
 {
-    if (this->fileDescriptor != 0)
+    if (this->fileDescriptor >= 0)
     {
         close(this->fileDescriptor);
     }
@@ -328,7 +328,7 @@ void CSimpleOutputStreamStreams::Write(std::uint64_t offset, const void* pv, std
 
 #if LIBCZI_USE_PREADPWRITEBASED_STREAMIMPL
 CInputOutputStreamImplPreadPwrite::CInputOutputStreamImplPreadPwrite(const wchar_t* filename)
-    : fileDescriptor(0)
+    : fileDescriptor(-1)
 {
     auto filename_utf8 = Utilities::convertWchar_tToUtf8(filename);
 
@@ -346,7 +346,7 @@ CInputOutputStreamImplPreadPwrite::CInputOutputStreamImplPreadPwrite(const wchar
 
 CInputOutputStreamImplPreadPwrite::~CInputOutputStreamImplPreadPwrite()
 {
-    if (this->fileDescriptor != 0)
+    if (this->fileDescriptor >= 0)
     {
         close(this->fileDescriptor);
     }
diff --git a/Src/libCZI/StreamsLib/preadfileinputstream.cpp b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
index befcba4..8e17ef7 100644
--- a/Src/libCZI/StreamsLib/preadfileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
@@ -70,7 +70,7 @@ PreadFileInputStream::PreadFileInputStream(const wchar_t* filename)
 
 PreadFileInputStream::~PreadFileInputStream()
 {
-    if (this->fileDescriptor != 0)
+    if (this->fileDescriptor >= 0)
     {
         close(this->fileDescriptor);
     }
-- 
2.43.0


From ae158b7a4f2b67c2455d2cd83bf913baba2e98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:51 +0000
Subject: [PATCH 081/102] fix: http stream: an error page, or the document from
 its beginning, was delivered as being the requested range

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index 7177ad4..d98b192 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -278,6 +278,26 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
             throw runtime_error(ss.str());
         }
 
+        // For the http-protocol we have to check whether the data we got is actually the range we asked for (and not e.g. the
+        //  text describing an error, or the document from its beginning because the server does not support range-requests).
+        const char* scheme = nullptr;
+        if (curl_easy_getinfo(this->curl_handle_, CURLINFO_SCHEME, &scheme) == CURLE_OK && scheme != nullptr && curl_strnequal(scheme, "http", 4))
+        {
+            long response_code = 0;
+            return_code = curl_easy_getinfo(this->curl_handle_, CURLINFO_RESPONSE_CODE, &response_code);
+            if (return_code == CURLE_OK && response_code == 416)
+            {
+                // "range not satisfiable" - the range is beyond the end of the document
+                write_data_context.count_data_received = 0;
+            }
+            else if (return_code != CURLE_OK || !(response_code == 206 || (response_code == 200 && offset == 0)))
+            {
+                ss = stringstream{};
+                ss << "The requested range was not delivered by the server (response code " << response_code << ")";
+                throw runtime_error(ss.str());
+            }
+        }
+
         if (ptrBytesRead != nullptr)
         {
             *ptrBytesRead = write_data_context.count_data_received;
-- 
2.43.0


From 5fd18c5e1f9d7a375ae2796853ae52ea948f764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:51 +0000
Subject: [PATCH 082/102] fix: http stream: 23 bytes in excess of the requested
 range were silently dropped

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index d98b192..ccb0255 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -325,7 +325,8 @@ CurlHttpInputStream::~CurlHttpInputStream()
 
     if (write_data_context->count_data_received + total_size > write_data_context->size)
     {
-        return CURLE_WRITE_ERROR;
+        // any number different from "total_size" will signal an error (where note that total_size is not zero here)
+        return 0;
     }
 
     memcpy(
-- 
2.43.0


From 954cc80652260f665d01f970b43ac6293472924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:52 +0000
Subject: [PATCH 083/102] fix: reading a sub-block: the memory was freed twice
 if an allocation failed while creating the sub-block object

---
 Src/libCZI/CZIReader.cpp   | 13 +++++--------
 Src/libCZI/CziSubBlock.cpp | 13 +++++++++++++
 Src/libCZI/CziSubBlock.h   |  3 +++
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index ded2a55..a533fcb 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -392,14 +392,11 @@ std::shared_ptr<ISubBlock> CCZIReader::ReadSubBlock(const CCziSubBlockDirectory:
         info.pyramidType = CziUtils::PyramidTypeFromByte(subBlkData.spare[0]);
     }
 
-    auto sub_block = std::make_shared<CCziSubBlock>(info, subBlkData, free);
-
-    // Release the memory from the guards since CCziSubBlock has taken ownership
-    dataGuard.release();
-    attachmentGuard.release();
-    metadataGuard.release();
-
-    return sub_block;
+    // Hand over the ownership from the guards (note that, if this fails, the memory is freed exactly once - either by the guard or by the shared_ptr)
+    std::shared_ptr<const void> data(std::move(dataGuard));
+    std::shared_ptr<const void> attachment(std::move(attachmentGuard));
+    std::shared_ptr<const void> metadata(std::move(metadataGuard));
+    return std::make_shared<CCziSubBlock>(info, subBlkData, std::move(data), std::move(attachment), std::move(metadata));
 }
 
 std::shared_ptr<libCZI::IAttachment> CCZIReader::ReadAttachment(const CCziAttachmentsDirectory::AttachmentEntry& entry)
diff --git a/Src/libCZI/CziSubBlock.cpp b/Src/libCZI/CziSubBlock.cpp
index 63f4b20..d3827f0 100644
--- a/Src/libCZI/CziSubBlock.cpp
+++ b/Src/libCZI/CziSubBlock.cpp
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <utility>
 #include "CziSubBlock.h"
 #include "CziUtils.h"
 
@@ -20,6 +21,18 @@ CCziSubBlock::CCziSubBlock(const libCZI::SubBlockInfo& info, const CCZIParse::Su
 {
 }
 
+CCziSubBlock::CCziSubBlock(const libCZI::SubBlockInfo& info, const CCZIParse::SubBlockData& data, std::shared_ptr<const void> subBlockData, std::shared_ptr<const void> attachment, std::shared_ptr<const void> metadata)
+    :
+    spData(std::move(subBlockData)),
+    spAttachment(std::move(attachment)),
+    spMetadata(std::move(metadata)),
+    dataSize(data.dataSize),
+    attachmentSize(data.attachmentSize),
+    metaDataSize(data.metaDataSize),
+    info(info)
+{
+}
+
 /*virtual*/const SubBlockInfo& CCziSubBlock::GetSubBlockInfo() const
 {
     return this->info;
diff --git a/Src/libCZI/CziSubBlock.h b/Src/libCZI/CziSubBlock.h
index dda9217..ceb6f20 100644
--- a/Src/libCZI/CziSubBlock.h
+++ b/Src/libCZI/CziSubBlock.h
@@ -24,6 +24,9 @@ namespace libCZI
         public:
             CCziSubBlock(const libCZI::SubBlockInfo& info, const CCZIParse::SubBlockData& data, const std::function<void(void*)>& deleter);
 
+            /// Constructor, where the memory referenced by the structure 'data' is already owned by the specified shared_ptrs.
+            CCziSubBlock(const libCZI::SubBlockInfo& info, const CCZIParse::SubBlockData& data, std::shared_ptr<const void> subBlockData, std::shared_ptr<const void> attachment, std::shared_ptr<const void> metadata);
+
             // interface ISubBlock
             const libCZI::SubBlockInfo& GetSubBlockInfo() const override;
             void DangerousGetRawData(libCZI::ISubBlock::MemBlkType type, const void*& ptr, size_t& size) const override;
-- 
2.43.0


From b89cbe96cc92863cf00ad68418dd476b7c234130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:30 +0000
Subject: [PATCH 084/102] fix: zstd1 compression: a failed allocation of the
 temporary buffer is to be reported with a runtime_error also when using
 lo-hi-byte-packing

---
 Src/libCZI/zstdCompress.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Src/libCZI/zstdCompress.cpp b/Src/libCZI/zstdCompress.cpp
index c7d90bf..d40c40a 100644
--- a/Src/libCZI/zstdCompress.cpp
+++ b/Src/libCZI/zstdCompress.cpp
@@ -260,6 +260,12 @@ bool libCZI::ZstdCompress::CompressZStd1(std::uint32_t sourceWidth, std::uint32_
     {
         const size_t requiredSizeTemp = sourceWidth * bytesPerPel * sourceHeight;
         void* tempBuffer = allocateTempBuffer(requiredSizeTemp);
+        if (tempBuffer == nullptr)
+        {
+            stringstream ss;
+            ss << "Allocation of temporary buffer (of " << requiredSizeTemp << " bytes) failed.";
+            throw runtime_error(ss.str());
+        }
 
         auto deleter = [&](void* ptr) -> void {freeTempBuffer(ptr); };
         const unique_ptr<void, decltype(deleter)> upTemp(tempBuffer, deleter);
-- 
2.43.0


From f9e3571eec14af850adabba0274bb904459c1284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 085/102] fix: C API: the handle of an attachment was accepted
 as a handle of a document-info object and vice versa (same magic value)

---
 Src/libCZIAPI/src/sharedptrwrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/sharedptrwrapper.h b/Src/libCZIAPI/src/sharedptrwrapper.h
index e2af8c5..f2a48c1 100644
--- a/Src/libCZIAPI/src/sharedptrwrapper.h
+++ b/Src/libCZIAPI/src/sharedptrwrapper.h
@@ -19,7 +19,7 @@ constexpr uint32_t kMagicIAttachment = 0x3A4A3D7Au;
 constexpr uint32_t kMagicIOutputStream = 0x8020FAA3u;
 constexpr uint32_t kMagicICziWriter = 0xF8384829u;
 constexpr uint32_t kMagicISingleChannelScalingTileAccessor = 0xE34C94D7u;
-constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x3A4A3D7Au;
+constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x6D1B2C95u;
 constexpr uint32_t kMagicIDisplaySettings = 0xE67C5A4Cu;
 constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 
-- 
2.43.0


From e220daa042fac51f86d0312020db5e8c85fa34f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 086/102] fix: C API: checking the validity of a handle
 accessed memory which was freed already if the handle had been released

---
 Src/libCZIAPI/src/sharedptrwrapper.h | 58 +++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/Src/libCZIAPI/src/sharedptrwrapper.h b/Src/libCZIAPI/src/sharedptrwrapper.h
index f2a48c1..4158ef4 100644
--- a/Src/libCZIAPI/src/sharedptrwrapper.h
+++ b/Src/libCZIAPI/src/sharedptrwrapper.h
@@ -6,6 +6,8 @@
 
 #include <cstdint>
 #include <memory>
+#include <mutex>
+#include <unordered_map>
 #include <utility>
 #include <libCZI.h>
 
@@ -26,6 +28,41 @@ constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 // In this file we define a generic template class that can be used to wrap a shared pointer to an object.
 // This is used to provide a handle to an object, and we use a magic value to check if the handle is still valid.
 
+/// This class keeps track of all the handles which are currently in use. It allows to find out whether a handle is valid
+/// without accessing the memory it is pointing to - which must not be done if the handle has been destroyed already.
+class HandleRegistry
+{
+public:
+    static void Add(const void* handle, std::uint32_t magic)
+    {
+        std::lock_guard<std::mutex> lock(GetInstance().mutex_);
+        GetInstance().handles_[handle] = magic;
+    }
+
+    static void Remove(const void* handle)
+    {
+        std::lock_guard<std::mutex> lock(GetInstance().mutex_);
+        GetInstance().handles_.erase(handle);
+    }
+
+    static bool IsRegistered(const void* handle, std::uint32_t magic)
+    {
+        std::lock_guard<std::mutex> lock(GetInstance().mutex_);
+        const auto it = GetInstance().handles_.find(handle);
+        return it != GetInstance().handles_.end() && it->second == magic;
+    }
+private:
+    static HandleRegistry& GetInstance()
+    {
+        // this object is never destroyed, since handles may be used (and released) until the very end of the process
+        static HandleRegistry* instance = new HandleRegistry();
+        return *instance;
+    }
+
+    std::mutex mutex_;
+    std::unordered_map<const void*, std::uint32_t> handles_;
+};
+
 /// This class is used to represent a shared pointer, or this is what the handles we are providing are pointing to. This class
 /// contains a magic value, which is used to check if the handle is still valid. When the handle is created, the magic value
 /// is set to a specific value. When the handle is destroyed, the magic value is set to 0. If the magic value is not the
@@ -38,21 +75,32 @@ constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 template <typename ClassT, std::uint32_t MagicValueN>
 struct SharedPtrWrapperBase
 {
-    explicit SharedPtrWrapperBase(std::shared_ptr<ClassT> shared_ptr) : magic_(MagicValueN), shared_ptr_(std::move(shared_ptr)) {}
+    explicit SharedPtrWrapperBase(std::shared_ptr<ClassT> shared_ptr) : magic_(MagicValueN), shared_ptr_(std::move(shared_ptr))
+    {
+        HandleRegistry::Add(this, MagicValueN);
+    }
+
+    SharedPtrWrapperBase(const SharedPtrWrapperBase&) = delete;
+    SharedPtrWrapperBase& operator=(const SharedPtrWrapperBase&) = delete;
 
     ~SharedPtrWrapperBase()
     {
         this->Invalidate();
     }
 
-    /// Query if this object is valid. This checks if the magic value is the expected value. If this is not the case,
-    /// this means that either the value has been invalided, or that the pointer is bogus.
+    /// Query if this object is valid. This checks if this handle is in use, and if the magic value is the expected value. If
+    /// this is not the case, this means that either the value has been invalided, or that the pointer is bogus. Note that the
+    /// memory this handle is pointing to is not accessed unless it is known to be in use.
     ///
     /// \returns    True if valid, false if not.
-    [[nodiscard]] bool IsValid() const { return this->magic_ == MagicValueN; }
+    [[nodiscard]] bool IsValid() const { return HandleRegistry::IsRegistered(this, MagicValueN) && this->magic_ == MagicValueN; }
 
     /// Invalidates the magic value. This is used when the handle is destroyed.
-    void Invalidate() { this->magic_ = kMagicInvalid; }
+    void Invalidate()
+    {
+        HandleRegistry::Remove(this);
+        this->magic_ = kMagicInvalid;
+    }
 
     std::uint32_t magic_;
     std::shared_ptr<ClassT> shared_ptr_;
-- 
2.43.0


From 27dff0fb49f176195c9196d70eb5ad17a50c0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 087/102] fix: C API: null pointers and null handles were not
 reported as an invalid argument, but dereferenced

---
 Src/libCZIAPI/src/libCZIApi.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1fab63d..f021357 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -389,7 +389,7 @@ LibCZIApiErrorCode libCZI_ReaderReadSubBlock(CziReaderObjectHandle reader_object
 
 LibCZIApiErrorCode libCZI_ReaderGetMetadataSegment(CziReaderObjectHandle reader_object, MetadataSegmentObjectHandle* metadata_segment_object)
 {
-    if (reader_object == kInvalidObjectHandle)
+    if (reader_object == kInvalidObjectHandle || metadata_segment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -475,7 +475,7 @@ LibCZIApiErrorCode libCZI_ReaderGetAttachmentInfoFromDirectory(CziReaderObjectHa
 
 LibCZIApiErrorCode libCZI_ReaderReadAttachment(CziReaderObjectHandle reader_object, std::int32_t index, AttachmentObjectHandle* attachment_object)
 {
-    if (reader_object == kInvalidObjectHandle && attachment_object == nullptr)
+    if (reader_object == kInvalidObjectHandle || attachment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1104,7 +1104,7 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
 //****************************************************************************************************
 LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectHandle metadata_segment_object, MetadataAsXmlInterop* metadata_as_xml_interop)
 {
-    if (metadata_segment_object == kInvalidObjectHandle)
+    if (metadata_segment_object == kInvalidObjectHandle || metadata_as_xml_interop == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1982,6 +1982,11 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
 
     for (int i = 0; i < channelCount; ++i)
     {
+        if (source_bitmaps[i] == kInvalidObjectHandle)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
+
         auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
         if (!shared_bitmap_wrapping_object->IsValid())
         {
-- 
2.43.0


From 0c2724154c785e8dea16e25ed2021479cc6f3073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 088/102] fix: C API: getting empty XML metadata accessed the
 byte before the data

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index f021357..04ea19b 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1125,7 +1125,7 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
     // we want to ensure that the string is null-terminated, just in case - so if the data is not null-terminated, we will allocate
     //  one byte more
     size_t size_to_allocate = size;
-    if (static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
+    if (size == 0 || static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
     {
         ++size_to_allocate;
     }
-- 
2.43.0


From 1a3bae6a5143fbcfab76a8ea31da3c2b8b615ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 089/102] fix: C API: documents without display settings, or
 without display settings for a channel, crashed

---
 Src/libCZIAPI/src/libCZIApi.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 04ea19b..88aed35 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1302,6 +1302,12 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDisplaySettings(CziDocumentInfoHandl
     try
     {
         const auto display_settings = shared_czi_document_info_wrapping_object->shared_ptr_->GetDisplaySettings();
+        if (!display_settings)
+        {
+            // this means that the document does not contain display-settings
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
+
         *display_settings_handle = reinterpret_cast<DisplaySettingsHandle>(new SharedPtrWrapper<libCZI::IDisplaySettings>{ display_settings });
         return LibCZIApi_ErrorCode_OK;
     }
@@ -2026,6 +2032,11 @@ LibCZIApiErrorCode libCZI_CompositorFillOutCompositionChannelInfoInterop(Display
 
     try
     {
+        if (!shared_display_settings_wrapping_object->shared_ptr_->GetChannelDisplaySettings(channel_index))
+        {
+            return LibCZIApi_ErrorCode_IndexOutOfRange;
+        }
+
         ParameterHelpers::FillOutCompositionChannelInfoFromDisplaySettings(
             shared_display_settings_wrapping_object->shared_ptr_.get(),
             channel_index,
-- 
2.43.0


From 8e04d7ada27a968aea0e2e039d28ff74e02b07ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:49 +0000
Subject: [PATCH 090/102] fix: C API: querying information about a dimension
 for which there is none reported success without providing a result

---
 Src/libCZIAPI/src/libCZIApi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 88aed35..0947941 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1375,6 +1375,9 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDimensionInfo(CziDocumentInfoHandle
         }
 
         break;
+        default:
+            // there is no information available for other dimensions
+            return LibCZIApi_ErrorCode_InvalidArgument;
 
         }
 
-- 
2.43.0


From d9b0822869e32aa5f0cb9b81f72119126f91c610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:49 +0000
Subject: [PATCH 091/102] fix: C API: copying an empty data block called memcpy
 with a null pointer

---
 Src/libCZIAPI/src/libCZIApi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 0947941..994d1a4 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -893,7 +893,7 @@ LibCZIApiErrorCode libCZI_SubBlockGetRawData(SubBlockObjectHandle sub_block_obje
         const auto raw_data = shared_sub_block_wrapping_object->shared_ptr_->GetRawData(mem_blk_type, &actual_size);
         *size = actual_size;
 
-        if (data != nullptr)
+        if (data != nullptr && size_of_destination > 0 && actual_size > 0)
         {
             memcpy(data, raw_data.get(), min(size_of_destination, static_cast<uint64_t>(actual_size)));
         }
@@ -1467,7 +1467,7 @@ LibCZIApiErrorCode libCZI_AttachmentGetRawData(AttachmentObjectHandle attachment
         size_t actual_size;
         const auto raw_data = shared_attachment_wrapping_object->shared_ptr_->GetRawData(&actual_size);
         *size = actual_size;
-        if (data != nullptr)
+        if (data != nullptr && size_of_destination > 0 && actual_size > 0)
         {
             memcpy(data, raw_data.get(), min(size_of_destination, actual_size));
         }
-- 
2.43.0


From 18b1ad0f6ffed91716ac884caa0f8f56aed496ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:49 +0000
Subject: [PATCH 092/102] fix: C API: sub-blocks with compressed data were
 written with the compression-mode 'uncompressed'

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 994d1a4..35a3646 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1720,7 +1720,7 @@ namespace
         add_sub_block_info_base.physicalWidth = add_sub_block_info->physical_width;
         add_sub_block_info_base.physicalHeight = add_sub_block_info->physical_height;
         add_sub_block_info_base.PixelType = static_cast<PixelType>(add_sub_block_info->pixel_type); // TODO(JBL): check validity
-        add_sub_block_info_base.SetCompressionMode(CompressionMode::UnCompressed);
+        add_sub_block_info_base.compressionModeRaw = add_sub_block_info->compression_mode_raw;
     }
 
 
-- 
2.43.0


From 868859b214c1a209ba1876bcfa84989da47e3eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 093/102] fix: C API: the size of the data of an uncompressed
 sub-block was not validated

---
 Src/libCZIAPI/src/libCZIApi.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 35a3646..d28aeb3 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1724,6 +1724,20 @@ namespace
     }
 
 
+    /// Check whether the memory block with the (uncompressed) bitmap is large enough.
+    bool IsSizeOfUncompressedDataValid(const AddSubBlockInfoInterop* add_sub_block_info)
+    {
+        if (add_sub_block_info->physical_width <= 0 || add_sub_block_info->physical_height <= 0)
+        {
+            return true;    // this is going to be reported by the writer
+        }
+
+        const uint64_t line_size = static_cast<uint64_t>(Utils::GetBytesPerPixel(static_cast<PixelType>(add_sub_block_info->pixel_type))) * add_sub_block_info->physical_width;
+        return add_sub_block_info->data != nullptr &&
+            add_sub_block_info->stride >= line_size &&
+            static_cast<uint64_t>(add_sub_block_info->stride) * (add_sub_block_info->physical_height - 1) + line_size <= add_sub_block_info->size_data;
+    }
+
     void WriterAddSubBlockUncompressed(const shared_ptr<ICziWriter>& writer, const AddSubBlockInfoInterop* add_sub_block_info)
     {
         AddSubBlockInfoStridedBitmap add_sub_block_info_strided_bitmap;
@@ -1779,6 +1793,11 @@ LibCZIApiErrorCode libCZI_WriterAddSubBlock(CziWriterObjectHandle writer_object,
         const auto compression_mode = libCZI::Utils::CompressionModeFromRawCompressionIdentifier(add_sub_block_info_interop->compression_mode_raw);
         if (compression_mode == CompressionMode::UnCompressed)
         {
+            if (!IsSizeOfUncompressedDataValid(add_sub_block_info_interop))
+            {
+                return LibCZIApi_ErrorCode_InvalidArgument;
+            }
+
             WriterAddSubBlockUncompressed(shared_writer_wrapping_object->shared_ptr_, add_sub_block_info_interop);
         }
         else
-- 
2.43.0


From 4484522aedb570b846bbcbc362ac9aed25612aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 094/102] fix: C API: the condenser contrast of a channel was
 reported with the value of the reflector

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 34384db..615f81f 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1395,7 +1395,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
 
     {
         wstring condensor_contrast;
-        if (channel_info->TryGetReflector(&condensor_contrast))
+        if (channel_info->TryGetCondenserContrast(&condensor_contrast))
         {
             const string utf8_string = libCZI::Utils::ConvertToUtf8(condensor_contrast);
             channel_object.AddMember("condensor_contrast", rapidjson::Value(utf8_string.c_str(), allocator).Move(), allocator);
-- 
2.43.0


From d148d3d6d88e1bbc05e699788d6ef587cd90e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 095/102] fix: C API: metadata containing values which are not
 finite gave an incomplete JSON text

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 615f81f..b423a6f 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -7,6 +7,7 @@
 #include <rapidjson/document.h>
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
+#include <cmath>
 #include <regex>
 #include <iomanip>
 
@@ -75,11 +76,24 @@ namespace
         return true;
     }
 
+    /// JSON does not allow for NaN or infinity (and the writer of rapidjson gives up if coming across such a value, which leaves
+    /// us with an incomplete text). So, we write 'null' instead.
+    class JsonWriter : public rapidjson::Writer<rapidjson::StringBuffer>
+    {
+    public:
+        using rapidjson::Writer<rapidjson::StringBuffer>::Writer;
+
+        bool Double(double d)
+        {
+            return std::isfinite(d) ? rapidjson::Writer<rapidjson::StringBuffer>::Double(d) : this->Null();
+        }
+    };
+
     string ConvertToJsonString(const std::function< rapidjson::Document()>& f)
     {
         rapidjson::Document document = f();
         rapidjson::StringBuffer buffer;
-        rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
+        JsonWriter writer(buffer);
         document.Accept(writer);
         return buffer.GetString();
     }
-- 
2.43.0


From 86c5f38e328e8b1abd8d4998cfe99311e7a35abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:13 +0000
Subject: [PATCH 096/102] fix: C API: exceptions (like a failing memory
 allocation) could leave some of the functions

---
 Src/libCZIAPI/src/libCZIApi.cpp | 182 ++++++++++++++++++++------------
 1 file changed, 116 insertions(+), 66 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index d28aeb3..7dc3968 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -158,14 +158,25 @@ LibCZIApiErrorCode libCZI_GetLibCZIBuildInformation(LibCZIBuildInformationIntero
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    BuildInformation info;
-    GetLibCZIBuildInformation(info);
-    build_info->compilerIdentification = ParameterHelpers::AllocString(info.compilerIdentification);
-    build_info->repositoryUrl = ParameterHelpers::AllocString(info.repositoryUrl);
-    build_info->repositoryBranch = ParameterHelpers::AllocString(info.repositoryBranch);
-    build_info->repositoryTag = ParameterHelpers::AllocString(info.repositoryTag);
+    try
+    {
+        BuildInformation info;
+        GetLibCZIBuildInformation(info);
+        build_info->compilerIdentification = ParameterHelpers::AllocString(info.compilerIdentification);
+        build_info->repositoryUrl = ParameterHelpers::AllocString(info.repositoryUrl);
+        build_info->repositoryBranch = ParameterHelpers::AllocString(info.repositoryBranch);
+        build_info->repositoryTag = ParameterHelpers::AllocString(info.repositoryTag);
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::bad_alloc&)
+    {
+        return LibCZIApi_ErrorCode_OutOfMemory;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_CreateReader(CziReaderObjectHandle* reader_object)
@@ -177,16 +188,27 @@ LibCZIApiErrorCode libCZI_CreateReader(CziReaderObjectHandle* reader_object)
 
     *reader_object = kInvalidObjectHandle;
 
-    auto reader = CreateCZIReader();
-    if (!reader)
+    try
     {
-        return LibCZIApi_ErrorCode_OutOfMemory;
-    }
+        auto reader = CreateCZIReader();
+        if (!reader)
+        {
+            return LibCZIApi_ErrorCode_OutOfMemory;
+        }
 
-    auto shared_czi_reader_wrapping_object = new SharedPtrWrapper<ICZIReader>{ reader };
-    *reader_object = reinterpret_cast<CziReaderObjectHandle>(shared_czi_reader_wrapping_object);
+        auto shared_czi_reader_wrapping_object = new SharedPtrWrapper<ICZIReader>{ reader };
+        *reader_object = reinterpret_cast<CziReaderObjectHandle>(shared_czi_reader_wrapping_object);
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::bad_alloc&)
+    {
+        return LibCZIApi_ErrorCode_OutOfMemory;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_ReaderOpen(CziReaderObjectHandle reader_object, const ReaderOpenInfoInterop* open_info)
@@ -545,17 +567,28 @@ LibCZIApiErrorCode libCZI_GetStreamClassInfo(std::int32_t index, InputStreamClas
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    StreamsFactory::StreamClassInfo stream_class_info;
-    const bool b = StreamsFactory::GetStreamInfoForClass(index, stream_class_info);
-    if (!b)
+    try
     {
-        return LibCZIApi_ErrorCode_InvalidArgument;
-    }
+        StreamsFactory::StreamClassInfo stream_class_info;
+        const bool b = StreamsFactory::GetStreamInfoForClass(index, stream_class_info);
+        if (!b)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
 
-    input_stream_class_info->name = ParameterHelpers::AllocString(stream_class_info.class_name);
-    input_stream_class_info->description = ParameterHelpers::AllocString(stream_class_info.short_description);
+        input_stream_class_info->name = ParameterHelpers::AllocString(stream_class_info.class_name);
+        input_stream_class_info->description = ParameterHelpers::AllocString(stream_class_info.short_description);
 
-    return LibCZIApi_ErrorCode_OK;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::bad_alloc&)
+    {
+        return LibCZIApi_ErrorCode_OutOfMemory;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_CreateInputStream(const char* stream_class_name, const char* creation_property_bag, const char* stream_identifier, InputStreamObjectHandle* stream_object)
@@ -565,20 +598,20 @@ LibCZIApiErrorCode libCZI_CreateInputStream(const char* stream_class_name, const
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    StreamsFactory::CreateStreamInfo create_stream_info;
-
-    if (creation_property_bag != nullptr && *creation_property_bag != '\0')
+    try
     {
-        if (!ParameterHelpers::TryParseInputStreamCreationPropertyBag(creation_property_bag, &create_stream_info.property_bag))
+        StreamsFactory::CreateStreamInfo create_stream_info;
+
+        if (creation_property_bag != nullptr && *creation_property_bag != '\0')
         {
-            return LibCZIApi_ErrorCode_InvalidArgument;
+            if (!ParameterHelpers::TryParseInputStreamCreationPropertyBag(creation_property_bag, &create_stream_info.property_bag))
+            {
+                return LibCZIApi_ErrorCode_InvalidArgument;
+            }
         }
-    }
 
-    create_stream_info.class_name = stream_class_name;
+        create_stream_info.class_name = stream_class_name;
 
-    try
-    {
         shared_ptr<libCZI::IStream> stream = StreamsFactory::CreateStream(create_stream_info, stream_identifier);
         if (!stream)
         {
@@ -765,15 +798,22 @@ LibCZIApiErrorCode libCZI_CreateInputStreamFromExternal(const ExternalInputStrea
     }
 
     *stream_object = kInvalidObjectHandle;
-    auto stream = make_shared<InputStreamWrapper>(*external_input_stream_struct);
-    if (!stream)
+    try
+    {
+        auto stream = make_shared<InputStreamWrapper>(*external_input_stream_struct);
+        auto shared_stream_wrapping_object = new SharedPtrWrapper<IStream>{ stream };
+        *stream_object = reinterpret_cast<InputStreamObjectHandle>(shared_stream_wrapping_object);
+
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::bad_alloc&)
+    {
+        return LibCZIApi_ErrorCode_OutOfMemory;
+    }
+    catch (const std::exception&)
     {
         return LibCZIApi_ErrorCode_UnspecifiedError;
     }
-
-    auto shared_stream_wrapping_object = new SharedPtrWrapper<IStream>{ stream };
-    *stream_object = reinterpret_cast<InputStreamObjectHandle>(shared_stream_wrapping_object);
-    return LibCZIApi_ErrorCode_OK;
 }
 
 LibCZIApiErrorCode libCZI_ReleaseInputStream(InputStreamObjectHandle stream_object)
@@ -1578,15 +1618,22 @@ LibCZIApiErrorCode libCZI_CreateOutputStreamFromExternal(const ExternalOutputStr
     }
 
     *output_stream_object = kInvalidObjectHandle;
-    auto stream = make_shared<OutputStreamWrapper>(*external_output_stream_struct);
-    if (!stream)
+    try
+    {
+        auto stream = make_shared<OutputStreamWrapper>(*external_output_stream_struct);
+        auto shared_output_stream_wrapping_object = new SharedPtrWrapper<IOutputStream>{ stream };
+        *output_stream_object = reinterpret_cast<OutputStreamObjectHandle>(shared_output_stream_wrapping_object);
+
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::bad_alloc&)
+    {
+        return LibCZIApi_ErrorCode_OutOfMemory;
+    }
+    catch (const std::exception&)
     {
         return LibCZIApi_ErrorCode_UnspecifiedError;
     }
-
-    auto shared_output_stream_wrapping_object = new SharedPtrWrapper<IOutputStream>{ stream };
-    *output_stream_object = reinterpret_cast<OutputStreamObjectHandle>(shared_output_stream_wrapping_object);
-    return LibCZIApi_ErrorCode_OK;
 }
 
 //****************************************************************************************************
@@ -1600,10 +1647,11 @@ LibCZIApiErrorCode libCZI_CreateWriter(CziWriterObjectHandle* writer_object, con
 
     *writer_object = kInvalidObjectHandle;
 
-    CZIWriterOptions writer_options;
-    const bool writer_options_valid = ParameterHelpers::TryParseCZIWriterOptions(options, writer_options);
     try
     {
+        CZIWriterOptions writer_options;
+        const bool writer_options_valid = ParameterHelpers::TryParseCZIWriterOptions(options, writer_options);
+
         const auto writer = writer_options_valid ? libCZI::CreateCZIWriter(&writer_options) : libCZI::CreateCZIWriter();
         if (!writer)
         {
@@ -1681,10 +1729,11 @@ LibCZIApiErrorCode libCZI_WriterCreate(CziWriterObjectHandle writer_object, Outp
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    std::shared_ptr<libCZI::ICziWriterInfo> czi_writer_info;
-    const bool czi_writer_info_valid = ParameterHelpers::TryParseCZIWriterInfo(parameters, czi_writer_info);
     try
     {
+        std::shared_ptr<libCZI::ICziWriterInfo> czi_writer_info;
+        const bool czi_writer_info_valid = ParameterHelpers::TryParseCZIWriterInfo(parameters, czi_writer_info);
+
         if (czi_writer_info_valid)
         {
             shared_writer_wrapping_object->shared_ptr_->Create(shared_output_stream_wrapping_object->shared_ptr_, czi_writer_info);
@@ -1951,11 +2000,12 @@ LibCZIApiErrorCode libCZI_SingleChannelTileAccessorGet(SingleChannelScalingTileA
     }
 
     IntRect libczi_roi{ roi->x, roi->y, roi->w, roi->h };
-    const auto libczi_coordinate = ParameterHelpers::ConvertCoordinateInteropToDimCoordinate(*coordinate);
-    const auto libczi_options = ParameterHelpers::ConvertSingleChannelScalingTileAccessorOptionsInteropToLibCZI(options);
 
     try
     {
+        const auto libczi_coordinate = ParameterHelpers::ConvertCoordinateInteropToDimCoordinate(*coordinate);
+        const auto libczi_options = ParameterHelpers::ConvertSingleChannelScalingTileAccessorOptionsInteropToLibCZI(options);
+
         auto result_bitmap = shared_accessor_wrapping_object->shared_ptr_->Get(libczi_roi, &libczi_coordinate, zoom, &libczi_options);
 
         auto shared_bitmap_wrapping_object = new SharedPtrWrapper<IBitmapData>{ result_bitmap };
@@ -2005,28 +2055,28 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    unique_ptr<IBitmapData* []> source_bitmaps_data{ new IBitmapData * [channelCount] };
-    unique_ptr<Compositors::ChannelInfo[]> channel_info_data{ new Compositors::ChannelInfo[channelCount] };
-
-    for (int i = 0; i < channelCount; ++i)
+    try
     {
-        if (source_bitmaps[i] == kInvalidObjectHandle)
-        {
-            return LibCZIApi_ErrorCode_InvalidArgument;
-        }
+        unique_ptr<IBitmapData* []> source_bitmaps_data{ new IBitmapData * [channelCount] };
+        unique_ptr<Compositors::ChannelInfo[]> channel_info_data{ new Compositors::ChannelInfo[channelCount] };
 
-        auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
-        if (!shared_bitmap_wrapping_object->IsValid())
+        for (int i = 0; i < channelCount; ++i)
         {
-            return LibCZIApi_ErrorCode_InvalidHandle;
-        }
+            if (source_bitmaps[i] == kInvalidObjectHandle)
+            {
+                return LibCZIApi_ErrorCode_InvalidArgument;
+            }
 
-        source_bitmaps_data[i] = shared_bitmap_wrapping_object->shared_ptr_.get();
-        channel_info_data[i] = ParameterHelpers::ConvertCompositionChannelInfoInteropToChannelInfo(channel_info + i);
-    }
+            auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
+            if (!shared_bitmap_wrapping_object->IsValid())
+            {
+                return LibCZIApi_ErrorCode_InvalidHandle;
+            }
+
+            source_bitmaps_data[i] = shared_bitmap_wrapping_object->shared_ptr_.get();
+            channel_info_data[i] = ParameterHelpers::ConvertCompositionChannelInfoInteropToChannelInfo(channel_info + i);
+        }
 
-    try
-    {
         auto composed_bitmap = Compositors::ComposeMultiChannel_Bgr24(channelCount, source_bitmaps_data.get(), channel_info_data.get());
         auto shared_bitmap_wrapping_object = new SharedPtrWrapper<IBitmapData>{ composed_bitmap };
         *bitmap_object = reinterpret_cast<BitmapObjectHandle>(shared_bitmap_wrapping_object);
-- 
2.43.0


From 87298f553d47e00013d943855e2f1ddcfe76c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:10 +0000
Subject: [PATCH 097/102] fix: JPEG-XR decoder: codec context leaked when
 decoding failed (e.g. for a stream which is stored rotated)

---
 Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c b/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
index dae26ba..a970cc3 100644
--- a/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
+++ b/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
@@ -2004,6 +2004,7 @@ ERR JXRLIB_API(PKImageDecode_Copy_WMP)(
             pID->WMP.cLinesCropped = 0;
             pID->WMP.fFirstNonZeroDecode = FALSE;
             FailIf(ICERR_OK != JXRLIB_API(ImageStrDecTerm)(pID->WMP.ctxSC), WMP_errFail);
+            pID->WMP.ctxSC = NULL;
             Call(pID->WMP.wmiSCP.pWStream->SetPos(pID->WMP.wmiSCP.pWStream, pID->WMP.cMarker));
             FailIf(ICERR_OK != JXRLIB_API(ImageStrDecInit)(&pID->WMP.wmiI, &pID->WMP.wmiSCP, &pID->WMP.ctxSC), WMP_errFail);
         }
@@ -2055,6 +2056,7 @@ ERR JXRLIB_API(PKImageDecode_Copy_WMP)(
         // If we're past the top of the image, then we're done, so terminate.
         if (linesperMBRow * (size_t)(cMBRow - 1) >= pID->WMP.cLinesCropped + pID->WMP.wmiI.cROIHeight) {
             FailIf(ICERR_OK != JXRLIB_API(ImageStrDecTerm)(pID->WMP.ctxSC), WMP_errFail);
+            pID->WMP.ctxSC = NULL;
         }
         pID->WMP.DecoderCurrMBRow = cMBRow; // Set to next possible MBRow that is decodable
 
@@ -2137,6 +2139,7 @@ ERR JXRLIB_API(PKImageDecode_Copy_WMP)(
         // If we're past the top of the image, then we're done, so terminate
         if (linesperMBRow * (size_t)(cMBRow - 1) >= pID->WMP.cLinesCropped + pID->WMP.wmiI.cROIHeight) {
             FailIf(ICERR_OK != JXRLIB_API(ImageStrDecTerm)(pID->WMP.ctxSC_Alpha), WMP_errFail);
+            pID->WMP.ctxSC_Alpha = NULL;
         }
         pID->WMP.DecoderCurrAlphaMBRow = cMBRow; // Set to next possible MBRow that is decodable
         wmiBI.pv = pb;
@@ -2150,6 +2153,18 @@ ERR JXRLIB_API(PKImageDecode_Copy_WMP)(
     pID->idxCurrentLine += pRect->Height;
 
 Cleanup:
+#ifdef REENTRANT_MODE
+    if (Failed(err))
+    {
+        // the decoding cannot be continued - so release the codec-contexts which would otherwise only be released when reaching the last row
+        JXRLIB_API(ImageStrDecTerm)(pID->WMP.ctxSC);
+        pID->WMP.ctxSC = NULL;
+        pID->WMP.DecoderCurrMBRow = 0;
+        JXRLIB_API(ImageStrDecTerm)(pID->WMP.ctxSC_Alpha);
+        pID->WMP.ctxSC_Alpha = NULL;
+        pID->WMP.DecoderCurrAlphaMBRow = 0;
+    }
+#endif // REENTRANT_MODE
     return err;
 }
 
-- 
2.43.0


From 84dba4dd38c18f5e433349a2f92394523ea2fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:03 +0000
Subject: [PATCH 098/102] fix: reader-writer: TransformPoint before 'Create'
 dereferenced a null pointer

---
 Src/libCZI/CziReaderWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 2e83f2d..8079531 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -759,6 +759,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 
 /*virtual*/libCZI::IntPointAndFrameOfReference CCziReaderWriter::TransformPoint(const libCZI::IntPointAndFrameOfReference& source_point, libCZI::CZIFrameOfReference destination_frame_of_reference)
 {
+    this->ThrowIfNotOperational();
     CZIFrameOfReference source_frame_of_reference_consolidated;
     switch (source_point.frame_of_reference)
     {
-- 
2.43.0


From af74ad75e198cc2b8ec515706700c810ce424c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:39 +0000
Subject: [PATCH 099/102] fix: writer: duplicate detection overflowed for
 sub-blocks which are far apart

---
 Src/libCZI/CziSubBlockDirectory.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index ab8e3f4..e412cf6 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -508,24 +508,15 @@ bool CWriterCziSubBlockDirectory::SubBlkEntryCompare::operator()(const SubBlkEnt
     // 4th check: the x-y-position
     if (a.IsMIndexValid() == false && b.IsMIndexValid() == false)
     {
-        int v = a.x - b.x;
-        if (v < 0)
+        // (note that the difference of the positions may exceed the range of an int)
+        if (a.x != b.x)
         {
-            return true;
-        }
-        if (v > 0)
-        {
-            return false;
+            return a.x < b.x;
         }
 
-        v = a.y - b.y;
-        if (v < 0)
+        if (a.y != b.y)
         {
-            return true;
-        }
-        if (v > 0)
-        {
-            return false;
+            return a.y < b.y;
         }
     }
 
-- 
2.43.0


From 0e26d63040ab0385a12acd9742e592cb05e24ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:11 +0000
Subject: [PATCH 100/102] fix: metadata larger than the format can hold was
 written with a truncated size

---
 Src/libCZI/CziWriter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 4305e09..93c7723 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -878,6 +878,17 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
     {
         throw std::invalid_argument("'ptrAttachment' must be non-null");
     }
+
+    // the sizes are stored as (signed) 32-bit integers
+    if (metadataInfo.szMetadataSize > static_cast<size_t>((numeric_limits<int>::max)()))
+    {
+        throw std::invalid_argument("'szMetadataSize' must be <= numeric_limits<int>::max()");
+    }
+
+    if (metadataInfo.attachmentSize > static_cast<size_t>((numeric_limits<int>::max)()))
+    {
+        throw std::invalid_argument("'attachmentSize' must be <= numeric_limits<int>::max()");
+    }
 }
 
 // calculate the "allocated" size from the "used size" (taking into account some alignment restrictions).
-- 
2.43.0


From 39c3bf87809f2af1f79a9edf204bddf69536762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:05 +0000
Subject: [PATCH 101/102] fix: metadata was lost if writing its larger
 replacement failed

---
 Src/libCZI/CziWriter.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 93c7723..783609d 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -583,15 +583,6 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
     }
     else
     {
-        // if the existing segment is not large enough, we write "segmenttype=DELETED" into it(which is necessary if it was not a reservation)
-        if (info.sizeExistingSegmentPos > 0 && info.existingSegmentPos > 0 && info.markAsDeletedIfExistingSegmentIsNotUsed == true)
-        {
-            MarkDeletedInfo mark_deleted_info;
-            mark_deleted_info.segmentPos = info.existingSegmentPos;
-            mark_deleted_info.writeFunc = info.writeFunc;
-            WriteDeletedSegment(mark_deleted_info);
-        }
-
         metadataSegmentPos = info.segmentPosForNewSegment;
     }
 
@@ -620,6 +611,16 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         CWriterUtils::WriteZeroes(info.writeFunc, metadataSegmentPos + totalBytesWritten, msHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
+    // if the existing segment is not large enough, we write "segmenttype=DELETED" into it (which is necessary if it was not a reservation) - but
+    //  not before the new segment was successfully written
+    if (metadataSegmentPos != info.existingSegmentPos && info.sizeExistingSegmentPos > 0 && info.existingSegmentPos > 0 && info.markAsDeletedIfExistingSegmentIsNotUsed == true)
+    {
+        MarkDeletedInfo mark_deleted_info;
+        mark_deleted_info.segmentPos = info.existingSegmentPos;
+        mark_deleted_info.writeFunc = info.writeFunc;
+        WriteDeletedSegment(mark_deleted_info);
+    }
+
     return make_tuple(metadataSegmentPos, static_cast<std::uint64_t>(msHeaderAllocatedSize));
 }
 
-- 
2.43.0


From 7f5296724c5eccab408655b0f1a38d0118bd7303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:12 +0000
Subject: [PATCH 102/102] fix: JPEG-XR decoder: the signatures of a stream were
 searched for beyond their buffers

The bytes of the signatures are not zero-terminated, so strstr read
beyond them if they are not the expected ones.
---
 Src/JxrDecode/jxrlib/image/decode/strdec.c   | 2 +-
 Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/JxrDecode/jxrlib/image/decode/strdec.c b/Src/JxrDecode/jxrlib/image/decode/strdec.c
index ff235b3..a73abe1 100644
--- a/Src/JxrDecode/jxrlib/image/decode/strdec.c
+++ b/Src/JxrDecode/jxrlib/image/decode/strdec.c
@@ -2964,7 +2964,7 @@ Int JXRLIB_API(ReadWMIHeader)(
 // 0
     /** signature **/
     Call(pWS->Read(pWS, szMS, sizeof(szMS)));
-    FailIf(szMS != (U8*)strstr((char*)szMS, "WMPHOTO"), WMP_errUnsupportedFormat);
+    FailIf(memcmp(szMS, "WMPHOTO", 7) != 0, WMP_errUnsupportedFormat);
     //================================
     Call(JXRLIB_API(attach_SB)(pSB, pWS));
 
diff --git a/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c b/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
index a970cc3..ddf0dbd 100644
--- a/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
+++ b/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
@@ -1812,7 +1812,7 @@ ERR JXRLIB_API(ReadContainer)(
     //================================
     // Header
     Call(pWS->Read(pWS, szSig, sizeof(szSig))); offPos += 2;
-    FailIf(szSig != strstr(szSig, "II"), WMP_errUnsupportedFormat);
+    FailIf(szSig[0] != 'I' || szSig[1] != 'I', WMP_errUnsupportedFormat);
 
     Call(JXRLIB_API(GetUShort)(pWS, offPos, &uWmpID)); offPos += 2;
     FailIf(WMP_valWMPhotoID != (0x00FF & uWmpID), WMP_errUnsupportedFormat);
-- 
2.43.0

