From 97c3cccf7e566dc3258112db9afd14bcf79f8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 01/94] fix: padding of the attachment directory must start
 after the entries written

---
 Src/libCZI/CziWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e957ccf..c6445eb 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -771,7 +771,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 
     if (totalBytesWritten < attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader))
     {
-        bytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + bytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - bytesWritten);
+        totalBytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + totalBytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
     return make_tuple(attchmDirPos, static_cast<std::uint64_t>(attchmntDirSegmentHeaderAllocatedSize));
-- 
2.43.0


From 286fb544b680afcd5054d26b65b4afc781206b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:30 +0000
Subject: [PATCH 02/94] fix: WriteZeroes must write the requested number of
 bytes (more than one chunk)

---
 Src/libCZI/CziWriter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index c6445eb..c5f0f80 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -470,13 +470,13 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 {
     size_t totalBytesWritten = 0;
     std::uint8_t zeroes[4096] = { 0 };
-    for (std::uint64_t i = 0; i < (count + sizeof(zeroes) - 1) / sizeof(zeroes); ++i)
+    while (count > 0)
     {
         uint64_t bytesWritten;
         const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count);
-        writeFunc(filePos + i * sizeof(zeroes), zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
-        count -= sizeof(zeroes);
-        totalBytesWritten += (size_t)bytesWritten;
+        writeFunc(filePos + totalBytesWritten, zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
+        count -= bytesToWrite;
+        totalBytesWritten += static_cast<size_t>(bytesToWrite);
     }
 
     return totalBytesWritten;
-- 
2.43.0


From 2feb94125c265704a0d50d9dc60f42a067cf4092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:18 +0000
Subject: [PATCH 03/94] fix: a failed add must not leave a directory entry
 behind (writer and reader-writer)

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 22 ++++++++++++++++------
 Src/libCZI/CziAttachmentsDirectory.h   |  2 ++
 Src/libCZI/CziReaderWriter.cpp         | 10 ++++++----
 Src/libCZI/CziSubBlockDirectory.cpp    | 19 ++++++++++++++-----
 Src/libCZI/CziSubBlockDirectory.h      |  2 ++
 Src/libCZI/CziWriter.cpp               | 10 ++++++----
 6 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 68bf85a..d488937 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -68,12 +68,17 @@ bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entr
 
 //-----------------------------------------------------------------------------
 
-bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry)
+bool CWriterCziAttachmentsDirectory::Contains(const AttachmentEntry& entry) const
 {
-    if (std::find_if(
+    return std::any_of(
         this->attachments_.cbegin(),
         this->attachments_.cend(),
-        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) != this->attachments_.cend())
+        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); });
+}
+
+bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry)
+{
+    if (this->Contains(entry))
     {
         return false;
     }
@@ -181,12 +186,17 @@ bool CReaderWriterCziAttachmentsDirectory::TryRemoveAttachment(int key, Attachme
     return true;
 }
 
-bool CReaderWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry, int* key)
+bool CReaderWriterCziAttachmentsDirectory::Contains(const AttachmentEntry& entry) const
 {
-    if (std::find_if(
+    return std::any_of(
         this->attchmnts.cbegin(),
         this->attchmnts.cend(),
-        [&entry](const std::pair<int, AttachmentEntry>& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x.second, entry); }) != this->attchmnts.cend())
+        [&entry](const std::pair<const int, AttachmentEntry>& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x.second, entry); });
+}
+
+bool CReaderWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry, int* key)
+{
+    if (this->Contains(entry))
     {
         return false;
     }
diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index 886255a..d4aa355 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -60,6 +60,7 @@ namespace libCZI
         class CWriterCziAttachmentsDirectory : public CCziAttachmentsDirectoryBase
         {
         public:
+            bool Contains(const AttachmentEntry& entry) const;
             bool TryAddAttachment(const AttachmentEntry& entry);
             int GetAttachmentCount() const;
             bool EnumEntries(const std::function<bool(int index, const AttachmentEntry&)>& func) const;
@@ -90,6 +91,7 @@ namespace libCZI
 
             bool TryRemoveAttachment(int key, AttachmentEntry* attchmntEntry);
 
+            bool Contains(const AttachmentEntry& entry) const;
             bool TryAddAttachment(const AttachmentEntry& entry, int* key);
         };
 
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 1479722..fb0b683 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -122,8 +122,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry, nullptr);
-    if (b == false)
+    if (this->sbBlkDirectory.Contains(entry))
     {
         throw LibCZIReaderWriteException("Could not add subblock because it already exists", LibCZIReaderWriteException::ErrorType::AddCoordinateAlreadyExisting);
     }
@@ -133,8 +132,10 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     wi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     wi.useSpecifiedAllocatedSize = false;
 
+    // only after the subblock has been written successfully it is added to the directory
     const auto sizeOfSbBlk = CWriterUtils::WriteSubBlock(wi, addSbBlkInfo);
     this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfSbBlk);
+    this->sbBlkDirectory.TryAddSubBlock(entry, nullptr);
 }
 
 /*virtual*/void CCziReaderWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -147,8 +148,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->attachmentDirectory.TryAddAttachment(entry, nullptr);
-    if (b == false)
+    if (this->attachmentDirectory.Contains(entry))
     {
         throw LibCZIReaderWriteException("Could not add attachment because it already exists", LibCZIReaderWriteException::ErrorType::AddAttachmentAlreadyExisting);
     }
@@ -158,8 +158,10 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     wi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     wi.useSpecifiedAllocatedSize = false;
 
+    // only after the attachment has been written successfully it is added to the directory
     auto sizeOfAttchmnt = CWriterUtils::WriteAttachment(wi, addAttachmentInfo);
     this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfAttchmnt);
+    this->attachmentDirectory.TryAddAttachment(entry, nullptr);
 }
 
 /*virtual*/void CCziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfo& addSbBlkInfo)
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 782684b..817e6e7 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -4,6 +4,7 @@
 
 #include "CziSubBlockDirectory.h"
 #include "CziUtils.h"
+#include <algorithm>
 #include <cstddef>
 
 using namespace libCZI;
@@ -449,6 +450,11 @@ CWriterCziSubBlockDirectory::CWriterCziSubBlockDirectory(bool allow_duplicate_su
 {
 }
 
+bool CWriterCziSubBlockDirectory::Contains(const SubBlkEntry& entry) const
+{
+    return this->subBlks.find(entry) != this->subBlks.cend();
+}
+
 bool CWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry)
 {
     auto insert = this->subBlks.insert(entry);
@@ -694,6 +700,12 @@ bool CReaderWriterCziSubBlockDirectory::TryRemoveSubBlock(int key, SubBlkEntry*
     return true;
 }
 
+bool CReaderWriterCziSubBlockDirectory::Contains(const SubBlkEntry& entry) const
+{
+    return std::any_of(this->subBlks.cbegin(), this->subBlks.cend(),
+        [&entry](const std::pair<const int, SubBlkEntry>& x)->bool { return CCziSubBlockDirectoryBase::CompareForEquality_Coordinate(x.second, entry); });
+}
+
 /// First check whether a subblock already exists (with an equal coordinate); and if so, we return false.
 /// Otherwise, we add the subblock and store its index into "key" (if it is non-null).
 ///
@@ -703,12 +715,9 @@ bool CReaderWriterCziSubBlockDirectory::TryRemoveSubBlock(int key, SubBlkEntry*
 /// \return True if it succeeds, false if it fails (because an entry with identical coordinate already exists).
 bool CReaderWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry, int* key)
 {
-    for (auto it = this->subBlks.cbegin(); it != this->subBlks.cend(); ++it)
+    if (this->Contains(entry))
     {
-        if (CCziSubBlockDirectoryBase::CompareForEquality_Coordinate(it->second, entry))
-        {
-            return false;
-        }
+        return false;
     }
 
     this->AddSubBlock(entry, key);
diff --git a/Src/libCZI/CziSubBlockDirectory.h b/Src/libCZI/CziSubBlockDirectory.h
index ca653b2..444f9a2 100644
--- a/Src/libCZI/CziSubBlockDirectory.h
+++ b/Src/libCZI/CziSubBlockDirectory.h
@@ -144,6 +144,7 @@ namespace libCZI
         public:
             CWriterCziSubBlockDirectory() = delete;
             CWriterCziSubBlockDirectory(bool allow_duplicate_subblocks);
+            bool Contains(const SubBlkEntry& entry) const;
             bool TryAddSubBlock(const SubBlkEntry& entry);
 
             bool EnumEntries(const std::function<bool(size_t index, const SubBlkEntry&)>& func) const;
@@ -196,6 +197,7 @@ namespace libCZI
 
             bool TryModifySubBlock(int key, const SubBlkEntry& entry);
             bool TryRemoveSubBlock(int key, SubBlkEntry* entry = nullptr);
+            bool Contains(const SubBlkEntry& entry) const;
             bool TryAddSubBlock(const SubBlkEntry& entry, int* key);
 
             bool EnumEntries(const std::function<bool(int index, const SubBlkEntry&)>& func) const;
diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index c5f0f80..954b278 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -966,13 +966,14 @@ CCziWriter::~CCziWriter()
 
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry);
-    if (b == false)
+    if (this->sbBlkDirectory.Contains(entry))
     {
         throw LibCZIWriteException("Could not add subblock because it already exists", LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting);
     }
 
+    // only after the subblock has been written successfully it is added to the directory
     this->WriteSubBlock(addSbBlkInfo);
+    this->sbBlkDirectory.TryAddSubBlock(entry);
 }
 
 /*virtual*/void CCziWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -984,13 +985,14 @@ CCziWriter::~CCziWriter()
 
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->attachmentDirectory.TryAddAttachment(entry);
-    if (b == false)
+    if (this->attachmentDirectory.Contains(entry))
     {
         throw LibCZIWriteException("Could not add attachment because it already exists", LibCZIWriteException::ErrorType::AddAttachmentAlreadyExisting);
     }
 
+    // only after the attachment has been written successfully it is added to the directory
     this->WriteAttachment(addAttachmentInfo);
+    this->attachmentDirectory.TryAddAttachment(entry);
 }
 
 /*virtual*/void CCziWriter::SyncWriteMetadata(const libCZI::WriteMetadataInfo& metadataInfo)
-- 
2.43.0


From e8cc035164ecce69582c33e2594b708f903aa10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:37 +0000
Subject: [PATCH 04/94] fix: reader-writer must advance the append position
 exactly past a replaced item

---
 Src/libCZI/CziReaderWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index fb0b683..2350bc1 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -179,7 +179,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     if (get<0>(allocatedSizeAndNewSbEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry));
     }
 }
 
@@ -851,7 +851,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     if (get<0>(allocatedSizeAndNewAttchmntEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry));
     }
 }
 
@@ -894,7 +894,7 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
     memcpy(entry.ContentFileType, addAttchmntInfo.contentFileType, sizeof(entry.ContentFileType));
     memcpy(entry.Name, addAttchmntInfo.name, sizeof(entry.Name));
 
-    return make_tuple(false, sizeOfSbBlk, entry);
+    return make_tuple(true, sizeOfSbBlk, entry);
 }
 
 std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> CCziReaderWriter::ReplaceAttachmentInplace(const libCZI::AddAttachmentInfo& addAttchmntInfo, const CCziAttachmentsDirectoryBase::AttachmentEntry& attchmntInfo, std::uint64_t existingSegmentAllocatedSize)
-- 
2.43.0


From 59b1b5a79e2b748345d96b88d9ade25ceb52ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:37 +0000
Subject: [PATCH 05/94] fix: reader-writer must account for the segment header
 when a directory is appended

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 2350bc1..d552a9e 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -287,7 +287,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == sbBlkDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the subblock-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
@@ -325,7 +325,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == attchmntDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the attachment-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
-- 
2.43.0


From ae51b554f3c8176aa57d48858918a8c1a097ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:37 +0000
Subject: [PATCH 06/94] fix: positions of segments not present must be
 initialised

---
 Src/libCZI/CziReaderWriter.h | 2 +-
 Src/libCZI/CziWriter.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.h b/Src/libCZI/CziReaderWriter.h
index 1ea792e..70ad4d0 100644
--- a/Src/libCZI/CziReaderWriter.h
+++ b/Src/libCZI/CziReaderWriter.h
@@ -144,7 +144,7 @@ namespace libCZI
                 std::uint64_t allocatedSize;
                 bool isMarkedAsDeleted;
             public:
-                WrittenSegmentInfo() : isValid(false) {}
+                WrittenSegmentInfo() : isValid(false), filePos(0), allocatedSize(0), isMarkedAsDeleted(false) {}
                 void Invalidate() { this->isValid = false; }
                 bool IsValid() const { return this->isValid; }
                 void SetPositionAndAllocatedSize(std::uint64_t filePos, std::uint64_t allocatedSize, bool isMarkedAsDeleted)
diff --git a/Src/libCZI/CziWriter.h b/Src/libCZI/CziWriter.h
index 3b03cfe..0021910 100644
--- a/Src/libCZI/CziWriter.h
+++ b/Src/libCZI/CziWriter.h
@@ -334,7 +334,7 @@ namespace libCZI
                 std::uint64_t allocatedSize;
                 bool isMarkedAsDeleted;
             public:
-                WrittenSegmentInfo() : isValid(false) {}
+                WrittenSegmentInfo() : isValid(false), filePos(0), allocatedSize(0), isMarkedAsDeleted(false) {}
                 void Invalidate() { this->isValid = false; }
                 bool IsValid() const { return this->isValid; }
                 void SetPositionAndAllocatedSize(std::uint64_t filePos, std::uint64_t allocatedSize, bool isMarkedAsDeleted)
-- 
2.43.0


From 2a480cd8edd42d3bde5092e6f242b98d172a0eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:10 +0000
Subject: [PATCH 07/94] fix: a failed Create must leave the reader-writer
 without remains of the failed document

---
 Src/libCZI/CziReaderWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index d552a9e..960c765 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -97,8 +97,16 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     }
     catch (...)
     {
+        // discard everything that was read so far, so that a subsequent 'Create' starts from scratch
         this->stream.reset();
         this->info.reset();
+        this->hdrSegmentData = CFileHeaderSegmentData();
+        this->sbBlkDirectory = CReaderWriterCziSubBlockDirectory();
+        this->attachmentDirectory = CReaderWriterCziAttachmentsDirectory();
+        this->nextSegmentInfo = CNextSegment();
+        this->metadataSegment = WrittenSegmentInfo();
+        this->subBlockDirectorySegment = WrittenSegmentInfo();
+        this->attachmentDirectorySegment = WrittenSegmentInfo();
         throw;
     }
 }
-- 
2.43.0


From 6c0c0a524da6a1f6d6b37bf3a46b83456fb7e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:10 +0000
Subject: [PATCH 08/94] fix: a failed Create must leave the writer in the
 not-operational state

---
 Src/libCZI/CziWriter.cpp | 46 ++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 954b278..9a6a338 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -931,27 +931,41 @@ CCziWriter::~CCziWriter()
         this->info = make_shared<CCziWriterInfo>(Utilities::GenerateNewGuid());
     }
 
-    FileHeaderData fhd;
-    memset(&fhd, 0, sizeof(fhd));
-    fhd.primaryFileGuid = this->info->GetFileGuid();
-    this->WriteFileHeader(fhd);
+    try
+    {
+        FileHeaderData fhd;
+        memset(&fhd, 0, sizeof(fhd));
+        fhd.primaryFileGuid = this->info->GetFileGuid();
+        this->WriteFileHeader(fhd);
 
-    this->nextSegmentPos = sizeof(FileHeaderSegment);
+        this->nextSegmentPos = sizeof(FileHeaderSegment);
 
-    size_t s;
-    if (this->info->TryGetReservedSizeForMetadataSegment(&s))
-    {
-        this->ReserveMetadataSegment(s);
-    }
+        size_t s;
+        if (this->info->TryGetReservedSizeForMetadataSegment(&s))
+        {
+            this->ReserveMetadataSegment(s);
+        }
 
-    if (this->info->TryGetReservedSizeForSubBlockDirectory(&s))
-    {
-        this->ReserveSubBlockDirectory(s);
-    }
+        if (this->info->TryGetReservedSizeForSubBlockDirectory(&s))
+        {
+            this->ReserveSubBlockDirectory(s);
+        }
 
-    if (this->info->TryGetReservedSizeForAttachmentDirectory(&s))
+        if (this->info->TryGetReservedSizeForAttachmentDirectory(&s))
+        {
+            this->ReserveAttachmentDirectory(s);
+        }
+    }
+    catch (...)
     {
-        this->ReserveAttachmentDirectory(s);
+        // leave the object in the "not operational" state, so that 'Create' may be called again
+        this->nextSegmentPos = 0;
+        this->metadataSegment.Invalidate();
+        this->subBlockDirectorySegment.Invalidate();
+        this->attachmentDirectorySegment.Invalidate();
+        this->stream.reset();
+        this->info.reset();
+        throw;
     }
 }
 
-- 
2.43.0


From 6f2866860b78acfc7adad226a8f8c9aec43b26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:10 +0000
Subject: [PATCH 09/94] fix: a new document written by the reader-writer must
 always get a subblock directory

---
 Src/libCZI/CziReaderWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 960c765..ac2c1c9 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -465,6 +465,9 @@ void CCziReaderWriter::ReadCziStructure()
         this->WriteToOutputStream(0, &fhs, sizeof(fhs), nullptr, "FileHeader");
 
         this->hdrSegmentData = CFileHeaderSegmentData(&fhs.data);
+
+        // a subblock-directory is mandatory, so it needs to be written even if no subblock is added
+        this->sbBlkDirectory.SetModified(true);
     }
 
     this->DetermineNextSubBlockOffset();
-- 
2.43.0


From edf277659e4ac41161ad00e245b56105c705d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:10 +0000
Subject: [PATCH 10/94] fix: replacing a subblock or attachment must check its
 arguments like adding does

---
 Src/libCZI/CziReaderWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index ac2c1c9..372d85c 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -175,6 +175,10 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 /*virtual*/void CCziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfo& addSbBlkInfo)
 {
     this->ThrowIfNotOperational();
+
+    // check arguments
+    CWriterUtils::CheckAddSubBlockArguments(addSbBlkInfo);
+
     CCziSubBlockDirectoryBase::SubBlkEntry sbEntryExisting;
     bool b = this->sbBlkDirectory.TryGetSubBlock(key, &sbEntryExisting);
     if (b == false)
@@ -850,6 +854,10 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 /*virtual*/void CCziReaderWriter::ReplaceAttachment(int attchmntId, const libCZI::AddAttachmentInfo& addAttachmentInfo)
 {
     this->ThrowIfNotOperational();
+
+    // check arguments
+    CWriterUtils::CheckAddAttachmentArguments(addAttachmentInfo);
+
     CCziAttachmentsDirectoryBase::AttachmentEntry attchmntEntryExisting;
     bool b = this->attachmentDirectory.TryGetAttachment(attchmntId, &attchmntEntryExisting);
     if (b == false)
-- 
2.43.0


From e7591d653548657d3b19a5c83c29d5b8932c7b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:52 +0000
Subject: [PATCH 11/94] fix: adding a strided bitmap must store the pixels
 without the row padding

---
 Src/libCZI/CziWriter.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziWriter.h b/Src/libCZI/CziWriter.h
index 0021910..fe0a3ce 100644
--- a/Src/libCZI/CziWriter.h
+++ b/Src/libCZI/CziWriter.h
@@ -107,15 +107,17 @@ namespace libCZI
             {
                 libCZI::AddSubBlockInfo addSbInfo(addSbBlkInfoStrideBitmap);
 
-                addSbInfo.sizeData = static_cast<size_t>(addSbBlkInfoStrideBitmap.physicalHeight) * addSbBlkInfoStrideBitmap.strideBitmap;
+                // only the pixels of a row are written, the padding (as given by the stride) is not part of the data
+                const size_t sizeOfRow = addSbBlkInfoStrideBitmap.physicalWidth * static_cast<size_t>(CziUtils::GetBytesPerPel(addSbBlkInfoStrideBitmap.PixelType));
+                addSbInfo.sizeData = static_cast<size_t>(addSbBlkInfoStrideBitmap.physicalHeight) * sizeOfRow;
                 addSbInfo.getData = [&](int callCnt, size_t offset, const void*& ptr, size_t& size)->bool
                     {
                         (void)offset;
 
                         if (callCnt < addSbBlkInfoStrideBitmap.physicalHeight)
                         {
-                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * addSbBlkInfoStrideBitmap.strideBitmap;
-                            size = addSbBlkInfoStrideBitmap.strideBitmap;
+                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * static_cast<size_t>(addSbBlkInfoStrideBitmap.strideBitmap);
+                            size = sizeOfRow;
                             return true;
                         }
 
-- 
2.43.0


From 98618be8249af55cb456a2e7142d87ff90c68b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:52 +0000
Subject: [PATCH 12/94] fix: recreating the statistics must start with empty
 pyramid statistics

---
 Src/libCZI/CziSubBlockDirectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 817e6e7..a1222c9 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -41,6 +41,7 @@ void CSbBlkStatisticsUpdater::Clear()
 {
     this->statistics.Invalidate();
     this->statistics.subBlockCount = 0;
+    this->pyramidStatistics.scenePyramidStatistics.clear();
     this->pyramidStatisticsDirty = false;
 }
 
-- 
2.43.0


From 34664fa57c724a720b4f7e8e11fe646a17a12b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:52 +0000
Subject: [PATCH 13/94] fix: the M-index range must also consider subblocks
 without any other dimension

---
 Src/libCZI/CziSubBlockDirectory.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index a1222c9..3a1056f 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -83,22 +83,22 @@ void CSbBlkStatisticsUpdater::UpdateStatistics(const CCziSubBlockDirectoryBase::
                 }
             }
 
-            if (entry.IsMIndexValid())
-            {
-                if (entry.mIndex < this->statistics.minMindex)
-                {
-                    this->statistics.minMindex = entry.mIndex;
-                }
-
-                if (entry.mIndex > this->statistics.maxMindex)
-                {
-                    this->statistics.maxMindex = entry.mIndex;
-                }
-            }
-
             return true;
         });
 
+    if (entry.IsMIndexValid())
+    {
+        if (entry.mIndex < this->statistics.minMindex)
+        {
+            this->statistics.minMindex = entry.mIndex;
+        }
+
+        if (entry.mIndex > this->statistics.maxMindex)
+        {
+            this->statistics.maxMindex = entry.mIndex;
+        }
+    }
+
     // now deal with "enclosing Rect" for the scenes...
     int sceneIndex;
     if (entry.coordinate.TryGetPosition(libCZI::DimensionIndex::S, &sceneIndex))
-- 
2.43.0


From 7f5578f93e795504d333bcc8e0253048360864ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:52 +0000
Subject: [PATCH 14/94] fix: pyramid statistics must be sorted only once and
 with a strict ordering (concurrent readers)

---
 Src/libCZI/CziSubBlockDirectory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 3a1056f..14f51f1 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -170,7 +170,7 @@ void CSbBlkStatisticsUpdater::Consolidate()
     if (this->pyramidStatisticsDirty)
     {
         this->SortPyramidStatistics();
-        this->pyramidStatisticsDirty = true;
+        this->pyramidStatisticsDirty = false;
     }
 }
 
@@ -332,7 +332,7 @@ void CSbBlkStatisticsUpdater::SortPyramidStatistics()
                 // layer0 always "goes first"
                 if (a.layerInfo.IsLayer0())
                 {
-                    return true;
+                    return !b.layerInfo.IsLayer0();
                 }
 
                 // ...and "not identified" always last
-- 
2.43.0


From f9ea2a82e081ad6defca259ca9474b6eb82a28e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:50 +0000
Subject: [PATCH 15/94] fix: names and content types of attachments may use the
 full width of their field

---
 Src/libCZI/CZIReader.cpp             | 6 +++---
 Src/libCZI/CziAttachmentsDirectory.h | 6 ++++++
 Src/libCZI/CziParse.cpp              | 1 -
 Src/libCZI/CziReaderCommon.cpp       | 6 +++---
 Src/libCZI/CziReaderWriter.cpp       | 9 +++++----
 5 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 8993289..2b6a61a 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -274,7 +274,7 @@ CCZIReader::CCZIReader() :
         static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
         memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
         info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        info->name = entry.GetName();
     }
 
     return true;
@@ -290,7 +290,7 @@ CCZIReader::CCZIReader() :
         {
             ai.contentGuid = ae.ContentGuid;
             memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-            ai.name = ae.Name;
+            ai.name = ae.GetName();
             bool b = funcEnum(index, ai);
             return b;
         });
@@ -419,7 +419,7 @@ std::shared_ptr<libCZI::IAttachment> CCZIReader::ReadAttachment(const CCziAttach
     static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
     memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
     attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    attchmentInfo.name = entry.GetName();
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index d4aa355..5d5a7d5 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -23,6 +23,12 @@ namespace libCZI
                 libCZI::GUID ContentGuid;
                 char ContentFileType[8];
                 char Name[80];
+
+                /// Gets the content-file-type (note that the field is not necessarily null-terminated).
+                std::string GetContentFileType() const { return std::string(this->ContentFileType, std::find(this->ContentFileType, this->ContentFileType + sizeof(this->ContentFileType), '\0')); }
+
+                /// Gets the name (note that the field is not necessarily null-terminated).
+                std::string GetName() const { return std::string(this->Name, std::find(this->Name, this->Name + sizeof(this->Name), '\0')); }
             };
 
             struct AttachmentEntryEx : AttachmentEntry
diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 76fa3e5..82b9c61 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -243,7 +243,6 @@ using namespace libCZI::detail;
             ae.ContentGuid = pSrc->ContentGuid;
             memcpy(&ae.ContentFileType[0], &pSrc->ContentFileType[0], sizeof(AttachmentEntryA1::ContentFileType));
             memcpy(&ae.Name[0], &pSrc->Name[0], sizeof(AttachmentEntryA1::Name));
-            ae.Name[sizeof(AttachmentEntryA1::Name) - 1] = '\0';
             addFunc(ae);
         }
     }
diff --git a/Src/libCZI/CziReaderCommon.cpp b/Src/libCZI/CziReaderCommon.cpp
index 77c4983..f3c49ef 100644
--- a/Src/libCZI/CziReaderCommon.cpp
+++ b/Src/libCZI/CziReaderCommon.cpp
@@ -93,13 +93,13 @@ using namespace libCZI::detail;
     func(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& ae)
         {
-            if (contentFileType == nullptr || strcmp(contentFileType, ae.ContentFileType) == 0)
+            if (contentFileType == nullptr || ae.GetContentFileType() == contentFileType)
             {
-                if (name == nullptr || strcmp(name, ae.Name) == 0)
+                if (name == nullptr || ae.GetName() == name)
                 {
                     ai.contentGuid = ae.ContentGuid;
                     memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-                    ai.name = ae.Name;
+                    ai.name = ae.GetName();
                     bool b = funcEnum(index, ai);
                     return b;
                 }
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 372d85c..7f9462d 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -806,9 +806,9 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     {
         info->contentGuid = entry.ContentGuid;
         static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(info->contentFileType));
+        memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
         info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        info->name = entry.GetName();
     }
 
     return true;
@@ -823,7 +823,8 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
             libCZI::AttachmentInfo info;
             info.contentGuid = entry.ContentGuid;
             memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-            info.name = entry.Name;
+            info.contentFileType[sizeof(entry.ContentFileType)] = '\0';
+            info.name = entry.GetName();
             bool b = funcEnum(index, info);
             return b;
         });
@@ -960,7 +961,7 @@ std::shared_ptr<libCZI::IAttachment> CCziReaderWriter::ReadAttachment(const CCzi
     static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
     memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
     attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    attchmentInfo.name = entry.GetName();
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
-- 
2.43.0


From 485947543ec1b1dc2ff52b8ce4d474ddf97d6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:50 +0000
Subject: [PATCH 16/94] fix: looking up a negative index must report 'not
 found'

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 2 +-
 Src/libCZI/CziSubBlockDirectory.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index d488937..7f64e5b 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -57,7 +57,7 @@ void CCziAttachmentsDirectory::EnumAttachments(const std::function<bool(int inde
 
 bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entry) const
 {
-    if (index < (int)this->attachmentEntries.size())
+    if (index >= 0 && index < (int)this->attachmentEntries.size())
     {
         entry = this->attachmentEntries.at(index);
         return true;
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 14f51f1..f2151c0 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -417,7 +417,7 @@ void CCziSubBlockDirectory::EnumSubBlocks(const std::function<bool(int index, co
 
 bool CCziSubBlockDirectory::TryGetSubBlock(int index, SubBlkEntry& entry) const
 {
-    if (index < (int)this->subBlks.size())
+    if (index >= 0 && index < (int)this->subBlks.size())
     {
         entry = this->subBlks.at(index);
         return true;
-- 
2.43.0


From 00fe8d868d535c243784e3411dbd9169926943d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:50 +0000
Subject: [PATCH 17/94] fix: TryGetSubBlockInfo must be refused if the reader
 is not open

---
 Src/libCZI/CZIReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 2b6a61a..02e64a6 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -220,6 +220,7 @@ CCZIReader::CCZIReader() :
 
 /*virtual*/bool CCZIReader::TryGetSubBlockInfo(int index, SubBlockInfo* info) const
 {
+    this->ThrowIfNotOperational();
     CCziSubBlockDirectory::SubBlkEntry entry;
     if (this->subBlkDir.TryGetSubBlock(index, entry) == false)
     {
-- 
2.43.0


From 175d1ca46727a1e255cca04cecd39f7fff5eb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:50 +0000
Subject: [PATCH 18/94] fix: opening a document without attachments must not
 keep attachments of a document opened before

---
 Src/libCZI/CZIReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 02e64a6..b3238ed 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -62,6 +62,10 @@ CCZIReader::CCZIReader() :
         // TODO: how to determine whether there is "no attachment-directory" - is the check for 0 sufficient?
         this->attachmentDir = CCZIParse::ReadAttachmentsDirectory(stream.get(), attachmentPos);
     }
+    else
+    {
+        this->attachmentDir = CCziAttachmentsDirectory();
+    }
 
     this->stream = stream;
     switch (options->default_frame_of_reference)
-- 
2.43.0


From 23962604c65d77294e2ade4dcea08cc83d89ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:01 +0000
Subject: [PATCH 19/94] fix: include what the attachment directory uses

---
 Src/libCZI/CziAttachmentsDirectory.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index 5d5a7d5..74fc404 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -4,7 +4,9 @@
 
 #pragma once
 #include "libCZI_Utilities.h"
+#include <algorithm>
 #include <functional>
+#include <string>
 #include <vector>
 #include <set>
 #include <map>
-- 
2.43.0


From 9ae82a0562a2f81f50b4668b1061f3490c97bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:01 +0000
Subject: [PATCH 20/94] fix: the operational state of the reader is accessed
 concurrently and must be atomic

---
 Src/libCZI/CZIReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CZIReader.h b/Src/libCZI/CZIReader.h
index 7bd08fa..f53e487 100644
--- a/Src/libCZI/CZIReader.h
+++ b/Src/libCZI/CZIReader.h
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <mutex>
@@ -25,7 +26,7 @@ namespace libCZI
             CFileHeaderSegmentData hdrSegmentData;
             CCziSubBlockDirectory subBlkDir;
             CCziAttachmentsDirectory attachmentDir;
-            bool    isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
+            std::atomic<bool> isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
             libCZI::CZIFrameOfReference default_frame_of_reference;
             libCZI::ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy sub_block_directory_info_policy_;
         public:
-- 
2.43.0


From 872f9f036449b30f46ad7ff19a7b6ea0fee92a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:14 +0000
Subject: [PATCH 21/94] fix: masked copy with pixel type conversion must
 advance with every pixel

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5832c35..5624313 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -713,10 +713,10 @@ namespace
                 {
                     conv.ConvertPixel(dest, src);
                 }
-            }
 
-            dest += CziUtils::BytesPerPel<tDstPixelType>();;
-            src += CziUtils::BytesPerPel<tSrcPixelType>();;
+                dest += CziUtils::BytesPerPel<tDstPixelType>();
+                src += CziUtils::BytesPerPel<tSrcPixelType>();
+            }
         }
     }
 
-- 
2.43.0


From 87d16b50fd207f95c7f349bae574453dddda9cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:14 +0000
Subject: [PATCH 22/94] fix: decimating a bitonal bitmap must consider all rows
 of the neighborhood

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5624313..575bff2 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -301,7 +301,7 @@ namespace
         for (int i = start; i <= end; ++i)
         {
             dw &= *ptr;
-            ptr = reinterpret_cast<const uint32_t*>(static_cast<const uint8_t*>(ptrSrc) + pitchSrc);
+            ptr = reinterpret_cast<const uint32_t*>(reinterpret_cast<const uint8_t*>(ptr) + pitchSrc);
         }
 
         return dw;
-- 
2.43.0


From 59cba73ae8f1bf526958d7a2a538adabf359490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:14 +0000
Subject: [PATCH 23/94] fix: enumerating chunks must advance past the payload
 and count the chunks

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index da621b2..72b0c2b 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -55,30 +55,28 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
         throw LibCZIException("Invalid attachment data in sub-block or no attachment present.");
     }
 
-    std::uint32_t offset = 0;
+    size_t offset = 0;
     bool chunk_delivered = false;
 
-    for (int index = 0;;)
+    for (int index = 0;; ++index)
     {
         ChunkInfo chunk_info;
 
         // Read the GUID (16 bytes)
-        memcpy(&chunk_info.guid, attachment_data, 16);
+        memcpy(&chunk_info.guid, attachment_data + offset, 16);
         Utilities::ConvertGuidToHostByteOrder(&chunk_info.guid);
-        attachment_data += 16;
 
         // Read the size (4 bytes)
-        memcpy(&chunk_info.size, attachment_data, 4);
+        memcpy(&chunk_info.size, attachment_data + offset + 16, 4);
         Utilities::ConvertUint32ToHostByteOrder(&chunk_info.size);
-        attachment_data += 4;
 
         // is sufficient data available?
-        if (size_attachment_data < offset + 20 + chunk_info.size)
+        if (size_attachment_data - offset - 20 < chunk_info.size)
         {
             throw LibCZIException("Corrupted chunk data.");
         }
 
-        chunk_info.offset = offset + 20;
+        chunk_info.offset = static_cast<std::uint32_t>(offset + 20);
 
         chunk_delivered = true;
         const bool b = functor_enum(index, chunk_info);
@@ -87,7 +85,7 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
             break;
         }
 
-        offset += 20 + chunk_info.size;
+        offset += 20 + static_cast<size_t>(chunk_info.size);
 
         // if there are not at least 21 bytes left, we are done (note that we require at least 1 byte of payload!)
         if (size_attachment_data < offset + 21)
-- 
2.43.0


From a5e3a8ecf1b044ab559f06552027ffb02b8ebe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:15 +0000
Subject: [PATCH 24/94] fix: an absent or too small valid-pixel-mask chunk must
 be reported

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 72b0c2b..88c03e3 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -105,18 +105,30 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
     }
 
     ChunkInfo chunk_info_valid_pixel_mask;
+    bool valid_pixel_mask_found = false;
     this->EnumerateChunksInChunkContainer(
-        [&chunk_info_valid_pixel_mask](int /*index*/, const ChunkInfo& info)
+        [&chunk_info_valid_pixel_mask, &valid_pixel_mask_found](int /*index*/, const ChunkInfo& info)
         {
             if (info.guid == kGuidValidPixelMask)
             {
                 chunk_info_valid_pixel_mask = info;
+                valid_pixel_mask_found = true;
                 return false; // stop enumeration
             }
 
             return true; // continue enumeration
         });
 
+    if (!valid_pixel_mask_found)
+    {
+        throw LibCZIException("There is no valid-pixel-mask in the chunk container.");
+    }
+
+    if (chunk_info_valid_pixel_mask.size < 3 * sizeof(uint32_t))
+    {
+        throw LibCZIException("The valid-pixel-mask chunk is too small.");
+    }
+
     SubBlockAttachmentMaskInfoGeneral mask_info_general;
     shared_ptr<const void> spData = this->sub_block_->GetRawData(ISubBlock::MemBlkType::Attachment, nullptr);
     memcpy(&mask_info_general.width, static_cast<const uint8_t*>(spData.get()) + chunk_info_valid_pixel_mask.offset, sizeof(mask_info_general.width));
-- 
2.43.0


From 5d317148e19675bf4f4fb99b40b695077dbabfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 25/94] fix: the tile accessor must honor the scene filter

---
 Src/libCZI/SingleChannelTileAccessor.cpp | 17 +++++++++++++----
 Src/libCZI/SingleChannelTileAccessor.h   |  4 ++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 543ca57..9970147 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -135,17 +135,17 @@ void CSingleChannelTileAccessor::InternalGet(int xPos, int yPos, libCZI::IBitmap
     Clear(pBm, pOptions->backGroundColor);
     const IntSize sizeBm = pBm->GetSize();
     const IntRect roi{ xPos,yPos,static_cast<int>(sizeBm.w),static_cast<int>(sizeBm.h) };
-    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sortByM);
+    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sceneFilter.get(), pOptions->sortByM);
 
     this->ComposeTiles(pBm, xPos, yPos, subBlocksSet, *pOptions);
 }
 
-std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, bool sortByM)
+std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM)
 {
     // ok... for a first tentative, experimental and quick-n-dirty implementation, simply
     // get all subblocks by enumerating all
     std::vector<IndexAndM> subBlocksSet;
-    this->GetAllSubBlocks(roi, planeCoordinate, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
+    this->GetAllSubBlocks(roi, planeCoordinate, sceneFilter, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
     if (sortByM == true)
     {
         // sort ascending-by-M-index (-> lowest M-index first, highest last)
@@ -161,11 +161,20 @@ std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::G
     return subBlocksSet;
 }
 
-void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const
+void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const
 {
     this->sbBlkRepository->EnumSubset(planeCoordinate, nullptr, true,
         [&](int idx, const SubBlockInfo& info)->bool
         {
+            if (sceneFilter != nullptr)
+            {
+                int indexS;
+                if (info.coordinate.TryGetPosition(DimensionIndex::S, &indexS) == true && !sceneFilter->IsContained(indexS))
+                {
+                    return true;
+                }
+            }
+
             if (Utilities::DoIntersect(roi, info.logicalRect))
             {
                 appender(idx, info.mIndex);
diff --git a/Src/libCZI/SingleChannelTileAccessor.h b/Src/libCZI/SingleChannelTileAccessor.h
index 7a6555a..2d4bcb9 100644
--- a/Src/libCZI/SingleChannelTileAccessor.h
+++ b/Src/libCZI/SingleChannelTileAccessor.h
@@ -26,7 +26,7 @@ namespace libCZI
             void Get(libCZI::IBitmapData* pDest, const libCZI::IntPointAndFrameOfReference& position, const libCZI::IDimCoordinate* planeCoordinate, const Options* pOptions) override;
         private:
             void InternalGet(int xPos, int yPos, libCZI::IBitmapData* pBm, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::ISingleChannelTileAccessor::Options* pOptions);
-            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const;
+            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const;
 
             struct IndexAndM
             {
@@ -34,7 +34,7 @@ namespace libCZI
                 int mIndex;
             };
 
-            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, bool sortByM);
+            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM);
             void ComposeTiles(libCZI::IBitmapData* pBm, int xPos, int yPos, const std::vector<IndexAndM>& subBlocksSet, const libCZI::ISingleChannelTileAccessor::Options& options);
         };
 
-- 
2.43.0


From 13eb704ee0ece125b47ae6ae55843daaebd93dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 26/94] fix: a pyramid layer without tiles in the ROI must give
 the background

---
 Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index 88d166e..dbe63e5 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -86,7 +86,13 @@ void CSingleChannelPyramidLevelTileAccessor::InternalGet(libCZI::IBitmapData* pD
 
     const auto byLayer = CalcByLayer(subSet, pyramidInfo.minificationFactor);
     // ok, now we just have to look at our requested pyramid-layer
-    const auto& indices = byLayer.at(pyramidInfo.pyramidLayerNo).indices;
+    const auto layer = byLayer.find(pyramidInfo.pyramidLayerNo);
+    if (layer == byLayer.end())
+    {   // there are subblocks in the ROI, but none on the requested pyramid-layer
+        return;
+    }
+
+    const auto& indices = layer->second.indices;
 
     // and now... copy...
     this->ComposeTiles(pDest, xPos, yPos, sizeOfPixelOnLayer0, static_cast<int>(indices.size()), options,
-- 
2.43.0


From 2eb2f82d2fed2fa959527ef5e576ee6d7c9eb022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 27/94] fix: a mask found in the subblock cache must have the
 same effect as one read from the document

---
 Src/libCZI/SingleChannelAccessorBase.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/SingleChannelAccessorBase.cpp b/Src/libCZI/SingleChannelAccessorBase.cpp
index 286b50f..69c5735 100644
--- a/Src/libCZI/SingleChannelAccessorBase.cpp
+++ b/Src/libCZI/SingleChannelAccessorBase.cpp
@@ -175,18 +175,23 @@ std::vector<int> CSingleChannelAccessorBase::CheckForVisibility(const libCZI::In
             }
 
             result.bitmap = bitmap_from_cache.bitmap;
-            result.mask = bitmap_from_cache.mask;
+            result.mask = mask_aware_mode ? bitmap_from_cache.mask : nullptr;
         }
         else
         {
             const auto subblock = sub_block_repository->ReadSubBlock(sub_block_index);
             result.bitmap = subblock->CreateBitmap();
-            result.mask = mask_aware_mode ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
             result.subBlockInfo = subblock->GetSubBlockInfo();
-            if (!only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed)
+            const bool add_to_cache = !only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed;
+
+            // an item in the cache must always contain the mask (if there is one), because it may be used later by a "mask aware" operation
+            const auto mask = (mask_aware_mode || add_to_cache) ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
+            if (add_to_cache)
             {
-                cache->Add(sub_block_index, { result.bitmap, result.mask });
+                cache->Add(sub_block_index, { result.bitmap, mask });
             }
+
+            result.mask = mask_aware_mode ? mask : nullptr;
         }
     }
 
-- 
2.43.0


From dbad98637fcedade651ba6593fae3efdb1d88581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 28/94] fix: the visibility check must not discard tiles below
 a masked tile

---
 Src/libCZI/SingleChannelScalingTileAccessor.cpp | 3 ++-
 Src/libCZI/SingleChannelTileAccessor.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index e12854d..4a7e675 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -368,7 +368,8 @@ void CSingleChannelScalingTileAccessor::Paint(libCZI::IBitmapData* bmDest, const
         }
     }
 
-    if (!options.useVisibilityCheckOptimization)
+    // note: the visibility check only considers the rectangles of the tiles, so it must not be used if parts of the tiles may be masked out
+    if (!options.useVisibilityCheckOptimization || options.maskAware)
     {
         for (auto it = start_iterator; it != end_iterator; ++it)
         {
diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 9970147..8d263a1 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -51,7 +51,8 @@ void CSingleChannelTileAccessor::ComposeTiles(libCZI::IBitmapData* pBm, int xPos
     composeOptions.Clear();
     composeOptions.drawTileBorder = options.drawTileBorder;
 
-    if (options.useVisibilityCheckOptimization)
+    // note: the visibility check only considers the rectangles of the tiles, so it must not be used if parts of the tiles may be masked out
+    if (options.useVisibilityCheckOptimization && !options.maskAware)
     {
         // Try to reduce the number of subblocks to be rendered by doing a visibility check, and only rendering those which are visible.
         // We report the subblocks in the order as they are given in the vector 'subBlocksSet', the lambda will be called with the
-- 
2.43.0


From 5d7c742f33b62103b0fe0cc3da050908bcc4d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 29/94] fix: statistics of the subblock cache must not show
 intermediate states

---
 Src/libCZI/subblock_cache.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/subblock_cache.cpp b/Src/libCZI/subblock_cache.cpp
index 2229247..3796b37 100644
--- a/Src/libCZI/subblock_cache.cpp
+++ b/Src/libCZI/subblock_cache.cpp
@@ -16,6 +16,9 @@ std::shared_ptr<ISubBlockCache> libCZI::CreateSubBlockCache()
 ISubBlockCacheStatistics::Statistics SubBlockCache::GetStatistics(std::uint8_t mask) const
 {
     Statistics result{};
+
+    // Adding and pruning modify the values in several steps, so we always have to lock in order not to report an intermediate state.
+    lock_guard<mutex> lck(this->mutex_);
     if (mask == ISubBlockCacheStatistics::kMemoryUsage)
     {
         result.validityMask = ISubBlockCacheStatistics::kMemoryUsage;
@@ -29,9 +32,6 @@ ISubBlockCacheStatistics::Statistics SubBlockCache::GetStatistics(std::uint8_t m
     else if (mask == (ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount))
     {
         result.validityMask = ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount;
-
-        // We want to ensure that the memory usage and the element count are consistent, therefore we need to lock reading both values.
-        lock_guard<mutex> lck(this->mutex_);
         result.memoryUsage = this->cache_size_in_bytes_.load();
         result.elementsCount = this->cache_subblock_count_.load();
     }
-- 
2.43.0


From 5c60e11efdfe1d14d266170d65ba22bac0039316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 30/94] fix: the recency of an added cache item must be
 determined together with adding it

---
 Src/libCZI/subblock_cache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/subblock_cache.cpp b/Src/libCZI/subblock_cache.cpp
index 3796b37..c9afc95 100644
--- a/Src/libCZI/subblock_cache.cpp
+++ b/Src/libCZI/subblock_cache.cpp
@@ -55,9 +55,9 @@ ISubBlockCacheOperation::CacheItem SubBlockCache::Get(int subblock_index)
 void SubBlockCache::Add(int subblock_index, const ISubBlockCacheOperation::CacheItem& cache_item)
 {
     const auto size_of_added_cache_item = SubBlockCache::CalculateSizeInBytes(cache_item.bitmap.get(), cache_item.mask.get());
-    const auto entry_to_be_added = CacheEntry{ cache_item.bitmap, cache_item.mask, this->lru_counter_.fetch_add(1) };
 
     lock_guard<mutex> lck(this->mutex_);
+    const auto entry_to_be_added = CacheEntry{ cache_item.bitmap, cache_item.mask, this->lru_counter_.fetch_add(1) };
     const auto result = this->cache_.insert({ subblock_index, entry_to_be_added });
     if (result.second)
     {
-- 
2.43.0


From db2eb0105742d6816d69871b8a908553b6f93633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:10 +0000
Subject: [PATCH 31/94] fix: decimating a bitonal bitmap must not read beyond
 the line and consider all rows at a DWORD boundary

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 575bff2..02698e6 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -109,7 +109,7 @@ namespace
     private:
         static const std::uint8_t DecimateBitonalTable[256];
         static void DecimateLine(int y, int height, int regionSize, const std::uint8_t* ptrSrc, int widthSrc, int strideSrc, std::uint8_t* ptrDest, int widthDest, int strideDest);
-        static std::uint8_t GetByteAfter(const void* ptr, int x, int width);
+        static std::uint8_t GetByteAfter(int y, int height, const std::uint8_t* ptr, int x, int width, int stride);
         static std::uint16_t FilterDword(std::uint32_t dw, uint8_t byteBefore, uint8_t byteAfter);
     };
 
@@ -175,7 +175,7 @@ namespace
 
         for (int x = 0; x < numberOfDwords; ++x)
         {
-            uint8_t byteAfter = GetByteAfter(ptrSrc, (x * 4) + 4, widthSrc);
+            uint8_t byteAfter = GetByteAfter(y, height, ptrSrc, (x * 4) + 4, widthSrc, strideSrc);
             uint32_t dw = EndianessConv::BswapDWORD(DecimateHelpers<RegionSize>::GetDword(y, height, ptrSrc + static_cast<size_t>(x) * 4, strideSrc));
             uint16_t dest = FilterDword(dw, byteBefore, byteAfter);
             byteBefore = static_cast<uint8_t>(dw);
@@ -203,11 +203,13 @@ namespace
     }
 
     template <int RegionSize, class EndianessConv>
-    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(const void* ptr, int x, int width)
+    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(int y, int height, const uint8_t* ptr, int x, int width, int stride)
     {
-        if (x < width)
+        // note: x is in units of bytes, width is in units of pixels (i.e. bits); all rows of the neighborhood have to be considered
+        const int bitsRemaining = width - x * 8;
+        if (bitsRemaining > 0)
         {
-            return *(static_cast<const uint8_t*>(ptr) + x);
+            return static_cast<uint8_t>(DecimateHelpers<RegionSize>::GetDwordPartial(y, height, ptr + x, (std::min)(bitsRemaining, 8), stride));
         }
 
         return 0xff;
-- 
2.43.0


From cd09590a812c19905cf47eb3e89ad1344855df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:10 +0000
Subject: [PATCH 32/94] fix: decimating a bitonal bitmap must not write beyond
 the destination line

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 02698e6..d1c40b6 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -191,7 +191,14 @@ namespace
             // then filter the DWORD as usually
             const uint16_t dest = FilterDword(dw, byteBefore, 0xff);
 
-            if (bitsRemaining <= 16)
+            // we must only write what is inside the destination line
+            const int destBitsRemaining = widthDest - numberOfDwords * 16;
+            if (destBitsRemaining <= 0)
+            {
+                return;
+            }
+
+            if (destBitsRemaining <= 8)
             {
                 *reinterpret_cast<uint8_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = static_cast<uint8_t>(dest >> 8);
             }
-- 
2.43.0


From 6a87c9a7f7d5424b266c04db24c2a0874fac4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:10 +0000
Subject: [PATCH 33/94] fix: filling a region left of or above a bitonal bitmap
 must not change it

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index d1c40b6..99563b5 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -1052,8 +1052,8 @@ namespace
 {
     const int x1 = (std::max)(roi.x, 0);
     const int y1 = (std::max)(roi.y, 0);
-    const int x2 = (std::min)(static_cast<uint32_t>(roi.x + roi.w), width);
-    const int y2 = (std::min)(static_cast<uint32_t>(roi.y + roi.h), height);
+    const int x2 = static_cast<int>((std::min)(static_cast<int64_t>(roi.x) + roi.w, static_cast<int64_t>(width)));
+    const int y2 = static_cast<int>((std::min)(static_cast<int64_t>(roi.y) + roi.h, static_cast<int64_t>(height)));
     const int w = x2 - x1;
     const int h = y2 - y1;
 
-- 
2.43.0


From 0e8c0a895df4123f4c19d8d6107dc9e7c097f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:10 +0000
Subject: [PATCH 34/94] fix: transforming coordinates must be refused if no
 document is open

---
 Src/libCZI/CZIReader.cpp       | 1 +
 Src/libCZI/CziReaderWriter.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index b3238ed..ab0f786 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -119,6 +119,7 @@ CCZIReader::CCZIReader() :
 
 /*virtual*/libCZI::IntPointAndFrameOfReference CCZIReader::TransformPoint(const libCZI::IntPointAndFrameOfReference& source_point, libCZI::CZIFrameOfReference destination_frame_of_reference)
 {
+    this->ThrowIfNotOperational();
     CZIFrameOfReference source_frame_of_reference_consolidated;
     switch (source_point.frame_of_reference)
     {
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 7f9462d..f0968d1 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -737,6 +737,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 
 /*virtual*/libCZI::IntPointAndFrameOfReference CCziReaderWriter::TransformPoint(const libCZI::IntPointAndFrameOfReference& source_point, libCZI::CZIFrameOfReference destination_frame_of_reference)
 {
+    this->ThrowIfNotOperational();
     CZIFrameOfReference source_frame_of_reference_consolidated;
     switch (source_point.frame_of_reference)
     {
-- 
2.43.0


From d563d27cc578625c2fdc51b00617eaf02a1ed71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:01 +0000
Subject: [PATCH 35/94] fix: the conversion from Bgr24 to Bgr48 must read the
 source as Bgr24

---
 Src/libCZI/BitmapOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 2d41edb..608a3f4 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -94,7 +94,7 @@ namespace libCZI
         {
             void ConvertPixel(void* ptrDest, const void* ptrSrc) const
             {
-                const std::uint16_t* src = (const std::uint16_t*)ptrSrc;
+                const std::uint8_t* src = (const std::uint8_t*)ptrSrc;
                 std::uint16_t* dst = (std::uint16_t*)ptrDest;
                 *dst = *src;
                 *(dst + 1) = *(src + 1);
-- 
2.43.0


From 1e8594c8e052779037b50c37fbf5e3ff5ad8e7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:11 +0000
Subject: [PATCH 36/94] fix: decoding Bgr48 with lo-hi-byte-packing must unpack
 all 16-bit words if data size mismatches are handled

---
 Src/libCZI/decoder_zstd.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 5aeef82..d817cbe 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -292,7 +292,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / bytes_per_pel, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, static_cast<uint32_t>(stride / sizeof(uint16_t)), height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
             return bitmap;
         }
         else if (zstd_frame_content_size < expectedSize)
@@ -307,8 +307,9 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
-            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
+            const size_t word_count = decompressed_size / sizeof(uint16_t);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, static_cast<uint32_t>(word_count), 1, static_cast<uint32_t>(zstd_frame_content_size), bitmap_lock_info.ptrDataRoi);
+            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + word_count * sizeof(uint16_t), 0, expectedSize - word_count * sizeof(uint16_t));
             return bitmap;
         }
         else
@@ -331,7 +332,7 @@ namespace
                 throw runtime_error("Failed to allocate temporary buffer for Zstd-decompression.");
             }
 
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, static_cast<uint32_t>(decompressed_size / sizeof(uint16_t)), 1, static_cast<uint32_t>(zstd_frame_content_size), temporary_buffer_for_packed.get());
 
             // now we can release the first temporary buffer
             temporary_buffer.reset();
-- 
2.43.0


From 5cdf1c60c77fb62ba55b70da12ce68a0e892495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:11 +0000
Subject: [PATCH 37/94] fix: parsing a zstd1-header must not read beyond the
 data, and an invalid header size must be refused

---
 Src/libCZI/decoder_zstd.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index d817cbe..7ecaeaa 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -373,13 +373,10 @@ namespace
             return retVal;
         }
 
-        if (*ptrData == 3)
+        if (*ptrData != 3 || size < 3)
         {
-            // in this case... the size must be at least 3 
-            if (size < 3)
-            {
-                return retVal;
-            }
+            // no other value is valid, and in case of 3... the size must be at least 3
+            return retVal;
         }
 
         // is "chunk type 1" next?
-- 
2.43.0


From 7288efd30c976e2e7e30b5018dd03e035ca2132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:48 +0000
Subject: [PATCH 38/94] fix: parsing dimension bounds must refuse text before
 or between the intervals, and "|" is not a sign

---
 Src/libCZI/DimCoordinate.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/DimCoordinate.cpp b/Src/libCZI/DimCoordinate.cpp
index 7161769..b1b6684 100644
--- a/Src/libCZI/DimCoordinate.cpp
+++ b/Src/libCZI/DimCoordinate.cpp
@@ -43,7 +43,7 @@ public:
     static CDimBounds ParseBounds(const char* str)
     {
         string s(str);
-        regex bounds_regex(R"((?:([a-zA-Z])(?:([\+|-]?[0-9]+):([\+|-]?[0-9]+))\s*))");
+        regex bounds_regex(R"(\s*(?:([a-zA-Z])(?:([+-]?[0-9]+):([+-]?[0-9]+))\s*))");
 
         std::regex_iterator<std::string::iterator> it(s.begin(), s.end(), bounds_regex);
         std::regex_iterator<std::string::iterator> end;
@@ -55,6 +55,12 @@ public:
         {
             if (it->size() == 4)
             {
+                if (it->prefix().length() != 0)
+                {
+                    // there must not be anything in front of (or between) the intervals
+                    throw LibCZIStringParseException("Bounds-string did not parse", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+                }
+
                 auto dimMatch = it->operator[](1);
                 auto dimIdx = Utils::CharToDimension(dimMatch.str()[0]);
                 if (dimIdx == DimensionIndex::invalid)
-- 
2.43.0


From 55bfbff4011fb2dd0cc8107c6eda6c28c6842880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:48 +0000
Subject: [PATCH 39/94] fix: parsing a coordinate must not refuse a ten-digit
 negative number with leading zeros

---
 Src/libCZI/DimCoordinate.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/DimCoordinate.cpp b/Src/libCZI/DimCoordinate.cpp
index b1b6684..a5bdbed 100644
--- a/Src/libCZI/DimCoordinate.cpp
+++ b/Src/libCZI/DimCoordinate.cpp
@@ -105,9 +105,9 @@ public:
 private:
     static bool Int_ParseCoordinate(const char* str, int& charsParsedOk, DimensionIndex& dimIdx, int& value)
     {
-        // a 32-bit integer can have 10 digits at most, plus one for the +/- sign , that's 11 altogether
-        // plus the trailing zero, which gives us 12
-        constexpr int MAX_CHARS_FOR_NUMBER = 11;
+        // a 32-bit integer can have 10 digits at most, plus one for the +/- sign and plus one for a leading zero, that's
+        // 12 altogether plus the trailing zero, which gives us 13
+        constexpr int MAX_CHARS_FOR_NUMBER = 12;
         char number[MAX_CHARS_FOR_NUMBER + 1];
         int numberPos = 0;
         charsParsedOk = 0;
-- 
2.43.0


From 471c1d804b382d0614fb7c23480e50508e48f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:48 +0000
Subject: [PATCH 40/94] fix: parsing an index-set must refuse a sign which is
 not followed by a number

---
 Src/libCZI/IndexSet.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Src/libCZI/IndexSet.cpp b/Src/libCZI/IndexSet.cpp
index ace691d..93ac37a 100644
--- a/Src/libCZI/IndexSet.cpp
+++ b/Src/libCZI/IndexSet.cpp
@@ -78,6 +78,12 @@ void CIndexSet::AddInterval(int start, int end)
             }
         }
 
+        if (num1.size() == 1 && !iswdigit(num1[0]) && !iswdigit(str[i]))
+        {
+            // a sign must be followed by at least one digit (or by "inf")
+            throw LibCZIStringParseException("Syntax error", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+        }
+
         for (; iswdigit(str[i]); ++i) { num1 += str[i]; }
     }
     else if (c == L'i' && str[i + 1] == L'n' && str[i + 2] == L'f')
@@ -126,6 +132,12 @@ first_part_done:
             }
         }
 
+        if (num2.size() == 1 && !iswdigit(num2[0]) && !iswdigit(str[i]))
+        {
+            // a sign must be followed by at least one digit (or by "inf")
+            throw LibCZIStringParseException("Syntax error", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+        }
+
         for (; iswdigit(str[i]); ++i) { num2 += str[i]; }
     }
     else if (c == L'i' && str[i + 1] == L'n' && str[i + 2] == L'f')
-- 
2.43.0


From 6d1f37c3bf1edb7bd7b199bdf604aba3e6d005db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:48 +0000
Subject: [PATCH 41/94] fix: formatting a date/time must give a valid
 XSD-string for negative years and negative time zone offsets

---
 Src/libCZI/CziMetadataBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 4242f62..ddcf6aa 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -610,7 +610,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
 
     stringstream ss;
-    ss << setfill('0') << setw(4) << this->year << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
+    ss << setfill('0') << (this->year < 0 ? "-" : "") << setw(4) << std::abs(this->year) << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
         << setw(2) << this->hour << ':' << setw(2) << this->min << ':' << setw(2) << this->sec;
     if (this->isUTC == true)
     {
@@ -618,7 +618,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
     else if (this->HasTimeZoneOffset())
     {
-        ss << ((this->offsetHours >= 0) ? "+" : "") << setw(2) << this->offsetHours << ':' << setw(2) << this->offsetMinutes;
+        ss << ((this->offsetHours >= 0) ? '+' : '-') << setw(2) << std::abs(this->offsetHours) << ':' << setw(2) << this->offsetMinutes;
     }
 
     return ss.str();
-- 
2.43.0


From e0af5a671d02aa5fbaef7efe76bb5c647e36d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:48 +0000
Subject: [PATCH 42/94] fix: parsing a date/time must accept a leap second, as
 the documentation says

---
 Src/libCZI/CziMetadataBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index ddcf6aa..b8f7a9a 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -651,7 +651,7 @@ bool libCZI::XmlDateTime::IsValid() const
 /*static*/bool libCZI::XmlDateTime::TryParse(const char* sz, libCZI::XmlDateTime* ptrDateTime)
 {
     // cf. https://www.oreilly.com/library/view/regular-expressions-cookbook/9781449327453/ch04s07.html
-    static const char* regexStr = R"((-?(?:[1-9][0-9]*)?[0-9]{4})-(1[0-2]|0[1-9])-(3[01]|0[1-9]|[12][0-9])T(2[0-3]|[01][0-9]):([0-5][0-9]):([0-5][0-9])(\.[0-9]+)?(Z|[+-](?:2[0-3]|[01][0-9]):[0-5][0-9])?)";
+    static const char* regexStr = R"((-?(?:[1-9][0-9]*)?[0-9]{4})-(1[0-2]|0[1-9])-(3[01]|0[1-9]|[12][0-9])T(2[0-3]|[01][0-9]):([0-5][0-9]):([0-5][0-9]|60)(\.[0-9]+)?(Z|[+-](?:2[0-3]|[01][0-9]):[0-5][0-9])?)";
 
     auto str = Utilities::Trim(sz);
     regex dateTimeRegex(regexStr);
-- 
2.43.0


From c79c8d54a9265a2fee52ba33ee7ca6158e517e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:48 +0000
Subject: [PATCH 43/94] fix: XmlDateTime::TryParse must not throw if the year
 has many digits

---
 Src/libCZI/CziMetadataBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index b8f7a9a..50fb70b 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -651,7 +651,7 @@ bool libCZI::XmlDateTime::IsValid() const
 /*static*/bool libCZI::XmlDateTime::TryParse(const char* sz, libCZI::XmlDateTime* ptrDateTime)
 {
     // cf. https://www.oreilly.com/library/view/regular-expressions-cookbook/9781449327453/ch04s07.html
-    static const char* regexStr = R"((-?(?:[1-9][0-9]*)?[0-9]{4})-(1[0-2]|0[1-9])-(3[01]|0[1-9]|[12][0-9])T(2[0-3]|[01][0-9]):([0-5][0-9]):([0-5][0-9]|60)(\.[0-9]+)?(Z|[+-](?:2[0-3]|[01][0-9]):[0-5][0-9])?)";
+    static const char* regexStr = R"((-?[0-9]{4})-(1[0-2]|0[1-9])-(3[01]|0[1-9]|[12][0-9])T(2[0-3]|[01][0-9]):([0-5][0-9]):([0-5][0-9]|60)(\.[0-9]+)?(Z|[+-](?:2[0-3]|[01][0-9]):[0-5][0-9])?)";
 
     auto str = Utilities::Trim(sz);
     regex dateTimeRegex(regexStr);
-- 
2.43.0


From cbb1f856d69f2f5d08383526d5c496cf4f6fb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:48 +0000
Subject: [PATCH 44/94] fix: parsing a color must not access memory
 out-of-bounds for non-ASCII characters and must refuse a text which is too
 long

---
 Src/libCZI/utilities.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/utilities.cpp b/Src/libCZI/utilities.cpp
index 7c5bc13..deb2761 100644
--- a/Src/libCZI/utilities.cpp
+++ b/Src/libCZI/utilities.cpp
@@ -228,13 +228,13 @@ tString trimImpl(const tString& str, const tString& whitespace)
 /*static*/bool Utilities::TryGetRgb8ColorFromString(const std::wstring& strXml, libCZI::Rgb8Color& color)
 {
     const auto str = Utilities::Trim(strXml);
-    if (str.size() > 1 && str[0] == '#')
+    if (str.size() == 9 && str[0] == '#')
     {
         // TODO: do we have to deal with shorter string (e.g. without alpha, or just '#FF')?
         std::uint8_t r = 0, g = 0, b = 0, a = 0;
-        for (size_t i = 1; i < (std::max)(static_cast<size_t>(9), str.size()); ++i)
+        for (size_t i = 1; i < str.size(); ++i)
         {
-            if (!isxdigit(str[i]))
+            if (!iswxdigit(str[i]))
             {
                 return false;
             }
-- 
2.43.0


From 7951738d91771409fd80ed8baf2e915dd660f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:50 +0000
Subject: [PATCH 45/94] fix: the multi-channel-compositor must check the source
 bitmaps for null before using them

---
 Src/libCZI/MultiChannelCompositor.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 5da9b83..9923c0e 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -1052,6 +1052,13 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
+            if (srcBitmaps[i] == nullptr)
+            {
+                stringstream ss;
+                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
+                throw std::invalid_argument(ss.str());
+            }
+
             if (srcBitmaps[i]->GetWidth() != dest->GetWidth() || srcBitmaps[i]->GetHeight() != dest->GetHeight())
             {
                 throw std::invalid_argument("All the source bitmaps must have same width/height as destination.");
@@ -1060,13 +1067,6 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
-            if (srcBitmaps[i] == nullptr)
-            {
-                stringstream ss;
-                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
-                throw std::invalid_argument(ss.str());
-            }
-
             if (channelInfos[i].lookUpTableElementCount > 0)
             {
                 if (channelInfos[i].ptrLookUpTable == nullptr)
-- 
2.43.0


From 2585987b3e8c2a8f163c33204be62a10771fead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:50 +0000
Subject: [PATCH 46/94] fix: a black- or white-point outside of the range from
 0 to 1 must not wrap around in the multi-channel-compositor

---
 Src/libCZI/MultiChannelCompositor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 9923c0e..c41d78f 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -478,8 +478,9 @@ private:
 
         CGetBlackWhitePtBase(float blackPt, float whitePt)
         {
-            this->blackPt = static_cast<tValue>(std::ceil(blackPt * maxValue));
-            this->whitePt = static_cast<tValue>(std::floor(whitePt * maxValue));
+            // the conversion to the pixel value is only defined for values within the range of the pixel type
+            this->blackPt = static_cast<tValue>(std::ceil((std::max)(0.f, (std::min)(1.f, blackPt)) * maxValue));
+            this->whitePt = static_cast<tValue>(std::floor((std::max)(0.f, (std::min)(1.f, whitePt)) * maxValue));
         };
     };
 
-- 
2.43.0


From da67f7c7ae15e311e6bf49375e1106d25a31475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:50 +0000
Subject: [PATCH 47/94] fix: a look-up table must have the requested size for
 any black- and white-point, and its calculation must not divide by zero

---
 Src/libCZI/libCZI_Utilities.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/libCZI_Utilities.cpp b/Src/libCZI/libCZI_Utilities.cpp
index 3bb0066..ae30eb7 100644
--- a/Src/libCZI/libCZI_Utilities.cpp
+++ b/Src/libCZI/libCZI_Utilities.cpp
@@ -200,8 +200,9 @@ static double CalcSplineValue(double x, const std::vector<libCZI::IDisplaySettin
     lut.reserve(tableElementCnt);
 
     // TODO - look into rounding
-    int blackVal = static_cast<int>(tableElementCnt * blackPoint);
-    int whiteVal = static_cast<int>(tableElementCnt * whitePoint);
+    // Note: the table must have exactly the requested size, so we have 0 <= blackVal <= whiteVal <= tableElementCnt
+    int blackVal = static_cast<int>(tableElementCnt * (std::max)(0.f, (std::min)(1.f, blackPoint)));
+    int whiteVal = (std::max)(blackVal, static_cast<int>(tableElementCnt * (std::max)(0.f, (std::min)(1.f, whitePoint))));
 
     for (int i = 0; i < blackVal; ++i)
     {
@@ -210,7 +211,7 @@ static double CalcSplineValue(double x, const std::vector<libCZI::IDisplaySettin
 
     for (int i = blackVal; i < whiteVal; ++i)
     {
-        double x = (i - blackVal) / static_cast<double>(whiteVal - blackVal - 1);
+        double x = (i - blackVal) / static_cast<double>((std::max)(1, whiteVal - blackVal - 1));
         double s = CalcSplineValue(x, splineData);
         int is = static_cast<int>(s * 255);
         std::uint8_t value = (is < 0 ? 0 : is>255 ? 255 : static_cast<std::uint8_t>(is));
@@ -282,8 +283,9 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
 {
     std::vector<tOutput> lut; lut.reserve(tableElementCnt);
 
-    int lowOut = static_cast<int>(blackPoint * tableElementCnt);
-    int highOut = static_cast<int>(whitePoint * tableElementCnt);
+    // Note: the table must have exactly the requested size, so we have 0 <= lowOut <= highOut <= tableElementCnt
+    int lowOut = static_cast<int>((std::max)(tFloat(0), (std::min)(tFloat(1), blackPoint)) * tableElementCnt);
+    int highOut = (std::max)(lowOut, static_cast<int>((std::max)(tFloat(0), (std::min)(tFloat(1), whitePoint)) * tableElementCnt));
 
     for (int i = 0; i < lowOut; ++i)
     {
@@ -301,7 +303,7 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
 
         for (int i = lowOut; i < highOut; ++i)
         {
-            tFloat x = (i - lowOut) / tFloat(highOut - lowOut - 1);
+            tFloat x = (i - lowOut) / tFloat((std::max)(1, highOut - lowOut - 1));
 
             tFloat val = maxOut * (pow(a * x + 1, gamma) - 1) / denumeratorToeSlope;
             if (val > maxOut)
@@ -321,7 +323,7 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
     {
         for (int i = lowOut; i < highOut; ++i)
         {
-            tFloat x = (i - lowOut) / tFloat(highOut - lowOut - 1);
+            tFloat x = (i - lowOut) / tFloat((std::max)(1, highOut - lowOut - 1));
             tFloat val = maxOut * pow(x, gamma);
             if (val > maxOut)
             {
-- 
2.43.0


From 1b1f8e396cbde327b03e8bbd46725a50b35e1d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:50 +0000
Subject: [PATCH 48/94] fix: the weight of a channel must be written with the
 display settings

---
 Src/libCZI/CziMetadataBuilder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 50fb70b..00b4b55 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -966,6 +966,7 @@ static void WriteChannelDisplaySettings(const IChannelDisplaySetting* channel_di
     channel_display_setting->GetBlackWhitePoint(&black_point, &white_point);
     node->GetOrCreateChildNode("Low")->SetValueFlt(black_point);
     node->GetOrCreateChildNode("High")->SetValueFlt(white_point);
+    node->GetOrCreateChildNode("Weight")->SetValueFlt(channel_display_setting->GetWeight());
 
     const auto gradation_curve_mode = channel_display_setting->GetGradationCurveMode();
     if (gradation_curve_mode == IDisplaySettings::GradationCurveMode::Gamma)
-- 
2.43.0


From 34b5a3791b65b0aadb5ed92f1198c96a29db4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:21 +0000
Subject: [PATCH 49/94] fix: parsing a number must not run into an endless loop
 if it is followed by a space

---
 Src/libCZI/CziMetadata.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index ecbb902..b1046a0 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -113,11 +113,15 @@ static bool TryConvert(IXmlNodeRead* node, typename t::type* p)
         try
         {
             i = t::convert(str, &posFirstCharNotParsed);
+            if (posFirstCharNotParsed == 0)
+            {
+                return false;
+            }
 
             // where we stopped parsing, we expect to find only spaces - otherwise we have a parse-error and return false
-            while (posFirstCharNotParsed < str.length())
+            for (; posFirstCharNotParsed < str.length(); ++posFirstCharNotParsed)
             {
-                if (!isspace(str[posFirstCharNotParsed]))
+                if (!iswspace(str[posFirstCharNotParsed]))
                 {
                     return false;
                 }
-- 
2.43.0


From 6c1e82de93be199df078acbdca37e7e2f2c29e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:21 +0000
Subject: [PATCH 50/94] fix: the stride of a valid-pixel-mask must not be read
 with a misaligned access

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 88c03e3..2da708a 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -164,7 +164,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid uncompressed bitonal bitmap pixel mask ");
     }
 
-    mask_info_uncompressed_bitonal_bitmap.stride = *reinterpret_cast<const std::uint32_t*>(static_cast<const uint8_t*>(mask_info_general.data.get()));
+    memcpy(&mask_info_uncompressed_bitonal_bitmap.stride, mask_info_general.data.get(), sizeof(mask_info_uncompressed_bitonal_bitmap.stride));
     Utilities::ConvertUint32ToHostByteOrder(&mask_info_uncompressed_bitonal_bitmap.stride);
     mask_info_uncompressed_bitonal_bitmap.size_data = mask_info_general.size_data - sizeof(uint32_t);
     if (mask_info_uncompressed_bitonal_bitmap.size_data > 0)
-- 
2.43.0


From 8ea1a79238b9197df6bbcd7d036adbb463743467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:21 +0000
Subject: [PATCH 51/94] fix: the check of the stride of a valid-pixel-mask must
 not overflow

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 2da708a..65ae388 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -184,7 +184,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid dimensions for uncompressed bitonal bitmap.");
     }
 
-    const uint32_t minimal_stride = (mask_info.width + 7) / 8;
+    const uint32_t minimal_stride = static_cast<uint32_t>((static_cast<uint64_t>(mask_info.width) + 7) / 8);
     if (mask_info.stride < minimal_stride)
     {
         throw LibCZIException("Invalid stride for uncompressed bitonal bitmap.");
-- 
2.43.0


From c503177792cfca362bce4cbaab492e9204454fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:13 +0000
Subject: [PATCH 52/94] fix: calculating a spline for two points must not solve
 an empty linear equation system

---
 Src/libCZI/splines.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/splines.cpp b/Src/libCZI/splines.cpp
index 9cea7f6..bb8d97c 100644
--- a/Src/libCZI/splines.cpp
+++ b/Src/libCZI/splines.cpp
@@ -73,7 +73,11 @@ using namespace std;
         rhs[i] = 3 * ((dy2 / dx2) - (dy1 / dx1));
     }
 
-    VectorXd resultVector = matrix.colPivHouseholderQr().solve(rhs);
+    VectorXd resultVector;
+    if (n > 1)  // if there are only two points, then there are no free coefficients to solve for
+    {
+        resultVector = matrix.colPivHouseholderQr().solve(rhs);
+    }
 
     // Resolve the coefficients for the spline curve.
     double x_i = 0;
-- 
2.43.0


From e7d989923d10d12beaf1aa936ceec2ad328948cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:16 +0000
Subject: [PATCH 53/94] fix: parsing an unsigned number must refuse a negative
 number

---
 Src/libCZI/CziMetadata.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index b1046a0..b6f8273 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -147,6 +147,17 @@ static bool TryConvert(IXmlNodeRead* node, typename t::type* p)
     return false;
 }
 
+/// Convert the string to an unsigned integer. Note that "stoull" would accept a minus sign (and give the two's complement).
+static uint64_t ConvertToUInt64(const wstring& s, size_t* idx)
+{
+    if (s.find(L'-') != wstring::npos)
+    {
+        throw invalid_argument("an unsigned number must not have a minus sign");
+    }
+
+    return stoull(s, idx);
+}
+
 bool IXmlNodeRead::TryGetValueAsDouble(double* p)
 {
     struct conv
@@ -190,7 +201,7 @@ bool IXmlNodeRead::TryGetValueAsUInt32(std::uint32_t* p)
         {
             // unfortunately, on some platforms (Linux in this case) "stoul" does not seem to throw an out_of_range-exception,
             //  therefore we have this work-around
-            uint64_t v = stoull(s, idx);
+            uint64_t v = ConvertToUInt64(s, idx);
             if (v > (numeric_limits<uint32_t>::max)())
             {
                 throw out_of_range("value was out-of-range");
@@ -238,7 +249,7 @@ bool IXmlNodeRead::TryGetValueAsUInt64(std::uint64_t* p)
         typedef uint64_t type;
         static uint64_t convert(const wstring& s, size_t* idx)
         {
-            return stoull(s, idx);
+            return ConvertToUInt64(s, idx);
         }
     };
 
-- 
2.43.0


From c392276ec5199d679a42bf74944c44e6b1a6f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:16 +0000
Subject: [PATCH 54/94] fix: setting the value of a node must replace all of
 its text

---
 Src/libCZI/CziMetadataBuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 00b4b55..33a05c3 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -281,9 +281,11 @@ void CNodeWrapper::ThrowIfCannotSetValue()
 
 pugi::xml_node CNodeWrapper::GetOrCreatePcDataChild()
 {
+    // the value may be in more than one text node (e.g. if a child element between them was removed), in which case all of them are to be replaced
     auto node = this->node.find_child([=](const xml_node& n) {return n.type() == xml_node_type::node_pcdata; });
-    if (!node)
+    if (!node || this->node.first_child() != this->node.last_child())
     {
+        this->node.remove_children();
         node = this->node.append_child(xml_node_type::node_pcdata);
     }
 
-- 
2.43.0


From 9976d64b07af7eed602da9f28950ed9765d7ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:16 +0000
Subject: [PATCH 55/94] fix: a path which is not well-formed must be refused
 without creating nodes

---
 Src/libCZI/CziMetadataBuilder.cpp | 21 +++++++++++++++++++++
 Src/libCZI/CziMetadataBuilder.h   |  1 +
 2 files changed, 22 insertions(+)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 33a05c3..3b079a1 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -250,6 +250,12 @@ std::shared_ptr<IXmlNodeRw> CNodeWrapper::GetOrCreateChildNodeInternal(const cha
         throw LibCZIMetadataBuilderException("invalid path", LibCZIMetadataBuilderException::ErrorType::InvalidPath);
     }
 
+    // check all parts of the path beforehand, so that nothing is created if the path is invalid
+    for (const auto& token : tokens)
+    {
+        CNodeWrapper::ThrowIfInvalidNodeSpecifier(token);
+    }
+
     auto node = this->GetOrCreateChildElementNodeWithAttributes(this->node, tokens[0]);
     if (!node)
     {
@@ -268,6 +274,21 @@ std::shared_ptr<IXmlNodeRw> CNodeWrapper::GetOrCreateChildNodeInternal(const cha
     return std::make_shared<CNodeWrapper>(this->builderRef, node.internal_object());
 }
 
+/*static*/void CNodeWrapper::ThrowIfInvalidNodeSpecifier(const std::wstring& str)
+{
+    const std::wregex node_name_with_attributes_regex(LR"(([^\[\]]+)(\[([^\[\]]*)\])?)");
+    std::wsmatch pieces_match;
+    if (!std::regex_match(str, pieces_match, node_name_with_attributes_regex))
+    {
+        throw LibCZIMetadataBuilderException("invalid path", LibCZIMetadataBuilderException::ErrorType::InvalidPath);
+    }
+
+    if (pieces_match[2].matched)
+    {
+        XmlPathSpecifierUtilities<MetadataBuilderXmlNodeWrapperThrowExcp>::ParseAttributes(pieces_match[3]);
+    }
+}
+
 void CNodeWrapper::ThrowIfCannotSetValue()
 {
     auto node = this->node.find_child([=](const xml_node& n) {return n.type() == xml_node_type::node_element; });
diff --git a/Src/libCZI/CziMetadataBuilder.h b/Src/libCZI/CziMetadataBuilder.h
index fbed19a..5a7db71 100644
--- a/Src/libCZI/CziMetadataBuilder.h
+++ b/Src/libCZI/CziMetadataBuilder.h
@@ -86,6 +86,7 @@ namespace libCZI
             static libCZI::detail::pugi::xml_node GetOrCreateChildElementNodeWithAttributes(libCZI::detail::pugi::xml_node& node, const std::wstring& str);
             static libCZI::detail::pugi::xml_node GetOrCreateChildElementNodeWithAttributes(libCZI::detail::pugi::xml_node& node, const std::wstring& str, const std::map<std::wstring, std::wstring>& attribs);
 
+            static void ThrowIfInvalidNodeSpecifier(const std::wstring& str);
             void ThrowIfCannotSetValue();
             libCZI::detail::pugi::xml_node GetOrCreatePcDataChild();
 
-- 
2.43.0


From 324d10e3b78be995f05f0b70a1d5c72ab620f475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 56/94] fix: reading at or beyond the end of the in-memory
 stream must deliver no bytes instead of throwing

---
 Src/libCZI/StreamImpl.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index f1388ed..d8d09f3 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -145,17 +145,16 @@ CStreamImplInMemory::CStreamImplInMemory(libCZI::IAttachment* attachement)
         throw std::invalid_argument("Pointer cannot be null");
     }
 
-    if (offset >= this->dataBufferSize)
+    // Read only to the end of buffer size (and nothing at all at or beyond its end)
+    const size_t sizeToCopy = offset < this->dataBufferSize ?
+        static_cast<size_t>((std::min)(size, static_cast<std::uint64_t>(this->dataBufferSize - offset))) :
+        0;
+
+    if (sizeToCopy > 0)
     {
-        std::stringstream ss;
-        ss << "Error reading from memory at offset " << offset << " -> requested size: " << size << " bytes, which exceeds actual data size " << this->dataBufferSize << " bytes.";
-        throw std::runtime_error(ss.str());
+        std::memcpy(pv, static_cast<const char*>(rawData.get()) + offset, sizeToCopy);
     }
 
-    // Read only to the end of buffer size
-    const size_t sizeToCopy = (std::min)((size_t)size, (size_t)(this->dataBufferSize - offset));
-
-    std::memcpy(pv, static_cast<const char*>(rawData.get()) + offset, sizeToCopy);
     if (ptrBytesRead != nullptr)
     {
         *ptrBytesRead = sizeToCopy;
-- 
2.43.0


From 8de5a0641993649d27407a8be97b598d72ac6724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 57/94] fix: the stdio-based input-output stream must open its
 file for reading and writing

---
 Src/libCZI/StreamImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index d8d09f3..a71198f 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -398,14 +398,14 @@ CSimpleInputOutputStreamImpl::CSimpleInputOutputStreamImpl(const wchar_t* filena
 {
     // TODO: check if file exists -> x subspecifier? http://www.cplusplus.com/reference/cstdio/fopen/ or stat -> https://stackoverflow.com/questions/230062/whats-the-best-way-to-check-if-a-file-exists-in-c-cross-platform/230070#230070
 #if defined(_WIN32)
-    errno_t err = _wfopen_s(&this->fp, filename, L"rwb");
+    errno_t err = _wfopen_s(&this->fp, filename, L"r+b");
 #else
     int /*error_t*/ err = 0;
 
     // convert the wchar_t to an UTF8-string
     auto filename_utf8 = Utilities::convertWchar_tToUtf8(filename);
 
-    this->fp = fopen(filename_utf8.c_str(), "rwb");
+    this->fp = fopen(filename_utf8.c_str(), "r+b");
     if (!this->fp)
     {
         err = errno;
-- 
2.43.0


From ad3c30d80b2b749e022829ed21654c60c24e8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:37 +0000
Subject: [PATCH 58/94] fix: stdio-based streams must report a read error
 instead of a short read

---
 Src/libCZI/StreamImpl.cpp                       | 9 +++++++++
 Src/libCZI/StreamsLib/simplefileinputstream.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index a71198f..7f9eb22 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -470,6 +470,15 @@ void CSimpleInputOutputStreamImpl::Write(std::uint64_t offset, const void* pv, s
     }
 
     const std::uint64_t bytesRead = fread(pv, 1, (size_t)size, this->fp);
+    if (ferror(this->fp))
+    {
+        const auto err = errno;
+        clearerr(this->fp);
+        ostringstream ss;
+        ss << "Error reading from file at position " << offset << ", errno=" << err << ".";
+        throw std::runtime_error(ss.str());
+    }
+
     if (ptrBytesRead != nullptr)
     {
         *ptrBytesRead = bytesRead;
diff --git a/Src/libCZI/StreamsLib/simplefileinputstream.cpp b/Src/libCZI/StreamsLib/simplefileinputstream.cpp
index 084d0c8..b096ab2 100644
--- a/Src/libCZI/StreamsLib/simplefileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/simplefileinputstream.cpp
@@ -76,6 +76,15 @@ SimpleFileInputStream::~SimpleFileInputStream()
     }
 
     const std::uint64_t bytesRead = fread(pv, 1, static_cast<size_t>(size), this->fp_);
+    if (ferror(this->fp_))
+    {
+        const auto err = errno;
+        clearerr(this->fp_);
+        stringstream ss;
+        ss << "Error reading from file at position " << offset << ", errno=" << err << ".";
+        throw std::runtime_error(ss.str());
+    }
+
     if (ptrBytesRead != nullptr)
     {
         *ptrBytesRead = bytesRead;
-- 
2.43.0


From f08df11a0d3ec2520144a4a5b49295087ee182f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 59/94] fix: libCZI_ReaderReadAttachment must refuse a null
 argument

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1fab63d..1477841 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -475,7 +475,7 @@ LibCZIApiErrorCode libCZI_ReaderGetAttachmentInfoFromDirectory(CziReaderObjectHa
 
 LibCZIApiErrorCode libCZI_ReaderReadAttachment(CziReaderObjectHandle reader_object, std::int32_t index, AttachmentObjectHandle* attachment_object)
 {
-    if (reader_object == kInvalidObjectHandle && attachment_object == nullptr)
+    if (reader_object == kInvalidObjectHandle || attachment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
-- 
2.43.0


From 7809107c5acf731308a9d68e80e86066b4f5ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 60/94] fix: libCZI_ReaderGetMetadataSegment must refuse a null
 output argument

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1477841..605c90e 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -389,7 +389,7 @@ LibCZIApiErrorCode libCZI_ReaderReadSubBlock(CziReaderObjectHandle reader_object
 
 LibCZIApiErrorCode libCZI_ReaderGetMetadataSegment(CziReaderObjectHandle reader_object, MetadataSegmentObjectHandle* metadata_segment_object)
 {
-    if (reader_object == kInvalidObjectHandle)
+    if (reader_object == kInvalidObjectHandle || metadata_segment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
-- 
2.43.0


From 540cc3873b2c7dc6ff4590ed613f7506504e310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 61/94] fix: libCZI_MetadataSegmentGetMetadataAsXml must cope
 with empty metadata and a null output argument

---
 Src/libCZIAPI/src/libCZIApi.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 605c90e..9172aef 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1104,7 +1104,7 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
 //****************************************************************************************************
 LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectHandle metadata_segment_object, MetadataAsXmlInterop* metadata_as_xml_interop)
 {
-    if (metadata_segment_object == kInvalidObjectHandle)
+    if (metadata_segment_object == kInvalidObjectHandle || metadata_as_xml_interop == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1116,7 +1116,16 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
     }
 
     size_t size;
-    auto data = shared_czi_metadata_segment_wrapping_object->shared_ptr_->GetRawData(IMetadataSegment::XmlMetadata, &size);
+    shared_ptr<const void> data;
+    try
+    {
+        data = shared_czi_metadata_segment_wrapping_object->shared_ptr_->GetRawData(IMetadataSegment::XmlMetadata, &size);
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
+
     if (!data)
     {
         return LibCZIApi_ErrorCode_UnspecifiedError;
@@ -1125,7 +1134,7 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
     // we want to ensure that the string is null-terminated, just in case - so if the data is not null-terminated, we will allocate
     //  one byte more
     size_t size_to_allocate = size;
-    if (static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
+    if (size == 0 || static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
     {
         ++size_to_allocate;
     }
-- 
2.43.0


From 700885f5dd7a485fc1cc19987d59adac4e68f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 62/94] fix: libCZI_WriterAddSubBlock must store the
 compression mode given by the caller

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 9172aef..841c8e7 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1720,7 +1720,7 @@ namespace
         add_sub_block_info_base.physicalWidth = add_sub_block_info->physical_width;
         add_sub_block_info_base.physicalHeight = add_sub_block_info->physical_height;
         add_sub_block_info_base.PixelType = static_cast<PixelType>(add_sub_block_info->pixel_type); // TODO(JBL): check validity
-        add_sub_block_info_base.SetCompressionMode(CompressionMode::UnCompressed);
+        add_sub_block_info_base.compressionModeRaw = add_sub_block_info->compression_mode_raw;
     }
 
 
-- 
2.43.0


From 76c24797a569b488c3688d792d543a69f81dd12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 63/94] fix: libCZI_CompositorDoMultiChannelComposition must
 refuse an invalid bitmap handle

---
 Src/libCZIAPI/src/libCZIApi.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 841c8e7..dc1c276 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1991,6 +1991,11 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
 
     for (int i = 0; i < channelCount; ++i)
     {
+        if (source_bitmaps[i] == kInvalidObjectHandle)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
+
         auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
         if (!shared_bitmap_wrapping_object->IsValid())
         {
-- 
2.43.0


From 1a7b7e5e08540403cc9181fca58169a120e45051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 64/94] fix: libCZI_CziDocumentInfoGetDimensionInfo must refuse
 a dimension for which there is no information

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index dc1c276..a4cef9b 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1379,6 +1379,8 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDimensionInfo(CziDocumentInfoHandle
 
         break;
 
+        default:
+            return LibCZIApi_ErrorCode_InvalidArgument;
         }
 
         return LibCZIApi_ErrorCode_OK;
-- 
2.43.0


From b2fd95699e880177f417c513989bc40ee7fd3cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 65/94] fix: a handle of an attachment must not be accepted as
 a document info (and vice versa)

---
 Src/libCZIAPI/src/sharedptrwrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/sharedptrwrapper.h b/Src/libCZIAPI/src/sharedptrwrapper.h
index e2af8c5..c389b22 100644
--- a/Src/libCZIAPI/src/sharedptrwrapper.h
+++ b/Src/libCZIAPI/src/sharedptrwrapper.h
@@ -19,7 +19,7 @@ constexpr uint32_t kMagicIAttachment = 0x3A4A3D7Au;
 constexpr uint32_t kMagicIOutputStream = 0x8020FAA3u;
 constexpr uint32_t kMagicICziWriter = 0xF8384829u;
 constexpr uint32_t kMagicISingleChannelScalingTileAccessor = 0xE34C94D7u;
-constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x3A4A3D7Au;
+constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x5C1D93E6u;
 constexpr uint32_t kMagicIDisplaySettings = 0xE67C5A4Cu;
 constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 
-- 
2.43.0


From 7bfdb2ce555bf06251858cad0b5c1b9994d42606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 66/94] fix: libCZI_CziDocumentInfoGetDisplaySettings must
 report an error if there are no display settings

---
 Src/libCZIAPI/src/libCZIApi.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index a4cef9b..27aa2fb 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1311,6 +1311,12 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDisplaySettings(CziDocumentInfoHandl
     try
     {
         const auto display_settings = shared_czi_document_info_wrapping_object->shared_ptr_->GetDisplaySettings();
+        if (!display_settings)
+        {
+            // the document does not contain display-settings
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
+
         *display_settings_handle = reinterpret_cast<DisplaySettingsHandle>(new SharedPtrWrapper<libCZI::IDisplaySettings>{ display_settings });
         return LibCZIApi_ErrorCode_OK;
     }
-- 
2.43.0


From 98191041c0e4f9f178bf11b43772ca255a2b6834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 67/94] fix:
 libCZI_CompositorFillOutCompositionChannelInfoInterop must refuse an unknown
 channel

---
 Src/libCZIAPI/src/libCZIApi.cpp        | 4 ++++
 Src/libCZIAPI/src/parameterhelpers.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 27aa2fb..906c7b5 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -2051,6 +2051,10 @@ LibCZIApiErrorCode libCZI_CompositorFillOutCompositionChannelInfoInterop(Display
 
         return LibCZIApi_ErrorCode_OK;
     }
+    catch (const std::out_of_range&)
+    {
+        return LibCZIApi_ErrorCode_IndexOutOfRange;
+    }
     catch (const std::exception&)
     {
         return LibCZIApi_ErrorCode_UnspecifiedError;
diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 34384db..aa4ac55 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1460,6 +1460,10 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
     memset(&composition_channel_info, 0, sizeof(CompositionChannelInfoInterop));
 
     const auto channel_display_settings = display_settings->GetChannelDisplaySettings(channel_index);
+    if (!channel_display_settings)
+    {
+        throw std::out_of_range("There are no display-settings for the specified channel.");
+    }
 
     if (!channel_display_settings->GetIsEnabled())
     {
-- 
2.43.0


From 66f6f6f1c83729c286db7bc9b8b7690418a94dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 68/94] fix: the channel information must report the condenser
 contrast

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index aa4ac55..486627c 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1395,7 +1395,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
 
     {
         wstring condensor_contrast;
-        if (channel_info->TryGetReflector(&condensor_contrast))
+        if (channel_info->TryGetCondenserContrast(&condensor_contrast))
         {
             const string utf8_string = libCZI::Utils::ConvertToUtf8(condensor_contrast);
             channel_object.AddMember("condensor_contrast", rapidjson::Value(utf8_string.c_str(), allocator).Move(), allocator);
-- 
2.43.0


From ff7f07672e5641373dbaa74a04c025795e8900ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 69/94] fix: an error while locking a bitmap must not leave the
 C API as an exception

---
 Src/libCZIAPI/src/libCZIApi.cpp | 40 ++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 906c7b5..a7eb074 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -990,12 +990,19 @@ LibCZIApiErrorCode libCZI_BitmapLock(BitmapObjectHandle bitmap_object, BitmapLoc
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    auto lock_info = shared_bitmap_wrapping_object->shared_ptr_->Lock();
-    lockInfo->ptrData = lock_info.ptrData;
-    lockInfo->ptrDataRoi = lock_info.ptrDataRoi;
-    lockInfo->stride = lock_info.stride;
-    lockInfo->size = lock_info.size;
-    return LibCZIApi_ErrorCode_OK;
+    try
+    {
+        auto lock_info = shared_bitmap_wrapping_object->shared_ptr_->Lock();
+        lockInfo->ptrData = lock_info.ptrData;
+        lockInfo->ptrDataRoi = lock_info.ptrDataRoi;
+        lockInfo->stride = lock_info.stride;
+        lockInfo->size = lock_info.size;
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
+    {
+        return LibCZIApi_ErrorCode_UnspecifiedError;
+    }
 }
 
 LibCZIApiErrorCode libCZI_BitmapUnlock(BitmapObjectHandle bitmap_object)
@@ -1090,15 +1097,22 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    ScopedBitmapLockerSP lckBm{ shared_bitmap_wrapping_object->shared_ptr_ };
-    for (std::uint32_t y = 0; y < height; ++y)
+    try
+    {
+        ScopedBitmapLockerSP lckBm{ shared_bitmap_wrapping_object->shared_ptr_ };
+        for (std::uint32_t y = 0; y < height; ++y)
+        {
+            const std::uint8_t* ptrSourceLine = static_cast<const std::uint8_t*>(lckBm.ptrDataRoi) + y * static_cast<size_t>(lckBm.stride);
+            std::uint8_t* ptrDestinationLine = static_cast<std::uint8_t*>(ptr) + y * static_cast<size_t>(stride);
+            memcpy(ptrDestinationLine, ptrSourceLine, line_length);
+        }
+
+        return LibCZIApi_ErrorCode_OK;
+    }
+    catch (const std::exception&)
     {
-        const std::uint8_t* ptrSourceLine = static_cast<const std::uint8_t*>(lckBm.ptrDataRoi) + y * static_cast<size_t>(lckBm.stride);
-        std::uint8_t* ptrDestinationLine = static_cast<std::uint8_t*>(ptr) + y * static_cast<size_t>(stride);
-        memcpy(ptrDestinationLine, ptrSourceLine, line_length);
+        return LibCZIApi_ErrorCode_UnspecifiedError;
     }
-
-    return LibCZIApi_ErrorCode_OK;
 }
 
 //****************************************************************************************************
-- 
2.43.0


From b900fe6ac0a5d6d74076f08d042376c56191ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 70/94] fix: libCZI_WriterAddSubBlock must validate the size of
 the data for an uncompressed subblock

---
 Src/libCZIAPI/src/libCZIApi.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index a7eb074..593e4d5 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1748,6 +1748,17 @@ namespace
 
     void WriterAddSubBlockUncompressed(const shared_ptr<ICziWriter>& writer, const AddSubBlockInfoInterop* add_sub_block_info)
     {
+        if (add_sub_block_info->physical_width > 0 && add_sub_block_info->physical_height > 0)
+        {
+            const uint64_t line_length = static_cast<uint64_t>(Utils::GetBytesPerPixel(static_cast<PixelType>(add_sub_block_info->pixel_type))) * add_sub_block_info->physical_width;
+            if (add_sub_block_info->data == nullptr ||
+                add_sub_block_info->stride < line_length ||
+                add_sub_block_info->size_data < static_cast<uint64_t>(add_sub_block_info->physical_height - 1) * add_sub_block_info->stride + line_length)
+            {
+                throw invalid_argument("The data given for an uncompressed subblock is too small for the bitmap.");
+            }
+        }
+
         AddSubBlockInfoStridedBitmap add_sub_block_info_strided_bitmap;
         add_sub_block_info_strided_bitmap.Clear();
 
-- 
2.43.0


From 4959e801289e5f56a62a9b7cd70530b333548e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 71/94] fix: the number of dimensions of a subblock-directory
 entry must be validated before it is used

---
 Src/libCZI/CziParse.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 82b9c61..cf5edf4 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -500,8 +500,14 @@ using namespace libCZI::detail;
             funcRead(4 + 8 + 4 + 4 + 6 + 4, reinterpret_cast<uint8_t*>(&dv) + 2);
             ConvertToHostByteOrder::Convert(&dv);
 
-            int sizeToRead = dv.DimensionCount * sizeof(DimensionEntryDV);
-            // TODO: check for max size etc.
+            if (dv.DimensionCount < 0 || dv.DimensionCount > MAXDIMENSIONS)
+            {
+                stringstream ss;
+                ss << "'DimensionCount' was found to be " << dv.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
+                CCZIParse::ThrowIllegalData(ss.str().c_str());
+            }
+
+            const int sizeToRead = dv.DimensionCount * static_cast<int>(sizeof(DimensionEntryDV));
             funcRead(sizeToRead, &dv.DimensionEntries[0]);
             ConvertToHostByteOrder::Convert(&dv.DimensionEntries[0], dv.DimensionCount);
 
-- 
2.43.0


From 0b20782bbf4bc128ad82b58606db3d94a1396e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 72/94] fix: a negative number of dimensions in a subblock must
 be refused

---
 Src/libCZI/CziParse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index cf5edf4..892cb65 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -287,7 +287,7 @@ using namespace libCZI::detail;
         sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
-        if (subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
+        if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
         {
             stringstream ss;
             ss << "'DimensionCount' was found to be " << subBlckSegment.data.entryDV.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
-- 
2.43.0


From 4632e461bf2e80c130fdcff1454fe6bd405d5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 73/94] fix: a subblock-directory entry of unknown schema must
 be refused instead of being misread

---
 Src/libCZI/CziParse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 892cb65..4e39481 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -520,6 +520,10 @@ using namespace libCZI::detail;
             ConvertToHostByteOrder::Convert(&de);
             funcAddEntry(&de, nullptr);
         }
+        else
+        {
+            CCZIParse::ThrowIllegalData("Invalid schema of a subblock-directory entry");
+        }
     }
 }
 
-- 
2.43.0


From d0c424453119b2c5b9342388ceea42eed5f326b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 74/94] fix: a negative size in a segment must be refused
 instead of being reported as data that is not there

---
 Src/libCZI/CziParse.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 4e39481..b6aba09 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -367,6 +367,11 @@ using namespace libCZI::detail;
     //  the reserved (minimal) size here
     lengthSubblockSegmentData = max(lengthSubblockSegmentData, (uint32_t)SIZE_SUBBLOCKDATA_MINIMUM);
 
+    if (subBlckSegment.data.MetadataSize < 0 || subBlckSegment.data.DataSize < 0 || subBlckSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size of metadata, data or attachment");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocateInfo.alloc(subBlckSegment.data.MetadataSize) : nullptr, deleter);
@@ -460,6 +465,11 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid Attachment-magic");
     }
 
+    if (attchmntSegment.data.DataSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size of data");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
@@ -680,6 +690,11 @@ using namespace libCZI::detail;
     }
 
     // TODO: perform consistency checks...
+    if (metadataSegment.data.XmlSize < 0 || metadataSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size of XML or attachment");
+    }
+
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
-- 
2.43.0


From fe83f417b0b0a38b485d9dfcd6e8cf969fb1a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 75/94] fix: the check for the number of bytes read must not
 truncate it to 32 bits

---
 Src/libCZI/CziParse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index b6aba09..ce49e5c 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -408,7 +408,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.DataSize)
+        if (bytesRead != static_cast<std::uint64_t>(subBlckSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize, bytesRead);
         }
@@ -485,7 +485,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading AttachmentSegment", offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != attchmntSegment.data.DataSize)
+        if (bytesRead != static_cast<std::uint64_t>(attchmntSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize, bytesRead);
         }
-- 
2.43.0


From 6e9f7b9d23c3a5eceedb023c536a2001066643ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 76/94] fix: a failed allocation while parsing must be reported
 instead of using the null pointer

---
 Src/libCZI/CziParse.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index ce49e5c..a500eea 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -22,6 +22,17 @@ using namespace libCZI::detail;
 /*static*/const std::uint8_t CCZIParse::ATTACHMENTBLKMAGIC[16] = { 'Z','I','S','R','A','W','A','T','T','A','C','H','\0','\0' ,'\0','\0' };
 /*static*/const std::uint8_t CCZIParse::DELETEDSEGMENTMAGIC[16] = { 'D','E','L','E','T','E','D','\0','\0','\0' ,'\0','\0','\0','\0' ,'\0','\0' };
 
+static void* AllocateOrThrow(const std::function<void* (size_t)>& allocate, std::uint64_t size)
+{
+    void* ptr = size <= (std::numeric_limits<size_t>::max)() ? allocate(static_cast<size_t>(size)) : nullptr;
+    if (ptr == nullptr && size > 0)
+    {
+        throw std::bad_alloc();
+    }
+
+    return ptr;
+}
+
 /*static*/FileHeaderSegmentData CCZIParse::ReadFileHeaderSegment(libCZI::IStream* str)
 {
     FileHeaderSegment fileHeaderSegment;
@@ -115,7 +126,7 @@ using namespace libCZI::detail;
     }
 
     // now read the used-size from stream
-    std::unique_ptr<void, decltype(free)*> pBuffer(malloc((size_t)subBlkDirSize), free);
+    std::unique_ptr<void, decltype(free)*> pBuffer(AllocateOrThrow(malloc, subBlkDirSize), free);
     try
     {
         str->Read(offset + sizeof(subBlckDirSegment), pBuffer.get(), subBlkDirSize, &bytesRead);
@@ -209,7 +220,7 @@ using namespace libCZI::detail;
     {
         // now read the AttachmentEntries
         const uint64_t attachmentEntriesSize = static_cast<uint64_t>(attachmentDirSegment.data.EntryCount) * sizeof(AttachmentEntryA1);
-        unique_ptr<AttachmentEntryA1, decltype(free)*> pBuffer(static_cast<AttachmentEntryA1*>(malloc((size_t)attachmentEntriesSize)), free);
+        unique_ptr<AttachmentEntryA1, decltype(free)*> pBuffer(static_cast<AttachmentEntryA1*>(AllocateOrThrow(malloc, attachmentEntriesSize)), free);
 
         // now read the attachment-entries
         try
@@ -374,9 +385,9 @@ using namespace libCZI::detail;
 
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocateInfo.alloc(subBlckSegment.data.MetadataSize) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pDataBuffer(subBlckSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(subBlckSegment.data.DataSize)) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(subBlckSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(subBlckSegment.data.AttachmentSize) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? AllocateOrThrow(allocateInfo.alloc, subBlckSegment.data.MetadataSize) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pDataBuffer(subBlckSegment.data.DataSize > 0 ? AllocateOrThrow(allocateInfo.alloc, subBlckSegment.data.DataSize) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(subBlckSegment.data.AttachmentSize > 0 ? AllocateOrThrow(allocateInfo.alloc, subBlckSegment.data.AttachmentSize) : nullptr, deleter);
 
     // TODO: now get the information from the SubBlockDirectoryEntryDV/DE structure, and figure out their size
     // TODO: compare this information against the information from the SubBlock-directory
@@ -472,7 +483,7 @@ using namespace libCZI::detail;
 
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? AllocateOrThrow(allocateInfo.alloc, attchmntSegment.data.DataSize) : nullptr, deleter);
 
     if (pAttchmntBuffer)
     {
@@ -696,8 +707,8 @@ using namespace libCZI::detail;
     }
 
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
-    std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
-    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? AllocateOrThrow(allocateInfo.alloc, metadataSegment.data.XmlSize) : nullptr, deleter);
+    std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? AllocateOrThrow(allocateInfo.alloc, metadataSegment.data.AttachmentSize) : nullptr, deleter);
     if (pXmlBuffer)
     {
         try
-- 
2.43.0


From 1b6e5997e4bd2d1e49d2dbf9abd1f7e377f43916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 77/94] fix: the position and size of a subblock without X or Y
 must not be uninitialized

---
 Src/libCZI/CziParse.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CziParse.h b/Src/libCZI/CziParse.h
index 4c50fd2..a8beb25 100644
--- a/Src/libCZI/CziParse.h
+++ b/Src/libCZI/CziParse.h
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <functional>
+#include <limits>
 #include <bitset>
 
 #include "CziSubBlockDirectory.h"
@@ -177,10 +178,12 @@ namespace libCZI
                 int                     compression;
                 int                     pixelType;
                 libCZI::CDimCoordinate  coordinate;
-                libCZI::IntRect         logicalRect;
-                libCZI::IntSize         physicalSize;
-                int                     mIndex;         // if not present, then this is int::max
-                std::uint8_t            spare[6];
+
+                // if X or Y is not present, then the values are int::min (as is the case for an entry of the subblock-directory)
+                libCZI::IntRect         logicalRect{ (std::numeric_limits<int>::min)(), (std::numeric_limits<int>::min)(), (std::numeric_limits<int>::min)(), (std::numeric_limits<int>::min)() };
+                libCZI::IntSize         physicalSize{ static_cast<std::uint32_t>((std::numeric_limits<int>::min)()), static_cast<std::uint32_t>((std::numeric_limits<int>::min)()) };
+                int                     mIndex{ (std::numeric_limits<int>::max)() };         // if not present, then this is int::max
+                std::uint8_t            spare[6]{};
             };
 
             static SubBlockData ReadSubBlock(libCZI::IStream* str, std::uint64_t offset, const SubBlockStorageAllocate& allocateInfo);
-- 
2.43.0


From 4d458e1354fe46af011f4ab9ab773f3ffb064a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 78/94] fix: the line size of an uncompressed subblock must not
 overflow

---
 Src/libCZI/CreateBitmap.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 26a8e67..c695eab 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -104,7 +104,13 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_Uncompresse
     const auto& sub_block_info = subBlk->GetSubBlockInfo();
 
     // The stride with an uncompressed bitmap in CZI is exactly the line-size.
-    const std::uint32_t stride = sub_block_info.physicalSize.w * CziUtils::GetBytesPerPel(sub_block_info.pixelType);
+    const std::uint64_t line_size = static_cast<std::uint64_t>(sub_block_info.physicalSize.w) * CziUtils::GetBytesPerPel(sub_block_info.pixelType);
+    if (line_size > (std::numeric_limits<std::uint32_t>::max)())
+    {
+        throw std::logic_error("the width of the subblock is too large");
+    }
+
+    const std::uint32_t stride = static_cast<std::uint32_t>(line_size);
     const size_t expected_size = static_cast<size_t>(stride) * sub_block_info.physicalSize.h;
 
     size_t size;
-- 
2.43.0


From 79d0b4aa655dffe2bb63779d2c729e8397a888a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 79/94] fix: the size of a bitmap must not overflow

---
 Src/libCZI/bitmapData.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/Src/libCZI/bitmapData.h b/Src/libCZI/bitmapData.h
index aec0c3f..14bb3f8 100644
--- a/Src/libCZI/bitmapData.h
+++ b/Src/libCZI/bitmapData.h
@@ -6,6 +6,8 @@
 
 #include <memory>
 #include <atomic>
+#include <limits>
+#include <stdexcept>
 #include "libCZI_Pixels.h"
 #include "CziUtils.h"
 #include "stdAllocator.h"
@@ -121,11 +123,23 @@ namespace libCZI
             }
 
         private:
-            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, int width)
+            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, std::uint64_t width)
             {
-                auto stride = CziUtils::GetBytesPerPel(pixeltype) * width;
-                stride = ((stride + 3) / 4) * 4;
-                return stride;
+                const std::uint64_t stride = ((CziUtils::GetBytesPerPel(pixeltype) * width + 3) / 4) * 4;
+                if (stride > (std::numeric_limits<std::uint32_t>::max)())
+                {
+                    throw std::invalid_argument("the width of the bitmap is too large");
+                }
+
+                return static_cast<std::uint32_t>(stride);
+            }
+
+            static void ThrowIfPitchIsTooSmall(libCZI::PixelType pixeltype, std::uint32_t width, std::uint32_t pitch)
+            {
+                if (pitch < static_cast<std::uint64_t>(CziUtils::GetBytesPerPel(pixeltype)) * width)
+                {
+                    throw std::invalid_argument("the pitch of the bitmap is too small for its width");
+                }
             }
 
             static void ThrowIfPointerIsNull(const void* ptr, uint64_t size)
@@ -149,9 +163,10 @@ namespace libCZI
         {
             if (pitch == 0)
             {
-                pitch = CalcDefaultPitch(pixeltype, width + 2 * extraColumns);
+                pitch = CalcDefaultPitch(pixeltype, static_cast<std::uint64_t>(width) + 2ULL * extraColumns);
             }
 
+            ThrowIfPitchIsTooSmall(pixeltype, width, pitch);
             auto s = std::make_shared<CBitmapData<tAllocator>>(pixeltype, width, height, pitch, extraRows, extraColumns);
             return s;
         }
@@ -159,6 +174,7 @@ namespace libCZI
         template <typename tAllocator>
         /*static*/inline std::shared_ptr<libCZI::IBitmapData> CBitmapData<tAllocator>::Create(tAllocator allocator, libCZI::PixelType pixeltype, std::uint32_t width, std::uint32_t height, std::uint32_t pitch)
         {
+            ThrowIfPitchIsTooSmall(pixeltype, width, pitch);
             auto s = std::make_shared<CBitmapData<tAllocator>>(allocator, pixeltype, width, height, pitch, 0, 0);
             return s;
         }
-- 
2.43.0


From a63bb6e1e45ef5cc1d60527fbd204562d7c3b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:30 +0000
Subject: [PATCH 80/94] fix: scaling a bitmap without pixels must not access
 memory outside of it

---
 Src/libCZI/BitmapOperations.hpp        | 5 +++++
 Src/libCZI/BitmapOperationsBitonal.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 608a3f4..e04a98d 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -418,6 +418,11 @@ namespace libCZI
             constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
             constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
+            if (resizeInfo.srcWidth <= 0 || resizeInfo.srcHeight <= 0)
+            {
+                return; // there are no source pixels
+            }
+
             const int dstXStart = (std::max)(static_cast<int>(resizeInfo.dstRoiX), 0);
             const int dstXEnd = (std::min)(static_cast<int>(resizeInfo.dstRoiX + resizeInfo.dstRoiW), resizeInfo.dstWidth - 1);
 
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 99563b5..3297602 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -443,6 +443,11 @@ namespace
         constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
         constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
+        if (resize_info.srcWidth <= 0 || resize_info.srcHeight <= 0)
+        {
+            return; // there are no source pixels
+        }
+
         const int dstXStart = (std::max)(static_cast<int>(resize_info.dstRoiX), 0);
         const int dstXEnd = (std::min)(static_cast<int>(resize_info.dstRoiX + resize_info.dstRoiW), resize_info.dstWidth - 1);
 
-- 
2.43.0


From 5b8e61a40012fca687b956a9a3dda871afff7fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:03 +0000
Subject: [PATCH 81/94] fix: the Z-drive mode must be read from its own element

---
 Src/libCZI/CziMetadataDocumentInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 0b6e4cf..715d2d6 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -260,7 +260,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
     auto zdriveModeNode = GetNodeRelativeFromNode(dimZnode, L"ZDriveMode");
     if (!zdriveModeNode.empty())
     {
-        auto s = Utilities::Trim(zaxisDirNode.text().as_string());
+        auto s = Utilities::Trim(zdriveModeNode.text().as_string());
         if (s.compare(L"Continuous") == 0)
         {
             zinfo->SetZDriveMode(IDimensionZInfo::ZDriveMode::Continuous);
-- 
2.43.0


From db9bc550d6d1e9cd8fd4f245134d10fd65e9b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:03 +0000
Subject: [PATCH 82/94] fix: a number out of range in the Z- or T-information
 must not make reading it fail

---
 Src/libCZI/CziMetadataDocumentInfo.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 715d2d6..4c1a00a 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -287,6 +287,9 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
             catch (invalid_argument&)
             {
             }
+            catch (out_of_range&)
+            {
+            }
 
             if (parsedOk == true)
             {
@@ -341,6 +344,9 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
                     catch (invalid_argument&)
                     {
                     }
+                    catch (out_of_range&)
+                    {
+                    }
 
                     if (parsedOk == true)
                     {
@@ -425,6 +431,9 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
                     catch (invalid_argument&)
                     {
                     }
+                    catch (out_of_range&)
+                    {
+                    }
 
                     if (parsedOk == true)
                     {
-- 
2.43.0


From ae3c656697a65f189c88fe2c8e77cf2553732254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:03 +0000
Subject: [PATCH 83/94] fix: use the wide-character classification when parsing
 lists of numbers in the metadata

---
 Src/libCZI/CziMetadataDocumentInfo.cpp  | 6 +++---
 Src/libCZI/CziMetadataDocumentInfo2.cpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 4c1a00a..bd173ef 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -293,7 +293,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 
             if (parsedOk == true)
             {
-                if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                 {
                     parsedOk = false;
                 }
@@ -350,7 +350,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 
                     if (parsedOk == true)
                     {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                        if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                         {
                             parsedOk = false;
                         }
@@ -437,7 +437,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 
                     if (parsedOk == true)
                     {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                        if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                         {
                             parsedOk = false;
                         }
diff --git a/Src/libCZI/CziMetadataDocumentInfo2.cpp b/Src/libCZI/CziMetadataDocumentInfo2.cpp
index 9b99814..7e8db00 100644
--- a/Src/libCZI/CziMetadataDocumentInfo2.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo2.cpp
@@ -1815,12 +1815,12 @@ void CDimensionChannelPolarizingSettings::ParseInformation(pugi::xml_node node)
                 break;
             }
 
-            if (!isspace(str[offset + s]))
+            if (!iswspace(str[offset + s]))
             {
                 break;
             }
 
-            for (++s; isspace(str[offset + s]); ++s) {}
+            for (++s; iswspace(str[offset + s]); ++s) {}
             offset += s;
             vec.push_back(d);
         }
@@ -1852,12 +1852,12 @@ void CDimensionChannelPolarizingSettings::ParseInformation(pugi::xml_node node)
                 break;
             }
 
-            if (!isspace(str[offset + s]))
+            if (!iswspace(str[offset + s]))
             {
                 break;
             }
 
-            for (++s; isspace(str[offset + s]); ++s) {}
+            for (++s; iswspace(str[offset + s]); ++s) {}
             offset += s;
             vec.push_back(d);
         }
-- 
2.43.0


From bd3957dbead898cba8ab49cec258f24d4673d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:03 +0000
Subject: [PATCH 84/94] fix: getting a channel with an invalid index must give
 a null pointer

---
 Src/libCZI/CziMetadataDocumentInfo2.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Src/libCZI/CziMetadataDocumentInfo2.cpp b/Src/libCZI/CziMetadataDocumentInfo2.cpp
index 7e8db00..9a7e34b 100644
--- a/Src/libCZI/CziMetadataDocumentInfo2.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo2.cpp
@@ -939,6 +939,11 @@ int CDimensionsChannelsInfo::GetChannelCount() const /*override*/
 
 std::shared_ptr<IDimensionChannelInfo> CDimensionsChannelsInfo::GetChannel(int i) const /*override*/
 {
+    if (i < 0 || i >= this->GetChannelCount())
+    {
+        return nullptr;
+    }
+
     return this->channels[i];
 }
 
-- 
2.43.0


From e2c9c9effb27ac6f92ee017ebace95369333995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:03 +0000
Subject: [PATCH 85/94] fix: getting a light-source setting with an invalid
 index must give a null pointer

---
 Src/libCZI/CziMetadataDocumentInfo2.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Src/libCZI/CziMetadataDocumentInfo2.cpp b/Src/libCZI/CziMetadataDocumentInfo2.cpp
index 9a7e34b..3dc8115 100644
--- a/Src/libCZI/CziMetadataDocumentInfo2.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo2.cpp
@@ -1179,6 +1179,11 @@ int CDimensionChannelLightSourcesSettings::GetLightSourceSettingCount() const /*
 
 std::shared_ptr<IDimensionChannelLightSourcesSetting> CDimensionChannelLightSourcesSettings::GetLightSourceSetting(int i) const /*override*/
 {
+    if (i < 0 || i >= this->GetLightSourceSettingCount())
+    {
+        return nullptr;
+    }
+
     return this->lightSourceSettings[i];
 }
 
-- 
2.43.0


From 1e46c6dc4c4fbdb43115c9b08d867bc49aa99d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:03 +0000
Subject: [PATCH 86/94] fix: WriteDimInfoZ_List must write the start position
 to the Z-dimension

---
 Src/libCZI/CziMetadataBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 3b079a1..c76b57e 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -856,7 +856,7 @@ bool libCZI::XmlDateTime::IsValid() const
 {
     if (!isnan(startPos) && !isinf(startPos))
     {
-        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/T/StartTime")->SetValueDbl(startPos);
+        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/StartPosition")->SetValueDbl(startPos);
     }
 
     if (funcGetOffsets)
-- 
2.43.0


From f5b3cc2f4f674fa7c0c310e48eb0e2c60b27a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:03 +0000
Subject: [PATCH 87/94] fix: drawing the border of a tile must not shift its
 pixels

---
 Src/libCZI/BitmapOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index e04a98d..a411973 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -40,7 +40,7 @@ namespace libCZI
                 {
                     char* dest = static_cast<char*>(dstPtr) + y * static_cast<std::ptrdiff_t>(dstStride);
                     const char* src = static_cast<const char*>(srcPtr) + y * static_cast<std::ptrdiff_t>(srcStride);
-                    memcpy(dest + kBytesPerPel, src, bytes_to_copy - 2 * kBytesPerPel);
+                    memcpy(dest + kBytesPerPel, src + kBytesPerPel, bytes_to_copy - 2 * kBytesPerPel);
                     memset(dest, 0, kBytesPerPel);
                     memset(dest + bytes_to_copy - kBytesPerPel, 0, kBytesPerPel);
                 }
-- 
2.43.0


From 0e785ed8cd06b2a8f0518938602d765ea79be9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:03 +0000
Subject: [PATCH 88/94] fix: drawing the border of a tile which is visible with
 one column only must not access invalid memory

---
 Src/libCZI/BitmapOperations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index a411973..5926010 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -40,7 +40,11 @@ namespace libCZI
                 {
                     char* dest = static_cast<char*>(dstPtr) + y * static_cast<std::ptrdiff_t>(dstStride);
                     const char* src = static_cast<const char*>(srcPtr) + y * static_cast<std::ptrdiff_t>(srcStride);
-                    memcpy(dest + kBytesPerPel, src + kBytesPerPel, bytes_to_copy - 2 * kBytesPerPel);
+                    if (width > 2)
+                    {
+                        memcpy(dest + kBytesPerPel, src + kBytesPerPel, bytes_to_copy - 2 * kBytesPerPel);
+                    }
+
                     memset(dest, 0, kBytesPerPel);
                     memset(dest + bytes_to_copy - kBytesPerPel, 0, kBytesPerPel);
                 }
-- 
2.43.0


From 41e75dcc62d4b5b3c8c3cc8209d9e7fd40b1d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:22 +0000
Subject: [PATCH 89/94] fix: the JSON texts of the C interface are valid JSON
 also if a number is not finite (null instead of a truncated text)

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 486627c..2b13a18 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -9,6 +9,7 @@
 #include <rapidjson/writer.h>
 #include <regex>
 #include <iomanip>
+#include <cmath>
 
 using namespace std;
 
@@ -75,11 +76,23 @@ namespace
         return true;
     }
 
+    /// A JSON-writer which gives 'null' for numbers which cannot be represented in JSON (i.e. NaN or infinity) - the
+    /// default behavior is to stop writing at this point, leaving a truncated (and therefore invalid) text.
+    class NonFiniteAsNullWriter : public rapidjson::Writer<rapidjson::StringBuffer>
+    {
+    public:
+        explicit NonFiniteAsNullWriter(rapidjson::StringBuffer& buffer) : rapidjson::Writer<rapidjson::StringBuffer>(buffer) {}
+        bool Double(double d)
+        {
+            return std::isfinite(d) ? rapidjson::Writer<rapidjson::StringBuffer>::Double(d) : this->Null();
+        }
+    };
+
     string ConvertToJsonString(const std::function< rapidjson::Document()>& f)
     {
         rapidjson::Document document = f();
         rapidjson::StringBuffer buffer;
-        rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
+        NonFiniteAsNullWriter writer(buffer);
         document.Accept(writer);
         return buffer.GetString();
     }
-- 
2.43.0


From 6ec5d12ac64e321ea7b44eea883c7ff86abb5706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:22 +0000
Subject: [PATCH 90/94] fix: the ranges of a spectrum are reported by the C
 interface without loss of precision

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 2b13a18..34290f8 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -10,6 +10,7 @@
 #include <regex>
 #include <iomanip>
 #include <cmath>
+#include <limits>
 
 using namespace std;
 
@@ -1440,6 +1441,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
     {
         spectrum_characteristics_json_object.AddMember("type", "Ranges", allocator);
         ostringstream string_stream;
+        string_stream.precision(numeric_limits<double>::digits10);
         bool is_first = true;
         for (const auto& range : spectrum_characteristics.ranges)
         {
-- 
2.43.0


From 0aefeb9f0ffb9130e6607864347df8974a1c05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:13 +0000
Subject: [PATCH 91/94] fix: the HTTP stream must report an error if the server
 delivers more data than requested, also if the excess piece has 23 bytes

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index 7177ad4..343b142 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -305,7 +305,8 @@ CurlHttpInputStream::~CurlHttpInputStream()
 
     if (write_data_context->count_data_received + total_size > write_data_context->size)
     {
-        return CURLE_WRITE_ERROR;
+        // returning a number different from the number of bytes passed in signals an error to libcurl (note that "total_size" is not zero here)
+        return 0;
     }
 
     memcpy(
-- 
2.43.0


From aaeb1f58082245e88e4d77b701fd82290a092d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:13 +0000
Subject: [PATCH 92/94] fix: the maximum number of redirects of the HTTP stream
 must be passed as a long

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index 343b142..f88b3e2 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -204,7 +204,7 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
     property = property_bag.find(StreamsFactory::StreamProperties::kCurlHttp_MaxRedirs);
     if (property != property_bag.end())
     {
-        return_code = curl_easy_setopt(up_curl_handle.get(), CURLOPT_MAXREDIRS, property->second.GetAsInt32OrThrow());
+        return_code = curl_easy_setopt(up_curl_handle.get(), CURLOPT_MAXREDIRS, static_cast<long>(property->second.GetAsInt32OrThrow()));
         ThrowIfCurlSetOptError(return_code, "CURLOPT_MAXREDIRS");
     }
 
-- 
2.43.0


From f94b2d80bb2bc0435a5e046a581ec19f89ea6b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:13 +0000
Subject: [PATCH 93/94] fix: the HTTP stream must not deliver the content of an
 error page as the content of the document

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index f88b3e2..b9315e5 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -138,6 +138,10 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
     return_code = curl_easy_setopt(up_curl_handle.get(), CURLOPT_WRITEFUNCTION, CurlHttpInputStream::WriteData);
     ThrowIfCurlSetOptError(return_code, "CURLOPT_WRITEFUNCTION");
 
+    // an HTTP-status which reports an error (>=400) is to make the request fail - otherwise the content of the error-page would be taken as the content of the document
+    return_code = curl_easy_setopt(up_curl_handle.get(), CURLOPT_FAILONERROR, 1L);
+    ThrowIfCurlSetOptError(return_code, "CURLOPT_FAILONERROR");
+
     auto property = property_bag.find(StreamsFactory::StreamProperties::kCurlHttp_Proxy);
     if (property != property_bag.end())
     {
-- 
2.43.0


From 5b1c2ab7fcf83bbbc33689b67fd07c5381379c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:13 +0000
Subject: [PATCH 94/94] fix: the HTTP stream must report an error if the server
 ignored the range or answered with a redirect which is not followed

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index b9315e5..9f7e612 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -282,6 +282,18 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
             throw runtime_error(ss.str());
         }
 
+        // If the server ignored the range (i.e. it responded with "200 OK" instead of "206 Partial Content"), then the data starts at offset zero. And,
+        //  a redirect which was not followed does not deliver the document. Note that with other protocols than HTTP(S) the meaning of the response code
+        //  is different (and it is zero if there is none).
+        long response_code = 0;
+        curl_easy_getinfo(this->curl_handle_, CURLINFO_RESPONSE_CODE, &response_code);
+        if ((response_code == 200 && offset > 0) || (response_code >= 300 && response_code < 400))
+        {
+            ss = stringstream{};
+            ss << "The server did not deliver the requested range (response code " << response_code << ")";
+            throw runtime_error(ss.str());
+        }
+
         if (ptrBytesRead != nullptr)
         {
             *ptrBytesRead = write_data_context.count_data_received;
-- 
2.43.0

