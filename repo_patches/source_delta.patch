From cac9deb894d24daa235821df8ee673bb20cffbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 01/79] fix: range check in structure/union array remove()
 could overflow

---
 src/factory/PVStructureArray.cpp | 2 +-
 src/factory/PVUnionArray.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 66577b5..86f01dc 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -46,7 +46,7 @@ bool PVStructureArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (number>getLength() || offset>getLength()-number)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 151bc5b..86ce8fd 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -46,7 +46,7 @@ bool PVUnionArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (number>getLength() || offset>getLength()-number)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
-- 
2.43.0


From 5b059590d2478fea657d531a88024c67ce314f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 02/79] fix: structure/union array setLength() to the current
 length dropped the elements

---
 src/factory/PVStructureArray.cpp | 7 ++++---
 src/factory/PVUnionArray.cpp     | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 86f01dc..09f938e 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -123,14 +123,15 @@ void PVStructureArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
 
-    if (length == value.size())
+    if (length == getLength())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
+
     if (length < value.size()) {
         value.slice(0, length);
     } else {
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 86ce8fd..931efe1 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -123,13 +123,15 @@ void PVUnionArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
-    if (length == value.size())
+
+    if (length == getLength())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
+
     if (length < value.size()) {
         value.slice(0, length);
     } else {
-- 
2.43.0


From f9ba86be8aedc4d51bc16fa624fe93a8a53f9821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 03/79] fix: partial serialization of structure/union arrays
 read past the selected range

---
 src/factory/PVStructureArray.cpp | 3 ++-
 src/factory/PVUnionArray.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 09f938e..fefae9f 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -192,10 +192,11 @@ void PVStructureArray::serialize(ByteBuffer *pbuffer,
 
     const_svector temp(view());
     temp.slice(offset, count);
+    count = temp.size();
 
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
-        SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+        SerializeHelper::writeSize(count, pbuffer, pflusher);
     else if (count != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 931efe1..3be51e1 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -192,10 +192,11 @@ void PVUnionArray::serialize(ByteBuffer *pbuffer,
 
     const_svector temp(view());
     temp.slice(offset, count);
+    count = temp.size();
 
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
-        SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+        SerializeHelper::writeSize(count, pbuffer, pflusher);
     else if (count != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
-- 
2.43.0


From 00b682f10d08656f758ceb1f8fdf443b2f4a6836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 04/79] fix: serializeSubstring() sent the length without the
 characters

---
 src/misc/serializeHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/serializeHelper.cpp b/src/misc/serializeHelper.cpp
index 822ddec..06f471d 100644
--- a/src/misc/serializeHelper.cpp
+++ b/src/misc/serializeHelper.cpp
@@ -83,10 +83,10 @@ namespace epics {
                 offset = 0;
             else*/ if(offset>value.length()) offset = value.length();
 
-            if(offset+count>value.length()) count = value.length()-offset;
+            if(count>value.length()-offset) count = value.length()-offset;
 
             SerializeHelper::writeSize(count, buffer, flusher);
-            /*if (count<=0)*/ return;
+            if (count<=0) return;
             std::size_t i = 0;
             while(true) {
                 std::size_t maxToWrite = min(count-i, buffer->getRemaining());
-- 
2.43.0


From 725d8a42a3710eade353829e45dc192b5c85fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 05/79] fix: array value was lost when received through
 directDeserialize()

---
 src/factory/PVDataCreateFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 6826e62..3ab7692 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -330,6 +330,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     if (!pbuffer->reverse<T>())
         if (pcontrol->directDeserialize(pbuffer, (char*)cur, size, sizeof(T)))
         {
+        value = freeze(nextvalue);
         // inform about the change?
         PVField::postPut();
         return;
-- 
2.43.0


From 13195de4948e31e66090d243ede358f6044bc50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 06/79] fix: a bit set larger than the transport buffer could
 not be serialized

---
 src/misc/bitSet.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/misc/bitSet.cpp b/src/misc/bitSet.cpp
index d53aaeb..440b02f 100644
--- a/src/misc/bitSet.cpp
+++ b/src/misc/bitSet.cpp
@@ -325,12 +325,14 @@ namespace epics { namespace pvData {
             len++;
 
         SerializeHelper::writeSize(len, buffer, flusher);
-        flusher->ensureBuffer(len);
 
         n = len / 8;
-        for (uint32 i = 0; i < n; i++)
+        for (uint32 i = 0; i < n; i++) {
+            flusher->ensureBuffer(BYTES_PER_WORD);
             buffer->putLong(words[i]);
+        }
 
+        flusher->ensureBuffer(BYTES_PER_WORD);
         if (n < words.size())
             for (uint64 x = words[words.size() - 1]; x != 0; x >>= 8)
                 buffer->putByte((int8) (x & 0xff));
@@ -340,25 +342,22 @@ namespace epics { namespace pvData {
 
         uint32 bytes = static_cast<uint32>(SerializeHelper::readSize(buffer, control)); // in bytes
 
-        size_t wordsInUse = (bytes + 7) / BYTES_PER_WORD;
-        words.resize(wordsInUse);
-
-        if (wordsInUse == 0)
-            return;
-
-        control->ensureData(bytes);
-
-        uint32 i = 0;
+        // grow as the data arrives, which need not all fit in the buffer
+        words_t next;
         uint32 longs = bytes / 8;
-        while (i < longs)
-            words[i++] = buffer->getLong();
-
-        for (uint32 j = i; j < wordsInUse; j++)
-            words[j] = 0;
+        for (uint32 i = 0; i < longs; i++) {
+            control->ensureData(BYTES_PER_WORD);
+            next.push_back(buffer->getLong());
+        }
 
-        for (uint32 remaining = (bytes - longs * 8), j = 0; j < remaining; j++)
-            words[i] |= (buffer->getByte() & 0xffLL) << (8 * j);
+        if (uint32 remaining = bytes - longs * 8) {
+            control->ensureData(remaining);
+            next.push_back(0);
+            for (uint32 j = 0; j < remaining; j++)
+                next.back() |= (buffer->getByte() & 0xffLL) << (8 * j);
+        }
 
+        words.swap(next);
         recalculateWordsInUse(); // Sender shouldn't add extra zero bytes, but don't fail it it does
     }
 
-- 
2.43.0


From 117da5fc23dc81752e75ddb7c1d0742a1ba895dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 07/79] fix: decoding a structure/union array type whose
 element is something else

---
 src/factory/FieldCreateFactory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 6c5f9b0..61949f2 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1561,7 +1561,9 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.structureArray;
-            StructureConstPtr elementStructure = std::tr1::static_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            StructureConstPtr elementStructure = std::tr1::dynamic_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            if (!elementStructure)
+                throw std::invalid_argument("invalid structureArray element type encoding");
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new StructureArray(elementStructure));
             Helper::cache(this, sp);
@@ -1574,7 +1576,9 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.unionArray;
-            UnionConstPtr elementUnion = std::tr1::static_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            UnionConstPtr elementUnion = std::tr1::dynamic_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            if (!elementUnion)
+                throw std::invalid_argument("invalid unionArray element type encoding");
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new UnionArray(elementUnion));
             Helper::cache(this, sp);
-- 
2.43.0


From 04a8201603b9687dc8aa963934dd4cdcea75daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 08/79] fix: decoding a union with a selector which is out of
 range

---
 src/factory/PVUnion.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/factory/PVUnion.cpp b/src/factory/PVUnion.cpp
index a52687b..c25e8b9 100644
--- a/src/factory/PVUnion.cpp
+++ b/src/factory/PVUnion.cpp
@@ -158,21 +158,26 @@ void PVUnion::deserialize(ByteBuffer *pbuffer, DeserializableControl *pcontrol)
     }
     else
     {
-        int32 previousSelector = selector;
-        selector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
-        if (selector != UNDEFINED_INDEX)
+        int32 newSelector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
+        if (newSelector != UNDEFINED_INDEX)
         {
-            if (selector != previousSelector)
+            if (newSelector < 0 || size_t(newSelector) >= unionPtr->getNumberFields())
+                throw std::invalid_argument("invalid union selector");
+            if (newSelector != selector)
             {
-                FieldConstPtr field = unionPtr->getField(selector);
+                FieldConstPtr field = unionPtr->getField(newSelector);
                 // try to reuse existing field instance
                 if (!value.get() || *value->getField() != *field)
                     value = pvDataCreate->createPVField(field);
+                selector = newSelector;
             }
             value->deserialize(pbuffer, pcontrol);
         }
         else
+        {
+            selector = UNDEFINED_INDEX;
             value.reset();
+        }
     }
 }
 
-- 
2.43.0


From 2fc3a24f5b297d1cc0a172ce04738eec664e7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 09/79] fix: decoding a status with an invalid type

---
 src/misc/status.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 0edd0f3..9443729 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -74,6 +74,8 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     }
     else
     {
+        if (typeCode < STATUSTYPE_OK || typeCode > STATUSTYPE_FATAL)
+            throw std::invalid_argument("invalid status type encoding");
         m_statusType = (StatusType)typeCode;
         m_message = SerializeHelper::deserializeString(buffer, flusher);
         m_stackDump = SerializeHelper::deserializeString(buffer, flusher);
-- 
2.43.0


From 5edb1d2ce2684e19bfadc70da1590e7c8719fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 10/79] fix: a fixed size array was created with length zero,
 and so could not be serialized or copied

---
 src/factory/PVDataCreateFactory.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 3ab7692..65f89e6 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -191,7 +191,14 @@ PVValueArray<T>::PVValueArray(ScalarArrayConstPtr const & scalarArray)
     :base_t(scalarArray)
     ,value()
 
-{}
+{
+    if (scalarArray->getArraySizeType() == Array::fixed)
+    {
+        // always has this length
+        svector initial(scalarArray->getMaximumCapacity(), T());
+        value = freeze(initial);
+    }
+}
 
 PVValueArray<PVStructurePtr>::PVValueArray(StructureArrayConstPtr const & structureArray)
     :base_t(structureArray)
-- 
2.43.0


From 3ae82126d475afc52804479650024d44acdc299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 11/79] fix: serialize of part of a fixed size string array
 sent too few elements

---
 src/factory/PVDataCreateFactory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 65f89e6..10ba7f9 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -447,9 +447,11 @@ void PVValueArray<string>::serialize(ByteBuffer *pbuffer,
     const_svector temp(value);
     temp.slice(offset, count);
 
-    // TODO if fixed count == getArray()->getMaximumCapacity()
-    if (this->getArray()->getArraySizeType() != Array::fixed)
+    ArrayConstPtr array = this->getArray();
+    if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+    else if (temp.size() != array->getMaximumCapacity())
+        throw std::length_error("fixed array cannot be partially serialized");
 
     const string * pvalue = temp.data();
     for(size_t i = 0; i<temp.size(); i++) {
-- 
2.43.0


From 3d6b043657efecb3a81450e39bfde99ab43bf042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 12/79] fix: decoding ignored the bound of bounded strings and
 arrays

---
 src/factory/PVDataCreateFactory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 10ba7f9..0fbefab 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -128,8 +128,10 @@ template<>
 void PVScalarValue<std::string>::deserialize(ByteBuffer *pbuffer,
     DeserializableControl *pflusher)
 {
-    storage.value = SerializeHelper::deserializeString(pbuffer, pflusher);
-    // TODO: check for violations of maxLength?
+    std::string value(SerializeHelper::deserializeString(pbuffer, pflusher));
+    if (storage.maxLength > 0 && value.length() > storage.maxLength)
+        throw std::overflow_error("string too long");
+    storage.value.swap(value);
 }
 
 PVString::PVString(ScalarConstPtr const & scalar)
@@ -326,6 +328,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
     nextvalue.resize(size); // TODO: avoid copy of stuff we will then overwrite
@@ -420,6 +423,7 @@ void PVValueArray<string>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
 
-- 
2.43.0


From 86cf458089496c5093524a2ff8c218b3ae5f4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 13/79] fix: a fixed size array lost its length when decoding
 failed

---
 src/factory/PVDataCreateFactory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 0fbefab..22abbed 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -330,7 +330,9 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
                 SerializeHelper::readSize(pbuffer, pcontrol);
     this->checkLength(size);
 
-    svector nextvalue(thaw(value));
+    // a fixed size array keeps its value, and so its length, if this fails
+    svector nextvalue(this->getArray()->getArraySizeType() == Array::fixed ?
+                          svector(size) : thaw(value));
     nextvalue.resize(size); // TODO: avoid copy of stuff we will then overwrite
 
     T* cur = nextvalue.data();
@@ -425,7 +427,9 @@ void PVValueArray<string>::deserialize(ByteBuffer *pbuffer,
                 SerializeHelper::readSize(pbuffer, pcontrol);
     this->checkLength(size);
 
-    svector nextvalue(thaw(value));
+    // a fixed size array keeps its value, and so its length, if this fails
+    svector nextvalue(this->getArray()->getArraySizeType() == Array::fixed ?
+                          svector(size) : thaw(value));
 
     // Decide if we must re-allocate
     if(size > nextvalue.size() || !nextvalue.unique())
-- 
2.43.0


From 4b7855e23a6a8006e413182b71d4dc82842f7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 14/79] fix: clone of a bounded string or a bounded/fixed size
 array lost the bound

---
 src/factory/PVDataCreateFactory.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 22abbed..f591000 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -608,8 +608,7 @@ PVScalarPtr PVDataCreate::createPVScalar(ScalarType scalarType)
 
 PVScalarPtr PVDataCreate::createPVScalar(PVScalarPtr const & scalarToClone)
 {
-     ScalarType scalarType = scalarToClone->getScalar()->getScalarType();
-     PVScalarPtr pvScalar = createPVScalar(scalarType);
+     PVScalarPtr pvScalar = createPVScalar(scalarToClone->getScalar());
      pvScalar->copyUnchecked(*scalarToClone);
      return pvScalar;
 }
@@ -657,8 +656,7 @@ PVScalarArrayPtr PVDataCreate::createPVScalarArray(
 PVScalarArrayPtr PVDataCreate::createPVScalarArray(
         PVScalarArrayPtr const & arrayToClone)
 {
-     PVScalarArrayPtr pvArray = createPVScalarArray(
-          arrayToClone->getScalarArray()->getElementType());
+     PVScalarArrayPtr pvArray = createPVScalarArray(arrayToClone->getScalarArray());
      pvArray->assign(*arrayToClone.get());
     return pvArray;
 }
-- 
2.43.0


From bb7210b75699aa311a996805b3a6b0a23520764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 15/79] fix: createPVField(structure to clone) took over the
 fields of the original and lost its ID

---
 src/factory/PVDataCreateFactory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index f591000..b6be8d4 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -534,9 +534,7 @@ PVFieldPtr PVDataCreate::createPVField(PVFieldPtr const & fieldToClone)
          {
              PVStructurePtr pvStructure
                    = static_pointer_cast<PVStructure>(fieldToClone);
-             StringArray const & fieldNames = pvStructure->getStructure()->getFieldNames();
-             PVFieldPtrArray const & pvFieldPtrArray = pvStructure->getPVFields();
-             return createPVStructure(fieldNames,pvFieldPtrArray);
+             return createPVStructure(pvStructure);
          }
      case structureArray:
          {
-- 
2.43.0


From 46aa1f7a27da408a4ba972ee69d248dc72d094c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 16/79] fix: clone of a union without a value dereferenced null

---
 src/factory/PVDataCreateFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index b6be8d4..9f4659e 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -724,7 +724,8 @@ PVUnionPtr PVDataCreate::createPVUnion(PVUnionPtr const & unionToClone)
 {
     PVUnionPtr punion(new PVUnion(unionToClone->getUnion()));
     // set cloned value
-    punion->set(unionToClone->getSelectedIndex(), createPVField(unionToClone->get()));
+    if(unionToClone->get())
+        punion->set(unionToClone->getSelectedIndex(), createPVField(unionToClone->get()));
     return punion;
 }
 
-- 
2.43.0


From de9e55480a493df7de254f4366c8c156e22864ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 17/79] fix: comparing a variant union with an empty one
 dereferenced null

---
 src/factory/Compare.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 1e53608..f4aabac 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -272,10 +272,11 @@ bool compareField(const PVUnion* left, const PVUnion* right)
     if (ls->isVariant())
     {
         const PVField::const_shared_pointer& lval = left->get();
-        if (lval.get() == 0)
-            return right->get().get() == 0;
+        const PVField::const_shared_pointer& rval = right->get();
+        if (lval.get() == 0 || rval.get() == 0)
+            return lval.get() == rval.get();
         else
-            return *(lval.get()) == *(right->get().get());
+            return *(lval.get()) == *(rval.get());
     }
     else
     {
-- 
2.43.0


From 322f109700280fc29d06cc5d8b1dc1577bc9b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 18/79] fix: fields which became part of a structure kept their
 previous offsets

---
 src/factory/PVStructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factory/PVStructure.cpp b/src/factory/PVStructure.cpp
index ff14b81..fc20fb8 100644
--- a/src/factory/PVStructure.cpp
+++ b/src/factory/PVStructure.cpp
@@ -58,6 +58,8 @@ PVStructure::PVStructure(StructureConstPtr const & structurePtr,
     for(size_t i=0; i<numberFields; i++) {
         pvFields[i]->setParentAndName(this,fieldNames[i]);
     }
+    // the fields may hold offsets computed before they became part of this structure
+    computeOffset(this);
 }
 
 PVStructure::~PVStructure() {}
-- 
2.43.0


From f62e1ca95c13911dfd749d4965687cff4325fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 19/79] fix: replace() changed an immutable array

---
 src/factory/PVDataCreateFactory.cpp | 9 ++++++++-
 src/factory/PVStructureArray.cpp    | 4 +++-
 src/factory/PVUnionArray.cpp        | 4 +++-
 src/pv/pvData.h                     | 4 ++++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 9f4659e..df08a2a 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -297,6 +297,9 @@ void PVValueArray<T>::setLength(size_t length)
 template<typename T>
 void PVValueArray<T>::replace(const const_svector& next)
 {
+    if (this->isImmutable())
+        THROW_EXCEPTION2(std::logic_error, "immutable");
+
     this->checkLength(next.size());
 
     value = next;
@@ -476,7 +479,11 @@ void PVValueArray<T>::_getAsVoid(epics::pvData::shared_vector<const void>& out)
 template<typename T>
 void PVValueArray<T>::_putFromVoid(const epics::pvData::shared_vector<const void>& in)
 {
-    this->replace(shared_vector_convert<const T>(in));
+    const_svector next(shared_vector_convert<const T>(in));
+    this->checkLength(next.size());
+
+    value = next;
+    this->postPut();
 }
 
 // Factory
diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index fefae9f..04f04f7 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -258,7 +258,9 @@ void PVStructureArray::copyUnchecked(const PVStructureArray& from)
     if (this == &from)
         return;
 
-    replace(from.view());
+    checkLength(from.value.size());
+    value = from.value;
+    postPut();
 }
 
 }}
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 3be51e1..7bbc95b 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -258,7 +258,9 @@ void PVUnionArray::copyUnchecked(const PVUnionArray& from)
     if (this == &from)
         return;
 
-    replace(from.view());
+    checkLength(from.value.size());
+    value = from.value;
+    postPut();
 }
 
 
diff --git a/src/pv/pvData.h b/src/pv/pvData.h
index a33fb0e..80abe68 100644
--- a/src/pv/pvData.h
+++ b/src/pv/pvData.h
@@ -1297,6 +1297,8 @@ public:
     virtual const_svector view() const OVERRIDE FINAL { return value; }
     virtual void swap(const_svector &other) OVERRIDE FINAL;
     virtual void replace(const const_svector &other) OVERRIDE FINAL {
+        if (this->isImmutable())
+            throw std::logic_error("immutable");
         checkLength(other.size());
         value = other;
         PVField::postPut();
@@ -1396,6 +1398,8 @@ public:
     virtual const_svector view() const OVERRIDE { return value; }
     virtual void swap(const_svector &other) OVERRIDE;
     virtual void replace(const const_svector &other) OVERRIDE FINAL {
+        if (this->isImmutable())
+            throw std::logic_error("immutable");
         checkLength(other.size());
         value = other;
         PVField::postPut();
-- 
2.43.0


From 84d7d285891460e206fdcaa48e6d08567d471e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 20/79] fix: thaw() of a shared slice used the offset of the
 old data

---
 src/misc/pv/sharedVector.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 905ee5e..598172f 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -155,11 +155,14 @@ namespace detail {
         shared_vector_base(shared_vector<const E>& O,
                            _shared_vector_thaw_tag)
             :m_sdata()
-            ,m_offset(O.m_offset)
-            ,m_count(O.m_count)
-            ,m_total(O.m_total)
+            ,m_offset(0)
+            ,m_count(0)
+            ,m_total(0)
         {
-            O.make_unique();
+            O.make_unique(); // may change the offset
+            m_offset = O.m_offset;
+            m_count = O.m_count;
+            m_total = O.m_total;
 #if __cplusplus >= 201103L
             m_sdata = std::move(std::tr1::const_pointer_cast<E>(O.m_sdata));
 #else
-- 
2.43.0


From 7017427997b9d425b3a564fad2c64bf3543ab26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 21/79] fix: shared_vector::at(size()) did not throw

---
 src/misc/pv/sharedVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 598172f..df46c5b 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -626,7 +626,7 @@ public:
     //! @throws std::out_of_range if i>=size().
     reference at(size_t i) const
     {
-        if(i>this->m_count)
+        if(i>=this->m_count)
             throw std::out_of_range("Index out of bounds");
         return (*this)[i];
     }
-- 
2.43.0


From 06b02b1c3c6ed35a0662bdcacb7e1d94c5bf5314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 22/79] fix: sub-array copy: offset or length which is out of
 range was not refused

---
 src/factory/pvSubArrayCopy.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/factory/pvSubArrayCopy.cpp b/src/factory/pvSubArrayCopy.cpp
index 35b03ed..add270d 100644
--- a/src/factory/pvSubArrayCopy.cpp
+++ b/src/factory/pvSubArrayCopy.cpp
@@ -32,8 +32,11 @@ void copy(
     if(pvTo.isImmutable()) throw std::invalid_argument("pvSubArrayCopy: pvTo is immutable");
     if(fromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
     size_t fromLength = pvFrom.getLength();
-    size_t maxcount = (fromLength -fromOffset + fromStride -1)/fromStride;
+    size_t available = fromOffset<fromLength ? fromLength - fromOffset : 0;
+    size_t maxcount = available/fromStride + (available%fromStride ? 1 : 0);
     if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    if(toOffset>(size_t)-1-toStride || count>((size_t)-1-toOffset)/toStride)
+        throw std::invalid_argument("pvSubArrayCopy pvTo length error");
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
@@ -170,8 +173,11 @@ void copy(
             "pvSubArrayCopy structureArray pvTo and pvFrom have different structures");
     }
     size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
+    size_t available = pvFromOffset<pvFromLength ? pvFromLength - pvFromOffset : 0;
+    size_t maxcount = available/pvFromStride + (available%pvFromStride ? 1 : 0);
     if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    if(toOffset>(size_t)-1-toStride || count>((size_t)-1-toOffset)/toStride)
+        throw std::invalid_argument("pvSubArrayCopy pvTo length error");
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
@@ -206,8 +212,11 @@ void copy(
             "pvSubArrayCopy unionArray pvTo and pvFrom have different unions");
     }
     size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
+    size_t available = pvFromOffset<pvFromLength ? pvFromLength - pvFromOffset : 0;
+    size_t maxcount = available/pvFromStride + (available%pvFromStride ? 1 : 0);
     if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    if(toOffset>(size_t)-1-toStride || count>((size_t)-1-toOffset)/toStride)
+        throw std::invalid_argument("pvSubArrayCopy pvTo length error");
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
-- 
2.43.0


From 5eda68a525d6c78b1262dca99cbf3a659d81fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 23/79] fix: sub-array copy extended the destination to its
 capacity

---
 src/factory/pvSubArrayCopy.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/factory/pvSubArrayCopy.cpp b/src/factory/pvSubArrayCopy.cpp
index add270d..2a9a4d6 100644
--- a/src/factory/pvSubArrayCopy.cpp
+++ b/src/factory/pvSubArrayCopy.cpp
@@ -38,13 +38,12 @@ void copy(
     if(toOffset>(size_t)-1-toStride || count>((size_t)-1-toOffset)/toStride)
         throw std::invalid_argument("pvSubArrayCopy pvTo length error");
     size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<T> temp(capacity);
+    if(newLength<pvTo.getLength()) newLength = pvTo.getLength();
+    shared_vector<T> temp(newLength);
     typename PVValueArray<T>::const_svector vecFrom = pvFrom.view();
     typename PVValueArray<T>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i) temp[i] = T();
+    for(size_t i=pvTo.getLength(); i< newLength; ++i) temp[i] = T();
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*fromStride+fromOffset];
     shared_vector<const T> temp2(freeze(temp));
     pvTo.replace(temp2);
@@ -179,13 +178,12 @@ void copy(
     if(toOffset>(size_t)-1-toStride || count>((size_t)-1-toOffset)/toStride)
         throw std::invalid_argument("pvSubArrayCopy pvTo length error");
     size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<PVStructurePtr> temp(capacity);
+    if(newLength<pvTo.getLength()) newLength = pvTo.getLength();
+    shared_vector<PVStructurePtr> temp(newLength);
     PVValueArray<PVStructurePtr>::const_svector vecFrom = pvFrom.view();
     PVValueArray<PVStructurePtr>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i)
+    for(size_t i=pvTo.getLength(); i< newLength; ++i)
         temp[i] = getPVDataCreate()->createPVStructure(toStructure->getStructure());
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*pvFromStride+pvFromOffset];
     shared_vector<const PVStructurePtr> temp2(freeze(temp));
@@ -218,13 +216,12 @@ void copy(
     if(toOffset>(size_t)-1-toStride || count>((size_t)-1-toOffset)/toStride)
         throw std::invalid_argument("pvSubArrayCopy pvTo length error");
     size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<PVUnionPtr> temp(capacity);
+    if(newLength<pvTo.getLength()) newLength = pvTo.getLength();
+    shared_vector<PVUnionPtr> temp(newLength);
     PVValueArray<PVUnionPtr>::const_svector vecFrom = pvFrom.view();
     PVValueArray<PVUnionPtr>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i)
+    for(size_t i=pvTo.getLength(); i< newLength; ++i)
         temp[i] = getPVDataCreate()->createPVUnion(toUnion->getUnion());
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*pvFromStride+pvFromOffset];
     shared_vector<const PVUnionPtr> temp2(freeze(temp));
-- 
2.43.0


From f758e5df60c21b2dd055798070282ee17f6ca758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 24/79] fix: error of an array conversion named the wrong
 element

---
 src/misc/typeCast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/misc/typeCast.cpp b/src/misc/typeCast.cpp
index 8ae3688..7bb93d6 100644
--- a/src/misc/typeCast.cpp
+++ b/src/misc/typeCast.cpp
@@ -33,8 +33,9 @@ static void castVTyped(size_t count, void *draw, const void *sraw)
 
     //std::transform(src, src+count, dest, castUnsafe<TO,FROM>);
 
+    size_t i=0;
     try {
-        for(size_t i=0; i<count; i++) {
+        for(; i<count; i++) {
             dest[i] = castUnsafe<TO,FROM>(src[i]);
         }
     } catch (std::exception& ex) {
@@ -42,7 +43,7 @@ static void castVTyped(size_t count, void *draw, const void *sraw)
         if (count > 1)
         {
             std::ostringstream os;
-            os << "failed to parse element at index " << (src - (FROM*)sraw);
+            os << "failed to parse element at index " << i;
             os << ": " << ex.what();
             throw std::runtime_error(os.str());
         }
-- 
2.43.0


From eb54bce83eaf668bfca73158ba45abf864cca60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 25/79] fix: reserve() of less than the size dropped elements
 of a shared vector

---
 src/misc/pv/sharedVector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index df46c5b..81f8535 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -432,8 +432,8 @@ public:
         if(this->unique() && i<=this->m_total)
             return;
         size_t new_count = this->m_count;
-        if(new_count > i)
-            new_count = i;
+        if(i < new_count)
+            i = new_count;
         _E_non_const* temp=new _E_non_const[i];
         try{
             std::copy(begin(), begin()+new_count, temp);
-- 
2.43.0


From 4531769aa39a8acbd6680e3f70c1d3d74876cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 26/79] fix: structure/union array: a failed append(),
 setLength() or setCapacity() dropped the elements

---
 src/factory/PVStructureArray.cpp | 41 +++++++++++++++-----------------
 src/factory/PVUnionArray.cpp     | 41 +++++++++++++++-----------------
 2 files changed, 38 insertions(+), 44 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 04f04f7..43b11ae 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -23,17 +23,27 @@ namespace epics { namespace pvData {
 
 size_t PVStructureArray::append(size_t number)
 {
-    checkLength(value.size()+number);
+    if(this->isImmutable())
+        THROW_EXCEPTION2(std::logic_error, "immutable");
 
-    svector data(reuse());
-    data.resize(data.size()+number);
+    size_t length = value.size();
+    if(number > value.max_size()-length)
+        throw std::length_error("append: too many elements");
+    checkLength(length+number);
 
     StructureConstPtr structure = structureArray->getStructure();
 
     PVDataCreatePtr pvDataCreate = getPVDataCreate();
-    for(svector::reverse_iterator it = data.rbegin(); number; ++it, --number)
+    svector added(number);
+    for(svector::reverse_iterator it = added.rbegin(); it != added.rend(); ++it)
         *it = pvDataCreate->createPVStructure(structure);
 
+    // from here on only resize() can fail, before anything changed
+    value.resize(length+number);
+    svector data(reuse());
+    for(size_t i=0; i<number; i++)
+        data[length+i].swap(added[i]);
+
     size_t newLength = data.size();
 
     const_svector cdata(freeze(data));
@@ -106,14 +116,8 @@ void PVStructureArray::setCapacity(size_t capacity)
 {
     if (this->isCapacityMutable()) {
         checkLength(capacity);
-        const_svector value;
-        swap(value);
-        if(value.capacity()<capacity) {
-            svector mvalue(thaw(value));
-            mvalue.reserve(capacity);
-            value = freeze(mvalue);
-        }
-        swap(value);
+        if(value.capacity()<capacity)
+            value.reserve(capacity);
     }
     else
         THROW_EXCEPTION2(std::logic_error, "capacity immutable");
@@ -129,17 +133,10 @@ void PVStructureArray::setLength(size_t length)
 
     checkLength(length);
 
-    const_svector value;
-    swap(value);
-
-    if (length < value.size()) {
+    if (length < value.size())
         value.slice(0, length);
-    } else {
-        svector mvalue(thaw(value));
-        mvalue.resize(length);
-        value = freeze(mvalue);
-    }
-    swap(value);
+    else
+        value.resize(length);
 }
 
 void PVStructureArray::swap(const_svector &other)
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 7bbc95b..48470e9 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -23,17 +23,27 @@ namespace epics { namespace pvData {
 
 size_t PVUnionArray::append(size_t number)
 {
-    checkLength(value.size()+number);
+    if(this->isImmutable())
+        THROW_EXCEPTION2(std::logic_error, "immutable");
 
-    svector data(reuse());
-    data.resize(data.size()+number);
+    size_t length = value.size();
+    if(number > value.max_size()-length)
+        throw std::length_error("append: too many elements");
+    checkLength(length+number);
 
     UnionConstPtr punion = unionArray->getUnion();
 
     PVDataCreatePtr pvDataCreate = getPVDataCreate();
-    for(svector::reverse_iterator it = data.rbegin(); number; ++it, --number)
+    svector added(number);
+    for(svector::reverse_iterator it = added.rbegin(); it != added.rend(); ++it)
         *it = pvDataCreate->createPVUnion(punion);
 
+    // from here on only resize() can fail, before anything changed
+    value.resize(length+number);
+    svector data(reuse());
+    for(size_t i=0; i<number; i++)
+        data[length+i].swap(added[i]);
+
     size_t newLength = data.size();
 
     const_svector cdata(freeze(data));
@@ -106,14 +116,8 @@ void PVUnionArray::setCapacity(size_t capacity)
 {
     if(this->isCapacityMutable()) {
         checkLength(capacity);
-        const_svector value;
-        swap(value);
-        if(value.capacity()<capacity) {
-            svector mvalue(thaw(value));
-            mvalue.reserve(capacity);
-            value = freeze(mvalue);
-        }
-        swap(value);
+        if(value.capacity()<capacity)
+            value.reserve(capacity);
     }
     else
         THROW_EXCEPTION2(std::logic_error, "capacity immutable");
@@ -129,17 +133,10 @@ void PVUnionArray::setLength(size_t length)
 
     checkLength(length);
 
-    const_svector value;
-    swap(value);
-
-    if (length < value.size()) {
+    if (length < value.size())
         value.slice(0, length);
-    } else {
-        svector mvalue(thaw(value));
-        mvalue.resize(length);
-        value = freeze(mvalue);
-    }
-    swap(value);
+    else
+        value.resize(length);
 }
 
 void PVUnionArray::swap(const_svector &other)
-- 
2.43.0


From c3cc2310fdf72d654a5efc2ad0c43fa213cd2456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 27/79] fix: Convert::fromString() of an array splits the list
 wrongly

---
 src/factory/Convert.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index af39b21..c778bb0 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -40,7 +40,8 @@ static std::vector<string> split(const string& commaSeparatedList) {
     index=0;
     for(size_t i=0; i<numValues; i++) {
         size_t pos = commaSeparatedList.find(',',index);
-        string value = commaSeparatedList.substr(index,pos);
+        string value = commaSeparatedList.substr(index,
+            pos==string::npos ? pos : pos-index);
         valueList[i] = value;
         index = pos +1;
     }
@@ -99,9 +100,8 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
 
 size_t Convert::fromString(PVScalarArrayPtr const &pv, string from)
 {
-   if(from[0]=='[' && from[from.length()]==']') {
-        size_t offset = from.rfind(']');
-        from = from.substr(1, offset);
+   if(from.length()>=2 && from[0]=='[' && from[from.length()-1]==']') {
+        from = from.substr(1, from.length()-2);
     }
     std::vector<string> valueList(split(from));
     size_t length = valueList.size();
-- 
2.43.0


From fdbbbb3035d1a9cba28ee6db1fbaaefc1f90c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 28/79] fix: Convert::fromString() of a structure uses one
 string for each field

---
 src/factory/Convert.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index c778bb0..da265ec 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -69,6 +69,8 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
             PVFieldPtr fieldField = fieldsData[i];
 
             Type type = fieldField->getField()->getType();
+            if((type==scalar || type==scalarArray) && fromStartIndex>=from.size())
+                throw std::logic_error("Convert::fromString not enough strings");
             if(type==structure) {
                 PVStructurePtr pv = static_pointer_cast<PVStructure>(fieldField);
                 size_t count = fromString(pv, from, fromStartIndex);
@@ -77,9 +79,8 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
             }
             else if(type==scalarArray) {
                 PVScalarArrayPtr pv = static_pointer_cast<PVScalarArray>(fieldField);
-                size_t count = fromString(pv, from[fromStartIndex]);
-                processed += count;
-                fromStartIndex += count;
+                fromString(pv, from[fromStartIndex++]);
+                processed++;
             }
             else if(type==scalar) {
                 PVScalarPtr pv = static_pointer_cast<PVScalar>(fieldField);
-- 
2.43.0


From 908cf0b8b45759ae122116863a791298817ead9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 29/79] fix: Convert::toStringArray() applies the offset to the
 destination

---
 src/factory/Convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index da265ec..acc8a38 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -147,7 +147,7 @@ size_t Convert::toStringArray(PVScalarArrayPtr const & pv,
     data.slice(offset, length);
     if(toOffset+data.size() > to.size())
         to.resize(toOffset+data.size());
-    std::copy(data.begin()+toOffset, data.end(), to.begin());
+    std::copy(data.begin(), data.end(), to.begin()+toOffset);
     return data.size();
 }
 
-- 
2.43.0


From 2942d7a63d86da331706f2279cc2c78b89c3d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 30/79] fix: Convert::toLong() does not truncate to 32 bits

---
 src/pv/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pv/convert.h b/src/pv/convert.h
index 2a4395b..1967166 100644
--- a/src/pv/convert.h
+++ b/src/pv/convert.h
@@ -167,7 +167,7 @@ public:
      * @return converted value
      * @throws std::invalid_argument if the Type is not a numeric scalar
      */
-    inline int64 toLong(PVScalarPtr const & pv) { return pv->getAs<int32>();}
+    inline int64 toLong(PVScalarPtr const & pv) { return pv->getAs<int64>();}
     /**
      * Convert a PV to a ubyte.
      * @param pv a PV
-- 
2.43.0


From 1a849151f10de505e62c47d95dacb2b5895b5715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 31/79] fix: Convert::fromStringArray() throws when given too
 few strings

---
 src/factory/Convert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index acc8a38..5f26644 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -121,7 +121,8 @@ size_t Convert::fromStringArray(PVScalarArrayPtr const &pv,
 
     if(offset==0 && length>=alen) {
         // replace all existing elements
-        assert(from.size()>=fromOffset+length);
+        if(fromOffset>from.size() || length>from.size()-fromOffset)
+            throw std::invalid_argument("fromStringArray: not enough strings");
 
         PVStringArray::svector data(length);
         std::copy(from.begin()+fromOffset,
-- 
2.43.0


From 6ad54bb466f43ccc106c0ad0da9560605d0e7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 32/79] fix: AnyScalar prints boolean and byte values as text

---
 src/misc/anyscalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/anyscalar.cpp b/src/misc/anyscalar.cpp
index c140a97..4afd04f 100644
--- a/src/misc/anyscalar.cpp
+++ b/src/misc/anyscalar.cpp
@@ -145,7 +145,7 @@ const void* AnyScalar::bufferUnsafe() const {
 std::ostream& operator<<(std::ostream& strm, const AnyScalar& v)
 {
     switch(v.type()) {
-#define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case pv ## PVACODE: strm<<v._as<PVATYPE>(); break;
+#define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case pv ## PVACODE: strm<<print_cast(v._as<PVATYPE>()); break;
 #define CASE_REAL_INT64
 #define CASE_STRING
 #include "pv/typemap.h"
-- 
2.43.0


From 7072451912296c02d9024b33ebcf6749e0911e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 33/79] fix: castUnsafeV() of no elements does not pass a null
 pointer to memcpy()

---
 src/misc/typeCast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc/typeCast.cpp b/src/misc/typeCast.cpp
index 7bb93d6..a2fdce3 100644
--- a/src/misc/typeCast.cpp
+++ b/src/misc/typeCast.cpp
@@ -63,7 +63,8 @@ static void copyV(size_t count, void *draw, const void *sraw)
 template<int N>
 static void copyMem(size_t count, void *draw, const void *sraw)
 {
-    memcpy(draw, sraw, count*N);
+    if(count)
+        memcpy(draw, sraw, count*N);
 }
 
 } // end namespace
-- 
2.43.0


From 874d472924eae3999ea42359da05d655487a1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 34/79] fix: TimeStamp comparison of instants more than 292
 years apart

---
 src/property/timeStamp.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 57e4c4c..c75402d 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -84,16 +84,12 @@ double TimeStamp::toSeconds() const
     return value;
 }
 
+// negative, zero or positive: computed without overflow for any two instants
 int64 TimeStamp::diffInt(TimeStamp const & left,TimeStamp  const&right )
 {
-    int64 sl = left.secondsPastEpoch;
-    int32 nl = left.nanoseconds;
-    int64 sr = right.secondsPastEpoch;
-    int32 nr = right.nanoseconds;
-    int64 sdiff = sl - sr;
-    sdiff *= nanoSecPerSec;
-    sdiff += nl - nr;
-    return sdiff;
+    if(left.secondsPastEpoch!=right.secondsPastEpoch)
+        return left.secondsPastEpoch<right.secondsPastEpoch ? -1 : 1;
+    return static_cast<int64>(left.nanoseconds) - right.nanoseconds;
 }
 
 bool TimeStamp::operator==(TimeStamp const &right) const
-- 
2.43.0


From b2c6666d59409d9454fb9013a5ad3320a1168a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 35/79] fix: TimeStamp stays normalized when fractional seconds
 are added

---
 src/property/timeStamp.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index c75402d..a0a098e 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -159,14 +159,8 @@ TimeStamp & TimeStamp::operator+=(double seconds)
     int64 secs = static_cast<int64>(seconds);
     int64 nano = static_cast<int64>((seconds - secs)*1e9);
     nanoseconds += static_cast<int32>(nano);
-    if(nanoseconds>nanoSecPerSec) {
-        nanoseconds -= nanoSecPerSec;
-        secondsPastEpoch += 1;
-    } else if(nanoseconds<-nanoSecPerSec) {
-        nanoseconds += -nanoSecPerSec;
-        secondsPastEpoch -= 1;
-    }
     secondsPastEpoch += secs;
+    normalize();
     return *this;
 }
 
-- 
2.43.0


From 56842b67bc58549c737c23bc0318640b75b23da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 36/79] fix: TimeStamp stays normalized when set from negative
 milliseconds

---
 src/property/timeStamp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index a0a098e..5e57789 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -65,6 +65,7 @@ void TimeStamp::put(int64 milliseconds)
 {
     secondsPastEpoch = milliseconds/1000;
     nanoseconds = (milliseconds%1000)*1000000;
+    normalize();
 }
 
 void TimeStamp::getCurrent()
-- 
2.43.0


From 006ecde9aca065b9f1bb7f52e2afd06e205c0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 37/79] fix: TimeStamp conversion to and from time_t outside of
 the range of the EPICS epoch

---
 src/property/timeStamp.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 5e57789..0fe4f2e 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -47,18 +47,13 @@ void TimeStamp::normalize()
 
 void TimeStamp::fromTime_t(const time_t & tt)
 {
-    epicsTimeStamp epicsTime;
-    epicsTimeFromTime_t(&epicsTime,tt);
-    secondsPastEpoch = epicsTime.secPastEpoch + posixEpochAtEpicsEpoch;
-    nanoseconds = epicsTime.nsec;
+    secondsPastEpoch = tt;
+    nanoseconds = 0;
 }
 
 void TimeStamp::toTime_t(time_t  &tt) const
 {
-    epicsTimeStamp epicsTime;
-    epicsTime.secPastEpoch = static_cast<epicsUInt32>(secondsPastEpoch-posixEpochAtEpicsEpoch);
-    epicsTime.nsec = nanoseconds;
-    epicsTimeToTime_t(&tt,&epicsTime);
+    tt = static_cast<time_t>(secondsPastEpoch);
 }
 
 void TimeStamp::put(int64 milliseconds)
-- 
2.43.0


From 967c61380e5df4f167db8d16a3c1e61286cbab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 38/79] fix: PVDisplay::isAttached() is not inverted

---
 src/property/pvDisplay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index 0027cb7..df207c5 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -62,7 +62,7 @@ void PVDisplay::detach()
 }
 
 bool PVDisplay::isAttached() {
-    if(pvDescription.get()) return false;
+    if(pvDescription.get()==NULL) return false;
     return true;
 }
 
-- 
2.43.0


From 68d887c80d20bd32b6cb8d8be3f053d7ef5b7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 39/79] fix: PVEnumerated::choicesMutable() is not inverted

---
 src/property/pvEnumerated.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 5aa61d0..45d2b9a 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -86,7 +86,7 @@ bool PVEnumerated::choicesMutable()
     if(pvIndex.get()==NULL ) {
          throw std::logic_error(notAttached);
     }
-    return pvChoices->isImmutable();
+    return !pvChoices->isImmutable();
 }
 
 int32 PVEnumerated::getNumberChoices()
-- 
2.43.0


From 20a3592c0a1a774b2e3edd016da4c91c2f42ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 40/79] fix: PVEnumerated::getChoices() throws while detached

---
 src/property/pv/pvEnumerated.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/property/pv/pvEnumerated.h b/src/property/pv/pvEnumerated.h
index c10f4aa..8360bf8 100644
--- a/src/property/pv/pvEnumerated.h
+++ b/src/property/pv/pvEnumerated.h
@@ -10,6 +10,7 @@
 #define PVENUMERATED_H
 
 #include <string>
+#include <stdexcept>
 
 #include <pv/pvType.h>
 #include <pv/pvData.h>
@@ -88,7 +89,10 @@ public:
      * @return The current index.
      * @throw if not attached.
      */
-    inline PVStringArray::const_svector getChoices(){return pvChoices->view();}
+    inline PVStringArray::const_svector getChoices(){
+        if(pvChoices.get()==NULL) throw std::logic_error(notAttached);
+        return pvChoices->view();
+    }
     /**
      * Get the size of the choices array.
      * @return The size.
-- 
2.43.0


From 027753a5d99374134e71ab4004a2394e36cc0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 41/79] fix: PVTimeStamp::set() over a stored value which is
 not normalized

---
 src/property/pvTimeStamp.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 07976bf..30594b6 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -72,21 +72,19 @@ bool PVTimeStamp::set(TimeStamp const & timeStamp)
     if(pvSecs.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSecs->isImmutable() || pvNano->isImmutable()) return false;
-    TimeStamp current;
-    get(current);
+    if(pvSecs->isImmutable() || pvNano->isImmutable() || pvUserTag->isImmutable()) return false;
     bool returnValue = false;
-    if(current.getSecondsPastEpoch()!=timeStamp.getSecondsPastEpoch())
+    if(pvSecs->get()!=timeStamp.getSecondsPastEpoch())
     {
         pvSecs->put(timeStamp.getSecondsPastEpoch());
         returnValue = true;
     }
-    if(current.getNanoseconds()!=timeStamp.getNanoseconds())
+    if(pvNano->get()!=timeStamp.getNanoseconds())
     {
         pvNano->put(timeStamp.getNanoseconds());
         returnValue = true;
     }
-    if(current.getUserTag()!=timeStamp.getUserTag())
+    if(pvUserTag->get()!=timeStamp.getUserTag())
     {
         pvUserTag->put(timeStamp.getUserTag());
         returnValue = true;
-- 
2.43.0


From 5ba4748456f4c3063a78e4cc9e8e0a1a7f7d6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 42/79] fix: PVAlarm::set() replaces an illegal severity or
 status

---
 src/property/pvAlarm.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 213d4d0..97f1cee 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -71,21 +71,19 @@ bool PVAlarm::set(Alarm const & alarm)
     if(pvSeverity.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSeverity->isImmutable() || pvMessage->isImmutable()) return false;
-    Alarm current;
-    get(current);
+    if(pvSeverity->isImmutable() || pvStatus->isImmutable() || pvMessage->isImmutable()) return false;
     bool returnValue = false;
-    if(current.getSeverity()!=alarm.getSeverity())
+    if(pvSeverity->get()!=alarm.getSeverity())
     {
         pvSeverity->put(alarm.getSeverity());
         returnValue = true;
     }
-    if(current.getStatus()!=alarm.getStatus())
+    if(pvStatus->get()!=alarm.getStatus())
     {
         pvStatus->put(alarm.getStatus());
         returnValue = true;
     }
-    if(current.getMessage()!=alarm.getMessage())
+    if(pvMessage->get()!=alarm.getMessage())
     {
         pvMessage->put(alarm.getMessage());
         returnValue = true;
-- 
2.43.0


From 56acb1a6a1b20dcf6306a4d74a232170f6d8d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 43/79] fix: PVControl::detach() releases minStep

---
 src/property/pvControl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/property/pvControl.cpp b/src/property/pvControl.cpp
index be023e1..6879dcb 100644
--- a/src/property/pvControl.cpp
+++ b/src/property/pvControl.cpp
@@ -47,6 +47,7 @@ void PVControl::detach()
 {
     pvLow.reset();
     pvHigh.reset();
+    pvMinStep.reset();
 }
 
 bool PVControl::isAttached(){
-- 
2.43.0


From 83893b83292487ba6d7f881bd24d02af785b95da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 44/79] fix: parseJSON() into an array field of something which
 is not an array, or is a nested array

---
 src/json/parseinto.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 601fa4c..6f8cd03 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -25,8 +25,9 @@ struct context {
     struct frame {
         pvd::PVFieldPtr fld;
         pvd::BitSet *assigned;
+        bool inarray; // array field, and we are between '[' and ']'
         frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned)
-            :fld(fld), assigned(assigned)
+            :fld(fld), assigned(assigned), inarray(false)
         {}
     };
 
@@ -66,7 +67,7 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
         self->stack.pop_back();
         // structure at the top of the stack
 
-    } else if(type==pvd::scalarArray) {
+    } else if(type==pvd::scalarArray && back.inarray) {
         pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
 
         pvd::shared_vector<const void> carr;
@@ -182,7 +183,7 @@ int jtree_start_map(void * ctx)
         pvd::Type type = back.fld->getField()->getType();
         if(type==pvd::structure) {
             // will fill in
-        } else if(type==pvd::structureArray) {
+        } else if(type==pvd::structureArray && back.inarray) {
             // starting new element in structure array
             pvd::PVStructureArray* sarr(static_cast<pvd::PVStructureArray*>(back.fld.get()));
 
@@ -251,10 +252,11 @@ int jtree_start_array(void * ctx)
 {
     TRY {
         assert(!self->stack.empty());
-        pvd::PVFieldPtr& back(self->stack.back().fld);
-        pvd::Type type = back->getField()->getType();
-        if(type!=pvd::structureArray && type!=pvd::scalarArray)
+        context::frame& back = self->stack.back();
+        pvd::Type type = back.fld->getField()->getType();
+        if((type!=pvd::structureArray && type!=pvd::scalarArray) || back.inarray)
             throw std::runtime_error("Can't assign array");
+        back.inarray = true;
 
         return 1;
     }CATCH()
-- 
2.43.0


From 1804ba2e41fc64c86344c982aaba6e8b9e7ef991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 45/79] fix: parseJSON() joins tokens and strings across lines,
 and never ends // comments

---
 src/json/parsehelper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json/parsehelper.cpp b/src/json/parsehelper.cpp
index 9cc44c3..b2801c0 100644
--- a/src/json/parsehelper.cpp
+++ b/src/json/parsehelper.cpp
@@ -37,6 +37,8 @@ bool yajl_parse_helper(std::istream& src,
     std::string line;
     while(std::getline(src, line)) {
         linenum++;
+        if(!src.eof())
+            line.push_back('\n'); // not significant only between tokens
 
 #ifndef EPICS_YAJL_VERSION
         if(done) {
-- 
2.43.0


From 5772002a5c38d199937808c230cf190c5209262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 46/79] fix: parseJSON() does not finish when deeply nested

---
 src/json/parseany.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json/parseany.cpp b/src/json/parseany.cpp
index e860da3..491faec 100644
--- a/src/json/parseany.cpp
+++ b/src/json/parseany.cpp
@@ -18,6 +18,9 @@ using pvd::yajl::size_arg;
 
 namespace {
 
+// time to build a structure is cubic in depth
+const unsigned maxDepth = 256u;
+
 struct context {
 
     unsigned depth;
@@ -163,6 +166,8 @@ int jtree_start_map(void * ctx)
         if(self->depth>0) {
             if(self->key.empty())
                 throw std::logic_error("anonymous dict not top level?");
+            if(self->depth>=maxDepth)
+                throw std::runtime_error("Nested too deeply");
             self->cur = &self->cur->addNested(self->key);
             self->key.clear();
         }
-- 
2.43.0


From 84fddba74f13a99b18bb5d39d379915d998da247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 47/79] fix: printJSON() of a sub-structure with a selection

---
 src/json/jprint.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/json/jprint.cpp b/src/json/jprint.cpp
index 61b402a..5b34f7f 100644
--- a/src/json/jprint.cpp
+++ b/src/json/jprint.cpp
@@ -246,14 +246,19 @@ void show_field(args& A, const pvd::PVField* fld, const pvd::BitSet *mask)
 }
 
 void expandBS(const pvd::PVStructure& top, pvd::BitSet& mask, bool parents) {
-    if(mask.get(0)) { // special handling because getSubField(0) not allowed
+    // bits are offsets in the top level structure, which may be a parent of 'top'
+    bool all = mask.get(top.getFieldOffset()); // special handling because getSubField() of itself not allowed
+    for(const pvd::PVStructure *parent = top.getParent(); parent && !all; parent = parent->getParent())
+        all = mask.get(parent->getFieldOffset());
+
+    if(all) {
         // wildcard
-        for(size_t idx=1, N=top.getNumberFields(); idx<N; idx++) {
+        for(size_t idx=top.getFieldOffset(), N=top.getNextFieldOffset(); idx<N; idx++) {
             mask.set(idx);
         }
 
     } else {
-        for(pvd::int32 idx = mask.nextSetBit(0), N=top.getNumberFields(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
+        for(pvd::int32 idx = mask.nextSetBit(top.getFieldOffset()), N=top.getNextFieldOffset(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
             pvd::PVField::const_shared_pointer fld = top.getSubFieldT(idx);
 
             // look forward and mark all children
@@ -290,7 +295,7 @@ void printJSON(std::ostream& strm,
     args A(strm, opts);
     pvd::BitSet emask(mask);
     expandBS(val, emask, true);
-    if(!emask.get(0)) return;
+    if(!emask.get(val.getFieldOffset())) return;
     show_struct(A, &val, &emask);
 }
 
-- 
2.43.0


From 975681dbf4bc0a20da9a807fd69c7c2f5460fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 48/79] fix: types which differ only in their bounds are not
 the same type

---
 src/factory/Compare.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index f4aabac..06a8e4e 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -69,14 +69,22 @@ bool compare(const Scalar& a, const Scalar& b)
 {
     if(&a==&b)
         return true;
-    return a.getScalarType()==b.getScalarType();
+    if(a.getScalarType()!=b.getScalarType())
+        return false;
+    const BoundedString *A = dynamic_cast<const BoundedString*>(&a),
+                        *B = dynamic_cast<const BoundedString*>(&b);
+    if(A && B)
+        return compare(*A, *B);
+    return !A && !B;
 }
 
 bool compare(const ScalarArray& a, const ScalarArray& b)
 {
     if(&a==&b)
         return true;
-    return a.getElementType()==b.getElementType();
+    return a.getElementType()==b.getElementType()
+            && a.getArraySizeType()==b.getArraySizeType()
+            && a.getMaximumCapacity()==b.getMaximumCapacity();
 }
 
 bool compare(const Structure& a, const Structure& b)
-- 
2.43.0


From c25c9c2998a66877f99adcdc720dcedc159a2681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 49/79] fix: Timer: cancel() during close() races and does not
 cancel

---
 src/misc/timer.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 14a207b..7716a68 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -61,10 +61,6 @@ bool Timer::cancel(TimerCallbackPtr const &timerCallback)
 {
     Lock xx(mutex);
     if(!timerCallback->onList) return false;
-    if(!alive) {
-        timerCallback->onList = false;
-        return true;
-    }
     for(queue_t::iterator it(queue.begin()), end(queue.end()); it != end; ++it)
     {
         TimerCallbackPtr& cur = *it;
@@ -149,12 +145,15 @@ void Timer::close() {
     thread.exitWait();
 
     queue_t temp;
-    temp.swap(queue);
+    {
+        Lock xx(mutex);
+        temp.swap(queue);
+        for(queue_t::iterator it(temp.begin()), end(temp.end()); it != end; ++it)
+            (*it)->onList = false;
+    }
 
     for(;!temp.empty(); temp.pop_front()) {
-        TimerCallbackPtr& head = temp.front();
-        head->onList = false;
-        head->timerStopped();
+        temp.front()->timerStopped();
     }
 }
 
-- 
2.43.0


From dee0a429d1366a64dc4a9ea8c5dfb1d1bce40082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 50/79] fix: Timer: a periodic callback which is scheduled
 again while it runs

---
 src/misc/timer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 7716a68..5c175c2 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -66,6 +66,7 @@ bool Timer::cancel(TimerCallbackPtr const &timerCallback)
         TimerCallbackPtr& cur = *it;
         if(cur.get() == timerCallback.get()) {
             cur->onList = false;
+            cur->period = 0.0; // callback() may be running, do not put back
             queue.erase(it); // invalidates cur and it
             return true;
         }
@@ -111,7 +112,8 @@ void Timer::run()
                 work->callback();
             }
 
-            if(work->period > 0.0 && alive) {
+            // callback() may have been scheduled again in the meantime
+            if(work->period > 0.0 && alive && !work->onList) {
                 work->timeToRun += work->period;
                 addElement(work);
             }
-- 
2.43.0


From 3f90238589f0fc37222f0eac06773e295c31525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 51/79] fix: debug::shared_ptr: owner_before() does not compile

---
 src/misc/pv/debugPtr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 3ce0771..96243e4 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -203,9 +203,9 @@ public:
     bool operator<(const shared_ptr<T>& o) const { return real<o.real; }
 
     template<typename A>
-    bool owner_before(const shared_ptr<A>& o) { return real.owner_before(o); }
+    bool owner_before(const shared_ptr<A>& o) { return real.owner_before(o.real); }
     template<typename A>
-    bool owner_before(const weak_ptr<A>& o) { return real.owner_before(o); }
+    bool owner_before(const weak_ptr<A>& o) { return real.owner_before(o.real); }
 
     template<typename TO, typename FROM>
     friend
-- 
2.43.0


From 1007c42c783fb8a80889cd095093ec7d46913ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 52/79] fix: debug::shared_ptr: swap() of two references to one
 object loses a reference

---
 src/misc/debugPtr.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index 3cd3210..c211983 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -73,17 +73,20 @@ void shared_ptr_base::track_clear()
 
 void shared_ptr_base::swap(shared_ptr_base &o)
 {
-    // we cheat a bit here to avoid lock order, and to lock only twice
-    if(track) {
-        Guard G(track->mutex);
-        track->refs.insert(&o);
-        track->refs.erase(this);
-    }
-    track.swap(o.track);
-    if(track) {
-        Guard G(track->mutex);
-        track->refs.insert(this);
-        track->refs.erase(&o);
+    // nothing moves between two references of the same object
+    if(track!=o.track) {
+        // we cheat a bit here to avoid lock order, and to lock only twice
+        if(track) {
+            Guard G(track->mutex);
+            track->refs.insert(&o);
+            track->refs.erase(this);
+        }
+        track.swap(o.track);
+        if(track) {
+            Guard G(track->mutex);
+            track->refs.insert(this);
+            track->refs.erase(&o);
+        }
     }
     //TODO: keep original somehow???
     snap_stack();
-- 
2.43.0


From edfa4b5743f694c48e8f59e50200353727da11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 53/79] fix: debug::shared_ptr: not tracked when taken over
 from a unique_ptr

---
 src/misc/pv/debugPtr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 96243e4..21e4af5 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -153,7 +153,10 @@ public:
 
     // takeover from unique_ptr
     template<typename A>
-    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base(), real(a.release()) {track_new();}
+    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base(), real(a.release()) {
+        track_new(real.get());
+        do_enable_shared_from_this(*this, real.get());
+    }
 
     ~shared_ptr() {}
 
-- 
2.43.0


From 77bad946cdb3889aebec748d37e5946e46d8502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 54/79] fix: debug::shared_ptr: a failed cast or lock() is no
 reference

---
 src/misc/pv/debugPtr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 21e4af5..1461b3d 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -126,7 +126,7 @@ class shared_ptr : public shared_ptr_base {
 
     // ctor for casts
     shared_ptr(const real_type& r, const ptr_base::track_t& t)
-        :shared_ptr_base(t), real(r)
+        :shared_ptr_base(r ? t : ptr_base::track_t()), real(r)
     {track_new();}
 public:
     typedef typename real_type::element_type element_type;
-- 
2.43.0


From 4563a3c007aa98bbfb1a2ad90d93b3bc6792879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 55/79] fix: debug::shared_ptr: assignment and reset() when the
 old object owns either side

---
 src/misc/pv/debugPtr.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 1461b3d..048db55 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -162,6 +162,8 @@ public:
 
     shared_ptr& operator=(const shared_ptr& o) {
         if(this!=&o) {
+            // dropping the previous object may destroy o
+            real_type prev(real);
             real = o.real;
             track_assign(o);
         }
@@ -169,17 +171,23 @@ public:
     }
     template<typename A>
     shared_ptr& operator=(const shared_ptr<A>& o) {
-        if(get()!=o.get()) {
-            real = o.real;
-            track_assign(o);
-        }
+        // dropping the previous object may destroy o
+        real_type prev(real);
+        real = o.real;
+        track_assign(o);
         return *this;
     }
 
-    void reset() noexcept { real.reset(); track_clear(); }
+    void reset() noexcept {
+        // dropping the object may destroy *this
+        real_type prev;
+        prev.swap(real);
+        track_clear();
+    }
     template<typename A, class ... Args>
     void reset(A* a, Args ... args)
     {
+        real_type prev(real);
         real.reset(a, args...);
         track_new(a);
         do_enable_shared_from_this(*this, a);
-- 
2.43.0


From 1c6df20578f712cbf298889070e660169422c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 56/79] fix: debug::shared_ptr: show_refs() races with copying

---
 src/misc/debugPtr.cpp | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index c211983..b03924e 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -27,11 +27,12 @@ struct tracker {
 
 void shared_ptr_base::track_new()
 {
+    // before others may see us with show_refs()
+    snap_stack();
     if(track) {
         Guard G(track->mutex);
         track->refs.insert(this);
     }
-    snap_stack();
 }
 
 // create new tracker if ptr!=nullptr, otherwise clear
@@ -40,10 +41,10 @@ void shared_ptr_base::track_new(const void* ptr)
     track_clear();
     if(ptr){
         track.reset(new tracker);
+        snap_stack();
         Guard G(track->mutex);
         track->refs.insert(this);
     }
-    snap_stack();
 }
 
 void shared_ptr_base::track_assign(const shared_ptr_base &o)
@@ -51,11 +52,7 @@ void shared_ptr_base::track_assign(const shared_ptr_base &o)
     if(track!=o.track) {
         track_clear();
         track = o.track;
-        if(track) {
-            Guard G(track->mutex);
-            track->refs.insert(this);
-        }
-        snap_stack();
+        track_new();
     }
 }
 
@@ -75,22 +72,15 @@ void shared_ptr_base::swap(shared_ptr_base &o)
 {
     // nothing moves between two references of the same object
     if(track!=o.track) {
-        // we cheat a bit here to avoid lock order, and to lock only twice
-        if(track) {
-            Guard G(track->mutex);
-            track->refs.insert(&o);
-            track->refs.erase(this);
-        }
-        track.swap(o.track);
-        if(track) {
-            Guard G(track->mutex);
-            track->refs.insert(this);
-            track->refs.erase(&o);
-        }
+        track_t mine(track), other(o.track);
+        track_clear();
+        o.track_clear();
+        track = other;
+        o.track = mine;
+        //TODO: keep original somehow???
+        track_new();
+        o.track_new();
     }
-    //TODO: keep original somehow???
-    snap_stack();
-    o.snap_stack();
 }
 
 void shared_ptr_base::snap_stack()
-- 
2.43.0


From bea5e5cd4650294cbb5615b951866a2203ac53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 57/79] fix: debug::enable_shared_from_this: a copy is not
 owned by the owner of the original

---
 src/misc/pv/debugPtr.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 048db55..c493e9f 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -311,6 +311,11 @@ class enable_shared_from_this {
                                 enable_shared_from_this<Actual>* self
                                 );
 public:
+    enable_shared_from_this() {}
+    // a copy does not have the owner of the original
+    enable_shared_from_this(const enable_shared_from_this&) {}
+    enable_shared_from_this& operator=(const enable_shared_from_this&) { return *this; }
+
     shared_ptr<Base> shared_from_this() const {
         return shared_ptr<Base>(xxInternalSelf);
     }
-- 
2.43.0


From efd249017d40a79b6f3e89df5c27eacc785fadaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 58/79] fix: Thread::Config: operator<< after name() overwrites
 the name

---
 src/misc/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/misc/thread.cpp b/src/misc/thread.cpp
index cca111d..765e15c 100644
--- a/src/misc/thread.cpp
+++ b/src/misc/thread.cpp
@@ -68,7 +68,11 @@ Thread::Config::Config(std::function<void()>&& fn) {this->x_setdefault();this->r
 #endif
 
 Thread::Config& Thread::Config::name(const std::string& n)
-{ this->p_strm.str(n); return *this; }
+{
+    this->p_strm.str(std::string());
+    this->p_strm<<n; // so that operator<< appends
+    return *this;
+}
 
 Thread::Config& Thread::Config::prio(unsigned int p)
 { this->p_prio = p; return *this; }
-- 
2.43.0


From 2a01384e794fa16aae6913a1d5b8f4cd3900598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 59/79] fix: createRequest(): field called ...record with
 options taken as the record section

---
 src/copy/createRequest.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 2616550..3dce2b9 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -3,6 +3,7 @@
  * found in the file LICENSE that is included with the distribution
  */
 
+#include <ctype.h>
 #include <string>
 #include <sstream>
 
@@ -66,6 +67,23 @@ struct CreateRequestImpl {
         }
     }
 
+    // Find start of a section.  eg. key=="field("
+    // Not part of another name, and not inside (), [], or {}
+    static size_t findSection(const string& request, const string& key)
+    {
+        size_t depth = 0;
+        for(size_t i=0; i<request.size(); i++) {
+            const char c = request[i];
+            if(depth==0 && request.compare(i, key.size(), key)==0) {
+                const char prev = i==0 ? ',' : request[i-1];
+                if(!isalnum((unsigned char)prev) && prev!='_' && prev!='.') return i;
+            }
+            if(c=='(' || c=='[' || c=='{') depth++;
+            if((c==')' || c==']' || c=='}') && depth>0) depth--;
+        }
+        return string::npos;
+    }
+
     size_t findMatchingBrace(string& request, size_t index, int numOpen) {
         size_t openBrace = request.find('{', index+1);
         size_t closeBrace = request.find('}', index+1);
@@ -320,17 +338,17 @@ struct CreateRequestImpl {
             {
                 return fieldCreate->createStructure()->build();
             }
-            size_t offsetRecord = request.find("record[");
-            size_t offsetField = request.find("field(");
-            size_t offsetPutField = request.find("putField(");
-            size_t offsetGetField = request.find("getField(");
+            size_t offsetRecord = findSection(request, "record[");
+            size_t offsetField = findSection(request, "field(");
+            size_t offsetPutField = findSection(request, "putField(");
+            size_t offsetGetField = findSection(request, "getField(");
             if(offsetRecord==string::npos
             && offsetField==string::npos
             && offsetPutField==string::npos
             && offsetGetField==string::npos)
             {
                  request = "field(" + request + ")";
-                 offsetField = request.find("field(");
+                 offsetField = 0;
             }
             int numParan = 0;
             int numBrace = 0;
@@ -397,7 +415,7 @@ struct CreateRequestImpl {
                     size_t openParan = request.find('(', offsetGetField);
                     size_t closeParan = request.find(')', openParan);
                     if(closeParan==string::npos) {
-                        throw std::runtime_error(request.substr(offsetField)
+                        throw std::runtime_error(request.substr(offsetGetField)
                                 + " getField( does not have matching )");
                     }
                     if(closeParan>openParan+1) {
@@ -411,7 +429,7 @@ struct CreateRequestImpl {
                     size_t openParan = request.find('(', offsetPutField);
                     size_t closeParan = request.find(')', openParan);
                     if(closeParan==string::npos) {
-                        throw std::runtime_error(request.substr(offsetField)
+                        throw std::runtime_error(request.substr(offsetPutField)
                                 + " putField( does not have matching )");
                     }
                     if(closeParan>openParan+1) {
-- 
2.43.0


From 956d9eac72a5cbda2a7616a705ce9c875cc20c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 60/79] fix: createRequest(): ignored short options of record[]

---
 src/copy/createRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 3dce2b9..58d203b 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -387,7 +387,7 @@ struct CreateRequestImpl {
                         throw std::runtime_error(request.substr(offsetRecord) +
                             "record[ does not have matching ]");
                     }
-                    if(closeBracket-openBracket > 3) {
+                    if(closeBracket-openBracket > 1) {
                         Node node("record");
                         Node optNode = createRequestOptions(
                                 request.substr(openBracket+1,closeBracket-openBracket-1));
-- 
2.43.0


From b5f6a98526256ab3ae53d9887883121eeae6d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 61/79] fix: createRequest(): many braces overflow the stack

---
 src/copy/createRequest.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 58d203b..3ecddd1 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -85,18 +85,18 @@ struct CreateRequestImpl {
     }
 
     size_t findMatchingBrace(string& request, size_t index, int numOpen) {
-        size_t openBrace = request.find('{', index+1);
-        size_t closeBrace = request.find('}', index+1);
-        if(openBrace == string::npos && closeBrace == string::npos){
-             throw std::runtime_error(request + " mismatched {}");
-        }
-        if (openBrace != string::npos && openBrace!=0) {
-            if(openBrace<closeBrace) return findMatchingBrace(request,openBrace,numOpen+1);
-            if(numOpen==1) return closeBrace;
-            return findMatchingBrace(request,closeBrace,numOpen-1);
+        while(true) {
+            index = request.find_first_of("{}", index+1);
+            if(index == string::npos) {
+                 throw std::runtime_error(request + " mismatched {}");
+            }
+            if(request[index]=='{') {
+                numOpen++;
+            } else {
+                if(numOpen==1) return index;
+                numOpen--;
+            }
         }
-        if(numOpen==1) return closeBrace;
-        return findMatchingBrace(request,closeBrace,numOpen-1);
     }
 
     size_t findMatchingBracket(string& request, size_t index) {
-- 
2.43.0


From 78acb24e4adbe55c0e3b0ff717c33ac6f261f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 62/79] fix: createRequest(): long lists and deep nesting
 overflow the stack

---
 src/copy/createRequest.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 3ecddd1..901d0a6 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -31,6 +31,9 @@ static FieldCreatePtr fieldCreate = getFieldCreate();
 
 struct CreateRequestImpl {
 
+    // limit on nesting of fields
+    static const size_t maxDepth = 256u;
+
     struct Node
     {
         string name;
@@ -186,9 +189,15 @@ struct CreateRequestImpl {
     }
 
 
-    void createSubNode(Node &node,string const & crequest)
+    // depth - number of enclosing fields
+    void createSubNode(Node &node,string const & crequest,size_t depth = 0)
     {
+        if(depth > maxDepth) {
+            throw std::runtime_error("nested too deeply");
+        }
         string request = crequest;
+        // once for each field of the list
+        while(true) {
         size_t end = 0;
         for(size_t i=0; i<request.size(); ++i) {
             if(request[i]=='[') { end = i; break;}
@@ -237,10 +246,9 @@ struct CreateRequestImpl {
             Node subNode(name);
             if(optionNode.name.size()>0) subNode.nodes.push_back(optionNode);
             node.nodes.push_back(subNode);
-            string rest = request.substr(end+1);
+            request = request.substr(end+1);
             fullFieldName = saveFullName;
-            createSubNode(node,rest);
-            return;
+            continue;
         }
         if(chr=='.') {
             request = request.substr(end+1);
@@ -251,7 +259,7 @@ struct CreateRequestImpl {
             if(optionNode.name.size()>0) subNode.nodes.push_back(optionNode);
             size_t endField = findEndField(request);
             string subRequest = request.substr(0, endField);
-            createSubNode(subNode,subRequest);
+            createSubNode(subNode,subRequest,depth+1);
             node.nodes.push_back(subNode);
             size_t next = endField+1;
             if(next>=request.size()) {
@@ -260,8 +268,7 @@ struct CreateRequestImpl {
             }
             request = request.substr(next);
             fullFieldName = saveFullName;
-            createSubNode(node,request);
-            return;
+            continue;
         }
         if(chr=='{') {
             size_t endBrace = findEndField(request);
@@ -274,7 +281,7 @@ struct CreateRequestImpl {
             }
             Node subNode(name);
             if(optionNode.name.size()>0) subNode.nodes.push_back(optionNode);
-            createSubNode(subNode,subRequest);
+            createSubNode(subNode,subRequest,depth+1);
             node.nodes.push_back(subNode);
             size_t next = endBrace + 1;
             if(next>=request.size()) {
@@ -283,10 +290,10 @@ struct CreateRequestImpl {
             }
             request = request.substr(next);
             fullFieldName = saveFullName;
-            createSubNode(node,request);
-            return;
+            continue;
         }
         throw std::runtime_error("logic error");
+        }
     }
 
     FieldConstPtr createSubStructure(vector<Node> & nodes)
-- 
2.43.0


From 49f25afc1b05349a5cbcb3adcdf23140c502acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 63/79] fix: PVRequestMapper: assertion fails when a field is
 marked which is not requested

---
 src/copy/requestmapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 6fd2fcd..d958efc 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -256,7 +256,7 @@ void PVRequestMapper::_map(const PVStructure& src, const BitSet& maskSrc,
         for(int32 i=scratch.nextSetBit(0), N=map.size(); i>=0 && i<N; i=scratch.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // not a requested field.  In Mask mode the requested structure also has these.
 
             } else if(M.leaf) {
                 // just copy
@@ -289,7 +289,7 @@ void PVRequestMapper::_mapMask(const BitSet& maskSrc,
         for(int32 i=maskSrc.nextSetBit(0), N=map.size(); i>=0 && i<N; i=maskSrc.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // not a requested field
 
             } else {
                 maskDest.set(M.to);
-- 
2.43.0


From b39a4ec51a2335ed717091abd22aeffb98b83615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 64/79] fix: PVRequestMapper: invalid request below the first
 level is not an error

---
 src/copy/requestmapper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index d958efc..09c1367 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -211,9 +211,9 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
             if(keepids)
                 builder = builder->setId(substruct.getStructure()->getID());
 
-            _compute(substruct,
-                     static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
-                     builder, keepids, depth+1u);
+            ok &= _compute(substruct,
+                           static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
+                           builder, keepids, depth+1u);
 
             builder = builder->endNested();
         }
-- 
2.43.0


From 3eaa805f0efd8febff7096cf827cebda0a5d7928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 65/79] fix: PVRequestMapper: a structure with options but no
 list of fields was selected without its fields

---
 src/copy/requestmapper.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 09c1367..1519f79 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -21,6 +21,15 @@
 // Our arbitrary limit on pvRequest structure depth to bound stack usage during recursion
 static const unsigned maxDepth = 5;
 
+namespace {
+// Does a node of a pvRequest name sub-fields?  "_options" isn't the name of a field.
+bool selectsSubFields(const epics::pvData::Structure& req)
+{
+    const epics::pvData::StringArray& names = req.getFieldNames();
+    return names.size() > 1u || (names.size()==1u && names[0]!="_options");
+}
+} // namespace
+
 namespace epics{namespace pvData {
 
 PVRequestMapper::PVRequestMapper() {}
@@ -159,6 +168,9 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
     for(size_t i=0, N=reqNames.size(); i<N; i++) {
         // iterate through requested fields
 
+        if(reqNames[i]=="_options")
+            continue; // options of the enclosing field
+
         PVField::const_shared_pointer subtype(base.getSubField(reqNames[i]));
         const FieldConstPtr& subReq = pvReq.getStructure()->getFields()[i];
 
@@ -180,7 +192,7 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
 
         } else if(depth>=maxDepth // exceeds max recursion depth
                   || subtype->getField()->getType()!=structure // requested field is a leaf
-                  || static_cast<const Structure&>(*subReq).getFieldNames().empty() // requests all sub-fields
+                  || !selectsSubFields(static_cast<const Structure&>(*subReq)) // requests all sub-fields
                   )
         {
             // just add the whole thing
@@ -189,7 +201,7 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
                 maskRequested.set(j);
 
             if(subtype->getField()->getType()!=structure
-                    && !static_cast<const Structure&>(*subReq).getFieldNames().empty())
+                    && selectsSubFields(static_cast<const Structure&>(*subReq)))
             {
                 // attempt to select below a leaf field
                 std::ostringstream msg;
-- 
2.43.0


From b8164c57a7b8ede79f5ffb2bb733fd6eb7bdf514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 66/79] fix: PVRequestMapper: copying a mapper reads
 uninitialized members

---
 src/copy/pv/createRequest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy/pv/createRequest.h b/src/copy/pv/createRequest.h
index c761d97..54e9bd6 100644
--- a/src/copy/pv/createRequest.h
+++ b/src/copy/pv/createRequest.h
@@ -216,7 +216,7 @@ private:
                frommask; // if !leaf these are the other bits in the source mask to be copied
         bool valid; // only true in (sparse) base -> requested mapping
         bool leaf; // not a (sub)Structure?
-        Mapping() :valid(false) {}
+        Mapping() :to(0), valid(false), leaf(false) {}
         Mapping(size_t to, bool leaf) :to(to), valid(true), leaf(leaf) {}
     };
     typedef std::vector<Mapping> mapping_t;
-- 
2.43.0


From 27d616e8bdcc43c94a78abf57f20e44cabd50dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:21 +0000
Subject: [PATCH 67/79] fix: ValueBuilder::add() of a typed array did not
 compile

---
 src/pv/valueBuilder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pv/valueBuilder.h b/src/pv/valueBuilder.h
index 39ab572..14f3fd2 100644
--- a/src/pv/valueBuilder.h
+++ b/src/pv/valueBuilder.h
@@ -49,7 +49,7 @@ public:
     template<class T>
     FORCE_INLINE ValueBuilder& add(const std::string& name, const shared_vector<const T>& V)
     {
-        _add(name, V);
+        _add(name, static_shared_vector_cast<const void>(V));
         return *this;
     }
 
-- 
2.43.0


From f121c4b22591cd690f4494a3279a3103fc86d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:21 +0000
Subject: [PATCH 68/79] fix: ValueBuilder: replacing a member by an array leaks
 it

---
 src/pv/valueBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pv/valueBuilder.cpp b/src/pv/valueBuilder.cpp
index a12ee88..72b7ccf 100644
--- a/src/pv/valueBuilder.cpp
+++ b/src/pv/valueBuilder.cpp
@@ -218,6 +218,10 @@ void ValueBuilder::_add(const std::string& name, const shared_vector<const void>
 
     epics::auto_ptr<child> store(new child_scalar_array(V));
 
+    if(it!=children.end()) {
+        delete it->second;
+        children.erase(it);
+    }
     children[name] = store.get();
     store.release();
 }
-- 
2.43.0


From 27aca696fcebf549a2ffe56a73db8002a1724f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 69/79] fix: RefSnapshot::update() reads counters which may be
 gone

---
 src/misc/reftrack.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index 7c1a88a..d5cd5b9 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -93,17 +93,15 @@ RefSnapshot::operator[](const std::string& name) const
 
 void RefSnapshot::update()
 {
-    refgbl_t::counters_t counters;
-    {
-        refgbl_setup();
-        Guard G(refgbl->lock);
-        counters = refgbl->counters; // copy
-    }
+    refgbl_setup();
 
     counts.clear();
 
-    for(refgbl_t::counters_t::const_iterator it=counters.begin(),
-                                            end=counters.end();
+    // hold lock while reading as counters may be un-registered, and free'd
+    Guard G(refgbl->lock);
+
+    for(refgbl_t::counters_t::const_iterator it=refgbl->counters.begin(),
+                                            end=refgbl->counters.end();
         it!=end; ++it)
     {
         size_t cnt = atomic::get(*it->second);
-- 
2.43.0


From 01e18eef223bc397c164589813f4c130ca65aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 70/79] fix: epicsRefSnapshotCurrent() always empty

---
 src/misc/reftrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index d5cd5b9..ae1410f 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -268,7 +268,7 @@ char* epicsRefSnapshotCurrent()
         epics::RefSnapshot snap;
         snap.update();
         std::ostringstream strm;
-        strm<<snap;
+        strm<<(snap - epics::RefSnapshot()); // all non-zero
         std::string str = strm.str();
         char *ret = (char*)malloc(str.length()+1);
         if(ret)
-- 
2.43.0


From b3f69d8f1241a39b3b5180b4f1883da697fbe9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 71/79] fix: ValueBuilder: failing to clone leaks the members
 cloned before

---
 src/pv/valueBuilder.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pv/valueBuilder.cpp b/src/pv/valueBuilder.cpp
index 72b7ccf..0d2da8a 100644
--- a/src/pv/valueBuilder.cpp
+++ b/src/pv/valueBuilder.cpp
@@ -148,7 +148,14 @@ ValueBuilder::ValueBuilder(const PVStructure& clone) :parent(0)
 {
     StructureConstPtr ctype(clone.getStructure());
     id = ctype->getID();
-    child_struct::fillStruct(*this, clone);
+    try {
+        child_struct::fillStruct(*this, clone);
+    } catch(...) {
+        // no dtor call
+        for(children_t::const_iterator it=children.begin(), end=children.end(); it!=end; ++it)
+            delete it->second;
+        throw;
+    }
 }
 
 
-- 
2.43.0


From 15ececea6ff12a9292c640e0c9d4d52860d85cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 72/79] fix: escape: the hex digit 9 was printed as @

---
 src/factory/printer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 846f2de..cdbe8af 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -466,7 +466,7 @@ std::ostream& operator<<(std::ostream& strm, const PVStructure::Formatter& forma
 
 static char hexdigit(char c) {
     c &= 0xf;
-    if(c<9)
+    if(c<10)
         return '0'+c;
     else
         return 'A'+c-10;
-- 
2.43.0


From 6fba1f1b093c3ce61dc6bad5b2894e80cb24fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 73/79] fix: printing a PVStructure throws if a time or
 enumeration has a member which is not a number

---
 src/factory/printer.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index cdbe8af..722657f 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -113,14 +113,23 @@ void printAlarmT(std::ostream& strm, const PVStructure& top)
         printAlarmTx(strm, *sub);
 }
 
+// NULL unless a numeric scalar.  Others can not (always) be converted
+PVScalar::const_shared_pointer getNumeric(const PVStructure& top, const char *name)
+{
+    PVScalar::const_shared_pointer ret(top.getSubField<PVScalar>(name));
+    if(ret && !ScalarTypeFunc::isNumeric(ret->getScalar()->getScalarType()))
+        ret.reset();
+    return ret;
+}
+
 void printTimeTx(std::ostream& strm, const PVStructure& tsubop)
 {
     char timeText[32];
     epicsTimeStamp epicsTS;
 
-    PVScalar::const_shared_pointer secf(tsubop.getSubField<PVScalar>("secondsPastEpoch")),
-                                   nsecf(tsubop.getSubField<PVScalar>("nanoseconds")),
-                                   tagf(tsubop.getSubField<PVScalar>("userTag"));
+    PVScalar::const_shared_pointer secf(getNumeric(tsubop, "secondsPastEpoch")),
+                                   nsecf(getNumeric(tsubop, "nanoseconds")),
+                                   tagf(getNumeric(tsubop, "userTag"));
 
     epicsTS.secPastEpoch = secf ? secf->getAs<int64>() : 0;
     epicsTS.nsec = nsecf ? nsecf->getAs<int32>() : 0;
@@ -155,7 +164,7 @@ bool printEnumT(std::ostream& strm, const PVStructure& top, bool fromtop)
     } else {
         value = std::tr1::static_pointer_cast<const PVStructure>(top.shared_from_this());
     }
-    PVScalar::const_shared_pointer idx(value->getSubField<PVScalar>("index"));
+    PVScalar::const_shared_pointer idx(getNumeric(*value, "index"));
     PVStringArray::const_shared_pointer choices(value->getSubField<PVStringArray>("choices"));
     if(!idx || !choices) return false;
 
-- 
2.43.0


From 9c5cc049cc05f4b6f9eda04251734e942fceee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 74/79] fix: times before 1970 and after 2106 were printed as
 another time

---
 src/factory/printer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 722657f..861a91f 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -131,11 +131,12 @@ void printTimeTx(std::ostream& strm, const PVStructure& tsubop)
                                    nsecf(getNumeric(tsubop, "nanoseconds")),
                                    tagf(getNumeric(tsubop, "userTag"));
 
-    epicsTS.secPastEpoch = secf ? secf->getAs<int64>() : 0;
+    const int64 sec = secf ? secf->getAs<int64>() : 0;
     epicsTS.nsec = nsecf ? nsecf->getAs<int32>() : 0;
 
-    if(epicsTS.secPastEpoch > POSIX_TIME_AT_EPICS_EPOCH)
-        epicsTS.secPastEpoch -= POSIX_TIME_AT_EPICS_EPOCH;
+    // epicsTimeStamp has only 32 bits
+    if(sec > POSIX_TIME_AT_EPICS_EPOCH && sec <= int64(POSIX_TIME_AT_EPICS_EPOCH) + 0xffffffffu)
+        epicsTS.secPastEpoch = epicsUInt32(sec - POSIX_TIME_AT_EPICS_EPOCH);
     else
         epicsTS.secPastEpoch = 0;
 
-- 
2.43.0


From 4cfe1072e92e5c7336e4e41c810f4146be672c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 75/79] fix: printing a PVStructure changed precision and
 alignment of the stream

---
 src/factory/printer.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 861a91f..8aed716 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -409,8 +409,30 @@ void printRaw(std::ostream& strm, const PVStructure::Formatter& format, const PV
     format::indent_value(strm) = orig_indent;
 }
 
+namespace {
+struct restore_format {
+    std::ostream& strm;
+    const std::ios_base::fmtflags flags;
+    const std::streamsize precision;
+    const long indent;
+    explicit restore_format(std::ostream& strm)
+        :strm(strm)
+        ,flags(strm.flags())
+        ,precision(strm.precision())
+        ,indent(format::indent_value(strm))
+    {}
+    ~restore_format() {
+        strm.flags(flags);
+        strm.precision(precision);
+        format::indent_value(strm) = indent;
+    }
+};
+}
+
 std::ostream& operator<<(std::ostream& strm, const PVStructure::Formatter& format)
 {
+    restore_format restore(strm);
+
     if(format.xfmt==PVStructure::Formatter::JSON) {
         JSONPrintOptions opts;
         opts.multiLine = false;
-- 
2.43.0


From 466d9f5bd678452b8cc55832e73e1878dc2e888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 76/79] fix: printing a sub-structure omitted some of its
 fields

---
 src/factory/printer.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 8aed716..b0cf36f 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -296,14 +296,19 @@ bool printTable(std::ostream& strm, const PVStructure& top)
 }
 
 void expandBS(const PVStructure& top, BitSet& mask, bool parents) {
-    if(mask.get(0)) { // special handling because getSubField(0) not allowed
+    // bits are offsets in the top level structure, which may be a parent of 'top'
+    bool all = mask.get(top.getFieldOffset()); // special handling because getSubField() of itself not allowed
+    for(const PVStructure *parent = top.getParent(); parent && !all; parent = parent->getParent())
+        all = mask.get(parent->getFieldOffset());
+
+    if(all) {
         // wildcard
-        for(size_t idx=1, N=top.getNumberFields(); idx<N; idx++) {
+        for(size_t idx=top.getFieldOffset(), N=top.getNextFieldOffset(); idx<N; idx++) {
             mask.set(idx);
         }
 
     } else {
-        for(int32 idx = mask.nextSetBit(0), N=top.getNumberFields(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
+        for(int32 idx = mask.nextSetBit(top.getFieldOffset()), N=top.getNextFieldOffset(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
             PVField::const_shared_pointer fld = top.getSubFieldT(idx);
 
             // look forward and mark all children
@@ -346,7 +351,7 @@ void printRaw(std::ostream& strm, const PVStructure::Formatter& format, const PV
         highlight &= show; // can't highlight hidden fields (paranoia)
     }
 
-    if(!show.get(0)) return; // nothing to do here...
+    if(!show.get(format.xtop.getFieldOffset())) return; // nothing to do here...
 
     todo.push_front(std::make_pair(&format.xtop, orig_indent));
 
-- 
2.43.0


From c1891f1691c596ddf4383af73b79138d37242b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 77/79] fix: printing a boolean left boolalpha set in the
 stream

---
 src/pv/pvData.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pv/pvData.h b/src/pv/pvData.h
index 80abe68..932023a 100644
--- a/src/pv/pvData.h
+++ b/src/pv/pvData.h
@@ -484,7 +484,7 @@ std::ostream& PVScalarValue<uint8>::dumpValue(std::ostream& o) const
 template<> inline
 std::ostream& PVScalarValue<boolean>::dumpValue(std::ostream& o) const
 {
-    return o << std::boolalpha << static_cast<bool>(get());
+    return o << (get() ? "true" : "false");
 }
 
 /*
-- 
2.43.0


From 947bf786eefb8f0d844900eb23bd016e212fe910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:21 +0000
Subject: [PATCH 78/79] fix: a copy of a BaseException kept the text, and so
 the site, of the original

---
 src/misc/pv/epicsException.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/misc/pv/epicsException.h b/src/misc/pv/epicsException.h
index f32cc6f..6919c83 100644
--- a/src/misc/pv/epicsException.h
+++ b/src/misc/pv/epicsException.h
@@ -209,6 +209,15 @@ public:
      */
     explicit BaseException(const std::string& msg) : std::logic_error(msg) {}
 
+    // a copy composes its own text, as it may be thrown from another place
+    BaseException(const BaseException& o) : std::logic_error(o) {}
+
+    BaseException& operator=(const BaseException& o) {
+        std::logic_error::operator=(o);
+        base_msg.clear();
+        return *this;
+    }
+
     /**
      * Destructor.
      */
-- 
2.43.0


From f1273f1e5680970144f7efa11d8692ced58e9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:21 +0000
Subject: [PATCH 79/79] fix: BaseException::what() raced with itself on an
 exception shared by threads

---
 src/misc/epicsException.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/misc/epicsException.cpp b/src/misc/epicsException.cpp
index b19bb82..81460aa 100644
--- a/src/misc/epicsException.cpp
+++ b/src/misc/epicsException.cpp
@@ -13,6 +13,7 @@
 #include <string>
 
 #define epicsExportSharedSymbols
+#include <pv/lock.h>
 #include <pv/epicsException.h>
 
 using std::string;
@@ -62,6 +63,9 @@ const char*
 BaseException::what() const throw()
 {
     try{
+        // one exception may be examined by several threads (eg. through std::exception_ptr)
+        static Mutex mutex;
+        Lock guard(mutex);
         if (base_msg.size()==0) {
             const char *base=std::logic_error::what();
             string out, stack;
-- 
2.43.0

